#!/usr/bin/env python3
# Regenerates the "fixed" list of known_findings.json from the fix commits (findings themselves are edited by hand in KNOWN below).
import json,subprocess
FIXED=[ # (property, commit subject, what failed)
 ("C03","Detect Lyrics3v2 tags","an APE/ID3v1 save lost or misplaced data next to a Lyrics3v2 block"),
 ("C04","Do not append an empty ID3v1 tag when removing an absent one","removing an absent ID3v1 tag appended 128 bytes"),
 ("C10","Skip the ID3v2 footer when guessing the file type","detection behind an ID3v2 tag with a footer failed"),
 ("C04","Respect header-less APE tags and APE tags at the start of the file","header-less APE tags were mis-sized and overwritten with the audio; leading ones were duplicated"),
 ("C01","Skip the unread remainder of ID3v2 frames","a frame parsed short desynchronised the following frames"),
 ("C02","Do not write ID3v2 frame flags for transformations that are not applied","frames were written with compression/encryption/grouping flags whose data was not there"),
 ("C06","Read and write ID3v2 extended headers according to their version","extended headers were sized wrongly for v2.3 and v2.4"),
 ("C14","Read audio properties consistently, regardless of the tags being read","turning off tag reading changed the audio properties"),
 ("C05","Keep FLAC padding blocks behind newly written metadata","every save moved padding and rewrote the file"),
 ("C06","Keep chunk sizes correct when replacing ID3v2 chunks in RIFF/AIFF files","RIFF/FORM sizes and pad bytes were wrong after replacing an odd-sized ID3v2 chunk"),
 ("C03","Handle extended MP4 atoms and update all offsets when writing ilst","co64/stco/tfhd offsets stayed stale when udta/meta/ilst was created or removed; atoms of extended size were mis-parsed"),
 ("C15","Read the full MP4 AudioSpecificConfig and avoid overflows in MP4 properties","explicit sampling frequencies and extended object types were decoded from the wrong bits"),
 ("C04","Don't mistake an APE preamble for an ID3v1 tag","an APE tag whose footer preamble ends 123 bytes before EOF was taken for an ID3v1 tag, so the APE tag was lost and duplicated"),
 ("C21","Keep zero-length packets when paginating","a zero-length packet vanished from the paginated stream"),
 ("C03","Keep everything behind the header packets when writing Ogg comments","bytes behind the last page were cut off; pages of other logical streams were renumbered"),
 ("C06","Account for chunk padding when writing RIFF INFO lists","the pad byte of an odd-sized LIST chunk was left behind; a list appended to a stream of odd length was misaligned"),
 ("C06","Keep data following the FORM chunk out of its size when writing AIFF text chunks","the FORM size swallowed data behind the FORM chunk"),
 ("C06","Pad the last chunk before appending an ID3v2 chunk","an ID3v2 chunk appended to a stream of odd length was misaligned"),
 ("C03","Only search for junk-preceded ID3v2 tags in front of the audio when writing, and replace duplicate tags","the letters ID3 inside the first KiB of audio made a save drop the audio in front of them; a duplicate ID3v2 tag survived its replacement"),
 ("C06","Only set a granule position on Ogg pages that finish a packet","a packet of exactly 32*255 bytes put a granule position on a page no packet ends on"),
 ("C24","Write the encoding used for the text of SYLT frames in ID3v2.3 form","the UTF-16 text of a SYLT frame saved as ID3v2.3 was labelled with the encoding of the frame"),
 ("C02","Don't fail on false ADTS frame syncs","an AAC file whose ID3v1 tag ends in FF (track 255) could not be read any more"),
 ("C02","Write the URL of WXXX frames as Latin-1","WXXX URLs were written in the description's encoding and read back as Latin-1"),
 ("C17","Only strip byte order marks from the start of UTF-16 strings","U+FEFF inside a UTF-16 string was dropped"),
 ("C02","Skip the pad byte behind odd-sized AIFF comments","every AIFF comment behind one of odd length was misread"),
 ("C02","Encode UTF-16 ilst values as UTF-16","UTF-16 atom values were written as UTF-8 bytes"),
 ("C01","Apply the allocation limit to the byte size of lists","an MP4 stts entry count allocated 8 times the allocation limit"),
 ("C01","Return an error when an APE tag is larger than the stream","an APE footer size beyond the stream made the APE/WavPack readers panic (subtract with overflow)"),
 ("C01","Avoid panics on unusual Opus, Speex and Musepack headers","unusual header fields made the Opus, Speex and Musepack readers panic"),
 ("C07","Remove tags from paths by content and with write access","TagType::remove_from_path opened the file read-only and trusted the extension, so every removal that had to write failed with EBADF"),
 ("C16","Do not poison the resolver map on duplicate registration","a duplicate registration panicked with the resolver map locked, so every later extension lookup in the process returned None (also made two probe tests flaky)"),
 ("C16","Do not poison the resolver map on unregistered lookups","looking up an unregistered custom FileType panicked with the resolver map locked"),
 ("C07","Refuse to save empty tags of unsupported types","an empty tag of an unsupported type was accepted, or hit unreachable!() (VorbisComments into AAC and others)"),
 ("C07","Avoid panics on WAV and MP4 files with wrong sizes when saving","saving to a WAV whose RIFF size is below 4, or an MP4 whose last atom is longer than the file, panicked"),
 ("C08","Don't treat failing readers as the end of an Ogg stream","Packets::read took a failing read of a page header for the end of the stream and returned fewer packets"),
 ("C08","Report I/O errors that parsing carried on from","about 40 places treat any error like bad data (frame headers, ID3v1/ID3v2 searches, sync searches, atom and chunk loops, ...), so a failing read or seek gave an incomplete parse, or a save based on one"),
 ("C09","Write the frames of a converted tag in a fixed order","a generic tag saved as ID3v2 (and the channels of an RVA2 frame) came out in a different random order on every save"),
 ("C09","Don't lose unsynchronised data when a read is interrupted","UnsynchronizedStream dropped the bytes it had already decoded when the underlying read was interrupted"),
 ("C10","list the wave extension in EXTENSIONS","FileType::from_ext accepts `wave`, but EXTENSIONS (documented as the list of supported extensions, meant to be kept in step) lacked it"),
 ("C15","Don't count Opus header pages as audio","the audio bitrate of an Opus file grows with its tag, as the page headers around a large comment packet were counted as audio (5 -> 19 kbps for a 460 kB comment packet)"),
 ("C18","Read encrypted ID3v2 frames that are unsynchronised","an encrypted and unsynchronised frame whose content holds FF 00 failed the whole tag with 'failed to fill whole buffer'"),
 ("C18","Resume ID3v2.3 unsynchronisation after the extended header","an unsynchronised ID3v2.3 extended header ending in FF 00 left the 00 in front of the first frame, so that all frames were dropped"),
 ("C08","Remove imports left unused by earlier fixes","(tidying only: compiler warnings)"),
 ("C19","Treat a blank timestamp as absent","a timestamp of nothing but whitespace gave an I/O error in the lenient modes, failing the whole ID3v2 tag"),
 ("C25","Keep ID3v1 accessors within what the fields can hold","set_track(256) stored track 0, set_comment cut non-ASCII comments at 28 UTF-8 bytes although the field holds 28 Latin-1 characters, and numeric genres beyond the table were stored"),
 ("C17","Refuse nulls that would cut ID3v2 text short","ID3v2 text in a terminated field (and WXXX-less URLs) containing a NUL was written and cut (or shifted into the next field) when read back"),
 ("C17","Encode ID3v2 MIME types as Latin-1","APIC and GEOB MIME types with characters beyond ASCII were written as UTF-8 and read back as Latin-1"),
 ("C17","Don't write OWNE dates that aren't ASCII","OWNE dates with multi-byte characters were cut in the middle of a character"),
 ("C17","Read UTF-16 comments and lyrics up to the end of the frame","UTF-16 COMM/USLT content behind a NUL was lost, other encodings kept it"),
 ("C17","Separate the pairs of ID3v2.3 IPLS frames properly","ID3v2.3 IPLS: empty last values lost, NULs split pairs, U+FFFE at the start of a value lost, TIPL and TMCL in different encodings lossily merged"),
 ("C12","Convert generic tags before saving them","Tag::save_to(APE/ID3v2/Vorbis) differed from converting and saving: dropped APE pictures, duplicated keys, Vorbis ratings/flags/vendor, two TIPL frames"),
 ("C23","Parse popularimeters with a separator in their email","'a|b@c|3|7' was split at the first separator: rating lost"),
 ("C23","Convert Vorbis ratings without an email","RATING without an email (or in lower case) was not converted to a popularimeter"),
 ("C23","Convert RIFF INFO ratings between their native and generic forms","IRTD numbers read as unparseable popularimeters; generic form saved verbatim from a converted RiffInfoList"),
 ("C12","Save locators of generic tags to ID3v1 and AIFF text chunks alike","a locator in a generic ID3v1/AIFF tag was dropped when saved directly, kept when converted first"),
 ("C12","Save RIFF INFO ratings and locators of generic tags like converted ones","RIFF INFO locators and unparseable ratings were dropped when saved directly, kept when converted first"),
 ("C11","Write every mapped key when converting to ID3v2","Work was written as the invalid frame WORK (the save failed), MVIN was never rebuilt, Color and other TXXX-mapped keys were dropped, and several values of TSRC/TENC/TPUB/... kept only the first"),
 ("C11","Store the ID3v2 podcast flag as an integer","a generic FlagPodcast made an ID3v2 save fail"),
 ("C11","Keep comment descriptions and odd recording IDs when splitting ID3v2 tags","split+merge lost comment descriptions and UFID identifiers that are not text"),
 ("C11","Keep the encoder fields of Vorbis Comments when merging","ENCODER fields were lost on split+merge"),
 ("C11","Convert the APE movement total under its own key","MovementTotal was appended to MovementNumber and never read back"),
 ("C11","Keep the items without a generic key when splitting RIFF INFO lists","items without an ItemKey were dropped on split+merge"),
 ("C20","Read the descriptions of APE pictures as UTF-8","APE picture descriptions with characters beyond ASCII were written as UTF-8 and read as Latin-1"),
 ("C14","Match APE cover art keys without regard to case","read_cover_art=false kept cover art whose key is in other case"),
 ("C11","Convert APE cover art to pictures","cover art of APE tags was missing from the generic tag and lost on a generic read+save"),
 ("C01","Accept short COVERART fields in Vorbis comments","a COVERART field of fewer than 8 decoded bytes panicked"),
 ("C20","Reject JPEG sections that are too short","a JPEG section of length 0 or 1, or precision x components over 255, panicked"),
 ("C20","Count two channels in greyscale PNGs with alpha","colour depth of colour type 4 was multiplied by 4"),
 ("C13","Keep the existing icon when a new one is refused","insert_picture() of an unreadable icon removed the existing icon and returned an error"),
 ("C13","Keep the order of Vorbis comments when removing a field","removing one field reordered the values of the others"),
 ("C13","Remove Vorbis comments without sorting","same, simplified"),
 ("C22","Look up RIFF INFO items without regard to case","get() was case-sensitive while insert() and remove() are not"),
 ("C13","Keep the order of the remaining items in Tag::take_filter()","the remaining items were reordered against the documentation, changing what their getters return"),
 ("C13","Keep the order of ilst atoms when removing an atom","removing one atom reordered the others"),
 ("C13","Keep the order of ID3v2 frames when removing a frame","removing one frame reordered the others"),
 ("C13","Find borrowed pictures in ID3v2 frame lists","remove_picture_type() and insert_picture() ignored pictures held by reference"),
 ("C13","Store the date set through Id3v2Tag::set_date() as a timestamp","date() returned None after set_date(), and ID3v2.3 output lost the date"),
 ("C22","Refuse to write ilst atoms with invalid identifiers","an atom with an identifier outside the accepted bytes was written and hid the rest of the tag from readers"),
 ("C22","Don't write ID3v2 frames without content","an empty URL frame was written with size 0"),
 ("C13","Remove every comment in AiffTextChunks::remove_comment()","remove_comment() left the COMT comments, comment() still returned one"),
 ("C13","Don't truncate numbers that don't fit into trkn and disk atoms","set_track(65536) on an ilst tag stored track 0"),
 ("C13","Replace timestamp and key-value frames with the same ID in FrameList::insert()","inserting a second TDRC or TIPL frame kept both, against the documentation of insert()"),
 ("C14","Continue after the declared end of a leading APE tag in MPEG files","with tags on the reader continued after the items of a leading APE tag, with tags off after its declared size: properties differed"),
 ("C14","Discard invalid UFID and RVA2 frames in relaxed mode","a UFID without owner or an RVA2 with an unknown channel is accepted by BestAttempt and refused the whole file in Relaxed"),
 ("C14","Continue after the end of a LIST chunk whose last item is damaged","an INFO item longer than its LIST was read past the end of the LIST, and every following chunk from a wrong position"),
 ("C14","Don't read FLAC pictures when tags are not read","read_tags(false) still gave a tag with the pictures of a FLAC file"),
 ("C24","Always write 4 digits in TYER frames","a TDRC of year 99 was written to ID3v2.3 as TYER \"99\""),
 ("C24","Store the additional information of ID3v2 frames in the order of the specification, and leave encrypted frames compressed","an encrypted frame written as ID3v2.3 could not be read again (no data length indicator exists there) and refused the whole file; group byte and encryption symbol were swapped in ID3v2.4; encrypted content was decompressed before it was decrypted"),
 ("C15",'Compute the length of MPEG Layer I frames in whole slots','Layer I frame lengths were not multiples of 4 bytes, so the following frames were missed'),
 ("C15",'Find the last MPEG frame across the reverse search windows','last frames whose header straddled a 1024-byte search window or overlapped a false sync were missed: wrong duration'),
 ("C15",'Look up VBRI headers at their fixed offset and accept MPEG streams too short for a VBR header','VBRI headers of mono / MPEG-2 streams ignored (wrong duration and bitrate); short streams rejected'),
 ("C15",'Avoid a division by zero in Musepack SV7 streams without samples','panic on a one-frame gapless stream with a last frame of length 0'),
 ("C15",'Read the 40-bit total sample count of WavPack streams','duration of streams over 2^32 samples ignored the upper byte'),
 ("C15",'Read the channel information of multichannel WavPack streams','multichannel streams reported no channels; mask sizes mishandled; custom rate reset by later blocks'),
 ("C15",'Map MPEG-4 channel configurations to channel counts','channel configuration 7 was reported as 7 channels, 11-14 likewise'),
 ("C15",'Use the specified speakers for MPEG-4 channel configuration 4','4-channel mask was quad instead of L R C + rear center'),
 ("C16",'Apply the allocation limit to the content of ID3v2 frames','ID3v2 frames of any size were read whatever the limit, and compressed frames expanded without bound'),
 ("C16",'Call custom resolvers without holding the registry lock','a resolver that uses the library deadlocked; one that panicked disabled all custom resolvers, and from_ext, for the whole process'),
 ("C02","Write the number of bits an RVA2 peak takes up","RVA2 frames were written with a count of bytes where the specification has a count of bits for the peak, and peaks wider than 32 bytes were truncated"),
 ("C15","Report no speaker positions for Opus mapping families without them","Opus files of a mapping family that defines no speaker positions reported those of family 1"),
 ("C26","Upgrade the ID3v2.2 frames TOA and TXT to TOPE and TEXT","TOA and TXT frames of ID3v2.2 were not upgraded to their later identifiers"),
 ("C26","Keep full dates in ID3v2.3 tags, and dates no timestamp can hold","a TYER frame with a full date lost month and day, a year no timestamp can hold dropped its TDAT/TIME frames"),
 ("C26","Read freeform MP4 atoms with extended sizes","freeform ilst items whose atoms use 64-bit sizes ended the item list"),
 ("C26","Read single-byte ilst integers as signed","a one-byte signed integer below zero was read as 128 to 255"),
 ("C26","Skip only the ilst values that cannot be used","an ilst value of an unknown type set swallowed the item behind it; data atoms with 64-bit sizes were refused; a value too short for its header ended the list"),
 ("C26","Keep the pictures beside one of an unknown type in a covr atom","one picture of an unknown type discarded the whole covr atom"),
 ("C03","Update the moof offsets in tfra atoms","tfra (random access) offsets kept pointing at the old position of the moof atoms after a save"),
 ("C27","Verify the format of the file a FlacFile is saved to","FlacFile::save_to panicked on a file of another format, and on a handle that doesn't stand at the start"),
 ("C20","Find the frame header of any JPEG","JPEGs whose frame header is not SOF0/SOF2, is the first segment or follows fill bytes were refused"),
 ("C26","Honor the byte order mark of each UTF-16 string in a frame","UTF-16 strings of one frame with byte order marks that differ were all decoded in the order of the first"),
 ("C06","Start the CRC of an ID3v2 tag right behind its restrictions","the CRC of an ID3v2 tag with restrictions left out the first byte of the frames"),
 ("C29","Refuse to save a generic tag to a custom file type rather than panic","saving or removing any generic tag, TaggedFile or BoundTaggedFile on a custom file whose resolver lists the type as writable panicked"),
 ("C29","Refuse to save Vorbis Comments to a custom file type rather than panic","saving or removing VorbisComments on a custom file type panicked"),
]
log=subprocess.run(["git","-C","/repo","log","--format=%h %s"],capture_output=True,text=True).stdout.splitlines()
by={l.split(' ',1)[1].removeprefix('fix: '):l.split(' ',1)[0] for l in log if ' fix: ' in l}
fixed=[]
for p,s,w in FIXED:
    c=by.pop(s)
    fixed.append(f"fixed: property={p} {c} {w}")
for s in by: print("unrecorded fix:",s)
try: old=json.load(open('/verif/known_findings.json'))
except Exception: old={"findings":[]}
json.dump({"findings":old["findings"],"fixed":fixed},open('/verif/known_findings.json','w'),indent=1,ensure_ascii=False)
