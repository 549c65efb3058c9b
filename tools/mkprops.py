#!/usr/bin/env python3
# Generates /verif/properties.jsonl (single source of the property texts).
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}}
    if state: d["anchors"]["state"]=[{"name":a,"meaning":b,"where":c} for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=list(observe)
    d["anchors"]["hook_needed"]=hook
    assert len(title)<=80,title
    P.append(d)

p("C01","Reading any bytes ends in a result or an error, never a panic or a hang",
 "For every byte string, read as any supported file type (forced or detected) under any parse options, reading returns a parsed file or an error. It never panics, never loops without consuming input, and never allocates a single buffer beyond the configured allocation limit on the word of a length field.",
 ["inputs","configurations"],"every byte string x every file type x every combination of parse options",
 "The tests feed a few dozen hand-picked corrupt files; totality is a claim about all byte strings, and the bugs sit at particular values of particular length fields, truncation points and mode combinations.",
 ["lofty/src/probe.rs","lofty/src/id3/v2/read.rs","lofty/src/id3/v2/frame/read.rs","lofty/src/mp4/atom_info.rs","lofty/src/mp4/ilst/read.rs","lofty/src/iff/chunk.rs","lofty/src/ogg/tag/read.rs","lofty/src/ape/tag/read.rs","lofty/src/flac/read.rs","lofty/src/util/alloc.rs","lofty/src/picture/mod.rs","ogg_pager/src/lib.rs"],
 [("length checks before every read and allocation","lofty/src/util/alloc.rs, AtomInfo::read, Chunks::next, read_comments"),("fallible allocation with a configurable limit","lofty/src/macros.rs try_vec!, GlobalOptions::allocation_limit")],
 observe=["Probe::read, AudioFile::read_from return value","panic hook","allocator statistics","count of reader calls"])

p("C02","A saved tag reads back equal",
 "For every native tag the API can build and every file format that supports writing it, saving the tag and reading the file again yields an equal tag (same items, values, flags and pictures), under every padding choice. The same holds for a tag that was itself obtained by reading a file. Where a value cannot be represented the save fails or the documented normalisation applies; nothing else is silently altered or lost.",
 ["inputs","programs","configurations"],"every native tag content (items, value types, encodings, sizes, duplicates) x every writable (tag type, file format) pair x write options",
 "Unit tests round-trip a fixed golden tag per format; losses hide in particular value types, lengths (odd sizes, 0/255/256, page and synchsafe boundaries), duplicates and padding settings.",
 ["lofty/src/id3/v2/write/mod.rs","lofty/src/id3/v2/write/frame.rs","lofty/src/id3/v2/frame/content.rs","lofty/src/mp4/ilst/write.rs","lofty/src/mp4/ilst/read.rs","lofty/src/ogg/tag/write.rs","lofty/src/flac/write.rs","lofty/src/ape/tag/write.rs","lofty/src/iff/wav/tag/write.rs","lofty/src/iff/aiff/tag/mod.rs","lofty/src/id3/v1/write.rs"],
 [("per-format encoder/decoder pairs","*/write.rs, */read.rs"),("verification of frame/value combination before encoding","lofty/src/id3/v2/write/frame.rs verify_frame")],
 observe=["tag obtained from a fresh read of the saved bytes"])

p("C03","Editing tags never changes the audio or any unrelated data",
 "For every file and every sequence of tag saves and removals through any API, the audio payload and every piece of the file that is not the edited tag or padding (other chunks, metadata blocks, atoms, packets) keep exactly the same bytes in the same order. Index structures that point into the audio keep pointing at the same audio bytes.",
 ["inputs","histories","configurations"],"every file layout (tags/padding/foreign chunks present, absent, in any order, odd-sized, before or after audio) x every sequence of tag edits x tag sizes around every threshold",
 "Tests compare a handful of files and mostly look only at the re-read tag, not at the bytes outside it; corruption appears only for particular layouts and size deltas.",
 ["lofty/src/flac/write.rs","lofty/src/iff/chunk.rs","lofty/src/id3/v2/write/chunk_file.rs","lofty/src/iff/wav/tag/write.rs","lofty/src/iff/aiff/tag/mod.rs","lofty/src/mp4/ilst/write.rs","lofty/src/mp4/write.rs","lofty/src/ogg/tag/write.rs","lofty/src/ape/tag/write.rs","lofty/src/id3/v1/write.rs","lofty/src/id3/v2/write/mod.rs"],
 [("splice of only the tag region","each */write.rs"),("chunk-offset relocation","lofty/src/mp4/ilst/write.rs update_offsets")],
 state=[("file bytes","container around the audio payload","the FileLike being edited")],observe=["payload and foreign structures extracted by independent container walkers in /verif"])

p("C04","Tags of different types in one file are edited independently",
 "For every file format and every history of saves and removals of its supported tag types, the file holds after each step exactly the tags the history implies: the tag just saved has the content just saved and exists once, a removed tag is gone, and every other tag is unchanged. Removing a tag that is absent, or saving an empty one where none exists, leaves the file without that tag and with everything else unchanged.",
 ["histories"],"every interleaving of save(content)/remove over all tag types a format supports, from every initial tag combination",
 "Tests perform single operations (write one tag, remove one tag); interference between an ID3v2 header, APE footer, ID3v1 trailer, Lyrics3, LIST and text chunks needs multi-step histories.",
 ["lofty/src/tag/utils.rs","lofty/src/tag/tag_type.rs","lofty/src/file/tagged_file.rs","lofty/src/id3/v1/write.rs","lofty/src/id3/v2/write/mod.rs","lofty/src/ape/tag/write.rs","lofty/src/iff/wav/tag/write.rs","lofty/src/iff/aiff/tag/mod.rs","lofty/src/id3/mod.rs","lofty/src/id3/v2/write/chunk_file.rs"],
 [("locating existing tags before writing","id3::find_id3v2, find_id3v1, find_lyrics3v2, ape::read_ape_tag"),("empty tag means removal","TagType::remove_from, */write.rs")],
 state=[("tag set","map from tag type to content","file on disk")],observe=["all tags of a fresh read after every step"])

p("C05","Re-saving is a fixpoint: no growth, no drift",
 "Saving a tag over itself any number of times reaches at once a file that further identical saves leave byte-for-byte unchanged, and read-then-save histories never make the tag content drift. A save followed by removal, repeated, keeps the file size bounded, and removing twice equals removing once.",
 ["histories","configurations"],"every tag content x format x padding option x number of repetitions, and alternations of two contents",
 "Drift and growth only show across repeated operations on the same file with particular size relations between old tag, new tag and padding; the tests save once or twice.",
 ["lofty/src/flac/write.rs","lofty/src/mp4/ilst/write.rs","lofty/src/id3/v2/write/mod.rs","lofty/src/id3/v2/write/chunk_file.rs","lofty/src/ogg/tag/write.rs","lofty/src/iff/wav/tag/write.rs","lofty/src/ape/tag/write.rs","lofty/src/config/write_options.rs"],
 [("padding reuse","mp4 save_to_existing, flac write_to_inner"),("preferred padding","WriteOptions::preferred_padding")],
 observe=["file bytes after n and n+1 saves"])

p("C06","The container stays structurally valid after every edit",
 "After any successful save or removal, all size, count, checksum and ordering fields of the container are again consistent with its contents: RIFF/FORM and chunk sizes and pad bytes, FLAC block chain and last-block flag, Ogg page CRCs, sequence numbers, flags and packet lacing, MP4 atom nesting and sizes, APE header/footer sizes and item count, ID3v2 sizes. A strict independent parse of the container succeeds whenever it did before the edit.",
 ["inputs","histories","configurations"],"every (initial layout, edit history, tag size, padding) with particular attention to odd sizes and to tags at the start, middle and end of the container",
 "The library's own lenient reader is what the tests use to look at written files, so inconsistent parent sizes or missing pad bytes pass unnoticed.",
 ["lofty/src/id3/v2/write/chunk_file.rs","lofty/src/iff/wav/tag/write.rs","lofty/src/iff/aiff/tag/mod.rs","lofty/src/flac/write.rs","lofty/src/flac/block.rs","lofty/src/ogg/tag/write.rs","ogg_pager/src/packets.rs","ogg_pager/src/paginate.rs","lofty/src/mp4/write.rs","lofty/src/mp4/ilst/write.rs","lofty/src/ape/tag/write.rs"],
 [("parent size patching","write_atom_size, RIFF/FORM size updates"),("page regeneration with CRC","ogg_pager Page::gen_crc, paginate")],
 observe=["strict container walkers in /verif run on the bytes"])

p("C07","A refused or failing-to-encode save leaves the file untouched",
 "When a save of one tag, or a removal, is refused - the format does not support the tag type, the tag type is read-only there, the content cannot be encoded or is too large, or the target is not a valid file of a supported format - an error is returned and the file's bytes are exactly as before. Which tag types each format accepts is exactly what the library reports as its support table, through every API entry point.",
 ["inputs","configurations"],"every (format, tag type, entry point) pair and every unencodable content class, over files with and without existing tags",
 "Tests check a few error kinds; they do not check that the file is byte-identical after each refusal nor all pairs of format, tag type and entry point.",
 ["lofty/src/tag/tag_ext.rs","lofty/src/tag/tag_type.rs","lofty/src/tag/utils.rs","lofty/src/file/file_type.rs","lofty/src/util/io.rs","lofty/src/id3/v2/write/frame.rs","lofty/src/ape/tag/write.rs","lofty/src/mp4/ilst/write.rs"],
 [("format verification before writing","VerifiedFile, FileType::tag_support"),("encode fully before touching the file","*/write.rs")],
 observe=["returned error and bytes of the target"])

p("C08","I/O faults are reported, never swallowed into a wrong result",
 "If any single read, seek, write or truncate on the underlying file fails, at any point of any operation, the operation returns an error or, for a read, a result identical to the fault-free one. It never panics, never reports success for a save that was not completely performed, and never returns a silently incomplete parse.",
 ["fault_sequences"],"every operation x every index of an underlying I/O call x every error kind",
 "No test injects I/O errors; the property ranges over every call position in every code path.",
 ["lofty/src/util/io.rs","lofty/src/probe.rs","lofty/src/mp4/moov.rs","lofty/src/mp4/ilst/read.rs","lofty/src/iff/chunk.rs","lofty/src/ogg/tag/write.rs","lofty/src/flac/write.rs","lofty/src/id3/v2/read.rs","ogg_pager/src/lib.rs"],
 [("? propagation of io::Error","throughout")],
 observe=["return value and bytes of an instrumented FileLike"])

p("C09","Results do not depend on how the file is delivered or which entry point is used",
 "Reading gives the same result from memory, from an open file, from a path and through readers that return short or interrupted reads. Saving or removing gives byte-identical files from memory, an open handle (at its start) and a path, and through writers that accept only part of each buffer.",
 ["inputs","fault_sequences","configurations"],"every operation x every legal read/write splitting (first-call, every-call and single-position deviations) x entry points",
 "Tests always use well-behaved files or cursors; the Read/Write contracts allow short transfers and Interrupted at any call, and path-based and handle-based code paths differ.",
 ["lofty/src/util/io.rs","lofty/src/tag/tag_ext.rs","lofty/src/tag/tag_type.rs","lofty/src/file/audio_file.rs","lofty/src/probe.rs","ogg_pager/src/lib.rs","lofty/src/id3/v2/util/synchsafe.rs"],
 [("read_exact/write_all everywhere a full transfer is needed","throughout"),("path and handle unified","lofty/src/util/io.rs FileSource")],
 observe=["parsed results and resulting bytes"])

p("C10","File type detection is right, stable and leaves the reader where it was",
 "For every well-formed file of a supported format that has a signature (Musepack before SV7 has none), content detection yields that format, also behind an ID3v2 tag and, where the format allows it, behind junk up to the configured limit; a guess never yields a type whose mandatory signature is absent. Detection and the extension table are consistent and case-insensitive, and guessing leaves the reader at its starting position so that a following read sees the whole file.",
 ["inputs","configurations"],"every format x every ID3v2 prefix (version, size, footer, padding) x junk length x truncation x extension spelling",
 "Tests probe one sample per format; misdetection depends on prefix length versus probe buffer size, junk contents and near-miss signatures.",
 ["lofty/src/probe.rs","lofty/src/file/file_type.rs","lofty/src/mpeg/header.rs","lofty/src/resolve.rs"],
 [("36-byte signature match, ID3v2 skip, frame-sync search","Probe::guess_file_type, FileType::from_buffer_inner")],
 observe=["Probe::file_type, reader position, read result"])

p("C11","Converting between generic and native tags loses nothing it can represent",
 "For every native tag, splitting it into a generic tag plus remainder and merging them back yields an equivalent tag, and items the generic tag cannot express survive the generic round trip when format-specific preservation is on. For every generic key and tag type that maps it, text values of the kind the key holds, placed in a generic tag, are found unchanged and in order under the same key (where several keys share one native name, under the one listed for that name) after conversion to the native tag and back, and after saving and reading the file generically. Numbers and totals, flags, ratings, dates, languages and descriptions convert by their documented rules.",
 ["inputs","programs"],"every native tag over the item alphabet; every (generic key x tag type x value class), singly and in pairs",
 "There are 150 keys x 8 tag types with special cases for pairs, flags, ratings, dates, languages and key-value lists; the tests convert one golden tag per type.",
 ["lofty/src/tag/item.rs","lofty/src/tag/split_merge_tag.rs","lofty/src/tag/companion_tag.rs","lofty/src/id3/v2/tag/conversion.rs","lofty/src/mp4/ilst/mod.rs","lofty/src/ape/tag/mod.rs","lofty/src/ogg/tag.rs","lofty/src/iff/wav/tag/mod.rs","lofty/src/iff/aiff/tag/mod.rs","lofty/src/id3/v1/tag.rs"],
 [("bidirectional key maps","lofty/src/tag/item.rs gen_map!"),("companion tag","lofty/src/tag/companion_tag.rs")],
 observe=["split_tag/merge_tag/From conversions"])

p("C12","Saving a generic tag equals converting it and saving the native tag",
 "For every generic tag and every file that supports its type, saving it directly, saving it as part of a file's tag collection, and converting it to the native tag and saving that all produce files that read back with the same tags, and all fail alike. Reading a file generically gives exactly the converted tags its concrete reader finds. Dumping a tag to a writer produces the bytes of that same encoding, without touching any file.",
 ["inputs","programs","configurations"],"every generic tag over (key x value class) singles and pairs x tag type x host format x entry point",
 "Each tag type has two encoders (from the native struct and by reference from the generic tag) that tests never compare across all keys.",
 ["lofty/src/tag/utils.rs","lofty/src/ogg/tag/write.rs","lofty/src/ogg/tag.rs","lofty/src/ape/tag/mod.rs","lofty/src/id3/v2/tag.rs","lofty/src/id3/v1/tag.rs","lofty/src/iff/wav/tag/mod.rs","lofty/src/iff/aiff/tag/mod.rs","lofty/src/file/tagged_file.rs"],
 [("per-type tag references","tag/utils.rs write_tag/dump_tag")],
 observe=["bytes written and fresh reads"])

p("C13","Tag accessors and collections behave like a map through any call history",
 "For every tag type and every history of accessor and collection calls (set, get, remove, insert, push, take, retain, for text, number, total, date and picture fields), each getter returns exactly what the calls so far imply: set then get returns the value or the documented truncation of it, remove makes it absent, and no call changes a field it does not name. (A number and its total share one item in ID3v2, APE and ilst: a total set alone stands beside the number 0, and removing the number removes the total. ID3v1 and ilst ignore a number that does not fit their field. Entries with different keys may change places.)",
 ["histories","programs"],"every sequence of set/remove/insert/push/take calls over all fields up to a depth, from empty and populated tags, for each of the tag types",
 "Paired fields (number/total in one item), aliased keys and shared frames interact only across sequences; tests try each accessor once.",
 ["lofty/src/tag/accessor.rs","lofty/src/tag/mod.rs","lofty/src/id3/v2/tag.rs","lofty/src/mp4/ilst/mod.rs","lofty/src/ape/tag/mod.rs","lofty/src/ogg/tag.rs","lofty/src/iff/wav/tag/mod.rs","lofty/src/iff/aiff/tag/mod.rs","lofty/src/id3/v1/tag.rs"],
 [("Accessor implementations","each tag type"),("number pair splitting","lofty/src/id3/v2/util/pairs.rs")],
 state=[("fields","abstract map field -> value(s)","the tag object")],observe=["getters after every call"])

p("C14","Parse options filter the result and change nothing else",
 "Turning off reading of tags, properties or cover art gives exactly the full result with that part removed: the remaining parts are identical. Whatever strict parsing accepts is parsed to the same result by the best-attempt and relaxed modes (which additionally look for an ID3v2 tag inside junk before the first MPEG frame), and whatever best-attempt accepts relaxed accepts too, with the same properties. (A file refused with everything on may be read with a part off.)",
 ["inputs","configurations"],"every file (well-formed and damaged) x every combination of parse options",
 "Skipping a part means a different code path must advance the reader by the same amount; tests use the default options almost everywhere.",
 ["lofty/src/config/parse_options.rs","lofty/src/mpeg/read.rs","lofty/src/aac/read.rs","lofty/src/ape/read.rs","lofty/src/musepack/read.rs","lofty/src/wavpack/read.rs","lofty/src/flac/read.rs","lofty/src/iff/wav/read.rs","lofty/src/iff/aiff/read.rs","lofty/src/mp4/moov.rs","lofty/src/id3/v2/frame/read.rs"],
 [("ParseOptions threading","each read_from")],
 observe=["tags and properties of the parsed file under each option set"])

p("C15","Reported audio properties follow the headers and not the tags",
 "For every combination of the header fields that encode them, the reported sample rate, channels, bit depth, bitrate, duration and codec parameters equal those the format's specification assigns. Values no header stores (durations and bitrates of streams without a stored length) equal the documented estimate. They do not change when tags or padding are added, grown or removed around the same audio, except that bitrates and durations derived from the file's size count the bytes they are documented to count.",
 ["inputs","histories"],"every value combination of the finite header fields (MPEG version/layer/bitrate/rate/channel, ADTS, STREAMINFO, fmt, COMM, Opus/Vorbis/Speex heads, APE, Musepack, WavPack) and every tag arrangement around them",
 "Tests compare one sample file per format; the header fields form a finite space that can be enumerated against the specification's tables.",
 ["lofty/src/mpeg/header.rs","lofty/src/mpeg/properties.rs","lofty/src/aac/properties.rs","lofty/src/aac/header.rs","lofty/src/flac/properties.rs","lofty/src/iff/wav/properties.rs","lofty/src/iff/aiff/properties.rs","lofty/src/ogg/opus/properties.rs","lofty/src/ogg/vorbis/properties.rs","lofty/src/ogg/speex/properties.rs","lofty/src/ape/properties.rs","lofty/src/musepack/sv8/properties.rs","lofty/src/wavpack/properties.rs","lofty/src/mp4/properties.rs"],
 [("per-format property readers","*/properties.rs")],
 observe=["AudioFile::properties, FileProperties"])

p("C16","Global options are per-thread and take effect at once, in every interleaving",
 "In every interleaving of threads that apply global options and read or convert tags, each thread's operations behave according to the options that thread last applied (defaults if none): its allocation limit, format-specific preservation and custom resolver setting, unaffected by other threads. Lowering the allocation limit makes exactly those reads fail that need a larger buffer for an item, compressed items included, and a save under a limit either writes what an unlimited one would or fails leaving the file as it was. A custom file type is detected from the moment its registration completes, and its callbacks may use the library themselves or panic without affecting any other operation.",
 ["schedules","configurations"],"every interleaving of apply/read/convert operations of two or three threads, x every limit around the needed size",
 "Tests run single-threaded per option; isolation is a statement about all interleavings.",
 ["lofty/src/config/global_options.rs","lofty/src/util/alloc.rs","lofty/src/resolve.rs","lofty/src/probe.rs","lofty/src/macros.rs"],
 [("thread-local options","lofty/src/config/global_options.rs"),("resolver registry lock","lofty/src/resolve.rs")],
 state=[("options","per-thread limits and switches","GLOBAL_OPTIONS"),("resolvers","process-wide table","CUSTOM_RESOLVERS")],observe=["results of reads and conversions in each thread"])

p("C17","Text survives every encoding, or is refused",
 "Every string written in a text-bearing item under any of its encodings reads back as the same string, for all Unicode scalar values and all positions; a string the chosen encoding cannot express is refused, or replaced character by character when lossy encoding was requested. Terminators and byte order marks never leak into or cut neighbouring fields.",
 ["inputs","configurations"],"every Unicode scalar value, all short strings over a boundary alphabet, x encodings x text-bearing item kinds x ID3v2 version",
 "Tests use a few ASCII strings; the space of scalar values x encodings is finite and can be covered completely.",
 ["lofty/src/util/text.rs","lofty/src/id3/v2/items/text_information_frame.rs","lofty/src/id3/v2/items/language_frame.rs","lofty/src/id3/v2/items/extended_text_frame.rs","lofty/src/id3/v2/items/key_value_frame.rs","lofty/src/id3/v1/write.rs","lofty/src/mp4/ilst/read.rs","lofty/src/mp4/ilst/write.rs"],
 [("TextEncoding encode/decode","lofty/src/util/text.rs")],
 observe=["frame value after dump and parse"])

p("C18","Synchsafe and unsynchronised data decode to exactly what was encoded",
 "Synchsafe integers and unsynchronisation are exact inverses of their specified encodings: every representable integer round-trips and others are refused, and reading a tag or frame stored unsynchronised gives the same frames as the plain form, wherever the FF 00 sequences fall and however the reads are split.",
 ["inputs"],"all 28-bit integers (and the 8/16-bit forms); all byte strings over a critical alphabet up to a length, at every offset relative to internal buffers, x read sizes",
 "Tests sample some integers and a few byte strings; the failure cases are sequences straddling buffer and read boundaries.",
 ["lofty/src/id3/v2/util/synchsafe.rs","lofty/src/id3/v2/read.rs","lofty/src/id3/v2/frame/read.rs","lofty/src/id3/v2/header.rs"],
 [("UnsynchronizedStream, SynchsafeInteger","lofty/src/id3/v2/util/synchsafe.rs")],
 observe=["public util functions and parsed tags"])

p("C19","Timestamps parse, print, order and verify consistently",
 "Every valid timestamp prints to a form that parses back to the same timestamp in every parsing mode, every string in one of the documented forms parses to the fields it spells, malformed fields or separators are rejected in strict mode, and fields out of range or without their parent are refused when a timestamp is written; nothing panics. Ordering of timestamps agrees with chronological ordering of their fields.",
 ["inputs"],"all field combinations at their boundaries x precision; all strings over the timestamp alphabet up to a length, and all single-character edits of valid ones",
 "Tests list some valid and broken strings; the grammar is small enough to enumerate.",
 ["lofty/src/tag/items/timestamp.rs","lofty/src/id3/v2/items/timestamp_frame.rs","lofty/src/tag/utils.rs"],
 [("Timestamp::parse, Display, verify","lofty/src/tag/items/timestamp.rs")],
 observe=["Timestamp API"])

p("C20","Pictures survive every container encoding",
 "Every picture (type, MIME type, description, data, and information block) encoded for FLAC blocks, base64 Vorbis fields, ID3v2 frames, MP4 covers or APE items decodes to the same picture up to what that format can express. Image information derived from the data equals the image's own header, and malformed image headers give an error, not a panic.",
 ["inputs","configurations"],"all picture types x MIME types x description classes x data lengths modulo 3 and around size limits x containers; all truncations and header mutations of image data",
 "Tests use one cover image; type codes, MIME spelling, description bytes and base64 padding each multiply the space.",
 ["lofty/src/picture/mod.rs","lofty/src/ogg/picture_storage.rs","lofty/src/id3/v2/items/attached_picture_frame.rs","lofty/src/ape/tag/mod.rs","lofty/src/mp4/ilst/write.rs"],
 [("as_flac_bytes/from_flac_bytes, as_ape_bytes/from_ape_bytes","lofty/src/picture/mod.rs")],
 observe=["Picture API and files"])

p("C21","Ogg packets survive paging",
 "For every list of packet sizes, splitting the packets into Ogg pages and reading them back yields the same packets in the same number; every page is well formed (lacing, continuation and stream flags, sequence numbers, granule positions, checksum), and reading a number of packets consumes exactly the pages that carry them.",
 ["inputs","histories"],"every list of up to four packets with sizes at and around every multiple of 255 and of the page maximum; every page split of them on input",
 "Tests paginate one or two fixed packets; the lacing edge cases (0, 255, 65025 and page-filling sizes, packets ending on page boundaries) need enumeration.",
 ["ogg_pager/src/packets.rs","ogg_pager/src/paginate.rs","ogg_pager/src/lib.rs","ogg_pager/src/header.rs","ogg_pager/src/crc.rs"],
 [("paginate, Packets::read_count, Page","ogg_pager/src")],
 observe=["ogg_pager public API, independent pager in /verif"])

p("C22","Keys and identifiers are accepted exactly when the format allows them",
 "For each format's item identifiers (ID3v2 frame IDs, Vorbis field names, APE keys, RIFF INFO IDs), construction accepts an identifier exactly when the format's rules allow it, and an accepted one is found again, with the format's case rule, and can be saved and read back. An invalid identifier never reaches a file.",
 ["inputs"],"all one- and two-position deviations over all 256 byte values of each identifier kind, and all lengths around the limits",
 "Tests try a few bad keys; the claim is about every byte at every position.",
 ["lofty/src/id3/v2/frame/header/mod.rs","lofty/src/ogg/tag.rs","lofty/src/ogg/tag/read.rs","lofty/src/ape/tag/item.rs","lofty/src/ape/constants.rs","lofty/src/iff/wav/tag/mod.rs"],
 [("key verification","FrameId::new, verify_key, ApeItem::new, valid_key")],
 observe=["constructors and read-back"])

p("C23","Ratings convert monotonically and back",
 "For every tag dialect and provider, every star rating maps to a native value that maps back to the same stars, native values map monotonically to stars, and a popularimeter's email, rating and play counter survive text and binary encoding.",
 ["inputs"],"all providers x all stars x all 256 native values x counters at byte-length boundaries",
 "The value tables are finite and can be checked completely; tests sample them.",
 ["lofty/src/tag/items/popularimeter.rs","lofty/src/id3/v2/items/popularimeter.rs"],
 [("StarRating mapping tables","lofty/src/tag/items/popularimeter.rs")],
 observe=["Popularimeter API and frames"])

p("C24","ID3v2.3 output carries the same information as ID3v2.4 output",
 "Saving an ID3v2 tag as ID3v2.3 and reading it yields the tag that saving it as ID3v2.4 yields, except for the frames ID3v2.3 cannot express, which are dropped or folded as documented (dates to year, day and minute; TIPL and TMCL into one list; UTF-8 and UTF-16BE into UTF-16; no footer, CRC or restrictions; inside chapters a date stays split). Everything written in 2.3 form uses only frame IDs, encodings and sizes legal in 2.3.",
 ["inputs","configurations"],"every frame kind x encoding x flags, singly and in pairs, x both output versions",
 "The down-conversion has its own code path per frame; tests cover a few frames.",
 ["lofty/src/id3/v2/write/frame.rs","lofty/src/id3/v2/write/mod.rs","lofty/src/id3/v2/read.rs","lofty/src/id3/v2/util/upgrade.rs","lofty/src/id3/v2/tag/conversion.rs"],
 [("create_items_v3, construct_tdrc_from_v3","lofty/src/id3/v2")],
 observe=["fresh read and independent ID3v2 walker"])

p("C25","ID3v1 fields are stored exactly within their limits",
 "For every value, an ID3v1 field saved and read back equals the value restricted to what the fixed field can hold (Latin-1, field length, 1..255 track, genre table); fields never spill into their neighbours, and the tag always occupies exactly the last 128 bytes of the file.",
 ["inputs","histories"],"all field lengths 0..limit+2 x character classes x all tracks and genres x presence of other trailing tags",
 "Tests write one ID3v1 tag; the limits and shared comment/track bytes need boundary enumeration.",
 ["lofty/src/id3/v1/write.rs","lofty/src/id3/v1/read.rs","lofty/src/id3/v1/tag.rs","lofty/src/id3/v1/constants.rs"],
 [("fixed-size field encoding","lofty/src/id3/v1/write.rs")],
 observe=["last 128 bytes and fresh read"])

p("C26","Tags of other writers are read as the items they encode",
 "A tag encoded by any conforming writer is read as exactly the items it encodes, with the values, types and flags the format's specification gives them: ID3v2.2, 2.3 and 2.4 (every text encoding, frame and header flag, extended header, unsynchronisation, compression, padding, footer), MP4 ilst (every well-known value type, value width, size form, several values, freeform names), APEv1 and APEv2, Vorbis comments in FLAC and in every page layout of Ogg, RIFF INFO and AIFF text chunks. This holds in every parsing mode, in every order, and at every place the format allows the tag. Where the lenient modes skip a malformed item, they lose that item and no other. The documented implicit conversions (ID3v2.2/2.3 upgrades, gnre, track numbers with totals) happen exactly when enabled.",
 ["inputs","configurations"],"all sequences of up to three items per format out of an alphabet of every item kind, value form and malformation x header and container variants x parsing modes x conversion and cover-art options",
 "Tests read a fixed set of fixture files; the interplay of one item's encoding with its neighbours and with header variants is unbounded.",
 ["lofty/src/id3/v2/read.rs","lofty/src/id3/v2/header.rs","lofty/src/id3/v2/frame/read.rs","lofty/src/id3/v2/frame/content.rs","lofty/src/id3/v2/util/upgrade.rs","lofty/src/mp4/ilst/read.rs","lofty/src/mp4/atom_info.rs","lofty/src/ape/tag/read.rs","lofty/src/ogg/tag/read.rs","lofty/src/iff/wav/tag/read.rs","lofty/src/iff/aiff/read.rs","lofty/src/iff/chunk.rs"],
 [("parse_frame, parse_content","lofty/src/id3/v2/frame"),("parse_ilst, parse_data_inner","lofty/src/mp4/ilst/read.rs"),("read_comments","lofty/src/ogg/tag/read.rs"),("Chunks::next","lofty/src/iff/chunk.rs")],
 observe=["items of the concrete tags of a fresh read"])

p("C27","A tagged file is a collection of tags, and saving it makes the file follow",
 "For every sequence of calls, BoundTaggedFile, TaggedFile and the concrete file types behave as a collection of at most one tag per type: insert_tag accepts exactly the types the format can read and returns the tag it replaces, remove returns the tag it removes, tag, tag_mut, first_tag, primary_tag, contains_tag, contains_tag_type and tags show exactly the tags held, set_*, remove_* and *_mut of the concrete types likewise, and converting a concrete file to a TaggedFile keeps every tag, the type and the properties. Nothing but a save changes the file. A save writes every held tag the format can write (an empty one removes it), leaves all other tags in the file as they are, works wherever the file handle stands and for any target file of the same format, and BoundTaggedFile then drops its empty tags. A concrete file saved over a file of another format acts as its tags do there.",
 ["histories"],"all call sequences up to a depth over an alphabet of inserting, replacing, removing, editing, clearing, saving and reopening x formats x start files x kinds of object, merging equal states",
 "Tests make one or two calls; the guarantees concern every history of edits and saves.",
 ["lofty/src/file/tagged_file.rs","lofty/src/file/audio_file.rs","lofty_attr/src/lofty_file.rs","lofty/src/flac/mod.rs","lofty/src/tag/tag_ext.rs"],
 [("TaggedFile::save_to, insert_tag, remove","lofty/src/file/tagged_file.rs"),("BoundTaggedFile::save","lofty/src/file/tagged_file.rs"),("derive(LoftyFile)","lofty_attr/src/lofty_file.rs"),("FlacFile::write_to","lofty/src/flac/mod.rs")],
 observe=["answers of the calls","tags held","file bytes","tags of a fresh read"])

p("C28","Write options do exactly what they document",
 "For every format, tag type, file and content, a save under any combination of write options differs from the save with the defaults only in what the options document: preferred_padding yields that much padding where the tag format has padding (exactly, in ID3v2), uppercase_id3v2_chunk chooses the name of the ID3v2 chunk of WAV and AIFF and nothing else, use_id3v23 chooses the ID3v2 version, lossy_text_encoding(false) refuses text its encoding cannot hold and leaves the file untouched while true writes '?' for it, remove_others(true) keeps only the tag being written, respect_read_only keeps read-only APE items, and the parse options of a save do not change what is written. Options that do not concern a tag change no byte. The generic Tag, TaggedFile and the concrete tag write the same with the same options.",
 ["configurations"],"all combinations of options x formats x tag types x file layouts x contents (empty, small, picture, unencodable)",
 "Tests set one option at a time on one file.",
 ["lofty/src/config/write_options.rs","lofty/src/id3/v2/write/mod.rs","lofty/src/id3/v2/write/chunk_file.rs","lofty/src/id3/v1/write.rs","lofty/src/flac/write.rs","lofty/src/mp4/ilst/write.rs","lofty/src/ape/tag/write.rs"],
 [("WriteOptions","lofty/src/config/write_options.rs"),("create_tag padding and version","lofty/src/id3/v2/write/mod.rs"),("write_id3v2_chunk","lofty/src/id3/v2/write/chunk_file.rs"),("pad_atom","lofty/src/mp4/ilst/write.rs")],
 observe=["file bytes under each combination"])

p("C29","Custom file types are read, held and refused like the built-in ones",
 "For a file type made with derive(LoftyFile) and registered as a resolver, in every state its accessors can reach: each getter, *_mut, set_* and remove_* acts on its own tag and returns what it replaced or removed, contains_tag and contains_tag_type say exactly which tags are held, and the conversion to TaggedFile has the custom type, the properties and every tag held in the order of the fields. save_to calls the writing function if there is one and else saves every held tag in turn. Reading by content, by type, through a bound file or directly gives the same file, hands on the parse options, and fails if the reader failed, whatever the reading function makes of it; while custom resolvers are off the type is not recognised. No way of saving or removing any tag on a custom file panics or damages the file: it is refused with the file untouched, or (ID3v2, APE and ID3v1 saved as concrete tags) only added to what was there.",
 ["histories"],"all reachable states of derived types x accessor calls; ways of reading x options x faults of the reader; ways of writing x tag types x options x custom files",
 "The example and one test register a type and read it once; nothing tests accessors of user types, faults or writing.",
 ["lofty_attr/src/lofty_file.rs","lofty/src/resolve.rs","lofty/src/probe.rs","lofty/src/tag/utils.rs","lofty/src/tag/tag_ext.rs","lofty/src/file/tagged_file.rs","lofty/src/ogg/tag/write.rs"],
 [("derive(LoftyFile)","lofty_attr/src/lofty_file.rs"),("register_custom_resolver","lofty/src/resolve.rs"),("write_tag","lofty/src/tag/utils.rs"),("Probe::read","lofty/src/probe.rs")],
 observe=["answers of the accessors","tagged file read","file bytes"])


with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+'\n')
print(len(P))
