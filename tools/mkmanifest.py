#!/usr/bin/env python3
# Generates MANIFEST.json. A property listed in CHECKS is claimed; every other one goes to not_applicable.
import json
H="breadth-first explicit-state exploration of edit histories on the real code, with a reference model and container walkers"
CHECKS={
 "C01":("exploration","exhaustive enumeration of all single (thorough: also paired) damages of structured inputs, executed on the real readers under allocation and I/O budgets","Every truncation and byte edit of every header region of a seed set covering all formats and tag kinds, read with every public reader and parsing mode."),
 "C07":("exploration","exhaustive enumeration of (format x layout x tag type x entry point) and of all single damages of the targets, on the real code","Refusals follow an independently written support table; a failed save or removal leaves the bytes identical; nothing panics."),
 "C02":("exploration","exhaustive bounded exploration of save/re-read transitions on the real code","Every item kind x edge value, all pairs of kinds, all header flag combinations, on every writable (tag type, format) pair, saved, re-read and saved again."),
 "C03":("model_checking",H,"Every history of saves/removals up to the depth bound, from every initial layout, executed on the real code; audio and foreign structures compared by independent walkers after each transition."),
 "C04":("model_checking",H,"Every interleaving of save/remove over all tag types up to the depth bound (states deduplicated by file bytes); each step compared with an abstract tag-set model."),
 "C05":("model_checking",H,"At every reachable state each operation is repeated and the tag read is re-saved; the file bytes have to be a fixpoint, and file growth is bounded."),
 "C06":("model_checking",H,"Strict independent walkers re-parse the whole container after every explored transition."),
 "C08":("fault_enumeration","exhaustive single-fault injection: every I/O call position of every operation, on the real code","Every read/seek/write/truncate/len call of about 1300 operations over all formats fails once, or from there on, with several error kinds; the result has to be an error or exactly the fault-free result and bytes."),
 "C09":("exploration","exhaustive enumeration of transfer splittings and interruptions at every transfer position, and of all entry points, on the real code","Every operation under all caps, alternating interruptions, and one short or interrupted transfer at each position; memory, handle, path, bound and generic entry points compared byte for byte."),
 "C10":("exploration","exhaustive enumeration of layouts, prefixes, junk lengths, signature damages and extension strings on the real detector, against an independent signature predicate","Every layout and saved file is detected, every guess has its signature, the reader is put back; the extension table is checked on every string of up to four characters."),
 "C18":("exploration","exhaustive enumeration of all u8, u16 and u32 values, of all short byte strings over the escape alphabet under all read splittings, and of tags stored unsynchronised in every version","Every integer through synch/unsynch/widening against an independent 7-bit oracle; every string through the stream decoder under every inner and outer read pattern; every pattern in frames of v2.2, v2.3 (tag-wide, with extended header, compressed) and v2.4 (frame flags, tag flag, data length, compression, encryption) compared with the plain form."),
 "C19":("exploration","exhaustive enumeration of valid timestamps x spellings x parsing modes, of all short strings over the timestamp alphabet, of all field validity combinations and of all pairs of a grid","Every spelling parses to its fields, strict mode equals an independent grammar on every string, invalid fields are refused on encoding, order is chronological."),
 "C17":("exploration","exhaustive enumeration of every Unicode scalar at every kind of position under every text encoding, and of all short strings over an alphabet of troublesome characters in every pair of neighbouring fields, through real save and read","All 1,112,064 scalars in ID3v2 text/comment/extended frames (4 encodings, both versions), VorbisComments, APE, ilst, RIFF INFO and AIFF chunks; every pair of neighbouring fields of 17 ID3v2 frame kinds; foreign byte orders and missing BOMs built independently."),
 "C21":("model_checking","exhaustive enumeration of packet-size lists, flags and positions against an independent pager/depager model, every page stream replayed through the implementation in both directions","States are paged streams; each model stream is validated against lofty's own paginate/read and vice versa, including checksums, lacing at 255 multiples, continuation flags, sequence wrap and readers failing at any byte."),
 "C25":("exploration","exhaustive enumeration of genres, tracks, field lengths, scalars and truncated tails through real save and read against an independent 128-byte encoder","All byte values of every field, all scalars, all (genre, track) pairs, all accessor calls with boundary values."),
 "C12":("exploration","exhaustive enumeration of generic tags (all keys x value shapes, all key pairs, pictures, generic forms of all native kinds) over all formats, tag types and file layouts through the real code; the four ways to save, the dump and the generic read are compared with the converted native tag","all keys and value shapes, all pairs of keys; bounded set of values and layouts"),
 "C11":("exploration","exhaustive enumeration of all native item kinds, their pairs (thorough: triples) and sizes through split/merge and both conversions with preservation on and off, and of all (key x value) and (key x key) generic tags through conversion, saving and generic reading, on the real code","About 13,000 native tags and 25,000 generic tags, with an independent table of which keys share a name and which hold several values."),
 "C20":("exploration","exhaustive enumeration of pictures (types x MIME types x descriptions x data lengths x containers) and of all truncations, byte edits and byte-pair edits of image headers, through the real encoders, decoders and files, against independently built headers and blocks","All picture types, MIME spellings and lengths at the base64 and size limits; all 1-byte edits and all pairs of boundary values in image headers."),
 "C22":("exploration","exhaustive enumeration of identifiers (every byte at every position, all lengths at the limits, pairs of positions) through construction, lookup, save and read of every tag type, against an independent statement of each format's rules","All one- and two-position deviations of identifiers, in memory and through files; foreign identifiers in files."),
 "C23":("exploration","exhaustive enumeration of providers x stars x native values x counters x e-mail classes x tag types x files through the real conversions and encoders, against the published scales and an independent POPM encoding","All 256 native values, all provider tables, counters at every byte length, including a custom provider."),
 "C13":("model_checking","explicit-state breadth-first search over call sequences on the real tag types, each call checked against an independent list model (lockstep conformance)","Seven tag types and the generic Tag of seven tag types; every sequence of calls up to depth 3-5 (quick) or 4-8 (thorough)."),
 "C14":("exploration","exhaustive enumeration of option sets x files (differential against the full read)","Every layout with rich tags, every short body of every item kind and damaged seeds, in 3 modes x 8 option sets and without implicit conversions."),
 "C24":("exploration","exhaustive enumeration of frames, pairs, triples, dates, genres and flags written in both versions, compared through an independent folding and an ID3v2.3 wire walker","All frame kinds x encodings, all ordered pairs, triples of rewritten frames; also inside chapters."),
 "C15":("exploration","exhaustive enumeration of the header fields of all formats (each finite field completely, wide fields at every power of two), VBR headers, cut and padded streams and tag arrangements, through the real readers, against an independent statement of each format's specification","About 93,000 files; sample rate, channels, mask, depth, duration, bitrates and the typed properties of each."),
 "C16":("model_checking","stateless exploration of all interleavings of fresh threads under a controlled scheduler on the real code (whole operations: unbounded; reader calls: preemption-bounded; resolver callbacks), with results compared with the documented meaning of the options, plus exhaustive sweeps of the allocation limit over reads and saves","66,000 schedules and 3 million limit evaluations (quick)."),
 "C26":("exploration","exhaustive enumeration of item sequences (singles, pairs, triples) of every tag format, encoded by independent writers in every header, container and page variant, read in all parsing modes and compared with the concatenation of the items' expected readings","About 1.3 million tags (quick)."),
 "C27":("model_checking","explicit-state breadth-first search over call sequences on real BoundTaggedFile and TaggedFile objects (equal states merged), and every call sequence up to a depth on the twelve concrete file types, each in lockstep with a model of tags held and tags in the file","Depth 3 to 5 (quick), 4 to 6 (thorough), two start files per format."),
 "C28":("model_checking","exhaustive enumeration of the option space: every combination of write options on every (format, tag type, layout, content) state of the file, each save compared with the save under the defaults and with an independent statement of the option","Known findings: remove_others and respect_read_only(true) are documented but not implemented."),
 "C29":("model_checking","explicit-state search of every reachable state of four derived file types in lockstep with a model of their fields, and exhaustive enumeration of ways of reading (with every fault of the reader) and of writing on registered custom files","Four derived types; tags take four values; three resolvers registered at once (C16 covers more resolvers and their interleavings)."),
}
from mkprops_na import NA
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
m={"version":1,"setup_cmd":"./lv.sh --build","checks":[],"not_applicable":[]}
for p in props:
    i=p["id"]
    if i in CHECKS:
        lv,t,n=CHECKS[i]
        m["checks"].append({"property":i,"quick_cmd":f"./lv.sh {i}","thorough_cmd":f"VERIF_TIER=thorough ./lv.sh {i}","technique":t,"level":lv,"level_note":n})
    else:
        m["not_applicable"].append({"property":i,"reason":NA.get(i,"no sound check built yet")})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
