//! Small files around one item with every short body: the content of each frame, item, block, chunk
//! and atom, over an alphabet of bytes that have a meaning somewhere.
use crate::mk::*;
use crate::walk::*;

pub const ALPHA: [u8; 9] = [0, 1, 2, 3, b'/', b'A', 0x80, 0xFE, 0xFF];
/// Every string over `a` of up to `n` bytes
pub fn strings(a: &[u8], n: usize) -> Vec<Vec<u8>> {
    let mut all: Vec<Vec<u8>> = vec![vec![]];
    let mut last = all.clone();
    for _ in 0..n {
        last = last.iter().flat_map(|s| a.iter().map(move |b| [&s[..], &[*b]].concat())).collect();
        all.extend(last.iter().cloned());
    }
    all
}
pub fn base64(b: &[u8]) -> Vec<u8> {
    const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut o = Vec::new();
    for c in b.chunks(3) {
        let n = (u32::from(c[0]) << 16) | (u32::from(*c.get(1).unwrap_or(&0)) << 8) | u32::from(*c.get(2).unwrap_or(&0));
        for i in 0..4 {
            o.push(if i <= c.len() { A[(n >> (18 - 6 * i)) as usize & 63] } else { b'=' });
        }
    }
    o
}
pub const V4: [&str; 58] = [
    "TIT2", "TPE1", "TRCK", "TPOS", "TCON", "TDRC", "TDOR", "TDEN", "TDRL", "TDTG", "TYER", "TDAT", "TIME", "TORY", "TIPL", "TMCL", "IPLS", "TCMP", "TBPM", "TLEN", "TSRC", "TXXX", "COMM", "USLT", "WXXX", "WCOM", "WOAR", "WXYZ", "UFID", "PRIV", "POPM", "PCNT", "APIC", "RVA2", "OWNE", "ETCO", "GEOB", "SYLT",
    "ATXT", "CHAP", "CTOC", "PCST", "GRP1", "MVNM", "MVIN", "MCDI", "AENC", "ENCR", "COMR", "EQU2", "LINK", "POSS", "RBUF", "SEEK", "SIGN", "TRDA", "TSIZ", "XYZ9",
];
pub const V2: [&str; 29] = ["TT2", "TP1", "TRK", "TPA", "TCO", "TYE", "TDA", "TIM", "TOR", "IPL", "TCP", "TXX", "COM", "ULT", "WXX", "WCM", "UFI", "POP", "CNT", "PIC", "CRM", "ETC", "GEO", "SLT", "MCI", "PCS", "GP1", "CRA", "XY9"];
/// (name, format, prefix of the file, bodies, rest): `build` makes the file
pub type Build = Box<dyn Fn(&[u8]) -> Vec<u8> + Send + Sync>;
pub struct Family {
    pub name: String,
    pub fmt: Fmt,
    pub build: Build,
    pub bodies: Vec<Vec<u8>>,
}
pub fn families(n: usize) -> Vec<Family> {
    let mut v: Vec<Family> = Vec::new();
    let mut add = |name: String, fmt: Fmt, bodies: &[Vec<u8>], build: Build| v.push(Family { name, fmt, build, bodies: bodies.to_vec() });
    let full = strings(&ALPHA, n);
    let short = strings(&ALPHA, n - 1);
    let tiny = strings(&ALPHA, n.saturating_sub(2).max(1));
    // ID3v2
    for id in V4 {
        add(format!("v4:{id}"), Fmt::Mpeg, &full, Box::new(move |b| [id3v2_tag(4, 0, &id3v2_frame_v4(id, b), 0), mpeg_audio(1)].concat()));
        add(format!("v3:{id}"), Fmt::Mpeg, &full, Box::new(move |b| [id3v2_tag(3, 0, &id3v2_frame_v3(id, b), 0), mpeg_audio(1)].concat()));
        for fl in [0x0001u16, 0x0002, 0x0003, 0x0004, 0x0005, 0x0008, 0x0009, 0x0040, 0x0041, 0x004F, 0x0042, 0xFFFF] {
            add(format!("v4:{id}:{fl:x}"), Fmt::Mpeg, &short, Box::new(move |b| [id3v2_tag(4, 0, &crate::seeds::v4_flags(id, fl, &[], b), 0), mpeg_audio(1)].concat()));
        }
        for fl in [0x0080u16, 0x0040, 0x0020, 0x00A0, 0x00C0, 0x00E0, 0xFFFF] {
            add(format!("v3:{id}:{fl:x}"), Fmt::Mpeg, &short, Box::new(move |b| [id3v2_tag(3, 0, &crate::seeds::v3_flags(id, fl, &[], b), 0), mpeg_audio(1)].concat()));
        }
    }
    for id in V2 {
        add(format!("v2:{id}"), Fmt::Mpeg, &full, Box::new(move |b| [id3v2_tag(2, 0, &id3v2_frame_v2(id, b), 0), mpeg_audio(1)].concat()));
    }
    // the frames themselves, and the tag and extended headers
    for ver in 0..=5u8 {
        for fl in [0u8, 0x40, 0x80, 0x10, 0xC0, 0x50, 0xFF] {
            add(format!("tag{ver}:{fl:x}"), Fmt::Mpeg, &full, Box::new(move |b| [id3v2_tag(ver, fl, b, 0), mpeg_audio(1)].concat()));
            add(format!("ext{ver}:{fl:x}"), Fmt::Mpeg, &full, Box::new(move |b| [id3v2_tag(ver, fl, &[&[0, 0, 0][..], b, b, &[0; 8]].concat(), 0), mpeg_audio(1)].concat()));
        }
    }
    // APE
    for k in ["Title", "Track", "Disc", "Year", "Compilation", "Cover Art (Front)", "cover art (x)", "Cover Art (Icon)", "Comment", "MovementIndex", "Genre", "ab", "a\u{e9}", "TAG", "OggS"] {
        for fl in [0u32, 1, 2, 4, 6, 3] {
            add(format!("ape:{k}:{fl}"), Fmt::Mpeg, &full, Box::new(move |b| [mpeg_audio(1), ape_tag_full(&[(k, fl, b)], fl < 2, true)].concat()));
        }
    }
    // Vorbis comments
    for k in ["TITLE", "TRACKNUMBER", "DISCNUMBER", "TRACKTOTAL", "DATE", "YEAR", "RATING", "RATING:a@b", "METADATA_BLOCK_PICTURE", "COVERART", "coverart", "METADATA_BLOCK_PICTUREX", "", "~", "ENCODER", "COMPILATION"] {
        let raw = move |c: Vec<u8>| {
            let mut o = le32(1).to_vec();
            o.extend(b"v");
            o.extend(le32(1));
            o.extend(le32(c.len() as u32));
            o.extend(c);
            o
        };
        for f in [Fmt::Flac, Fmt::Opus] {
            let wrap = move |c: Vec<u8>| match f {
                Fmt::Flac => flac_file(&[(4, raw(c))]),
                _ => {
                    let t = [&b"OpusTags"[..], &raw(c)].concat();
                    let mut o = ogg_page(2, 0, 7, 0, &[&opus_head()]);
                    o.extend(ogg_page(0, 0, 7, 1, &[&t]));
                    o.extend(ogg_audio_pages(7, 2));
                    o
                }
            };
            add(format!("vc:{k}"), f, &full, Box::new(move |b| wrap([k.as_bytes(), b"=", b].concat())));
            add(format!("vcraw:{k}"), f, &short, Box::new(move |b| wrap([k.as_bytes(), b].concat())));
            let w2 = wrap;
            add(format!("vcb64:{k}"), f, &full, Box::new(move |b| w2([k.as_bytes(), b"=", &base64(b)[..]].concat())));
            // prefixes of signatures and of a picture block
            let mut pic = be32(3).to_vec();
            pic.extend(be32(9));
            pic.extend(b"image/png");
            pic.extend(be32(1));
            pic.extend(b"d");
            pic.extend([0; 16]);
            let p = png(20);
            pic.extend(be32(p.len() as u32));
            pic.extend(&p);
            let mut list = Vec::new();
            for s in [p, jpeg(20), b"GIF89a\x01\x02\x03\x04".to_vec(), b"BM12345678".to_vec(), b"II*\0\x08\0\0\0\0".to_vec(), pic] {
                for n in 0..=s.len() {
                    list.push(s[..n].to_vec());
                }
            }
            add(format!("vcpic:{k}"), f, &list, Box::new(move |b| wrap([k.as_bytes(), b"=", &base64(b)[..]].concat())));
        }
    }
    // numbers and dates as text
    let mut texts: Vec<Vec<u8>> = Vec::new();
    for a in ["", "0", "1", "12", "-1", "65536", "4294967296", "99999999999999999999", "x", " 1", "1 ", "\u{663}"] {
        for s in ["", "/", "//", " / ", "\0", ";"] {
            for b in ["", "0", "1", "-1", "65536", "4294967296", "x"] {
                texts.push(format!("{a}{s}{b}").into_bytes());
            }
        }
    }
    for d in ["2", "20", "202", "2024", "20241", "2024-", "2024-1", "2024-01", "2024-13", "2024-01-", "2024-01-99", "2024-01-01T", "2024-01-01T1", "2024-01-01T01", "2024-01-01T01:", "2024-01-01T01:02:03", "2024-01-01T01:02:03Z", "2024-01-01 01:02:03", "T", "-", ":", "\u{e9}024", "2024\u{e9}", "202\u{4e00}", "(", "((", "(1", "(1)", "(1)(", "(RX)(CR)", "((x", "(999)", "255", "256", "(99999999999)"] {
        texts.push(d.as_bytes().to_vec());
        texts.push(format!("{d}\0{d}").into_bytes());
    }
    for id in V4.iter().filter(|x| x.starts_with('T') || matches!(**x, "IPLS" | "MVIN")).copied() {
        for e in 0..=3u8 {
            add(format!("text:{id}:{e}"), Fmt::Mpeg, &texts, Box::new(move |b| [id3v2_tag(if e == 1 { 3 } else { 4 }, 0, &if e == 1 { id3v2_frame_v3(id, &[&[0], b].concat()) } else { id3v2_frame_v4(id, &[&[e], b].concat()) }, 0), mpeg_audio(1)].concat()));
        }
    }
    for k in ["Track", "Disc", "Year", "Compilation", "MovementIndex"] {
        add(format!("text:ape:{k}"), Fmt::Mpeg, &texts, Box::new(move |b| [mpeg_audio(1), ape_tag_full(&[(k, 0, b)], true, true)].concat()));
    }
    for k in ["TRACKNUMBER", "TRACKNUM", "DISCNUMBER", "TRACKTOTAL", "DATE", "YEAR", "RATING", "REPLAYGAIN_TRACK_GAIN", "BPM"] {
        add(format!("text:vc:{k}"), Fmt::Flac, &texts, Box::new(move |b| {
            let c = [k.as_bytes(), b"=", b].concat();
            let mut o = le32(0).to_vec();
            o.extend(le32(1));
            o.extend(le32(c.len() as u32));
            o.extend(c);
            flac_file(&[(4, o)])
        }));
    }
    for k in ["IPRT", "IFRM", "ICRD", "IRTD", "IGNR"] {
        add(format!("text:riff:{k}"), Fmt::Wav, &texts, Box::new(move |b| wav(&[chunk_le(b"LIST", &[b"INFO", &chunk_le(k.as_bytes().try_into().unwrap(), b)[..]].concat())])));
    }
    // ilst
    for id in [*b"trkn", *b"disk", *b"covr", *b"gnre", *b"cpil", *b"rtng", *b"tmpo", *b"stik", *b"\xa9nam", *b"\xa9day", *b"plID", *b"rate", *b"shwm", *b"----", *b"abcd"] {
        let file = move |kids: Vec<u8>| mp4_file(&Mp4Layout { udta: Some(mp4_udta(Some(vec![atom(&id, &kids)]), 0, 0)), ..Default::default() });
        add(format!("item:{}", String::from_utf8_lossy(&id)), Fmt::Mp4, &full, Box::new(move |b| file(b.to_vec())));
        for code in (0..=28u32).chain([65, 66, 67, 70, 74, 75, 76, 77, 78, 255, 0x0100_0001, 0x00FF_FFFF]) {
            add(format!("data:{}:{code}", String::from_utf8_lossy(&id)), Fmt::Mp4, &short, Box::new(move |b| {
                let mut d = be32(code).to_vec();
                d.extend(be32(0));
                d.extend(b);
                let mut k = Vec::new();
                if &id == b"----" {
                    k.extend(atom(b"mean", b"\0\0\0\0com.apple.iTunes"));
                    k.extend(atom(b"name", b"\0\0\0\0x"));
                }
                k.extend(atom(b"data", &d));
                file(k)
            }));
        }
        for part in [*b"mean", *b"name", *b"data", *b"free", *b"abcd"] {
            add(format!("part:{}:{}", String::from_utf8_lossy(&id), String::from_utf8_lossy(&part)), Fmt::Mp4, &short, Box::new(move |b| file([atom(&part, b), atom(&part, b)].concat())));
        }
    }
    // an atom with every short body in every container
    let base = mp4_file(&Mp4Layout { udta: Some(mp4_udta(Some(vec![ilst_text(b"\xa9nam", "x")]), 0, 0)), moof: true, ..Default::default() });
    let mut at = Vec::new();
    containers(&base, 0, base.len(), &mut vec![], &mut at);
    for (n, (pos, parents)) in at.into_iter().enumerate() {
        for id in [b"moov", b"udta", b"meta", b"ilst", b"trak", b"mdia", b"minf", b"stbl", b"stsd", b"stco", b"co64", b"tfhd", b"hdlr", b"mdhd", b"mvhd", b"esds", b"mp4a", b"alac", b"fLaC", b"dfLa", b"wave", b"free", b"uuid", b"mdat", b"moof", b"data", b"\xa9\xa9\xa9\xa9"] {
            let base = base.clone();
            let parents = parents.clone();
            add(format!("atom{n}:{}", String::from_utf8_lossy(id)), Fmt::Mp4, &tiny, Box::new(move |b| {
                let a = atom(id, b);
                let mut o = base.clone();
                for p in &parents {
                    let s = u32::from_be_bytes(o[*p..*p + 4].try_into().unwrap()) + a.len() as u32;
                    o[*p..*p + 4].copy_from_slice(&be32(s));
                }
                o.splice(pos..pos, a);
                o
            }));
        }
    }
    // FLAC blocks, RIFF and AIFF chunks
    for ty in [0u8, 1, 2, 3, 4, 5, 6, 7, 126, 127] {
        add(format!("block:{ty}"), Fmt::Flac, &full, Box::new(move |b| flac_file(&[(ty, b.to_vec())])));
        add(format!("first:{ty}"), Fmt::Flac, &full, Box::new(move |b| [b"fLaC".to_vec(), flac_block(true, ty, b), flac_audio()].concat()));
    }
    for id in [b"fmt ", b"fact", b"data", b"LIST", b"id3 ", b"ID3 ", b"JUNK", b"bext", b"RIFF", b"\0\0\0\0"] {
        add(format!("chunk:{}", String::from_utf8_lossy(id)), Fmt::Wav, &full, Box::new(move |b| wav(&[chunk_le(id, b)])));
        add(format!("only:{}", String::from_utf8_lossy(id)), Fmt::Wav, &full, Box::new(move |b| riff(&[chunk_le(id, b)])));
        add(format!("list:{}", String::from_utf8_lossy(id)), Fmt::Wav, &short, Box::new(move |b| wav(&[chunk_le(b"LIST", &[b"INFO", &chunk_le(id, b)[..]].concat())])));
    }
    add("info".into(), Fmt::Wav, &full, Box::new(|b| wav(&[chunk_le(b"LIST", &[b"INFO", b].concat())])));
    add("info2".into(), Fmt::Wav, &full, Box::new(|b| wav(&[chunk_le(b"LIST", &[b"INFOIART", b, b, b].concat())])));
    for id in [b"COMM", b"SSND", b"COMT", b"MARK", b"NAME", b"AUTH", b"ANNO", b"(c) ", b"ID3 ", b"id3 ", b"FORM", b"FVER", b"\0\0\0\0"] {
        add(format!("chunk:{}", String::from_utf8_lossy(id)), Fmt::Aiff, &full, Box::new(move |b| form_aiff(&[aiff_comm(8), chunk_be(id, b), aiff_ssnd(16)])));
        add(format!("only:{}", String::from_utf8_lossy(id)), Fmt::Aiff, &full, Box::new(move |b| form_aiff(&[chunk_be(id, b)])));
        add(format!("thrice:{}", String::from_utf8_lossy(id)), Fmt::Aiff, &short, Box::new(move |b| form_aiff(&[aiff_comm(8), chunk_be(id, &[b, b, b, b].concat()), aiff_ssnd(16)])));
    }
    // the packets and blocks of the audio formats
    for key in [b"SH", b"RG", b"EI", b"SO", b"SE", b"AP", b"ST", b"CT", b"\0\0"] {
        add(format!("sv8:{}", String::from_utf8_lossy(key)), Fmt::Mpc, &full, Box::new(move |b| [b"MPCK".to_vec(), sv8_packet(key, b), sv8_packet(b"SE", &[])].concat()));
    }
    add("sv8raw".into(), Fmt::Mpc, &full, Box::new(|b| [b"MPCKSH", b, b, b].concat()));
    add("sv7".into(), Fmt::Mpc, &full, Box::new(|b| [b"MP+\x07", b, b, b, b, b, b, b, b].concat()));
    add("sv4".into(), Fmt::Mpc, &full, Box::new(|b| [b, b, b, b, b, b, b, b].concat()));
    add("wv".into(), Fmt::WavPack, &full, Box::new(|b| wv_block(100, 0, 100, 0x1800_0000, b)));
    add("wvfree".into(), Fmt::WavPack, &full, Box::new(|b| wv_block(100, 0, 100, 0x0780_1800 | (15 << 23), b)));
    for f in [0x04u32, 0x0400_0000, 0x8000_0000, 0x0800_1800, 0x1800] {
        add(format!("wv:{f:x}"), Fmt::WavPack, &full, Box::new(move |b| [wv_block(100, 0, 100, f, b), wv_block(100, 100, 100, f, b)].concat()));
    }
    add("mac".into(), Fmt::Ape, &full, Box::new(|b| [b"MAC ", b, b, b, b, b, b, b, b, b, b].concat()));
    add("mac2".into(), Fmt::Ape, &full, Box::new(|b| [b"MAC \x96\x0f\0\0\x34\0\0\0\x18\0\0\0", b, b, b, b, b, b, b, b, b, b, b, b].concat()));
    add("mac3".into(), Fmt::Ape, &full, Box::new(|b| [b"MAC \x70\x0f", b, b, b, b, b, b, b, b, b, b, b, b].concat()));
    for h in [[0xFFu8, 0xFB], [0xFF, 0xF1], [0xFF, 0xF9], [0xFF, 0xE3], [0xFF, 0xFF]] {
        for f in [Fmt::Mpeg, Fmt::Aac] {
            add(format!("sync:{:x}", h[1]), f, &full, Box::new(move |b| [&h, b, &[0; 40], &h, b, &[0; 40]].concat()));
            add(format!("syncfit:{:x}", h[1]), f, &full, Box::new(move |b| {
                let mut o = mpeg_audio(2);
                o.extend(h);
                o.extend(b);
                o
            }));
        }
    }
    // Ogg pages with every short lacing table
    for f in [Fmt::Opus, Fmt::Vorbis, Fmt::Speex] {
        let (h, tag) = match f {
            Fmt::Opus => (opus_head(), b"OpusTags".to_vec()),
            Fmt::Vorbis => (vorbis_ident(), b"\x03vorbis".to_vec()),
            _ => (speex_head(), vec![]),
        };
        let h2 = h.clone();
        let t2 = tag.clone();
        add("lacing".into(), f, &full, Box::new(move |b| {
            let n: usize = b.iter().map(|x| *x as usize).sum();
            let mut o = ogg_page(2, 0, 7, 0, &[&h]);
            o.extend(ogg_page_raw(0, 0, 7, 1, b, &[&tag[..], &vec![0; n]].concat()[..n]));
            o.extend(ogg_audio_pages(7, 2));
            o
        }));
        let h3 = h2.clone();
        add("comment".into(), f, &full, Box::new(move |b| {
            let mut o = ogg_page(2, 0, 7, 0, &[&h2]);
            o.extend(ogg_page(0, 0, 7, 1, &[&[&t2[..], b].concat()]));
            o.extend(ogg_audio_pages(7, 2));
            o
        }));
        add("head".into(), f, &full, Box::new(move |b| {
            let k = h3.len().min(8);
            let mut o = ogg_page(2, 0, 7, 0, &[&[&h3[..k], b, b, b, b].concat()]);
            o.extend(ogg_audio_pages(7, 1));
            o
        }));
        let full_head = match f {
            Fmt::Opus => opus_head(),
            Fmt::Vorbis => vorbis_ident(),
            _ => speex_head(),
        };
        let cut: Vec<Vec<u8>> = (0..full_head.len()).map(|n| full_head[..n].to_vec()).collect();
        add("headcut".into(), f, &cut, Box::new(move |b| [ogg_page(2, 0, 7, 0, &[b]), ogg_audio_pages(7, 1)].concat()));
    }
    // Lyrics3 and ID3v1 around each other
    for t in ["LYRICSBEGIN", "LYRICS200", "LYRICSEND", "000000LYRICS200", "000005LYRICS200", "999999LYRICS200", "000011LYRICS200"] {
        add(format!("lyrics:{t}"), Fmt::Mpeg, &full, Box::new(move |b| [&mpeg_audio(1)[..], b"LYRICSBEGIN", b, t.as_bytes(), &id3v1("a", "b", 1)].concat()));
    }
    v
}
fn wav(extra: &[Vec<u8>]) -> Vec<u8> {
    let mut c = vec![chunk_le(b"fmt ", &wav_fmt())];
    c.extend(extra.iter().cloned());
    c.push(chunk_le(b"data", &[0; 16]));
    riff(&c)
}
fn containers(b: &[u8], lo: usize, hi: usize, up: &mut Vec<usize>, out: &mut Vec<(usize, Vec<usize>)>) {
    out.push((lo, up.clone()));
    let mut p = lo;
    while p + 8 <= hi {
        let n = u32::from_be_bytes(b[p..p + 4].try_into().unwrap()) as usize;
        if n < 8 || p + n > hi {
            break;
        }
        let skip = match &b[p + 4..p + 8] {
            b"moov" | b"udta" | b"ilst" | b"trak" | b"mdia" | b"minf" | b"stbl" | b"moof" | b"traf" => 8,
            b"meta" => 12,
            b"stsd" => 16,
            b"mp4a" => 36,
            _ => 0,
        };
        if skip > 0 && n >= skip {
            up.push(p);
            containers(b, p + skip, p + n, up, out);
            up.pop();
        }
        p += n;
    }
    if p != lo {
        out.push((p, up.clone()));
    }
}
