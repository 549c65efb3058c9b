//! Files whose damage is explored (C01, C07, C08, C14).
use crate::api::*;
use crate::layouts::*;
use crate::mk::*;
use crate::rich::*;
use crate::walk::*;
use lofty::config::WriteOptions;

pub struct Seed {
    pub name: String,
    pub fmt: Fmt,
    pub bytes: Vec<u8>,
    /// byte ranges to damage
    pub ranges: Vec<(usize, usize)>,
}
fn s(v: &mut Vec<Seed>, fmt: Fmt, name: impl Into<String>, bytes: Vec<u8>) {
    let n = bytes.len();
    v.push(Seed { name: name.into(), fmt, bytes, ranges: vec![(0, n)] });
}
pub fn adler(b: &[u8]) -> u32 {
    let (mut a, mut c) = (1u32, 0u32);
    for x in b {
        a = (a + u32::from(*x)) % 65521;
        c = (c + a) % 65521;
    }
    c << 16 | a
}
/// a zlib stream with one stored block
pub fn zlib(b: &[u8]) -> Vec<u8> {
    let mut o = vec![0x78, 0x01, 1];
    o.extend((b.len() as u16).to_le_bytes());
    o.extend((!(b.len() as u16)).to_le_bytes());
    o.extend(b);
    o.extend(adler(b).to_be_bytes());
    o
}
pub fn unsync(b: &[u8]) -> Vec<u8> {
    let mut o = Vec::new();
    for (i, x) in b.iter().enumerate() {
        o.push(*x);
        if *x == 0xFF && b.get(i + 1).is_none_or(|n| *n >= 0xE0 || *n == 0) {
            o.push(0);
        }
    }
    o
}
pub fn v4_flags(id: &str, flags: u16, pre: &[u8], content: &[u8]) -> Vec<u8> {
    let mut o = id.as_bytes().to_vec();
    o.extend(synch((pre.len() + content.len()) as u32));
    o.extend(flags.to_be_bytes());
    o.extend(pre);
    o.extend(content);
    o
}
pub fn v3_flags(id: &str, flags: u16, pre: &[u8], content: &[u8]) -> Vec<u8> {
    let mut o = id.as_bytes().to_vec();
    o.extend(be32((pre.len() + content.len()) as u32));
    o.extend(flags.to_be_bytes());
    o.extend(pre);
    o.extend(content);
    o
}
/// Hand-built ID3v2 tags of every version, with every header and frame feature.
pub fn id3v2_tags() -> Vec<(String, Vec<u8>)> {
    let mut v: Vec<(String, Vec<u8>)> = Vec::new();
    let t = b"\x03text";
    let u16t = b"\x01\xFF\xFEt\0e\0";
    // 2.2
    let f2: Vec<(&str, Vec<u8>)> = vec![
        ("TT2", b"\0title".to_vec()),
        ("TYE", b"\x002020".to_vec()),
        ("TDA", b"\x000102".to_vec()),
        ("TIM", b"\x001122".to_vec()),
        ("TRK", b"\x003/9".to_vec()),
        ("TCO", b"\0(17)Rock".to_vec()),
        ("PIC", [b"\0PNG\x03d\0".to_vec(), png(8)].concat()),
        ("PIC", [b"\x01JPG\x03\xFF\xFEd\0\0\0".to_vec(), jpeg(8)].concat()),
        ("COM", b"\0engd\0text".to_vec()),
        ("ULT", b"\x01eng\xFF\xFEd\0\0\0\xFF\xFEt\0".to_vec()),
        ("TXX", b"\0desc\0val".to_vec()),
        ("WXX", b"\0desc\0http".to_vec()),
        ("WAR", b"http://x".to_vec()),
        ("UFI", b"owner\0id".to_vec()),
        ("POP", b"a@b\0\x80\0\0\0\x05".to_vec()),
        ("RVA", b"\x03\x10\x01\x02\x03\x04\x05\x06\x07\x08".to_vec()),
        ("GEO", b"\0mime\0file\0desc\0data".to_vec()),
        ("IPL", b"\0role\0name".to_vec()),
        ("ETC", b"\x02\x01\0\0\0\x05".to_vec()),
        ("SLT", b"\0eng\x02\x01d\0sync\0\0\0\0\x05".to_vec()),
        ("TOR", b"\x001999".to_vec()),
        ("CRM", b"o\0e\0data".to_vec()),
        ("XYZ", b"unknown".to_vec()),
    ];
    let all2: Vec<u8> = f2.iter().flat_map(|(i, c)| id3v2_frame_v2(i, c)).collect();
    v.push(("22all".into(), id3v2_tag(2, 0, &all2, 5)));
    v.push(("22unsync".into(), id3v2_tag(2, 0x80, &unsync(&all2), 0)));
    // 2.3
    let f3: Vec<(&str, Vec<u8>)> = vec![
        ("TIT2", b"\0title".to_vec()),
        ("TYER", b"\x002020".to_vec()),
        ("TDAT", b"\x000102".to_vec()),
        ("TIME", b"\x001122".to_vec()),
        ("TORY", b"\x001999".to_vec()),
        ("TCON", b"\0(17)(RX)Rock".to_vec()),
        ("IPLS", b"\0role\0name".to_vec()),
        ("RVAD", b"\x03\x10\x01\x02\x03\x04\x05\x06\x07\x08".to_vec()),
        ("APIC", [b"\0image/png\0\x03d\0".to_vec(), png(8)].concat()),
        ("COMM", u16c()),
        ("OWNE", b"\0USD1\x0020200101seller".to_vec()),
        ("PRIV", b"own\0data".to_vec()),
        ("ETCO", b"\x02\x01\0\0\0\x05".to_vec()),
        ("SYLT", b"\x01eng\x02\x01\xFF\xFEd\0\0\0\xFF\xFEs\0\0\0\0\0\0\x05".to_vec()),
        ("GEOB", b"\0mime\0file\0desc\0data".to_vec()),
        ("AENC", b"own\0\0\x01\0\x02d".to_vec()),
        ("CHAP", b"c\0\0\0\0\0\0\0\0\x01\xFF\xFF\xFF\xFF\xFF\xFF\xFF\xFF".to_vec()),
    ];
    let all3: Vec<u8> = f3.iter().flat_map(|(i, c)| id3v2_frame_v3(i, c)).collect();
    v.push(("23all".into(), id3v2_tag(3, 0, &all3, 5)));
    v.push(("23unsync".into(), id3v2_tag(3, 0x80, &unsync(&all3), 0)));
    let ext3 = [&be32(6)[..], &[0, 0], &be32(9)].concat();
    v.push(("23ext".into(), id3v2_tag(3, 0x40, &[ext3, id3v2_frame_v3("TIT2", t)].concat(), 9)));
    let ext3c = [&be32(10)[..], &[0x80, 0], &be32(9), &be32(0x1234_5678)].concat();
    v.push(("23extcrc".into(), id3v2_tag(3, 0x60, &[ext3c, id3v2_frame_v3("TIT2", t)].concat(), 9)));
    let fl3 = [
        v3_flags("TIT2", 0x80, &be32(5), &zlib(t)),
        v3_flags("TPE1", 0x20, &[0x85], t),
        v3_flags("TALB", 0x40, &[0x91], b"secret"),
        v3_flags("TCOM", 0xE0, &[&be32(5)[..], &[0x91, 0x85]].concat(), b"secret"),
        v3_flags("TENC", 0xE000, &[], t),
    ]
    .concat();
    v.push(("23flags".into(), id3v2_tag(3, 0, &fl3, 4)));
    v.push(("23flagsunsync".into(), id3v2_tag(3, 0x80, &unsync(&fl3), 4)));
    // 2.4
    let f4: Vec<(&str, Vec<u8>)> = vec![
        ("TIT2", b"\x03a\0b\0c".to_vec()),
        ("TDRC", b"\x032020-01-02T03:04:05".to_vec()),
        ("TDRL", b"\x002020".to_vec()),
        ("TXXX", u16t2()),
        ("WXXX", b"\x03d\0http".to_vec()),
        ("WOAR", b"http".to_vec()),
        ("COMM", b"\x03engd\0t".to_vec()),
        ("USLT", b"\x02eng\0d\0\0\0t".to_vec()),
        ("APIC", [b"\x01image/jpeg\0\x03\xFF\xFEd\0\0\0".to_vec(), jpeg(8)].concat()),
        ("UFID", b"own\0id".to_vec()),
        ("POPM", b"a@b\0\x80\x05".to_vec()),
        ("RVA2", b"track\0\x01\x02\0\x10\x10\x10\x02\x02\0\x09\x10\x10".to_vec()),
        ("TMCL", b"\x03role\0name".to_vec()),
        ("PRIV", b"own\0data".to_vec()),
        ("OWNE", b"\x03USD1\x0020200101seller".to_vec()),
        ("ETCO", b"\x02\x01\0\0\0\x05".to_vec()),
        ("GEOB", b"\x03mime\0file\0desc\0data".to_vec()),
        ("SYLT", b"\x03eng\x02\x01d\0sync\0\0\0\0\x05".to_vec()),
        ("ATXT", b"\0audio/mpeg\0\x01eq\0data".to_vec()),
        ("CHAP", b"c\0\0\0\0\0\0\0\0\x01\xFF\xFF\xFF\xFF\xFF\xFF\xFF\xFFTIT2\0\0\0\x02\0\0\x03x".to_vec()),
        ("TIT2", u16t.to_vec()),
        ("ZZZZ", b"unknown".to_vec()),
    ];
    let all4: Vec<u8> = f4.iter().flat_map(|(i, c)| id3v2_frame_v4(i, c)).collect();
    v.push(("24all".into(), id3v2_tag(4, 0, &all4, 5)));
    let uns4: Vec<u8> = f4.iter().take(9).flat_map(|(i, c)| v4_flags(i, 2, &[], &unsync(c))).collect();
    v.push(("24unsync".into(), id3v2_tag(4, 0x80, &uns4, 5)));
    let fl4 = [
        v4_flags("TIT2", 0x9, &synch(5), &zlib(t)),
        v4_flags("TPE1", 0x40, &[0x85], t),
        v4_flags("TALB", 0x5, &[&[0x91u8][..], &synch(6)].concat(), b"secret"),
        v4_flags("TCOM", 0x4D, &[&[0x91u8, 0x85][..], &synch(5)].concat(), &zlib(t)),
        v4_flags("TENC", 0x1, &synch(5), t),
        v4_flags("APIC", 0xB, &synch(30), &unsync(&zlib(&[b"\0image/png\0\x03d\0".to_vec(), png(8)].concat()))),
        v4_flags("COMM", 0x7000, &[], b"\x03engd\0t"),
        v4_flags("TSSE", 0x3, &synch(5), &unsync(t)),
        v4_flags("TPOS", 0x47, &[&[0x85u8, 0x91][..], &synch(6)].concat(), b"sec\xFF\0t"),
    ]
    .concat();
    v.push(("24flags".into(), id3v2_tag(4, 0, &fl4, 4)));
    v.push(("24flagsunsync".into(), id3v2_tag(4, 0x80, &fl4, 4)));
    let ext4 = |flags: u8, body: &[u8]| [&synch((6 + body.len()) as u32)[..], &[1, flags], body].concat();
    for (n, fl, b) in [("", 0u8, vec![]), ("upd", 0x40, vec![0]), ("crc", 0x20, vec![5, 0, 1, 2, 3, 4]), ("rest", 0x10, vec![1, 0xFF]), ("all", 0x70, vec![0, 5, 0, 1, 2, 3, 4, 1, 0x55])] {
        v.push((format!("24ext{n}"), id3v2_tag(4, 0x40, &[ext4(fl, &b), id3v2_frame_v4("TIT2", t)].concat(), 9)));
        v.push((format!("24ext{n}uns"), id3v2_tag(4, 0xC0, &[ext4(fl, &b), v4_flags("TIT2", 2, &[], t)].concat(), 9)));
    }
    v.push(("24footer".into(), id3v2_tag(4, 0x10, &id3v2_frame_v4("TIT2", t), 0)));
    v
}
fn u16c() -> Vec<u8> {
    b"\x01eng\xFF\xFEd\0\0\0\xFF\xFEt\0".to_vec()
}
fn u16t2() -> Vec<u8> {
    b"\x01\xFF\xFEd\0\0\0\xFF\xFEv\0".to_vec()
}
fn diff_range(a: &[u8], b: &[u8]) -> (usize, usize) {
    // the part of b that differs from a
    let p = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    let q = a.iter().rev().zip(b.iter().rev()).take_while(|(x, y)| x == y).count().min(b.len().saturating_sub(p));
    (p, b.len() - q)
}
pub fn assets() -> Vec<(String, Fmt, Vec<u8>)> {
    let d = "/repo/lofty/tests/files/assets/minimal/";
    let list: &[(&str, Fmt)] = &[
        ("full_test.aac", Fmt::Aac),
        ("full_test.aiff", Fmt::Aiff),
        ("full_test.ape", Fmt::Ape),
        ("full_test.flac", Fmt::Flac),
        ("full_test.mp1", Fmt::Mpeg),
        ("full_test.mp2", Fmt::Mpeg),
        ("full_test.mp3", Fmt::Mpeg),
        ("full_test.ogg", Fmt::Vorbis),
        ("full_test.opus", Fmt::Opus),
        ("full_test.spx", Fmt::Speex),
        ("full_test.wv", Fmt::WavPack),
        ("m4a_codec_aac.m4a", Fmt::Mp4),
        ("m4a_codec_alac.m4a", Fmt::Mp4),
        ("mp4_codec_als.mp4", Fmt::Mp4),
        ("mp4_codec_flac.mp4", Fmt::Mp4),
        ("mpc_sv5.mpc", Fmt::Mpc),
        ("mpc_sv7.mpc", Fmt::Mpc),
        ("mpc_sv8.mpc", Fmt::Mpc),
        ("wav_format_pcm.wav", Fmt::Wav),
    ];
    list.iter().filter_map(|(n, f)| std::fs::read(format!("{d}{n}")).ok().map(|b| ((*n).to_string(), *f, b))).collect()
}
/// `step`: every how many-th layout is used
pub fn seeds(step: usize, with_assets: bool) -> Vec<Seed> {
    let mut v = Vec::new();
    for f in ALL_FMT {
        for (i, l) in layouts(f, true).into_iter().filter(|l| l.bytes.len() < 6000).enumerate() {
            if i % step == 0 {
                s(&mut v, f, format!("{f:?}/{}", l.name), l.bytes);
            }
        }
    }
    // every item kind, saved into a small file
    for (t, f) in [
        (T::Id3v2, Fmt::Mpeg),
        (T::Id3v1, Fmt::Mpeg),
        (T::Ape, Fmt::Mpeg),
        (T::Vorbis, Fmt::Flac),
        (T::Vorbis, Fmt::Opus),
        (T::Ilst, Fmt::Mp4),
        (T::RiffInfo, Fmt::Wav),
        (T::AiffText, Fmt::Aiff),
        (T::Id3v2, Fmt::Wav),
    ] {
        let base = match f {
            Fmt::Mpeg => mpeg_audio(2),
            _ => layouts(f, false).remove(0).bytes,
        };
        let mut k = crate::c02::kinds(t);
        if f == Fmt::Wav && t == T::Id3v2 {
            k.truncate(3);
        }
        for (n, x) in k {
            for v3 in [false, true] {
                if v3 && t != T::Id3v2 {
                    continue;
                }
                let Ok(Ok(b)) = crate::ctx::guard(|| x.save(&base, WriteOptions::new().preferred_padding(0).use_id3v23(v3))) else { continue };
                if b.len() > 6000 {
                    continue;
                }
                let r = diff_range(&base, &b);
                v.push(Seed { name: format!("{f:?}/{t:?}:{n}{}", if v3 { ":v3" } else { "" }), fmt: f, bytes: b, ranges: vec![r] });
            }
        }
    }
    for (n, t) in id3v2_tags() {
        let a = mpeg_audio(2);
        let r = (0, t.len());
        v.push(Seed { name: format!("Mpeg/{n}"), fmt: Fmt::Mpeg, bytes: [t, a].concat(), ranges: vec![r] });
    }
    if with_assets {
        for (n, f, b) in assets() {
            let len = b.len();
            let ranges = match f {
                Fmt::Mp4 => {
                    // everything but the audio data
                    let mut r = Vec::new();
                    let mut i = 0;
                    while i + 8 <= len {
                        let sz = u32::from_be_bytes(b[i..i + 4].try_into().unwrap()) as usize;
                        if sz < 8 {
                            break;
                        }
                        let e = (i + sz).min(len);
                        if &b[i + 4..i + 8] == b"mdat" {
                            r.push((i, (i + 16).min(e)));
                        } else {
                            r.push((i, e.min(i + 1600)));
                        }
                        i += sz;
                    }
                    r
                }
                _ => vec![(0, len.min(700)), (len.saturating_sub(450).max(len.min(700)), len)],
            };
            v.push(Seed { name: format!("asset/{n}"), fmt: f, bytes: b, ranges });
        }
    }
    v
}
