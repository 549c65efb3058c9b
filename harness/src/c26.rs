//! C26: tags by any conforming writer are read as the items they encode. The encoders here are written from the
//! formats' specifications; sequences of items are enumerated exhaustively, in every version and header variant.
use crate::api::*;
use crate::ctx::*;
use crate::mk;
use crate::seeds::zlib;
use crate::walk::{Fmt, T};
use lofty::config::{ParseOptions, ParsingMode};
use lofty::id3::v2::*;
use lofty::ogg::OggPictureStorage;
use lofty::tag::ItemValue;
use lofty::mp4::{AtomData, AtomIdent, DataType};
use lofty::picture::{MimeType, Picture, PictureType};
use lofty::tag::items::Timestamp;
use lofty::TextEncoding;
use serde_json::json;
use std::borrow::Cow;
use std::sync::atomic::Ordering;

const MODES: [ParsingMode; 3] = [ParsingMode::Strict, ParsingMode::BestAttempt, ParsingMode::Relaxed];

// ---------------------------------------------------------------- ID3v2
/// An item: its identifier and body in each version (2.2, 2.3, 2.4), and what a reader has to make of it
struct El {
    name: String,
    enc: [Option<(&'static str, Vec<u8>)>; 3],
    exp: [Option<Frame<'static>>; 3],
    fl: Fl,
    /// refused by strict parsing, skipped otherwise
    bad: bool,
}
#[derive(Clone, Copy, Default, Debug)]
struct Fl {
    tag_alter: bool,
    file_alter: bool,
    read_only: bool,
    group: Option<u8>,
    enc: Option<u8>,
    comp: bool,
    unsync: bool,
    dli: bool,
}
impl Fl {
    fn none(&self) -> bool {
        !(self.tag_alter || self.file_alter || self.read_only || self.group.is_some() || self.enc.is_some() || self.comp || self.unsync || self.dli)
    }
}
fn id(s: &str) -> FrameId<'static> {
    FrameId::new(s.to_string()).unwrap().into_owned()
}
fn u16le(s: &str, bom: bool) -> Vec<u8> {
    let mut v = if bom { vec![0xFF, 0xFE] } else { vec![] };
    v.extend(s.encode_utf16().flat_map(u16::to_le_bytes));
    v
}
/// UTF-16 with a byte order mark, in the other byte order.
fn other(b: &[u8]) -> Vec<u8> {
    b.chunks(2).flat_map(|c| c.iter().rev().copied()).collect()
}
fn u16be(s: &str, bom: bool) -> Vec<u8> {
    let mut v = if bom { vec![0xFE, 0xFF] } else { vec![] };
    v.extend(s.encode_utf16().flat_map(u16::to_be_bytes));
    v
}
fn l1(s: &str) -> Vec<u8> {
    s.chars().map(|c| u8::try_from(c as u32).unwrap()).collect()
}
/// the ways to encode a text: (name, encoding byte, encoder, terminator length, available from 2.x on)
fn encodings() -> Vec<(&'static str, TextEncoding, fn(&str) -> Vec<u8>, usize, u8)> {
    vec![
        ("latin1", TextEncoding::Latin1, l1 as fn(&str) -> Vec<u8>, 1, 2),
        ("utf16le", TextEncoding::UTF16, |s| u16le(s, true), 2, 2),
        ("utf16be", TextEncoding::UTF16, |s| u16be(s, true), 2, 2),
        ("utf16nobom", TextEncoding::UTF16BE, |s| u16be(s, false), 2, 4),
        ("utf8", TextEncoding::UTF8, |s| s.as_bytes().to_vec(), 1, 4),
    ]
}
fn cat(p: &[&[u8]]) -> Vec<u8> {
    p.concat()
}
fn z(n: usize) -> Vec<u8> {
    vec![0; n]
}
/// unsynchronisation with a zero after every FF that needs it
fn unsync(b: &[u8]) -> Vec<u8> {
    let mut o = Vec::new();
    for (i, x) in b.iter().enumerate() {
        o.push(*x);
        if *x == 0xFF && b.get(i + 1).is_none_or(|n| *n == 0 || *n >= 0xE0) {
            o.push(0);
        }
    }
    o
}
fn frame(ver: u8, fid: &str, body: &[u8], fl: &Fl, tag_unsync: bool) -> Vec<u8> {
    if ver == 2 {
        let mut o = fid.as_bytes().to_vec();
        o.extend(&(body.len() as u32).to_be_bytes()[1..]);
        o.extend(body);
        return o;
    }
    let mut data = if fl.comp { zlib(body) } else { body.to_vec() };
    let mut flags = 0u16;
    if ver == 3 {
        let mut pre = Vec::new();
        for (on, bit) in [(fl.tag_alter, 0x8000), (fl.file_alter, 0x4000), (fl.read_only, 0x2000), (fl.comp, 0x80), (fl.enc.is_some(), 0x40), (fl.group.is_some(), 0x20)] {
            if on {
                flags |= bit;
            }
        }
        if fl.comp {
            pre.extend((body.len() as u32).to_be_bytes());
        }
        pre.extend(fl.enc);
        pre.extend(fl.group);
        pre.extend(data);
        return cat(&[fid.as_bytes(), &(pre.len() as u32).to_be_bytes(), &flags.to_be_bytes(), &pre]);
    }
    for (on, bit) in [(fl.tag_alter, 0x4000), (fl.file_alter, 0x2000), (fl.read_only, 0x1000), (fl.group.is_some(), 0x40), (fl.comp, 8), (fl.enc.is_some(), 4), (fl.unsync || tag_unsync, 2), (fl.dli || fl.comp, 1)] {
        if on {
            flags |= bit;
        }
    }
    let mut pre = Vec::new();
    pre.extend(fl.group);
    pre.extend(fl.enc);
    if fl.dli || fl.comp {
        pre.extend(mk::synch(body.len() as u32));
    }
    if fl.unsync || tag_unsync {
        data = unsync(&data);
    }
    pre.extend(data);
    cat(&[fid.as_bytes(), &mk::synch(pre.len() as u32), &flags.to_be_bytes(), &pre])
}
fn want_flags(fl: &Fl, ver: u8, body: usize, tag_unsync: bool) -> FrameFlags {
    FrameFlags {
        tag_alter_preservation: fl.tag_alter,
        file_alter_preservation: fl.file_alter,
        read_only: fl.read_only,
        grouping_identity: fl.group,
        compression: fl.comp,
        encryption: fl.enc,
        unsynchronisation: ver == 4 && (fl.unsync || tag_unsync),
        // encrypted frames of 2.3 get the one they need in 2.4
        data_length_indicator: (fl.comp || ver == 4 && fl.dli || ver == 3 && fl.enc.is_some()).then_some(body as u32),
    }
}
fn same(name: impl Into<String>, ids: [&'static str; 3], body: Vec<u8>, f: Frame<'static>) -> El {
    let e = |i: usize| (!ids[i].is_empty()).then(|| (ids[i], body.clone()));
    let x = |i: usize| (!ids[i].is_empty()).then(|| f.clone());
    El { name: name.into(), enc: [e(0), e(1), e(2)], exp: [x(0), x(1), x(2)], fl: Fl::default(), bad: false }
}
fn from(mut e: El, ver: u8) -> El {
    for i in 0..(ver - 2) as usize {
        e.enc[i] = None;
    }
    e
}
/// Frames with distinct identities, each in several encodings. Grouped: of one group only one may be in a tag.
fn elements() -> Vec<Vec<El>> {
    let mut v: Vec<Vec<El>> = Vec::new();
    let txt = |i: &str, e: TextEncoding, s: &str| Frame::Text(TextInformationFrame::new(id(i), e, s.to_string()));
    // text
    let mut g = Vec::new();
    for (n, e, f, t, ver) in encodings() {
        for (k, s) in [("plain", "Grün"), ("one", "x"), ("ff", "ÿÿþ"), ("long", "0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0")] {
            for term in [false, true] {
                let mut b = cat(&[&[e as u8], &f(s)]);
                if term {
                    b.extend(z(t));
                }
                g.push(from(same(format!("TIT2:{n}:{k}:{term}"), ["TT2", "TIT2", "TIT2"], b, txt("TIT2", e, s)), ver));
            }
        }
    }
    v.push(g);
    // several values, and numbers
    let mut g = Vec::new();
    for (n, e, f, t, ver) in encodings() {
        // each value with a byte order mark of its own, or only the first
        let mut b = cat(&[&[e as u8], &f("a")]);
        b.extend(z(t));
        b.extend(f("bc"));
        g.push(from(same(format!("TPE1:multi:{n}"), ["", "", "TPE1"], b, txt("TPE1", e, "a\0bc")), ver));
        if e == TextEncoding::UTF16 {
            let mut b = cat(&[&[e as u8], &f("a")]);
            b.extend(z(t));
            b.extend(&f("bc")[2..]);
            g.push(from(same(format!("TPE1:multi2bom:{n}"), ["", "", "TPE1"], cat(&[&[e as u8], &f("a"), &z(t), &other(&f("bc"))]), txt("TPE1", e, "a\0bc")), ver));
            g.push(from(same(format!("TPE1:multi1bom:{n}"), ["", "", "TPE1"], b, txt("TPE1", e, "a\0bc")), ver));
        }
        g.push(from(same(format!("TPE1:{n}"), ["TP1", "TPE1", "TPE1"], cat(&[&[e as u8], &f("A/B; C")]), txt("TPE1", e, "A/B; C")), ver));
    }
    v.push(g);
    // every text frame that exists in all versions under another name
    for (a, b, c) in [("TAL", "TALB", "TALB"), ("TRK", "TRCK", "TRCK"), ("TPA", "TPOS", "TPOS"), ("TCO", "TCON", "TCON"), ("TCM", "TCOM", "TCOM"), ("TXT", "TEXT", "TEXT"), ("TOA", "TOPE", "TOPE"), ("TOT", "TOAL", "TOAL"), ("TOL", "TOLY", "TOLY"), ("TOF", "TOFN", "TOFN"), ("TP2", "TPE2", "TPE2"), ("TP3", "TPE3", "TPE3"), ("TP4", "TPE4", "TPE4"), ("TT1", "TIT1", "TIT1"), ("TT3", "TIT3", "TIT3"), ("TBP", "TBPM", "TBPM"), ("TKE", "TKEY", "TKEY"), ("TLA", "TLAN", "TLAN"), ("TLE", "TLEN", "TLEN"), ("TMT", "TMED", "TMED"), ("TPB", "TPUB", "TPUB"), ("TRC", "TSRC", "TSRC"), ("TSS", "TSSE", "TSSE"), ("TCR", "TCOP", "TCOP"), ("TEN", "TENC", "TENC"), ("TDY", "TDLY", "TDLY"), ("TFT", "TFLT", "TFLT"), ("TCP", "TCMP", "TCMP"), ("TST", "TSOT", "TSOT"), ("TSA", "TSOA", "TSOA"), ("TSP", "TSOP", "TSOP"), ("TS2", "TSO2", "TSO2"), ("TSC", "TSOC", "TSOC")] {
        v.push(vec![same(format!("{c}"), [a, b, c], b"\0(4)12/34".to_vec(), txt(c, TextEncoding::Latin1, "(4)12/34"))]);
    }
    for (b, n) in [("TRSN", 3), ("TRSO", 3), ("TOWN", 3), ("TSIZ", 3), ("TRDA", 3), ("TMOO", 4), ("TPRO", 4), ("TSST", 4)] {
        v.push(vec![from(same(b, ["", b, b], b"\0v".to_vec(), txt(b, TextEncoding::Latin1, "v")), n)]);
    }
    // user text and links, in 2.3 and 2.4 with one or two byte order marks
    let mut gt = Vec::new();
    let mut gu = Vec::new();
    let mut gc = Vec::new();
    let mut gl = Vec::new();
    for (n, e, f, t, ver) in encodings() {
        for d in ["", "désc"] {
            for c in ["", "content ÿ"] {
                for term in [false, true] {
                    let tail = if term { z(t) } else { vec![] };
                    let nm = format!("{n}:{d}:{c}:{term}");
                    gt.push(from(same(format!("TXXX:{nm}"), ["TXX", "TXXX", "TXXX"], cat(&[&[e as u8], &f(d), &z(t), &f(c), &tail]), Frame::UserText(ExtendedTextFrame::new(e, d, c))), ver));
                    if e == TextEncoding::UTF16 {
                        gt.push(from(same(format!("TXXX:1bom:{nm}"), ["TXX", "TXXX", "TXXX"], cat(&[&[e as u8], &f(d), &z(t), &f(c)[2..], &tail]), Frame::UserText(ExtendedTextFrame::new(e, d, c))), ver));
                        // either string in the other byte order
                        gt.push(from(same(format!("TXXX:2bom:{nm}"), ["TXX", "TXXX", "TXXX"], cat(&[&[e as u8], &f(d), &z(t), &other(&f(c)), &tail]), Frame::UserText(ExtendedTextFrame::new(e, d, c))), ver));
                    }
                    if term {
                        gu.push(from(same(format!("WXXX:{nm}"), ["WXX", "WXXX", "WXXX"], cat(&[&[e as u8], &f(d), &z(t), b"http://x/y", &[0]]), Frame::UserUrl(ExtendedUrlFrame::new(e, d, "http://x/y"))), ver));
                    } else {
                        gu.push(from(same(format!("WXXX:{nm}"), ["WXX", "WXXX", "WXXX"], cat(&[&[e as u8], &f(d), &z(t), b"http://x/y"]), Frame::UserUrl(ExtendedUrlFrame::new(e, d, "http://x/y"))), ver));
                    }
                    for (g, ids, comm) in [(&mut gc, ["COM", "COMM", "COMM"], true), (&mut gl, ["ULT", "USLT", "USLT"], false)] {
                        let mkf = || if comm { Frame::Comment(CommentFrame::new(e, *b"deu", d, c)) } else { Frame::UnsynchronizedText(UnsynchronizedTextFrame::new(e, *b"deu", d, c)) };
                        g.push(from(same(format!("{}:{nm}", ids[2]), ids, cat(&[&[e as u8], b"deu", &f(d), &z(t), &f(c), &tail]), mkf()), ver));
                        if e == TextEncoding::UTF16 {
                            g.push(from(same(format!("{}:1bom:{nm}", ids[2]), ids, cat(&[&[e as u8], b"deu", &f(d), &z(t), &f(c)[2..], &tail]), mkf()), ver));
                            g.push(from(same(format!("{}:2bom:{nm}", ids[2]), ids, cat(&[&[e as u8], b"deu", &f(d), &z(t), &other(&f(c)), &tail]), mkf()), ver));
                        }
                    }
                }
            }
        }
    }
    v.extend([gt, gu, gc, gl]);
    // a second comment that differs in the language only
    v.push(vec![same("COMM:eng", ["COM", "COMM", "COMM"], b"\0engd\0text".to_vec(), Frame::Comment(CommentFrame::new(TextEncoding::Latin1, *b"eng", "d", "text")))]);
    // links
    for (a, b) in [("WAR", "WOAR"), ("WAF", "WOAF"), ("WAS", "WOAS"), ("WCM", "WCOM"), ("WCP", "WCOP"), ("WPB", "WPUB")] {
        v.push([false, true].iter().map(|t| same(format!("{b}:{t}"), [a, b, b], cat(&[b"http://l/", if *t { &[0][..] } else { &[] }]), Frame::Url(UrlLinkFrame::new(id(b), "http://l/")))).collect());
    }
    // pictures
    let mut g = Vec::new();
    for (n, e, f, t, ver) in encodings() {
        for d in ["", "ÿ cover"] {
            for (fmt2, mime, m) in [("PNG", "image/png", MimeType::Png), ("JPG", "image/jpeg", MimeType::Jpeg)] {
                let data = mk::pat(300, 254);
                let mut p = Picture::unchecked(data.clone()).pic_type(PictureType::CoverBack).mime_type(m);
                if !d.is_empty() {
                    p = p.description(d);
                }
                let fr = Frame::Picture(AttachedPictureFrame::new(e, Cow::Owned(p.build())));
                let b2 = cat(&[&[e as u8], fmt2.as_bytes(), &[4], &f(d), &z(t), &data]);
                let b3 = cat(&[&[e as u8], mime.as_bytes(), &[0, 4], &f(d), &z(t), &data]);
                g.push(from(El { name: format!("APIC:{n}:{d}:{mime}"), enc: [Some(("PIC", b2)), Some(("APIC", b3.clone())), Some(("APIC", b3))], exp: [Some(fr.clone()), Some(fr.clone()), Some(fr)], fl: Fl::default(), bad: false }, ver));
            }
        }
    }
    v.push(g);
    // counters of any length
    let mut g = Vec::new();
    for n in 0..=9usize {
        let c: Vec<u8> = (0..n).map(|i| if i == 0 { 0xFF } else { i as u8 }).collect();
        let want = if n > 8 { u64::MAX } else { c.iter().fold(0u64, |a, b| a << 8 | u64::from(*b)) };
        g.push(same(format!("POPM:{n}"), ["POP", "POPM", "POPM"], cat(&[b"a@b\0\xC4", &c]), Frame::Popularimeter(PopularimeterFrame::new("a@b", 0xC4, want))));
    }
    v.push(g);
    // binary
    for (a, b) in [("CNT", "PCNT"), ("MCI", "MCDI"), ("GEO", "GEOB"), ("SLT", "SYLT"), ("CRA", "AENC"), ("STC", "SYTC"), ("MLL", "MLLT"), ("REV", "RVRB"), ("BUF", "RBUF"), ("", "RVAD"), ("", "EQUA"), ("", "LINK"), ("", "XABC"), ("", "Z0Z9")] {
        v.push(vec![same(b, [a, b, b], vec![0, 0xFF, 0xFF, 0xE0, 0xFF, 0, 1], Frame::Binary(BinaryFrame::new(id(b), vec![0, 0xFF, 0xFF, 0xE0, 0xFF, 0, 1])))]);
    }
    v.push(vec![same("UFID", ["UFI", "UFID", "UFID"], b"http://o\0\xFF\0\x01".to_vec(), Frame::UniqueFileIdentifier(UniqueFileIdentifierFrame::new("http://o", vec![0xFF, 0, 1])))]);
    v.push(vec![same("PRIV", ["", "PRIV", "PRIV"], b"own\0\xFF\0\x01".to_vec(), Frame::Private(PrivateFrame::new("own", vec![0xFF, 0, 1])))]);
    v.push(vec![same("OWNE", ["", "OWNE", "OWNE"], b"\x01$1.00\020261120\xFF\xFES\0e\0".to_vec(), Frame::Ownership(OwnershipFrame::new(TextEncoding::UTF16, "$1.00", "20261120", "Se")))]);
    {
        let ev = vec![Event { event_type: EventType::AudioEnd, timestamp: 1 }, Event { event_type: EventType::IntroStart, timestamp: 0xFF00_FFE0 }];
        v.push(vec![same("ETCO", ["ETC", "ETCO", "ETCO"], b"\x02\xFD\0\0\0\x01\x02\xFF\0\xFF\xE0".to_vec(), Frame::EventTimingCodes(EventTimingCodesFrame::new(TimestampFormat::MS, ev)))]);
    }
    {
        let mut h = std::collections::HashMap::new();
        h.insert(ChannelType::MasterVolume, ChannelInformation { channel_type: ChannelType::MasterVolume, volume_adjustment: -2, bits_representing_peak: 9, peak_volume: Some(vec![1, 0xFF]) });
        h.insert(ChannelType::Subwoofer, ChannelInformation { channel_type: ChannelType::Subwoofer, volume_adjustment: 1, bits_representing_peak: 0, peak_volume: None });
        v.push(vec![from(same("RVA2", ["", "", "RVA2"], b"i\0\x08\0\x01\0\x01\xFF\xFE\x09\x01\xFF".to_vec(), Frame::RelativeVolumeAdjustment(RelativeVolumeAdjustmentFrame::new("i", Cow::Owned(h)))), 4)]);
    }
    // lists of people
    let mut g = Vec::new();
    for (n, e, f, t, ver) in encodings() {
        let kv = vec![(Cow::from("producer"), Cow::from("P")), (Cow::from("mix"), Cow::from("Ü"))];
        let fr = Frame::KeyValue(KeyValueFrame::new(id("TIPL"), e, kv));
        for last in [true, false] {
            let tail = if last { z(t) } else { vec![] };
            g.push(from(same(format!("TIPL:{n}:{last}"), ["IPL", "IPLS", "TIPL"], cat(&[&[e as u8], &f("producer"), &z(t), &f("P"), &z(t), &f("mix"), &z(t), &f("Ü"), &tail]), fr.clone()), ver));
            if e == TextEncoding::UTF16 {
                g.push(from(same(format!("TIPL:1bom:{n}:{last}"), ["IPL", "IPLS", "TIPL"], cat(&[&[e as u8], &f("producer"), &z(t), &f("P")[2..], &z(t), &f("mix")[2..], &z(t), &f("Ü")[2..], &tail]), fr.clone()), ver));
                g.push(from(same(format!("TIPL:2bom:{n}:{last}"), ["IPL", "IPLS", "TIPL"], cat(&[&[e as u8], &f("producer"), &z(t), &other(&f("P")), &z(t), &f("mix"), &z(t), &other(&f("Ü")), &tail]), fr.clone()), ver));
            }
        }
    }
    v.push(g);
    let fr = Frame::KeyValue(KeyValueFrame::new(id("TMCL"), TextEncoding::UTF8, vec![(Cow::from("k"), Cow::from("v"))]));
    v.push(vec![from(same("TMCL", ["", "", "TMCL"], b"\x03k\0v\0".to_vec(), fr), 4)]);
    // dates
    let ts = |y, mo: Option<u8>, d: Option<u8>, h: Option<u8>, mi: Option<u8>, s: Option<u8>| Timestamp { year: y, month: mo, day: d, hour: h, minute: mi, second: s };
    let mut g = Vec::new();
    for (n, e, f, _, ver) in encodings() {
        for (s, t) in [("1999", ts(1999, None, None, None, None, None)), ("1999-12", ts(1999, Some(12), None, None, None, None)), ("1999-12-31T23:59:58", ts(1999, Some(12), Some(31), Some(23), Some(59), Some(58)))] {
            let fr = Frame::Timestamp(TimestampFrame::new(id("TDRC"), e, t));
            g.push(from(same(format!("TDRC:{n}:{s}"), ["", "", "TDRC"], cat(&[&[e as u8], &f(s)]), fr), ver));
        }
    }
    for (a, b) in [("TYE", "TYER")] {
        let fr = Frame::Timestamp(TimestampFrame::new(id("TDRC"), TextEncoding::Latin1, ts(1999, None, None, None, None, None)));
        g.push(same("TYER", [a, b, ""], b"\x001999".to_vec(), fr));
    }
    v.push(g);
    let fr = Frame::Timestamp(TimestampFrame::new(id("TDOR"), TextEncoding::Latin1, ts(1980, None, None, None, None, None)));
    v.push(vec![same("TDOR", ["TOR", "TORY", "TDOR"], b"\x001980".to_vec(), fr)]);
    // frames within frames
    {
        let sub = |ver: u8| frame(ver, "TIT2", b"\x01\xFF\xFES\0u\0b\0", &Fl::default(), false);
        let emb = || {
            let mut l = FrameList::new();
            l.insert(Frame::Text(TextInformationFrame::new(id("TIT2"), TextEncoding::UTF16, "Sub")));
            l
        };
        let body = |ver: u8| cat(&[b"c1\0", &[0, 0, 0, 1], &[0, 0, 0, 0xFF], &[0xFF; 8], &sub(ver)]);
        let fr = Frame::Chapter(ChapterFrame::new("c1", 1..255, 0xFFFF_FFFF..0xFFFF_FFFF, emb()));
        v.push(vec![El { name: "CHAP".into(), enc: [None, Some(("CHAP", body(3))), Some(("CHAP", body(4)))], exp: [None, Some(fr.clone()), Some(fr)], fl: Fl::default(), bad: false }]);
    }
    // what has to be skipped: empty and misnamed frames
    v.push(vec![El { name: "empty".into(), enc: [Some(("TCP", vec![])), Some(("TSIZ", vec![])), Some(("TSST", vec![]))], exp: [None, None, None], fl: Fl::default(), bad: true }]);
    v.push(vec![El { name: "badid".into(), enc: [Some(("t+2", b"\0abc".to_vec())), Some(("t+t2", b"\0abc".to_vec())), Some(("t+t2", b"\0abc".to_vec()))], exp: [None, None, None], fl: Fl::default(), bad: true }]);
    v.push(vec![El { name: "badid2".into(), enc: [Some(("\u{fc}-", b"\0abc".to_vec())), Some(("\u{fc}AA", b"\0abc".to_vec())), Some(("\u{fc}AA", b"\0abc".to_vec()))], exp: [None, None, None], fl: Fl::default(), bad: true }]);
    // frame flags, on a text and on a binary frame
    let mut gt = Vec::new();
    let mut gb = Vec::new();
    for bits in 1..256u32 {
        let b = |i: u32| bits >> i & 1 == 1;
        let fl = Fl { tag_alter: b(0), file_alter: b(1), read_only: b(2), group: b(3).then_some(0xFF), enc: b(4).then_some(0x85), comp: b(5), unsync: b(6), dli: b(7) };
        for text in [true, false] {
            let body = if text { b"\x01\xFF\xFEa\0\xFF\0\xFF\xFF".to_vec() } else { mk::pat(260, 250) };
            let s = String::from_utf16(&[0x61, 0xFF, 0xFFFF]).unwrap();
            let fid = if text { "TQ0Q" } else { "XFLG" };
            let mut fr = if text { Frame::Text(TextInformationFrame::new(id(fid), TextEncoding::UTF16, s)) } else { Frame::Binary(BinaryFrame::new(id(fid), body.clone())) };
            let mut fr3 = fr.clone();
            if fl.enc.is_some() {
                // the content is opaque, still compressed
                let data = if fl.comp { zlib(&body) } else { body.clone() };
                fr = Frame::Binary(BinaryFrame::new(id(fid), data));
                fr3 = fr.clone();
            }
            let v4ok = !fl.enc.is_some() || fl.dli || fl.comp;
            let e = El {
                name: format!("{fid}:{fl:?}"),
                enc: [None, (!fl.unsync && !fl.dli).then(|| (fid, body.clone())), v4ok.then(|| (fid, body.clone()))],
                exp: [None, Some(fr3), Some(fr)],
                fl,
                bad: false,
            };
            if text { gt.push(e) } else { gb.push(e) }
        }
    }
    v.extend([gt, gb]);
    v
}
/// One way to lay out the header
#[derive(Clone, Copy, Debug)]
struct Hd {
    unsync: bool,
    experimental: bool,
    /// 0: none; otherwise a variant of the extended header
    ext: u8,
    pad: usize,
    footer: bool,
    minor: u8,
}
fn headers(ver: u8) -> Vec<Hd> {
    let mut v = Vec::new();
    for unsync in [false, true] {
        for ext in 0..=match ver {
            2 => 0,
            3 => 2u8,
            _ => 6,
        } {
            for pad in [0usize, 1, 9, 10, 11, 300] {
                for footer in [false, true] {
                    if footer && (ver != 4 || pad > 0) {
                        continue;
                    }
                    v.push(Hd { unsync, experimental: ver > 2 && (pad == 9), ext, pad, footer, minor: 0 });
                }
            }
        }
    }
    v
}
fn tag_bytes(ver: u8, h: &Hd, els: &[&El]) -> Vec<u8> {
    let i = (ver - 2) as usize;
    let mut frames = Vec::new();
    for e in els {
        let (fid, b) = e.enc[i].as_ref().unwrap();
        // Latin-1, so that an identifier may have a byte above 7F
        let f = if fid.is_ascii() {
            frame(ver, fid, b, &e.fl, h.unsync)
        } else {
            let mut f = frame(ver, &"A".repeat(if ver == 2 { 3 } else { 4 }), b, &e.fl, h.unsync);
            let n = f.len().min(if ver == 2 { 3 } else { 4 });
            f[..n].copy_from_slice(&l1(fid).into_iter().chain(*b"AAAA").take(n).collect::<Vec<_>>());
            f
        };
        frames.extend(f);
    }
    let mut ext = Vec::new();
    if ver == 3 {
        // six bytes without, ten with a checksum, not counting the size itself
        match h.ext {
            1 => ext = cat(&[&[0, 0, 0, 6], &[0, 0], &(h.pad as u32).to_be_bytes()]),
            2 => ext = cat(&[&[0, 0, 0, 10], &[0x80, 0], &(h.pad as u32).to_be_bytes(), &[0xFF, 0, 0xFF, 0xFF]]),
            _ => {}
        }
    } else if ver == 4 && h.ext > 0 {
        let (upd, crc, res) = [(false, false, false), (true, false, false), (false, true, false), (false, false, true), (true, true, true), (false, true, true)][h.ext as usize - 1];
        let mut d = Vec::new();
        if upd {
            d.push(0);
        }
        if crc {
            d.extend([5, 0x0F, 0x7F, 0x7F, 0x7F, 0x7F]);
        }
        if res {
            d.extend([1, 0xFF]);
        }
        let fl = u8::from(upd) << 6 | u8::from(crc) << 5 | u8::from(res) << 4;
        ext = cat(&[&mk::synch(6 + d.len() as u32), &[1, fl], &d]);
    }
    let mut body = cat(&[&ext, &frames]);
    if ver == 4 {
        body.extend(z(h.pad));
    } else if h.unsync {
        body = unsync(&body);
        body.extend(z(h.pad));
    } else {
        body.extend(z(h.pad));
    }
    let fl = u8::from(h.unsync) << 7 | u8::from(h.ext > 0) << 6 | u8::from(h.experimental) << 5 | u8::from(h.footer) << 4;
    let mut o = cat(&[b"ID3", &[ver, h.minor, fl], &mk::synch(body.len() as u32), &body]);
    if h.footer {
        o.extend(cat(&[b"3DI", &[ver, h.minor, fl], &mk::synch(body.len() as u32)]));
    }
    o
}
fn want_tag_flags(ver: u8, h: &Hd) -> Id3v2TagFlags {
    let mut f = Id3v2TagFlags::default();
    f.unsynchronisation = h.unsync;
    f.experimental = h.experimental;
    f.footer = h.footer;
    f.crc = if ver == 3 { h.ext == 2 } else { ver == 4 && matches!(h.ext, 3 | 5 | 6) };
    f.restrictions = (ver == 4 && h.ext >= 4).then(|| TagRestrictions::from_byte(0xFF));
    f
}
fn fsig(f: &Frame<'_>) -> String {
    let mut s = frame_sig(f);
    if let Frame::Picture(p) = f {
        s.push_str(&format!("{:x}", h64(p.picture.data())));
    }
    s
}
fn id3v2_one(cx: &Ctx, key: &str, ver: u8, h: &Hd, els: &[&El], audio: &[u8]) {
    let i = (ver - 2) as usize;
    let b = cat(&[&tag_bytes(ver, h, els), audio]);
    cx.case(key, &b);
    cx.eval(key);
    cx.transitions.fetch_add(els.len() as u64, Ordering::Relaxed);
    let mut want: Vec<String> = Vec::new();
    for e in els.iter().filter(|e| !e.bad) {
        let mut f = e.exp[i].clone().unwrap();
        f.set_flags(want_flags(&e.fl, ver, e.enc[i].as_ref().unwrap().1.len(), h.unsync));
        want.push(fsig(&f));
    }
    want.sort();
    let bad = els.iter().any(|e| e.bad);
    for m in MODES {
        let r = match guard(|| read(Fmt::Mpeg, &b, ParseOptions::new().parsing_mode(m).read_properties(false))) {
            Err(p) => return cx.violation(format!("{key}:{m:?}:panic"), p, vec![("in.mp3", &b)]),
            Ok(Err(e)) => {
                if bad && m == ParsingMode::Strict {
                    continue;
                }
                return cx.violation(format!("{key}:{m:?}:refused"), format!("refused: {e}"), vec![("in.mp3", &b)]);
            }
            Ok(Ok(r)) => r,
        };
        if bad && m == ParsingMode::Strict {
            return cx.violation(format!("{key}:{m:?}:accepted"), "a malformed frame passes strict parsing".to_string(), vec![("in.mp3", &b)]);
        }
        let (got, fl) = match r.get(T::Id3v2) {
            Some(N::Id3v2(t)) => (t.into_iter().map(fsig).collect::<Vec<_>>(), *t.flags()),
            // a tag without frames may be left out
            _ if want.is_empty() => (vec![], want_tag_flags(ver, h)),
            _ => return cx.violation(format!("{key}:{m:?}:missing"), "no ID3v2 tag found".to_string(), vec![("in.mp3", &b)]),
        };
        let mut got = got;
        got.sort();
        if got != want {
            let d: Vec<_> = want.iter().filter(|w| !got.contains(w)).collect();
            let x: Vec<_> = got.iter().filter(|w| !want.contains(w)).collect();
            return cx.violation(format!("{key}:{m:?}:differs"), format!("expected, not read: {d:#?}\nread, not expected: {x:#?}"), vec![("in.mp3", &b)]);
        }
        if format!("{fl:?}") != format!("{:?}", want_tag_flags(ver, h)) {
            return cx.violation(format!("{key}:{m:?}:flags"), format!("expected {:?}, read {fl:?}", want_tag_flags(ver, h)), vec![("in.mp3", &b)]);
        }
    }
    cx.outcome(&want);
    cx.traces.fetch_add(1, Ordering::Relaxed);
}
fn id3v2(cx: &Ctx) {
    let groups = elements();
    let audio = mk::mpeg_audio(4);
    for ver in 2..=4u8 {
        let i = (ver - 2) as usize;
        let hs = headers(ver);
        let all: Vec<(usize, &El)> = groups.iter().enumerate().flat_map(|(g, v)| v.iter().map(move |e| (g, e))).filter(|(_, e)| e.enc[i].is_some()).collect();
        cx.note_add("id3v2_elements", all.len() as u64);
        let end = groups.iter().flatten().find(|e| e.name == "TALB").unwrap();
        // every element under every header, alone and before and after another
        cx.par(&all, |(_, e)| {
            for (k, h) in hs.iter().enumerate() {
                for (w, s) in [("alone", vec![*e]), ("first", vec![*e, end]), ("last", vec![end, *e])] {
                    if e.name == end.name && w != "alone" {
                        continue;
                    }
                    let key = format!("id3v2.{ver}:{}:{w}:h{k}", e.name);
                    if !cx.skip(&key) {
                        id3v2_one(cx, &key, ver, h, &s, &audio);
                    }
                }
            }
        });
        // every pair of groups (their first, a middle and the last member), under a few headers
        let pick = |v: &'_ Vec<El>| -> Vec<usize> {
            let ok: Vec<usize> = (0..v.len()).filter(|j| v[*j].enc[i].is_some()).collect();
            let mut p: Vec<usize> = [ok.first(), ok.get(ok.len() / 2), ok.last()].into_iter().flatten().copied().collect();
            p.dedup();
            p
        };
        let few: Vec<usize> = if cx.thorough() { (0..hs.len()).collect() } else { vec![0, hs.len() / 2 - 1, hs.len() / 2, hs.len() - 1] };
        cx.par_range(groups.len(), |a| {
            for (b, gb) in groups.iter().enumerate() {
                if a == b {
                    continue;
                }
                for x in pick(&groups[a]) {
                    for y in pick(gb) {
                        for k in &few {
                            let key = format!("id3v2.{ver}:{}+{}:h{k}", groups[a][x].name, gb[y].name);
                            if !cx.skip(&key) {
                                id3v2_one(cx, &key, ver, &hs[*k], &[&groups[a][x], &gb[y]], &audio);
                            }
                        }
                    }
                }
            }
        });
        // everything at once, in rotated orders
        cx.par_range(groups.len(), |r| {
            for k in &few {
                let s: Vec<&El> = (0..groups.len()).filter_map(|j| { let v = &groups[(j + r) % groups.len()]; let p = pick(v); p.get(r % p.len().max(1)).map(|q| &v[*q]) }).collect();
                let key = format!("id3v2.{ver}:all{r}:h{k}");
                if !cx.skip(&key) {
                    id3v2_one(cx, &key, ver, &hs[*k], &s, &audio);
                }
            }
        });
    }
}

/// ID3v2.3 splits a date over TYER, TDAT and TIME
fn dates23(cx: &Ctx) {
    let audio = mk::mpeg_audio(4);
    let years: Vec<Option<(&str, &str)>> = vec![None, Some(("TYER", "1999")), Some(("TYER", "1999-05")), Some(("TDRC", "2001-02-03T04:05")), Some(("TDRC", "2001")), Some(("TDRC", "2001-02"))];
    let dats: Vec<Option<&str>> = vec![None, Some("0512"), Some("3112"), Some("2902"), Some("3213"), Some("0113"), Some("3201"), Some("12"), Some("ab12"), Some("12ab"), Some("+1+2"), Some("12345"), Some("é12"), Some("")];
    let times: Vec<Option<&str>> = vec![None, Some("2359"), Some("0000"), Some("2400"), Some("2360"), Some("23"), Some("xx59"), Some("+1+2"), Some("é12"), Some("")];
    let jobs: Vec<(usize, usize, usize)> = (0..years.len()).flat_map(|a| (0..dats.len()).flat_map(move |b| (0..10).map(move |c| (a, b, c)))).collect();
    cx.par(&jobs, |&(a, b, c)| {
        for perm in 0..6usize {
            for h in [false, true] {
                for implicit in [true, false] {
                    for ro in [false, true] {
                        let key = format!("dates:{:?}:{:?}:{:?}:o{perm}:{h}:{implicit}:{ro}", years[a], dats[b], times[c]);
                        if cx.skip(&key) {
                            continue;
                        }
                        cx.eval(&key);
                        let fl = Fl { read_only: ro, ..Fl::default() };
                        let mut parts: Vec<Option<(&str, &str)>> = vec![years[a], dats[b].map(|x| ("TDAT", x)), times[c].map(|x| ("TIME", x))];
                        // Lehmer code
                        let first = parts.remove(perm / 2);
                        let second = parts.remove(perm % 2);
                        let order = [first, second, parts[0]];
                        let mut body = Vec::new();
                        for (i, t) in order.iter().flatten() {
                            body.extend(frame(3, i, &cat(&[&[0], &l1(t)]), &fl, false));
                        }
                        body.extend(frame(3, "TALB", b"\0album", &Fl::default(), false));
                        if h {
                            body = unsync(&body);
                        }
                        let bytes = cat(&[b"ID3\x03\0", &[u8::from(h) << 7], &mk::synch(body.len() as u32), &body, &audio]);
                        cx.case(&key, &bytes);
                        // the model
                        let mut want = vec!["TALB album false".to_string()];
                        let num = |s: &str, m: (u8, u8), n: (u8, u8)| -> Option<(u8, u8)> {
                            if s.len() != 4 || !s.bytes().all(|b| b.is_ascii_digit()) {
                                return None;
                            }
                            let (x, y) = (s[..2].parse().unwrap(), s[2..].parse().unwrap());
                            ((m.0..=m.1).contains(&x) && (n.0..=n.1).contains(&y)).then_some((x, y))
                        };
                        let (mut dat, mut time) = (dats[b], times[c]);
                        if let Some((i, y)) = years[a] {
                            let mut y = y.to_string();
                            // a full date is not a TYER frame
                            if implicit && y.len() == 4 {
                                if let Some((d, m)) = dat.and_then(|x| num(x, (1, 31), (1, 12))) {
                                    y += &format!("-{m:02}-{d:02}");
                                    dat = None;
                                    if let Some((hh, mm)) = time.and_then(|x| num(x, (0, 23), (0, 59))) {
                                        y += &format!("T{hh:02}:{mm:02}");
                                        time = None;
                                    }
                                }
                            }
                            want.push(format!("{} {y} {ro}", if implicit { "TDRC" } else { i }));
                        }
                        want.extend(dat.map(|d| format!("TDAT {d} {ro}")));
                        want.extend(time.map(|d| format!("TIME {d} {ro}")));
                        want.sort();
                        let r = guard(|| read(Fmt::Mpeg, &bytes, ParseOptions::new().implicit_conversions(implicit).read_properties(false)));
                        let got = match &r {
                            Ok(Ok(r)) => match r.get(T::Id3v2) {
                                Some(N::Id3v2(t)) => {
                                    let mut g: Vec<String> = t
                                        .into_iter()
                                        .map(|f| match f {
                                            Frame::Text(t) => format!("{} {} {}", t.id(), t.value, f.flags().read_only),
                                            Frame::Timestamp(t) => format!("{} {} {}", t.id(), t.timestamp, f.flags().read_only),
                                            f => format!("{f:?}"),
                                        })
                                        .collect();
                                    g.sort();
                                    g
                                }
                                _ => vec![],
                            },
                            x => vec![format!("{x:?}")],
                        };
                        if got != want {
                            cx.violation(key, format!("expected {want:?}, read {got:?}"), vec![("in.mp3", &bytes)]);
                        }
                    }
                }
            }
        }
    });
}

// ---------------------------------------------------------------- MP4 ilst
/// An `ilst` child and what a reader has to make of it
#[derive(Clone, Default)]
struct It {
    name: String,
    bytes: Vec<u8>,
    exp: Option<(AtomIdent<'static>, Vec<AtomData>)>,
    /// `gnre`: the genre it is upgraded to
    genre: Option<String>,
    /// refused by strict parsing
    bad: bool,
}
fn data(code: u32, locale: u32, content: &[u8], ext: bool) -> Vec<u8> {
    let b = cat(&[&code.to_be_bytes(), &locale.to_be_bytes(), content]);
    if ext { mk::atom_ext(b"data", &b) } else { mk::atom(b"data", &b) }
}
fn freeform(mean: &str, name: &str, rest: &[Vec<u8>], ext: [bool; 3]) -> Vec<u8> {
    let at = |e: bool, n: &[u8; 4], b: &[u8]| if e { mk::atom_ext(n, b) } else { mk::atom(n, b) };
    let m = at(ext[1], b"mean", &cat(&[&z(4), mean.as_bytes()]));
    let n = at(ext[2], b"name", &cat(&[&z(4), name.as_bytes()]));
    at(ext[0], b"----", &cat(&[&m, &n, &rest.concat()]))
}
fn four(f: &[u8; 4]) -> AtomIdent<'static> {
    AtomIdent::Fourcc(*f)
}
fn ilst_items() -> Vec<It> {
    let mut v: Vec<It> = Vec::new();
    let mut add = |name: &str, bytes: Vec<u8>, exp: Option<(AtomIdent<'static>, Vec<AtomData>)>, bad: bool| {
        v.push(It { name: name.to_string(), bytes, exp, genre: None, bad });
    };
    let nam = b"\xa9nam";
    let u8s = |s: &str| AtomData::UTF8(s.to_string());
    let unk = |code: DataType, b: &[u8]| AtomData::Unknown { code, data: b.to_vec() };
    // text
    for s in ["a", "Tïtle 𝄞", "two\nlines"] {
        add(&format!("text {s}"), mk::atom(nam, &data(1, 0, s.as_bytes(), false)), Some((four(nam), vec![u8s(s)])), false);
        add(&format!("utf16 {s}"), mk::atom(b"\xa9ART", &data(2, 0, &u16be(s, false), false)), Some((four(b"\xa9ART"), vec![AtomData::UTF16(s.to_string())])), false);
    }
    add("long text", mk::atom(nam, &data(1, 0, &vec![b'x'; 70000], false)), Some((four(nam), vec![u8s(&"x".repeat(70000))])), false);
    for loc in [1, 0x0001_0001, u32::MAX] {
        add(&format!("locale {loc:x}"), mk::atom(b"\xa9alb", &data(1, loc, b"album", false)), Some((four(b"\xa9alb"), vec![u8s("album")])), false);
    }
    // every well-known type without an interpretation of its own
    for (c, t) in [
        (0, DataType::Reserved),
        (3, DataType::SJis),
        (4, DataType::Utf8Sort),
        (5, DataType::Utf16Sort),
        (13, DataType::Jpeg),
        (14, DataType::Png),
        (23, DataType::BeFloat32),
        (24, DataType::BeFloat64),
        (27, DataType::Bmp),
        (28, DataType::QuicktimeMetadata),
        (65, DataType::Signed8BitInteger),
        (66, DataType::Be16BitSignedInteger),
        (67, DataType::Be32BitSignedInteger),
        (74, DataType::Be64BitSignedInteger),
        (0x00FF_FFFF, DataType::Other(0x00FF_FFFF)),
        (42, DataType::Other(42)),
    ] {
        for n in [1usize, 4, 8, 13] {
            let b = mk::pat(n, c as u8);
            add(&format!("type {c}x{n}"), mk::atom(b"xtra", &data(c, 0, &b, false)), Some((four(b"xtra"), vec![unk(t, &b)])), false);
        }
    }
    // integers: one to four bytes
    for x in [0i64, 1, 5, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 0x7F_FFFF, 0x80_0000, 0xFF_FFFF, 0x100_0000, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFF] {
        for n in 1..=4usize {
            if x >= 1 << (8 * n) {
                continue;
            }
            let b = &(x as u32).to_be_bytes()[4 - n..];
            let sx = if x >= 1 << (8 * n - 1) { x - (1 << (8 * n)) } else { x };
            add(&format!("int {x}x{n}"), mk::atom(b"tmpo", &data(21, 0, b, false)), Some((four(b"tmpo"), vec![AtomData::SignedInteger(sx as i32)])), false);
            add(&format!("uint {x}x{n}"), mk::atom(b"stik", &data(22, 0, b, false)), Some((four(b"stik"), vec![AtomData::UnsignedInteger(x as u32)])), false);
        }
    }
    for n in [5usize, 8] {
        add(&format!("int size {n}"), mk::atom(b"tmpo", &data(21, 0, &mk::pat(n, 1), false)), None, true);
        add(&format!("uint size {n}"), mk::atom(b"stik", &data(22, 0, &mk::pat(n, 1), false)), None, true);
    }
    add("plID", mk::atom(b"plID", &data(21, 0, &[0, 0, 0, 0, 1, 2, 3, 4], false)), Some((four(b"plID"), vec![unk(DataType::BeSignedInteger, &[0, 0, 0, 0, 1, 2, 3, 4])])), false);
    // number pairs
    for (f, n) in [(b"trkn", 8usize), (b"disk", 6)] {
        let mut b = vec![0, 0, 0, 3, 0, 12, 0, 0];
        b.truncate(n);
        add(std::str::from_utf8(f).unwrap(), mk::atom(f, &data(0, 0, &b, false)), Some((four(f), vec![unk(DataType::Reserved, &b)])), false);
    }
    // flags, of every size and type
    for f in [b"cpil", b"hdvd", b"pcst", b"pgap", b"shwm"] {
        for code in [0, 21, 22] {
            for b in [&[0][..], &[1], &[0, 1], &[1, 0], &[0, 0, 0, 0], &[0, 0, 0, 1], &[0; 8], &[0, 0, 0, 0, 0, 0, 0, 9]] {
                add(&format!("flag {} {code} {b:?}", std::str::from_utf8(f).unwrap()), mk::atom(f, &data(code, 0, b, false)), Some((four(f), vec![AtomData::Bool(b.iter().any(|x| *x != 0))])), false);
            }
        }
    }
    // pictures
    let pic = |m: Option<MimeType>, b: &[u8]| {
        let mut p = Picture::unchecked(b.to_vec());
        if let Some(m) = m {
            p = p.mime_type(m);
        }
        AtomData::Picture(p.build())
    };
    let pics = [(0, None), (12, Some(MimeType::Gif)), (13, Some(MimeType::Jpeg)), (14, Some(MimeType::Png)), (27, Some(MimeType::Bmp))];
    for (c, m) in &pics {
        for n in [1usize, 300, 66000] {
            let b = mk::rnd(n, *c);
            add(&format!("covr {c}x{n}"), mk::atom(b"covr", &data(*c, 0, &b, false)), Some((four(b"covr"), vec![pic(m.clone(), &b)])), false);
        }
        for (c2, m2) in &pics {
            let (b, b2) = (mk::rnd(40, *c), mk::rnd(41, 100 + *c2));
            add(&format!("covr {c}+{c2}"), mk::atom(b"covr", &cat(&[&data(*c, 0, &b, false), &data(*c2, 0, &b2, *c == 12)])), Some((four(b"covr"), vec![pic(m.clone(), &b), pic(m2.clone(), &b2)])), false);
        }
        let b = mk::rnd(40, *c);
        for c2 in [1, 21, 99] {
            add(&format!("covr {c}+bad {c2}"), mk::atom(b"covr", &cat(&[&data(*c, 0, &b, false), &data(c2, 0, b"abcd", false)])), Some((four(b"covr"), vec![pic(m.clone(), &b)])), true);
            add(&format!("covr bad {c2}+{c}"), mk::atom(b"covr", &cat(&[&data(c2, 0, b"abcd", false), &data(*c, 0, &b, false)])), Some((four(b"covr"), vec![pic(m.clone(), &b)])), true);
        }
    }
    add("covr bad", mk::atom(b"covr", &data(1, 0, b"text", false)), None, true);
    // several values
    let three = [data(1, 0, b"one", false), data(1, 0, b"two", true), data(2, 0, &u16be("three", false), false)];
    add("three values", mk::atom(b"\xa9gen", &three.concat()), Some((four(b"\xa9gen"), vec![u8s("one"), u8s("two"), AtomData::UTF16("three".into())])), false);
    add("mixed values", mk::atom(b"mixd", &cat(&[&data(1, 0, b"text", false), &data(21, 0, &[7], false), &data(0, 0, &[1, 2], false)])), Some((four(b"mixd"), vec![u8s("text"), AtomData::SignedInteger(7), unk(DataType::Reserved, &[1, 2])])), false);
    // extended sizes
    let ex = Some((four(nam), vec![u8s("extended")]));
    add("extended data", mk::atom(nam, &data(1, 0, b"extended", true)), ex.clone(), false);
    add("extended item", mk::atom_ext(nam, &data(1, 0, b"extended", false)), ex.clone(), false);
    add("extended both", mk::atom_ext(nam, &data(1, 0, b"extended", true)), ex.clone(), false);
    // freeform
    let ff = |m: &str, n: &str| AtomIdent::Freeform { mean: Cow::Owned(m.to_string()), name: Cow::Owned(n.to_string()) };
    for (m, n) in [("com.apple.iTunes", "MOOD"), ("com.apple.iTunes", "näme"), ("org.x", ""), ("", "n"), ("a", &"n".repeat(300))] {
        add(&format!("freeform {m}:{}", n.len()), freeform(m, n, &[data(1, 0, b"happy", false)], [false; 3]), Some((ff(m, n), vec![u8s("happy")])), false);
        add(&format!("freeform {m}:{} binary", n.len()), freeform(m, n, &[data(0, 0, &[1, 0, 2], false)], [false; 3]), Some((ff(m, n), vec![unk(DataType::Reserved, &[1, 0, 2])])), false);
    }
    for e in 0..8u8 {
        let ext = [e & 1 != 0, e & 2 != 0, e & 4 != 0];
        add(&format!("freeform extended {e}"), freeform("com.apple.iTunes", "EXT", &[data(1, 0, b"one", e & 1 == 0), data(1, 0, b"two", false)], ext), Some((ff("com.apple.iTunes", "EXT"), vec![u8s("one"), u8s("two")])), false);
    }
    add("freeform without data", freeform("com.apple.iTunes", "EMPTY", &[], [false; 3]), None, false);
    // nothing to read
    for n in [0usize, 1, 8, 100] {
        add(&format!("free {n}"), mk::atom(b"free", &z(n)), None, false);
        add(&format!("skip {n}"), mk::atom(b"skip", &mk::pat(n, 1)), None, false);
    }
    add("free extended", mk::atom_ext(b"free", &z(9)), None, false);
    add("no child", mk::atom(nam, &[]), None, false);
    add("empty value", mk::atom(nam, &data(1, 0, b"", false)), None, false);
    add("empty then value", mk::atom(nam, &cat(&[&data(1, 0, b"", false), &data(1, 0, b"v", false)])), Some((four(nam), vec![u8s("v")])), false);
    // children that are not values, values of another type set, values without room for their header
    let other = mk::atom(b"name", &cat(&[&z(4), b"x"]));
    let set = cat(&[&mk::be32(17), b"data", &[1, 0, 0, 1, 0, 0, 0, 0, b'q']]);
    let set_ext = mk::atom_ext(b"data", &[1, 0, 0, 1, 0, 0, 0, 0, b'q']);
    let short = mk::atom(b"data", &[0, 0, 0, 1]);
    let short0 = mk::atom(b"data", &[]);
    let short_ext = mk::atom_ext(b"data", &[0, 0, 0, 1]);
    let val = data(1, 0, b"value", false);
    for (n, x) in [("other child", &other), ("other set", &set), ("other set, extended", &set_ext), ("short value", &short), ("bare value", &short0), ("short extended value", &short_ext), ("trailing bytes", &vec![0u8; 3])] {
        let tail = x.len() < 8;
        add(&format!("{n} alone"), mk::atom(nam, x), None, true);
        add(&format!("{n} behind"), mk::atom(nam, &cat(&[&val, x])), Some((four(nam), vec![u8s("value")])), true);
        if !tail {
            add(&format!("{n} before"), mk::atom(nam, &cat(&[x, &val])), Some((four(nam), vec![u8s("value")])), true);
            add(&format!("{n} between"), mk::atom(nam, &cat(&[&val, x, &val])), Some((four(nam), vec![u8s("value"), u8s("value")])), true);
            add(&format!("{n} in a picture"), mk::atom(b"covr", &cat(&[x, &data(14, 0, b"png", false)])), Some((four(b"covr"), vec![pic(Some(MimeType::Png), b"png")])), true);
            add(&format!("{n} in a flag"), mk::atom(b"cpil", &cat(&[x, &data(21, 0, &[1], false)])), Some((four(b"cpil"), vec![AtomData::Bool(true)])), true);
            add(&format!("{n} in a freeform"), freeform("com.apple.iTunes", "X", &[x.clone(), val.clone()], [false; 3]), Some((ff("com.apple.iTunes", "X"), vec![u8s("value")])), true);
        }
    }
    // a value whose text cannot be decoded
    add("bad utf8", mk::atom(nam, &data(1, 0, &[b'a', 0xFF, b'b'], false)), None, true);
    // genre numbers
    for (n, g) in [(0u16, None), (1, Some("Blues")), (18, Some("Rock")), (80, Some("Hard Rock")), (192, Some("Psybient")), (193, None), (255, None)] {
        v.push(It { name: format!("gnre {n}"), bytes: mk::atom(b"gnre", &data(0, 0, &n.to_be_bytes(), n % 2 == 1)), exp: Some((four(b"gnre"), vec![unk(DataType::Reserved, &n.to_be_bytes())])), genre: g.map(str::to_string), bad: false });
    }
    v
}
fn ilst_sig(id: &AtomIdent<'_>, d: &[&AtomData]) -> String {
    let mut s = format!("{id:?}");
    for x in d {
        match x {
            AtomData::Picture(p) => s.push_str(&format!(" {:?} {:?} {:?} {:x}x{}", p.pic_type(), p.mime_type(), p.description(), h64(p.data()), p.data().len())),
            x => s.push_str(&format!(" {x:?}")),
        }
    }
    s.chars().take(400).collect()
}
fn ilst_one(cx: &Ctx, key: &str, its: &[&It], lay: usize) {
    let items: Vec<Vec<u8>> = its.iter().map(|i| i.bytes.clone()).collect();
    let il = if lay == 3 { mk::atom_ext(b"ilst", &items.concat()) } else { mk::atom(b"ilst", &items.concat()) };
    let h = mk::hdlr_mdir();
    let meta = match lay {
        0 => mk::meta_full(&[h, il]),
        1 => mk::meta_full(&[h, mk::free(64), il, mk::free(1024)]),
        2 => mk::meta_nonfull(&[h, il]),
        3 => mk::meta_full(&[il, h]),
        _ => mk::atom_ext(b"meta", &cat(&[&z(4), &h, &il])),
    };
    let b = mk::mp4_file(&mk::Mp4Layout { udta: Some(vec![meta]), mdat_first: lay == 4, udta_before_trak: lay == 1, ..Default::default() });
    cx.case(key, &b);
    cx.eval(key);
    cx.transitions.fetch_add(its.len() as u64, Ordering::Relaxed);
    let bad = its.iter().any(|i| i.bad);
    for m in MODES {
        for implicit in [true, false] {
            for cover in [true, false] {
                if !cover && (!implicit || m == ParsingMode::Relaxed) {
                    continue;
                }
                let mut want: Vec<String> = Vec::new();
                let mut genres: Vec<AtomData> = Vec::new();
                let mut gen_item = false;
                let mut strict_bad = false;
                for i in its {
                    let is_covr = i.bytes[4..8] == *b"covr";
                    if is_covr && !cover {
                        continue;
                    }
                    strict_bad |= i.bad;
                    if implicit && i.name.starts_with("gnre") {
                        genres.extend(i.genre.clone().map(AtomData::UTF8));
                        continue;
                    }
                    if let Some((id, d)) = &i.exp {
                        gen_item |= *id == four(b"\xa9gen");
                        want.push(ilst_sig(id, &d.iter().collect::<Vec<_>>()));
                    }
                }
                if !genres.is_empty() && !gen_item {
                    want.push(ilst_sig(&four(b"\xa9gen"), &genres.iter().collect::<Vec<_>>()));
                }
                let o = ParseOptions::new().parsing_mode(m).read_properties(false).implicit_conversions(implicit).read_cover_art(cover);
                let k = format!("{key}:{m:?}:{implicit}:{cover}");
                let r = match guard(|| read(Fmt::Mp4, &b, o)) {
                    Err(p) => return cx.violation(format!("{k}:panic"), p, vec![("in.m4a", &b)]),
                    Ok(Err(_)) if strict_bad && m == ParsingMode::Strict => continue,
                    Ok(Err(e)) => return cx.violation(format!("{k}:refused"), format!("refused: {e}"), vec![("in.m4a", &b)]),
                    Ok(Ok(r)) => r,
                };
                if strict_bad && m == ParsingMode::Strict {
                    // which of the malformed items strict parsing refuses is left open, what it reads is not
                    continue;
                }
                let got: Vec<String> = match r.get(T::Ilst) {
                    Some(N::Ilst(t)) => t.into_iter().map(|a| ilst_sig(a.ident(), &a.data().collect::<Vec<_>>())).collect(),
                    _ => vec![],
                };
                if got != want {
                    return cx.violation(format!("{k}:differs"), format!("expected {want:#?}\nread {got:#?}"), vec![("in.m4a", &b)]);
                }
                cx.outcome(&got);
            }
        }
    }
    let _ = bad;
    cx.traces.fetch_add(1, Ordering::Relaxed);
}
fn ilst(cx: &Ctx) {
    let all = ilst_items();
    cx.note("ilst_items", json!(all.len()));
    cx.par_range(all.len(), |a| {
        for lay in 0..5 {
            let key = format!("ilst:{}:l{lay}", all[a].name);
            if !cx.skip(&key) {
                ilst_one(cx, &key, &[&all[a]], lay);
            }
        }
        for (b, ib) in all.iter().enumerate() {
            // large items meet a few others only
            if all[a].bytes.len() + ib.bytes.len() > 60000 && b % 16 != 0 {
                continue;
            }
            let key = format!("ilst:{}+{}", all[a].name, ib.name);
            if !cx.skip(&key) {
                ilst_one(cx, &key, &[&all[a], ib], (a + b) % 5);
            }
        }
    });
    // triples of a representative of every kind (thorough: of every item that is small)
    let mut reps: Vec<&It> = Vec::new();
    for i in &all {
        let kind = |n: &str| n.split_whitespace().take(2).collect::<Vec<_>>().join(" ");
        if i.bytes.len() < 2000 && !reps.iter().any(|r| kind(&r.name).split(' ').next() == kind(&i.name).split(' ').next() && r.bad == i.bad && r.exp.is_some() == i.exp.is_some() && r.genre.is_some() == i.genre.is_some()) {
            reps.push(i);
        }
    }
    cx.note("ilst_triples_of", json!(reps.len()));
    cx.par_range(reps.len(), |a| {
        for b in &reps {
            for c in &reps {
                let key = format!("ilst:{}+{}+{}", reps[a].name, b.name, c.name);
                if !cx.skip(&key) {
                    ilst_one(cx, &key, &[reps[a], b, c], a % 5);
                }
            }
        }
    });
}

// ---------------------------------------------------------------- formats that are plain lists of items
struct E {
    name: String,
    bytes: Vec<u8>,
    exp: Vec<String>,
    /// malformed: strict parsing may refuse the file
    bad: bool,
    /// items of the same class exclude each other
    class: &'static str,
}
fn e(name: impl Into<String>, bytes: Vec<u8>, exp: &[&str], bad: bool, class: &'static str) -> E {
    E { name: name.into(), bytes, exp: exp.iter().map(|x| x.to_string()).collect(), bad, class }
}
struct List<'a> {
    name: &'a str,
    items: Vec<E>,
    variants: usize,
    build: &'a (dyn Fn(usize, &[&E]) -> (Fmt, Vec<u8>) + Sync),
    get: &'a (dyn Fn(&Full) -> Vec<String> + Sync),
    opts: Vec<(&'static str, ParseOptions)>,
    /// the smallest items there are: tags of up to this many are read
    many: Vec<E>,
}
fn short(s: &[String]) -> Vec<String> {
    s.iter().map(|x| if x.len() > 300 { format!("{}.. {:x}", x.chars().take(100).collect::<String>(), h64(x)) } else { x.clone() }).collect()
}
fn list_one(cx: &Ctx, l: &List<'_>, v: usize, s: &[&E]) {
    for (i, a) in s.iter().enumerate() {
        if !a.class.is_empty() && s[..i].iter().any(|b| b.class == a.class) {
            return;
        }
    }
    let key = format!("{}:v{v}:{}", l.name, s.iter().map(|e| e.name.as_str()).collect::<Vec<_>>().join("+"));
    if cx.skip(&key) {
        return;
    }
    let (f, b) = (l.build)(v, s);
    cx.case(&key, &b);
    cx.eval(&key);
    cx.transitions.fetch_add(s.len() as u64, Ordering::Relaxed);
    let mut want: Vec<String> = s.iter().flat_map(|e| e.exp.clone()).collect();
    want.sort();
    let bad = s.iter().any(|e| e.bad);
    for m in MODES {
        for (on, o) in &l.opts {
            let k = format!("{key}:{m:?}:{on}");
            let r = match guard(|| read(f, &b, o.clone().parsing_mode(m).read_properties(false))) {
                Err(p) => return cx.violation(format!("{k}:panic"), p, vec![("in", &b)]),
                Ok(Err(_)) if bad && m == ParsingMode::Strict => continue,
                Ok(Err(e)) => return cx.violation(format!("{k}:refused"), format!("refused: {e}"), vec![("in", &b)]),
                Ok(Ok(r)) => r,
            };
            let mut got = (l.get)(&r);
            got.sort();
            let want: Vec<String> = if *on == "no covers" { want.iter().filter(|x| !x.starts_with("picture")).cloned().collect() } else { want.clone() };
            if got != want {
                let (missing, more): (Vec<_>, Vec<_>) = (want.iter().filter(|x| !got.contains(x)).cloned().collect(), got.iter().filter(|x| !want.contains(x)).cloned().collect());
                let k = if k.len() > 300 { format!("{}:v{v}:{} items:{m:?}:{on}", l.name, s.len()) } else { k };
                return cx.violation(format!("{k}:differs"), format!("missing {:#?}\nunexpected {:#?}\nread {:#?}", short(&missing), short(&more), short(&got)), vec![("in", &b)]);
            }
            cx.outcome(&got);
        }
    }
    cx.traces.fetch_add(1, Ordering::Relaxed);
}
fn list(cx: &Ctx, l: &List<'_>) {
    cx.note(&format!("{}_items", l.name), json!(l.items.len()));
    let n = l.items.len();
    for v in 0..l.variants {
        list_one(cx, l, v, &[]);
        cx.par_range(l.many.len().min(cx.q(64, 400)), |n| list_one(cx, l, v, &l.many[..n].iter().collect::<Vec<_>>()));
        list_one(cx, l, v, &l.many.iter().collect::<Vec<_>>());
    }
    cx.par_range(n, |a| {
        for v in 0..l.variants {
            list_one(cx, l, v, &[&l.items[a]]);
            for b in 0..n {
                if l.items[a].bytes.len() + l.items[b].bytes.len() < 20000 || b % 8 == 0 {
                    list_one(cx, l, v, &[&l.items[a], &l.items[b]]);
                }
            }
        }
        let small: Vec<&E> = l.items.iter().filter(|e| e.bytes.len() < 1000).collect();
        let step = cx.q(if small.len() > 40 { 3 } else { 1 }, 1);
        for (bi, b) in small.iter().enumerate().filter(|(i, _)| i % step == a % step) {
            for (ci, c) in small.iter().enumerate().filter(|(i, _)| i % step == (a + bi) % step) {
                if l.items[a].bytes.len() < 1000 {
                    list_one(cx, l, (a + bi + ci) % l.variants, &[&l.items[a], b, c]);
                }
            }
        }
    });
}
fn ape(cx: &Ctx) {
    let it = |k: &str, f: u32, v: &[u8]| cat(&[&mk::le32(v.len() as u32), &mk::le32(f), k.as_bytes(), &[0], v]);
    let mut items = Vec::new();
    let mut keys: Vec<&'static str> = vec!["Title", "ARTIST", "album", "xy", "A very long key with spaces !~", "Year", "Track"];
    keys.push(Box::leak("k".repeat(255).into_boxed_str()));
    for k in keys {
        for ro in [0u32, 1] {
            for v in ["v", "", "värde 𝄞", "one\0two\0three", "3/12", " spaces "] {
                items.push(e(format!("{}text {}{ro}:{v:?}", &k[..2], k.len()), it(k, ro, v.as_bytes()), &[&format!("{k} T {v:?} {}", ro == 1)], false, k));
            }
            let b = mk::pat(9, 200);
            items.push(e(format!("{}bin {}{ro}", &k[..2], k.len()), it(k, 2 | ro, &b), &[&format!("{k} B {:x} {}", h64(&b[..]), ro == 1)], false, k));
            items.push(e(format!("{}loc {}{ro}", &k[..2], k.len()), it(k, 4 | ro, b"http://x/\xc3\xa9"), &[&format!("{k} L {:?} {}", "http://x/é", ro == 1)], false, k));
        }
    }
    for (n, k) in [(3usize, "Cover Art (Front)"), (20000, "Cover Art (Back)")] {
        let b = cat(&[b"name.png\0", &mk::rnd(n, 3)]);
        items.push(e(format!("cover {n}"), it(k, 2, &b), &[&format!("picture {k} B {:x} false", h64(&b[..]))], false, k));
    }
    let many = (0..300usize).map(|i| {
        let k = format!("k{}", (b'A' + (i % 26) as u8) as char).repeat(1 + i / 26);
        e(k.clone(), it(&k, 0, if i % 2 == 0 { b"v" } else { b"" }), &[&format!("{k} T {:?} false", if i % 2 == 0 { "v" } else { "" })], false, "")
    }).collect();
    let build = |v: usize, s: &[&E]| {
        let body: Vec<u8> = s.iter().flat_map(|e| e.bytes.clone()).collect();
        // the size counts the footer, not the header
        let hf = |ver: u32, fl: u32| cat(&[b"APETAGEX", &mk::le32(ver), &mk::le32(body.len() as u32 + 32), &mk::le32(s.len() as u32), &mk::le32(fl), &z(8)]);
        let (h, f) = (1u32 << 31, 1 << 29);
        let v2 = cat(&[&hf(2000, h | f), &body, &hf(2000, h)]);
        let v2_nohead = cat(&[&body, &hf(2000, 0)]);
        let v1 = cat(&[&body, &hf(1000, 0)]);
        let mut v1tail = mk::id3v1("t", "a", 1);
        v1tail[93..97].copy_from_slice(b"1999");
        let ly = mk::lyrics3v2("words");
        match v {
            0 => (Fmt::Mpeg, cat(&[&mk::mpeg_audio(4), &v2])),
            1 => (Fmt::Ape, cat(&[&mk::ape_audio(), &v2, &v1tail])),
            2 => (Fmt::WavPack, cat(&[&mk::wavpack_audio(), &v2_nohead])),
            3 => (Fmt::Mpc, cat(&[&mk::mpc_sv8(), &v1, &v1tail])),
            4 => (Fmt::Mpeg, cat(&[&mk::id3v2_simple("x", 10), &mk::mpeg_audio(4), &v2_nohead, &ly, &v1tail])),
            5 => (Fmt::Mpeg, cat(&[&v2, &mk::mpeg_audio(4)])),
            6 => (Fmt::Ape, cat(&[&v2, &mk::ape_audio()])),
            _ => (Fmt::Mpeg, cat(&[&mk::id3v2_simple("x", 10), &v2, &mk::mpeg_audio(4), &v1tail])),
        }
    };
    let get = |r: &Full| match r.get(T::Ape) {
        Some(N::Ape(t)) => t
            .into_iter()
            .map(|i| {
                let cover = if i.key().starts_with("Cover") { "picture " } else { "" };
                let v = match i.value() {
                    ItemValue::Text(s) => format!("T {s:?}"),
                    ItemValue::Locator(s) => format!("L {s:?}"),
                    ItemValue::Binary(b) => format!("B {:x}", h64(&b[..])),
                };
                format!("{cover}{} {v} {}", i.key(), i.read_only)
            })
            .collect(),
        _ => vec![],
    };
    list(cx, &List { name: "ape", items, variants: 8, build: &build, get: &get, opts: vec![("", ParseOptions::new()), ("no covers", ParseOptions::new().read_cover_art(false)), ("no conversions", ParseOptions::new().implicit_conversions(false))], many });
}
fn vorbis(cx: &Ctx) {
    let mut items = Vec::new();
    let f = |b: &[u8]| cat(&[&mk::le32(b.len() as u32), b]);
    for k in ["TITLE", "title", "TiTlE", "X", "ODD }KEY!", "TRACKTOTAL", "ALBUM ARTIST", "DESCRIPTION"] {
        for v in ["v", "", "a=b=", "värde 𝄞", " spaced ", "two\nlines"] {
            items.push(e(format!("{k}={v:?}"), f(format!("{k}={v}").as_bytes()), &[&format!("{k}={v}")], false, if k == "TRACKTOTAL" { "track" } else { "" }));
        }
    }
    for n in [255usize, 256, 509, 510, 511, 70000] {
        items.push(e(format!("length {n}"), f(format!("L={}", "x".repeat(n - 2)).as_bytes()), &[&format!("L={}", "x".repeat(n - 2))], false, ""));
    }
    for (k, kk, tot, class) in [("TRACKNUMBER", "TRACKNUMBER", "TRACKTOTAL", "track"), ("tracknumber", "TRACKNUMBER", "TRACKTOTAL", "track"), ("DISCNUMBER", "DISCNUMBER", "DISCTOTAL", "disc"), ("DiscNumber", "DISCNUMBER", "DISCTOTAL", "disc")] {
        for (v, want) in [("3", vec![format!("{kk}=3")]), ("3/12", vec![format!("{kk}=3"), format!("{tot}=12")]), ("0", vec![format!("{kk}=0")]), ("A1", vec![format!("{kk}=A1")]), ("", vec![format!("{kk}=")]), ("4294967295", vec![format!("{kk}=4294967295")])] {
            items.push(e(format!("{k}={v}"), f(format!("{k}={v}").as_bytes()), &want.iter().map(String::as_str).collect::<Vec<_>>(), false, class));
        }
    }
    // pictures
    for (n, ty, desc) in [(1usize, 3u32, "front"), (2, 0, ""), (3, 20, "ö"), (40000, 6, "big")] {
        let b = mk::rnd(n, ty);
        let blk = cat(&[&mk::be32(ty), &mk::be32(9), b"image/png", &mk::be32(desc.len() as u32), desc.as_bytes(), &mk::be32(1), &mk::be32(2), &mk::be32(3), &mk::be32(4), &mk::be32(n as u32), &b]);
        let mut c = Vec::new();
        let w = format!("picture {ty} image/png {desc:?} {:x} 1x2 3 4", h64(&b[..]));
        c.push(("METADATA_BLOCK_PICTURE", w.clone()));
        c.push(("metadata_block_picture", w));
        for (k, w) in c {
            items.push(e(format!("{k} {n}"), f(&cat(&[k.as_bytes(), b"=", &crate::bodies::base64(&blk)])), &[&w], false, ""));
        }
        let png = cat(&[b"\x89PNG\x0D\x0A\x1A\x0A", &b]);
        items.push(e(format!("coverart {n}"), f(&cat(&[b"COVERART=", &crate::bodies::base64(&png)])), &[&format!("picture 0 image/png \"\" {:x} 0x0 0 0", h64(&png[..]))], false, ""));
    }
    // malformed fields
    for (n, b) in [("no separator", &b"NOSEP"[..]), ("nothing", b""), ("bad text", b"K=a\xFFb"), ("bad key", b"K\x01=v"), ("high key", b"K\xC3\xA9=v"), ("tilde key", b"K~=v"), ("bad number", b"TRACKNUMBER=\xFF"), ("bad picture", b"METADATA_BLOCK_PICTURE=%%%"), ("bad cover", b"COVERART=%%%")] {
        items.push(e(n, f(b), &[], true, ""));
    }
    let page_up = |serial: u32, seq: &mut u32, packets: &[&[u8]], per: usize| -> Vec<u8> {
        // the packets' segments over pages of `per` segments each, the last page ends with the last packet
        let mut segs: Vec<(u8, Vec<u8>, bool)> = Vec::new();
        for p in packets {
            let l = mk::lacing_of(p.len());
            let mut at = 0;
            for (i, x) in l.iter().enumerate() {
                segs.push((*x, p[at..at + *x as usize].to_vec(), i == 0));
                at += *x as usize;
            }
        }
        let mut o = Vec::new();
        for c in segs.chunks(per) {
            let ends = c.iter().any(|s| s.0 < 255);
            o.extend(mk::ogg_page_raw(u8::from(!c[0].2), if ends { 0 } else { u64::MAX }, serial, *seq, &c.iter().map(|s| s.0).collect::<Vec<_>>(), &c.iter().flat_map(|s| s.1.clone()).collect::<Vec<_>>()));
            *seq += 1;
        }
        o
    };
    let build = |v: usize, s: &[&E]| {
        let vendor = ["vend", "", "vëndor"][v % 3];
        let body = cat(&[&mk::le32(vendor.len() as u32), vendor.as_bytes(), &mk::le32(s.len() as u32), &s.iter().flat_map(|e| e.bytes.clone()).collect::<Vec<u8>>()]);
        let ser = 0x4321_0000 + v as u32;
        let mut seq = 1;
        match v {
            0 => (Fmt::Flac, mk::flac_file(&[(4, body)])),
            1 => (Fmt::Flac, mk::flac_file(&[(1, z(20)), (2, mk::pat(40, 1)), (4, body), (1, z(0)), (3, z(18))])),
            2 | 3 => {
                let c = cat(&[b"\x03vorbis", &body, &[1]]);
                let mut o = mk::ogg_page(2, 0, ser, 0, &[&mk::vorbis_ident()]);
                if v == 2 {
                    o.extend(page_up(ser, &mut seq, &[&c, &mk::vorbis_setup(300)], 255));
                } else {
                    o.extend(page_up(ser, &mut seq, &[&c], 1));
                    o.extend(page_up(ser, &mut seq, &[&mk::vorbis_setup(300)], 3));
                }
                o.extend(mk::ogg_audio_pages(ser, seq));
                (Fmt::Vorbis, o)
            }
            4 | 5 => {
                let c = cat(&[b"OpusTags", &body, &z(if v == 5 { 700 } else { 0 })]);
                let mut o = mk::ogg_page(2, 0, ser, 0, &[&mk::opus_head()]);
                o.extend(page_up(ser, &mut seq, &[&c], if v == 5 { 2 } else { 255 }));
                o.extend(mk::ogg_audio_pages(ser, seq));
                (Fmt::Opus, o)
            }
            _ => {
                let mut o = mk::ogg_page(2, 0, ser, 0, &[&mk::speex_head()]);
                o.extend(page_up(ser, &mut seq, &[&body], 4));
                o.extend(mk::ogg_audio_pages(ser, seq));
                (Fmt::Speex, o)
            }
        }
    };
    let get = |r: &Full| match r.get(T::Vorbis) {
        Some(N::Vorbis(t)) => {
            let mut o: Vec<String> = t.items().map(|(k, v)| format!("{k}={v}")).collect();
            o.extend(t.pictures().iter().map(|(p, i)| format!("picture {} {} {:?} {:x} {}x{} {} {}", p.pic_type().as_u8(), p.mime_type().map_or("none", |m| m.as_str()), p.description().unwrap_or(""), h64(p.data()), i.width, i.height, i.color_depth, i.num_colors)));
            if !["vend", "", "vëndor"].contains(&t.vendor()) {
                o.push(format!("vendor {}", t.vendor()));
            }
            o
        }
        _ => vec![],
    };
    let many = (0..300).map(|i| e(format!("A={}", i % 2), f(if i % 2 == 0 { b"A=" } else { b"B=1" }), &[if i % 2 == 0 { "A=" } else { "B=1" }], false, "")).collect();
    list(cx, &List { name: "vorbis", items, variants: 7, build: &build, get: &get, opts: vec![("", ParseOptions::new()), ("no covers", ParseOptions::new().read_cover_art(false))], many });
}
fn riff(cx: &Ctx) {
    let mut items = Vec::new();
    for k in [b"INAM", b"IART", b"iBSU", b"IPRT", b"TRCK"] {
        let ks = std::str::from_utf8(k).unwrap();
        for v in ["v", "vv", "vvv", "värde 𝄞", " s "] {
            for nuls in 0..3usize {
                items.push(e(format!("{ks}{v}{nuls}"), mk::chunk_le(k, &cat(&[v.as_bytes(), &z(nuls)])), &[&format!("{ks}={v}")], false, ""));
            }
        }
    }
    for n in [255usize, 256, 30001] {
        items.push(e(format!("long {n}"), mk::chunk_le(b"ICMT", &vec![b'x'; n]), &[&format!("ICMT={}", "x".repeat(n))], false, ""));
    }
    for b in [&b"a\xFFb"[..], b"\xC3\x28\0", b"\xFF"] {
        items.push(e(format!("bad text {b:?}"), mk::chunk_le(b"IGNR", b), &[], true, ""));
    }
    let build = |v: usize, s: &[&E]| {
        let li = |x: &[&E]| mk::chunk_le(b"LIST", &cat(&[b"INFO", &x.iter().flat_map(|e| e.bytes.clone()).collect::<Vec<u8>>()]));
        let d = mk::chunk_le(b"data", &mk::pat(64, 1));
        let adtl = mk::chunk_le(b"LIST", b"adtllabl\x05\0\0\0\x01\0\0\0a\0");
        let id3 = mk::chunk_le(b"ID3 ", &mk::id3v2_simple("x", 11));
        let c = match v {
            0 => vec![mk::wav_fmt(), li(s), d],
            1 => vec![mk::wav_fmt(), d, li(s)],
            2 => [vec![mk::wav_fmt()], s.iter().map(|e| li(&[e])).collect(), vec![d]].concat(),
            3 => vec![li(s), mk::wav_fmt(), adtl, d],
            4 => vec![mk::wav_fmt(), adtl, mk::chunk_le(b"JUNK", &[1, 2, 3]), li(s), id3, d],
            // the size of the list leaves out the padding of its last item
            6 | 7 => {
                let one = |e: &E| {
                    let size = u32::from_le_bytes(e.bytes[4..8].try_into().unwrap()) as usize;
                    let mut c = mk::chunk_le(b"LIST", &cat(&[b"INFO", &e.bytes[..8 + size]]));
                    if size % 2 > 0 && v == 7 {
                        *c.last_mut().unwrap() = 0xFF;
                    }
                    c
                };
                [vec![mk::wav_fmt()], s.iter().map(|e| one(e)).collect(), vec![d]].concat()
            }
            // padding that isn't zero
            8 => {
                let s: Vec<Vec<u8>> = s
                    .iter()
                    .map(|e| {
                        let mut b = e.bytes.clone();
                        if b[4] % 2 > 0 {
                            *b.last_mut().unwrap() = 0xFF;
                        }
                        b
                    })
                    .collect();
                let mut junk = mk::chunk_le(b"JUNK", &[1, 2, 3]);
                *junk.last_mut().unwrap() = 1;
                vec![mk::wav_fmt(), junk, mk::chunk_le(b"LIST", &cat(&[b"INFO", &s.concat()])), d]
            }
            _ => vec![mk::wav_fmt(), d, id3, li(s), adtl],
        };
        (Fmt::Wav, mk::riff(&c))
    };
    let get = |r: &Full| match r.get(T::RiffInfo) {
        Some(N::Riff(t)) => t.into_iter().map(|(k, v)| format!("{k}={v}")).collect(),
        _ => vec![],
    };
    list(cx, &List { name: "riff", items, variants: 9, build: &build, get: &get, opts: vec![("", ParseOptions::new())], many: (0..300).map(|i| e("tiny", mk::chunk_le(b"INAM", &b"xy"[..1 + i % 2]), &[if i % 2 == 0 { "INAM=x" } else { "INAM=xy" }], false, "")).collect() });
}
fn aiff(cx: &Ctx) {
    let mut items = Vec::new();
    for (id, n, class) in [(b"NAME", "name", "name"), (b"AUTH", "author", "author"), (b"(c) ", "copyright", "copyright"), (b"ANNO", "annotation", "")] {
        for v in ["v", "vv", "vvv", "värde 𝄞", " s ", "twolines\n!", &"x".repeat(256), &"x".repeat(5001)] {
            items.push(e(format!("{n} {} {}", v.len(), &v[..1]), mk::chunk_be(id, v.as_bytes()), &[&format!("{n} {v}")], false, class));
        }
    }
    let texts = ["", "a", "ab", "abc", &"x".repeat(255), &"y".repeat(256), &"z".repeat(1001)];
    for pad_last in [false, true] {
        for (i, a) in texts.iter().enumerate() {
            for b in std::iter::once(None).chain(texts.iter().map(Some)) {
                let mut d = (1 + b.is_some() as u16).to_be_bytes().to_vec();
                let mut exp = Vec::new();
                let all: Vec<&str> = std::iter::once(*a).chain(b.copied()).collect();
                for (j, t) in all.iter().enumerate() {
                    let (ts, mid) = (0xC000_0000u32 + i as u32, 0x8001u16 + j as u16);
                    d.extend(ts.to_be_bytes());
                    d.extend(mid.to_be_bytes());
                    d.extend((t.len() as u16).to_be_bytes());
                    d.extend(t.as_bytes());
                    if t.len() % 2 == 1 && (pad_last || j + 1 < all.len()) {
                        d.push(0);
                    }
                    exp.push(format!("comment {ts} {mid} {t}"));
                }
                items.push(e(format!("comments {} {:?} {pad_last}", a.len(), b.map(|x| x.len())), mk::chunk_be(b"COMT", &d), &exp.iter().map(String::as_str).collect::<Vec<_>>(), false, "comt"));
            }
        }
    }
    let build = |v: usize, s: &[&E]| {
        let b: Vec<Vec<u8>> = s.iter().map(|e| e.bytes.clone()).collect();
        let (c, d) = (mk::aiff_comm(10), mk::aiff_ssnd(40));
        let id3 = mk::chunk_be(b"ID3 ", &mk::id3v2_simple("x", 11));
        let l = match v {
            0 => [vec![c, d], b].concat(),
            1 => [b, vec![c, d]].concat(),
            2 => [vec![c], b, vec![mk::chunk_be(b"APPL", b"stoc!"), d, id3]].concat(),
            _ => {
                let mut o = vec![c, id3, mk::chunk_be(b"MARK", &[0, 0])];
                for mut x in b {
                    let mut midi = mk::chunk_be(b"MIDI", &[1]);
                    if v == 4 {
                        // padding that isn't zero
                        *midi.last_mut().unwrap() = 0xFF;
                        if x[7] % 2 > 0 {
                            *x.last_mut().unwrap() = 0xFF;
                        }
                    }
                    o.extend([x, midi]);
                }
                o.push(d);
                o
            }
        };
        (Fmt::Aiff, mk::form_aiff(&l))
    };
    let get = |r: &Full| match r.get(T::AiffText) {
        Some(N::Aiff(t)) => {
            let mut o = Vec::new();
            o.extend(t.name.iter().map(|x| format!("name {x}")));
            o.extend(t.author.iter().map(|x| format!("author {x}")));
            o.extend(t.copyright.iter().map(|x| format!("copyright {x}")));
            o.extend(t.annotations.iter().flatten().map(|x| format!("annotation {x}")));
            o.extend(t.comments.iter().flatten().map(|c| format!("comment {} {} {}", c.timestamp, c.marker_id, c.text)));
            o
        }
        _ => vec![],
    };
    list(cx, &List { name: "aiff", items, variants: 5, build: &build, get: &get, opts: vec![("", ParseOptions::new())], many: (0..300).map(|i| e("tiny", mk::chunk_be(b"ANNO", &b"xy"[..1 + i % 2]), &[if i % 2 == 0 { "annotation x" } else { "annotation xy" }], false, "")).collect() });
}
pub fn run(cx: &Ctx) -> i32 {
    id3v2(cx);
    dates23(cx);
    ilst(cx);
    ape(cx);
    vorbis(cx);
    riff(cx);
    aiff(cx);
    cx.finish(
        "exploration",
        "sequences of items of each tag format, written by independent encoders in every header and container variant and read in all parsing modes; the reading has to be the concatenation of the items' own readings",
        &["items are values of the alphabets of c26.rs; sequences of up to three items, and all kinds at once for ID3v2", "ID3v2 content that is malformed inside an intact frame is not asserted, except for dates"],
        true,
    )
}
