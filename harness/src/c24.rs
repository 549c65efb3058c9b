//! C24: an ID3v2 tag written as ID3v2.3 carries what it carries as ID3v2.4, apart from what ID3v2.3 cannot express.
use crate::api::*;
use crate::ctx::*;
use crate::rich::{ENC, ts};
use crate::walk::{F2, Fmt, id3v2_frames};
use lofty::TextEncoding;
use lofty::config::{ParsingMode, WriteOptions};
use lofty::id3::v2::*;
use lofty::tag::TagExt;
use lofty::tag::items::Timestamp;
use serde_json::json;
use std::borrow::Cow;

/// Frames that were introduced with ID3v2.4 and have no older form
const DISCARD: [&str; 14] = ["ASPI", "EQU2", "RVA2", "SEEK", "SIGN", "TDEN", "TDRL", "TDTG", "TMOO", "TPRO", "TSOA", "TSOP", "TSOT", "TSST"];
/// Frames that ID3v2.4 introduced, none may appear in an ID3v2.3 tag
const NEW: [&str; 18] = ["ASPI", "EQU2", "RVA2", "SEEK", "SIGN", "TDEN", "TDRL", "TDTG", "TMOO", "TPRO", "TSOA", "TSOP", "TSOT", "TSST", "TDRC", "TDOR", "TIPL", "TMCL"];
fn id(s: &str) -> FrameId<'static> {
    FrameId::new(s.to_string()).unwrap()
}
fn text(i: &str, e: TextEncoding, s: &str) -> Frame<'static> {
    Frame::Text(TextInformationFrame::new(id(i), e, s.to_string()))
}
fn opts(v3: bool) -> WriteOptions {
    let mut o = WriteOptions::new().preferred_padding(0);
    o = o.use_id3v23(v3);
    o
}
// ---------------------------------------------------------------- what is documented to change
fn e23(e: TextEncoding) -> TextEncoding {
    match e {
        TextEncoding::UTF8 | TextEncoding::UTF16BE => TextEncoding::UTF16,
        e => e,
    }
}
fn trunc(t: Timestamp) -> Timestamp {
    let mut n = Timestamp { year: t.year, ..Default::default() };
    if let (Some(m), Some(d)) = (t.month, t.day) {
        n.month = Some(m);
        n.day = Some(d);
        if let (Some(h), Some(mi)) = (t.hour, t.minute) {
            n.hour = Some(h);
            n.minute = Some(mi);
        }
    }
    n
}
/// `top`: not inside a chapter, where a date is not put together again
fn fold(frames: impl Iterator<Item = Frame<'static>>, top: bool) -> Vec<Frame<'static>> {
    let mut out = Vec::new();
    let mut people: Option<KeyValueFrame<'static>> = None;
    for mut f in frames {
        let mut fl = f.flags();
        if fl.encryption.is_some() {
            if !fl.compression {
                // only ID3v2.4 stores it: the size of the content stands in for it
                if let Frame::Binary(b) = &f {
                    fl.data_length_indicator = Some(b.data.len() as u32);
                }
                f.set_flags(fl);
            }
        }
        if DISCARD.contains(&f.id_str()) {
            continue;
        }
        let i = f.id_str().to_string();
        match &mut f {
            Frame::Timestamp(t) if i == "TDOR" => {
                t.encoding = e23(t.encoding);
                t.timestamp = Timestamp { year: t.timestamp.year, ..Default::default() };
            },
            Frame::Timestamp(t) if i == "TDRC" => {
                let full = trunc(t.timestamp);
                let e = e23(t.encoding);
                if top {
                    out.push(Frame::Timestamp(TimestampFrame::new(id("TDRC"), e, full)));
                } else {
                    let fl = f.flags();
                    let mut add = |mut f: Frame<'static>| {
                        f.set_flags(fl);
                        out.push(f);
                    };
                    add(Frame::Timestamp(TimestampFrame::new(id("TDRC"), e, Timestamp { year: full.year, ..Default::default() })));
                    if let (Some(m), Some(d)) = (full.month, full.day) {
                        add(text("TDAT", e, &format!("{d:02}{m:02}")));
                    }
                    if let (Some(h), Some(m)) = (full.hour, full.minute) {
                        add(text("TIME", e, &format!("{h:02}{m:02}")));
                    }
                }
                continue;
            },
            Frame::KeyValue(k) => {
                let e = e23(k.encoding);
                match &mut people {
                    None => people = Some(KeyValueFrame::new(id("TIPL"), e, k.key_value_pairs.to_vec())),
                    Some(p) => {
                        let mut v = p.key_value_pairs.to_vec();
                        v.extend(k.key_value_pairs.to_vec());
                        let e = if p.encoding == e { e } else { TextEncoding::UTF16 };
                        *p = KeyValueFrame::new(id("TIPL"), e, v);
                    },
                }
                continue;
            },
            _ => {},
        }
        encoding(&mut f);
        match &mut f {
            Frame::Chapter(c) => c.children = list(fold(c.children.clone().into_iter(), false)),
            Frame::TableOfContents(c) => c.children = list(fold(c.children.clone().into_iter(), false)),
            _ => {},
        }
        out.push(f);
    }
    if let Some(p) = people.filter(|p| !p.key_value_pairs.is_empty()) {
        out.push(Frame::KeyValue(p));
    }
    out
}
fn list(v: Vec<Frame<'static>>) -> FrameList<'static> {
    let mut l = FrameList::new();
    for f in v {
        l.insert(f);
    }
    l
}
fn encoding(f: &mut Frame<'static>) {
    match f {
        Frame::Text(x) => x.encoding = e23(x.encoding),
        Frame::UserText(x) => x.encoding = e23(x.encoding),
        Frame::UserUrl(x) => x.encoding = e23(x.encoding),
        Frame::Comment(x) => x.encoding = e23(x.encoding),
        Frame::UnsynchronizedText(x) => x.encoding = e23(x.encoding),
        Frame::Picture(x) => x.encoding = e23(x.encoding),
        Frame::Ownership(x) => x.encoding = e23(x.encoding),
        Frame::Timestamp(x) => x.encoding = e23(x.encoding),
        Frame::KeyValue(x) => x.encoding = e23(x.encoding),
        _ => {},
    }
}
/// Genres are compared by meaning, people and the date stand last
fn shown(v: Vec<Frame<'static>>) -> Vec<String> {
    let mut out = Vec::new();
    let mut last = Vec::new();
    for f in v {
        match &f {
            Frame::Text(t) if f.id_str() == "TCON" => {
                let mut g = Id3v2Tag::new();
                g.insert(f.clone());
                let n = g.genres().map(|g| g.filter(|g| !g.is_empty()).map(str::to_string).collect::<Vec<_>>());
                out.push(format!("TCON {:?} {:?} {n:?}", t.encoding, f.flags()));
            },
            // put together from several frames, flags do not survive that
            Frame::Timestamp(t) if f.id_str() == "TDRC" => last.push(format!("TDRC {:?} {}", t.encoding, t.timestamp)),
            Frame::KeyValue(t) => last.push(format!("TIPL {:?} {:?}", t.encoding, t.key_value_pairs)),
            Frame::Popularimeter(p) => out.push(format!("POPM {:?} {} {} {:?}", p.email, p.rating, p.counter, f.flags())),
            Frame::RelativeVolumeAdjustment(_) => out.push("RVA2".into()),
            Frame::Chapter(c) => out.push(format!("CHAP {:?} {:?} {:?} {:?} {:?}", f.flags(), c.id, c.times, c.offsets, shown(c.children.clone().into_iter().collect()))),
            Frame::TableOfContents(c) => out.push(format!("CTOC {:?} {:?} {:?} {:?} {:?}", f.flags(), c.id, c.flags, c.entries, shown(c.children.clone().into_iter().collect()))),
            f => out.push(format!("{f:?}")),
        }
    }
    last.sort();
    out.extend(last);
    out
}
// ---------------------------------------------------------------- the written form
fn has_encoding(i: &str) -> bool {
    i.starts_with('T') || ["WXXX", "COMM", "USLT", "APIC", "OWNE", "IPLS", "WFED", "GRP1", "MVNM", "MVIN"].contains(&i)
}
/// Frames without a tag around them (children of chapters)
fn frames3(mut b: &[u8]) -> Result<Vec<F2>, String> {
    let mut v = Vec::new();
    while !b.is_empty() {
        if b.len() < 10 {
            return Err("child frame header".into());
        }
        let n = u32::from_be_bytes([b[4], b[5], b[6], b[7]]) as usize;
        if b.len() < 10 + n || n == 0 {
            return Err("child frame size".into());
        }
        v.push(F2 { id: String::from_utf8_lossy(&b[..4]).into(), flags: u16::from_be_bytes([b[8], b[9]]), data: b[10..10 + n].to_vec() });
        b = &b[10 + n..];
    }
    Ok(v)
}
fn legal(frames: &[F2]) -> Result<(), String> {
    let mut people = 0;
    for f in frames {
        if NEW.contains(&f.id.as_str()) {
            return Err(format!("{} does not exist in ID3v2.3", f.id));
        }
        people += usize::from(f.id == "IPLS");
        if f.flags & 0x1F1F != 0 {
            return Err(format!("{}: flags {:04x}", f.id, f.flags));
        }
        let skip = usize::from(f.flags & 0x80 != 0) * 4 + usize::from(f.flags & 0x40 != 0) + usize::from(f.flags & 0x20 != 0);
        let Some(body) = f.data.get(skip..).filter(|b| !b.is_empty()) else {
            return Err(format!("{}: no content", f.id));
        };
        if f.flags & 0xC0 == 0 && has_encoding(&f.id) && body[0] > 1 && f.id != "PCST" {
            return Err(format!("{}: encoding {}", f.id, body[0]));
        }
        match f.id.as_str() {
            _ if f.flags & 0xC0 != 0 => {},
            // digits only, in their fixed width
            "TYER" | "TDAT" | "TIME" | "TORY" => {
                let d: Vec<u8> = if body[0] == 0 { body[1..].to_vec() } else { body[3..].iter().copied().filter(|b| *b != 0).collect() };
                if d.len() != 4 || !d.iter().all(u8::is_ascii_digit) {
                    return Err(format!("{}: {:?}", f.id, String::from_utf8_lossy(&d)));
                }
            },
            "CHAP" => {
                let z = body.iter().position(|b| *b == 0).ok_or("CHAP id")?;
                legal(&frames3(body.get(z + 17..).ok_or("CHAP times")?)?)?;
            },
            "CTOC" => {
                let z = body.iter().position(|b| *b == 0).ok_or("CTOC id")?;
                let n = *body.get(z + 2).ok_or("CTOC count")?;
                let mut r = &body[z + 3..];
                for _ in 0..n {
                    let z = r.iter().position(|b| *b == 0).ok_or("CTOC entry")?;
                    r = &r[z + 1..];
                }
                legal(&frames3(r)?)?;
            },
            _ => {},
        }
    }
    if people > 1 {
        return Err("several IPLS".into());
    }
    Ok(())
}
fn audio() -> &'static [u8] {
    static A: std::sync::OnceLock<Vec<u8>> = std::sync::OnceLock::new();
    A.get_or_init(|| crate::mk::mpeg_audio(3))
}
fn dump(t: &Id3v2Tag, v3: bool) -> Result<Vec<u8>, String> {
    let mut b = Vec::new();
    guard(|| t.dump_to(&mut b, opts(v3)).map_err(er)).unwrap_or_else(|p| Err(format!("PANIC {p}")))?;
    Ok(b)
}
fn reread(b: &[u8]) -> Result<Option<Id3v2Tag>, String> {
    let file = [b, audio()].concat();
    let full = guard(|| read(Fmt::Mpeg, &file, po_mode(ParsingMode::Strict).read_properties(false))).unwrap_or_else(|p| Err(format!("PANIC {p}")))?;
    Ok(full.tags.into_iter().find_map(|t| if let N::Id3v2(t) = t { Some(t) } else { None }))
}
fn one(cx: &Ctx, name: &str, t: &Id3v2Tag) {
    cx.eval(name);
    let (b4, b3) = match (dump(t, false), dump(t, true)) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(_), Err(_)) => {
            cx.outcome("refused");
            return;
        },
        // an item that ID3v2.3 has no room for is never looked at
        (Err(_), Ok(_)) if t.into_iter().any(|f| DISCARD.contains(&f.id_str()) || ["TDRC", "TDOR"].contains(&f.id_str())) => return,
        (a, b) => {
            return cx.violation(format!("refused:{}", key(name)), format!("{name}: written as 2.4: {:?}, as 2.3: {:?}", a.map(|b| b.len()), b.map(|b| b.len())), vec![]);
        },
    };
    cx.case(name, &b3);
    let frames = match id3v2_frames(&b3) {
        Ok((3, f, n)) if n == b3.len() && b3[5] & 0x9F == 0 => f,
        r => return cx.violation(format!("form:{}", key(name)), format!("{name}: {:?}", r.map(|(v, f, n)| format!("version {v}, {} frames, size {n} of {}, flags {:02x}", f.len(), b3.len(), b3[5]))), vec![("v3.bin", &b3)]),
    };
    if let Err(e) = legal(&frames) {
        return cx.violation(format!("legal:{}", key(name)), format!("{name}: {e}"), vec![("v3.bin", &b3)]);
    }
    let r4 = match reread(&b4) {
        Ok(r) => r.unwrap_or_default(),
        // What can not be read back as 2.4 either is a matter of C02
        Err(_) => return,
    };
    let r3 = match reread(&b3) {
        Ok(r) => r.unwrap_or_default(),
        Err(e) => return cx.violation(format!("reread:{}", key(name)), format!("{name}: written as 2.3 it cannot be read: {e}"), vec![("v3.bin", &b3)]),
    };
    let mut flags = *r4.flags();
    (flags.footer, flags.crc, flags.restrictions, flags.unsynchronisation) = (false, false, None, false);
    if *r3.flags() != flags && !frames.is_empty() {
        return cx.violation(format!("flags:{}", key(name)), format!("{name}: flags {:?} instead of {flags:?}", r3.flags()), vec![("v3.bin", &b3)]);
    }
    // frames that differed in their encoding may have become the same
    let want = shown(list(fold(r4.into_iter(), true)).into_iter().collect());
    let got = shown(r3.into_iter().collect());
    cx.outcome(&got);
    if got != want {
        let i = (0..got.len().max(want.len())).find(|i| got.get(*i) != want.get(*i)).unwrap();
        cx.violation(format!("content:{}", key(name)), {
            let (g, w) = (got.get(i).map_or("-", |s| s), want.get(i).map_or("-", |s| s));
            let at = g.bytes().zip(w.bytes()).take_while(|(a, b)| a == b).count().saturating_sub(40);
            let cut = |s: &str| s.chars().skip(at).take(120).collect::<String>();
            format!("{name}: {} instead of {}", cut(g), cut(w))
        }, vec![("v3.bin", &b3), ("v4.bin", &b4)]);
    }
}
fn key(name: &str) -> String {
    name.split('+').map(|p| p.split(':').next().unwrap_or("")).collect::<Vec<_>>().join("+")
}
fn tag(v: &[&Frame<'static>]) -> Id3v2Tag {
    let mut t = Id3v2Tag::new();
    for f in v {
        t.insert((*f).clone());
    }
    t
}
fn genres() -> Vec<String> {
    let one = ["Rock", "17", "RX", "CR", "Remix", "Cover", "Custom", "(17)", "(17)Rock", "255", "R&B", "a b", "", "Rock & Roll", "(RX)"];
    let mut v: Vec<String> = one.iter().map(|s| s.to_string()).collect();
    // a number in parentheses is only a number where it is the whole of the text
    let one: Vec<&str> = one.into_iter().filter(|s| !s.contains('(')).collect();
    for a in one.clone() {
        for b in one.clone() {
            v.push(format!("{a}\0{b}"));
            for c in one.clone() {
                v.push(format!("{a}\0{b}\0{c}"));
            }
        }
    }
    v
}
fn flags() -> Vec<FrameFlags> {
    let mut v = Vec::new();
    for k in 0..32u8 {
        for g in [None, Some(0), Some(0x80), Some(0xF0)] {
            for d in [None, Some(0), Some(5), Some(0x1FF)] {
                for e in [None, Some(0x81), Some(0xFF)] {
                    let mut f = FrameFlags::default();
                    (f.tag_alter_preservation, f.file_alter_preservation, f.read_only) = (k & 1 != 0, k & 2 != 0, k & 4 != 0);
                    (f.compression, f.unsynchronisation) = (k & 8 != 0, k & 16 != 0);
                    (f.grouping_identity, f.data_length_indicator, f.encryption) = (g, d, e);
                    v.push(f);
                }
            }
        }
    }
    v
}
/// Members for the pairs and triples: every kind of frame, in every encoding where it has one
fn members() -> Vec<(String, Frame<'static>)> {
    let all = crate::rich::frames();
    let mut v: Vec<(String, Frame<'static>)> = Vec::new();
    let mut seen = std::collections::HashMap::<String, usize>::new();
    for (n, f) in all {
        let k = format!("{}:{}", n.split(':').next().unwrap_or(""), n.split(':').nth(1).unwrap_or(""));
        let c = seen.entry(k).or_default();
        *c += 1;
        if *c <= 2 && f.id_str() != "TDRC" {
            v.push((n, f));
        }
    }
    for e in ENC {
        for s in ["2020", "2020-11-09", "2020-11-09T13:05", "2020-11-09T13:05:59"] {
            v.push((format!("TDRC:{e:?}:{s}"), Frame::Timestamp(TimestampFrame::new(id("TDRC"), e, ts(s)))));
        }
    }
    for i in NEW.iter().filter(|i| !["ASPI", "EQU2", "RVA2", "SEEK", "SIGN", "TDEN", "TDRL", "TDTG", "TDRC", "TDOR", "TIPL", "TMCL"].contains(i)) {
        v.push((format!("{i}:new"), text(i, TextEncoding::UTF8, "new")));
    }
    for i in ["ASPI", "EQU2", "SEEK", "SIGN"] {
        v.push((format!("{i}:new"), Frame::Binary(BinaryFrame::new(id(i), vec![1, 2, 3]))));
    }
    v
}
pub fn run(cx: &Ctx) -> i32 {
    // every frame of the rich alphabet, alone, in a chapter and in a table of contents
    let all: Vec<(String, Frame<'static>)> = crate::rich::frames().into_iter().chain(members()).collect();
    let nested = |f: &Frame<'static>| {
        let l = list(vec![f.clone()]);
        [
            Frame::Chapter(ChapterFrame::new("c", 0..9, 0..9, l.clone())),
            Frame::TableOfContents(ChapterTableOfContentsFrame::new("t", CtocFlags { top_level: true, ordered: true }, vec![Cow::Borrowed("c")], l)),
        ]
    };
    cx.par(&all, |(n, f)| {
        one(cx, n, &tag(&[f]));
        for c in nested(f) {
            one(cx, &format!("{}>{n}", c.id_str()), &tag(&[&c]));
        }
    });
    cx.note("single frames", json!(all.len()));
    // every pair in both orders
    let m = members();
    cx.par_range(m.len(), |i| {
        for j in 0..m.len() {
            one(cx, &format!("{}+{}", m[i].0, m[j].0), &tag(&[&m[i].1, &m[j].1]));
            if m[i].1.id_str() != m[j].1.id_str() {
                let l = list(vec![m[i].1.clone(), m[j].1.clone()]);
                let c = Frame::Chapter(ChapterFrame::new("c", 0..9, 0..9, l));
                one(cx, &format!("CHAP>{}+{}", m[i].0, m[j].0), &tag(&[&c]));
            }
        }
    });
    cx.note("members of the pairs", json!(m.len()));
    // triples of the frames that are rewritten
    let inter: Vec<&(String, Frame<'static>)> = m.iter().filter(|(n, f)| ["TDRC", "TDOR", "TIPL", "TMCL", "TCON", "TSOT", "CHAP"].contains(&f.id_str()) && cx.q(!n.ends_with(":3"), true)).collect();
    cx.par_range(inter.len(), |i| {
        for j in 0..inter.len() {
            for k in 0..inter.len() {
                let v = [inter[i], inter[j], inter[k]];
                let n = v.map(|x| x.0.as_str()).join("+");
                one(cx, &n, &tag(&v.map(|x| &x.1)));
            }
        }
    });
    cx.note("members of the triples", json!(inter.len()));
    // genres
    let g = genres();
    cx.par(&g, |g| {
        for e in ENC {
            one(cx, &format!("TCON:{e:?}:{g:?}"), &tag(&[&text("TCON", e, g)]));
        }
    });
    // dates
    let mut dates = Vec::new();
    for y in [0u16, 1, 99, 999, 1999, 2020, 9999, 10000, u16::MAX] {
        for mo in [None, Some(0u8), Some(1), Some(9), Some(10), Some(12), Some(13)] {
            for d in [None, Some(0u8), Some(1), Some(9), Some(10), Some(31), Some(32)] {
                for h in [None, Some(0u8), Some(9), Some(10), Some(23), Some(24)] {
                    for mi in [None, Some(0u8), Some(9), Some(59), Some(60)] {
                        for s in [None, Some(0u8), Some(59)] {
                            dates.push(Timestamp { year: y, month: mo, day: d, hour: h, minute: mi, second: s });
                        }
                    }
                }
            }
        }
    }
    if cx.thorough() {
        for mo in 1..=12u8 {
            for d in 1..=31u8 {
                for h in 0..24u8 {
                    for mi in 0..60u8 {
                        dates.push(Timestamp { year: 2001, month: Some(mo), day: Some(d), hour: Some(h), minute: Some(mi), second: None });
                    }
                }
            }
        }
    }
    cx.par(&dates, |d| {
        for i in ["TDRC", "TDOR"] {
            let f = Frame::Timestamp(TimestampFrame::new(id(i), TextEncoding::Latin1, *d));
            one(cx, &format!("{i}:{d:?}"), &tag(&[&f]));
        }
    });
    cx.note("dates", json!(dates.len()));
    // frame flags
    let fl = flags();
    let kinds: Vec<&(String, Frame<'static>)> = {
        let mut seen = std::collections::HashSet::new();
        m.iter().filter(|(_, f)| seen.insert(f.id_str().to_string())).collect()
    };
    cx.par(&fl, |fl| {
        // the content of an encrypted frame is opaque
        for (n, f) in kinds.iter().filter(|_| fl.encryption.is_none()) {
            let mut f = f.clone();
            f.set_flags(*fl);
            one(cx, &format!("flags/{n}:{fl:?}"), &tag(&[&f]));
        }
        let mut f = Frame::Binary(BinaryFrame::new(id("XBIN"), vec![0xFF, 0xE0, 0xFF, 0, 7]));
        f.set_flags(*fl);
        let t = tag(&[&f, &m[0].1]);
        one(cx, &format!("flags/XBIN:{fl:?}"), &t);
        // what the flags add to the frame, in the order of each specification
        for v3 in [false, true] {
            let Ok(b) = dump(&t, v3) else { continue };
            let Ok((_, got, _)) = id3v2_frames(&b) else { continue };
            let enc = fl.encryption.is_some();
            let len = fl.data_length_indicator.unwrap_or(0);
            let mut pre = Vec::new();
            let mut bits = 0u16;
            let mut put = |on: bool, v3bit: u16, v4bit: u16| bits |= if on { if v3 { v3bit } else { v4bit } } else { 0 };
            put(fl.tag_alter_preservation, 0x8000, 0x4000);
            put(fl.file_alter_preservation, 0x4000, 0x2000);
            put(fl.read_only, 0x2000, 0x1000);
            put(fl.grouping_identity.is_some(), 0x20, 0x40);
            put(enc && fl.compression, 0x80, 0x08);
            put(enc, 0x40, 0x04);
            put(enc, 0, 0x01);
            if v3 {
                if enc && fl.compression {
                    pre.extend(len.to_be_bytes());
                }
                pre.extend(fl.encryption);
                pre.extend(fl.grouping_identity);
            } else {
                pre.extend(fl.grouping_identity);
                pre.extend(fl.encryption);
                if enc {
                    pre.extend(crate::mk::synch(len));
                }
            }
            pre.extend([0xFF, 0xE0, 0xFF, 0, 7]);
            match reread(&b).map(|t| t.and_then(|t| t.into_iter().next())) {
                Ok(Some(Frame::Binary(g))) if (g.flags().grouping_identity, g.flags().encryption, &g.data[..]) == (fl.grouping_identity, fl.encryption, &[0xFF, 0xE0, 0xFF, 0, 7][..]) => {},
                r => cx.violation(format!("info-read:{v3}"), format!("{fl:?}: read back as {r:?}"), vec![("b", &b)]),
            }
            match got.first() {
                Some(g) if g.flags == bits && g.data == pre => {},
                g => cx.violation(format!("info:{v3}"), format!("{fl:?}: {:?} instead of {bits:04x} {pre:02x?}", g.map(|g| format!("{:04x} {:02x?}", g.flags, g.data))), vec![("b", &b)]),
            }
        }
    });
    cx.note("frame flags", json!(fl.len()));
    // tag flags
    let mut tf = Vec::new();
    for k in 0..16u8 {
        for r in [None, Some(TagRestrictions::from_byte(0)), Some(TagRestrictions::from_byte(0xFF)), Some(TagRestrictions::from_byte(0x5A))] {
            let mut f = Id3v2TagFlags::default();
            (f.unsynchronisation, f.experimental, f.footer, f.crc) = (k & 1 != 0, k & 2 != 0, k & 4 != 0, k & 8 != 0);
            f.restrictions = r;
            tf.push(f);
        }
    }
    cx.par(&tf, |fl| {
        for (n, f) in m.iter().step_by(cx.q(7, 1)) {
            let mut t = tag(&[f]);
            t.set_flags(*fl);
            one(cx, &format!("tagflags/{n}:{fl:?}"), &t);
        }
    });
    // sizes: they are not synchsafe in ID3v2.3
    let mut sizes: Vec<usize> = (0..300).collect();
    for c in [0x3FFFusize, 0x1F_FFFF] {
        sizes.extend(c - 40..c + 40);
    }
    cx.par(&sizes, |n| {
        one(cx, &format!("size:{n}"), &tag(&[&Frame::Binary(BinaryFrame::new(id("XBIN"), crate::mk::pat(*n, 3))), &m[0].1]));
        if *n < 20_000 {
            for e in ENC {
                one(cx, &format!("textsize:{e:?}:{n}"), &tag(&[&text("TIT2", e, &crate::contents::long(*n)), &m[0].1]));
            }
        }
    });
    cx.finish(
        "exploration",
        "every frame of the rich alphabet alone, inside a chapter and a table of contents, every ordered pair of frame kinds and encodings (also inside a chapter), every triple of the frames that are rewritten, every genre list up to three values, dates, all frame and tag flags, and sizes around the 7-bit boundaries is written as ID3v2.3 and as ID3v2.4 and both are read; the former must equal the latter after the documented folding, and hold only IDs, flags, encodings and sizes of ID3v2.3",
        &["the flags of frames that are put together (TDRC, TIPL) do not survive", "inside chapters a date stays split into TYER, TDAT and TIME", "genres are compared by meaning"],
        true,
    )
}

fn crc32(b: &[u8]) -> u32 {
    !b.iter().fold(!0u32, |c, x| (0..8).fold(c ^ u32::from(*x), |c, _| if c & 1 > 0 { c >> 1 ^ 0xEDB8_8320 } else { c >> 1 }))
}
/// What the header, extended header and footer of a written tag have to be
fn header(b: &[u8], f: &Id3v2TagFlags, v3: bool, pad: usize) -> Result<(), String> {
    let syn = |b: &[u8]| b.iter().fold(0usize, |a, x| a << 7 | usize::from(*x));
    let (crc, res, foot) = if v3 { (false, None, false) } else { (f.crc, f.restrictions, f.footer) };
    let ext = crc || res.is_some();
    let fl = u8::from(ext) << 6 | u8::from(f.experimental) << 5 | u8::from(foot) << 4;
    if b[..6] != [b'I', b'D', b'3', if v3 { 3 } else { 4 }, 0, fl] {
        return Err(format!("the header begins {:02x?}, the flags should be {fl:02x}", &b[..6]));
    }
    let end = 10 + syn(&b[6..10]);
    if end + if foot { 10 } else { 0 } != b.len() {
        return Err(format!("the tag ends at {end} of {}", b.len()));
    }
    if foot && (&b[end..end + 3] != b"3DI" || b[end + 3..] != b[3..10]) {
        return Err(format!("footer {:02x?}", &b[end..]));
    }
    let pad = if foot { 0 } else { pad };
    let mut at = 10;
    if ext {
        let n = 6 + if crc { 6 } else { 0 } + if res.is_some() { 2 } else { 0 };
        let e = u8::from(crc) << 5 | u8::from(res.is_some()) << 4;
        if b[10..16] != [0, 0, 0, n, 1, e] {
            return Err(format!("extended header {:02x?}", &b[10..16]));
        }
        at = 16;
        if crc {
            let v = syn(&b[17..22]) as u32;
            // the checksum of the frames, with the padding or (as the tests of the library want it) without
            let w = |to: usize| crc32(&b[10 + usize::from(n)..to]);
            if b[16] != 5 || (v != w(end) && v != w(end - pad)) {
                return Err(format!("checksum {v:08x} instead of {:08x}", w(end - pad)));
            }
            at = 22;
        }
        if let Some(r) = res {
            if b[at..at + 2] != [1, r.as_bytes()] {
                return Err(format!("restrictions {:02x?} instead of {:02x}", &b[at..at + 2], r.as_bytes()));
            }
            at += 2;
        }
    }
    let body = end.checked_sub(pad).filter(|e| *e >= at).ok_or("padding")?;
    // the frames begin right behind, where there are any
    (b[body..end].iter().all(|x| *x == 0) && (body == at || b[at] != 0)).then_some(()).ok_or("padding".into())
}
/// Part of C06: the headers of written ID3v2 tags, for all flags, paddings, versions and kinds of frame
pub fn headers(cx: &Ctx) {
    let m = members();
    let mut tf = Vec::new();
    for k in 0..16u8 {
        for r in [None, Some(TagRestrictions::from_byte(0)), Some(TagRestrictions::from_byte(0xFF)), Some(TagRestrictions::from_byte(0x5A))] {
            let mut f = Id3v2TagFlags::default();
            (f.unsynchronisation, f.experimental, f.footer, f.crc) = (k & 1 != 0, k & 2 != 0, k & 4 != 0, k & 8 != 0);
            f.restrictions = r;
            for (v3, pad) in [false, true].into_iter().flat_map(|v| [0u32, 1, 100, 5000].map(|p| (v, p))) {
                tf.push((f, v3, pad));
            }
        }
    }
    cx.par(&tf, |(fl, v3, pad)| {
        for (i, (n, f)) in m.iter().enumerate().step_by(cx.q(3, 1)) {
            let mut t = tag(&[f, &m[(i + 7) % m.len()].1]);
            t.set_flags(*fl);
            let mut b = Vec::new();
            let r = guard(|| t.dump_to(&mut b, WriteOptions::new().use_id3v23(*v3).preferred_padding(*pad)).map_err(er));
            let name = format!("headers/{n}:{fl:?}:{v3}:{pad}");
            cx.eval(&name);
            match r {
                Ok(Ok(())) if b.is_empty() => {},
                Ok(Ok(())) => {
                    cx.outcome(&b);
                    if let Err(e) = header(&b, fl, *v3, *pad as usize) {
                        cx.violation(format!("id3header:{}", e.split(' ').next().unwrap_or("")), format!("{name}: {e}"), vec![("tag.bin", &b)]);
                    }
                },
                Ok(Err(_)) => {
                    cx.outcome("refused");
                },
                Err(p) => cx.violation("id3header:panic", format!("{name}: {p}"), vec![]),
            }
        }
    });
}
