//! C17: text. Every Unicode scalar at every kind of position of every text-bearing item under every encoding; all short strings over
//! an alphabet of troublesome characters in every pair of neighbouring fields; foreign byte orders.
use crate::api::*;
use crate::ctx::*;
use crate::mk::{self, be32};
use crate::walk::*;
use lofty::TextEncoding::{self, *};
use lofty::ape::ApeItem;
use lofty::config::WriteOptions;
use lofty::id3::v2::*;
use lofty::iff::aiff::{AiffTextChunks, Comment};
use lofty::mp4::{Atom, AtomData, AtomIdent, Ilst};
use lofty::picture::{MimeType, Picture, PictureType};
use lofty::tag::ItemValue;
use serde_json::json;
use std::borrow::Cow;
use std::collections::HashMap;
use std::sync::atomic::Ordering;

const ENC: [TextEncoding; 4] = [Latin1, UTF16, UTF16BE, UTF8];
/// data behind the text: looks like terminators and byte order marks
const DATA: [u8; 9] = [0, 0, 0, 1, 0xFF, 0xFE, 0xFE, 0xFF, 0];

fn w(lossy: bool, v3: bool) -> WriteOptions {
    WriteOptions::new().lossy_text_encoding(lossy).use_id3v23(v3).preferred_padding(0)
}
fn id(s: &'static str) -> FrameId<'static> {
    FrameId::new(s).unwrap()
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Fe {
    /// encoding of the frame, not terminated
    E,
    /// encoding of the frame, terminated
    Et,
    /// always Latin-1
    L,
    Lt,
}
use Fe::*;
const KINDS: [(&str, &[Fe]); 17] = [
    ("text", &[E]),
    ("usertext", &[Et, E]),
    ("url", &[L]),
    ("userurl", &[Et, L]),
    ("comment", &[Et, E]),
    ("lyrics", &[Et, E]),
    ("picture", &[Lt, Et]),
    ("owner", &[Lt, E]),
    ("ufid", &[Lt]),
    ("private", &[Lt]),
    ("popm", &[Lt]),
    ("keyvalue", &[Et, Et, Et, Et]),
    ("rva2", &[Lt]),
    ("chapter", &[Lt, E]),
    ("toc", &[Lt, Lt, Lt]),
    ("geob", &[Lt, Et, Et]),
    ("sylt", &[Et, Et, Et]),
];
/// geob, sylt and atxt are not parsed as part of a tag: their own parse is used
fn make(k: usize, e: TextEncoding, s: &[String]) -> Result<Frame<'static>, (usize, TextEncoding, Vec<String>)> {
    let g = |i: usize| s[i].clone();
    Ok(match KINDS[k].0 {
        "text" => Frame::Text(TextInformationFrame::new(id("TALB"), e, g(0))),
        "usertext" => Frame::UserText(ExtendedTextFrame::new(e, g(0), g(1))),
        "url" => Frame::Url(UrlLinkFrame::new(id("WCOM"), g(0))),
        "userurl" => Frame::UserUrl(ExtendedUrlFrame::new(e, g(0), g(1))),
        "comment" => Frame::Comment(CommentFrame::new(e, *b"eng", g(0), g(1))),
        "lyrics" => Frame::UnsynchronizedText(UnsynchronizedTextFrame::new(e, *b"eng", g(0), g(1))),
        "picture" => Frame::Picture(AttachedPictureFrame::new(
            e,
            Picture::unchecked(DATA.to_vec()).pic_type(PictureType::Artist).mime_type(MimeType::Unknown(g(0))).description(g(1)).build(),
        )),
        "owner" => Frame::Ownership(OwnershipFrame::new(e, g(0), "20200131".to_string(), g(1))),
        "ufid" => Frame::UniqueFileIdentifier(UniqueFileIdentifierFrame::new(g(0), DATA.to_vec())),
        "private" => Frame::Private(PrivateFrame::new(g(0), DATA.to_vec())),
        "popm" => Frame::Popularimeter(PopularimeterFrame::new(g(0), 7, 0x0102)),
        "keyvalue" => Frame::KeyValue(KeyValueFrame::new(id("TMCL"), e, vec![(Cow::Owned(g(0)), Cow::Owned(g(1))), (Cow::Owned(g(2)), Cow::Owned(g(3)))])),
        "rva2" => {
            let mut h = HashMap::new();
            h.insert(ChannelType::MasterVolume, ChannelInformation { channel_type: ChannelType::MasterVolume, volume_adjustment: 258, bits_representing_peak: 8, peak_volume: Some(vec![7]) });
            Frame::RelativeVolumeAdjustment(RelativeVolumeAdjustmentFrame::new(g(0), Cow::Owned(h)))
        }
        "chapter" => {
            let mut l = FrameList::new();
            l.insert(Frame::Text(TextInformationFrame::new(id("TIT2"), e, g(1))));
            Frame::Chapter(ChapterFrame::new(g(0), 1..2, 3..4, l))
        }
        "toc" => Frame::TableOfContents(ChapterTableOfContentsFrame::new(g(0), CtocFlags { top_level: true, ordered: false }, vec![Cow::Owned(g(1)), Cow::Owned(g(2))], FrameList::new())),
        _ => return Err((k, e, s.to_vec())),
    })
}
fn fields(f: &Frame<'_>) -> Option<Vec<String>> {
    let s = |x: &str| x.to_string();
    Some(match f {
        Frame::Text(t) => vec![s(&t.value)],
        Frame::UserText(t) => vec![s(&t.description), s(&t.content)],
        Frame::Url(t) => vec![s(t.url())],
        Frame::UserUrl(t) => vec![s(&t.description), s(&t.content)],
        Frame::Comment(t) if t.language == *b"eng" => vec![s(&t.description), s(&t.content)],
        Frame::UnsynchronizedText(t) if t.language == *b"eng" => vec![s(&t.description), s(&t.content)],
        Frame::Picture(p) if p.picture.data() == DATA && p.picture.pic_type() == PictureType::Artist => {
            vec![p.picture.mime_type().map_or("", |m| m.as_str()).to_string(), p.picture.description().unwrap_or("").to_string()]
        }
        Frame::Ownership(o) if o.date_of_purchase == "20200131" => vec![s(&o.price_paid), s(&o.seller)],
        Frame::UniqueFileIdentifier(u) if *u.identifier == DATA => vec![s(&u.owner)],
        Frame::Private(u) if *u.private_data == DATA => vec![s(&u.owner)],
        Frame::Popularimeter(p) if p.rating == 7 && p.counter == 0x102 => vec![s(&p.email)],
        Frame::KeyValue(k) => k.key_value_pairs.iter().flat_map(|(a, b)| [s(a), s(b)]).collect(),
        Frame::RelativeVolumeAdjustment(r) => {
            let c = r.channels.get(&ChannelType::MasterVolume)?;
            if r.channels.len() != 1 || c.volume_adjustment != 258 || c.peak_volume != Some(vec![7]) {
                return None;
            }
            vec![s(&r.identification)]
        }
        Frame::Chapter(c) if c.times == (1..2) && c.offsets == (3..4) => vec![s(&c.id), s(c.title().unwrap_or(""))],
        Frame::TableOfContents(t) => std::iter::once(s(&t.id)).chain(t.entries.iter().map(|e| s(e))).collect(),
        _ => return None,
    })
}
fn lossy_l1(s: &str) -> String {
    s.chars().map(|c| if u32::from(c) > 255 { '?' } else { c }).collect()
}
/// What has to come back; Err: has to be refused
fn oracle(url: bool, fe: Fe, e: TextEncoding, v3: bool, lossy: bool, s: &str) -> Result<String, ()> {
    // a URL of its own ends at the first null, whether or not it is terminated
    if matches!(fe, Et | Lt) && s.contains('\0') || url && s.trim_end_matches('\0').contains('\0') {
        return Err(());
    }
    let e = if matches!(fe, L | Lt) {
        Latin1
    } else if v3 && matches!(e, UTF8 | UTF16BE) {
        UTF16
    } else {
        e
    };
    let r = if e == Latin1 {
        if !lossy && s.chars().any(|c| u32::from(c) > 255) {
            return Err(());
        }
        lossy_l1(s)
    } else {
        s.to_string()
    };
    Ok(r.trim_end_matches('\0').to_string())
}
/// A byte order mark where one may stand is not text: start of UTF-16BE text, and behind a separator in UTF-16 text
fn ambiguous(e: TextEncoding, v3: bool, s: &[String]) -> bool {
    let bom = |c: Option<char>| matches!(c, Some('\u{FEFF}' | '\u{FFFE}'));
    s.iter().any(|x| {
        ((e == UTF16BE && !v3) && bom(x.chars().next()))
            || (e != Latin1 && (e != UTF8 || v3) && x.split('\0').skip(1).any(|p| bom(p.chars().next())))
    })
}
fn base() -> Vec<u8> {
    mk::mpeg_audio(2)
}
fn rd(b: &[u8]) -> Result<Id3v2Tag, String> {
    let r = read(Fmt::Mpeg, b, po().read_properties(false))?;
    match r.tags.into_iter().find(|t| t.t() == T::Id3v2) {
        Some(N::Id3v2(t)) => Ok(t),
        _ => Err("no tag".into()),
    }
}
fn own(k: usize, e: TextEncoding, s: &[String], o: WriteOptions) -> Result<Option<Vec<String>>, ()> {
    let g = |i: usize| Some(s[i].clone());
    match KINDS[k].0 {
        "geob" => {
            let b = GeneralEncapsulatedObject::new(e, g(0), g(1), g(2), DATA.to_vec()).as_bytes(o).map_err(|_| ())?;
            let p = GeneralEncapsulatedObject::parse(&b, FrameFlags::default()).map_err(|_| ());
            Ok(p.ok().filter(|p| p.data == DATA).map(|p| vec![p.mime_type.unwrap_or_default(), p.file_name.unwrap_or_default(), p.descriptor.unwrap_or_default()]))
        }
        _ => {
            let b = SynchronizedTextFrame::new(e, *b"eng", TimestampFormat::MS, SyncTextContentType::Lyrics, g(0), vec![(0x00FF_FE00, s[1].clone()), (0, s[2].clone())]).as_bytes(o).map_err(|_| ())?;
            let p = SynchronizedTextFrame::parse(&b, FrameFlags::default()).map_err(|_| ());
            Ok(p.ok().filter(|p| p.content.len() == 2 && p.content[0].0 == 0x00FF_FE00 && p.content[1].0 == 0).map(|p| vec![p.description.unwrap_or_default(), p.content[0].1.clone(), p.content[1].1.clone()]))
        }
    }
}
fn one(cx: &Ctx, k: usize, e: TextEncoding, v3: bool, lossy: bool, s: &[String], base: &[u8]) {
    let (name, fe) = KINDS[k];
    // RVA2 does not exist in ID3v2.3
    if ambiguous(e, v3, s) || (v3 && name == "rva2") {
        return;
    }
    cx.evals_add(1);
    let want: Result<Vec<String>, ()> = s.iter().zip(fe).map(|(x, f)| oracle(name == "url", *f, e, v3, lossy, x)).collect();
    let fail = |what: String, b: &[u8]| {
        let nul = s.iter().any(|x| x.contains('\0'));
        let empty = s.iter().any(|x| x.is_empty());
        cx.violation(
            format!("{name}:{e:?}:v{}:{}{}", if v3 { 3 } else { 4 }, if nul { "nul" } else { "" }, if empty { "empty" } else { "" }),
            format!("{name} {s:?} in {e:?}, 2.3 {v3}, lossy {lossy}: {what} (expected {want:?})"),
            vec![("file.bin", b)],
        );
    };
    let fr = match make(k, e, s) {
        Ok(f) => f,
        Err(_) => {
            match (guard(|| own(k, e, s, w(lossy, v3))), &want) {
                (Ok(Ok(Some(g))), Ok(x)) if g == *x => {}
                (Ok(Err(())), Err(())) => {}
                (r, _) => fail(format!("{r:?}"), &[]),
            }
            return;
        }
    };
    // an item without any content is not stored
    let mut t = Id3v2Tag::new();
    t.insert(Frame::Text(TextInformationFrame::new(id("TPE2"), UTF8, "before")));
    t.insert(fr);
    t.insert(Frame::Text(TextInformationFrame::new(id("TPE3"), UTF8, "behind")));
    let n = N::Id3v2(t);
    let (r, b) = match guard(|| n.save2(base, w(lossy, v3))) {
        Ok(x) => x,
        Err(p) => return fail(p, &[]),
    };
    match (&r, &want) {
        (Err(_), Err(())) if b == base => return,
        (Ok(()), Ok(_)) => {}
        _ => return fail(format!("save: {r:?}"), &b),
    }
    let want = want.as_ref().unwrap();
    let got = match guard(|| rd(&b)) {
        Ok(Ok(t)) => t,
        o => return fail(format!("reading: {o:?}"), &b),
    };
    let mut rest = Vec::new();
    let mut around = 0;
    for f in &got {
        match f {
            Frame::Text(t) if f.id().as_str() == "TPE2" && t.value == "before" => around += 1,
            Frame::Text(t) if f.id().as_str() == "TPE3" && t.value == "behind" => around += 1,
            f => rest.push(f),
        }
    }
    let all_empty = want.iter().all(String::is_empty);
    let ok = around == 2
        && match &rest[..] {
            [f] => fields(f).is_some_and(|g| g == *want),
            [] => all_empty,
            _ => false,
        };
    if !ok {
        fail(format!("read back as {rest:?} (neighbours {around})"), &b);
    }
}
/// All scalars of a block, batched into one tag per encoding
fn scalars(cx: &Ctx, cs: &[char], base: &[u8]) {
    for e in ENC {
        for v3 in [false, true] {
            if v3 && e == UTF16BE {
                continue;
            }
            for (pi, p) in ["C", "aC", "Cb", "aCb", "CC"].iter().enumerate() {
                let mut t = Id3v2Tag::new();
                let mut want: Vec<Vec<String>> = Vec::new();
                for (i, c) in cs.iter().enumerate() {
                    if *c == '\0' {
                        continue;
                    }
                    let v = p.replace('C', &c.to_string());
                    if ambiguous(e, v3, &[v.clone()]) {
                        continue;
                    }
                    // the description in front of the value and the other way round
                    let (d1, d2) = (format!("{i}"), format!("{v}{i}x{pi}"));
                    for (d, x) in [(d1, v.clone()), (d2, v.clone())] {
                        let mut fs = vec![d, x];
                        t.insert(if i % 2 == 0 {
                            Frame::UserText(ExtendedTextFrame::new(e, fs[0].clone(), fs[1].clone()))
                        } else {
                            Frame::Comment(CommentFrame::new(e, *b"eng", fs[0].clone(), fs[1].clone()))
                        });
                        if e == Latin1 {
                            fs = fs.iter().map(|s| lossy_l1(s)).collect();
                        }
                        want.push(fs);
                    }
                }
                if e == Latin1 && !cs.iter().all(|c| u32::from(*c) < 256) {
                    // not possible without replacing
                    if pi > 0 && !cx.thorough() {
                        continue;
                    }
                    for f in &t {
                        let mut one = Id3v2Tag::new();
                        one.insert(f.clone());
                        let bad = fields(f).unwrap().iter().any(|s| s.chars().any(|c| u32::from(c) > 255));
                        let r = N::Id3v2(one).dump(w(false, v3));
                        if r.is_err() != bad {
                            cx.violation(format!("strict:{v3}"), format!("{f:?} with lossy encoding off: {:?}", r.map(|b| b.len())), vec![]);
                        }
                    }
                }
                cx.evals_add(cs.len() as u64);
                let r = guard(|| {
                    let b = N::Id3v2(t.clone()).save(base, w(true, v3))?;
                    Ok::<_, String>((rd(&b)?, b))
                });
                match r {
                    Ok(Ok((g, b))) => {
                        let mut got: Vec<Vec<String>> = (&g).into_iter().filter_map(fields).collect();
                        got.sort();
                        want.sort();
                        if e == Latin1 {
                            // replaced descriptions may have become equal on reading
                            want.dedup_by(|a, b| a[0] == b[0]);
                            got.dedup_by(|a, b| a[0] == b[0]);
                        }
                        if got != want {
                            let d = want.iter().find(|x| !got.contains(x));
                            cx.violation(format!("scalar:{e:?}:{v3}:{p}"), format!("{d:?} does not come back ({} of {})", got.len(), want.len()), vec![("file.bin", &b)]);
                        }
                    }
                    o => cx.violation(format!("scalar:{e:?}:{v3}:{p}:result"), format!("{:#x}..: {:?}", u32::from(cs[0]), o.map(|r| r.map(|_| ()))), vec![]),
                }
                cx.by_construction.fetch_add(1, Ordering::Relaxed);
            }
        }
    }
}
type Mk = fn(&[String]) -> Option<N>;
/// The other tag types: one value per scalar and position
fn others() -> Vec<(&'static str, Fmt, Mk, fn(&N) -> Vec<String>)> {
    fn vorbis(v: &[String]) -> Option<N> {
        let mut t = lofty::ogg::tag::VorbisComments::default();
        for (i, s) in v.iter().enumerate() {
            t.push(format!("K{i}"), s.clone());
        }
        Some(N::Vorbis(t))
    }
    fn vorbis_get(n: &N) -> Vec<String> {
        match n {
            N::Vorbis(t) => t.items().map(|x| x.1.to_string()).collect(),
            _ => vec![],
        }
    }
    fn ape(v: &[String]) -> Option<N> {
        let mut t = lofty::ape::ApeTag::default();
        for (i, s) in v.iter().enumerate() {
            t.insert(ApeItem::new(format!("K{i}"), if i % 2 == 0 { ItemValue::Text(s.clone()) } else { ItemValue::Locator(s.clone()) }).ok()?);
        }
        Some(N::Ape(t))
    }
    fn ape_get(n: &N) -> Vec<String> {
        match n {
            N::Ape(t) => t
                .into_iter()
                .map(|x| match x.value() {
                    ItemValue::Text(s) | ItemValue::Locator(s) => s.clone(),
                    _ => "?".into(),
                })
                .collect(),
            _ => vec![],
        }
    }
    fn ilst(v: &[String], f: impl Fn(usize, String) -> AtomData) -> Option<N> {
        let mut t = Ilst::new();
        for (i, s) in v.iter().enumerate() {
            // also as the names of the atom
            let (mean, name) = if i % 2 == 0 { ("com.m".to_string(), format!("n{i}")) } else { (s.clone(), format!("{s}{i}")) };
            t.insert(Atom::new(AtomIdent::Freeform { mean: Cow::Owned(mean), name: Cow::Owned(name) }, f(i, s.clone())));
        }
        Some(N::Ilst(t))
    }
    fn ilst8(v: &[String]) -> Option<N> {
        ilst(v, |_, s| AtomData::UTF8(s))
    }
    fn ilst16(v: &[String]) -> Option<N> {
        ilst(v, |_, s| AtomData::UTF16(s))
    }
    fn ilst_get(n: &N) -> Vec<String> {
        match n {
            N::Ilst(t) => t
                .into_iter()
                .enumerate()
                .map(|(i, a)| {
                    let s = match a.data().next() {
                        Some(AtomData::UTF8(s) | AtomData::UTF16(s)) => s.clone(),
                        _ => "?".into(),
                    };
                    match a.ident() {
                        AtomIdent::Freeform { mean, name } if i % 2 == 0 && mean == "com.m" && *name == format!("n{i}") => s,
                        AtomIdent::Freeform { mean, name } if i % 2 == 1 && *mean == s && *name == format!("{s}{i}") => s,
                        i => format!("?{i:?}"),
                    }
                })
                .collect(),
            _ => vec![],
        }
    }
    fn riff(v: &[String]) -> Option<N> {
        let mut t = lofty::iff::wav::RiffInfoList::default();
        for (i, s) in v.iter().enumerate() {
            t.insert(format!("K{i:03}"), s.clone());
        }
        Some(N::Riff(t))
    }
    fn riff_get(n: &N) -> Vec<String> {
        match n {
            N::Riff(t) => (&t).into_iter().map(|x| x.1.to_string()).collect(),
            _ => vec![],
        }
    }
    fn aiff(v: &[String]) -> Option<N> {
        let mut t = AiffTextChunks::default();
        t.name = v.first().cloned();
        t.author = v.get(1).cloned();
        t.copyright = v.get(2).cloned();
        t.annotations = Some(v.iter().skip(3).step_by(2).cloned().collect());
        t.comments = Some(v.iter().skip(4).step_by(2).map(|s| Comment { timestamp: 1, marker_id: 2, text: s.clone() }).collect());
        Some(N::Aiff(t))
    }
    fn aiff_get(n: &N) -> Vec<String> {
        match n {
            N::Aiff(t) => {
                let mut v: Vec<String> = [&t.name, &t.author, &t.copyright].into_iter().flatten().cloned().collect();
                let a = t.annotations.clone().unwrap_or_default();
                let c: Vec<String> = t.comments.clone().unwrap_or_default().into_iter().map(|c| if c.timestamp == 1 && c.marker_id == 2 { c.text } else { "?".into() }).collect();
                for i in 0..a.len().max(c.len()) {
                    v.extend(a.get(i).cloned());
                    v.extend(c.get(i).cloned());
                }
                v
            }
            _ => vec![],
        }
    }
    vec![
        ("vorbis", Fmt::Opus, vorbis as Mk, vorbis_get as fn(&N) -> Vec<String>),
        ("ape", Fmt::WavPack, ape, ape_get),
        ("ilst8", Fmt::Mp4, ilst8, ilst_get),
        ("ilst16", Fmt::Mp4, ilst16, ilst_get),
        ("riff", Fmt::Wav, riff, riff_get),
        ("aiff", Fmt::Aiff, aiff, aiff_get),
    ]
}
fn other(cx: &Ctx, name: &str, f: Fmt, base: &[u8], mkn: Mk, get: fn(&N) -> Vec<String>, vals: &[String], what: &str) {
    cx.evals_add(vals.len() as u64);
    let Some(n) = mkn(vals) else { return cx.violation(format!("{name}:make"), "cannot build".to_string(), vec![]) };
    let r = guard(|| {
        let b = n.save(base, wo())?;
        let r = read(f, &b, po().read_properties(false))?;
        Ok::<_, String>((r.get(n.t()).map(get), b))
    });
    match r {
        Ok(Ok((Some(g), b))) => {
            if g != vals {
                let d = (0..vals.len()).find(|i| g.get(*i) != Some(&vals[*i])).unwrap_or(0);
                cx.violation(format!("{name}:{what}"), format!("{:?} comes back as {:?} ({} of {} values)", vals.get(d), g.get(d), g.len(), vals.len()), vec![("file.bin", &b)]);
            }
        }
        o => cx.violation(format!("{name}:{what}:result"), format!("{:?}.. : {:?}", vals.first(), o.map(|r| r.map(|x| x.0))), vec![]),
    }
    cx.by_construction.fetch_add(1, Ordering::Relaxed);
}
/// UTF-16 as others write it: both byte orders, a mark on every string or only on the first, versions 2.2 to 2.4
fn foreign(cx: &Ctx, d: &str, c: &str, base: &[u8]) {
    let enc = |s: &str, be: bool, bom: bool| -> Vec<u8> {
        let mut o = Vec::new();
        for u in bom.then_some(0xFEFF).into_iter().chain(s.encode_utf16()) {
            o.extend(if be { u.to_be_bytes() } else { u.to_le_bytes() });
        }
        o
    };
    for ver in [2u8, 3, 4] {
        for be in [false, true] {
            for second in [false, true] {
                // without a mark of its own, text may not start like one
                if !second && c.starts_with(['\u{FEFF}', '\u{FFFE}']) {
                    continue;
                }
                let fr = |i2: &'static str, i4: &'static str, body: Vec<u8>| match ver {
                    2 => mk::id3v2_frame_v2(i2, &body),
                    3 => mk::id3v2_frame_v3(i4, &body),
                    _ => mk::id3v2_frame_v4(i4, &body),
                };
                let two = |lang: bool| {
                    let mut b = vec![1u8];
                    if lang {
                        b.extend(b"eng");
                    }
                    b.extend(enc(d, be, true));
                    b.extend([0, 0]);
                    b.extend(enc(c, be, second));
                    b
                };
                let mut body = fr("TAL", "TALB", [vec![1], enc(c, be, true)].concat());
                body.extend(fr("TXX", "TXXX", two(false)));
                body.extend(fr("COM", "COMM", two(true)));
                body.extend(fr("ULT", "USLT", two(true)));
                let mut wx = vec![1u8];
                wx.extend(enc(d, be, true));
                wx.extend([0, 0, b'u']);
                body.extend(fr("WXX", "WXXX", wx));
                body.extend(fr("TPE", "TPE3", vec![0, b'x']).into_iter().take(0));
                let b = [mk::id3v2_tag(ver, 0, &body, 0), base.to_vec()].concat();
                cx.evals_add(1);
                let got = guard(|| rd(&b).map(|t| (&t).into_iter().filter_map(|f| fields(f).map(|x| (f.id().as_str().to_string(), x))).collect::<Vec<_>>()));
                let mut want: Vec<(String, Vec<String>)> = Vec::new();
                if !c.is_empty() {
                    want.push(("TALB".into(), vec![c.into()]));
                }
                want.push(("TXXX".into(), vec![d.into(), c.into()]));
                want.push(("COMM".into(), vec![d.into(), c.into()]));
                want.push(("USLT".into(), vec![d.into(), c.into()]));
                want.push(("WXXX".into(), vec![d.into(), "u".into()]));
                // an empty item may be dropped
                let fil = |v: &mut Vec<(String, Vec<String>)>| v.retain(|x| !x.1.last().unwrap().is_empty());
                let got = got.map(|r| {
                    r.map(|mut v| {
                        fil(&mut v);
                        v
                    })
                });
                fil(&mut want);
                if got != Ok(Ok(want.clone())) {
                    cx.violation(format!("foreign:v{ver}:be{be}:{second}"), format!("description {d:?}, content {c:?}: read {got:?}"), vec![("file.bin", &b)]);
                }
                // SYLT
                let mut sy = [&[1u8][..], b"eng", &[2, 1]].concat();
                sy.extend(enc(d, be, true));
                sy.extend([0, 0]);
                for (i, s) in [c, d, c].iter().enumerate() {
                    if !second && s.starts_with(['\u{FEFF}', '\u{FFFE}']) {
                        sy.extend(enc(s, be, true));
                    } else {
                        sy.extend(enc(s, be, second));
                    }
                    sy.extend([0, 0]);
                    sy.extend(be32(i as u32 * 0x100));
                }
                let g = guard(|| SynchronizedTextFrame::parse(&sy, FrameFlags::default()).map(|p| (p.description.unwrap_or_default(), p.content)).map_err(|e| e.to_string()));
                let want = (d.to_string(), vec![(0, c.to_string()), (0x100, d.to_string()), (0x200, c.to_string())]);
                if g != Ok(Ok(want)) {
                    cx.violation(format!("foreign:sylt:be{be}:{second}"), format!("description {d:?}, text {c:?}: {g:?}"), vec![("frame.bin", &sy)]);
                }
            }
        }
    }
}
fn strings(al: &[char], n: usize) -> Vec<String> {
    let mut out = vec![String::new()];
    let mut last = out.clone();
    for _ in 0..n {
        last = last.iter().flat_map(|s| al.iter().map(move |c| format!("{s}{c}"))).collect();
        out.extend(last.clone());
    }
    out
}
pub fn run(cx: &Ctx) -> i32 {
    let base = base();
    let all: Vec<char> = (0..0x110000u32).filter_map(char::from_u32).collect();
    // scalars
    let chunks: Vec<&[char]> = all.chunks(256).collect();
    cx.note("scalars", json!(all.len()));
    cx.par(&chunks, |c| scalars(cx, c, &base));
    // in every text field of every frame: quick takes the planes' edges and everything up to U+3000, thorough all
    let some: Vec<char> = if cx.thorough() {
        all.iter().copied().filter(|c| u32::from(*c) < 0x3000 || u32::from(*c) % 5 == 0).collect()
    } else {
        all.iter().copied().filter(|c| u32::from(*c) < 0x300 || u32::from(*c) % 0x100 == 0 || u32::from(*c) % 0x10000 > 0xFFF8 || (0xD7F0..0xE010).contains(&u32::from(*c))).collect()
    };
    cx.note("scalars_in_every_field", json!(some.len()));
    let chunks: Vec<&[char]> = some.chunks(16).collect();
    cx.par(&chunks, |cs| {
        for c in cs.iter() {
            for (k, (_, fe)) in KINDS.iter().enumerate() {
                for i in 0..fe.len() {
                    for e in ENC {
                        for lossy in [true, false] {
                            for v in [format!("{c}"), format!("a{c}b")] {
                                let s: Vec<String> = (0..fe.len()).map(|j| if i == j { v.clone() } else { format!("n{j}") }).collect();
                                one(cx, k, e, false, lossy, &s, &base);
                                if e != UTF16BE {
                                    one(cx, k, e, true, lossy, &s, &base);
                                }
                            }
                        }
                    }
                }
            }
        }
        cx.by_construction.fetch_add(cs.len() as u64, Ordering::Relaxed);
    });
    // troublesome strings in neighbouring fields
    let al = ['a', 'ÿ', 'þ', 'Ā', 'ā', '\u{0A00}', '\u{FF00}', '\u{FEFF}', '\u{FFFE}', '\u{10000}', '😀', '\0'];
    let short = strings(&al, cx.q(2, 3));
    let single = strings(&al, 1);
    let mut jobs: Vec<(usize, TextEncoding, bool, Vec<String>)> = Vec::new();
    for (k, (_, fe)) in KINDS.iter().enumerate() {
        for e in ENC {
            for v3 in [false, true] {
                let mut push = |s: Vec<String>| jobs.push((k, e, v3, s));
                match fe.len() {
                    1 => short.iter().for_each(|s| push(vec![s.clone()])),
                    2 => {
                        for a in &short {
                            for b in if a.chars().count() > 2 { &single } else { &short } {
                                if !cx.thorough() && a.chars().count() == 2 && b.chars().count() == 2 && (h64(a) ^ h64(b)) % 4 != 0 {
                                    continue;
                                }
                                push(vec![a.clone(), b.clone()]);
                            }
                        }
                    }
                    3 => {
                        for a in &single {
                            for b in &single {
                                for c in &single {
                                    push(vec![a.clone(), b.clone(), c.clone()]);
                                }
                            }
                        }
                    }
                    _ => {
                        let s4: Vec<&String> = single.iter().filter(|s| cx.thorough() || ["", "a", "Ā", "\u{0A00}", "😀", "\u{FEFF}"].contains(&s.as_str())).collect();
                        for a in &s4 {
                            for b in &s4 {
                                for c in &s4 {
                                    for d in &s4 {
                                        push(vec![a.to_string(), b.to_string(), c.to_string(), d.to_string()]);
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    cx.note("field_combinations", json!(jobs.len()));
    for j in jobs.iter().step_by(jobs.len() / 8) {
        cx.sample(|| json!({"frame": KINDS[j.0].0, "encoding": format!("{:?}", j.1), "v2.3": j.2, "fields": j.3}));
    }
    let jc: Vec<&[(usize, TextEncoding, bool, Vec<String>)]> = jobs.chunks(256).collect();
    cx.par(&jc, |c| {
        for (k, e, v3, s) in c.iter() {
            for lossy in [true, false] {
                one(cx, *k, *e, *v3, lossy, s, &base);
                if s.iter().all(|x| x.chars().all(|c| u32::from(c) < 256)) {
                    break;
                }
            }
        }
        cx.by_construction.fetch_add(c.len() as u64, Ordering::Relaxed);
    });
    // other tag types
    for (name, f, m, g) in others() {
        let b = crate::layouts::layouts(f, true).into_iter().find(|l| l.core && l.name != "bigaudio").unwrap().bytes;
        // values hold no NUL (it ends the value); UTF-16 atoms may start with a byte order mark
        let amb = |s: &str| name == "ilst16" && s.starts_with(['\u{FEFF}', '\u{FFFE}']);
        let chunks: Vec<&[char]> = all[1..].chunks(256).collect();
        cx.par(&chunks, |cs| {
            for p in ["C", "aC", "Cb", "aCb"] {
                let vals: Vec<String> = cs.iter().map(|c| p.replace('C', &c.to_string())).filter(|s| !amb(s)).collect();
                other(cx, name, f, &b, m, g, &vals, p);
            }
        });
        let vals: Vec<String> = strings(&al[..11], cx.q(3, 4)).into_iter().skip(1).filter(|s| !amb(s)).collect();
        let vc: Vec<&[String]> = vals.chunks(200).collect();
        cx.par(&vc, |v| other(cx, name, f, &b, m, g, v, "short"));
        // every length of wide and narrow text
        let vals: Vec<String> = (1..cx.q(300, 1000)).flat_map(|n| ['a', 'é', '€', '😀'].map(|c| std::iter::repeat_n(c, n).collect::<String>())).collect();
        let vc: Vec<&[String]> = vals.chunks(50).collect();
        cx.par(&vc, |v| other(cx, name, f, &b, m, g, v, "length"));
    }
    // other byte orders
    let s: Vec<String> = strings(&al[..11], cx.q(2, 3));
    let s1 = strings(&al[..11], 1);
    cx.par(&s, |d| {
        for c in if d.chars().count() > 1 && !cx.thorough() { &s1 } else { &s } {
            foreign(cx, d, c, &base);
            if d.chars().count() == 2 && !cx.thorough() {
                foreign(cx, c, d, &base);
            }
        }
        cx.by_construction.fetch_add(1, Ordering::Relaxed);
    });
    let chunks: Vec<&[char]> = all[1..].chunks(1024).collect();
    cx.par(&chunks, |cs| {
        for c in cs.iter().step_by(cx.q(7, 1)) {
            let s = format!("{c}");
            foreign(cx, &s, &format!("a{c}"), &base);
        }
    });
    cx.finish(
        "exploration",
        "every Unicode scalar value at every kind of position (alone, first, last, inside, doubled) in values and descriptions of ID3v2 frames in every encoding and version, of Vorbis, APE, MP4 (UTF-8 and UTF-16, values and names), RIFF and AIFF text; all short strings over an alphabet of characters whose bytes look like terminators, marks and surrogates in every pair (triple, quadruple) of neighbouring fields of 17 frame kinds, with and without lossy encoding; the same strings as other writers store them (both byte orders, marks on all or only the first string)",
        &["a NUL ends or separates values: trailing ones are not kept, and one inside a terminated field has to be refused", "U+FEFF or U+FFFE where a byte order mark may stand (start of UTF-16BE text, start of a UTF-16 MP4 value, behind a separator) counts as a mark"],
        false,
    )
}
