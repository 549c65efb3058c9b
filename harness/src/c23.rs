//! C23: ratings. Every provider table, every native value, every email class and every counter width.
use crate::api::*;
use crate::ctx::*;
use crate::layouts;
use crate::mk;
use crate::walk::*;
use lofty::ape::ApeTag;
use lofty::id3::v2::{Frame, Id3v2Tag, PopularimeterFrame};
use lofty::iff::wav::RiffInfoList;
use lofty::mp4::Ilst;
use lofty::ogg::tag::VorbisComments;
use lofty::tag::items::popularimeter::*;
use lofty::tag::{ItemKey, ItemValue, MergeTag, SplitTag, Tag, TagItem, TagType};
use serde_json::json;
use std::sync::atomic::Ordering;

const STARS: [StarRating; 5] = [StarRating::One, StarRating::Two, StarRating::Three, StarRating::Four, StarRating::Five];
const WMP: &str = "Windows Media Player 9 Series";
const MB: &str = "MusicBee";
const PICARD: &str = "users@musicbrainz.org";
const COUNTS: [u64; 14] = [0, 1, 2, 127, 128, 255, 256, 65535, 65536, 0xFFFF_FFFF, 0x1_0000_0000, 0xFF_FFFF_FFFF, 0x100_0000_0000_0000, u64::MAX];

/// The published scales: (provider, tag type) -> value of each star
fn scale(email: &str, t: TagType) -> [u8; 5] {
    match (email, t) {
        (PICARD, TagType::Id3v2) => [51, 102, 153, 204, 255],
        (PICARD, _) => [5, 10, 15, 20, 25],
        (WMP, _) | (_, TagType::Id3v2) => [1, 64, 128, 196, 255],
        _ => [20, 40, 60, 80, 100],
    }
}
/// The stars of a native value: those of the next value on the scale
fn stars_of(email: &str, t: TagType, raw: u8) -> StarRating {
    let s = scale(email, t);
    STARS[s.iter().position(|x| *x >= raw).unwrap_or(4)]
}
fn emails() -> Vec<&'static str> {
    vec!["", "a@b.c", MB, WMP, PICARD, "musicbee", "MusicBee ", " ", "|", "a|b", "a|3|7", "||", "a:b", ":", "a=b", "\u{e9}@x", "\u{4e00}", "0", "5", "~", "RATING"]
}
fn provider(email: &str, s: StarRating, c: u64) -> Popularimeter<'static> {
    match email {
        MB => Popularimeter::musicbee(s, c),
        WMP => Popularimeter::windows_media_player(s, c),
        PICARD => Popularimeter::picard(s, c),
        e => Popularimeter::custom(e.to_string(), s, c),
    }
}
type R = (Option<String>, StarRating, u64);
fn ratings(t: &Tag) -> Vec<R> {
    sorted(t.ratings().map(|p| (p.email().map(String::from), p.rating(), p.play_counter)).collect())
}
/// Their order is not promised
fn sorted(mut v: Vec<R>) -> Vec<R> {
    v.sort_by_key(|x| (x.0.clone(), x.1 as u8, x.2));
    v
}
fn email_of(e: &str) -> Option<String> {
    (!e.is_empty()).then(|| e.to_string())
}
fn vorbis_email(e: &str) -> bool {
    e.bytes().all(|b| (0x20..=0x7d).contains(&b) && b != b'=')
}
fn tag_of(ty: TagType, list: &[(&str, StarRating, u64)]) -> Tag {
    let mut t = Tag::new(ty);
    for (e, s, c) in list {
        assert!(t.push(TagItem::new(ItemKey::Popularimeter, ItemValue::Text(provider(e, *s, *c).to_string()))));
    }
    t
}
fn providers(cx: &Ctx) {
    let list: [(&str, &dyn RatingProvider); 4] = [(MB, &MusicBeeProvider), (WMP, &WindowsMediaPlayerProvider), (PICARD, &PicardProvider), ("default", &DefaultRatingProvider)];
    for (name, p) in list {
        for e in emails() {
            cx.eval(&("supports", name, e));
            if p.supports_email(e) != (name == "default" || e == name) {
                cx.violation(format!("supports:{name}:{e}"), format!("{name} and the email {e:?}"), vec![]);
            }
        }
        for ty in ALL_TT {
            let sc = scale(name, ty);
            for (i, s) in STARS.into_iter().enumerate() {
                cx.eval(&("rate", name, format!("{ty:?}"), i));
                let v = p.rate(ty, s);
                if v != sc[i] {
                    cx.violation(format!("rate:{name}:{ty:?}:{i}"), format!("{name} rates {s:?} as {v} in {ty:?}, its scale says {}", sc[i]), vec![]);
                }
                if p.convert_raw(ty, v) != s {
                    cx.violation(format!("inverse:{name}:{ty:?}:{i}"), format!("{name} turns {s:?} into {v} and that into {:?} in {ty:?}", p.convert_raw(ty, v)), vec![]);
                }
            }
            let mut last = 0;
            for raw in 0..=255u8 {
                cx.eval(&("raw", name, format!("{ty:?}"), raw));
                let s = p.convert_raw(ty, raw) as u8;
                if s < last {
                    cx.violation(format!("monotone:{name}:{ty:?}:{raw}"), format!("{name}: {raw} has {s} stars in {ty:?}, {} has {last}", raw - 1), vec![]);
                }
                last = s;
            }
        }
    }
}
/// One or more ratings in every tag type that has them, converted and saved
fn round(cx: &Ctx, key: &str, list: &[(&str, StarRating, u64)], files: &[(T, Fmt, Vec<u8>)]) {
    cx.case(key, b"");
    let want: Vec<R> = sorted(list.iter().map(|(e, s, c)| (email_of(e), *s, *c)).collect());
    for ty in [TagType::Id3v2, TagType::VorbisComments, TagType::RiffInfo, TagType::Mp4Ilst] {
        cx.eval(&(key, format!("{ty:?}")));
        let t = tag_of(ty, list);
        if ratings(&t) != want {
            cx.violation(format!("text:{key}:{ty:?}"), format!("{want:?} printed into a tag is {:?}", ratings(&t)), vec![]);
            continue;
        }
        // what the type can express
        let exp: Vec<R> = sorted(match ty {
            TagType::Id3v2 => want.clone(),
            TagType::Mp4Ilst => want.clone(),
            TagType::VorbisComments => list.iter().filter(|x| vorbis_email(x.0)).map(|(e, s, _)| (email_of(e), *s, 0)).collect(),
            // one value, without an owner
            _ => list.iter().map(|(_, s, _)| (None, *s, 0)).collect(),
        });
        // a value from one provider's scale can't be told without its email
        if ty == TagType::RiffInfo && (list.len() > 1 || matches!(list[0].0, PICARD | WMP)) {
            continue;
        }
        let n = match guard(|| N::from_tag(t.clone(), wt(ty))) {
            Ok(n) => n,
            Err(p) => {
                cx.violation(format!("panic:{key}:{ty:?}"), format!("conversion panics: {p}"), vec![]);
                continue;
            }
        };
        match &n {
            N::Id3v2(x) => {
                let mut f: Vec<(String, u8, u64)> = x
                    .into_iter()
                    .filter_map(|f| match f {
                        Frame::Popularimeter(p) => Some((p.email.to_string(), p.rating, p.counter)),
                        _ => None,
                    })
                    .collect();
                let mut w: Vec<(String, u8, u64)> = list.iter().map(|(e, s, c)| (e.to_string(), scale(e, ty)[*s as usize - 1], *c)).collect();
                f.sort();
                w.sort();
                if f != w {
                    cx.violation(format!("popm:{key}"), format!("the frames are {f:?}, they should be {w:?}"), vec![]);
                }
            }
            N::Vorbis(x) => {
                let mut f: Vec<(String, String)> = x.items().map(|(k, v)| (k.to_string(), v.to_string())).collect();
                let mut w: Vec<(String, String)> = list
                    .iter()
                    .filter(|x| vorbis_email(x.0))
                    .map(|(e, s, _)| (if e.is_empty() { "RATING".into() } else { format!("RATING:{e}") }, scale(e, ty)[*s as usize - 1].to_string()))
                    .collect();
                f.sort();
                w.sort();
                if f != w {
                    cx.violation(format!("field:{key}"), format!("the fields are {f:?}, they should be {w:?}"), vec![]);
                }
            }
            _ => {}
        }
        // RIFF keeps the text form until it is saved
        if ty != TagType::RiffInfo {
            let back = ratings(&n.clone().into_tag());
            if back != exp {
                cx.violation(format!("convert:{key}:{ty:?}"), format!("{exp:?} converted and back is {back:?}"), vec![]);
            }
        }
        if exp.is_empty() || (ty == TagType::Id3v2 && list.iter().any(|x| x.0.chars().any(|c| u32::from(c) > 255))) {
            continue;
        }
        for (ft, f, b) in files {
            if *ft != wt(ty) {
                continue;
            }
            for generic in [false, true] {
                cx.evals_add(1);
                let saved = match guard(|| if generic { save_generic(&t, b) } else { n.save(b, wo()) }) {
                    Ok(Ok(s)) => s,
                    x => {
                        cx.violation(format!("save:{key}:{ty:?}:{f:?}"), format!("saving fails: {x:?}"), vec![]);
                        continue;
                    }
                };
                let got = match guard(|| read_tagged(*f, &saved, po())) {
                    Ok(Ok(r)) => lofty::file::TaggedFileExt::tag(&r, ty).map(ratings).unwrap_or_default(),
                    x => {
                        cx.violation(format!("read:{key}:{ty:?}:{f:?}"), format!("reading fails: {:?}", x.map(|x| x.map(|_| ()))), vec![("saved.bin", &saved)]);
                        continue;
                    }
                };
                cx.outcome(&format!("{got:?}"));
                if got != exp {
                    cx.violation(format!("file:{key}:{ty:?}:{f:?}:{generic}"), format!("{exp:?} saved and read is {got:?}"), vec![("saved.bin", &saved)]);
                }
            }
        }
    }
}
fn save_generic(t: &Tag, b: &[u8]) -> Result<Vec<u8>, String> {
    let mut c = std::io::Cursor::new(b.to_vec());
    lofty::tag::TagExt::save_to(t, &mut c, wo()).map_err(er)?;
    Ok(c.into_inner())
}
/// POPM frames on the wire
fn frames(cx: &Ctx) {
    let email = |n: usize| -> String { "e".repeat(n) };
    let jobs: Vec<(String, u8, u64)> = {
        let mut v = Vec::new();
        let counts: Vec<u64> = COUNTS.into_iter().chain((0..64).map(|i| 1u64 << i)).chain((1..64).map(|i| (1u64 << i) - 1)).chain((0..8).map(|i| 0xA5 << (8 * i))).collect();
        for e in ["", "a", "a@b", "\u{ff}|", MB].map(String::from).into_iter().chain([email(126), email(127), email(128), email(300)]) {
            for r in 0..=255 {
                v.push((e.clone(), r, 7));
            }
            for c in &counts {
                v.push((e.clone(), 128, *c));
            }
        }
        v
    };
    cx.note("popm_frames", json!(jobs.len()));
    cx.par(&jobs, |(e, r, c)| {
        if cx.too_many() {
            return;
        }
        let key = format!("frame:{}:{r}:{c:x}", e.len());
        cx.eval(&key);
        let mut t = Id3v2Tag::new();
        t.insert(Frame::Popularimeter(PopularimeterFrame::new(e.clone(), *r, *c)));
        // independent encoding: Latin-1, NUL, rating, at least four big endian bytes
        let mut w: Vec<u8> = e.chars().map(|x| u32::from(x) as u8).collect();
        w.push(0);
        w.push(*r);
        let be = c.to_be_bytes();
        let skip = be.iter().take(4).take_while(|x| **x == 0).count();
        w.extend(&be[skip..]);
        for v3 in [false, true] {
            let d = match guard(|| N::Id3v2(t.clone()).dump(wo().use_id3v23(v3))) {
                Ok(Ok(d)) => d,
                x => {
                    cx.violation(format!("{key}:dump"), format!("{x:?}"), vec![]);
                    continue;
                }
            };
            match id3v2_frames(&d) {
                Ok((_, f, _)) if f.len() == 1 && f[0].id == *"POPM" && f[0].data == w => {}
                x => cx.violation(format!("{key}:bytes:{v3}"), format!("POPM {e:?} {r} {c} is written as {x:02x?}, expected content {w:02x?}"), vec![("tag.bin", &d)]),
            }
            read_popm(cx, &key, &d, (e, *r, *c));
        }
    });
    // counters of any width, as others write them
    for v in [2u8, 3, 4] {
        for width in 0..=12usize {
            for lead in [0u8, 1, 0x7F, 0x80, 0xFF] {
                for fill in [0u8, 5, 0xFF] {
                    // leading zeros beyond 64 bits don't occur in practice, and saturate
                    if width > 8 && lead == 0 {
                        continue;
                    }
                    let mut body = b"x@y\0\x80".to_vec();
                    let cnt: Vec<u8> = (0..width).map(|i| if i == 0 { lead } else { fill }).collect();
                    body.extend(&cnt);
                    let want = if width > 8 { u64::MAX } else { cnt.iter().fold(0u64, |a, b| (a << 8) | u64::from(*b)) };
                    let f = match v {
                        2 => mk::id3v2_frame_v2("POP", &body),
                        3 => mk::id3v2_frame_v3("POPM", &body),
                        _ => mk::id3v2_frame_v4("POPM", &body),
                    };
                    let key = format!("wire:{v}:{width}:{lead:x}:{fill:x}");
                    cx.eval(&key);
                    read_popm(cx, &key, &mk::id3v2_tag(v, 0, &f, 0), ("x@y", 0x80, want));
                }
            }
        }
    }
}
fn read_popm(cx: &Ctx, key: &str, tag: &[u8], want: (&str, u8, u64)) {
    let mut file = tag.to_vec();
    file.extend(mk::mpeg_audio(3));
    match guard(|| read(Fmt::Mpeg, &file, po())) {
        Ok(Ok(r)) => {
            let Some(N::Id3v2(t)) = r.get(T::Id3v2) else {
                return cx.violation(format!("{key}:gone"), "no ID3v2 tag", vec![("file.bin", &file)]);
            };
            let got: Vec<_> = t
                .into_iter()
                .filter_map(|f| match f {
                    Frame::Popularimeter(p) => Some((p.email.to_string(), p.rating, p.counter)),
                    _ => None,
                })
                .collect();
            if got != [(want.0.to_string(), want.1, want.2)] {
                cx.violation(format!("{key}:read"), format!("{want:?} is read as {got:?}"), vec![("file.bin", &file)]);
            }
            // and its stars
            let g: Tag = t.clone().into();
            let w = vec![(email_of(want.0), stars_of(want.0, TagType::Id3v2, want.1), want.2)];
            if ratings(&g) != w {
                cx.violation(format!("{key}:stars"), format!("POPM {want:?} converts to {:?}, expected {w:?}", ratings(&g)), vec![]);
            }
        }
        x => cx.violation(format!("{key}:fail"), format!("{:?}", x.map(|r| r.map(|_| ()))), vec![("file.bin", &file)]),
    }
}
/// Every native value and spelling in the text formats
fn natives(cx: &Ctx) {
    let odd = ["256", "-1", "", "x", "3.5", " 3", "99999999999", "1e2", "\u{663}"];
    for name in ["RATING", "rating", "Rating"] {
        for e in emails().into_iter().filter(|e| vorbis_email(e)) {
            let k = if e.is_empty() { name.to_string() } else { format!("{name}:{e}") };
            for raw in 0..=255u8 {
                cx.eval(&("vorbis", &k, raw));
                let mut t = VorbisComments::new();
                t.push(k.clone(), raw.to_string());
                let (rem, g) = t.clone().split_tag();
                let w = vec![(email_of(e), stars_of(e, TagType::VorbisComments, raw), 0)];
                if ratings(&g) != w {
                    cx.violation(format!("vorbis:{k}:{raw}"), format!("{k}={raw} converts to {:?}, expected {w:?}", ratings(&g)), vec![]);
                }
                let v = scale(e, TagType::VorbisComments)[w[0].1 as usize - 1].to_string();
                let m = rem.merge_tag(g);
                let items: Vec<_> = m.items().map(|(k, v)| (k.to_uppercase(), v.to_string())).collect();
                if items != [(k.to_uppercase(), v.clone())] && e.to_uppercase() == e {
                    cx.violation(format!("vorbis-merge:{k}:{raw}"), format!("{k}={raw} split and merged is {items:?}, expected {v}"), vec![]);
                }
            }
            for v in odd {
                cx.eval(&("vorbis", &k, v));
                let mut t = VorbisComments::new();
                t.push(k.clone(), v.to_string());
                let (rem, g) = t.split_tag();
                let m = rem.merge_tag(g);
                if m.items().map(|(_, v)| v).collect::<Vec<_>>() != [v] {
                    cx.violation(format!("vorbis-odd:{k}:{v}"), format!("{k}={v:?} does not survive splitting and merging: {:?}", m.items().collect::<Vec<_>>()), vec![]);
                }
            }
        }
    }
    for raw in 0..=255u8 {
        cx.eval(&("riff", raw));
        let mut t = RiffInfoList::default();
        t.insert("IRTD".into(), raw.to_string());
        let g: Tag = t.into();
        let w = vec![(None, stars_of("", TagType::RiffInfo, raw), 0)];
        if ratings(&g) != w {
            cx.violation(format!("riff:{raw}"), format!("IRTD={raw} converts to {:?}, expected {w:?}", ratings(&g)), vec![]);
        }
    }
    // several owners in one tag
    for a in emails() {
        for b in emails() {
            if a == b {
                continue;
            }
            for (ra, rb) in [(1u8, 255u8), (196, 64)] {
                cx.eval(&("two", a, b, ra));
                let mut t = Id3v2Tag::new();
                t.insert(Frame::Popularimeter(PopularimeterFrame::new(a, ra, 1)));
                t.insert(Frame::Popularimeter(PopularimeterFrame::new(b, rb, 2)));
                let g: Tag = t.into();
                let w = sorted(vec![(email_of(a), stars_of(a, TagType::Id3v2, ra), 1), (email_of(b), stars_of(b, TagType::Id3v2, rb), 2)]);
                if ratings(&g) != w {
                    cx.violation(format!("two:{a}:{b}:{ra}"), format!("{:?} instead of {w:?}", ratings(&g)), vec![]);
                }
            }
        }
    }
    // texts that aren't ratings
    for s in ["", "|", "||", "a|3", "3|7", "a|0|7", "a|6|7", "a|3|", "a||7", "a|3|-1", "a|3|18446744073709551616", "a|x|7", "a|3|7 ", "a| 3|7", "a|3|7|"] {
        cx.eval(&("text", s));
        let mut t = Tag::new(TagType::Id3v2);
        t.insert_text(ItemKey::Popularimeter, s.to_string());
        if let Some(r) = ratings(&t).first() {
            cx.violation(format!("nonsense:{s}"), format!("{s:?} is taken for the rating {r:?}"), vec![]);
        }
    }
}
struct Seven;
impl RatingProvider for Seven {
    fn supports_email(&self, email: &str) -> bool {
        email.ends_with("@seven")
    }
    fn rate(&self, tag_type: TagType, rating: StarRating) -> u8 {
        rating as u8 * if tag_type == TagType::Id3v2 { 7 } else { 3 }
    }
    fn convert_raw(&self, tag_type: TagType, rating: u8) -> StarRating {
        let m = if tag_type == TagType::Id3v2 { 7 } else { 3 };
        STARS[usize::from((rating / m).clamp(1, 5)) - 1]
    }
}
/// With a custom provider; the last part, since it is set for the rest of the process
fn custom(cx: &Ctx, files: &[(T, Fmt, Vec<u8>)]) {
    set_custom_rating_provider(Seven);
    for s in STARS {
        for e in emails().into_iter().chain(["x@seven", "@seven"]) {
            cx.eval(&("custom", e, s as u8));
            let builtin = matches!(e, MB | WMP | PICARD);
            let known = builtin || e.ends_with("@seven");
            let p = provider(e, s, 3);
            let mut t = Tag::new(TagType::Id3v2);
            t.insert_text(ItemKey::Popularimeter, p.to_string());
            let want: Vec<R> = if known { vec![(email_of(e), s, 3)] } else { vec![] };
            if ratings(&t) != want {
                cx.violation(format!("custom-text:{e}:{s:?}"), format!("{:?} instead of {want:?}", ratings(&t)), vec![]);
            }
            let raw = if builtin { scale(e, TagType::Id3v2)[s as usize - 1] } else { s as u8 * 7 };
            let f = PopularimeterFrame::from(p.clone());
            if (f.email.as_ref(), f.rating, f.counter) != (e, raw, 3) {
                cx.violation(format!("custom-frame:{e}:{s:?}"), format!("the frame is {f:?}"), vec![]);
            }
            let mut n = Id3v2Tag::new();
            n.insert(Frame::Popularimeter(f));
            let (rem, g) = n.split_tag();
            if ratings(&g) != want {
                cx.violation(format!("custom-split:{e}:{s:?}"), format!("{:?} instead of {want:?}", ratings(&g)), vec![]);
            }
            // foreign ratings are kept as they are
            let m = rem.merge_tag(g);
            let got: Vec<(String, u8)> = (&m)
                .into_iter()
                .filter_map(|f| match f {
                    Frame::Popularimeter(p) => Some((p.email.to_string(), p.rating)),
                    _ => None,
                })
                .collect();
            if got != [(e.to_string(), raw)] {
                cx.violation(format!("custom-merge:{e}:{s:?}"), format!("split and merged: {got:?}, expected {raw}"), vec![]);
            }
            if vorbis_email(e) {
                let raw = if builtin { scale(e, TagType::VorbisComments)[s as usize - 1] } else { s as u8 * 3 };
                let k = if e.is_empty() { "RATING".to_string() } else { format!("RATING:{e}") };
                let mut t = VorbisComments::new();
                t.push(k.clone(), raw.to_string());
                let (rem, g) = t.split_tag();
                let want: Vec<R> = if known { vec![(email_of(e), s, 0)] } else { vec![] };
                if ratings(&g) != want {
                    cx.violation(format!("custom-vorbis:{e}:{s:?}"), format!("{:?} instead of {want:?}", ratings(&g)), vec![]);
                }
                let m = rem.merge_tag(g);
                let items: Vec<_> = m.items().collect();
                if items != [(k.as_str(), raw.to_string().as_str())] {
                    cx.violation(format!("custom-vorbis-merge:{e}:{s:?}"), format!("{items:?}"), vec![]);
                }
            }
        }
        for (ty, f, b) in files.iter().filter(|x| matches!(x.0, T::Id3v2 | T::Vorbis)) {
            cx.eval(&("custom-file", format!("{f:?}{ty:?}"), s as u8));
            let t = tag_of(tt(*ty), &[("x@seven", s, 0), (MB, s, 0)]);
            let w: Vec<R> = sorted(vec![(email_of("x@seven"), s, 0), (email_of(MB), s, 0)]);
            match guard(|| save_generic(&t, b).and_then(|x| read_tagged(*f, &x, po()))) {
                Ok(Ok(r)) => {
                    let got = lofty::file::TaggedFileExt::tag(&r, tt(*ty)).map(ratings).unwrap_or_default();
                    if got != w {
                        cx.violation(format!("custom-file:{f:?}:{ty:?}:{s:?}"), format!("{got:?} instead of {w:?}"), vec![]);
                    }
                }
                x => cx.violation(format!("custom-file:{f:?}:{ty:?}:{s:?}"), format!("{:?}", x.map(|x| x.map(|_| ()))), vec![]),
            }
        }
    }
}
pub fn run(cx: &Ctx) -> i32 {
    providers(cx);
    let files: Vec<(T, Fmt, Vec<u8>)> = ALL_FMT
        .into_iter()
        .flat_map(|f| writable(f).into_iter().map(move |t| (t, f)))
        .filter(|(t, _)| matches!(t, T::Id3v2 | T::Vorbis | T::RiffInfo | T::Ilst))
        .map(|(t, f)| (t, f, layouts::layouts(f, false).into_iter().find(|l| l.core && l.name != "bigaudio").unwrap().bytes))
        .collect();
    let mut jobs: Vec<(String, Vec<(&'static str, StarRating, u64)>)> = Vec::new();
    for e in emails() {
        for s in STARS {
            for c in COUNTS {
                jobs.push((format!("{e}:{s:?}:{c:x}"), vec![(e, s, c)]));
            }
        }
    }
    for a in emails() {
        for b in emails() {
            if a != b {
                for (i, s) in STARS.into_iter().enumerate() {
                    jobs.push((format!("{a}+{b}:{s:?}"), vec![(a, s, 1), (b, STARS[4 - i], 300)]));
                }
            }
        }
    }
    jobs.push(("all".into(), emails().into_iter().map(|e| (e, StarRating::Four, 9)).collect()));
    for j in jobs.iter().step_by((jobs.len() / 8).max(1)) {
        cx.sample(|| json!({"ratings": format!("{:?}", j.1)}));
    }
    cx.par(&jobs, |(k, l)| {
        if !cx.too_many() && !cx.skip(k) {
            round(cx, k, l, &files)
        }
    });
    frames(cx);
    natives(cx);
    custom(cx, &files);
    let _ = (ApeTag::new(), Ilst::new());
    cx.states.store(jobs.len() as u64, Ordering::Relaxed);
    cx.finish(
        "exploration",
        "Every provider's scale over every star, tag type and raw value; every (email class x star x counter boundary) and every pair of emails through the text form, the native conversions and real files; every rating byte and counter width in POPM frames against an independent encoder; every raw value and spelling of the native rating fields; the same with a custom provider.",
        &["emails come from a list of 21, counters from the boundaries of every byte length", "fractional ratings are outside the model, as documented"],
        true,
    )
}
