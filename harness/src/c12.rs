//! C12: every way of saving a generic tag writes what its conversion to the native tag writes.
use crate::api::*;
use crate::ctx::*;
use crate::keys::KEYS;
use crate::layouts::*;
use crate::rich;
use crate::walk::*;
use lofty::config::WriteOptions;
use lofty::file::{AudioFile, TaggedFile, TaggedFileExt};
use lofty::picture::{MimeType, PictureType};
use lofty::properties::FileProperties;
use lofty::tag::{ItemKey, ItemValue, Tag, TagExt, TagItem};
use serde_json::json;
use std::io::Cursor;
use std::sync::atomic::Ordering;

pub const TEXTS: [&str; 18] = [
    "v", "5", "0", "", "a\0b", "1", "true", "2020-02-03", "2020", "3/7", "MusicBee|3|7", "me@x.y|5|0", "https://example.com/x", "A\u{e9}\u{4e00}", " pad ", "12345678901234567890", "00112233-4455-6677-8899-aabbccddeeff", "Rock",
];
/// All the value shapes of an item
pub fn shapes(k: ItemKey) -> Vec<(String, Vec<TagItem>)> {
    let t = |s: &str| TagItem::new(k, ItemValue::Text(s.into()));
    let mut v: Vec<(String, Vec<TagItem>)> = TEXTS.iter().map(|s| (format!("text:{s}"), vec![t(s)])).collect();
    v.push(("locator".into(), vec![TagItem::new(k, ItemValue::Locator("https://u/".into()))]));
    v.push(("binary".into(), vec![TagItem::new(k, ItemValue::Binary(vec![1, 0, 255]))]));
    v.push(("binary-text".into(), vec![TagItem::new(k, ItemValue::Binary(b"7".to_vec()))]));
    v.push(("two".into(), vec![t("one"), t("two")]));
    v.push(("two-popm".into(), vec![t("a@b|1|0"), t("c@d|2|9")]));
    v.push(("twice".into(), vec![t("one"), t("one")]));
    v.push(("mixed".into(), vec![t("one"), TagItem::new(k, ItemValue::Locator("u://x".into())), TagItem::new(k, ItemValue::Binary(vec![9]))]));
    let mut l = t("lang");
    l.set_lang(*b"fra");
    v.push(("lang".into(), vec![l.clone()]));
    l.set_description("desc".into());
    v.push(("lang+desc".into(), vec![l.clone()]));
    let mut d = t("d");
    d.set_description("other".into());
    v.push(("descs".into(), vec![t("plain"), d, l]));
    v
}
/// The content of native tags, regardless of the order of ID3v2 frames
fn sig(n: &N) -> String {
    match n {
        N::Id3v2(_) => {
            let s = n.sig();
            let mut l: Vec<&str> = s.split("\n    ").collect();
            l.sort();
            l.join("\n")
        }
        _ => n.sig(),
    }
}
fn sigs(f: Fmt, b: &[u8]) -> Result<String, String> {
    let r = guard(|| read(f, b, po())).unwrap_or_else(|p| Err(format!("PANIC {p}")))?;
    Ok(r.tags.iter().map(sig).collect::<Vec<_>>().join("\n"))
}
type Saved = (Result<(), String>, Vec<u8>);
fn save<X>(b: &[u8], f: impl FnOnce(&mut Cursor<Vec<u8>>) -> Result<(), X>, e: impl FnOnce(X) -> String) -> Saved {
    let mut c = Cursor::new(b.to_vec());
    let r = match guard(|| f(&mut c)) {
        Ok(r) => r.map_err(e),
        Err(p) => Err(format!("PANIC {p}")),
    };
    (r, c.into_inner())
}
/// Does the dump of the native tag appear contiguously in a file it is saved to?
fn contiguous(f: Fmt, t: T, dump: &[u8]) -> bool {
    match t {
        T::Vorbis => f != Fmt::Flac && dump.len() < 60_000,
        _ => true,
    }
}
fn find(h: &[u8], n: &[u8]) -> bool {
    n.is_empty() || h.windows(n.len()).any(|w| w == n)
}
fn check(cx: &Ctx, key: &str, f: Fmt, ty: T, base: &[u8], tag: &Tag, o: WriteOptions) {
    if cx.too_many() {
        return;
    }
    cx.case(key, base);
    let native = match guard(|| N::from_tag(tag.clone(), ty)) {
        Ok(n) => n,
        Err(p) => return cx.violation(format!("{key}:convert"), format!("conversion panics: {p}"), vec![]),
    };
    let a = save(base, |c| tag.save_to(c, o), er);
    let mut tf = TaggedFile::new(ft(f), FileProperties::default(), vec![tag.clone()]);
    let b = save(base, |c| tf.save_to(c, o), er);
    let c = save(base, |c| native.save_to(c, o), er);
    // the same tag among the file's other tags, none of which has content to write
    tf.clear();
    tf.insert_tag(tag.clone());
    let d = save(base, |c| tf.save_to(c, o), er);
    cx.eval(&(format!("{f:?}{ty:?}"), tag_sig(tag), h64(base)));
    let want = sigs(f, &c.1);
    cx.outcome(&(c.0.is_ok(), want.clone()));
    for (w, x) in [("Tag::save_to", &a), ("TaggedFile::save_to", &b), ("TaggedFile::save_to after insert_tag", &d)] {
        // an empty tag in a collection is nothing to save
        if w != "Tag::save_to" && tag.is_empty() {
            continue;
        }
        if x.0.is_ok() != c.0.is_ok() {
            cx.violation(format!("{key}:result"), format!("{w}: {:?}, converted and saved: {:?}", x.0, c.0), vec![("base.bin", base)]);
            continue;
        }
        if x.0.is_err() && x.0 != c.0 {
            cx.violation(format!("{key}:error"), format!("{w}: {:?}, converted and saved: {:?}", x.0, c.0), vec![("base.bin", base)]);
        }
        let got = sigs(f, &x.1);
        if got != want {
            let (g, e) = (got.clone().unwrap_or_else(|e| e), want.clone().unwrap_or_else(|e| e));
            let miss: Vec<&str> = e.lines().filter(|l| !g.lines().any(|m| m == *l)).take(6).collect();
            let extra: Vec<&str> = g.lines().filter(|l| !e.lines().any(|m| m == *l)).take(6).collect();
            cx.violation(format!("{key}:{w}"), format!("{w} differs from the converted native tag: missing {miss:?} extra {extra:?}"), vec![("base.bin", base), ("got.bin", &x.1), ("want.bin", &c.1)]);
        }
    }
    // reading the file generically is converting what the concrete reader finds
    let gn = guard(|| read_tagged(f, &c.1, po())).unwrap_or_else(|p| Err(format!("PANIC {p}")));
    let con = guard(|| read(f, &c.1, po())).unwrap_or_else(|p| Err(format!("PANIC {p}")));
    match (gn, con) {
        (Ok(g), Ok(n)) => {
            let mut g: Vec<String> = g.tags().iter().map(tag_sig).collect();
            let mut w: Vec<String> = n.tags.into_iter().map(|n| tag_sig(&n.into_tag())).collect();
            g.sort();
            w.sort();
            if g != w {
                cx.violation(format!("{key}:generic-read"), format!("read generically: {g:?}, concrete tags converted: {w:?}"), vec![("file.bin", &c.1)]);
            }
        }
        (Err(_), Err(_)) => {}
        (g, n) => cx.violation(format!("{key}:generic-read-result"), format!("read generically: {:?}, concrete: {:?}", g.map(|_| ()), n.map(|_| ())), vec![("file.bin", &c.1)]),
    }
    // dumps
    let nd = guard(|| native.dump(o)).unwrap_or_else(|p| Err(format!("PANIC {p}")));
    let mut v = Vec::new();
    let gd = match guard(|| tag.dump_to(&mut v, o)) {
        Ok(r) => r.map_err(er).map(|()| v),
        Err(p) => Err(format!("PANIC {p}")),
    };
    match (&nd, &gd) {
        (Ok(n), Ok(g)) => {
            let same = n == g || (ty == T::Id3v2 && n.len() == g.len());
            if !same {
                cx.violation(format!("{key}:dump"), format!("dump of the generic tag: {} bytes, of the native tag: {} bytes, different", g.len(), n.len()), vec![("generic.bin", g), ("native.bin", n)]);
            }
            if a.0.is_ok() && !tag.is_empty() && !native.is_empty() && contiguous(f, ty, g) {
                let needle = match ty {
                    // the vendor belongs to the file
                    T::Vorbis => &g[4 + u32::from_le_bytes(g[..4].try_into().unwrap()) as usize..],
                    _ => &g[..],
                };
                if !find(&a.1, needle) && ty != T::Id3v2 {
                    cx.violation(format!("{key}:dump-in-file"), "the dumped bytes are not those written to the file", vec![("dump.bin", g), ("file.bin", &a.1)]);
                }
            }
        }
        (Err(n), Err(g)) if n == g => {}
        _ => cx.violation(format!("{key}:dump-result"), format!("dump of the generic tag: {:?}, of the native tag: {:?}", gd.as_ref().map(|v| v.len()), nd.as_ref().map(|v| v.len())), vec![]),
    }
}
pub fn run(cx: &Ctx) -> i32 {
    let mut bases: Vec<(Fmt, T, String, Vec<u8>)> = Vec::new();
    for f in ALL_FMT {
        let ls: Vec<Layout> = layouts(f, false).into_iter().filter(|l| l.core && l.name != "bigaudio").collect();
        for ty in writable(f) {
            let n = cx.q(3, 12).min(ls.len());
            for i in 0..n {
                let l = &ls[i * (ls.len() - 1) / (n - 1).max(1)];
                bases.push((f, ty, l.name.to_string(), l.bytes.clone()));
            }
        }
    }
    cx.note("bases", json!(bases.len()));
    let opts = |i: usize| match i {
        0 => wo().preferred_padding(0),
        1 => wo().preferred_padding(64).use_id3v23(true),
        2 => wo().preferred_padding(0).lossy_text_encoding(false),
        _ => wo().remove_others(true),
    };
    let mut jobs: Vec<(String, usize, Tag, usize)> = Vec::new();
    let mk = |ty: T, items: Vec<TagItem>, checked: bool| {
        let mut t = Tag::new(tt(ty));
        for i in items {
            if checked {
                t.push(i);
            } else {
                t.push_unchecked(i);
            }
        }
        t
    };
    let pics = |n: usize| -> Vec<lofty::picture::Picture> {
        [
            rich::p(PictureType::CoverFront, Some(MimeType::Png), Some("front"), crate::mk::png(5)),
            rich::p(PictureType::CoverFront, Some(MimeType::Jpeg), None, vec![0xFF, 0xD8, 0xFF, 0xE0, 1]),
            rich::p(PictureType::Artist, None, Some("d\u{e9}\u{4e00}"), vec![1, 2, 3]),
        ][..n]
            .to_vec()
    };
    for (bi, (f, ty, ln, _)) in bases.iter().enumerate() {
        let first = bi == 0 || (bases[bi - 1].0, bases[bi - 1].1) != (*f, *ty);
        for k in KEYS {
            for (sn, items) in shapes(k) {
                // the checked and the unchecked ways of adding items
                for checked in [true, false] {
                    let t = mk(*ty, items.clone(), checked);
                    if checked && t.item_count() as usize == items.len() {
                        continue; // identical to the unchecked one
                    }
                    for oi in 0..4 {
                        if (oi > 0 && !first && !cx.thorough()) || (oi == 1 && *ty != T::Id3v2) {
                            continue;
                        }
                        jobs.push((format!("{f:?}/{ln}:{ty:?}:{k:?}:{sn}:{}:o{oi}", if checked { "c" } else { "u" }), bi, t.clone(), oi));
                    }
                }
            }
        }
        // all pairs of keys
        if first || cx.thorough() {
            for (i, a) in KEYS.iter().enumerate() {
                for (j, b) in KEYS.iter().enumerate() {
                    if i == j || (!cx.thorough() && i > j && (i + j) % 4 != 0) {
                        continue;
                    }
                    let t = mk(*ty, vec![TagItem::new(*a, ItemValue::Text("1".into())), TagItem::new(*b, ItemValue::Text("2".into()))], false);
                    jobs.push((format!("{f:?}/{ln}:{ty:?}:pair:{a:?}+{b:?}"), bi, t, 0));
                }
            }
        }
        // pictures, with and without items, and everything at once
        for np in 0..=3 {
            for all in 0..3 {
                let items: Vec<TagItem> = match all {
                    0 => vec![],
                    1 => vec![TagItem::new(ItemKey::TrackTitle, ItemValue::Text("t".into()))],
                    _ => KEYS.iter().map(|k| TagItem::new(*k, ItemValue::Text("1".into()))).collect(),
                };
                let mut t = mk(*ty, items, false);
                for p in pics(np) {
                    t.push_picture(p);
                }
                for oi in 0..4 {
                    jobs.push((format!("{f:?}/{ln}:{ty:?}:pics{np}:items{all}:o{oi}"), bi, t.clone(), oi));
                }
            }
        }
        // generic tags obtained from every kind of native tag of every type
        if first || cx.thorough() {
            for from in ALL_T {
                for (n, x) in rich::rich(from) {
                    if from != *ty && !cx.thorough() && h64(&n) % 3 != 0 {
                        continue;
                    }
                    let mut t: Tag = x.into_tag();
                    t.re_map(tt(*ty));
                    jobs.push((format!("{f:?}/{ln}:{ty:?}:from:{from:?}:{n}"), bi, t, 0));
                }
            }
        }
    }
    cx.note("cases", json!(jobs.len()));
    jobs.retain(|j| !cx.skip(&j.0));
    for j in jobs.iter().step_by((jobs.len() / 10).max(1)) {
        cx.sample(|| json!({"case": j.0, "items": j.2.item_count(), "pictures": j.2.picture_count()}));
    }
    cx.states.store(jobs.len() as u64, Ordering::Relaxed);
    cx.par(&jobs, |(k, bi, t, oi)| {
        let (f, ty, _, b) = &bases[*bi];
        check(cx, k, *f, *ty, b, t, opts(*oi));
    });
    cx.finish(
        "exploration",
        "exhaustive enumeration of (format x writable tag type x existing file layout x every generic key x value shape x write options), of all pairs of keys, of 0 to 3 pictures with no, one or all items, and of the generic form of every kind of native tag; each is saved four ways (Tag, TaggedFile built around it, TaggedFile after inserting it, converted native tag) and the re-read native tags, results, errors and dumps are compared",
        &["the conversion to the native tag is the reference here; what it keeps is decided by C11"],
        false,
    )
}
