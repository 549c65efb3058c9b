//! C28: write options do exactly what they document. Every combination of the options, on every format, tag type, file layout and kind of
//! content, against the save with the defaults: a combination may differ from it only in what its options say.
use crate::api::*;
use crate::contents::*;
use crate::ctx::*;
use crate::layouts::*;
use crate::walk::*;
use lofty::TextEncoding;
use lofty::ape::{ApeItem, ApeTag};
use lofty::config::{ParseOptions, ParsingMode, WriteOptions};
use lofty::file::{AudioFile, TaggedFile};
use lofty::id3::v1::Id3v1Tag;
use lofty::id3::v2::{CommentFrame, Frame, FrameId, Id3v2Tag, TextInformationFrame, UrlLinkFrame};
use lofty::properties::FileProperties;
use lofty::tag::{Accessor, ItemValue, TagExt};
use serde_json::json;
use std::borrow::Cow;
use std::io::Cursor;
use std::sync::atomic::Ordering;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct O {
    pad: u32,
    respect: bool,
    upper: bool,
    v3: bool,
    lossy: bool,
    others: bool,
    /// options for the reads a write makes: none of its business
    parse: u8,
}
const BASE: O = O { pad: 0, respect: true, upper: true, v3: false, lossy: true, others: false, parse: 0 };
impl O {
    fn get(self) -> WriteOptions {
        let p = match self.parse {
            0 => ParseOptions::new(),
            1 => ParseOptions::new().read_tags(false),
            2 => ParseOptions::new().read_properties(false),
            3 => ParseOptions::new().read_cover_art(false),
            4 => ParseOptions::new().implicit_conversions(false),
            5 => ParseOptions::new().parsing_mode(ParsingMode::Relaxed),
            _ => ParseOptions::new().parsing_mode(ParsingMode::Strict),
        };
        let mut w = WriteOptions::new().preferred_padding(self.pad).respect_read_only(self.respect).uppercase_id3v2_chunk(self.upper).remove_others(self.others).parse_options(p);
        w = w.use_id3v23(self.v3);
        w.lossy_text_encoding(self.lossy)
    }
    fn all(cx: &Ctx) -> Vec<O> {
        let mut v = Vec::new();
        let pads: &[u32] = cx.q(&[0, 1, 64, 1024, 70_000], &[0, 1, 7, 8, 9, 64, 127, 128, 1024, 5000, 70_000]);
        for &pad in pads {
            for b in 0..16u8 {
                for parse in 0..7 {
                    // the reading options with every single other option, and in the thorough tier with every combination
                    if parse > 0 && b.count_ones() > 1 && !cx.thorough() {
                        continue;
                    }
                    v.push(O { pad, respect: b & 1 == 0, upper: b & 2 == 0, v3: b & 4 != 0, lossy: b & 8 == 0, others: false, parse });
                }
            }
        }
        v
    }
}
const BAD: &str = "l\u{444}fty";
/// Content that its encoding can't hold
fn unencodable(t: T) -> Vec<(String, N)> {
    let mut v = Vec::new();
    match t {
        T::Id3v1 => {
            for i in 0..4 {
                let mut x = Id3v1Tag::new();
                x.set_title("title".into());
                let s = BAD.to_string();
                match i {
                    0 => x.set_title(s),
                    1 => x.set_artist(s),
                    2 => x.set_album(s),
                    _ => x.set_comment(s),
                }
                v.push((format!("v1 field {i}"), N::Id3v1(x)));
            }
        }
        T::Id3v2 => {
            let id = |s: &str| FrameId::Valid(Cow::Owned(s.to_string()));
            let l = TextEncoding::Latin1;
            let fs: Vec<Frame<'static>> = vec![
                Frame::Text(TextInformationFrame::new(id("TALB"), l, BAD.to_string())),
                Frame::Comment(CommentFrame::new(l, *b"eng", String::new(), BAD.to_string())),
                Frame::Url(UrlLinkFrame::new(id("WCOM"), BAD.to_string())),
            ];
            for (i, f) in fs.into_iter().enumerate() {
                let mut x = Id3v2Tag::new();
                x.set_title("title".into());
                x.insert(f);
                v.push((format!("v2 frame {i}"), N::Id3v2(x)));
            }
        }
        _ => {}
    }
    v
}
fn find(h: &[u8], n: &[u8]) -> bool {
    h.windows(n.len()).any(|w| w == n)
}
/// The `PADDING` blocks of a FLAC file, behind an ID3v2 tag or not
fn flac_padding(b: &[u8]) -> Vec<usize> {
    let mut p = id3v2_len(b).unwrap_or(0) + 4;
    let mut v = Vec::new();
    while p + 4 <= b.len() {
        let n = (b[p + 1] as usize) << 16 | (b[p + 2] as usize) << 8 | b[p + 3] as usize;
        if b[p] & 0x7F == 1 {
            v.push(n);
        }
        if b[p] & 0x80 != 0 {
            break;
        }
        p += 4 + n;
    }
    v
}
/// One save under `o`, against the save under `BASE`
fn judge(f: Fmt, before: &[u8], n: &N, bad: bool, o: O, base: &(Result<(), String>, Vec<u8>)) -> Result<u64, String> {
    let t = n.t();
    let (r, after) = n.save2(before, o.get());
    if bad && !o.lossy {
        if r.is_ok() {
            return Err("text that can't be encoded was written although lossy encoding is off".into());
        }
        if after != before {
            return Err("the refused save changed the file".into());
        }
        return Ok(0);
    }
    if let Err(e) = r {
        return Err(format!("save failed: {e}"));
    }
    let v2 = t == T::Id3v2;
    let chunk = matches!(f, Fmt::Wav | Fmt::Aiff);
    // which options may show at all
    let padded = o.pad != 0 && (v2 || matches!(f, Fmt::Flac | Fmt::Mp4) || f == Fmt::Wav);
    if !(padded || v2 && o.v3 || v2 && chunk && !o.upper) && after != base.1 {
        return Err("an option that doesn't concern this tag changes what is written".into());
    }
    let dump = n.dump(o.get()).map_err(|e| format!("dump failed: {e}"))?;
    if v2 && !n.is_empty() {
        let want = if o.v3 { 3 } else { 4 };
        if dump.len() < 10 || dump[3] != want {
            return Err(format!("version {:?} dumped, expected {want}", dump.get(3)));
        }
        let no = n.dump(O { pad: 0, ..o }.get())?;
        let mut w = no.clone();
        w.extend(vec![0; o.pad as usize]);
        let len = w.len() - 10;
        for i in 0..4 {
            w[6 + i] = (len >> (7 * (3 - i)) & 0x7F) as u8;
        }
        if dump != w {
            return Err("the padding isn't what was asked for".into());
        }
        if !find(&after, &dump) {
            return Err("the saved tag isn't the dumped one".into());
        }
        if chunk {
            let mut head = if o.upper { b"ID3 ".to_vec() } else { b"id3 ".to_vec() };
            head.extend(if f == Fmt::Wav { (dump.len() as u32).to_le_bytes() } else { (dump.len() as u32).to_be_bytes() });
            head.extend(&dump);
            if !find(&after, &head) {
                return Err("the chunk isn't named as asked".into());
            }
        }
    } else if dump != n.dump(BASE.get())? && t != T::Ilst && !matches!(t, T::Vorbis) {
        return Err("an option that doesn't concern this tag changes what is dumped".into());
    }
    if bad {
        let want = b"l?fty";
        if !find(&after, want) {
            return Err("the unencodable character isn't replaced by ?".into());
        }
    }
    let (a, b) = (anatomy(f, before), anatomy(f, &after));
    if !b.errs.is_empty() {
        return Err(format!("malformed: {:?}", b.errs));
    }
    same_foreign(f, &a, &b)?;
    let (x, y) = (read(f, &base.1, po())?, read(f, &after, po())?);
    if x.tags_sig() != y.tags_sig() && !(v2 && o.v3) {
        return Err(format!("reads back as {}, with the defaults as {}", y.tags_sig(), x.tags_sig()));
    }
    for k in ALL_T {
        if k != t && b.tags.iter().filter(|z| z.0 == k).ne(a.tags.iter().filter(|z| z.0 == k)) {
            return Err(format!("the {k:?} tag changed"));
        }
    }
    if f == Fmt::Flac && t == T::Vorbis && !n.is_empty() {
        let (p, q) = (flac_padding(before), flac_padding(&after));
        let ok = if !p.is_empty() || o.pad == 0 { p == q } else { q.len() == 1 && q[0] >= o.pad as usize };
        if !ok {
            return Err(format!("PADDING blocks {p:?} became {q:?}"));
        }
    }
    if f == Fmt::Mp4 && !n.is_empty() && !a.tags.iter().any(|z| z.0 == T::Ilst) && a.padding == 0 {
        let want = if o.pad == 0 { 0 } else { o.pad.max(8) as usize };
        // a new `udta` or `meta` atom is written without padding
        if b.padding != want && b.padding != 0 {
            return Err(format!("{} bytes of free atoms, expected {want}", b.padding));
        }
    }
    Ok(h64(&after))
}
/// A file that has several tags, one with read-only items: `remove_others` and `respect_read_only` as documented
fn documented(cx: &Ctx, f: Fmt) {
    // remove_others: only the tag being written is kept
    for l in layouts(f, false).into_iter().filter(|l| l.core && l.name != "bigaudio") {
        let Ok(r) = read(f, &l.bytes, po()) else { continue };
        for t in writable(f) {
            if !r.tags.iter().any(|n| n.t() != t && !n.is_empty()) {
                continue;
            }
            let key = format!("remove_others:{f:?}/{}:{t:?}", l.name);
            cx.eval(&key);
            let o = O { others: true, ..BASE };
            let n = content(t, K::A);
            let (r, after) = n.save2(&l.bytes, o.get());
            let left: Vec<T> = read(f, &after, po()).map(|r| r.tags.iter().filter(|n| !n.is_empty()).map(|n| n.t()).collect()).unwrap_or_default();
            if r.is_err() || left != [t] {
                // one finding per format and tag type: the call site is the same for every file
                cx.violation(format!("remove_others:{f:?}:{t:?}"), format!("WriteOptions::remove_others(true): after saving the {t:?} tag of a {f:?} file its other tags are still there"), vec![("file.bin", &l.bytes)]);
            }
        }
    }
    if !support(f, T::Ape).1 {
        return;
    }
    for (name, whole) in [("item", false), ("tag", true)] {
        for respect in [true, false] {
            let mut old = ApeTag::new();
            old.set_album("kept album".into());
            let mut i = ApeItem::new("Title".into(), ItemValue::Text("kept title".into())).unwrap();
            i.read_only = !whole;
            old.insert(i);
            old.read_only = whole;
            let key = format!("respect_read_only:{f:?}:{name}:{respect}");
            cx.eval(&key);
            let r = (|| -> Result<(), String> {
                let b = N::Ape(old).save(&audio(f), BASE.get())?;
                let mut new = ApeTag::new();
                new.set_title("new title".into());
                let after = N::Ape(new).save(&b, O { respect, ..BASE }.get())?;
                let r = read(f, &after, po())?;
                let Some(N::Ape(a)) = r.get(T::Ape) else { return Err("no tag".into()) };
                let title = a.title().unwrap_or_default().to_string();
                let album = a.album().map(|x| x.to_string());
                let want: (&str, Option<&str>) = match (whole, respect) {
                    (_, false) => ("new title", None),
                    (false, true) => ("kept title", None),
                    // "This will append the existing tag items to the new tag"
                    (true, true) => ("new title", Some("kept album")),
                };
                if (title.as_str(), album.as_deref()) != want {
                    return Err(format!("title {title:?}, album {album:?}, expected {want:?}"));
                }
                Ok(())
            })();
            if let Err(e) = r {
                cx.violation(key, format!("WriteOptions::respect_read_only({respect}) with a read-only APE {name} in a {f:?} file: {e}"), vec![]);
            }
        }
    }
}
pub fn run(cx: &Ctx) -> i32 {
    let os = O::all(cx);
    cx.note("option combinations", json!(os.len()));
    let mut cells = 0u64;
    for f in ALL_FMT {
        documented(cx, f);
        let ls: Vec<Layout> = layouts(f, false).into_iter().filter(|l| l.core && l.name != "bigaudio").collect();
        let mut work: Vec<(usize, String, N, bool)> = Vec::new();
        for i in 0..ls.len() {
            for t in writable(f) {
                let ks: &[K] = cx.q(&[K::E, K::A, K::P], &[K::E, K::A, K::B, K::P, K::C]);
                for k in ks {
                    work.push((i, format!("{t:?} {k:?}"), content(t, *k), false));
                }
                for (n, x) in unencodable(t) {
                    work.push((i, n, x, true));
                }
            }
        }
        cells += work.len() as u64;
        cx.par(&work, |(i, name, n, bad)| {
            let l = &ls[*i];
            let base = n.save2(&l.bytes, BASE.get());
            let cell = format!("{f:?}/{}:{name}", l.name);
            if base.0.is_err() {
                cx.violation(cell, format!("save with the defaults failed: {:?}", base.0), vec![("file.bin", &l.bytes)]);
                return;
            }
            for o in &os {
                let key = format!("{cell}:{o:?}");
                cx.eval(&key);
                if cx.skip(&key) || cx.too_many() {
                    continue;
                }
                match guard(|| judge(f, &l.bytes, n, *bad, *o, &base)) {
                    Ok(Ok(h)) => { cx.outcome(&h); }
                    Ok(Err(e)) => cx.violation(key.clone(), e, vec![("file.bin", &l.bytes)]),
                    Err(p) => cx.violation(key.clone(), format!("PANIC {p}"), vec![("file.bin", &l.bytes)]),
                }
                // the other ways to save the same tag take the same options
                if o.parse != 0 {
                    continue;
                }
                cx.evals_add(1);
                let g = n.clone().into_tag();
                let mut c = Cursor::new(l.bytes.clone());
                let rt = g.save_to(&mut c, o.get()).map_err(er);
                let mut d = Cursor::new(l.bytes.clone());
                let tf = TaggedFile::new(ft(f), FileProperties::default(), vec![g.clone()]);
                let rf = tf.save_to(&mut d, o.get()).map_err(er);
                let back = N::from_tag(g, n.t()).save2(&l.bytes, o.get());
                if rt.is_ok() != rf.is_ok() || rt.is_ok() != back.0.is_ok() || c.get_ref() != d.get_ref() || *c.get_ref() != back.1 {
                    cx.violation(format!("{key}:generic"), "the generic tag, the tagged file and the concrete tag don't write the same with the same options", vec![("file.bin", &l.bytes)]);
                }
            }
        });
        cx.states.fetch_add(work.len() as u64, Ordering::Relaxed);
    }
    cx.transitions.fetch_add((os.len() as u64) * cells, Ordering::Relaxed);
    cx.traces.fetch_add((os.len() as u64) * cells, Ordering::Relaxed);
    cx.sample(|| json!({"cell": "Wav with RIFF INFO and ID3v2, saving ID3v2", "options": "padding 64, lowercase chunk, ID3v2.3", "checked": "chunk name, version, padding, everything else as with the defaults"}));
    cx.finish(
        "model_checking",
        "distinct = (format, layout, tag content, option combination); outcomes = distinct files written; states = (file, tag) cells, transitions = saves",
        &["what a save with the defaults writes is decided by C02 to C06, what ID3v2.3 content is by C24", "the size of FLAC and MP4 padding is asserted only where the file had none to reuse"],
        true,
    )
}
