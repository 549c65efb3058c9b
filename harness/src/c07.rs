//! C07: refused saves leave the file untouched.
use crate::api::*;
use crate::c01::damage;
use crate::contents::*;
use crate::ctx::*;
use crate::layouts::*;
use crate::rich::*;
use crate::seeds::*;
use crate::walk::*;
use lofty::TextEncoding;
use lofty::ape::{ApeItem, ApeTag};
use lofty::config::WriteOptions;
use lofty::file::{AudioFile, TaggedFileExt};
use lofty::id3::v2::*;
use lofty::iff::aiff::{AiffTextChunks, Comment};
use lofty::mp4::{Atom, AtomData, AtomIdent, Ilst};
use lofty::ogg::OggPictureStorage;
use lofty::ogg::tag::VorbisComments;
use lofty::picture::{MimeType, PictureInformation, PictureType};
use lofty::tag::{ItemKey, ItemValue, Tag, TagExt, TagItem};
use serde_json::json;
use std::borrow::Cow;
use std::io::Cursor;
use std::path::PathBuf;
use std::sync::atomic::Ordering;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Entry {
    Native,
    NativePath,
    Generic,
    GenericPath,
    Tagged,
    Remove,
    RemovePath,
    NativeRemove,
}
use Entry::*;
pub const SAVES: [Entry; 5] = [Native, NativePath, Generic, GenericPath, Tagged];
pub const REMOVES: [Entry; 3] = [Remove, RemovePath, NativeRemove];

thread_local! { static TMP: PathBuf = {
    let d = std::env::temp_dir().join(format!("lv07-{}-{:?}", std::process::id(), std::thread::current().id()));
    std::fs::create_dir_all(&d).unwrap();
    d.join("f")
}; }
pub fn cleanup() {
    let pre = format!("lv07-{}-", std::process::id());
    if let Ok(d) = std::fs::read_dir(std::env::temp_dir()) {
        for e in d.flatten() {
            if e.file_name().to_string_lossy().starts_with(&pre) {
                let _ = std::fs::remove_dir_all(e.path());
            }
        }
    }
}
pub fn with_path(b: &[u8], f: impl FnOnce(&std::path::Path) -> Result<(), String>) -> (Result<(), String>, Vec<u8>) {
    TMP.with(|p| {
        std::fs::write(p, b).unwrap();
        let r = f(p);
        let o = std::fs::read(p).unwrap();
        (r, o)
    })
}
pub fn with_cursor(b: &[u8], f: impl FnOnce(&mut Cursor<Vec<u8>>) -> Result<(), String>) -> (Result<(), String>, Vec<u8>) {
    let mut c = Cursor::new(b.to_vec());
    let r = f(&mut c);
    (r, c.into_inner())
}
/// Saves or removes one tag through an entry point.
pub fn go(e: Entry, b: &[u8], n: &N, o: WriteOptions) -> (Result<(), String>, Vec<u8>) {
    match e {
        Native => n.save2(b, o),
        NativePath => with_path(b, |p| n.save_path(p, o)),
        Generic => with_cursor(b, |c| n.clone().into_tag().save_to(c, o).map_err(er)),
        GenericPath => with_path(b, |p| n.clone().into_tag().save_to_path(p, o).map_err(er)),
        Tagged => {
            let Some(ty) = detect(b) else { return (Err("undetected".into()), b.to_vec()) };
            let t = lofty::file::TaggedFile::new(ty, Default::default(), vec![n.clone().into_tag()]);
            with_cursor(b, |c| AudioFile::save_to(&t, c, o).map_err(er))
        }
        Remove => remove(b, n.t(), o),
        RemovePath => with_path(b, |p| tt(n.t()).remove_from_path(p, o).map_err(er)),
        NativeRemove => with_cursor(b, |c| n.remove_from(c, o)),
    }
}
fn generic_content(n: &N) -> bool {
    !n.clone().into_tag().is_empty()
}
/// Content that the format cannot hold, and whether the generic tag carries it too.
pub fn unencodable(t: T, f: Fmt) -> Vec<(String, N)> {
    let mut v: Vec<(String, N)> = Vec::new();
    match t {
        T::Id3v2 => {
            let id = |s: &'static str| FrameId::new(s).unwrap();
            let mut add = |n: &str, fr: Frame<'static>| {
                let mut x = Id3v2Tag::new();
                x.insert(Frame::Text(TextInformationFrame::new(id("TALB"), TextEncoding::UTF8, "fine")));
                x.insert(fr);
                v.push((n.into(), N::Id3v2(x)));
            };
            let enc = TextEncoding::Latin1;
            add("latin1-text", Frame::Text(TextInformationFrame::new(id("TIT2"), enc, "\u{4e00}")));
            add("latin1-text-c1", Frame::Text(TextInformationFrame::new(id("TIT2"), enc, "a\u{100}")));
            add("latin1-txxx-desc", Frame::UserText(ExtendedTextFrame::new(enc, "\u{20ac}", "v")));
            add("latin1-txxx-val", Frame::UserText(ExtendedTextFrame::new(enc, "d", "\u{20ac}")));
            add("latin1-wxxx-desc", Frame::UserUrl(ExtendedUrlFrame::new(enc, "\u{20ac}", "v")));
            add("url", Frame::Url(UrlLinkFrame::new(id("WOAR"), "http://\u{20ac}")));
            add("wxxx-url", Frame::UserUrl(ExtendedUrlFrame::new(TextEncoding::UTF8, "d", "\u{20ac}")));
            add("latin1-comm", Frame::Comment(CommentFrame::new(enc, *b"eng", "", "\u{20ac}")));
            add("latin1-comm-desc", Frame::Comment(CommentFrame::new(enc, *b"eng", "\u{20ac}", "")));
            add("latin1-uslt", Frame::UnsynchronizedText(UnsynchronizedTextFrame::new(enc, *b"eng", "", "\u{20ac}")));
            for (i, l) in [*b"e1g", *b"\0\0\0", *b"en ", *b"en\xE9"].into_iter().enumerate() {
                add(&format!("lang{i}"), Frame::Comment(CommentFrame::new(enc, l, "", "x")));
                add(&format!("lang-uslt{i}"), Frame::UnsynchronizedText(UnsynchronizedTextFrame::new(enc, l, "", "x")));
            }
            add("latin1-tipl", Frame::KeyValue(KeyValueFrame::new(id("TIPL"), enc, vec![(Cow::Borrowed("r"), Cow::Borrowed("\u{20ac}"))])));
            add("latin1-pic-desc", Frame::Picture(AttachedPictureFrame::new(enc, p(PictureType::Other, Some(MimeType::Png), Some("\u{20ac}"), vec![1]))));
            add("text-under-wrong-id", Frame::Text(TextInformationFrame::new(id("WXYZ"), TextEncoding::UTF8, "x")));
            add("url-under-wrong-id", Frame::Url(UrlLinkFrame::new(id("TIT3"), "x")));
            add("keyvalue-under-wrong-id", Frame::KeyValue(KeyValueFrame::new(id("TIT1"), TextEncoding::UTF8, vec![])));
            add("text-under-comm", Frame::Text(TextInformationFrame::new(id("COMM"), TextEncoding::UTF8, "x")));
            add("priv-owner", Frame::Private(PrivateFrame::new("\u{20ac}", vec![1])));
            add("ufid-owner", Frame::UniqueFileIdentifier(UniqueFileIdentifierFrame::new("\u{20ac}", vec![1])));
            add("popm-mail", Frame::Popularimeter(PopularimeterFrame::new("\u{20ac}", 1, 1)));
            // symbols outside of the valid range
            for s in [0u8, 1, 0x7F, 0x80] {
                let mut fl = FrameFlags::default();
                fl.encryption = Some(s);
                fl.data_length_indicator = Some(5);
                add(&format!("encryption{s}"), Frame::Binary(BinaryFrame::new(id("ZZZZ"), vec![1, 2]).with(fl)));
            }
            let mut fl = FrameFlags::default();
            fl.encryption = Some(0x81);
            add("encryption-without-length", Frame::Binary(BinaryFrame::new(id("ZZZZ"), vec![1, 2]).with(fl)));
        }
        T::Vorbis => {
            let mut big = VorbisComments::default();
            let _ = big.insert_picture(p(PictureType::Other, Some(MimeType::Png), None, vec![7; 16_777_216]), Some(PictureInformation::default()));
            if f == Fmt::Flac {
                v.push(("flac-picture-16M".into(), N::Vorbis(big)));
                let mut x = VorbisComments::default();
                x.push("X".into(), "y".repeat(16_777_216));
                v.push(("flac-comment-16M".into(), N::Vorbis(x)));
                let mut x = VorbisComments::default();
                for i in 0..17 {
                    x.push("X".into(), format!("{i}{}", "y".repeat(1_000_000)));
                }
                v.push(("flac-comments-17M".into(), N::Vorbis(x)));
            }
        }
        T::AiffText => {
            for n in [65_536usize, 65_537, 131_073] {
                let mut x = AiffTextChunks::default();
                x.name = Some("n".into());
                x.comments = Some(vec![Comment { timestamp: 0, marker_id: 0, text: "c".repeat(n) }]);
                v.push((format!("comment{n}"), N::Aiff(x)));
            }
            let mut x = AiffTextChunks::default();
            x.comments = Some(vec![Comment { timestamp: 0, marker_id: 0, text: String::new() }; 65_536]);
            v.push(("comments65536".into(), N::Aiff(x)));
        }
        T::Ilst => {
            let mut x = Ilst::new();
            x.insert(Atom::new(AtomIdent::Fourcc(*b"\xa9nam"), AtomData::UTF8("fine".into())));
            x.insert(Atom::new(AtomIdent::Fourcc(*b"covr"), AtomData::Picture(p(PictureType::Other, Some(MimeType::Unknown("image/xyz".into())), None, vec![1, 2]))));
            v.push(("mime".into(), N::Ilst(x)));
            let mut x = Ilst::new();
            x.insert(Atom::new(AtomIdent::Fourcc(*b"covr"), AtomData::Picture(p(PictureType::Other, Some(MimeType::Tiff), None, vec![1, 2]))));
            v.push(("mime-tiff".into(), N::Ilst(x)));
        }
        T::Ape | T::RiffInfo | T::Id3v1 => {}
    }
    v
}
trait With {
    fn with(self, f: FrameFlags) -> Self;
}
impl With for BinaryFrame<'static> {
    fn with(mut self, f: FrameFlags) -> Self {
        self.set_flags(f);
        self
    }
}
fn targets(f: Fmt, all: bool) -> Vec<Layout> {
    let ls: Vec<Layout> = layouts(f, true).into_iter().filter(|l| l.core && l.bytes.len() < 6000).collect();
    let n = if all { ls.len() } else { ls.len().min(6) };
    let st = (ls.len() / n).max(1);
    ls.into_iter().step_by(st).collect()
}
fn verdict(cx: &Ctx, key: &str, e: Entry, b: &[u8], n: &N, o: WriteOptions, want_ok: Option<bool>) {
    cx.case(key, b);
    cx.eval(key);
    match guard(|| go(e, b, n, o)) {
        Err(p) => cx.violation(format!("{key}:panic"), p, vec![("in.bin", b)]),
        Ok((Ok(()), _)) if want_ok == Some(false) => cx.violation(format!("{key}:accepted"), "the save or removal should have been refused".to_string(), vec![("in.bin", b)]),
        Ok((Err(x), _)) if want_ok == Some(true) => cx.violation(format!("{key}:refused"), format!("a supported operation is refused: {x}"), vec![("in.bin", b)]),
        Ok((Err(x), out)) if out != b => cx.violation(format!("{key}:altered"), format!("the operation failed ({x}) but the file was changed: {} -> {} bytes", b.len(), out.len()), vec![("in.bin", b), ("out.bin", &out)]),
        Ok((r, out)) => {
            cx.outcome(&(key.split('/').next(), r.is_ok(), out == b, r.err()));
        }
    }
}
pub fn run(cx: &Ctx) -> i32 {
    // the table and every entry point
    let mut jobs: Vec<(String, Entry, Vec<u8>, N, Option<bool>)> = Vec::new();
    for f in ALL_FMT {
        for t in ALL_T {
            let (r, w) = support(f, t);
            let s = ft(f).tag_support(tt(t));
            cx.eval(&("table", f, t));
            if (s.is_readable(), s.is_writable()) != (r, w) {
                cx.violation(format!("table:{f:?}:{t:?}"), format!("FileType::tag_support says {s:?}, documented is readable={r} writable={w}"), vec![]);
            }
        }
        for l in targets(f, cx.thorough()) {
            if let Ok(mut tf) = read_tagged(f, &l.bytes, po()) {
                for t in ALL_T {
                    let (r, w) = support(f, t);
                    let s = tf.tag_support(tt(t));
                    cx.eval(&("table2", f, t, &l.name));
                    if (s.is_readable(), s.is_writable()) != (r, w) {
                        cx.violation(format!("table2:{f:?}:{t:?}"), format!("TaggedFile::tag_support says {s:?}"), vec![]);
                    }
                    let before = tf.contains_tag_type(tt(t));
                    tf.insert_tag(Tag::new(tt(t)));
                    if tf.contains_tag_type(tt(t)) != (r || before) {
                        cx.violation(format!("insert:{f:?}:{t:?}"), "TaggedFile::insert_tag does not follow the support table".to_string(), vec![]);
                    }
                }
            }
            for t in ALL_T {
                let (r, w) = support(f, t);
                for k in [K::A, K::E] {
                    for e in SAVES {
                        let want = match (k, e) {
                            // read-only tags in a collection are skipped, unsupported ones cannot be in it
                            (_, Tagged) => true,
                            (K::A, _) => w,
                            _ => r,
                        };
                        jobs.push((format!("{f:?}/{}:{t:?}:{k:?}:{e:?}", l.name), e, l.bytes.clone(), content(t, k), Some(want)));
                    }
                }
                for e in REMOVES {
                    jobs.push((format!("{f:?}/{}:{t:?}:{e:?}", l.name), e, l.bytes.clone(), content(t, K::A), Some(r)));
                }
            }
        }
        for t in writable(f) {
            let un = unencodable(t, f);
            for (i, l) in targets(f, cx.thorough()).into_iter().enumerate() {
                for (n, x) in &un {
                    if n.ends_with('M') && i > 1 {
                        continue;
                    }
                    for e in SAVES {
                        if matches!(e, Generic | GenericPath | Tagged) {
                            // the conversion may normalise the item away
                            if generic_content(x) {
                                jobs.push((format!("{f:?}/{}:{t:?}:unenc-{n}:{e:?}", l.name), e, l.bytes.clone(), x.clone(), None));
                            }
                            continue;
                        }
                        jobs.push((format!("{f:?}/{}:{t:?}:unenc-{n}:{e:?}", l.name), e, l.bytes.clone(), x.clone(), Some(false)));
                    }
                }
                // generic items that the native encoders have to refuse or drop
                for (gi, key) in [ItemKey::TrackTitle, ItemKey::RecordingDate, ItemKey::TrackNumber, ItemKey::Popularimeter, ItemKey::TrackArtistUrl, ItemKey::Comment].into_iter().enumerate() {
                    for (vi, val) in [ItemValue::Text("\u{1F600}\0x".into()), ItemValue::Locator("\u{20ac}".into()), ItemValue::Binary(vec![0xFF; 3]), ItemValue::Text(String::new()), ItemValue::Text("99999999999999999999".into())].into_iter().enumerate() {
                        let mut g = Tag::new(tt(t));
                        g.push_unchecked(TagItem::new(key, val));
                        let key = format!("{f:?}/{}:{t:?}:generic{gi}-{vi}", l.name);
                        if cx.skip(&key) {
                            continue;
                        }
                        cx.eval(&key);
                        match guard(|| with_cursor(&l.bytes, |c| g.save_to(c, wo()).map_err(er))) {
                            Err(p) => cx.violation(format!("{key}:panic"), p, vec![("in.bin", &l.bytes)]),
                            Ok((Err(x), out)) if out != l.bytes => cx.violation(format!("{key}:altered"), format!("the save failed ({x}) but the file was changed"), vec![("in.bin", &l.bytes), ("out.bin", &out)]),
                            _ => {}
                        }
                    }
                }
            }
        }
    }
    // targets that are no audio files at all
    for (n, b) in [("empty", vec![]), ("zeros", vec![0; 300]), ("text", b"hello world, this is not audio".to_vec()), ("id3only", v2("x", 10)), ("apeonly", crate::mk::ape_tag("x")), ("v1only", crate::mk::id3v1("a", "b", 1)), ("riffother", b"RIFF\x08\0\0\0AVI LIST".to_vec()), ("ogg-other", crate::mk::ogg_page(2, 0, 1, 0, &[b"\x80theora stuff"]))] {
        for t in ALL_T {
            for e in SAVES.into_iter().chain(REMOVES) {
                if e == Tagged {
                    continue;
                }
                jobs.push((format!("none/{n}:{t:?}:{e:?}"), e, b.clone(), content(t, K::A), Some(false)));
            }
        }
    }
    jobs.retain(|j| !cx.skip(&j.0));
    cx.states.store(jobs.len() as u64, Ordering::Relaxed);
    for j in jobs.iter().step_by((jobs.len() / 10).max(1)) {
        cx.sample(|| json!({"case": j.0, "file_bytes": j.2.len(), "expected_ok": j.4}));
    }
    cx.par(&jobs, |(k, e, b, n, w)| {
        verdict(cx, k, *e, b, n, wo().lossy_text_encoding(!k.contains(":unenc-")), *w);
        if k.contains(":unenc-") {
            // lossy encoding turns some of the refusals into replacements
            verdict(cx, &format!("{k}:lossy"), *e, b, n, wo(), None);
        }
    });
    // damaged targets
    let seeds = seeds(cx.q(4, 1), cx.thorough());
    let mut dj: Vec<(usize, usize, usize)> = Vec::new();
    for (i, s) in seeds.iter().enumerate() {
        if cx.skip(&s.name) {
            continue;
        }
        for (lo, hi) in &s.ranges {
            let mut a = *lo;
            while a < *hi {
                let e = (a + 16).min(*hi);
                dj.push((i, a, e));
                a = e;
            }
        }
    }
    let th = cx.thorough();
    cx.par(&dj, |(i, lo, hi)| {
        let s = &seeds[*i];
        let ts = writable(s.fmt);
        let cs: Vec<N> = ts.iter().map(|t| content(*t, K::B)).collect();
        let rs = readable(s.fmt);
        let mut n = 0u64;
        damage(&s.bytes, *lo, *hi, false, u8::from(th), |d, b| {
            if n % 32 == 0 {
                cx.case(&format!("{} {}", s.name, d()), b);
            }
            for x in &cs {
                n += 1;
                match guard(|| x.save2(b, wo())) {
                    Err(p) => {
                        let site = p.rsplit(" at ").next().unwrap_or("").to_string();
                        cx.violation(format!("damaged-panic:{site}"), format!("{}@{} saving {:?}: {p}", s.name, d(), x.t()), vec![("in.bin", b)]);
                    }
                    Ok((Err(e), out)) if out != b => cx.violation(format!("damaged-altered:{:?}:{:?}:{e}", s.fmt, x.t()), format!("{}@{}: saving failed ({e}) but the file was changed", s.name, d()), vec![("in.bin", b), ("out.bin", &out)]),
                    _ => {}
                }
            }
            for t in &rs {
                n += 1;
                match guard(|| remove(b, *t, wo())) {
                    Err(p) => {
                        let site = p.rsplit(" at ").next().unwrap_or("").to_string();
                        cx.violation(format!("damaged-panic:{site}"), format!("{}@{} removing {t:?}: {p}", s.name, d()), vec![("in.bin", b)]);
                    }
                    Ok((Err(e), out)) if out != b => cx.violation(format!("damaged-altered-rm:{:?}:{t:?}:{e}", s.fmt), format!("{}@{}: removing failed ({e}) but the file was changed", s.name, d()), vec![("in.bin", b), ("out.bin", &out)]),
                    _ => {}
                }
            }
        });
        cx.evals_add(n);
        cx.by_construction.fetch_add(n, Ordering::Relaxed);
    });
    cleanup();
    cx.finish(
        "exploration",
        "exhaustive enumeration of (file format x initial layout x tag type x empty/non-empty content x entry point) against an independently written support table, of (format x layout x unencodable content class x entry point), of non-audio targets, and of all single damages (truncations and byte edits) of the seed files followed by every save and removal; a failed operation has to leave the bytes identical, a refusal has to happen exactly where the table says",
        &["saves of a single tag; a collection of several tags is saved one tag after another", "the support table of the harness is written down from the documentation of the tag types"],
        false,
    )
}
