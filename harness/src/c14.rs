//! C14: parse options filter the result. Every input is read with every combination of options and the results are compared with each other.
use crate::api::*;
use crate::ctx::*;
use crate::walk::*;
use lofty::ape::ApeTag;
use lofty::config::{ParseOptions, ParsingMode};
use lofty::id3::v2::{Frame, Id3v2Tag};
use lofty::mp4::{AtomData, AtomIdent};
use lofty::ogg::OggPictureStorage;
use serde_json::json;
use std::sync::atomic::Ordering;

const MODES: [ParsingMode; 3] = [ParsingMode::Strict, ParsingMode::BestAttempt, ParsingMode::Relaxed];
const COVERS: [&str; 21] = [
    "other", "png icon", "icon", "front", "back", "leaflet", "media", "lead artist", "artist", "conductor", "band", "composer", "lyricist", "recording location", "during recording", "during performance", "video capture", "fish", "illustration", "band logotype", "publisher logotype",
];
fn is_cover(key: &str) -> bool {
    let k = key.to_ascii_lowercase();
    k.strip_prefix("cover art (").and_then(|k| k.strip_suffix(')')).is_some_and(|k| COVERS.contains(&k))
}
/// An encrypted picture is still a picture
fn is_picture(f: &Frame<'_>) -> bool {
    matches!(f.id().as_str(), "APIC")
}
/// The lenient modes look for a tag inside junk before the first frame
fn junk_tag(f: Fmt, strict: &[String], lenient: &[String]) -> bool {
    let id3 = |v: &[String]| v.iter().any(|t| t.starts_with("Id3v2"));
    f == Fmt::Mpeg && !id3(strict) && id3(lenient) && lenient.iter().filter(|t| !t.starts_with("Id3v2")).eq(strict)
}
/// The content of a tag without its cover art, `None` when nothing is left
fn without_covers(f: Fmt, n: &N) -> Option<String> {
    let had = !n.is_empty();
    let n = match n.clone() {
        N::Id3v2(t) => {
            let mut u = Id3v2Tag::new();
            u.set_flags(*t.flags());
            let keep: Vec<Frame<'static>> = t.into_iter().filter(|f| !is_picture(f)).collect();
            // `insert` would replace frames, the order of `keep` is that of the file
            let mut s = format!("{:?} ", u.flags());
            for f in &keep {
                s.push_str(&strip_children(&N::Id3v2({
                    let mut one = Id3v2Tag::new();
                    one.insert(f.clone());
                    one
                })));
            }
            return (!keep.is_empty()).then_some(s);
        }
        N::Ape(t) => {
            let mut u = ApeTag::default();
            u.read_only = t.read_only;
            for i in t {
                if !is_cover(i.key()) {
                    u.insert(i);
                }
            }
            N::Ape(u)
        }
        N::Vorbis(mut t) => {
            t.remove_pictures();
            N::Vorbis(t)
        }
        N::Ilst(mut t) => {
            // `covr` holds cover art whatever its type
            t.retain(|a| *a.ident() != AtomIdent::Fourcc(*b"covr") && !matches!(a.data().next(), Some(AtomData::Picture(_))));
            N::Ilst(t)
        }
        n => n,
    };
    if had && n.is_empty() && (f == Fmt::Flac || !matches!(n, N::Vorbis(_))) {
        return None;
    }
    Some(n.sig())
}
fn covers(n: &N) -> usize {
    fn frames<'a>(it: impl Iterator<Item = &'a Frame<'static>>) -> usize {
        it.map(|f| match f {
            f if is_picture(f) => 1,
            Frame::Chapter(c) => c.children.clone().into_iter().filter(|f| is_picture(f)).count(),
            Frame::TableOfContents(c) => c.children.clone().into_iter().filter(|f| is_picture(f)).count(),
            _ => 0,
        })
        .sum()
    }
    match n {
        N::Id3v2(t) => frames(t.into_iter()),
        N::Ape(t) => t.clone().into_iter().filter(|i| is_cover(i.key())).count(),
        N::Vorbis(t) => t.pictures().len(),
        N::Ilst(t) => t.into_iter().filter(|a| *a.ident() == AtomIdent::Fourcc(*b"covr")).count(),
        _ => 0,
    }
}
/// Chapters hold frames of their own
fn strip_children(n: &N) -> String {
    let N::Id3v2(t) = n else { return n.sig() };
    match t.into_iter().next() {
        Some(Frame::Chapter(c)) => format!("CHAP {:?} {:?} {:?}[{}]", c.id, c.times, c.offsets, children(c.children.clone().into_iter())),
        Some(Frame::TableOfContents(c)) => format!("CTOC {:?} {:?} {:?}[{}]", c.id, c.flags, c.entries, children(c.children.clone().into_iter())),
        _ => n.sig(),
    }
}
fn children(it: impl Iterator<Item = Frame<'static>>) -> String {
    it.filter(|f| !is_picture(f)).map(|f| format!("{f:?}")).collect::<Vec<_>>().join(",")
}
struct R {
    props: String,
    full: Vec<String>,
    bare: Vec<String>,
    covers: usize,
}
fn get(f: Fmt, b: &[u8], o: ParseOptions) -> Result<R, String> {
    let x = guard(|| read(f, b, o)).map_err(|p| format!("PANIC {p}"))??;
    // The brand of an MP4 file is read with or without properties
    let mut props = x.props.clone();
    if let (Fmt::Mp4, Some(at)) = (f, props.find(", ftyp")) {
        props.truncate(at);
    }
    // an absent tag and an empty tag are the same content; an Ogg file always has comments
    let ogg = matches!(f, Fmt::Opus | Fmt::Vorbis | Fmt::Speex);
    let there = |v: &'_ [N]| v.iter().filter(|t| !t.is_empty() || ogg && matches!(t, N::Vorbis(_))).cloned().collect::<Vec<_>>();
    let tags = there(&x.tags);
    Ok(R {
        covers: tags.iter().map(covers).sum(),
        props,
        full: tags.iter().map(|t| t.sig()).collect(),
        bare: tags.iter().filter_map(|t| without_covers(f, t)).collect(),
    })
}
fn diff(a: &[String], b: &[String]) -> String {
    for i in 0..a.len().max(b.len()) {
        let (x, y) = (a.get(i).map_or("-", |s| s), b.get(i).map_or("-", |s| s));
        if x != y {
            let at = x.bytes().zip(y.bytes()).take_while(|(p, q)| p == q).count().saturating_sub(60);
            let cut = |s: &str| s.get(at.min(s.len())..).unwrap_or(s).chars().take(160).collect::<String>();
            return format!("{} | instead of | {}", cut(x), cut(y));
        }
    }
    String::new()
}
/// The properties of a file whose properties were not read, per format
fn no_props(f: Fmt) -> String {
    use lofty::properties::FileProperties;
    let _ = FileProperties::default();
    match f {
        Fmt::Aac => format!("{:?}", lofty::aac::AACProperties::default()),
        Fmt::Aiff => format!("{:?}", lofty::iff::aiff::AiffProperties::default()),
        Fmt::Ape => format!("{:?}", lofty::ape::ApeProperties::default()),
        Fmt::Flac => format!("{:?}", lofty::flac::FlacProperties::default()),
        Fmt::Mpeg => format!("{:?}", lofty::mpeg::MpegProperties::default()),
        Fmt::Mp4 => format!("{:?}", lofty::mp4::Mp4Properties::default()).split(", ftyp").next().unwrap_or("").to_string(),
        Fmt::Mpc => String::new(),
        Fmt::Opus => format!("{:?}", lofty::ogg::OpusProperties::default()),
        Fmt::Vorbis => format!("{:?}", lofty::ogg::VorbisProperties::default()),
        Fmt::Speex => format!("{:?}", lofty::ogg::SpeexProperties::default()),
        Fmt::Wav => format!("{:?}", lofty::iff::wav::WavProperties::default()),
        Fmt::WavPack => format!("{:?}", lofty::wavpack::WavPackProperties::default()),
    }
}
/// Musepack has properties per stream version: nothing but zeroes
fn unset(p: &str) -> bool {
    !p.replace("Sv7", "").replace("Sv8", "").replace("Sv4to6", "").bytes().any(|b| (b'1'..=b'9').contains(&b))
}
/// An Ogg file without comments
fn no_tags(f: Fmt, r: &R) -> bool {
    match f {
        Fmt::Opus | Fmt::Vorbis | Fmt::Speex => r.bare == [N::Vorbis(Default::default()).sig()] && r.full == r.bare,
        _ => r.full.is_empty(),
    }
}
fn one(cx: &Ctx, name: &str, at: &dyn Fn() -> String, f: Fmt, b: &[u8], none: &[String]) {
    let mut fulls: Vec<Option<R>> = Vec::new();
    let mut bits = 0u32;
    let mut n = 0;
    for (mi, m) in MODES.into_iter().enumerate() {
        let base = po_mode(m);
        n += 1;
        let full = match get(f, b, base) {
            Ok(r) => r,
            Err(_) => {
                fulls.push(None);
                continue;
            }
        };
        bits |= 1 << mi;
        for c in 1..8u8 {
            let (p, t, a) = (c & 1 == 0, c & 2 == 0, c & 4 == 0);
            n += 1;
            let what = || format!("{name} @{}: {m:?}, properties {p}, tags {t}, covers {a}", at());
            let key = |k: &str| format!("{k}:{f:?}:{}{}{}:{}", u8::from(p), u8::from(t), u8::from(a), name.split(':').next().unwrap_or(""));
            let r = match get(f, b, ParseOptions::read_properties(&mut base.clone(), p).read_tags(t).read_cover_art(a)) {
                Ok(r) => r,
                Err(e) => {
                    cx.violation(key("refused"), format!("{}: refused ({e}), but read with everything on", what()), vec![("in.bin", b)]);
                    continue;
                }
            };
            if p && r.props != full.props {
                cx.violation(key("props"), format!("{}: properties {} instead of {}", what(), r.props, full.props), vec![("in.bin", b)]);
            }
            if !p && r.props != none[f as usize] && !(f == Fmt::Mpc && unset(&r.props)) {
                cx.violation(key("props-on"), format!("{}: properties {}", what(), r.props), vec![("in.bin", b)]);
            }
            if !t && !no_tags(f, &r) {
                cx.violation(key("tags-on"), format!("{}: tags {}", what(), diff(&r.full, &[])), vec![("in.bin", b)]);
            }
            if t && a && r.full != full.full {
                cx.violation(key("tags"), format!("{}: {}", what(), diff(&r.full, &full.full)), vec![("in.bin", b)]);
            }
            if t && !a && r.bare != full.bare {
                cx.violation(key("rest"), format!("{}: {}", what(), diff(&r.bare, &full.bare)), vec![("in.bin", b)]);
            }
            if (!t || !a) && r.covers != 0 {
                cx.violation(key("covers-on"), format!("{}: {} pictures are there", what(), r.covers), vec![("in.bin", b)]);
            }
        }
        // The junk limit and implicit conversions are about tags, and about what stands around them
        n += 1;
        match get(f, b, po_mode(m).implicit_conversions(false)) {
            Ok(r) if r.props == full.props => {}
            Ok(r) => cx.violation(format!("implicit:{f:?}"), format!("{name} @{}: {m:?}, without implicit conversions: properties {} instead of {}", at(), r.props, full.props), vec![("in.bin", b)]),
            // An invalid date frame may only have been dropped because the frame was combined with others
            Err(_) if name.starts_with("damage") => {}
            Err(e) => cx.violation(format!("implicit-refused:{f:?}:{name}"), format!("{name} @{}: {m:?}, without implicit conversions: refused ({e})", at()), vec![("in.bin", b)]),
        }
        fulls.push(Some(full));
    }
    for (i, j) in [(0, 1), (1, 2)] {
        let Some(x) = &fulls[i] else { continue };
        let key = |k: &str| format!("{k}:{f:?}:{i}{j}:{}", name.split(':').next().unwrap_or(""));
        match &fulls[j] {
            None => cx.violation(key("mode-refused"), format!("{name} @{}: {:?} accepts what {:?} refuses", at(), MODES[i], MODES[j]), vec![("in.bin", b)]),
            Some(y) if x.props != y.props => cx.violation(key("mode-props"), format!("{name} @{}: properties in {:?}: {}, in {:?}: {}", at(), MODES[i], x.props, MODES[j], y.props), vec![("in.bin", b)]),
            // What strict parsing accepts; the lenient modes may differ in what they drop
            Some(y) if i == 0 && x.full != y.full && !junk_tag(f, &x.full, &y.full) => {
                cx.violation(key("mode-tags"), format!("{name} @{}: {:?} differs from {:?}: {}", at(), MODES[i], MODES[j], diff(&x.full, &y.full)), vec![("in.bin", b)])
            }
            _ => {}
        }
    }
    if let (Some(x), Some(y)) = (&fulls[0], &fulls[2]) {
        if x.full != y.full && !junk_tag(f, &x.full, &y.full) || x.props != y.props {
            cx.violation(format!("mode-relaxed:{f:?}:{}", name.split(':').next().unwrap_or("")), format!("{name} @{}: Relaxed differs from Strict: {}", at(), diff(&y.full, &x.full)), vec![("in.bin", b)]);
        }
    }
    cx.evals.fetch_add(n, Ordering::Relaxed);
    cx.eval(&(f as u8, bits, fulls.iter().map(|r| r.as_ref().map(|r| h64(&(&r.props, &r.full)))).collect::<Vec<_>>()));
}
/// Files with several kinds of tags, pictures and audio after them
fn rich_files(full: bool) -> Vec<(String, Fmt, Vec<u8>)> {
    let mut v = Vec::new();
    for f in ALL_FMT {
        for l in crate::layouts::layouts(f, full) {
            v.push((format!("layout:{}", l.name), f, l.bytes.clone()));
            for t in writable(f) {
                for (i, n) in crate::contents::rich_list(t).iter().enumerate() {
                    if let Ok(b) = n.save(&l.bytes, crate::contents::opts(64)) {
                        v.push((format!("rich:{}:{t:?}:{i}", l.name), f, b));
                    }
                    if !full {
                        break;
                    }
                }
            }
        }
    }
    v
}
pub fn run(cx: &Ctx) -> i32 {
    let none: Vec<String> = {
        let mut v = vec![String::new(); 16];
        for f in ALL_FMT {
            v[f as usize] = no_props(f);
        }
        v
    };
    let rich = rich_files(cx.thorough());
    cx.par(&rich, |(name, f, b)| {
        cx.case(name, b);
        one(cx, name, &|| "whole".into(), *f, b, &none);
    });
    cx.note("rich files", json!(rich.len()));
    // every short body of every item kind
    let fams = crate::bodies::families(cx.q(2, 3));
    let jobs: Vec<(usize, usize)> = fams.iter().enumerate().flat_map(|(i, f)| (0..f.bodies.len()).step_by(256).map(move |j| (i, j))).collect();
    cx.par(&jobs, |(i, j)| {
        let fam = &fams[*i];
        for body in fam.bodies.iter().skip(*j).take(256) {
            let b = (fam.build)(body);
            cx.case(&fam.name, &b);
            one(cx, &fam.name, &|| format!("{body:02x?}"), fam.fmt, &b, &none);
        }
    });
    cx.note("item kinds with every short body", json!(fams.len()));
    // damaged files
    let seeds = crate::seeds::seeds(1, true);
    let step = cx.q(6, 1);
    let mut jobs = Vec::new();
    for (i, s) in seeds.iter().enumerate() {
        for (a, e) in &s.ranges {
            for lo in (*a..*e).step_by(64) {
                if (lo / 64 + i) % step == 0 {
                    jobs.push((i, lo, (lo + 64).min(*e)));
                }
            }
        }
    }
    cx.par(&jobs, |(i, lo, hi)| {
        let s = &seeds[*i];
        crate::c01::damage(&s.bytes, *lo, *hi, false, 0, |at, b| {
            if cx.too_many() {
                return;
            }
            cx.case(&s.name, b);
            one(cx, &format!("damage:{}", s.name), at, s.fmt, b, &none);
        });
    });
    cx.note("damaged seeds", json!(seeds.len()));
    cx.finish(
        "exploration",
        "every file (all layouts with every writable rich tag, every short body of every item kind, every truncation and byte substitution of the seeds) is read in all three modes with all eight combinations of tags, properties and cover art on or off, and without implicit conversions; what remains must equal the full result, what is off must be absent, and what strict parsing accepts must be the same in the lenient modes",
        &["an absent tag and an empty tag are the same content", "a file refused with everything on may be read with a part off", "cover art: attached pictures, FLAC pictures, covr atoms and the APE cover art keys"],
        true,
    )
}
