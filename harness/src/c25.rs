//! C25: ID3v1. The 128 bytes are compared with an independent encoder and decoder for every field value, position and combination.
use crate::api::*;
use crate::ctx::*;
use crate::layouts::*;
use crate::walk::*;
use lofty::config::{ParsingMode, WriteOptions};
use lofty::id3::v1::{GENRES, Id3v1Tag};
use lofty::tag::{Accessor, ItemKey, Tag, TagExt, TagType};
use serde_json::json;
use std::sync::atomic::Ordering;

const FMTS: [Fmt; 4] = [Fmt::Mpeg, Fmt::Aac, Fmt::Ape, Fmt::WavPack];

#[derive(Clone, Debug, PartialEq, Eq, Default)]
struct V {
    text: [Option<String>; 4], // title artist album comment
    year: Option<u16>,
    track: Option<u8>,
    genre: Option<u8>,
}
const LIM: [usize; 4] = [30, 30, 30, 28];
const AT: [usize; 4] = [3, 33, 63, 97];
fn real(v: &V) -> Id3v1Tag {
    Id3v1Tag {
        title: v.text[0].clone(),
        artist: v.text[1].clone(),
        album: v.text[2].clone(),
        comment: v.text[3].clone(),
        year: v.year,
        track_number: v.track,
        genre: v.genre,
    }
}
fn of(t: &Id3v1Tag) -> V {
    V { text: [t.title.clone(), t.artist.clone(), t.album.clone(), t.comment.clone()], year: t.year, track: t.track_number, genre: t.genre }
}
/// Independent encoder; None: the text cannot be expressed
fn encode(v: &V, lossy: bool) -> Option<[u8; 128]> {
    let mut b = [0u8; 128];
    b[..3].copy_from_slice(b"TAG");
    for i in 0..4 {
        for (j, c) in v.text[i].iter().flat_map(|s| s.chars()).take(LIM[i]).enumerate() {
            b[AT[i] + j] = match u8::try_from(u32::from(c)) {
                Ok(x) => x,
                Err(_) if lossy => b'?',
                Err(_) => return None,
            };
        }
    }
    if let Some(y) = v.year {
        b[93..97].copy_from_slice(format!("{:04}", y.min(9999)).as_bytes());
    }
    b[126] = v.track.unwrap_or(0);
    b[127] = v.genre.unwrap_or(255);
    Some(b)
}
/// Independent decoder
fn decode(b: &[u8; 128]) -> V {
    let txt = |r: &[u8]| {
        let s: String = r.iter().take_while(|x| **x != 0).map(|x| char::from(*x)).collect();
        (!s.is_empty()).then_some(s)
    };
    let v11 = b[125] == 0 && b[126] != 0;
    let y = &b[93..97];
    V {
        text: [txt(&b[3..33]), txt(&b[33..63]), txt(&b[63..93]), txt(&b[97..if v11 { 125 } else { 127 }])],
        year: y.iter().all(u8::is_ascii_digit).then(|| y.iter().fold(0, |a, d| a * 10 + u16::from(d - b'0'))),
        track: v11.then_some(b[126]),
        genre: (usize::from(b[127]) < GENRES.len()).then_some(b[127]),
    }
}
fn w(lossy: bool) -> WriteOptions {
    WriteOptions::new().lossy_text_encoding(lossy)
}
/// the tag as dumped
fn dumped(cx: &Ctx, key: &str, v: &V, lossy: bool) -> Option<[u8; 128]> {
    cx.evals_add(1);
    let want = encode(v, lossy);
    let mut got = Vec::new();
    let t = real(v);
    match (guard(|| t.dump_to(&mut got, w(lossy)).map_err(er)), want) {
        (Ok(Ok(())), Some(x)) if got == x => Some(x),
        (Ok(Err(_)), None) => None,
        (r, _) => {
            cx.violation(format!("encode:{key}"), format!("{v:?} lossy {lossy}: {r:?} {:?}", String::from_utf8_lossy(&got)), vec![("got.bin", &got)]);
            None
        }
    }
}
fn seed(f: Fmt) -> Vec<u8> {
    layouts(f, true).into_iter().find(|l| l.core && l.name != "bigaudio" && read(f, &l.bytes, po()).is_ok_and(|r| r.get(T::Id3v1).is_none())).unwrap().bytes
}
/// through a file: save, look at the bytes, read back, save over, remove
fn filed(cx: &Ctx, key: &str, f: Fmt, base: &[u8], v: &V, lossy: bool) {
    cx.evals_add(1);
    cx.case(key, base);
    let want = encode(v, lossy);
    let n = N::Id3v1(real(v));
    let (r, b) = n.save2(base, w(lossy));
    let fail = |what: String, b: &[u8]| cx.violation(format!("file:{f:?}:{key}"), format!("{v:?} lossy {lossy}: {what}"), vec![("base.bin", base), ("saved.bin", b)]);
    let Some(x) = want else {
        if r.is_ok() || b != base {
            fail(format!("not refused: {r:?}"), &b);
        }
        return;
    };
    let empty = n.is_empty();
    let exp = if empty { base.to_vec() } else { [base, &x[..]].concat() };
    if r.is_err() || b != exp {
        return fail(format!("{r:?}, {} bytes, expected {}", b.len(), exp.len()), &b);
    }
    if empty {
        return;
    }
    match guard(|| read(f, &b, po())) {
        Ok(Ok(r)) => match r.get(T::Id3v1) {
            Some(N::Id3v1(t)) if of(t) == decode(&x) => {}
            o => return fail(format!("read back as {o:?}"), &b),
        },
        o => return fail(format!("unreadable {o:?}"), &b),
    }
    let (r, c) = n.save2(&b, w(lossy));
    if r.is_err() || c != b {
        return fail(format!("saved again: {r:?}, {} bytes", c.len()), &c);
    }
    let (r, c) = remove(&b, T::Id3v1, wo());
    if r.is_err() || c != base {
        fail(format!("removed: {r:?}, {} bytes", c.len()), &c);
    }
}
/// Reading any 128 bytes behind the marker
fn parsed(cx: &Ctx, key: &str, base: &[u8], x: &[u8; 128]) {
    cx.evals_add(1);
    let b = [base, &x[..]].concat();
    for m in [ParsingMode::BestAttempt, ParsingMode::Relaxed, ParsingMode::Strict] {
        let bad = m == ParsingMode::Strict && !x[93..97].iter().all(u8::is_ascii_digit);
        match guard(|| read(Fmt::WavPack, &b, po_mode(m).read_properties(false))) {
            Ok(Ok(r)) if !bad => match r.get(T::Id3v1) {
                Some(N::Id3v1(t)) if of(t) == decode(x) => {}
                o => return cx.violation(format!("parse:{key}:{m:?}"), format!("{:?} read as {o:?}, expected {:?}", String::from_utf8_lossy(x), decode(x)), vec![("file.bin", &b)]),
            },
            Ok(Err(_)) if bad => {}
            o => return cx.violation(format!("parse:{key}:{m:?}:result"), format!("{:?}: {o:?}", String::from_utf8_lossy(x)), vec![("file.bin", &b)]),
        }
    }
}
fn full(salt: u8) -> V {
    let s = |n: usize, c: u8| Some((0..n).map(|i| char::from(c + ((i as u8 + salt) % 23))).collect::<String>());
    V { text: [s(30, b'A'), s(30, b'a'), s(30, 0xC0), s(28, b'0')], year: Some(1987), track: Some(200), genre: Some(7) }
}
fn accessors(cx: &Ctx) {
    let chk = |k: &str, ok: bool, what: String| {
        cx.evals_add(1);
        if !ok {
            cx.violation(format!("accessor:{k}"), what, vec![]);
        }
    };
    // the genre table is part of the format: spot-fixed ends of each extension
    for (i, n) in [(0usize, "Blues"), (79, "Hard Rock"), (80, "Folk"), (125, "Dance Hall"), (141, "Christian Rock"), (147, "Synthpop"), (191, "Psybient")] {
        chk("table", GENRES.get(i).is_some_and(|g| g.eq_ignore_ascii_case(n)), format!("genre {i} is {:?}", GENRES.get(i)));
    }
    chk("table", GENRES.len() == 192, "192 genres".into());
    for (i, g) in GENRES.iter().enumerate() {
        for s in [g.to_string(), g.to_uppercase(), g.to_lowercase()] {
            let mut t = Id3v1Tag::new();
            t.set_genre(s.clone());
            let first = GENRES.iter().position(|x| x.eq_ignore_ascii_case(g)).unwrap();
            chk("genre", t.genre.map(usize::from) == Some(first) && t.genre().as_deref() == Some(GENRES[first]), format!("set_genre({s:?}) gives {:?}", t.genre));
        }
        for s in [g.to_string(), i.to_string()] {
            let mut t = Tag::new(TagType::Id3v1);
            t.insert_text(ItemKey::Genre, s.clone());
            let n: Id3v1Tag = t.clone().into();
            let ok = n.genre.is_some_and(|x| GENRES[usize::from(x)] == *g);
            chk("fromtag", ok, format!("generic genre {s:?} becomes {:?}", n.genre));
            let back: Tag = n.into();
            chk("totag", back.get_string(ItemKey::Genre) == Some(*g), format!("genre {s:?} comes back as {:?}", back.get_string(ItemKey::Genre)));
            // saving the generic tag directly
            let mut d = Vec::new();
            let r = t.dump_to(&mut d, wo());
            chk("dump", r.is_ok() && d.len() == 128 && GENRES.get(usize::from(d[127])) == Some(g), format!("generic genre {s:?} dumps {:?}", d.last()));
        }
    }
    for s in ["192", "255", "256", "-1", "", "none of these", "Blues\0"] {
        let mut t = Tag::new(TagType::Id3v1);
        t.insert_text(ItemKey::Genre, s.into());
        t.insert_text(ItemKey::TrackTitle, "t".into());
        let n: Id3v1Tag = t.clone().into();
        chk("badgenre", n.genre.is_none(), format!("generic genre {s:?} becomes {:?}", n.genre));
        let mut n = Id3v1Tag::new();
        n.genre = Some(5);
        n.set_genre(s.into());
        chk("badgenre", matches!(n.genre, None | Some(5)), format!("set_genre({s:?}) gives {:?}", n.genre));
    }
    for v in (0..=70_000u32).chain([u32::MAX, u32::MAX - 255, 1 << 31]) {
        let mut t = Id3v1Tag::new();
        t.track_number = Some(9);
        t.set_track(v);
        let ok = if v < 256 { t.track() == Some(v) } else { matches!(t.track(), None | Some(9)) };
        chk("track", ok, format!("set_track({v}) gives {:?}", t.track()));
        let mut g = Tag::new(TagType::Id3v1);
        g.insert_text(ItemKey::TrackNumber, v.to_string());
        g.insert_text(ItemKey::TrackTitle, "t".into());
        let n: Id3v1Tag = g.clone().into();
        chk("fromtrack", n.track_number == u8::try_from(v).ok(), format!("generic track {v} becomes {:?}", n.track_number));
        let mut d = Vec::new();
        let r = g.dump_to(&mut d, wo());
        chk("dumptrack", r.is_ok() && d.len() == 128 && d[126] == u8::try_from(v).unwrap_or(0), format!("generic track {v} dumps {:?}", d.get(126)));
        let mut g = Tag::new(TagType::Id3v1);
        g.insert_text(ItemKey::Year, v.to_string());
        let n: Id3v1Tag = g.clone().into();
        if v <= 9999 {
            chk("fromyear", n.year.map(u32::from) == Some(v), format!("generic year {v} becomes {:?}", n.year));
            let b: Tag = n.into();
            chk("toyear", b.get_string(ItemKey::Year) == Some(&v.to_string()), format!("year {v} comes back as {:?}", b.get_string(ItemKey::Year)));
        }
    }
    for n in 0..80 {
        for c in ['a', 'é', '€', '🎵'] {
            let s: String = std::iter::repeat_n(c, n).collect();
            let mut t = Id3v1Tag::new();
            t.set_comment(s.clone());
            let got = t.comment().map(|x| x.to_string());
            chk("comment", got == Some(s.chars().take(28).collect()), format!("comment of {n} {c:?} becomes {got:?}"));
            for i in 0..3 {
                let mut t = Id3v1Tag::new();
                let g = match i {
                    0 => {
                        t.set_title(s.clone());
                        t.title()
                    }
                    1 => {
                        t.set_artist(s.clone());
                        t.artist()
                    }
                    _ => {
                        t.set_album(s.clone());
                        t.album()
                    }
                };
                let g = g.map(|x| x.to_string());
                chk("text", g.as_ref() == Some(&s), format!("text of {n} {c:?} becomes {g:?}"));
            }
        }
    }
}
pub fn run(cx: &Ctx) -> i32 {
    // values of single fields, beside full neighbours
    let mut vs: Vec<(String, V)> = Vec::new();
    for fi in 0..4 {
        for empty in [false, true] {
            let base = if empty { V::default() } else { full(1) };
            for n in 0..=64 {
                for c in ['a', 'ÿ', '\u{80}', '€', '🎵', '\u{100}'] {
                    let mut v = base.clone();
                    v.text[fi] = Some(std::iter::repeat_n(c, n).collect());
                    vs.push((format!("len:{fi}:{c:?}"), v));
                }
            }
            // each byte at each position
            for p in 0..34 {
                for c in 0..=255u8 {
                    let mut v = base.clone();
                    let mut s: Vec<char> = (0..34).map(|i| char::from(b'a' + i)).collect();
                    s[p] = char::from(c);
                    v.text[fi] = Some(s.into_iter().collect());
                    vs.push((format!("byte:{fi}"), v));
                }
                for c in ['Ā', '\u{2028}', '\u{FFFD}', '\u{FEFF}', '𝄞', '\u{10FFFF}', '\u{301}'] {
                    let mut v = base.clone();
                    let mut s: Vec<char> = (0..34).map(|i| char::from(b'a' + i)).collect();
                    s[p] = c;
                    v.text[fi] = Some(s.into_iter().collect());
                    vs.push((format!("wide:{fi}"), v));
                }
            }
        }
    }
    for y in 0..=u16::MAX {
        vs.push(("year".into(), V { year: Some(y), ..if y % 2 == 0 { full(2) } else { V::default() } }));
    }
    for t in 0..=255u8 {
        for g in 0..=255u8 {
            vs.push(("trackgenre".into(), V { track: Some(t), genre: Some(g), ..if g % 2 == 0 { full(3) } else { V::default() } }));
        }
    }
    // every presence combination, and every combination of short and full fields
    for m in 0..3u32.pow(4) * 8 {
        let f = full(4);
        let mut v = V::default();
        let mut k = m / 8;
        for i in 0..4 {
            v.text[i] = match k % 3 {
                0 => None,
                1 => Some("x".into()),
                _ => f.text[i].clone(),
            };
            k /= 3;
        }
        v.year = (m & 1 != 0).then_some(2024);
        v.track = (m & 2 != 0).then_some(32);
        v.genre = (m & 4 != 0).then_some(84);
        vs.push(("presence".into(), v));
    }
    cx.note("field_values", json!(vs.len()));
    for v in vs.iter().step_by(vs.len() / 8) {
        cx.sample(|| json!({"case": v.0, "value": format!("{:?}", v.1)}));
    }
    let bases: Vec<(Fmt, Vec<u8>)> = FMTS.iter().map(|f| (*f, seed(*f))).collect();
    let chunks: Vec<&[(String, V)]> = vs.chunks(512).collect();
    cx.par(&chunks, |c| {
        for (i, (k, v)) in c.iter().enumerate() {
            for lossy in [true, false] {
                dumped(cx, k, v, lossy);
                let heavy = k == "presence" || k.starts_with("len") || cx.thorough();
                for (j, (f, b)) in bases.iter().enumerate() {
                    if heavy || (i % 4 == j && (i / 4) % 4 == 0) {
                        filed(cx, k, *f, b, v, lossy);
                    }
                }
            }
            cx.by_construction.fetch_add(1, Ordering::Relaxed);
        }
    });
    // every scalar value in every field
    cx.par_range(0x11, |plane| {
        for c in (plane as u32 * 0x10000..(plane as u32 + 1) * 0x10000).filter_map(char::from_u32) {
            for lossy in [true, false] {
                let mut v = V::default();
                let f = (u32::from(c) % 4) as usize;
                v.text[f] = Some(format!("a{c}b"));
                dumped(cx, "scalar", &v, lossy);
            }
            cx.by_construction.fetch_add(1, Ordering::Relaxed);
        }
    });
    // reading: every byte value at every position, every comment end, every year
    let base = seed(Fmt::WavPack);
    let mut xs: Vec<(&str, [u8; 128])> = Vec::new();
    for tmpl in [encode(&full(5), true).unwrap(), encode(&V::default(), true).unwrap()] {
        for p in 3..128 {
            for b in 0..=255u8 {
                let mut x = tmpl;
                x[p] = b;
                xs.push(("byte", x));
            }
        }
        let some = [0u8, 1, 32, b'0', b'9', 255];
        for a in 0..=255u8 {
            for b in 0..=255u8 {
                if !cx.thorough() && !some.contains(&a) && !some.contains(&b) {
                    continue;
                }
                let mut x = tmpl;
                x[125] = a;
                x[126] = b;
                xs.push(("commentend", x));
                x[125] = a;
                x[124] = b;
                xs.push(("commentend", x));
            }
        }
    }
    let al = if cx.thorough() { &b"019 a\0-.\xff/:"[..] } else { b"09 a\0-/:" };
    let n = al.len();
    for i in 0..n.pow(4) {
        let mut x = encode(&full(5), true).unwrap();
        for j in 0..4 {
            x[93 + j] = al[i / n.pow(j as u32) % n];
        }
        xs.push(("year", x));
    }
    cx.note("parsed_tags", json!(xs.len()));
    let chunks: Vec<&[(&str, [u8; 128])]> = xs.chunks(512).collect();
    cx.par(&chunks, |c| {
        for (k, x) in c.iter() {
            parsed(cx, k, &base, x);
        }
        cx.by_construction.fetch_add(c.len() as u64, Ordering::Relaxed);
    });
    accessors(cx);
    cx.finish(
        "exploration",
        "every value of each field (all lengths, all bytes at all positions, all Unicode scalars, all years, all track x genre pairs, all presence combinations) is encoded by the real writer and compared byte for byte with an independent encoder, saved to every format that stores ID3v1, re-read and removed; every byte value at every position, every comment end and every year spelling is read and compared with an independent decoder",
        &["text behind a NUL inside a field is not part of what the field can hold", "strict mode refuses years that are not four digits (documented in the reader)"],
        false,
    )
}
