//! C13: accessors and collections behave like a map. Every sequence of calls up to a depth, from empty and populated tags, runs on the real tag
//! and on an independent list model side by side; after every call the results, all getters and the raw contents are compared.
use crate::ctx::*;
use crate::rich;
use lofty::id3::v2::FrameFlags;
use lofty::TextEncoding;
use lofty::ape::{ApeItem, ApeTag};
use lofty::id3::v1::Id3v1Tag;
use lofty::id3::v2::{
    AttachedPictureFrame, BinaryFrame, CommentFrame, ExtendedTextFrame, ExtendedUrlFrame, Frame, FrameId, Id3v2Tag, KeyValueFrame, PopularimeterFrame,
    PrivateFrame, TextInformationFrame, TimestampFrame, UniqueFileIdentifierFrame, UrlLinkFrame,
};
use lofty::iff::aiff::AiffTextChunks;
use lofty::iff::wav::RiffInfoList;
use lofty::mp4::{AdvisoryRating, Atom, AtomData, AtomIdent, Ilst};
use lofty::ogg::OggPictureStorage;
use lofty::ogg::tag::VorbisComments;
use lofty::picture::{MimeType, Picture, PictureInformation, PictureType};
use lofty::tag::items::{Lang, Timestamp};
use lofty::tag::{Accessor, ItemKey, ItemValue, Tag, TagExt, TagItem, TagType};
use serde_json::json;
use std::borrow::Cow;
use std::collections::HashSet;
use std::fmt::Debug;
use std::sync::Mutex;
use std::sync::atomic::Ordering;

/// The ten accessor fields as one value
#[derive(Clone, Debug, PartialEq, Eq, Default)]
struct Acc {
    text: [Option<String>; 5], // artist title album genre comment
    num: [Option<u32>; 4],     // track, total, disk, total
    date: Option<String>,
}
fn acc(t: &dyn Accessor) -> Acc {
    let s = |c: Option<Cow<'_, str>>| c.map(|c| c.to_string());
    Acc {
        text: [s(t.artist()), s(t.title()), s(t.album()), s(t.genre()), s(t.comment())],
        num: [t.track(), t.track_total(), t.disk(), t.disk_total()],
        date: t.date().map(|d| d.to_string()),
    }
}
const TEXT: [&str; 5] = ["artist", "title", "album", "genre", "comment"];
const NUM: [&str; 4] = ["track", "track_total", "disk", "disk_total"];
fn set_text(t: &mut dyn Accessor, i: usize, v: &str) {
    let v = v.to_string();
    match i {
        0 => t.set_artist(v),
        1 => t.set_title(v),
        2 => t.set_album(v),
        3 => t.set_genre(v),
        _ => t.set_comment(v),
    }
}
fn remove_text(t: &mut dyn Accessor, i: usize) {
    match i {
        0 => t.remove_artist(),
        1 => t.remove_title(),
        2 => t.remove_album(),
        3 => t.remove_genre(),
        _ => t.remove_comment(),
    }
}
fn set_num(t: &mut dyn Accessor, i: usize, v: u32) {
    match i {
        0 => t.set_track(v),
        1 => t.set_track_total(v),
        2 => t.set_disk(v),
        _ => t.set_disk_total(v),
    }
}
fn remove_num(t: &mut dyn Accessor, i: usize) {
    match i {
        0 => t.remove_track(),
        1 => t.remove_track_total(),
        2 => t.remove_disk(),
        _ => t.remove_disk_total(),
    }
}
fn ts(s: &str) -> Timestamp {
    let mut p = s.split('-').map(|x| x.parse::<u16>().unwrap());
    Timestamp { year: p.next().unwrap(), month: p.next().map(|x| x as u8), day: p.next().map(|x| x as u8), ..Default::default() }
}
/// A picture of a type, told apart by one byte
fn pic(ty: PictureType, n: u8) -> Picture {
    Picture::unchecked(vec![n; 3]).pic_type(ty).mime_type(MimeType::Png).build()
}
fn pics(p: &Picture) -> String {
    format!("{:?}#{}", p.pic_type(), p.data().first().copied().unwrap_or(0))
}

/// What is compared after a call: the accessors, the raw contents and every other getter
#[derive(Clone, Debug, PartialEq, Eq, Default)]
struct Obs {
    acc: Acc,
    raw: Vec<(String, String)>,
    len: usize,
    empty: bool,
    more: Vec<String>,
}
/// Order is kept between entries with the same key only
fn grouped(mut v: Vec<(String, String)>) -> Vec<(String, String)> {
    v.sort_by(|a, b| a.0.cmp(&b.0));
    v
}
type Call<X> = Box<dyn Fn(&mut X) -> String + Send + Sync>;
struct Op<T, M> {
    name: String,
    real: Call<T>,
    model: Call<M>,
}
fn op<T, M>(name: impl Into<String>, real: impl Fn(&mut T) -> String + Send + Sync + 'static, model: impl Fn(&mut M) -> String + Send + Sync + 'static) -> Op<T, M> {
    Op { name: name.into(), real: Box::new(real), model: Box::new(model) }
}
/// The calls of [`Accessor`]; the model side is given by three functions
fn accessor_ops<T: Accessor + 'static, M: 'static>(
    texts: &[&str],
    nums: &[u32],
    dates: &[&str],
    mt: fn(&mut M, usize, Option<&str>),
    mn: fn(&mut M, usize, Option<u32>),
    md: fn(&mut M, Option<&str>),
) -> Vec<Op<T, M>> {
    let mut v = Vec::new();
    for i in 0..5 {
        for s in texts.iter().map(|s| s.to_string()) {
            let s2 = s.clone();
            v.push(op(
                format!("set_{}({s:?})", TEXT[i]),
                move |t: &mut T| {
                    set_text(t, i, &s);
                    String::new()
                },
                move |m: &mut M| {
                    mt(m, i, Some(&s2));
                    String::new()
                },
            ));
        }
        v.push(op(
            format!("remove_{}", TEXT[i]),
            move |t: &mut T| {
                remove_text(t, i);
                String::new()
            },
            move |m: &mut M| {
                mt(m, i, None);
                String::new()
            },
        ));
    }
    for i in 0..4 {
        for n in nums.to_vec() {
            v.push(op(
                format!("set_{}({n})", NUM[i]),
                move |t: &mut T| {
                    set_num(t, i, n);
                    String::new()
                },
                move |m: &mut M| {
                    mn(m, i, Some(n));
                    String::new()
                },
            ));
        }
        v.push(op(
            format!("remove_{}", NUM[i]),
            move |t: &mut T| {
                remove_num(t, i);
                String::new()
            },
            move |m: &mut M| {
                mn(m, i, None);
                String::new()
            },
        ));
    }
    for d in dates.iter().map(|s| s.to_string()) {
        let d2 = d.clone();
        v.push(op(
            format!("set_date({d})"),
            move |t: &mut T| {
                t.set_date(ts(&d));
                String::new()
            },
            move |m: &mut M| {
                md(m, Some(&d2));
                String::new()
            },
        ));
    }
    v.push(op(
        "remove_date",
        move |t: &mut T| {
            t.remove_date();
            String::new()
        },
        move |m: &mut M| {
            md(m, None);
            String::new()
        },
    ));
    v
}

/// Every sequence of calls up to `depth`, merging sequences that lead to the same state
fn explore<T: Clone + Send + Sync, M: Clone + Debug + Send + Sync>(
    ctx: &Ctx,
    name: &str,
    starts: Vec<(&str, T, M)>,
    ops: Vec<Op<T, M>>,
    obs: impl Fn(&T) -> Obs + Sync,
    mobs: impl Fn(&M) -> Obs + Sync,
    depth: usize,
    max_states: usize,
) {
    let seen = Mutex::new(HashSet::new());
    let mut front: Vec<(T, M, Vec<u16>, usize)> = Vec::new();
    for (i, (s, t, m)) in starts.iter().enumerate() {
        if obs(t) != mobs(m) {
            ctx.violation(&format!("{name}:start:{s}"), &format!("{:?} instead of {:?}", obs(t), mobs(m)), vec![]);
            continue;
        }
        seen.lock().unwrap().insert(h64(&format!("{m:?}")));
        front.push((t.clone(), m.clone(), Vec::new(), i));
    }
    let mut total = front.len();
    let mut reached = 0;
    for d in 1..=depth {
        let next = Mutex::new(Vec::new());
        ctx.par(&front, |(t, m, path, s)| {
            for (k, o) in ops.iter().enumerate() {
                if ctx.too_many() {
                    return;
                }
                let (mut t2, mut m2) = (t.clone(), m.clone());
                let word = || path.iter().map(|p| ops[usize::from(*p)].name.as_str()).chain([o.name.as_str()]).collect::<Vec<_>>().join("; ");
                ctx.transitions.fetch_add(1, Ordering::Relaxed);
                ctx.traces.fetch_add(1, Ordering::Relaxed);
                let want = (o.model)(&mut m2);
                let (got, ob) = match guard(|| {
                    let r = (o.real)(&mut t2);
                    let ob = obs(&t2);
                    (r, ob)
                }) {
                    Ok(x) => x,
                    Err(e) => {
                        ctx.violation(&format!("{name}:{}:panic", o.name), &format!("from {}: {} panics: {e}", starts[*s].0, word()), vec![]);
                        continue;
                    },
                };
                let mo = mobs(&m2);
                let bad = if got != want {
                    Some(("result", format!("returned {got:?} instead of {want:?}")))
                } else if ob.acc != mo.acc {
                    Some(("accessor", format!("accessors {:?} instead of {:?}", ob.acc, mo.acc)))
                } else if ob.raw != mo.raw {
                    Some(("contents", format!("contents {:?} instead of {:?}", ob.raw, mo.raw)))
                } else if ob != mo {
                    Some(("getter", format!("{:?} instead of {:?}", (&ob.more, ob.len, ob.empty), (&mo.more, mo.len, mo.empty))))
                } else {
                    None
                };
                if let Some((kind, what)) = bad {
                    ctx.violation(&format!("{name}:{}:{kind}", o.name), &format!("from {}: after {}: {what}", starts[*s].0, word()), vec![]);
                    continue;
                }
                let h = h64(&format!("{m2:?}"));
                if d < depth && seen.lock().unwrap().insert(h) {
                    let mut p = path.clone();
                    p.push(k as u16);
                    next.lock().unwrap().push((t2, m2, p, *s));
                } else if d == depth {
                    seen.lock().unwrap().insert(h);
                }
            }
        });
        reached = d;
        front = next.into_inner().unwrap();
        // The parallel order must not decide which states are explored
        front.sort_by(|a, b| a.2.cmp(&b.2));
        total += front.len();
        if front.is_empty() {
            break;
        }
        if total + front.len() * ops.len() > max_states * ops.len() {
            break;
        }
    }
    let n = seen.lock().unwrap().len() as u64;
    ctx.states.fetch_add(n, Ordering::Relaxed);
    ctx.outcome(&format!("{name}: {} calls, every sequence up to {reached}, {n} states", ops.len()));
    ctx.sample(|| json!({"tag": name, "starts": starts.iter().map(|s| s.0).collect::<Vec<_>>(), "calls": ops.len(), "depth": reached, "states": n, "a state": starts.first().map(|s| format!("{:?}", s.2))}));
}

// ---------------------------------------------------------------- text lists (Vorbis comments, RIFF INFO)
#[derive(Clone, Debug, Default)]
struct ML {
    items: Vec<(String, String)>,
    pics: Vec<(PictureType, u8)>,
}
impl ML {
    fn get(&self, k: &str) -> Option<&str> {
        self.items.iter().find(|i| i.0.eq_ignore_ascii_case(k)).map(|i| &*i.1)
    }
    fn all(&self, k: &str) -> Vec<String> {
        self.items.iter().filter(|i| i.0.eq_ignore_ascii_case(k)).map(|i| i.1.clone()).collect()
    }
    fn del(&mut self, k: &str) -> Vec<String> {
        let r = self.all(k);
        self.items.retain(|i| !i.0.eq_ignore_ascii_case(k));
        r
    }
    fn set(&mut self, k: &str, v: &str) {
        self.del(k);
        self.items.push((k.into(), v.into()));
    }
    fn raw(&self) -> Vec<(String, String)> {
        // The keys are told apart without case, but kept as they are
        grouped(self.items.iter().map(|(k, v)| (k.to_ascii_uppercase(), format!("{k}={v}"))).collect())
    }
}
/// A date as the accessor shows it: what doesn't parse is absent
fn mdate(s: Option<&str>) -> Option<String> {
    s.filter(|s| s.len() >= 4 && s.bytes().all(|b| b.is_ascii_digit() || b == b'-')).map(String::from)
}
const VT: [&str; 5] = ["ARTIST", "TITLE", "ALBUM", "GENRE", "COMMENT"];
const VN: [&[&str]; 4] = [&["TRACKNUMBER", "TRACKNUM"], &["TRACKTOTAL", "TOTALTRACKS"], &["DISCNUMBER"], &["DISCTOTAL", "TOTALDISCS"]];
fn vorbis(ctx: &Ctx) {
    let mobs = |m: &ML| {
        let num = |i: usize| VN[i].iter().find_map(|k| m.get(k)).and_then(|v| v.parse().ok());
        Obs {
            acc: Acc {
                text: std::array::from_fn(|i| m.get(VT[i]).map(String::from)),
                num: std::array::from_fn(num),
                date: mdate(m.get("DATE").or(m.get("YEAR"))),
            },
            raw: m.raw(),
            len: m.items.len() + m.pics.len(),
            empty: m.items.is_empty() && m.pics.is_empty(),
            more: [
                m.pics.iter().map(|p| format!("{:?}#{}", p.0, p.1)).collect::<Vec<_>>().join(","),
                format!("{:?} {:?} {}", m.get("tItLe"), m.all("title"), m.get("Title").is_some()),
                format!("{:?} {:?}", m.get("CUSTOM"), m.all("custom")),
            ]
            .to_vec(),
        }
    };
    let obs = |t: &VorbisComments| Obs {
        acc: acc(t),
        raw: grouped(t.items().map(|(k, v)| (k.to_ascii_uppercase(), format!("{k}={v}"))).collect()),
        len: t.len(),
        empty: t.is_empty(),
        more: [
            t.pictures().iter().map(|p| pics(&p.0)).collect::<Vec<_>>().join(","),
            format!("{:?} {:?} {}", t.get("tItLe"), t.get_all("title").collect::<Vec<_>>(), t.contains("Title")),
            format!("{:?} {:?}", t.get("CUSTOM"), t.get_all("custom").collect::<Vec<_>>()),
        ]
        .to_vec(),
    };
    let mut ops: Vec<Op<VorbisComments, ML>> = accessor_ops(
        &["a", ""],
        &[3, 0],
        &["2020", "1999-05-06"],
        |m, i, v| match v {
            Some(v) => m.set(VT[i], v),
            None => drop(m.del(VT[i])),
        },
        |m, i, v| {
            for k in VN[i] {
                m.del(k);
            }
            if let Some(v) = v {
                m.set(VN[i][0], &v.to_string());
            }
        },
        |m, v| {
            m.del("DATE");
            m.del("YEAR");
            if let Some(v) = v {
                m.set("DATE", v);
            }
        },
    );
    for (k, v) in [
        ("TITLE", "b"),
        ("title", "c"),
        ("Custom", "x"),
        ("CUSTOM", "y"),
        ("TRACKNUM", "7"),
        ("TRACKNUMBER", "no"),
        ("totaltracks", "8"),
        ("DISCTOTAL", "9"),
        ("TOTALDISCS", "10"),
        ("YEAR", "1987"),
        ("DATE", "nope"),
        ("A=B", "bad"),
        ("", "bad"),
        ("K\u{e9}Y", "bad"),
        ("K~Y", "bad"),
        ("K\u{1f}Y", "bad"),
    ] {
        let good = !k.is_empty() && k.bytes().all(|b| (0x20..=0x7d).contains(&b) && b != b'=');
        for push in [false, true] {
            ops.push(op(
                format!("{}({k:?},{v:?})", if push { "push" } else { "insert" }),
                move |t: &mut VorbisComments| {
                    if push { t.push(k.into(), v.into()) } else { t.insert(k.into(), v.into()) };
                    String::new()
                },
                move |m: &mut ML| {
                    if good {
                        if push { m.items.push((k.into(), v.into())) } else { m.set(k, v) }
                    }
                    String::new()
                },
            ));
        }
        ops.push(op(
            format!("remove({k:?})"),
            move |t: &mut VorbisComments| format!("{:?}", t.remove(k).collect::<Vec<_>>()),
            move |m: &mut ML| format!("{:?}", m.del(k)),
        ));
    }
    for (ty, n) in [(PictureType::CoverFront, 1), (PictureType::CoverFront, 2), (PictureType::Icon, 3), (PictureType::OtherIcon, 4), (PictureType::Icon, 5)] {
        ops.push(op(
            format!("insert_picture({ty:?}#{n})"),
            move |t: &mut VorbisComments| {
                let r = t.insert_picture(pic(ty, n), Some(PictureInformation::default())).expect("information is given");
                format!("{:?}", r.map(|p| pics(&p.0)))
            },
            move |m: &mut ML| {
                let mut r = None;
                if matches!(ty, PictureType::Icon | PictureType::OtherIcon) {
                    if let Some(at) = m.pics.iter().position(|p| p.0 == ty) {
                        r = Some(m.pics.remove(at));
                    }
                }
                m.pics.push((ty, n));
                format!("{:?}", r.map(|p| format!("{:?}#{}", p.0, p.1)))
            },
        ));
    }
    // A picture whose information can't be worked out is refused and changes nothing
    ops.push(op(
        "insert_picture(broken icon)",
        |t: &mut VorbisComments| format!("{}", t.insert_picture(pic(PictureType::Icon, 9), None).is_err()),
        |_: &mut ML| "true".into(),
    ));
    ops.push(op(
        "set_picture(0, CoverBack#6)",
        |t: &mut VorbisComments| {
            t.set_picture(0, pic(PictureType::CoverBack, 6), PictureInformation::default());
            String::new()
        },
        |m: &mut ML| {
            if m.pics.is_empty() { m.pics.push((PictureType::CoverBack, 6)) } else { m.pics[0] = (PictureType::CoverBack, 6) }
            String::new()
        },
    ));
    ops.push(op(
        "remove_picture_type(CoverFront)",
        |t: &mut VorbisComments| {
            t.remove_picture_type(PictureType::CoverFront);
            String::new()
        },
        |m: &mut ML| {
            m.pics.retain(|p| p.0 != PictureType::CoverFront);
            String::new()
        },
    ));
    ops.push(op(
        "remove_picture(last)",
        |t: &mut VorbisComments| match t.pictures().len() {
            0 => String::new(),
            n => pics(&t.remove_picture(n - 1).0),
        },
        |m: &mut ML| m.pics.pop().map_or(String::new(), |p| format!("{:?}#{}", p.0, p.1)),
    ));
    ops.push(op(
        "remove_pictures",
        |t: &mut VorbisComments| t.remove_pictures().iter().map(|p| pics(&p.0)).collect::<Vec<_>>().join(","),
        |m: &mut ML| std::mem::take(&mut m.pics).iter().map(|p| format!("{:?}#{}", p.0, p.1)).collect::<Vec<_>>().join(","),
    ));
    ops.push(op(
        "take_items",
        |t: &mut VorbisComments| t.take_items().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().len().to_string(),
        |m: &mut ML| std::mem::take(&mut m.items).len().to_string(),
    ));
    ops.push(op(
        "clear",
        |t: &mut VorbisComments| {
            t.clear();
            String::new()
        },
        |m: &mut ML| {
            *m = ML::default();
            String::new()
        },
    ));
    let mut t = VorbisComments::new();
    let mut m = ML::default();
    for (k, v) in [("Title", "one"), ("GENRE", "g1"), ("TITLE", "two"), ("genre", "g2"), ("TRACKNUM", "4"), ("YEAR", "2001"), ("title", "three"), ("TOTALTRACKS", "12")] {
        t.push(k.into(), v.into());
        m.items.push((k.into(), v.into()));
    }
    explore(ctx, "Vorbis", vec![("empty", VorbisComments::new(), ML::default()), ("populated", t, m)], ops, obs, mobs, ctx.q(4, 4), ctx.q(600_000, 600_000));
}

fn riff(ctx: &Ctx) {
    const T: [&str; 5] = ["IART", "INAM", "IPRD", "IGNR", "ICMT"];
    const KEYS: [&str; 6] = ["INAM", "inam", "Inam", "IPRT", "ICRD", "XYZ1"];
    let mobs = |m: &ML| Obs {
        acc: Acc {
            text: std::array::from_fn(|i| m.get(T[i]).map(String::from)),
            num: [m.get("IPRT").and_then(|v| v.parse().ok()), m.get("IFRM").and_then(|v| v.parse().ok()), None, None],
            date: mdate(m.get("ICRD")),
        },
        raw: m.raw(),
        len: m.items.len(),
        empty: m.items.is_empty(),
        more: KEYS.iter().map(|k| format!("{:?} {}", m.get(k), m.get(k).is_some())).collect(),
    };
    let obs = |t: &RiffInfoList| Obs {
        acc: acc(t),
        raw: grouped(t.into_iter().map(|(k, v)| (k.to_ascii_uppercase(), format!("{k}={v}"))).collect()),
        len: t.len(),
        empty: t.is_empty(),
        more: KEYS.iter().map(|k| format!("{:?} {}", t.get(k), t.contains(k))).collect(),
    };
    let mut ops: Vec<Op<RiffInfoList, ML>> = accessor_ops(
        &["a", "b"],
        &[3, 0],
        &["2020", "1999-05-06"],
        |m, i, v| match v {
            Some(v) => m.set(T[i], v),
            None => drop(m.del(T[i])),
        },
        |m, i, v| {
            // Disks are not part of RIFF INFO
            let Some(k) = ["IPRT", "IFRM"].get(i) else { return };
            match v {
                Some(v) => m.set(k, &v.to_string()),
                None => drop(m.del(k)),
            }
        },
        |m, v| match v {
            Some(v) => m.set("ICRD", v),
            None => drop(m.del("ICRD")),
        },
    );
    for (k, v) in [("INAM", "c"), ("inam", "d"), ("IPRT", "no"), ("IFRM", "5"), ("ICRD", "nope"), ("XYZ1", "x"), ("xyz1", "y"), ("LONGKEY", "bad"), ("ABC", "bad"), ("", "bad"), ("\u{e9}\u{e9}", "bad"), ("A\u{1f}BC", "bad")] {
        let good = k.len() == 4 && k.bytes().all(|b| (32..=126).contains(&b));
        ops.push(op(
            format!("insert({k:?},{v:?})"),
            move |t: &mut RiffInfoList| {
                t.insert(k.into(), v.into());
                String::new()
            },
            move |m: &mut ML| {
                if good {
                    m.set(k, v);
                }
                String::new()
            },
        ));
        ops.push(op(
            format!("remove({k:?})"),
            move |t: &mut RiffInfoList| format!("{:?}", t.remove(k)),
            move |m: &mut ML| format!("{:?}", m.del(k).into_iter().next()),
        ));
    }
    ops.push(op(
        "clear",
        |t: &mut RiffInfoList| {
            t.clear();
            String::new()
        },
        |m: &mut ML| {
            *m = ML::default();
            String::new()
        },
    ));
    let mut t = RiffInfoList::new();
    let mut m = ML::default();
    for (k, v) in [("INAM", "one"), ("IART", "two"), ("XYZ1", "three"), ("IPRT", "4")] {
        t.insert(k.into(), v.into());
        m.set(k, v);
    }
    explore(ctx, "Riff", vec![("empty", RiffInfoList::new(), ML::default()), ("populated", t, m)], ops, obs, mobs, ctx.q(4, 5), ctx.q(600_000, 600_000));
}

// ---------------------------------------------------------------- APE
#[derive(Clone, Debug, Default)]
struct MA {
    items: Vec<(String, ItemValue, bool)>,
}
impl MA {
    fn at(&self, k: &str) -> Option<usize> {
        self.items.iter().position(|i| i.0.eq_ignore_ascii_case(k))
    }
    fn text(&self, k: &str) -> Option<&str> {
        match &self.items[self.at(k)?].1 {
            ItemValue::Text(t) => Some(t),
            _ => None,
        }
    }
    fn del(&mut self, k: &str) {
        self.items.retain(|i| !i.0.eq_ignore_ascii_case(k));
    }
    fn set(&mut self, k: &str, v: ItemValue) {
        self.del(k);
        self.items.push((k.into(), v, false));
    }
    fn pair(&self, k: &str) -> (Option<u32>, Option<u32>) {
        let Some(t) = self.text(k) else { return (None, None) };
        pair(t)
    }
}
fn pair(t: &str) -> (Option<u32>, Option<u32>) {
    let mut p = t.split('/');
    (p.next().and_then(|x| x.parse().ok()), p.next().and_then(|x| x.parse().ok()))
}
/// A number and a total share one item. A total alone stands next to the number 0, a removed number takes its total along.
fn pair_set(have: (Option<u32>, Option<u32>), total: bool, v: Option<u32>) -> Option<String> {
    match (total, v, have) {
        (false, None, _) => None,
        (false, Some(n), (_, None)) => Some(n.to_string()),
        (false, Some(n), (_, Some(t))) => Some(format!("{n}/{t}")),
        (true, None, (n, _)) => n.map(|n| n.to_string()),
        (true, Some(t), (n, _)) => Some(format!("{}/{t}", n.unwrap_or(0))),
    }
}
fn ape(ctx: &Ctx) {
    const T: [&str; 5] = ["Artist", "Title", "Album", "Genre", "Comment"];
    let val = |v: &ItemValue| format!("{v:?}");
    let mobs = move |m: &MA| {
        let (a, b) = (m.pair("Track"), m.pair("Disc"));
        Obs {
            acc: Acc { text: std::array::from_fn(|i| m.text(T[i]).map(String::from)), num: [a.0, a.1, b.0, b.1], date: mdate(m.text("Year")) },
            raw: grouped(m.items.iter().map(|i| (i.0.to_ascii_uppercase(), format!("{}={} {}", i.0, val(&i.1), i.2))).collect()),
            len: m.items.len(),
            empty: m.items.is_empty(),
            more: ["TITLE", "cUsTom", "nothing"].iter().map(|k| format!("{:?} {}", m.at(k).map(|i| val(&m.items[i].1)), m.at(k).is_some())).collect(),
        }
    };
    let obs = move |t: &ApeTag| Obs {
        acc: acc(t),
        raw: grouped(t.into_iter().map(|i| (i.key().to_ascii_uppercase(), format!("{}={} {}", i.key(), val(i.value()), i.read_only))).collect()),
        len: t.len(),
        empty: t.is_empty(),
        more: ["TITLE", "cUsTom", "nothing"].iter().map(|k| format!("{:?} {}", t.get(k).map(|i| val(i.value())), t.contains(k))).collect(),
    };
    let mut ops: Vec<Op<ApeTag, MA>> = accessor_ops(
        &["a", ""],
        &[3, 0],
        &["2020", "1999-05-06"],
        |m, i, v| match v {
            Some(v) => m.set(["Artist", "Title", "Album", "GENRE", "Comment"][i], ItemValue::Text(v.into())),
            None => m.del(T[i]),
        },
        |m, i, v| {
            let k = ["Track", "Disc"][i / 2];
            let have = m.pair(k);
            match pair_set(have, i % 2 == 1, v) {
                Some(t) => m.set(k, ItemValue::Text(t)),
                None => m.del(k),
            }
        },
        |m, v| match v {
            Some(v) => m.set("Year", ItemValue::Text(v.into())),
            None => m.del("Year"),
        },
    );
    for (k, v, ro) in [
        ("TITLE", ItemValue::Text("b".into()), false),
        ("title", ItemValue::Text("c".into()), true),
        ("Custom", ItemValue::Text("x".into()), false),
        ("CUSTOM", ItemValue::Locator("l".into()), false),
        ("custom", ItemValue::Binary(vec![1]), false),
        ("Track", ItemValue::Text("5/6".into()), false),
        ("TRACK", ItemValue::Text("8".into()), false),
        ("Year", ItemValue::Text("nope".into()), false),
        ("Disc", ItemValue::Binary(vec![2]), false),
    ] {
        for push in [false, true] {
            // The values of a number or date are not joined
            if push && !k.eq_ignore_ascii_case("title") && !k.eq_ignore_ascii_case("custom") {
                continue;
            }
            let (v1, v2) = (v.clone(), v.clone());
            ops.push(op(
                format!("{}({k},{v:?})", if push { "push" } else { "insert" }),
                move |t: &mut ApeTag| {
                    let mut i = ApeItem::new(k.into(), v1.clone()).expect("valid key");
                    i.read_only = ro;
                    if push { t.push(i) } else { t.insert(i) }
                    String::new()
                },
                move |m: &mut MA| {
                    match (push, m.at(k)) {
                        (true, Some(at)) => {
                            let e = &mut m.items[at];
                            match (&mut e.1, &v2) {
                                (ItemValue::Text(a), ItemValue::Text(b)) | (ItemValue::Locator(a), ItemValue::Locator(b)) => *a = format!("{a}\0{b}"),
                                _ => *e = (k.into(), v2.clone(), ro),
                            }
                        },
                        _ => {
                            m.del(k);
                            m.items.push((k.into(), v2.clone(), ro));
                        },
                    }
                    String::new()
                },
            ));
        }
        ops.push(op(
            format!("remove({k})"),
            move |t: &mut ApeTag| {
                t.remove(k);
                String::new()
            },
            move |m: &mut MA| {
                m.del(k);
                String::new()
            },
        ));
    }
    ops.push(op(
        "clear",
        |t: &mut ApeTag| {
            t.clear();
            String::new()
        },
        |m: &mut MA| {
            m.items.clear();
            String::new()
        },
    ));
    let mut t = ApeTag::new();
    let mut m = MA::default();
    for (k, v) in [("Title", "one"), ("Artist", "two\0three"), ("Track", "4/9"), ("Disc", "2"), ("Year", "2001-02")] {
        t.insert(ApeItem::new(k.into(), ItemValue::Text(v.into())).expect("valid key"));
        m.set(k, ItemValue::Text(v.into()));
    }
    explore(ctx, "Ape", vec![("empty", ApeTag::new(), MA::default()), ("populated", t, m)], ops, obs, mobs, ctx.q(4, 4), ctx.q(600_000, 600_000));
}

// ---------------------------------------------------------------- ID3v1 and AIFF
fn id3v1(ctx: &Ctx) {
    #[derive(Clone, Debug, Default)]
    struct M {
        text: [Option<String>; 5],
        track: Option<u8>,
        year: Option<u16>,
    }
    fn obs_of(text: [Option<String>; 5], track: Option<u8>, year: Option<u16>) -> Obs {
        let n = text.iter().flatten().count() + usize::from(track.is_some()) + usize::from(year.is_some());
        Obs {
            acc: Acc { text: text.clone(), num: [track.map(u32::from), None, None, None], date: year.map(|y| format!("{y:04}")) },
            raw: vec![],
            len: n,
            empty: n == 0,
            more: vec![format!("{:?}", [text[0].is_some(), text[1].is_some(), text[2].is_some(), text[3].is_some(), text[4].is_some(), track.is_some(), year.is_some()])],
        }
    }
    let obs = |t: &Id3v1Tag| Obs {
        acc: acc(t),
        raw: vec![],
        len: t.len(),
        empty: t.is_empty(),
        more: vec![format!(
            "{:?}",
            [ItemKey::TrackArtist, ItemKey::TrackTitle, ItemKey::AlbumTitle, ItemKey::Genre, ItemKey::Comment, ItemKey::TrackNumber, ItemKey::Year].map(|k| t.contains(&k))
        )],
    };
    let long = "0123456789012345678901234567\u{e9}89";
    let mut ops: Vec<Op<Id3v1Tag, M>> = accessor_ops(
        &["a", "Blues", "bLUES", "Rock", long],
        &[3, 0, 255, 256, 259],
        &["2020", "1999-05-06"],
        |m, i, v| {
            m.text[i] = match (i, v) {
                // Only known genres can be stored, anything else is ignored
                (3, Some(v)) => match v.to_ascii_lowercase().as_str() {
                    "blues" => Some("Blues".into()),
                    "rock" => Some("Rock".into()),
                    _ => return,
                },
                (4, Some(v)) => Some(v.chars().take(28).collect()),
                _ => v.map(String::from),
            }
        },
        |m, i, v| {
            if i == 0 {
                match v {
                    // So is a number that doesn't fit
                    Some(v) if v > 255 => {},
                    v => m.track = v.map(|v| v as u8),
                }
            }
        },
        |m, v| m.year = v.map(|v| v[..4].parse().expect("four digits")),
    );
    ops.push(op(
        "clear",
        |t: &mut Id3v1Tag| {
            t.clear();
            String::new()
        },
        |m: &mut M| {
            *m = M::default();
            String::new()
        },
    ));
    explore(ctx, "Id3v1", vec![("empty", Id3v1Tag::new(), M::default())], ops, obs, |m| obs_of(m.text.clone(), m.track, m.year), ctx.q(4, 7), ctx.q(40_000, 600_000));
}

fn aiff(ctx: &Ctx) {
    #[derive(Clone, Debug, Default)]
    struct M {
        name: Option<String>,
        author: Option<String>,
        copyright: Option<String>,
        anno: Option<Vec<String>>,
        comt: Option<Vec<String>>,
    }
    let mobs = |m: &M| {
        let anno = m.anno.clone().unwrap_or_default();
        let comt = m.comt.clone().unwrap_or_default();
        let n = [&m.name, &m.author, &m.copyright].iter().filter(|x| x.is_some()).count() + anno.len() + comt.len();
        let comment = anno.first().or(comt.first()).cloned();
        Obs {
            acc: Acc { text: [m.author.clone(), m.name.clone(), None, None, comment.clone()], ..Acc::default() },
            raw: anno.iter().map(|a| ("ANNO".to_string(), a.clone())).chain(comt.iter().map(|a| ("COMT".to_string(), a.clone()))).collect(),
            len: n,
            empty: n == 0,
            more: vec![format!("{:?} {:?}", m.copyright, [m.name.is_some(), m.author.is_some(), m.copyright.is_some(), comment.is_some(), false])],
        }
    };
    let obs = |t: &AiffTextChunks| Obs {
        acc: acc(t),
        raw: t
            .annotations
            .iter()
            .flatten()
            .map(|a| ("ANNO".to_string(), a.clone()))
            .chain(t.comments.iter().flatten().map(|c| ("COMT".to_string(), c.text.clone())))
            .collect(),
        len: t.len(),
        empty: t.is_empty(),
        more: vec![format!(
            "{:?} {:?}",
            t.copyright().map(String::from),
            [ItemKey::TrackTitle, ItemKey::TrackArtist, ItemKey::CopyrightMessage, ItemKey::Comment, ItemKey::Genre].map(|k| t.contains(&k))
        )],
    };
    let mut ops: Vec<Op<AiffTextChunks, M>> = accessor_ops(
        &["a", "", "b"],
        &[3],
        &["2020"],
        |m, i, v| match i {
            0 => m.author = v.map(String::from),
            1 => m.name = v.map(String::from),
            4 => {
                m.anno = v.map(|v| vec![v.to_string()]);
                if v.is_none() {
                    m.comt = None;
                }
            },
            _ => {},
        },
        |_, _, _| {},
        |_, _| {},
    );
    for c in ["c1", "c2"] {
        ops.push(op(
            format!("set_copyright({c})"),
            move |t: &mut AiffTextChunks| {
                t.set_copyright(c.into());
                String::new()
            },
            move |m: &mut M| {
                m.copyright = Some(c.into());
                String::new()
            },
        ));
        ops.push(op(
            format!("push annotation {c}"),
            move |t: &mut AiffTextChunks| {
                t.annotations.get_or_insert_with(Vec::new).push(c.into());
                String::new()
            },
            move |m: &mut M| {
                m.anno.get_or_insert_with(Vec::new).push(c.into());
                String::new()
            },
        ));
        ops.push(op(
            format!("push comment {c}"),
            move |t: &mut AiffTextChunks| {
                t.comments.get_or_insert_with(Vec::new).push(lofty::iff::aiff::Comment { timestamp: 1, marker_id: 0, text: c.into() });
                String::new()
            },
            move |m: &mut M| {
                m.comt.get_or_insert_with(Vec::new).push(c.into());
                String::new()
            },
        ));
    }
    ops.push(op(
        "remove_copyright",
        |t: &mut AiffTextChunks| {
            t.remove_copyright();
            String::new()
        },
        |m: &mut M| {
            m.copyright = None;
            String::new()
        },
    ));
    ops.push(op(
        "clear",
        |t: &mut AiffTextChunks| {
            t.clear();
            String::new()
        },
        |m: &mut M| {
            *m = M::default();
            String::new()
        },
    ));
    explore(ctx, "Aiff", vec![("empty", AiffTextChunks::new(), M::default())], ops, obs, mobs, ctx.q(5, 8), ctx.q(40_000, 400_000));
}

// ---------------------------------------------------------------- ilst
#[derive(Clone, Debug, Default)]
struct MI {
    atoms: Vec<(String, Vec<String>)>,
}
const ILT: [&[u8; 4]; 5] = [b"\xa9ART", b"\xa9nam", b"\xa9alb", b"\xa9gen", b"\xa9cmt"];
fn idn(i: &AtomIdent<'_>) -> String {
    match i {
        AtomIdent::Fourcc(f) => f.iter().map(|b| *b as char).collect(),
        AtomIdent::Freeform { mean, name } => format!("----:{mean}:{name}"),
    }
}
fn dat(d: &AtomData) -> String {
    match d {
        AtomData::UTF8(t) | AtomData::UTF16(t) => format!("text {t}"),
        AtomData::Picture(p) => format!("pic {}", pics(p)),
        AtomData::SignedInteger(i) => format!("int {i}"),
        AtomData::UnsignedInteger(i) => format!("uint {i}"),
        AtomData::Bool(b) => format!("bool {b}"),
        AtomData::Unknown { data, .. } => format!("data {data:?}"),
        _ => "?".into(),
    }
}
impl MI {
    fn at(&self, k: &str) -> Option<usize> {
        self.atoms.iter().position(|a| a.0 == k)
    }
    fn first(&self, k: &str) -> Option<&str> {
        self.at(k).and_then(|i| self.atoms[i].1.first()).map(|s| &**s)
    }
    fn del(&mut self, k: &str) -> Vec<(String, Vec<String>)> {
        let r = self.atoms.iter().filter(|a| a.0 == k).cloned().collect();
        self.atoms.retain(|a| a.0 != k);
        r
    }
    fn set(&mut self, k: &str, v: Vec<String>) {
        self.del(k);
        self.atoms.push((k.into(), v));
    }
    fn add(&mut self, k: &str, v: Vec<String>) {
        match self.at(k) {
            Some(i) => self.atoms[i].1.extend(v),
            None => self.atoms.push((k.into(), v)),
        }
    }
    fn pair(&self, k: &str) -> (Option<u32>, Option<u32>) {
        let Some(d) = self.first(k).and_then(|d| d.strip_prefix("data ")) else { return (None, None) };
        let b: Vec<u32> = d.trim_matches(['[', ']']).split(", ").filter_map(|x| x.parse().ok()).collect();
        let at = |i: usize| (b.len() >= i + 2).then(|| b[i] * 256 + b[i + 1]);
        (at(2), at(4))
    }
}
fn ilst(ctx: &Ctx) {
    let key = |k: &[u8; 4]| k.iter().map(|b| *b as char).collect::<String>();
    let mobs = move |m: &MI| {
        let (a, b) = (m.pair("trkn"), m.pair("disk"));
        let text = |k: &str| m.first(k).and_then(|d| d.strip_prefix("text ")).map(String::from);
        let flag = |k: &str| m.first(k) == Some("bool true");
        let rtng = m.at("rtng").map(|i| &m.atoms[i].1).and_then(|d| d.iter().find_map(|d| match d.as_str() {
            "int 0" | "data [0]" => Some("Inoffensive"),
            "int 1" | "int 4" | "data [1]" => Some("Explicit"),
            "int 2" | "data [2]" => Some("Clean"),
            _ => None,
        }));
        Obs {
            acc: Acc { text: std::array::from_fn(|i| text(&key(ILT[i]))), num: [a.0, a.1, b.0, b.1], date: mdate(text("\u{a9}day").as_deref()) },
            raw: grouped(m.atoms.iter().map(|a| (a.0.clone(), a.1.join("|"))).collect()),
            len: m.atoms.len(),
            empty: m.atoms.is_empty(),
            more: vec![
                format!("{:?}", m.at("covr").map(|i| m.atoms[i].1.iter().filter_map(|d| d.strip_prefix("pic ")).collect::<Vec<_>>())),
                format!("{:?}", [flag("pcst"), flag("pgap"), flag("cpil")]),
                format!("{rtng:?}"),
                format!("{}", m.at("----:com:NAME").is_some()),
            ],
        }
    };
    let ff = || AtomIdent::Freeform { mean: "com".into(), name: "NAME".into() };
    let obs = move |t: &Ilst| Obs {
        acc: acc(t),
        raw: grouped(t.into_iter().map(|a| (idn(a.ident()), a.data().map(dat).collect::<Vec<_>>().join("|"))).collect()),
        len: t.len(),
        empty: t.is_empty(),
        more: vec![
            format!("{:?}", t.pictures().map(|p| p.map(pics).collect::<Vec<_>>())),
            format!("{:?}", [t.is_podcast(), t.is_gapless(), t.is_compilation()]),
            format!("{:?}", t.advisory_rating().map(|r| format!("{r:?}"))),
            format!("{}", t.contains(&ff())),
        ],
    };
    let mut ops: Vec<Op<Ilst, MI>> = accessor_ops(
        &["a", ""],
        &[3, 0, 65535, 65536, 65541],
        &["2020", "1999-05-06"],
        |m, i, v| {
            let k: String = ILT[i].iter().map(|b| *b as char).collect();
            match v {
                Some(v) => m.set(&k, vec![format!("text {v}")]),
                None => drop(m.del(&k)),
            }
        },
        |m, i, v| {
            let k = ["trkn", "disk"][i / 2];
            let have = m.pair(k);
            // Both are 16-bit numbers, anything else is ignored
            if v.is_some_and(|v| v > 65535) {
                return;
            }
            match pair_set(have, i % 2 == 1, v) {
                Some(p) => {
                    let (n, t) = pair(&p);
                    let (n, t) = (n.unwrap_or(0), t.unwrap_or(0));
                    m.set(k, vec![format!("data {:?}", [0, 0, n >> 8, n & 255, t >> 8, t & 255])]);
                },
                None => drop(m.del(k)),
            }
        },
        |m, v| match v {
            Some(v) => m.set("\u{a9}day", vec![format!("text {v}")]),
            None => drop(m.del("\u{a9}day")),
        },
    );
    let idents: Vec<(AtomIdent<'static>, &str)> = vec![
        (AtomIdent::Fourcc(*b"\xa9ART"), "t"),
        (ff(), "t"),
        (AtomIdent::Fourcc(*b"rtng"), "i"),
        (AtomIdent::Fourcc(*b"trkn"), "d"),
        (AtomIdent::Fourcc(*b"cpil"), "b"),
    ];
    for (id, kind) in idents {
        let name = idn(&id);
        let data: Vec<AtomData> = match kind {
            "t" => vec![AtomData::UTF8("x".into()), AtomData::UTF16("y".into())],
            "i" => vec![AtomData::SignedInteger(300), AtomData::SignedInteger(2)],
            "d" => vec![AtomData::Unknown { code: lofty::mp4::DataType::Reserved, data: vec![0, 0, 0, 7] }],
            _ => vec![AtomData::Bool(true), AtomData::Bool(false)],
        };
        for one in [true, false] {
            if !one && data.len() == 1 {
                continue;
            }
            let d: Vec<AtomData> = if one { data[..1].to_vec() } else { data.clone() };
            let md: Vec<String> = d.iter().map(dat).collect();
            let atom = Atom::from_collection(id.clone(), d).expect("not empty");
            for replace in [false, true] {
                let (atom, md, name) = (atom.clone(), md.clone(), name.clone());
                ops.push(op(
                    format!("{}({name}x{})", if replace { "replace_atom" } else { "insert" }, md.len()),
                    move |t: &mut Ilst| {
                        if replace { t.replace_atom(atom.clone()) } else { t.insert(atom.clone()) }
                        String::new()
                    },
                    move |m: &mut MI| {
                        if replace { m.set(&name, md.clone()) } else { m.add(&name, md.clone()) }
                        String::new()
                    },
                ));
            }
        }
        let (i2, n2) = (id.clone(), name.clone());
        ops.push(op(
            format!("remove({name})"),
            move |t: &mut Ilst| format!("{:?}", t.remove(&i2).map(|a| (idn(a.ident()), a.data().map(dat).collect::<Vec<_>>())).collect::<Vec<_>>()),
            move |m: &mut MI| format!("{:?}", m.del(&n2)),
        ));
        let (i2, n2) = (id.clone(), name.clone());
        ops.push(op(
            format!("retain(not {name})"),
            move |t: &mut Ilst| {
                t.retain(|a| *a.ident() != i2);
                String::new()
            },
            move |m: &mut MI| {
                m.del(&n2);
                String::new()
            },
        ));
    }
    for n in [1u8, 2] {
        ops.push(op(
            format!("insert_picture(#{n})"),
            move |t: &mut Ilst| {
                t.insert_picture(pic(PictureType::CoverFront, n));
                String::new()
            },
            move |m: &mut MI| {
                m.add("covr", vec![format!("pic Other#{n}")]);
                String::new()
            },
        ));
    }
    ops.push(op(
        "insert(covr x2)",
        |t: &mut Ilst| {
            let d = [3, 4].map(|n| AtomData::Picture(pic(PictureType::CoverBack, n))).to_vec();
            t.insert(Atom::from_collection(AtomIdent::Fourcc(*b"covr"), d).expect("not empty"));
            String::new()
        },
        |m: &mut MI| {
            m.add("covr", vec!["pic Other#3".into(), "pic Other#4".into()]);
            String::new()
        },
    ));
    ops.push(op(
        "remove_pictures",
        |t: &mut Ilst| {
            t.remove_pictures();
            String::new()
        },
        |m: &mut MI| {
            m.del("covr");
            String::new()
        },
    ));
    for (f, k) in [(*b"pcst", "pcst"), (*b"pgap", "pgap"), (*b"cpil", "cpil")] {
        for on in [true, false] {
            ops.push(op(
                format!("set_flag({k},{on})"),
                move |t: &mut Ilst| {
                    t.set_flag(AtomIdent::Fourcc(f), on);
                    String::new()
                },
                move |m: &mut MI| {
                    if on { m.set(k, vec!["bool true".into()]) } else { drop(m.del(k)) }
                    String::new()
                },
            ));
        }
    }
    for (r, n) in [(AdvisoryRating::Explicit, 1), (AdvisoryRating::Clean, 2), (AdvisoryRating::Inoffensive, 0)] {
        ops.push(op(
            format!("set_advisory_rating({r:?})"),
            move |t: &mut Ilst| {
                t.set_advisory_rating(r);
                String::new()
            },
            move |m: &mut MI| {
                m.set("rtng", vec![format!("int {n}")]);
                String::new()
            },
        ));
    }
    ops.push(op(
        "clear",
        |t: &mut Ilst| {
            t.clear();
            String::new()
        },
        |m: &mut MI| {
            m.atoms.clear();
            String::new()
        },
    ));
    let mut t = Ilst::new();
    let mut m = MI::default();
    for (k, v) in [(*b"\xa9nam", "one"), (*b"\xa9cmt", "two"), (*b"\xa9day", "2001")] {
        t.insert(Atom::new(AtomIdent::Fourcc(k), AtomData::UTF8(v.into())));
        m.add(&k.iter().map(|b| *b as char).collect::<String>(), vec![format!("text {v}")]);
    }
    t.insert(Atom::new(AtomIdent::Fourcc(*b"disk"), AtomData::Unknown { code: lofty::mp4::DataType::Reserved, data: vec![0, 0, 1, 2, 3, 4, 0, 0] }));
    m.add("disk", vec!["data [0, 0, 1, 2, 3, 4, 0, 0]".into()]);
    explore(ctx, "Ilst", vec![("empty", Ilst::new(), MI::default()), ("populated", t, m)], ops, obs, mobs, ctx.q(4, 4), ctx.q(600_000, 600_000));
}

// ---------------------------------------------------------------- ID3v2
/// A frame: its ID, what tells it apart from frames with the same ID, and its value
#[derive(Clone, Debug, PartialEq, Eq)]
struct F {
    id: String,
    slot: String,
    val: String,
}
fn f(id: &str, slot: &str, val: &str) -> F {
    F { id: id.into(), slot: slot.into(), val: val.into() }
}
#[derive(Clone, Debug, Default)]
struct M2 {
    frames: Vec<F>,
}
fn of_frame(x: &Frame<'_>) -> F {
    let id = x.id().as_str();
    match x {
        Frame::Text(t) => f(id, "", &t.value),
        Frame::Url(u) => f(id, "", u.url()),
        Frame::Timestamp(t) => f(id, "", &t.timestamp.to_string()),
        Frame::UserText(t) => f(id, &t.description, &t.content),
        Frame::UserUrl(t) => f(id, &t.description, &t.content),
        Frame::Comment(c) => f(id, &format!("{:?}{}", c.language, c.description), &c.content),
        Frame::Picture(p) => f(id, &pics(&p.picture), &pics(&p.picture)),
        Frame::KeyValue(k) => f(id, "", &format!("{:?}", k.key_value_pairs)),
        Frame::Popularimeter(p) => f(id, &p.email, &format!("{} {}", p.rating, p.counter)),
        Frame::UniqueFileIdentifier(u) => f(id, &u.owner, &format!("{:?}", u.identifier)),
        Frame::Private(p) => f(id, &format!("{}{:?}", p.owner, p.private_data), &format!("{:?}", p.private_data)),
        Frame::Binary(b) if id == "MCDI" => f(id, "", &format!("{:?}", b.data)),
        Frame::Binary(b) => f(id, &format!("{:?}", b.data), &format!("{:?}", b.data)),
        _ => f(id, "?", "?"),
    }
}
impl M2 {
    fn get(&self, id: &str) -> Option<&F> {
        self.frames.iter().find(|x| x.id == id)
    }
    fn del(&mut self, id: &str) -> Vec<F> {
        let r = self.frames.iter().filter(|x| x.id == id).cloned().collect();
        self.frames.retain(|x| x.id != id);
        r
    }
    fn put(&mut self, n: F) -> Option<F> {
        let at = self.frames.iter().position(|x| x.id == n.id && x.slot == n.slot);
        let r = at.map(|at| self.frames.remove(at));
        self.frames.push(n);
        r
    }
    fn text(&self, id: &str) -> Option<&str> {
        self.get(id).map(|x| &*x.val)
    }
}
const T2: [&str; 4] = ["TPE1", "TIT2", "TALB", "TCON"];
const XXX: &str = "[88, 88, 88]";
fn id3v2(ctx: &Ctx) {
    let mobs = |m: &M2| {
        let (a, b) = (m.text("TRCK").map_or((None, None), pair), m.text("TPOS").map_or((None, None), pair));
        let genre = m.text("TCON").map(|g| {
            g.split('\0')
                .map(|p| match p {
                    "17" => "Rock",
                    p => p,
                })
                .collect::<Vec<_>>()
                .join(" / ")
        });
        let comment = m.frames.iter().find(|x| x.id == "COMM" && x.slot.ends_with(']')).map(|x| x.val.clone());
        let t = |i: usize| m.text(T2[i]).map(|t| t.replace('\0', "/"));
        Obs {
            acc: Acc { text: [t(0), t(1), t(2), genre, comment], num: [a.0, a.1, b.0, b.1], date: m.text("TDRC").map(String::from) },
            raw: grouped(m.frames.iter().map(|x| (x.id.clone(), format!("{:?} {:?}", x.slot, x.val))).collect()),
            len: m.frames.len(),
            empty: m.frames.is_empty(),
            more: vec![
                format!("{:?}", m.frames.iter().find(|x| x.id == "TXXX" && x.slot == "D").map(|x| &*x.val)),
                format!("{:?}", m.frames.iter().find(|x| x.id == "TXXX" && x.slot.is_empty()).map(|x| &*x.val)),
                format!("{:?} {:?}", m.text("TIT2"), m.text("TIT2").map(|t| t.split('\0').map(String::from).collect::<Vec<_>>())),
                format!("{}", m.get("APIC").is_some()),
            ],
        }
    };
    let id = |s: &str| FrameId::new(s.to_string()).expect("valid ID");
    let obs = move |t: &Id3v2Tag| Obs {
        acc: acc(t),
        raw: grouped(t.into_iter().map(of_frame).map(|x| (x.id.clone(), format!("{:?} {:?}", x.slot, x.val))).collect()),
        len: TagExt::len(t),
        empty: TagExt::is_empty(t),
        more: vec![
            format!("{:?}", t.get_user_text("D")),
            format!("{:?}", t.get_user_text("")),
            format!("{:?} {:?}", t.get_text(&id("TIT2")), t.get_texts(&id("TIT2")).map(|x| x.map(String::from).collect::<Vec<_>>())),
            format!("{}", t.contains(&id("APIC"))),
        ],
    };
    let mut ops: Vec<Op<Id3v2Tag, M2>> = accessor_ops(
        &["a", "17", "x\0y"],
        &[3, 0],
        &["2020", "1999-05-06"],
        |m, i, v| match (i, v) {
            (4, Some(v)) => {
                // The first comment without a description takes the text, the others go
                let mut first = true;
                m.frames.retain_mut(|x| {
                    if x.id != "COMM" || !x.slot.ends_with(']') {
                        return true;
                    }
                    if first {
                        x.val = v.into();
                    }
                    std::mem::take(&mut first)
                });
                if first {
                    m.frames.push(f("COMM", XXX, v));
                }
            },
            (4, None) => m.frames.retain(|x| x.id != "COMM" || !x.slot.ends_with(']')),
            (i, Some(v)) => drop(m.put(f(T2[i], "", v))),
            (i, None) => drop(m.del(T2[i])),
        },
        |m, i, v| {
            let k = ["TRCK", "TPOS"][i / 2];
            let have = m.text(k).map_or((None, None), pair);
            match pair_set(have, i % 2 == 1, v) {
                Some(p) => drop(m.put(f(k, "", &p))),
                None => drop(m.del(k)),
            }
        },
        |m, v| {
            m.del("TDRC");
            if let Some(v) = v {
                m.put(f("TDRC", "", v));
            }
        },
    );
    let e = TextEncoding::UTF8;
    let frames: Vec<Frame<'static>> = vec![
        Frame::Text(TextInformationFrame::new(id("TIT2"), e, "b")),
        Frame::Text(TextInformationFrame::new(id("TIT2"), TextEncoding::UTF16, "c")),
        Frame::Text(TextInformationFrame::new(id("TMOO"), e, "m")),
        Frame::Text(TextInformationFrame::new(id("TRCK"), e, "5/6")),
        Frame::Comment(CommentFrame::new(e, Lang::from(*b"eng"), "", "c1")),
        Frame::Comment(CommentFrame::new(e, Lang::from(*b"eng"), "", "c2")),
        Frame::Comment(CommentFrame::new(e, Lang::from(*b"eng"), "desc", "c3")),
        Frame::Comment(CommentFrame::new(e, Lang::from(*b"fra"), "", "c4")),
        Frame::UserText(ExtendedTextFrame::new(e, "D", "u1")),
        Frame::UserText(ExtendedTextFrame::new(e, "", "u2")),
        Frame::UserUrl(ExtendedUrlFrame::new(e, "D", "w1")),
        Frame::UserUrl(ExtendedUrlFrame::new(e, "D", "w2")),
        Frame::Url(UrlLinkFrame::new(id("WOAF"), "u")),
        Frame::Url(UrlLinkFrame::new(id("WOAF"), "v")),
        Frame::Timestamp(TimestampFrame::new(id("TDRC"), e, ts("2011"))),
        Frame::Timestamp(TimestampFrame::new(id("TDRC"), e, ts("2012-03"))),
        Frame::Timestamp(TimestampFrame::new(id("TDOR"), e, ts("2013"))),
        Frame::KeyValue(KeyValueFrame::new(id("TIPL"), e, vec![("k".into(), "v".into())])),
        Frame::KeyValue(KeyValueFrame::new(id("TIPL"), e, vec![("k".into(), "w".into())])),
        Frame::Popularimeter(PopularimeterFrame::new("e", 1, 2)),
        Frame::Popularimeter(PopularimeterFrame::new("e", 3, 4)),
        Frame::Popularimeter(PopularimeterFrame::new("g", 5, 6)),
        Frame::UniqueFileIdentifier(UniqueFileIdentifierFrame::new("o", vec![1])),
        Frame::UniqueFileIdentifier(UniqueFileIdentifierFrame::new("o", vec![2])),
        Frame::Private(PrivateFrame::new("o", vec![1])),
        Frame::Private(PrivateFrame::new("o", vec![2])),
        Frame::Binary(BinaryFrame::new(id("MCDI"), vec![1])),
        Frame::Binary(BinaryFrame::new(id("MCDI"), vec![2])),
        Frame::Binary(BinaryFrame::new(id("XABC"), vec![1])),
        Frame::Binary(BinaryFrame::new(id("XABC"), vec![2])),
    ];
    let mut ids = Vec::new();
    for x in frames {
        let m = of_frame(&x);
        if !ids.contains(&m.id) {
            ids.push(m.id.clone());
        }
        ops.push(op(
            format!("insert({} {:?} {:?})", m.id, m.slot, m.val),
            move |t: &mut Id3v2Tag| format!("{:?}", t.insert(x.clone()).map(|x| of_frame(&x))),
            move |mm: &mut M2| format!("{:?}", mm.put(m.clone())),
        ));
    }
    for i in ids {
        let (i2, i3) = (FrameId::new(i.clone()).expect("valid"), i.clone());
        ops.push(op(
            format!("remove({i})"),
            move |t: &mut Id3v2Tag| format!("{:?}", t.remove(&i2).map(|x| of_frame(&x)).collect::<Vec<_>>()),
            move |m: &mut M2| format!("{:?}", m.del(&i3)),
        ));
    }
    ops.push(op(
        "insert_user_text(D)",
        |t: &mut Id3v2Tag| format!("{:?}", t.insert_user_text("D".into(), "u5".into()).map(|x| of_frame(&x))),
        |m: &mut M2| format!("{:?}", m.put(f("TXXX", "D", "u5"))),
    ));
    ops.push(op(
        "remove_user_text(D)",
        |t: &mut Id3v2Tag| format!("{:?}", t.remove_user_text("D").map(|x| of_frame(&x))),
        |m: &mut M2| {
            let at = m.frames.iter().position(|x| x.id == "TXXX" && x.slot == "D");
            format!("{:?}", at.map(|at| m.frames.remove(at)))
        },
    ));
    ops.push(op(
        "retain(not COMM)",
        |t: &mut Id3v2Tag| {
            t.retain(|x| x.id().as_str() != "COMM");
            String::new()
        },
        |m: &mut M2| {
            m.del("COMM");
            String::new()
        },
    ));
    for (ty, n) in [(PictureType::CoverFront, 1), (PictureType::CoverFront, 2), (PictureType::Icon, 3), (PictureType::Icon, 4), (PictureType::OtherIcon, 5)] {
        ops.push(op(
            format!("insert_picture({ty:?}#{n})"),
            move |t: &mut Id3v2Tag| format!("{:?}", t.insert_picture(pic(ty, n)).map(|x| of_frame(&x))),
            move |m: &mut M2| {
                let icon = matches!(ty, PictureType::Icon | PictureType::OtherIcon);
                let s = format!("{ty:?}#{n}");
                let at = m.frames.iter().position(|x| icon && x.id == "APIC" && x.slot.starts_with(&format!("{ty:?}#")));
                let r = at.map(|at| m.frames.remove(at));
                m.frames.push(f("APIC", &s, &s));
                format!("{r:?}")
            },
        ));
    }
    ops.push(op(
        "insert(APIC CoverFront#1)",
        |t: &mut Id3v2Tag| format!("{:?}", t.insert(Frame::Picture(AttachedPictureFrame::new(TextEncoding::UTF8, pic(PictureType::CoverFront, 1)))).map(|x| of_frame(&x))),
        |m: &mut M2| format!("{:?}", m.put(f("APIC", "CoverFront#1", "CoverFront#1"))),
    ));
    ops.push(op(
        "remove_picture_type(CoverFront)",
        |t: &mut Id3v2Tag| {
            t.remove_picture_type(PictureType::CoverFront);
            String::new()
        },
        |m: &mut M2| {
            m.frames.retain(|x| !x.slot.starts_with("CoverFront#"));
            String::new()
        },
    ));
    ops.push(op(
        "clear",
        |t: &mut Id3v2Tag| {
            TagExt::clear(t);
            String::new()
        },
        |m: &mut M2| {
            m.frames.clear();
            String::new()
        },
    ));
    let mut t = Id3v2Tag::new();
    let mut m = M2::default();
    for x in [
        Frame::Comment(CommentFrame::new(e, Lang::from(*b"deu"), "d", "x")),
        Frame::Comment(CommentFrame::new(e, Lang::from(*b"deu"), "", "y")),
        Frame::Comment(CommentFrame::new(e, Lang::from(*b"eng"), "", "z")),
        Frame::Text(TextInformationFrame::new(id("TPOS"), e, "1/2")),
        Frame::UserText(ExtendedTextFrame::new(e, "D", "u")),
        Frame::Text(TextInformationFrame::new(id("TCON"), e, "17\0Other")),
    ] {
        m.put(of_frame(&x));
        t.insert(x);
    }
    explore(ctx, "Id3v2", vec![("empty", Id3v2Tag::new(), M2::default()), ("populated", t, m)], ops, obs, mobs, ctx.q(3, 4), ctx.q(60_000, 600_000));
}

// ---------------------------------------------------------------- the generic tag
#[derive(Clone, Debug)]
struct MG {
    ty: TagType,
    items: Vec<(ItemKey, ItemValue)>,
    pics: Vec<(PictureType, u8)>,
}
impl MG {
    fn new(ty: TagType) -> Self {
        MG { ty, items: Vec::new(), pics: Vec::new() }
    }
    fn ok(&self, k: ItemKey) -> bool {
        supports(self.ty, k)
    }
    fn text(&self, k: ItemKey) -> Option<&str> {
        self.items.iter().find(|i| i.0 == k).and_then(|i| i.1.text())
    }
    fn del(&mut self, k: ItemKey) -> Vec<(ItemKey, ItemValue)> {
        let r = self.items.iter().filter(|i| i.0 == k).cloned().collect();
        self.items.retain(|i| i.0 != k);
        r
    }
    fn set(&mut self, k: ItemKey, v: ItemValue) -> bool {
        if self.ok(k) {
            self.del(k);
            self.items.push((k, v));
        }
        self.ok(k)
    }
}
fn supports(ty: TagType, k: ItemKey) -> bool {
    use ItemKey::*;
    match ty {
        TagType::Id3v1 => matches!(k, TrackTitle | AlbumTitle | TrackArtist | TrackNumber | Year | RecordingDate | Genre | Comment),
        _ => k.map_key(ty).is_some(),
    }
}
fn generic(ctx: &Ctx, ty: TagType) {
    use ItemKey::*;
    const T: [ItemKey; 5] = [TrackArtist, TrackTitle, AlbumTitle, Genre, Comment];
    const N: [ItemKey; 4] = [TrackNumber, TrackTotal, DiscNumber, DiscTotal];
    const WATCH: [ItemKey; 6] = [TrackTitle, Genre, Year, RecordingDate, EncoderSettings, Performer];
    let mobs = |m: &MG| Obs {
        acc: Acc {
            text: std::array::from_fn(|i| m.text(T[i]).map(String::from)),
            num: std::array::from_fn(|i| m.text(N[i]).and_then(|t| t.parse().ok())),
            date: mdate(m.text(RecordingDate).or(m.text(Year))),
        },
        raw: grouped(m.items.iter().map(|i| (format!("{:?}", i.0), format!("{:?}", i.1))).collect()),
        len: m.items.len() + m.pics.len(),
        empty: m.items.is_empty() && m.pics.is_empty(),
        more: WATCH
            .iter()
            .map(|k| {
                let all: Vec<&ItemValue> = m.items.iter().filter(|i| i.0 == *k).map(|i| &i.1).collect();
                let b = |conv: bool| match all.first() {
                    Some(ItemValue::Binary(b)) => Some(b.clone()),
                    Some(ItemValue::Text(t) | ItemValue::Locator(t)) if conv => Some(t.clone().into_bytes()),
                    _ => None,
                };
                format!(
                    "{:?} {:?} {:?} {:?} {:?} {:?} {}",
                    all.first(),
                    b(false),
                    b(true),
                    all.iter().filter_map(|v| v.text()).collect::<Vec<_>>(),
                    all.iter().filter_map(|v| v.locator()).collect::<Vec<_>>(),
                    all.iter().filter_map(|v| v.binary()).collect::<Vec<_>>(),
                    !all.is_empty()
                )
            })
            .chain([
                m.pics.iter().map(|p| format!("{:?}#{}", p.0, p.1)).collect::<Vec<_>>().join(","),
                format!("{:?}", m.pics.iter().find(|p| p.0 == PictureType::CoverFront).map(|p| p.1)),
                format!("{:?} {} {}", m.ty, m.items.len(), m.pics.len()),
            ])
            .collect(),
    };
    let obs = |t: &Tag| Obs {
        acc: acc(t),
        raw: grouped(t.items().map(|i| (format!("{:?}", i.key()), format!("{:?}", i.value()))).collect()),
        len: t.len(),
        empty: t.is_empty(),
        more: WATCH
            .iter()
            .map(|k| {
                format!(
                    "{:?} {:?} {:?} {:?} {:?} {:?} {}",
                    t.get(*k).map(TagItem::value),
                    t.get_binary(*k, false),
                    t.get_binary(*k, true),
                    t.get_strings(*k).collect::<Vec<_>>(),
                    t.get_locators(*k).collect::<Vec<_>>(),
                    t.get_bytes(*k).collect::<Vec<_>>(),
                    t.contains(*k)
                )
            })
            .chain([
                t.pictures().iter().map(pics).collect::<Vec<_>>().join(","),
                format!("{:?}", t.get_picture_type(PictureType::CoverFront).map(|p| p.data()[0])),
                format!("{:?} {} {}", t.tag_type(), t.item_count(), t.picture_count()),
            ])
            .collect(),
    };
    let mut ops: Vec<Op<Tag, MG>> = accessor_ops(
        &["a", ""],
        &[3, 0],
        &["2020", "1999-05-06"],
        |m, i, v| match v {
            Some(v) => drop(m.set(T[i], ItemValue::Text(v.into()))),
            None => drop(m.del(T[i])),
        },
        |m, i, v| match v {
            Some(v) => drop(m.set(N[i], ItemValue::Text(v.to_string()))),
            None => drop(m.del(N[i])),
        },
        |m, v| match v {
            Some(v) => {
                m.del(Year);
                m.set(RecordingDate, ItemValue::Text(v.into()));
            },
            None => {
                m.del(Year);
                m.del(RecordingDate);
            },
        },
    );
    let items: Vec<(ItemKey, ItemValue)> = vec![
        (TrackTitle, ItemValue::Text("b".into())),
        (TrackTitle, ItemValue::Binary(vec![1, 2])),
        (Genre, ItemValue::Text("g".into())),
        (Genre, ItemValue::Text(String::new())),
        (Year, ItemValue::Text("1987".into())),
        (RecordingDate, ItemValue::Text("nope".into())),
        (TrackNumber, ItemValue::Text("no".into())),
        (EncoderSettings, ItemValue::Locator("l".into())),
        (EncoderSettings, ItemValue::Binary(vec![])),
        (Performer, ItemValue::Text("p".into())),
    ];
    for (k, v) in items {
        for how in ["insert", "push", "insert_unchecked", "push_unchecked"] {
            let (v1, v2) = (v.clone(), v.clone());
            ops.push(op(
                format!("{how}({k:?},{v:?})"),
                move |t: &mut Tag| {
                    let i = TagItem::new(k, v1.clone());
                    match how {
                        "insert" => t.insert(i).to_string(),
                        "push" => t.push(i).to_string(),
                        "insert_unchecked" => {
                            t.insert_unchecked(i);
                            String::new()
                        },
                        _ => {
                            t.push_unchecked(i);
                            String::new()
                        },
                    }
                },
                move |m: &mut MG| {
                    let checked = !how.ends_with("unchecked");
                    let ok = !checked || m.ok(k);
                    if ok {
                        if how.starts_with("insert") {
                            m.del(k);
                        }
                        m.items.push((k, v2.clone()));
                    }
                    if checked { ok.to_string() } else { String::new() }
                },
            ));
        }
    }
    for k in [TrackTitle, Genre, Year] {
        ops.push(op(
            format!("take({k:?})"),
            move |t: &mut Tag| format!("{:?}", t.take(k).map(|i| i.consume().1).collect::<Vec<_>>()),
            move |m: &mut MG| format!("{:?}", m.del(k).into_iter().map(|i| i.1).collect::<Vec<_>>()),
        ));
        ops.push(op(
            format!("take_filter({k:?}, text longer than 0)"),
            move |t: &mut Tag| format!("{:?}", t.take_filter(k, |i| i.value().text().is_some_and(|t| !t.is_empty())).map(|i| i.consume().1).collect::<Vec<_>>()),
            move |m: &mut MG| {
                let hit = |i: &(ItemKey, ItemValue)| i.0 == k && i.1.text().is_some_and(|t| !t.is_empty());
                let r: Vec<_> = m.items.iter().filter(|i| hit(i)).map(|i| i.1.clone()).collect();
                m.items.retain(|i| !hit(i));
                format!("{r:?}")
            },
        ));
        ops.push(op(
            format!("take_strings({k:?})"),
            move |t: &mut Tag| format!("{:?}", t.take_strings(k).collect::<Vec<_>>()),
            move |m: &mut MG| format!("{:?}", m.del(k).into_iter().filter_map(|i| i.1.text().map(String::from)).collect::<Vec<_>>()),
        ));
        ops.push(op(
            format!("remove_key({k:?})"),
            move |t: &mut Tag| {
                t.remove_key(k);
                String::new()
            },
            move |m: &mut MG| {
                m.del(k);
                String::new()
            },
        ));
    }
    ops.push(op(
        "remove_empty",
        |t: &mut Tag| {
            t.remove_empty();
            String::new()
        },
        |m: &mut MG| {
            m.items.retain(|i| match &i.1 {
                ItemValue::Text(t) | ItemValue::Locator(t) => !t.is_empty(),
                ItemValue::Binary(b) => !b.is_empty(),
            });
            String::new()
        },
    ));
    ops.push(op(
        "retain(text)",
        |t: &mut Tag| {
            t.retain(|i| i.value().text().is_some());
            String::new()
        },
        |m: &mut MG| {
            m.items.retain(|i| i.1.text().is_some());
            String::new()
        },
    ));
    for (p, n) in [(PictureType::CoverFront, 1), (PictureType::CoverFront, 2), (PictureType::Icon, 3)] {
        ops.push(op(
            format!("push_picture({p:?}#{n})"),
            move |t: &mut Tag| {
                t.push_picture(pic(p, n));
                String::new()
            },
            move |m: &mut MG| {
                m.pics.push((p, n));
                String::new()
            },
        ));
    }
    for at in [0usize, 1] {
        ops.push(op(
            format!("set_picture({at})"),
            move |t: &mut Tag| {
                t.set_picture(at, pic(PictureType::CoverBack, 6));
                String::new()
            },
            move |m: &mut MG| {
                if at >= m.pics.len() { m.pics.push((PictureType::CoverBack, 6)) } else { m.pics[at] = (PictureType::CoverBack, 6) }
                String::new()
            },
        ));
    }
    ops.push(op(
        "remove_picture(0)",
        |t: &mut Tag| if t.pictures().is_empty() { String::new() } else { pics(&t.remove_picture(0)) },
        |m: &mut MG| {
            if m.pics.is_empty() {
                return String::new();
            }
            let p = m.pics.remove(0);
            format!("{:?}#{}", p.0, p.1)
        },
    ));
    ops.push(op(
        "remove_picture_type(CoverFront)",
        |t: &mut Tag| {
            t.remove_picture_type(PictureType::CoverFront);
            String::new()
        },
        |m: &mut MG| {
            m.pics.retain(|p| p.0 != PictureType::CoverFront);
            String::new()
        },
    ));
    for to in [TagType::Id3v1, TagType::VorbisComments, TagType::AiffText] {
        ops.push(op(
            format!("re_map({to:?})"),
            move |t: &mut Tag| {
                t.re_map(to);
                String::new()
            },
            move |m: &mut MG| {
                m.ty = to;
                m.items.retain(|i| supports(to, i.0));
                String::new()
            },
        ));
    }
    ops.push(op(
        "clear",
        |t: &mut Tag| {
            t.clear();
            String::new()
        },
        |m: &mut MG| {
            m.items.clear();
            m.pics.clear();
            String::new()
        },
    ));
    let mut t = Tag::new(ty);
    let mut m = MG::new(ty);
    for (k, v) in [(Genre, "g1"), (TrackTitle, "one"), (Genre, "g2"), (Year, "2001"), (Genre, "g3"), (TrackTitle, "two")] {
        t.push(TagItem::new(k, ItemValue::Text(v.into())));
        if supports(ty, k) {
            m.items.push((k, ItemValue::Text(v.into())));
        }
    }
    explore(ctx, &format!("Tag/{ty:?}"), vec![("empty", Tag::new(ty), MG::new(ty)), ("populated", t, m)], ops, obs, mobs, ctx.q(3, 4), ctx.q(400_000, 400_000));
}

/// Every kind of frame takes every combination of flags, and keeps the rest.
fn flags(cx: &Ctx) {
    let mut list = rich::frames();
    list.dedup_by_key(|x| x.0.clone());
    cx.note("frame_flags", json!(list.len()));
    for (n, f) in &list {
        for k in 0..1usize << 7 {
            let fl = FrameFlags {
                tag_alter_preservation: k & 1 != 0,
                file_alter_preservation: k & 2 != 0,
                read_only: k & 4 != 0,
                grouping_identity: (k & 8 != 0).then_some(9),
                compression: k & 16 != 0,
                encryption: (k & 32 != 0).then_some(7),
                unsynchronisation: k & 64 != 0,
                ..FrameFlags::default()
            };
            cx.eval(&(n, k));
            let mut g = f.clone();
            g.set_flags(fl);
            let own = |g: Frame<'static>| -> Option<FrameFlags> {
                macro_rules! each { ($($v:ident)*) => { match g { $(Frame::$v(mut x) => { x.set_flags(FrameFlags::default()); x.set_flags(fl); Some(x.flags()) })* _ => None } } }
                each!(Comment UnsynchronizedText Text UserText Url UserUrl Picture Popularimeter KeyValue RelativeVolumeAdjustment UniqueFileIdentifier Ownership EventTimingCodes Private Timestamp Binary)
            };
            let mut back = g.clone();
            back.set_flags(f.flags());
            if g.flags() != fl || own(g.clone()).is_some_and(|o| o != fl) || g.id() != f.id() || back != *f {
                return cx.violation(format!("frame-flags:{n}:{k}"), format!("set {fl:?}, got {:?} and {:?}", g.flags(), own(g.clone())), vec![]);
            }
        }
    }
}
pub fn run(ctx: &Ctx) -> i32 {
    flags(ctx);
    vorbis(ctx);
    riff(ctx);
    ape(ctx);
    id3v1(ctx);
    aiff(ctx);
    ilst(ctx);
    id3v2(ctx);
    for ty in [TagType::Id3v2, TagType::Id3v1, TagType::Ape, TagType::Mp4Ilst, TagType::VorbisComments, TagType::RiffInfo, TagType::AiffText] {
        generic(ctx, ty);
    }
    ctx.finish(
        "model_checking",
        "every sequence of calls (all ten accessor fields with two or more values each, and every collection call of the type) up to the depth, from an empty and a populated tag of every type, runs on the real tag and on an independent list model; sequences that lead to the same contents are merged; after every call its result, all getters, the contents (in order per key), len and is_empty are compared",
        &[
            "numbers and totals share one item in ID3v2, APE and ilst: a total alone stands next to the number 0 and a removed number takes its total along; in ilst a total of 0 is shown for a number alone",
            "ID3v1 ignores unknown genres and numbers above 255, cuts comments to 28 characters and keeps the year of a date; ilst ignores numbers above 65535 (documented)",
            "entries with different keys may change places",
        ],
        true,
    )
}
