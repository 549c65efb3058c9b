//! Explicit-state exploration of edit histories on the real implementation (C03, C04, C05, C06).
//! State = the bytes of the file + the abstract model of what the history implies.
use crate::api::*;
use crate::contents::*;
use crate::ctx::*;
use crate::layouts::*;
use crate::walk::*;
use serde_json::json;
use std::collections::{BTreeMap, HashSet, VecDeque};
use std::sync::atomic::Ordering;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Op {
    Save(T, K, u32),
    Remove(T),
}
impl std::fmt::Display for Op {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Op::Save(t, k, p) => write!(f, "S({t:?},{k:?},{p})"),
            Op::Remove(t) => write!(f, "R({t:?})"),
        }
    }
}
type Model = BTreeMap<T, String>;

pub fn apply(b: &[u8], op: Op) -> (Result<(), String>, Vec<u8>) {
    match op {
        Op::Save(t, k, p) => content(t, k).save2(b, opts(p)),
        Op::Remove(t) => remove(b, t, opts(1024)),
    }
}
/// Tags of a fresh read as a map; empty tags count as absent.
pub fn observe(f: Fmt, b: &[u8]) -> Result<(Model, String), String> {
    let r = read(f, b, po())?;
    let mut m = Model::new();
    for t in r.tags {
        if !t.is_empty() {
            m.insert(t.t(), novendor(t).sig());
        }
    }
    Ok((m, r.props))
}
/// Audio properties minus what legitimately depends on the size of the whole file.
pub fn stable_props(f: Fmt, p: &str) -> (String, u64) {
    let mut s = String::new();
    let mut dur = 0;
    for part in p.split(", ") {
        if part.contains("overall_bitrate") {
            continue;
        }
        // estimated from the file size (page headers included) when the header does not state it
        if f == Fmt::Speex && part.contains("audio_bitrate") && p.contains("nominal_bitrate: -1") {
            continue;
        }
        if f == Fmt::Aac && part.starts_with("duration") {
            dur = dur_us(part);
            continue;
        }
        s.push_str(part);
        s.push_str(", ");
    }
    (s, dur)
}
fn dur_us(s: &str) -> u64 {
    let v = s.rsplit(": ").next().unwrap_or("");
    let (n, m) = if let Some(n) = v.strip_suffix("ms") {
        (n, 1e3)
    } else if let Some(n) = v.strip_suffix("µs") {
        (n, 1.0)
    } else if let Some(n) = v.strip_suffix("ns") {
        (n, 1e-3)
    } else {
        (v.strip_suffix('s').unwrap_or(v), 1e6)
    };
    (n.parse::<f64>().unwrap_or(0.0) * m) as u64
}
/// AAC durations are an estimate (stream size / bitrate) that may include the 10-byte headers of up to two tags; everything else is exact.
pub fn same_props(f: Fmt, a: &str, b: &str) -> bool {
    let (x, y) = (stable_props(f, a), stable_props(f, b));
    let rate = a.split("audio_bitrate: ").nth(1).and_then(|s| s.split(',').next()).and_then(|s| s.parse::<u64>().ok()).unwrap_or(1).max(1);
    x.0 == y.0 && x.1.abs_diff(y.1) <= 160_000 / rate + 1000
}
pub fn expected(t: T, k: K) -> Option<String> {
    let c = content(t, k);
    if c.is_empty() { None } else { Some(novendor(c).sig()) }
}
/// Containers keep their own vendor string: it identifies the encoder, not the tag.
pub fn novendor(n: N) -> N {
    match n {
        N::Vorbis(mut v) => {
            v.set_vendor(String::new());
            N::Vorbis(v)
        }
        n => n,
    }
}
struct St {
    bytes: Vec<u8>,
    model: Model,
    path: Vec<Op>,
}
pub struct Cfg {
    pub depth: usize,
    pub ops: Vec<Op>,
    pub max_states: usize,
}
pub fn ops_for(f: Fmt, full: bool, prop: &str) -> Vec<Op> {
    let mut v = Vec::new();
    let multi = writable(f).len() > 1;
    for t in writable(f) {
        let ks: &[K] = match (prop, full) {
            ("C04", _) if multi => &[K::E, K::A, K::B],
            (_, false) => &[K::E, K::A, K::B, K::C, K::P, K::L(1), K::L(2), K::L(3), K::L(4), K::L(6), K::L(7), K::L(8), K::L(9)],
            (_, true) => &[
                K::E, K::A, K::B, K::C, K::P, K::H, K::L(1), K::L(2), K::L(3), K::L(4), K::L(5), K::L(6), K::L(7), K::L(8), K::L(9), K::L(10), K::L(11), K::L(12), K::L(13),
                K::L(17), K::L(20),
            ],
        };
        for k in ks {
            if *k == K::P && matches!(t, T::Id3v1 | T::RiffInfo | T::AiffText) {
                continue;
            }
            if *k == K::H && t == T::Id3v1 {
                continue;
            }
            let pads: &[u32] = match (prop, full) {
                ("C04", false) => &[1024],
                ("C04", true) => &[0, 1024],
                (_, false) => &[0, 2, 1024],
                (_, true) => &[0, 2, 9, 1024],
            };
            for p in pads {
                // padding only matters for these
                if *p != 1024 && !matches!(t, T::Id3v2 | T::Ilst | T::Vorbis) {
                    continue;
                }
                if *p != 1024 && matches!(f, Fmt::Opus | Fmt::Vorbis | Fmt::Speex) {
                    continue;
                }
                v.push(Op::Save(t, *k, *p));
            }
        }
    }
    for t in readable(f) {
        v.push(Op::Remove(t));
    }
    v
}
pub fn explore(cx: &Ctx, l: &Layout, cfg: &Cfg, prop: &'static str) {
    let name = format!("{:?}/{}", l.fmt, l.name);
    if cx.skip(&name) {
        return;
    }
    let a0 = anatomy(l.fmt, &l.bytes);
    assert!(!l.core || a0.errs.is_empty(), "builder produced an invalid file: {name}: {:?}", a0.errs);
    let (m0, props0) = match guard(|| observe(l.fmt, &l.bytes)) {
        Ok(Ok(x)) => x,
        Ok(Err(e)) | Err(e) => {
            cx.violation(format!("{name}:initial"), format!("well-formed file is rejected: {e}"), vec![("bin", &l.bytes)]);
            return;
        }
    };
    let mut seen: HashSet<u64> = HashSet::new();
    let mut q = VecDeque::new();
    seen.insert(h64(&l.bytes));
    cx.states.fetch_add(1, Ordering::Relaxed);
    q.push_back(St { bytes: l.bytes.clone(), model: m0, path: vec![] });
    let mut maxlen = l.bytes.len();
    let mut closed = true;
    let mut deepest = 0;
    while let Some(st) = q.pop_front() {
        if st.path.len() >= cfg.depth || seen.len() > cfg.max_states {
            closed = false;
            continue;
        }
        deepest = deepest.max(st.path.len() + 1);
        let abefore = anatomy(l.fmt, &st.bytes);
        for op in &cfg.ops {
            let mut path = st.path.clone();
            path.push(*op);
            let ps = path.iter().map(|o| o.to_string()).collect::<Vec<_>>().join(";");
            let key = format!("{name}:{ps}");
            cx.case(&key, &st.bytes);
            cx.transitions.fetch_add(1, Ordering::Relaxed);
            cx.eval(&key);
            let mut bad = false;
            let mut viol = |p: &str, cls: &str, what: String, after: &[u8]| {
                bad = true;
                if p.split('|').any(|x| x == prop) {
                    cx.violation(
                        format!("{key}:{cls}"),
                        format!("{what} [layout {name}, history {ps}]"),
                        vec![("initial.bin", &l.bytes), ("before.bin", &st.bytes), ("after.bin", after)],
                    );
                }
            };
            let r = guard(|| apply(&st.bytes, *op));
            let (res, after) = match r {
                Err(p) => {
                    viol("C03|C04|C05|C06", "panic", format!("panic: {p}"), &[]);
                    continue;
                }
                Ok(x) => x,
            };
            if let Err(e) = res {
                viol("C03|C04|C05|C06", "refused", format!("the edit is refused: {e}"), &after);
                continue;
            }
            let mut model = st.model.clone();
            match op {
                Op::Save(t, k, _) => match expected(*t, *k) {
                    Some(s) => {
                        model.insert(*t, s);
                    }
                    None => {
                        model.remove(t);
                    }
                },
                Op::Remove(t) => {
                    model.remove(t);
                }
            }
            let aafter = anatomy(l.fmt, &after);
            // C06 structure
            if l.core && !aafter.errs.is_empty() {
                viol("C06", "structure", format!("container invalid after the edit: {}", aafter.errs.join("; ")), &after);
            }
            // C03 foreign data
            if let Err(e) = same_foreign(l.fmt, &abefore, &aafter) {
                viol("C03", "foreign", format!("data outside the tags changed: {e}"), &after);
            }
            // C04 model
            match guard(|| observe(l.fmt, &after)) {
                Err(e) => viol("C03|C04|C06", "readpanic", format!("reading back panics: {e}"), &after),
                Ok(Err(e)) => viol("C03|C04|C06", "readback", format!("the edited file is rejected: {e}"), &after),
                Ok(Ok((m, props))) => {
                    cx.traces.fetch_add(1, Ordering::Relaxed);
                    cx.outcome(&(name.as_str(), h64(&after)));
                    if m != model {
                        let mut d = String::new();
                        for t in ALL_T {
                            match (model.get(&t), m.get(&t)) {
                                (Some(a), Some(b)) if a != b => d.push_str(&format!("{t:?} should be {a} but reads {b}; ")),
                                (Some(_), None) => d.push_str(&format!("{t:?} lost; ")),
                                (None, Some(b)) => d.push_str(&format!("{t:?} should be absent but reads {b}; ")),
                                _ => {}
                            }
                        }
                        viol("C04", "model", d, &after);
                    }
                    if !same_props(l.fmt, &props, &props0) {
                        viol("C03", "props", format!("audio properties changed: {props0} -> {props}"), &after);
                    }
                }
            }
            // the independent walker sees the edited tag exactly once, or not at all
            {
                let t = match op {
                    Op::Save(t, ..) | Op::Remove(t) => *t,
                };
                let n = aafter.count(t);
                let want = usize::from(model.contains_key(&t));
                let optional = t == T::Vorbis || t == T::Ilst; // containers may keep an empty comment list
                if n != want && !(optional && want == 0 && n <= 1) {
                    viol("C04", "count", format!("{n} {t:?} tags in the file, expected {want}"), &after);
                }
            }
            // other tags keep their exact bytes
            let touched = match op {
                Op::Save(t, ..) | Op::Remove(t) => *t,
            };
            for t in readable(l.fmt) {
                if t != touched {
                    let g = |a: &Anat| a.tags.iter().filter(|x| x.0 == t).map(|x| x.1.clone()).collect::<Vec<_>>();
                    if g(&abefore) != g(&aafter) {
                        viol("C04", "bytes", format!("the bytes of the untouched {t:?} tag changed"), &after);
                    }
                }
            }
            // C05 fixpoint
            match guard(|| apply(&after, *op)) {
                Ok((Ok(()), again)) => {
                    if again != after {
                        viol("C05", "fixpoint", format!("repeating the edit changes the file: {} -> {} -> {} bytes", st.bytes.len(), after.len(), again.len()), &again);
                    }
                }
                Ok((Err(e), b)) => viol("C05", "again", format!("repeating the edit fails: {e}"), &b),
                Err(e) => viol("C05", "again-panic", format!("repeating the edit panics: {e}"), &[]),
            }
            // C05 read-then-save
            if let Op::Save(t, _, pad) = op {
                if let Ok(Ok(r)) = guard(|| read(l.fmt, &after, po())) {
                    if let Some(n) = r.get(*t) {
                        if !n.is_empty() {
                            match guard(|| n.save(&after, opts(*pad))) {
                                Ok(Ok(b)) => {
                                    if b != after {
                                        viol("C05", "rewrite", format!("reading the tag and saving it unchanged alters the file ({} -> {} bytes)", after.len(), b.len()), &b);
                                    }
                                }
                                Ok(Err(e)) => viol("C05", "rewrite-err", format!("saving the tag just read fails: {e}"), &after),
                                Err(e) => viol("C05", "rewrite-panic", format!("saving the tag just read panics: {e}"), &after),
                            }
                        }
                    }
                }
            }
            if bad {
                continue;
            }
            maxlen = maxlen.max(after.len());
            if seen.insert(h64(&after)) {
                cx.states.fetch_add(1, Ordering::Relaxed);
                if path.len() == 2 {
                    cx.sample(|| json!({"layout":name,"history":ps,"bytes_before":st.bytes.len(),"bytes_after":after.len(),"tags":model.keys().map(|t|format!("{t:?}")).collect::<Vec<_>>()}));
                }
                q.push_back(St { bytes: after, model, path });
            }
        }
    }
    cx.note_add(if closed { "layouts_explored_to_closure" } else { "layouts_cut_by_depth" }, 1);
    if prop == "C05" {
        // bounded growth: nothing the alphabet can do makes the file exceed the sum of its largest parts
        let bound: usize = l.bytes.len()
            + cfg
                .ops
                .iter()
                .map(|o| match o {
                    Op::Save(t, k, p) => content(*t, *k).dump(opts(*p)).map(|d| d.len()).unwrap_or(0) + *p as usize,
                    _ => 0,
                })
                .max()
                .unwrap_or(0)
                * writable(l.fmt).len()
            + 4096;
        if maxlen > bound {
            cx.violation(format!("{name}:growth"), format!("file grew to {maxlen} bytes, bound {bound}"), vec![("initial.bin", &l.bytes)]);
        }
    }
    cx.note_add("max_depth_sum", deepest as u64);
}
pub fn run(cx: &Ctx, prop: &'static str) -> i32 {
    let full = cx.thorough();
    let mut jobs = Vec::new();
    for f in ALL_FMT {
        for l in layouts(f, full || prop != "C04") {
            jobs.push(l);
        }
    }
    cx.note("layouts", json!(jobs.len()));
    if prop == "C06" {
        crate::c24::headers(cx);
    }
    if prop != "C04" {
        // every encoded size within a page/segment/padding window, one save deep
        let mut sizes: Vec<u32> = (1..=cx.q(530, 1100)).collect();
        let big: Vec<u32> = if full { (7_600..8_500).chain(15_900..16_500).chain(64_800..65_700).collect() } else { (7_900..8_170).collect() };
        let mut sweep = Vec::new();
        for (i, l) in jobs.iter().enumerate() {
            if l.name == "bigaudio" {
                continue;
            }
            sweep.push((i, sizes.clone()));
            if matches!(l.fmt, Fmt::Opus | Fmt::Vorbis | Fmt::Speex) {
                sweep.push((i, big.clone()));
            }
        }
        sizes.clear();
        cx.note("size_sweep_jobs", json!(sweep.len()));
        cx.par(&sweep, |(i, sizes)| {
            let l = &jobs[*i];
            let ops = writable(l.fmt).into_iter().filter(|t| *t != T::Id3v1).flat_map(|t| sizes.iter().map(move |n| Op::Save(t, K::M(*n), 64))).collect();
            explore(cx, l, &Cfg { depth: 1, ops, max_states: 100_000 }, prop);
        });
    }
    // every kind of item, one save deep
    {
        let mut sweep = Vec::new();
        for (i, l) in jobs.iter().enumerate() {
            if l.name == "bigaudio" || (!l.core && !full) {
                continue;
            }
            for t in writable(l.fmt) {
                let n = rich_list(t).len();
                for c in (0..n).step_by(200) {
                    sweep.push((i, t, c..(c + 200).min(n)));
                }
            }
        }
        cx.note("rich_sweep_jobs", json!(sweep.len()));
        cx.par(&sweep, |(i, t, r)| {
            let ops = r.clone().map(|n| Op::Save(*t, K::R(n as u16), 64)).collect();
            explore(cx, &jobs[*i], &Cfg { depth: 1, ops, max_states: 100_000 }, prop);
        });
    }
    cx.par(&jobs, |l| {
        let mut ops = ops_for(l.fmt, full, prop);
        if l.name == "bigaudio" {
            ops.retain(|o| !matches!(o, Op::Save(_, K::L(_), _) | Op::Save(_, _, 2 | 9)));
            for t in writable(l.fmt) {
                // differences larger than a copy buffer
                if t != T::Id3v1 {
                    ops.push(Op::Save(t, K::H, 1024));
                }
            }
            let cfg = Cfg { depth: cx.q(2, 3), ops, max_states: 2000 };
            explore(cx, l, &cfg, prop);
            return;
        }
        let depth = match (prop, full) {
            ("C04", false) => 4,
            ("C04", true) => 7,
            (_, false) => 3,
            (_, true) => 5,
        };
        let cfg = Cfg { depth, ops, max_states: cx.q(250, 4000) };
        explore(cx, l, &cfg, prop);
    });
    cx.finish(
        "model_checking",
        "breadth-first exploration of every edit history over the op alphabet (save of each content class x padding, remove, for every tag type of the format) from every initial layout, states deduplicated by file bytes; every transition is executed on the implementation and compared with the abstract tag-set model and independent container walkers",
        &[
            "content classes per tag type: empty, small even, small odd, 3 kB, with picture (thorough: 70 kB)",
            "the strict walkers in harness/src/walk.rs define structural validity and what counts as data outside the tags",
        ],
        false,
    )
}
