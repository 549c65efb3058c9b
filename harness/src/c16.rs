//! C16: global options are per thread and take effect at once, in every interleaving.
//!
//! * `limits`: every allocation limit from 0 to past the size of the file, on reads and saves.
//! * `threads`: all interleavings of whole operations of two (thorough: three) threads.
//! * `calls`: all interleavings, up to a preemption bound, of the reader calls of two threads.
//! * `registry`: registration, detection and reading with custom resolvers, whose callbacks are scheduling points.
use crate::api::*;
use crate::contents::{content, K};
use crate::ctx::*;
use crate::layouts::layouts;
use crate::mk;
use crate::rich::{sized, split};
use crate::walk::*;
use lofty::ape::{ApeItem, ApeTag};
use lofty::config::{apply_global_options, GlobalOptions, ParseOptions, ParsingMode};
use lofty::error::FileParseError;
use lofty::file::{AudioFile, FileType, TaggedFile, TaggedFileExt};
use lofty::id3::v2::{BinaryFrame, Frame, FrameId, Id3v2Tag};
use lofty::ogg::OggPictureStorage;
use lofty::mp4::{Atom, AtomData, AtomIdent, DataType, Ilst};
use lofty::probe::Probe;
use lofty::properties::FileProperties;
use lofty::resolve::{register_custom_resolver, FileResolver};
use lofty::tag::{ItemValue, MergeTag, SplitTag, Tag, TagExt, TagSupport, TagType};
use serde_json::json;
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::io::{Cursor, Read, Seek, SeekFrom};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

const MODES: [ParsingMode; 3] = [ParsingMode::Strict, ParsingMode::BestAttempt, ParsingMode::Relaxed];

struct Limit;
impl Limit {
    fn set(l: usize) -> Limit {
        apply_global_options(GlobalOptions::new().allocation_limit(l));
        Limit
    }
}
impl Drop for Limit {
    fn drop(&mut self) {
        apply_global_options(GlobalOptions::new());
    }
}

// --- limits -------------------------------------------------------------------------------------------------------------------------
/// Smallest and largest buffer an implementation may need for the one item of `n` as stored in `b`.
fn needs(f: Fmt, n: &N, b: &[u8]) -> (usize, usize) {
    let exact = |x: usize| (x, x);
    match n {
        N::Id3v2(_) => {
            let size = |p: usize| b[p..p + 4].iter().fold(0usize, |a, x| a << 7 | *x as usize);
            let p = b.windows(3).position(|w| w == b"ID3").unwrap();
            let frame = size(p + 14);
            // chunks are read as a whole
            if matches!(f, Fmt::Wav | Fmt::Aiff) { (frame, size(p + 6) + 10) } else { exact(frame) }
        }
        N::Ape(x) => {
            let i = x.into_iter().next().unwrap();
            exact(match i.value() {
                ItemValue::Text(s) | ItemValue::Locator(s) => s.len(),
                ItemValue::Binary(d) => d.len(),
            })
        }
        N::Vorbis(x) => {
            let (lo, hi) = match x.items().next() {
                Some((k, v)) => exact(k.len() + 1 + v.len()),
                None => (x.pictures()[0].0.data().len(), b.len()),
            };
            if f == Fmt::Flac { (lo, b.len()) } else { (lo, hi) }
        }
        N::Ilst(x) => {
            let a = x.into_iter().next().unwrap();
            let longest = a.data().map(|d| match d {
                AtomData::UTF8(s) | AtomData::UTF16(s) => s.len(),
                AtomData::Picture(p) => p.data().len(),
                AtomData::Unknown { data, .. } => data.len(),
                _ => 1,
            });
            (longest.max().unwrap(), b.len())
        }
        // stored with a terminator
        N::Riff(x) => exact(x.into_iter().next().unwrap().1.len() + 1),
        N::Aiff(x) => {
            let mut v: Vec<&String> = [&x.name, &x.author, &x.copyright].into_iter().flatten().collect();
            v.extend(x.annotations.iter().flatten());
            v.extend(x.comments.iter().flatten().map(|c| &c.text));
            exact(v.into_iter().map(String::len).max().unwrap())
        }
        N::Id3v1(_) => (0, b.len()),
    }
}
/// Sweeps the limit over `b`; returns the smallest limit that makes the read succeed.
fn sweep(cx: &Ctx, f: Fmt, desc: &str, b: &[u8], m: ParsingMode, top: usize) -> Option<usize> {
    let full = match guard(|| read(f, b, po_mode(m)).map(|x| x.sig())) {
        Ok(Ok(s)) => s,
        _ => return None,
    };
    let mut t = None;
    for l in 0..=top {
        let g = {
            let _l = Limit::set(l);
            guard(|| read(f, b, po_mode(m)).map(|x| x.sig()))
        };
        cx.evals_add(1);
        match g {
            Err(p) => cx.violation(format!("limit:panic:{f:?}"), format!("{desc}, limit {l}, {m:?}: {p}"), vec![("in.bin", b)]),
            Ok(Err(_)) => {
                if let Some(t) = t {
                    cx.violation(format!("limit:not-monotone:{f:?}"), format!("{desc}, {m:?}: limit {t} suffices, limit {l} does not"), vec![("in.bin", b)]);
                }
            }
            Ok(Ok(s)) => {
                if s != full {
                    cx.violation(format!("limit:partial:{f:?}"), format!("{desc}, {m:?}: reading with limit {l} succeeds with a different result\n{s}\n--\n{full}"), vec![("in.bin", b)]);
                }
                t.get_or_insert(l);
            }
        }
    }
    cx.by_construction.fetch_add(top as u64 + 1, Ordering::Relaxed);
    cx.outcome(&(f, desc, m as u8, t));
    t
}
fn deflate_run(first: u8, byte: u8, runs: usize) -> (Vec<u8>, usize) {
    // fixed Huffman: `first`, `byte`, then matches of 258 at distance 1
    let (mut o, mut acc, mut n) = (vec![0x78u8, 0x9C], 0u64, 0u32);
    let mut put = |v: u64, bits: u32, huff: bool| {
        for i in 0..bits {
            let bit = if huff { v >> (bits - 1 - i) } else { v >> i } & 1;
            acc |= bit << n;
            n += 1;
            if n == 8 {
                o.push(acc as u8);
                acc = 0;
                n = 0;
            }
        }
    };
    put(1, 1, false);
    put(1, 2, false);
    put(0x30 + u64::from(first), 8, true);
    put(0x30 + u64::from(byte), 8, true);
    for _ in 0..runs {
        put(0xC5, 8, true);
        put(0, 5, true);
    }
    put(0, 7, true);
    put(0, 7, false);
    let len = 2 + 258 * runs;
    // Adler-32
    let (mut a, mut b) = (1u32, 0u32);
    for x in [first].into_iter().chain(std::iter::repeat_n(byte, len - 1)) {
        a = (a + u32::from(x)) % 65521;
        b = (b + a) % 65521;
    }
    o.extend((b << 16 | a).to_be_bytes());
    (o, len)
}
fn limits(cx: &Ctx) {
    let mut v = Vec::new();
    for f in ALL_FMT {
        for t in writable(f) {
            for &n in cx.q(&[40usize, 129][..], &[7, 40, 129, 200, 256, 1000]) {
                for (name, x) in sized(t, n) {
                    for (item, y) in split(&x) {
                        v.push((f, t, format!("{f:?} with {t:?} {name} {item}"), y));
                    }
                }
            }
        }
    }
    cx.par(&v, |(f, t, desc, y)| {
        if cx.skip(desc) {
            return;
        }
        let base = layouts(*f, false).into_iter().find(|l| l.core).unwrap().bytes;
        let clean = remove(&base, *t, wo()).1;
        let Ok(b) = y.save(&clean, wo()) else { return };
        cx.case(desc, &b);
        let (lo, hi) = needs(*f, y, &b);
        for m in MODES {
            let plain = sweep(cx, *f, &format!("{desc} (removed)"), &clean, m, clean.len() + 2);
            let t1 = sweep(cx, *f, desc, &b, m, b.len() + 2);
            let (Some(p), Some(t1)) = (plain, t1) else {
                if m == ParsingMode::Strict {
                    cx.note_add("limit_files_not_readable", 1);
                }
                continue;
            };
            if t1 < lo {
                cx.violation(format!("limit:ignored:{f:?}:{t:?}"), format!("{desc}, {m:?}: an item of {lo} bytes is read with a limit of {t1}"), vec![("in.bin", &b)]);
            }
            if t1 > hi.max(p) {
                cx.violation(format!("limit:too-strict:{f:?}:{t:?}"), format!("{desc}, {m:?}: {hi} bytes are needed (without the item: {p}), but the smallest limit that works is {t1}"), vec![("in.bin", &b)]);
            }
        }
        cx.case_done();
    });
    // compressed frames, whose content is larger than what the file holds
    for (runs, flags, unsync) in [(1, 0x09u8, false), (4, 0x09, false), (9, 0x09, false), (4, 0x0B, true), (9, 0x0B, true)] {
        for (id, first) in [("TIT2", 0u8), ("TXXX", 0), ("COMM", 0), ("APIC", 0), ("XBIN", b'a'), ("PRIV", b'a'), ("UFID", b'a'), ("WOAR", b'a'), ("POPM", b'a'), ("CHAP", b'a')] {
            let (mut z, len) = deflate_run(first, b'a', runs);
            if unsync {
                z = crate::seeds::unsync(&z);
            }
            let mut c = mk::synch(len as u32).to_vec();
            c.extend(&z);
            let mut fr = id.as_bytes().to_vec();
            fr.extend(mk::synch(c.len() as u32));
            fr.extend([0, flags]);
            fr.extend(&c);
            let mut b = mk::id3v2_tag(4, 0, &fr, 0);
            b.extend(mk::mpeg_audio(6));
            let desc = format!("compressed {id} of {len} bytes in {} bytes", z.len());
            for m in MODES {
                cx.case(&desc, &b);
                let t1 = sweep(cx, Fmt::Mpeg, &desc, &b, m, len + 300);
                if let Some(t1) = t1 {
                    // an owner or description without a terminator may make the parser stop early
                    let lo = if matches!(id, "TIT2" | "XBIN" | "WOAR") { len } else { 200 };
                    if t1 < lo || t1 > len.max(z.len() + 4) {
                        cx.violation("limit:compressed", format!("{desc}, {m:?}: the smallest limit that works is {t1}"), vec![("in.bin", &b)]);
                    }
                    cx.note_add("compressed_frames_swept", 1);
                }
                cx.case_done();
            }
        }
    }
    // saves: either what an unlimited save writes, or an error and an untouched file
    let mut v = Vec::new();
    for f in ALL_FMT {
        for l in layouts(f, cx.thorough()) {
            for t in writable(f) {
                for k in [K::A, K::P, K::E] {
                    v.push((f, l.name.clone(), l.bytes.clone(), t, k));
                }
            }
        }
    }
    cx.par(&v, |(f, name, b, t, k)| {
        let desc = format!("{f:?} layout {name}: save {t:?} {k:?}");
        if cx.skip(&desc) {
            return;
        }
        let n = content(*t, *k);
        let (r, full) = n.save2(b, wo());
        if r.is_err() {
            return;
        }
        cx.case(&desc, b);
        let top = b.len().max(full.len()) + 2;
        let near = |x: usize| x.saturating_sub(6)..x + 3;
        let cap = cx.q(300, 4000);
        for l in (0..top.min(cap)).chain(near(b.len())).chain(near(full.len())).chain((11..24).flat_map(|k| near(1 << k))).filter(|l| *l < cap || *l <= top) {
            let g = {
                let _l = Limit::set(l);
                guard(|| n.save2(b, wo()))
            };
            cx.evals_add(1);
            cx.by_construction.fetch_add(1, Ordering::Relaxed);
            match g {
                Err(p) => cx.violation(format!("save:panic:{f:?}:{t:?}"), format!("{desc}, limit {l}: {p}"), vec![("in.bin", b)]),
                Ok((Ok(()), o)) if o != full => cx.violation(format!("save:different:{f:?}:{t:?}"), format!("{desc}: a save with limit {l} succeeds with other bytes"), vec![("in.bin", b), ("out.bin", &o), ("want.bin", &full)]),
                Ok((Err(e), o)) if o != *b => cx.violation(format!("save:damaged:{f:?}:{t:?}"), format!("{desc}: a save with limit {l} fails ({e}) and leaves other bytes"), vec![("in.bin", b), ("out.bin", &o)]),
                Ok((r, _)) => {
                    cx.outcome(&(&desc, r.is_ok()));
                }
            }
        }
        cx.case_done();
    });
}

// --- controlled scheduler -----------------------------------------------------------------------------------------------------------
#[derive(Default)]
struct St {
    turn: Option<usize>,
    done: Vec<bool>,
    /// (choice taken, number of choices) at every scheduling point with more than one choice
    trace: Vec<(usize, usize)>,
    preempt: usize,
    order: Vec<usize>,
    free: bool,
}
struct Sched {
    m: Mutex<St>,
    cv: Condvar,
    prefix: Vec<usize>,
    bound: usize,
}
thread_local! {
    static ME: RefCell<Option<(Arc<Sched>, usize)>> = const { RefCell::new(None) };
}
impl Sched {
    /// Chooses the next thread; `from` is the one that is giving up control and still enabled.
    fn pick(&self, s: &mut St, from: Option<usize>) {
        let mut en: Vec<usize> = (0..s.done.len()).filter(|i| !s.done[*i]).collect();
        if en.is_empty() {
            s.turn = None;
            return;
        }
        if let Some(f) = from {
            en.retain(|x| *x != f);
            en.insert(0, f);
            if s.preempt >= self.bound {
                en.truncate(1);
            }
        }
        let mut c = 0;
        if en.len() > 1 {
            c = self.prefix.get(s.trace.len()).copied().unwrap_or(0);
            s.trace.push((c, en.len()));
        }
        if from.is_some() && c > 0 {
            s.preempt += 1;
        }
        s.turn = Some(en[c]);
        s.order.push(en[c]);
    }
    fn wait(&self, mut s: std::sync::MutexGuard<'_, St>, me: usize) {
        while s.turn != Some(me) && !s.free {
            s = self.cv.wait(s).unwrap();
        }
    }
    fn point(&self, me: usize) {
        let mut s = self.m.lock().unwrap();
        if s.free {
            return;
        }
        self.pick(&mut s, Some(me));
        if s.turn != Some(me) {
            self.cv.notify_all();
            self.wait(s, me);
        }
    }
}
/// A scheduling point of the current thread, if it is under control.
fn point() {
    let me = ME.with(|m| m.borrow().clone());
    if let Some((s, i)) = me {
        s.point(i);
    }
}
type Prog = Box<dyn FnOnce() -> Vec<String> + Send>;
enum Run {
    Done(Vec<Vec<String>>, Vec<(usize, usize)>, Vec<usize>),
    Stuck(Vec<usize>),
}
fn run_once(progs: Vec<Prog>, prefix: Vec<usize>, bound: usize) -> Run {
    let n = progs.len();
    let sc = Arc::new(Sched { m: Mutex::new(St { done: vec![false; n], ..St::default() }), cv: Condvar::new(), prefix, bound });
    let out = Arc::new(Mutex::new(vec![Vec::new(); n]));
    let mut hs = Vec::new();
    for (i, p) in progs.into_iter().enumerate() {
        let (sc, out) = (sc.clone(), out.clone());
        hs.push(std::thread::spawn(move || {
            ME.with(|m| *m.borrow_mut() = Some((sc.clone(), i)));
            sc.wait(sc.m.lock().unwrap(), i);
            let r = guard(p).unwrap_or_else(|e| vec![format!("panic: {e}")]);
            out.lock().unwrap()[i] = r;
            ME.with(|m| *m.borrow_mut() = None);
            let mut s = sc.m.lock().unwrap();
            s.done[i] = true;
            if !s.free {
                sc.pick(&mut s, None);
            }
            drop(s);
            sc.cv.notify_all();
        }));
    }
    let mut s = sc.m.lock().unwrap();
    sc.pick(&mut s, None);
    sc.cv.notify_all();
    let t0 = Instant::now();
    while !s.done.iter().all(|x| *x) {
        s = sc.cv.wait_timeout(s, Duration::from_millis(500)).unwrap().0;
        if t0.elapsed() > Duration::from_secs(20) {
            s.free = true;
            sc.cv.notify_all();
            return Run::Stuck(s.order.clone());
        }
    }
    let (tr, or) = (s.trace.clone(), s.order.clone());
    drop(s);
    for h in hs {
        let _ = h.join();
    }
    let o = out.lock().unwrap().clone();
    Run::Done(o, tr, or)
}
/// All schedules of the programs with at most `bound` preemptions. Stops at the first violation.
fn explore(cx: &Ctx, key: &str, desc: &str, mk: &dyn Fn() -> Vec<Prog>, check: &dyn Fn(&[Vec<String>], &[usize]) -> Option<String>, bound: usize) -> bool {
    let mut prefix = Vec::new();
    loop {
        match run_once(mk(), prefix.clone(), bound) {
            Run::Stuck(o) => {
                cx.violation(format!("{key}:stuck"), format!("{desc}: a thread does not come back in the schedule {o:?}"), vec![]);
                return false;
            }
            Run::Done(out, tr, order) => {
                cx.traces.fetch_add(1, Ordering::Relaxed);
                cx.evals_add(1);
                cx.by_construction.fetch_add(1, Ordering::Relaxed);
                cx.transitions.fetch_add(order.len() as u64, Ordering::Relaxed);
                cx.outcome(&(desc, &out));
                if let Some(e) = check(&out, &order) {
                    cx.violation(key.to_string(), format!("{desc}, schedule {order:?}: {e}"), vec![]);
                    return false;
                }
                if cx.note_add("schedules", 1) % 20_000 == 1 {
                    cx.sample(|| json!({"programs": desc, "schedule": order.iter().take(40).collect::<Vec<_>>(), "results": out}));
                }
                let mut p: Vec<(usize, usize)> = tr;
                while p.last().is_some_and(|(c, n)| c + 1 >= *n) {
                    p.pop();
                }
                let Some(l) = p.last_mut() else { return true };
                l.0 += 1;
                prefix = p.iter().map(|x| x.0).collect();
            }
        }
    }
}

// --- whole operations ---------------------------------------------------------------------------------------------------------------
const SMALL: usize = 100;
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct O {
    limit: usize,
    keep: bool,
    custom: bool,
}
const DEF: O = O { limit: 16 << 20, keep: true, custom: true };
const OPTS: [O; 5] = [
    DEF,
    O { limit: SMALL, keep: true, custom: true },
    O { limit: 16 << 20, keep: false, custom: true },
    O { limit: 16 << 20, keep: true, custom: false },
    O { limit: SMALL, keep: false, custom: false },
];
impl O {
    fn apply(&self) {
        apply_global_options(GlobalOptions::new().allocation_limit(self.limit).preserve_format_specific_items(self.keep).use_custom_resolvers(self.custom));
    }
}
/// Fixed inputs of the observations.
struct Inputs {
    small: Vec<u8>,
    large: Vec<u8>,
    id3: Id3v2Tag,
    ilst: Ilst,
    custom: Vec<u8>,
}
fn inputs() -> Inputs {
    let save = |n: usize| {
        let mut t = ApeTag::new();
        t.insert(ApeItem::new("Title".into(), ItemValue::Text("x".repeat(n))).unwrap());
        N::Ape(t).save(&mk::mpeg_audio(6), wo()).unwrap()
    };
    let mut id3 = Id3v2Tag::new();
    id3.insert(Frame::Binary(BinaryFrame::new(FrameId::Valid(Cow::Borrowed("XBIN")), vec![1, 2, 3])));
    lofty::tag::Accessor::set_title(&mut id3, "t".into());
    let mut ilst = Ilst::new();
    ilst.insert(Atom::new(AtomIdent::Fourcc(*b"xyzw"), AtomData::Unknown { code: DataType::Reserved, data: vec![1, 2, 3] }));
    lofty::tag::Accessor::set_title(&mut ilst, "t".into());
    let mut custom = b"LVC0".to_vec();
    custom.extend(mk::pat(60, 3));
    Inputs { small: save(SMALL), large: save(SMALL + 1), id3, ilst, custom }
}
fn probe(b: &[u8]) -> String {
    format!("{:?}", Probe::new(Cursor::new(b)).guess_file_type().map(|p| p.file_type()).map_err(|e| e.kind()))
}
fn probe_read(b: &[u8]) -> String {
    match Probe::new(Cursor::new(b)).guess_file_type().map(Probe::read) {
        Ok(Ok(f)) => format!("{:?} {}", f.file_type(), f.tags().len()),
        Ok(Err(_)) => "Err".into(),
        Err(e) => format!("{:?}", e.kind()),
    }
}
/// What the current thread does with each of the inputs.
fn observe(i: &Inputs) -> String {
    let rd = |b: &[u8]| if read(Fmt::Mpeg, b, po_mode(ParsingMode::Strict)).is_ok() { "ok" } else { "err" };
    let a = Id3v2Tag::from(Tag::from(i.id3.clone())).len();
    let b = Ilst::from(Tag::from(i.ilst.clone())).len();
    let (rest, t) = i.id3.clone().split_tag();
    let c = rest.merge_tag(t).len();
    // a custom type that is set, rather than found
    let set = match Probe::with_file_type(Cursor::new(&i.custom), FileType::Custom("LvC0")).read() {
        Ok(f) => format!("{:?} {}", f.file_type(), f.tags().len()),
        Err(_) => "Err".into(),
    };
    format!("100 bytes {}, 101 bytes {}, Id3v2 {a} {c}, Ilst {b}, {}, {}, {set}, {:?}", rd(&i.small), rd(&i.large), probe(&i.custom), probe_read(&i.custom), FileType::from_ext("lvc0"))
}
/// What the documentation of the options says it must be.
fn expected(o: &O) -> String {
    let c = if o.custom { "Some(Custom(\"LvC0\"))" } else { "None" };
    let n = if o.keep { 2 } else { 1 };
    format!(
        "100 bytes ok, 101 bytes {}, Id3v2 {n} 2, Ilst {n}, Ok({c}), {}, {}, {c}",
        if o.limit > SMALL { "ok" } else { "err" },
        if o.custom { "Custom(\"LvC0\") 1" } else { "Err" },
        if o.custom { "Custom(\"LvC0\") 1" } else { "Err" },
    )
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op {
    Apply(usize),
    Observe,
    /// reads that fail or panic
    Bad,
}
fn op_progs(i: &Arc<Inputs>, ps: &[&Vec<Op>]) -> Vec<Prog> {
    ps.iter()
        .map(|p| {
            let (p, i) = ((*p).clone(), i.clone());
            Box::new(move || {
                let mut out = Vec::new();
                for (k, o) in p.iter().enumerate() {
                    if k > 0 {
                        point();
                    }
                    match o {
                        Op::Apply(k) => OPTS[*k].apply(),
                        Op::Observe => out.push(observe(&i)),
                        Op::Bad => {
                            let mut b = i.large.clone();
                            b.truncate(b.len() - 40);
                            let _ = read(Fmt::Mpeg, &b, po());
                            MODE.with(|m| m.set(Mode::Panic));
                            let _ = guard(|| probe_read(&i.custom));
                            MODE.with(|m| m.set(Mode::PanicRead));
                            let _ = guard(|| probe_read(&i.custom));
                            MODE.with(|m| m.set(Mode::Quiet));
                        }
                    }
                }
                out
            }) as Prog
        })
        .collect()
}
fn op_expect(p: &[Op]) -> Vec<String> {
    let (mut o, mut v) = (DEF, Vec::new());
    for x in p {
        match x {
            Op::Apply(k) => o = OPTS[*k],
            Op::Observe => v.push(expected(&o)),
            Op::Bad => {}
        }
    }
    v
}
fn threads(cx: &Ctx, i: &Arc<Inputs>) {
    let mut progs = vec![vec![Op::Observe], vec![Op::Bad, Op::Observe]];
    for a in 0..OPTS.len() {
        progs.push(vec![Op::Apply(a), Op::Observe]);
        progs.push(vec![Op::Observe, Op::Apply(a), Op::Observe]);
        progs.push(vec![Op::Apply(a), Op::Bad, Op::Observe]);
        for b in 0..OPTS.len() {
            progs.push(vec![Op::Apply(a), Op::Apply(b), Op::Observe]);
            if cx.thorough() {
                progs.push(vec![Op::Apply(a), Op::Observe, Op::Apply(b), Op::Observe]);
            }
        }
    }
    let mut pairs: Vec<Vec<&Vec<Op>>> = Vec::new();
    for (x, p) in progs.iter().enumerate() {
        for q in &progs[x..] {
            pairs.push(vec![p, q]);
        }
    }
    // three threads
    let short: Vec<&Vec<Op>> = progs.iter().filter(|p| p.len() <= 2).collect();
    for (x, p) in short.iter().enumerate() {
        for (y, q) in short.iter().enumerate().skip(x) {
            for r in short.iter().skip(y) {
                pairs.push(vec![*p, *q, *r]);
            }
        }
    }
    cx.states.fetch_add(pairs.len() as u64, Ordering::Relaxed);
    cx.par(&pairs, |ps| {
        let want: Vec<Vec<String>> = ps.iter().map(|p| op_expect(p)).collect();
        let check = |out: &[Vec<String>], _: &[usize]| (out != want).then(|| format!("the operations see {out:#?} instead of {want:#?}"));
        explore(cx, "threads", &format!("{ps:?}"), &|| op_progs(i, ps), &check, usize::MAX);
    });
}

// --- reader calls -------------------------------------------------------------------------------------------------------------------
/// Every call is a scheduling point.
struct Stepped<R>(R);
impl<R: Read> Read for Stepped<R> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        point();
        self.0.read(b)
    }
}
impl<R: Seek> Seek for Stepped<R> {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        point();
        self.0.seek(p)
    }
}
fn calls(cx: &Ctx, i: &Arc<Inputs>) {
    // a file per format whose item needs more than the small limit
    let mut files = Vec::new();
    for f in ALL_FMT {
        let t = writable(f)[0];
        let base = layouts(f, false).into_iter().find(|l| l.core).unwrap().bytes;
        let Some((_, n)) = sized(t, 2 * SMALL).into_iter().flat_map(|x| split(&x.1)).find(|(n, _)| !n.contains("ALB") && n != "Album") else { continue };
        let Ok(b) = n.save(&base, wo()) else { continue };
        files.push((f, Arc::new(b)));
    }
    files.push((Fmt::Mpeg, Arc::new(i.custom.clone())));
    let rd = |b: &[u8]| match Probe::new(Stepped(Cursor::new(b))).options(ParseOptions::new().parsing_mode(ParsingMode::Strict)).guess_file_type().map(Probe::read) {
        Ok(Ok(f)) => tagged_sig(&f),
        Ok(Err(_)) => "Err".to_string(),
        Err(e) => e.to_string(),
    };
    let reference = |b: &Arc<Vec<u8>>, o: O| {
        let b = b.clone();
        std::thread::spawn(move || {
            o.apply();
            rd(&b)
        })
        .join()
        .unwrap()
    };
    let mut jobs = Vec::new();
    for (f, b) in &files {
        for (g, c) in &files {
            for (x, y) in [(0, 1), (0, 4), (1, 3), (4, 4)] {
                // quick: the same format in both threads, and every format against MPEG
                if cx.thorough() || f == g || *f == Fmt::Mpeg || *g == Fmt::Mpeg {
                    jobs.push((*f, b.clone(), *g, c.clone(), OPTS[x], OPTS[y]));
                }
            }
        }
    }
    cx.states.fetch_add(jobs.len() as u64, Ordering::Relaxed);
    cx.par(&jobs, |(f, b, g, c, x, y)| {
        let want = vec![vec![reference(b, *x), reference(b, *y)], vec![reference(c, *y)]];
        let mk = || -> Vec<Prog> {
            let (b, c, x, y) = (b.clone(), c.clone(), *x, *y);
            vec![
                Box::new(move || {
                    x.apply();
                    let r = rd(&b);
                    point();
                    y.apply();
                    point();
                    vec![r, rd(&b)]
                }),
                Box::new(move || {
                    y.apply();
                    point();
                    vec![rd(&c)]
                }),
            ]
        };
        let check = |out: &[Vec<String>], _: &[usize]| (out != want).then(|| format!("the reads give {out:#?} instead of {want:#?}"));
        explore(cx, &format!("calls:{f:?}:{g:?}"), &format!("[{x:?}, read {f:?}, {y:?}, read {f:?}] | [{y:?}, read {g:?}]"), &mk, &check, if cx.thorough() && f == g { 2 } else { 1 });
    });
}

// --- registry -----------------------------------------------------------------------------------------------------------------------
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Mode {
    Quiet,
    /// callbacks are scheduling points
    Step,
    Panic,
    PanicRead,
    /// callbacks detect another file, look up extensions, apply options
    Nested,
}
thread_local! {
    static MODE: Cell<Mode> = const { Cell::new(Mode::Quiet) };
    static DEPTH: Cell<usize> = const { Cell::new(0) };
}
fn callback(n: usize, read: bool) {
    match MODE.with(Cell::get) {
        Mode::Quiet => {}
        Mode::Step if n == 0 => point(),
        Mode::Step => {}
        Mode::Panic if !read => panic!("resolver"),
        Mode::PanicRead if read => panic!("resolver"),
        Mode::Panic | Mode::PanicRead => {}
        Mode::Nested => {
            if DEPTH.with(Cell::get) == 0 {
                DEPTH.with(|d| d.set(1));
                let _ = probe_read(b"LVC0 nested");
                let _ = probe_read(&mk::mpeg_audio(3));
                let _ = FileType::from_ext("lvc0");
                let _ = FileType::from_ext("mp3");
                DEPTH.with(|d| d.set(0));
            }
        }
    }
}
const MAGIC: &[u8; 3] = b"LVC";
/// The N-th custom file type.
struct Cust<const I: usize> {
    tag: Id3v2Tag,
    props: FileProperties,
}
impl<const I: usize> Cust<I> {
    fn name() -> &'static str {
        CUST[I].0
    }
}
impl<const I: usize> From<Cust<I>> for TaggedFile {
    fn from(c: Cust<I>) -> TaggedFile {
        TaggedFile::new(FileType::Custom(Cust::<I>::name()), c.props, vec![c.tag.into()])
    }
}
impl<const I: usize> AudioFile for Cust<I> {
    type Properties = FileProperties;
    fn read_from<R: Read + Seek>(_: &mut R, _: ParseOptions) -> Result<Self, FileParseError> {
        callback(I, true);
        let mut tag = Id3v2Tag::new();
        lofty::tag::Accessor::set_title(&mut tag, Cust::<I>::name().into());
        Ok(Cust { tag, props: FileProperties::default() })
    }
    fn save_to<F: lofty::io::FileLike>(&self, _: &mut F, _: lofty::config::WriteOptions) -> Result<(), lofty::error::FileEncodingError>
    {
        Ok(())
    }
    fn properties(&self) -> &FileProperties {
        &self.props
    }
    fn contains_tag(&self) -> bool {
        true
    }
    fn contains_tag_type(&self, t: TagType) -> bool {
        t == TagType::Id3v2
    }
}
impl<const I: usize> FileResolver for Cust<I> {
    fn extension() -> Option<&'static str> {
        callback(I, false);
        Some(CUST[I].1)
    }
    fn primary_tag_type() -> TagType {
        TagType::Id3v2
    }
    fn tag_support(t: TagType) -> TagSupport {
        if t == TagType::Id3v2 { TagSupport::ReadWrite } else { TagSupport::Unsupported }
    }
    fn guess(b: &[u8]) -> Option<FileType> {
        callback(I, false);
        (b.starts_with(MAGIC) && b.get(3) == Some(&CUST[I].2)).then_some(FileType::Custom(Cust::<I>::name()))
    }
}
macro_rules! custs {
    ($($n:literal $c:literal)*) => {
        /// name, extension, fourth byte, registration
        static CUST: &[(&str, &str, u8, fn())] = &[$((concat!("LvC", $c), concat!("lvc", $c), $c.as_bytes()[0], || register_custom_resolver::<Cust<$n>>(concat!("LvC", $c)))),*];
    };
}
custs!(0 "0" 1 "1" 2 "2" 3 "3" 4 "4" 5 "5" 6 "6" 7 "7" 8 "8" 9 "9" 10 "a" 11 "b" 12 "c" 13 "d" 14 "e" 15 "f" 16 "g" 17 "h" 18 "i" 19 "j" 20 "k" 21 "l" 22 "m" 23 "n" 24 "o" 25 "p" 26 "q" 27 "r" 28 "s" 29 "t" 30 "u" 31 "v" 32 "w" 33 "x" 34 "y" 35 "z");
fn in_mode(m: Mode, f: impl FnOnce() -> String) -> String {
    let old = MODE.with(|c| c.replace(m));
    let r = guard(f).unwrap_or_else(|e| format!("panic: {}", e.split(" at ").next().unwrap_or("")));
    MODE.with(|c| c.set(old));
    r
}
/// One action on the registry.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Act {
    Register,
    Detect,
    Read,
    Ext,
    /// of the file type that exists from the start
    Detect0,
    Read0,
    Ext0,
    Type0,
    Mp3,
    ExtMp3,
}
impl Act {
    fn run(self, k: usize) -> String {
        let (_, ext, c, reg) = CUST[k];
        let own = [b'L', b'V', b'C', c, 1, 2, 3];
        match self {
            Act::Register => {
                reg();
                "registered".into()
            }
            Act::Detect => probe(&own),
            Act::Read => probe_read(&own),
            Act::Ext => format!("{:?}", FileType::from_ext(ext)),
            Act::Detect0 => probe(b"LVC0abc"),
            Act::Read0 => probe_read(b"LVC0abc"),
            Act::Ext0 => format!("{:?}", FileType::from_ext("lvc0")),
            Act::Type0 => {
                let t = FileType::Custom("LvC0");
                format!("{:?} {:?} {:?}", t.primary_tag_type(), t.tag_support(TagType::Id3v2), t.tag_support(TagType::Ape))
            }
            Act::Mp3 => probe(&mk::mpeg_audio(3)),
            Act::ExtMp3 => format!("{:?}", FileType::from_ext("mp3")),
        }
    }
    /// What it gives when the type under test is (not) registered.
    fn want(self, k: usize, known: bool) -> String {
        let (n, ..) = CUST[k];
        let some = |n: &str| format!("Some(Custom({n:?}))");
        match self {
            Act::Register => "registered".into(),
            Act::Detect if known => format!("Ok({})", some(n)),
            Act::Read if known => format!("Custom({n:?}) 1"),
            Act::Ext if known => some(n),
            Act::Detect => "Ok(None)".into(),
            Act::Read => "Err".into(),
            Act::Ext => "None".into(),
            Act::Detect0 => format!("Ok({})", some("LvC0")),
            Act::Read0 => "Custom(\"LvC0\") 1".into(),
            Act::Ext0 => some("LvC0"),
            Act::Type0 => "Id3v2 ReadWrite Unsupported".into(),
            Act::Mp3 => "Ok(Some(Mpeg))".into(),
            Act::ExtMp3 => "Some(Mpeg)".into(),
        }
    }
}
fn registry(cx: &Ctx) {
    let all = [Act::Detect0, Act::Read0, Act::Ext0, Act::Type0, Act::Mp3, Act::ExtMp3];
    let act_progs = |m: [Mode; 2], ps: [&[Act]; 2], k: usize, log: &Arc<Mutex<Vec<(usize, usize, bool)>>>| -> Vec<Prog> {
        (0..2)
            .map(|t| {
                let (m, p, log) = (m[t], ps[t].to_vec(), log.clone());
                Box::new(move || {
                    let mut out = Vec::new();
                    for (i, a) in p.iter().enumerate() {
                        if i > 0 {
                            point();
                        }
                        log.lock().unwrap().push((t, i, true));
                        out.push(in_mode(m, || a.run(k)));
                        log.lock().unwrap().push((t, i, false));
                    }
                    out
                }) as Prog
            })
            .collect()
    };
    // resolvers that use the library themselves, and resolvers that panic, alone and next to another thread
    for m in [Mode::Nested, Mode::Panic, Mode::PanicRead] {
        for a in all {
            for b in all {
                let log = Arc::new(Mutex::new(Vec::new()));
                let check = |out: &[Vec<String>], _: &[usize]| {
                    let w = b.want(0, true);
                    if out[1] != [w.clone(), w.clone()] {
                        return Some(format!("the other thread sees {:?} instead of {w}", out[1]));
                    }
                    let touches = !matches!(a, Act::Type0) && (m == Mode::Panic || (m == Mode::PanicRead && a == Act::Read0));
                    if !(touches && out[0][0].starts_with("panic: resolver")) && out[0][0] != a.want(0, true) {
                        return Some(format!("the thread itself sees {:?} instead of {}", out[0], a.want(0, true)));
                    }
                    None
                };
                if !explore(cx, &format!("registry:{m:?}"), &format!("{a:?} with a resolver that is {m:?} | {b:?} twice"), &|| act_progs([m, Mode::Step], [&[a], &[b, b]], 0, &log), &check, 3) {
                    return;
                }
            }
        }
    }
    // detections side by side
    for a in all {
        for b in all {
            for c in all {
                let log = Arc::new(Mutex::new(Vec::new()));
                let want = vec![vec![a.want(0, true), c.want(0, true)], vec![b.want(0, true), a.want(0, true)]];
                let check = |out: &[Vec<String>], _: &[usize]| (out != want).then(|| format!("{out:?} instead of {want:?}"));
                if !explore(cx, "registry:detect", &format!("{a:?}, {c:?} | {b:?}, {a:?}"), &|| act_progs([Mode::Step; 2], [&[a, c], &[b, a]], 0, &log), &check, usize::MAX) {
                    return;
                }
            }
        }
    }
    // registration next to detections of the type that is being registered: every schedule needs a fresh type
    let next = Cell::new(1);
    for p in [&[Act::Detect, Act::Detect][..], &[Act::Read], &[Act::Ext, Act::Detect]] {
        let log = Arc::new(Mutex::new(Vec::new()));
        let mk = || {
            log.lock().unwrap().clear();
            let k = next.get();
            next.set(k + 1);
            assert!(k < CUST.len(), "not enough custom types");
            act_progs([Mode::Quiet, Mode::Step], [&[Act::Register], p], k, &log)
        };
        let check = |out: &[Vec<String>], _: &[usize]| {
            let k = next.get() - 1;
            let l = log.lock().unwrap();
            let at = |t: usize, i: usize, begin: bool| l.iter().position(|x| *x == (t, i, begin)).unwrap();
            if out[0] != ["registered"] {
                return Some(format!("the registration fails: {:?}", out[0]));
            }
            for (i, a) in p.iter().enumerate() {
                let got = &out[1][i];
                let before = at(0, 0, false) < at(1, i, true);
                let after = at(0, 0, true) > at(1, i, false);
                if *got == a.want(k, true) && !after || *got == a.want(k, false) && !before {
                    continue;
                }
                return Some(format!("{a:?} gives {got}; registered before: {before}, after: {after}"));
            }
            // from now on it is known, and cannot be registered again
            for a in [Act::Detect, Act::Read, Act::Ext, Act::Detect0] {
                let g = in_mode(Mode::Quiet, || a.run(k));
                if g != a.want(k, true) {
                    return Some(format!("{a:?} gives {g} afterwards"));
                }
            }
            let again = in_mode(Mode::Quiet, || Act::Register.run(k));
            let g = in_mode(Mode::Quiet, || Act::Detect.run(k));
            (!again.starts_with("panic") || g != Act::Detect.want(k, true)).then(|| format!("a second registration: {again}, then {g}"))
        };
        if !explore(cx, "registry:register", &format!("Register | {p:?}"), &mk, &check, usize::MAX) {
            return;
        }
    }
    cx.note("custom_types_registered", json!(next.get() - 1));
}
pub fn run(cx: &Ctx) -> i32 {
    limits(cx);
    (CUST[0].3)();
    let i = Arc::new(inputs());
    threads(cx, &i);
    calls(cx, &i);
    registry(cx);
    cx.finish(
        "model_checking",
        "Limits: every allocation limit from 0 to past the file size, for every item kind of every tag type in every format, compressed frames, and saves to every layout. Threads: every interleaving of whole operations of two and three fresh threads. Calls: every schedule with a bounded number of preemptions of the reader calls of two threads. Registry: every schedule of registration, detection and reading with the resolver callbacks as scheduling points. All on the real code, under a scheduler that runs one thread at a time.",
        &["Interleavings at the granularity of operations, reader calls and resolver callbacks: the code in between does not touch state that threads share."],
        true,
    )
}
