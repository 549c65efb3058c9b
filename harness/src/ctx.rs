//! Exploration context: counters, violation collection, known findings, evidence, watchdog.
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Mutex, OnceLock};
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone)]
pub struct Viol {
    pub key: String,
    pub what: String,
    pub files: Vec<(String, Vec<u8>)>,
}

pub struct Ctx {
    pub id: &'static str,
    pub tier: Tier,
    pub seed: u64,
    pub start: Instant,
    pub evals: AtomicU64,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    /// distinct cases counted by construction
    pub by_construction: AtomicU64,
    distinct: Vec<Mutex<HashSet<u64>>>,
    outcome: Vec<Mutex<HashSet<u64>>>,
    samples: Mutex<Vec<Value>>,
    viols: Mutex<BTreeMap<String, Viol>>,
    viol_total: AtomicU64,
    pub notes: Mutex<BTreeMap<String, Value>>,
    known: BTreeMap<String, String>,
    pub only: Option<String>,
}

thread_local! {
    pub static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
    static SLOT: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) };
}
thread_local! { static GUARDS: std::cell::Cell<u32> = const { std::cell::Cell::new(0) }; }

struct Slot {
    since_ms: AtomicU64,
    case: Mutex<String>,
    bytes: Mutex<Vec<u8>>,
}
static SLOTS: OnceLock<Vec<Slot>> = OnceLock::new();
static NEXT_SLOT: AtomicUsize = AtomicUsize::new(0);
static T0: OnceLock<Instant> = OnceLock::new();
pub static CASE_LIMIT_MS: AtomicU64 = AtomicU64::new(60_000);

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let full = format!("{msg} at {loc}");
        // a panic of the harness itself
        if GUARDS.with(|g| g.get()) == 0 {
            eprintln!("{full}");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = full);
    }));
}

/// Runs `f`, turning a panic into Err(message).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    GUARDS.with(|g| g.set(g.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARDS.with(|g| g.set(g.get() - 1));
    match r {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

pub fn h64<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

const SHARDS: usize = 64;

impl Ctx {
    pub fn new(id: &'static str) -> Self {
        let tier = match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        };
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let mut known = BTreeMap::new();
        if let Ok(s) = std::fs::read_to_string("/verif/known_findings.json") {
            let v: Value = serde_json::from_str(&s).expect("known_findings.json is not valid JSON");
            for f in v["findings"].as_array().unwrap_or(&vec![]) {
                if f["property"] == id {
                    known.insert(f["key"].as_str().unwrap().to_string(), f["what"].as_str().unwrap_or("").to_string());
                }
            }
        }
        T0.get_or_init(Instant::now);
        SLOTS.get_or_init(|| {
            (0..64).map(|_| Slot { since_ms: AtomicU64::new(0), case: Mutex::new(String::new()), bytes: Mutex::new(Vec::new()) }).collect()
        });
        Ctx {
            id,
            tier,
            seed,
            start: Instant::now(),
            evals: AtomicU64::new(0),
            states: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            by_construction: AtomicU64::new(0),
            distinct: (0..SHARDS).map(|_| Mutex::new(HashSet::new())).collect(),
            outcome: (0..SHARDS).map(|_| Mutex::new(HashSet::new())).collect(),
            samples: Mutex::new(Vec::new()),
            viols: Mutex::new(BTreeMap::new()),
            viol_total: AtomicU64::new(0),
            notes: Mutex::new(BTreeMap::new()),
            known,
            only: std::env::var("LV_ONLY").ok(),
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    pub fn q<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() { thorough } else { quick }
    }
    /// Register one evaluated case. `sig` identifies the case; the case counts as distinct/non-trivial once.
    pub fn eval<T: Hash + ?Sized>(&self, sig: &T) {
        self.evals.fetch_add(1, Ordering::Relaxed);
        let h = h64(sig);
        self.distinct[(h as usize) % SHARDS].lock().unwrap().insert(h);
    }
    /// Count an evaluation without tracking distinctness (trivial or repeated case).
    pub fn eval_trivial(&self) {
        self.evals.fetch_add(1, Ordering::Relaxed);
    }
    pub fn evals_add(&self, n: u64) {
        self.evals.fetch_add(n, Ordering::Relaxed);
    }
    pub fn outcome<T: Hash + ?Sized>(&self, sig: &T) -> bool {
        let h = h64(sig);
        self.outcome[(h as usize) % SHARDS].lock().unwrap().insert(h)
    }
    pub fn distinct_count(&self) -> u64 {
        self.by_construction.load(Ordering::Relaxed) + self.distinct.iter().map(|s| s.lock().unwrap().len() as u64).sum::<u64>()
    }
    pub fn outcome_count(&self) -> u64 {
        self.outcome.iter().map(|s| s.lock().unwrap().len() as u64).sum()
    }
    pub fn sample(&self, v: impl FnOnce() -> Value) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 12 {
            s.push(v());
        }
    }
    pub fn note(&self, k: &str, v: Value) {
        self.notes.lock().unwrap().insert(k.to_string(), v);
    }
    pub fn note_add(&self, k: &str, n: u64) -> u64 {
        let mut m = self.notes.lock().unwrap();
        let e = m.entry(k.to_string()).or_insert(json!(0));
        let v = e.as_u64().unwrap_or(0) + n;
        *e = json!(v);
        v
    }
    pub fn violation(&self, key: impl Into<String>, what: impl Into<String>, files: Vec<(&str, &[u8])>) {
        self.viol_total.fetch_add(1, Ordering::Relaxed);
        let key = key.into();
        let mut v = self.viols.lock().unwrap();
        if v.len() >= 5000 || v.contains_key(&key) {
            return;
        }
        v.insert(
            key.clone(),
            Viol { key, what: what.into(), files: files.into_iter().map(|(n, b)| (n.to_string(), b.to_vec())).collect() },
        );
    }
    pub fn too_many(&self) -> bool {
        self.viols.lock().unwrap().keys().filter(|k| !self.known.contains_key(*k)).count() > 200
    }
    pub fn skip(&self, key: &str) -> bool {
        match &self.only {
            Some(o) => !key.contains(o.as_str()),
            None => false,
        }
    }
    pub fn case(&self, desc: &str, bytes: &[u8]) {
        let slot = SLOT.with(|s| {
            if s.get() == usize::MAX {
                s.set(NEXT_SLOT.fetch_add(1, Ordering::Relaxed) % 64);
            }
            s.get()
        });
        let sl = &SLOTS.get().unwrap()[slot];
        {
            let mut c = sl.case.lock().unwrap();
            c.clear();
            c.push_str(desc);
        }
        {
            let mut b = sl.bytes.lock().unwrap();
            b.clear();
            b.extend_from_slice(bytes);
        }
        sl.since_ms.store(T0.get().unwrap().elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
    }
    pub fn case_done(&self) {
        let slot = SLOT.with(|s| s.get());
        if slot != usize::MAX {
            SLOTS.get().unwrap()[slot].since_ms.store(0, Ordering::SeqCst);
        }
    }
    /// Watchdog: a single case running longer than CASE_LIMIT_MS is reported as a hang.
    pub fn spawn_watchdog(&self) {
        let id = self.id;
        std::thread::spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let now = T0.get().unwrap().elapsed().as_millis() as u64;
            for s in SLOTS.get().unwrap() {
                let t = s.since_ms.load(Ordering::SeqCst);
                if t != 0 && now > t + CASE_LIMIT_MS.load(Ordering::Relaxed) {
                    let case = s.case.lock().unwrap().clone();
                    let bytes = s.bytes.lock().unwrap().clone();
                    let dir = format!("/verif/replays/{id}");
                    let _ = std::fs::create_dir_all(&dir);
                    let p = format!("{dir}/hang.json");
                    let _ = std::fs::write(&p, json!({"property":id,"key":format!("hang:{case}"),"what":"case did not terminate"}).to_string());
                    let _ = std::fs::write(format!("{dir}/hang.bin"), bytes);
                    println!("VIOLATION property={id} replay={p} hang: {case}");
                    std::process::exit(1);
                }
            }
        });
    }

    pub fn par<T: Sync>(&self, items: &[T], f: impl Fn(&T) + Sync) {
        let next = AtomicUsize::new(0);
        let n = std::env::var("LV_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(8usize);
        std::thread::scope(|s| {
            for _ in 0..n {
                std::thread::Builder::new()
                    .stack_size(32 << 20)
                    .spawn_scoped(s, || loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= items.len() || self.too_many() {
                            break;
                        }
                        f(&items[i]);
                        self.case_done();
                    })
                    .unwrap();
            }
        });
    }
    pub fn par_range(&self, n: usize, f: impl Fn(usize) + Sync) {
        let v: Vec<usize> = (0..n).collect();
        self.par(&v, |i| f(*i));
    }

    pub fn finish(&self, level: &str, rule: &str, assumptions: &[&str], exhaustive: bool) -> i32 {
        let viols = self.viols.lock().unwrap();
        let mut new = Vec::new();
        let mut seen_known = Vec::new();
        for (k, v) in viols.iter() {
            if let Some(w) = self.known.get(k) {
                seen_known.push((k.clone(), w.clone()));
            } else {
                new.push(v.clone());
            }
        }
        for (k, w) in &seen_known {
            println!("KNOWN-FINDING: property={} {} [{}]", self.id, w, k);
        }
        for k in self.known.keys() {
            if !seen_known.iter().any(|(s, _)| s == k) {
                println!("note: listed finding no longer observed: property={} [{}]", self.id, k);
            }
        }
        let dir = format!("/verif/replays/{}", self.id);
        let _ = std::fs::remove_dir_all(&dir);
        if !new.is_empty() {
            let _ = std::fs::create_dir_all(&dir);
        }
        let show = std::env::var("LV_SHOW").ok().and_then(|s| s.parse().ok()).unwrap_or(20usize);
        for (i, v) in new.iter().enumerate() {
            if i >= show {
                println!("... {} more distinct violation keys", new.len() - i);
                break;
            }
            let p = format!("{dir}/v{i:03}.json");
            let mut fs = Vec::new();
            for (n, b) in &v.files {
                let fp = format!("{dir}/v{i:03}.{n}");
                let _ = std::fs::write(&fp, b);
                fs.push(fp);
            }
            let _ = std::fs::write(&p, serde_json::to_string_pretty(&json!({"property":self.id,"key":v.key,"what":v.what,"files":fs})).unwrap());
            println!("VIOLATION property={} replay={}", self.id, p);
            let mut w = v.what.clone();
            if w.len() > 600 {
                let mut c = 600;
                while !w.is_char_boundary(c) { c -= 1; }
                w.truncate(c);
                w.push('…');
            }
            println!("  key={} :: {}", v.key, w);
        }
        let mut cov = serde_json::Map::new();
        let evals = self.evals.load(Ordering::Relaxed);
        match level {
            "model_checking" => {
                cov.insert("states".into(), json!(self.states.load(Ordering::Relaxed)));
                cov.insert("transitions".into(), json!(self.transitions.load(Ordering::Relaxed)));
                cov.insert("traces_validated_against_impl".into(), json!(self.traces.load(Ordering::Relaxed)));
                cov.insert("rule".into(), json!(rule));
                cov.insert("evaluations".into(), json!(evals));
            }
            _ => {
                cov.insert("evaluations".into(), json!(evals));
                cov.insert("distinct_nontrivial".into(), json!(self.distinct_count()));
                cov.insert("rule".into(), json!(rule));
            }
        }
        if exhaustive {
            cov.insert("exhaustive".into(), json!(true));
        }
        let oc = self.outcome_count();
        if oc > 0 {
            cov.insert("distinct_outcomes".into(), json!(oc));
        }
        cov.insert("samples".into(), Value::Array(self.samples.lock().unwrap().clone()));
        for (k, v) in self.notes.lock().unwrap().iter() {
            cov.insert(k.clone(), v.clone());
        }
        let ev = json!({
            "property": self.id,
            "tier": if self.thorough() {"thorough"} else {"quick"},
            "seed": self.seed,
            "level": level,
            "coverage": cov,
            "assumptions": assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": new.len(),
            "known_findings_seen": seen_known.len(),
        });
        let _ = std::fs::create_dir_all("/verif/evidence");
        std::fs::write(format!("/verif/evidence/{}.json", self.id), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
        println!(
            "{}: {} evaluations, {} distinct, {} new violation keys ({} raw), {} known, {:.1}s",
            self.id,
            evals,
            self.distinct_count(),
            new.len(),
            self.viol_total.load(Ordering::Relaxed),
            seen_known.len(),
            self.start.elapsed().as_secs_f64()
        );
        if new.is_empty() { 0 } else { 1 }
    }
}
