//! C08: every single I/O fault at every call position is reported or harmless.
use crate::ctx::*;
use crate::fio::*;
use crate::iocases::*;
use serde_json::json;
use std::io::ErrorKind;
use std::sync::atomic::Ordering;

/// Runs the case again and returns where in /repo the faulted call was made.
fn site(c: &IoCase, dev: Dev) -> String {
    bt_arm(true);
    let _ = c.go(dev, 0);
    bt_arm(false);
    bt_take()
}
pub fn run(cx: &Ctx) -> i32 {
    let th = cx.thorough();
    let cs: Vec<IoCase> = cases(cx.q(8, 1000), th).into_iter().filter(|c| !cx.skip(&c.name)).collect();
    cx.states.store(cs.len() as u64, Ordering::Relaxed);
    let kinds: &[ErrorKind] = if th { &[ErrorKind::Other, ErrorKind::PermissionDenied, ErrorKind::WouldBlock, ErrorKind::TimedOut] } else { &[ErrorKind::Other, ErrorKind::WouldBlock] };
    // clean runs, to learn the number of calls
    let jobs = std::sync::Mutex::new(Vec::new());
    let idx: Vec<usize> = (0..cs.len()).collect();
    cx.par(&idx, |i| {
        let c = &cs[*i];
        match c.go(Dev::None, 0) {
            Err(p) => cx.violation(format!("{}:clean-panic", c.name), p, vec![("in.bin", &c.bytes)]),
            Ok((r, f)) => {
                let max = if th { 6000 } else { 1200 };
                if f.n > max {
                    cx.note_add("cases_with_capped_positions", 1);
                }
                // beyond the cap every position is still visited, but with a stride
                let mut ks: Vec<usize> = (0..f.n.min(max)).collect();
                ks.extend((max..f.n).step_by(1 + f.n / max));
                ks.extend((0..f.len_calls()).map(|x| LEN_BASE + x));
                let mut j = jobs.lock().unwrap();
                for ch in ks.chunks(64) {
                    j.push((*i, ch.to_vec(), r.clone(), f.data.clone()));
                }
            }
        }
    });
    let jobs = jobs.into_inner().unwrap();
    cx.par(&jobs, |(i, ks, want, data)| {
        let c = &cs[*i];
        cx.case(&c.name, &c.bytes);
        for k in ks {
            for (ki, kind) in kinds.iter().enumerate() {
                for sticky in [false, true] {
                    if sticky && (*k >= LEN_BASE || ki > 0) {
                        continue;
                    }
                    let dev = Dev::Fail { k: *k, kind: *kind, sticky };
                    let r = c.go(dev, 0);
                    cx.evals_add(1);
                    cx.by_construction.fetch_add(1, Ordering::Relaxed);
                    match r {
                        Err(p) => {
                            let s = p.rsplit(" at ").next().unwrap_or("").to_string();
                            cx.violation(format!("panic:{s}"), format!("{} with {dev:?}: {p}", c.name), vec![("in.bin", &c.bytes)]);
                        }
                        Ok((Err(e), _)) => {
                            cx.outcome(&(&c.name, ki, "err", e.len()));
                        }
                        Ok((Ok(s), f)) => {
                            if want.as_ref().ok() != Some(&s) {
                                cx.violation(format!("swallowed:{}", site(c, dev)), format!("{} with {dev:?} succeeds with a different result", c.name), vec![("in.bin", &c.bytes)]);
                            } else if f.data != *data {
                                cx.violation(format!("incomplete:{}", site(c, dev)), format!("{} with {dev:?} reports success but the file is not what a fault-free run leaves", c.name), vec![("in.bin", &c.bytes), ("out.bin", &f.data)]);
                            } else {
                                cx.note_add("harmless_faults", 1);
                            }
                        }
                    }
                }
            }
        }
        if cx.note_add("sampled", 1) < 12 {
            cx.sample(|| json!({"case": c.name, "faulted_calls": ks.len(), "first": ks.first()}));
        }
    });
    cx.finish(
        "fault_enumeration",
        "for every operation of the case list, every I/O call position of its fault-free run is made to fail (once, and from there on) with each error kind; the operation has to return an error or exactly the fault-free result and bytes",
        &["single fault per run (or a device that stays failed)", "calls beyond a per-case cap are visited with a stride"],
        false,
    )
}
