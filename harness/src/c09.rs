//! C09: results do not depend on delivery: short and interrupted transfers, entry points.
use crate::api::*;
use crate::c07::*;
use crate::contents::*;
use crate::ctx::*;
use crate::fio::*;
use crate::iocases::*;
use crate::walk::*;
use lofty::file::{AudioFile, TaggedFileExt};
use lofty::probe::Probe;
use lofty::tag::{Tag, TagExt};
use serde_json::json;
use std::io::Cursor;
use std::sync::atomic::Ordering;

fn same(cx: &Ctx, c: &IoCase, dev: Dev, pos: u64, want: &Result<String, String>, data: &[u8]) {
    cx.evals_add(1);
    cx.by_construction.fetch_add(1, Ordering::Relaxed);
    match c.go(dev, pos) {
        Err(p) => {
            let s = p.rsplit(" at ").next().unwrap_or("").to_string();
            cx.violation(format!("{}:{}:panic:{s}", c.name, kind(dev)), format!("{dev:?}: {p}"), vec![("in.bin", &c.bytes)]);
        }
        Ok((r, f)) => {
            if r != *want {
                let d = match (&r, want) {
                    (Ok(a), Ok(b)) => diff(a, b),
                    (a, b) => format!("{} vs {}", short(a), short(b)),
                };
                cx.violation(format!("{}:{}:result", c.name, kind(dev)), format!("{dev:?} from {pos}: the result differs from the plain run: {d}"), vec![("in.bin", &c.bytes)]);
            } else if f.data != data {
                cx.violation(format!("{}:{}:bytes", c.name, kind(dev)), format!("{dev:?} from {pos}: the resulting file differs from the plain run ({} vs {} bytes)", f.data.len(), data.len()), vec![("in.bin", &c.bytes), ("out.bin", &f.data), ("want.bin", data)]);
            } else {
                cx.outcome(&(h64(&c.name), kind(dev), r.is_ok()));
            }
        }
    }
}
fn short(r: &Result<String, String>) -> String {
    match r {
        Ok(s) => format!("Ok({} chars)", s.len()),
        Err(e) => format!("Err({e})"),
    }
}
fn diff(a: &str, b: &str) -> String {
    let p = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let cut = |s: &str| String::from_utf8_lossy(&s.as_bytes()[p.saturating_sub(40).min(s.len())..(p + 60).min(s.len())]).into_owned();
    format!("`{}` vs `{}`", cut(a), cut(b))
}
fn kind(d: Dev) -> &'static str {
    match d {
        Dev::None => "pos",
        Dev::Fail { .. } => "fail",
        Dev::Cap(_) => "cap",
        Dev::CapAt { .. } => "capat",
        Dev::IntrAt(_) => "intrat",
        Dev::IntrAlt => "intralt",
        Dev::IntrCap(_) => "intrcap",
    }
}
pub fn run(cx: &Ctx) -> i32 {
    let th = cx.thorough();
    let cs: Vec<IoCase> = cases(cx.q(6, 1000), th).into_iter().filter(|c| !cx.skip(&c.name)).collect();
    cx.states.store(cs.len() as u64, Ordering::Relaxed);
    cx.par(&cs, |c| {
        cx.case(&c.name, &c.bytes);
        let (want, f) = match c.go(Dev::None, 0) {
            Err(p) => return cx.violation(format!("{}:clean-panic", c.name), p, vec![("in.bin", &c.bytes)]),
            Ok(x) => x,
        };
        for n in [1usize, 2, 3, 5, 7, 16, 255] {
            same(cx, c, Dev::Cap(n), 0, &want, &f.data);
        }
        same(cx, c, Dev::IntrAlt, 0, &want, &f.data);
        same(cx, c, Dev::IntrCap(1), 0, &want, &f.data);
        same(cx, c, Dev::IntrCap(3), 0, &want, &f.data);
        let max = if th { 5000 } else { 700 };
        let step = 1 + f.x / max;
        for k in (0..f.x).step_by(step) {
            same(cx, c, Dev::CapAt { k, n: 1 }, 0, &want, &f.data);
            same(cx, c, Dev::IntrAt(k), 0, &want, &f.data);
            if th {
                same(cx, c, Dev::CapAt { k, n: 2 }, 0, &want, &f.data);
                same(cx, c, Dev::CapAt { k, n: 5 }, 0, &want, &f.data);
            }
        }
        if cx.note_add("cases", 1) % 97 == 1 {
            cx.sample(|| json!({"case": c.name, "transfers": f.x, "calls": f.n}));
        }
    });
    entry_points(cx);
    cx.finish(
        "exploration",
        "for every operation of the case list: every transfer cap in {1,2,3,5,7,16,255}, interruption of every second transfer with and without caps, and a one-byte or interrupted transfer at every single transfer position; plus all entry points (memory, handle, path, extension or none) against each other for every layout, tag type and content class; results and bytes have to be identical",
        &["positions beyond a per-case cap are visited with a stride"],
        false,
    )
}
/// every way to read or write the same thing
fn entry_points(cx: &Ctx) {
    let dir = std::env::temp_dir().join(format!("lv09-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let mut jobs = Vec::new();
    for f in ALL_FMT {
        for (n, b) in files(f, cx.q(10, 1000), cx.thorough()).into_iter().chain(rich_files(f)) {
            if !cx.skip(&n) {
                jobs.push((f, n, b));
            }
        }
    }
    cx.par(&jobs, |(f, n, b)| {
        let viol = |k: &str, w: String| cx.violation(format!("{n}:entry:{k}"), w, vec![("in.bin", b)]);
        let ext = match f {
            Fmt::Aac => "aac",
            Fmt::Aiff => "aiff",
            Fmt::Ape => "ape",
            Fmt::Flac => "flac",
            Fmt::Mpeg => "mp3",
            Fmt::Mp4 => "m4a",
            Fmt::Mpc => "mpc",
            Fmt::Opus => "opus",
            Fmt::Vorbis => "ogg",
            Fmt::Speex => "spx",
            Fmt::Wav => "wav",
            Fmt::WavPack => "wv",
        };
        let base = dir.join(format!("{:x}", h64(n)));
        let path = base.with_extension(ext);
        let noext = dir.join(format!("{:x}-", h64(n)));
        std::fs::write(&path, b).unwrap();
        std::fs::write(&noext, b).unwrap();
        let sig = |r: Result<lofty::file::TaggedFile, String>| r.map(|t| tagged_sig(&t));
        let want = sig(read_tagged(*f, b, po()));
        let mut h = std::fs::File::open(&path).unwrap();
        let reads: Vec<(&str, Result<String, String>)> = vec![
            ("read_from_path", sig(lofty::read_from_path(&path).map_err(er))),
            ("read_from", sig(lofty::read_from(&mut h).map_err(er))),
            ("open-guess-read", sig(Probe::open(&path).map_err(er).and_then(|p| p.guess_file_type().map_err(er)).and_then(|p| p.read().map_err(er)))),
            ("noext-guess-read", sig(Probe::open(&noext).map_err(er).and_then(|p| p.guess_file_type().map_err(er)).and_then(|p| p.read().map_err(er)))),
            ("memory-guess-read", sig(Probe::new(Cursor::new(b)).guess_file_type().map_err(er).and_then(|p| p.read().map_err(er)))),
            ("TaggedFile::read_from-file", sig(guard(|| std::fs::File::open(&path).map_err(er).and_then(|f2| Probe::with_file_type(f2, ft(*f)).read().map_err(er))).unwrap_or_else(Err))),
            ("read_bound", Probe::with_file_type(Cursor::new(b.clone()), ft(*f)).read_bound().map_err(er).map(|t| format!("{:?}\n{:?}\n{}", t.file_type(), t.properties(), t.tags().iter().map(tag_sig).collect::<String>()))),
        ];
        for (k, r) in reads {
            cx.eval(&(n, k));
            if r != want {
                viol(k, format!("reading gives {} instead of {}: {}", short(&r), short(&want), diff(r.as_deref().unwrap_or(""), want.as_deref().unwrap_or(""))));
            }
        }
        // native concrete type against the conversion of TaggedFile
        for t in ALL_T {
            let (r, w) = support(*f, t);
            if !r {
                continue;
            }
            let ops: Vec<(String, Box<dyn Fn(Entry) -> (Result<(), String>, Vec<u8>)>, Vec<Entry>)> = {
                let mut v: Vec<(String, Box<dyn Fn(Entry) -> (Result<(), String>, Vec<u8>)>, Vec<Entry>)> = Vec::new();
                v.push((format!("{t:?}:rm"), { let b = b.clone(); Box::new(move |e| go(e, &b, &N::empty(t), wo())) }, vec![Entry::Remove, Entry::RemovePath, Entry::NativeRemove]));
                if w {
                    for (kn, k) in [("A", K::A), ("B", K::B), ("C", K::C), ("E", K::E)] {
                        let x = content(t, k);
                        let b2 = b.clone();
                        v.push((format!("{t:?}:{kn}"), Box::new(move |e| go(e, &b2, &x, wo())), vec![Entry::Native, Entry::NativePath]));
                        let x = content(t, k);
                        let b2 = b.clone();
                        v.push((format!("{t:?}:{kn}:generic"), Box::new(move |e| go(e, &b2, &x, wo())), vec![Entry::Generic, Entry::GenericPath, Entry::Tagged]));
                    }
                }
                v
            };
            for (on, op, es) in ops {
                let want = guard(|| op(es[0]));
                for e in &es[1..] {
                    cx.eval(&(n, &on, format!("{e:?}")));
                    let got = guard(|| op(*e));
                    // an empty tag of a collection counts as nothing to write in some formats, which has to be the same as saving it
                    if got != want {
                        viol(&format!("{on}:{e:?}"), format!("{:?} leaves {:?}, {:?} leaves {:?}", es[0], want.as_ref().map(|w| (&w.0, w.1.len())), e, got.as_ref().map(|w| (&w.0, w.1.len()))));
                    }
                }
            }
        }
        // a bound file saves exactly like the collection it holds
        let bound = guard(|| {
            let mut bf = Probe::with_file_type(Cursor::new(b.clone()), ft(*f)).read_bound().map_err(er)?;
            let ty = bf.primary_tag_type();
            bf.insert_tag(content(wt(ty), K::B).into_tag());
            bf.save(wo()).map_err(er)?;
            Ok::<Vec<u8>, String>(bf.into_inner().into_inner())
        });
        let plain = guard(|| {
            let mut tf = read_tagged(*f, b, po())?;
            let ty = tf.primary_tag_type();
            tf.insert_tag(content(wt(ty), K::B).into_tag());
            let mut c = Cursor::new(b.clone());
            tf.save_to(&mut c, wo()).map_err(er)?;
            Ok::<Vec<u8>, String>(c.into_inner())
        });
        cx.eval(&(n, "bound"));
        if bound != plain {
            viol("bound", format!("a bound file saves differently: {:?} vs {:?}", bound.map(|r| r.map(|b| b.len())), plain.map(|r| r.map(|b| b.len()))));
        }
        let _ = std::fs::remove_file(&path);
        let _ = std::fs::remove_file(&noext);
    });
    let _ = std::fs::remove_dir_all(&dir);
    cleanup();
}
