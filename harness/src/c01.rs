//! C01: reading any bytes ends in a result or an error.
use crate::api::*;
use crate::ctx::*;
use crate::meter::*;
use crate::seeds::*;
use crate::walk::*;
use lofty::config::{GlobalOptions, ParseOptions, ParsingMode};
use lofty::file::AudioFile;
use lofty::probe::Probe;
use serde_json::json;
use std::cell::Cell;
use std::sync::atomic::Ordering;

pub const LIMIT: usize = 64 * 1024;
pub fn parse(f: Fmt, r: &mut Metered<'_>, o: ParseOptions) -> bool {
    macro_rules! go {
        ($($t:ident)::+) => {
            <lofty::$($t)::+>::read_from(r, o).is_ok()
        };
    }
    match f {
        Fmt::Aac => go!(aac::AacFile),
        Fmt::Aiff => go!(iff::aiff::AiffFile),
        Fmt::Ape => go!(ape::ApeFile),
        Fmt::Flac => go!(flac::FlacFile),
        Fmt::Mpeg => go!(mpeg::MpegFile),
        Fmt::Mp4 => go!(mp4::Mp4File),
        Fmt::Mpc => go!(musepack::MpcFile),
        Fmt::Opus => go!(ogg::OpusFile),
        Fmt::Vorbis => go!(ogg::VorbisFile),
        Fmt::Speex => go!(ogg::SpeexFile),
        Fmt::Wav => go!(iff::wav::WavFile),
        Fmt::WavPack => go!(wavpack::WavPackFile),
    }
}
thread_local! { static SET: Cell<bool> = const { Cell::new(false) }; }
fn limit() {
    SET.with(|s| {
        if !s.get() {
            lofty::config::apply_global_options(GlobalOptions::new().allocation_limit(LIMIT));
            s.set(true);
        }
    });
}
const MODES: [ParsingMode; 3] = [ParsingMode::Strict, ParsingMode::BestAttempt, ParsingMode::Relaxed];
fn site(p: &str) -> String {
    // message at file:line, without the varying numbers in the message
    let at = p.rsplit(" at ").next().unwrap_or(p);
    at.to_string()
}
/// one input, one way of reading it
fn run_one(cx: &Ctx, what: &str, b: &[u8], f: impl Fn(&mut Metered<'_>) -> bool) -> bool {
    alloc_reset();
    let mut m = Metered::new(b);
    let r = guard(|| f(&mut m));
    let max = alloc_max();
    cx.evals.fetch_add(1, Ordering::Relaxed);
    match r {
        Err(p) if p.starts_with("HANG") => {
            cx.violation(format!("hang:{}", what.split(" @").next().unwrap_or(what)), format!("{what}: more than {} reader calls for {} bytes", m.budget, b.len()), vec![("in.bin", b)]);
            false
        }
        Err(p) => {
            cx.violation(format!("panic:{}", site(&p)), format!("{what}: {p}"), vec![("in.bin", b)]);
            false
        }
        Ok(ok) => {
            if max > LIMIT + 16 * b.len() + 8192 {
                let site = alloc_site(LIMIT + 16 * b.len() + 8192, || {
                    let _ = guard(|| f(&mut Metered::new(b)));
                });
                cx.violation(format!("alloc:{site}"), format!("{what}: one allocation of {max} bytes under a limit of {LIMIT}, file of {} bytes", b.len()), vec![("in.bin", b)]);
            }
            ok
        }
    }
}
pub fn all_ways(cx: &Ctx, name: &str, at: &str, f: Fmt, b: &[u8], probe: bool) {
    limit();
    let mut bits = 0u32;
    for (i, m) in MODES.into_iter().enumerate() {
        if run_one(cx, &format!("{name}:{m:?} @{at}"), b, |r| parse(f, r, po_mode(m))) {
            bits |= 1 << i;
        }
    }
    if probe {
        let ok = run_one(cx, &format!("{name}:probe @{at}"), b, |r| match Probe::new(r).guess_file_type() {
            Ok(p) => p.options(po_mode(ParsingMode::Relaxed)).read().is_ok(),
            Err(_) => false,
        });
        if ok {
            bits |= 8;
        }
        let ok = run_one(cx, &format!("{name}:forced @{at}"), b, |r| Probe::with_file_type(r, ft(f)).options(po_mode(ParsingMode::BestAttempt)).read().is_ok());
        if ok {
            bits |= 16;
        }
    }
    cx.outcome(&(name, bits));
}
pub const VALS: [u8; 20] = [0, 1, 2, 3, 4, 6, 8, 0x0F, 0x10, 0x20, 0x3F, 0x40, 0x7F, 0x80, 0x81, 0xC0, 0xE0, 0xF0, 0xFE, 0xFF];
/// Calls `g(description, bytes)` for every damaged version of `b` within `lo..hi`.
pub fn damage(b: &[u8], lo: usize, hi: usize, all: bool, depth: u8, mut g: impl FnMut(&dyn Fn() -> String, &[u8])) {
    let mut w = b.to_vec();
    // truncations
    for n in lo..hi {
        g(&|| format!("trunc{n}"), &b[..n]);
    }
    for i in lo..hi {
        let o = w[i];
        let mut done = [false; 256];
        done[o as usize] = true;
        let extra = [o ^ 1, o ^ 2, o ^ 0x80, o.wrapping_add(1), o.wrapping_sub(1), o.wrapping_shl(1), o >> 1];
        let rest: Vec<u8> = if all { (0..=255).collect() } else { VALS.iter().copied().chain(extra).collect() };
        for x in rest {
            if !done[x as usize] {
                done[x as usize] = true;
                w[i] = x;
                g(&|| format!("byte{i}={x:02x}"), &w);
            }
        }
        w[i] = o;
    }
    if depth == 0 {
        return;
    }
    // wide fields
    let n = b.len();
    let mut wide: Vec<Vec<u8>> = Vec::new();
    for x in [0u32, 1, 7, 8, 9, 16, 0x7F7F_7F7F, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFF, 0xFFFF_FFFE, n as u32, n as u32 + 1, (n - lo) as u32, 0x00FF_FFFF] {
        wide.push(x.to_be_bytes().to_vec());
        wide.push(x.to_le_bytes().to_vec());
    }
    for x in [0u16, 0x7FFF, 0x8000, 0xFFFF] {
        wide.push(x.to_be_bytes().to_vec());
    }
    for x in [0u64, 1, 8, 16, u64::MAX, u64::MAX - 8, i64::MAX as u64, 1 << 63, 1 << 32, 1 << 31, u64::MAX - n as u64] {
        wide.push(x.to_be_bytes().to_vec());
        wide.push(x.to_le_bytes().to_vec());
    }
    wide.push(vec![0xFF; 3]);
    wide.push(vec![0; 3]);
    wide.sort();
    wide.dedup();
    for i in lo..hi {
        for x in &wide {
            if i + x.len() > n {
                continue;
            }
            let o = w[i..i + x.len()].to_vec();
            if o == *x {
                continue;
            }
            w[i..i + x.len()].copy_from_slice(x);
            g(&|| format!("wide{i}={x:02x?}"), &w);
            w[i..i + x.len()].copy_from_slice(&o);
        }
    }
    // deletions, duplications, insertions
    for i in lo..hi {
        for k in [1usize, 2, 4, 8, 16] {
            if i + k <= n {
                let d = [&b[..i], &b[i + k..]].concat();
                g(&|| format!("del{i}+{k}"), &d);
                let d = [&b[..i + k], &b[i..]].concat();
                g(&|| format!("dup{i}+{k}"), &d);
            }
        }
        for ins in [&[0u8][..], &[0; 4], &[0xFF; 4]] {
            let d = [&b[..i], ins, &b[i..]].concat();
            g(&|| format!("ins{i}+{}", ins.len()), &d);
        }
    }
}
pub fn run(cx: &Ctx) -> i32 {
    let seeds = seeds(cx.q(3, 1), true);
    cx.note("seeds", json!(seeds.len()));
    let mut jobs: Vec<(usize, usize, usize)> = Vec::new();
    for (i, s) in seeds.iter().enumerate() {
        if cx.skip(&s.name) {
            continue;
        }
        cx.states.fetch_add(1, Ordering::Relaxed);
        for (lo, hi) in &s.ranges {
            let mut a = *lo;
            while a < *hi {
                let e = (a + 64).min(*hi);
                jobs.push((i, a, e));
                a = e;
            }
        }
    }
    for s in seeds.iter().step_by((seeds.len() / 10).max(1)) {
        cx.sample(|| json!({"seed": s.name, "bytes": s.bytes.len(), "ranges": s.ranges}));
    }
    let thorough = cx.thorough();
    let pos: usize = jobs.iter().map(|(_, a, b)| b - a).sum();
    cx.note("damaged_positions", json!(pos));
    // undamaged files, as every type; and byte strings of up to three bytes
    cx.par(&seeds, |s| {
        if cx.skip(&s.name) {
            return;
        }
        cx.case(&s.name, &s.bytes);
        for f in ALL_FMT {
            all_ways(cx, &format!("{}-as-{f:?}", s.name), "whole", f, &s.bytes, false);
            let n = s.bytes.len();
            for k in (0..n.min(200)).chain([n / 2, n - 1]) {
                all_ways(cx, &format!("{}-as-{f:?}", s.name), &format!("trunc{k}"), f, &s.bytes[..k], false);
                if f == s.fmt {
                    continue;
                }
                all_ways(cx, &format!("{}-as-{f:?}", s.name), &format!("tail{k}"), f, &s.bytes[n - k..], false);
            }
        }
    });
    // every item of every format with every short body
    let fam = crate::bodies::families(cx.q(3, 4));
    cx.note("body_families", json!(fam.len()));
    cx.note("bodies", json!(fam.iter().map(|f| f.bodies.len()).sum::<usize>()));
    cx.par(&fam, |f| {
        if cx.skip(&f.name) {
            return;
        }
        for (i, b) in f.bodies.iter().enumerate() {
            let file = (f.build)(b);
            if i % 64 == 0 {
                cx.case(&f.name, &file);
            }
            all_ways(cx, &f.name, &format!("{b:02x?}"), f.fmt, &file, true);
        }
        cx.by_construction.fetch_add(f.bodies.len() as u64, Ordering::Relaxed);
    });
    cx.par_range(256, |a| {
        if cx.only.is_some() {
            return;
        }
        for f in ALL_FMT {
            for x in 0..=255u8 {
                let b = [a as u8, x];
                cx.case("short", &b);
                all_ways(cx, &format!("short-as-{f:?}"), &format!("{b:02x?}"), f, &b, f == Fmt::Mpeg);
            }
        }
    });
    cx.par(&jobs, |(i, lo, hi)| {
        let s = &seeds[*i];
        let asset = s.name.starts_with("asset");
        let mut n = 0u64;
        damage(&s.bytes, *lo, *hi, thorough, if asset && !thorough { 0 } else { 1 }, |d, b| {
            n += 1;
            if n % 64 == 1 {
                cx.case(&format!("{} {}", s.name, d()), b);
            }
            all_ways(cx, &s.name, &d(), s.fmt, b, true);
        });
        cx.transitions.fetch_add(n, Ordering::Relaxed);
        cx.by_construction.fetch_add(n, Ordering::Relaxed);
    });
    let n = cx.transitions.load(Ordering::Relaxed);
    cx.note("damaged_inputs", json!(n));
    cx.finish(
        "exploration",
        "exhaustive enumeration, for every seed file, of all truncations, all (position, byte value) pairs of the value list (all 256 when thorough), all (position, 16/24/32/64-bit extreme) pairs in both byte orders, and all deletions/duplications/insertions of 1 to 16 bytes; each input is read as its type in the three parsing modes, with the type forced through Probe and with a guessed type, under a metered reader and a counting allocator; undamaged seeds and their prefixes are read as every type; all strings of two bytes are read as every type; every item, frame, block, chunk and atom kind with every body of up to 3 bytes (thorough: 4) over a nine-letter alphabet, and every number and date text of a grammar",
        &["the space is all single edits of the seed files, not all byte strings", "a hang is more than 20000+64*length reader calls, or 60 s without a result"],
        false,
    )
}
