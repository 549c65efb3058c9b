//! C19: timestamps. Every valid timestamp x every documented spelling x parsing mode; every short string; every invalid field
//! combination; all pairs for ordering.
use crate::ctx::*;
use lofty::config::{ParsingMode, WriteOptions};
use lofty::id3::v2::{FrameFlags, FrameId, TimestampFrame};
use lofty::tag::items::Timestamp;
use lofty::TextEncoding;
use serde_json::json;
use std::borrow::Cow;
use std::sync::atomic::Ordering;

const MODES: [ParsingMode; 3] = [ParsingMode::Strict, ParsingMode::BestAttempt, ParsingMode::Relaxed];

/// (year, [month, day, hour, minute, second] prefix)
fn ts(y: u16, f: &[u8]) -> Timestamp {
    Timestamp {
        year: y,
        month: f.first().copied(),
        day: f.get(1).copied(),
        hour: f.get(2).copied(),
        minute: f.get(3).copied(),
        second: f.get(4).copied(),
    }
}
#[derive(Clone, Copy)]
enum Pad {
    Zero,
    Space,
    None,
}
/// Independent spelling of the fields. `sep` None: compact form (the T is always there).
fn spell(y: u16, f: &[u8], sep: Option<u8>, pad: Pad) -> Vec<u8> {
    let mut o = format!("{y:04}").into_bytes();
    for (i, v) in f.iter().enumerate() {
        match i {
            0 | 1 => o.extend(sep),
            2 => o.push(b'T'),
            _ => o.extend(sep.map(|_| b':')),
        }
        let s = match pad {
            Pad::Zero => format!("{v:02}"),
            Pad::Space => format!("{v:2}"),
            // the last segment needs its two digits
            Pad::None if i + 1 < f.len() => format!("{v}"),
            Pad::None => format!("{v:02}"),
        };
        o.extend(s.as_bytes());
    }
    o
}
type R = Result<Option<Timestamp>, ()>;
fn parse(b: &[u8], m: ParsingMode) -> R {
    Timestamp::parse(&mut &b[..], m).map_err(|_| ())
}
fn expect(cx: &Ctx, key: &str, b: &[u8], m: ParsingMode, want: R) {
    let got = match guard(|| parse(b, m)) {
        Ok(r) => r,
        Err(p) => return cx.violation(format!("{key}:panic"), format!("{p} on {:?} ({m:?})", String::from_utf8_lossy(b)), vec![("text", b)]),
    };
    let ok = match (&got, &want) {
        (Err(()), Err(())) => true,
        (Ok(a), Ok(b)) => a == b,
        _ => false,
    };
    if !ok {
        cx.violation(
            format!("{key}:{m:?}"),
            format!("{:?} in {m:?}: parsed {got:?}, expected {want:?}", String::from_utf8_lossy(b)),
            vec![("text", b)],
        );
    }
}
fn all_forms(cx: &Ctx, y: u16, f: &[u8], n: &mut u64) {
    let t = ts(y, f);
    let printed = t.to_string();
    let canon = spell(y, f, Some(b'-'), Pad::Zero);
    if printed.as_bytes() != canon {
        cx.violation("print", format!("{t:?} prints as {printed:?}, expected {:?}", String::from_utf8_lossy(&canon)), vec![]);
    }
    for m in MODES {
        expect(cx, "separated", &canon, m, Ok(Some(t)));
        expect(cx, "compact", &spell(y, f, None, Pad::Zero), m, Ok(Some(t)));
    }
    match printed.parse::<Timestamp>() {
        Ok(p) if p == t => {}
        o => cx.violation("fromstr", format!("{printed:?} parsed with FromStr gives {o:?}"), vec![]),
    }
    *n += 8;
    for m in &MODES[1..] {
        for (nm, sep, pad) in [
            ("dotted", Some(b'.'), Pad::Zero),
            ("spaces", Some(b'-'), Pad::Space),
            ("short", Some(b'-'), Pad::None),
            ("compactspaces", None, Pad::Space),
        ] {
            expect(cx, nm, &spell(y, f, sep, pad), *m, Ok(Some(t)));
            *n += 1;
        }
        let mut s = b" \t\n".to_vec();
        s.extend(&canon);
        expect(cx, "leadingspace", &s, *m, Ok(Some(t)));
        *n += 1;
    }
    // what is only tolerated must be refused in strict mode
    if !f.is_empty() {
        expect(cx, "dotted", &spell(y, &f[..f.len().min(2)], Some(b'.'), Pad::Zero), ParsingMode::Strict, Err(()));
        *n += 1;
        if f.iter().any(|x| *x < 10) {
            expect(cx, "spaces", &spell(y, f, Some(b'-'), Pad::Space), ParsingMode::Strict, Err(()));
            *n += 1;
        }
        if f[..f.len() - 1].iter().any(|x| *x < 10) {
            expect(cx, "short", &spell(y, f, Some(b'-'), Pad::None), ParsingMode::Strict, Err(()));
            *n += 1;
        }
    }
}
/// The strict grammar, on the at most 19 bytes that are looked at
fn strict_oracle(s: &[u8]) -> R {
    let s = &s[..s.len().min(19)];
    if s.is_empty() {
        return Err(());
    }
    let separated = s.iter().any(|b| b"-.:".contains(b));
    let num = |p: usize, n: usize| -> Option<u16> {
        let d = s.get(p..p + n)?;
        d.iter().all(u8::is_ascii_digit).then(|| d.iter().fold(0u16, |a, x| a * 10 + u16::from(x - b'0')))
    };
    let Some(y) = num(0, 4) else { return Err(()) };
    let mut p = 4;
    let mut f = Vec::new();
    for i in 0..5 {
        if p == s.len() {
            return Ok(Some(ts(y, &f)));
        }
        let sep: Option<u8> = match i {
            0 | 1 => separated.then_some(b'-'),
            2 => Some(b'T'),
            _ => separated.then_some(b':'),
        };
        if let Some(c) = sep {
            if s[p] != c {
                return Err(());
            }
            p += 1;
        }
        let Some(v) = num(p, 2) else { return Err(()) };
        f.push(v as u8);
        p += 2;
    }
    Ok(Some(ts(y, &f)))
}
fn any_string(cx: &Ctx, s: &[u8]) {
    let r: Vec<Result<R, String>> = MODES.iter().map(|m| guard(|| parse(s, *m))).collect();
    for (m, x) in MODES.iter().zip(&r) {
        if let Err(p) = x {
            return cx.violation(format!("any:panic:{m:?}"), format!("{p} on {:?}", String::from_utf8_lossy(s)), vec![("text", s)]);
        }
    }
    let (st, be, re) = (r[0].as_ref().unwrap(), r[1].as_ref().unwrap(), r[2].as_ref().unwrap());
    let want = strict_oracle(s);
    if *st != want {
        cx.violation("any:strict", format!("{:?} in strict mode: {st:?}, expected {want:?}", String::from_utf8_lossy(s)), vec![("text", s)]);
    }
    if st.is_ok() && be != st {
        cx.violation("any:best", format!("{:?}: strict {st:?}, best attempt {be:?}", String::from_utf8_lossy(s)), vec![("text", s)]);
    }
    if be.is_ok() && re != be {
        cx.violation("any:relaxed", format!("{:?}: best attempt {be:?}, relaxed {re:?}", String::from_utf8_lossy(s)), vec![("text", s)]);
    }
    if let Ok(Some(t)) = be {
        // a field is never there without its parent, and the print of what was read reads the same
        let f = [t.month, t.day, t.hour, t.minute, t.second];
        if f.windows(2).any(|w| w[0].is_none() && w[1].is_some()) {
            cx.violation("any:prefix", format!("{:?} parsed to {t:?}", String::from_utf8_lossy(s)), vec![("text", s)]);
        }
        if t.year > 9999 || f.iter().flatten().any(|x| *x > 99) {
            cx.violation("any:range", format!("{:?} parsed to {t:?}", String::from_utf8_lossy(s)), vec![("text", s)]);
        }
        let p = t.to_string();
        if parse(p.as_bytes(), ParsingMode::Strict) != Ok(Some(*t)) {
            cx.violation("any:reparse", format!("{:?} parsed to {t:?}, whose print {p:?} parses to something else", String::from_utf8_lossy(s)), vec![("text", s)]);
        }
    }
    if !s.is_empty() && s.iter().all(u8::is_ascii_whitespace) && *be != Ok(None) {
        cx.violation("any:blank", format!("blank {s:?} gives {be:?}"), vec![("text", s)]);
    }
    let text = std::str::from_utf8(s);
    if let Ok(text) = text {
        let fs = text.parse::<Timestamp>().ok();
        if fs != be.ok().flatten() {
            cx.violation("any:fromstr", format!("{text:?}: FromStr {fs:?}, best attempt {be:?}"), vec![("text", s)]);
        }
    }
    cx.outcome(&(format!("{st:?}{be:?}")));
}

pub fn run(cx: &Ctx) -> i32 {
    // 1. valid timestamps x forms x modes
    let years = [0u16, 1, 9, 99, 999, 1000, 1999, 2024, 9999];
    let mut n0 = 0;
    for y in 0..=9999 {
        all_forms(cx, y, &[], &mut n0);
    }
    cx.evals_add(n0);
    let mut dates: Vec<(u16, u8, u8)> = Vec::new();
    for y in years {
        for m in 1..=12 {
            for d in 1..=31 {
                dates.push((y, m, d));
            }
        }
    }
    let full = cx.thorough();
    cx.par(&dates, |(y, m, d)| {
        let mut n = 0;
        if *d == 1 {
            all_forms(cx, *y, &[*m], &mut n);
        }
        all_forms(cx, *y, &[*m, *d], &mut n);
        for h in 0..24 {
            all_forms(cx, *y, &[*m, *d, h], &mut n);
            let step = |x: u8| full || (*y, *m, *d) == (2024, 6, 9) || [0, 9, 10, 59].contains(&x);
            if !full && *y != 2024 && ![0, 9, 10, 23].contains(&h) {
                continue;
            }
            for mi in (0..60).filter(|x| step(*x)) {
                all_forms(cx, *y, &[*m, *d, h, mi], &mut n);
                for s in (0..60).filter(|x| step(*x)) {
                    all_forms(cx, *y, &[*m, *d, h, mi, s], &mut n);
                }
            }
        }
        cx.evals_add(n);
        cx.by_construction.fetch_add(n, Ordering::Relaxed);
    });
    cx.note("valid", json!("years 0..=9999; 9 years x every month and day x every hour x minute/second {0,9,10,59}; every minute and second for one day (every one of them in the thorough tier)"));

    // 2. every short string, as a whole, behind a year, and behind a date
    let sigma: &[u8] = b"019 -.T:x\t\xC3";
    let tails = |pre: &[u8], max: usize| {
        let total: usize = (0..=max).map(|l| sigma.len().pow(l as u32)).sum();
        let chunk = 4096;
        cx.par_range(total.div_ceil(chunk), |c| {
            let mut n = 0;
            for i in c * chunk..((c + 1) * chunk).min(total) {
                let (mut k, mut l) = (i, 0);
                while k >= sigma.len().pow(l as u32) {
                    k -= sigma.len().pow(l as u32);
                    l += 1;
                }
                let mut s = pre.to_vec();
                for _ in 0..l {
                    s.push(sigma[k % sigma.len()]);
                    k /= sigma.len();
                }
                any_string(cx, &s);
                n += 1;
            }
            cx.evals_add(n);
            cx.by_construction.fetch_add(n, Ordering::Relaxed);
        });
    };
    tails(b"", cx.q(5, 7));
    for p in [&b"2024"[..], b"2024-06", b"202406", b"2024-06-09", b"20240609", b"2024-06-09T1", b"20240609T14", b"2024-06-09T14:08", b"2024-06-09T14:08:4"] {
        tails(p, cx.q(5, 6));
    }
    // every single byte at every position of the full forms
    for base in [&b"2024-06-09T14:08:49"[..], b"20240609T140849", b"2024-06-09T14:08:49Z", b"2024.06.09T14:08:49+01:00"] {
        for i in 0..base.len() {
            for v in 0..=255u8 {
                let mut s = base.to_vec();
                s[i] = v;
                any_string(cx, &s);
                s.remove(i);
                any_string(cx, &s);
                let mut s = base.to_vec();
                s.insert(i, v);
                any_string(cx, &s);
                cx.evals_add(3);
            }
        }
    }

    // 3. verification: every combination of absent / zero / limit / beyond the limit
    let vals = |lim: u8| [None, Some(0), Some(1), Some(lim), Some(lim + 1), Some(255)];
    let limits = [12u8, 31, 23, 59, 59];
    let mut cases = Vec::new();
    for y in [0u16, 1, 2024, 9999, 10000, 65535] {
        for i in 0..6usize.pow(5) {
            let mut k = i;
            let f: Vec<Option<u8>> = limits
                .iter()
                .map(|l| {
                    let v = vals(*l)[k % 6];
                    k /= 6;
                    v
                })
                .collect();
            cases.push((y, f));
        }
    }
    cx.par(&cases, |(y, f)| {
        let t = Timestamp { year: *y, month: f[0], day: f[1], hour: f[2], minute: f[3], second: f[4] };
        let valid = *y <= 9999
            && f.iter().zip(limits).all(|(v, l)| v.is_none_or(|v| v <= l))
            && f.windows(2).all(|w| w[0].is_some() || w[1].is_none());
        for enc in [TextEncoding::Latin1, TextEncoding::UTF16, TextEncoding::UTF16BE, TextEncoding::UTF8] {
            for v3 in [false, true] {
                let fr = TimestampFrame::new(FrameId::Valid(Cow::Borrowed("TDRC")), enc, t);
                cx.evals_add(1);
                match guard(|| fr.as_bytes(WriteOptions::new().use_id3v23(v3))) {
                    Err(p) => cx.violation("verify:panic", format!("{t:?}: {p}"), vec![]),
                    Ok(Err(_)) if !valid => {}
                    Ok(Err(e)) => cx.violation("verify:refused", format!("{t:?} is within the limits but refused: {e}"), vec![]),
                    Ok(Ok(b)) if !valid => cx.violation("verify:accepted", format!("{t:?} is not a valid timestamp but was encoded as {b:?}"), vec![]),
                    Ok(Ok(b)) => {
                        for m in MODES {
                            let r = guard(|| TimestampFrame::parse(&mut &b[..], FrameId::Valid(Cow::Borrowed("TDRC")), FrameFlags::default(), m).ok().flatten());
                            if r.as_ref().ok().and_then(|x| x.as_ref()).map(|x| x.timestamp) != Some(t) {
                                cx.violation("frame", format!("{t:?} in {enc:?} (v2.3 {v3}) reads back as {r:?}"), vec![("frame", &b)]);
                            }
                        }
                    }
                }
            }
        }
    });
    cx.by_construction.fetch_add(cases.len() as u64, Ordering::Relaxed);

    // 4. ordering: all pairs of a grid with absent fields, against the chronological order of the fields (an absent field sorts first)
    let mut grid = Vec::new();
    for y in [0u16, 1999, 2024, 9999] {
        grid.push(ts(y, &[]));
        for m in [1u8, 9, 10, 12] {
            grid.push(ts(y, &[m]));
            for d in [1u8, 2, 31] {
                grid.push(ts(y, &[m, d]));
                for h in [0u8, 23] {
                    grid.push(ts(y, &[m, d, h]));
                    for mi in [0u8, 59] {
                        grid.push(ts(y, &[m, d, h, mi]));
                        for s in [0u8, 59] {
                            grid.push(ts(y, &[m, d, h, mi, s]));
                        }
                    }
                }
            }
        }
    }
    let code = |t: &Timestamp| {
        let f = |x: Option<u8>| x.map_or(0u64, |v| u64::from(v) + 1);
        [t.month, t.day, t.hour, t.minute, t.second].iter().fold(u64::from(t.year), |a, x| (a << 9) | f(*x))
    };
    cx.par(&grid, |a| {
        for b in &grid {
            let want = code(a).cmp(&code(b));
            if a.cmp(b) != want || a.partial_cmp(b) != Some(want) || (a == b) != want.is_eq() {
                cx.violation("order", format!("{a} against {b}: {:?}, expected {want:?}", a.cmp(b)), vec![]);
            }
            // the order of the printed forms is the same
            if a.to_string().cmp(&b.to_string()) != want {
                cx.violation("order:print", format!("{a} against {b}: the printed forms order differently"), vec![]);
            }
            cx.evals_add(1);
        }
    });
    cx.by_construction.fetch_add((grid.len() * grid.len()) as u64, Ordering::Relaxed);
    for s in ["2024-06-09T14:08:49", "20240609T140849", "2024- 6- 9", "2024.6.9T4", "20a4"] {
        cx.sample(|| json!({"text": s, "strict": format!("{:?}", parse(s.as_bytes(), ParsingMode::Strict)), "best_attempt": format!("{:?}", parse(s.as_bytes(), ParsingMode::BestAttempt))}));
    }
    cx.finish(
        "exploration",
        "one evaluation = one string parsed in one mode (or in all three for the arbitrary strings), one timestamp encoded, or one pair compared; distinct by construction of the enumeration",
        &["years are four digits", "lenient readings of strings in none of the documented forms are only checked for consistency, not for a particular value"],
        true,
    )
}
