//! C02: a saved tag reads back equal. Every item kind x edge value, all pairs of kinds, on every format that stores the tag type.
use crate::api::*;
use crate::ctx::*;
use crate::layouts::*;
use crate::rich::*;
use crate::walk::*;
use lofty::config::WriteOptions;
use lofty::id3::v2::*;
use serde_json::json;
use std::sync::atomic::Ordering;

fn norm(n: &N) -> String {
    let mut n = n.clone();
    if let N::Vorbis(v) = &mut n {
        v.set_vendor(String::new());
    }
    n.sig()
}
fn o(pad: u32) -> WriteOptions {
    WriteOptions::new().preferred_padding(pad)
}
/// kinds: the first of each family of rich items
pub fn kinds(t: T) -> Vec<(String, N)> {
    let mut seen = std::collections::HashSet::new();
    rich(t)
        .into_iter()
        .filter(|(n, _)| {
            // a flag atom with two values has no meaning
            if n.starts_with("boolfalse") {
                return false;
            }
            let k: String = n.trim_end_matches(|c: char| c.is_ascii_digit()).split(':').take(2).collect::<Vec<_>>().join(":");
            let k = k.trim_end_matches(|c: char| c.is_ascii_digit()).to_string();
            seen.insert(k)
        })
        .collect()
}
fn one(cx: &Ctx, key: &str, f: Fmt, base: &[u8], n: &N, pad: u32) {
    cx.case(key, base);
    cx.eval(key);
    let b = match guard(|| n.save(base, o(pad))) {
        Err(p) => return cx.violation(format!("{key}:panic"), format!("saving panics: {p}"), vec![("base.bin", base)]),
        Ok(Err(e)) => return cx.violation(format!("{key}:refused"), format!("representable tag is refused: {e}\n{}", n.sig()), vec![("base.bin", base)]),
        Ok(Ok(b)) => b,
    };
    cx.transitions.fetch_add(1, Ordering::Relaxed);
    let r = match guard(|| read(f, &b, po())) {
        Err(p) => return cx.violation(format!("{key}:readpanic"), format!("reading back panics: {p}"), vec![("saved.bin", &b)]),
        Ok(Err(e)) => return cx.violation(format!("{key}:unreadable"), format!("reading back fails: {e}"), vec![("saved.bin", &b)]),
        Ok(Ok(r)) => r,
    };
    let Some(m) = r.get(n.t()) else {
        return cx.violation(format!("{key}:lost"), format!("the tag is gone: {}", n.sig()), vec![("saved.bin", &b)]);
    };
    if norm(m) != norm(n) {
        return cx.violation(format!("{key}:differs"), format!("saved {} but read {}", norm(n), norm(m)), vec![("saved.bin", &b)]);
    }
    cx.outcome(&h64(&b));
    cx.traces.fetch_add(1, Ordering::Relaxed);
    // a tag obtained by reading saves to the same again, on a fresh file and over itself
    for (w, target) in [("fresh", base), ("over", &b[..])] {
        match guard(|| m.save(target, o(pad))) {
            Ok(Ok(c)) => match guard(|| read(f, &c, po())) {
                Ok(Ok(r2)) if r2.get(n.t()).map(norm) == Some(norm(n)) => {}
                x => cx.violation(format!("{key}:again-{w}"), format!("a tag that was read does not survive another save: {x:?}"), vec![("saved.bin", &b), ("again.bin", &c)]),
            },
            x => cx.violation(format!("{key}:resave-{w}"), format!("a tag that was read cannot be saved: {x:?}"), vec![("saved.bin", &b)]),
        }
    }
}
/// RVA2: every stated number of bits against every number of bytes of a peak. The bytes decide.
fn peaks(cx: &Ctx) {
    use std::borrow::Cow;
    use std::collections::HashMap;
    let b = layouts(Fmt::Mpeg, true).into_iter().find(|l| l.core && l.name != "bigaudio").unwrap().bytes;
    cx.par_range(256, |bits| {
        for len in 0..=40usize {
            let key = format!("peak:{bits}b:{len}");
            if cx.skip(&key) {
                continue;
            }
            cx.eval(&key);
            cx.case(&key, &b);
            let mut h = HashMap::new();
            let chans = [(ChannelType::Other, -5i16, bits as u8, Some(crate::mk::pat(len, 250))), (ChannelType::FrontLeft, 256, 0, None), (ChannelType::Subwoofer, 3, 9, Some(vec![1, 255]))];
            for (c, va, n, p) in &chans {
                h.insert(*c, ChannelInformation { channel_type: *c, volume_adjustment: *va, bits_representing_peak: *n, peak_volume: p.clone() });
            }
            let mut t = Id3v2Tag::new();
            t.insert(Frame::RelativeVolumeAdjustment(RelativeVolumeAdjustmentFrame::new("ident", Cow::Owned(h))));
            let r = guard(|| N::Id3v2(t).save(&b, o(0)).map(|x| (read(Fmt::Mpeg, &x, po()), x)));
            let Ok(Ok((Ok(r), saved))) = r else {
                cx.violation(format!("{key}:failed"), format!("cannot be saved and read back: {:?}", r.map(|x| x.map(|y| y.0.err()))), vec![("base.bin", &b)]);
                continue;
            };
            let got = match r.get(T::Id3v2) {
                Some(N::Id3v2(t)) => t.into_iter().find_map(|f| match f {
                    Frame::RelativeVolumeAdjustment(r) => Some(r.clone()),
                    _ => None,
                }),
                _ => None,
            };
            let Some(got) = got else {
                cx.violation(format!("{key}:lost"), "the frame is gone".to_string(), vec![("saved.bin", &saved)]);
                continue;
            };
            let mut bad = got.identification != "ident" || got.channels.len() != 3;
            for (c, va, n, p) in &chans {
                let want = p.as_ref().map(|p| p[..p.len().min(32)].to_vec()).filter(|p| !p.is_empty());
                let exact = p.as_ref().is_none_or(|p| p.len() == (*n as usize).div_ceil(8));
                bad |= !got.channels.get(c).is_some_and(|i| i.volume_adjustment == *va && i.peak_volume == want && i.channel_type == *c && (!exact || i.bits_representing_peak == *n));
            }
            if bad {
                cx.violation(format!("{key}:differs"), format!("saved {chans:?}, read {got:?}"), vec![("saved.bin", &saved)]);
            }
            cx.outcome(&h64(&saved));
        }
    });
}
pub fn run(cx: &Ctx) -> i32 {
    let mut jobs: Vec<(String, Fmt, Vec<u8>, N, u32)> = Vec::new();
    for f in ALL_FMT {
        let ls: Vec<Layout> = layouts(f, true).into_iter().filter(|l| l.core && l.name != "bigaudio").collect();
        let nl = cx.q(6.min(ls.len()), ls.len());
        for t in writable(f) {
            let r = rich(t);
            for l in ls.iter().step_by((ls.len() / nl).max(1)).take(nl) {
                for (n, x) in &r {
                    for pad in [0u32, 1024] {
                        if pad == 0 && !matches!(t, T::Id3v2 | T::Ilst | T::Vorbis) {
                            continue;
                        }
                        jobs.push((format!("{f:?}/{}:{t:?}:{n}:p{pad}", l.name), f, l.bytes.clone(), x.clone(), pad));
                    }
                }
                let e = everything(t);
                jobs.push((format!("{f:?}/{}:{t:?}:everything", l.name), f, l.bytes.clone(), e, 7));
            }
            // all pairs of kinds
            let k = kinds(t);
            for (i, (an, a)) in k.iter().enumerate() {
                for (bn, b) in k.iter().skip(i + 1) {
                    jobs.push((format!("{f:?}/pair:{t:?}:{an}+{bn}"), f, ls[0].bytes.clone(), merge(a, b), 1024));
                    jobs.push((format!("{f:?}/pair:{t:?}:{bn}+{an}"), f, ls[ls.len() - 1].bytes.clone(), merge(b, a), 0));
                    if cx.thorough() {
                        for l in &ls[1..] {
                            jobs.push((format!("{f:?}/{}:pair:{t:?}:{an}+{bn}", l.name), f, l.bytes.clone(), merge(a, b), 0));
                        }
                    }
                }
            }
            cx.note_add("kinds", k.len() as u64);
            // tag header flags
            if t == T::Id3v2 {
                for bits in 0..16u8 {
                    // in a chunk a footer has no meaning and is not written (documented)
                    if bits & 4 != 0 && matches!(f, Fmt::Wav | Fmt::Aiff) {
                        continue;
                    }
                    for pad in [0u32, 1, 100] {
                        let mut x = Id3v2Tag::new();
                        x.insert(Frame::Text(TextInformationFrame::new(FrameId::new("TIT2").unwrap(), lofty::TextEncoding::UTF8, "flags")));
                        let mut fl = Id3v2TagFlags::default();
                        fl.experimental = bits & 1 != 0;
                        fl.crc = bits & 2 != 0;
                        fl.footer = bits & 4 != 0;
                        if bits & 8 != 0 {
                            fl.restrictions = Some(TagRestrictions::from_byte(0xFF));
                        }
                        x.set_flags(fl);
                        jobs.push((format!("{f:?}/flags{bits}:p{pad}"), f, ls[0].bytes.clone(), N::Id3v2(x), pad));
                    }
                }
            }
        }
    }
    // every size of every variable part, every number of items
    let mut sizes: Vec<usize> = (1..=cx.q(300, 2100)).collect();
    let mut counts: Vec<usize> = (1..=cx.q(20, 300)).chain([127, 128, 129, 254, 255, 256, 257, 300]).collect();
    for k in 8..cx.q(17, 19) {
        sizes.extend([(1 << k) - 2, (1 << k) - 1, 1 << k, (1 << k) + 1, (1 << k) + 17]);
        counts.extend(if cx.thorough() && k < 14 { vec![(1 << k) - 1, (1 << k) + 1] } else { vec![] });
    }
    // around the 255 x 255 bytes of an Ogg page
    sizes.extend([65025 - 60, 65025 - 1, 65025, 65025 + 1]);
    sizes.sort();
    sizes.dedup();
    counts.sort();
    counts.dedup();
    for f in ALL_FMT {
        let b = layouts(f, true).into_iter().find(|l| l.core && l.name != "bigaudio").unwrap().bytes;
        for t in writable(f) {
            // one format per tag type gets every size, the others a sparser set
            let first = ALL_FMT.into_iter().find(|g| writable(*g).contains(&t)) == Some(f) || matches!(t, T::Vorbis);
            for (i, n) in sizes.iter().enumerate() {
                if !first && !cx.thorough() && i % 13 != 0 {
                    continue;
                }
                for (k, x) in sized(t, *n) {
                    jobs.push((format!("{f:?}/{t:?}:{k}"), f, b.clone(), x, 0));
                }
            }
            for n in &counts {
                for (k, x) in many(t, *n) {
                    jobs.push((format!("{f:?}/{t:?}:{k}"), f, b.clone(), x, 0));
                }
            }
        }
    }
    cx.note("cases", json!(jobs.len()));
    jobs.retain(|j| !cx.skip(&j.0));
    cx.states.store(jobs.len() as u64, Ordering::Relaxed);
    for j in jobs.iter().step_by((jobs.len() / 10).max(1)) {
        cx.sample(|| json!({"case": j.0, "file_bytes": j.2.len()}));
    }
    cx.par(&jobs, |(k, f, b, n, pad)| one(cx, k, *f, b, n, *pad));
    peaks(cx);
    cx.finish(
        "exploration",
        "exhaustive enumeration of (format x initial layout x tag type x item kind x edge value x padding), of all pairs of item kinds and of all ID3v2 header flag combinations; each is saved and re-read through the real code and compared item by item, then the tag read is saved again on a fresh file and over itself",
        &["item kinds and edge values are listed in harness/src/rich.rs", "vendor strings of Vorbis comments belong to the container and are not compared"],
        false,
    )
}
