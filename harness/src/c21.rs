//! C21: Ogg paging. Every packet-size list over boundary sizes, every single size of a range, every way of laying segments into
//! pages, every cut of the stream, every history of packet replacements; against an independent pager.
use crate::api::*;
use crate::contents::opts;
use crate::ctx::*;
use crate::layouts::*;
use crate::mk::*;
use crate::walk::*;
use lofty::ogg::tag::VorbisComments;
use ogg_pager::{Packets, Page, PageHeader, crc32, paginate};
use serde_json::json;
use std::io::{Cursor, Seek};
use std::sync::atomic::Ordering;

fn packet(n: usize, salt: u8) -> Vec<u8> {
    // a period that is coprime to 255, so that shifted or swapped segments are noticed
    (0..n).map(|i| ((i * 7 + i / 251 + usize::from(salt) * 31) % 253) as u8 + 1).collect()
}
/// What the pages of `packets` have to look like, whatever the page size chosen
fn check_pages(pkts: &[Vec<u8>], bytes: &[u8], serial: u32, abgp: u64, flags: u8) -> Result<usize, String> {
    let mut errs = Vec::new();
    let (pages, end) = ogg_pages(bytes, &mut errs);
    if let Some(e) = errs.first() {
        return Err(e.clone());
    }
    if end != bytes.len() {
        return Err(format!("only {end} of {} bytes are pages", bytes.len()));
    }
    let mut got: Vec<Vec<u8>> = Vec::new();
    let mut open: Option<Vec<u8>> = None;
    let np = pages.len();
    for (i, p) in pages.iter().enumerate() {
        if p.lacing.is_empty() || p.lacing.len() > 255 {
            return Err(format!("page {i} has {} segments", p.lacing.len()));
        }
        if p.serial != serial || p.seq != i as u32 {
            return Err(format!("page {i}: serial {:#x} sequence {}", p.serial, p.seq));
        }
        let want = u8::from(open.is_some()) | if i == 0 { flags & 2 } else { 0 } | if i + 1 == np { flags & 4 } else { 0 };
        if p.flags != want {
            return Err(format!("page {i} of {np}: flags {:#x}, expected {want:#x}", p.flags));
        }
        let mut pos = 0;
        let mut ended = false;
        for l in &p.lacing {
            let n = usize::from(*l);
            open.get_or_insert_with(Vec::new).extend(&p.body[pos..pos + n]);
            pos += n;
            if n < 255 {
                got.push(open.take().unwrap());
                ended = true;
            }
        }
        let wantg = if ended { abgp } else { u64::MAX };
        if p.granule != wantg {
            return Err(format!("page {i}: granule {:#x}, expected {wantg:#x}", p.granule));
        }
    }
    if open.is_some() {
        return Err("the last packet is not ended".into());
    }
    if got != pkts {
        return Err(format!("the pages hold packets of sizes {:?}", got.iter().map(Vec::len).collect::<Vec<_>>()));
    }
    Ok(np)
}
fn list(p: &Packets) -> Vec<Vec<u8>> {
    p.iter().map(<[u8]>::to_vec).collect()
}
/// paginate -> bytes -> read back, for one list of packets
fn roundtrip(cx: &Ctx, key: &str, pkts: &[Vec<u8>], serial: u32, abgp: u64, flags: u8, deep: bool) {
    cx.case(key, &[]);
    cx.evals_add(1);
    let sizes: Vec<usize> = pkts.iter().map(Vec::len).collect();
    let fail = |what: &str, b: &[u8]| {
        let cls = if sizes.iter().any(|s| *s > 0 && s % 8160 == 0) { "full" } else if sizes.iter().any(|s| s % 255 == 0) { "x255" } else { "any" };
        let w: String = what.chars().filter(|c| !c.is_ascii_digit()).take(60).collect();
        cx.violation(format!("{key}:{cls}:{w}"), format!("packets {sizes:?} serial {serial:#x} granule {abgp:#x} flags {flags}: {what}"), vec![("pages.bin", b)]);
    };
    let r = guard(|| {
        let pages = paginate(pkts.iter().map(|p| &p[..]).collect::<Vec<_>>(), serial, abgp, flags).map_err(|e| e.to_string())?;
        let mut out = Vec::new();
        let mut ends = Vec::new();
        for mut p in pages {
            p.gen_crc();
            out.extend(p.as_bytes());
            ends.push(out.len());
        }
        Ok::<_, String>((out, ends))
    });
    let (bytes, ends) = match r {
        Ok(Ok(x)) => x,
        x => return fail(&format!("paginate gave {x:?}"), &[]),
    };
    match check_pages(pkts, &bytes, serial, abgp, flags) {
        Err(e) => return fail(&e, &bytes),
        Ok(n) if n != ends.len() => return fail("number of pages", &bytes),
        Ok(_) => {}
    }
    // what follows the pages must not matter
    let mut follow = bytes.clone();
    follow.extend(b"OggX not a page");
    for (nm, b) in [("", &bytes), ("+junk", &follow)] {
        match guard(|| Packets::read(&mut Cursor::new(&b[..])).map(|p| list(&p)).map_err(|e| e.to_string())) {
            Ok(Ok(g)) if g == pkts => {}
            Ok(Ok(g)) => return fail(&format!("read{nm} gives sizes {:?}", g.iter().map(Vec::len).collect::<Vec<_>>()), b),
            x => return fail(&format!("read{nm}: {:?}", x.map(|r| r.map(|_| ()))), b),
        }
    }
    // where packets of the written form end
    let mut errs = Vec::new();
    let (pages, _) = ogg_pages(&bytes, &mut errs);
    let mut pend = Vec::new();
    for (i, p) in pages.iter().enumerate() {
        for (j, l) in p.lacing.iter().enumerate() {
            if *l < 255 {
                pend.push((j + 1 == p.lacing.len()).then_some(ends[i]));
            }
        }
    }
    if deep {
        for k in 0..=pkts.len() + 1 {
            let mut c = Cursor::new(&bytes[..]);
            let r = guard(|| Packets::read_count(&mut c, k as isize).map(|p| list(&p)).map_err(|e| e.to_string()));
            match r {
                Ok(Ok(g)) if k <= pkts.len() && g == pkts[..k] => {
                    let pos = c.stream_position().unwrap() as usize;
                    let want = if k == 0 { Some(0) } else { pend[k - 1] };
                    if want.is_some_and(|w| w != pos) {
                        return fail(&format!("read_count leaves the reader at another place: {k} packets, {pos} {want:?}"), &bytes);
                    }
                }
                Ok(Err(_)) if k > pkts.len() => {}
                x => return fail(&format!("read_count({k}): {:?}", x.map(|r| r.map(|v| v.len()))), &bytes),
            }
        }
        // the container writes the same
        let p = Packets::read(&mut Cursor::new(&bytes[..])).unwrap();
        let mut w = Vec::new();
        match guard(|| p.write_to(&mut w, serial, abgp, flags).map_err(|e| e.to_string())) {
            Ok(Ok(n)) if n == ends.len() && w == bytes => {}
            x => fail(&format!("write_to: {x:?}"), &w),
        }
        // page by page
        let mut c = Cursor::new(&bytes[..]);
        let mut start = 0;
        for (i, e) in ends.iter().enumerate() {
            match guard(|| Page::read(&mut c).map_err(|e| e.to_string())) {
                Ok(Ok(mut g)) => {
                    let okh = g.header().start == start as u64 && g.end == *e as u64 && g.content() == pages[i].body && g.header().content_size() == pages[i].body.len();
                    let b1 = g.as_bytes();
                    g.header_mut().sequence_number ^= 0;
                    g.gen_crc();
                    if !okh || b1 != bytes[start..*e] || g.as_bytes() != b1 || g.take_content() != pages[i].body {
                        return fail("Page::read then as_bytes differs", &bytes);
                    }
                }
                x => return fail(&format!("Page::read: {x:?}"), &bytes),
            }
            start = *e;
        }
    }
    cx.by_construction.fetch_add(1, Ordering::Relaxed);
}
fn lists(sizes: &[usize], len: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    for _ in 0..len {
        out = out.into_iter().flat_map(|l: Vec<usize>| sizes.iter().map(move |s| [&l[..], &[*s]].concat())).collect();
    }
    out
}
/// Segments laid into pages in every way (any page may end after any segment)
fn foreign(cx: &Ctx, sizes: &[usize]) {
    let pkts: Vec<Vec<u8>> = sizes.iter().enumerate().map(|(i, n)| packet(*n, i as u8)).collect();
    let lac: Vec<u8> = sizes.iter().flat_map(|n| lacing_of(*n)).collect();
    let all: Vec<u8> = pkts.concat();
    let n = lac.len();
    for cut in 0..1u32 << (n - 1) {
        let mut b = Vec::new();
        let mut pos = 0;
        let mut s = 0;
        let mut seq = 0;
        let mut pend = Vec::new();
        for i in 0..n {
            if i + 1 == n || cut >> i & 1 == 1 {
                let l = &lac[s..=i];
                let len: usize = l.iter().map(|x| usize::from(*x)).sum();
                let cont = u8::from(s > 0 && lac[s - 1] == 255);
                let ended = l.iter().any(|x| *x < 255);
                b.extend(ogg_page_raw(cont | if s == 0 { 2 } else { 0 }, if ended { 77 } else { u64::MAX }, 9, seq, l, &all[pos..pos + len]));
                for (j, x) in l.iter().enumerate() {
                    if *x < 255 {
                        pend.push((j + 1 == l.len()).then_some(b.len()));
                    }
                }
                seq += 1;
                pos += len;
                s = i + 1;
            }
        }
        cx.evals_add(1);
        cx.case(&format!("foreign {sizes:?} {cut:b}"), &b);
        let key = format!("foreign:{}", sizes.len());
        let whole = guard(|| Packets::read(&mut Cursor::new(&b[..])).map(|p| list(&p)).map_err(|e| e.to_string()));
        if whole != Ok(Ok(pkts.clone())) {
            cx.violation(format!("{key}:read"), format!("packets {sizes:?} laid into pages with cuts {cut:b}: {:?}", whole.map(|r| r.map(|v| v.iter().map(Vec::len).collect::<Vec<_>>()))), vec![("pages.bin", &b)]);
            continue;
        }
        for k in 1..=pkts.len() + 1 {
            let mut c = Cursor::new(&b[..]);
            let r = guard(|| Packets::read_count(&mut c, k as isize).map(|p| list(&p)).map_err(|e| e.to_string()));
            let ok = match &r {
                Ok(Ok(g)) => k <= pkts.len() && *g == pkts[..k] && pend[k - 1].is_none_or(|w| w as u64 == c.position()),
                Ok(Err(_)) => k > pkts.len(),
                Err(_) => false,
            };
            if !ok {
                cx.violation(format!("{key}:count"), format!("packets {sizes:?}, cuts {cut:b}: read_count({k}) gives {:?} at {} (expected {:?})", r.map(|r| r.map(|v| v.len())), c.position(), pend.get(k - 1)), vec![("pages.bin", &b)]);
                break;
            }
        }
        // paging again what was read
        let p = Packets::read(&mut Cursor::new(&b[..])).unwrap();
        let mut w = Vec::new();
        if !matches!(guard(|| p.write_to(&mut w, 9, 5, 6).is_ok()), Ok(true)) || check_pages(&pkts, &w, 9, 5, 6).is_err() {
            cx.violation(format!("{key}:repage"), format!("packets {sizes:?}: paged again: {:?}", check_pages(&pkts, &w, 9, 5, 6)), vec![("pages.bin", &w)]);
        }
        cx.by_construction.fetch_add(1, Ordering::Relaxed);
    }
}
/// A stream cut anywhere gives an error or the packets that are complete, never others
fn cuts(cx: &Ctx, sizes: &[usize]) {
    let pkts: Vec<Vec<u8>> = sizes.iter().enumerate().map(|(i, n)| packet(*n, i as u8)).collect();
    let mut bytes = Vec::new();
    for mut p in paginate(pkts.iter().map(|p| &p[..]).collect::<Vec<_>>(), 3, 0, 2).unwrap() {
        p.gen_crc();
        bytes.extend(p.as_bytes());
    }
    for n in 0..bytes.len() {
        cx.evals_add(1);
        let b = &bytes[..n];
        let r = guard(|| Packets::read(&mut Cursor::new(b)).map(|p| list(&p)).map_err(|_| ()));
        let ok = match &r {
            Ok(Ok(g)) => g.len() <= pkts.len() && *g == pkts[..g.len()],
            Ok(Err(())) => true,
            Err(_) => false,
        };
        if !ok {
            cx.violation("cut", format!("packets {sizes:?}, {n} of {} bytes: {:?}", bytes.len(), r.map(|r| r.map(|v| v.iter().map(Vec::len).collect::<Vec<_>>()))), vec![("pages.bin", b)]);
            return;
        }
        for k in 1..=pkts.len() {
            let r = guard(|| Packets::read_count(&mut Cursor::new(b), k as isize).map(|p| list(&p)).map_err(|_| ()));
            let ok = match &r {
                Ok(Ok(g)) => *g == pkts[..k],
                Ok(Err(())) => true,
                Err(_) => false,
            };
            if !ok {
                cx.violation("cut:count", format!("packets {sizes:?}, {n} bytes, read_count({k}) gives {:?}", r.map(|r| r.map(|v| v.len()))), vec![("pages.bin", b)]);
                return;
            }
        }
    }
    cx.by_construction.fetch_add(bytes.len() as u64, Ordering::Relaxed);
}
/// Breadth-first over packet replacements: the container against a Vec<Vec<u8>>
fn histories(cx: &Ctx, init: &[usize], news: &[usize], depth: usize) {
    let base: Vec<Vec<u8>> = init.iter().enumerate().map(|(i, n)| packet(*n, i as u8)).collect();
    let mut bytes = Vec::new();
    for mut p in paginate(base.iter().map(|p| &p[..]).collect::<Vec<_>>(), 3, 0, 2).unwrap() {
        p.gen_crc();
        bytes.extend(p.as_bytes());
    }
    let mut seen = std::collections::HashSet::new();
    let mut front: Vec<(Vec<(usize, usize)>, Vec<Vec<u8>>)> = vec![(vec![], base.clone())];
    seen.insert(base.clone());
    for d in 0..=depth {
        let mut next = Vec::new();
        for (h, model) in front {
            cx.states.fetch_add(1, Ordering::Relaxed);
            cx.evals_add(1);
            // replay on the real container
            let r = guard(|| {
                let mut p = Packets::read(&mut Cursor::new(&bytes[..])).map_err(|e| e.to_string())?;
                for (s, (i, n)) in h.iter().enumerate() {
                    let ok = p.set(*i, packet(*n, 100 + s as u8));
                    if ok != (*i < base.len()) {
                        return Err(format!("set({i}) returned {ok}"));
                    }
                }
                for i in 0..model.len() + 2 {
                    if p.get(i) != model.get(i).map(|v| &v[..]) {
                        return Err(format!("get({i}) has {:?} bytes", p.get(i).map(<[u8]>::len)));
                    }
                }
                if list(&p) != model || p.len() != model.len() || p.is_empty() != model.is_empty() {
                    return Err("iter or len differ".into());
                }
                let mut w = Vec::new();
                p.write_to(&mut w, 1, 2, 6).map_err(|e| e.to_string())?;
                check_pages(&model, &w, 1, 2, 6).map(|_| ())
            });
            if r != Ok(Ok(())) {
                cx.violation("history", format!("packets {init:?} after {h:?}: {r:?}"), vec![]);
                return;
            }
            cx.traces.fetch_add(1, Ordering::Relaxed);
            if d == depth {
                continue;
            }
            for i in 0..=base.len() {
                for n in news {
                    cx.transitions.fetch_add(1, Ordering::Relaxed);
                    let mut m = model.clone();
                    if let Some(x) = m.get_mut(i) {
                        *x = packet(*n, 100 + h.len() as u8);
                    }
                    let mut h2 = h.clone();
                    h2.push((i, *n));
                    if seen.insert(m.clone()) || i == base.len() {
                        next.push((h2, m));
                    }
                }
            }
        }
        front = next;
    }
}
/// The comment packet written by the tag layer, at the sizes where segments and pages fill up
fn through_tags(cx: &Ctx) {
    let mut sizes = Vec::new();
    let top = cx.q(70, 300);
    for k in 1..=top {
        for d in -3i64..=3 {
            sizes.push((k * 255 + d) as usize);
        }
    }
    for k in [2usize, 4, 8, 16].iter().flat_map(|m| [m * 8160, m * 65025]) {
        sizes.extend([k - 1, k, k + 1]);
    }
    let mut jobs = Vec::new();
    for f in [Fmt::Vorbis, Fmt::Opus, Fmt::Speex] {
        for l in layouts(f, true).into_iter().filter(|l| l.name != "bigaudio") {
            if !l.core && !cx.thorough() {
                continue;
            }
            for s in &sizes {
                jobs.push((f, l.name.clone(), l.bytes.clone(), *s));
            }
        }
    }
    cx.note("comment_packet_sizes", json!(sizes.len()));
    cx.par(&jobs, |(f, name, base, target)| {
        // bytes of the packet around the value
        let over = match f {
            Fmt::Vorbis => 7 + 1,
            Fmt::Opus => 8,
            _ => 0,
        } + 4 + 0 + 4 + 4 + 2;
        let len = target.saturating_sub(over).max(1);
        let mut v = VorbisComments::default();
        v.push("A".into(), packet(len, 0).iter().map(|b| char::from(b'a' + b % 26)).collect());
        let key = format!("tag:{f:?}/{name}");
        cx.case(&format!("{key} {target}"), base);
        cx.evals_add(1);
        let n = N::Vorbis(v);
        let (r, b) = n.save2(base, opts(0));
        if r.is_err() {
            return cx.violation(format!("{key}:save"), format!("comment packet of {target} bytes: {r:?}"), vec![("base.bin", base)]);
        }
        let (a0, a1) = (anatomy(*f, base), anatomy(*f, &b));
        if let Some(e) = a1.errs.first().filter(|_| a0.errs.is_empty()) {
            return cx.violation(format!("{key}:{e}"), format!("comment packet of {target} bytes: {e}"), vec![("saved.bin", &b)]);
        }
        if let Err(e) = same_foreign(*f, &a0, &a1) {
            return cx.violation(format!("{key}:foreign"), format!("comment packet of {target} bytes: {e}"), vec![("saved.bin", &b)]);
        }
        let got = read(*f, &b, po()).map(|r| r.get(T::Vorbis).map(|n| match n {
            N::Vorbis(v) => v.get("A").map(str::len),
            _ => None,
        }));
        if got != Ok(Some(Some(len))) {
            cx.violation(format!("{key}:value"), format!("comment of {len} bytes: {got:?}"), vec![("saved.bin", &b)]);
        }
        cx.by_construction.fetch_add(1, Ordering::Relaxed);
    });
}
pub fn run(cx: &Ctx) -> i32 {
    let combos: Vec<(u32, u64, u8)> = vec![(0, 0, 0), (1, 1, 2), (u32::MAX, u64::MAX - 1, 4), (0x1234_5678, 0x0102_0304_0506_0708, 6)];
    // single packets: every size
    let top = cx.q(25_000usize, 140_000);
    cx.par_range(top / 100, |c| {
        for n in c * 100..(c + 1) * 100 {
            let (s, g, f) = combos[n % 4];
            roundtrip(cx, "single", &[packet(n, 3)], s, g, f, n % 255 < 3 || n % 255 > 252);
        }
    });
    // lists over boundary sizes
    let sizes = [0usize, 1, 254, 255, 256, 510, 511, 7905, 8159, 8160, 8161, 8414, 8415, 16319, 16320, 16321, 24480];
    let mut jobs = vec![vec![]];
    jobs.extend(lists(&sizes, 1));
    jobs.extend(lists(&sizes, 2));
    jobs.extend(lists(if cx.thorough() { &sizes } else { &sizes[..12] }, 3));
    jobs.extend(lists(if cx.thorough() { &sizes[..12] } else { &[0, 1, 255, 8160, 8161] }, 4));
    jobs.extend(lists(&[0, 255, 8160], cx.q(5, 7)));
    cx.note("packet_lists", json!(jobs.len()));
    for j in jobs.iter().step_by(jobs.len() / 6) {
        cx.sample(|| json!({"packet_sizes": j}));
    }
    cx.par(&jobs, |l| {
        let pk: Vec<Vec<u8>> = l.iter().enumerate().map(|(i, n)| packet(*n, i as u8)).collect();
        for (s, g, f) in &combos {
            roundtrip(cx, "list", &pk, *s, *g, *f, *f == 6 || cx.thorough());
        }
    });
    // every segmentation
    let small = [0usize, 1, 254, 255, 256, 510, 765];
    let mut jobs = Vec::new();
    for n in 1..=cx.q(4, 5) {
        jobs.extend(lists(&small, n).into_iter().filter(|l| l.iter().map(|s| s / 255 + 1).sum::<usize>() <= cx.q(9, 12)));
    }
    cx.note("segmented_lists", json!(jobs.len()));
    cx.par(&jobs, |l| foreign(cx, l));
    // every cut
    let mut jobs = lists(&[0, 3, 255, 300, 8160, 8200], 2);
    jobs.extend(lists(&[0, 1, 255, 511], 3));
    cx.par(&jobs, |l| cuts(cx, l));
    // replacement histories
    let jobs = vec![vec![5usize], vec![0, 0], vec![0, 5, 255], vec![300, 0, 8160], vec![8161, 1, 0, 20]];
    cx.par(&jobs, |l| histories(cx, l, &[0, 1, 255, 8160, 9000], cx.q(2, 3)));
    // checksums
    let n3 = cx.q(2, 3);
    cx.par_range(256, |a| {
        let mut b = vec![a as u8];
        let mut n = 1;
        let chk = |b: &[u8]| {
            if crc32(b) != crc_ogg(b) {
                cx.violation("crc", format!("checksum of {b:?} is {:#x}, expected {:#x}", crc32(b), crc_ogg(b)), vec![]);
            }
        };
        chk(&b);
        for x in 0..=255u8 {
            b.truncate(1);
            b.push(x);
            chk(&b);
            n += 1;
            if n3 == 3 {
                for y in 0..=255u8 {
                    b.truncate(2);
                    b.push(y);
                    chk(&b);
                    n += 1;
                }
            }
        }
        cx.evals_add(n);
    });
    for n in 0..4096 {
        let b = packet(n, 9);
        if crc32(&b) != crc_ogg(&b) {
            cx.violation("crc:len", format!("checksum of {n} bytes"), vec![("data.bin", &b)]);
        }
    }
    // page headers: every flag and version byte
    for f in 0..=255u8 {
        let b = ogg_page_raw(f, 1, 2, 3, &[4], b"abcd");
        let h = guard(|| PageHeader::read(&mut Cursor::new(&b[..])).map_err(|e| e.to_string()));
        let ok = matches!(&h, Ok(Ok(h)) if h.header_type_flag() == f && h.abgp == 1 && h.stream_serial == 2 && h.sequence_number == 3 && h.content_size() == 4 && h.checksum() == u32::from_le_bytes(b[22..26].try_into().unwrap()));
        if !ok {
            cx.violation("header", format!("page header with flags {f:#x}: {h:?}"), vec![("page.bin", &b)]);
        }
        let mut v = b.clone();
        v[4] = f;
        if guard(|| PageHeader::read(&mut Cursor::new(&v[..])).is_ok()) != Ok(f == 0) {
            cx.violation("version", format!("page version {f}"), vec![("page.bin", &v)]);
        }
    }
    through_tags(cx);
    cx.finish(
        "model_checking",
        "every single packet size of a range, every list of boundary packet sizes, every way to lay the segments of small lists into pages, every truncation and every history of packet replacements is paged and read back by the real pager and compared with an independent one; comment packets of every size around segment and page boundaries go through the tag writer of each Ogg format",
        &["which packets share a page is the pager's choice; a continued, ended, first or last page has to be marked as such"],
        false,
    )
}
