//! C18: synchsafe integers and unsynchronised data.
use crate::api::*;
use crate::ctx::*;
use crate::mk::*;
use crate::walk::{Fmt, T};
use lofty::config::ParseOptions;
use lofty::id3::v2::util::synchsafe::{SynchsafeInteger, UnsynchronizedStream};
use lofty::id3::v2::Frame;
use serde_json::json;
use std::io::Read;
use std::sync::atomic::Ordering;

// ---------------------------------------------------------------- oracle
fn enc7(v: u64, bytes: u32) -> u64 {
    (0..bytes).fold(0, |a, i| a | (v >> (7 * i) & 0x7F) << (8 * i))
}
fn dec7(v: u64, bytes: u32) -> u64 {
    (0..bytes).fold(0, |a, i| a | (v >> (8 * i) & 0x7F) << (7 * i))
}
/// the unsynchronisation scheme of the ID3v2 specification; `all`: a zero after every FF, not only where it is needed
fn unsync(b: &[u8], all: bool) -> Vec<u8> {
    let mut o = Vec::new();
    for (i, x) in b.iter().enumerate() {
        o.push(*x);
        if *x == 0xFF {
            let need = match b.get(i + 1) {
                None => true,
                Some(n) => *n == 0 || *n >= 0xE0,
            };
            if need || all {
                o.push(0);
            }
        }
    }
    o
}
fn resync(b: &[u8]) -> Vec<u8> {
    let mut o = Vec::new();
    let mut i = 0;
    while i < b.len() {
        o.push(b[i]);
        if b[i] == 0xFF && b.get(i + 1) == Some(&0) {
            i += 1;
        }
        i += 1;
    }
    o
}

// ---------------------------------------------------------------- 1. integers
fn ints(cx: &Ctx) {
    for v in 0..=u8::MAX {
        let r = v.synch().ok().map(u64::from);
        let want = (v < 0x80).then(|| enc7(v.into(), 1));
        if r != want || u64::from(v.widening_synch()) != enc7(v.into(), 2) || u64::from(v.unsynch()) != dec7(v.into(), 1) {
            cx.violation(format!("u8:{v}"), format!("u8 {v:#x}: synch {r:x?}, widening {:x}, unsynch {:x}", v.widening_synch(), v.unsynch()), vec![]);
        }
    }
    for v in 0..=u16::MAX {
        let r = v.synch().ok().map(u64::from);
        let want = (v < 0x4000).then(|| enc7(v.into(), 2));
        if r != want || u64::from(v.widening_synch()) != enc7(v.into(), 3) || u64::from(v.unsynch()) != dec7(v.into(), 2) {
            cx.violation(format!("u16:{}", v >> 7), format!("u16 {v:#x}: synch {r:x?}, widening {:x}, unsynch {:x}", v.widening_synch(), v.unsynch()), vec![]);
        }
    }
    let chunks = 4096usize;
    cx.par_range(chunks, |c| {
        let n = (1u64 << 32) / chunks as u64;
        for v in (c as u64 * n)..((c as u64 + 1) * n) {
            let x = v as u32;
            let want = (v < 1 << 28).then(|| enc7(v, 4) as u32);
            let got = x.synch().ok();
            let bad = got != want || x.widening_synch() != enc7(v, 5) || u64::from(x.unsynch()) != dec7(v, 4);
            if bad || got.is_some_and(|s| s.unsynch() != x) {
                return cx.violation(format!("u32:{c}"), format!("u32 {x:#x}: synch {got:x?} (expected {want:x?}), widening {:x} (expected {:x}), unsynch {:x} (expected {:x})", x.widening_synch(), enc7(v, 5), x.unsynch(), dec7(v, 4)), vec![]);
            }
        }
        cx.evals_add(n);
        cx.by_construction.fetch_add(n, Ordering::Relaxed);
    });
    cx.evals_add(65536 + 256);
}

// ---------------------------------------------------------------- 2. the stream
struct Chunks<'a> {
    b: &'a [u8],
    /// sizes of the successive reads (then unlimited); 0 is an interrupted read
    plan: &'a [usize],
    k: usize,
}
impl Read for Chunks<'_> {
    fn read(&mut self, d: &mut [u8]) -> std::io::Result<usize> {
        let cap = if self.plan.is_empty() { usize::MAX } else { self.plan[self.k % self.plan.len()] };
        self.k += 1;
        if cap == 0 {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let n = d.len().min(self.b.len()).min(cap);
        d[..n].copy_from_slice(&self.b[..n]);
        self.b = &self.b[n..];
        Ok(n)
    }
}
fn stream(b: &[u8], inner: &[usize], outer: &[usize]) -> Result<Vec<u8>, String> {
    let mut s = UnsynchronizedStream::new(Chunks { b, plan: inner, k: 0 });
    let mut o = Vec::new();
    let mut buf = vec![0u8; outer.iter().copied().max().unwrap_or(0).max(1)];
    for i in 0.. {
        let want = if outer.is_empty() { 1 } else { outer[i % outer.len()] };
        match s.read(&mut buf[..want]) {
            Ok(0) => break,
            Ok(n) => o.extend(&buf[..n]),
            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
            Err(e) => return Err(e.to_string()),
        }
        if i > 4 * b.len() + 40 {
            return Err("never ends".into());
        }
    }
    Ok(o)
}
fn one_stream(cx: &Ctx, b: &[u8], inner: &[usize], outer: &[usize]) {
    match guard(|| stream(b, inner, outer)) {
        Ok(Ok(o)) if o == resync(b) => {}
        r => {
            let tail = &b[b.len().saturating_sub(16)..];
            let r = r.map(|r| r.map(|o| format!("{} bytes ending {:x?}", o.len(), &o[o.len().saturating_sub(16)..])));
            cx.violation(
                format!("stream:{}", b.len().min(100)),
                format!("{} bytes ending {tail:x?}, inner reads {inner:?}, outer reads {outer:?}: {r:?}, expected {} bytes", b.len(), resync(b).len()),
                vec![("bin", b)],
            );
        }
    }
}
const SIGMA: [u8; 4] = [0x00, 0x01, 0xE0, 0xFF];
fn strings(max: usize) -> Vec<Vec<u8>> {
    let mut all = vec![vec![]];
    let mut from = 0;
    for _ in 0..max {
        let to = all.len();
        for i in from..to {
            for c in SIGMA {
                let mut s = all[i].clone();
                s.push(c);
                all.push(s);
            }
        }
        from = to;
    }
    all
}
fn compositions(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    (0..1usize << (n - 1))
        .map(|m| {
            let mut v = vec![1];
            for i in 0..n - 1 {
                if m >> i & 1 == 1 {
                    v.push(1);
                } else {
                    *v.last_mut().unwrap() += 1;
                }
            }
            v
        })
        .collect()
}
fn streams(cx: &Ctx) {
    let all = strings(cx.q(8, 10));
    cx.par(&all, |s| {
        let mut n = 0;
        for inner in [&[][..], &[1], &[2], &[3], &[0, 1], &[0, 2]] {
            for outer in [&[64][..], &[1], &[2], &[3], &[1, 3]] {
                one_stream(cx, s, inner, outer);
                n += 1;
            }
        }
        // every encoding of these bytes decodes to them
        for all in [false, true] {
            let e = unsync(s, all);
            if resync(&e) != *s {
                panic!("oracle");
            }
            one_stream(cx, &e, &[], &[64]);
            n += 1;
        }
        // every way to cut the reads, inside and outside
        if s.len() <= 5 {
            for inner in compositions(s.len()) {
                for outer in compositions(s.len()) {
                    one_stream(cx, s, &inner, &outer);
                    n += 1;
                }
            }
        }
        cx.evals_add(n);
        cx.by_construction.fetch_add(n, Ordering::Relaxed);
    });
    // around the boundary of the internal buffer
    let short = strings(4);
    cx.par_range(6, |k| {
        let mut n = 0;
        for fill in [0x55u8, 0xFF, 0x00] {
            for s in &short {
                let mut b = vec![fill; 8189 + k];
                b.extend(s);
                b.push(0x77);
                for outer in [&[8191][..], &[8192], &[8193], &[5000], &[9000]] {
                    for inner in [&[][..], &[4096], &[8191]] {
                        one_stream(cx, &b, inner, outer);
                        n += 1;
                    }
                }
            }
        }
        cx.evals_add(n);
        cx.by_construction.fetch_add(n, Ordering::Relaxed);
    });
}

// ---------------------------------------------------------------- 3. tags
#[derive(Clone)]
struct F {
    /// (v2.2, v2.3/4)
    id: (&'static str, &'static str),
    body: Vec<u8>,
    /// how it is stored: unsynchronised, compressed, with data length, encrypted (v2.4)
    uns: bool,
    comp: bool,
    dli: bool,
    enc: bool,
}
fn fr(a: &'static str, b: &'static str, body: Vec<u8>) -> F {
    F { id: (a, b), body, uns: false, comp: false, dli: false, enc: false }
}
/// zlib stream with one stored block
fn stored(b: &[u8]) -> Vec<u8> {
    let mut o = vec![0x78, 0x01, 0x01];
    o.extend((b.len() as u16).to_le_bytes());
    o.extend((!(b.len() as u16)).to_le_bytes());
    o.extend(b);
    let (mut a, mut c) = (1u32, 0u32);
    for x in b {
        a = (a + u32::from(*x)) % 65521;
        c = (c + a) % 65521;
    }
    o.extend((c << 16 | a).to_be_bytes());
    o
}
fn v4_frame(f: &F, plain: bool, allz: bool) -> Vec<u8> {
    let mut flags = 0u8;
    let mut pre = Vec::new();
    let mut body = if f.comp && !f.enc { stored(&f.body) } else { f.body.clone() };
    if f.enc {
        flags |= 0x04;
        pre.push(0x41);
    }
    if f.comp && !f.enc {
        flags |= 0x08;
    }
    if f.dli || f.comp || f.enc {
        flags |= 0x01;
        pre.extend(synch(f.body.len() as u32));
    }
    if f.uns && !plain {
        flags |= 0x02;
        body = unsync(&body, allz);
    }
    let mut o = f.id.1.as_bytes().to_vec();
    o.extend(synch((pre.len() + body.len()) as u32));
    o.extend([0, flags]);
    o.extend(pre);
    o.extend(body);
    o
}
fn v23_region(v: u8, fs: &[F]) -> Vec<u8> {
    let mut o = Vec::new();
    for f in fs {
        if v == 2 {
            o.extend(id3v2_frame_v2(f.id.0, &f.body));
        } else {
            let body = if f.comp { stored(&f.body) } else { f.body.clone() };
            let mut c = Vec::new();
            if f.comp {
                c.extend((f.body.len() as u32).to_be_bytes());
            }
            c.extend(body);
            let mut b = id3v2_frame_v3(f.id.1, &c);
            if f.comp {
                b[9] = 0x80;
            }
            o.extend(b);
        }
    }
    o
}
fn frames(b: &[u8]) -> Result<Vec<String>, String> {
    let mut file = b.to_vec();
    file.extend(mpeg_audio(2));
    let r = guard(|| read(Fmt::Mpeg, &file, ParseOptions::new().read_properties(false)))??;
    let Some(N::Id3v2(t)) = r.get(T::Id3v2) else { return Err("no tag".into()) };
    Ok(t.into_iter()
        .map(|f: &Frame<'_>| format!("{f:?}").replace("unsynchronisation: true", "unsynchronisation: false"))
        .collect())
}
fn same(cx: &Ctx, key: &str, plain: &[u8], uns: &[u8], count: usize) {
    cx.case(key, uns);
    cx.evals_add(1);
    let (p, u) = (frames(plain), frames(uns));
    match (&p, &u) {
        (Ok(p), Ok(u)) if p == u => {
            if p.len() != count {
                cx.violation(format!("{key}:count"), format!("{} frames read, {count} were stored: {p:?}", p.len()), vec![("plain", plain), ("unsync", uns)]);
            }
        }
        (p, u) => cx.violation(key.to_string(), format!("unsynchronised: {u:?}; plain: {p:?}"), vec![("plain", plain), ("unsync", uns)]),
    }
}
fn tags(cx: &Ctx) {
    let all = strings(cx.q(5, 7));
    cx.par(&all, |s| {
        let with = |p: &[u8], s: &[u8]| {
            let mut b = p.to_vec();
            b.extend(s);
            b
        };
        let rev: Vec<u8> = s.iter().rev().copied().collect();
        // data ending in s, Latin-1 text of s, UTF-16 text (whose BOM is itself a sync pattern), a marker frame behind each
        let mut text16 = vec![1u8, 0xFF, 0xFE];
        for c in s {
            text16.extend([0xFF, if *c == 0 { 0x20 } else { *c }]);
        }
        let latin: Vec<u8> = s.iter().map(|c| if *c == 0 { b'n' } else { *c }).collect();
        let fs = vec![
            fr("UFI", "UFID", with(b"own\0", s)),
            fr("TAL", "TALB", b"\0m1".to_vec()),
            fr("TT2", "TIT2", with(&[0], &with(&latin, b"z"))),
            fr("TP1", "TPE1", with(&text16, &[0x41, 0])),
            fr("GEO", "GEOB", with(b"\0mime\0file\0desc\0", &rev)),
            fr("TCO", "TCON", b"\0m2".to_vec()),
            fr("UFI", "UFID", with(b"end\0", s)),
        ];
        for v in [2u8, 3, 4] {
            for pad in [0usize, 3, 40] {
                for allz in [false, true] {
                    let key = format!("v2.{v}:tag");
                    if v < 4 {
                        let region = v23_region(v, &fs);
                        let plain = id3v2_tag(v, 0, &region, pad);
                        same(cx, &key, &plain, &id3v2_tag(v, 0x80, &unsync(&region, allz), pad), fs.len());
                        if v == 3 {
                            // with an extended header, itself subject to the scheme; its CRC and padding fields hold FFs
                            for (i, ext) in [&[0, 0, 0, 6, 0, 0, 0, 0, 0, 0][..], &[0, 0, 0, 6, 0, 0, 0, 0, 0, 0xFF], &[0, 0, 0, 10, 0x80, 0, 0, 0, 0, 0xFF, 0xFF, 0x00, 0xE0, 0xFF]].iter().enumerate() {
                                let r = with(ext, &region);
                                same(cx, &format!("{key}:ext{i}"), &id3v2_tag(v, 0x40, &r, pad), &id3v2_tag(v, 0xC0, &unsync(&r, allz), pad), fs.len());
                            }
                            let mut c = fs.clone();
                            c[0].comp = true;
                            c[4].comp = true;
                            let r = v23_region(v, &c);
                            same(cx, &format!("{key}:compressed"), &id3v2_tag(v, 0, &r, pad), &id3v2_tag(v, 0x80, &unsync(&r, allz), pad), fs.len());
                        }
                    } else {
                        // which frames are stored unsynchronised, and how
                        for (m, dli, comp, enc) in [(0x7Fusize, false, false, false), (0x7F, true, false, false), (0x15, true, false, false), (0x6A, false, false, false), (0x7F, true, true, false), (0x11, true, true, false), (0x7F, true, false, true), (0x41, true, false, true)] {
                            let mut g = fs.clone();
                            for (i, f) in g.iter_mut().enumerate() {
                                f.uns = m >> i & 1 == 1;
                                f.dli = dli && f.uns;
                                f.comp = comp && f.uns;
                                f.enc = enc && f.uns && i == 0 || enc && i == 6;
                            }
                            let body = |plain: bool| g.iter().flat_map(|f| v4_frame(f, plain, allz)).collect::<Vec<u8>>();
                            let k = format!("{key}:{m:x}{}{}{}", if dli { ":dli" } else { "" }, if comp { ":comp" } else { "" }, if enc { ":enc" } else { "" });
                            // a frame without content is not a frame
                            let plain = id3v2_tag(4, 0, &body(true), pad);
                            same(cx, &k, &plain, &id3v2_tag(4, 0, &body(false), pad), fs.len());
                            if m == 0x7F {
                                // the tag flag says that every frame is unsynchronised, with or without the frame flags
                                same(cx, &format!("{k}:tagflag"), &plain, &id3v2_tag(4, 0x80, &body(false), pad), fs.len());
                                let mut b = body(false);
                                let mut p = 0;
                                while p + 10 <= b.len() {
                                    let n = b[p + 4..p + 8].iter().fold(0usize, |a, x| a << 7 | *x as usize);
                                    b[p + 9] &= !0x02;
                                    p += 10 + n;
                                }
                                same(cx, &format!("{k}:tagflagonly"), &plain, &id3v2_tag(4, 0x80, &b, pad), fs.len());
                            }
                        }
                    }
                }
            }
        }
        cx.by_construction.fetch_add(1, Ordering::Relaxed);
    });
    // long frames: the patterns around multiples of the stream's buffer
    let short = strings(3);
    cx.par_range(14, |k| {
        for v in [2u8, 3, 4] {
            for s in &short {
                let mut data = b"own\0".to_vec();
                data.extend(vec![0x33; 8192 - 38 + k * 4]);
                let geo = {
                    let mut g = b"\0mime\0file\0desc\0".to_vec();
                    g.extend(&data[4..]);
                    g.extend(s);
                    g.extend(vec![0x44; 8180]);
                    g.extend(s);
                    g
                };
                let mut fs = vec![fr("GEO", "GEOB", geo), fr("TAL", "TALB", b"\0m1".to_vec()), fr("UFI", "UFID", [&b"o\0"[..], s].concat())];
                for f in &mut fs {
                    f.uns = true;
                }
                let (p, u) = if v < 4 {
                    let r = v23_region(v, &fs);
                    (id3v2_tag(v, 0, &r, 9), id3v2_tag(v, 0x80, &unsync(&r, false), 9))
                } else {
                    let b = |p: bool| fs.iter().flat_map(|f| v4_frame(f, p, false)).collect::<Vec<u8>>();
                    (id3v2_tag(4, 0, &b(true), 9), id3v2_tag(4, 0x80, &b(false), 9))
                };
                same(cx, &format!("v2.{v}:long"), &p, &u, 3);
            }
        }
        cx.by_construction.fetch_add(1, Ordering::Relaxed);
    });
}

pub fn run(cx: &Ctx) -> i32 {
    ints(cx);
    streams(cx);
    tags(cx);
    cx.sample(|| json!({"u32": "0x0fffffff", "synch": format!("{:#x}", 0x0FFF_FFFFu32.synch().unwrap())}));
    cx.sample(|| json!({"stored": "ff 00 00 ff e0 ff", "decoded": format!("{:x?}", stream(&[0xFF, 0, 0, 0xFF, 0xE0, 0xFF], &[1], &[1]).unwrap())}));
    cx.finish(
        "exploration",
        "one evaluation = one integer through synch, unsynch and widening, one byte string decoded under one pattern of inner and outer reads, or one tag read unsynchronised and plain; all u8, u16 and u32 values, all strings over {00,01,E0,FF} up to the bound, distinct by construction",
        &["byte values other than 00, 01, E0 and FF behave like 01 (they are neither part of the escape nor of a false sync)"],
        true,
    )
}
