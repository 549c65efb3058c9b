//! C20: pictures in every container encoding, and the image headers they are described by.
use crate::api::*;
use crate::ctx::*;
use crate::layouts;
use crate::mk;
use crate::rich::{latin1, p};
use crate::walk::*;
use lofty::TextEncoding;
use lofty::ape::{APE_PICTURE_TYPES, ApeItem, ApeTag};
use lofty::config::ParsingMode;
use lofty::file::TaggedFileExt;
use lofty::id3::v2::{AttachedPictureFrame, Frame, Id3v2Tag};
use lofty::mp4::Ilst;
use lofty::ogg::OggPictureStorage;
use lofty::ogg::tag::VorbisComments;
use lofty::picture::{MimeType, Picture, PictureInformation, PictureType};
use lofty::tag::{ItemValue, Tag};
use serde_json::json;
use std::sync::atomic::Ordering;

const MODES: [ParsingMode; 3] = [ParsingMode::Strict, ParsingMode::BestAttempt, ParsingMode::Relaxed];
type S = (u8, Option<String>, Option<String>, Vec<u8>);
/// What a picture is, with absent and empty texts alike
fn sig(p: &Picture) -> S {
    (
        p.pic_type().as_u8(),
        p.mime_type().map(|m| m.as_str().to_string()).filter(|m| !m.is_empty()),
        p.description().map(String::from).filter(|d| !d.is_empty()),
        p.data().to_vec(),
    )
}
fn show(s: &S) -> String {
    format!("(type {}, {:?}, {:?}, {} bytes #{:x})", s.0, s.1, s.2, s.3.len(), h64(&s.3) & 0xFFFF)
}
fn shows(s: &[S]) -> String {
    s.iter().map(show).collect::<Vec<_>>().join(" ")
}
fn isig(i: &PictureInformation) -> [u32; 4] {
    [i.width, i.height, i.color_depth, i.num_colors]
}
fn info(v: [u32; 4]) -> PictureInformation {
    let mut i = PictureInformation::default();
    i.width = v[0];
    i.height = v[1];
    i.color_depth = v[2];
    i.num_colors = v[3];
    i
}
fn types() -> Vec<PictureType> {
    (0..=255).map(PictureType::from_u8).collect()
}
fn mimes() -> Vec<Option<MimeType>> {
    let u = |s: &str| Some(MimeType::Unknown(s.to_string()));
    vec![None, Some(MimeType::Png), Some(MimeType::Jpeg), Some(MimeType::Tiff), Some(MimeType::Bmp), Some(MimeType::Gif), u("image/webp"), u("-->"), u("x"), u("image/\u{e9}")]
}
fn descs() -> Vec<Option<String>> {
    let mut v: Vec<Option<String>> = [None, Some("a"), Some("\u{e9}\u{ff}"), Some("\u{4e00}\u{1F600}"), Some(" pad "), Some("a=b|c"), Some("\r\n")].into_iter().map(|x| x.map(String::from)).collect();
    for n in [2, 3, 20, 63, 64, 255, 256, 5000] {
        v.push(Some("d".repeat(n)));
    }
    v
}
/// data with a signature of the kind, so that APE can tell what it is
fn image(m: &Option<MimeType>, n: usize) -> Vec<u8> {
    let mut v: Vec<u8> = match m {
        Some(MimeType::Png) => vec![0x89, b'P', b'N', b'G', 13, 10, 26, 10],
        Some(MimeType::Jpeg) => vec![0xFF, 0xD8, 0xFF, 0xE0],
        Some(MimeType::Tiff) => vec![b'I', b'I', b'*', 0],
        Some(MimeType::Bmp) => b"BM".to_vec(),
        Some(MimeType::Gif) => b"GIF89a".to_vec(),
        _ => b"?".to_vec(),
    };
    v.extend(mk::pat(n.saturating_sub(v.len()), 3));
    v.truncate(n);
    v
}
/// Independent METADATA_BLOCK_PICTURE encoder
fn block(s: &S, i: [u32; 4]) -> Vec<u8> {
    let mut o = mk::be32(u32::from(s.0)).to_vec();
    let (m, d) = (s.1.clone().unwrap_or_default(), s.2.clone().unwrap_or_default());
    o.extend(mk::be32(m.len() as u32));
    o.extend(m.bytes());
    o.extend(mk::be32(d.len() as u32));
    o.extend(d.bytes());
    for x in i {
        o.extend(mk::be32(x));
    }
    o.extend(mk::be32(s.3.len() as u32));
    o.extend(&s.3);
    o
}
fn base64(b: &[u8]) -> Vec<u8> {
    const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut o = Vec::new();
    for c in b.chunks(3) {
        let n = (u32::from(c[0]) << 16) | (u32::from(*c.get(1).unwrap_or(&0)) << 8) | u32::from(*c.get(2).unwrap_or(&0));
        for i in 0..4 {
            o.push(if i <= c.len() { A[(n >> (18 - 6 * i)) as usize & 63] } else { b'=' });
        }
    }
    o
}
/// The type codes, MIME spellings and APE keys
fn tables(cx: &Ctx) {
    for b in 0..=255u8 {
        cx.eval(&("type", b));
        let t = PictureType::from_u8(b);
        if t.as_u8() != b {
            cx.violation(format!("type:{b}"), format!("type {b} becomes {t:?} and that {}", t.as_u8()), vec![]);
        }
        match (t.as_ape_key(), b <= 20) {
            (Some(k), true) => {
                if PictureType::from_ape_key(k) != t || !APE_PICTURE_TYPES.contains(&k) {
                    cx.violation(format!("apekey:{b}"), format!("{t:?} has the APE key {k:?}, which means {:?}", PictureType::from_ape_key(k)), vec![]);
                }
            }
            (None, false) => {}
            (k, _) => cx.violation(format!("apekey:{b}"), format!("type {b} has the APE key {k:?}"), vec![]),
        }
        for c in 0..b.min(21) {
            if PictureType::from_u8(c) == t {
                cx.violation(format!("type-twice:{b}"), format!("types {c} and {b} are one"), vec![]);
            }
        }
    }
    let mut keys: Vec<&str> = APE_PICTURE_TYPES.to_vec();
    keys.sort_unstable();
    keys.dedup();
    if keys.len() != 21 || keys.iter().any(|k| matches!(PictureType::from_ape_key(k), PictureType::Undefined(_))) {
        cx.violation("apekeys", "the list of APE keys doesn't match the types", vec![]);
    }
    for k in ["", "Cover Art", "Cover Art ()", "Title", "Cover Art (Front) "] {
        cx.eval(&("key", k));
        if !matches!(PictureType::from_ape_key(k), PictureType::Undefined(_)) {
            cx.violation(format!("apekey:{k}"), format!("{k:?} is taken for {:?}", PictureType::from_ape_key(k)), vec![]);
        }
    }
    let known = [(MimeType::Png, "image/png", "png"), (MimeType::Jpeg, "image/jpeg", "jpg"), (MimeType::Tiff, "image/tiff", "tif"), (MimeType::Bmp, "image/bmp", "bmp"), (MimeType::Gif, "image/gif", "gif")];
    for (m, s, e) in &known {
        if m.as_str() != *s || m.ext() != Some(*e) {
            cx.violation(format!("mime:{s}"), format!("{m:?} is {:?} {:?}", m.as_str(), m.ext()), vec![]);
        }
        // every mix of cases
        let letters: Vec<usize> = s.char_indices().filter(|(_, c)| c.is_ascii_alphabetic()).map(|(i, _)| i).collect();
        for mask in 0..1u32 << letters.len() {
            let mut x = s.as_bytes().to_vec();
            for (j, i) in letters.iter().enumerate() {
                if mask >> j & 1 == 1 {
                    x[*i] = x[*i].to_ascii_uppercase();
                }
            }
            let x = String::from_utf8(x).unwrap();
            cx.evals_add(1);
            if MimeType::from_str(&x) != *m {
                cx.violation(format!("mime:{x}"), format!("{x:?} is {:?}", MimeType::from_str(&x)), vec![]);
            }
        }
    }
    if MimeType::from_str("image/jpg") != MimeType::Jpeg {
        cx.violation("mime:jpg", "image/jpg isn't JPEG", vec![]);
    }
    // every other string stays what it is
    for s in ["", "image/", "image/webp", "IMAGE/X-Odd", "png", "image/pngx", " image/png", "-->", "\u{e9}", "image/p\u{131}ng"] {
        cx.eval(&("mime", s));
        if MimeType::from_str(s) != MimeType::Unknown(s.to_string()) || MimeType::from_str(s).as_str() != s {
            cx.violation(format!("mime:{s}"), format!("{s:?} is {:?}", MimeType::from_str(s)), vec![]);
        }
    }
}
fn flac_one(cx: &Ctx, key: &str, pc: &Picture, i: [u32; 4]) {
    if cx.too_many() {
        return;
    }
    cx.eval(&(key, i));
    let s = sig(pc);
    let want = block(&s, i);
    let raw = pc.as_flac_bytes(info(i), false);
    if raw != want {
        return cx.violation(format!("block:{key}"), "the picture block differs from the format", vec![("got.bin", &raw), ("want.bin", &want)]);
    }
    let enc = pc.as_flac_bytes(info(i), true);
    if enc != base64(&want) {
        return cx.violation(format!("base64:{key}"), "the base64 form differs", vec![("got.bin", &enc), ("want.bin", &base64(&want))]);
    }
    for m in MODES {
        if s.0 > 20 && m == ParsingMode::Strict {
            // reserved types may be refused there
            continue;
        }
        for (b, e) in [(&raw, false), (&enc, true)] {
            match guard(|| Picture::from_flac_bytes(b, e, m)) {
                Ok(Ok((q, j))) => {
                    cx.outcome(&sig(&q));
                    if sig(&q) != s || isig(&j) != i {
                        cx.violation(format!("unblock:{key}:{e}"), format!("{} {i:?} is decoded to {} {:?}", show(&s), show(&sig(&q)), isig(&j)), vec![("block.bin", b)]);
                    }
                }
                x => cx.violation(format!("unblock:{key}:{e}:{m:?}"), format!("decoding fails: {:?}", x.map(|x| x.map(|_| ()))), vec![("block.bin", b)]),
            }
        }
    }
}
fn flac_bytes(cx: &Ctx) {
    let mut jobs: Vec<(String, Picture, [u32; 4])> = Vec::new();
    let infos = [[0; 4], [1, 2, 3, 4], [u32::MAX, 0x0102_0304, 0x8000_0000, 255]];
    for t in types() {
        for i in infos {
            jobs.push((format!("t{}", t.as_u8()), p(t, Some(MimeType::Png), Some("x"), image(&Some(MimeType::Png), 20)), i));
        }
    }
    for (mi, m) in mimes().into_iter().enumerate() {
        for (di, d) in descs().into_iter().enumerate() {
            for n in [0usize, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 255, 256, 257, 65535, 65536] {
                if n > 1000 && di > 1 {
                    continue;
                }
                for i in infos {
                    jobs.push((format!("m{mi}:d{di}:{n}"), p(PictureType::CoverFront, m.clone(), d.as_deref(), image(&m, n)), i));
                }
            }
        }
    }
    // text next to its length: every description length modulo 3 and every byte of data
    for n in 0..300usize {
        jobs.push((format!("desc{n}"), p(PictureType::Band, Some(MimeType::Gif), Some(&"z".repeat(n)), vec![n as u8]), [0, 0, 0, 7]));
        jobs.push((format!("data{n}"), p(PictureType::Band, None, None, (0..n).map(|x| x as u8).collect()), [9, 0, 0, 0]));
    }
    // not UTF-8-empty, but empty
    jobs.push(("empty".into(), p(PictureType::Other, Some(MimeType::Unknown(String::new())), Some(""), vec![]), [0; 4]));
    cx.note("picture_blocks", json!(jobs.len()));
    cx.par(&jobs, |(k, pc, i)| flac_one(cx, k, pc, *i));
    // damaged blocks: truncations and byte edits never panic, and a cut block is refused
    for (name, pc) in [("a", p(PictureType::CoverBack, Some(MimeType::Png), Some("desc"), image(&Some(MimeType::Png), 12))), ("b", p(PictureType::Other, None, None, vec![])), ("c", p(PictureType::Band, Some(MimeType::Gif), None, vec![1; 40]))] {
        let raw = pc.as_flac_bytes(info([1, 2, 3, 4]), false);
        for cut in 0..raw.len() {
            for m in MODES {
                for enc in [false, true] {
                    cx.eval(&("cut", name, cut, enc));
                    let b = if enc { base64(&raw[..cut]) } else { raw[..cut].to_vec() };
                    match guard(|| Picture::from_flac_bytes(&b, enc, m)) {
                        Ok(Err(_)) => {}
                        Ok(Ok((q, _))) => cx.violation(format!("cut:{name}:{cut}:{enc}"), format!("a block cut at {cut} of {} is decoded to {}", raw.len(), show(&sig(&q))), vec![("block.bin", &b)]),
                        Err(e) => cx.violation(format!("cut-panic:{name}:{cut}"), e, vec![("block.bin", &b)]),
                    }
                }
            }
        }
        for at in 0..raw.len() {
            for v in 0..=255u8 {
                let mut b = raw.clone();
                b[at] = v;
                cx.evals_add(2);
                for m in [ParsingMode::Strict, ParsingMode::Relaxed] {
                    if let Err(e) = guard(|| Picture::from_flac_bytes(&b, false, m)) {
                        cx.violation(format!("edit-panic:{name}:{at}"), e, vec![("block.bin", &b)]);
                    }
                }
                let mut b = base64(&raw);
                b[at] = v;
                if let Err(e) = guard(|| Picture::from_flac_bytes(&b, true, ParsingMode::Relaxed)) {
                    cx.violation(format!("edit64-panic:{name}:{at}"), e, vec![("block.bin", &b)]);
                }
            }
        }
    }
}
/// The signatures that tell what an image is
fn signature(b: &[u8]) -> Option<MimeType> {
    if b.len() < 8 {
        None
    } else if b.starts_with(b"\x89PNG\r\n\x1a\n") {
        Some(MimeType::Png)
    } else if b.starts_with(&[0xFF, 0xD8]) {
        Some(MimeType::Jpeg)
    } else if b.starts_with(b"GIF87a") || b.starts_with(b"GIF89a") {
        Some(MimeType::Gif)
    } else if b.starts_with(b"BM") {
        Some(MimeType::Bmp)
    } else if b.starts_with(b"II*\0") || b.starts_with(b"MM\0*") {
        Some(MimeType::Tiff)
    } else {
        None
    }
}
fn signatures(cx: &Ctx) {
    let seeds: [&[u8]; 8] = [b"\x89PNG\r\n\x1a\nabc", b"\xFF\xD8\xFF\xE0abcdefg", b"\xFF\xD8\xFF\xDBabcdefg", b"GIF87aabcdef", b"GIF89aabcdef", b"BMabcdefghij", b"II*\0abcdefgh", b"MM\0*abcdefgh"];
    let check = |key: String, b: &[u8]| {
        cx.evals_add(2);
        let want = signature(b);
        match guard(|| Picture::from_reader(&mut &*b)) {
            Ok(r) => {
                let got = r.as_ref().ok().map(|q| (q.mime_type().cloned(), q.data().to_vec(), q.pic_type(), q.description().is_none()));
                if got != want.clone().map(|m| (Some(m), b.to_vec(), PictureType::Other, true)) {
                    cx.violation(format!("reader:{key}"), format!("an image of kind {want:?} is read as {:?}", r.map(|q| sig(&q))), vec![("image.bin", b)]);
                }
            }
            Err(e) => cx.violation(format!("reader-panic:{key}"), e, vec![("image.bin", b)]),
        }
        // as an APE item
        let mut item = b"desc\0".to_vec();
        item.extend(b);
        match guard(|| Picture::from_ape_bytes("Cover Art (Back)", &item)) {
            Ok(r) => {
                let got = r.as_ref().ok().map(sig);
                let w = want.map(|m| (4, Some(m.as_str().to_string()), Some("desc".to_string()), b.to_vec()));
                if got != w {
                    cx.violation(format!("apeitem:{key}"), format!("read as {got:?} instead of {w:?}"), vec![("item.bin", &item)]);
                }
            }
            Err(e) => cx.violation(format!("apeitem-panic:{key}"), e, vec![("item.bin", &item)]),
        }
    };
    for (n, s) in seeds.iter().enumerate() {
        for cut in 0..=s.len() {
            check(format!("{n}:cut{cut}"), &s[..cut]);
        }
        for at in 0..8 {
            for v in 0..=255u8 {
                let mut b = s.to_vec();
                b[at] = v;
                check(format!("{n}:{at}:{v:02x}"), &b);
            }
        }
    }
}
/// PNG and JPEG headers
fn headers(cx: &Ctx) {
    let chunk = |id: &[u8; 4], n: usize| {
        let mut o = mk::be32(n as u32).to_vec();
        o.extend(id);
        o.extend(mk::pat(n, 1));
        o.extend([9, 9, 9, 9]);
        o
    };
    let sizes = [0u32, 1, 2, 255, 256, 65535, 65536, 0x7FFF_FFFF, 0x0102_0304];
    let pngs: Vec<(String, Vec<u8>, [u32; 4])> = {
        let mut v = Vec::new();
        // the combinations of colour type and bit depth the PNG specification allows, and their channels
        for (ct, depths, ch) in [(0u8, &[1u8, 2, 4, 8, 16][..], 1u32), (2, &[8, 16], 3), (3, &[1, 2, 4, 8], 1), (4, &[8, 16], 2), (6, &[8, 16], 4)] {
            for d in depths {
                for (wi, w) in sizes.iter().enumerate() {
                    let h = sizes[(wi * 2 + 1) % sizes.len()];
                    let mut o = b"\x89PNG\r\n\x1a\n".to_vec();
                    let mut ih = mk::be32(*w).to_vec();
                    ih.extend(mk::be32(h));
                    ih.extend([*d, ct, 0, 0, 0]);
                    o.extend(mk::be32(13));
                    o.extend(b"IHDR");
                    o.extend(ih);
                    o.extend([1, 2, 3, 4]);
                    if ct == 3 {
                        for n in [1usize, 2, 16, 255, 256] {
                            for pre in [vec![], vec![0usize], vec![1, 300], vec![5, 0, 2]] {
                                let mut x = o.clone();
                                for q in &pre {
                                    x.extend(chunk(b"tEXt", *q));
                                }
                                x.extend(chunk(b"PLTE", 3 * n));
                                x.extend(chunk(b"IDAT", 7));
                                v.push((format!("png:{ct}:{d}:{w}:{n}:{}", pre.len()), x, [*w, h, u32::from(*d), n as u32]));
                            }
                        }
                    } else {
                        o.extend(chunk(b"PLTE", 6));
                        o.extend(chunk(b"IDAT", 7));
                        v.push((format!("png:{ct}:{d}:{w}"), o, [*w, h, u32::from(*d) * ch, 0]));
                    }
                }
            }
        }
        v
    };
    let jpegs: Vec<(String, Vec<u8>, [u32; 4])> = {
        let mut v = Vec::new();
        let seg = |m: u8, n: usize| {
            let mut o = vec![0xFF, m];
            o.extend(((n + 2) as u16).to_be_bytes());
            o.extend(mk::pat(n, 2));
            o
        };
        for sof in [0xC0u8, 0xC2] {
            for prec in [8u8, 12, 16] {
                for comps in [1u8, 3, 4] {
                    for (wi, w) in [0u16, 1, 255, 256, 65535].into_iter().enumerate() {
                        let h = [7u16, 65535, 0, 256, 1][wi];
                        for (pi, pre) in [vec![(0xE0u8, 14usize)], vec![(0xE1, 0), (0xDB, 65)], vec![(0xDB, 300), (0xFE, 1), (0xC4, 40)], vec![(0xE0, 65533)]].into_iter().enumerate() {
                            let mut o = vec![0xFF, 0xD8];
                            for (m, n) in &pre {
                                o.extend(seg(*m, *n));
                            }
                            let mut f = vec![0xFF, sof];
                            f.extend((8 + 3 * u16::from(comps)).to_be_bytes());
                            f.push(prec);
                            f.extend(h.to_be_bytes());
                            f.extend(w.to_be_bytes());
                            f.push(comps);
                            f.extend(vec![1; 3 * usize::from(comps)]);
                            o.extend(f);
                            o.extend([0xFF, 0xDA, 0, 8, 1, 1, 0, 0, 63, 0, 1, 2, 3, 0xFF, 0xD9]);
                            v.push((format!("jpeg:{sof:x}:{prec}:{comps}:{w}:{pi}"), o, [u32::from(w), u32::from(h), u32::from(prec) * u32::from(comps), 0]));
                        }
                    }
                }
            }
        }
        // every kind of segment, in every order of two, ahead of every kind of
        // frame header, with and without fill bytes
        let kinds: Vec<u8> = [0xC4u8, 0xCC, 0xDB, 0xDD].into_iter().chain(0xE0..=0xFE).collect();
        let sofs: Vec<u8> = (0xC0u8..=0xCF).filter(|m| ![0xC4, 0xC8, 0xCC].contains(m)).collect();
        for (ai, a) in kinds.iter().enumerate() {
            for (bi, b) in std::iter::once(None).chain(kinds.iter().map(Some)).enumerate() {
                // nothing ahead of the frame header for the longest fill
                for (si, sof) in sofs.iter().enumerate() {
                    for fill in [0usize, 1, 3] {
                        if bi > 0 && (ai + bi + si + fill) % cx.q(8, 1) != 0 {
                            continue;
                        }
                        let mut o = vec![0xFF, 0xD8];
                        if !(bi == 0 && fill == 3) {
                            o.extend(seg(*a, ai % 5));
                        }
                        if let Some(b) = b {
                            o.extend(vec![0xFF; fill]);
                            o.extend(seg(*b, bi % 3));
                        }
                        o.extend(vec![0xFF; fill]);
                        o.extend([0xFF, *sof, 0, 17, 8]);
                        let (w, h) = (300 + ai as u16, 0xFF00 + si as u16);
                        o.extend(h.to_be_bytes());
                        o.extend(w.to_be_bytes());
                        o.extend([3, 1, 0x11, 0, 2, 0x11, 1, 3, 0x11, 1, 0xFF, 0xDA, 0, 8, 1, 1, 0, 0, 63, 0, 1, 2, 3, 0xFF, 0xD9]);
                        v.push((format!("jpeg:{a:x}:{:x}:{sof:x}:{fill}", b.copied().unwrap_or(0)), o, [u32::from(w), u32::from(h), 24, 0]));
                    }
                }
            }
        }
        v
    };
    cx.note("image_headers", json!(pngs.len() + jpegs.len()));
    let parse = |png: bool, b: &[u8]| if png { PictureInformation::from_png(b) } else { PictureInformation::from_jpeg(b) };
    for (png, list) in [(true, &pngs), (false, &jpegs)] {
        cx.par(list, |(k, b, want)| {
            cx.eval(k);
            match guard(|| parse(png, b)) {
                Ok(Ok(i)) if isig(&i) == *want => {}
                x => cx.violation(format!("header:{k}"), format!("the header says {want:?}, the information is {x:?}"), vec![("image.bin", b)]),
            }
            // through a picture, and when storing one without information
            let pc = p(PictureType::Other, None, None, b.clone());
            match guard(|| PictureInformation::from_picture(&pc)) {
                Ok(Ok(i)) if isig(&i) == *want => {}
                x => cx.violation(format!("picture:{k}"), format!("the header says {want:?}, the information is {x:?}"), vec![("image.bin", b)]),
            }
            let mut t = VorbisComments::new();
            match guard(|| t.insert_picture(pc, None).map(|_| ())) {
                Ok(Ok(())) if isig(&t.pictures()[0].1) == *want => {}
                x => cx.violation(format!("insert:{k}"), format!("{x:?} {:?}", t.pictures()), vec![("image.bin", b)]),
            }
            // the other kind is refused
            match guard(|| parse(!png, b)) {
                Ok(Err(_)) => {}
                x => cx.violation(format!("wrong:{k}"), format!("parsed as the other kind: {x:?}"), vec![("image.bin", b)]),
            }
        });
    }
    // damage: no panics, and a header that is cut is an error
    let pick = |l: &Vec<(String, Vec<u8>, [u32; 4])>| -> Vec<(String, Vec<u8>, [u32; 4])> { l.iter().filter(|x| x.1.len() < 600).step_by(cx.q(13, 3)).cloned().collect() };
    for (png, list) in [(true, pick(&pngs)), (false, pick(&jpegs))] {
        cx.par(&list, |(k, b, want)| {
            for cut in 0..b.len() {
                cx.evals_add(1);
                match guard(|| (parse(png, &b[..cut]), PictureInformation::from_picture(&p(PictureType::Other, None, None, b[..cut].to_vec())))) {
                    Ok((Ok(i), _)) if png && cut >= 26 && isig(&i)[..3] == want[..3] => {}
                    Ok((Ok(i), _)) if !png && isig(&i) == *want => {}
                    Ok((Err(_), _)) => {}
                    x => cx.violation(format!("header-cut:{k}:{cut}"), format!("cut at {cut}: {x:?}"), vec![("image.bin", &b[..cut])]),
                }
            }
            for at in 0..b.len().min(cx.q(160, 600)) {
                for v in 0..=255u8 {
                    let mut x = b.clone();
                    x[at] = v;
                    cx.evals_add(1);
                    if let Err(e) = guard(|| (parse(png, &x).is_ok(), PictureInformation::from_picture(&p(PictureType::Other, None, None, x.clone())).is_ok())) {
                        cx.violation(format!("header-panic:{}:{at}", if png { "png" } else { "jpeg" }), format!("byte {at} = {v:02x} of {k}: {e}"), vec![("image.bin", &x)]);
                    }
                }
            }
            // pairs of edits in the fields that are multiplied or subtracted from
            for at in 0..b.len().min(60) {
                for v in [0u8, 1, 0x7F, 0xFF] {
                    for at2 in at + 1..b.len().min(60) {
                        for v2 in [0u8, 1, 0x7F, 0xFF] {
                            let mut x = b.clone();
                            x[at] = v;
                            x[at2] = v2;
                            cx.evals_add(1);
                            if let Err(e) = guard(|| parse(png, &x).is_ok()) {
                                cx.violation(format!("header-panic2:{}:{at}:{at2}", if png { "png" } else { "jpeg" }), format!("{v:02x} {v2:02x} in {k}: {e}"), vec![("image.bin", &x)]);
                            }
                        }
                    }
                }
            }
        });
    }
}
/// What is left of pictures in a tag type
fn expressed(t: T, pics: &[Picture]) -> Vec<S> {
    pics.iter()
        .map(sig)
        .filter_map(|s| match t {
            T::Ilst => Some((0, s.1, None, s.3)),
            // the kind comes from the data, and types above 20 have no key
            T::Ape => Some((s.0, Some(signature(&s.3)?.as_str().to_string()), s.2, s.3)).filter(|s| s.0 <= 20),
            _ => Some(s),
        })
        .collect()
}
/// A native tag with the pictures, or None if it can't hold them
fn native(t: T, pics: &[Picture], enc: TextEncoding) -> Option<N> {
    Some(match t {
        T::Id3v2 => {
            let mut x = Id3v2Tag::new();
            for q in pics {
                x.insert(Frame::Picture(AttachedPictureFrame::new(enc, q.clone())));
            }
            N::Id3v2(x)
        }
        T::Ape => {
            let mut x = ApeTag::new();
            for q in pics {
                x.insert(ApeItem::new(q.pic_type().as_ape_key()?.to_string(), ItemValue::Binary(q.as_ape_bytes())).ok()?);
            }
            N::Ape(x)
        }
        T::Vorbis => {
            let mut x = VorbisComments::new();
            for (i, q) in pics.iter().enumerate() {
                x.insert_picture(q.clone(), Some(info([i as u32 + 1, 2, 3, 4]))).ok()?;
            }
            N::Vorbis(x)
        }
        T::Ilst => {
            let mut x = Ilst::new();
            for q in pics {
                x.insert_picture(q.clone());
            }
            N::Ilst(x)
        }
        _ => return None,
    })
}
fn natives(n: &N) -> Vec<(S, Option<[u32; 4]>)> {
    match n {
        N::Id3v2(t) => t
            .into_iter()
            .filter_map(|f| match f {
                Frame::Picture(q) => Some((sig(&q.picture), None)),
                _ => None,
            })
            .collect(),
        N::Ape(t) => t.into_iter().filter_map(|i| match i.value() {
            ItemValue::Binary(b) => Picture::from_ape_bytes(i.key(), b).ok().map(|q| (sig(&q), None)),
            _ => None,
        }).collect(),
        N::Vorbis(t) => t.pictures().iter().map(|(q, i)| (sig(q), Some(isig(i)))).collect(),
        N::Ilst(t) => t.pictures().map(|x| x.map(|q| (sig(q), None)).collect()).unwrap_or_default(),
        _ => vec![],
    }
}
fn files(cx: &Ctx, key: &str, pics: &[Picture], encs: &[TextEncoding], targets: &[(T, Fmt, Vec<u8>)]) {
    for (t, f, b) in targets {
        for enc in encs {
            if cx.too_many() || (*t != T::Id3v2 && *enc != encs[0]) {
                continue;
            }
            let k = format!("{key}:{t:?}:{f:?}:{enc:?}");
            cx.case(&k, b"");
            let mut want = expressed(*t, pics);
            // frames without data are not written
            if *t == T::Id3v2 {
                want.retain(|s| !s.3.is_empty());
            }
            let Some(n) = native(*t, pics, *enc) else { continue };
            let refuse = match t {
                T::Ilst => pics.iter().any(|q| matches!(q.mime_type(), Some(MimeType::Tiff | MimeType::Unknown(_)))),
                T::Id3v2 => pics.iter().map(sig).any(|s| {
                    s.1.is_some_and(|m| !latin1(&m)) || (*enc == TextEncoding::Latin1 && s.2.is_some_and(|d| !latin1(&d)))
                }),
                _ => false,
            };
            for v3 in if *t == T::Id3v2 { vec![false, true] } else { vec![false] } {
                cx.eval(&(&k, v3));
                let w = wo().use_id3v23(v3).lossy_text_encoding(false);
                let saved = match guard(|| n.save(b, w)) {
                    Ok(Ok(s)) if !refuse => s,
                    Ok(Err(_)) if refuse => continue,
                    x => {
                        cx.violation(format!("save:{k}"), format!("saving {}: {:?}", shows(&want), x.map(|x| x.map(|_| "saved"))), vec![]);
                        continue;
                    }
                };
                for m in [ParsingMode::BestAttempt, ParsingMode::Strict] {
                    if m == ParsingMode::Strict && pics.iter().any(|q| q.pic_type().as_u8() > 20) {
                        continue;
                    }
                    let r = match guard(|| read(*f, &saved, po_mode(m))) {
                        Ok(Ok(r)) => r,
                        x => {
                            cx.violation(format!("read:{k}:{m:?}"), format!("{:?}", x.map(|x| x.map(|_| ()))), vec![("saved.bin", &saved)]);
                            continue;
                        }
                    };
                    let got = r.get(*t).map(natives).unwrap_or_default();
                    cx.outcome(&format!("{got:?}"));
                    let g: Vec<S> = got.iter().map(|x| x.0.clone()).collect();
                    if g != want {
                        cx.violation(format!("file:{k}:{m:?}"), format!("{} saved and read is {}", shows(&want), shows(&g)), vec![("saved.bin", &saved)]);
                    }
                    if *t == T::Vorbis && got.iter().enumerate().any(|(i, x)| x.1 != Some([i as u32 + 1, 2, 3, 4])) {
                        cx.violation(format!("info:{k}"), format!("the information is {:?}", got.iter().map(|x| x.1).collect::<Vec<_>>()), vec![("saved.bin", &saved)]);
                    }
                }
                // the generic tag sees the same
                match guard(|| read_tagged(*f, &saved, po())) {
                    Ok(Ok(r)) => {
                        let g: Vec<S> = r.tag(tt(*t)).map(|x| x.pictures().iter().map(sig).collect()).unwrap_or_default();
                        if g != want {
                            cx.violation(format!("generic-read:{k}"), format!("{} is seen generically as {}", shows(&want), shows(&g)), vec![("saved.bin", &saved)]);
                        }
                    }
                    x => cx.violation(format!("generic-read:{k}"), format!("{:?}", x.map(|x| x.map(|_| ()))), vec![("saved.bin", &saved)]),
                }
            }
            if *enc != encs[0] || refuse {
                continue;
            }
            // saved from a generic tag
            let mut g = Tag::new(tt(*t));
            for q in pics {
                g.push_picture(q.clone());
            }
            cx.evals_add(1);
            let mut c = std::io::Cursor::new(b.clone());
            let r = guard(|| lofty::tag::TagExt::save_to(&g, &mut c, wo()).map_err(er).and_then(|()| read_tagged(*f, &c.into_inner(), po())));
            match r {
                Ok(Ok(r)) => {
                    let got: Vec<S> = r.tag(tt(*t)).map(|x| x.pictures().iter().map(sig).collect()).unwrap_or_default();
                    if got != want {
                        cx.violation(format!("generic-save:{k}"), format!("{} saved from a generic tag is {}", shows(&want), shows(&got)), vec![]);
                    }
                }
                x => cx.violation(format!("generic-save:{k}"), format!("{:?}", x.map(|x| x.map(|_| ()))), vec![]),
            }
        }
    }
}
pub fn run(cx: &Ctx) -> i32 {
    tables(cx);
    signatures(cx);
    flac_bytes(cx);
    headers(cx);
    let targets: Vec<(T, Fmt, Vec<u8>)> = ALL_FMT
        .into_iter()
        .flat_map(|f| writable(f).into_iter().map(move |t| (t, f)))
        .filter(|(t, _)| matches!(t, T::Id3v2 | T::Vorbis | T::Ape | T::Ilst))
        .map(|(t, f)| (t, f, layouts::layouts(f, false).into_iter().find(|l| l.core && l.name != "bigaudio").unwrap().bytes))
        .collect();
    let encs = [TextEncoding::UTF8, TextEncoding::Latin1, TextEncoding::UTF16, TextEncoding::UTF16BE];
    let mut jobs: Vec<(String, Vec<Picture>)> = Vec::new();
    let png = Some(MimeType::Png);
    for t in types() {
        jobs.push((format!("type{}", t.as_u8()), vec![p(t, png.clone(), Some("d"), image(&png, 30))]));
    }
    for (mi, m) in mimes().into_iter().enumerate() {
        for (di, d) in descs().into_iter().enumerate() {
            for n in [8usize, 9, 10, 255, 300] {
                jobs.push((format!("m{mi}:d{di}:{n}"), vec![p(PictureType::CoverFront, m.clone(), d.as_deref(), image(&m, n))]));
            }
        }
    }
    // every data length modulo 3 and around the limits of lacing, lengths and synchsafe bytes
    for n in (8..60).chain([126, 127, 128, 253, 254, 255, 256, 257, 509, 510, 511, 16382, 16383, 16384, 48700, 48732, 48900, 65024, 65025, 65026, 65535, 65536, 200_000]) {
        jobs.push((format!("len{n}"), vec![p(PictureType::CoverBack, Some(MimeType::Jpeg), Some("q"), image(&Some(MimeType::Jpeg), n))]));
    }
    // every byte value in the data, at every alignment
    for r in 0..3 {
        let mut d = image(&png, 8 + r);
        d.extend(0..=255u8);
        d.extend([0xFF, 0, 0xFF, 0xE0, 0xFF, 0xFF, 0]);
        jobs.push((format!("bytes{r}"), vec![p(PictureType::CoverBack, png.clone(), None, d)]));
    }
    // several
    for a in types().into_iter().take(21) {
        for b in types().into_iter().take(21) {
            if a != b {
                jobs.push((format!("two:{}:{}", a.as_u8(), b.as_u8()), vec![p(a, png.clone(), Some("one"), image(&png, 20)), p(b, Some(MimeType::Jpeg), None, image(&Some(MimeType::Jpeg), 33))]));
            }
        }
    }
    for n in [3usize, 10, 21] {
        jobs.push((format!("many{n}"), types().into_iter().take(n).enumerate().map(|(i, t)| p(t, Some(MimeType::Gif), Some(&format!("n{i}")), image(&Some(MimeType::Gif), 10 + 50 * i))).collect()));
    }
    for (ai, a) in mimes().into_iter().enumerate() {
        for (bi, b) in mimes().into_iter().enumerate() {
            jobs.push((format!("mimes:{ai}:{bi}"), vec![p(PictureType::Media, a.clone(), Some("a"), image(&a, 12)), p(PictureType::Band, b, None, image(&a, 13))]));
        }
    }
    cx.note("picture_lists", json!(jobs.len()));
    for j in jobs.iter().step_by((jobs.len() / 8).max(1)) {
        cx.sample(|| json!({"list": j.0, "pictures": shows(&j.1.iter().map(sig).collect::<Vec<_>>())}));
    }
    jobs.retain(|j| !cx.skip(&j.0));
    let core: Vec<(T, Fmt, Vec<u8>)> = targets.iter().filter(|x| !matches!((x.0, x.1), (T::Id3v2, Fmt::Aac))).cloned().collect();
    cx.par(&jobs, |(k, l)| files(cx, k, l, &encs, if cx.thorough() { &targets } else { &core }));
    // the largest FLAC block
    if let Some((_, _, b)) = targets.iter().find(|x| x.1 == Fmt::Flac) {
        let head = block(&(3, Some("image/png".into()), Some("d".into()), vec![]), [0; 4]).len();
        for extra in [0usize, 1] {
            cx.eval(&("limit", extra));
            let pc = p(PictureType::CoverFront, png.clone(), Some("d"), image(&png, 0xFF_FFFF - head + extra));
            let n = native(T::Vorbis, &[pc.clone()], TextEncoding::UTF8).unwrap();
            match guard(|| n.save(b, wo())) {
                Ok(Ok(s)) if extra == 0 => match guard(|| read(Fmt::Flac, &s, po())) {
                    Ok(Ok(r)) if r.get(T::Vorbis).map(natives).is_some_and(|x| x.len() == 1 && x[0].0 == sig(&pc)) => {}
                    x => cx.violation("limit:read", format!("the largest picture isn't read back: {:?}", x.map(|x| x.map(|_| ()))), vec![]),
                },
                Ok(Err(_)) if extra == 1 => {}
                x => cx.violation(format!("limit:{extra}"), format!("{:?}", x.map(|x| x.map(|_| "saved"))), vec![]),
            }
        }
    }
    cx.states.store(jobs.len() as u64, Ordering::Relaxed);
    cx.finish(
        "exploration",
        "All 256 picture types, MIME spellings in every case mix, picture blocks over (type x MIME x description x length x information) against an independent encoder and base64; every truncation and byte edit of blocks, signatures and image headers; every valid PNG colour type and depth and JPEG frame over size boundaries; every picture and pairs of them through real files of every format, natively and generically.",
        &["descriptions and data come from boundary lists", "ID3v2 frames without data are not written; MP4 covers have no type or description; APE tells the kind from the data and has one picture per type; reserved types may be refused in strict mode"],
        true,
    )
}
