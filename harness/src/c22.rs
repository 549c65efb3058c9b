//! C22: item identifiers are accepted exactly when the format allows them, and accepted ones work everywhere.
use crate::api::*;
use crate::ctx::*;
use crate::keys::KEYS;
use crate::layouts;
use crate::mk;
use crate::walk::*;
use lofty::ape::{ApeItem, ApeTag};
use lofty::config::ParsingMode;
use lofty::id3::v2::{BinaryFrame, Frame, FrameId, Id3v2Tag};
use lofty::iff::wav::RiffInfoList;
use lofty::mp4::{Atom, AtomData, AtomIdent, Ilst};
use lofty::ogg::tag::VorbisComments;
use lofty::tag::{ItemKey, ItemValue, TagExt, TagType};
use serde_json::json;
use std::collections::BTreeSet;
use std::sync::atomic::Ordering;

// The formats' rules
fn frame_ok(s: &str) -> bool {
    (s.len() == 3 || s.len() == 4) && s.bytes().all(|b| b.is_ascii_uppercase() || b.is_ascii_digit())
}
fn vorbis_ok(s: &str) -> bool {
    !s.is_empty() && s.bytes().all(|b| (0x20..=0x7D).contains(&b) && b != b'=')
}
fn ape_ok(s: &str) -> bool {
    (2..=255).contains(&s.len()) && s.bytes().all(|b| (0x20..=0x7E).contains(&b)) && !["ID3", "TAG", "OggS", "MP+"].iter().any(|x| x.eq_ignore_ascii_case(s))
}
fn riff_ok(s: &str) -> bool {
    // printable ASCII, padded with spaces at the end only
    s.len() == 4 && s.bytes().all(|b| (0x20..=0x7E).contains(&b)) && !s.trim_end_matches(' ').contains(' ')
}
/// Every candidate: all characters at each position, all at each pair of positions (of the alphabet), and all lengths
fn candidates(seeds: &[&str], max: usize, full_pairs: bool) -> Vec<String> {
    let mut v: BTreeSet<String> = BTreeSet::new();
    let all: Vec<char> = (0u32..=0x17F).filter_map(char::from_u32).chain(['\u{2028}', '\u{4e00}', '\u{FF21}', '\u{1F600}', '\u{130}', '\u{212A}']).collect();
    let few: Vec<char> = if full_pairs { (0u8..=0xFF).map(char::from).collect() } else { "\0\x01\t\n\x1f !/09:=@AZ[`az{|}~\x7f\u{80}\u{e9}".chars().collect() };
    for s in seeds {
        let c: Vec<char> = s.chars().collect();
        v.insert(s.to_string());
        for i in 0..c.len() {
            for x in &all {
                let mut d = c.clone();
                d[i] = *x;
                v.insert(d.iter().collect());
                d = c.clone();
                d.insert(i, *x);
                v.insert(d.iter().collect());
            }
            let mut d = c.clone();
            d.remove(i);
            v.insert(d.iter().collect());
            for j in i + 1..c.len() {
                for x in &few {
                    for y in &few {
                        let mut d = c.clone();
                        d[i] = *x;
                        d[j] = *y;
                        v.insert(d.iter().collect());
                    }
                }
            }
        }
    }
    for n in 0..=max {
        v.insert("A".repeat(n));
        v.insert("z ".repeat(n / 2) + if n % 2 == 1 { "9" } else { "" });
    }
    // everything of length one and two over the troublesome alphabet
    for x in &all {
        v.insert(x.to_string());
        for y in &few {
            v.insert(format!("{x}{y}"));
            v.insert(format!("{y}{x}"));
        }
    }
    v.into_iter().collect()
}
fn flip(s: &str) -> String {
    s.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect()
}
fn frame_ids(cx: &Ctx) -> Vec<String> {
    let mut ok = Vec::new();
    for s in candidates(&["TIT2", "TT2", "ZZ9Z", "0A00", "A"], 9, true) {
        cx.evals_add(1);
        let r = guard(|| FrameId::new(s.clone()));
        let want = frame_ok(&s);
        match r {
            Ok(r) => {
                if r.is_ok() != want {
                    cx.violation(format!("frame:{s:?}"), format!("FrameId::new({s:?}) is {r:?}"), vec![]);
                }
                if let Ok(id) = r {
                    if id.as_str() != s || id.is_outdated() != (s.len() == 3) || id.is_valid() != (s.len() == 4) {
                        cx.violation(format!("frame-id:{s:?}"), format!("{s:?} becomes {id:?}"), vec![]);
                    }
                    ok.push(s);
                }
            }
            Err(e) => cx.violation(format!("frame-panic:{s:?}"), e, vec![]),
        }
    }
    ok
}
/// A batch of accepted identifiers in one tag, through files
fn batch(cx: &Ctx, t: T, ids: &[String], targets: &[(T, Fmt, Vec<u8>)]) {
    if cx.too_many() {
        return;
    }
    let key = format!("batch:{t:?}:{:?}", ids[0]);
    cx.eval(&key);
    let n = match t {
        T::Id3v2 => {
            let mut x = Id3v2Tag::new();
            for i in ids {
                x.insert(Frame::Binary(BinaryFrame::new(FrameId::new(i.clone()).unwrap(), i.as_bytes().to_vec())));
            }
            N::Id3v2(x)
        }
        T::Ape => {
            let mut x = ApeTag::new();
            for i in ids {
                x.insert(ApeItem::new(i.clone(), ItemValue::Text(format!("v{i}"))).unwrap());
            }
            N::Ape(x)
        }
        T::Vorbis => {
            let mut x = VorbisComments::new();
            for i in ids {
                x.push(i.clone(), format!("v{i}"));
            }
            N::Vorbis(x)
        }
        _ => {
            let mut x = RiffInfoList::default();
            for i in ids {
                x.insert(i.clone(), format!("v{i}"));
            }
            N::Riff(x)
        }
    };
    let have = listed(&n);
    let want: Vec<String> = ids.to_vec();
    if have != want {
        cx.violation(format!("{key}:held"), format!("of {want:?} the tag holds {have:?}"), vec![]);
    }
    for (_, f, b) in targets.iter().filter(|x| x.0 == t) {
        let saved = match guard(|| n.save(b, wo())) {
            Ok(Ok(s)) => s,
            x => {
                cx.violation(format!("{key}:{f:?}:save"), format!("{:?}", x.map(|x| x.map(|_| ()))), vec![]);
                continue;
            }
        };
        for m in [ParsingMode::Strict, ParsingMode::BestAttempt] {
            match guard(|| read(*f, &saved, po_mode(m))) {
                Ok(Ok(r)) => {
                    let got = r.get(t).map(listed).unwrap_or_default();
                    cx.outcome(&got);
                    if got != want {
                        let lost: Vec<_> = want.iter().filter(|x| !got.contains(x)).collect();
                        cx.violation(format!("{key}:{f:?}:{m:?}"), format!("saved and read: lost {lost:?}, {} of {}", got.len(), want.len()), vec![("saved.bin", &saved)]);
                    }
                }
                x => cx.violation(format!("{key}:{f:?}:read:{m:?}"), format!("{:?}", x.map(|x| x.map(|_| ()))), vec![("saved.bin", &saved)]),
            }
        }
        written(cx, &key, t, *f, &saved);
    }
}
fn listed(n: &N) -> Vec<String> {
    match n {
        N::Id3v2(t) => t.into_iter().map(|f| f.id().as_str().to_string()).collect(),
        N::Ape(t) => t.into_iter().map(|i| i.key().to_string()).collect(),
        N::Vorbis(t) => t.items().map(|(k, _)| k.to_string()).collect(),
        N::Riff(t) => t.into_iter().map(|(k, _)| k.clone()).collect(),
        _ => vec![],
    }
}
/// Independent walk: no invalid identifier is in the file
fn written(cx: &Ctx, key: &str, t: T, f: Fmt, saved: &[u8]) {
    let a = anatomy(f, saved);
    for (ty, b) in &a.tags {
        if *ty != t {
            continue;
        }
        let bad: Vec<String> = match t {
            T::Id3v2 => match id3v2_frames(b) {
                Ok((_, f, _)) => f.iter().map(|x| x.id.clone()).filter(|x| !(frame_ok(x) && x.len() == 4)).collect(),
                Err(e) => vec![e],
            },
            // the other formats are checked by the anatomy itself
            _ => vec![],
        };
        if !bad.is_empty() {
            cx.violation(format!("{key}:{f:?}:written"), format!("invalid identifiers were written: {bad:?}"), vec![("saved.bin", saved)]);
        }
    }
    if let Some(e) = a.errs.first() {
        cx.violation(format!("{key}:{f:?}:malformed"), format!("the file is malformed: {e}"), vec![("saved.bin", saved)]);
    }
}
fn vorbis_keys(cx: &Ctx) -> Vec<String> {
    let mut ok = Vec::new();
    let mut tag = VorbisComments::new();
    tag.push("KEEP".into(), "k".into());
    for s in candidates(&["TITLE", "a~b", "X=Y", "metadata"], 300, false) {
        cx.evals_add(1);
        let want = vorbis_ok(&s);
        for ins in [false, true] {
            let mut x = tag.clone();
            let r = guard(|| {
                if ins {
                    x.insert(s.clone(), "v".into())
                } else {
                    x.push(s.clone(), "v".into())
                }
                x
            });
            match r {
                Ok(x) => {
                    let held = x.items().any(|(k, v)| k == s && v == "v");
                    if held != want || x.get("KEEP") != Some("k") || x.items().count() != 1 + usize::from(want) {
                        cx.violation(format!("vorbis:{s:?}:{ins}"), format!("adding {s:?}: {:?}", x.items().collect::<Vec<_>>()), vec![]);
                    }
                    // found in any case, and removed
                    for q in [s.clone(), s.to_ascii_lowercase(), s.to_ascii_uppercase(), flip(&s)] {
                        let g = x.get(&q);
                        if g.is_some() != want && q != "KEEP" || x.get_all(&q).count() != usize::from(want) {
                            cx.violation(format!("vorbis-get:{s:?}:{q:?}"), format!("{s:?} looked up as {q:?}: {g:?}"), vec![]);
                        }
                        let mut y = x.clone();
                        let n = y.remove(&q).count();
                        if n != usize::from(want) || y.items().collect::<Vec<_>>() != [("KEEP", "k")] {
                            cx.violation(format!("vorbis-remove:{s:?}:{q:?}"), format!("{s:?} removed as {q:?}: {n}, {:?}", y.items().collect::<Vec<_>>()), vec![]);
                        }
                    }
                }
                Err(e) => cx.violation(format!("vorbis-panic:{s:?}"), e, vec![]),
            }
        }
        if want {
            ok.push(s);
        }
    }
    // these hold pictures, and are decoded
    ok.retain(|s| !["METADATA_BLOCK_PICTURE", "COVERART"].iter().any(|x| x.eq_ignore_ascii_case(s)));
    ok
}
fn ape_keys(cx: &Ctx) -> Vec<String> {
    let mut ok = Vec::new();
    for s in candidates(&["Title", "id3", "TAG", "OggS", "mp+", "MP", "OggSx", "ID3 "], 300, false) {
        cx.evals_add(1);
        let want = ape_ok(&s);
        match guard(|| ApeItem::new(s.clone(), ItemValue::Text("v".into()))) {
            Ok(r) => {
                if r.is_ok() != want {
                    cx.violation(format!("ape:{s:?}"), format!("ApeItem::new({s:?}) is {r:?}"), vec![]);
                }
                let Ok(i) = r else { continue };
                if i.key() != s {
                    cx.violation(format!("ape-key:{s:?}"), format!("{s:?} becomes {:?}", i.key()), vec![]);
                }
                let mut x = ApeTag::new();
                x.insert(ApeItem::new("Keep".into(), ItemValue::Text("k".into())).unwrap());
                x.insert(i);
                for q in [s.clone(), s.to_ascii_lowercase(), s.to_ascii_uppercase(), flip(&s)] {
                    if x.get(&q).map(|i| i.key()) != Some(s.as_str()) {
                        cx.violation(format!("ape-get:{s:?}:{q:?}"), format!("{s:?} looked up as {q:?}: {:?}", x.get(&q)), vec![]);
                    }
                    let mut y = x.clone();
                    y.remove(&q);
                    if y.len() != 1 || y.get("keep").is_none() {
                        cx.violation(format!("ape-remove:{s:?}:{q:?}"), format!("{s:?} removed as {q:?}: {y:?}"), vec![]);
                    }
                    // another item under the key replaces it
                    let mut y = x.clone();
                    if let Ok(i) = ApeItem::new(q.clone(), ItemValue::Text("w".into())) {
                        y.insert(i);
                        if y.len() != 2 {
                            cx.violation(format!("ape-replace:{s:?}:{q:?}"), format!("{q:?} next to {s:?}: {y:?}"), vec![]);
                        }
                    }
                }
                ok.push(s);
            }
            Err(e) => cx.violation(format!("ape-panic:{s:?}"), e, vec![]),
        }
    }
    ok
}
fn riff_keys(cx: &Ctx) -> Vec<String> {
    let mut ok = Vec::new();
    for s in candidates(&["INAM", "A  ", "IA  ", "I  B", "    "], 9, true) {
        cx.evals_add(1);
        let want = riff_ok(&s);
        let mut x = RiffInfoList::default();
        x.insert("KEEP".into(), "k".into());
        match guard(|| {
            x.insert(s.clone(), "v".into());
            x
        }) {
            Ok(x) => {
                let got: Vec<(String, String)> = (&x).into_iter().cloned().collect();
                let mut w = vec![("KEEP".to_string(), "k".to_string())];
                if want {
                    w.push((s.clone(), "v".into()));
                }
                if got != w {
                    cx.violation(format!("riff:{s:?}"), format!("inserting {s:?}: {got:?}"), vec![]);
                }
                for q in [s.clone(), s.to_ascii_lowercase(), s.to_ascii_uppercase(), flip(&s)] {
                    if x.get(&q).is_some() != want {
                        cx.violation(format!("riff-get:{s:?}:{q:?}"), format!("{s:?} looked up as {q:?}: {:?}", x.get(&q)), vec![]);
                    }
                    let mut y = x.clone();
                    if y.remove(&q).is_some() != want || y.get("KEEP") != Some("k") {
                        cx.violation(format!("riff-remove:{s:?}:{q:?}"), format!("{s:?} removed as {q:?}: {y:?}"), vec![]);
                    }
                    let mut y = x.clone();
                    y.insert(q.clone(), "w".into());
                    if (&y).into_iter().count() != 1 + usize::from(want) {
                        cx.violation(format!("riff-replace:{s:?}:{q:?}"), format!("{q:?} next to {s:?}: {y:?}"), vec![]);
                    }
                }
                if want {
                    ok.push(s);
                }
            }
            Err(e) => cx.violation(format!("riff-panic:{s:?}"), e, vec![]),
        }
    }
    ok
}
/// Atom identifiers: any four bytes, and any pair of strings
fn atom_ok(i: &AtomIdent<'_>) -> bool {
    match i {
        AtomIdent::Fourcc(f) => f.iter().all(|b| (0x20..=0x7E).contains(b) || *b == 0xA9),
        _ => true,
    }
}
fn atoms(cx: &Ctx, targets: &[(T, Fmt, Vec<u8>)]) {
    let mut ids: Vec<AtomIdent<'static>> = Vec::new();
    for at in 0..4 {
        for v in 0..=255u8 {
            let mut f = *b"tst0";
            f[at] = v;
            ids.push(AtomIdent::Fourcc(f));
        }
    }
    let names = ["", "a", "com.apple.iTunes", "A:B", "----", "\u{e9}", "\u{4e00}", " ", "x\ny", "LONG"];
    for m in names {
        for n in names {
            ids.push(AtomIdent::Freeform { mean: m.into(), name: n.into() });
        }
        let long = "n".repeat(300);
        ids.push(AtomIdent::Freeform { mean: m.into(), name: long.into() });
    }
    // structures of the list itself
    ids.retain(|i| !matches!(i, AtomIdent::Fourcc(f) if f == b"free" || f == b"skip" || f == b"----" || f == b"covr"));
    let b = &targets.iter().find(|x| x.0 == T::Ilst).unwrap().2;
    for (n, chunk) in ids.chunks(40).enumerate() {
        let mut t = Ilst::new();
        for i in chunk {
            cx.evals_add(1);
            t.insert(Atom::new(i.clone(), AtomData::UTF8(format!("v{i:?}"))));
        }
        for i in chunk {
            if t.get(i).is_none() {
                cx.violation(format!("atom-get:{i:?}"), format!("{i:?} is not found"), vec![]);
            }
        }
        let want: Vec<String> = chunk.iter().map(|i| format!("{i:?}")).collect();
        // a four character code outside of what MP4 readers accept can't be saved
        let bad: Vec<_> = chunk.iter().filter(|i| !atom_ok(i)).collect();
        for i in &bad {
            let mut t = Ilst::new();
            t.insert(Atom::new((*i).clone(), AtomData::UTF8("v".into())));
            match guard(|| N::Ilst(t).save(b, wo())) {
                Ok(Err(_)) => {}
                Ok(Ok(s)) if !s.windows(8).any(|w| w[..4] == [0, 0, 0, 25] && matches!(i, AtomIdent::Fourcc(f) if w[4..] == f[..])) => {}
                x => cx.violation(format!("atom-invalid:{i:?}"), format!("{i:?} is written: {:?}", x.map(|x| x.map(|_| ()))), vec![]),
            }
        }
        let chunk: Vec<_> = chunk.iter().filter(|i| atom_ok(i)).cloned().collect();
        t.retain(|a| atom_ok(a.ident()));
        let want: Vec<String> = chunk.iter().map(|i| format!("{i:?}")).collect();
        match guard(|| N::Ilst(t.clone()).save(b, wo()).and_then(|s| read(Fmt::Mp4, &s, po()).map(|r| (s, r)))) {
            Ok(Ok((s, r))) => {
                let got: Vec<String> = match r.get(T::Ilst) {
                    Some(N::Ilst(x)) => x.into_iter().map(|a| format!("{:?}", a.ident())).collect(),
                    _ => vec![],
                };
                // identifiers with spaces around them, or none, may not be told apart
                let lost: Vec<_> = want.iter().filter(|x| !got.contains(x)).collect();
                if !lost.is_empty() || got.len() != want.len() {
                    cx.violation(format!("atoms:{n}"), format!("lost {lost:?}, {} of {}", got.len(), want.len()), vec![("saved.bin", &s)]);
                }
            }
            x => cx.violation(format!("atoms:{n}"), format!("{:?}", x.map(|x| x.map(|_| ()))), vec![]),
        }
    }
}
/// Files with invalid identifiers: read without harm, and never written again
fn foreign(cx: &Ctx, targets: &[(T, Fmt, Vec<u8>)]) {
    let junk: Vec<[u8; 4]> = {
        let mut v = Vec::new();
        for at in 0..4 {
            for b in 0..=255u8 {
                let mut f = *b"TXYZ";
                f[at] = b;
                v.push(f);
                let mut f = *b"IXYZ";
                f[at] = b;
                v.push(f);
            }
        }
        v
    };
    cx.par(&junk, |id| {
        for v in [3u8, 4] {
            let name = String::from_utf8_lossy(id).to_string();
            cx.eval(&("foreign", id, v));
            let mut bad = if v == 3 { mk::id3v2_frame_v3("XXXX", b"\0bad") } else { mk::id3v2_frame_v4("XXXX", b"\0bad") };
            bad[..4].copy_from_slice(id);
            let good = if v == 3 { mk::id3v2_frame_v3("TALB", b"\0good") } else { mk::id3v2_frame_v4("TALB", b"\0good") };
            let mut body = good.clone();
            body.extend(&bad);
            let mut f = mk::id3v2_tag(v, 0, &body, 0);
            f.extend(mk::mpeg_audio(4));
            for m in [ParsingMode::BestAttempt, ParsingMode::Relaxed] {
                let r = match guard(|| read(Fmt::Mpeg, &f, po_mode(m))) {
                    Ok(Ok(r)) => r,
                    Ok(Err(_)) => continue,
                    Err(e) => {
                        cx.violation(format!("foreign-panic:{name}:{v}"), e, vec![("file.bin", &f)]);
                        continue;
                    }
                };
                let Some(n) = r.get(T::Id3v2) else { continue };
                let ids = listed(n);
                if let Some(x) = ids.iter().find(|x| !frame_ok(x)) {
                    cx.violation(format!("foreign-read:{id:?}:{v}"), format!("a frame {x:?} is read"), vec![("file.bin", &f)]);
                }
                let valid = std::str::from_utf8(id).is_ok_and(frame_ok);
                if valid && !ids.contains(&name) {
                    cx.violation(format!("foreign-lost:{id:?}:{v}"), format!("the valid frame {name} is missing: {ids:?}"), vec![("file.bin", &f)]);
                }
                for (_, fm, b) in targets.iter().filter(|x| x.0 == T::Id3v2) {
                    for v3 in [false, true] {
                        if let Ok(Ok(s)) = guard(|| n.save(b, wo().use_id3v23(v3))) {
                            written(cx, &format!("foreign:{id:?}"), T::Id3v2, *fm, &s);
                        }
                    }
                }
            }
        }
        // RIFF INFO
        let mut list = b"INFO".to_vec();
        list.extend(mk::chunk_le(b"IART", b"good\0"));
        list.extend(mk::chunk_le(id, b"bad\0"));
        let mut w = mk::riff(&[mk::wav_fmt(), mk::chunk_le(b"data", &[0; 64]), mk::chunk_le(b"LIST", &list)]);
        cx.eval(&("foreign-riff", id));
        match guard(|| read(Fmt::Wav, &w, po())) {
            Ok(Ok(r)) => {
                if let Some(n) = r.get(T::RiffInfo) {
                    if let Some(x) = listed(n).iter().find(|x| !riff_ok(x)) {
                        cx.violation(format!("foreign-riff:{id:?}"), format!("an item {x:?} is read"), vec![("file.bin", &w)]);
                    }
                }
            }
            Ok(Err(_)) => {
                if std::str::from_utf8(id).is_ok_and(riff_ok) {
                    cx.violation(format!("foreign-riff-err:{id:?}"), "a valid item fails the file", vec![("file.bin", &w)]);
                }
            }
            Err(e) => cx.violation(format!("foreign-riff-panic:{id:?}"), e, vec![("file.bin", &w)]),
        }
        w.clear();
    });
    for b in (0..=255u8).filter(|b| *b != b'=') {
        for at in 0..3 {
            let mut k = b"XYZ".to_vec();
            k[at] = b;
            let mut field = k.clone();
            field.extend(b"=bad");
            let mut vc = vec![1, 0, 0, 0, b'v', 2, 0, 0, 0];
            for x in [b"TITLE=good".to_vec(), field] {
                vc.extend((x.len() as u32).to_le_bytes());
                vc.extend(x);
            }
            let f = mk::flac_file(&[(4, vc)]);
            cx.eval(&("foreign-vorbis", b, at));
            let ok = std::str::from_utf8(&k).is_ok_and(vorbis_ok);
            for m in [ParsingMode::Strict, ParsingMode::BestAttempt, ParsingMode::Relaxed] {
                match guard(|| read(Fmt::Flac, &f, po_mode(m))) {
                    Ok(Ok(r)) => {
                        let l = r.get(T::Vorbis).map(listed).unwrap_or_default();
                        let has = l.iter().any(|x| x.as_bytes() == k);
                        if has != ok || !l.contains(&"TITLE".to_string()) || l.iter().any(|x| !vorbis_ok(x)) || (m == ParsingMode::Strict && !ok) {
                            cx.violation(format!("foreign-vorbis:{k:?}:{m:?}"), format!("the field names {l:?} are read"), vec![("file.bin", &f)]);
                        }
                    }
                    Ok(Err(e)) => {
                        if ok || m != ParsingMode::Strict {
                            cx.violation(format!("foreign-vorbis-err:{k:?}:{m:?}"), format!("the file is refused: {e}"), vec![("file.bin", &f)]);
                        }
                    }
                    Err(e) => cx.violation(format!("foreign-vorbis-panic:{k:?}"), e, vec![("file.bin", &f)]),
                }
            }
            // APE
            let tag = ape_raw(&[(b"Title", b"good"), (&k, b"bad")]);
            let mut f = mk::mpeg_audio(4);
            f.extend(tag);
            cx.eval(&("foreign-ape", b, at));
            let ok = std::str::from_utf8(&k).is_ok_and(ape_ok);
            for m in [ParsingMode::Strict, ParsingMode::BestAttempt, ParsingMode::Relaxed] {
                match guard(|| read(Fmt::Mpeg, &f, po_mode(m))) {
                    Ok(Ok(r)) => {
                        let l = r.get(T::Ape).map(listed).unwrap_or_default();
                        if l.iter().any(|x| !ape_ok(x)) || (ok && l.len() != 2) {
                            cx.violation(format!("foreign-ape:{k:?}:{m:?}"), format!("the keys {l:?} are read"), vec![("file.bin", &f)]);
                        }
                    }
                    Ok(Err(e)) => {
                        if ok {
                            cx.violation(format!("foreign-ape-err:{k:?}:{m:?}"), format!("the file is refused: {e}"), vec![("file.bin", &f)]);
                        }
                    }
                    Err(e) => cx.violation(format!("foreign-ape-panic:{k:?}"), e, vec![("file.bin", &f)]),
                }
            }
        }
    }
}
fn ape_raw(items: &[(&[u8], &[u8])]) -> Vec<u8> {
    let mut body = Vec::new();
    for (k, v) in items {
        body.extend((v.len() as u32).to_le_bytes());
        body.extend(0u32.to_le_bytes());
        body.extend(*k);
        body.push(0);
        body.extend(*v);
    }
    let size = (body.len() + 32) as u32;
    let mut o = body;
    o.extend(b"APETAGEX");
    o.extend(2000u32.to_le_bytes());
    o.extend(size.to_le_bytes());
    o.extend((items.len() as u32).to_le_bytes());
    o.extend(0u32.to_le_bytes());
    o.extend([0; 8]);
    o
}
/// The generic keys' native names are valid, and found again whatever the case
fn generic(cx: &Ctx) {
    for ty in ALL_TT {
        for k in KEYS {
            let Some(name) = k.map_key(ty) else { continue };
            cx.eval(&("generic", format!("{k:?}{ty:?}")));
            let back = ItemKey::from_key(ty, name);
            // keys sharing a name are found under one of them
            if back.and_then(|b| b.map_key(ty)) != Some(name) && back.is_some() {
                cx.violation(format!("generic:{ty:?}:{k:?}"), format!("{k:?} is {name:?}, which is {back:?}"), vec![]);
            }
            if back.is_none() && !(ty == TagType::Id3v2 && !frame_ok(name)) {
                cx.violation(format!("generic-none:{ty:?}:{k:?}"), format!("{k:?} is {name:?}, which is no key"), vec![]);
            }
            let ok = match ty {
                TagType::Ape => ape_ok(name),
                TagType::VorbisComments => vorbis_ok(name),
                TagType::RiffInfo => riff_ok(name),
                _ => true,
            };
            if !ok {
                cx.violation(format!("generic-invalid:{ty:?}:{k:?}"), format!("{k:?} is stored as {name:?}, which is invalid"), vec![]);
            }
            if matches!(ty, TagType::Ape | TagType::VorbisComments) {
                for q in [name.to_ascii_lowercase(), name.to_ascii_uppercase(), flip(name)] {
                    if ItemKey::from_key(ty, &q) != back {
                        cx.violation(format!("generic-case:{ty:?}:{q}"), format!("{q:?} is {:?}, {name:?} is {back:?}", ItemKey::from_key(ty, &q)), vec![]);
                    }
                }
            }
        }
    }
}
pub fn run(cx: &Ctx) -> i32 {
    let targets: Vec<(T, Fmt, Vec<u8>)> = ALL_FMT
        .into_iter()
        .flat_map(|f| writable(f).into_iter().map(move |t| (t, f)))
        .map(|(t, f)| (t, f, layouts::layouts(f, false).into_iter().find(|l| l.core && l.name != "bigaudio").unwrap().bytes))
        .collect();
    generic(cx);
    let mut jobs: Vec<(T, Vec<String>)> = Vec::new();
    let size = |t: T| match t {
        T::Id3v2 => 500,
        _ => 100,
    };
    let mut counts = Vec::new();
    let mut add = |t: T, ids: Vec<String>| {
        counts.push(ids.len());
        // a tag holds names that differ in case as one
        let mut groups: Vec<(BTreeSet<String>, Vec<String>)> = Vec::new();
        let mut first = 0;
        for i in ids {
            let k = if t == T::Id3v2 { i.clone() } else { i.to_ascii_lowercase() };
            while first < groups.len() && groups[first].1.len() >= size(t) {
                first += 1;
            }
            match groups[first..].iter_mut().find(|g| g.1.len() < size(t) && !g.0.contains(&k)) {
                Some(g) => {
                    g.0.insert(k);
                    g.1.push(i);
                }
                None => groups.push(([k].into(), vec![i])),
            }
        }
        jobs.extend(groups.into_iter().map(|g| (t, g.1)));
    };
    // the frames whose content isn't free
    let parsed = [
        "APIC", "USLT", "COMM", "TXXX", "WXXX", "UFID", "POPM", "TIPL", "TMCL", "IPLS", "RVA2", "OWNE", "ETCO", "PRIV", "CHAP", "CTOC", "WFED", "GRP1", "MVNM", "MVIN", "PCST",
    ];
    add(T::Id3v2, frame_ids(cx).into_iter().filter(|i| i.len() == 4 && !i.starts_with('T') && !i.starts_with('W') && !parsed.contains(&i.as_str())).collect());
    add(T::Vorbis, vorbis_keys(cx));
    add(T::Ape, ape_keys(cx));
    add(T::RiffInfo, riff_keys(cx));
    cx.note("accepted", json!(counts));
    for j in jobs.iter().step_by((jobs.len() / 8).max(1)) {
        cx.sample(|| json!({"type": format!("{:?}", j.0), "ids": j.1.iter().take(5).collect::<Vec<_>>()}));
    }
    cx.par(&jobs, |(t, ids)| batch(cx, *t, ids, &targets));
    atoms(cx, &targets);
    foreign(cx, &targets);
    cx.states.store(jobs.len() as u64, Ordering::Relaxed);
    cx.finish(
        "exploration",
        "Every character at every position, every pair of bytes at every pair of positions (frame IDs and RIFF IDs: all 65536; names: a boundary alphabet) and every length of each kind of identifier against the formats' rules; every accepted one looked up, replaced and removed in every case and saved and read in batches; every invalid byte in files written by others; every generic key's native name.",
        &["names are varied around a list of seeds", "FrameId's variants built by hand are outside the statement: identifiers are built with the constructors or read from files"],
        true,
    )
}
