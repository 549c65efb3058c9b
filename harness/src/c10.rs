//! C10: file type detection.
use crate::api::*;
use crate::contents::{content, K};
use crate::ctx::*;
use crate::layouts::*;
use crate::mk::*;
use crate::seeds;
use crate::walk::Fmt;
use lofty::config::{ParseOptions, ParsingMode};
use lofty::file::{FileType, TaggedFileExt};
use lofty::probe::Probe;
use std::collections::BTreeMap;
use std::io::{Cursor, Seek};
use std::sync::atomic::Ordering;

const ALL: [Fmt; 12] =
    [Fmt::Aac, Fmt::Aiff, Fmt::Ape, Fmt::Flac, Fmt::Mpeg, Fmt::Mp4, Fmt::Mpc, Fmt::Opus, Fmt::Vorbis, Fmt::Speex, Fmt::Wav, Fmt::WavPack];

/// guess from position `start`; checks that the reader is put back
fn guess(cx: &Ctx, key: &str, b: &[u8], start: u64, max: Option<usize>) -> Option<FileType> {
    cx.case(key, b);
    let mut c = Cursor::new(b);
    c.set_position(start);
    let mut p = Probe::new(c);
    if let Some(m) = max {
        p = p.options(ParseOptions::new().max_junk_bytes(m));
    }
    match guard(|| p.guess_file_type()) {
        Err(e) => {
            cx.violation(format!("panic:{key}"), format!("{key}: guess_file_type panicked: {e}"), vec![("bin", b)]);
            None
        }
        Ok(Err(e)) => {
            cx.violation(format!("err:{key}"), format!("{key}: guess_file_type failed on readable bytes: {e}"), vec![("bin", b)]);
            None
        }
        Ok(Ok(p)) => {
            let t = p.file_type();
            let mut c = p.into_inner();
            if c.stream_position().unwrap() != start {
                cx.violation(
                    format!("pos:{key}"),
                    format!("{key}: guessing {t:?} from position {start} left the reader at {}", c.position()),
                    vec![("bin", b)],
                );
            }
            t
        }
    }
}
fn at(b: &[u8], o: usize, s: &[u8]) -> bool {
    b.len() >= o + s.len() && &b[o..o + s.len()] == s
}
fn mpeg_or_aac(b1: u8) -> FileType {
    if b1 & 0x10 != 0 && b1 & 6 == 0 { FileType::Aac } else { FileType::Mpeg }
}
/// first frame sync in `b`
fn sync(b: &[u8]) -> Option<usize> {
    b.windows(2).position(|w| w[0] == 0xFF && w[1] & 0xE0 == 0xE0)
}
/// The independent signature oracle: may these bytes be called `t`?
fn may_be(t: FileType, b: &[u8], max: usize) -> bool {
    let mut behind: &[u8] = &[];
    if at(b, 0, b"ID3") && b.len() >= 10 {
        let mut n = 10 + b[6..10].iter().fold(0usize, |a, x| (a << 7) | (*x as usize & 0x7F));
        // tolerate bits in the high positions: any skip that is consistent with some reading of the size is not decided here
        if b[6..10].iter().any(|x| x & 0x80 != 0) {
            return true;
        }
        if b[5] & 0x10 != 0 && b[3] >= 3 {
            n += 10;
        }
        behind = b.get(n..).unwrap_or(&[]);
    }
    let s = |x: &[u8]| at(b, 0, x) || at(behind, 0, x);
    match t {
        FileType::Ape => s(b"MAC"),
        FileType::Flac => s(b"fLaC"),
        FileType::Mpc => s(b"MPCK") || s(b"MP+"),
        FileType::Aiff => at(b, 0, b"FORM") && (at(b, 8, b"AIFF") || at(b, 8, b"AIFC")),
        FileType::Wav => at(b, 0, b"RIFF") && at(b, 8, b"WAVE"),
        FileType::WavPack => at(b, 0, b"wvpk"),
        FileType::Mp4 => at(b, 4, b"ftyp"),
        FileType::Vorbis => at(b, 0, b"OggS") && at(b, 28, b"\x01vorbis") || (at(b, 0, b"OggS") && at(b, 29, b"vorbis")),
        FileType::Opus => at(b, 0, b"OggS") && at(b, 28, b"OpusHead"),
        FileType::Speex => at(b, 0, b"OggS") && at(b, 28, b"Speex   "),
        FileType::Aac | FileType::Mpeg => {
            let x = if at(b, 0, b"ID3") && b.len() >= 10 { behind } else { b };
            match sync(x) {
                Some(p) => (p == 0 || p < max) && mpeg_or_aac(x[p + 1]) == t,
                None => false,
            }
        }
        _ => false,
    }
}
fn id3v2_prefixes() -> Vec<(String, Vec<u8>)> {
    let mut v = Vec::new();
    for ver in [2u8, 3, 4] {
        for pad in [0usize, 1, 10, 117, 118, 127, 128, 1000, 5000, 16373, 20000] {
            v.push((format!("v2.{ver}:p{pad}"), id3v2_tag(ver, 0, &[], pad)));
        }
        let fr = match ver {
            2 => id3v2_frame_v2("TT2", b"\0hello"),
            3 => id3v2_frame_v3("TIT2", b"\0hello"),
            _ => id3v2_frame_v4("TIT2", b"\0hello"),
        };
        v.push((format!("v2.{ver}:title"), id3v2_tag(ver, 0, &fr, 12)));
        // a frame whose data looks like other formats' signatures
        for sig in [&b"\xFF\xFB\x90\x64"[..], b"fLaC", b"MAC ", b"MPCK", b"ID3\x04\0\0\0\0\0\0"] {
            let fr = match ver {
                2 => id3v2_frame_v2("PRV", sig),
                3 => id3v2_frame_v3("PRIV", sig),
                _ => id3v2_frame_v4("PRIV", sig),
            };
            v.push((format!("v2.{ver}:sig{:02x}", sig[0]), id3v2_tag(ver, 0, &fr, 3)));
        }
    }
    v.push(("v2.4:footer".into(), id3v2_tag(4, 0x10, &text_frame_v4("TIT2", "x"), 0)));
    v
}
pub fn run(cx: &Ctx) -> i32 {
    let max_default = ParseOptions::DEFAULT_MAX_JUNK_BYTES;
    // 1. well-formed files are detected; so they are after every save and removal
    let mut jobs: Vec<(String, Fmt, Vec<u8>)> = Vec::new();
    for f in ALL {
        for l in layouts(f, true) {
            if l.core {
                jobs.push((l.name.clone(), f, l.bytes));
            }
        }
    }
    for (n, f, b) in seeds::assets() {
        // Musepack SV4 to SV6 have no signature
        if n.contains("mpc_sv5") {
            continue;
        }
        jobs.push((format!("asset:{n}"), f, b));
    }
    let states = jobs.len() as u64;
    cx.par(&jobs, |(n, f, b)| {
        let key = format!("{f:?}:{n}");
        if cx.skip(&key) {
            return;
        }
        let wrong = |k: String, b: &[u8], g: Option<FileType>| {
            if g != Some(ft(*f)) {
                cx.violation(format!("type:{k}"), format!("{k}: a well-formed {f:?} file is detected as {g:?}"), vec![("bin", b)]);
            }
        };
        cx.eval(&key);
        wrong(key.clone(), b, guess(cx, &key, b, 0, None));
        // behind unrelated bytes, with the reader positioned at the file
        for k in [1usize, 7, 100] {
            let mut x = pat(k, 3);
            x.extend(b);
            cx.eval(&(&key, k));
            wrong(format!("{key}:at{k}"), &x, guess(cx, &key, &x, k as u64, None));
        }
        // reading after a guess sees the whole file
        let a = Probe::new(Cursor::new(&b[..])).guess_file_type().map_err(er).and_then(|p| p.read().map_err(er)).map(|t| tagged_sig(&t));
        let c = Probe::with_file_type(Cursor::new(&b[..]), ft(*f)).read().map_err(er).map(|t| tagged_sig(&t));
        cx.eval(&(&key, "read"));
        if a != c {
            cx.violation(format!("read:{key}"), format!("{key}: reading after guessing differs from reading as {f:?}\n {a:?}\n {c:?}"), vec![("bin", b)]);
        }
        for t in writable(*f) {
            for (kn, k) in [("small", K::A), ("cover", K::P)] {
                for pad in [0u32, 1024] {
                    if let Ok(y) = content(t, k).save(b, wo().preferred_padding(pad)) {
                        let kk = format!("{key}:{t:?}:{kn}:{pad}");
                        cx.eval(&kk);
                        wrong(kk.clone(), &y, guess(cx, &kk, &y, 0, None));
                    }
                }
            }
            let (r, y) = remove(b, t, wo());
            if r.is_ok() {
                let kk = format!("{key}:rm{t:?}");
                cx.eval(&kk);
                wrong(kk.clone(), &y, guess(cx, &kk, &y, 0, None));
            }
        }
    });
    // 2. behind an ID3v2 tag
    let pre = id3v2_prefixes();
    for f in [Fmt::Mpeg, Fmt::Aac, Fmt::Ape, Fmt::Flac, Fmt::Mpc] {
        let mut auds = vec![("a".to_string(), audio(f))];
        if f == Fmt::Mpc {
            auds.push(("sv7".into(), mpc_sv7()));
        }
        for (an, a) in &auds {
            for (n, p) in &pre {
                let mut x = p.clone();
                x.extend(a);
                for max in [None, Some(0usize), Some(2), Some(10), Some(1024)] {
                    let key = format!("{f:?}:{an}:behind:{n}:{max:?}");
                    if cx.skip(&key) {
                        continue;
                    }
                    cx.eval(&key);
                    let g = guess(cx, &key, &x, 0, max);
                    // a frame sync has to be searched for, which a limit below two bytes forbids
                    if g != Some(ft(f)) && !(matches!(max, Some(0)) && matches!(f, Fmt::Mpeg | Fmt::Aac)) {
                        cx.violation(format!("type:{key}"), format!("{key}: {f:?} behind an ID3v2 tag of {} bytes is detected as {g:?}", p.len()), vec![("bin", &x)]);
                    }
                }
            }
        }
    }
    // 3. junk before MPEG and AAC, also between an ID3v2 tag and the audio
    let top = cx.q(1100usize, 6000);
    let fills: [(&str, fn(usize) -> u8); 4] =
        [("sp", |_| 0x20), ("zero", |_| 0), ("ff00", |i| if i % 2 == 0 { 0 } else { 0xFF }), ("ffdf", |i| if i % 2 == 0 { 0xDF } else { 0xFF })];
    let mut js = Vec::new();
    for f in [Fmt::Mpeg, Fmt::Aac] {
        for (fi, _) in fills.iter().enumerate() {
            for tag in [false, true] {
                for max in [0usize, 1, 2, 10, 100, 1024, 5000] {
                    js.push((f, fi, tag, max));
                }
            }
        }
    }
    cx.par(&js, |(f, fi, tag, max)| {
        let a = audio(*f);
        for n in 0..=top {
            let mut x = if *tag { id3v2_simple("t", 20) } else { vec![] };
            // patterns with FF bytes end in a byte that cannot begin a sync
            let n2 = if *fi >= 2 { n | 1 } else { n };
            x.extend((0..n2).map(fills[*fi].1));
            x.extend(&a);
            let key = format!("{f:?}:junk:{}:{}:max{max}:n{n2}", fills[*fi].0, if *tag { "v2" } else { "-" });
            if cx.skip(&key) {
                continue;
            }
            cx.evals_add(1);
            cx.by_construction.fetch_add(1, Ordering::Relaxed);
            let g = guess(cx, &key, &x, 0, Some(*max));
            let must = n2 + 2 <= *max || (n2 == 0 && !*tag);
            let may = n2 <= *max;
            if must && g != Some(ft(*f)) {
                cx.violation(format!("junk:{f:?}:{}:{tag}:{max}", fills[*fi].0), format!("{key}: {n2} bytes of junk are within the limit of {max}, detected as {g:?}"), vec![("bin", &x)]);
            }
            if !may && g.is_some() {
                cx.violation(format!("junkover:{f:?}:{}:{tag}:{max}", fills[*fi].0), format!("{key}: {n2} bytes of junk are beyond the limit of {max}, detected as {g:?}"), vec![("bin", &x)]);
            }
            if !must && may && g.is_some() && g != Some(ft(*f)) {
                cx.violation(format!("junkwrong:{f:?}:{}:{tag}:{max}", fills[*fi].0), format!("{key}: detected as {g:?}"), vec![("bin", &x)]);
            }
        }
    });
    // 4. every damage of the signature area: a guess needs its signature
    let mut bases: Vec<(String, Fmt, Vec<u8>)> = ALL.iter().map(|f| (format!("{f:?}"), *f, audio(*f))).collect();
    bases.push(("sv7".into(), Fmt::Mpc, mpc_sv7()));
    for f in [Fmt::Mpeg, Fmt::Aac, Fmt::Ape, Fmt::Flac, Fmt::Mpc] {
        for (n, p) in [("v24", v2("t", 5)), ("v23", v23("t", 0)), ("v24ftr", id3v2_tag(4, 0x10, &text_frame_v4("TIT2", "x"), 0))] {
            let mut x = p;
            x.extend(audio(f));
            bases.push((format!("{f:?}+{n}"), f, x));
        }
    }
    let mut dm = Vec::new();
    for (i, (_, _, b)) in bases.iter().enumerate() {
        for o in 0..b.len().min(cx.q(80, 400)) {
            dm.push((i, o));
        }
    }
    // reading as a format that has a signature needs that signature (WavPack blocks may be missing altogether)
    let signed = |f: Fmt| !matches!(f, Fmt::Mpeg | Fmt::Aac | Fmt::Mpc | Fmt::WavPack);
    let refuse = |key: &str, x: &[u8], f: Fmt| {
        if signed(f) && !may_be(ft(f), x, max_default) {
            for m in [ParsingMode::BestAttempt, ParsingMode::Relaxed] {
                cx.evals_add(1);
                if matches!(guard(|| read_tagged(f, x, po().parsing_mode(m))), Ok(Ok(_))) {
                    cx.violation(format!("readsig:{f:?}:{m:?}"), format!("{key}: read as {f:?} although its signature is absent"), vec![("bin", x)]);
                }
            }
        }
    };
    let judge = |key: String, x: &[u8], f: Fmt, max: Option<usize>| {
        cx.evals_add(1);
        cx.by_construction.fetch_add(1, Ordering::Relaxed);
        if max.is_none() {
            refuse(&key, x, f);
        }
        let g = guess(cx, &key, x, 0, max);
        if let Some(t) = g {
            if !may_be(t, x, max.unwrap_or(max_default)) {
                cx.violation(format!("sig:{t:?}:{f:?}"), format!("{key}: guessed {t:?} although its signature is absent"), vec![("bin", x)]);
            }
        }
        cx.outcome(&format!("{g:?}"));
        // the fixed-size variant may only know less
        let fb = FileType::from_buffer(&x[..x.len().min(36)]);
        if fb.is_some() && fb != g {
            cx.violation(format!("buffer:{f:?}"), format!("{key}: from_buffer says {fb:?}, guess_file_type says {g:?}"), vec![("bin", x)]);
        }
    };
    // a file of one format is never read as one of another
    cx.par(&jobs, |(n, f, b)| {
        for g in ALL {
            let key = format!("{f:?}:{n}:as{g:?}");
            if g != *f && !cx.skip(&key) {
                refuse(&key, b, g);
            }
        }
    });
    cx.par(&dm, |(i, o)| {
        let (n, f, b) = &bases[*i];
        for v in 0..=255u8 {
            let mut x = b.clone();
            x[*o] = v;
            judge(format!("{n}:byte{o}={v:02x}"), &x, *f, None);
        }
        judge(format!("{n}:cut{o}"), &b[..*o], *f, None);
        // signatures displaced by a byte
        let mut x = b.clone();
        x.remove(*o);
        judge(format!("{n}:del{o}"), &x, *f, None);
        x.insert(*o, 0);
        x.insert(*o, 0);
        judge(format!("{n}:ins{o}"), &x, *f, None);
        if cx.thorough() {
            // pairs of edits with the values that matter
            for o2 in 0..b.len().min(80) {
                for v in [0u8, 1, 0x7F, 0x80, 0xE0, 0xF0, 0xFF] {
                    for v2 in [0u8, 0x10, 0xE0, 0xF1, 0xFB, 0xFF] {
                        let mut x = b.clone();
                        x[*o] = v;
                        x[o2] = v2;
                        judge(format!("{n}:byte{o}={v:02x}:byte{o2}={v2:02x}"), &x, *f, None);
                    }
                }
            }
        }
    });
    // 4b. all pairs of first bytes (frame sync and MPEG/AAC decision): exact
    for b0 in 0..=255u8 {
        for b1 in 0..=255u8 {
            for lead in [0usize, 1, 5] {
                let mut x = vec![0u8; lead];
                x.extend([b0, b1, 0x12, 0x34]);
                x.extend(vec![0u8; 60]);
                let want = if b0 == 0xFF && b1 & 0xE0 == 0xE0 { Some(mpeg_or_aac(b1)) } else { None };
                let key = format!("pair:{b0:02x}{b1:02x}:{lead}");
                cx.evals_add(1);
                cx.by_construction.fetch_add(1, Ordering::Relaxed);
                let g = guess(cx, &key, &x, 0, None);
                if g != want {
                    cx.violation(format!("sync:{b0:02x}{b1:02x}"), format!("{key}: {g:?} instead of {want:?}"), vec![("bin", &x)]);
                }
            }
        }
    }
    // 5. a type set before is kept when nothing is recognised, and replaced when something is
    for f in ALL {
        for g in ALL {
            let a = audio(g);
            cx.eval(&("keep", f as u8, g as u8));
            let p = Probe::with_file_type(Cursor::new(&a[..]), ft(f)).guess_file_type().unwrap();
            if p.file_type() != Some(ft(g)) {
                cx.violation(format!("replace:{f:?}:{g:?}"), format!("a probe set to {f:?} keeps {:?} on {g:?} content", p.file_type()), vec![("bin", &a)]);
            }
        }
        for none in [&b""[..], b"\0", b"nothing to see here, just a text file with more than 36 bytes"] {
            cx.eval(&("none", f as u8, none));
            let p = Probe::with_file_type(Cursor::new(none), ft(f)).guess_file_type().unwrap();
            if p.file_type() != Some(ft(f)) {
                cx.violation(format!("kept:{f:?}"), format!("a probe set to {f:?} forgets it on unrecognised content: {:?}", p.file_type()), vec![("bin", none)]);
            }
        }
    }
    // 6. the extension table
    let table: BTreeMap<&str, FileType> = [
        ("aac", FileType::Aac),
        ("ape", FileType::Ape),
        ("aiff", FileType::Aiff),
        ("aif", FileType::Aiff),
        ("afc", FileType::Aiff),
        ("aifc", FileType::Aiff),
        ("mp3", FileType::Mpeg),
        ("mp2", FileType::Mpeg),
        ("mp1", FileType::Mpeg),
        ("wav", FileType::Wav),
        ("wave", FileType::Wav),
        ("wv", FileType::WavPack),
        ("opus", FileType::Opus),
        ("flac", FileType::Flac),
        ("ogg", FileType::Vorbis),
        ("mp4", FileType::Mp4),
        ("m4a", FileType::Mp4),
        ("m4b", FileType::Mp4),
        ("m4p", FileType::Mp4),
        ("m4r", FileType::Mp4),
        ("m4v", FileType::Mp4),
        ("3gp", FileType::Mp4),
        ("mpc", FileType::Mpc),
        ("mp+", FileType::Mpc),
        ("mpp", FileType::Mpc),
        ("spx", FileType::Speex),
    ]
    .into_iter()
    .collect();
    for e in lofty::file::EXTENSIONS {
        cx.eval(&("ext", e));
        if FileType::from_ext(e).is_none() {
            cx.violation(format!("ext:{e}"), format!("EXTENSIONS lists {e}, from_ext does not know it"), vec![]);
        }
    }
    for (e, t) in &table {
        if !lofty::file::EXTENSIONS.contains(e) {
            cx.violation(format!("extlist:{e}"), format!("from_ext knows {e}, EXTENSIONS does not list it"), vec![]);
        }
        for bits in 0..1u32 << e.len() {
            let s: String = e.chars().enumerate().map(|(i, c)| if bits >> i & 1 == 1 { c.to_ascii_uppercase() } else { c }).collect();
            for (k, g) in [
                ("from_ext", FileType::from_ext(&s)),
                ("from_path", FileType::from_path(format!("/music/a.b/x.{s}"))),
                ("from_path2", FileType::from_path(format!("y.mp3.{s}"))),
                ("from_path3", FileType::from_path(std::path::Path::new("..").join(format!(".z.{s}")))),
            ] {
                cx.eval(&("case", k, &s));
                if g != Some(*t) {
                    cx.violation(format!("case:{k}:{s}"), format!("{k}({s}) = {g:?}, expected {t:?}"), vec![]);
                }
            }
        }
        for p in [format!("/a.{e}/x"), format!("{e}"), format!(".{e}"), format!("x.{e}/"), format!("x.{e}.")] {
            let g = FileType::from_path(&p);
            let want = if p == format!("x.{e}/") { Some(*t) } else { None };
            cx.eval(&("path", &p));
            if g != want {
                cx.violation(format!("path:{p}"), format!("from_path({p}) = {g:?}, expected {want:?}"), vec![]);
            }
        }
    }
    let al: Vec<char> = "abcdefghijklmnopqrstuvwxyz0123456789+ ._-ÉK".chars().collect();
    let n = al.len();
    cx.par_range(n * n, |i| {
        let mut s = String::new();
        let mut test = |s: &str| {
            cx.evals_add(1);
            cx.by_construction.fetch_add(1, Ordering::Relaxed);
            let g = FileType::from_ext(s);
            let w = table.get(s.to_ascii_lowercase().as_str()).copied();
            if g != w {
                cx.violation(format!("from_ext:{s}"), format!("from_ext({s}) = {g:?}, expected {w:?}"), vec![]);
            }
        };
        let (a, b) = (al[i / n], al[i % n]);
        if i / n == i % n {
            test(&a.to_string());
        }
        test(&format!("{a}{b}"));
        for c in &al {
            s.clear();
            s.extend([a, b, *c]);
            test(&s);
            for d in &al {
                s.truncate(a.len_utf8() + b.len_utf8() + c.len_utf8());
                s.push(*d);
                test(&s);
            }
        }
    });
    cx.states.store(states, Ordering::Relaxed);
    for (n, f, b) in jobs.iter().step_by((jobs.len() / 8).max(1)) {
        cx.sample(|| serde_json::json!({"file": n, "format": format!("{f:?}"), "bytes": b.len(), "guess": format!("{:?}", detect(b))}));
    }
    let _ = <lofty::file::TaggedFile as TaggedFileExt>::tags;
    cx.finish(
        "exploration",
        "exhaustive enumeration on the real detector: every layout and asset (bare, after every save and removal, at other start positions), every ID3v2 prefix, every junk length x fill x limit, every value of every byte of the signature area with every truncation, deletion and insertion, every pair of leading bytes; the extension table on every string of up to four characters. Oracle: an independent signature predicate",
        &["junk contains no frame sync of its own", "ID3v2 size bytes with the high bit set are not judged"],
        false,
    )
}
