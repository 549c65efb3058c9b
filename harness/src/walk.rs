//! Independent strict container walkers. Nothing in here uses lofty.
#![allow(dead_code)]
use crate::mk::crc_ogg;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Fmt {
    Aac,
    Aiff,
    Ape,
    Flac,
    Mpeg,
    Mp4,
    Mpc,
    Opus,
    Vorbis,
    Speex,
    Wav,
    WavPack,
}
pub const ALL_FMT: [Fmt; 12] = [
    Fmt::Aac,
    Fmt::Aiff,
    Fmt::Ape,
    Fmt::Flac,
    Fmt::Mpeg,
    Fmt::Mp4,
    Fmt::Mpc,
    Fmt::Opus,
    Fmt::Vorbis,
    Fmt::Speex,
    Fmt::Wav,
    Fmt::WavPack,
];
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum T {
    Id3v2,
    Id3v1,
    Ape,
    Vorbis,
    Ilst,
    RiffInfo,
    AiffText,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Anat {
    pub errs: Vec<String>,
    pub foreign: Vec<(String, Vec<u8>)>,
    pub tags: Vec<(T, Vec<u8>)>,
    pub padding: usize,
}
impl Anat {
    pub fn count(&self, t: T) -> usize {
        self.tags.iter().filter(|x| x.0 == t).count()
    }
    fn e(&mut self, s: impl Into<String>) {
        self.errs.push(s.into());
    }
    fn f(&mut self, n: impl Into<String>, b: &[u8]) {
        self.foreign.push((n.into(), b.to_vec()));
    }
}
fn r32b(b: &[u8], p: usize) -> u32 {
    u32::from_be_bytes(b[p..p + 4].try_into().unwrap())
}
fn r32l(b: &[u8], p: usize) -> u32 {
    u32::from_le_bytes(b[p..p + 4].try_into().unwrap())
}
pub fn unsynch(b: &[u8]) -> u32 {
    b[..4].iter().fold(0, |a, x| a << 7 | (*x as u32 & 0x7F))
}
pub fn anatomy(f: Fmt, b: &[u8]) -> Anat {
    let mut a = Anat::default();
    match f {
        Fmt::Aac | Fmt::Mpeg | Fmt::Ape | Fmt::Mpc | Fmt::WavPack => raw(b, &mut a),
        Fmt::Flac => flac(b, &mut a),
        Fmt::Wav => riff(b, &mut a),
        Fmt::Aiff => aiff(b, &mut a),
        Fmt::Opus | Fmt::Vorbis | Fmt::Speex => ogg(f, b, &mut a),
        Fmt::Mp4 => mp4(b, &mut a),
    }
    a
}

/// Total length of an ID3v2 tag at the start of `b`
pub fn id3v2_len(b: &[u8]) -> Option<usize> {
    if b.len() < 10 || &b[..3] != b"ID3" || b[3] == 0xFF || b[4] == 0xFF || b[6..10].iter().any(|x| *x >= 0x80) {
        return None;
    }
    let mut n = 10 + unsynch(&b[6..]) as usize;
    if b[3] == 4 && b[5] & 0x10 != 0 {
        n += 10;
    }
    Some(n)
}
/// One frame found by the strict ID3v2 walker
#[derive(Clone, Debug, PartialEq)]
pub struct F2 {
    pub id: String,
    pub flags: u16,
    pub data: Vec<u8>,
}
pub fn id3v2_frames(b: &[u8]) -> Result<(u8, Vec<F2>, usize), String> {
    let n = id3v2_len(b).ok_or("bad ID3v2 header")?;
    if n > b.len() {
        return Err(format!("ID3v2 size {n} exceeds available {}", b.len()));
    }
    let ver = b[3];
    let fl = b[5];
    let mut end = n;
    if ver == 4 && fl & 0x10 != 0 {
        end -= 10;
        let f = &b[end..n];
        if &f[..3] != b"3DI" || f[3..10] != b[3..10] {
            return Err("ID3v2 footer does not mirror header".into());
        }
    }
    let mut p = 10;
    if fl & 0x40 != 0 {
        // extended header
        if ver == 4 {
            if b.len() < p + 6 {
                return Err("short extended header".into());
            }
            let s = unsynch(&b[p..]) as usize;
            if s < 6 || p + s > end {
                return Err("bad extended header size".into());
            }
            p += s;
        } else if ver == 3 {
            let s = r32b(b, p) as usize;
            if (s != 6 && s != 10) || p + 4 + s > end {
                return Err("bad v2.3 extended header size".into());
            }
            p += 4 + s;
        }
    }
    let mut out = Vec::new();
    let hl = if ver == 2 { 6 } else { 10 };
    while p < end {
        if b[p] == 0 {
            if b[p..end].iter().any(|x| *x != 0) {
                return Err(format!("non-zero byte in ID3v2 padding at {p}..{end}"));
            }
            break;
        }
        if p + hl > end {
            return Err("truncated frame header".into());
        }
        let il = if ver == 2 { 3 } else { 4 };
        let id = &b[p..p + il];
        if !id.iter().all(|c| c.is_ascii_uppercase() || c.is_ascii_digit()) {
            return Err(format!("illegal frame id {:?} at {p}", String::from_utf8_lossy(id)));
        }
        let (sz, flags) = match ver {
            2 => ((b[p + 3] as usize) << 16 | (b[p + 4] as usize) << 8 | b[p + 5] as usize, 0),
            3 => (r32b(b, p + 4) as usize, u16::from_be_bytes([b[p + 8], b[p + 9]])),
            4 => {
                if b[p + 4..p + 8].iter().any(|x| *x >= 0x80) {
                    return Err("frame size not synchsafe".into());
                }
                (unsynch(&b[p + 4..]) as usize, u16::from_be_bytes([b[p + 8], b[p + 9]]))
            }
            _ => return Err(format!("version {ver}")),
        };
        if sz == 0 {
            return Err(format!("empty frame {}", String::from_utf8_lossy(id)));
        }
        if p + hl + sz > end {
            return Err(format!("frame {} overruns tag ({} > {end})", String::from_utf8_lossy(id), p + hl + sz));
        }
        out.push(F2 { id: String::from_utf8_lossy(id).into(), flags, data: b[p + hl..p + hl + sz].to_vec() });
        p += hl + sz;
    }
    Ok((ver, out, n))
}
#[derive(Clone, Debug, PartialEq)]
pub struct ApeIt {
    pub key: String,
    pub flags: u32,
    pub val: Vec<u8>,
}
/// Parses an APE tag given the position just after its footer. Returns (start, items).
pub fn ape_from_footer(b: &[u8], end: usize) -> Option<Result<(usize, Vec<ApeIt>), String>> {
    if end < 32 || &b[end - 32..end - 24] != b"APETAGEX" {
        return None;
    }
    let f = &b[end - 32..end];
    Some((|| {
        let ver = r32l(f, 8);
        let size = r32l(f, 12) as usize;
        let count = r32l(f, 16);
        let flags = r32l(f, 20);
        if ver != 2000 && ver != 1000 {
            return Err(format!("APE version {ver}"));
        }
        if flags & (1 << 29) != 0 {
            return Err("APE footer flagged as header".into());
        }
        if size < 32 || size > end {
            return Err(format!("APE size {size} out of range"));
        }
        if f[24..32].iter().any(|x| *x != 0) {
            return Err("APE reserved bytes not zero".into());
        }
        let body_start = end - size;
        let mut start = body_start;
        if flags & (1 << 31) != 0 {
            if body_start < 32 {
                return Err("APE header missing".into());
            }
            let h = &b[body_start - 32..body_start];
            if &h[..8] != b"APETAGEX" || h[8..20] != f[8..20] || r32l(h, 20) & (1 << 29) == 0 {
                return Err("APE header does not match footer".into());
            }
            start -= 32;
        }
        let items = ape_items(&b[body_start..end - 32], count)?;
        Ok((start, items))
    })())
}
pub fn ape_items(b: &[u8], count: u32) -> Result<Vec<ApeIt>, String> {
    let mut p = 0;
    let mut v = Vec::new();
    while p < b.len() {
        if p + 9 > b.len() {
            return Err("APE item truncated".into());
        }
        let sz = r32l(b, p) as usize;
        let flags = r32l(b, p + 4);
        let k = p + 8;
        let z = b[k..].iter().position(|x| *x == 0).ok_or("APE key unterminated")?;
        let key = &b[k..k + z];
        if !(2..=255).contains(&key.len()) || key.iter().any(|c| !(0x20..=0x7E).contains(c)) {
            return Err(format!("illegal APE key {:?}", String::from_utf8_lossy(key)));
        }
        let vs = k + z + 1;
        if vs + sz > b.len() {
            return Err("APE item value overruns".into());
        }
        v.push(ApeIt { key: String::from_utf8_lossy(key).into(), flags, val: b[vs..vs + sz].to_vec() });
        p = vs + sz;
    }
    if v.len() as u32 != count {
        return Err(format!("APE item count {count} but {} items", v.len()));
    }
    Ok(v)
}
fn ape_at_start(b: &[u8]) -> Option<Result<(usize, Vec<ApeIt>), String>> {
    if b.len() < 32 || &b[..8] != b"APETAGEX" {
        return None;
    }
    Some((|| {
        let size = r32l(b, 12) as usize;
        let flags = r32l(b, 20);
        if flags & (1 << 29) == 0 {
            return Err("leading APE tag without header flag".into());
        }
        let has_footer = flags & (1 << 30) == 0;
        if 32 + size > b.len() {
            return Err("leading APE tag overruns file".into());
        }
        let items = ape_items(&b[32..32 + size - if has_footer { 32 } else { 0 }], r32l(b, 16))?;
        Ok((32 + size, items))
    })())
}
fn raw(b: &[u8], a: &mut Anat) {
    let mut s = 0;
    let mut e = b.len();
    loop {
        let r = &b[s..];
        if let Some(n) = id3v2_len(r) {
            if s + n > b.len() {
                a.e("leading ID3v2 overruns file");
                break;
            }
            if let Err(x) = id3v2_frames(r) {
                a.e(format!("ID3v2: {x}"));
            }
            a.tags.push((T::Id3v2, r[..n].to_vec()));
            s += n;
            continue;
        }
        match ape_at_start(r) {
            Some(Ok((n, _))) => {
                a.tags.push((T::Ape, r[..n].to_vec()));
                s += n;
                continue;
            }
            Some(Err(x)) => {
                a.e(x);
            }
            None => {}
        }
        break;
    }
    let mut tail = Vec::new();
    let mut seen_v1 = false;
    loop {
        if !seen_v1 && e >= s + 128 && &b[e - 128..e - 125] == b"TAG" && !(e >= s + 131 && &b[e - 131..e - 123] == b"APETAGEX") {
            tail.push((T::Id3v1, b[e - 128..e].to_vec()));
            e -= 128;
            seen_v1 = true;
            continue;
        }
        if e >= s + 32 {
            match ape_from_footer(&b[s..], e - s) {
                Some(Ok((st, _))) => {
                    tail.push((T::Ape, b[s + st..e].to_vec()));
                    e = s + st;
                    continue;
                }
                Some(Err(x)) => {
                    a.e(x);
                    break;
                }
                None => {}
            }
        }
        if e >= s + 15 && &b[e - 9..e] == b"LYRICS200" {
            if let Some(n) = std::str::from_utf8(&b[e - 15..e - 9]).ok().and_then(|x| x.parse::<usize>().ok()) {
                if e >= s + n + 15 && b[e - 15 - n..].starts_with(b"LYRICSBEGIN") {
                    a.foreign.push(("lyrics3".into(), b[e - 15 - n..e].to_vec()));
                    e -= n + 15;
                    continue;
                }
            }
            a.e("bad lyrics3 size");
        }
        break;
    }
    tail.reverse();
    a.tags.extend(tail);
    a.foreign.insert(0, ("stream".into(), b[s..e].to_vec()));
}
pub fn vc_parse(b: &[u8]) -> Result<(Vec<u8>, Vec<Vec<u8>>, usize), String> {
    let need = |p: usize, n: usize| if p + n > b.len() { Err("vorbis comment overruns".to_string()) } else { Ok(()) };
    need(0, 4)?;
    let vl = r32l(b, 0) as usize;
    need(4, vl)?;
    let vendor = b[4..4 + vl].to_vec();
    let mut p = 4 + vl;
    need(p, 4)?;
    let n = r32l(b, p);
    p += 4;
    let mut v = Vec::new();
    for _ in 0..n {
        need(p, 4)?;
        let l = r32l(b, p) as usize;
        p += 4;
        need(p, l)?;
        let c = &b[p..p + l];
        match c.iter().position(|x| *x == b'=') {
            Some(i) if i > 0 && c[..i].iter().all(|x| (0x20..=0x7D).contains(x)) => {}
            _ => return Err(format!("malformed comment {:?}", String::from_utf8_lossy(&c[..c.len().min(40)]))),
        }
        if std::str::from_utf8(c).is_err() {
            return Err("comment not UTF-8".into());
        }
        v.push(c.to_vec());
        p += l;
    }
    Ok((vendor, v, p))
}
pub fn picture_block_ok(b: &[u8]) -> Result<(), String> {
    let g = |p: usize| if p + 4 > b.len() { Err("short picture block".to_string()) } else { Ok(r32b(b, p) as usize) };
    if g(0)? > 20 {
        return Err("picture type".into());
    }
    let m = g(4)?;
    let d = g(8 + m)?;
    let p = 12 + m + d;
    g(p + 12)?;
    let l = g(p + 16)?;
    if p + 20 + l != b.len() {
        return Err(format!("picture data length {l} inconsistent with block length {}", b.len()));
    }
    Ok(())
}
fn flac(b: &[u8], a: &mut Anat) {
    let mut s = 0;
    while let Some(n) = id3v2_len(&b[s..]) {
        if s + n > b.len() {
            a.e("ID3v2 overruns");
            return;
        }
        a.tags.push((T::Id3v2, b[s..s + n].to_vec()));
        s += n;
    }
    if b.len() < s + 4 || &b[s..s + 4] != b"fLaC" {
        a.e("no fLaC marker");
        a.f("junk", &b[s..]);
        return;
    }
    let mut p = s + 4;
    let mut first = true;
    let mut pics = Vec::new();
    let mut vc = Vec::new();
    loop {
        if p + 4 > b.len() {
            a.e("FLAC block chain runs off the file (no last-block flag)");
            return;
        }
        let last = b[p] & 0x80 != 0;
        let ty = b[p] & 0x7F;
        let l = (b[p + 1] as usize) << 16 | (b[p + 2] as usize) << 8 | b[p + 3] as usize;
        if p + 4 + l > b.len() {
            a.e(format!("FLAC block type {ty} overruns the file"));
            return;
        }
        let d = &b[p + 4..p + 4 + l];
        if first && ty != 0 {
            a.e("first block is not STREAMINFO");
        }
        if !first && ty == 0 {
            a.e("second STREAMINFO");
        }
        if ty == 127 {
            a.e("block type 127");
        }
        first = false;
        match ty {
            1 => {
                a.padding += l + 4;
                if d.iter().any(|x| *x != 0) {
                    a.e("non-zero padding block");
                }
            }
            4 => match vc_parse(d) {
                Ok((_, _, n)) => {
                    if n != d.len() {
                        a.e(format!("vorbis comment block has {} trailing bytes", d.len() - n));
                    }
                    vc.push(d.to_vec());
                }
                Err(x) => {
                    a.e(x);
                    vc.push(d.to_vec());
                }
            },
            6 => {
                if let Err(x) = picture_block_ok(d) {
                    a.e(x);
                }
                pics.extend_from_slice(&b[p..p + 4 + l]);
            }
            _ => a.f(format!("block{ty}"), d),
        }
        p += 4 + l;
        if last {
            break;
        }
    }
    if vc.len() > 1 {
        a.e("more than one VORBIS_COMMENT block");
    }
    for v in vc {
        a.tags.push((T::Vorbis, v));
    }
    if !pics.is_empty() && a.count(T::Vorbis) == 0 {
        a.tags.push((T::Vorbis, pics));
    }
    a.f("audio", &b[p..]);
}
fn iff_chunks(b: &[u8], be: bool, a: &mut Anat, magic: &[u8; 4], forms: &[&[u8; 4]]) -> Vec<([u8; 4], Vec<u8>)> {
    let mut v = Vec::new();
    if b.len() < 12 || &b[..4] != magic || !forms.iter().any(|f| &b[8..12] == *f) {
        a.e("bad container header");
        return v;
    }
    let g = |p: usize| if be { r32b(b, p) } else { r32l(b, p) } as usize;
    let total = g(4) + 8;
    let mut end = total;
    if total > b.len() {
        a.e(format!("container size {total} exceeds file {}", b.len()));
        end = b.len();
    }
    if total % 2 == 1 {
        a.e("odd container size");
    }
    let mut p = 12;
    while p < end {
        if p + 8 > end {
            a.e(format!("{} stray bytes at the end of the container", end - p));
            break;
        }
        let mut id = [0; 4];
        id.copy_from_slice(&b[p..p + 4]);
        if id.iter().any(|c| !(0x20..=0x7E).contains(c)) {
            a.e(format!("illegal chunk id {id:?} at {p}"));
        }
        let sz = g(p + 4);
        if p + 8 + sz > end {
            a.e(format!("chunk {} at {p} size {sz} overruns container end {end}", String::from_utf8_lossy(&id)));
            v.push((id, b[p + 8..end].to_vec()));
            p = end;
            break;
        }
        v.push((id, b[p + 8..p + 8 + sz].to_vec()));
        p += 8 + sz;
        if sz % 2 == 1 {
            if p >= end {
                a.e(format!("chunk {} lacks its pad byte", String::from_utf8_lossy(&id)));
            } else if b[p] != 0 {
                a.e("non-zero pad byte");
            }
            p += 1;
        }
    }
    if b.len() > total {
        a.f("after-container", &b[total..]);
    }
    v
}
fn id3chunk(d: &[u8], a: &mut Anat) {
    match id3v2_frames(d) {
        Ok((_, _, n)) if n == d.len() => {}
        Ok((_, _, n)) => {
            if d[n..].iter().any(|x| *x != 0) || d.len() - n > 1 {
                a.e(format!("ID3v2 chunk {} bytes but tag {n}", d.len()))
            }
        }
        Err(x) => a.e(format!("ID3v2 chunk: {x}")),
    }
    a.tags.push((T::Id3v2, d.to_vec()));
}
fn riff(b: &[u8], a: &mut Anat) {
    let ch = iff_chunks(b, false, a, b"RIFF", &[b"WAVE"]);
    let mut late = Vec::new();
    std::mem::swap(&mut late, &mut a.foreign);
    for (id, d) in ch {
        match &id {
            b"id3 " | b"ID3 " => id3chunk(&d, a),
            b"LIST" if d.starts_with(b"INFO") => {
                let mut p = 4;
                while p < d.len() {
                    if p + 8 > d.len() {
                        a.e("LIST INFO stray bytes");
                        break;
                    }
                    let sz = r32l(&d, p + 4) as usize;
                    if p + 8 + sz > d.len() {
                        a.e("LIST INFO item overruns");
                        break;
                    }
                    if !d[p..p + 4].iter().all(|c| (0x20..=0x7E).contains(c)) {
                        a.e("LIST INFO bad id");
                    }
                    p += 8 + sz;
                    if sz % 2 == 1 {
                        if p >= d.len() {
                            a.e("LIST INFO item lacks pad byte");
                        }
                        p += 1;
                    }
                }
                a.tags.push((T::RiffInfo, d));
            }
            b"JUNK" | b"junk" | b"FLLR" | b"PAD " => a.padding += d.len() + 8,
            _ => a.f(format!("chunk {}", String::from_utf8_lossy(&id)), &d),
        }
    }
    a.foreign.extend(late);
}
fn aiff(b: &[u8], a: &mut Anat) {
    let ch = iff_chunks(b, true, a, b"FORM", &[b"AIFF", b"AIFC"]);
    let mut late = Vec::new();
    std::mem::swap(&mut late, &mut a.foreign);
    let mut text = Vec::new();
    let mut n = [0; 3];
    for (id, d) in ch {
        match &id {
            b"ID3 " | b"id3 " => id3chunk(&d, a),
            b"NAME" | b"AUTH" | b"(c) " | b"ANNO" | b"COMT" => {
                match &id {
                    b"NAME" => n[0] += 1,
                    b"AUTH" => n[1] += 1,
                    b"(c) " => n[2] += 1,
                    _ => {}
                }
                text.extend(id);
                text.extend((d.len() as u32).to_be_bytes());
                text.extend(&d);
                if &id == b"COMT" {
                    let mut p = 2;
                    let cnt = if d.len() >= 2 { u16::from_be_bytes([d[0], d[1]]) } else { 0 };
                    for _ in 0..cnt {
                        if p + 8 > d.len() {
                            a.e("COMT truncated");
                            break;
                        }
                        let l = u16::from_be_bytes([d[p + 6], d[p + 7]]) as usize;
                        p += 8 + l + (l % 2);
                    }
                    if p > d.len() + 1 {
                        a.e("COMT overruns");
                    }
                }
            }
            b"JUNK" => a.padding += d.len() + 8,
            _ => a.f(format!("chunk {}", String::from_utf8_lossy(&id)), &d),
        }
    }
    if n.iter().any(|x| *x > 1) {
        a.e("duplicate NAME/AUTH/(c) chunk");
    }
    if !text.is_empty() {
        a.tags.push((T::AiffText, text));
    }
    a.foreign.extend(late);
}
#[derive(Clone, Debug)]
pub struct OggPage {
    pub flags: u8,
    pub granule: u64,
    pub serial: u32,
    pub seq: u32,
    pub lacing: Vec<u8>,
    pub body: Vec<u8>,
}
pub fn ogg_pages(b: &[u8], errs: &mut Vec<String>) -> (Vec<OggPage>, usize) {
    let mut p = 0;
    let mut v = Vec::new();
    while p + 27 <= b.len() && &b[p..p + 4] == b"OggS" {
        let n = b[p + 26] as usize;
        if p + 27 + n > b.len() {
            break;
        }
        let lac = b[p + 27..p + 27 + n].to_vec();
        let l: usize = lac.iter().map(|x| *x as usize).sum();
        let end = p + 27 + n + l;
        if end > b.len() {
            break;
        }
        let mut c = b[p..end].to_vec();
        let crc = r32l(&c, 22);
        c[22..26].fill(0);
        if crc_ogg(&c) != crc {
            errs.push(format!("page {} CRC mismatch", v.len()));
        }
        if b[p + 4] != 0 {
            errs.push("page version".into());
        }
        v.push(OggPage {
            flags: b[p + 5],
            granule: u64::from_le_bytes(b[p + 6..p + 14].try_into().unwrap()),
            serial: r32l(b, p + 14),
            seq: r32l(b, p + 18),
            lacing: lac,
            body: b[p + 27 + n..end].to_vec(),
        });
        p = end;
    }
    (v, p)
}
#[derive(Clone, Debug, PartialEq)]
pub struct OggPkt {
    pub serial: u32,
    pub data: Vec<u8>,
    pub first_page: usize,
    pub last_page: usize,
    pub granule: u64,
    pub starts_page: bool,
    pub last_on_page: bool,
    pub complete: bool,
}
pub fn ogg_packets(pages: &[OggPage], errs: &mut Vec<String>) -> Vec<OggPkt> {
    use std::collections::BTreeMap;
    let mut open: BTreeMap<u32, OggPkt> = BTreeMap::new();
    let mut out: Vec<OggPkt> = Vec::new();
    let mut seqs: BTreeMap<u32, u32> = BTreeMap::new();
    for (i, pg) in pages.iter().enumerate() {
        match seqs.get(&pg.serial) {
            None => {
                if pg.flags & 2 == 0 {
                    errs.push(format!("first page of stream {:x} lacks BOS", pg.serial));
                }
            }
            Some(s) => {
                if pg.flags & 2 != 0 {
                    errs.push(format!("BOS on page {i}"));
                }
                if pg.seq != s.wrapping_add(1) {
                    errs.push(format!("page {i} sequence {} after {}", pg.seq, s));
                }
            }
        }
        seqs.insert(pg.serial, pg.seq);
        let cont = pg.flags & 1 != 0;
        if cont != open.contains_key(&pg.serial) {
            errs.push(format!("page {i} continuation flag {} but packet open: {}", cont, !cont));
        }
        let mut pos = 0;
        let mut ended = 0;
        let nl = pg.lacing.len();
        for (j, l) in pg.lacing.iter().enumerate() {
            let first_seg = !open.contains_key(&pg.serial);
            let o = open.entry(pg.serial).or_insert(OggPkt {
                serial: pg.serial,
                data: vec![],
                first_page: i,
                last_page: i,
                granule: 0,
                starts_page: false,
                last_on_page: false,
                complete: false,
            });
            if first_seg && j == 0 {
                o.starts_page = true;
            }
            o.data.extend(&pg.body[pos..pos + *l as usize]);
            pos += *l as usize;
            if *l < 255 {
                let mut o = open.remove(&pg.serial).unwrap();
                o.last_page = i;
                o.granule = pg.granule;
                o.last_on_page = j + 1 == nl;
                o.complete = true;
                out.push(o);
                ended += 1;
            }
        }
        if ended == 0 && pg.granule != u64::MAX && nl > 0 {
            errs.push(format!("page {i} ends no packet but has granule {}", pg.granule));
        }
        if ended > 0 && pg.granule == u64::MAX {
            errs.push(format!("page {i} ends a packet but has granule -1"));
        }
    }
    for (_, o) in open {
        out.push(o);
    }
    out
}
fn ogg(f: Fmt, b: &[u8], a: &mut Anat) {
    let mut errs = Vec::new();
    let (pages, end) = ogg_pages(b, &mut errs);
    let pk = ogg_packets(&pages, &mut errs);
    a.errs.extend(errs);
    if pages.is_empty() {
        a.e("no pages");
        return;
    }
    let serial = pages[0].serial;
    let hdr = if f == Fmt::Vorbis { 3 } else { 2 };
    let mut idx = 0;
    if pages[0].seq != 0 {
        a.e("first page sequence not 0");
    }
    for p in &pk {
        if p.serial != serial {
            a.f(format!("other stream {:x} g{}", p.serial, p.granule), &p.data);
            continue;
        }
        match idx {
            0 => {
                if !(p.starts_page && p.last_on_page && p.last_page == 0) {
                    a.e("identification packet does not fill exactly the first page");
                }
                a.f("ident", &p.data)
            }
            1 => {
                if !p.starts_page {
                    a.e("comment packet does not start a page");
                }
                let sig: &[u8] = match f {
                    Fmt::Vorbis => b"\x03vorbis",
                    Fmt::Opus => b"OpusTags",
                    _ => b"",
                };
                if !p.data.starts_with(sig) {
                    a.e("comment packet signature");
                } else {
                    match vc_parse(&p.data[sig.len()..]) {
                        Ok((_, _, n)) => {
                            let rest = &p.data[sig.len() + n..];
                            if f == Fmt::Vorbis && (rest.is_empty() || rest[0] & 1 == 0) {
                                a.e("no framing bit");
                            }
                        }
                        Err(x) => a.e(x),
                    }
                }
                a.tags.push((T::Vorbis, p.data.clone()))
            }
            i if i < hdr => {
                if !p.last_on_page {
                    a.e("audio shares a page with the last header packet");
                }
                a.f("setup", &p.data)
            }
            i => a.f(format!("audio#{i} g{} complete={}", p.granule, p.complete), &p.data),
        }
        if idx < hdr && p.granule != 0 && p.granule != u64::MAX {
            a.e(format!("header page granule {}", p.granule));
        }
        idx += 1;
    }
    // end of stream flags are part of the stream
    for (i, p) in pages.iter().enumerate() {
        if p.flags & 4 != 0 {
            let from_end = pages.len() - i;
            a.f(format!("eos@-{from_end} serial {:x}", p.serial), &[]);
        }
    }
    if end < b.len() {
        a.f("after-pages", &b[end..]);
    }
}
const CONT: &[&[u8; 4]] = &[b"moov", b"trak", b"mdia", b"minf", b"stbl", b"udta", b"moof", b"traf", b"dinf", b"edts", b"mfra"];
fn mp4(b: &[u8], a: &mut Anat) {
    mp4_level(b, 0, b.len(), "", a);
}
fn mp4_level(b: &[u8], mut p: usize, end: usize, path: &str, a: &mut Anat) {
    while p < end {
        if p + 8 > end {
            // udta may end with a 32-bit zero terminator
            if path.ends_with("/udta") && end - p == 4 && b[p..end] == [0; 4] {
                a.f(format!("{path}/terminator"), &b[p..end]);
                return;
            }
            a.e(format!("{} stray bytes in '{path}'", end - p));
            a.f(format!("{path}/stray"), &b[p..end]);
            return;
        }
        let mut sz = r32b(b, p) as usize;
        let mut id = [0; 4];
        id.copy_from_slice(&b[p + 4..p + 8]);
        let mut h = 8;
        if sz == 1 {
            if p + 16 > end {
                a.e("truncated extended size");
                return;
            }
            sz = u64::from_be_bytes(b[p + 8..p + 16].try_into().unwrap()) as usize;
            h = 16;
        } else if sz == 0 {
            if !path.is_empty() {
                a.e("size 0 in nested atom");
            }
            sz = end - p;
        }
        if sz < h || sz > end - p {
            a.e(format!("atom '{path}/{}' size {sz} does not fit ({} left)", String::from_utf8_lossy(&id), end - p));
            a.f(format!("{path}/bad"), &b[p..end]);
            return;
        }
        let name = id.iter().map(|c| if (0x20..0x7F).contains(c) { (*c as char).to_string() } else { format!("\\x{c:02X}") }).collect::<String>();
        let np = format!("{path}/{name}");
        let (ds, de) = (p + h, p + sz);
        let d = &b[ds..de];
        if CONT.contains(&&id) {
            a.f(format!("{np} begin"), &[]);
            mp4_level(b, ds, de, &np, a);
            a.f(format!("{np} end"), &[]);
        } else if &id == b"meta" && path == "/moov/udta" {
            let full = !(d.len() >= 8 && matches!(&d[4..8], b"hdlr" | b"ilst" | b"free" | b"mhdr" | b"ctry" | b"lang"));
            if full && d.len() < 4 {
                a.e("short meta");
            } else {
                a.f(format!("{np} begin full={full}"), if full { &d[..4] } else { &[] });
                mp4_level(b, ds + if full { 4 } else { 0 }, de, &np, a);
                a.f(format!("{np} end"), &[]);
            }
        } else if &id == b"ilst" && path == "/moov/udta/meta" {
            ilst_check(d, a);
            a.tags.push((T::Ilst, d.to_vec()));
        } else if (&id == b"free" || &id == b"skip") && path == "/moov/udta/meta" {
            a.padding += sz;
        } else if &id == b"stco" || &id == b"co64" {
            let w = if &id == b"stco" { 4 } else { 8 };
            if d.len() < 8 || d.len() != 8 + r32b(d, 4) as usize * w {
                a.e(format!("{np} size"));
            } else {
                let n = r32b(d, 4) as usize;
                let mut res = Vec::new();
                for i in 0..n {
                    let o = if w == 4 { r32b(d, 8 + 4 * i) as u64 } else { u64::from_be_bytes(d[8 + 8 * i..16 + 8 * i].try_into().unwrap()) };
                    if o as usize + 16 > b.len() {
                        a.e(format!("{np} offset {o} outside the file"));
                    } else {
                        res.extend(&b[o as usize..o as usize + 16]);
                    }
                }
                a.f(format!("{np} -> "), &res);
            }
        } else if &id == b"tfra" && d.len() >= 16 {
            let (v1, lens, n) = (d[0] == 1, r32b(d, 8), r32b(d, 12) as usize);
            let tail = 3 + ((lens >> 4 & 3) + (lens >> 2 & 3) + (lens & 3)) as usize;
            let w = if v1 { 8 } else { 4 };
            if d.len() != 16 + n * (2 * w + tail) {
                a.e(format!("{np} size"));
            } else {
                let mut res = d[..16].to_vec();
                for e in d[16..].chunks(2 * w + tail) {
                    let o = e[w..2 * w].iter().fold(0u64, |o, b| o << 8 | u64::from(*b)) as usize;
                    res.extend(&e[..w]);
                    res.extend(&e[2 * w..]);
                    match b.get(o..o + 16) {
                        Some(x) => res.extend(x),
                        None => a.e(format!("{np} offset {o} outside the file")),
                    }
                }
                a.f(format!("{np} -> "), &res);
            }
        } else if &id == b"tfhd" {
            if d.len() >= 16 && d[3] & 1 != 0 {
                let o = u64::from_be_bytes(d[8..16].try_into().unwrap()) as usize;
                let mut res = d[..8].to_vec();
                if o + 16 > b.len() {
                    a.e(format!("{np} base offset {o} outside the file"));
                } else {
                    res.extend(&b[o..o + 16]);
                }
                res.extend(&d[16..]);
                a.f(format!("{np} -> "), &res);
            } else {
                a.f(np, d);
            }
        } else {
            a.f(np, d);
        }
        p += sz;
    }
}
fn ilst_check(d: &[u8], a: &mut Anat) {
    let mut p = 0;
    while p < d.len() {
        if p + 8 > d.len() {
            a.e("ilst stray bytes");
            return;
        }
        let sz = r32b(d, p) as usize;
        if sz < 8 || p + sz > d.len() {
            a.e("ilst item size");
            return;
        }
        let id = &d[p + 4..p + 8];
        if id != b"free" && id != b"skip" {
            let mut q = p + 8;
            let mut nth = 0;
            while q < p + sz {
                if q + 8 > p + sz {
                    a.e("ilst item stray bytes");
                    return;
                }
                let s = r32b(d, q) as usize;
                if s < 8 || q + s > p + sz {
                    a.e("ilst data atom size");
                    return;
                }
                let want: &[&[u8]] = match (id, nth) {
                    (b"----", 0) => &[b"mean"],
                    (b"----", 1) => &[b"name"],
                    _ => &[b"data"],
                };
                if !want.iter().any(|w| *w == &d[q + 4..q + 8]) {
                    a.e(format!("ilst item {:?} has unexpected child {:?}", String::from_utf8_lossy(id), String::from_utf8_lossy(&d[q + 4..q + 8])));
                }
                if &d[q + 4..q + 8] == b"data" && s < 16 {
                    a.e("data atom too short");
                }
                nth += 1;
                q += s;
            }
            if nth == 0 {
                a.e("ilst item without data");
            }
        }
        p += sz;
    }
}

/// Compares everything that is not a tag or padding. Returns a description of the first difference.
pub fn same_foreign(f: Fmt, before: &Anat, after: &Anat) -> Result<(), String> {
    let (b, a) = (norm_foreign(f, before), norm_foreign(f, after));
    if b == a {
        return Ok(());
    }
    for i in 0..b.len().max(a.len()) {
        match (b.get(i), a.get(i)) {
            (Some(x), Some(y)) if x == y => {}
            (x, y) => {
                let d = |z: Option<&(String, Vec<u8>)>| z.map(|(n, v)| format!("{n}[{} bytes]", v.len())).unwrap_or("(nothing)".into());
                return Err(format!("item {i}: before {} / after {}", d(x), d(y)));
            }
        }
    }
    unreachable!()
}
fn norm_foreign(f: Fmt, x: &Anat) -> Vec<(String, Vec<u8>)> {
    let mut v = x.foreign.clone();
    if f == Fmt::Mp4 {
        // empty scaffolding the editor may create around an ilst: udta { meta { hdlr(mdir) } }
        let hd = crate::mk::hdlr_mdir();
        loop {
            let mut hit = None;
            for i in 0..v.len() {
                if v[i].0 == "/moov/udta/meta/hdlr" && v[i].1 == hd[8..] {
                    hit = Some((i, 1));
                    break;
                }
                if i + 1 < v.len() && v[i].0.starts_with("/moov/udta/meta begin") && v[i + 1].0 == "/moov/udta/meta end" {
                    hit = Some((i, 2));
                    break;
                }
                if i + 1 < v.len() && v[i].0 == "/moov/udta begin" && v[i + 1].0 == "/moov/udta end" {
                    hit = Some((i, 2));
                    break;
                }
            }
            match hit {
                Some((i, n)) => {
                    v.drain(i..i + n);
                }
                None => break,
            }
        }
    }
    v
}
