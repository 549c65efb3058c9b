//! C15: audio properties. Streams are generated from every combination of the header fields and the reported properties are compared
//! with an independent computation from the format's specification; tags around the same audio must not change them.
use crate::api::*;
use crate::ctx::*;
use crate::mk::*;
use crate::walk::Fmt;
use lofty::config::ParseOptions;
use lofty::file::{AudioFile, TaggedFileExt};
use lofty::properties::FileProperties;
use serde_json::json;
use std::io::Cursor;

#[derive(Clone, Copy, PartialEq)]
enum Br {
    Skip,
    /// kbit/s as stored in a header; both roundings of a fraction are accepted
    Kbps(f64),
    /// derived from this many bytes over the duration
    Bytes(u64),
}
#[derive(Clone)]
struct Exp {
    dur: Option<f64>, // milliseconds
    tol: f64,
    rate: Option<u32>,
    ch: Option<u8>,
    depth: Option<Option<u8>>,
    mask: Option<Option<u32>>,
    audio: Br,
    overall: Br,
}
impl Exp {
    fn new(rate: u32, ch: u8, dur: f64) -> Exp {
        Exp { dur: Some(dur), tol: 1.0, rate: Some(rate), ch: Some(ch), depth: None, mask: None, audio: Br::Skip, overall: Br::Skip }
    }
}
type Row = (&'static str, String, String);
fn row<T: std::fmt::Debug>(n: &'static str, got: T, want: T) -> Row {
    (n, format!("{got:?}"), format!("{want:?}"))
}
fn br(name: &'static str, got: Option<u32>, want: Br, dur: Option<f64>) -> Option<Row> {
    let (lo, hi) = match want {
        Br::Skip => return None,
        Br::Kbps(x) => (x.floor(), x.ceil()),
        Br::Bytes(b) => {
            let d = dur?;
            if d < 3.0 {
                return None;
            }
            let n = b as f64 * 8.0;
            ((n / (d + 1.0)).floor(), (n / (d - 1.0)).ceil())
        }
    };
    let g = f64::from(got.unwrap_or(u32::MAX));
    (g < lo || g > hi).then(|| (name, format!("{got:?}"), format!("{lo}..={hi}")))
}
fn compare(p: &FileProperties, e: &Exp) -> Vec<Row> {
    let mut v = Vec::new();
    if let Some(d) = e.dur {
        let g = p.duration().as_secs_f64() * 1000.0;
        if (g - d).abs() > e.tol + 1e-6 {
            v.push(("duration", format!("{g} ms"), format!("{d} ms")));
        }
    }
    if let Some(r) = e.rate {
        v.push(row("sample rate", p.sample_rate(), Some(r)));
    }
    if let Some(c) = e.ch {
        v.push(row("channels", p.channels(), Some(c)));
    }
    if let Some(d) = e.depth {
        v.push(row("bit depth", p.bit_depth(), d));
    }
    if let Some(m) = e.mask {
        v.push(row("channel mask", p.channel_mask().map(|m| m.bits()), m));
    }
    v.extend(br("audio bitrate", p.audio_bitrate(), e.audio, e.dur));
    v.extend(br("overall bitrate", p.overall_bitrate(), e.overall, e.dur));
    v.retain(|r| r.1 != r.2);
    v
}
fn judge(cx: &Ctx, fam: &str, f: Fmt, desc: &str, b: &[u8], e: &Exp, typed: impl FnOnce(&mut Cursor<&[u8]>) -> Result<Vec<Row>, String>) {
    if cx.skip(fam) || cx.too_many() {
        return;
    }
    cx.case(desc, b);
    cx.eval(&h64(b));
    let r = guard(|| -> Result<(Vec<Row>, u64), String> {
        let t = read_tagged(f, b, ParseOptions::new())?;
        let mut v = compare(t.properties(), e);
        v.extend(typed(&mut Cursor::new(b))?.into_iter().filter(|r| r.1 != r.2));
        Ok((v, h64(&format!("{:?}", t.properties()))))
    });
    match r {
        Err(p) => cx.violation(format!("{fam}|panic|{}", p.split(" at ").last().unwrap_or("")), format!("{desc}: panic: {p}"), vec![("file", b)]),
        Ok(Err(er)) => cx.violation(format!("{fam}|rejected"), format!("{desc}: a valid stream is rejected: {er}"), vec![("file", b)]),
        Ok(Ok((v, h))) => {
            cx.outcome(&h);
            if let Some(r) = v.first() {
                cx.violation(
                    format!("{fam}|{}", r.0),
                    format!("{desc}: {}", v.iter().map(|r| format!("{} is {} but the header says {}", r.0, r.1, r.2)).collect::<Vec<_>>().join("; ")),
                    vec![("file", b)],
                );
            }
        }
    }
    cx.case_done();
}
const FL: u32 = 1;
const FR: u32 = 2;
const FC: u32 = 4;
const LFE: u32 = 8;
const BL: u32 = 0x10;
const BRT: u32 = 0x20;
const FLC: u32 = 0x40;
const FRC: u32 = 0x80;
const BC: u32 = 0x100;
const SL: u32 = 0x200;
const SR: u32 = 0x400;

// --- MPEG ---------------------------------------------------------------------------------------------------------------------------
const MP_BR: [[[u32; 14]; 3]; 2] = [
    [
        [32, 64, 96, 128, 160, 192, 224, 256, 288, 320, 352, 384, 416, 448],
        [32, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320, 384],
        [32, 40, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320],
    ],
    [
        [32, 48, 56, 64, 80, 96, 112, 128, 144, 160, 176, 192, 224, 256],
        [8, 16, 24, 32, 40, 48, 56, 64, 80, 96, 112, 128, 144, 160],
        [8, 16, 24, 32, 40, 48, 56, 64, 80, 96, 112, 128, 144, 160],
    ],
];
#[derive(Clone, Copy, Debug)]
struct Mp {
    v: usize, // 0: 1, 1: 2, 2: 2.5
    l: usize, // 1..=3
    b: usize, // 1..=14
    s: usize, // 0..=2
    pad: bool,
    mode: u8,
    ext: u8,
    copy: bool,
    orig: bool,
    emph: u8,
    crc: bool,
}
const MP0: Mp = Mp { v: 0, l: 3, b: 9, s: 0, pad: false, mode: 0, ext: 0, copy: false, orig: false, emph: 0, crc: false };
impl Mp {
    fn rate(&self) -> u32 {
        [[44100, 48000, 32000], [22050, 24000, 16000], [11025, 12000, 8000]][self.v][self.s]
    }
    fn kbps(&self) -> u32 {
        MP_BR[usize::from(self.v > 0)][self.l - 1][self.b - 1]
    }
    fn samples(&self) -> u32 {
        match (self.l, self.v) {
            (1, _) => 384,
            (2, _) | (3, 0) => 1152,
            _ => 576,
        }
    }
    fn len(&self) -> usize {
        let (br, sr, p) = (self.kbps() * 1000, self.rate(), u32::from(self.pad));
        (match (self.l, self.v) {
            (1, _) => (12 * br / sr + p) * 4,
            (2, _) | (3, 0) => 144 * br / sr + p,
            _ => 72 * br / sr + p,
        }) as usize
    }
    fn head(&self) -> [u8; 4] {
        let v = [3u32, 2, 0][self.v];
        let l = [0u32, 3, 2, 1][self.l];
        let h = 0x7FFu32 << 21
            | v << 19
            | l << 17
            | u32::from(!self.crc) << 16
            | (self.b as u32) << 12
            | (self.s as u32) << 10
            | u32::from(self.pad) << 9
            | u32::from(self.mode) << 6
            | u32::from(self.ext) << 4
            | u32::from(self.copy) << 3
            | u32::from(self.orig) << 2
            | u32::from(self.emph);
        h.to_be_bytes()
    }
    fn frame(&self) -> Vec<u8> {
        let mut o = self.head().to_vec();
        o.resize(self.len(), 0);
        o
    }
    fn side(&self) -> usize {
        match (self.v, self.mode) {
            (0, 3) => 17,
            (0, _) => 32,
            (_, 3) => 9,
            _ => 17,
        }
    }
}
fn mp_exp(m: &Mp, stream: u64, file: u64) -> Exp {
    let mut e = Exp::new(m.rate(), if m.mode == 3 { 1 } else { 2 }, stream as f64 * 8.0 / f64::from(m.kbps()));
    e.depth = Some(None);
    e.mask = Some(match m.mode {
        0 | 1 => Some(FL | FR),
        2 => None,
        _ => Some(FC),
    });
    e.audio = Br::Kbps(f64::from(m.kbps()));
    e.overall = Br::Bytes(file);
    e
}
fn mp_typed(m: Mp) -> impl FnOnce(&mut Cursor<&[u8]>) -> Result<Vec<Row>, String> {
    move |r| {
        use lofty::mpeg::{ChannelMode, Emphasis, Layer, MpegFile, MpegVersion};
        let f = MpegFile::read_from(r, ParseOptions::new()).map_err(er)?;
        let p = f.properties();
        Ok(vec![
            row("version", *p.version(), [MpegVersion::V1, MpegVersion::V2, MpegVersion::V2_5][m.v]),
            row("layer", *p.layer(), [Layer::Layer1, Layer::Layer2, Layer::Layer3][m.l - 1]),
            row("channel mode", *p.channel_mode(), [ChannelMode::Stereo, ChannelMode::JointStereo, ChannelMode::DualChannel, ChannelMode::SingleChannel][m.mode as usize]),
            row("mode extension", p.mode_extension(), (m.mode == 1).then_some(m.ext)),
            row("copyright", p.is_copyright(), m.copy),
            row("original", p.is_original(), m.orig),
            row("emphasis", p.emphasis(), [None, Some(Emphasis::MS5015), Some(Emphasis::Reserved), Some(Emphasis::CCIT_J17)][m.emph as usize]),
            row("typed channels", p.channels(), if m.mode == 3 { 1 } else { 2 }),
            row("typed rate", p.sample_rate(), m.rate()),
        ])
    }
}
fn mpeg(cx: &Ctx) {
    let mut hs = Vec::new();
    for v in 0..3 {
        for l in 1..=3 {
            for b in 1..=14 {
                for s in 0..3 {
                    for pad in [false, true] {
                        for mode in 0..4 {
                            hs.push(Mp { v, l, b, s, pad, mode, ..MP0 });
                        }
                    }
                }
            }
            for f in 0..128u8 {
                for mode in 0..4 {
                    hs.push(Mp { v, l, mode, ext: f & 3, copy: f & 4 > 0, orig: f & 8 > 0, emph: f >> 4 & 3, crc: f & 64 > 0, ..MP0 });
                }
            }
        }
    }
    cx.par(&hs, |m| {
        for n in [2usize, 3, 12] {
            let b = m.frame().repeat(n);
            judge(cx, "mpeg", Fmt::Mpeg, &format!("{n} frames of {m:?}"), &b, &mp_exp(m, b.len() as u64, b.len() as u64), mp_typed(*m));
        }
    });
    // the padding bit of the last frame, the last frame cut short, and zeros or text behind it: the stream ends where the header says
    let mut cuts = Vec::new();
    for m in [MP0, Mp { b: 14, ..MP0 }, Mp { v: 2, s: 2, l: 2, b: 14, ..MP0 }, Mp { l: 1, b: 14, ..MP0 }, Mp { v: 1, s: 2, b: 3, ..MP0 }] {
        for cut in 0..=m.len() - 4 {
            cuts.push((m, cut, 0));
        }
        for tail in 1..cx.q(1200usize, 5000) {
            cuts.push((m, 0, tail));
        }
    }
    cx.par(&cuts, |(m, cut, tail)| {
        let n = 4;
        let mut b = m.frame().repeat(n);
        let stream = b.len();
        b.truncate(stream - cut);
        b.resize(b.len() + tail, 0);
        judge(cx, "mpeg-cut", Fmt::Mpeg, &format!("{n} frames of {m:?}, the last {cut} bytes missing, {tail} zeros behind them"), &b, &mp_exp(m, stream as u64, b.len() as u64), mp_typed(*m));
    });
    // what is around the stream has no part in its length
    let mut around = Vec::new();
    for v in 0..3 {
        for l in 1..=3 {
            for (b, s, mode) in [(1, 0, 0), (9, 1, 1), (14, 2, 3), (5, 0, 2)] {
                for pre in 0..7 {
                    for post in 0..7 {
                        for vbr in [false, true] {
                            around.push((Mp { v, l, b, s, mode, ..MP0 }, pre, post, vbr));
                        }
                    }
                }
            }
        }
    }
    cx.par(&around, |(m, pre, post, vbr)| {
        let mut b = match pre {
            0 => vec![],
            1 => id3v2_simple("Title", 0),
            2 => id3v2_simple("Title", 5000),
            3 => vec![0; 300],
            4 => [id3v2_simple("A", 3), id3v2_simple("B", 0)].concat(),
            5 => ape_tag("Lead"),
            _ => [id3v2_simple("A", 3), b"some junk before the stream".to_vec()].concat(),
        };
        let mut first = m.frame();
        let xing = *vbr && m.l == 3 && m.len() > 4 + m.side() + 16;
        if xing {
            let at = 4 + m.side();
            first[at..at + 8].copy_from_slice(b"Xing\0\0\0\x03");
            first[at + 8..at + 12].copy_from_slice(&be32(5000));
            first[at + 12..at + 16].copy_from_slice(&be32(2_000_000));
        }
        b.extend(first);
        b.extend(m.frame().repeat(9));
        match post {
            0 => {}
            1 => b.extend(id3v1("t", "a", 1)),
            2 => b.extend(ape_tag("t")),
            3 => b.extend([ape_tag("t"), id3v1("t", "a", 1)].concat()),
            4 => b.extend([lyrics3v2("la la la"), id3v1("t", "a", 1)].concat()),
            5 => b.extend([ape_tag(&"t".repeat(3000)), lyrics3v2("la la la"), id3v1("t", "a", 1)].concat()),
            _ => b.extend([0; 4000]),
        }
        let mut e = mp_exp(m, m.len() as u64 * 10, b.len() as u64);
        if xing {
            e.dur = Some(5000.0 * f64::from(m.samples()) * 1000.0 / f64::from(m.rate()));
            e.audio = Br::Bytes(2_000_000);
        }
        judge(cx, "mpeg-around", Fmt::Mpeg, &format!("10 frames of {m:?} (Xing: {xing}), prefix {pre}, suffix {post}"), &b, &e, mp_typed(*m));
    });
    // VBR headers
    let mut vs = Vec::new();
    for v in 0..3 {
        for s in 0..3 {
            for mode in 0..4 {
                for kind in ["Xing", "Info", "VBRI"] {
                    for frames in [1u32, 2, 100, 65535, 65536, 0xFF_FFFF, 0xFFFF_FFFF] {
                        for size in [1u32, 5000, 1_000_000, 0x1234_5678, 0xFFFF_FFFF] {
                            vs.push((Mp { v, s, mode, b: 12, ..MP0 }, kind, frames, size, 3u8));
                        }
                    }
                }
            }
        }
    }
    for fl in [7u8, 11, 15, 0xFF] {
        for kind in ["Xing", "Info"] {
            vs.push((MP0, kind, 1000, 417_000, fl));
        }
    }
    cx.par(&vs, |(m, kind, frames, size, flags)| {
        let mut first = m.frame();
        let at = if *kind == "VBRI" { 36 } else { 4 + m.side() };
        let mut x = kind.as_bytes().to_vec();
        if *kind == "VBRI" {
            x.extend([0, 1, 1, 2, 0, 100]);
            x.extend(be32(*size));
            x.extend(be32(*frames));
            x.extend([0, 1, 0, 1, 0, 1, 0, 1]);
        } else {
            x.extend([0, 0, 0, *flags]);
            x.extend(be32(*frames));
            x.extend(be32(*size));
        }
        first[at..at + x.len()].copy_from_slice(&x);
        let mut b = first;
        b.extend(m.frame().repeat(2));
        let mut e = mp_exp(m, 1, b.len() as u64);
        e.dur = Some(f64::from(*frames) * f64::from(m.samples()) * 1000.0 / f64::from(m.rate()));
        e.audio = Br::Bytes(u64::from(*size));
        judge(cx, &format!("mpeg-{}", kind.to_lowercase()), Fmt::Mpeg, &format!("{kind} header ({frames} frames, {size} bytes, flags {flags}) in {m:?}"), &b, &e, mp_typed(*m));
    });
}

// --- AAC ----------------------------------------------------------------------------------------------------------------------------
const AAC_RATES: [u32; 13] = [96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350];
/// ISO/IEC 14496-3, table 1.19
fn mp4_layout(cfg: u8) -> (u8, Option<u32>) {
    match cfg {
        1 => (1, Some(FC)),
        2 => (2, Some(FL | FR)),
        3 => (3, Some(FC | FL | FR)),
        4 => (4, Some(FC | FL | FR | BC)),
        5 => (5, Some(FC | FL | FR | BL | BRT)),
        6 => (6, Some(FC | FL | FR | BL | BRT | LFE)),
        7 => (8, Some(FC | FL | FR | FLC | FRC | BL | BRT | LFE)),
        11 => (7, None),
        12 | 14 => (8, None),
        _ => (0, None),
    }
}
fn aac(cx: &Ctx) {
    let mut v = Vec::new();
    for mpeg2 in [false, true] {
        for prof in 0..4u8 {
            for sf in 0..13u8 {
                for ch in 0..8u8 {
                    for fl in 0..4u8 {
                        v.push((mpeg2, prof, sf, ch, fl, 371usize, 6usize));
                    }
                }
            }
        }
    }
    for len in [200usize, 371, 1024, 2000, 8191] {
        for n in [2usize, 3, 10, 40] {
            for sf in 0..13 {
                v.push((false, 1, sf, 2, 0, len, n));
            }
        }
    }
    cx.par(&v, |&(mpeg2, prof, sf, ch, fl, len, n)| {
        let (crc, orig) = (fl & 1 > 0, fl & 2 > 0);
        let mut f = vec![
            0xFF,
            0xF0 | u8::from(mpeg2) << 3 | u8::from(!crc),
            prof << 6 | sf << 2 | ch >> 2,
            (ch & 3) << 6 | u8::from(orig) << 5 | (len >> 11) as u8,
            (len >> 3) as u8,
            ((len & 7) << 5) as u8 | 0x1F,
            0xFC,
        ];
        f.resize(len, 0);
        let b = f.repeat(n);
        let rate = AAC_RATES[sf as usize];
        let (chs, mask) = mp4_layout(ch);
        let exact = n as f64 * 1024.0 * 1000.0 / f64::from(rate);
        let mut e = Exp::new(rate, chs, exact);
        // no ADTS header stores a bitrate or the number of frames: both are documented estimates
        let kbps = len as f64 * f64::from(rate) * 8.0 / 1024.0 / 1000.0;
        if kbps < 32.0 {
            e.dur = None;
        } else {
            e.tol = exact * 0.1 + 1.0;
        }
        // configuration 7: the tables in use disagree on two of the positions
        e.mask = (ch != 7).then_some(mask);
        e.depth = Some(None);
        judge(cx, "aac", Fmt::Aac, &format!("{n} ADTS frames of {len} bytes, MPEG-2 {mpeg2}, profile {prof}, rate {sf}, channels {ch}, crc {crc}"), &b, &e, |r| {
            use lofty::mp4::AudioObjectType as A;
            let f = lofty::aac::AacFile::read_from(r, ParseOptions::new()).map_err(er)?;
            let p = f.properties();
            Ok(vec![
                row("version", p.version(), if mpeg2 { lofty::mpeg::MpegVersion::V2 } else { lofty::mpeg::MpegVersion::V4 }),
                row("object type", p.audio_object_type(), [A::AacMain, A::AacLowComplexity, A::AacScalableSampleRate, A::AacLongTermPrediction][prof as usize]),
                row("original", p.original(), orig),
                row("typed channels", p.channels(), chs),
                row("typed rate", p.sample_rate(), rate),
                row("audio bitrate near", (f64::from(p.audio_bitrate()) - kbps).abs() <= kbps * 0.05 + 2.0, true),
            ])
        });
    });
}

// --- FLAC ---------------------------------------------------------------------------------------------------------------------------
fn flac_info(rate: u32, ch: u8, bps: u8, total: u64, md5: u128) -> Vec<u8> {
    let mut o = vec![0x10, 0, 0x10, 0, 0, 0, 14, 0, 0x20, 0];
    let x = u64::from(rate) << 44 | u64::from(ch - 1) << 41 | u64::from(bps - 1) << 36 | total;
    o.extend(x.to_be_bytes());
    o.extend(md5.to_be_bytes());
    o
}
fn flac(cx: &Ctx) {
    let mut v = Vec::new();
    let rates: Vec<u32> = (0..20).map(|k| 1 << k).chain([8000, 11025, 22050, 44100, 48000, 88200, 96000, 192_000, 655_350, 0xF_FFFF]).collect();
    let totals: Vec<u64> = (0..36).map(|k| 1u64 << k).chain([44100, 441_000, 0xFFFF_FFFF, 0xF_FFFF_FFFF]).collect();
    for &rate in &rates {
        for &total in &totals {
            v.push((rate, 2u8, 16u8, total));
        }
    }
    for ch in 1..=8 {
        for bps in 4..=32 {
            for total in [0, 441_000] {
                v.push((44100, ch, bps, total));
            }
        }
    }
    cx.par(&v, |&(rate, ch, bps, total)| {
        for audio in [0usize, 20_000] {
            let md5 = (u128::from(rate) << 90) ^ (u128::from(total) << 40) ^ 0xA5;
            let mut b = b"fLaC".to_vec();
            b.extend(flac_block(true, 0, &flac_info(rate, ch, bps, total, md5)));
            b.extend(pat(audio, 3));
            let mut e = Exp::new(rate, ch, total as f64 * 1000.0 / f64::from(rate));
            e.depth = Some(Some(bps));
            if audio > 0 && total > 0 {
                e.audio = Br::Bytes(audio as u64);
                e.overall = Br::Bytes(b.len() as u64);
            }
            judge(cx, "flac", Fmt::Flac, &format!("STREAMINFO {rate} Hz, {ch} channels, {bps} bits, {total} samples, {audio} bytes of audio"), &b, &e, |r| {
                let f = lofty::flac::FlacFile::read_from(r, ParseOptions::new()).map_err(er)?;
                let p = f.properties();
                Ok(vec![row("signature", p.signature(), md5), row("typed depth", p.bit_depth(), bps), row("typed channels", p.channels(), ch)])
            });
        }
    });
}

// --- WAV, AIFF ----------------------------------------------------------------------------------------------------------------------
fn wav(cx: &Ctx) {
    use lofty::iff::wav::{WavFile, WavFormat};
    #[derive(Debug, Clone)]
    struct W {
        tag: u16,
        sub: Option<u16>,
        ch: u16,
        rate: u32,
        bits: u16,
        valid: u16,
        mask: u32,
        data: usize,
        fact: Option<u32>,
        byte_rate: Option<u32>,
    }
    let base = W { tag: 1, sub: None, ch: 2, rate: 44100, bits: 16, valid: 16, mask: 3, data: 8000, fact: None, byte_rate: None };
    let mut v = Vec::new();
    for (tag, sub) in [(1u16, None), (3, None), (0xFFFE, Some(1u16)), (0xFFFE, Some(3))] {
        for ch in [1u16, 2, 3, 4, 5, 6, 7, 8, 16, 255] {
            for rate in [1u32, 8000, 22050, 44100, 48000, 96000, 192_000, 0xFFFF_FFFF] {
                for bits in [8u16, 16, 24, 32, 64] {
                    for data in [1usize, 2 * 255 * 8, 4 * 255 * 8 + 1] {
                        v.push(W { tag, sub, ch, rate, bits, valid: bits, data, ..base.clone() });
                    }
                }
            }
        }
    }
    for k in 0..32 {
        for sub in [1, 3] {
            v.push(W { tag: 0xFFFE, sub: Some(sub), mask: 1 << k, ..base.clone() });
        }
    }
    for bits in [8u16, 16, 24, 32] {
        for valid in 0..=bits {
            v.push(W { tag: 0xFFFE, sub: Some(1), bits, valid, ..base.clone() });
        }
    }
    // a fact chunk of a PCM stream does not matter, that of a compressed one gives the length
    for tag in [1u16, 2, 6, 7, 0x11, 0x31, 0x50, 0x55, 0x0161, 0xFFFF] {
        for fact in [1u32, 1000, 44100, 1_000_000, 0xFFFF_FFFF] {
            for bits in [0u16, 8] {
                for byte_rate in [None, Some(16000), Some(4055), Some(0)] {
                    v.push(W { tag, fact: Some(fact), bits: if tag == 1 { 16 } else { bits }, byte_rate, ..base.clone() });
                }
            }
        }
    }
    cx.par(&v, |w| {
        let block = w.ch.wrapping_mul(w.bits / 8);
        let real_byte_rate = u64::from(w.rate) * u64::from(w.ch) * u64::from(w.bits / 8);
        let byte_rate = w.byte_rate.unwrap_or(real_byte_rate.min(u64::from(u32::MAX)) as u32);
        let mut d = w.tag.to_le_bytes().to_vec();
        d.extend(w.ch.to_le_bytes());
        d.extend(le32(w.rate));
        d.extend(le32(byte_rate));
        d.extend(block.to_le_bytes());
        d.extend(w.bits.to_le_bytes());
        if let Some(s) = w.sub {
            d.extend(22u16.to_le_bytes());
            d.extend(w.valid.to_le_bytes());
            d.extend(le32(w.mask));
            d.extend(s.to_le_bytes());
            d.extend([0, 0, 0, 0, 0x10, 0, 0x80, 0, 0, 0xAA, 0, 0x38, 0x9B, 0x71]);
        }
        let mut ch = vec![chunk_le(b"fmt ", &d)];
        if let Some(f) = w.fact {
            ch.push(chunk_le(b"fact", &le32(f)));
        }
        ch.push(chunk_le(b"data", &pat(w.data, 2)));
        let b = riff(&ch);
        let fmt = w.sub.unwrap_or(w.tag);
        let pcm = fmt == 1 || fmt == 3;
        let samples = if pcm { w.data as f64 / f64::from(w.ch) / f64::from(w.bits / 8) } else { f64::from(w.fact.unwrap()) };
        let samples = samples.floor();
        let mut e = Exp::new(w.rate, w.ch as u8, samples * 1000.0 / f64::from(w.rate));
        if samples == 0.0 {
            // less than one sample
            e.dur = None;
        }
        let bits = if w.sub.is_some() && w.valid > 0 { w.valid } else { w.bits };
        e.depth = Some(Some(bits as u8));
        e.mask = Some(w.sub.map(|_| w.mask));
        e.overall = Br::Bytes(b.len() as u64);
        if byte_rate > 0 && real_byte_rate <= u64::from(u32::MAX) {
            e.audio = Br::Kbps(f64::from(byte_rate) * 8.0 / 1000.0);
        } else if byte_rate == 0 {
            e.audio = Br::Bytes(w.data as u64);
        }
        judge(cx, "wav", Fmt::Wav, &format!("{w:?}"), &b, &e, |r| {
            let f = WavFile::read_from(r, ParseOptions::new()).map_err(er)?;
            let p = f.properties();
            let want = match fmt {
                1 => WavFormat::PCM,
                3 => WavFormat::IEEE_FLOAT,
                x => WavFormat::Other(x),
            };
            Ok(vec![row("format", format!("{:?}", p.format()), format!("{want:?}")), row("typed rate", p.sample_rate(), w.rate), row("typed channels", u16::from(p.channels()), w.ch)])
        });
    });
}
/// an 80 bit extended number with the given 64 bit mantissa (top bit set) and unbiased exponent
fn ext80(int: u64, half_bits: u32) -> [u8; 10] {
    // value = int / 2^half_bits
    let mut o = [0; 10];
    if int == 0 {
        return o;
    }
    let lz = int.leading_zeros();
    let exp = 16383 + 63 - lz - half_bits;
    o[..2].copy_from_slice(&(exp as u16).to_be_bytes());
    o[2..].copy_from_slice(&(int << lz).to_be_bytes());
    o
}
fn aiff(cx: &Ctx) {
    use lofty::iff::aiff::{AiffCompressionType as C, AiffFile};
    let mut v = Vec::new();
    let rates: Vec<(u64, u32)> =
        (0..31).map(|k| (1u64 << k, 0)).chain([8000, 11025, 22050, 44100, 48000, 96000, 192_000, 0x7FFF_FFFF].map(|x| (x, 0))).chain([(22254 * 256 + 139, 8), (44100 * 4 + 1, 2), (44100 * 4 + 3, 2), (11127 * 65536 + 17873, 16)]).collect();
    for r in &rates {
        for n in [0u32, 1, 1000, 44100, 0xFFFF_FFFF] {
            v.push((*r, 2u16, 16u16, n, 0usize));
        }
    }
    for ch in [1u16, 2, 3, 4, 6, 255] {
        for bits in 1..=32 {
            v.push(((44100, 0), ch, bits, 44100, 0));
        }
    }
    let comp: [&[u8; 4]; 14] = [b"NONE", b"ACE2", b"ACE8", b"MAC3", b"MAC6", b"sowt", b"fl32", b"fl64", b"alaw", b"ulaw", b"ULAW", b"ALAW", b"FL32", b"Xyz1"];
    for c in 1..=14 {
        v.push(((44100, 0), 2, 16, 44100, c));
    }
    cx.par(&v, |&(rate, ch, bits, n, c)| {
        let mut d = ch.to_be_bytes().to_vec();
        d.extend(be32(n));
        d.extend(bits.to_be_bytes());
        d.extend(ext80(rate.0, rate.1));
        if c > 0 {
            d.extend(comp[c - 1]);
            d.extend([5, b'n', b'a', b'm', b'e', b'5']);
        }
        let mut ssnd = vec![0; 8];
        ssnd.extend(pat(5000, 7));
        let mut b = form_aiff(&[chunk_be(b"COMM", &d), chunk_be(b"SSND", &ssnd)]);
        if c > 0 {
            b[8..12].copy_from_slice(b"AIFC");
        }
        let exact = rate.0 as f64 / f64::from(1u32 << rate.1);
        let hz = exact.round();
        let mut e = Exp::new(hz as u32, ch as u8, f64::from(n) * 1000.0 / exact);
        // the duration may be computed from the rounded rate
        e.tol = 1.0 + e.dur.unwrap() / hz;
        e.depth = Some(Some(bits as u8));
        e.mask = Some(None);
        if n > 0 {
            e.overall = Br::Bytes(b.len() as u64);
        }
        judge(cx, "aiff", Fmt::Aiff, &format!("COMM {exact} Hz, {ch} channels, {bits} bits, {n} frames, compression {c}"), &b, &e, |r| {
            let f = AiffFile::read_from(r, ParseOptions::new()).map_err(er)?;
            let p = f.properties();
            let want = match c {
                0 => None,
                14 => Some(C::Other { compression_type: *b"Xyz1", compression_name: "name5".into() }),
                c => Some([C::None, C::ACE2, C::ACE8, C::MAC3, C::MAC6, C::sowt, C::fl32, C::fl64, C::alaw, C::ulaw, C::ULAW, C::ALAW, C::FL32][c - 1].clone()),
            };
            Ok(vec![
                row("compression", p.compression_type().cloned(), want),
                row("typed size", p.sample_size(), bits),
                row("typed channels", p.channels(), ch),
                // 5000 bytes of sound and the eight byte header of the chunk
                row("audio bitrate near", n == 0 || e.dur.unwrap() < 20.0 || (f64::from(p.audio_bitrate()) - 5004.0 * 8.0 / e.dur.unwrap()).abs() <= 2.0 + 5004.0 * 8.0 / e.dur.unwrap() * 0.06, true),
            ])
        });
    });
}

// --- Ogg ----------------------------------------------------------------------------------------------------------------------------
fn ogg_file(head: &[u8], tags: &[u8], setup: Option<&[u8]>, granule: u64, audio: usize, start: u64) -> (Vec<u8>, usize) {
    let mut o = ogg_page(2, 0, 9, 0, &[head]);
    let mut seq = 2;
    match setup {
        Some(s) => o.extend(ogg_page(0, 0, 9, 1, &[tags, s])),
        None => o.extend(ogg_page(0, 0, 9, 1, &[tags])),
    }
    let h = o.len();
    let a = pat(audio, 3);
    let half = audio / 2;
    o.extend(ogg_page(0, start + (granule - start) / 2, 9, seq, &[&a[..half]]));
    seq += 1;
    o.extend(ogg_page(4, granule, 9, seq, &[&a[half..]]));
    (o, h)
}
fn ogg(cx: &Ctx) {
    let grans: Vec<u64> = vec![1, 2, 311, 312, 313, 1000, 48000, 96312, 1 << 20, 1 << 31, (1 << 32) + 5, 1 << 40, 1 << 45];
    // Opus
    let mut v = Vec::new();
    for ch in 1..=8u8 {
        for fam in [0u8, 1] {
            if fam == 0 && ch > 2 {
                continue;
            }
            for pre in [0u16, 312, 3840, 65535] {
                for g in &grans {
                    v.push((ch, fam, pre, 48000u32, 0i16, *g));
                }
            }
        }
    }
    for rate in [0u32, 8000, 44100, 48000, 96000, 192_000, 0xFFFF_FFFF] {
        for gain in [0i16, 1, -1, 256, -256, i16::MIN, i16::MAX] {
            v.push((2, 0, 312, rate, gain, 96312));
        }
    }
    // Ambisonics and discrete channels
    for fam in [2u8, 3, 254, 255] {
        for ch in 1..=255u8 {
            v.push((ch, fam, 312, 48000, 0, 96312));
        }
    }
    cx.par(&v, |&(ch, fam, pre, rate, gain, g)| {
        let mut h = b"OpusHead\x01".to_vec();
        h.push(ch);
        h.extend(pre.to_le_bytes());
        h.extend(le32(rate));
        h.extend(gain.to_le_bytes());
        h.push(fam);
        if fam > 0 {
            h.extend([ch, 0]);
            h.extend(0..ch);
        }
        let (b, hl) = ogg_file(&h, &opus_tags("v", &[("TITLE", "t")]), None, g, 20_000, 0);
        let samples = g.saturating_sub(u64::from(pre));
        let mut e = Exp::new(rate, ch, samples as f64 / 48.0);
        if samples > 0 {
            e.audio = Br::Bytes((b.len() - hl) as u64);
            e.overall = Br::Bytes(b.len() as u64);
        }
        // RFC 7845, 5.1.1.2
        e.mask = (fam < 2).then(|| Some([FC, FL | FR, FL | FR | FC, FL | FR | BL | BRT, FL | FC | FR | BL | BRT, FL | FC | FR | BL | BRT | LFE, FL | FC | FR | SL | SR | BC | LFE, FL | FC | FR | SL | SR | BL | BRT | LFE][ch as usize - 1]));
        e.depth = Some(None);
        judge(cx, "opus", Fmt::Opus, &format!("OpusHead {ch} channels, family {fam}, pre-skip {pre}, {rate} Hz, gain {gain}; last granule position {g}"), &b, &e, |r| {
            let f = lofty::ogg::OpusFile::read_from(r, ParseOptions::new()).map_err(er)?;
            let p = f.properties();
            Ok(vec![row("version", p.version(), 1), row("gain", p.output_gain_db(), f32::from(gain) / 256.0), row("typed rate", p.input_sample_rate(), rate), row("typed channels", p.channels(), ch)])
        });
    });
    // Vorbis
    let mut v = Vec::new();
    for ch in 1..=255u8 {
        v.push((ch, 44100u32, 0i32, 128_000i32, 0i32, 96000u64));
    }
    for rate in [1u32, 8000, 22050, 44100, 48000, 96000, 192_000, 0x7FFF_FFFF, 0xFFFF_FFFF] {
        for g in &grans {
            v.push((2, rate, 0, 128_000, 0, *g));
        }
    }
    for max in [0i32, -1, 1, 320_000, i32::MAX, i32::MIN] {
        for nom in [0i32, -1, 1, 999, 1000, 128_000, 160_001, i32::MAX] {
            for min in [0i32, -1, 32_000, i32::MAX] {
                v.push((2, 44100, max, nom, min, 96000));
            }
        }
    }
    cx.par(&v, |&(ch, rate, max, nom, min, g)| {
        let mut h = b"\x01vorbis".to_vec();
        h.extend(le32(0));
        h.push(ch);
        h.extend(le32(rate));
        for x in [max, nom, min] {
            h.extend(x.to_le_bytes());
        }
        h.extend([0xB8, 1]);
        let (b, _) = ogg_file(&h, &vorbis_comment_packet("v", &[("TITLE", "t")]), Some(&vorbis_setup(100)), g, 20_000, 0);
        let mut e = Exp::new(rate, ch, g as f64 * 1000.0 / f64::from(rate));
        e.overall = Br::Bytes(b.len() as u64);
        if nom > 0 {
            e.audio = Br::Kbps(f64::from(nom) / 1000.0);
        }
        e.depth = Some(None);
        judge(cx, "vorbis", Fmt::Vorbis, &format!("{ch} channels, {rate} Hz, bitrates {max}/{nom}/{min}; last granule position {g}"), &b, &e, |r| {
            let f = lofty::ogg::VorbisFile::read_from(r, ParseOptions::new()).map_err(er)?;
            let p = f.properties();
            Ok(vec![row("maximum bitrate", p.bitrate_max(), max), row("nominal bitrate", p.bitrate_nominal(), nom), row("minimum bitrate", p.bitrate_min(), min), row("version", p.version(), 0), row("typed rate", p.sample_rate(), rate)])
        });
    });
    // Speex
    let mut v = Vec::new();
    for ch in [1u32, 2] {
        for mode in 0..3u32 {
            for vbr in [0u32, 1] {
                for nom in [-1i32, 0, 1, 8000, 15_200, 44_200, i32::MAX] {
                    for rate in [6000u32, 8000, 16000, 32000, 44100, 48000] {
                        v.push((ch, mode, vbr, nom, rate, 96000u64));
                    }
                }
            }
        }
    }
    for g in &grans {
        v.push((2, 1, 1, 15_200, 16000, *g));
        v.push((2, 1, 1, -1, 16000, *g));
    }
    cx.par(&v, |&(ch, mode, vbr, nom, rate, g)| {
        let mut h = b"Speex   ".to_vec();
        h.extend(b"1.2\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0");
        for x in [1u32, 80, rate, mode, 4, ch, nom as u32, 320, vbr, 1, 0, 0, 0] {
            h.extend(le32(x));
        }
        let (b, _) = ogg_file(&h, &vorbis_comments("v", &[("TITLE", "t")]), None, g, 20_000, 0);
        let mut e = Exp::new(rate, ch as u8, g as f64 * 1000.0 / f64::from(rate));
        e.overall = Br::Bytes(b.len() as u64);
        if nom > 0 {
            e.audio = Br::Kbps(f64::from(nom) / 1000.0);
        }
        e.depth = Some(None);
        judge(cx, "speex", Fmt::Speex, &format!("{ch} channels, mode {mode}, vbr {vbr}, bitrate {nom}, {rate} Hz; last granule position {g}"), &b, &e, |r| {
            let f = lofty::ogg::SpeexFile::read_from(r, ParseOptions::new()).map_err(er)?;
            let p = f.properties();
            Ok(vec![row("vbr", p.vbr(), vbr == 1), row("mode", p.mode(), mode), row("nominal bitrate", p.nominal_bitrate(), nom), row("version", p.version(), 1)])
        });
    });
}

// --- Monkey's Audio, Musepack, WavPack ----------------------------------------------------------------------------------------------
fn ape(cx: &Ctx) {
    let mut v = Vec::new();
    for ver in [3980u16, 3990, 4000, 3970, 3950, 3949, 3930, 3900, 3899, 3820, 3800, 3799, 3700, 3330] {
        for level in [1000u16, 2000, 3000, 4000, 5000] {
            for flags in [0u16, 1, 8, 9, 0x26] {
                for (frames, last) in [(1u32, 500u32), (1, 9216), (2, 1000), (100, 73728), (1000, 294_912), (0xFFFF, 2)] {
                    v.push((ver, level, flags, 2u16, 44100u32, 16u16, frames, last, 73728u32));
                }
            }
        }
        for ch in [1u16, 2, 6, 32] {
            for rate in [8000u32, 22050, 44100, 48000, 96000, 192_000, 0x7FFF_FFFF] {
                for bits in [8u16, 16, 24, 32] {
                    for bpf in [9216u32, 73728, 294_912, 1] {
                        v.push((ver, 2000, 0, ch, rate, bits, 50, 1000, bpf));
                    }
                }
            }
        }
    }
    cx.par(&v, |&(ver, level, flags, ch, rate, bits, frames, last, bpf)| {
        for (dlen, audio) in [(52usize, 5000usize), (60, 5000)] {
            let mut b = b"MAC ".to_vec();
            b.extend(ver.to_le_bytes());
            let new = ver >= 3980;
            if !new && dlen > 52 {
                continue;
            }
            let per_frame;
            let depth;
            if new {
                b.extend([0, 0]);
                for x in [dlen as u32, 24, 8, 44, audio as u32, 0, 0] {
                    b.extend(le32(x));
                }
                b.extend([0xAB; 16]);
                b.resize(dlen, 0x77);
                b.extend(level.to_le_bytes());
                b.extend(flags.to_le_bytes());
                for x in [bpf, last, frames] {
                    b.extend(le32(x));
                }
                b.extend(bits.to_le_bytes());
                b.extend(ch.to_le_bytes());
                b.extend(le32(rate));
                per_frame = bpf;
                depth = bits;
            } else {
                b.extend(level.to_le_bytes());
                b.extend(flags.to_le_bytes());
                b.extend(ch.to_le_bytes());
                b.extend(le32(rate));
                for x in [44u32, 0, frames, last] {
                    b.extend(le32(x));
                }
                // MACLib: APEInfo.cpp
                per_frame = if ver >= 3950 {
                    73728 * 4
                } else if ver >= 3900 || (ver >= 3800 && level == 4000) || (ver >= 3800 && level == 5000) {
                    73728
                } else {
                    9216
                };
                depth = if flags & 1 > 0 {
                    8
                } else if flags & 8 > 0 {
                    24
                } else {
                    16
                };
            }
            b.extend(pat(audio, 5));
            let samples = u64::from(frames - 1) * u64::from(per_frame) + u64::from(last);
            let mut e = Exp::new(rate, ch as u8, samples as f64 * 1000.0 / f64::from(rate));
            e.depth = Some(Some(depth as u8));
            e.mask = Some(None);
            e.overall = Br::Bytes(b.len() as u64);
            e.audio = Br::Bytes(b.len() as u64);
            judge(cx, if new { "ape-new" } else { "ape-old" }, Fmt::Ape, &format!("version {ver}, level {level}, flags {flags}, {ch} channels, {rate} Hz, {bits} bits, {frames} frames, {last} blocks in the last, {bpf} per frame, descriptor {dlen}"), &b, &e, |r| {
                let f = lofty::ape::ApeFile::read_from(r, ParseOptions::new()).map_err(er)?;
                let p = f.properties();
                Ok(vec![row("version", p.version(), ver), row("typed depth", p.bit_depth(), depth as u8), row("typed channels", p.channels(), ch as u8)])
            });
        }
    });
}
fn vint(mut x: u64) -> Vec<u8> {
    let mut o = vec![(x & 0x7F) as u8];
    x >>= 7;
    while x > 0 {
        o.insert(0, (x & 0x7F) as u8 | 0x80);
        x >>= 7;
    }
    o
}
fn musepack(cx: &Ctx) {
    use lofty::musepack::{MpcFile, MpcProperties};
    // SV8
    let mut v = Vec::new();
    let counts: Vec<u64> = (0..40).step_by(3).map(|k| 1u64 << k).chain([441_000, 127, 128, 16383, 16384]).collect();
    for &n in &counts {
        for s in [0u64, 1, 100, 20_000] {
            if s < n {
                for f in 0..4u8 {
                    v.push((n, s, f, 2u8, 26u8, true, 3u8));
                }
            }
        }
    }
    for ch in 1..=16 {
        for bands in 1..=32 {
            for ms in [false, true] {
                for blk in 0..8 {
                    v.push((441_000, 0, 0, ch, bands, ms, blk));
                }
            }
        }
    }
    const HZ: [u32; 4] = [44100, 48000, 37800, 32000];
    cx.par(&v, |&(n, s, f, ch, bands, ms, blk)| {
        let mut sh = vec![0x12, 0x34, 0x56, 0x78, 8];
        sh.extend(vint(n));
        sh.extend(vint(s));
        sh.push(f << 5 | (bands - 1));
        sh.push((ch - 1) << 4 | u8::from(ms) << 3 | blk);
        let mut b = b"MPCK".to_vec();
        b.extend(sv8_packet(b"SH", &sh));
        let (rg, ei) = ([1u8, 0x12, 0x34, 0x56, 0x78, 0x9A, 0xBC, 0xDE, 0xF0], [0x53 ^ blk, 1, 30, ch]);
        b.extend(sv8_packet(b"RG", &rg));
        b.extend(sv8_packet(b"EI", &ei));
        let mut payload = sh.len() + 9 + 4;
        for i in 0..3 {
            b.extend(sv8_packet(b"AP", &pat(90 + i, 3)));
            payload += 90 + i;
        }
        b.extend(sv8_packet(b"SE", &[]));
        let hz = HZ[f as usize];
        let mut e = Exp::new(hz, ch, (n - s) as f64 * 1000.0 / f64::from(hz));
        e.depth = Some(None);
        judge(cx, "mpc8", Fmt::Mpc, &format!("SV8 {n} samples, silence {s}, rate {f}, {ch} channels, {bands} bands, ms {ms}, block {blk}"), &b, &e, |r| {
            let file = MpcFile::read_from(r, ParseOptions::new()).map_err(er)?;
            let MpcProperties::Sv8(p) = file.properties() else { return Ok(vec![row("stream version", 0, 8)]) };
            let h = &p.stream_header;
            let g = &p.replay_gain;
            let en = p.encoder_info.unwrap_or_default();
            let d = e.dur.unwrap();
            let near = d < 20.0 || { let k = payload as f64 * 8.0 / d; (f64::from(p.average_bitrate()) - k).abs() <= 1.0 + k * 0.1 };
            Ok(vec![
                row("crc", h.crc, 0x1234_5678),
                row("stream version", h.stream_version, 8),
                row("sample count", h.sample_count, n),
                row("silence", h.beginning_silence, s),
                row("rate", h.sample_rate, hz),
                row("bands", h.max_used_bands, bands),
                row("channels of the header", h.channels, ch),
                row("mid side", h.ms_used, ms),
                row("block frames", h.audio_block_frames, 4u16.pow(u32::from(blk))),
                row("replay gain", (g.version, g.title_gain, g.title_peak, g.album_gain, g.album_peak), (1, 0x1234, 0x5678, 0x9ABC, 0xDEF0)),
                row("encoder", (en.profile, en.pns_tool, en.major, en.minor, en.build), (f32::from(ei[0] >> 1) / 8.0, ei[0] & 1 > 0, 1, 30, ch)),
                row("average bitrate near", near, true),
            ])
        });
    });
    // SV7
    let mut v = Vec::new();
    for frames in [1u32, 2, 10, 1000, 65536, 0x0FFF_FFFF] {
        for f in 0..4u8 {
            for gapless in [None, Some(0u16), Some(1), Some(576), Some(1152)] {
                for fl in 0..8u8 {
                    v.push((frames, f, gapless, fl, 10u8, 0u8, 26u8));
                }
            }
        }
    }
    for prof in 0..16 {
        for link in 0..4 {
            for band in 0..64 {
                v.push((100, 0, None, 0, prof, link, band));
            }
        }
    }
    cx.par(&v, |&(frames, f, gapless, fl, prof, link, band)| {
        let (is, ms, seek) = (fl & 1 > 0, fl & 2 > 0, fl & 4 > 0);
        let mut b = b"MP+\x07".to_vec();
        b.extend(le32(frames));
        let level = 0xABCDu32;
        b.extend(le32(u32::from(is) << 31 | u32::from(ms) << 30 | u32::from(band) << 24 | u32::from(prof) << 20 | u32::from(link) << 18 | u32::from(f) << 16 | level));
        b.extend([0; 8]);
        b.extend(le32(gapless.map_or(0, |l| 1 << 31 | u32::from(l) << 20) | u32::from(seek) << 19));
        b.extend([0x73, 0, 0, 0]);
        b.extend(pat(3000, 6));
        let hz = HZ[f as usize];
        // the padding samples of the last frame may be counted
        let most = f64::from(frames) * 1152.0;
        let mut e = Exp::new(hz, 2, (most - 576.0) * 1000.0 / f64::from(hz));
        e.tol = 1.0 + 576.0 * 1000.0 / f64::from(hz);
        e.depth = Some(None);
        judge(cx, "mpc7", Fmt::Mpc, &format!("SV7 {frames} frames, rate {f}, gapless {gapless:?}, flags {fl}, profile {prof}, link {link}, bands {band}"), &b, &e, |r| {
            let file = MpcFile::read_from(r, ParseOptions::new()).map_err(er)?;
            let MpcProperties::Sv7(p) = file.properties() else { return Ok(vec![row("stream version", 0, 7)]) };
            Ok(vec![
                row("frame count", p.frame_count(), frames),
                row("intensity stereo", p.intensity_stereo(), is),
                row("mid side", p.mid_side_stereo(), ms),
                row("bands", p.max_band(), band),
                row("profile", format!("{:?}", p.profile()).as_str(), ["None", "Unstable", "Unused", "Unused", "Unused", "BelowTelephone0", "BelowTelephone1", "Telephone", "Thumb", "Radio", "Standard", "Xtreme", "Insane", "BrainDead", "AboveBrainDead9", "AboveBrainDead10"][prof as usize]),
                row("link", p.link() as u8, link),
                row("level", p.max_level(), 0xABCD),
                row("gapless", p.true_gapless(), gapless.is_some()),
                row("last frame", p.last_frame_length(), gapless.unwrap_or(0)),
                row("fast seeking", p.fast_seeking_safe(), seek),
            ])
        });
    });
    // SV4 to 6
    let mut v = Vec::new();
    for sv in 4..=6u32 {
        for frames in [1u32, 2, 10, 1000, 65535] {
            for band in 0..32u32 {
                for ms in [false, true] {
                    v.push((sv, frames, band, ms));
                }
            }
        }
    }
    cx.par(&v, |&(sv, frames, band, ms)| {
        let mut b = le32(u32::from(ms) << 21 | sv << 11 | band << 6 | 1).to_vec();
        b.extend(le32(if sv >= 5 { frames } else { frames << 16 | 0x1234 }));
        b.extend([0; 24]);
        b.extend(pat(3000, 8));
        let real = if sv < 6 { frames - 1 } else { frames };
        let most = f64::from(real) * 1152.0;
        let mut e = Exp::new(44100, 2, (most - 576.0).max(0.0) * 1000.0 / 44100.0);
        e.tol = 1.0 + 576.0 * 1000.0 / 44100.0;
        e.depth = Some(None);
        // there is no signature: the caller names the format
        judge(cx, "mpc4", Fmt::Mpc, &format!("SV{sv} {frames} frames, bands {band}, ms {ms}"), &b, &e, |r| {
            let file = MpcFile::read_from(r, ParseOptions::new()).map_err(er)?;
            let MpcProperties::Sv4to6(p) = file.properties() else { return Ok(vec![row("stream version", 0, sv)]) };
            Ok(vec![row("stream version", u32::from(p.stream_version()), sv), row("frames", p.frame_count(), real), row("bands", u32::from(p.max_band()), band), row("mid side", p.mid_side_stereo(), ms)])
        });
    });
}
fn wavpack(cx: &Ctx) {
    use lofty::wavpack::WavPackFile;
    const HZ: [u32; 15] = [6000, 8000, 9600, 11025, 12000, 16000, 22050, 24000, 32000, 44100, 48000, 64000, 88200, 96000, 192_000];
    let sub = |id: u8, data: &[u8]| {
        let mut o = Vec::new();
        let odd = data.len() % 2;
        let words = data.len().div_ceil(2);
        if words > 255 {
            o.extend([id | 0x80 | if odd > 0 { 0x40 } else { 0 }, words as u8, (words >> 8) as u8, (words >> 16) as u8]);
        } else {
            o.extend([id | if odd > 0 { 0x40 } else { 0 }, words as u8]);
        }
        o.extend(data);
        o.resize(o.len() + odd, 0);
        o
    };
    #[derive(Clone, Debug)]
    struct W {
        rate: u32,
        idx: u32, // 15: stored in a sub-block
        bytes: u32,
        shift: u32,
        mono: bool,
        hybrid: bool,
        total: u64,
        ver: u16,
        dsd: Option<u8>,
        /// channel count and mask, and number of bytes of the mask
        multi: Option<(u16, u32, usize)>,
        lead: usize, // bytes of other metadata before
        empty_first: bool,
    }
    let base = W { rate: 44100, idx: 9, bytes: 2, shift: 0, mono: false, hybrid: false, total: 441_000, ver: 0x410, dsd: None, multi: None, lead: 6, empty_first: false };
    let mut v = Vec::new();
    for idx in 0..15u32 {
        for bytes in 1..=4 {
            for shift in 0..8 {
                for fl in 0..4 {
                    v.push(W { rate: HZ[idx as usize], idx, bytes, shift, mono: fl & 1 > 0, hybrid: fl & 2 > 0, ..base.clone() });
                }
            }
        }
    }
    for rate in (0..24).map(|k| 1u32 << k).chain([12345, 384_000, 0xFF_FFFF]) {
        for lead in [0usize, 5, 6, 511, 512, 1000] {
            v.push(W { rate, idx: 15, lead, ..base.clone() });
        }
    }
    for total in (0..39).map(|k| 1u64 << k).chain([0, 0xFFFF_FFFE, 0xFFFF_FFFF, 0xFE_FFFF_FF00]) {
        for idx in [0, 9, 14] {
            v.push(W { rate: HZ[idx as usize], idx, total, ..base.clone() });
        }
    }
    for ver in 0x402..=0x410 {
        v.push(W { ver, ..base.clone() });
        v.push(W { ver, empty_first: true, ..base.clone() });
    }
    for d in 0..=6u8 {
        for lead in [0usize, 5, 6] {
            v.push(W { dsd: Some(d), lead, ..base.clone() });
        }
    }
    for ch in [3u16, 4, 5, 6, 7, 8, 16, 32] {
        for (mask, n) in [(0x3Fu32, 1usize), (0x063F, 2), (0x3_063F, 3), (0x8003_063F, 4)] {
            for idx in [9u32, 10, 15] {
                for lead in [0usize, 5, 6, 600] {
                    v.push(W { rate: if idx == 15 { 50_000 } else { HZ[idx as usize] }, idx, multi: Some((ch, mask, n)), lead, ..base.clone() });
                }
            }
        }
    }
    for ch in [3u16, 255, 256, 257, 300, 4096] {
        for n in [6usize, 7] {
            for idx in [9u32, 15] {
                v.push(W { rate: if idx == 15 { 50_000 } else { HZ[idx as usize] }, idx, multi: Some((ch, if n == 6 { 0x12_063F } else { 0x8003_063F }, n)), ..base.clone() });
            }
        }
    }
    cx.par(&v, |w| {
        let mut flags = (w.bytes - 1) | w.shift << 13 | w.idx << 23;
        flags |= u32::from(w.mono) << 2 | u32::from(w.hybrid) << 3;
        if w.dsd.is_some() {
            flags |= 0x8000_0000;
        }
        let mut meta = Vec::new();
        if w.lead > 0 {
            meta.extend(sub(0x02, &pat(w.lead, 9)));
        }
        if let Some((ch, mask, n)) = w.multi {
            let m = mask.to_le_bytes();
            let d = match n {
                6 | 7 => {
                    let c = ch - 1;
                    let streams = ch.div_ceil(2) - 1;
                    let mut d = vec![c as u8, streams as u8, (c >> 8) as u8 & 15 | ((streams >> 8) as u8) << 4];
                    d.extend(&m[..n - 3]);
                    d
                }
                n => {
                    let mut d = vec![ch as u8];
                    d.extend(&m[..n]);
                    d
                }
            };
            meta.extend(sub(0x0D, &d));
        }
        if w.idx == 15 {
            meta.extend(sub(0x27, &w.rate.to_le_bytes()[..3]));
        }
        if let Some(d) = w.dsd {
            meta.extend(sub(0x0E, &[d, 0x01, 1, 2]));
        }
        meta.extend(sub(0x0A, &pat(60, 4)));
        let block = |total: u64, samples: u32, flags: u32, body: &[u8]| {
            // 40 bits; all ones in the lower 32 bits stand for an unknown count and are skipped
            let (upper, lower) = (total / 0xFFFF_FFFF, total % 0xFFFF_FFFF);
            let mut b = wv_block(lower as u32, 0, samples, flags, body);
            b[8..10].copy_from_slice(&w.ver.to_le_bytes());
            b[11] = upper as u8;
            b
        };
        let mut b = Vec::new();
        if w.empty_first {
            b.extend(block(w.total, 0, flags | 0x1800, &sub(0x21, &pat(44, 2))));
        }
        if let Some((ch, ..)) = w.multi {
            let n = ch.div_ceil(2).min(6);
            for i in 0..n {
                let fl = flags | if i == 0 { 0x800 } else { 0 } | if i + 1 == n { 0x1000 } else { 0 };
                b.extend(block(w.total, 1000, fl, if i == 0 { &meta } else { &meta[..0] }));
            }
        } else {
            b.extend(block(w.total, 1000, flags | 0x1800, &meta));
            b.extend(block(w.total, 1000, flags | 0x1800, &meta));
        }
        let hz = w.dsd.map_or(w.rate, |d| w.rate << d);
        let (ch, mask) = match w.multi {
            Some((c, m, _)) => (c, m),
            None if w.mono => (1, FC),
            None => (2, FL | FR),
        };
        let mut e = Exp::new(hz, ch as u8, w.total as f64 * 1000.0 / f64::from(hz));
        e.depth = Some(Some((w.bytes * 8 - w.shift) as u8));
        e.mask = Some(Some(mask));
        if w.total > 0 {
            e.overall = Br::Bytes(b.len() as u64);
            e.audio = Br::Bytes(b.len() as u64);
        } else {
            e.overall = Br::Kbps(0.0);
            e.audio = Br::Kbps(0.0);
        }
        let fam = if w.multi.is_some() { "wavpack-multi" } else { "wavpack" };
        judge(cx, fam, Fmt::WavPack, &format!("{w:?}"), &b, &e, |r| {
            let f = WavPackFile::read_from(r, ParseOptions::new()).map_err(er)?;
            let p = f.properties();
            Ok(vec![row("version", p.version(), w.ver), row("lossless", p.is_lossless(), !w.hybrid), row("typed channels", p.channels(), ch), row("typed rate", p.sample_rate(), hz)])
        });
    });
}

// --- MP4 ----------------------------------------------------------------------------------------------------------------------------
#[derive(Clone, Debug)]
enum Cfg {
    /// AudioSpecificConfig: object type, rate index, explicit rate, channels; descriptor size bytes
    Aac(u8, u8, u32, u8, usize),
    Mp3(u8),
    Alac(u8, u8, u32, u32),
    Flac(u32, u8, u8),
    Plain,
}
#[derive(Clone, Debug)]
struct M4 {
    cfg: Cfg,
    v1: bool,
    timescale: u32,
    duration: u64,
    avg: u32,
    entry: (u32, u16, u16), // rate, channels, bits of the sample entry
    drms: bool,
    video_first: bool,
}
fn bits(fields: &[(u32, u32)]) -> Vec<u8> {
    let mut s = String::new();
    for (n, v) in fields {
        s.push_str(&format!("{:0w$b}", v, w = *n as usize));
    }
    while s.len() % 8 > 0 {
        s.push('0');
    }
    s.as_bytes().chunks(8).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 2).unwrap()).collect()
}
fn m4_file(m: &M4) -> Vec<u8> {
    let desc = |tag: u8, n: usize, d: &[u8]| {
        let mut o = vec![tag];
        for i in (0..n).rev() {
            o.push(((d.len() >> (7 * i)) & 0x7F) as u8 | if i > 0 { 0x80 } else { 0 });
        }
        o.extend(d);
        o
    };
    let mut entry = vec![0; 6];
    entry.extend(1u16.to_be_bytes());
    entry.extend([0; 8]);
    entry.extend(m.entry.1.to_be_bytes());
    entry.extend(m.entry.2.to_be_bytes());
    entry.extend([0; 4]);
    entry.extend(be32(m.entry.0 << 16));
    let esds = |oti: u8, asc: Option<Vec<u8>>, n: usize| {
        let mut dc = vec![oti, 0x15, 0, 0, 0];
        dc.extend(be32(m.avg + 1000));
        dc.extend(be32(m.avg));
        if let Some(a) = asc {
            dc.extend(desc(5, n, &a));
        }
        let mut es = vec![0, 1, 0];
        es.extend(desc(4, n, &dc));
        es.extend(desc(6, n, &[2]));
        let mut o = vec![0; 4];
        o.extend(desc(3, n, &es));
        atom(b"esds", &o)
    };
    let name: &[u8; 4] = match &m.cfg {
        Cfg::Aac(ot, idx, rate, ch, n) => {
            let mut f = if *ot >= 32 { vec![(5, 31), (6, u32::from(*ot) - 32)] } else { vec![(5, u32::from(*ot))] };
            f.push((4, u32::from(*idx)));
            if *idx == 15 {
                f.push((24, *rate));
            }
            f.push((4, u32::from(*ch)));
            f.push((3, 0));
            let mut a = bits(&f);
            a.resize(a.len().max(8), 0);
            entry.extend(esds(0x40, Some(a), *n));
            b"mp4a"
        }
        Cfg::Mp3(oti) => {
            entry.extend(esds(*oti, None, 1));
            b"mp4a"
        }
        Cfg::Alac(depth, ch, rate, br) => {
            let mut a = vec![0; 4];
            a.extend(be32(4096));
            a.extend([0, *depth, 40, 10, 14, *ch]);
            a.extend(255u16.to_be_bytes());
            a.extend(be32(30_000));
            a.extend(be32(*br));
            a.extend(be32(*rate));
            entry.extend(atom(b"alac", &a));
            b"alac"
        }
        Cfg::Flac(rate, ch, bps) => {
            let mut a = vec![0; 4];
            a.extend(flac_block(true, 0, &flac_info(*rate, *ch, *bps, 44100, 7)));
            entry.extend(atom(b"dfLa", &a));
            b"fLaC"
        }
        Cfg::Plain => b"Opus",
    };
    let mut stsd = vec![0; 4];
    stsd.extend(be32(1));
    stsd.extend(atom(if m.drms { b"drms" } else { name }, &entry));
    let mut stts = vec![0; 4];
    stts.extend(be32(1));
    stts.extend(be32(86));
    stts.extend(be32(1024));
    let mut stbl = atom(b"stsd", &stsd);
    stbl.extend(atom(b"stts", &stts));
    let mut mdhd = vec![u8::from(m.v1), 0, 0, 0];
    let w = |v: u64| if m.v1 { v.to_be_bytes().to_vec() } else { (v as u32).to_be_bytes().to_vec() };
    mdhd.extend(w(5));
    mdhd.extend(w(6));
    mdhd.extend(be32(m.timescale));
    mdhd.extend(w(m.duration));
    mdhd.extend([0; 4]);
    let trak = |kind: &[u8; 4], mdhd: &[u8], stbl: &[u8], h: &[u8; 4]| {
        let mut hdlr = vec![0; 8];
        hdlr.extend(kind);
        // with and without the fields behind the handler type
        hdlr.extend(&[0; 13][..if m.v1 { 0 } else { 13 }]);
        let mut minf = atom(h, &[0; 8]);
        minf.extend(atom(b"dinf", &[0; 16]));
        minf.extend(atom(b"stbl", stbl));
        let mut mdia = atom(b"mdhd", mdhd);
        mdia.extend(atom(b"hdlr", &hdlr));
        mdia.extend(atom(b"minf", &minf));
        let mut t = atom(b"tkhd", &[0; 84]);
        t.extend(atom(b"mdia", &mdia));
        atom(b"trak", &t)
    };
    let mut moov = mvhd();
    if m.video_first {
        let mut other = vec![0; 12];
        other.extend(be32(600));
        other.extend(be32(77_777));
        other.extend([0; 4]);
        moov.extend(trak(b"vide", &other, &atom(b"stsd", &[0; 8]), b"vmhd"));
    }
    moov.extend(trak(b"soun", &mdhd, &stbl, b"smhd"));
    let mut o = ftyp();
    o.extend(atom(b"moov", &moov));
    o.extend(atom(b"mdat", &pat(M4_DATA, 3)));
    o
}
const M4_DATA: usize = 20_000;
fn mp4(cx: &Ctx) {
    use lofty::mp4::{Mp4Codec, Mp4File};
    let aac = Cfg::Aac(2, 4, 0, 2, 1);
    let base = M4 { cfg: aac.clone(), v1: false, timescale: 44100, duration: 441_000, avg: 128_000, entry: (44100, 2, 16), drms: false, video_first: false };
    let mut v = Vec::new();
    // every object type this library names
    for ot in (1..=9).chain(12..=17).chain(19..=30).chain(32..=42) {
        for idx in 0..13u8 {
            for ch in (1..=7u8).chain([11, 12, 14]) {
                v.push(M4 { cfg: Cfg::Aac(ot, idx, 0, ch, 1), ..base.clone() });
            }
        }
        for rate in [1u32, 8000, 50_000, 0x55_5555, 0xAA_AAAA, 0xFF_FFFF] {
            for ch in 1..=7u8 {
                v.push(M4 { cfg: Cfg::Aac(ot, 15, rate, ch, 1), ..base.clone() });
            }
        }
    }
    for n in 1..=4 {
        for avg in [0u32, 1000, 96_000, 320_999] {
            v.push(M4 { cfg: Cfg::Aac(2, 4, 0, 2, n), avg, ..base.clone() });
        }
    }
    for oti in [0x40u8, 0x66, 0x67, 0x68, 0x69, 0x6B] {
        v.push(M4 { cfg: Cfg::Mp3(oti), ..base.clone() });
    }
    for depth in [8u8, 16, 20, 24, 32] {
        for ch in 1..=8 {
            for rate in [8000u32, 44100, 96000, 192_000, 384_000] {
                for br in [0u32, 700_000, 1_411_200] {
                    v.push(M4 { cfg: Cfg::Alac(depth, ch, rate, br), ..base.clone() });
                }
                v.push(M4 { cfg: Cfg::Flac(rate, ch, depth), ..base.clone() });
            }
        }
    }
    for timescale in [1u32, 600, 1000, 44100, 48000, 90_000, 10_000_000] {
        for duration in [0u64, 1, 1000, 441_000, 0xFFFF_FFFE, 1 << 33, 1 << 40] {
            for v1 in [false, true] {
                if duration < 1 << 32 || v1 {
                    for video_first in [false, true] {
                        v.push(M4 { timescale, duration, v1, video_first, ..base.clone() });
                    }
                }
            }
        }
    }
    for rate in [8000u32, 16000, 44100, 48000, 65535] {
        for ch in [1u16, 2, 6, 8] {
            for b in [8u16, 16, 24] {
                v.push(M4 { cfg: Cfg::Plain, entry: (rate, ch, b), ..base.clone() });
            }
        }
    }
    cx.par(&v, |m| {
        let b = m4_file(m);
        let (rate, ch, depth, codec, kbps) = match m.cfg {
            Cfg::Aac(_, i, r, c, _) => (if i == 15 { r } else { AAC_RATES[i as usize] }, mp4_layout(c).0, None, Mp4Codec::AAC, None),
            Cfg::Mp3(o) => (m.entry.0, m.entry.1 as u8, None, if o >= 0x69 { Mp4Codec::MP3 } else { Mp4Codec::AAC }, None),
            Cfg::Alac(d, c, r, _) => (r, c, Some(d), Mp4Codec::ALAC, None::<f64>),
            Cfg::Flac(r, c, d) => (r, c, Some(d), Mp4Codec::FLAC, None),
            Cfg::Plain => (m.entry.0, m.entry.1 as u8, None, Mp4Codec::AAC, None),
        };
        let ms = m.duration as f64 * 1000.0 / f64::from(m.timescale);
        let mut e = Exp::new(rate, ch, ms);
        if let Some(d) = depth {
            e.depth = Some(Some(d));
        }
        let _ = kbps;
        e.overall = Br::Bytes(b.len() as u64);
        if m.duration > 0 {
            e.audio = Br::Bytes(M4_DATA as u64);
        }
        let fam = match m.cfg {
            Cfg::Aac(..) => "mp4-aac",
            Cfg::Mp3(_) => "mp4-mp3",
            Cfg::Alac(..) => "mp4-alac",
            Cfg::Flac(..) => "mp4-flac",
            Cfg::Plain => "mp4-other",
        };
        judge(cx, fam, Fmt::Mp4, &format!("{m:?}"), &b, &e, |r| {
            let f = Mp4File::read_from(r, ParseOptions::new()).map_err(er)?;
            let p = f.properties();
            let mut v = Vec::new();
            if !matches!(m.cfg, Cfg::Plain) {
                v.push(row("codec", p.codec(), Some(codec)));
            }
            if let Cfg::Aac(ot, ..) = m.cfg {
                v.push(row("object type", p.audio_object_type().map(|x| x as u8), Some(ot)));
            }
            v.push(row("protection", p.is_drm_protected(), m.drms));
            Ok(v)
        });
    });
}

// --- tags and padding ---------------------------------------------------------------------------------------------------------------
fn tags(cx: &Ctx) {
    let mut v = Vec::new();
    for f in crate::walk::ALL_FMT {
        for l in crate::layouts::layouts(f, true) {
            v.push(l);
        }
    }
    let strip = |b: &[u8], f: Fmt| -> Result<String, String> {
        let t = read_tagged(f, b, ParseOptions::new())?;
        let p = t.properties();
        // the duration of an ADTS stream is an estimate from the size of the file that counts the ten bytes of an ID3v2 header
        let d = if f == Fmt::Aac { 0 } else { p.duration().as_millis() };
        Ok(format!("{d} {:?} {:?} {:?} {:?}", p.sample_rate(), p.bit_depth(), p.channels(), p.channel_mask()))
    };
    cx.par(&v, |l| {
        let Ok(Ok(a)) = guard(|| strip(&l.bytes, l.fmt)) else { return };
        for t in writable(l.fmt) {
            for size in 0..cx.q(4usize, 8) {
                let fam = format!("tags|{:?}|{t:?}", l.fmt);
                if cx.skip(&fam) {
                    continue;
                }
                cx.case(&format!("{} + {t:?} {size}", l.name), &l.bytes);
                cx.eval(&(l.name.clone(), format!("{t:?}"), size));
                let r = guard(|| -> Result<Option<(Vec<u8>, String)>, String> {
                    let (r, b) = if size == 0 {
                        remove(&l.bytes, t, wo())
                    } else {
                        use crate::contents::K;
                        let k = [K::P, K::M(20), K::H, K::E, K::M(1000), K::M(5001), K::C][size - 1];
                        crate::contents::content(t, k).save2(&l.bytes, crate::contents::opts([0u32, 1024, 7, 100, 1, 0, 65_536][size - 1]))
                    };
                    r?;
                    let c = strip(&b, l.fmt)?;
                    Ok((c != a).then_some((b, c)))
                });
                match r {
                    Err(p) => cx.violation(format!("{fam}|panic"), format!("{}: {p}", l.name), vec![("file", &l.bytes)]),
                    Ok(Ok(Some((b, c)))) => cx.violation(fam.clone(), format!("{}: writing {t:?} ({size}) changed the properties\nfrom {a}\nto   {c}", l.name), vec![("before", &l.bytes), ("after", &b)]),
                    Ok(_) => {}
                }
                cx.case_done();
            }
        }
    });
}
pub fn run(cx: &Ctx) -> i32 {
    mpeg(cx);
    aac(cx);
    flac(cx);
    wav(cx);
    aiff(cx);
    ogg(cx);
    ape(cx);
    musepack(cx);
    wavpack(cx);
    mp4(cx);
    tags(cx);
    cx.sample(|| json!({"kind": "MPEG header", "case": format!("{MP0:?}")}));
    cx.note("formats", json!(["MPEG 1/2/2.5 layers I-III, Xing, Info, VBRI", "ADTS", "FLAC", "WAV", "AIFF/AIFC", "Opus", "Vorbis", "Speex", "APE", "Musepack SV4-8", "WavPack", "MP4"]));
    cx.finish(
        "exploration",
        "a generated stream (a combination of header fields, frame counts, cuts or VBR headers), or a layout with one tag written or removed; distinct by the bytes of the stream or by (layout, tag, size)",
        &["estimates that no header stores (ADTS bitrate and duration, Musepack SV4-7 bitrate, the padding samples of a last Musepack frame) are compared within their documented accuracy"],
        true,
    )
}
