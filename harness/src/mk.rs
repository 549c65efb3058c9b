//! Independent builders for small, well-formed files of every supported format.
//! Nothing in here uses lofty.
#![allow(dead_code)]
pub fn pat(n: usize, salt: u8) -> Vec<u8> {
    // never contains 0xFF, never spells any magic
    (0..n).map(|i| ((i * 7 + salt as usize * 13 + (i / 251)) % 200 + 1) as u8).collect()
}
/// aperiodic data, so that misplaced blocks are noticed
pub fn rnd(n: usize, salt: u32) -> Vec<u8> {
    let mut x = salt.wrapping_mul(2654435761).wrapping_add(0x9E3779B9) | 1;
    (0..n)
        .map(|_| {
            x ^= x << 13;
            x ^= x >> 17;
            x ^= x << 5;
            (x >> 9) as u8 & 0x7F
        })
        .collect()
}
pub fn be32(v: u32) -> [u8; 4] {
    v.to_be_bytes()
}
pub fn le32(v: u32) -> [u8; 4] {
    v.to_le_bytes()
}
pub fn synch(v: u32) -> [u8; 4] {
    [(v >> 21 & 0x7F) as u8, (v >> 14 & 0x7F) as u8, (v >> 7 & 0x7F) as u8, (v & 0x7F) as u8]
}

// ---------------------------------------------------------------- tags
pub fn id3v2_frame_v4(id: &str, content: &[u8]) -> Vec<u8> {
    let mut o = id.as_bytes().to_vec();
    o.extend(synch(content.len() as u32));
    o.extend([0, 0]);
    o.extend(content);
    o
}
pub fn id3v2_frame_v3(id: &str, content: &[u8]) -> Vec<u8> {
    let mut o = id.as_bytes().to_vec();
    o.extend(be32(content.len() as u32));
    o.extend([0, 0]);
    o.extend(content);
    o
}
pub fn id3v2_frame_v2(id: &str, content: &[u8]) -> Vec<u8> {
    let mut o = id.as_bytes().to_vec();
    o.extend(&be32(content.len() as u32)[1..]);
    o.extend(content);
    o
}
pub fn id3v2_tag(ver: u8, flags: u8, body: &[u8], padding: usize) -> Vec<u8> {
    let mut o = vec![b'I', b'D', b'3', ver, 0, flags];
    o.extend(synch((body.len() + padding) as u32));
    o.extend(body);
    o.extend(vec![0; padding]);
    if ver == 4 && flags & 0x10 != 0 {
        let mut f = vec![b'3', b'D', b'I', ver, 0, flags];
        f.extend(synch((body.len() + padding) as u32));
        o.extend(f);
    }
    o
}
pub fn text_frame_v4(id: &str, s: &str) -> Vec<u8> {
    let mut c = vec![3u8];
    c.extend(s.as_bytes());
    id3v2_frame_v4(id, &c)
}
pub fn id3v2_simple(title: &str, padding: usize) -> Vec<u8> {
    id3v2_tag(4, 0, &text_frame_v4("TIT2", title), padding)
}
pub fn id3v1(title: &str, artist: &str, track: u8) -> Vec<u8> {
    let mut o = b"TAG".to_vec();
    let mut put = |s: &str, n: usize| {
        let mut b = s.as_bytes().to_vec();
        b.resize(n, 0);
        o.extend(b);
    };
    put(title, 30);
    put(artist, 30);
    put("", 30);
    put("", 4);
    put("", 28);
    o.push(0);
    o.push(track);
    o.push(255);
    assert_eq!(o.len(), 128);
    o
}
/// `items`: (key, flags, value)
pub fn ape_tag_full(items: &[(&str, u32, &[u8])], header: bool, footer: bool) -> Vec<u8> {
    let mut body = Vec::new();
    for (k, f, v) in items {
        body.extend(le32(v.len() as u32));
        body.extend(le32(*f));
        body.extend(k.as_bytes());
        body.push(0);
        body.extend(*v);
    }
    let mk = |is_header: bool| {
        let mut h = b"APETAGEX".to_vec();
        h.extend(le32(2000));
        h.extend(le32(body.len() as u32 + 32));
        h.extend(le32(items.len() as u32));
        let mut fl = 0u32;
        if header {
            fl |= 1 << 31;
        }
        if !footer {
            fl |= 1 << 30;
        }
        if is_header {
            fl |= 1 << 29;
        }
        h.extend(le32(fl));
        h.extend([0; 8]);
        h
    };
    let mut o = Vec::new();
    if header {
        o.extend(mk(true));
    }
    o.extend(&body);
    if footer {
        o.extend(mk(false));
    }
    o
}
pub fn ape_tag(title: &str) -> Vec<u8> {
    ape_tag_full(&[("Title", 0, title.as_bytes())], true, true)
}
pub fn lyrics3v2(text: &str) -> Vec<u8> {
    let mut o = b"LYRICSBEGIN".to_vec();
    o.extend(format!("LYR{:05}{}", text.len(), text).as_bytes());
    let n = o.len();
    o.extend(format!("{n:06}LYRICS200").as_bytes());
    o
}
pub fn vorbis_comments(vendor: &str, items: &[(&str, &str)]) -> Vec<u8> {
    let mut o = le32(vendor.len() as u32).to_vec();
    o.extend(vendor.as_bytes());
    o.extend(le32(items.len() as u32));
    for (k, v) in items {
        let s = format!("{k}={v}");
        o.extend(le32(s.len() as u32));
        o.extend(s.as_bytes());
    }
    o
}

// ---------------------------------------------------------------- raw streams
pub fn mpeg_audio(frames: usize) -> Vec<u8> {
    // MPEG1 layer III 32 kbps 48000 mono: frame length 144*32000/48000 = 96
    let mut o = Vec::new();
    for i in 0..frames {
        o.extend([0xFF, 0xFB, 0x14, 0xC4]);
        o.extend(pat(92, i as u8));
    }
    o
}
pub fn aac_frame(payload: &[u8], crc: bool) -> Vec<u8> {
    let len = payload.len() + if crc { 9 } else { 7 };
    let mut o = vec![
        0xFF,
        0xF0 | u8::from(!crc),
        0x50, // LC, 44100 (idx 4)
        0x80 | ((len >> 11) as u8 & 3),
        (len >> 3) as u8,
        ((len & 7) << 5) as u8 | 0x1F,
        0xFC,
    ];
    if crc {
        o.extend([0x12, 0x34]);
    }
    o.extend(payload);
    o
}
pub fn aac_audio(frames: usize) -> Vec<u8> {
    let mut o = Vec::new();
    for i in 0..frames {
        o.extend(aac_frame(&pat(40, i as u8), false));
    }
    o
}
pub fn ape_audio() -> Vec<u8> {
    let mut o = b"MAC ".to_vec();
    o.extend(3990u16.to_le_bytes());
    o.extend([0, 0]);
    o.extend(le32(52)); // descriptor length
    o.extend(le32(24)); // header length
    o.extend(le32(8)); // seek table
    o.extend(le32(44)); // wav header data
    o.extend(le32(100)); // frame data
    o.extend(le32(0));
    o.extend(le32(0));
    o.extend([0xAB; 16]); // md5
    assert_eq!(o.len(), 52);
    o.extend(2000u16.to_le_bytes());
    o.extend(0u16.to_le_bytes());
    o.extend(le32(73728));
    o.extend(le32(1000));
    o.extend(le32(2));
    o.extend(16u16.to_le_bytes());
    o.extend(2u16.to_le_bytes());
    o.extend(le32(44100));
    o.extend(pat(160, 5));
    o
}
fn vint(mut v: u64, total_extra: u64) -> Vec<u8> {
    // musepack sv8 packet size counts key(2) + size bytes + payload
    for n in 1..=9u64 {
        let s = v + total_extra + n;
        if s < 1 << (7 * n) {
            let mut o = Vec::new();
            v = s;
            for i in (0..n).rev() {
                let b = ((v >> (7 * i)) & 0x7F) as u8;
                o.push(if i == 0 { b } else { b | 0x80 });
            }
            return o;
        }
    }
    unreachable!()
}
pub fn sv8_packet(key: &[u8; 2], payload: &[u8]) -> Vec<u8> {
    let mut o = key.to_vec();
    o.extend(vint(payload.len() as u64, 2));
    o.extend(payload);
    o
}
pub fn mpc_sv8() -> Vec<u8> {
    let mut o = b"MPCK".to_vec();
    // SH: crc32(4) version(1) sample count (vint) beginning silence (vint) freq(3) maxbands(5) channels(4) ms(1) block pwr(3)
    let mut sh = vec![0x12, 0x34, 0x56, 0x78, 8, 0x81, 0x00, 0x00];
    let f: u16 = (0 << 13) | (26 << 8) | (1 << 4) | (1 << 3) | 3;
    sh.extend(f.to_be_bytes());
    o.extend(sv8_packet(b"SH", &sh));
    o.extend(sv8_packet(b"RG", &[1, 0x10, 0, 0x20, 0, 0x30, 0, 0x40, 0]));
    o.extend(sv8_packet(b"EI", &[0x50, 1, 30, 0]));
    o.extend(sv8_packet(b"AP", &pat(60, 3)));
    o.extend(sv8_packet(b"AP", &pat(33, 4)));
    o.extend(sv8_packet(b"SE", &[]));
    o
}
pub fn mpc_sv7() -> Vec<u8> {
    let mut o = b"MP+".to_vec();
    o.push(0x07);
    o.extend(le32(10)); // frame count
    o.extend(le32(0x1A00_0000 | (0 << 16))); // flags incl. sample freq
    o.extend([0; 4]); // title gain, peak
    o.extend([0; 4]);
    o.extend(le32(0x0000_0001));
    o.extend(le32(30));
    o.extend(pat(100, 6));
    o
}
pub fn wv_block(total: u32, idx: u32, samples: u32, flags: u32, body: &[u8]) -> Vec<u8> {
    let mut o = b"wvpk".to_vec();
    o.extend(le32(24 + body.len() as u32));
    o.extend(0x410u16.to_le_bytes());
    o.extend([0, 0]);
    o.extend(le32(total));
    o.extend(le32(idx));
    o.extend(le32(samples));
    o.extend(le32(flags));
    o.extend(le32(0xDEAD_BEEF));
    o.extend(body);
    o
}
pub fn wavpack_audio() -> Vec<u8> {
    // 16 bit (1), initial+final, 44100 = index 9
    let flags = 1 | 0x800 | 0x1000 | (9 << 23);
    let mut o = wv_block(44100, 0, 22050, flags, &pat(64, 7));
    o.extend(wv_block(44100, 22050, 22050, flags, &pat(50, 8)));
    o
}

// ---------------------------------------------------------------- FLAC
pub fn flac_block(last: bool, ty: u8, data: &[u8]) -> Vec<u8> {
    let mut o = vec![ty | if last { 0x80 } else { 0 }];
    o.extend(&be32(data.len() as u32)[1..]);
    o.extend(data);
    o
}
pub fn flac_streaminfo() -> Vec<u8> {
    let mut o = Vec::new();
    o.extend(4096u16.to_be_bytes());
    o.extend(4096u16.to_be_bytes());
    o.extend([0, 0, 14]);
    o.extend([0, 0, 120]);
    // 20 bits rate, 3 bits ch-1, 5 bits bps-1, 36 bits samples
    let v: u64 = (44100u64 << 44) | (1 << 41) | (15 << 36) | 88200;
    o.extend(v.to_be_bytes());
    o.extend([0x5A; 16]);
    assert_eq!(o.len(), 34);
    o
}
pub fn flac_audio() -> Vec<u8> {
    let mut o = vec![0xFF, 0xF8, 0xC9, 0x18];
    o.extend(pat(120, 9));
    o
}
/// blocks after STREAMINFO; the last flag is set automatically
pub fn flac_file(blocks: &[(u8, Vec<u8>)]) -> Vec<u8> {
    let mut o = b"fLaC".to_vec();
    o.extend(flac_block(blocks.is_empty(), 0, &flac_streaminfo()));
    for (i, (t, d)) in blocks.iter().enumerate() {
        o.extend(flac_block(i + 1 == blocks.len(), *t, d));
    }
    o.extend(flac_audio());
    o
}

// ---------------------------------------------------------------- IFF
pub fn chunk_le(id: &[u8; 4], data: &[u8]) -> Vec<u8> {
    let mut o = id.to_vec();
    o.extend(le32(data.len() as u32));
    o.extend(data);
    if data.len() % 2 == 1 {
        o.push(0);
    }
    o
}
pub fn chunk_be(id: &[u8; 4], data: &[u8]) -> Vec<u8> {
    let mut o = id.to_vec();
    o.extend(be32(data.len() as u32));
    o.extend(data);
    if data.len() % 2 == 1 {
        o.push(0);
    }
    o
}
pub fn riff(chunks: &[Vec<u8>]) -> Vec<u8> {
    let body: Vec<u8> = chunks.concat();
    let mut o = b"RIFF".to_vec();
    o.extend(le32(body.len() as u32 + 4));
    o.extend(b"WAVE");
    o.extend(body);
    o
}
pub fn wav_fmt() -> Vec<u8> {
    let mut d = Vec::new();
    d.extend(1u16.to_le_bytes());
    d.extend(2u16.to_le_bytes());
    d.extend(le32(44100));
    d.extend(le32(44100 * 4));
    d.extend(4u16.to_le_bytes());
    d.extend(16u16.to_le_bytes());
    chunk_le(b"fmt ", &d)
}
pub fn list_info(items: &[(&str, &str)]) -> Vec<u8> {
    let mut d = b"INFO".to_vec();
    for (k, v) in items {
        let mut s = v.as_bytes().to_vec();
        s.push(0);
        d.extend(k.as_bytes());
        d.extend(le32(s.len() as u32));
        let odd = s.len() % 2 == 1;
        d.extend(s);
        if odd {
            d.push(0);
        }
    }
    chunk_le(b"LIST", &d)
}
pub fn form_aiff(chunks: &[Vec<u8>]) -> Vec<u8> {
    let body: Vec<u8> = chunks.concat();
    let mut o = b"FORM".to_vec();
    o.extend(be32(body.len() as u32 + 4));
    o.extend(b"AIFF");
    o.extend(body);
    o
}
pub fn f80(v: u32) -> [u8; 10] {
    // exact for integers
    let lz = v.leading_zeros();
    let exp: u16 = 16383 + 31 - lz as u16;
    let man: u64 = (v as u64) << (32 + lz);
    let mut o = [0; 10];
    o[..2].copy_from_slice(&exp.to_be_bytes());
    o[2..].copy_from_slice(&man.to_be_bytes());
    o
}
pub fn aiff_comm(frames: u32) -> Vec<u8> {
    let mut d = Vec::new();
    d.extend(2u16.to_be_bytes());
    d.extend(be32(frames));
    d.extend(16u16.to_be_bytes());
    d.extend(f80(44100));
    chunk_be(b"COMM", &d)
}
pub fn aiff_ssnd(n: usize) -> Vec<u8> {
    let mut d = vec![0; 8];
    d.extend(pat(n, 10));
    chunk_be(b"SSND", &d)
}

// ---------------------------------------------------------------- OGG
pub fn crc_ogg(b: &[u8]) -> u32 {
    let mut c = 0u32;
    for &x in b {
        c ^= (x as u32) << 24;
        for _ in 0..8 {
            c = if c & 0x8000_0000 != 0 { (c << 1) ^ 0x04C1_1DB7 } else { c << 1 };
        }
    }
    c
}
pub fn ogg_page_raw(flags: u8, granule: u64, serial: u32, seq: u32, lacing: &[u8], body: &[u8]) -> Vec<u8> {
    let mut o = b"OggS".to_vec();
    o.push(0);
    o.push(flags);
    o.extend(granule.to_le_bytes());
    o.extend(le32(serial));
    o.extend(le32(seq));
    o.extend([0; 4]);
    o.push(lacing.len() as u8);
    o.extend(lacing);
    o.extend(body);
    let c = crc_ogg(&o);
    o[22..26].copy_from_slice(&le32(c));
    o
}
pub fn lacing_of(n: usize) -> Vec<u8> {
    let mut l = vec![255; n / 255];
    l.push((n % 255) as u8);
    l
}
/// A page holding complete packets
pub fn ogg_page(flags: u8, granule: u64, serial: u32, seq: u32, packets: &[&[u8]]) -> Vec<u8> {
    let mut lac = Vec::new();
    let mut body = Vec::new();
    for p in packets {
        lac.extend(lacing_of(p.len()));
        body.extend(*p);
    }
    assert!(lac.len() <= 255);
    ogg_page_raw(flags, granule, serial, seq, &lac, &body)
}
pub fn vorbis_ident() -> Vec<u8> {
    let mut o = b"\x01vorbis".to_vec();
    o.extend(le32(0));
    o.push(2);
    o.extend(le32(44100));
    o.extend(le32(0));
    o.extend(le32(128_000));
    o.extend(le32(0));
    o.push(0xB8);
    o.push(1);
    o
}
pub fn vorbis_comment_packet(vendor: &str, items: &[(&str, &str)]) -> Vec<u8> {
    let mut o = b"\x03vorbis".to_vec();
    o.extend(vorbis_comments(vendor, items));
    o.push(1);
    o
}
pub fn vorbis_setup(n: usize) -> Vec<u8> {
    let mut o = b"\x05vorbis".to_vec();
    o.extend(pat(n, 11));
    o
}
pub fn opus_head() -> Vec<u8> {
    let mut o = b"OpusHead".to_vec();
    o.push(1);
    o.push(2);
    o.extend(312u16.to_le_bytes());
    o.extend(le32(48000));
    o.extend([0, 0, 0]);
    o
}
pub fn opus_tags(vendor: &str, items: &[(&str, &str)]) -> Vec<u8> {
    let mut o = b"OpusTags".to_vec();
    o.extend(vorbis_comments(vendor, items));
    o
}
pub fn speex_head() -> Vec<u8> {
    let mut o = b"Speex   ".to_vec();
    let mut v = b"1.2".to_vec();
    v.resize(20, 0);
    o.extend(v);
    for x in [1u32, 80, 16000, 1, 4, 2, 0xFFFF_FFFF, 320, 0, 1, 0, 0, 0] {
        o.extend(le32(x));
    }
    assert_eq!(o.len(), 80);
    o
}
pub fn ogg_audio_pages(serial: u32, mut seq: u32) -> Vec<u8> {
    let mut o = Vec::new();
    let a = pat(70, 12);
    let b = pat(300, 13);
    let c = pat(55, 14);
    o.extend(ogg_page(0, 1000, serial, seq, &[&a, &b]));
    seq += 1;
    // packet spanning two pages: 510 bytes on the first (no granule end), rest on next
    let big = pat(600, 15);
    o.extend(ogg_page_raw(0, u64::MAX, serial, seq, &[255, 255], &big[..510]));
    seq += 1;
    o.extend(ogg_page_raw(1, 44100, serial, seq, &[90], &big[510..]));
    seq += 1;
    o.extend(ogg_page(4, 88200, serial, seq, &[&c]));
    o
}
pub fn ogg_many_pages(serial: u32, mut seq: u32, n: u32) -> Vec<u8> {
    let mut o = Vec::new();
    for i in 0..n {
        let (a, b) = (rnd(400 + (i % 90) as usize, i), rnd(255 * (i % 3) as usize, i + 7));
        o.extend(ogg_page(if i + 1 == n { 4 } else { 0 }, 1000 * (i as u64 + 1), serial, seq, &[&a, &b]));
        seq += 1;
    }
    o
}
pub fn vorbis_file(items: &[(&str, &str)]) -> Vec<u8> {
    let s = 0x1234_5678;
    let mut o = ogg_page(2, 0, s, 0, &[&vorbis_ident()]);
    o.extend(ogg_page(0, 0, s, 1, &[&vorbis_comment_packet("vend", items), &vorbis_setup(40)]));
    o.extend(ogg_audio_pages(s, 2));
    o
}
pub fn opus_file(items: &[(&str, &str)]) -> Vec<u8> {
    let s = 0x0BAD_CAFE;
    let mut o = ogg_page(2, 0, s, 0, &[&opus_head()]);
    o.extend(ogg_page(0, 0, s, 1, &[&opus_tags("vend", items)]));
    o.extend(ogg_audio_pages(s, 2));
    o
}
pub fn speex_file(items: &[(&str, &str)]) -> Vec<u8> {
    let s = 0x0000_5EED;
    let mut o = ogg_page(2, 0, s, 0, &[&speex_head()]);
    o.extend(ogg_page(0, 0, s, 1, &[&vorbis_comments("vend", items)]));
    o.extend(ogg_audio_pages(s, 2));
    o
}

// ---------------------------------------------------------------- MP4
pub fn atom(id: &[u8; 4], data: &[u8]) -> Vec<u8> {
    let mut o = be32(data.len() as u32 + 8).to_vec();
    o.extend(id);
    o.extend(data);
    o
}
pub fn atom_ext(id: &[u8; 4], data: &[u8]) -> Vec<u8> {
    let mut o = be32(1).to_vec();
    o.extend(id);
    o.extend((data.len() as u64 + 16).to_be_bytes());
    o.extend(data);
    o
}
pub fn ftyp() -> Vec<u8> {
    let mut d = b"M4A ".to_vec();
    d.extend(be32(512));
    d.extend(b"M4A mp42");
    atom(b"ftyp", &d)
}
pub fn ilst_text(id: &[u8; 4], s: &str) -> Vec<u8> {
    let mut d = be32(1).to_vec();
    d.extend(be32(0));
    d.extend(s.as_bytes());
    atom(id, &atom(b"data", &d))
}
pub fn hdlr_mdir() -> Vec<u8> {
    let mut d = vec![0; 8];
    d.extend(b"mdirappl");
    d.extend([0; 9]);
    atom(b"hdlr", &d)
}
pub fn meta_full(children: &[Vec<u8>]) -> Vec<u8> {
    let mut d = vec![0; 4];
    d.extend(children.concat());
    atom(b"meta", &d)
}
pub fn meta_nonfull(children: &[Vec<u8>]) -> Vec<u8> {
    atom(b"meta", &children.concat())
}
pub fn free(n: usize) -> Vec<u8> {
    assert!(n >= 8);
    atom(b"free", &vec![0; n - 8])
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Off {
    Stco,
    Co64,
    Both,
}
/// `trak` with chunk offsets
pub fn trak(offsets: &[u64], off: Off) -> Vec<u8> {
    let mut mdhd = vec![0; 4];
    mdhd.extend(be32(0));
    mdhd.extend(be32(0));
    mdhd.extend(be32(44100));
    mdhd.extend(be32(88200));
    mdhd.extend([0; 4]);
    let mut hdlr = vec![0; 8];
    hdlr.extend(b"soun");
    hdlr.extend([0; 12]);
    hdlr.push(0);
    let mut esds = vec![0; 4];
    // ES descriptor
    let asc = [0x12u8, 0x10]; // AAC LC 44100 stereo
    let dsi = { let mut v = vec![5u8, 2]; v.extend(asc); v };
    let mut dc = vec![0x40, 0x15, 0, 0, 0];
    dc.extend(be32(130_000));
    dc.extend(be32(128_000));
    dc.extend(dsi);
    let mut es = vec![0, 1, 0];
    es.push(4);
    es.push(dc.len() as u8);
    es.extend(dc);
    esds.push(3);
    esds.push(es.len() as u8);
    esds.extend(es);
    let mut mp4a = vec![0; 6];
    mp4a.extend(1u16.to_be_bytes());
    mp4a.extend([0; 8]);
    mp4a.extend(2u16.to_be_bytes());
    mp4a.extend(16u16.to_be_bytes());
    mp4a.extend([0; 4]);
    mp4a.extend(be32(44100 << 16));
    mp4a.extend(atom(b"esds", &esds));
    let mut stsd = vec![0; 4];
    stsd.extend(be32(1));
    stsd.extend(atom(b"mp4a", &mp4a));
    let mut stts = vec![0; 4];
    stts.extend(be32(1));
    stts.extend(be32(86));
    stts.extend(be32(1024));
    let mut stbl = atom(b"stsd", &stsd);
    stbl.extend(atom(b"stts", &stts));
    let stco = |o: &[u64]| {
        let mut d = vec![0; 4];
        d.extend(be32(o.len() as u32));
        for x in o {
            d.extend(be32(*x as u32));
        }
        atom(b"stco", &d)
    };
    let co64 = |o: &[u64]| {
        let mut d = vec![0; 4];
        d.extend(be32(o.len() as u32));
        for x in o {
            d.extend(x.to_be_bytes());
        }
        atom(b"co64", &d)
    };
    match off {
        Off::Stco => stbl.extend(stco(offsets)),
        Off::Co64 => stbl.extend(co64(offsets)),
        Off::Both => {
            stbl.extend(stco(offsets));
            stbl.extend(co64(offsets));
        }
    }
    let mut minf = atom(b"smhd", &[0; 8]);
    minf.extend(atom(b"stbl", &stbl));
    let mut mdia = atom(b"mdhd", &mdhd);
    mdia.extend(atom(b"hdlr", &hdlr));
    mdia.extend(atom(b"minf", &minf));
    let mut t = atom(b"tkhd", &[0; 84]);
    t.extend(atom(b"mdia", &mdia));
    atom(b"trak", &t)
}
pub fn mvhd() -> Vec<u8> {
    let mut d = vec![0; 12];
    d.extend(be32(1000));
    d.extend(be32(2000));
    d.extend([0; 80]);
    atom(b"mvhd", &d)
}
#[derive(Clone, Debug)]
pub struct Mp4Layout {
    pub udta: Option<Vec<Vec<u8>>>, // children of udta
    pub udta_before_trak: bool,
    pub mdat_first: bool,
    pub off: Off,
    pub between: Vec<u8>, // atoms between moov and mdat
    pub after: Vec<u8>,   // atoms at the end
    pub moov_extended: bool,
    pub moof: bool,
    pub big: usize,
    /// number of tracks - 1
    pub more_tracks: usize,
    /// a second `mdat` behind everything else, with the chunk offsets alternating between both
    pub mdat2: bool,
    /// tags of the track and of `moov` itself, that don't belong to the file's tag
    pub other_meta: bool,
    /// the size of `mdat`: 0 plain, 1 extended, 2 up to the end of the file
    pub mdat_kind: u8,
}
impl Default for Mp4Layout {
    fn default() -> Self {
        Mp4Layout { udta: None, udta_before_trak: false, mdat_first: false, off: Off::Stco, between: vec![], after: vec![], moov_extended: false, moof: false, big: 0, more_tracks: 0, mdat2: false, other_meta: false, mdat_kind: 0 }
    }
}
pub fn mp4_file(l: &Mp4Layout) -> Vec<u8> {
    let mut mdat_body = pat(160, 17);
    mdat_body.extend(rnd(l.big, 3));
    let build = |base: u64, base2: u64, moofs: [u64; 2]| {
        let moof_base = base + 20;
        let mut offs = vec![base, base + 40, base + 100];
        if l.mdat2 {
            offs = vec![base, base2, base + 40, base2 + 16, base + 100, base2 + 32];
        }
        let mut m = mvhd();
        let u = l.udta.as_ref().map(|c| atom(b"udta", &c.concat()));
        if l.udta_before_trak {
            if let Some(u) = &u {
                m.extend(u);
            }
        }
        for i in 0..=l.more_tracks {
            let o: Vec<u64> = offs.iter().map(|o| o + 3 * i as u64).collect();
            let mut t = trak(&o, if i == 1 && l.off == Off::Stco { Off::Co64 } else { l.off });
            if l.other_meta {
                t.extend(atom(b"udta", &mp4_udta(Some(vec![ilst_text(b"\xa9nam", "of the track")]), 12, 300).concat()));
                let n = be32(t.len() as u32);
                t[..4].copy_from_slice(&n);
            }
            m.extend(t);
        }
        if l.other_meta {
            m.extend(meta_full(&[hdlr_mdir(), atom(b"ilst", &ilst_text(b"\xa9nam", "of moov"))]));
        }
        if !l.udta_before_trak {
            if let Some(u) = &u {
                m.extend(u);
            }
        }
        let moov = if l.moov_extended { atom_ext(b"moov", &m) } else { atom(b"moov", &m) };
        let mut moof = Vec::new();
        if l.moof {
            let mut tfhd = vec![0, 0, 0, 1];
            tfhd.extend(be32(1));
            tfhd.extend(moof_base.to_be_bytes());
            let mut traf = atom(b"tfhd", &tfhd);
            traf.extend(atom(b"trun", &[0; 8]));
            let mut mf = atom(b"mfhd", &[0; 8]);
            mf.extend(atom(b"traf", &traf));
            if l.more_tracks > 0 {
                // a second track fragment without a base offset, and one with
                mf.extend(atom(b"traf", &atom(b"tfhd", &[0, 2, 0, 0, 0, 0, 0, 2])));
                // followed by default duration, size and flags
                let mut tfhd = vec![0, 0, 0, 0x39];
                tfhd.extend(be32(3));
                tfhd.extend((moof_base + 5).to_be_bytes());
                tfhd.extend(pat(12, 31));
                mf.extend(atom(b"traf", &atom(b"tfhd", &tfhd)));
            }
            moof = atom(b"moof", &mf);
            if l.more_tracks > 0 {
                moof.extend(moof.clone());
            }
        }
        let half = moof.len() as u64 / 2;
        let mdat = match l.mdat_kind {
            0 => atom(b"mdat", &mdat_body),
            1 => atom_ext(b"mdat", &mdat_body),
            _ => [&[0; 4][..], b"mdat", &mdat_body].concat(),
        };
        let mdat_head = mdat.len() - mdat_body.len();
        let mut o = ftyp();
        let mdat_pos;
        let moof_pos;
        if l.mdat_first {
            mdat_pos = o.len() + mdat_head;
            o.extend(&mdat);
            o.extend(&l.between);
            o.extend(moov);
            moof_pos = o.len() as u64;
            o.extend(&moof);
        } else {
            o.extend(moov);
            moof_pos = o.len() as u64;
            o.extend(&moof);
            o.extend(&l.between);
            mdat_pos = o.len() + mdat_head;
            o.extend(&mdat);
        }
        o.extend(&l.after);
        let mdat2_pos = o.len() + 8;
        if l.mdat2 {
            o.extend(atom(b"mdat", &rnd(64, 9)));
        }
        if l.moof {
            // random access tables of both versions, with numbers of different widths
            let mut mfra = Vec::new();
            for (version, lengths, entries) in [(0u8, 0u32, 2), (1, 0x1B, 3), (0, 0x24, 3), (1, 0, 0)] {
                let mut t = vec![version, 0, 0, 0];
                t.extend(be32(1));
                t.extend(be32(lengths));
                t.extend(be32(entries));
                for i in 0..entries {
                    let at = moofs[i as usize % 2];
                    if version == 1 {
                        t.extend((u64::MAX - u64::from(i)).to_be_bytes());
                        t.extend(at.to_be_bytes());
                    } else {
                        t.extend(be32(u32::MAX - i));
                        t.extend(be32(at as u32));
                    }
                    for sh in [4, 2, 0] {
                        t.extend(pat(1 + (lengths >> sh & 3) as usize, i as u8 + 1));
                    }
                }
                mfra.extend(atom(b"tfra", &t));
            }
            let n = mfra.len() as u32 + 8 + 16;
            mfra.extend(atom(b"mfro", &[&[0; 4][..], &be32(n)].concat()));
            o.extend(atom(b"mfra", &mfra));
        }
        (o, mdat_pos as u64, mdat2_pos as u64, [moof_pos, moof_pos + if l.more_tracks > 0 { half } else { 0 }])
    };
    let (_, p, q, m) = build(0, 0, [0; 2]);
    build(p, q, m).0
}
pub fn mp4_udta(ilst: Option<Vec<Vec<u8>>>, pre_free: usize, post_free: usize) -> Vec<Vec<u8>> {
    let mut ch = vec![hdlr_mdir()];
    if pre_free > 0 {
        ch.push(free(pre_free));
    }
    if let Some(i) = ilst {
        ch.push(atom(b"ilst", &i.concat()));
    }
    if post_free > 0 {
        ch.push(free(post_free));
    }
    vec![meta_full(&ch)]
}
pub fn png(n: usize) -> Vec<u8> {
    // minimal PNG header: 3x5, 8 bit RGB, followed by IEND-like filler
    let mut o = vec![0x89, b'P', b'N', b'G', 0x0D, 0x0A, 0x1A, 0x0A];
    o.extend(be32(13));
    o.extend(b"IHDR");
    o.extend(be32(3));
    o.extend(be32(5));
    o.extend([8, 2, 0, 0, 0]);
    o.extend([1, 2, 3, 4]);
    o.extend(pat(n, 20));
    o
}
pub fn jpeg(n: usize) -> Vec<u8> {
    let mut o = vec![0xFF, 0xD8, 0xFF, 0xE0, 0, 4, 1, 1];
    o.extend([0xFF, 0xC0, 0, 11, 8, 0, 5, 0, 3, 1, 0x11, 0x22, 0]);
    o.extend(pat(n, 21));
    o.extend([0xFF, 0xD9]);
    o
}
