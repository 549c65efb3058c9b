//! Initial file layouts for every format.
use crate::mk::*;
use crate::walk::Fmt;

pub struct Layout {
    pub name: String,
    pub fmt: Fmt,
    pub bytes: Vec<u8>,
    /// well-formed in every respect (strict walker must accept it)
    pub core: bool,
}
fn l(v: &mut Vec<Layout>, fmt: Fmt, name: impl Into<String>, bytes: Vec<u8>, core: bool) {
    v.push(Layout { name: name.into(), fmt, bytes, core });
}
pub fn v2(title: &str, pad: usize) -> Vec<u8> {
    id3v2_simple(title, pad)
}
pub fn v23(title: &str, pad: usize) -> Vec<u8> {
    let mut c = vec![0u8];
    c.extend(title.as_bytes());
    id3v2_tag(3, 0, &id3v2_frame_v3("TIT2", &c), pad)
}
pub fn audio(f: Fmt) -> Vec<u8> {
    match f {
        Fmt::Aac => aac_audio(6),
        Fmt::Mpeg => mpeg_audio(6),
        Fmt::Ape => ape_audio(),
        Fmt::Mpc => mpc_sv8(),
        Fmt::WavPack => wavpack_audio(),
        _ => layouts(f, false).into_iter().find(|l| l.core).unwrap().bytes,
    }
}
fn cnt(full: bool) -> usize {
    if full { usize::MAX } else { 2 }
}
/// Layouts. `full` adds the more exotic ones.
pub fn layouts(f: Fmt, full: bool) -> Vec<Layout> {
    let mut v = Vec::new();
    match f {
        Fmt::Aac | Fmt::Mpeg | Fmt::Ape | Fmt::Mpc | Fmt::WavPack => {
            let a = audio(f);
            // leading part
            let mut lead: Vec<(&str, Vec<u8>)> = vec![("", vec![])];
            if f != Fmt::WavPack {
                lead.push(("v2", v2("init2", 0)));
                lead.push(("v2pad", v2("init2", 64)));
                if full {
                    lead.push(("v23", v23("init3", 10)));
                    lead.push(("v2ftr", id3v2_tag(4, 0x10, &text_frame_v4("TIT2", "ftr"), 0)));
                }
            }
            let ape_ok = f != Fmt::Aac;
            let mut tail: Vec<(String, Vec<u8>)> = Vec::new();
            for ape in 0..if ape_ok { 3 } else { 1 } {
                for ly in [false, true] {
                    // Lyrics3 is an MPEG-world convention; the other readers document support through find_lyrics3v2
                    if ly && f == Fmt::Aac {
                        continue;
                    }
                    for v1 in [false, true] {
                        if ly && !v1 {
                            continue;
                        }
                        if ape == 2 && (ly || !full) {
                            continue;
                        }
                        let mut t = Vec::new();
                        let mut n = String::new();
                        match ape {
                            1 => {
                                t.extend(ape_tag("initape"));
                                n.push_str("+ape");
                            }
                            2 => {
                                t.extend(ape_tag_full(&[("Title", 0, b"nohdr")], false, true));
                                n.push_str("+apenohdr");
                            }
                            _ => {}
                        }
                        if ly {
                            t.extend(lyrics3v2("some lyrics"));
                            n.push_str("+lyr");
                        }
                        if v1 {
                            t.extend(id3v1("init1", "art1", 7));
                            n.push_str("+v1");
                        }
                        tail.push((n, t));
                    }
                }
            }
            if full && f == Fmt::Mpeg {
                // what only resembles the end of a tag is audio: one byte short, a wrong letter
                let near = [[b"TAG".to_vec(), vec![b'x'; 124]].concat(), [b"APETAKEX\xD0\x07".to_vec(), vec![0; 22]].concat(), [b"3DI\x04\0\x00\0\0\0\x05".to_vec(), vec![b'y'; 4]].concat()];
                for (i, n) in near.iter().enumerate() {
                    for (tn, tb) in [("", vec![]), ("+ape+v1", [ape_tag("initape"), id3v1("init1", "art1", 7)].concat()), ("+v1", id3v1("init1", "art1", 7))] {
                        tail.push((format!("+near{i}{tn}"), [n.clone(), tb].concat()));
                    }
                }
            }
            for (ln, lb) in &lead {
                for (tn, tb) in &tail {
                    l(&mut v, f, format!("{ln}{tn}"), [lb.clone(), a.clone(), tb.clone()].concat(), true);
                }
            }
            // leading APE tags: against the specification, but read (and moved to the end when saved)
            if f == Fmt::Mpeg {
                let la = ape_tag("leadape");
                for (tn, tb) in &tail {
                    if tn.contains("ape") {
                        continue;
                    }
                    l(&mut v, f, format!("apelead{tn}"), [la.clone(), a.clone(), tb.clone()].concat(), true);
                    if f != Fmt::WavPack {
                        l(&mut v, f, format!("v2+apelead{tn}"), [v2("init2", 7), la.clone(), a.clone(), tb.clone()].concat(), true);
                    }
                }
            }
            // duplicate ID3v2 tags are read as one and replaced as one
            if matches!(f, Fmt::Mpeg | Fmt::Aac) {
                for (tn, tb) in &tail {
                    l(&mut v, f, format!("v2+v2{tn}"), [v2("init2", 7), v2("again", 20), a.clone(), tb.clone()].concat(), true);
                }
            }
            // bytes that belong to nothing in front of the audio
            if matches!(f, Fmt::Mpeg | Fmt::Aac) {
                for (tn, tb) in tail.iter().take(cnt(full)) {
                    for (jn, j) in [("zeros", vec![0u8; 37]), ("junk", pat(37, 3).iter().map(|x| x & 0x7F).collect())] {
                        if jn == "junk" && f == Fmt::Aac {
                            continue;
                        }
                        l(&mut v, f, format!("{jn}{tn}"), [j.clone(), a.clone(), tb.clone()].concat(), true);
                        l(&mut v, f, format!("v2+{jn}{tn}"), [v2("init2", 7), j.clone(), a.clone(), tb.clone()].concat(), true);
                    }
                }
            }
            // the letters "ID3" inside the audio data are not a tag
            if matches!(f, Fmt::Mpeg | Fmt::Aac) {
                let mut b = a.clone();
                b[30..40].copy_from_slice(&[b'I', b'D', b'3', 4, 0, 0, 0, 0, 0, 60]);
                for (tn, tb) in &tail {
                    l(&mut v, f, format!("id3inaudio{tn}"), [b.clone(), tb.clone()].concat(), true);
                    l(&mut v, f, format!("v2+id3inaudio{tn}"), [v2("init2", 7), b.clone(), tb.clone()].concat(), true);
                }
            }
            if f == Fmt::Mpc {
                for (tn, tb) in &tail {
                    l(&mut v, f, format!("sv7{tn}"), [mpc_sv7(), tb.clone()].concat(), true);
                }
            }
        }
        Fmt::Flac => {
            let vc = |t: &str| (4u8, vorbis_comments("vend", &[("TITLE", t)]));
            let pad = |n: usize| (1u8, vec![0; n]);
            let app = (2u8, [b"test".to_vec(), pat(13, 1)].concat());
            let seek = (3u8, pat(18, 2));
            let cue = (5u8, pat(33, 3));
            let unk = (60u8, pat(7, 4));
            let picb = (6u8, flac_picture(0, "pic", &png(9)));
            let pic2 = (6u8, flac_picture(3, "cov", &png(10)));
            let mut add = |n: &str, b: Vec<(u8, Vec<u8>)>| l(&mut v, f, n, flac_file(&b), true);
            add("bare", vec![]);
            add("vc", vec![vc("init")]);
            add("vc-pad", vec![vc("init"), pad(100)]);
            add("pad-vc", vec![pad(100), vc("init")]);
            add("pad-only", vec![pad(60)]);
            add("app-vc-seek", vec![app.clone(), vc("init"), seek.clone()]);
            add("seek-vc-app-pad", vec![seek.clone(), vc("init"), app.clone(), pad(2000)]);
            add("pic-vc-unk", vec![picb.clone(), vc("init"), unk.clone()]);
            add("vc-pic-pad-app", vec![vc("init"), picb.clone(), pad(40), app.clone()]);
            add("pic-only", vec![picb.clone()]);
            add("app-only", vec![app.clone()]);
            add("cue-pad0-vc", vec![cue.clone(), pad(0), vc("init")]);
            if full {
                add("vc-app", vec![vc("init"), app.clone()]);
                add("vc-pad-pad-app", vec![vc("init"), pad(10), pad(20), app.clone()]);
                add("pad-app-pad-vc-pad", vec![pad(10), app.clone(), pad(20), vc("init"), pad(30)]);
                add("pic-app-pic-vc", vec![picb.clone(), app.clone(), pic2.clone(), vc("init")]);
                add("vc-unk-cue-seek-app", vec![vc("init"), unk.clone(), cue.clone(), seek.clone(), app.clone()]);
                add("app-app", vec![app.clone(), app.clone(), vc("init"), app.clone()]);
                add("vc-pad-big", vec![vc("init"), pad(80_000)]);
            }
            for (n, p) in [("v2", v2("init2", 0)), ("v2pad", v2("init2", 30))] {
                l(&mut v, f, format!("{n}-vc-pad"), [p.clone(), flac_file(&[vc("init"), pad(50)])].concat(), true);
                l(&mut v, f, format!("{n}-bare"), [p, flac_file(&[])].concat(), true);
            }
        }
        Fmt::Wav => {
            let fmt = wav_fmt();
            let data = chunk_le(b"data", &pat(80, 5));
            let dodd = chunk_le(b"data", &pat(81, 5));
            let li = list_info(&[("INAM", "init")]);
            let li2 = list_info(&[("INAM", "in"), ("ISBJ", "odds")]);
            let id = chunk_le(b"ID3 ", &v2("init2", 0));
            let idl = chunk_le(b"id3 ", &v2("init2", 3));
            let bext = chunk_le(b"bext", &pat(11, 6));
            let adtl = chunk_le(b"LIST", &[b"adtl".to_vec(), pat(12, 7)].concat());
            let fact = chunk_le(b"fact", &be32(7));
            let mut add = |n: &str, c: Vec<&Vec<u8>>| l(&mut v, f, n, riff(&c.into_iter().cloned().collect::<Vec<_>>()), true);
            add("bare", vec![&fmt, &data]);
            add("odd", vec![&fmt, &dodd]);
            add("li-end", vec![&fmt, &data, &li]);
            add("li2-end", vec![&fmt, &dodd, &li2]);
            add("li-mid", vec![&fmt, &li, &data]);
            add("li2-mid", vec![&fmt, &li2, &data, &bext]);
            add("id3-end", vec![&fmt, &data, &id]);
            add("id3-mid", vec![&fmt, &id, &data]);
            add("id3l-mid-bext", vec![&fmt, &idl, &data, &bext]);
            add("li-id3", vec![&fmt, &data, &li, &id]);
            add("id3-li", vec![&fmt, &dodd, &id, &li2]);
            add("adtl-li-bext-id3", vec![&fmt, &adtl, &data, &li, &bext, &id]);
            // list types that only resemble INFO, and chunks whose names only resemble those of ID3v2
            let near: Vec<Vec<u8>> = [&b"info"[..], b"INF0", b"NFO ", b"Info"].iter().map(|t| chunk_le(b"LIST", &[t.to_vec(), pat(12, 9)].concat())).collect();
            let near3 = [chunk_le(b"Id3 ", &pat(12, 5)), chunk_le(b"ID3v", &pat(11, 4)), chunk_le(b"list", &[b"INFO".to_vec(), pat(12, 3)].concat())].concat();
            add("near-li-id3", vec![&fmt, &near[0], &data, &near[1], &near[3], &near3, &li, &id]);
            add("near-data", vec![&near[0], &near[3], &fmt, &near3, &data]);
            add("bext-fact", vec![&bext, &fmt, &fact, &data, &adtl]);
            {
                // chunks followed by data that is not part of the RIFF stream
                let junk = pat(37, 9);
                for (n, c) in [("bare", vec![&fmt, &data]), ("li-id3", vec![&fmt, &data, &li, &id]), ("id3-li2", vec![&fmt, &id, &data, &li2]), ("li2-id3l", vec![&fmt, &li2, &dodd, &idl])] {
                    let r = riff(&c.into_iter().cloned().collect::<Vec<_>>());
                    l(&mut v, f, format!("{n}-trailing"), [r, junk.clone()].concat(), true);
                }
                // the last chunk lacks its padding byte
                for (n, mut c) in [("odd-nopad", vec![fmt.clone(), dodd.clone()]), ("id3-odd-nopad", vec![fmt.clone(), id.clone(), dodd.clone()]), ("li-odd-nopad", vec![fmt.clone(), li.clone(), dodd.clone()])] {
                    c.last_mut().unwrap().pop();
                    l(&mut v, f, n, riff(&c), false);
                }
                // a LIST chunk of odd size, padded outside
                let mut raw = b"INFOINAM".to_vec();
                raw.extend(le32(5));
                raw.extend(b"init\0");
                let lodd = chunk_le(b"LIST", &raw);
                for (n, c) in [("lodd-end", vec![&fmt, &data, &lodd]), ("lodd-mid", vec![&fmt, &lodd, &data]), ("lodd-id3-bext", vec![&fmt, &lodd, &id, &data, &bext])] {
                    l(&mut v, f, n, riff(&c.into_iter().cloned().collect::<Vec<_>>()), false);
                }
            }
            let mut add = |n: &str, c: Vec<&Vec<u8>>| l(&mut v, f, n, riff(&c.into_iter().cloned().collect::<Vec<_>>()), true);
            if full {
                add("id3-first", vec![&id, &fmt, &data, &li]);
                add("li-first", vec![&li, &fmt, &data, &id]);
                add("li2-id3l-bext", vec![&fmt, &li2, &idl, &data, &bext]);
                add("id3l-li2-adtl", vec![&fmt, &data, &idl, &li2, &adtl]);
                add("adtl-end", vec![&fmt, &data, &adtl]);
                add("bext-end", vec![&fmt, &dodd, &bext]);
            }
        }
        Fmt::Aiff => {
            let comm = aiff_comm(20);
            let ssnd = aiff_ssnd(80);
            let sodd = aiff_ssnd(81);
            let name = chunk_be(b"NAME", b"init");
            let nodd = chunk_be(b"NAME", b"ini");
            let auth = chunk_be(b"AUTH", b"who");
            let anno = chunk_be(b"ANNO", b"note");
            let cpr = chunk_be(b"(c) ", b"2020 x");
            let comt = chunk_be(b"COMT", &[0, 1, 0, 0, 0, 5, 0, 0, 0, 3, b'a', b'b', b'c', 0]);
            let id = chunk_be(b"ID3 ", &v2("init2", 0));
            let idl = chunk_be(b"id3 ", &v2("init2", 3));
            let mark = chunk_be(b"MARK", &pat(9, 8));
            let appl = chunk_be(b"APPL", &[b"stoc".to_vec(), pat(6, 9)].concat());
            let mut add = |n: &str, c: Vec<&Vec<u8>>| l(&mut v, f, n, form_aiff(&c.into_iter().cloned().collect::<Vec<_>>()), true);
            add("bare", vec![&comm, &ssnd]);
            add("odd", vec![&comm, &sodd]);
            add("name-end", vec![&comm, &ssnd, &name]);
            add("name-mid", vec![&comm, &name, &ssnd]);
            add("nodd-auth-mid", vec![&comm, &nodd, &auth, &ssnd, &mark]);
            add("text-split", vec![&name, &comm, &anno, &ssnd, &auth, &cpr]);
            add("comt", vec![&comm, &comt, &ssnd, &anno]);
            add("id3-end", vec![&comm, &ssnd, &id]);
            add("id3-mid", vec![&comm, &id, &ssnd]);
            add("id3l-mid-mark", vec![&comm, &idl, &sodd, &mark]);
            add("name-id3", vec![&comm, &ssnd, &nodd, &id]);
            add("id3-name", vec![&comm, &sodd, &id, &name]);
            add("mark-appl", vec![&mark, &comm, &appl, &ssnd]);
            // names that only resemble those of tags
            let near: Vec<Vec<u8>> = [b"name", b"Id3 ", b"ID3v", b"ANN0", b"AUTh", b"(C) "].iter().map(|t| chunk_be(*t, &pat(9, 9))).collect();
            add("near-mid", vec![&comm, &near[0], &near[1], &ssnd, &near[2], &name, &near[3], &id, &near[4], &near[5]]);
            add("near-end", vec![&near[5], &near[4], &comm, &ssnd, &anno, &near[0], &near[3]]);
            {
                let junk = pat(37, 9);
                for (n, c) in [("bare", vec![&comm, &ssnd]), ("name-id3", vec![&comm, &ssnd, &nodd, &id]), ("id3-name", vec![&comm, &id, &ssnd, &name]), ("anno-id3l", vec![&comm, &anno, &sodd, &idl])] {
                    let r = form_aiff(&c.into_iter().cloned().collect::<Vec<_>>());
                    l(&mut v, f, format!("{n}-trailing"), [r, junk.clone()].concat(), true);
                }
                for (n, mut c) in [("odd-nopad", vec![comm.clone(), sodd.clone()]), ("id3-odd-nopad", vec![comm.clone(), id.clone(), sodd.clone()]), ("name-odd-nopad", vec![comm.clone(), name.clone(), sodd.clone()])] {
                    c.last_mut().unwrap().pop();
                    l(&mut v, f, n, form_aiff(&c), false);
                }
            }
            let mut add = |n: &str, c: Vec<&Vec<u8>>| l(&mut v, f, n, form_aiff(&c.into_iter().cloned().collect::<Vec<_>>()), true);
            if full {
                add("id3-first", vec![&id, &comm, &ssnd, &name]);
                add("name-first-id3l", vec![&name, &comm, &idl, &ssnd, &auth]);
                add("appl-end", vec![&comm, &ssnd, &appl]);
                add("mark-end", vec![&comm, &sodd, &anno, &mark]);
                add("anno-anno", vec![&comm, &anno, &ssnd, &anno, &mark]);
            }
        }
        Fmt::Vorbis => {
            l(&mut v, f, "std", vorbis_file(&[("TITLE", "init")]), true);
            l(&mut v, f, "empty", vorbis_file(&[]), true);
            let s = 0x77;
            // comment and setup on separate pages
            let mut b = ogg_page(2, 0, s, 0, &[&vorbis_ident()]);
            b.extend(ogg_page(0, 0, s, 1, &[&vorbis_comment_packet("vend", &[("TITLE", "init")])]));
            b.extend(ogg_page(0, 0, s, 2, &[&vorbis_setup(300)]));
            b.extend(ogg_audio_pages(s, 3));
            l(&mut v, f, "sep-pages", b, true);
            // comment spanning pages, setup after
            let long = "y".repeat(1000);
            let c = vorbis_comment_packet("vend", &[("TITLE", "init"), ("X", &long)]);
            let mut b = ogg_page(2, 0, s, 0, &[&vorbis_ident()]);
            b.extend(ogg_page_raw(0, u64::MAX, s, 1, &[255, 255], &c[..510]));
            let su = vorbis_setup(700);
            let rest = &c[510..];
            b.extend(ogg_page_raw(1, 0, s, 2, &[lacing_of(rest.len()), lacing_of(su.len())].concat(), &[rest, &su].concat()));
            b.extend(ogg_audio_pages(s, 3));
            l(&mut v, f, "span", b, true);
            if full {
                // the setup header ends on a page that it shares with nothing, continued
                let mut b = ogg_page(2, 0, s, 0, &[&vorbis_ident()]);
                let su = vorbis_setup(600);
                let c = vorbis_comment_packet("vend", &[("TITLE", "init")]);
                b.extend(ogg_page_raw(0, 0, s, 1, &[lacing_of(c.len()), vec![255]].concat(), &[&c[..], &su[..255]].concat()));
                b.extend(ogg_page_raw(1, 0, s, 2, &lacing_of(su.len() - 255), &su[255..]));
                b.extend(ogg_audio_pages(s, 3));
                l(&mut v, f, "setup-span", b, true);
                // comment packet of exactly n*255 bytes
                let base = vorbis_comment_packet("vend", &[("T", "")]).len();
                let fill = "z".repeat(510 - base);
                l(&mut v, f, "lacing510", vorbis_file(&[("T", &fill)]), true);
            }
        }
        Fmt::Opus | Fmt::Speex => {
            let mkf = |items: &[(&str, &str)]| if f == Fmt::Opus { opus_file(items) } else { speex_file(items) };
            l(&mut v, f, "std", mkf(&[("TITLE", "init")]), true);
            l(&mut v, f, "empty", mkf(&[]), true);
            let s = 0x78;
            let long = "y".repeat(1000);
            let (h, c) = if f == Fmt::Opus {
                (opus_head(), opus_tags("vend", &[("TITLE", "init"), ("X", &long)]))
            } else {
                (speex_head(), vorbis_comments("vend", &[("TITLE", "init"), ("X", &long)]))
            };
            let mut b = ogg_page(2, 0, s, 0, &[&h]);
            b.extend(ogg_page_raw(0, u64::MAX, s, 1, &[255, 255], &c[..510]));
            b.extend(ogg_page(1, 0, s, 2, &[&c[510..]]));
            b.extend(ogg_audio_pages(s, 3));
            l(&mut v, f, "span", b, true);
        }
        Fmt::Mp4 => {
            let tit = || vec![ilst_text(b"\xa9nam", "init")];
            let mut add = |n: String, m: Mp4Layout| l(&mut v, f, n, mp4_file(&m), true);
            for mdat_first in [false, true] {
                let p = if mdat_first { "mf-" } else { "" };
                for off in if full || !mdat_first { vec![Off::Stco, Off::Co64, Off::Both] } else { vec![Off::Stco] } {
                    let base = Mp4Layout { mdat_first, off, ..Default::default() };
                    let o = format!("{p}{off:?}");
                    add(format!("{o}-noudta"), base.clone());
                    add(format!("{o}-ilst"), Mp4Layout { udta: Some(mp4_udta(Some(tit()), 0, 0)), ..base.clone() });
                    add(format!("{o}-ilst-free"), Mp4Layout { udta: Some(mp4_udta(Some(tit()), 0, 200)), ..base.clone() });
                    add(format!("{o}-free-ilst"), Mp4Layout { udta: Some(mp4_udta(Some(tit()), 100, 0)), ..base.clone() });
                    add(format!("{o}-noilst"), Mp4Layout { udta: Some(mp4_udta(None, 0, 0)), ..base.clone() });
                    add(format!("{o}-nometa"), Mp4Layout { udta: Some(vec![atom(b"name", b"trk")]), ..base.clone() });
                    if mdat_first {
                        add(format!("{o}-mdat2"), Mp4Layout { udta: Some(mp4_udta(Some(tit()), 0, 20)), mdat2: true, ..base.clone() });
                        add(format!("{o}-mdat2-noudta"), Mp4Layout { mdat2: true, ..base.clone() });
                    }
                    if off == Off::Stco || full {
                        add(format!("{o}-tracks"), Mp4Layout { udta: Some(mp4_udta(Some(tit()), 0, 20)), more_tracks: 2, mdat2: mdat_first, ..base.clone() });
                        add(format!("{o}-tracks-udta-first-moof"), Mp4Layout { udta: Some(mp4_udta(Some(tit()), 9, 0)), more_tracks: 1, udta_before_trak: true, moof: true, ..base.clone() });
                        add(format!("{o}-free-ilst-free"), Mp4Layout { udta: Some(mp4_udta(Some(tit()), 8, 50)), ..base.clone() });
                        // padding that isn't next to the list, with other atoms between them
                        add(
                            format!("{o}-free-xml-ilst-keys-free"),
                            Mp4Layout { udta: Some(vec![meta_full(&[hdlr_mdir(), free(900), atom(b"xml ", b"\0\0\0\0<a/>\0"), atom(b"ilst", &tit().concat()), atom(b"ID32", &[0, 0, 0, 0, 0x15, 0xC7]), free(900)])]), ..base.clone() },
                        );
                        add(format!("{o}-udta-first"), Mp4Layout { udta: Some(mp4_udta(Some(tit()), 0, 40)), udta_before_trak: true, ..base.clone() });
                        add(format!("{o}-nonfull"), Mp4Layout { udta: Some(vec![meta_nonfull(&[hdlr_mdir(), atom(b"ilst", &tit().concat())])]), ..base.clone() });
                        add(
                            format!("{o}-name-meta-name"),
                            Mp4Layout {
                                udta: Some(vec![atom(b"name", b"one"), mp4_udta(Some(tit()), 0, 0).remove(0), atom(b"cprt", b"two")]),
                                ..base.clone()
                            },
                        );
                        add(format!("{o}-moof"), Mp4Layout { udta: Some(mp4_udta(Some(tit()), 0, 0)), moof: true, ..base.clone() });
                        add(
                            format!("{o}-free-between"),
                            Mp4Layout { udta: Some(mp4_udta(Some(tit()), 0, 0)), between: free(64), after: atom(b"uuid", &pat(24, 1)), ..base.clone() },
                        );
                        // other lists than the file's, next to and in front of it
                        add(format!("{o}-othermeta"), Mp4Layout { udta: Some(mp4_udta(Some(tit()), 0, 30)), other_meta: true, ..base.clone() });
                        add(format!("{o}-othermeta-udta-first"), Mp4Layout { udta: Some(mp4_udta(None, 0, 30)), udta_before_trak: true, other_meta: true, more_tracks: 1, ..base.clone() });
                        add(format!("{o}-othermeta-noudta"), Mp4Layout { other_meta: true, ..base.clone() });
                        add(format!("{o}-extmdat"), Mp4Layout { udta: Some(mp4_udta(Some(tit()), 0, 0)), mdat_kind: 1, between: [free(20), atom(b"wide", &[])].concat(), ..base.clone() });
                        if !mdat_first {
                            add(format!("{o}-openmdat"), Mp4Layout { udta: Some(mp4_udta(Some(tit()), 0, 10)), mdat_kind: 2, ..base.clone() });
                        }
                        add(
                            format!("{o}-skip-ilst-skip"),
                            Mp4Layout { udta: Some(vec![meta_full(&[hdlr_mdir(), atom(b"skip", &pat(40, 2)), atom(b"ilst", &tit().concat()), atom(b"skip", &pat(700, 2)), free(20)])]), ..base.clone() },
                        );
                        add(format!("{o}-extmoov"), Mp4Layout { udta: Some(mp4_udta(Some(tit()), 0, 30)), moov_extended: true, ..base.clone() });
                        add(format!("{o}-extmoov-noudta"), Mp4Layout { moov_extended: true, ..base.clone() });
                    }
                }
            }
        }
    }
    if matches!(f, Fmt::Vorbis | Fmt::Opus | Fmt::Speex) {
        let mkf = |items: &[(&str, &str)]| match f {
            Fmt::Vorbis => vorbis_file(items),
            Fmt::Opus => opus_file(items),
            _ => speex_file(items),
        };
        let base = mkf(&[("TITLE", "init")]);
        // bytes behind the last page
        l(&mut v, f, "trailing", [base.clone(), pat(41, 3)].concat(), true);
        // a second logical stream chained behind the first
        let mut chain = ogg_page(2, 0, 0x1234, 0, &[b"\x7Fother stream"]);
        chain.extend(ogg_page(0, 10, 0x1234, 1, &[&pat(300, 4)]));
        chain.extend(ogg_page(4, 20, 0x1234, 2, &[&pat(30, 5)]));
        l(&mut v, f, "chained", [base.clone(), chain.clone()].concat(), true);
        // a second logical stream multiplexed between the pages behind the headers
        let mut errs = Vec::new();
        let (pages, _) = crate::walk::ogg_pages(&base, &mut errs);
        let serial = pages[0].serial;
        let mut first_audio = 0;
        let mut pos = 0;
        let mut cuts = Vec::new();
        for p in &pages {
            cuts.push(pos);
            pos += 27 + p.lacing.len() + p.body.len();
        }
        let hdr = if f == Fmt::Vorbis { 3 } else { 2 };
        let mut done = 0;
        for (i, p) in pages.iter().enumerate() {
            done += p.lacing.iter().filter(|x| **x < 255).count();
            if done >= hdr {
                first_audio = i + 1;
                break;
            }
        }
        assert!(serial != 0x1234 && first_audio < pages.len());
        let a = cuts[first_audio];
        let b = cuts.get(first_audio + 1).copied().unwrap_or(base.len());
        let o = crate::walk::ogg_pages(&chain, &mut errs).0;
        let n0 = 27 + o[0].lacing.len() + o[0].body.len();
        l(&mut v, f, "multiplexed", [&base[..a], &chain[..n0], &base[a..b], &chain[n0..], &base[b..]].concat(), true);
    }
    // more audio than any copy buffer holds
    let n = 150_001;
    let big = match f {
        Fmt::Mpeg => Some([v2("init2", 40), (0..1600).flat_map(|i| [vec![0xFF, 0xFB, 0x14, 0xC4], rnd(92, i)].concat()).collect(), id3v1("init1", "a", 1)].concat()),
        Fmt::Aac => Some([v2("init2", 40), (0..1600).flat_map(|i| aac_frame(&rnd(90, i), false)).collect()].concat()),
        Fmt::Flac => {
            let vc = |s: &str| (4u8, vorbis_comments("vend", &[("TITLE", s)]));
            Some([flac_file(&[vc("init"), (1, vec![0; 50])]), rnd(n, 1)].concat())
        }
        Fmt::Wav => Some(riff(&[wav_fmt(), chunk_le(b"ID3 ", &v2("init2", 0)), chunk_le(b"data", &rnd(n, 1)), list_info(&[("INAM", "init")])])),
        Fmt::Aiff => Some(form_aiff(&[aiff_comm(20), chunk_be(b"NAME", b"init"), [chunk_be(b"ID3 ", &v2("init2", 0)), chunk_be(b"SSND", &[vec![0; 8], rnd(n, 1)].concat())].concat()])),
        Fmt::Mp4 => Some(mp4_file(&Mp4Layout { udta: Some(mp4_udta(Some(vec![ilst_text(b"\xa9nam", "init")]), 0, 20)), big: n, ..Default::default() })),
        Fmt::Vorbis => Some([ogg_page(2, 0, 5, 0, &[&vorbis_ident()]), ogg_page(0, 0, 5, 1, &[&vorbis_comment_packet("vend", &[("TITLE", "init")]), &vorbis_setup(40)]), ogg_many_pages(5, 2, 270)].concat()),
        Fmt::Opus => Some([ogg_page(2, 0, 5, 0, &[&opus_head()]), ogg_page(0, 0, 5, 1, &[&opus_tags("vend", &[("TITLE", "init")])]), ogg_many_pages(5, 2, 270)].concat()),
        Fmt::Speex => Some([ogg_page(2, 0, 5, 0, &[&speex_head()]), ogg_page(0, 0, 5, 1, &[&vorbis_comments("vend", &[("TITLE", "init")])]), ogg_many_pages(5, 2, 270)].concat()),
        Fmt::Ape | Fmt::WavPack | Fmt::Mpc => None,
    };
    if let Some(b) = big {
        l(&mut v, f, "bigaudio", b, true);
    }
    v
}
pub fn flac_picture(ty: u32, desc: &str, data: &[u8]) -> Vec<u8> {
    let mut o = be32(ty).to_vec();
    o.extend(be32(9));
    o.extend(b"image/png");
    o.extend(be32(desc.len() as u32));
    o.extend(desc.as_bytes());
    for x in [3u32, 5, 24, 0] {
        o.extend(be32(x));
    }
    o.extend(be32(data.len() as u32));
    o.extend(data);
    o
}
