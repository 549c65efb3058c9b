//! Operations on an instrumented file, shared by the fault (C08) and the delivery (C09) checks.
use crate::api::*;
use crate::contents::*;
use crate::ctx::*;
use crate::fio::*;
use crate::layouts::*;
use crate::mk;
use crate::rich::*;
use crate::walk::*;
use lofty::config::{ParseOptions, ParsingMode};
use lofty::file::{AudioFile, TaggedFileExt};
use lofty::id3::v2::util::synchsafe::UnsynchronizedStream;
use lofty::probe::Probe;
use lofty::tag::{Tag, TagExt};
use std::io::Read;

pub struct IoCase {
    pub name: String,
    pub bytes: Vec<u8>,
    /// changes the file
    pub write: bool,
    pub run: Box<dyn Fn(&mut Fio) -> Result<String, String> + Sync + Send>,
}
impl IoCase {
    fn read(v: &mut Vec<IoCase>, name: String, b: &[u8], f: impl Fn(&mut Fio) -> Result<String, String> + Sync + Send + 'static) {
        v.push(IoCase { name, bytes: b.to_vec(), write: false, run: Box::new(f) });
    }
    fn write(v: &mut Vec<IoCase>, name: String, b: &[u8], f: impl Fn(&mut Fio) -> Result<String, String> + Sync + Send + 'static) {
        v.push(IoCase { name, bytes: b.to_vec(), write: true, run: Box::new(f) });
    }
    /// Runs under a deviation; a panic is an outer error.
    pub fn go(&self, dev: Dev, pos: u64) -> Result<(Result<String, String>, Fio), String> {
        let mut f = Fio::new(&self.bytes, dev).at(pos);
        let r = guard(|| (self.run)(&mut f))?;
        Ok((r, f))
    }
}
fn rd(v: &mut Vec<IoCase>, n: &str, f: Fmt, b: &[u8], thorough: bool) {
    let modes: &[ParsingMode] = if thorough { &[ParsingMode::BestAttempt, ParsingMode::Strict, ParsingMode::Relaxed] } else { &[ParsingMode::BestAttempt] };
    for m in modes {
        let m = *m;
        IoCase::read(v, format!("{n}:read:{m:?}"), b, move |r| read_r(f, r, po_mode(m)).map(|x| x.sig()));
    }
    IoCase::read(v, format!("{n}:guess"), b, |r| {
        let p = Probe::new(&mut *r).guess_file_type().map_err(er)?;
        let t = p.file_type();
        drop(p);
        Ok(format!("{t:?} at {}", r.pos))
    });
    IoCase::read(v, format!("{n}:probe"), b, |r| Probe::new(r).guess_file_type().map_err(er)?.read().map(|t| tagged_sig(&t)).map_err(er));
    IoCase::read(v, format!("{n}:read_cover0"), b, move |r| read_r(f, r, ParseOptions::new().read_cover_art(false)).map(|x| x.sig()));
    IoCase::read(v, format!("{n}:read_props0"), b, move |r| read_r(f, r, ParseOptions::new().read_properties(false)).map(|x| x.sig()));
    IoCase::read(v, format!("{n}:read_tags0"), b, move |r| read_r(f, r, ParseOptions::new().read_tags(false)).map(|x| x.sig()));
}
fn sv(v: &mut Vec<IoCase>, n: &str, f: Fmt, b: &[u8], thorough: bool) {
    for t in writable(f) {
        for (k, c) in [("A", K::A), ("B", K::B), ("E", K::E), ("P", K::P)] {
            if k == "P" && !thorough || k == "B" && t == T::Id3v1 {
                continue;
            }
            let x = content(t, c);
            IoCase::write(v, format!("{n}:save:{t:?}:{k}"), b, move |r| x.save_to(r, wo()).map(|_| String::new()).map_err(er));
        }
        let x = content(t, K::C);
        IoCase::write(v, format!("{n}:generic:{t:?}"), b, move |r| x.clone().into_tag().save_to(r, wo()).map(|_| String::new()).map_err(er));
        if t == T::Id3v2 {
            let x = content(t, K::C);
            IoCase::write(v, format!("{n}:save23:{t:?}"), b, move |r| x.save_to(r, wo().use_id3v23(true)).map(|_| String::new()).map_err(er));
        }
    }
    for t in readable(f) {
        IoCase::write(v, format!("{n}:remove:{t:?}"), b, move |r| tt(t).remove_from(r, wo()).map(|_| String::new()).map_err(er));
    }
    let all: Vec<Tag> = writable(f).into_iter().map(|t| content(t, K::A).into_tag()).collect();
    IoCase::write(v, format!("{n}:tagged"), b, move |r| {
        let tf = lofty::file::TaggedFile::new(ft(f), Default::default(), all.clone());
        tf.save_to(r, wo()).map(|_| String::new()).map_err(er)
    });
    // read, edit, save through the same handle
    IoCase::write(v, format!("{n}:edit"), b, move |r| {
        let mut tf = Probe::new(&mut *r).guess_file_type().map_err(er)?.read().map_err(er)?;
        let ty = tf.primary_tag_type();
        tf.remove(ty);
        tf.insert_tag(content(wt(ty), K::C).into_tag());
        r.pos = 0;
        tf.save_to(r, wo()).map(|_| String::new()).map_err(er)
    });
    IoCase::write(v, format!("{n}:others"), b, move |r| {
        let tf = lofty::file::TaggedFile::new(ft(f), Default::default(), vec![content(writable(f)[0], K::B).into_tag()]);
        tf.save_to(r, wo().remove_others(true)).map(|_| String::new()).map_err(er)
    });
}
/// One file per writable type that carries everything this type can hold, and well-formed layouts.
pub fn files(f: Fmt, per_fmt: usize, thorough: bool) -> Vec<(String, Vec<u8>)> {
    let ls: Vec<Layout> = layouts(f, true).into_iter().filter(|l| l.core && l.bytes.len() < 9000).collect();
    let n = if thorough { ls.len() } else { ls.len().min(per_fmt) };
    let st = (ls.len() / n).max(1);
    ls.into_iter().step_by(st).map(|l| (format!("{f:?}/{}", l.name), l.bytes)).collect()
}
pub fn rich_files(f: Fmt) -> Vec<(String, Vec<u8>)> {
    let mut v = Vec::new();
    let base = audio(f);
    for t in writable(f) {
        if let Ok(b) = everything(t).save(&base, wo()) {
            v.push((format!("{f:?}/rich-{t:?}"), b));
        }
    }
    v
}
pub fn cases(per_fmt: usize, thorough: bool) -> Vec<IoCase> {
    let mut v = Vec::new();
    for f in ALL_FMT {
        for (n, b) in files(f, per_fmt, thorough) {
            rd(&mut v, &n, f, &b, thorough);
            sv(&mut v, &n, f, &b, thorough);
        }
        for (n, b) in rich_files(f) {
            rd(&mut v, &n, f, &b, thorough);
        }
    }
    // files with tags of every ID3v2 version
    for (n, t) in crate::seeds::id3v2_tags() {
        if t.len() > 3000 {
            continue;
        }
        let mut b = t;
        b.extend(audio(Fmt::Mpeg));
        IoCase::read(&mut v, format!("id3v2/{n}:read"), &b, move |r| read_r(Fmt::Mpeg, r, po()).map(|x| x.sig()));
        let x = content(T::Id3v2, K::A);
        IoCase::write(&mut v, format!("id3v2/{n}:save"), &b, move |r| x.save_to(r, wo()).map(|_| String::new()).map_err(er));
    }
    // the Ogg pager
    let mut oggs: Vec<(String, Vec<u8>)> = vec![("vorbis".into(), mk::vorbis_file(&[("TITLE", "t")]))];
    let packets: Vec<Vec<u8>> = vec![mk::pat(40, 1), mk::pat(8160, 2), mk::pat(255, 3), vec![], mk::pat(700, 4)];
    if let Ok(pages) = ogg_pager::paginate(packets.iter().map(Vec::as_slice), 77, 5, 0) {
        oggs.push(("paged".into(), pages.into_iter().flat_map(|p| p.as_bytes()).collect()));
    }
    for (n, b) in oggs {
        IoCase::read(&mut v, format!("pager/{n}:read"), &b, |r| ogg_pager::Packets::read(r).map(|p| p.iter().map(|x| format!("{} {:x};", x.len(), h64(x))).collect()).map_err(er));
        for c in 1..=4 {
            IoCase::read(&mut v, format!("pager/{n}:read_count{c}"), &b, move |r| ogg_pager::Packets::read_count(r, c).map(|p| p.iter().map(|x| format!("{} {:x};", x.len(), h64(x))).collect()).map_err(er));
        }
        let len = b.len() as u64;
        IoCase::read(&mut v, format!("pager/{n}:pages"), &b, move |r| {
            let mut s = String::new();
            while r.pos < len {
                let p = ogg_pager::Page::read(r).map_err(er)?;
                s.push_str(&format!("{:?} {:x};", p.header(), h64(p.content())));
            }
            Ok(s)
        });
        IoCase::write(&mut v, format!("pager/{n}:write_to"), &[], move |r| {
            let mut p = ogg_pager::Packets::read(&mut std::io::Cursor::new(&b)).map_err(er)?;
            let n = p.write_to(r, 9, 3, 2).map_err(er)?;
            Ok(n.to_string())
        });
    }
    // pictures and unsynchronised streams
    for (n, b) in [("png", mk::png(50)), ("jpeg", mk::jpeg(50))] {
        IoCase::read(&mut v, format!("picture/{n}"), &b, |r| lofty::picture::Picture::from_reader(r).map(|p| format!("{p:?} {:x}", h64(p.data()))).map_err(er));
    }
    let mut u = Vec::new();
    for i in 0..1500usize {
        u.extend_from_slice(&[[0xFF, 0x00], [0x11, 0xFF], [0x00, 0x00], [0xFF, 0xE0], [0x12, 0x13]][(i * i + i / 7) % 5]);
    }
    IoCase::read(&mut v, "unsync/read_to_end".into(), &u, |r| {
        let mut o = Vec::new();
        UnsynchronizedStream::new(r).read_to_end(&mut o).map_err(er)?;
        Ok(format!("{} {:x}", o.len(), h64(&o)))
    });
    // dumps to a writer
    for t in ALL_T {
        let x = everything(t);
        IoCase::write(&mut v, format!("dump/{t:?}"), &[], move |r| {
            match &x {
                N::Id3v2(a) => a.dump_to(r, wo()),
                N::Id3v1(a) => a.dump_to(r, wo()),
                N::Ape(a) => a.dump_to(r, wo()),
                N::Vorbis(a) => a.dump_to(r, wo()),
                N::Ilst(a) => a.dump_to(r, wo()),
                N::Riff(a) => a.dump_to(r, wo()),
                N::Aiff(a) => a.dump_to(r, wo()),
            }
            .map(|_| String::new())
            .map_err(er)
        });
        let x = content(t, K::A).into_tag();
        IoCase::write(&mut v, format!("dump-generic/{t:?}"), &[], move |r| x.dump_to(r, wo()).map(|_| String::new()).map_err(er));
    }
    v
}
