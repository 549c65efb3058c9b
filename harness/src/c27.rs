//! C27: a tagged file is a collection of tags, and saving it makes the file follow. Every sequence of calls on `BoundTaggedFile`, `TaggedFile`
//! and the concrete file types, up to a depth and merging equal states, runs on the real objects and on a model (tags held, tags in the file).
use crate::api::*;
use crate::contents::*;
use crate::ctx::*;
use crate::layouts::*;
use crate::walk::*;
use lofty::config::WriteOptions;
use lofty::file::{AudioFile, BoundTaggedFile, FileType, TaggedFile, TaggedFileExt};
use lofty::properties::FileProperties;
use lofty::tag::{Accessor, ItemKey, Tag};
use serde_json::json;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::io::{Cursor, Read, Seek, SeekFrom, Write};
use std::sync::atomic::Ordering;
use std::sync::{Arc, Mutex};

/// A file whose content can be looked at while an object owns a handle to it
#[derive(Clone, Debug)]
struct Shared(Arc<Mutex<Cursor<Vec<u8>>>>);
impl Shared {
    fn new(b: &[u8]) -> Self {
        Shared(Arc::new(Mutex::new(Cursor::new(b.to_vec()))))
    }
    fn content_bytes(&self) -> Vec<u8> {
        self.0.lock().unwrap().get_ref().clone()
    }
}
impl Read for Shared {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.0.lock().unwrap().read(b)
    }
}
impl Write for Shared {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.lock().unwrap().write(b)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl Seek for Shared {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.0.lock().unwrap().seek(p)
    }
}
impl lofty::io::Truncate for Shared {
    fn truncate(&mut self, n: u64) -> Result<(), std::io::Error> {
        self.0.lock().unwrap().get_mut().truncate(n as usize);
        Ok(())
    }
}
impl lofty::io::Length for Shared {
    fn len(&self) -> Result<u64, std::io::Error> {
        Ok(self.0.lock().unwrap().get_ref().len() as u64)
    }
}

/// The content of a generic tag, without the vendor (it belongs to the file)
fn gsig(t: &Tag) -> String {
    let mut s = String::new();
    for i in t.items() {
        if i.key() != ItemKey::EncoderSoftware || wt(t.tag_type()) != T::Vorbis {
            s.push_str(&format!("{i:?}\n"));
        }
    }
    for p in t.pictures() {
        s.push_str(&format!("{p:?} {:x}\n", h64(p.data())));
    }
    s
}
type Tags = BTreeMap<T, String>;
fn in_file(f: Fmt, b: &[u8]) -> Result<Tags, String> {
    Ok(read_tagged(f, b, po())?.tags().iter().map(|t| (wt(t.tag_type()), gsig(t))).filter(|x| !x.1.is_empty()).collect())
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum C {
    A,
    B,
    /// pictures only
    P,
    Empty,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Op {
    Insert(T, C),
    Remove(T),
    Clear,
    Edit(T),
    EditFirst,
    EditPrimary,
    ClearTag(T),
    Save(u32),
    SaveOther,
    Reopen,
}
fn make(t: T, c: C) -> Tag {
    match c {
        C::A => content(t, K::A).into_tag(),
        C::B => content(t, K::P).into_tag(),
        C::Empty => Tag::new(tt(t)),
        C::P => {
            let mut x = Tag::new(tt(t));
            x.push_picture(pic(9));
            x
        }
    }
}
fn has_pictures(t: T) -> bool {
    matches!(t, T::Id3v2 | T::Ape | T::Vorbis | T::Ilst)
}
fn edit(t: &mut Tag) {
    let v = if t.title().as_deref() == Some("edited") { "edited again" } else { "edited" };
    t.set_title(v.to_string());
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Kind {
    Bound,
    Plain,
}
enum Obj {
    Bound(BoundTaggedFile<Shared>),
    Plain(TaggedFile),
}
impl Obj {
    fn open(k: Kind, f: &Shared) -> Result<Self, String> {
        f.0.lock().unwrap().set_position(0);
        Ok(match k {
            Kind::Bound => Obj::Bound(BoundTaggedFile::read_from(f.clone(), po()).map_err(er)?),
            Kind::Plain => Obj::Plain(TaggedFile::read_from(&mut f.clone(), po()).map_err(er)?),
        })
    }
}
macro_rules! obj {
    ($o:expr, $x:ident => $e:expr) => {
        match $o {
            Obj::Bound($x) => $e,
            Obj::Plain($x) => $e,
        }
    };
}
#[derive(Clone)]
struct Model {
    held: Vec<Tag>,
    file: Tags,
}
struct Env<'a> {
    cx: &'a Ctx,
    f: Fmt,
    base: Vec<u8>,
    other: Vec<u8>,
    canon: Mutex<HashMap<(T, u64), String>>,
}
impl Env<'_> {
    /// What a tag reads back as, when it's the only one saved
    fn canon(&self, t: &Tag) -> String {
        let k = (wt(t.tag_type()), h64(&gsig(t)));
        if let Some(s) = self.canon.lock().unwrap().get(&k) {
            return s.clone();
        }
        let mut c = Cursor::new(audio(self.f));
        let s = match t.save_to(&mut c, wo()) {
            Ok(()) => in_file(self.f, c.get_ref()).map(|mut m| m.remove(&k.0).unwrap_or_default()).unwrap_or_else(|e| format!("unreadable {e}")),
            Err(e) => format!("refused {}", er(e)),
        };
        self.canon.lock().unwrap().insert(k, s.clone());
        s
    }
    fn save_model(&self, held: &[Tag], file: &mut Tags) {
        for t in held {
            let ty = wt(t.tag_type());
            if !support(self.f, ty).1 {
                continue;
            }
            let s = if t.is_empty() { String::new() } else { self.canon(t) };
            if s.is_empty() {
                file.remove(&ty);
            } else {
                file.insert(ty, s);
            }
        }
    }
}
use lofty::tag::TagExt;
/// One call on the object and the model; the answer of the call is compared.
fn step(e: &Env, k: Kind, o: &mut Obj, m: &mut Model, fh: &Shared, op: Op) -> Result<(), String> {
    let pos = |m: &Model, t: T| m.held.iter().position(|x| wt(x.tag_type()) == t);
    let same = |a: &Option<Tag>, b: &Option<Tag>| a.as_ref().map(|t| (t.tag_type(), gsig(t))) == b.as_ref().map(|t| (t.tag_type(), gsig(t)));
    let o2 = |p: u32| WriteOptions::new().preferred_padding(p);
    match op {
        Op::Insert(t, c) => {
            let r = obj!(o, x => x.insert_tag(make(t, c)));
            let mut want = None;
            if support(e.f, t).0 {
                want = pos(m, t).map(|i| m.held.remove(i));
                m.held.push(make(t, c));
            }
            if !same(&r, &want) {
                return Err(format!("insert_tag returned {:?}, expected {:?}", r.as_ref().map(gsig), want.as_ref().map(gsig)));
            }
        }
        Op::Remove(t) => {
            let r = obj!(o, x => x.remove(tt(t)));
            let want = pos(m, t).map(|i| m.held.remove(i));
            if !same(&r, &want) {
                return Err(format!("remove returned {:?}, expected {:?}", r.as_ref().map(gsig), want.as_ref().map(gsig)));
            }
        }
        Op::Clear => {
            obj!(o, x => x.clear());
            m.held.clear();
        }
        Op::Edit(t) | Op::ClearTag(t) => {
            let go = |x: &mut Tag| if matches!(op, Op::Edit(_)) { edit(x) } else { x.clear() };
            let i = pos(m, t);
            let r = obj!(o, x => x.tag_mut(tt(t)).map(go).is_some());
            if r != i.is_some() {
                return Err(format!("tag_mut found a tag: {r}"));
            }
            if let Some(i) = i {
                go(&mut m.held[i]);
            }
        }
        Op::EditFirst => {
            // which one comes first is up to the object
            let first = obj!(o, x => x.tags().first().map(|t| wt(t.tag_type())));
            let r = obj!(o, x => x.first_tag_mut().map(|t| { edit(t); wt(t.tag_type()) }));
            if r != first {
                return Err(format!("first_tag_mut is {r:?}, the first tag {first:?}"));
            }
            if let Some(i) = first.and_then(|t| pos(m, t)) {
                edit(&mut m.held[i]);
            }
        }
        Op::EditPrimary => {
            let ty = obj!(o, x => x.primary_tag_type());
            let i = pos(m, wt(ty));
            let r = obj!(o, x => x.primary_tag_mut().map(|t| { edit(t); t.tag_type() }));
            if r != i.map(|_| ty) {
                return Err(format!("primary_tag_mut is {r:?}"));
            }
            if let Some(i) = i {
                edit(&mut m.held[i]);
            }
        }
        Op::Save(p) => {
            let r = match o {
                Obj::Bound(x) => x.save(o2(p)).map_err(er),
                Obj::Plain(x) => {
                    // a handle may stand anywhere
                    fh.0.lock().unwrap().set_position(3);
                    x.save_to(&mut fh.clone(), o2(p)).map_err(er)
                }
            };
            r.map_err(|e| format!("save failed: {e}"))?;
            let held = m.held.clone();
            e.save_model(&held, &mut m.file);
            if k == Kind::Bound {
                m.held.retain(|t| !t.is_empty());
            }
        }
        Op::SaveOther => {
            let mut c = Cursor::new(e.other.clone());
            obj!(o, x => x.save_to(&mut c, o2(64))).map_err(|x| format!("save to another file failed: {}", er(x)))?;
            let mut want = in_file(e.f, &e.other)?;
            e.save_model(&m.held, &mut want);
            let got = in_file(e.f, c.get_ref())?;
            if got != want {
                return Err(format!("the other file holds {got:?}, expected {want:?}"));
            }
        }
        Op::Reopen => {
            *o = Obj::open(k, fh)?;
            m.held = obj!(o, x => x.tags().to_vec());
            let h: Tags = m.held.iter().map(|t| (wt(t.tag_type()), gsig(t))).filter(|x| !x.1.is_empty()).collect();
            if h != m.file {
                return Err(format!("reopened with {h:?}, expected {:?}", m.file));
            }
        }
    }
    Ok(())
}
/// Everything the object shows, against the model
fn check(e: &Env, o: &Obj, m: &Model, fh: &Shared, before: &[u8], op: Op, props: &str) -> Result<(), String> {
    let want: BTreeMap<T, String> = m.held.iter().map(|t| (wt(t.tag_type()), gsig(t))).collect();
    let tags = obj!(o, x => x.tags().to_vec());
    let got: BTreeMap<T, String> = tags.iter().map(|t| (wt(t.tag_type()), gsig(t))).collect();
    if tags.len() != got.len() {
        return Err("two tags of one type are held".into());
    }
    if got != want {
        return Err(format!("holds {got:?}, expected {want:?}"));
    }
    for t in ALL_T {
        let (tag, has) = obj!(o, x => (x.tag(tt(t)).map(gsig), x.contains_tag_type(tt(t))));
        if tag.as_ref() != want.get(&t) || has != want.contains_key(&t) {
            return Err(format!("tag({t:?}) is {tag:?}, contains_tag_type {has}"));
        }
        let s = obj!(o, x => x.tag_support(tt(t)));
        if (s.is_readable(), s.is_writable()) != support(e.f, t) {
            return Err(format!("tag_support({t:?}) is {s:?}"));
        }
    }
    let (any, ty, ptt) = obj!(o, x => (x.contains_tag(), x.file_type(), x.primary_tag_type()));
    if any == want.is_empty() || ty != ft(e.f) || ptt != ty.primary_tag_type() {
        return Err(format!("contains_tag {any}, file type {ty:?}, primary tag type {ptt:?}"));
    }
    let (pt, first) = obj!(o, x => (x.primary_tag().map(gsig), x.first_tag().map(|t| wt(t.tag_type()))));
    if pt.as_ref() != want.get(&wt(ptt)) || first != tags.first().map(|t| wt(t.tag_type())) {
        return Err(format!("primary_tag {pt:?}, first_tag {first:?}"));
    }
    if obj!(o, x => format!("{:?}", x.properties())) != props && op != Op::Reopen {
        return Err("the properties changed".into());
    }
    let now = fh.content_bytes();
    if !matches!(op, Op::Save(_)) {
        if now != before {
            return Err("the file changed without being saved".into());
        }
    } else {
        let inf = in_file(e.f, &now).map_err(|x| format!("the saved file is unreadable: {x}"))?;
        if inf != m.file {
            return Err(format!("the file holds {inf:?}, expected {:?}", m.file));
        }
    }
    Ok(())
}
fn explore(cx: &Ctx, f: Fmt, name: &str, base: &[u8], k: Kind, depth: usize) {
    let e = Env { cx, f, base: base.to_vec(), other: audio(f), canon: Mutex::default() };
    let Ok(initial) = in_file(f, base) else { return };
    let mut ops = vec![Op::Clear, Op::EditFirst, Op::EditPrimary, Op::Save(0), Op::Save(100), Op::SaveOther, Op::Reopen];
    for t in ALL_T {
        if support(f, t).0 {
            ops.extend([Op::Insert(t, C::A), Op::Remove(t), Op::Edit(t)]);
            if support(f, t).1 {
                ops.extend([Op::Insert(t, C::B), Op::Insert(t, C::Empty), Op::ClearTag(t)]);
                if has_pictures(t) {
                    ops.push(Op::Insert(t, C::P));
                }
            }
        }
    }
    let bad = ALL_T.into_iter().find(|t| !support(f, *t).0).unwrap();
    ops.extend([Op::Insert(bad, C::A), Op::Remove(bad), Op::Edit(bad)]);
    let mut seen: HashSet<u64> = HashSet::new();
    let mut frontier: Vec<Vec<Op>> = vec![vec![]];
    for d in 0..depth {
        let next: Mutex<Vec<(u64, Vec<Op>)>> = Mutex::new(Vec::new());
        let work: Vec<(usize, Op)> = (0..frontier.len()).flat_map(|i| ops.iter().map(move |o| (i, *o))).collect();
        e.cx.par(&work, |(i, op)| {
            let path = &frontier[*i];
            let key = format!("{f:?}/{name}:{k:?}:{path:?}+{op:?}");
            cx.eval(&key);
            cx.traces.fetch_add(1, Ordering::Relaxed);
            if cx.skip(&key) {
                return;
            }
            let r = guard(|| -> Result<u64, String> {
                let fh = Shared::new(&e.base);
                let mut o = Obj::open(k, &fh)?;
                let mut m = Model { held: obj!(&o, x => x.tags().to_vec()), file: initial.clone() };
                let mut props = obj!(&o, x => format!("{:?}", x.properties()));
                for p in path {
                    step(&e, k, &mut o, &mut m, &fh, *p)?;
                    if *p == Op::Reopen {
                        props = obj!(&o, x => format!("{:?}", x.properties()));
                    }
                }
                let before = fh.content_bytes();
                step(&e, k, &mut o, &mut m, &fh, *op)?;
                check(&e, &o, &m, &fh, &before, *op, &props)?;
                let order: Vec<(T, String)> = obj!(&o, x => x.tags().iter().map(|t| (wt(t.tag_type()), gsig(t))).collect());
                Ok(h64(&(order, fh.content_bytes(), format!("{:?}", m.file))))
            });
            cx.transitions.fetch_add(1, Ordering::Relaxed);
            match r {
                Ok(Ok(h)) => {
                    cx.outcome(&h);
                    let mut p = path.clone();
                    p.push(*op);
                    next.lock().unwrap().push((h, p));
                }
                Ok(Err(x)) => cx.violation(key, x, vec![("base.bin", &e.base)]),
                Err(p) => cx.violation(key, format!("PANIC {p}"), vec![("base.bin", &e.base)]),
            }
        });
        let mut n = next.into_inner().unwrap();
        n.sort_by(|a, b| a.1.len().cmp(&b.1.len()).then_with(|| format!("{:?}", a.1).cmp(&format!("{:?}", b.1))));
        frontier = n.into_iter().filter(|(h, _)| seen.insert(*h)).map(|x| x.1).collect();
        cx.states.fetch_add(frontier.len() as u64, Ordering::Relaxed);
        cx.note_add(&format!("states at depth {}", d + 1), frontier.len() as u64);
        if cx.too_many() {
            return;
        }
    }
}

// ---------------------------------------------------------------- the concrete file types
trait Conc: AudioFile {
    fn get(&mut self, t: T) -> (Option<N>, Option<N>);
    fn put(&mut self, n: N) -> Option<N>;
    fn del(&mut self, t: T) -> Option<N>;
    fn tagged(self) -> TaggedFile;
}
macro_rules! conc {
    ($ty:ty; $($t:ident $v:ident $get:ident $mt:ident $set:ident $rem:ident $how:ident),*) => {
        impl Conc for $ty {
            fn get(&mut self, t: T) -> (Option<N>, Option<N>) {
                match t {
                    $(T::$t => {
                        let a = conc!(@get $how self.$get()).cloned().map(N::$v);
                        (a, conc!(@get $how self.$mt()).map(|x| N::$v(x.clone())))
                    })*
                    _ => (None, None),
                }
            }
            fn put(&mut self, n: N) -> Option<N> {
                match n {
                    $(N::$v(x) => self.$set(x).map(N::$v),)*
                    _ => unreachable!(),
                }
            }
            fn del(&mut self, t: T) -> Option<N> {
                match t {
                    $(T::$t => conc!(@get $how self.$rem()).map(N::$v),)*
                    _ => unreachable!(),
                }
            }
            fn tagged(self) -> TaggedFile {
                self.into()
            }
        }
    };
    (@get opt $e:expr) => { $e };
    (@get req $e:expr) => { Some($e) };
}
conc!(lofty::aac::AacFile; Id3v2 Id3v2 id3v2 id3v2_mut set_id3v2 remove_id3v2 opt, Id3v1 Id3v1 id3v1 id3v1_mut set_id3v1 remove_id3v1 opt);
conc!(lofty::iff::aiff::AiffFile; Id3v2 Id3v2 id3v2 id3v2_mut set_id3v2 remove_id3v2 opt, AiffText Aiff text_chunks text_chunks_mut set_text_chunks remove_text_chunks opt);
conc!(lofty::ape::ApeFile; Id3v2 Id3v2 id3v2 id3v2_mut set_id3v2 remove_id3v2 opt, Id3v1 Id3v1 id3v1 id3v1_mut set_id3v1 remove_id3v1 opt, Ape Ape ape ape_mut set_ape remove_ape opt);
conc!(lofty::flac::FlacFile; Id3v2 Id3v2 id3v2 id3v2_mut set_id3v2 remove_id3v2 opt, Vorbis Vorbis vorbis_comments vorbis_comments_mut set_vorbis_comments remove_vorbis_comments opt);
conc!(lofty::mpeg::MpegFile; Id3v2 Id3v2 id3v2 id3v2_mut set_id3v2 remove_id3v2 opt, Id3v1 Id3v1 id3v1 id3v1_mut set_id3v1 remove_id3v1 opt, Ape Ape ape ape_mut set_ape remove_ape opt);
conc!(lofty::mp4::Mp4File; Ilst Ilst ilst ilst_mut set_ilst remove_ilst opt);
conc!(lofty::musepack::MpcFile; Id3v2 Id3v2 id3v2 id3v2_mut set_id3v2 remove_id3v2 opt, Id3v1 Id3v1 id3v1 id3v1_mut set_id3v1 remove_id3v1 opt, Ape Ape ape ape_mut set_ape remove_ape opt);
conc!(lofty::ogg::OpusFile; Vorbis Vorbis vorbis_comments vorbis_comments_mut set_vorbis_comments remove_vorbis_comments req);
conc!(lofty::ogg::VorbisFile; Vorbis Vorbis vorbis_comments vorbis_comments_mut set_vorbis_comments remove_vorbis_comments req);
conc!(lofty::ogg::SpeexFile; Vorbis Vorbis vorbis_comments vorbis_comments_mut set_vorbis_comments remove_vorbis_comments req);
conc!(lofty::iff::wav::WavFile; Id3v2 Id3v2 id3v2 id3v2_mut set_id3v2 remove_id3v2 opt, RiffInfo Riff riff_info riff_info_mut set_riff_info remove_riff_info opt);
conc!(lofty::wavpack::WavPackFile; Id3v1 Id3v1 id3v1 id3v1_mut set_id3v1 remove_id3v1 opt, Ape Ape ape ape_mut set_ape remove_ape opt);

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Cop {
    Set(T, K),
    Del(T),
    Save,
}
/// Every sequence of set, remove and save; native tags this time
fn concrete<X: Conc>(cx: &Ctx, f: Fmt, name: &str, base: &[u8], depth: usize) {
    let req = matches!(f, Fmt::Opus | Fmt::Vorbis | Fmt::Speex);
    let sg = |n: &N| crate::hist::novendor(n.clone()).sig();
    let map = |r: Full| -> BTreeMap<T, String> { r.tags.iter().filter(|t| !t.is_empty()).map(|t| (t.t(), sg(t))).collect() };
    let mut ops = vec![Cop::Save];
    for t in readable(f) {
        ops.push(Cop::Del(t));
        ops.push(Cop::Set(t, K::A));
        if support(f, t).1 {
            ops.extend([Cop::Set(t, K::E), Cop::Set(t, K::B)]);
        }
    }
    let n = ops.len();
    for d in 1..=depth {
        cx.par_range(n.pow(d as u32), |mut i| {
            let mut path = Vec::new();
            for _ in 0..d {
                path.push(ops[i % n]);
                i /= n;
            }
            let key = format!("{f:?}/{name}:concrete:{path:?}");
            cx.eval(&key);
            cx.traces.fetch_add(1, Ordering::Relaxed);
            if cx.skip(&key) {
                return;
            }
            let r = guard(|| -> Result<(), String> {
                let mut c = Cursor::new(base.to_vec());
                let mut x = X::read_from(&mut c, po()).map_err(er)?;
                let props = format!("{:?}", FileProperties::from(X::read_from(&mut Cursor::new(base), po()).map_err(er)?.tagged().properties().clone()));
                let full = read(f, base, po())?;
                let mut held: BTreeMap<T, N> = BTreeMap::new();
                for t in readable(f) {
                    if let (Some(a), _) = x.get(t) {
                        held.insert(t, a);
                    }
                }
                let mut file = map(full);
                for op in &path {
                    match op {
                        Cop::Set(t, k) => {
                            let n = content(*t, *k);
                            let r = x.put(n.clone()).map(|n| n.sig());
                            let want = held.insert(*t, n).map(|n| n.sig());
                            if r != want {
                                return Err(format!("{op:?} returned {r:?}, expected {want:?}"));
                            }
                        }
                        Cop::Del(t) => {
                            let r = x.del(*t).map(|n| n.sig());
                            let want = held.remove(t).map(|n| n.sig());
                            if r != want {
                                return Err(format!("{op:?} returned {r:?}, expected {want:?}"));
                            }
                            if req {
                                held.insert(*t, N::empty(*t));
                            }
                        }
                        Cop::Save => {
                            if held.keys().any(|t| !support(f, *t).1) {
                                // refused: the format only reads this tag
                                return Ok(());
                            }
                            c.set_position(5);
                            x.save_to(&mut c, wo().preferred_padding(0)).map_err(|e| format!("save failed: {}", er(e)))?;
                            for (t, n) in &held {
                                if n.is_empty() {
                                    file.remove(t);
                                } else {
                                    file.insert(*t, sg(n));
                                }
                            }
                            let got = map(read(f, c.get_ref(), po())?);
                            if got != file {
                                return Err(format!("the file holds {got:?}, expected {file:?}"));
                            }
                        }
                    }
                    for t in ALL_T {
                        let (a, b) = x.get(t);
                        let want = held.get(&t).map(|n| n.sig());
                        if a.map(|n| n.sig()) != want || b.map(|n| n.sig()) != want {
                            return Err(format!("after {op:?}: the {t:?} tag isn't {want:?}"));
                        }
                        if x.contains_tag_type(tt(t)) != held.contains_key(&t) {
                            return Err(format!("after {op:?}: contains_tag_type({t:?})"));
                        }
                    }
                    if x.contains_tag() == held.is_empty() {
                        return Err(format!("after {op:?}: contains_tag"));
                    }
                }
                // the generic view has the same tags
                let tf = x.tagged();
                if tf.file_type() != ft(f) || format!("{:?}", tf.properties()) != props {
                    return Err("the generic file has another type or other properties".into());
                }
                let got: BTreeMap<T, String> = tf.tags().iter().map(|t| (wt(t.tag_type()), tag_sig(t))).collect();
                let want: BTreeMap<T, String> = held.into_iter().map(|(t, n)| (t, tag_sig(&n.into_tag()))).collect();
                if got != want || tf.tags().len() != want.len() {
                    return Err(format!("the generic file holds {got:?}, expected {want:?}"));
                }
                Ok(())
            });
            cx.transitions.fetch_add(path.len() as u64, Ordering::Relaxed);
            match r {
                Ok(Ok(())) => {}
                Ok(Err(e)) => cx.violation(key, e, vec![("base.bin", base)]),
                Err(p) => cx.violation(key, format!("PANIC {p}"), vec![("base.bin", base)]),
            }
        });
    }
}
/// A concrete file holding one tag, saved over a file of another format: as if that tag alone had been saved there
fn cross<X: Conc>(cx: &Ctx, f: Fmt) {
    for t in readable(f) {
        for to in ALL_FMT {
            for k in [K::A, K::E] {
                let key = format!("{f:?}/cross:{t:?} {k:?}->{to:?}");
                cx.eval(&key);
                if to == f || cx.skip(&key) {
                    continue;
                }
                let r = guard(|| -> Result<(), String> {
                    let mut x = X::read_from(&mut Cursor::new(audio(f)), po()).map_err(er)?;
                    for o in readable(f) {
                        x.del(o);
                    }
                    x.put(content(t, k));
                    let base = audio(to);
                    let mut c = Cursor::new(base.clone());
                    c.set_position(7);
                    let r = x.save_to(&mut c, wo().preferred_padding(0)).map_err(er);
                    let mut c2 = Cursor::new(base.clone());
                    let r2 = content(t, k).save_to(&mut c2, wo().preferred_padding(0)).map_err(er);
                    if r.is_ok() != r2.is_ok() {
                        return Err(format!("the file answers {r:?}, the tag {r2:?}"));
                    }
                    if c.get_ref() != c2.get_ref() {
                        return Err("the file writes something else than the tag".into());
                    }
                    Ok(())
                });
                match r {
                    Ok(Ok(())) => {}
                    Ok(Err(e)) => cx.violation(key, e, vec![]),
                    Err(p) => cx.violation(key, format!("PANIC {p}"), vec![]),
                }
            }
        }
    }
}
/// `TaggedFile::new` and `change_file_type` for every pair of formats and every set of tags
fn change(cx: &Ctx) {
    let all: Vec<FileType> = ALL_FMT.iter().map(|f| ft(*f)).collect();
    for (i, from) in all.iter().enumerate() {
        cx.par_range(all.len() * 128, |n| {
            let (j, set) = (n / 128, n % 128);
            let to = all[j];
            let key = format!("change:{from:?}->{to:?}:{set:07b}");
            cx.eval(&key);
            let tags: Vec<Tag> = (0..7).filter(|b| set >> b & 1 == 1).map(|b| make(ALL_T[b], C::A)).collect();
            let props = FileProperties::new(std::time::Duration::from_secs(3), Some(1), Some(2), Some(3), Some(4), Some(5), None);
            let mut tf = TaggedFile::new(*from, props.clone(), tags.clone());
            let sig = |t: &[Tag]| t.iter().map(|t| (wt(t.tag_type()), gsig(t))).collect::<Vec<_>>();
            if sig(tf.tags()) != sig(&tags) || tf.file_type() != *from || *tf.properties() != props {
                cx.violation(key.clone(), "TaggedFile::new doesn't hold what it was given", vec![]);
            }
            tf.change_file_type(to);
            let want: Vec<Tag> = tags.iter().filter(|t| support(ALL_FMT[j], wt(t.tag_type())).0).cloned().collect();
            if sig(tf.tags()) != sig(&want) || tf.file_type() != to || *tf.properties() != FileProperties::default() {
                cx.violation(key, format!("holds {:?}, expected {:?}", sig(tf.tags()), sig(&want)), vec![]);
            }
        });
        let _ = i;
    }
}
pub fn run(cx: &Ctx) -> i32 {
    change(cx);
    cross::<lofty::aac::AacFile>(cx, Fmt::Aac);
    cross::<lofty::iff::aiff::AiffFile>(cx, Fmt::Aiff);
    cross::<lofty::ape::ApeFile>(cx, Fmt::Ape);
    cross::<lofty::flac::FlacFile>(cx, Fmt::Flac);
    cross::<lofty::mpeg::MpegFile>(cx, Fmt::Mpeg);
    cross::<lofty::mp4::Mp4File>(cx, Fmt::Mp4);
    cross::<lofty::musepack::MpcFile>(cx, Fmt::Mpc);
    cross::<lofty::iff::wav::WavFile>(cx, Fmt::Wav);
    cross::<lofty::wavpack::WavPackFile>(cx, Fmt::WavPack);
    let mut cells = 0;
    for f in ALL_FMT {
        let ls: Vec<Layout> = layouts(f, false).into_iter().filter(|l| l.core && l.name != "bigaudio" && in_file(f, &l.bytes).is_ok()).collect();
        // one with nothing, one with as many tags as possible, and in the thorough tier more of them
        let mut by: Vec<(usize, Layout)> = ls.into_iter().map(|l| (in_file(f, &l.bytes).map_or(0, |m| m.len()), l)).collect();
        by.sort_by_key(|x| x.0);
        let n = by.len();
        let pick: Vec<usize> = if cx.thorough() { (0..n).collect() } else { vec![0, n - 1] };
        for i in pick {
            let l = &by[i].1;
            cells += 1;
            // more tag types, more calls
            let d = match readable(f).len() {
                1 => cx.q(5, 6),
                2 => cx.q(4, 5),
                _ => cx.q(3, 4),
            };
            for k in [Kind::Bound, Kind::Plain] {
                explore(cx, f, &l.name, &l.bytes, k, d);
            }
            let d = cx.q(4, if readable(f).len() > 2 { 4 } else { 5 });
            match f {
                Fmt::Aac => concrete::<lofty::aac::AacFile>(cx, f, &l.name, &l.bytes, d),
                Fmt::Aiff => concrete::<lofty::iff::aiff::AiffFile>(cx, f, &l.name, &l.bytes, d),
                Fmt::Ape => concrete::<lofty::ape::ApeFile>(cx, f, &l.name, &l.bytes, d),
                Fmt::Flac => concrete::<lofty::flac::FlacFile>(cx, f, &l.name, &l.bytes, d),
                Fmt::Mpeg => concrete::<lofty::mpeg::MpegFile>(cx, f, &l.name, &l.bytes, d),
                Fmt::Mp4 => concrete::<lofty::mp4::Mp4File>(cx, f, &l.name, &l.bytes, d),
                Fmt::Mpc => concrete::<lofty::musepack::MpcFile>(cx, f, &l.name, &l.bytes, d),
                Fmt::Opus => concrete::<lofty::ogg::OpusFile>(cx, f, &l.name, &l.bytes, d),
                Fmt::Vorbis => concrete::<lofty::ogg::VorbisFile>(cx, f, &l.name, &l.bytes, d),
                Fmt::Speex => concrete::<lofty::ogg::SpeexFile>(cx, f, &l.name, &l.bytes, d),
                Fmt::Wav => concrete::<lofty::iff::wav::WavFile>(cx, f, &l.name, &l.bytes, d),
                Fmt::WavPack => concrete::<lofty::wavpack::WavPackFile>(cx, f, &l.name, &l.bytes, d),
            }
            if cx.too_many() {
                break;
            }
        }
    }
    cx.note("start files", json!(cells));
    cx.sample(|| json!({"history": "Mpeg: insert_tag(ID3v2 A), tag_mut(APE) edited, save, remove(ID3v1), save", "checked": "answers, every getter, properties, file bytes between saves, tags in the file after each save"}));
    cx.finish(
        "model_checking",
        "distinct = call sequences from different start files and objects; states = distinct (tags held in order, file bytes) reached",
        &[
            "the content a single tag reads back as is taken from saving it alone (C02, C11 and C12 decide that part)",
            "the order between tags of different types is the object's own; a concrete file holding a tag its format only reads is not saved",
        ],
        true,
    )
}
