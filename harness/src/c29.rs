//! C29: a file type made with the derive acts as its fields say, and a custom file is read and refused like any other. Every sequence of accessor
//! calls (all reachable states of the derived structs), every way of reading, every damage a reader can report, every tag type and way of writing.
use crate::api::*;
use crate::contents::*;
use crate::ctx::*;
use crate::walk::Fmt;
use lofty::ape::ApeTag;
use lofty::config::{GlobalOptions, ParseOptions, ParsingMode, WriteOptions, apply_global_options};
use lofty::error::{FileEncodingError, FileParseError};
use lofty::file::{AudioFile, BoundTaggedFile, FileType, TaggedFile, TaggedFileExt};
use lofty::id3::v1::Id3v1Tag;
use lofty::id3::v2::Id3v2Tag;
use lofty::iff::wav::RiffInfoList;
use lofty::io::FileLike;
use lofty::ogg::tag::VorbisComments;
use lofty::probe::Probe;
use lofty::properties::{FileProperties};
use lofty::resolve::{FileResolver, register_custom_resolver};
use lofty::tag::{Accessor, Tag, TagExt, TagSupport, TagType};
use lofty_attr::LoftyFile;
use serde_json::json;
use std::cell::RefCell;
use std::collections::{HashMap, HashSet, VecDeque};
use std::io::{Cursor, Read, Seek, SeekFrom, Write};
use std::sync::atomic::Ordering;
use std::time::Duration;

mod m_lvreq {
    use super::*;
#[derive(LoftyFile, Clone)]
#[lofty(read_fn = "Self::rd")]
#[lofty(file_type = "LvReq")]
pub struct LvReq {
    #[lofty(tag_type = "Id3v2")]
    pub id3v2_tag: Id3v2Tag,
    #[lofty(tag_type = "Ape")]
    pub ape_tag: Option<ApeTag>,
    #[lofty(tag_type = "VorbisComments")]
    #[lofty(getter = "notes")]
    pub vc_tag: Option<VorbisComments>,
    pub properties: FileProperties,
}
}
use m_lvreq::LvReq;
#[derive(Clone, Debug)]
pub struct Props(u32);
impl From<Props> for FileProperties {
    fn from(p: Props) -> FileProperties {
        FileProperties::new(Duration::from_millis(u64::from(p.0)), Some(p.0), None, Some(44100), Some(8), Some(1), None)
    }
}
mod m_lvwr {
    use super::*;
#[derive(LoftyFile, Clone)]
#[lofty(read_fn = "Self::rd")]
#[lofty(write_fn = "Self::wr")]
#[lofty(file_type = "LvWr")]
pub struct LvWr {
    #[lofty(tag_type = "Id3v1")]
    pub old_tag: Option<Id3v1Tag>,
    #[lofty(tag_type = "RiffInfo")]
    pub riff_info_tag: RiffInfoList,
    pub properties: Props,
}
}
use m_lvwr::LvWr;
mod m_lvopt {
    use super::*;
/// Only optional tags
#[derive(LoftyFile, Clone)]
#[lofty(read_fn = "Self::rd")]
#[lofty(file_type = "LvOpt")]
pub struct LvOpt {
    #[lofty(tag_type = "Ape")]
    pub ape_tag: Option<ApeTag>,
    #[lofty(tag_type = "Id3v1")]
    pub id3v1_tag: Option<Id3v1Tag>,
    pub properties: FileProperties,
}
}
use m_lvopt::LvOpt;
mod m_lvacc {
    use super::*;
/// Accessors alone
#[derive(LoftyFile, Clone)]
#[lofty(no_audiofile_impl)]
#[lofty(no_into_taggedfile_impl)]
#[lofty(file_type = "LvAcc")]
#[allow(dead_code)]
pub struct LvAcc {
    #[lofty(tag_type = "Id3v2")]
    #[lofty(getter = "main")]
    pub id3v2_tag: Option<Id3v2Tag>,
    #[lofty(tag_type = "Id3v1")]
    pub id3v1_tag: Id3v1Tag,
}
}
use m_lvacc::LvAcc;

thread_local! {
    /// What the functions of the derived types were called with
    static CALLS: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}
fn calls() -> Vec<String> {
    CALLS.with(|c| std::mem::take(&mut *c.borrow_mut()))
}
/// The stream: "LVD", the kind, the number of tags, then "mistake" bytes. `tolerant` readers ignore what goes wrong.
fn body<R: Read + Seek>(r: &mut R, po: ParseOptions, tolerant: bool) -> Result<u8, FileParseError> {
    CALLS.with(|c| c.borrow_mut().push(format!("{po:?}")));
    let mut b = [0; 5];
    if tolerant {
        let _ = r.seek(SeekFrom::Start(3));
        for x in &mut b {
            let _ = r.read(std::slice::from_mut(x));
        }
        return Ok(b[1]);
    }
    r.read_exact(&mut b)?;
    Ok(b[4])
}
fn props(n: u8) -> FileProperties {
    FileProperties::new(Duration::from_secs(u64::from(n)), None, Some(7), None, None, None, None)
}
impl LvReq {
    pub fn rd<R: Read + Seek>(r: &mut R, po: ParseOptions) -> Result<Self, FileParseError> {
        let n = body(r, po, false)?;
        let mut x = LvReq { id3v2_tag: Id3v2Tag::default(), ape_tag: None, vc_tag: None, properties: props(n) };
        x.id3v2_tag.set_title("one".into());
        if n > 1 {
            x.vc_tag = Some(val("two"));
        }
        Ok(x)
    }
}
impl LvWr {
    /// Swallows every failure of the reader
    pub fn rd<R: Read + Seek>(r: &mut R, po: ParseOptions) -> Result<Self, FileParseError> {
        let n = body(r, po, true)?;
        Ok(LvWr { old_tag: (n > 1).then(|| val("two")), riff_info_tag: val("one"), properties: Props(u32::from(n)) })
    }
    pub fn wr<F: FileLike>(&self, f: &mut F, wo: WriteOptions) -> Result<(), FileEncodingError> {
        CALLS.with(|c| c.borrow_mut().push(format!("{wo:?}")));
        f.seek(SeekFrom::End(0))?;
        f.write_all(format!("[{:?}]", self.riff_info_tag.title()).as_bytes())?;
        Ok(())
    }
}
impl LvOpt {
    pub fn rd<R: Read + Seek>(r: &mut R, po: ParseOptions) -> Result<Self, FileParseError> {
        let n = body(r, po, false)?;
        Ok(LvOpt { ape_tag: (n > 0).then(|| val("one")), id3v1_tag: (n > 1).then(|| val("two")), properties: props(n) })
    }
}
macro_rules! resolver {
    ($S:ident $k:literal $ext:expr, $prim:ident, $rw:pat, $ro:pat) => {
        impl FileResolver for $S {
            fn extension() -> Option<&'static str> {
                $ext
            }
            fn primary_tag_type() -> TagType {
                TagType::$prim
            }
            #[allow(unreachable_patterns)]
            fn tag_support(t: TagType) -> TagSupport {
                match t {
                    $rw => TagSupport::ReadWrite,
                    $ro => TagSupport::ReadOnly,
                    _ => TagSupport::Unsupported,
                }
            }
            fn guess(b: &[u8]) -> Option<FileType> {
                b.starts_with(concat!("LVD", $k).as_bytes()).then_some(FileType::Custom(stringify!($S)))
            }
        }
    };
}
resolver!(LvReq "1" Some("lvd1"), Id3v2, TagType::Id3v2 | TagType::Ape, TagType::VorbisComments);
resolver!(LvWr "2" None, RiffInfo, _, _);
resolver!(LvOpt "3" Some("lvd3"), Ape, TagType::Id3v1, TagType::Ape);

const TT: [TagType; 7] =
    [TagType::Ape, TagType::Id3v1, TagType::Id3v2, TagType::Mp4Ilst, TagType::VorbisComments, TagType::RiffInfo, TagType::AiffText];

fn val<T: Accessor + Default>(s: &str) -> T {
    let mut t = T::default();
    if !s.is_empty() {
        t.set_title(s.into());
    }
    t
}
fn ti<T: Accessor>(t: &T) -> String {
    t.title().map(|x| x.to_string()).unwrap_or_default()
}
trait Slots: Clone {
    /// tag type, optional
    const S: &'static [(TagType, bool)];
    fn fresh() -> Self;
    fn set(&mut self, i: usize, v: &str) -> Option<String>;
    fn rem(&mut self, i: usize) -> Option<String>;
    fn edit(&mut self, i: usize, v: &str) -> bool;
    fn get(&self, i: usize) -> Option<String>;
}
macro_rules! acc {
    (req $($e:tt)*) => { Some(ti($($e)*)) };
    (opt &$($e:tt)*) => { $($e)*.map(|x| ti(&x)) };
    (opt $($e:tt)*) => { $($e)*.map(ti) };
    (reqm $e:expr, $v:expr) => {{ $e.set_title($v.into()); true }};
    (optm $e:expr, $v:expr) => { $e.map(|x| x.set_title($v.into())).is_some() };
    (isopt req) => { false };
    (isopt opt) => { true };
}
macro_rules! slots {
    ($S:ident, $fresh:expr, $($i:literal $k:ident $km:ident $t:ident $get:ident $get_mut:ident $set:ident $rem:ident;)*) => {
        impl Slots for $S {
            const S: &'static [(TagType, bool)] = &[$((TagType::$t, acc!(isopt $k))),*];
            fn fresh() -> Self {
                $fresh
            }
            fn set(&mut self, i: usize, v: &str) -> Option<String> {
                match i {
                    $($i => self.$set(val(v)).map(|x| ti(&x)),)*
                    _ => None,
                }
            }
            fn rem(&mut self, i: usize) -> Option<String> {
                match i {
                    $($i => acc!($k &self.$rem()),)*
                    _ => None,
                }
            }
            fn edit(&mut self, i: usize, v: &str) -> bool {
                match i {
                    $($i => acc!($km self.$get_mut(), v),)*
                    _ => false,
                }
            }
            fn get(&self, i: usize) -> Option<String> {
                match i {
                    $($i => acc!($k self.$get()),)*
                    _ => None,
                }
            }
        }
    };
}
slots!(LvReq, LvReq { id3v2_tag: Id3v2Tag::default(), ape_tag: None, vc_tag: None, properties: props(9) },
    0 req reqm Id3v2 id3v2 id3v2_mut set_id3v2 remove_id3v2;
    1 opt optm Ape ape ape_mut set_ape remove_ape;
    2 opt optm VorbisComments notes notes_mut set_notes remove_notes;);
slots!(LvWr, LvWr { old_tag: None, riff_info_tag: RiffInfoList::default(), properties: Props(1234) },
    0 opt optm Id3v1 old old_mut set_old remove_old;
    1 req reqm RiffInfo riff_info riff_info_mut set_riff_info remove_riff_info;);
slots!(LvOpt, LvOpt { ape_tag: None, id3v1_tag: None, properties: props(3) },
    0 opt optm Ape ape ape_mut set_ape remove_ape;
    1 opt optm Id3v1 id3v1 id3v1_mut set_id3v1 remove_id3v1;);
slots!(LvAcc, LvAcc { id3v2_tag: None, id3v1_tag: Id3v1Tag::default() },
    0 opt optm Id3v2 main main_mut set_main remove_main;
    1 req reqm Id3v1 id3v1 id3v1_mut set_id3v1 remove_id3v1;);

type St = Vec<Option<&'static str>>;
/// All states reachable with the accessors; `look` is what a state shows beyond the getters
fn explore<S: Slots>(cx: &Ctx, name: &'static str, look: &dyn Fn(&S, &St) -> Option<String>) {
    let init: St = S::S.iter().map(|&(_, o)| if o { None } else { Some("") }).collect();
    let mut seen: HashMap<St, S> = HashMap::from([(init.clone(), S::fresh())]);
    let mut todo = VecDeque::from([init]);
    while let Some(st) = todo.pop_front() {
        let real = seen[&st].clone();
        cx.states.fetch_add(1, Ordering::Relaxed);
        cx.evals_add(1);
        for (i, v) in st.iter().enumerate() {
            if real.get(i).as_deref() != *v {
                cx.violation(&format!("get:{name}:{i}"), &format!("{name} in state {st:?}: the getter of tag {i} shows {:?}", real.get(i)), vec![]);
            }
        }
        if let Some(w) = look(&real, &st) {
            cx.violation(&format!("look:{name}"), &format!("{name} in state {st:?}: {w}"), vec![]);
        }
        mark(cx, &(name, &st));
        for i in 0..st.len() {
            for op in 0..6 {
                let mut r = real.clone();
                let mut m = st.clone();
                let vals = ["", "one", "two"];
                let (got, want) = match op {
                    0..3 => (format!("{:?}", r.set(i, vals[op])), format!("{:?}", std::mem::replace(&mut m[i], Some(vals[op])))),
                    3 => {
                        let w = format!("{:?}", m[i]);
                        m[i] = if S::S[i].1 { None } else { Some("") };
                        (format!("{:?}", r.rem(i)), w)
                    }
                    n => {
                        let v = vals[n - 3];
                        let w = m[i].is_some();
                        if w {
                            m[i] = Some(v);
                        }
                        (r.edit(i, v).to_string(), w.to_string())
                    }
                };
                cx.transitions.fetch_add(1, Ordering::Relaxed);
                let now: Vec<_> = (0..m.len()).map(|j| r.get(j)).collect();
                if got != want || now.iter().zip(&m).any(|(a, b)| a.as_deref() != *b) {
                    cx.violation(&format!("op:{name}:{i}:{op}"), &format!("{name} in state {st:?}, operation {op} on tag {i}: returned {got} for {want}, and now shows {now:?} for {m:?}"), vec![]);
                }
                if !seen.contains_key(&m) {
                    seen.insert(m.clone(), r);
                    todo.push_back(m);
                }
            }
        }
    }
    cx.note(&format!("states_{name}"), json!(seen.len()));
}
/// What an `AudioFile` shows of its tags, and its conversion
fn look_file<S: Slots + AudioFile + Into<TaggedFile>>(s: &S, st: &St, name: &'static str) -> Option<String>
where
    S::Properties: Clone + Into<FileProperties>,
{
    let has = |t: TagType| S::S.iter().zip(st).any(|(k, v)| k.0 == t && v.is_some());
    if s.contains_tag() != st.iter().any(Option::is_some) {
        return Some(format!("contains_tag says {}", s.contains_tag()));
    }
    for t in TT {
        if s.contains_tag_type(t) != has(t) {
            return Some(format!("contains_tag_type({t:?}) says {}", s.contains_tag_type(t)));
        }
    }
    let p: FileProperties = s.properties().clone().into();
    let tf: TaggedFile = s.clone().into();
    if tf.file_type() != FileType::Custom(name) {
        return Some(format!("converts to a {:?} file", tf.file_type()));
    }
    if *tf.properties() != p {
        return Some(format!("the properties {p:?} become {:?}", tf.properties()));
    }
    let want: Vec<_> = S::S.iter().zip(st).filter_map(|(k, v)| v.map(|v| (k.0, v.to_string()))).collect();
    let got: Vec<_> = tf.tags().iter().map(|t| (t.tag_type(), t.title().map(|x| x.to_string()).unwrap_or_default())).collect();
    (want != got).then(|| format!("converts to a tagged file of {got:?}"))
}
fn tsig(t: &TaggedFile) -> String {
    let tags: Vec<_> = t.tags().iter().map(|t| (t.tag_type(), t.title().map(|x| x.to_string()))).collect();
    format!("{:?} {:?} {:?}", t.file_type(), t.properties(), tags)
}
/// Fails the `at`-th call
struct Bad {
    c: Cursor<Vec<u8>>,
    n: usize,
    at: usize,
}
impl Bad {
    fn hit(&mut self) -> std::io::Result<()> {
        self.n += 1;
        if self.n - 1 == self.at { Err(std::io::Error::other("lv fault")) } else { Ok(()) }
    }
}
impl Read for Bad {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.hit()?;
        self.c.read(b)
    }
}
impl Seek for Bad {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.hit()?;
        self.c.seek(p)
    }
}
fn mark<T: std::hash::Hash>(cx: &Ctx, x: &T) {
    cx.eval(x);
    cx.outcome(x);
}
fn cust(on: bool) {
    apply_global_options(GlobalOptions::new().use_custom_resolvers(on));
}

fn reading<S: AudioFile + Into<TaggedFile>>(cx: &Ctx, name: &'static str, k: u8, ext: Option<&'static str>) {
    let modes = [ParsingMode::Strict, ParsingMode::BestAttempt, ParsingMode::Relaxed];
    for n in 0..4_u8 {
        for (on, mode, flags) in [false, true].into_iter().flat_map(|a| modes.into_iter().flat_map(move |m| (0..8).map(move |f| (a, m, f)))) {
            let mut b = vec![b'L', b'V', b'D', k, n];
            b.extend_from_slice(&[0; 64]);
            let po = ParseOptions::new().parsing_mode(mode).read_properties(flags & 1 > 0).read_tags(flags & 2 > 0).max_junk_bytes(if flags & 4 > 0 { 7 } else { 2048 });
            cust(on);
            calls();
            let say = |w: &str| cx.violation(&format!("read:{name}:{w}"), &format!("{name} of {n} tags, resolvers {on}, {po:?}: {w}"), vec![("in", &b)]);
            let own = S::read_from(&mut Cursor::new(&b[..]), po).map(Into::into).map(|t: TaggedFile| tsig(&t)).map_err(|e| er(e));
            let args = calls();
            if args != [format!("{po:?}")] {
                say("read_from does not hand on its options");
            }
            if own.is_err() {
                say("read_from fails");
            }
            let eval = |p: Probe<Cursor<&[u8]>>| p.options(po).read().map(|t| tsig(&t)).map_err(|e| er(e));
            let mut ways: Vec<(&str, Result<String, String>, bool)> = vec![];
            let guessed = Probe::new(Cursor::new(&b[..])).guess_file_type();
            ways.push(("guess", guessed.map_err(|e| e.to_string()).and_then(|p| eval(p)), on));
            ways.push(("with_file_type", eval(Probe::with_file_type(Cursor::new(&b[..]), FileType::Custom(name))), on));
            let args: Vec<String> = calls();
            if args.iter().any(|a| *a != format!("{po:?}")) || args.len() != ways.iter().filter(|w| w.2).count() {
                say("the probe does not hand on its options");
            }
            if let Some(e) = ext {
                let t = FileType::from_ext(e);
                if t != on.then_some(FileType::Custom(name)) {
                    say("its extension");
                }
                if FileType::from_path(format!("/a/b.{e}")) != t {
                    say("its path");
                }
            }
            let bound = BoundTaggedFile::read_from(Cursor::new(b.clone()), po).map(|t| tsig(&TaggedFile::from(t))).map_err(|e| er(e));
            ways.push(("bound", bound, on));
            for (w, got, expect) in ways {
                cx.transitions.fetch_add(1, Ordering::Relaxed);
                cx.traces.fetch_add(1, Ordering::Relaxed);
                mark(cx, &(name, w, got.is_ok(), n));
                if expect && got != own {
                    say(&format!("{w} gives {got:?} for {own:?}"));
                }
                if !expect && got.is_ok() {
                    say(&format!("{w} reads it though custom types are off: {got:?}"));
                }
            }
            // every fault of the reader is an error, whatever the reading function makes of it
            if flags == 3 && on {
                for at in 0.. {
                    let mut r = Bad { c: Cursor::new(b.clone()), n: 0, at };
                    let got = S::read_from(&mut r, po).is_ok();
                    if r.n <= at {
                        break;
                    }
                    cx.states.fetch_add(1, Ordering::Relaxed);
                    cx.evals_add(1);
                    if got {
                        say(&format!("the failure of call {at} of the reader is dropped"));
                    }
                    for probe in [false, true] {
                        let mut r = Bad { c: Cursor::new(b.clone()), n: 0, at };
                        let got = if probe {
                            Probe::with_file_type(&mut r, FileType::Custom(name)).options(po).read().is_ok()
                        } else {
                            match Probe::new(&mut r).guess_file_type() {
                                Ok(p) => p.options(po).read().is_ok(),
                                Err(_) => false,
                            }
                        };
                        if r.n > at && got {
                            say(&format!("the failure of call {at} is dropped by the probe"));
                        }
                    }
                }
            }
        }
    }
    cust(true);
}

/// `save_to` without a writing function: its tags go into the file in order
fn saving(cx: &Ctx) {
    for (f, name) in [(Fmt::Mpeg, "mpeg"), (Fmt::Aac, "aac"), (Fmt::Wav, "wav"), (Fmt::Ape, "ape"), (Fmt::Mpc, "mpc")] {
        let full = crate::layouts::layouts(f, false).into_iter().next().unwrap().bytes;
        for s in 0..48_usize {
            let v = |i: usize| [None, Some(""), Some("one"), Some("two")][i];
            let (a, b, c) = (v(1 + s % 3).unwrap(), v(s / 3 % 4), v(s / 12));
            let x = LvReq { id3v2_tag: val(a), ape_tag: b.map(val), vc_tag: c.map(val), properties: props(1) };
            let mut cur = Cursor::new(full.clone());
            let got = guard(|| x.save_to(&mut cur, wo()).map_err(|e| er(e)));
            let mut want = Cursor::new(full.clone());
            let w: Result<(), String> = (|| {
                x.id3v2_tag.save_to(&mut want, wo()).map_err(|e| er(e))?;
                want.set_position(0);
                if let Some(t) = &x.ape_tag {
                    t.save_to(&mut want, wo()).map_err(|e| er(e))?;
                }
                want.set_position(0);
                if let Some(t) = &x.vc_tag {
                    t.save_to(&mut want, wo()).map_err(|e| er(e))?;
                }
                Ok(())
            })();
            cx.states.fetch_add(1, Ordering::Relaxed);
            cx.evals_add(1);
            mark(cx, &(name, w.is_ok(), s));
            match got {
                Ok(g) if g == w && cur.get_ref() == want.get_ref() => {}
                g => cx.violation(&format!("save:{name}"), &format!("a derived file of {a:?} {b:?} {c:?} saved into {name}: {g:?} where its tags one after the other give {w:?}"), vec![("in", &full)]),
            }
        }
    }
    // with one: it, and nothing else, is called
    for pad in [0, 1, 77] {
        let o = WriteOptions::new().preferred_padding(pad);
        let x = LvWr { old_tag: Some(val("two")), riff_info_tag: val("one"), properties: Props(1) };
        let mut c = Cursor::new(b"LVD2xyz".to_vec());
        calls();
        let r = x.save_to(&mut c, o);
        cx.evals_add(1);
        if r.is_err() || calls() != [format!("{o:?}")] || c.get_ref() != b"LVD2xyz[Some(\"one\")]" {
            cx.violation("writefn", "the writing function is not called with the file and the options", vec![("out", c.get_ref())]);
        }
    }
}

/// No way of writing to a custom file panics, damages it, or claims to have written what it cannot
fn custom_writes(cx: &Ctx) {
    let supp = |k: u8, t: TagType| match k {
        b'1' => LvReq::tag_support(t),
        b'2' => LvWr::tag_support(t),
        _ => LvOpt::tag_support(t),
    };
    let dir = std::env::temp_dir().join(format!("lv-c29-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join("f.bin");
    for k in [b'1', b'2', b'3'] {
        for tail in [0, 60, 5000] {
            let mut b = vec![b'L', b'V', b'D', k, 2];
            b.resize(5 + tail, 0x55);
            for t in TT {
                for empty in [true, false] {
                    for o in [wo(), WriteOptions::new().preferred_padding(0).remove_others(true), WriteOptions::new().respect_read_only(true)] {
                        let gen_tag = || {
                            let mut g = Tag::new(t);
                            if !empty {
                                g.set_title("x".into());
                            }
                            g
                        };
                        let own = || N::from_tag(gen_tag(), wt(t));
                        let mut ways: Vec<(&str, Box<dyn Fn(&mut Cursor<Vec<u8>>) -> Result<(), String>>)> = vec![];
                        ways.push(("Tag::save_to", Box::new(|c| gen_tag().save_to(c, o).map_err(|e| er(e)))));
                        ways.push(("Tag::remove_from", Box::new(|c| gen_tag().remove_from(c, o).map_err(|e| er(e)))));
                        ways.push(("TagType::remove_from", Box::new(|c| t.remove_from(c, o).map_err(|e| er(e)))));
                        ways.push(("save_to", Box::new(|c| own().save_to(c, o).map_err(|e| er(e)))));
                        ways.push(("remove_from", Box::new(|c| own().remove_from(c, o))));
                        ways.push(("TaggedFile::save_to", Box::new(|c| {
                            let mut f = Probe::new(Cursor::new(c.get_ref().clone())).guess_file_type().unwrap().read().map_err(|e| er(e))?;
                            if f.insert_tag(gen_tag()).is_none() && !f.contains_tag_type(t) {
                                return Err("not taken".into());
                            }
                            f.save_to(c, o).map_err(|e| er(e))
                        })));
                        ways.push(("TaggedFile::remove", Box::new(|c| {
                            let mut f = Probe::new(Cursor::new(c.get_ref().clone())).guess_file_type().unwrap().read().map_err(|e| er(e))?;
                            f.remove(t);
                            if f.contains_tag_type(t) { Err("still there".into()) } else { t.remove_from(c, o).map_err(|e| er(e)) }
                        })));
                        ways.push(("TaggedFile::bound", Box::new(|c| {
                            let mut f = BoundTaggedFile::read_from(Cursor::new(c.get_ref().clone()), ParseOptions::new()).map_err(|e| er(e))?;
                            if f.insert_tag(gen_tag()).is_none() && !f.contains_tag_type(t) {
                                return Err("not taken".into());
                            }
                            let r = f.save(o).map_err(|e| er(e));
                            *c = f.into_inner();
                            r
                        })));
                        ways.push(("TagType::remove_from_path", Box::new(|c| {
                            std::fs::write(&p, c.get_ref()).unwrap();
                            let r = t.remove_from_path(&p, o).map_err(|e| er(e));
                            *c.get_mut() = std::fs::read(&p).unwrap();
                            r
                        })));
                        for (w, f) in &ways {
                            let mut c = Cursor::new(b.clone());
                            let r = guard(|| f(&mut c));
                            cx.states.fetch_add(1, Ordering::Relaxed);
                            cx.traces.fetch_add(1, Ordering::Relaxed);
                            cx.evals_add(1);
                            let s = supp(k, t);
                            mark(cx, &(k, w, format!("{t:?}"), matches!(r, Ok(Ok(())))));
                            let bad = match &r {
                                Err(m) => Some(format!("panics: {m}")),
                                Ok(Err(_)) if *c.get_ref() != b => Some("fails and changes the file".to_string()),
                                Ok(Ok(())) if !s.is_writable() && !empty && w.ends_with("::save_to") && *w != "TaggedFile::save_to" => Some("succeeds though the type is not writable".into()),
                                // the formats that need nothing of the file around them
                                Ok(Ok(())) if *c.get_ref() != b && !w.starts_with("Tag") && matches!(t, TagType::Id3v2 | TagType::Ape | TagType::Id3v1) => {
                                    let g = c.get_ref();
                                    let (front, back) = (g.ends_with(&b), g.starts_with(&b));
                                    (if t == TagType::Id3v2 { !front } else { !back }).then(|| "does not add to what was there".into())
                                }
                                Ok(Ok(())) if *c.get_ref() != b => Some("changes the file, whose format it does not know".into()),
                                _ => None,
                            };
                            if let Some(m) = bad {
                                cx.violation(&format!("write:{w}:{t:?}"), &format!("{w} of a {}{t:?} tag ({s:?}) on custom file {}: {m}", if empty { "empty " } else { "" }, k as char), vec![("in", &b)]);
                            }
                        }
                    }
                }
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
}

pub fn run(cx: &Ctx) -> i32 {
    register_custom_resolver::<LvReq>("LvReq");
    register_custom_resolver::<LvWr>("LvWr");
    register_custom_resolver::<LvOpt>("LvOpt");
    cust(true);
    explore::<LvReq>(cx, "LvReq", &|s, st| look_file(s, st, "LvReq"));
    explore::<LvWr>(cx, "LvWr", &|s, st| look_file(s, st, "LvWr"));
    explore::<LvOpt>(cx, "LvOpt", &|s, st| look_file(s, st, "LvOpt"));
    explore::<LvAcc>(cx, "LvAcc", &|_, _| None);
    reading::<LvReq>(cx, "LvReq", b'1', Some("lvd1"));
    reading::<LvWr>(cx, "LvWr", b'2', None);
    reading::<LvOpt>(cx, "LvOpt", b'3', Some("lvd3"));
    saving(cx);
    custom_writes(cx);
    cx.sample(|| json!({"type": "LvReq: ID3v2 always, APE and Vorbis Comments optional", "sequence": ["set_ape(one)", "notes_mut()", "remove_id3v2()"], "checked": "what each call returns, every getter, contains_tag_type for the seven types, the conversion to TaggedFile"}));
    cx.finish(
        "model_checking",
        "distinct = (derived type, state of its tags) and (way of reading or writing, tag type, result); states = reachable states of four derived types and (custom file, tag, way of writing) cells, transitions = accessor calls and reads",
        &["four derived types: required, optional and renamed tags, with and without a writing function", "the write function a derived type brings is its own affair"],
        true,
    )
}
