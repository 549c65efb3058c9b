//! Thin layer over lofty's public API used by the checks.
#![allow(dead_code)]
use crate::ctx::h64;
use crate::walk::{Fmt, T};
use lofty::aac::AacFile;
use lofty::ape::{ApeFile, ApeTag};
use lofty::config::{ParseOptions, ParsingMode, WriteOptions};
use lofty::error::FileEncodingError;
use lofty::file::{AudioFile, FileType, TaggedFile, TaggedFileExt};
use lofty::flac::FlacFile;
use lofty::id3::v1::Id3v1Tag;
use lofty::id3::v2::{Frame, Id3v2Tag};
use lofty::iff::aiff::{AiffFile, AiffTextChunks};
use lofty::iff::wav::{RiffInfoList, WavFile};
use lofty::io::FileLike;
use lofty::mp4::{AtomData, Ilst, Mp4File};
use lofty::mpeg::MpegFile;
use lofty::musepack::MpcFile;
use lofty::ogg::tag::VorbisComments;
use lofty::ogg::{OggPictureStorage, OpusFile, SpeexFile, VorbisFile};
use lofty::probe::Probe;
use lofty::tag::{Tag, TagExt, TagType};
use lofty::wavpack::WavPackFile;
use std::io::Cursor;

pub fn ft(f: Fmt) -> FileType {
    match f {
        Fmt::Aac => FileType::Aac,
        Fmt::Aiff => FileType::Aiff,
        Fmt::Ape => FileType::Ape,
        Fmt::Flac => FileType::Flac,
        Fmt::Mpeg => FileType::Mpeg,
        Fmt::Mp4 => FileType::Mp4,
        Fmt::Mpc => FileType::Mpc,
        Fmt::Opus => FileType::Opus,
        Fmt::Vorbis => FileType::Vorbis,
        Fmt::Speex => FileType::Speex,
        Fmt::Wav => FileType::Wav,
        Fmt::WavPack => FileType::WavPack,
    }
}
pub const ALL_TT: [TagType; 7] =
    [TagType::Ape, TagType::Id3v1, TagType::Id3v2, TagType::Mp4Ilst, TagType::VorbisComments, TagType::RiffInfo, TagType::AiffText];
pub fn tt(t: T) -> TagType {
    match t {
        T::Id3v2 => TagType::Id3v2,
        T::Id3v1 => TagType::Id3v1,
        T::Ape => TagType::Ape,
        T::Vorbis => TagType::VorbisComments,
        T::Ilst => TagType::Mp4Ilst,
        T::RiffInfo => TagType::RiffInfo,
        T::AiffText => TagType::AiffText,
    }
}
pub fn wt(t: TagType) -> T {
    match t {
        TagType::Id3v2 => T::Id3v2,
        TagType::Id3v1 => T::Id3v1,
        TagType::Ape => T::Ape,
        TagType::VorbisComments => T::Vorbis,
        TagType::Mp4Ilst => T::Ilst,
        TagType::RiffInfo => T::RiffInfo,
        TagType::AiffText => T::AiffText,
        _ => unreachable!(),
    }
}
/// (file format, tag type) -> (readable, writable), written down from the README support table / docs, independent of the code.
pub fn support(f: Fmt, t: T) -> (bool, bool) {
    use Fmt::*;
    match (f, t) {
        (Aac, T::Id3v2 | T::Id3v1) => (true, true),
        (Aiff, T::Id3v2 | T::AiffText) => (true, true),
        (Ape, T::Ape | T::Id3v1) => (true, true),
        (Ape, T::Id3v2) => (true, false),
        (Flac, T::Vorbis) => (true, true),
        (Flac, T::Id3v2) => (true, false),
        (Mpeg, T::Id3v2 | T::Id3v1 | T::Ape) => (true, true),
        (Mp4, T::Ilst) => (true, true),
        (Mpc, T::Ape) => (true, true),
        (Mpc, T::Id3v2 | T::Id3v1) => (true, false),
        (Opus | Vorbis | Speex, T::Vorbis) => (true, true),
        (Wav, T::Id3v2 | T::RiffInfo) => (true, true),
        (WavPack, T::Ape | T::Id3v1) => (true, true),
        _ => (false, false),
    }
}
pub const ALL_T: [T; 7] = [T::Id3v2, T::Id3v1, T::Ape, T::Vorbis, T::Ilst, T::RiffInfo, T::AiffText];
pub fn writable(f: Fmt) -> Vec<T> {
    ALL_T.into_iter().filter(|t| support(f, *t).1).collect()
}
pub fn readable(f: Fmt) -> Vec<T> {
    ALL_T.into_iter().filter(|t| support(f, *t).0).collect()
}

#[derive(Clone, Debug)]
pub enum N {
    Id3v2(Id3v2Tag),
    Id3v1(Id3v1Tag),
    Ape(ApeTag),
    Vorbis(VorbisComments),
    Ilst(Ilst),
    Riff(RiffInfoList),
    Aiff(AiffTextChunks),
}
macro_rules! each {
    ($s:expr, $t:ident => $e:expr) => {
        match $s {
            N::Id3v2($t) => $e,
            N::Id3v1($t) => $e,
            N::Ape($t) => $e,
            N::Vorbis($t) => $e,
            N::Ilst($t) => $e,
            N::Riff($t) => $e,
            N::Aiff($t) => $e,
        }
    };
}
pub fn er<E: std::error::Error>(e: E) -> String {
    let mut s = format!("{e}");
    let mut c: &dyn std::error::Error = &e;
    while let Some(n) = c.source() {
        let t = format!("{n}");
        if !s.ends_with(&t) {
            s.push_str(": ");
            s.push_str(&t);
        }
        c = n;
    }
    s
}
impl N {
    pub fn t(&self) -> T {
        match self {
            N::Id3v2(_) => T::Id3v2,
            N::Id3v1(_) => T::Id3v1,
            N::Ape(_) => T::Ape,
            N::Vorbis(_) => T::Vorbis,
            N::Ilst(_) => T::Ilst,
            N::Riff(_) => T::RiffInfo,
            N::Aiff(_) => T::AiffText,
        }
    }
    pub fn save_to<F: FileLike>(&self, f: &mut F, o: WriteOptions) -> Result<(), FileEncodingError> {
        each!(self, t => TagExt::save_to(t, f, o))
    }
    pub fn remove_from<F: FileLike>(&self, f: &mut F, o: WriteOptions) -> Result<(), String> {
        each!(self, t => TagExt::remove_from(t, f, o)).map_err(er)
    }
    pub fn save_path(&self, p: &std::path::Path, o: WriteOptions) -> Result<(), String> {
        each!(self, t => TagExt::save_to_path(t, p, o)).map_err(er)
    }
    pub fn save(&self, b: &[u8], o: WriteOptions) -> Result<Vec<u8>, String> {
        let mut c = Cursor::new(b.to_vec());
        self.save_to(&mut c, o).map_err(er)?;
        Ok(c.into_inner())
    }
    /// Like `save` but also returns the bytes left after a failure.
    pub fn save2(&self, b: &[u8], o: WriteOptions) -> (Result<(), String>, Vec<u8>) {
        let mut c = Cursor::new(b.to_vec());
        let r = self.save_to(&mut c, o).map_err(er);
        (r, c.into_inner())
    }
    pub fn dump(&self, o: WriteOptions) -> Result<Vec<u8>, String> {
        let mut v = Vec::new();
        each!(self, t => t.dump_to(&mut v, o)).map_err(er)?;
        Ok(v)
    }
    pub fn is_empty(&self) -> bool {
        each!(self, t => t.is_empty())
    }
    pub fn len(&self) -> usize {
        each!(self, t => t.len())
    }
    pub fn clear(&mut self) {
        each!(self, t => TagExt::clear(t))
    }
    pub fn into_tag(self) -> Tag {
        each!(self, t => t.into())
    }
    pub fn from_tag(t: Tag, ty: T) -> N {
        match ty {
            T::Id3v2 => N::Id3v2(t.into()),
            T::Id3v1 => N::Id3v1(t.into()),
            T::Ape => N::Ape(t.into()),
            T::Vorbis => N::Vorbis(t.into()),
            T::Ilst => N::Ilst(t.into()),
            T::RiffInfo => N::Riff(t.into()),
            T::AiffText => N::Aiff(t.into()),
        }
    }
    pub fn empty(ty: T) -> N {
        match ty {
            T::Id3v2 => N::Id3v2(Id3v2Tag::new()),
            T::Id3v1 => N::Id3v1(Id3v1Tag::new()),
            T::Ape => N::Ape(ApeTag::new()),
            T::Vorbis => N::Vorbis(VorbisComments::default()),
            T::Ilst => N::Ilst(Ilst::new()),
            T::RiffInfo => N::Riff(RiffInfoList::default()),
            T::AiffText => N::Aiff(AiffTextChunks::default()),
        }
    }
    /// A complete textual signature of the content (pictures included), for equality that is stricter than PartialEq.
    pub fn sig(&self) -> String {
        let mut s = match self {
            // `original_version` describes the file, not the content
            N::Id3v2(t) => format!("Id3v2 flags={:?} frames={:#?}", t.flags(), (&*t).into_iter().map(frame_sig).collect::<Vec<_>>()),
            N::Aiff(t) => {
                // an absent list and an empty list are the same content
                let mut t = t.clone();
                if t.annotations.as_ref().is_some_and(|v| v.is_empty()) {
                    t.annotations = None;
                }
                if t.comments.as_ref().is_some_and(|v| v.is_empty()) {
                    t.comments = None;
                }
                format!("{t:#?}")
            }
            _ => format!("{self:#?}"),
        };
        match self {
            N::Id3v2(t) => {
                for f in t {
                    if let Frame::Picture(p) = f {
                        s.push_str(&format!("\npic {:x}", h64(p.picture.data())));
                    }
                }
            }
            N::Vorbis(t) => {
                for (p, _) in t.pictures() {
                    s.push_str(&format!("\npic {:x}", h64(p.data())));
                }
            }
            N::Ilst(t) => {
                for a in t {
                    for d in a.data() {
                        if let AtomData::Picture(p) = d {
                            s.push_str(&format!("\npic {:x}", h64(p.data())));
                        }
                    }
                }
            }
            _ => {}
        }
        s
    }
}
/// `Debug` of a frame, with the channel map of RVA2 frames in a fixed order
pub fn frame_sig(f: &Frame<'_>) -> String {
    if let Frame::RelativeVolumeAdjustment(r) = f {
        let mut c: Vec<_> = r.channels.iter().collect();
        c.sort_by_key(|x| *x.0);
        return format!("RVA2 {:?} {:?} {c:?}", f.flags(), r.identification);
    }
    format!("{f:#?}")
}
pub fn tag_sig(t: &Tag) -> String {
    let mut s = format!("{:?}\n", t.tag_type());
    for i in t.items() {
        s.push_str(&format!("{i:?}\n"));
    }
    for p in t.pictures() {
        s.push_str(&format!("{p:?} {:x}\n", h64(p.data())));
    }
    s
}
pub fn remove(b: &[u8], t: T, o: WriteOptions) -> (Result<(), String>, Vec<u8>) {
    let mut c = Cursor::new(b.to_vec());
    let r = tt(t).remove_from(&mut c, o).map_err(er);
    (r, c.into_inner())
}

#[derive(Clone, Debug)]
pub struct Full {
    pub props: String,
    pub tags: Vec<N>,
}
impl Full {
    pub fn get(&self, t: T) -> Option<&N> {
        self.tags.iter().find(|n| n.t() == t)
    }
    pub fn sig(&self) -> String {
        let mut s = format!("{}\n", self.props);
        for t in &self.tags {
            s.push_str(&t.sig());
            s.push('\n');
        }
        s
    }
    pub fn tags_sig(&self) -> String {
        self.tags.iter().map(|t| t.sig()).collect::<Vec<_>>().join("\n")
    }
}
pub fn po() -> ParseOptions {
    ParseOptions::new()
}
pub fn po_mode(m: ParsingMode) -> ParseOptions {
    ParseOptions::new().parsing_mode(m)
}
pub fn wo() -> WriteOptions {
    WriteOptions::new()
}
/// Reads with the concrete file type of `f`.
pub fn read_r<R: std::io::Read + std::io::Seek>(f: Fmt, r: &mut R, o: ParseOptions) -> Result<Full, String> {
    let mut tags = Vec::new();
    let props;
    macro_rules! go {
        ($ty:ty, $($get:ident => $v:ident),* $(,)?) => {{
            let x = <$ty>::read_from(r, o).map_err(er)?;
            $( if let Some(t) = x.$get() { tags.push(N::$v(t.clone())); } )*
            props = format!("{:?}", x.properties());
            x
        }};
    }
    match f {
        Fmt::Aac => {
            go!(AacFile, id3v2 => Id3v2, id3v1 => Id3v1);
        }
        Fmt::Aiff => {
            go!(AiffFile, id3v2 => Id3v2, text_chunks => Aiff);
        }
        Fmt::Ape => {
            go!(ApeFile, id3v2 => Id3v2, ape => Ape, id3v1 => Id3v1);
        }
        Fmt::Flac => {
            let x = go!(FlacFile, id3v2 => Id3v2,);
            let mut vc = x.vorbis_comments().cloned();
            if !x.pictures().is_empty() {
                let v = vc.get_or_insert_with(VorbisComments::default);
                for (p, i) in x.pictures() {
                    let _ = v.insert_picture(p.clone(), Some(*i));
                }
            }
            if let Some(v) = vc {
                tags.push(N::Vorbis(v));
            }
        }
        Fmt::Mpeg => {
            go!(MpegFile, id3v2 => Id3v2, ape => Ape, id3v1 => Id3v1);
        }
        Fmt::Mp4 => {
            go!(Mp4File, ilst => Ilst);
        }
        Fmt::Mpc => {
            go!(MpcFile, id3v2 => Id3v2, ape => Ape, id3v1 => Id3v1);
        }
        Fmt::Opus => {
            let x = go!(OpusFile,);
            tags.push(N::Vorbis(x.vorbis_comments().clone()));
        }
        Fmt::Vorbis => {
            let x = go!(VorbisFile,);
            tags.push(N::Vorbis(x.vorbis_comments().clone()));
        }
        Fmt::Speex => {
            let x = go!(SpeexFile,);
            tags.push(N::Vorbis(x.vorbis_comments().clone()));
        }
        Fmt::Wav => {
            go!(WavFile, id3v2 => Id3v2, riff_info => Riff);
        }
        Fmt::WavPack => {
            go!(WavPackFile, ape => Ape, id3v1 => Id3v1);
        }
    }
    Ok(Full { props, tags })
}
pub fn read(f: Fmt, b: &[u8], o: ParseOptions) -> Result<Full, String> {
    read_r(f, &mut Cursor::new(b), o)
}
pub fn read_tagged(f: Fmt, b: &[u8], o: ParseOptions) -> Result<TaggedFile, String> {
    Probe::with_file_type(Cursor::new(b), ft(f)).options(o).read().map_err(er)
}
pub fn tagged_sig(t: &TaggedFile) -> String {
    let mut s = format!("{:?}\n{:?}\n", t.file_type(), t.properties());
    for x in t.tags() {
        s.push_str(&tag_sig(x));
    }
    s
}
pub fn detect(b: &[u8]) -> Option<FileType> {
    Probe::new(Cursor::new(b)).guess_file_type().ok()?.file_type()
}
