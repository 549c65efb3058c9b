//! Small tag content alphabet used by the history exploration.
use crate::api::{ALL_T, N};
use crate::mk;
use crate::walk::T;
use lofty::ape::{ApeItem, ApeTag};
use lofty::config::WriteOptions;
use lofty::id3::v1::Id3v1Tag;
use lofty::id3::v2::Id3v2Tag;
use lofty::iff::aiff::{AiffTextChunks, Comment};
use lofty::iff::wav::RiffInfoList;
use lofty::mp4::Ilst;
use lofty::ogg::OggPictureStorage;
use lofty::ogg::tag::VorbisComments;
use lofty::picture::{MimeType, Picture, PictureType};
use lofty::tag::{Accessor, ItemValue};


#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum K {
    /// empty tag
    E,
    /// small, even sizes
    A,
    /// small, odd sizes
    B,
    /// larger than any padding/page segment
    C,
    /// with a picture
    P,
    /// huge: crosses page boundaries (70 kB)
    H,
    /// a title of n characters: with a range of n, every small size difference between two saves occurs
    L(u8),
    /// an artist of n characters, for sweeps over every encoded size
    M(u32),
    /// the n-th entry of the rich list of the tag type
    R(u16),
}
/// Every kind of item, every size of the variable parts around the boundaries, many items.
pub fn rich_list(t: T) -> &'static [N] {
    static L: [std::sync::OnceLock<Vec<N>>; 7] = [const { std::sync::OnceLock::new() }; 7];
    L[ALL_T.iter().position(|x| *x == t).unwrap()].get_or_init(|| {
        let mut v: Vec<N> = crate::rich::rich(t).into_iter().map(|x| x.1).collect();
        for n in (1..40).chain([127, 128, 255, 256, 257, 511, 512, 513, 4093, 65025]) {
            v.extend(crate::rich::sized(t, n).into_iter().map(|x| x.1));
        }
        for n in [1, 2, 3, 31, 32, 33, 127, 128, 255, 256, 257] {
            v.extend(crate::rich::many(t, n).into_iter().map(|x| x.1));
        }
        v.push(crate::rich::everything(t));
        v
    })
}
pub fn pic(n: usize) -> Picture {
    Picture::unchecked(mk::png(n)).pic_type(PictureType::CoverFront).mime_type(MimeType::Png).description("d").build()
}
pub fn long(n: usize) -> String {
    (0..n).map(|i| (b'a' + (i % 23) as u8) as char).collect()
}
pub fn content(t: T, k: K) -> N {
    let lt = long(256);
    let (title, artist) = match k {
        K::E => ("", String::new()),
        K::A => ("even", "artist".to_string()),
        K::B => ("odd", "x".to_string()),
        K::C => ("big", long(3000)),
        K::P => ("pic", "with picture".into()),
        K::H => ("huge", long(70_001)),
        K::M(n) => ("", long(n as usize)),
        K::R(n) => return rich_list(t)[n as usize].clone(),
        K::L(n) => (&lt[..n as usize], String::new()),
    };
    let e = k == K::E;
    match t {
        T::Id3v2 => {
            let mut x = Id3v2Tag::new();
            if !e {
                if !title.is_empty() {
                    x.set_title(title[..].into());
                }
                if !artist.is_empty() {
                    x.set_artist(artist);
                }
            }
            if k == K::B {
                x.set_comment("c".into());
            }
            if k == K::P {
                x.insert_picture(pic(40));
            }
            N::Id3v2(x)
        }
        T::Id3v1 => {
            let mut x = Id3v1Tag::new();
            if !e {
                if !title.is_empty() {
                    x.set_title(title[..].into());
                }
                if !artist.is_empty() {
                    x.set_artist(artist[..artist.len().min(30)].into());
                }
            }
            if k == K::B {
                x.set_track(3);
            }
            N::Id3v1(x)
        }
        T::Ape => {
            let mut x = ApeTag::new();
            if !e {
                if !title.is_empty() {
                    x.set_title(title[..].into());
                }
                if !artist.is_empty() {
                    x.set_artist(artist);
                }
            }
            if k == K::P {
                x.insert(ApeItem::new("Cover Art (Front)".into(), ItemValue::Binary([b"c.png\0".to_vec(), mk::png(30)].concat())).unwrap());
            }
            N::Ape(x)
        }
        T::Vorbis => {
            let mut x = VorbisComments::default();
            x.set_vendor(if k == K::B { "v".into() } else { "vend".into() });
            if !e {
                if !title.is_empty() {
                    x.set_title(title[..].into());
                }
                if !artist.is_empty() {
                    x.set_artist(artist);
                }
            }
            if k == K::P {
                let _ = x.insert_picture(pic(300), None);
            }
            N::Vorbis(x)
        }
        T::Ilst => {
            let mut x = Ilst::new();
            if !e {
                if !title.is_empty() {
                    x.set_title(title[..].into());
                }
                if !artist.is_empty() {
                    x.set_artist(artist);
                }
            }
            if k == K::P {
                // `covr` atoms carry neither a picture type nor a description
                x.insert_picture(Picture::unchecked(mk::png(50)).mime_type(MimeType::Png).build());
            }
            N::Ilst(x)
        }
        T::RiffInfo => {
            let mut x = RiffInfoList::default();
            if !e {
                if !title.is_empty() {
                    x.set_title(title[..].into());
                }
                if !artist.is_empty() {
                    x.set_artist(artist);
                }
            }
            N::Riff(x)
        }
        T::AiffText => {
            let mut x = AiffTextChunks::default();
            if !e {
                if !title.is_empty() {
                    x.set_title(title[..].into());
                }
                if !artist.is_empty() {
                    x.set_artist(artist);
                }
            }
            if k == K::B {
                x.annotations = Some(vec!["n".into(), "note".into()]);
                x.comments = Some(vec![Comment { timestamp: 5, marker_id: 0, text: "abc".into() }]);
            }
            N::Aiff(x)
        }
    }
}
pub fn opts(pad: u32) -> WriteOptions {
    WriteOptions::new().preferred_padding(pad)
}
