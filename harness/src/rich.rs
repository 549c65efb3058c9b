//! Rich alphabets of native tag items: one small tag per kind of item and edge value.
use crate::api::*;
use crate::contents::long;
use crate::mk;
use crate::walk::T;
use lofty::TextEncoding;
use lofty::ape::{ApeItem, ApeTag};
use lofty::id3::v1::Id3v1Tag;
use lofty::id3::v2::*;
use lofty::iff::aiff::{AiffTextChunks, Comment};
use lofty::iff::wav::RiffInfoList;
use lofty::mp4::{Atom, AtomData, AtomIdent, DataType, Ilst};
use lofty::ogg::OggPictureStorage;
use lofty::ogg::tag::VorbisComments;
use lofty::picture::{MimeType, Picture, PictureInformation, PictureType};
use lofty::tag::ItemValue;
use lofty::tag::items::Timestamp;
use std::borrow::Cow;
use std::collections::HashMap;

pub const ENC: [TextEncoding; 4] = [TextEncoding::Latin1, TextEncoding::UTF16, TextEncoding::UTF16BE, TextEncoding::UTF8];
/// Strings that stress terminators, byte order marks, alignment and sizes (all valid content for a text field).
pub fn strings() -> Vec<String> {
    ["a", "ab", "\u{e9}", "\u{ff}", "\u{80}", "x\u{fe}\u{ff}", "\u{ff}\u{fe}y", " lead", "trail ", "line\nbreak", "\u{100}", "\u{61f}", "\u{4e00}\u{100}", "\u{3042}\u{3044}", "\u{1F600}", "a\u{1F600}b", "b\u{feff}om", "x\u{fffe}", "e\u{301}", "(17)", "a/b", "a;b", "0"]
        .iter()
        .map(|s| s.to_string())
        .chain([long(127), long(128), long(255), long(256)])
        .collect()
}
pub fn latin1(s: &str) -> bool {
    s.chars().all(|c| (c as u32) < 256)
}
fn id(s: &str) -> FrameId<'static> {
    FrameId::new(s.to_string()).unwrap()
}
pub fn ts(s: &str) -> Timestamp {
    Timestamp::parse(&mut s.as_bytes(), lofty::config::ParsingMode::Strict).unwrap().unwrap()
}
pub fn mimes() -> Vec<Option<MimeType>> {
    vec![Some(MimeType::Png), Some(MimeType::Jpeg), Some(MimeType::Tiff), Some(MimeType::Bmp), Some(MimeType::Gif), Some(MimeType::Unknown("image/x-odd".into())), None]
}
pub fn p(ty: PictureType, m: Option<MimeType>, d: Option<&str>, data: Vec<u8>) -> Picture {
    let mut b = Picture::unchecked(data).pic_type(ty);
    if let Some(m) = m {
        b = b.mime_type(m);
    }
    if let Some(d) = d {
        b = b.description(d.to_string());
    }
    b.build()
}
fn small_png() -> Vec<u8> {
    mk::png(5)
}
pub fn frames() -> Vec<(String, Frame<'static>)> {
    let mut v: Vec<(String, Frame<'static>)> = Vec::new();
    for e in ENC {
        for (i, s) in strings().into_iter().enumerate() {
            if e == TextEncoding::Latin1 && !latin1(&s) {
                continue;
            }
            v.push((format!("TIT2:{e:?}:{i}"), Frame::Text(TextInformationFrame::new(id("TIT2"), e, s.clone()))));
            if i % 3 == 0 {
                v.push((format!("TXXX:{e:?}:{i}"), Frame::UserText(ExtendedTextFrame::new(e, s.clone(), "v"))));
                v.push((format!("TXXXv:{e:?}:{i}"), Frame::UserText(ExtendedTextFrame::new(e, "d", s.clone()))));
                v.push((format!("COMM:{e:?}:{i}"), Frame::Comment(CommentFrame::new(e, *b"eng", s.clone(), "text"))));
                v.push((format!("COMMv:{e:?}:{i}"), Frame::Comment(CommentFrame::new(e, *b"XXX", "", s.clone()))));
                v.push((format!("USLT:{e:?}:{i}"), Frame::UnsynchronizedText(UnsynchronizedTextFrame::new(e, *b"fra", s.clone(), s.clone()))));
                v.push((format!("APICd:{e:?}:{i}"), Frame::Picture(AttachedPictureFrame::new(e, p(PictureType::Artist, Some(MimeType::Png), Some(&s), small_png())))));
                v.push((format!("WXXX:{e:?}:{i}"), Frame::UserUrl(ExtendedUrlFrame::new(e, s.clone(), "http://u"))));
                v.push((
                    format!("TIPL:{e:?}:{i}"),
                    Frame::KeyValue(KeyValueFrame::new(id("TIPL"), e, vec![(Cow::Owned("producer".to_string()), Cow::Owned(s.clone())), ("mix".into(), "b".into())])),
                ));
                v.push((format!("TMCL:{e:?}:{i}"), Frame::KeyValue(KeyValueFrame::new(id("TMCL"), e, vec![(Cow::Owned(s.clone()), Cow::Owned("x".to_string()))]))));
                v.push((
                    format!("OWNE:{e:?}:{i}"),
                    Frame::Ownership(OwnershipFrame::new(e, "$12.50".to_string(), "20200131".to_string(), s.clone())),
                ));
            }
        }
        // several values
        v.push((format!("TPE1multi:{e:?}"), Frame::Text(TextInformationFrame::new(id("TPE1"), e, "one\0two\0three"))));
        v.push((format!("TXXXmulti:{e:?}"), Frame::UserText(ExtendedTextFrame::new(e, "key", "one\0two"))));
        for t in ["TDRC", "TDRL", "TDOR", "TDEN", "TDTG"] {
            for s in ["2020", "2020-11", "2020-11-09", "2020-11-09T13", "2020-11-09T13:05", "2020-11-09T13:05:59"] {
                v.push((format!("{t}:{e:?}:{s}"), Frame::Timestamp(TimestampFrame::new(id(t), e, ts(s)))));
            }
        }
        v.push((format!("TCON:{e:?}"), Frame::Text(TextInformationFrame::new(id("TCON"), e, "Rock"))));
        v.push((format!("TCON2:{e:?}"), Frame::Text(TextInformationFrame::new(id("TCON"), e, "17\0Custom\0RX"))));
        v.push((format!("TRCK:{e:?}"), Frame::Text(TextInformationFrame::new(id("TRCK"), e, "3/12"))));
    }
    for (i, u) in ["http://a.b/c?d=e", "x", "h\u{e9}"].iter().enumerate() {
        for w in ["WOAR", "WCOM", "WPUB"] {
            v.push((format!("{w}:{i}"), Frame::Url(UrlLinkFrame::new(id(w), u.to_string()))));
        }
    }
    for ty in 0..=21u8 {
        for m in mimes() {
            if ty > 2 && m != Some(MimeType::Png) {
                continue;
            }
            v.push((format!("APIC:{ty}:{m:?}"), Frame::Picture(AttachedPictureFrame::new(TextEncoding::UTF8, p(PictureType::from_u8(ty), m, None, small_png())))));
        }
    }
    v.push(("APIC:other".into(), Frame::Picture(AttachedPictureFrame::new(TextEncoding::Latin1, p(PictureType::Undefined(99), Some(MimeType::Gif), Some("d"), mk::pat(300, 4))))));
    v.push(("APIC:empty".into(), Frame::Picture(AttachedPictureFrame::new(TextEncoding::Latin1, p(PictureType::CoverFront, Some(MimeType::Gif), Some("d"), vec![])))));
    for e in ["", "a@b"] {
        for r in [0u8, 1, 128, 255] {
            for c in [0u64, 1, 0xFF, 0x100, 0xFFFF, 0xFFFF_FFFF, 0x1_0000_0000, 0xFF_FFFF_FFFF, u64::MAX] {
                v.push((format!("POPM:{e}:{r}:{c}"), Frame::Popularimeter(PopularimeterFrame::new(e.to_string(), r, c))));
            }
        }
    }
    for n in [1usize, 64, 0] {
        v.push((format!("UFID:{n}"), Frame::UniqueFileIdentifier(UniqueFileIdentifierFrame::new("http://owner".to_string(), mk::pat(n, 3)))));
        v.push((format!("PRIV:{n}"), Frame::Private(PrivateFrame::new("own".to_string(), mk::pat(n, 250)))));
        v.push((format!("GEOB:{n}"), Frame::Binary(BinaryFrame::new(id("GEOB"), mk::pat(n.max(1), 250)))));
        v.push((format!("MCDI:{n}"), Frame::Binary(BinaryFrame::new(id("MCDI"), vec![0xFF; n.max(1)]))));
        v.push((format!("MCDI0:{n}"), Frame::Binary(BinaryFrame::new(id("MCDI"), [vec![0xFF, 0x00, 0xFF, 0xE0], vec![0; n]].concat()))));
    }
    for (pk, data) in [(0u8, None), (8, Some(vec![7u8])), (16, Some(vec![1, 2])), (13, Some(vec![3, 4])), (255, Some(mk::pat(32, 1)))] {
        for va in [0i16, 1, -1, i16::MAX, i16::MIN] {
            let mut h = HashMap::new();
            h.insert(ChannelType::MasterVolume, ChannelInformation { channel_type: ChannelType::MasterVolume, volume_adjustment: va, bits_representing_peak: pk, peak_volume: data.clone() });
            v.push((format!("RVA2:{pk}:{va}"), Frame::RelativeVolumeAdjustment(RelativeVolumeAdjustmentFrame::new("ident", Cow::Owned(h.clone())))));
            h.insert(ChannelType::Subwoofer, ChannelInformation { channel_type: ChannelType::Subwoofer, volume_adjustment: 5, bits_representing_peak: 0, peak_volume: None });
            h.insert(ChannelType::Other, ChannelInformation { channel_type: ChannelType::Other, volume_adjustment: -5, bits_representing_peak: pk, peak_volume: data.clone() });
            v.push((format!("RVA2x3:{pk}:{va}"), Frame::RelativeVolumeAdjustment(RelativeVolumeAdjustmentFrame::new("i", Cow::Owned(h)))));
        }
    }
    v.push((
        "ETCO".into(),
        Frame::EventTimingCodes(EventTimingCodesFrame::new(
            TimestampFormat::MS,
            vec![Event { event_type: EventType::IntroStart, timestamp: 5 }, Event { event_type: EventType::AudioEnd, timestamp: u32::MAX }],
        )),
    ));
    v.push(("ETCO0".into(), Frame::EventTimingCodes(EventTimingCodesFrame::new(TimestampFormat::MPEG, vec![Event { event_type: EventType::Padding, timestamp: 0 }]))));
    let mut fl = FrameList::new();
    fl.insert(Frame::Text(TextInformationFrame::new(id("TIT2"), TextEncoding::UTF8, "chapter title")));
    v.push(("CHAP".into(), Frame::Chapter(ChapterFrame::new("ch1", 0..1000, 5..u32::MAX, fl.clone()))));
    v.push(("CHAP0".into(), Frame::Chapter(ChapterFrame::new("ch0", 0..0, u32::MAX..u32::MAX, FrameList::new()))));
    let fl16 = {
        let mut f = FrameList::new();
        f.insert(Frame::Text(TextInformationFrame::new(id("TIT2"), TextEncoding::UTF16, "\u{ff}\u{3042}")));
        f.insert(Frame::Picture(AttachedPictureFrame::new(TextEncoding::Latin1, p(PictureType::Icon, Some(MimeType::Png), None, small_png()))));
        f
    };
    v.push(("CHAP16".into(), Frame::Chapter(ChapterFrame::new("ch2", 1..2, 3..4, fl16))));
    for top in [false, true] {
        for ord in [false, true] {
            let ents: Vec<Cow<'static, str>> = vec!["ch1".into(), "ch2".into()];
            v.push((
                format!("CTOC:{top}:{ord}"),
                Frame::TableOfContents(ChapterTableOfContentsFrame::new("toc", CtocFlags { top_level: top, ordered: ord }, ents, fl.clone())),
            ));
        }
    }
    // flags
    for k in 0..6u8 {
        let mut f = Frame::Text(TextInformationFrame::new(id("TALB"), TextEncoding::UTF8, "fl\u{e9}gs"));
        let mut fl = FrameFlags::default();
        match k {
            0 => fl.tag_alter_preservation = true,
            1 => fl.file_alter_preservation = true,
            2 => fl.read_only = true,
            3 => fl.grouping_identity = Some(0x80),
            4 => {
                fl.tag_alter_preservation = true;
                fl.file_alter_preservation = true;
                fl.read_only = true;
            }
            _ => {
                fl.grouping_identity = Some(0xFF);
                fl.read_only = true;
            }
        }
        f.set_flags(fl);
        v.push((format!("flags{k}"), f));
    }
    // Apple's own frames
    for (n, i, s) in [("grp1", "GRP1", "group"), ("mvnm", "MVNM", "name"), ("mvin", "MVIN", "2/7"), ("pcst", "PCST", "1")] {
        v.push((n.into(), Frame::Text(TextInformationFrame::new(id(i), if i == "PCST" { TextEncoding::Latin1 } else { TextEncoding::UTF8 }, s))));
    }
    // every type of frame with flags
    let mut ids: Vec<String> = Vec::new();
    for (_, f) in v.clone() {
        if !ids.iter().any(|i| *i == f.id_str()) {
            ids.push(f.id_str().to_string());
            let mut f = f;
            let mut fl = FrameFlags::default();
            fl.file_alter_preservation = true;
            fl.read_only = true;
            fl.grouping_identity = Some(0x42);
            f.set_flags(fl);
            v.push((format!("allflags:{}", f.id_str()), f));
        }
    }
    v
}
pub fn vorbis_info() -> PictureInformation {
    let mut i = PictureInformation::default();
    i.width = 3;
    i.height = 5;
    i.color_depth = 24;
    i.num_colors = 7;
    i
}
/// (name, tag) for every kind of item of the tag type
pub fn rich(t: T) -> Vec<(String, N)> {
    let mut v: Vec<(String, N)> = Vec::new();
    match t {
        T::Id3v2 => {
            for (n, f) in frames() {
                let mut x = Id3v2Tag::new();
                x.insert(f);
                v.push((n, N::Id3v2(x)));
            }
        }
        T::Id3v1 => {
            for n in [1usize, 2, 28, 29, 30] {
                let s: String = (0..n).map(|i| char::from_u32(0x41 + ((i as u32 * 37) % 0xBF)).unwrap()).filter(|c| !(0x7F..0xA0).contains(&(*c as u32))).chain("zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz".chars()).take(n).collect();
                let d = Id3v1Tag::new;
                let mut x = d();
                x.title = Some(s.clone());
                v.push((format!("title{n}"), N::Id3v1(x)));
                let mut x = d();
                x.artist = Some(s.clone());
                v.push((format!("artist{n}"), N::Id3v1(x)));
                let mut x = d();
                x.album = Some(s.clone());
                v.push((format!("album{n}"), N::Id3v1(x)));
                if n <= 28 {
                    let mut x = d();
                    x.comment = Some(s.clone());
                    v.push((format!("comment{n}"), N::Id3v1(x)));
                }
            }
            for y in [1u16, 999, 1000, 1999, 2020, 9999] {
                let mut x = Id3v1Tag::new();
                x.year = Some(y);
                v.push((format!("year{y}"), N::Id3v1(x)));
            }
            for tr in [1u8, 32, 255] {
                let mut x = Id3v1Tag::new();
                x.track_number = Some(tr);
                v.push((format!("track{tr}"), N::Id3v1(x)));
            }
            for g in [0u8, 1, 79, 80, 191] {
                let mut x = Id3v1Tag::new();
                x.genre = Some(g);
                v.push((format!("genre{g}"), N::Id3v1(x)));
            }
        }
        T::Ape => {
            let mut add = |n: String, k: &str, val: ItemValue, ro: bool| {
                let mut x = ApeTag::new();
                let mut i = ApeItem::new(k.to_string(), val).unwrap();
                if ro {
                    i.read_only = true;
                }
                x.insert(i);
                v.push((n, N::Ape(x)));
            };
            for (i, s) in strings().into_iter().enumerate() {
                add(format!("text{i}"), "Title", ItemValue::Text(s.clone()), i % 5 == 0);
                add(format!("custom{i}"), "My Key ~", ItemValue::Text(s.clone()), false);
            }
            add("multi".into(), "Artist", ItemValue::Text("a\0b\0c".into()), false);
            add("track".into(), "Track", ItemValue::Text("3/12".into()), false);
            add("disc".into(), "Disc", ItemValue::Text("1/2".into()), false);
            add("loc".into(), "Related", ItemValue::Locator("http://x/y".into()), false);
            add("locmapped".into(), "Composer", ItemValue::Locator("http://x/y\0ftp://z".into()), false);
            add("locro".into(), "Related", ItemValue::Locator("http://x/y\0ftp://z".into()), true);
            for n in [0usize, 1, 2, 255, 4096] {
                add(format!("bin{n}"), "Blob", ItemValue::Binary(mk::pat(n, 7)), n == 2);
            }
            add("cover".into(), "Cover Art (Front)", ItemValue::Binary([b"c.png\0".to_vec(), small_png()].concat()), false);
            add("klen2".into(), "ab", ItemValue::Text("v".into()), false);
            add("klen255".into(), &long(255), ItemValue::Text("v".into()), false);
            add("preamble".into(), "Lyrics", ItemValue::Text("APETAGEX inside, TAG too, LYRICSBEGIN ".into()), false);
        }
        T::Vorbis => {
            let base = || {
                let mut x = VorbisComments::default();
                x.set_vendor("vend".into());
                x
            };
            for (i, s) in strings().into_iter().enumerate() {
                let mut x = base();
                x.push("TITLE".into(), s.clone());
                v.push((format!("title{i}"), N::Vorbis(x)));
                let mut x = base();
                x.push("My KEY ~".into(), s.clone());
                x.push("ARTIST".into(), "x=y=z".into());
                x.push("ARTIST".into(), s.clone());
                v.push((format!("multi{i}"), N::Vorbis(x)));
            }
            for k in ["a", "lower", "}", " ", "!\"#$%&'()*+,-./0123456789:;<>?@[\\]^_`{|}"] {
                let mut x = base();
                x.push(k.into(), "v".into());
                v.push((format!("key{k}"), N::Vorbis(x)));
            }
            let mut x = base();
            x.push("nul".into(), "a\0b".into());
            v.push(("nul".into(), N::Vorbis(x)));
            for ty in 0..=20u8 {
                let mut x = base();
                let _ = x.insert_picture(p(PictureType::from_u8(ty), Some(MimeType::Png), Some("d\u{e9}"), small_png()), Some(vorbis_info()));
                v.push((format!("pic{ty}"), N::Vorbis(x)));
            }
            for (i, m) in mimes().into_iter().enumerate() {
                let mut x = base();
                let _ = x.insert_picture(p(PictureType::CoverBack, m, None, mk::pat(3 + i, 1)), Some(PictureInformation::default()));
                v.push((format!("mime{i}"), N::Vorbis(x)));
            }
            let mut x = base();
            for ty in [3u8, 4, 0, 0, 17] {
                let _ = x.insert_picture(p(PictureType::from_u8(ty), Some(MimeType::Jpeg), Some("q"), mk::pat(40 + ty as usize, ty)), Some(vorbis_info()));
            }
            v.push(("pics".into(), N::Vorbis(x)));
        }
        T::Ilst => {
            let four = |s: &[u8; 4]| AtomIdent::Fourcc(*s);
            let mut add = |n: String, a: Atom<'static>| {
                let mut x = Ilst::new();
                x.insert(a);
                v.push((n, N::Ilst(x)));
            };
            for (i, s) in strings().into_iter().enumerate() {
                add(format!("utf8:{i}"), Atom::new(four(b"\xa9nam"), AtomData::UTF8(s.clone())));
                add(format!("utf16:{i}"), Atom::new(four(b"\xa9ART"), AtomData::UTF16(s.clone())));
                add(
                    format!("free:{i}"),
                    Atom::new(AtomIdent::Freeform { mean: "com.apple.iTunes".into(), name: Cow::Owned(s.clone()) }, AtomData::UTF8(s.clone())),
                );
            }
            add("freeform-mean".into(), Atom::new(AtomIdent::Freeform { mean: "\u{e9}m".into(), name: "n".into() }, AtomData::UTF8("v".into())));
            for n in [0i32, 1, -1, 127, 128, -128, -129, 32767, 32768, -32768, -32769, 8388607, 8388608, -8388608, -8388609, i32::MAX, i32::MIN] {
                add(format!("int{n}"), Atom::new(four(b"tmpo"), AtomData::SignedInteger(n)));
            }
            for n in [0u32, 1, 255, 256, 65535, 65536, 0xFF_FFFF, 0x100_0000, u32::MAX] {
                add(format!("uint{n}"), Atom::new(four(b"cnID"), AtomData::UnsignedInteger(n)));
            }
            for b in [false, true] {
                for k in [b"cpil", b"pgap", b"pcst", b"hdvd", b"shwm"] {
                    add(format!("bool{b}{}", String::from_utf8_lossy(k)), Atom::new(four(k), AtomData::Bool(b)));
                }
            }
            for (i, m) in [Some(MimeType::Png), Some(MimeType::Jpeg), Some(MimeType::Gif), Some(MimeType::Bmp), None].into_iter().enumerate() {
                add(format!("covr{i}"), Atom::new(four(b"covr"), AtomData::Picture(p(PictureType::Other, m, None, mk::pat(6 + i, 2)))));
            }
            for (i, c) in [DataType::Reserved, DataType::BeFloat32, DataType::QuicktimeMetadata, DataType::BeFloat64, DataType::Utf8Sort, DataType::Be64BitUnsignedInteger].into_iter().enumerate() {
                add(format!("unk{i}"), Atom::new(four(b"xyzw"), AtomData::Unknown { code: c, data: mk::pat(8, 6) }));
            }
            add("trkn".into(), Atom::new(four(b"trkn"), AtomData::Unknown { code: DataType::Reserved, data: vec![0, 0, 0, 3, 0, 12, 0, 0] }));
            add("disk".into(), Atom::new(four(b"disk"), AtomData::Unknown { code: DataType::Reserved, data: vec![0, 0, 0, 1, 0, 2] }));
            add("rtng".into(), Atom::new(four(b"rtng"), AtomData::SignedInteger(4)));
            add(
                "multi".into(),
                Atom::from_collection(four(b"\xa9gen"), vec![AtomData::UTF8("a".into()), AtomData::UTF8("b".into()), AtomData::UTF16("c".into())]).unwrap(),
            );
            add(
                "multipic".into(),
                Atom::from_collection(
                    four(b"covr"),
                    vec![AtomData::Picture(p(PictureType::Other, Some(MimeType::Png), None, small_png())), AtomData::Picture(p(PictureType::Other, Some(MimeType::Jpeg), None, mk::jpeg(9)))],
                )
                .unwrap(),
            );
            add(
                "freemulti".into(),
                Atom::from_collection(AtomIdent::Freeform { mean: "m".into(), name: "n".into() }, vec![AtomData::UTF8("a".into()), AtomData::SignedInteger(5)]).unwrap(),
            );
        }
        T::RiffInfo => {
            for (i, s) in strings().into_iter().enumerate() {
                let mut x = RiffInfoList::default();
                x.insert("INAM".into(), s.clone());
                v.push((format!("INAM{i}"), N::Riff(x)));
                let mut x = RiffInfoList::default();
                x.insert("abcd".into(), s.clone());
                x.insert("IART".into(), s + "q");
                v.push((format!("cust{i}"), N::Riff(x)));
            }
        }
        T::AiffText => {
            for (i, s) in strings().into_iter().enumerate() {
                let d = AiffTextChunks::default;
                let mut x = d();
                x.name = Some(s.clone());
                v.push((format!("name{i}"), N::Aiff(x)));
                let mut x = d();
                x.author = Some(s.clone());
                x.copyright = Some(s.clone());
                v.push((format!("authc{i}"), N::Aiff(x)));
                let mut x = d();
                x.annotations = Some(vec![s.clone(), "b".into(), s.clone()]);
                v.push((format!("anno{i}"), N::Aiff(x)));
                let mut x = d();
                x.comments = Some(vec![
                    Comment { timestamp: u32::MAX, marker_id: 65535, text: s.clone() },
                    Comment { timestamp: 0, marker_id: 0, text: "odd".into() },
                    Comment { timestamp: 1, marker_id: 1, text: s.clone() },
                ]);
                v.push((format!("comt{i}"), N::Aiff(x)));
            }
        }
    }
    v
}
/// Adds everything of `b` to `a` (same tag type).
pub fn merge(a: &N, b: &N) -> N {
    let mut a = a.clone();
    match (&mut a, b) {
        (N::Id3v2(x), N::Id3v2(y)) => {
            for f in y {
                x.insert(f.clone());
            }
        }
        (N::Id3v1(x), N::Id3v1(y)) => {
            macro_rules! m { ($($f:ident),*) => { $( if y.$f.is_some() { x.$f = y.$f.clone(); } )* } }
            m!(title, artist, album, year, comment, track_number, genre);
        }
        (N::Ape(x), N::Ape(y)) => {
            for i in y {
                x.insert(i.clone());
            }
        }
        (N::Vorbis(x), N::Vorbis(y)) => {
            for (k, v) in y.items() {
                x.push(k.to_string(), v.to_string());
            }
            for (p, i) in y.pictures() {
                let _ = x.insert_picture(p.clone(), Some(*i));
            }
        }
        (N::Ilst(x), N::Ilst(y)) => {
            for a in y {
                x.insert(a.clone());
            }
        }
        (N::Riff(x), N::Riff(y)) => {
            for (k, v) in y {
                x.insert(k.clone(), v.clone());
            }
        }
        (N::Aiff(x), N::Aiff(y)) => {
            macro_rules! m { ($($f:ident),*) => { $( if y.$f.is_some() { x.$f = y.$f.clone(); } )* } }
            m!(name, author, copyright, annotations, comments);
        }
        _ => unreachable!(),
    }
    a
}
/// One tag holding many items at once.
pub fn everything(t: T) -> N {
    let mut n = N::empty(t);
    if let N::Vorbis(v) = &mut n {
        v.set_vendor("vend".into());
    }
    for (_, x) in rich(t).iter().step_by(3) {
        n = merge(&n, x);
    }
    n
}
fn text(n: usize) -> String {
    // printable, no separators of any format
    (0..n).map(|i| (b'a' + ((i * 7 + n) % 26) as u8) as char).collect()
}
/// Tags whose every variable-size part has `n` characters or bytes, with something behind each.
pub fn sized(t: T, n: usize) -> Vec<(String, N)> {
    let mut v: Vec<(String, N)> = Vec::new();
    let s = text(n);
    let d = mk::pat(n, 5);
    match t {
        T::Id3v2 => {
            for e in ENC {
                let mut x = Id3v2Tag::new();
                let mut add = |f: Frame<'static>| {
                    x.insert(f);
                };
                add(Frame::Text(TextInformationFrame::new(id("TIT2"), e, s.clone())));
                add(Frame::UserText(ExtendedTextFrame::new(e, s.clone(), s.clone())));
                add(Frame::UserUrl(ExtendedUrlFrame::new(e, s.clone(), s.clone())));
                add(Frame::Comment(CommentFrame::new(e, *b"eng", s.clone(), s.clone())));
                add(Frame::UnsynchronizedText(UnsynchronizedTextFrame::new(e, *b"eng", s.clone(), s.clone())));
                add(Frame::KeyValue(KeyValueFrame::new(id("TIPL"), e, vec![(Cow::Owned(s.clone()), Cow::Owned(s.clone())), ("a".into(), "b".into())])));
                add(Frame::Picture(AttachedPictureFrame::new(e, p(PictureType::Artist, Some(MimeType::Png), Some(&s), d.clone()))));
                add(Frame::Ownership(OwnershipFrame::new(e, s.clone(), "20200131".to_string(), s.clone())));
                if e == TextEncoding::Latin1 {
                    add(Frame::Url(UrlLinkFrame::new(id("WOAR"), s.clone())));
                    add(Frame::UniqueFileIdentifier(UniqueFileIdentifierFrame::new(s.clone(), d.clone())));
                    add(Frame::Private(PrivateFrame::new(s.clone(), d.clone())));
                    add(Frame::Popularimeter(PopularimeterFrame::new(s.clone(), 7, n as u64)));
                    add(Frame::Binary(BinaryFrame::new(id("MCDI"), d.clone())));
                    add(Frame::Picture(AttachedPictureFrame::new(e, p(PictureType::Icon, Some(MimeType::Unknown(s.clone())), None, d.clone()))));
                    let mut fl = FrameList::new();
                    fl.insert(Frame::Text(TextInformationFrame::new(id("TIT2"), e, s.clone())));
                    add(Frame::Chapter(ChapterFrame::new(s.clone(), 0..1000, 5..u32::MAX, fl.clone())));
                    add(Frame::TableOfContents(ChapterTableOfContentsFrame::new(s.clone(), CtocFlags { top_level: true, ordered: false }, vec![Cow::Owned(s.clone()), "z".into()], fl)));
                    let mut h = HashMap::new();
                    h.insert(ChannelType::Other, ChannelInformation { channel_type: ChannelType::Other, volume_adjustment: 3, bits_representing_peak: 0, peak_volume: None });
                    add(Frame::RelativeVolumeAdjustment(RelativeVolumeAdjustmentFrame::new(s.clone(), Cow::Owned(h))));
                }
                add(Frame::Text(TextInformationFrame::new(id("TALB"), e, "behind")));
                v.push((format!("sized{n}:{e:?}"), N::Id3v2(x)));
            }
        }
        T::Id3v1 => {}
        T::Ape => {
            let mut x = ApeTag::new();
            let mut add = |k: String, val: ItemValue| x.insert(ApeItem::new(k, val).unwrap());
            add("Title".into(), ItemValue::Text(s.clone()));
            if (2..=255).contains(&n) && n != 3 {
                add(s.clone(), ItemValue::Text("key".into()));
            }
            add("Artist".into(), ItemValue::Text(format!("{s}\0{s}")));
            add("Blob".into(), ItemValue::Binary(d.clone()));
            add("Related".into(), ItemValue::Locator(s.clone()));
            add("Album".into(), ItemValue::Text("behind".into()));
            v.push((format!("sized{n}"), N::Ape(x)));
        }
        T::Vorbis => {
            let mut x = VorbisComments::default();
            x.push("TITLE".into(), s.clone());
            x.push(s.clone(), "key".into());
            x.push("ARTIST".into(), s.clone());
            let _ = x.insert_picture(p(PictureType::Artist, Some(MimeType::Png), Some(&s), d.clone()), Some(vorbis_info()));
            let _ = x.insert_picture(p(PictureType::Band, Some(MimeType::Unknown(s.clone())), None, vec![1, 2]), Some(vorbis_info()));
            x.push("ALBUM".into(), "behind".into());
            v.push((format!("sized{n}"), N::Vorbis(x)));
        }
        T::Ilst => {
            let mut x = Ilst::new();
            x.insert(Atom::new(AtomIdent::Fourcc(*b"\xa9nam"), AtomData::UTF8(s.clone())));
            x.insert(Atom::new(AtomIdent::Fourcc(*b"\xa9ART"), AtomData::UTF16(s.clone())));
            x.insert(Atom::new(AtomIdent::Freeform { mean: Cow::Owned(s.clone()), name: Cow::Owned(s.clone()) }, AtomData::UTF8(s.clone())));
            x.insert(Atom::new(AtomIdent::Fourcc(*b"covr"), AtomData::Picture(p(PictureType::Other, Some(MimeType::Png), None, d.clone()))));
            x.insert(Atom::new(AtomIdent::Fourcc(*b"xyzw"), AtomData::Unknown { code: DataType::Reserved, data: d.clone() }));
            x.insert(Atom::from_collection(AtomIdent::Fourcc(*b"\xa9gen"), vec![AtomData::UTF8(s.clone()), AtomData::UTF8("b".into()), AtomData::UTF8(s.clone())]).unwrap());
            x.insert(Atom::new(AtomIdent::Fourcc(*b"\xa9alb"), AtomData::UTF8("behind".into())));
            v.push((format!("sized{n}"), N::Ilst(x)));
        }
        T::RiffInfo => {
            let mut x = RiffInfoList::default();
            x.insert("INAM".into(), s.clone());
            x.insert("IART".into(), s.clone());
            x.insert("IPRD".into(), "behind".into());
            v.push((format!("sized{n}"), N::Riff(x)));
        }
        T::AiffText => {
            let mut x = AiffTextChunks::default();
            x.name = Some(s.clone());
            x.author = Some(s.clone());
            x.copyright = Some(s.clone());
            x.annotations = Some(vec![s.clone(), "b".into(), s.clone()]);
            if n <= 65535 {
                x.comments = Some(vec![
                    Comment { timestamp: 1, marker_id: 2, text: s.clone() },
                    Comment { timestamp: 3, marker_id: 4, text: "second".into() },
                    Comment { timestamp: 5, marker_id: 6, text: s.clone() },
                ]);
            }
            v.push((format!("sized{n}"), N::Aiff(x)));
        }
    }
    v
}
/// Tags that hold `n` items of each repeatable kind.
pub fn many(t: T, n: usize) -> Vec<(String, N)> {
    let mut v: Vec<(String, N)> = Vec::new();
    let num = |i: usize| format!("item number {i}");
    match t {
        T::Id3v2 => {
            let mut x = Id3v2Tag::new();
            for i in 0..n {
                x.insert(Frame::UserText(ExtendedTextFrame::new(TextEncoding::UTF8, num(i), "v")));
            }
            v.push((format!("many{n}:TXXX"), N::Id3v2(x)));
            let mut x = Id3v2Tag::new();
            for i in 0..n {
                x.insert(Frame::Picture(AttachedPictureFrame::new(TextEncoding::UTF8, p(PictureType::Artist, Some(MimeType::Png), Some(&num(i)), mk::pat(i % 50 + 1, 1)))));
            }
            v.push((format!("many{n}:APIC"), N::Id3v2(x)));
            let mut x = Id3v2Tag::new();
            let vals: Vec<String> = (0..n.max(1)).map(num).collect();
            x.insert(Frame::Text(TextInformationFrame::new(id("TPE1"), TextEncoding::UTF16, vals.join("\0"))));
            x.insert(Frame::KeyValue(KeyValueFrame::new(id("TIPL"), TextEncoding::UTF8, (0..n.max(1)).map(|i| (Cow::Owned(num(i)), Cow::Owned("x".to_string()))).collect::<Vec<(Cow<str>, Cow<str>)>>())));
            let mut fl = FrameList::new();
            for i in 0..n {
                fl.insert(Frame::UserText(ExtendedTextFrame::new(TextEncoding::UTF8, num(i), "v")));
            }
            x.insert(Frame::Chapter(ChapterFrame::new("c", 0..1000, 5..u32::MAX, fl.clone())));
            // the entry count of a table of contents is a byte
            if n <= 255 {
                x.insert(Frame::TableOfContents(ChapterTableOfContentsFrame::new("t", CtocFlags { top_level: true, ordered: false }, (0..n).map(|i| Cow::Owned(num(i))).collect::<Vec<Cow<str>>>(), fl)));
            }
            x.insert(Frame::Text(TextInformationFrame::new(id("TALB"), TextEncoding::UTF8, "behind")));
            v.push((format!("many{n}:values"), N::Id3v2(x)));
        }
        T::Id3v1 => {}
        T::Ape => {
            let mut x = ApeTag::new();
            for i in 0..n {
                x.insert(ApeItem::new(num(i), if i % 3 == 0 { ItemValue::Binary(mk::pat(i % 60, 1)) } else { ItemValue::Text("v".into()) }).unwrap());
            }
            v.push((format!("many{n}"), N::Ape(x)));
        }
        T::Vorbis => {
            let mut x = VorbisComments::default();
            for i in 0..n {
                x.push("ARTIST".into(), num(i));
            }
            v.push((format!("many{n}:items"), N::Vorbis(x)));
            let mut x = VorbisComments::default();
            for i in 0..n {
                let _ = x.insert_picture(p(PictureType::Artist, Some(MimeType::Png), Some(&num(i)), mk::pat(i % 50 + 1, 1)), Some(vorbis_info()));
            }
            x.push("ALBUM".into(), "behind".into());
            v.push((format!("many{n}:pics"), N::Vorbis(x)));
        }
        T::Ilst => {
            let mut x = Ilst::new();
            for i in 0..n {
                x.insert(Atom::new(AtomIdent::Freeform { mean: "m".into(), name: Cow::Owned(num(i)) }, AtomData::UTF8("v".into())));
            }
            v.push((format!("many{n}:free"), N::Ilst(x)));
            let mut x = Ilst::new();
            x.insert(Atom::from_collection(AtomIdent::Fourcc(*b"\xa9gen"), (0..n.max(1)).map(|i| AtomData::UTF8(num(i))).collect()).unwrap());
            x.insert(
                Atom::from_collection(AtomIdent::Fourcc(*b"covr"), (0..n.max(1)).map(|i| AtomData::Picture(p(PictureType::Other, Some(if i % 2 == 0 { MimeType::Png } else { MimeType::Jpeg }), None, mk::pat(i % 70 + 4, 1)))).collect()).unwrap(),
            );
            v.push((format!("many{n}:values"), N::Ilst(x)));
        }
        T::RiffInfo => {
            let mut x = RiffInfoList::default();
            for i in 0..n {
                x.insert(format!("{i:04}"), num(i));
            }
            v.push((format!("many{n}"), N::Riff(x)));
        }
        T::AiffText => {
            let mut x = AiffTextChunks::default();
            x.annotations = Some((0..n).map(num).collect());
            x.comments = Some((0..n).map(|i| Comment { timestamp: i as u32, marker_id: (i % 65536) as u16, text: num(i) }).collect());
            x.copyright = Some("behind".into());
            v.push((format!("many{n}"), N::Aiff(x)));
        }
    }
    v.retain(|(_, n)| !n.is_empty());
    v
}
/// One tag per item of `n`.
pub fn split(n: &N) -> Vec<(String, N)> {
    let mut v = Vec::new();
    match n {
        N::Id3v2(x) => {
            for f in x {
                let mut y = Id3v2Tag::new();
                y.insert(f.clone());
                v.push((f.id_str().to_string(), N::Id3v2(y)));
            }
        }
        N::Id3v1(_) => v.push(("tag".into(), n.clone())),
        N::Ape(x) => {
            for i in x {
                let mut y = ApeTag::new();
                y.insert(i.clone());
                v.push((i.key().chars().take(12).collect(), N::Ape(y)));
            }
        }
        N::Vorbis(x) => {
            let mut e = VorbisComments::default();
            e.set_vendor(x.vendor().to_string());
            for (k, val) in x.items() {
                let mut y = e.clone();
                y.push(k.to_string(), val.to_string());
                v.push((k.chars().take(12).collect(), N::Vorbis(y)));
            }
            for (p, i) in x.pictures() {
                let mut y = e.clone();
                let _ = y.insert_picture(p.clone(), Some(*i));
                v.push((format!("picture {:?}", p.pic_type()), N::Vorbis(y)));
            }
        }
        N::Ilst(x) => {
            for a in x {
                let mut y = Ilst::new();
                y.insert(a.clone());
                v.push((format!("{:.20?}", a.ident()), N::Ilst(y)));
            }
        }
        N::Riff(x) => {
            for (k, val) in x {
                let mut y = RiffInfoList::default();
                y.insert(k.clone(), val.clone());
                v.push((k.clone(), N::Riff(y)));
            }
        }
        N::Aiff(x) => {
            macro_rules! m { ($($f:ident),*) => { $( if x.$f.is_some() {
                let mut y = AiffTextChunks::default();
                y.$f = x.$f.clone();
                v.push((stringify!($f).to_string(), N::Aiff(y)));
            } )* } }
            m!(name, author, copyright, annotations, comments);
        }
    }
    v
}
