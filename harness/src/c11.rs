//! C11: conversions between generic and native tags lose nothing they can represent.
use crate::api::*;
use crate::c02::kinds;
use crate::ctx::*;
use crate::keys::KEYS;
use crate::layouts::*;
use crate::rich;
use crate::walk::*;
use lofty::ape::ApeTag;
use lofty::config::{GlobalOptions, apply_global_options};
use lofty::file::TaggedFileExt;
use lofty::id3::v1::{GENRES, Id3v1Tag};
use lofty::id3::v2::PopularimeterFrame;
use lofty::tag::items::popularimeter::StarRating;
use lofty::id3::v2::{Frame, Id3v2Tag};
use lofty::iff::aiff::AiffTextChunks;
use lofty::iff::wav::RiffInfoList;
use lofty::mp4::{AtomData, AtomIdent, Ilst};
use lofty::ogg::OggPictureStorage;
use lofty::ogg::tag::VorbisComments;
use lofty::tag::{ItemKey, ItemValue, MergeTag, SplitTag, Tag, TagExt, TagItem};
use serde_json::json;
use std::sync::atomic::Ordering;

/// The content of a native tag as a multiset, regardless of text encodings, flags and order
fn content(n: &N) -> Vec<String> {
    let mut v: Vec<String> = match n {
        N::Id3v2(t) => {
            let mut v = Vec::new();
            for f in t {
                match f {
                    // genres may be numbers
                    Frame::Text(x) if x.id().as_str() == "TCON" => {
                        for g in genres(&x.value) {
                            v.push(format!("genre {g:?}"));
                        }
                    }
                    Frame::Text(x) => v.push(format!("T {} {:?}", x.id().as_str(), x.value)),
                    Frame::UserText(x) => v.push(format!("TXXX {:?} {:?}", x.description, x.content)),
                    Frame::Url(x) => v.push(format!("W {} {:?}", x.id().as_str(), x.url())),
                    Frame::UserUrl(x) => v.push(format!("WXXX {:?} {:?}", x.description, x.content)),
                    Frame::Comment(x) => v.push(format!("COMM {:?} {:?} {:?}", x.language, x.description, x.content)),
                    Frame::UnsynchronizedText(x) => v.push(format!("USLT {:?} {:?} {:?}", x.language, x.description, x.content)),
                    Frame::KeyValue(x) => {
                        for (a, b) in x.key_value_pairs.iter() {
                            v.push(format!("KV {} {a:?} {b:?}", x.id().as_str()));
                        }
                        if x.key_value_pairs.is_empty() {
                            v.push(format!("KV {} empty", x.id().as_str()));
                        }
                    }
                    // only the stars survive, see C23
                    Frame::Popularimeter(x) => v.push(format!(
                        "POPM {:?} {:?} {}",
                        x.email,
                        stars(&x.email, x.rating),
                        x.counter
                    )),
                    Frame::UniqueFileIdentifier(x) => v.push(format!("UFID {:?} {:?}", x.owner, x.identifier)),
                    Frame::Timestamp(x) => v.push(format!("T {} {:?}", x.id().as_str(), x.timestamp.to_string())),
                    Frame::Picture(x) => v.push(pic(&x.picture)),
                    f => v.push(format!("{f:?}")),
                }
            }
            // equal frames are stored once
            v.sort();
            v.dedup();
            // the flags of the tag header
            v.push(format!("{:?}", t.flags()));
            v
        }
        N::Id3v1(t) => vec![format!("{t:?}")],
        N::Ape(t) => t.into_iter().map(|i| format!("{} {:?}", i.key(), i.value())).collect(),
        N::Vorbis(t) => t
            .items()
            .map(|(k, v)| format!("{} {v:?}", k.to_ascii_uppercase()))
            .chain(t.pictures().iter().map(|(p, _)| pic(p)))
            .chain([format!("vendor {:?}", t.vendor())])
            .collect(),
        N::Ilst(t) => t
            .into_iter()
            .flat_map(|a| {
                a.data()
                    .map(|d| match d {
                        AtomData::UTF8(s) | AtomData::UTF16(s) => format!("{:?} {s:?}", a.ident()),
                        // the size of a number pair is not content
                        AtomData::Unknown { data, .. } if matches!(a.ident(), AtomIdent::Fourcc(f) if f == b"trkn" || f == b"disk") => {
                            let mut d = data.clone();
                            d.resize(6, 0);
                            format!("{:?} {d:?}", a.ident())
                        }
                        // 4 is the old value for explicit
                        AtomData::SignedInteger(4) if matches!(a.ident(), AtomIdent::Fourcc(f) if f == b"rtng") => format!("{:?} SignedInteger(1)", a.ident()),
                        AtomData::Picture(p) => format!("{:?} {}", a.ident(), pic(p)),
                        d => format!("{:?} {d:?}", a.ident()),
                    })
                    .collect::<Vec<_>>()
            })
            .collect(),
        N::Riff(t) => t.into_iter().map(|(k, v)| format!("{k} {v:?}")).collect(),
        N::Aiff(t) => vec![
            format!("{:?} {:?} {:?}", t.name, t.author, t.copyright),
            // comments become annotations
            format!("{:?}", {
                let mut v = t.annotations.clone().unwrap_or_default();
                v.extend(t.comments.iter().flatten().map(|c| c.text.clone()));
                v.sort();
                v
            }),
        ],
    };
    v.sort();
    v
}
/// The stars of a rating, None if no provider knows it
fn stars(email: &str, rating: u8) -> Option<StarRating> {
    let mut t = Id3v2Tag::new();
    t.insert(Frame::Popularimeter(PopularimeterFrame::new(email.to_string(), rating, 0)));
    Tag::from(t).ratings().next().map(|p| p.rating())
}
/// The names of the genres in a TCON frame: names, numbers, and numbers in parentheses
fn genres(s: &str) -> Vec<String> {
    let name = |x: &str| match x {
        "RX" => "Remix".to_string(),
        "CR" => "Cover".to_string(),
        _ => x.parse::<usize>().ok().and_then(|i| GENRES.get(i)).map_or_else(|| x.to_string(), |g| g.to_string()),
    };
    let mut v = Vec::new();
    for part in s.split('\0') {
        let mut rest = part;
        while let Some((n, r)) = rest.strip_prefix('(').filter(|r| !r.starts_with('(')).and_then(|r| r.split_once(')')) {
            v.push(name(n));
            rest = r;
        }
        if let Some(r) = rest.strip_prefix("((") {
            v.push(format!("({r}"));
        } else if !rest.is_empty() {
            v.push(name(rest));
        }
    }
    v
}
fn pic(p: &lofty::picture::Picture) -> String {
    format!("pic {:?} {:?} {:?} {} {:x}", p.pic_type(), p.mime_type(), p.description(), p.data().len(), h64(p.data()))
}
/// Split into a generic tag and the remainder, and merge them again
fn split_merge(n: &N) -> (Tag, N) {
    macro_rules! go {
        ($t:expr, $v:ident) => {{
            let (r, t) = $t.clone().split_tag();
            let g = t.clone();
            (g, N::$v(r.merge_tag(t)))
        }};
    }
    match n {
        N::Id3v2(t) => go!(t, Id3v2),
        N::Id3v1(t) => go!(t, Id3v1),
        N::Ape(t) => go!(t, Ape),
        N::Vorbis(t) => go!(t, Vorbis),
        N::Ilst(t) => go!(t, Ilst),
        N::Riff(t) => go!(t, Riff),
        N::Aiff(t) => go!(t, Aiff),
    }
}
fn diff(a: &[String], b: &[String]) -> String {
    let miss: Vec<&String> = a.iter().filter(|x| !b.contains(x)).take(4).collect();
    let extra: Vec<&String> = b.iter().filter(|x| !a.contains(x)).take(4).collect();
    format!("missing {miss:?} extra {extra:?}")
}
fn native(cx: &Ctx, key: &str, n: &N) {
    if cx.too_many() {
        return;
    }
    cx.case(key, b"");
    let want = content(n);
    cx.eval(&want);
    let (g, back) = match guard(|| split_merge(n)) {
        Ok(x) => x,
        Err(p) => return cx.violation(format!("{key}:split-panic"), format!("split/merge panics: {p}"), vec![]),
    };
    cx.outcome(&tag_sig(&g));
    let got = content(&back);
    if got != want {
        cx.violation(format!("{key}:split-merge"), format!("split and merged: {}", diff(&want, &got)), vec![]);
    }
    // through the generic tag alone
    let keeps = matches!(n, N::Id3v2(_) | N::Ilst(_));
    for preserve in [true, false] {
        apply_global_options(GlobalOptions::new().preserve_format_specific_items(preserve));
        let r = guard(|| {
            let t = n.clone().into_tag();
            let s = tag_sig(&t);
            let back = N::from_tag(t.clone(), n.t());
            // what the conversion keeps, it keeps for good
            let again = back.clone().into_tag();
            let sum = (s, content(&back), tag_sig(&again), t.has_format_specific_items());
            sum
        });
        apply_global_options(GlobalOptions::new());
        match r {
            Err(p) => cx.violation(format!("{key}:convert-panic:{preserve}"), format!("conversion panics: {p}"), vec![]),
            Ok((s, c, again, specific)) => {
                if keeps && preserve && c != want {
                    cx.violation(format!("{key}:convert"), format!("converted to a generic tag and back: {}", diff(&want, &c)), vec![]);
                }
                if !preserve && specific {
                    cx.violation(format!("{key}:preserved"), "format-specific items are kept although preservation is off", vec![]);
                }
                let sorted = |s: &str| {
                    let mut l: Vec<String> = s.lines().map(String::from).collect();
                    l.sort();
                    if n.t() == T::Id3v2 {
                        l.dedup();
                    }
                    l
                };
                if sorted(&s) != sorted(&again) {
                    cx.violation(format!("{key}:generic:{preserve}"), format!("the generic tag after a round trip: {}", diff(&sorted(&s), &sorted(&again))), vec![]);
                }
                if sorted(&tag_sig(&g)) != sorted(&s) {
                    cx.violation(format!("{key}:split-convert:{preserve}"), format!("split and conversion give different generic tags: {}", diff(&sorted(&tag_sig(&g)), &sorted(&s))), vec![]);
                }
            }
        }
    }
}
/// The values a key can take, all of them valid for it
fn values(k: ItemKey, t: T) -> Vec<String> {
    use ItemKey::*;
    let s = |v: &[&str]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    match k {
        TrackNumber | TrackTotal | DiscNumber | DiscTotal | MovementNumber | MovementTotal => s(&["7", "1", "12", "255"]),
        IntegerBpm => s(&["120", "1", "65535"]),
        Bpm if t == T::Ilst => s(&["120"]),
        FlagCompilation | FlagPodcast => s(&["1", "0"]),
        ParentalAdvisory => s(&["0", "1", "2"]),
        Popularimeter => match t {
            T::Id3v2 => s(&["a@b|3|7", "MusicBee|5|0", "x|1|4294967296"]),
            // there is no play counter
            T::Vorbis => s(&["a@b|3|0", "MusicBee|5|0", "|2|0"]),
            T::RiffInfo => s(&["|3|0", "|1|0"]),
            _ => s(&["a@b|3|7"]),
        },
        Year => s(&["2020", "1999"]),
        RecordingDate | ReleaseDate | OriginalReleaseDate | TaggingTime | EncodingTime => {
            if t == T::Id3v1 {
                s(&["2020"])
            } else {
                s(&["2020-02-03", "2020", "2020-02", "2020-02-03T10:11:12"])
            }
        }
        // numbers are genre references there
        Genre if t == T::Id3v2 => s(&["v", "Rock", "a;b", "a/b", "A\u{e9}\u{4e00}\u{1F600}", " pad "]),
        Genre if t == T::Id3v1 => s(&["Rock", "Blues", "Dance Hall"]),
        Language => s(&["eng", "fra"]),
        MusicBrainzRecordingId => vec!["00112233-4455-6677-8899-aabbccddeeff".into(), "v".into(), "0".repeat(37), "https://e.x/recording/00112233-4455-6677-8899-aabbccddeeff".into(), "x".repeat(300)],
        Length => s(&["1000"]),
        _ if t == T::Id3v1 => s(&["v", "a/b", "x\u{e9}y", "5"]),
        AudioFileUrl | AudioSourceUrl | CommercialInformationUrl | CopyrightUrl | TrackArtistUrl | RadioStationUrl | PaymentUrl | PublisherUrl | PodcastUrl => vec!["https://e.x/y?z=1".into(), "v".into(), format!("https://e.x/{}", "p".repeat(300))],
        _ => {
            let mut v = s(&["v", "5", "0", "a/b", "a;b", "A\u{e9}\u{4e00}\u{1F600}", " pad ", "true", "x=y", "x|y", "l\nm"]);
            v.push("n".repeat(300));
            v.push("\u{e9}".repeat(40_000));
            v
        }
    }
}
/// Can a tag of this type hold several values of the key?
fn multi(k: ItemKey, t: T) -> bool {
    use ItemKey::*;
    match (t, k) {
        (T::Id3v1, _) => false,
        (T::AiffText, k) => k == Comment,
        (_, TrackNumber | TrackTotal | DiscNumber | DiscTotal | MovementNumber | MovementTotal | IntegerBpm | FlagCompilation | FlagPodcast | ParentalAdvisory | Year | Length) => false,
        (_, RecordingDate | ReleaseDate | OriginalReleaseDate | TaggingTime | EncodingTime) => false,
        (T::Id3v2, ReplayGainAlbumGain | ReplayGainAlbumPeak | ReplayGainTrackGain | ReplayGainTrackPeak) => false,
        // lofty keeps one URL per frame ID
        (T::Id3v2, TrackArtistUrl | CommercialInformationUrl | AudioFileUrl | AudioSourceUrl | CopyrightUrl | RadioStationUrl | PaymentUrl | PublisherUrl | PodcastUrl) => false,
        // identifiers with one value by nature
        (_, MusicBrainzRecordingId | Popularimeter) => false,
        _ => true,
    }
}
/// The key under which the native name is found again
fn canonical(k: ItemKey, t: T) -> Option<ItemKey> {
    if t == T::Id3v1 {
        use ItemKey::*;
        return match k {
            TrackTitle | TrackArtist | AlbumTitle | Year | Comment | TrackNumber | Genre => Some(k),
            RecordingDate => Some(Year),
            _ => None,
        };
    }
    // TIPL entries and the recording ID have a frame of their own
    if t == T::Id3v2 {
        use ItemKey::*;
        if matches!(k, Producer | Arranger | Engineer | MixDj | MixEngineer | MusicBrainzRecordingId) {
            return Some(k);
        }
        // only Publisher and EncoderSoftware are found under these frames
        if k == Work {
            return Some(k);
        }
    }
    let name = k.map_key(tt(t))?;
    // number and total share a name
    use ItemKey::*;
    if matches!(k, TrackNumber | TrackTotal | DiscNumber | DiscTotal | MovementNumber | MovementTotal) {
        return Some(k);
    }
    ItemKey::from_key(tt(t), name)
}
fn texts(t: &Tag, k: ItemKey) -> Vec<String> {
    t.get_items(k)
        .filter_map(|i| match i.value() {
            ItemValue::Text(s) | ItemValue::Locator(s) => Some(s.clone()),
            _ => None,
        })
        .collect()
}
fn generic(cx: &Ctx, key: &str, ty: T, items: &[(ItemKey, String)], files: &[(Fmt, Vec<u8>)]) {
    if cx.too_many() {
        return;
    }
    cx.case(key, b"");
    let mut t = Tag::new(tt(ty));
    let mut want: Vec<(ItemKey, Vec<String>)> = Vec::new();
    for (k, v) in items {
        t.push_unchecked(TagItem::new(*k, ItemValue::Text(v.clone())));
        let c = canonical(*k, ty).unwrap();
        match want.iter_mut().find(|(x, _)| *x == c) {
            Some((_, l)) => l.push(v.clone()),
            None => want.push((c, vec![v.clone()])),
        }
    }
    cx.eval(&(key.to_string(), tag_sig(&t)));
    let n = match guard(|| N::from_tag(t.clone(), ty)) {
        Ok(n) => n,
        Err(p) => return cx.violation(format!("{key}:panic"), format!("conversion panics: {p}"), vec![]),
    };
    let back = n.clone().into_tag();
    cx.outcome(&tag_sig(&back));
    for (k, v) in &want {
        let got = texts(&back, *k);
        if got != *v {
            cx.violation(format!("{key}:native"), format!("{k:?} = {v:?} is {got:?} after conversion to {ty:?} and back"), vec![]);
        }
    }
    for (f, b) in files {
        let saved = match guard(|| n.save(b, wo())) {
            Ok(Ok(s)) => s,
            x => {
                cx.violation(format!("{key}:{f:?}:save"), format!("the converted tag cannot be saved: {x:?}"), vec![]);
                continue;
            }
        };
        let r = match guard(|| read_tagged(*f, &saved, po())) {
            Ok(Ok(r)) => r,
            x => {
                cx.violation(format!("{key}:{f:?}:read"), format!("cannot be read: {:?}", x.map(|r| r.map(|_| ()))), vec![("saved.bin", &saved)]);
                continue;
            }
        };
        let Some(g) = r.tag(tt(ty)) else {
            // FLAC files keep their own vendor string
            if ty == T::Vorbis && want.iter().all(|(k, _)| *k == ItemKey::EncoderSoftware) {
                continue;
            }
            cx.violation(format!("{key}:{f:?}:absent"), "the tag is not in the file", vec![("saved.bin", &saved)]);
            continue;
        };
        for (k, v) in &want {
            // the vendor string belongs to the container
            if *k == ItemKey::EncoderSoftware && ty == T::Vorbis {
                continue;
            }
            let got = texts(g, *k);
            if got != *v {
                cx.violation(format!("{key}:{f:?}:file"), format!("{k:?} = {v:?} is {got:?} after saving to {f:?} as {ty:?}"), vec![("saved.bin", &saved)]);
            }
        }
    }
}
pub fn run(cx: &Ctx) -> i32 {
    // native tags
    let mut natives: Vec<(String, N)> = Vec::new();
    for t in ALL_T {
        for (k, n) in rich::rich(t) {
            natives.push((format!("{t:?}:{k}"), n));
        }
        // everything at once, as far as that is valid
        let mut all = N::empty(t);
        for (k, x) in rich::rich(t) {
            if t != T::Id3v2 || !k.starts_with("TD") {
                all = rich::merge(&all, &x);
            }
        }
        natives.push((format!("{t:?}:everything"), all));
        let ks = kinds(t);
        for (i, (an, a)) in ks.iter().enumerate() {
            for (j, (bn, b)) in ks.iter().enumerate() {
                if i != j {
                    natives.push((format!("{t:?}:{an}+{bn}"), rich::merge(a, b)));
                    if cx.thorough() {
                        for (cn, c) in &ks {
                            if cn == an || cn == bn {
                                continue;
                            }
                            natives.push((format!("{t:?}:{an}+{bn}+{cn}"), rich::merge(&rich::merge(a, b), c)));
                        }
                    }
                }
            }
        }
        for n in [1, 2, 3, 10, 40] {
            for (k, x) in rich::many(t, n) {
                natives.push((format!("{t:?}:many:{k}:{n}"), x));
            }
        }
    }
    cx.note("native_tags", json!(natives.len()));
    natives.retain(|j| !cx.skip(&j.0));
    for j in natives.iter().step_by((natives.len() / 8).max(1)) {
        cx.sample(|| json!({"native": j.0}));
    }
    cx.par(&natives, |(k, n)| native(cx, k, n));
    // generic tags
    let mut jobs: Vec<(String, T, Vec<(ItemKey, String)>)> = Vec::new();
    let mut mapped = 0;
    for ty in ALL_T {
        let ks: Vec<ItemKey> = KEYS.into_iter().filter(|k| canonical(*k, ty).is_some()).collect();
        mapped += ks.len();
        for k in &ks {
            for v in values(*k, ty) {
                jobs.push((format!("g:{ty:?}:{k:?}:{v}"), ty, vec![(*k, v)]));
            }
            if multi(*k, ty) {
                let two = |a: &str, b: &str| vec![(*k, a.to_string()), (*k, b.to_string())];
                jobs.push((format!("g:{ty:?}:{k:?}:multi"), ty, two("one", "two")));
                jobs.push((format!("g:{ty:?}:{k:?}:multi3"), ty, vec![(*k, "c".into()), (*k, "a".into()), (*k, "b".into())]));
            }
        }
        for (i, a) in ks.iter().enumerate() {
            for (j, b) in ks.iter().enumerate() {
                if i == j {
                    continue;
                }
                // keys with one native name in common have one value between them, unless it takes several
                let same = canonical(*a, ty) == canonical(*b, ty);
                if same && !multi(*a, ty) {
                    continue;
                }
                let va = values(*a, ty).into_iter().next().unwrap();
                let vb = values(*b, ty).into_iter().last().unwrap();
                jobs.push((format!("g:{ty:?}:{a:?}+{b:?}"), ty, vec![(*a, va), (*b, vb)]));
            }
        }
        // everything at once, in both orders
        let mut all: Vec<(ItemKey, String)> = Vec::new();
        for k in &ks {
            if !all.iter().any(|(x, _)| canonical(*x, ty) == canonical(*k, ty)) {
                all.push((*k, values(*k, ty)[0].clone()));
            }
        }
        jobs.push((format!("g:{ty:?}:all"), ty, all.clone()));
        all.reverse();
        jobs.push((format!("g:{ty:?}:all-reversed"), ty, all));
    }
    cx.note("mapped_keys", json!(mapped));
    cx.note("generic_tags", json!(jobs.len()));
    jobs.retain(|j| !cx.skip(&j.0));
    let files: Vec<(T, Vec<(Fmt, Vec<u8>)>)> = ALL_T
        .into_iter()
        .map(|t| {
            let fs: Vec<Fmt> = ALL_FMT.into_iter().filter(|f| writable(*f).contains(&t)).collect();
            let n = cx.q(2, fs.len()).min(fs.len());
            (t, fs[..n].iter().map(|f| (*f, layouts(*f, false).into_iter().find(|l| l.core && l.name != "bigaudio").unwrap().bytes)).collect())
        })
        .collect();
    for j in jobs.iter().step_by((jobs.len() / 8).max(1)) {
        cx.sample(|| json!({"generic": j.0, "items": format!("{:?}", j.2)}));
    }
    cx.states.store((jobs.len() + natives.len()) as u64, Ordering::Relaxed);
    cx.par(&jobs, |(k, ty, items)| generic(cx, k, *ty, items, &files.iter().find(|(t, _)| t == ty).unwrap().1));
    let _ = (ApeTag::new(), Id3v1Tag::default(), Id3v2Tag::new(), AiffTextChunks::default(), RiffInfoList::default(), Ilst::new(), VorbisComments::default().is_empty());
    cx.finish(
        "exploration",
        "exhaustive enumeration of native tags (every kind of item and edge value of every tag type, all ordered pairs of kinds, repeated items, everything at once), split and merged, and converted with preservation on and off; of every generic key of every tag type x valid value classes, one, two and three values, all ordered pairs of mapped keys and all keys at once, converted to the native tag and back, and saved to and read from a file",
        &["an item of APE, RIFF INFO or Vorbis Comments without a generic key is only kept by split and merge, not by the generic tag alone (documented)", "generic keys that share one native name come back under the name's listed key", "values are valid for their key (numbers, dates, flags, URLs)"],
        false,
    )
}
