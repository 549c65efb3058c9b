//! All generic keys
use lofty::tag::ItemKey::{self, *};
pub const KEYS: [ItemKey; 109] = [
    AlbumTitle,
    SetSubtitle,
    ShowName,
    ContentGroup,
    TrackTitle,
    TrackSubtitle,
    OriginalAlbumTitle,
    OriginalArtist,
    OriginalLyricist,
    AlbumTitleSortOrder,
    AlbumArtistSortOrder,
    TrackTitleSortOrder,
    TrackArtistSortOrder,
    ShowNameSortOrder,
    ComposerSortOrder,
    AlbumArtist,
    AlbumArtists,
    TrackArtist,
    TrackArtists,
    Arranger,
    Writer,
    Composer,
    Conductor,
    Director,
    Engineer,
    Lyricist,
    MixDj,
    MixEngineer,
    Performer,
    Producer,
    Publisher,
    Label,
    InternetRadioStationName,
    InternetRadioStationOwner,
    Remixer,
    DiscNumber,
    DiscTotal,
    TrackNumber,
    TrackTotal,
    Popularimeter,
    ParentalAdvisory,
    RecordingDate,
    Year,
    ReleaseDate,
    OriginalReleaseDate,
    Isrc,
    Barcode,
    AcoustId,
    AcoustIdFingerprint,
    CatalogNumber,
    Work,
    Movement,
    MovementNumber,
    MovementTotal,
    ReleaseCountry,
    MusicBrainzRecordingId,
    MusicBrainzTrackId,
    MusicBrainzReleaseId,
    MusicBrainzReleaseGroupId,
    MusicBrainzArtistId,
    MusicBrainzReleaseArtistId,
    MusicBrainzWorkId,
    MusicBrainzReleaseType,
    FlagCompilation,
    FlagPodcast,
    FileOwner,
    TaggingTime,
    Length,
    OriginalFileName,
    OriginalMediaType,
    EncodedBy,
    EncoderSoftware,
    EncoderSettings,
    EncodingTime,
    ReplayGainAlbumGain,
    ReplayGainAlbumPeak,
    ReplayGainTrackGain,
    ReplayGainTrackPeak,
    R128TrackGain,
    R128AlbumGain,
    AudioFileUrl,
    AudioSourceUrl,
    CommercialInformationUrl,
    CopyrightUrl,
    TrackArtistUrl,
    RadioStationUrl,
    PaymentUrl,
    PublisherUrl,
    Genre,
    InitialKey,
    Color,
    Mood,
    Bpm,
    IntegerBpm,
    CopyrightMessage,
    License,
    PodcastDescription,
    PodcastSeriesCategory,
    PodcastUrl,
    PodcastGlobalUniqueId,
    PodcastKeywords,
    Comment,
    Description,
    Language,
    Script,
    Lyrics,
    UnsyncLyrics,
    AppleXid,
    AppleId3v2ContentGroup,
];
