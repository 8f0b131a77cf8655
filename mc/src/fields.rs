//! All named fields of a tag: their documented identifier and representation, and their accessors.

use std::convert::TryFrom;

use mp4ameta::{AdvisoryRating, Img, ImgFmt, MediaType, Tag};

use crate::model::*;

type Get<T> = fn(&Tag) -> T;
type Take<T> = fn(&mut Tag) -> T;
type Set<T> = fn(&mut Tag, T);

pub enum Access {
    Single {
        get: Get<Option<String>>,
        take: Take<Option<String>>,
        set: Set<String>,
        remove: Take<()>,
    },
    Multi {
        gets: Get<Vec<String>>,
        get: Get<Option<String>>,
        takes: fn(&mut Tag, usize) -> Vec<String>,
        take: Take<Option<String>>,
        sets: Set<Vec<String>>,
        set: Set<String>,
        adds: Set<Vec<String>>,
        add: Set<String>,
        remove: Take<()>,
    },
    Flag {
        get: Get<bool>,
        set: Take<()>,
        remove: Take<()>,
    },
    Int {
        bytes: usize,
        get: Get<Option<u32>>,
        set: Set<u32>,
        remove: Take<()>,
    },
    Artwork,
    Media,
    Rating,
    Genre,
    Track,
    Disc,
}

pub struct Field {
    pub name: &'static str,
    /// name of all values
    pub plural: String,
    pub id: Id,
    pub access: Access,
}

fn plural_of(s: &str) -> String {
    match s.strip_suffix('y') {
        Some(s) => format!("{}ies", s),
        None => format!("{}s", s),
    }
}

fn field(name: &'static str, id: Id, access: Access) -> Field {
    let name = Box::leak(name.replace('_', " ").into_boxed_str());
    Field { name, plural: plural_of(name), id, access }
}

macro_rules! single {
    ($v:ident: $($name:literal $id:expr, $get:ident $take:ident $set:ident $remove:ident;)*) => {$(
        $v.push(field($name, $id, Access::Single {
            get: |t| t.$get().map(str::to_owned),
            take: |t| t.$take(),
            set: |t, s| t.$set(s),
            remove: |t| t.$remove(),
        }));
    )*};
}

macro_rules! multi {
    ($v:ident: $($name:literal $id:expr, $gets:ident $get:ident $takes:ident $take:ident $sets:ident $set:ident $adds:ident $add:ident $remove:ident;)*) => {$(
        $v.push(field($name, $id, Access::Multi {
            gets: |t| t.$gets().map(str::to_owned).collect(),
            get: |t| t.$get().map(str::to_owned),
            takes: |t, n| t.$takes().take(n).collect(),
            take: |t| t.$take(),
            sets: |t, l| t.$sets(l),
            set: |t, s| t.$set(s),
            adds: |t, l| t.$adds(l),
            add: |t, s| t.$add(s),
            remove: |t| t.$remove(),
        }));
    )*};
}

macro_rules! flag {
    ($v:ident: $($name:literal $id:expr, $get:ident $set:ident $remove:ident;)*) => {$(
        $v.push(field($name, $id, Access::Flag { get: |t| t.$get(), set: |t| t.$set(), remove: |t| t.$remove() }));
    )*};
}

macro_rules! int {
    ($v:ident: $t:ty, $bytes:literal; $($name:literal $id:expr, $get:ident $set:ident $remove:ident;)*) => {$(
        $v.push(field($name, $id, Access::Int {
            bytes: $bytes,
            get: |t| t.$get().map(|n| n as u32),
            set: |t, n| t.$set(n as $t),
            remove: |t| t.$remove(),
        }));
    )*};
}

pub fn fields() -> Vec<Field> {
    let fc = Id::fc;
    let itunes = |n| Id::free("com.apple.iTunes", n);
    let mut v = Vec::new();
    single! { v:
        "album" fc("\u{a9}alb"), album take_album set_album remove_album;
        "copyright" fc("cprt"), copyright take_copyright set_copyright remove_copyright;
        "encoder" fc("\u{a9}too"), encoder take_encoder set_encoder remove_encoder;
        "lyrics" fc("\u{a9}lyr"), lyrics take_lyrics set_lyrics remove_lyrics;
        "movement" fc("\u{a9}mvn"), movement take_movement set_movement remove_movement;
        "title" fc("\u{a9}nam"), title take_title set_title remove_title;
        "tv_episode_name" fc("tven"), tv_episode_name take_tv_episode_name set_tv_episode_name remove_tv_episode_name;
        "tv_network_name" fc("tvnn"), tv_network_name take_tv_network_name set_tv_network_name remove_tv_network_name;
        "tv_show_name" fc("tvsh"), tv_show_name take_tv_show_name set_tv_show_name remove_tv_show_name;
        "work" fc("\u{a9}wrk"), work take_work set_work remove_work;
        "year" fc("\u{a9}day"), year take_year set_year remove_year;
        "isrc" itunes("ISRC"), isrc take_isrc set_isrc remove_isrc;
    }
    multi! { v:
        "album_artist" fc("aART"), album_artists album_artist take_album_artists take_album_artist set_album_artists set_album_artist add_album_artists add_album_artist remove_album_artists;
        "artist" fc("\u{a9}ART"), artists artist take_artists take_artist set_artists set_artist add_artists add_artist remove_artists;
        "category" fc("catg"), categories category take_categories take_category set_categories set_category add_categories add_category remove_categories;
        "comment" fc("\u{a9}cmt"), comments comment take_comments take_comment set_comments set_comment add_comments add_comment remove_comments;
        "composer" fc("\u{a9}wrt"), composers composer take_composers take_composer set_composers set_composer add_composers add_composer remove_composers;
        "custom_genre" fc("\u{a9}gen"), custom_genres custom_genre take_custom_genres take_custom_genre set_custom_genres set_custom_genre add_custom_genres add_custom_genre remove_custom_genres;
        "description" fc("desc"), descriptions description take_descriptions take_description set_descriptions set_description add_descriptions add_description remove_descriptions;
        "grouping" fc("\u{a9}grp"), groupings grouping take_groupings take_grouping set_groupings set_grouping add_groupings add_grouping remove_groupings;
        "keyword" fc("keyw"), keywords keyword take_keywords take_keyword set_keywords set_keyword add_keywords add_keyword remove_keywords;
        "lyricist" itunes("LYRICIST"), lyricists lyricist take_lyricists take_lyricist set_lyricists set_lyricist add_lyricists add_lyricist remove_lyricists;
    }
    flag! { v:
        "compilation" fc("cpil"), compilation set_compilation remove_compilation;
        "gapless_playback" fc("pgap"), gapless_playback set_gapless_playback remove_gapless_playback;
        "show_movement" fc("shwm"), show_movement set_show_movement remove_show_movement;
    }
    int! { v: u16, 2;
        "bpm" fc("tmpo"), bpm set_bpm remove_bpm;
        "movement_count" fc("\u{a9}mvc"), movement_count set_movement_count remove_movement_count;
        "movement_index" fc("\u{a9}mvi"), movement_index set_movement_index remove_movement_index;
    }
    int! { v: u32, 4;
        "tv_episode" fc("tves"), tv_episode set_tv_episode remove_tv_episode;
        "tv_season" fc("tvsn"), tv_season set_tv_season remove_tv_season;
    }
    v.push(field("artwork", fc("covr"), Access::Artwork));
    v.push(field("media_type", fc("stik"), Access::Media));
    v.push(field("advisory_rating", fc("rtng"), Access::Rating));
    v.push(field("genre", fc("gnre"), Access::Genre));
    v.push(field("track", fc("trkn"), Access::Track));
    v.push(field("disc", fc("disk"), Access::Disc));
    v
}

// ---------------------------------------------------------------------------------------------
// coded values, from the documentation

pub const MEDIA: [(u8, MediaType, &str); 8] = [
    (0, MediaType::Movie, "Movie"),
    (1, MediaType::Normal, "Normal"),
    (2, MediaType::AudioBook, "Audiobook"),
    (5, MediaType::WhackedBookmark, "Whacked Bookmark"),
    (6, MediaType::MusicVideo, "Music Video"),
    (9, MediaType::ShortFilm, "Short Film"),
    (10, MediaType::TvShow, "TV-Show"),
    (11, MediaType::Booklet, "Booklet"),
];

pub const RATINGS: [(u8, AdvisoryRating, &str); 3] =
    [(0, AdvisoryRating::Inoffensive, "Inoffensive"), (2, AdvisoryRating::Clean, "Clean"), (4, AdvisoryRating::Explicit, "Explicit")];

pub fn media_of(code: u8) -> Option<(MediaType, &'static str)> {
    MEDIA.iter().find(|m| m.0 == code).map(|m| (m.1, m.2))
}

pub fn rating_of(code: u8) -> (AdvisoryRating, &'static str) {
    match code {
        0 => (RATINGS[0].1, RATINGS[0].2),
        2 => (RATINGS[1].1, RATINGS[1].2),
        _ => (RATINGS[2].1, RATINGS[2].2),
    }
}

pub fn img(v: &Val) -> Img<Vec<u8>> {
    let f = match v.kind {
        Kind::Bmp => ImgFmt::Bmp,
        Kind::Jpeg => ImgFmt::Jpeg,
        Kind::Png => ImgFmt::Png,
        _ => crate::engine::harness_error("not an image"),
    };
    Img::new(f, v.bytes.clone())
}

pub fn img_val(fmt: &ImgFmt, b: &[u8]) -> Val {
    let k = match fmt {
        ImgFmt::Bmp => Kind::Bmp,
        ImgFmt::Jpeg => Kind::Jpeg,
        ImgFmt::Png => Kind::Png,
    };
    Val::new(k, b)
}

// ---------------------------------------------------------------------------------------------
// operations

#[derive(Clone, Debug)]
pub enum FOp {
    /// the values as they are to be stored
    Set(Val),
    Sets(Vec<Val>),
    Add(Val),
    Adds(Vec<Val>),
    Take,
    Takes(bool),
    Remove,
    /// number and total
    SetPair(u16, u16),
    SetNumber(u16),
    SetTotal(u16),
    RemoveNumber,
    RemoveTotal,
}

pub fn be(v: &Val, at: usize, n: usize) -> Option<u32> {
    v.bytes.get(at..at + n).map(|b| b.iter().fold(0, |a, b| a << 8 | *b as u32))
}

fn text(v: &Val) -> String {
    String::from_utf8(v.bytes.clone()).unwrap()
}

impl Field {
    /// Operations over a menu of values.
    pub fn ops(&self, wide: bool) -> Vec<FOp> {
        let mut v = vec![FOp::Remove];
        let texts: Vec<Val> = ["a", "", "\u{1F600}b"].iter().take(if wide { 3 } else { 1 }).map(|s| Val::s(s)).collect();
        let mut lists = |v: &mut Vec<FOp>, menu: &[Val]| {
            for x in menu {
                v.push(FOp::Set(x.clone()));
                v.push(FOp::Add(x.clone()));
            }
            let first = menu[0].clone();
            let last = menu[menu.len() - 1].clone();
            v.push(FOp::Sets(vec![last.clone(), first.clone()]));
            v.push(FOp::Adds(vec![last, first]));
            if wide {
                v.push(FOp::Sets(vec![]));
                v.push(FOp::Adds(vec![]));
                // Lists with every value of the menu, among them the empty one, and one of them twice.
                let all: Vec<Val> = menu.iter().chain(&menu[..2]).cloned().collect();
                v.push(FOp::Sets(all.clone()));
                v.push(FOp::Adds(all));
            }
        };
        match &self.access {
            Access::Single { .. } => {
                v.extend(texts.into_iter().map(FOp::Set));
                v.push(FOp::Take);
            }
            Access::Multi { .. } => {
                lists(&mut v, &texts);
                v.push(FOp::Take);
                v.push(FOp::Takes(true));
                if wide {
                    v.push(FOp::Takes(false));
                }
            }
            Access::Flag { .. } => v.push(FOp::Set(Val::new(Kind::BeSigned, &[1]))),
            Access::Int { bytes, .. } => {
                let menu: &[u32] = if wide { &[0, 1, 0xFF, 0x100, 0x0102_0304, 0x8000_8000, u32::MAX] } else { &[0x0102_0304, 0] };
                let n: Vec<Val> = menu.iter().map(|n| Val::new(Kind::BeSigned, &n.to_be_bytes()[4 - bytes..])).collect();
                v.extend(n.into_iter().map(FOp::Set));
            }
            Access::Artwork => {
                let menu = [Val::new(Kind::Png, b"p"), Val::new(Kind::Jpeg, b""), Val::new(Kind::Bmp, &[0, 255])];
                lists(&mut v, &menu[..if wide { 3 } else { 1 }]);
                v.push(FOp::Take);
                v.push(FOp::Takes(true));
                if wide {
                    v.push(FOp::Takes(false));
                }
            }
            Access::Media => v.extend(MEDIA.iter().take(if wide { 8 } else { 2 }).map(|m| FOp::Set(Val::new(Kind::Reserved, &[m.0])))),
            Access::Rating => v.extend(RATINGS.iter().take(if wide { 3 } else { 2 }).map(|m| FOp::Set(Val::new(Kind::Reserved, &[m.0])))),
            Access::Genre => {
                let menu: Vec<Val> = [18u16, 80, 0, 0x0101].iter().map(|n| Val::new(Kind::Reserved, &n.to_be_bytes())).collect();
                lists(&mut v, &menu[..if wide { 4 } else { 1 }]);
            }
            Access::Track | Access::Disc => {
                v.extend([FOp::SetPair(3, 9), FOp::SetNumber(0x0102), FOp::SetTotal(0x0304), FOp::RemoveNumber, FOp::RemoveTotal]);
                if wide {
                    v.extend([FOp::SetPair(0, 0), FOp::SetPair(0xFFFF, 0), FOp::SetNumber(0), FOp::SetTotal(0)]);
                }
            }
        }
        v
    }

    /// What the getters have to return for the values stored under the identifier.
    pub fn check(&self, t: &Tag, stored: &[Val]) -> Result<(), String> {
        let texts: Vec<String> = stored.iter().filter(|v| v.kind.is_text()).map(text).collect();
        let bytes = stored.iter().find(|v| v.kind.is_bytes());
        let n = &self.name;
        match &self.access {
            Access::Single { get, .. } => same(n, get(t), texts.first().cloned()),
            Access::Multi { gets, get, .. } => {
                same(n, get(t), texts.first().cloned())?;
                same(&self.plural, gets(t), texts)
            }
            Access::Flag { get, .. } => same(n, get(t), bytes.map_or(false, |v| v.bytes.first() == Some(&1))),
            Access::Int { bytes: k, get, .. } => same(n, get(t), bytes.and_then(|v| be(v, 0, *k))),
            Access::Artwork => {
                let want: Vec<Val> = stored.iter().filter(|v| v.kind.is_image()).cloned().collect();
                same(n, t.artwork().map(|i| img_val(&i.fmt, i.data)), want.first().cloned())?;
                same(&self.plural, t.artworks().map(|i| img_val(&i.fmt, i.data)).collect::<Vec<_>>(), want)
            }
            Access::Media => same(n, t.media_type(), bytes.and_then(|v| v.bytes.first()).and_then(|c| media_of(*c)).map(|m| m.0)),
            Access::Rating => same(n, t.advisory_rating(), bytes.and_then(|v| v.bytes.first()).map(|c| rating_of(*c).0)),
            Access::Genre => {
                let want: Vec<u16> = stored.iter().filter(|v| v.kind.is_bytes()).filter_map(|v| be(v, 0, 2)).map(|c| c as u16).collect();
                same("standard genre", t.standard_genre(), want.first().copied())?;
                same("standard genres", t.standard_genres().collect::<Vec<_>>(), want)
            }
            Access::Track | Access::Disc => {
                let half = |at| bytes.and_then(|v| be(v, at, 2)).filter(|n| *n != 0).map(|n| n as u16);
                let want = (half(2), half(4));
                if matches!(self.access, Access::Track) {
                    same(n, t.track(), want)?;
                    same(n, (t.track_number(), t.total_tracks()), want)
                } else {
                    same(n, t.disc(), want)?;
                    same(n, (t.disc_number(), t.total_discs()), want)
                }
            }
        }
    }

    /// Applies an operation to the tag and to the values stored under the identifier.
    pub fn apply(&self, op: &FOp, t: &mut Tag, m: &mut Vec<Val>) -> Result<(), String> {
        let s = |l: &[Val]| l.iter().map(text).collect::<Vec<_>>();
        let stored_texts: Vec<String> = m.iter().filter(|v| v.kind.is_text()).map(text).collect();
        let stored_images: Vec<Val> = m.iter().filter(|v| v.kind.is_image()).cloned().collect();
        match (&self.access, op) {
            (Access::Single { set, .. }, FOp::Set(v)) | (Access::Multi { set, .. }, FOp::Set(v)) => set(t, text(v)),
            (Access::Multi { sets, .. }, FOp::Sets(l)) => sets(t, s(l)),
            (Access::Multi { add, .. }, FOp::Add(v)) => add(t, text(v)),
            (Access::Multi { adds, .. }, FOp::Adds(l)) => adds(t, s(l)),
            (Access::Single { take, .. }, FOp::Take) | (Access::Multi { take, .. }, FOp::Take) => same("taken value", take(t), stored_texts.first().cloned())?,
            (Access::Multi { takes, .. }, FOp::Takes(consume)) => {
                let got = takes(t, if *consume { usize::MAX } else { 0 });
                same("taken values", got, if *consume { stored_texts } else { vec![] })?
            }
            (Access::Single { remove, .. }, FOp::Remove)
            | (Access::Multi { remove, .. }, FOp::Remove)
            | (Access::Flag { remove, .. }, FOp::Remove)
            | (Access::Int { remove, .. }, FOp::Remove) => remove(t),
            (Access::Flag { set, .. }, FOp::Set(_)) => set(t),
            (Access::Int { set, bytes, .. }, FOp::Set(v)) => set(t, be(v, 0, *bytes).unwrap()),
            (Access::Artwork, FOp::Set(v)) => t.set_artwork(img(v)),
            (Access::Artwork, FOp::Sets(l)) => t.set_artworks(l.iter().map(img)),
            (Access::Artwork, FOp::Add(v)) => t.add_artwork(img(v)),
            (Access::Artwork, FOp::Adds(l)) => t.add_artworks(l.iter().map(img).collect::<Vec<_>>()),
            (Access::Artwork, FOp::Take) => same("taken artwork", t.take_artwork().map(|i| img_val(&i.fmt, &i.data)), stored_images.first().cloned())?,
            (Access::Artwork, FOp::Takes(consume)) => {
                let n = if *consume { usize::MAX } else { 0 };
                let got: Vec<Val> = t.take_artworks().take(n).map(|i| img_val(&i.fmt, &i.data)).collect();
                same("taken artworks", got, if *consume { stored_images } else { vec![] })?
            }
            (Access::Artwork, FOp::Remove) => t.remove_artworks(),
            (Access::Media, FOp::Set(v)) => t.set_media_type(MediaType::try_from(v.bytes[0]).map_err(|e| format!("media type {}: {}", v.bytes[0], e))?),
            (Access::Media, FOp::Remove) => t.remove_media_type(),
            (Access::Rating, FOp::Set(v)) => t.set_advisory_rating(rating_of(v.bytes[0]).0),
            (Access::Rating, FOp::Remove) => t.remove_advisory_rating(),
            (Access::Genre, FOp::Set(v)) => t.set_standard_genre(be(v, 0, 2).unwrap() as u16),
            (Access::Genre, FOp::Sets(l)) => t.set_standard_genres(l.iter().map(|v| be(v, 0, 2).unwrap() as u16)),
            (Access::Genre, FOp::Add(v)) => t.add_standard_genre(be(v, 0, 2).unwrap() as u16),
            (Access::Genre, FOp::Adds(l)) => t.add_standard_genres(l.iter().map(|v| be(v, 0, 2).unwrap() as u16)),
            (Access::Genre, FOp::Remove) => t.remove_standard_genres(),
            (Access::Track, op) | (Access::Disc, op) => {
                let track = matches!(self.access, Access::Track);
                let first = m.iter().find(|v| v.kind.is_bytes());
                let mut p = [2, 4].map(|at| first.and_then(|v| be(v, at, 2)).unwrap_or(0) as u16);
                match (op, track) {
                    (FOp::SetPair(a, b), true) => t.set_track(*a, *b),
                    (FOp::SetPair(a, b), false) => t.set_disc(*a, *b),
                    (FOp::SetNumber(a), true) => t.set_track_number(*a),
                    (FOp::SetNumber(a), false) => t.set_disc_number(*a),
                    (FOp::SetTotal(a), true) => t.set_total_tracks(*a),
                    (FOp::SetTotal(a), false) => t.set_total_discs(*a),
                    (FOp::RemoveNumber, true) => t.remove_track_number(),
                    (FOp::RemoveNumber, false) => t.remove_disc_number(),
                    (FOp::RemoveTotal, true) => t.remove_total_tracks(),
                    (FOp::RemoveTotal, false) => t.remove_total_discs(),
                    (FOp::Remove, true) => t.remove_track(),
                    (FOp::Remove, false) => t.remove_disc(),
                    _ => unreachable!(),
                }
                let removes = match op {
                    FOp::SetPair(a, b) => {
                        p = [*a, *b];
                        false
                    }
                    FOp::SetNumber(a) => {
                        p[0] = *a;
                        false
                    }
                    FOp::SetTotal(b) => {
                        p[1] = *b;
                        false
                    }
                    FOp::RemoveNumber => {
                        p[0] = 0;
                        true
                    }
                    FOp::RemoveTotal => {
                        p[1] = 0;
                        true
                    }
                    _ => {
                        p = [0, 0];
                        true
                    }
                };
                if removes && p == [0, 0] {
                    m.clear();
                } else {
                    // the representation of what is left is that of a pair
                    let v = Val::new(Kind::Reserved, &[0, 0, (p[0] >> 8) as u8, p[0] as u8, (p[1] >> 8) as u8, p[1] as u8]);
                    match m.iter_mut().find(|v| v.kind.is_bytes()) {
                        Some(old) => old.bytes[2..6].copy_from_slice(&v.bytes[2..6]),
                        None => *m = vec![v],
                    }
                }
                return Ok(());
            }
            _ => crate::engine::harness_error("no such operation"),
        }
        match op {
            FOp::Set(v) => *m = vec![v.clone()],
            FOp::Sets(l) => *m = l.clone(),
            FOp::Add(v) => m.push(v.clone()),
            FOp::Adds(l) => m.extend(l.iter().cloned()),
            _ => m.clear(),
        }
        Ok(())
    }

    /// Representations to start from.
    pub fn initials(&self) -> Vec<Vec<Val>> {
        let r = |b: &[u8]| Val::new(Kind::Reserved, b);
        let s = |b: &[u8]| Val::new(Kind::BeSigned, b);
        match &self.access {
            Access::Track | Access::Disc => vec![vec![], vec![r(&[0, 0, 0, 1, 0, 2])], vec![r(&[9, 8, 0, 1, 0, 2, 7, 7])], vec![Val::s("1/2")]],
            Access::Single { .. } | Access::Multi { .. } => vec![
                vec![],
                vec![Val::s("old")],
                vec![Val::s16("old"), Val::s("")],
                vec![r(b"no text"), Val::s("second"), Val::s16("third")],
                vec![Val::new(Kind::Png, b"x")],
            ],
            Access::Artwork => vec![
                vec![],
                vec![Val::new(Kind::Bmp, b"old"), Val::new(Kind::Png, b"")],
                vec![Val::s("no image"), Val::new(Kind::Jpeg, b"j"), r(&[1])],
                vec![r(&[0x89, b'P', b'N', b'G'])],
            ],
            _ => vec![
                vec![],
                vec![s(&[1])],
                vec![s(&[])],
                vec![r(&[0]), s(&[1])],
                vec![s(&[0, 1])],
                vec![r(&[1, 0, 2])],
                vec![s(&[0, 0, 1, 4])],
                vec![r(&[2, 1, 0, 3, 9])],
                vec![Val::s("1"), s(&[0, 5])],
                vec![Val::s("1")],
                vec![s(&[255; 8])],
            ],
        }
    }
}

fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    if got == want {
        return Ok(());
    }
    Err(format!("{} is {:?} instead of {:?}", what, got, want))
}
