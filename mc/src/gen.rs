//! Generators of well-formed files and of tags, driven by explorer choices. The default choice of
//! every point yields an ordinary `ftyp, moov, mdat` file with one audio track and a small item list.

use std::time::Duration;

use mp4ameta::{AudioInfo, ChannelConfig, SampleRate, Tag};

use crate::engine::Ctx;
use crate::model::*;
use crate::mp4::*;

pub const FTYP: &str = "M4A \u{0}\u{0}\u{2}\u{0}isomiso2";

/// What a file declares about its audio.
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Info {
    /// time scale and duration
    pub mvhd: Option<(u32, u64)>,
    pub audio: Option<Audio>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Audio {
    pub rates: Option<(u32, u32)>,
    pub freq: Option<u8>,
    pub chan: Option<u8>,
}

pub fn channel_of(code: u8) -> Option<ChannelConfig> {
    Some(match code {
        1 => ChannelConfig::Mono,
        2 => ChannelConfig::Stereo,
        3 => ChannelConfig::Three,
        4 => ChannelConfig::Four,
        5 => ChannelConfig::Five,
        6 => ChannelConfig::FiveOne,
        7 => ChannelConfig::SevenOne,
        _ => return None,
    })
}

pub fn rate_of(code: u8) -> Option<SampleRate> {
    Some(match code {
        0 => SampleRate::Hz96000,
        1 => SampleRate::Hz88200,
        2 => SampleRate::Hz64000,
        3 => SampleRate::Hz48000,
        4 => SampleRate::Hz44100,
        5 => SampleRate::Hz32000,
        6 => SampleRate::Hz24000,
        7 => SampleRate::Hz22050,
        8 => SampleRate::Hz16000,
        9 => SampleRate::Hz12000,
        10 => SampleRate::Hz11025,
        11 => SampleRate::Hz8000,
        12 => SampleRate::Hz7350,
        _ => return None,
    })
}

impl Info {
    pub fn expected(&self) -> AudioInfo {
        let mut i = AudioInfo::default();
        if let Some((scale, dur)) = self.mvhd {
            let n = dur as u128 * 1_000_000_000 / scale as u128;
            i.duration = Some(Duration::new((n / 1_000_000_000) as u64, (n % 1_000_000_000) as u32));
        }
        if let Some(a) = &self.audio {
            if let Some((max, avg)) = a.rates {
                i.max_bitrate = Some(max);
                i.avg_bitrate = Some(avg);
            }
            i.sample_rate = a.freq.and_then(rate_of);
            i.channel_config = a.chan.and_then(channel_of);
        }
        i
    }
}

// ---------------------------------------------------------------------------------------------
// atoms

pub fn mvhd_bytes(version: u8, scale: u32, dur: u64) -> Vec<u8> {
    let mut b = vec![version, 0, 0, 0];
    if version == 0 {
        b.extend([0; 8]);
        b.extend(scale.to_be_bytes());
        b.extend((dur as u32).to_be_bytes());
    } else {
        b.extend([0; 16]);
        b.extend(scale.to_be_bytes());
        b.extend(dur.to_be_bytes());
    }
    // rate, volume, reserved, matrix, predefined, next track id
    b.extend([0, 1, 0, 0, 1, 0]);
    b.extend([0; 10]);
    b.extend([0; 36]);
    b.extend([0; 24]);
    b.extend([0, 0, 0, 2]);
    b
}

/// A descriptor whose length is encoded in `n` bytes.
pub fn desc(tag: u8, n: usize, content: &[u8]) -> Vec<u8> {
    let mut b = vec![tag];
    for i in (0..n).rev() {
        let v = (content.len() >> (7 * i) & 0x7F) as u8;
        b.push(if i > 0 { v | 0x80 } else { v });
    }
    if n < 5 && content.len() >> (7 * n) != 0 {
        crate::engine::harness_error("descriptor too long");
    }
    b.extend_from_slice(content);
    b
}

pub struct Esds {
    pub n: [usize; 4],
    pub word: Option<u16>,
    pub word_tail: Vec<u8>,
    pub max: u32,
    pub avg: u32,
    pub config: bool,
    pub before_config: bool,
    pub before_specific: bool,
    pub sl: bool,
}

impl Default for Esds {
    fn default() -> Self {
        Esds {
            n: [1; 4],
            word: Some(word(2, 4, 2)),
            word_tail: Vec::new(),
            max: 192_000,
            avg: 128_000,
            config: true,
            before_config: false,
            before_specific: false,
            sl: true,
        }
    }
}

/// Frequency index and channel configuration of an audio specific config: 5 bits object type (31:
/// 6 more bits follow), 4 bits frequency index (15: a frequency of 24 bits follows), 4 bits channel
/// configuration.
pub fn audio_config(b: &[u8]) -> (Option<u8>, Option<u8>) {
    let mut pos = 0;
    let mut take = |n: usize| -> Option<u32> {
        let mut v = 0;
        for _ in 0..n {
            v = v << 1 | (*b.get(pos / 8)? >> (7 - pos % 8) & 1) as u32;
            pos += 1;
        }
        Some(v)
    };
    let mut parse = || {
        if take(5)? == 31 {
            take(6)?;
        }
        let freq = take(4)?;
        if freq == 15 && take(24).is_none() {
            return Some((freq, None));
        }
        Some((freq, take(4)))
    };
    match parse() {
        Some((f, c)) => (Some(f as u8), c.map(|c| c as u8)),
        None => (None, None),
    }
}

pub fn word(profile: u16, freq: u16, chan: u16) -> u16 {
    profile << 11 | freq << 7 | chan << 3
}

impl Esds {
    pub fn bytes(&self) -> Vec<u8> {
        let mut dc = vec![0x40, 0x15, 0, 1, 2];
        dc.extend(self.max.to_be_bytes());
        dc.extend(self.avg.to_be_bytes());
        if self.before_specific {
            dc.extend(desc(0x13, self.n[2], &[4, 5, 6]));
        }
        if let Some(w) = self.word {
            let mut c = w.to_be_bytes().to_vec();
            c.extend(&self.word_tail);
            dc.extend(desc(5, self.n[2], &c));
        }
        let mut es = vec![0, 1, 0];
        if self.before_config {
            es.extend(desc(0x0E, self.n[3], &[9, 9, 9]));
        }
        if self.config {
            es.extend(desc(4, self.n[1], &dc));
        }
        if self.sl {
            es.extend(desc(6, self.n[3], &[2]));
        }
        let mut b = vec![0; 4];
        b.extend(desc(3, self.n[0], &es));
        b
    }

    pub fn audio(&self) -> Audio {
        let mut a = Audio { rates: None, freq: None, chan: None };
        if self.config {
            a.rates = Some((self.max, self.avg));
            if let Some(w) = self.word {
                let mut b = w.to_be_bytes().to_vec();
                b.extend(&self.word_tail);
                (a.freq, a.chan) = audio_config(&b);
            }
        }
        a
    }
}

pub fn mp4a(esds: Vec<u8>) -> Node {
    let mut p = vec![0; 6];
    p.extend([0, 1]);
    p.extend([0; 8]);
    p.extend([0, 2, 0, 16, 0, 0, 0, 0, 0xAC, 0x44, 0, 0]);
    full("mp4a", &p, vec![leaf("esds", &esds)])
}

pub fn stsd(entries: Vec<Node>) -> Node {
    let mut p = vec![0; 4];
    p.extend((entries.len() as u32).to_be_bytes());
    full("stsd", &p, entries)
}

pub fn hdlr(kind: &[u8; 4]) -> Node {
    let mut b = vec![0; 8];
    b.extend(kind);
    b.extend(b"appl");
    b.extend([0; 9]);
    leaf("hdlr", &b)
}

/// A track with the given children of its sample table.
pub fn trak(stbl: Vec<Node>) -> Node {
    kids(
        "trak",
        vec![
            leaf("tkhd", &[7; 84]),
            kids(
                "mdia",
                vec![leaf("mdhd", &[5; 24]), hdlr(b"soun"), kids("minf", vec![leaf("smhd", &[0; 8]), leaf("dinf", &[3; 12]), kids("stbl", stbl)])],
            ),
        ],
    )
}

pub fn data_atom(v: &Val) -> Node {
    let mut b = v.kind.code().to_be_bytes().to_vec();
    b.extend([0; 4]);
    b.extend(v.stored());
    leaf("data", &b)
}

pub fn text_atom(cc: &str, s: &str) -> Node {
    let mut b = vec![0; 4];
    b.extend(s.as_bytes());
    leaf(cc, &b)
}

pub fn item(id: &Id, vals: &[Val]) -> Node {
    let mut k = Vec::new();
    let cc = match id {
        Id::Fc(f) => *f,
        Id::Free(m, n) => {
            k.push(text_atom("mean", m));
            k.push(text_atom("name", n));
            *b"----"
        }
    };
    k.extend(vals.iter().map(data_atom));
    Node { cc, ext: false, body: Body::Kids(Vec::new(), k) }
}

pub fn ilst_of(items: &[(Id, Vec<Val>)]) -> Node {
    kids("ilst", items.iter().map(|(i, v)| item(i, v)).collect())
}

pub fn meta(k: Vec<Node>) -> Node {
    full("meta", &[0; 4], k)
}

pub fn mdat(n: usize, salt: u8) -> Node {
    leaf("mdat", &(0..n).map(|i| (i as u8).wrapping_mul(31).wrapping_add(salt)).collect::<Vec<u8>>())
}

pub fn filler(n: usize) -> Node {
    leaf("free", &vec![0xEE; n])
}

// ---------------------------------------------------------------------------------------------
// files

#[derive(Clone, Debug)]
pub struct Layout {
    pub nodes: Vec<Node>,
    pub items: Items,
    pub info: Info,
    pub ftyp: String,
}

fn ext(c: &Ctx, n: Node) -> Node {
    let e = c.flag();
    n.ext(e)
}

pub const N_ITEMS: usize = 17;

/// Stored item lists: children of `ilst` and the items they stand for.
pub fn stored(which: usize) -> (Vec<Node>, Items) {
    let nam = Id::fc("\u{a9}nam");
    let art = Id::fc("\u{a9}ART");
    let covr = Id::fc("covr");
    let isrc = Id::free("com.apple.iTunes", "ISRC");
    let one = |id: &Id, v: &[Val]| (id.clone(), v.to_vec());
    let list = |l: Vec<(Id, Vec<Val>)>| (l.iter().map(|(i, v)| item(i, v)).collect::<Vec<_>>(), map_of(&l));
    match which {
        0 => list(vec![one(&nam, &[Val::s("old title")]), one(&art, &[Val::s("an artist")])]),
        1 => list(vec![]),
        // repeated identifiers, several values, several kinds
        2 => list(vec![
            one(&art, &[Val::s("b"), Val::s("a")]),
            one(&covr, &[Val::new(Kind::Png, &[1, 2, 3]), Val::new(Kind::Jpeg, &[]), Val::new(Kind::Bmp, &[0xFF])]),
            one(&art, &[Val::s16("\u{1F600}x"), Val::s("a")]),
            one(&nam, &[Val::s("")]),
        ]),
        // freeform items, two of them the same
        3 => list(vec![
            one(&isrc, &[Val::s("AA6Q72000047")]),
            one(&Id::free("org.x", "ISRC"), &[Val::new(Kind::Reserved, &[1])]),
            one(&isrc, &[Val::new(Kind::BeSigned, &[0, 1])]),
            one(&Id::free("", ""), &[Val::s("e")]),
        ]),
        // padding at every place
        4 => {
            let (mut n, m) = list(vec![one(&nam, &[Val::s("t")]), one(&art, &[Val::s("u")])]);
            n.insert(0, filler(5));
            n.insert(2, filler(0));
            n.push(filler(13));
            (n, m)
        }
        // unknown atoms within items
        5 => {
            let (mut n, m) = list(vec![one(&nam, &[Val::s("t"), Val::s("v")]), one(&isrc, &[Val::s("u")])]);
            n[0].kids_mut().insert(0, filler(3));
            n[0].kids_mut().push(leaf("abcd", &[0, 0, 0, 9, b'd', b'a', b't', b'a', 1]));
            n[1].kids_mut().insert(2, leaf("zzzz", &[]));
            n[1].kids_mut().push(filler(0));
            (n, m)
        }
        // name before mean, data first
        6 => {
            let (mut n, m) = list(vec![one(&isrc, &[Val::s("u")])]);
            n[0].kids_mut().swap(0, 1);
            (n, m)
        }
        7 => {
            let (mut n, m) = list(vec![one(&isrc, &[Val::s("u"), Val::s("w")])]);
            n[0].kids_mut().rotate_right(2);
            (n, m)
        }
        // long item list
        8 => list((0..40u8).map(|i| (Id::Fc([b'x', b'y', b'0', b'0' + i]), vec![Val::new(Kind::Reserved, &vec![i; 61])])).collect()),
        // every kind, empty and not
        9 => list(
            KINDS
                .iter()
                .enumerate()
                .map(|(i, k)| (Id::Fc([b'k', b'i', b'n', b'0' + i as u8]), vec![Val::new(*k, b""), Val::new(*k, b"ab")]))
                .collect(),
        ),
        // identifiers with unusual bytes, and those of structural atoms
        10 => list(vec![
            (Id::Fc([0, 0, 0, 0]), vec![Val::s("z")]),
            (Id::Fc([255; 4]), vec![Val::s("f")]),
            (Id::fc("moov"), vec![Val::s("m")]),
            (Id::fc("data"), vec![Val::s("d")]),
            (Id::fc("ilst"), vec![Val::s("i")]),
            (Id::fc("name"), vec![Val::s("n")]),
            (Id::fc("mean"), vec![Val::s("e")]),
        ]),
        // 64-bit heads inside the item list
        11 => {
            let (mut n, m) = list(vec![one(&nam, &[Val::s("t")]), one(&isrc, &[Val::s("u")])]);
            n[0] = n[0].clone().ext(true);
            for k in n[1].kids_mut() {
                k.ext = true;
            }
            n[1].ext = true;
            (n, m)
        }
        12 => {
            let (mut n, m) = list(vec![one(&nam, &[Val::s("t")]), one(&art, &[Val::s("u")])]);
            n[1].kids_mut()[0].ext = true;
            n.insert(1, filler(2).ext(true));
            (n, m)
        }
        // a locale, and flags of the freeform parts
        13 => {
            let (mut n, m) = list(vec![one(&nam, &[Val::s("loc")])]);
            if let Body::Leaf(b) = &mut n[0].kids_mut()[0].body {
                b[4..8].copy_from_slice(&[0x12, 0x34, 0xAB, 0xCD]);
            }
            (n, m)
        }
        // the same text in mean and name, an identifier that starts like another
        14 => list(vec![
            one(&Id::free("a", "b"), &[Val::s("1")]),
            one(&Id::free("b", "a"), &[Val::s("2")]),
            one(&Id::free("a", "b:"), &[Val::s("3")]),
            one(&Id::free("a:b", ""), &[Val::s("4")]),
            one(&Id::free("a", "b"), &[Val::s("5")]),
        ]),
        // a single big value
        15 => list(vec![one(&covr, &[Val::new(Kind::Png, &(0..20_000u32).map(|i| (i * 7) as u8).collect::<Vec<u8>>())])]),
        // the parts of a freeform identifier in another item
        16 => {
            let (mut n, m) = list(vec![one(&nam, &[Val::s("t")]), one(&isrc, &[Val::s("u")])]);
            n[0].kids_mut().splice(0..0, [text_atom("mean", "com.apple.iTunes"), text_atom("name", "ISRC")]);
            (n, m)
        }
        _ => crate::engine::harness_error("no such item list"),
    }
}

/// Which parts of a layout a check varies.
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Vary {
    pub media: bool,
    pub stored: bool,
    pub audio: bool,
}

pub const EVERYTHING: Vary = Vary { media: true, stored: true, audio: true };

/// Well-formed files.
pub fn layout(c: &Ctx, vary: Vary) -> Layout {
    let (mut kids_of_ilst, mut items) = if vary.stored { stored(c.pick(N_ITEMS)) } else { stored(0) };

    // metadata
    let presence = c.pick(14);
    let iext = c.flag();
    let ilst = kids("ilst", std::mem::take(&mut kids_of_ilst)).ext(iext);
    let mext = c.flag();
    let handler = c.pick(8);
    let h = || match handler {
        0 => hdlr(b"mdir"),
        1 => hdlr(b"mdir").ext(true),
        2 => leaf("hdlr", &[]),
        3 => leaf("hdlr", &[0, 0, 0, 0, 0, 0, 0, 0]),
        4 => leaf("hdlr", b"\0\0\0\0\0\0\0\0mdirappl\0\0\0\0\0\0\0\0"),
        5 => leaf("hdlr", b"\0\0\0\0\0\0\0\0mdta\0\0\0\0\0\0\0\0\0\0\0\0a long handler name\0"),
        6 => hdlr(b"\0\0\0\0"),
        _ => leaf("hdlr", b"\x01\0\0\x01mhlrmdirappl\0\0\0\x01\xff\xff\xff\xff\x07handler"),
    };
    let other_hdlr = || leaf("hdlr", &[0; 40]);
    let m = |k: Vec<Node>| meta(k).ext(mext);
    let mut with_items = true;
    let udta_kids: Option<Vec<Node>> = match presence {
        0 => Some(vec![m(vec![h(), ilst])]),
        1 => Some(vec![m(vec![ilst, h()])]),
        2 => Some(vec![m(vec![ilst])]),
        3 => Some(vec![m(vec![h(), filler(10), ilst, filler(20)])]),
        4 => Some(vec![leaf("chpl", &[1, 2, 3, 4, 5]), m(vec![h(), ilst]), leaf("cprt", &[9; 7])]),
        5 => Some(vec![m(vec![filler(3), other_hdlr(), leaf("xyzw", &[0; 3]), ilst])]),
        6 => {
            with_items = false;
            Some(vec![m(vec![h()])])
        }
        7 => {
            with_items = false;
            Some(vec![m(vec![])])
        }
        8 => {
            with_items = false;
            Some(vec![m(vec![h(), filler(9)]), leaf("name", b"abc")])
        }
        9 => {
            with_items = false;
            Some(vec![leaf("name", b"abc")])
        }
        10 => {
            with_items = false;
            Some(vec![])
        }
        11 => {
            with_items = false;
            None
        }
        12 => Some(vec![filler(4), m(vec![h(), ilst, leaf("data", &[1, 2, 3])])]),
        _ => {
            with_items = false;
            Some(vec![leaf("ilst", &[0, 0, 0, 8, 1, 2, 3, 4]), leaf("Xtra", &[8; 21]), filler(0)])
        }
    };
    if !with_items {
        items = Items::new();
    }
    let uext = c.flag();
    let udta = udta_kids.map(|k| kids("udta", k).ext(uext));

    // media and what precedes and follows the movie
    let top = c.pick(if vary.media { 20 } else { 5 });
    // (m = media, M = movie, f = padding, x = something else, d = decoys)
    let plan: &str = [
        "Mm", "mM", "M", "Mxf", "mMfx", "mMm", "fMfm", "mmM", "Mmm", "mfMfm", "Mxmx", "xmxMxmx", "dMdm", "dmdMd", "mMf", "Mmfmx", "fM", "Mf", "xMd", "Mxfd",
    ][top];
    let sizes: [usize; 3] = [[60, 33, 9], [1, 1, 1], [0, 17, 0], [9000, 8192, 5]][c.pick(if vary.media { 4 } else { 1 })];
    let n_media = plan.bytes().filter(|b| *b == b'm').count();

    // tracks
    let esds = Esds::default();
    // atoms around the stream description
    let around = c.pick(if vary.audio { 6 } else { 1 });
    let audio_entry = || {
        let mut m = mp4a(esds.bytes());
        let k = m.kids_mut();
        match around {
            0 => (),
            1 => k.push(leaf("btrt", &[1; 12])),
            2 => k.insert(0, leaf("btrt", &[1; 12])),
            3 => {
                k[0].ext = true;
                k.insert(0, filler(0).ext(true));
                k.push(filler(2));
            }
            4 => {
                k.insert(0, leaf("chan", &[3; 24]));
                k.insert(1, leaf("\0\0\0\0", &[]));
            }
            _ => k[0].ext = true,
        }
        m
    };
    let mut info = Info::default();
    let targets: Vec<Target> = {
        // first, middle and last byte of each media atom
        let mut v = Vec::new();
        for m in 0..n_media {
            let n = sizes[m] as u64;
            if n > 0 {
                v.extend([Target::Media(m, 0), Target::Media(m, n / 2), Target::Media(m, n - 1)]);
            }
        }
        if c.flag() {
            v.reverse();
        }
        v
    };
    let table = |kind: usize| -> Vec<Node> {
        let stco = |t: Vec<Target>| Node { cc: *b"stco", ext: false, body: Body::Stco(t) };
        let co64 = |t: Vec<Target>| Node { cc: *b"co64", ext: false, body: Body::Co64(t) };
        match kind {
            0 => vec![stco(targets.clone())],
            1 => vec![co64(targets.clone())],
            2 => vec![stco(vec![])],
            3 => vec![],
            4 => vec![stco(targets.clone()).ext(true)],
            5 => vec![co64(targets.clone()).ext(true)],
            6 => vec![co64(vec![])],
            _ => vec![stco(targets.clone()), co64(targets.clone())],
        }
    };
    let audio_track = |kind: usize, entry: Vec<Node>, order: usize| {
        let mut k = vec![stsd(entry), leaf("stts", &[0; 16]), leaf("stsc", &[0; 20]), leaf("stsz", &[0; 12])];
        let t = table(kind);
        match order {
            0 => k.extend(t),
            1 => {
                for n in t.into_iter().rev() {
                    k.insert(0, n);
                }
            }
            _ => {
                for n in t.into_iter().rev() {
                    k.insert(2, n);
                }
                k.push(filler(6));
            }
        }
        trak(k)
    };
    let k1 = c.pick(if vary.media { 8 } else { 1 });
    let order = c.pick(if vary.media { 3 } else { 1 });
    let tracks = c.pick(if vary.audio || vary.media { 9 } else { 1 });
    let video = || audio_track(1, vec![leaf("avc1", &[6; 40])], 0);
    let mut traks = match tracks {
        0 => {
            info.audio = Some(esds.audio());
            vec![audio_track(k1, vec![audio_entry()], order)]
        }
        1 => {
            info.audio = Some(esds.audio());
            vec![audio_track(k1, vec![audio_entry()], order), audio_track(0, vec![mp4a(Esds { word: Some(word(2, 8, 1)), ..Esds::default() }.bytes())], 1)]
        }
        2 => {
            info.audio = Some(esds.audio());
            vec![video(), audio_track(k1, vec![audio_entry()], order)]
        }
        3 => vec![],
        4 => {
            info.audio = Some(esds.audio());
            vec![kids("trak", vec![leaf("tkhd", &[1; 8])]), kids("trak", vec![kids("mdia", vec![])]), audio_track(k1, vec![audio_entry()], order)]
        }
        5 => vec![video()],
        6 => {
            info.audio = Some(esds.audio());
            vec![audio_track(k1, vec![leaf("text", &[1; 10]), audio_entry(), leaf("text", &[])], order), video()]
        }
        // metadata of a track is not metadata of the movie
        7 => {
            info.audio = Some(esds.audio());
            let mut t = audio_track(k1, vec![audio_entry()], order);
            let (n, _) = stored(2);
            t.kids_mut().insert(0, kids("udta", vec![meta(vec![hdlr(b"mdir"), kids("ilst", n)])]));
            t.kids_mut().push(leaf("mvhd", &[1; 3]));
            vec![t]
        }
        _ => {
            info.audio = Some(esds.audio());
            vec![
                trak(vec![stsd(vec![])]),
                kids("trak", vec![kids("mdia", vec![kids("minf", vec![])])]),
                audio_track(k1, vec![audio_entry()], order),
                audio_track(1, vec![audio_entry()], 0),
                audio_track(0, vec![audio_entry()], 2),
            ]
        }
    };
    // 64-bit heads along the way to the tables
    match c.pick(if vary.media { 5 } else { 1 }) {
        0 => (),
        n => {
            for t in traks.iter_mut() {
                deepen(t, n);
            }
        }
    }

    // movie header
    let mv = c.pick(if vary.audio { 4 } else { 1 });
    let (mvhd, declared) = match mv {
        0 => (Some(leaf("mvhd", &mvhd_bytes(0, 600, 1501))), Some((600, 1501))),
        1 => (Some(leaf("mvhd", &mvhd_bytes(1, 44100, 1 << 40))), Some((44100, 1 << 40))),
        2 => (None, None),
        _ => (Some(leaf("mvhd", &mvhd_bytes(0, 1000, 0)).ext(true)), Some((1000, 0))),
    };
    info.mvhd = declared;

    // order within the movie
    let mut moov = Vec::new();
    let (mut mvhd, mut traks, mut udta) = (mvhd, Some(traks), udta);
    let perm = ["htu", "hut", "uht", "thu", "uth", "tuh", "htfu", "hutf", "fhtux", "hxTuT", "hTuT"][c.pick(11)];
    for b in perm.bytes() {
        match b {
            b'h' => moov.extend(mvhd.take()),
            b't' => moov.extend(traks.take().into_iter().flatten()),
            b'T' => {
                // one track before, the others after
                if let Some(t) = &mut traks {
                    if !t.is_empty() {
                        let rest = t.split_off(1);
                        moov.extend(std::mem::replace(t, rest));
                    }
                }
            }
            b'u' => moov.extend(udta.take()),
            b'f' => moov.push(filler(11)),
            _ => moov.push(leaf("iods", &[4; 13])),
        }
    }
    if let Some(t) = traks {
        moov.extend(t);
    }
    let moov = ext(c, kids("moov", moov));

    let ftyp = match c.pick(4) {
        0 => FTYP.to_owned(),
        1 => "".to_owned(),
        2 => "isom\u{0}\u{0}\u{2}\u{0}mp42 and a few more".to_owned(),
        _ => "\u{e9}\u{20ac}\u{1F600}".to_owned(),
    };
    let mut nodes = vec![leaf("ftyp", ftyp.as_bytes())];
    if c.flag() {
        nodes[0].ext = true;
    }
    let mext = c.pick(if vary.media { 3 } else { 1 });
    let mut moov = Some(moov);
    let mut n = 0;
    for b in plan.bytes() {
        match b {
            b'M' => nodes.extend(moov.take()),
            b'm' => {
                let e = match mext {
                    0 => false,
                    1 => true,
                    _ => n % 2 == 1,
                };
                nodes.push(mdat(sizes[n], n as u8 * 77 + 1).ext(e));
                n += 1;
            }
            b'f' => nodes.push(filler(21)),
            b'd' => {
                // metadata that isn't the movie's
                let (k, _) = stored(3);
                nodes.push(kids("udta", vec![meta(vec![hdlr(b"mdir"), kids("ilst", k.clone())])]));
                nodes.push(meta(vec![hdlr(b"mdir"), kids("ilst", k)]));
                nodes.push(kids("moof", vec![trak(vec![leaf("stco", &[0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 9])])]));
            }
            _ => nodes.push(leaf("uuid", &[0xAB; 19]).ext(true)),
        }
    }
    // 64-bit heads of atoms whose content isn't known, of sample descriptions, of everything
    match c.pick(5) {
        0 => (),
        1 => widen(&mut nodes, &|n| n.cc == *b"stsd"),
        2 => widen(&mut nodes, &|n| n.cc == *b"mp4a"),
        3 => widen(&mut nodes, &|n| matches!(n.body, Body::Leaf(_)) && ![*b"mdat", *b"data", *b"mean", *b"name", *b"ftyp"].contains(&n.cc)),
        _ => widen(&mut nodes, &|_| true),
    }
    // flags of all atoms that have some
    let f = [[0; 3], [0, 0, 1], [0xFF, 0xFE, 0xFD]][c.pick(3)];
    if f != [0; 3] {
        for n in &mut nodes {
            set_flags(n, f);
        }
    }
    Layout { nodes, items, info, ftyp }
}

fn widen(nodes: &mut [Node], which: &dyn Fn(&Node) -> bool) {
    for n in nodes {
        n.ext |= which(n);
        if let Body::Kids(_, k) = &mut n.body {
            widen(k, which);
        }
    }
}

fn deepen(n: &mut Node, which: usize) {
    let cc: [&[u8; 4]; 5] = [b"trak", b"trak", b"mdia", b"minf", b"stbl"];
    if n.cc == *cc[which] {
        n.ext = true;
    }
    if let Body::Kids(_, k) = &mut n.body {
        for x in k {
            deepen(x, which);
        }
    }
}

// ---------------------------------------------------------------------------------------------
// tags

pub const N_TAGS: usize = 13;

/// Contents of tags to write.
pub fn tag_items(which: usize) -> Vec<(Id, Vec<Val>)> {
    let nam = Id::fc("\u{a9}nam");
    let art = Id::fc("\u{a9}ART");
    match which {
        0 => vec![(nam, vec![Val::s("a somewhat longer new title than before")]), (art, vec![Val::s("someone else entirely")])],
        1 => vec![],
        // same length as the default item list
        2 => vec![(nam, vec![Val::s("new title")]), (art, vec![Val::s("nu artist")])],
        3 => vec![(nam, vec![Val::s("x")])],
        4 => vec![
            (nam, vec![Val::s(""), Val::s("b"), Val::s("a"), Val::s("b")]),
            (Id::free("com.apple.iTunes", "ISRC"), vec![Val::s("AA6Q72000047"), Val::new(Kind::Reserved, &[])]),
            (art, vec![Val::s16("\u{1F600}\u{e4}z"), Val::s16("")]),
        ],
        5 => KINDS
            .iter()
            .enumerate()
            .map(|(i, k)| (Id::Fc([b'k', b'n', b'd', b'0' + i as u8]), vec![Val::new(*k, b"content"), Val::new(*k, b""), Val::new(*k, b"c")]))
            .collect(),
        6 => vec![(Id::fc("covr"), vec![Val::new(Kind::Png, &(0..9000u32).map(|i| (i * 13) as u8).collect::<Vec<u8>>())])],
        7 => (0..70u8).map(|i| (Id::Fc([b'n', b'o', 0xA9, i]), vec![Val::s("value"), Val::new(Kind::BeSigned, &[i])])).collect(),
        8 => vec![
            (Id::free("", ""), vec![Val::s("e")]),
            (Id::free("a", "b"), vec![Val::s("1")]),
            (Id::free("b", "a"), vec![Val::s("2")]),
            (Id::free("\u{e9}:", "\u{1F600}"), vec![Val::s("3")]),
        ],
        9 => vec![
            (Id::fc("----"), vec![Val::s("dash")]),
            (Id::fc("moov"), vec![Val::s("m")]),
            (Id::fc("data"), vec![Val::new(Kind::Jpeg, &[0, 0, 0, 8])]),
            (Id::fc("mean"), vec![Val::s("x")]),
            (Id::Fc([0; 4]), vec![Val::s("0")]),
        ],
        // grows the default list by one byte, shrinks it by one byte
        10 => vec![(nam, vec![Val::s("new titles")]), (art, vec![Val::s("nu artist")])],
        11 => vec![(nam, vec![Val::s("new titl")]), (art, vec![Val::s("nu artist")])],
        12 => vec![(nam, vec![Val::s(&"t".repeat(300))])],
        _ => crate::engine::harness_error("no such tag"),
    }
}

pub fn tag_n(which: usize) -> (Tag, Items) {
    let l = tag_items(which);
    (tag_of(&l), map_of(&l))
}

/// The scalar values of a block of 256 as texts.
pub fn scalar_block(block: u32, context: usize) -> Vec<String> {
    (block * 256..block * 256 + 256)
        .filter_map(char::from_u32)
        .map(|ch| match context {
            0 => ch.to_string(),
            1 => format!("a{}b", ch),
            _ => format!("{}{}\u{1f600}\u{e9}", ch, ch),
        })
        .collect()
}

pub const BLOCKS: usize = 0x110000 / 256;

/// Items whose values or identifiers contain each scalar value of a block, or each byte.
pub const SWEEPS: usize = 6;

pub fn sweep(which: usize, block: u32) -> Vec<(Id, Vec<Val>)> {
    let title = (Id::fc("\u{a9}nam"), vec![Val::s("title")]);
    let mut l = match which {
        0 => vec![(Id::fc("\u{a9}ART"), scalar_block(block, 2).iter().map(|s| Val::s(s)).collect())],
        1 => vec![(Id::fc("\u{a9}ART"), scalar_block(block, 2).iter().map(|s| Val::s16(s)).collect())],
        2 => vec![(Id::fc("\u{a9}ART"), scalar_block(block, 1).iter().map(|s| Val::s16(s)).collect())],
        3 => scalar_block(block, 0).iter().map(|s| (Id::free(s, "name"), vec![Val::s("v")])).collect(),
        4 => scalar_block(block, 1).iter().map(|s| (Id::free("mean", s), vec![Val::s("v")])).collect(),
        // the first blocks: bytes of codes and of binary values
        _ => (0..=255u8)
            .map(|b| match block {
                0 => (Id::Fc([b, b'a', b'a', b'a']), vec![Val::new(Kind::Reserved, &[b])]),
                1 => (Id::Fc([b'a', b, b'a', b'a']), vec![Val::new(Kind::BeSigned, &[b, 0])]),
                2 => (Id::Fc([b'a', b'a', b, b'a']), vec![Val::new(Kind::Png, &[0, b])]),
                3 => (Id::Fc([b'a', b'a', b'a', b]), vec![Val::new(Kind::Jpeg, &[b, 255, b])]),
                _ => (Id::Fc([b, b, b, b]), vec![Val::new(Kind::Bmp, &[b; 9])]),
            })
            .filter(|(_, _)| block < 5)
            .collect(),
    };
    l.retain(|(_, v)| !v.is_empty());
    l.push(title);
    l
}

/// Enumerates the sweeps.
pub fn any_sweep(c: &Ctx) -> Vec<(Id, Vec<Val>)> {
    let which = c.all(SWEEPS);
    let block = c.all(if which == SWEEPS - 1 { 5 } else { BLOCKS }) as u32;
    sweep(which, block)
}

/// Numbers of things at which counters and buffers may give out.
pub fn counts(dense: usize, thorough: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (0..dense).collect();
    for p in [64usize, 100, 128, 256, 512, 1000, 1024, 2048] {
        v.extend([p - 1, p, p + 1]);
    }
    if thorough {
        for p in [4096usize, 8192, 10_000, 16_384, 32_768, 65_536] {
            v.extend([p - 1, p, p + 1]);
        }
    } else {
        v.push(4097);
    }
    v.sort_unstable();
    v.dedup();
    v
}

pub const CROWDS: usize = 14;

/// A file with many of something, `n` of it.
pub fn crowd(which: usize, n: usize, movie_first: bool) -> Layout {
    let e = Esds::default();
    let nam = Id::fc("\u{a9}nam");
    let mut items = vec![(nam.clone(), vec![Val::s("old title")])];
    let mut lists: [Vec<Node>; 9] = Default::default();
    let [top_front, top_back, in_moov, in_trak, in_stbl, in_udta, in_meta, in_ilst, in_item] = &mut lists;
    let targets = vec![Target::Media(0, 0), Target::Media(0, 39), Target::Media(1, 0), Target::Media(1, 9)];
    let small = |i: usize| if i % 3 == 0 { leaf("free", &[i as u8; 2]) } else { leaf("abcd", &[]) };
    let mut tracks = 1;
    match which {
        0 => {
            items.extend((0..n).map(|i| (if i % 2 == 0 { Id::Fc([b'a', b'0', (i >> 8) as u8, i as u8]) } else { Id::free("mean", &i.to_string()) }, vec![Val::s(&i.to_string())])));
        }
        1 => items.push((Id::fc("\u{a9}ART"), (0..n.max(1)).map(|i| Val::s(&i.to_string())).collect())),
        // the same item again and again
        2 => items.extend((0..n).map(|i| (Id::free("m", "n"), vec![Val::s(&i.to_string())]))),
        3 => in_ilst.extend((0..n).map(|i| filler(i % 5))),
        4 => in_item.extend((0..n).map(|_| leaf("abcd", &[0; 3]))),
        5 => in_meta.extend((0..n).map(small)),
        6 => in_udta.extend((0..n).map(small)),
        7 => in_moov.extend((0..n).map(small)),
        8 => tracks = n,
        9 => in_trak.extend((0..n).map(small)),
        10 => in_stbl.extend((0..n).map(small)),
        11 => top_front.extend((0..n).map(small)),
        12 => top_back.extend((0..n).map(small)),
        _ => top_front.extend((0..n).map(|i| mdat(i % 3, i as u8))),
    }
    let mut ilst = ilst_of(&items);
    ilst.kids_mut().splice(0..0, in_ilst.drain(..));
    let at = ilst.kids_mut().len() - items.len();
    ilst.kids_mut()[at].kids_mut().splice(0..0, in_item.drain(..));
    let mut meta_kids = vec![hdlr(b"mdir")];
    meta_kids.append(in_meta);
    meta_kids.push(ilst);
    in_udta.push(meta(meta_kids));
    let m = if which == 13 { n } else { 0 };
    let targets: Vec<Target> = targets
        .into_iter()
        .map(|t| match t {
            Target::Media(0, o) => Target::Media(m, o),
            Target::Media(_, o) => Target::Media(m + 1, o),
            t => t,
        })
        .collect();
    let mut traks: Vec<Node> = (0..tracks)
        .map(|i| {
            let table = if i % 2 == 0 { Body::Stco(targets.clone()) } else { Body::Co64(targets.clone()) };
            let cc = if i % 2 == 0 { *b"stco" } else { *b"co64" };
            let entry = if i == 0 { mp4a(e.bytes()) } else { leaf("avc1", &[6; 40]) };
            let mut stbl = vec![stsd(vec![entry])];
            stbl.append(in_stbl);
            stbl.push(Node { cc, ext: false, body: table });
            let mut t = trak(stbl);
            t.kids_mut().splice(0..0, in_trak.drain(..));
            t
        })
        .collect();
    let mut moov = vec![leaf("mvhd", &mvhd_bytes(0, 600, 1501))];
    moov.append(in_moov);
    let udta = kids("udta", std::mem::take(in_udta));
    if movie_first {
        moov.push(udta);
        moov.append(&mut traks);
    } else {
        moov.append(&mut traks);
        moov.push(udta);
    }
    let mut nodes = vec![leaf("ftyp", FTYP.as_bytes())];
    nodes.append(top_front);
    let media = vec![mdat(40, 5), mdat(10, 77)];
    if movie_first {
        nodes.push(kids("moov", moov));
        nodes.append(top_back);
        nodes.extend(media);
    } else {
        let [a, b] = <[Node; 2]>::try_from(media).unwrap();
        nodes.push(a);
        nodes.push(kids("moov", moov));
        nodes.append(top_back);
        nodes.push(b);
    }
    let audio = if tracks > 0 { Some(e.audio()) } else { None };
    Layout { nodes, items: map_of(&items), info: Info { mvhd: Some((600, 1501)), audio }, ftyp: FTYP.to_owned() }
}

/// Enumerates them.
pub fn any_crowd(c: &Ctx, counts: &[usize]) -> Layout {
    let which = c.all(CROWDS);
    let n = *c.all_of(counts);
    let first = c.all(2) == 0;
    crowd(which, n, first)
}

// ---------------------------------------------------------------------------------------------
// files of any length, with holes

const VAST: [u64; 10] = [1 << 31, (1 << 31) - 1, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 32) + 30, (1 << 33) + 7, (3 << 32) - 1, 1 << 40, 1 << 62];

/// Places of the hole: those from `VAST_BEHIND` on are behind the item list.
pub const VAST_BEHIND: usize = 21;
pub const VAST_PLACES: usize = 25;

/// Gives all atoms that need it a 64-bit length.
fn lengthen(n: &mut Node) {
    if let Body::Kids(_, k) = &mut n.body {
        k.iter_mut().for_each(lengthen);
    }
    if n.len() > u32::MAX as u64 {
        n.ext = true;
    }
}

/// A file with an atom of about 2^31 to 2^62 bytes somewhere.
pub fn vast(c: &Ctx, places: usize) -> (Layout, String) {
    let place = c.all(places);
    let len = *c.all_of(&VAST);
    let ext = len > u32::MAX as u64 || c.all(2) == 1;
    let mut at = 0;
    let mut put = |k: &mut Vec<Node>, cc: &str| {
        if at == place {
            let hole = len - if ext { 16 } else { 8 };
            k.push(Node { cc: fcc(cc), ext, body: Body::Hole(hole, vec![3; 9], vec![4; 9]) });
        }
        at += 1;
    };
    let e = Esds::default();
    let items = vec![
        (Id::fc("\u{a9}nam"), vec![Val::s("vast"), Val::s16("two")]),
        (Id::free("mean", "name"), vec![Val::new(Kind::BeSigned, &[1, 2])]),
        (Id::fc("covr"), vec![Val::new(Kind::Png, &[9; 30])]),
    ];
    let mut top = vec![leaf("ftyp", FTYP.as_bytes())];
    put(&mut top, "free");
    put(&mut top, "mdat");
    let first = if place == 1 { 1 } else { 0 };
    let mut moov = Vec::new();
    put(&mut moov, "free");
    moov.push(leaf("mvhd", &mvhd_bytes(0, 600, 1501)));
    put(&mut moov, "uuid");
    // the sample table
    let mut entry = mp4a(e.bytes());
    let esds = entry.kids_mut().pop().unwrap();
    put(entry.kids_mut(), "wave");
    entry.kids_mut().push(esds);
    put(entry.kids_mut(), "btrt");
    let mut entries = Vec::new();
    put(&mut entries, "avc1");
    entries.push(entry);
    put(&mut entries, "text");
    let mut stbl = Vec::new();
    put(&mut stbl, "stts");
    stbl.push(stsd(entries));
    put(&mut stbl, "stsz");
    stbl.push(Node { cc: *b"co64", ext: false, body: Body::Co64(vec![Target::Media(first, 0), Target::Media(first, 33), Target::Media(first, 39)]) });
    put(&mut stbl, "stsc");
    let mut tr = trak(stbl);
    put(tr.kids_mut(), "free");
    put(tr.kids_mut()[1].kids_mut(), "elng");
    moov.push(tr);
    put(&mut moov, "skip");
    let mut udta = Vec::new();
    put(&mut udta, "name");
    let mut m = Vec::new();
    put(&mut m, "free");
    m.push(hdlr(b"mdir"));
    put(&mut m, "xml ");
    let mut list: Vec<Node> = Vec::new();
    put(&mut list, "free");
    let mut nodes: Vec<Node> = items.iter().map(|(i, v)| item(i, v)).collect();
    let k = nodes[0].kids_mut();
    let last = k.pop().unwrap();
    put(k, "abcd");
    k.push(last);
    put(nodes[1].kids_mut(), "abcd");
    list.append(&mut nodes);
    put(&mut list, "free");
    // VAST_BEHIND
    m.push(kids("ilst", list));
    put(&mut m, "free");
    udta.push(meta(m));
    put(&mut udta, "free");
    moov.push(kids("udta", udta));
    put(&mut moov, "free");
    top.push(kids("moov", moov));
    if place != VAST_PLACES - 1 {
        top.push(mdat(40, 5));
    }
    put(&mut top, "mdat");
    if at != VAST_PLACES {
        crate::engine::harness_error(&format!("{} places for the hole", at));
    }
    top.iter_mut().for_each(lengthen);
    let l = Layout { nodes: top, items: map_of(&items), info: Info { mvhd: Some((600, 1501)), audio: Some(e.audio()) }, ftyp: FTYP.to_owned() };
    (l, format!("{} bytes at place {}", len, place))
}

// ---------------------------------------------------------------------------------------------
// atoms where they don't belong

/// The parents and children that mean something; in all other places an atom is unknown.
const BELONGS: [(&str, &str); 21] = [
    ("", "moov"),
    ("", "mdat"),
    ("moov", "mvhd"),
    ("moov", "trak"),
    ("moov", "udta"),
    ("trak", "mdia"),
    ("mdia", "minf"),
    ("minf", "stbl"),
    ("stbl", "stsd"),
    ("stbl", "stco"),
    ("stbl", "co64"),
    ("stsd", "mp4a"),
    ("mp4a", "esds"),
    ("udta", "meta"),
    ("meta", "hdlr"),
    ("meta", "ilst"),
    ("\u{a9}nam", "data"),
    ("----", "data"),
    ("----", "mean"),
    ("----", "name"),
    ("", "ftyp"),
];
const PARENTS: [&str; 12] = ["", "moov", "trak", "mdia", "minf", "stbl", "stsd", "mp4a", "udta", "meta", "\u{a9}nam", "----"];
const DECOYS: [&str; 22] = [
    "moov", "mvhd", "trak", "mdia", "minf", "stbl", "stsd", "mp4a", "esds", "stco", "co64", "udta", "meta", "hdlr", "ilst", "\u{a9}nam", "----", "data", "mean", "name",
    "ftyp", "mdat",
];
/// Parts that may be missing.
const PARTS: [&str; 10] = ["", "udta", "meta", "hdlr", "ilst", "mvhd", "trak", "stsd", "mp4a", "stco"];

fn inside<'a>(nodes: &'a mut Vec<Node>, cc: &[u8; 4]) -> Option<&'a mut Vec<Node>> {
    for n in nodes {
        if let Body::Kids(_, k) = &mut n.body {
            if n.cc == *cc {
                return Some(k);
            }
            if let Some(k) = inside(k, cc) {
                return Some(k);
            }
        }
    }
    None
}

fn without(nodes: &mut Vec<Node>, cc: &[u8; 4]) {
    nodes.retain(|n| n.cc != *cc);
    for n in nodes {
        if let Body::Kids(_, k) = &mut n.body {
            without(k, cc);
        }
    }
}

fn plain(id: &str, mean: &str, title: &str, e: &Esds, mvhd: Vec<u8>, targets: Vec<Target>) -> Vec<Node> {
    let items = vec![(Id::fc("\u{a9}nam"), vec![Val::s(title)]), (Id::free(mean, "name"), vec![Val::s(id)])];
    let table = Node { cc: *b"stco", ext: false, body: Body::Stco(targets) };
    vec![
        leaf("ftyp", FTYP.as_bytes()),
        kids(
            "moov",
            vec![leaf("mvhd", &mvhd), trak(vec![stsd(vec![mp4a(e.bytes())]), leaf("stts", &[0; 8]), table]), kids("udta", vec![meta(vec![hdlr(b"mdir"), ilst_of(&items)])])],
        ),
        mdat(40, 9),
    ]
}

/// Puts a complete atom of some known kind, from a file with other content, where that isn't known. Tells what and where.
fn put_decoy(c: &Ctx, nodes: &mut Vec<Node>) -> String {
    // what is put somewhere, from a file with other content
    let other = Esds { word: Some(word(2, 8, 1)), max: 7, avg: 5, ..Esds::default() };
    let mut from = plain("decoy", "mean", "decoy", &other, mvhd_bytes(1, 1000, 77_777), vec![Target::Raw(3), Target::Raw(60)]);
    inside(&mut from, b"stbl").unwrap().push(Node { cc: *b"co64", ext: false, body: Body::Co64(vec![Target::Raw(3), Target::Raw(60)]) });
    let what = *c.all_of(&DECOYS);
    let parent = *c.all_of(&PARENTS);
    let at = c.all(3);
    let ext = c.all(2) == 1;
    fn find(nodes: &[Node], cc: &[u8; 4]) -> Option<Node> {
        nodes.iter().find(|n| n.cc == *cc).cloned().or_else(|| {
            nodes.iter().find_map(|n| match &n.body {
                Body::Kids(_, k) => find(k, cc),
                _ => None,
            })
        })
    }
    let decoy = find(&from, &fcc(what)).unwrap();
    let b = encode(&[decoy]).bytes();
    let decoy = leaf(what, &b[8..]).ext(ext);
    let kids = if parent.is_empty() { Some(&mut *nodes) } else { inside(nodes, &fcc(parent)) };
    if let Some(k) = kids.filter(|_| !BELONGS.contains(&(parent, what)) || what == "ftyp") {
        let lowest = if parent.is_empty() { 1 } else { 0 };
        let at = [lowest, (lowest + 1).min(k.len()), k.len()][at];
        k.insert(at, decoy);
    }
    format!("{} in {:?} at {}", what, parent, at)
}

/// A file that lacks something it needs, with a complete atom of some known kind where that isn't known, and what is lacking.
pub fn lacking(c: &Ctx) -> (Vec<Node>, &'static str) {
    let mut nodes = plain("value", "mean", "title", &Esds::default(), mvhd_bytes(0, 600, 1501), vec![Target::Media(0, 0), Target::Media(0, 39)]);
    let (gone, parent) = *c.all_of(&[("moov", ""), ("ftyp", ""), ("esds", "mp4a"), ("data", "\u{a9}nam"), ("data", "----")]);
    let from = if parent.is_empty() { &mut nodes } else { inside(&mut nodes, &fcc(parent)).unwrap() };
    from.retain(|n| n.cc != fcc(gone));
    put_decoy(c, &mut nodes);
    (nodes, gone)
}

/// A small file that may lack a part, and has a complete atom of some known kind where that isn't known.
pub fn misplaced(c: &Ctx) -> (Layout, String) {
    let e = Esds::default();
    let mut nodes = plain("value", "mean", "title", &e, mvhd_bytes(0, 600, 1501), vec![Target::Media(0, 0), Target::Media(0, 39)]);
    let items = vec![(Id::fc("\u{a9}nam"), vec![Val::s("title")]), (Id::free("mean", "name"), vec![Val::s("value")])];
    let mut l = Layout { nodes: Vec::new(), items: map_of(&items), info: Info { mvhd: Some((600, 1501)), audio: Some(e.audio()) }, ftyp: FTYP.to_owned() };
    let gone = *c.all_of(&PARTS);
    match gone {
        "" => (),
        "hdlr" => inside(&mut nodes, b"meta").unwrap().retain(|n| n.cc != *b"hdlr"),
        _ => without(&mut nodes, &fcc(gone)),
    }
    match gone {
        "udta" | "meta" | "ilst" => l.items = Items::new(),
        "mvhd" => l.info.mvhd = None,
        "trak" | "stsd" | "mp4a" => l.info.audio = None,
        _ => (),
    }
    let label = format!("{} missing, {}", gone, put_decoy(c, &mut nodes));
    // the number of entries
    fn count(nodes: &mut [Node]) {
        for n in nodes {
            if let Body::Kids(p, k) = &mut n.body {
                if n.cc == *b"stsd" {
                    p[4..].copy_from_slice(&(k.len() as u32).to_be_bytes());
                }
                count(k);
            }
        }
    }
    count(&mut nodes);
    l.nodes = nodes;
    (l, label)
}

// ---------------------------------------------------------------------------------------------
// identifiers

/// Codes that mean something in files or to other programs.
const CODES: &str = "ftyp moov mvhd trak tkhd mdia mdhd hdlr minf vmhd smhd hmhd nmhd gmhd dinf dref url  urn  stbl stsd stts ctts stsc stsz stz2 stco co64 \
    stss stsh sdtp stdp padb cslg sbgp sgpd subs saiz saio edts elst udta meta ilst keys mean name data free skip wide mdat uuid moof mfhd traf tfhd trun tfdt \
    mfra tfra mfro sidx ssix styp emsg prft mvex mehd trex leva iods bloc pdin pnot PICT tref load imap matt kmat clip crgn ctab chpl cprt chap hint hnti \
    xml  bxml iloc pitm ipro infr iinf iref idat fiin mp4a mp4v avc1 hvc1 enca encv sinf frma schm schi esds wave chan btrt alac samr ac-3 text sbtl tx3g tmcd \
    ID32 id32 Xtra XMP_ XML_ loci rtng covr gnre trkn disk tmpo cpil pgap pcst catg keyw desc ldes sdes tvsh tven tvsn tves tvnn purd purl egid cnID atID plID \
    geID cmID sfID akID apID stik hdvd shwm sosn soar soal soaa soco sonm yrrc titl auth perf albm dscp flvr rati clsf kywd AllF WLOC SelO LOOP ptv  manu modl \
    auxl cvid idsc ---- ....";

/// All of them, and all codes that differ in one byte from some.
pub fn codes() -> Vec<[u8; 4]> {
    // every fifth byte separates
    let mut v: Vec<[u8; 4]> = CODES.as_bytes().chunks(5).map(|b| [b[0], b[1], b[2], b[3]]).collect();
    for s in ["nam", "ART", "alb", "art", "ard", "arg", "aut", "cmt", "cok", "com", "con", "cpy", "day", "des", "dir", "enc", "fmt", "gen", "grp", "inf", "isr", "lab", "lal",
        "lyr", "mak", "mal", "mod", "mvc", "mvi", "mvn", "nrt", "ope", "phg", "PRD", "prd", "prf", "prk", "prl", "pub", "req", "sne", "snm", "sol", "src", "st3", "swf", "swr",
        "thx", "too", "trk", "url", "web", "wrk", "wrn", "wrt", "xyz", "xpd"] {
        v.push(fcc(&format!("\u{a9}{}", s)));
    }
    for base in [fcc("\u{a9}nam"), *b"free", *b"----", *b"data", [0; 4], [255; 4]] {
        for i in 0..4 {
            for b in 0..=255 {
                let mut x = base;
                x[i] = b;
                v.push(x);
            }
        }
    }
    v.sort_unstable();
    v.dedup();
    v.retain(|x| x != b"free");
    v
}

/// Means and names of freeform items.
pub fn free_ids() -> Vec<Id> {
    let means = ["com.apple.iTunes", "com.apple.itunes", "org.mp4ameta", "mean", "", "\u{a9}"];
    let names = [
        "iTunSMPB", "iTunNORM", "iTunes_CDDB_1", "iTunes_CDDB_IDs", "iTunes_CDDB_TrackNumber", "iTunMOVI", "iTunEXTC", "iTunPGAP", "Encoding Params", "cdec", "tool", "DISCSUBTITLE", "ISRC",
        "LYRICIST", "CONDUCTOR", "LABEL", "MEDIA", "initialkey", "BARCODE", "CATALOGNUMBER", "LANGUAGE", "LICENSE", "MOOD", "SCRIPT", "REMIXER", "ARRANGER", "ENGINEER", "PRODUCER",
        "MusicBrainz Track Id", "MusicBrainz Album Id", "Acoustid Id", "replaygain_track_gain", "REPLAYGAIN_ALBUM_PEAK", "ASIN", "name", "mean", "data", "----", "",
    ];
    means.iter().flat_map(|m| names.iter().map(move |n| Id::free(m, n))).collect()
}

/// An item with one of these, alone, in front of or behind another.
pub fn identified(c: &Ctx, codes: &[[u8; 4]], free: &[Id]) -> Vec<(Id, Vec<Val>)> {
    let i = c.all(codes.len() + free.len());
    let id = if i < codes.len() { Id::Fc(codes[i]) } else { free[i - codes.len()].clone() };
    let vals = if c.all(2) == 0 { vec![Val::s("text")] } else { vec![Val::new(Kind::Reserved, &[0, 0, 0, 8]), Val::s("")] };
    let other = (Id::fc("aART"), vec![Val::s("other")]);
    match c.all(3) {
        _ if id == other.0 => vec![(id, vals)],
        0 => vec![(id, vals)],
        1 => vec![(id, vals), other],
        _ => vec![other, (id, vals)],
    }
}

/// Contents at which something could be recognised, trimmed, normalised or padded.
pub fn marks() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = [
        &b"\0"[..], b" ", b"\t", b"\n", b"\r\n", b"\r", b"\"", b"\\", b"%", b"/", b"\0\0", b"\0\0\0\0", b"\x01", b"\x7f", b"\xff", b"\xff\xff\xff\xff", b"\x80", b"\x89PNG\r\n\x1a\n", b"\xff\xd8\xff\xe0\0\x10JFIF\0",
        b"BM\x1e\0\0\0\0\0\0\0\x1a\0\0\0", b"GIF89a", b"RIFF\0\0\0\0WEBP", b"ID3", b"data", b"free", b"\0\0\0\x08data", b"\xff\xfe", b"\xfe\xff",
    ]
    .iter()
    .map(|b| b.to_vec())
    .collect();
    v.extend(["\u{feff}", "\u{fffe}", "\u{fffd}", "\u{85}", "\u{a0}", "\u{2028}", "\u{3000}", "\u{200b}", "\u{301}", "\u{e9}", "\u{1F600}"].iter().map(|s| s.as_bytes().to_vec()));
    v
}

/// Lengths around which something may change.
pub const LENGTHS: [usize; 49] = [
    0, 1, 2, 3, 4, 5, 7, 8, 9, 11, 12, 13, 15, 16, 17, 24, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 254, 255, 256, 257, 400, 511, 512, 513, 600, 1000, 1023, 1024, 1025, 2048, 3000, 4095, 4096, 4097, 8192, 16384, 65536, 70000,
];

/// A content with a mark at some place of a longer one.
pub fn marked_bytes(c: &Ctx, marks: &[Vec<u8>]) -> Vec<u8> {
    let m = c.all_of(marks);
    let n = *c.all_of(&LENGTHS);
    let fill = |n: usize| (0..n).map(|i| b'a' + (i % 26) as u8).collect::<Vec<u8>>();
    match c.all(5) {
        0 => [&m[..], &fill(n)].concat(),
        1 => [&fill(n)[..], m].concat(),
        2 => [&m[..], &fill(n), m].concat(),
        3 => [&fill(n / 2)[..], m, &fill(n - n / 2)].concat(),
        _ => m.repeat(1 + n / m.len()),
    }
}

/// A value, mean or name with a mark.
pub fn marked(c: &Ctx, marks: &[Vec<u8>]) -> Option<Vec<(Id, Vec<Val>)>> {
    let what = c.all(9);
    let b = marked_bytes(c, marks);
    if what < 7 {
        let kind = KINDS[what];
        if kind.is_text() && !utf8_valid(&b) {
            return None;
        }
        let id = if c.all(2) == 0 { Id::fc("\u{a9}lyr") } else { Id::free("org.mp4ameta", "text") };
        return Some(vec![(id, vec![Val::new(kind, &b), Val::s("next")])]);
    }
    let s = String::from_utf8(b).ok()?;
    let id = if what == 7 { Id::Free(s, "name".to_owned()) } else { Id::Free("mean".to_owned(), s) };
    Some(vec![(id, vec![Val::s("value")]), (Id::free("mean", "name"), vec![Val::s("other")])])
}

/// Identifiers that mean something, with values of all kinds and lengths.
pub fn known_ids() -> Vec<Id> {
    let mut v: Vec<Id> = CODES.as_bytes().chunks(5).map(|b| Id::Fc([b[0], b[1], b[2], b[3]])).filter(|i| *i != Id::Fc(*b"free")).collect();
    v.extend(["nam", "ART", "alb", "cmt", "day", "gen", "grp", "lyr", "mvc", "mvi", "mvn", "too", "wrk", "wrt"].iter().map(|s| Id::fc(&format!("\u{a9}{}", s))));
    v.extend(["ISRC", "LYRICIST", "iTunSMPB", "iTunNORM", "cdec"].iter().map(|n| Id::free("com.apple.iTunes", n)));
    v
}

pub fn particular(c: &Ctx, ids: &[Id], marks: &[Vec<u8>]) -> Option<Vec<(Id, Vec<Val>)>> {
    let id = c.all_of(ids).clone();
    let kind = *c.all_of(&KINDS);
    let i = c.all(17 * 4 + marks.len() + 6);
    let b = match i {
        i if i < 17 * 4 => vec![[0, 1, b' ', 0xFF][i / 17]; i % 17],
        i if i < 17 * 4 + marks.len() => marks[i - 17 * 4].clone(),
        i => [&b"2020-02-03T04:05:06Z"[..], b"(17)", b"1/12", b"007", b"https://example.org/?a=b&c=d", b"\0\0\0\x01\0\x02\0\0"][i - 17 * 4 - marks.len()].to_vec(),
    };
    if kind.is_text() && !utf8_valid(&b) {
        return None;
    }
    Some(vec![(id, vec![Val::new(kind, &b)])])
}

// ---------------------------------------------------------------------------------------------
// bytes that say nothing about items and audio

/// A file with all sorts of fields; `d` gives the bytes of those without influence on what is read:
/// any (0), priority of the stream (1), object type of the stream (2).
fn with_fields(d: &dyn Fn(usize) -> u8) -> Vec<Node> {
    let any = |n: usize| vec![d(0); n];
    let mix = |parts: &[&[u8]]| parts.concat();
    let mut mvhd = mvhd_bytes(0, 600, 1501);
    for i in (1..12).chain(20..mvhd.len()) {
        mvhd[i] = d(0);
    }
    let dc = mix(&[&[d(2)], &any(4), &[0, 1, 0, 0, 0, 0, 0x80, 1], &desc(5, 1, &mix(&[&word(2, 4, 2).to_be_bytes()]))]);
    let es = mix(&[&any(2), &[d(1)], &desc(0x0E, 1, &any(2)), &desc(4, 2, &dc), &desc(6, 1, &any(1))]);
    let esds = mix(&[&[0], &any(3), &desc(3, 4, &es)]);
    let entry = full("mp4a", &mix(&[&any(8), &[0, 0], &any(18)]), vec![leaf("chan", &any(3)), leaf("esds", &esds), leaf("btrt", &any(12))]);
    let table = Node { cc: *b"stco", ext: false, body: Body::Flagged([d(0); 3], false, vec![Target::Media(0, 0), Target::Media(0, 39)]) };
    let value = |code: u8, b: &[u8]| leaf("data", &mix(&[&[0, 0, 0, code], &any(4), b]));
    let track = kids(
        "trak",
        vec![
            leaf("tkhd", &mix(&[&[0], &any(83)])),
            kids(
                "mdia",
                vec![
                    leaf("mdhd", &mix(&[&[0], &any(23)])),
                    leaf("hdlr", &mix(&[&[0], &any(24)])),
                    kids(
                        "minf",
                        vec![
                            leaf("smhd", &mix(&[&[0], &any(7)])),
                            leaf("dinf", &any(12)),
                            kids("stbl", vec![full("stsd", &mix(&[&[0], &any(3), &[0, 0, 0, 1]]), vec![entry]), leaf("stts", &mix(&[&[0], &any(7)])), table]),
                        ],
                    ),
                ],
            ),
        ],
    );
    let items = kids(
        "ilst",
        vec![
            kids("\u{a9}nam", vec![value(1, b"title"), leaf("abcd", &any(4)), value(2, &[0, b'x'])]),
            leaf("free", &any(3)),
            kids("----", vec![leaf("mean", &mix(&[&[0], &any(3), b"mean"])), leaf("name", &mix(&[&[0], &any(3), b"name"])), value(0, &[1])]),
        ],
    );
    let m = full("meta", &mix(&[&[0], &any(3)]), vec![leaf("hdlr", &mix(&[&[0], &any(24)])), leaf("free", &any(3)), items, leaf("xml ", &any(4))]);
    vec![
        leaf("ftyp", FTYP.as_bytes()),
        leaf("free", &any(5)),
        kids("moov", vec![leaf("mvhd", &mvhd), leaf("iods", &any(6)), track, kids("udta", vec![leaf("chpl", &any(5)), m, leaf("name", &any(4))])]),
        leaf("mdat", &any(40)),
        leaf("uuid", &any(20)),
    ]
}

/// A file, and which of its bytes may have which values without a difference to what is read.
pub struct Neutral {
    pub layout: Layout,
    pub bytes: Vec<u8>,
    pub free: Vec<usize>,
    limited: Vec<(usize, Vec<u8>)>,
}

pub fn neutral() -> Neutral {
    let base = bytes_of(&with_fields(&|k| [0, 0, 0x40][k]));
    let differ = |kind: usize| -> Vec<usize> {
        let b = bytes_of(&with_fields(&|k| if k == kind { 1 } else { [0, 0, 0x40][k] }));
        (0..b.len()).filter(|i| b[*i] != base[*i]).collect()
    };
    let mut limited: Vec<(usize, Vec<u8>)> = differ(1).into_iter().map(|p| (p, (0..32).collect())).collect();
    limited.extend(differ(2).into_iter().map(|p| (p, (0..=255).collect())));
    let items = vec![(Id::fc("\u{a9}nam"), vec![Val::s("title"), Val::s16("x")]), (Id::free("mean", "name"), vec![Val::new(Kind::Reserved, &[1])])];
    let audio = Audio { rates: Some((0x0001_0000, 0x8001)), freq: Some(4), chan: Some(2) };
    let layout = Layout {
        nodes: with_fields(&|k| [0, 0, 0x40][k]),
        items: map_of(&items),
        info: Info { mvhd: Some((600, 1501)), audio: Some(audio) },
        ftyp: FTYP.to_owned(),
    };
    Neutral { layout, free: differ(0), bytes: base, limited }
}

impl Neutral {
    /// One of the bytes, or two adjacent ones (where the run isn't longer than `run`), changed to anything.
    pub fn vary(&self, c: &Ctx, run: usize, mut check: impl FnMut(&[u8]) -> Result<(), String>) -> Result<(), String> {
        let run_of = |p: usize| {
            let up = (p..).take_while(|q| self.free.binary_search(q).is_ok()).count();
            let down = (0..p).rev().take_while(|q| self.free.binary_search(q).is_ok()).count();
            up + down
        };
        let adjacent: Vec<usize> = self.free.iter().copied().filter(|p| self.free.binary_search(&(p + 1)).is_ok() && run_of(*p) <= run).collect();
        let i = c.all(self.free.len() + self.limited.len() + adjacent.len());
        let mut b = self.bytes.clone();
        let all: Vec<u8> = (0..=255).collect();
        let (at, values) = if i < self.free.len() {
            (self.free[i], &all)
        } else if i < self.free.len() + self.limited.len() {
            let (p, v) = &self.limited[i - self.free.len()];
            (*p, v)
        } else {
            let p = adjacent[i - self.free.len() - self.limited.len()];
            b[p] = c.all(256) as u8;
            (p + 1, &all)
        };
        c.state(&(i, b[at.max(1) - 1]));
        for v in values {
            b[at] = *v;
            c.step(1);
            check(&b).map_err(|e| format!("with bytes {:02x?} at {}: {}", &b[at.max(1) - 1..=at], at.max(1) - 1, e))?;
        }
        Ok(())
    }
}
