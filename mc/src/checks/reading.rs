//! C15, C19: audio information and error reports.

use mp4ameta::AudioInfo;

use super::*;
use crate::mp4::*;

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C15",
        level: "model_checking",
        technique: "bounded exhaustive enumeration of movie headers, descriptors and track arrangements on the real reader (and writer), an independent decoder as oracle",
        note: "All 65536 leading words of the audio configuration (with following bytes for the escaped forms), the full product of descriptor length encodings and extra descriptors, all pairs of boundary values of the numbers, every sequence of track kinds up to a length, and file layouts with up to N deviations, before and after writing tags.",
        rule: "an execution reads one enumerated file (suites that write: writes a tag and reads again); states are the distinct files",
        assumptions: &["durations of all one bits (undetermined) are left out", "explicitly stored frequencies (index 15) count as not known"],
        run: c15,
    }, Check {
        id: "C19",
        level: "model_checking",
        technique: "exhaustive enumeration of single-cause corruptions of files in all layouts within a bound on the real reader and writer, compared with the documented error of that cause",
        note: "Every version byte, type code, text, length, identifier and descriptor the reader (or writer) relies on is corrupted alone, at every place it occurs, with all values (versions, descriptor tags, short lengths) or all boundary values, in every layout with up to N deviations; the reported error kind and the value it carries are compared. Intact layouts have to be accepted, every truncation has to be told.",
        rule: "an execution reads and writes one file with a single enumerated corruption; states are the distinct files",
        assumptions: &["a corruption whose effect on the structure is ambiguous (a length that is wrong but plausible) is left to C04 to C06", "where a premature end also contradicts an enclosing length either error is accepted"],
        run: c19,
    }]
}

fn same_info(what: &str, t: &Tag, want: &AudioInfo) -> Verdict {
    let i = t.audio_info();
    ensure!(i == want, "{}: audio information is {:?}, the file declares {:?}", what, i, want);
    let each = (t.duration(), t.channel_config(), t.sample_rate(), t.max_bitrate(), t.avg_bitrate());
    let same = (want.duration, want.channel_config, want.sample_rate, want.max_bitrate, want.avg_bitrate);
    ensure!(each == same, "{}: single getters return {:?}, the file declares {:?}", what, each, want);
    Ok(())
}

/// A file with the given movie header and tracks.
fn movie(mvhd: Option<Node>, traks: Vec<Node>, order: usize) -> Vec<Node> {
    let udta = kids("udta", vec![meta(vec![hdlr(b"mdir"), ilst_of(&tag_items(3))])]);
    let mut m = Vec::new();
    match order {
        0 => {
            m.extend(mvhd);
            m.extend(traks);
            m.push(udta);
        }
        1 => {
            m.push(udta);
            m.extend(traks);
            m.extend(mvhd);
        }
        _ => {
            m.extend(traks);
            m.push(udta);
            m.extend(mvhd);
        }
    }
    vec![leaf("ftyp", b"isom"), kids("moov", m), mdat(16, 1)]
}

fn audio_trak(e: &Esds) -> Node {
    trak(vec![stsd(vec![mp4a(e.bytes())]), Node { cc: *b"stco", ext: false, body: Body::Stco(vec![Target::Media(0, 3)]) }])
}

fn header() -> (Node, (u32, u64)) {
    (leaf("mvhd", &mvhd_bytes(0, 600, 1501)), (600, 1501))
}

/// Writes tags and reads the audio information after each.
fn unchanged_by_writing(b: &[u8], want: &AudioInfo, ftyp: &str, tags: &[usize]) -> Verdict {
    with_file(b, |f| {
        for n in tags {
            must_write("write_to", &tag_n(*n).0, f)?;
            let t = must_read("read after write", &sys::contents(f))?;
            same_info("after writing", &t, want)?;
            ensure!(t.filetype() == ftyp, "file type {:?} after writing, {:?} stored", t.filetype(), ftyp);
        }
        Ok(())
    })
}

const NUMBERS: [u32; 17] = [
    0, 1, 0x7F, 0x80, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFF, 0x1_0000, 0xFF_FFFF, 0x100_0000, 0x7FFF_FFFF, 0x8000_0000, 0x1234_5678, 0xFFFF_FFFE, 0xFFFF_FFFF,
];

fn c15(run: &mut Run) {
    let (h, d) = header();
    let write_tags: &[usize] = run.tiered(&[0, 1], &[0, 1, 5, 6, 7]);

    // every leading word, with some bytes after it
    let tails: &[&[u8]] = run.tiered(&[&[], &[0; 5], &[0x55, 0xAA, 0x5A, 0xA5, 0x55, 0xAA]], &[&[], &[0], &[0xFF, 1], &[0; 5], &[0xFF; 7], &[0x12, 0x34, 0x56, 0x78, 0x9A, 0xBC], &[0x55, 0xAA, 0x5A, 0xA5, 0x55, 0xAA]]);
    run.explore("words", 0, |c| {
        let w = c.all(65536) as u16;
        let tail = c.all_of(tails);
        let e = Esds { word: Some(w), word_tail: tail.to_vec(), ..Esds::default() };
        let b = bytes_of(&movie(Some(h.clone()), vec![audio_trak(&e)], 0));
        c.state(&b);
        c.sample(|| format!("configuration {:04x} {:02x?}: {:?}", w, tail, e.audio()));
        let want = Info { mvhd: Some(d), audio: Some(e.audio()) }.expected();
        same_info("read", &must_read("read", &b)?, &want)
    });

    // the four channel bits of escaped forms, at every position they can have
    run.explore("escaped", 0, |c| {
        let object = c.all(64) as u64;
        let escaped = c.all(2) == 1;
        let freq = c.all(16) as u64;
        let rate = *c.all_of(&[0u64, 44100, 0xFF_FFFF]);
        let chan = c.all(16) as u64;
        let cut = c.all(3);
        let mut bits = 0u64;
        let mut n = 0;
        let mut put = |v: u64, k: u32| {
            bits = bits << k | v;
            n += k;
        };
        if escaped {
            put(31, 5);
            put(object, 6);
        } else {
            put(object % 31, 5);
        }
        put(freq, 4);
        if freq == 15 {
            put(rate, 24);
        }
        put(chan, 4);
        let mut b: Vec<u8> = (bits << (64 - n)).to_be_bytes()[..(n as usize + 7) / 8].to_vec();
        match cut {
            0 => (),
            1 => b.extend([0xA7; 3]),
            // not enough bits
            _ => {
                if b.len() > 2 {
                    b.pop();
                }
            }
        }
        let e = Esds { word: Some(u16::from_be_bytes([b[0], b[1]])), word_tail: b[2..].to_vec(), ..Esds::default() };
        let bytes = bytes_of(&movie(Some(h.clone()), vec![audio_trak(&e)], 0));
        c.state(&bytes);
        let want = Info { mvhd: Some(d), audio: Some(e.audio()) }.expected();
        same_info("read", &must_read("read", &bytes)?, &want)
    });

    // length encodings and further descriptors
    run.explore("descriptors", 0, |c| {
        let n = [0; 4].map(|_| 1 + c.all(4));
        let tail = *c.all_of(&[0usize, 3, 125, 126, 127, 16381, 16382]);
        if tail + 2 >= 1 << (7 * n[2]) {
            return Ok(());
        }
        let mut e = Esds {
            n,
            word: Some(word(2, 8, 6)),
            word_tail: (0..tail).map(|i| i as u8).collect(),
            max: 0x0102_0304,
            avg: 0xA0B0_C0D0,
            config: c.all(2) == 0,
            before_config: c.all(2) == 1,
            before_specific: c.all(2) == 1,
            sl: c.all(2) == 0,
        };
        if c.all(2) == 1 {
            e.word = None;
        }
        // lengths that the outer descriptors can't express with that many bytes
        let inner = if e.word.is_some() { 1 + n[2] + 2 + tail } else { 0 };
        let dc = 13 + inner + if e.before_specific { 1 + n[2] + 3 } else { 0 };
        let es = 3 + if e.config { 1 + n[1] + dc } else { 0 } + if e.before_config { 1 + n[3] + 3 } else { 0 } + if e.sl { 1 + n[3] + 1 } else { 0 };
        if dc >= 1 << (7 * n[1]) || es >= 1 << (7 * n[0]) {
            return Ok(());
        }
        c.label("described");
        let b = bytes_of(&movie(Some(h.clone()), vec![audio_trak(&e)], 0));
        c.state(&b);
        c.sample(|| format!("lengths in {:?} bytes, {} bytes of configuration", n, 2 + tail));
        let want = Info { mvhd: Some(d), audio: Some(e.audio()) }.expected();
        same_info("read", &must_read("read", &b)?, &want)?;
        if tail < 200 {
            unchanged_by_writing(&b, &want, "isom", &write_tags[..1])?;
        }
        Ok(())
    });

    run.explore("bitrates", 0, |c| {
        let (max, avg) = (*c.all_of(&NUMBERS), *c.all_of(&NUMBERS));
        let e = Esds { max, avg, ..Esds::default() };
        let b = bytes_of(&movie(Some(h.clone()), vec![audio_trak(&e)], 0));
        c.state(&b);
        let want = Info { mvhd: Some(d), audio: Some(e.audio()) }.expected();
        same_info("read", &must_read("read", &b)?, &want)?;
        unchanged_by_writing(&b, &want, "isom", write_tags)
    });

    // every bit of the numbers, and all pairs of boundaries
    let scales: Vec<u32> = (0..32).map(|i| 1 << i).chain(NUMBERS.iter().copied().filter(|n| *n > 0)).chain([600, 1000, 44100, 48000, 90000, 999_999_999, 1_000_000_000, 1_000_000_001]).collect();
    let mut durs: Vec<u64> = (0..64).map(|i| 1 << i).chain(NUMBERS.iter().map(|n| *n as u64)).collect();
    durs.extend([3, 599, 600, 601, 44099, 44101, 0xFFFF_FFFF - 1, 0x1_0000_0000, 0x1_0000_0001, 18_446_744_073, 18_446_744_074, 18_446_744_073_709, i64::MAX as u64, u64::MAX - 1]);
    run.explore("durations", 0, |c| {
        let version = c.all(2) as u8;
        let (scale, dur) = (*c.all_of(&scales), *c.all_of(&durs));
        if version == 0 && dur >= 0xFFFF_FFFF {
            return Ok(());
        }
        let rest = c.all(3);
        let times = *c.all_of(&[0u8, 0xFF, 1]);
        let mut b = mvhd_bytes(version, scale, dur);
        let n = if version == 0 { 8 } else { 16 };
        b[4..4 + n].fill(times);
        match rest {
            0 => (),
            1 => b.truncate(n + if version == 0 { 12 } else { 16 }),
            _ => b.extend([0xFF; 9]),
        }
        c.label("declared");
        let b = bytes_of(&movie(Some(leaf("mvhd", &b)), vec![], 0));
        c.state(&b);
        c.sample(|| format!("version {} scale {} duration {}", version, scale, dur));
        let want = Info { mvhd: Some((scale, dur)), audio: None }.expected();
        same_info("read", &must_read("read", &b)?, &want)
    });

    // sequences of tracks
    let n = run.tiered(5, 6);
    run.explore("tracks", 0, |c| {
        let len = c.all(n + 1);
        let mut audio = None;
        let mut traks = Vec::new();
        let a = Esds::default();
        let b = Esds { word: Some(word(5, 11, 1)), max: 1, avg: 2, n: [4; 4], ..Esds::default() };
        // without a configuration, with unknown numbers
        let none = Esds { config: false, ..Esds::default() };
        let bare = Esds { word: None, max: 7, avg: 8, ..Esds::default() };
        let odd = Esds { word: Some(word(2, 13, 0)), max: 9, avg: 10, ..Esds::default() };
        for _ in 0..len {
            let mut with = |e: &Esds| {
                audio.get_or_insert(e.audio());
                audio_trak(e)
            };
            let t = match c.all(12) {
                0 => with(&a),
                1 => with(&b),
                2 => with(&none),
                3 => with(&bare),
                4 => with(&odd),
                5 => kids("trak", vec![]),
                6 => kids("trak", vec![leaf("tkhd", &[1; 8]), kids("mdia", vec![])]),
                7 => kids("trak", vec![kids("mdia", vec![kids("minf", vec![])])]),
                8 => trak(vec![]),
                9 => trak(vec![stsd(vec![])]),
                10 => trak(vec![stsd(vec![leaf("avc1", &[6; 40])])]),
                // a sample description outside of the sample table
                _ => kids("trak", vec![stsd(vec![mp4a(b.bytes())]), kids("mdia", vec![stsd(vec![mp4a(b.bytes())]), kids("minf", vec![stsd(vec![mp4a(b.bytes())])])])]),
            };
            traks.push(t);
        }
        let order = c.all(3);
        let head = c.all(2) == 0;
        let f = bytes_of(&movie(if head { Some(h.clone()) } else { None }, traks, order));
        c.state(&f);
        let want = Info { mvhd: if head { Some(d) } else { None }, audio }.expected();
        same_info("read", &must_read("read", &f)?, &want)?;
        if len < 3 {
            unchanged_by_writing(&f, &want, "isom", write_tags)?;
        }
        Ok(())
    });

    // what surrounds the stream description
    let n = run.tiered(4, 5);
    run.explore("around the stream description", 0, |c| {
        let e = Esds { n: [[1; 4], [4; 4]][c.all(2)], ..Esds::default() };
        let other = |k: usize| match k {
            0 => filler(0),
            1 => filler(9),
            2 => leaf("btrt", &[7; 12]),
            3 => filler(3).ext(true),
            // another one further down is not the one of the track
            4 => kids("wave", vec![leaf("frma", b"mp4a"), leaf("esds", &Esds { word: Some(word(2, 1, 1)), max: 9, avg: 8, ..Esds::default() }.bytes())]),
            5 => leaf("esdt", &Esds { word: Some(word(2, 1, 1)), max: 9, avg: 8, ..Esds::default() }.bytes()),
            6 => leaf("\0\0\0\0", &[]),
            _ => leaf("mp4a", &[0; 4]),
        };
        let mut entry = mp4a(e.bytes());
        let k = entry.kids_mut();
        k[0].ext = c.all(2) == 1;
        for _ in 0..c.all(n + 1) {
            k.insert(0, other(c.all(8)));
        }
        for _ in 0..c.all(3) {
            k.push(other(c.all(8)));
        }
        let t = trak(vec![stsd(vec![entry])]);
        let f = bytes_of(&movie(Some(h.clone()), vec![t], c.all(2)));
        c.state(&f);
        let want = Info { mvhd: Some(d), audio: Some(e.audio()) }.expected();
        same_info("read", &must_read("read", &f)?, &want)
    });

    let v = counts(run.tiered(12, 70), run.thorough());
    let v = &v;
    run.explore("many of everything", 0, |c| {
        let l = any_crowd(c, v);
        let b = bytes_of(&l.nodes);
        c.state(&b);
        let want = l.info.expected();
        same_info("read", &must_read("read", &b)?, &want)?;
        unchanged_by_writing(&b, &want, &l.ftyp, &[0])
    });

    run.explore("files of any length", 0, |c| {
        let (l, what) = vast(c, VAST_PLACES);
        c.step(1);
        c.state(&what);
        c.sample(|| what.clone());
        same_info("read", &super::files::read_long("read", &encode(&l.nodes).to_file())?, &l.info.expected())
    });

    let n = neutral();
    let pairs = run.tiered(30, usize::MAX);
    let neutral_info = n.layout.info.expected();
    run.explore("bytes without meaning", 0, |c| n.vary(c, pairs, |b| same_info("read", &must_read("read", b)?, &neutral_info)));
    run.explore("misplaced atoms", 0, |c| {
        let (l, what) = misplaced(c);
        let b = bytes_of(&l.nodes);
        c.state(&b);
        c.sample(|| what.clone());
        let want = l.info.expected();
        same_info("read", &must_read("read", &b)?, &want)?;
        unchanged_by_writing(&b, &want, &l.ftyp, &[0])
    });

    // file layouts
    let bound = run.tiered(3, 4);
    run.explore("layouts", bound, |c| {
        let l = layout(c, EVERYTHING);
        let tag = c.pick(N_TAGS);
        let b = bytes_of(&l.nodes);
        c.state(&b);
        c.sample(|| format!("{:?}", l.info));
        let want = l.info.expected();
        let t = must_read("read", &b)?;
        same_info("read", &t, &want)?;
        ensure!(t.filetype() == l.ftyp, "file type {:?} read, {:?} stored", t.filetype(), l.ftyp);
        unchanged_by_writing(&b, &want, &l.ftyp, &[tag])
    });
}

// ---------------------------------------------------------------------------------------------
// C19

/// The documented error of a corruption.
#[derive(Clone, Debug, PartialEq)]
enum Want {
    NoTag,
    Missing([u8; 4]),
    Descriptor(u8),
    Version(u8),
    DataType(u32),
    Parsing,
    Utf8,
    Utf16,
    Eof,
}

fn is(e: &Error, w: &Want) -> bool {
    match (&e.kind, w) {
        (ErrorKind::NoTag, Want::NoTag) => true,
        (ErrorKind::AtomNotFound(f), Want::Missing(c)) => f.0 == *c,
        (ErrorKind::DescriptorNotFound(n), Want::Descriptor(m)) => n == m,
        (ErrorKind::UnknownVersion(n), Want::Version(m)) => n == m,
        (ErrorKind::UnknownDataType(n), Want::DataType(m)) => n == m,
        (ErrorKind::Parsing, Want::Parsing) => true,
        (ErrorKind::Utf8StringDecoding(_), Want::Utf8) => true,
        (ErrorKind::Utf16StringDecoding(_), Want::Utf16) => true,
        (ErrorKind::Io(e), Want::Eof) => e.kind() == std::io::ErrorKind::UnexpectedEof,
        _ => false,
    }
}

fn must_report<T>(what: &str, r: R<T>, want: &[Want]) -> Verdict {
    match r {
        Ok(_) => Err(format!("{} succeeded, expected {:?}", what, want)),
        Err(e) => {
            ensure!(want.iter().any(|w| is(&e, w)), "{} reports {:?} ({}), expected {:?}", what, e.kind, e.description, want);
            Ok(())
        }
    }
}

/// What reading the bytes has to report, and writing onto them if `writer`.
fn reports(b: &[u8], want: &[Want], writer: bool) -> Verdict {
    must_report("read", read_bytes("read", b)?, want)?;
    if writer {
        writer_reports(b, want)?;
    }
    Ok(())
}

fn writer_reports(b: &[u8], want: &[Want]) -> Verdict {
    must_report("write", written("write", &tag_n(12).0, b)?, want)
}

/// An atom the reader looks at.
#[derive(Clone, Debug)]
struct Site {
    path: String,
    cc: [u8; 4],
    pos: usize,
    head: usize,
    len: usize,
    left: usize,
    /// the writer looks at it, too
    writer: bool,
}

impl Site {
    fn payload(&self) -> usize {
        self.pos + self.head
    }
    fn is(&self, path: &str) -> bool {
        self.path == path
    }
}

fn sites(b: &[u8]) -> Result<Vec<Site>, String> {
    fn walk(b: &[u8], at: &[P], end: usize, path: &str, out: &mut Vec<Site>) {
        for p in at {
            let name = format!("{}/{}", path, p.name());
            let s = Site {
                path: name.clone(),
                cc: p.cc,
                pos: p.pos as usize,
                head: p.head as usize,
                len: p.len as usize,
                left: end - p.pos as usize,
                writer: !path.contains("/ilst") && !path.contains("/stsd"),
            };
            let stop = s.pos + s.len;
            let inner = s.payload();
            out.push(s);
            match &p.kids {
                Some(k) => walk(b, k, stop, &name, out),
                None => {
                    let skip = match &*name {
                        "/moov/trak/mdia/minf/stbl/stsd" => 8,
                        "/moov/trak/mdia/minf/stbl/stsd/mp4a" => 28,
                        _ => continue,
                    };
                    let mut sub = Vec::new();
                    let mut pos = inner + skip;
                    while pos + 8 <= stop {
                        let l = u32::from_be_bytes(b[pos..pos + 4].try_into().unwrap()) as usize;
                        let (head, len) = if l == 1 { (16, u64::from_be_bytes(b[pos + 8..pos + 16].try_into().unwrap()) as usize) } else { (8, l) };
                        sub.push(P { cc: b[pos + 4..pos + 8].try_into().unwrap(), pos: pos as u64, head, len: len as u64, prefix: Vec::new(), kids: None });
                        // what follows the stream description isn't of interest
                        if name.ends_with("/mp4a") && sub[sub.len() - 1].cc == *b"esds" {
                            break;
                        }
                        pos += len;
                    }
                    walk(b, &sub, stop, &name, out);
                }
            }
        }
    }
    let p = parse(b)?;
    let mut v = Vec::new();
    walk(b, &p, b.len(), "", &mut v);
    Ok(v)
}

const STSD: &str = "/moov/trak/mdia/minf/stbl/stsd";
const MP4A: &str = "/moov/trak/mdia/minf/stbl/stsd/mp4a";
const ESDS: &str = "/moov/trak/mdia/minf/stbl/stsd/mp4a/esds";
const META: &str = "/moov/udta/meta";

fn in_item(s: &Site) -> Option<&'static str> {
    let rest = s.path.strip_prefix("/moov/udta/meta/ilst/")?;
    // identifiers may contain any character but have four
    let n = rest.chars().count();
    if n != 9 || rest.starts_with("free/") {
        return None;
    }
    Some(match &s.cc {
        b"data" => "data",
        b"mean" => "mean",
        b"name" => "name",
        _ => return None,
    })
}

fn is_item(s: &Site) -> bool {
    s.path.strip_prefix("/moov/udta/meta/ilst/").map_or(false, |r| r.chars().count() == 4 && r != "free")
}

fn put32(b: &mut [u8], pos: usize, v: u32) {
    b[pos..pos + 4].copy_from_slice(&v.to_be_bytes());
}

fn put64(b: &mut [u8], pos: usize, v: u64) {
    b[pos..pos + 8].copy_from_slice(&v.to_be_bytes());
}

/// Not valid as UTF-8, wherever it is inserted between characters.
const BAD_TEXT: [&[u8]; 12] = [
    &[0xFF],
    &[0x80],
    &[0xC0, 0x80],
    &[0xC1, 0xBF],
    &[0xE0, 0x80, 0x80],
    &[0xED, 0xA0, 0x80],
    &[0xED, 0xBF, 0xBF],
    &[0xF0, 0x80, 0x80, 0x80],
    &[0xF4, 0x90, 0x80, 0x80],
    &[0xF5, 0x80, 0x80, 0x80],
    &[0xE2, 0x82],
    &[0xF0, 0x9F, 0x98],
];

const BAD_UNITS: [&[u16]; 6] = [&[0xD800], &[0xDC00], &[0xDBFF, 0x41], &[0xDFFF, 0xD800], &[0xD83D, 0xD83D], &[0x41, 0xDE00]];

/// One family of corruptions: the choices and the expected error.
type Corruption = fn(&Ctx, &[u8], &[Site]) -> Result<Option<(Vec<u8>, Vec<Want>, bool, bool)>, String>;

fn some_site<'a>(c: &Ctx, v: &'a [Site], f: impl Fn(&Site) -> bool) -> Option<&'a Site> {
    let v: Vec<&Site> = v.iter().filter(|s| f(s)).collect();
    if v.is_empty() {
        return None;
    }
    Some(v[c.all(v.len())])
}

// each returns (bytes, expected, read reports it, write reports it)

/// Whether there is media whose offsets have to be adjusted.
fn moving(v: &[Site]) -> bool {
    let moov = v.iter().find(|s| s.is("/moov")).map_or(0, |s| s.pos);
    v.iter().any(|s| s.is("/mdat") && s.pos > moov)
}

fn versions(c: &Ctx, b: &[u8], v: &[Site]) -> Result<Option<(Vec<u8>, Vec<Want>, bool, bool)>, String> {
    let tables = ["/moov/trak/mdia/minf/stbl/stco", "/moov/trak/mdia/minf/stbl/co64"];
    let s = some_site(c, v, |s| s.is("/moov/mvhd") || s.is(STSD) || s.is(ESDS) || s.is(META) || tables.contains(&&*s.path) || in_item(s).is_some());
    let Some(s) = s else { return Ok(None) };
    let first = if s.is("/moov/mvhd") { 2 } else { 1 };
    let ver = first + c.all(256 - first);
    let mut n = b.to_vec();
    n[s.payload()] = ver as u8;
    let table = tables.contains(&&*s.path);
    Ok(Some((n, vec![Want::Version(ver as u8)], !table, (table && moving(v)) || s.is(META))))
}

fn types(c: &Ctx, b: &[u8], v: &[Site]) -> Result<Option<(Vec<u8>, Vec<Want>, bool, bool)>, String> {
    let Some(s) = some_site(c, v, |s| in_item(s) == Some("data")) else { return Ok(None) };
    let n = c.all(300 + 24 * 3);
    let code = if n < 300 { n as u32 } else { (1u32 << ((n - 300) / 3)).wrapping_add(((n - 300) % 3) as u32).wrapping_sub(1) };
    if code >= 1 << 24 || KINDS.iter().any(|k| k.code() == code) {
        return Ok(None);
    }
    let mut o = b.to_vec();
    put32(&mut o, s.payload(), code);
    Ok(Some((o, vec![Want::DataType(code)], true, false)))
}

fn lengths(c: &Ctx, b: &[u8], v: &[Site]) -> Result<Option<(Vec<u8>, Vec<Want>, bool, bool)>, String> {
    // tracks may contain metadata of their own, which isn't looked at; what follows the movie isn't either
    let moov = v.iter().find(|s| s.is("/moov")).map_or(0, |s| s.pos);
    let Some(s) = some_site(c, v, |s| !s.path.starts_with("/moov/trak/udta") && (s.path.starts_with("/moov") || s.pos < moov)) else { return Ok(None) };
    if s.is("/ftyp") {
        // text of another length may end within a character
        let k = c.all(7);
        let mut o = b.to_vec();
        let ext = s.head == 16;
        match (ext, k) {
            (false, 0..=5) => put32(&mut o, 0, [0u32, 2, 3, 4, 6, 7][k]),
            (true, 0..=5) => put64(&mut o, 8, [0u64, 1, 8, 15, 1 << 63, u64::MAX][k]),
            (false, _) => {
                put32(&mut o, 0, u32::MAX);
                return Ok(Some((o, vec![Want::Parsing, Want::Eof], true, true)));
            }
            (true, _) => {
                put64(&mut o, 8, i64::MAX as u64);
                return Ok(Some((o, vec![Want::Parsing, Want::Eof], true, true)));
            }
        }
        return Ok(Some((o, vec![Want::Parsing], true, true)));
    }
    let top = s.path.matches('/').count() == 1;
    let mut o = b.to_vec();
    let mut want = vec![Want::Parsing];
    if s.head == 16 {
        let k = c.all(16 + 7);
        let left = s.left as u64;
        let val = if k < 16 { k as u64 } else { [1 << 63, u64::MAX, u64::MAX - 7, left + 1, left + 8, 1 << 32, i64::MAX as u64][k - 16] };
        if (16..1 << 63).contains(&val) && top {
            want = vec![Want::Parsing, Want::Eof, Want::Missing(*b"moov")];
        }
        put64(&mut o, s.pos + 8, val);
    } else {
        let k = c.all(7 + 5);
        let left = s.left as u32;
        // a length of zero means up to the end of the file, which isn't supported anywhere
        let val = if k < 6 { [0u32, 2, 3, 4, 5, 7][k] } else { [6, left + 1, left + 7, left * 2 + 8, 0x8000_0000, u32::MAX][k - 6] };
        if val >= 8 && top {
            want = vec![Want::Parsing, Want::Eof, Want::Missing(*b"moov")];
        }
        if val == 0 && top {
            return Ok(None);
        }
        put32(&mut o, s.pos, val);
    }
    // a top level atom exceeding the file may be skipped by the writer if the movie was found
    let writer = s.writer && !(top && want.len() > 1);
    Ok(Some((o, want, true, writer)))
}

/// Content that is too short for what it has to contain.
fn short(c: &Ctx, b: &[u8], v: &[Site]) -> Result<Option<(Vec<u8>, Vec<Want>, bool, bool)>, String> {
    let Some(s) = some_site(c, v, |s| s.is("/moov/mvhd") || s.is(STSD) || s.is(ESDS) || s.is(MP4A) || s.is(META) || in_item(s).is_some()) else { return Ok(None) };
    let (most, want): (usize, Vec<Want>) = if s.is("/moov/mvhd") {
        (if b[s.payload()] == 0 { 20 } else { 32 }, vec![Want::Parsing, Want::Eof])
    } else if s.is(STSD) {
        (8, vec![Want::Parsing])
    } else if s.is(MP4A) {
        (28 + 1, vec![Want::Parsing, Want::Missing(*b"esds")])
    } else if s.is(ESDS) {
        (4 + 2, vec![Want::Parsing])
    } else if s.is(META) {
        (4, vec![Want::Parsing])
    } else if s.cc == *b"data" {
        (8, vec![Want::Parsing])
    } else {
        (4, vec![Want::Parsing])
    };
    let k = c.all(most);
    let mut o = b.to_vec();
    if s.head == 16 {
        put64(&mut o, s.pos + 8, 16 + k as u64);
    } else {
        put32(&mut o, s.pos, 8 + k as u32);
    }
    Ok(Some((o, want, true, s.is(META))))
}

/// Missing or misnamed atoms and descriptors.
fn missing(c: &Ctx, b: &[u8], v: &[Site]) -> Result<Option<(Vec<u8>, Vec<Want>, bool, bool)>, String> {
    let other = |c: &Ctx, cc: [u8; 4]| -> [u8; 4] {
        let k = c.all(8);
        let mut n = cc;
        match k {
            0..=3 => n[k] ^= 0x20,
            4 => n = *b"free",
            5 => n = [0; 4],
            6 => n.reverse(),
            _ => n = [0xFF; 4],
        }
        n
    };
    let mut o = b.to_vec();
    match c.all(5) {
        0 => {
            let n = other(c, *b"ftyp");
            o[4..8].copy_from_slice(&n);
            Ok(Some((o, vec![Want::NoTag], true, true)))
        }
        1 => {
            let n = other(c, *b"moov");
            for s in v.iter().filter(|s| s.is("/moov")) {
                o[s.pos + 4..s.pos + 8].copy_from_slice(&n);
            }
            Ok(Some((o, vec![Want::Missing(*b"moov")], true, true)))
        }
        2 => {
            let Some(s) = some_site(c, v, |s| s.is(ESDS)) else { return Ok(None) };
            let n = other(c, *b"esds");
            o[s.pos + 4..s.pos + 8].copy_from_slice(&n);
            Ok(Some((o, vec![Want::Missing(*b"esds")], true, false)))
        }
        3 => {
            // all values of one item
            let Some(item) = some_site(c, v, is_item) else { return Ok(None) };
            let n = other(c, *b"data");
            for s in v.iter().filter(|s| in_item(s) == Some("data") && s.pos > item.pos && s.pos < item.pos + item.len) {
                o[s.pos + 4..s.pos + 8].copy_from_slice(&n);
            }
            Ok(Some((o, vec![Want::Missing(*b"data")], true, false)))
        }
        _ => {
            let Some(s) = some_site(c, v, |s| s.is(ESDS)) else { return Ok(None) };
            let tag = c.all(256);
            if tag == 3 {
                return Ok(None);
            }
            o[s.payload() + 4] = tag as u8;
            Ok(Some((o, vec![Want::Descriptor(3)], true, false)))
        }
    }
}

/// Text that can't be decoded, in files built anew.
fn texts(c: &Ctx, nodes: &mut [Node]) -> Result<Option<(Vec<Want>, bool)>, String> {
    fn find<'a>(nodes: &'a mut [Node], path: &[&[u8; 4]]) -> Option<&'a mut Node> {
        let n = nodes.iter_mut().find(|n| n.cc == *path[0])?;
        match path.len() {
            1 => Some(n),
            _ => match &mut n.body {
                Body::Kids(_, k) => find(k, &path[1..]),
                _ => None,
            },
        }
    }
    /// Inserts between characters.
    fn insert(c: &Ctx, b: &mut Vec<u8>, from: usize, bad: &[u8]) {
        let places: Vec<usize> = (from..=b.len()).filter(|p| *p == b.len() || b[*p] & 0xC0 != 0x80).collect();
        let pick = [0, places.len() / 2, places.len() - 1];
        let mut p = places[pick[c.all(3)]];
        // an unfinished character must not be completed by what follows
        if bad.len() > 1 && p < b.len() && b[p] & 0xC0 == 0x80 {
            p = b.len();
        }
        b.splice(p..p, bad.iter().copied());
    }
    if c.all(2) == 0 {
        let bad = *c.all_of(&BAD_TEXT);
        if let Body::Leaf(b) = &mut nodes[0].body {
            insert(c, b, 0, bad);
        }
        return Ok(Some((vec![Want::Utf8], true)));
    }
    let Some(ilst) = find(nodes, &[b"moov", b"udta", b"meta", b"ilst"]) else { return Ok(None) };
    let mut texts: Vec<(&mut Vec<u8>, usize, bool)> = Vec::new();
    for item in ilst.kids_mut() {
        if item.cc == *b"free" {
            continue;
        }
        if let Body::Kids(_, k) = &mut item.body {
            for a in k {
                if let Body::Leaf(b) = &mut a.body {
                    match &a.cc {
                        b"mean" | b"name" => texts.push((b, 4, false)),
                        b"data" if b[3] == 1 => texts.push((b, 8, false)),
                        b"data" if b[3] == 2 => texts.push((b, 8, true)),
                        _ => (),
                    }
                }
            }
        }
    }
    if texts.is_empty() {
        return Ok(None);
    }
    let i = c.all(texts.len());
    let (b, from, wide) = texts.swap_remove(i);
    if wide {
        let k = c.all(BAD_UNITS.len() + 1);
        if k == BAD_UNITS.len() {
            b.push(0x41);
            // the length contradicts the type
            return Ok(Some((vec![Want::Utf16, Want::Parsing], false)));
        } else {
            let bad: Vec<u8> = BAD_UNITS[k].iter().flat_map(|u| u.to_be_bytes()).collect();
            if c.all(2) == 0 {
                b.extend(bad);
            } else {
                // in front, followed by something that doesn't complete it
                b.splice(from..from, bad.into_iter().chain([0, 0x42]));
            }
        }
        return Ok(Some((vec![Want::Utf16], false)));
    }
    insert(c, b, from, *c.all_of(&BAD_TEXT));
    Ok(Some((vec![Want::Utf8], false)))
}

fn c19(run: &mut Run) {
    let corruptions: [(&str, Corruption); 5] = [("versions", versions), ("types", types), ("lengths", lengths), ("short", short), ("missing", missing)];
    let bound = run.tiered(1, 2);
    for (name, f) in corruptions {
        let bound = if ["versions", "types"].contains(&name) { bound } else { 2 };
        run.explore(name, bound, |c| {
            let l = layout(c, EVERYTHING);
            let b = bytes_of(&l.nodes);
            let Some((bytes, want, reader, writer)) = f(c, &b, &sites(&b)?)? else {
                c.label("not applicable");
                return Ok(());
            };
            c.state(&bytes);
            c.label(format!("{:?}", want[0]).split('(').next().unwrap().to_owned());
            c.sample(|| format!("{:?} expected {:?}", f as *const (), want));
            if reader {
                must_report("read", read_bytes("read", &bytes)?, &want)?;
            } else {
                must_read("read", &bytes)?;
            }
            if writer {
                writer_reports(&bytes, &want)?;
            }
            Ok(())
        });
    }
    run.explore("texts", 2, |c| {
        let mut l = layout(c, EVERYTHING);
        let Some((want, writer)) = texts(c, &mut l.nodes)? else {
            c.label("not applicable");
            return Ok(());
        };
        let b = bytes_of(&l.nodes);
        c.state(&b);
        c.label(format!("{:?}", want[0]));
        reports(&b, &want, writer)
    });

    // chunk offset tables that contradict their atom
    run.explore("tables", 2, |c| {
        let l = layout(c, EVERYTHING);
        let mut b = bytes_of(&l.nodes);
        let v = sites(&b)?;
        let Some(s) = some_site(c, &v, |s| s.cc == *b"stco" && s.is("/moov/trak/mdia/minf/stbl/stco") || s.is("/moov/trak/mdia/minf/stbl/co64")) else {
            c.label("not applicable");
            return Ok(());
        };
        let p = s.payload() + 4;
        let n = u32::from_be_bytes(b[p..p + 4].try_into().unwrap());
        let bad = *c.all_of(&[n + 1, n.wrapping_sub(1), n + 2, 0x4000_0000, 0x8000_0000, 0x2000_0000, u32::MAX, n | 0x4000_0000, n | 0x2000_0000, n + 1000]);
        put32(&mut b, p, bad);
        c.state(&b);
        must_read("read", &b)?;
        if moving(&v) {
            writer_reports(&b, &[Want::Parsing])?;
        } else {
            c.label("nothing to adjust");
            if let Err(e) = written("write", &tag_n(12).0, &b)? {
                must_report("write", Err::<(), _>(e), &[Want::Parsing])?;
            }
        }
        Ok(())
    });

    // something in front of the file type
    run.explore("no file type", 0, |c| {
        let nodes = small_file(ilst_of(&tag_items(0)));
        let b = match c.all(8) {
            0 => bytes_of(&nodes[1..]),
            1 => bytes_of(&[vec![filler(0)], nodes].concat()),
            2 => bytes_of(&[vec![nodes[1].clone()], nodes].concat()),
            3 => bytes_of(&[filler(4)]),
            4 => b"ID3\x04\0\0\0\0\0\0\0\0".to_vec(),
            5 => b"\x7fELF\x02\x01\x01\0\0\0\0\0".to_vec(),
            6 => b"\0\0\0\x08free".to_vec(),
            _ => bytes_of(&[leaf("styp", b"isom"), nodes[1].clone(), nodes[2].clone()]),
        };
        c.state(&b);
        // bytes that aren't an atom either
        let want: &[Want] = if b.starts_with(b"ID3") || b.starts_with(b"\x7fELF") { &[Want::NoTag, Want::Parsing] } else { &[Want::NoTag] };
        reports(&b, want, true)
    });
    run.explore("no movie", 0, |c| {
        let n = c.all(5);
        let mut nodes = vec![leaf("ftyp", FTYP.as_bytes()).ext(c.all(2) == 1)];
        for _ in 0..n {
            nodes.push(match c.all(5) {
                0 => filler(0),
                1 => mdat(30, 1),
                2 => leaf("uuid", b"\0\0\0\x08moov").ext(true),
                3 => kids("mdia", vec![kids("moov", vec![])]),
                _ => meta(vec![hdlr(b"mdir"), ilst_of(&tag_items(0))]),
            });
        }
        let b = bytes_of(&nodes);
        c.state(&b);
        reports(&b, &[Want::Missing(*b"moov")], true)
    });

    // atoms of the missing kind, and others, where they don't count
    run.explore("missing and misplaced", 0, |c| {
        let (nodes, gone) = lacking(c);
        let b = bytes_of(&nodes);
        c.state(&b);
        c.label(gone.to_owned());
        let want = if gone == "ftyp" { Want::NoTag } else { Want::Missing(fcc(gone)) };
        reports(&b, &[want], ["ftyp", "moov"].contains(&gone))
    });

    // every premature end
    let bases: Vec<(Vec<u8>, Tag)> = [0usize, 2, 3, 9]
        .iter()
        .flat_map(|n| {
            let mut a = small_file(kids("ilst", stored(*n).0));
            let first = a.clone();
            // media in front, tracks behind the metadata
            a.swap(1, 2);
            a[2].kids_mut().swap(1, 2);
            [first, a]
        })
        .map(|n| {
            let b = bytes_of(&n);
            let t = Tag::read_from(&mut Cursor::new(&b)).unwrap_or_else(|e| harness_error(&format!("base file: {}", e)));
            (b, t)
        })
        .collect();
    run.explore("truncations", 0, |c| {
        let (b, t) = c.all_of(&bases);
        let cut = c.all(b.len());
        let short = &b[..cut];
        let v = sites(b)?;
        let at = |p: &str| v.iter().find(|s| s.is(p)).map(|s| (s.pos, s.pos + s.len)).unwrap_or((0, 0));
        let inside = |p: &str| cut > at(p).0 && cut < at(p).1;
        c.state(short);
        let r = read_bytes("read", short)?;
        if cut == 0 {
            return must_report("read", r, &[Want::Eof, Want::NoTag]);
        }
        if cut < at("/ftyp").1 {
            return must_report("read", r, &[Want::Eof]);
        }
        if inside("/moov/udta/meta/ilst") {
            // the locale of an empty value at the end may be missing
            return match r {
                Ok(x) => same_items("read", &items_of(&x)?, &items_of(t)?),
                Err(_) => must_report("read", r, &[Want::Eof]),
            };
        }
        if inside(ESDS) || (inside("/moov/mvhd") && cut < at("/moov/mvhd").0 + 8 + 20) {
            return must_report("read", r, &[Want::Eof]);
        }
        if cut <= at("/moov").0 {
            return must_report("read", r, &[Want::Missing(*b"moov"), Want::Eof]);
        }
        if cut < at("/moov").1 {
            // skipped parts may be missing
            return match r {
                Ok(x) => same_items("read", &items_of(&x)?, &items_of(t)?).and_then(|_| same_info("read", &x, t.audio_info())),
                Err(_) => must_report("read", r, &[Want::Eof]),
            };
        }
        match r {
            Ok(x) => same_items("read", &items_of(&x)?, &items_of(t)?).and_then(|_| same_info("read", &x, t.audio_info())),
            Err(e) => Err(format!("media cut off at {}: {}", cut, e)),
        }
    });

    let bound = run.tiered(2, 3);
    run.explore("intact", bound, |c| {
        let l = layout(c, EVERYTHING);
        let b = bytes_of(&l.nodes);
        c.state(&b);
        must_read("read of an intact file", &b)?;
        with_file(&b, |f| must_write("write onto an intact file", &tag_n(12).0, f))
    });
}
