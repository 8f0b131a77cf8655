//! C17, C18, C21: values, codes and identifiers.

use std::convert::TryFrom;

use mp4ameta::ident::{idents_match, FreeformIdent, Ident};
use mp4ameta::{AdvisoryRating, AudioInfo, ChannelConfig, Data, DataIdent, Fourcc, Img, ImgFmt, MediaType, SampleRate};

use super::*;
use crate::fields::*;
use crate::mp4::*;

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C17",
            level: "model_checking",
            technique: "exhaustive enumeration of all Unicode scalar values, all short byte and UTF-16 unit sequences and all value kinds on the real accessors, dumps and reads, with decoders written from the definitions as oracle",
            note: "All 1,112,064 scalar values in both encodings in three contexts; all UTF-8 byte sequences up to length 3 and up to 5 (6 in the thorough tier) over all boundary bytes; all single UTF-16 units, all pairs of surrogates, sequences up to 5 (6) over all boundary units; every accessor on every kind of value and content, all pairs of values.",
            rule: "an execution stores, reads or compares a batch of enumerated values; transitions are the single values compared with the reference",
            assumptions: &["an odd number of bytes of UTF-16 text may be reported as a parsing or as a decoding error"],
            run: c17,
        },
        Check {
            id: "C18",
            level: "model_checking",
            technique: "exhaustive enumeration of all codes, of all stored first bytes x lengths x kinds, and of operation sequences, against the documented tables",
            note: "All 256 codes of every enumeration, all stored values over 256 first bytes x kinds x lengths (alone and behind other values), all sequences of setters from each of them, all pairs of frequency index and channel configuration in files.",
            rule: "a transition is one conversion, accessor or setter compared with the documented table",
            assumptions: &[],
            run: c18,
        },
        Check {
            id: "C21",
            level: "model_checking",
            technique: "exhaustive enumeration of all pairs of identifiers over all kinds and near-miss contents on the real comparisons, lookups and conversions",
            note: "All ordered pairs over a set of four-character codes that includes every byte value at every position, and all freeform identifiers over short strings of an alphabet that includes the separator; each pair in all combinations of identifier kinds, compared, matched, and used to store and look up.",
            rule: "an execution takes one identifier and compares it with all others; transitions are the pairs",
            assumptions: &[],
            run: c21,
        },
    ]
}

// ---------------------------------------------------------------------------------------------
// C17

/// Checks that values are stored and recovered exactly, all in one item.
fn stores(vals: &[Val]) -> Verdict {
    let id = Id::fc("\u{a9}cmt");
    for v in vals {
        let d = v.to_data();
        let n = v.stored().len() as u64;
        ensure!(d.len() == n, "{:?} of {:?} has length {} instead of {}", v.kind, String::from_utf8_lossy(&v.bytes), d.len(), n);
        ensure!(d.is_empty() == (n == 0), "is_empty of {:?}", v);
    }
    let want = map_of(&[(id.clone(), vals.to_vec())]);
    let t = tag_of(&[(id, vals.to_vec())]);
    let b = dumped(&t)?;
    let p = parse(&b[..]).map_err(|e| format!("dump is not well-formed: {}", e))?;
    let ilst = find_ilst(&p).ok_or("dump has no item list")?;
    same_one("stored", &stored_items(&b[..], ilst)?, &want)?;
    let r = must_read("reading the dump", &b)?;
    same_one("read back", &items_of(&r)?, &want)
}

/// As `same_items`, but names the first value that differs.
fn same_one(what: &str, got: &Items, want: &Items) -> Verdict {
    if got == want {
        return Ok(());
    }
    for (id, vs) in want {
        let g = got.get(id).map(|v| v.as_slice()).unwrap_or(&[]);
        for (i, v) in vs.iter().enumerate() {
            ensure!(g.get(i) == Some(v), "{}: value {} is {:?} instead of {:?}", what, i, g.get(i), v);
        }
    }
    same_items(what, got, want)
}

/// A file of which one text has arbitrary bytes.
struct Text {
    nodes: Vec<u8>,
    at: usize,
    len: usize,
}

#[derive(Clone, Copy, PartialEq)]
enum Place {
    /// the only value, or the second value of the second item
    Value(Kind, bool),
    Mean,
    Name,
}

impl Text {
    fn new(place: Place, len: usize) -> Text {
        let marker: Vec<u8> = (0..len).map(|i| 0x70 + (i % 8) as u8).collect();
        let raw = |code: u32, b: &[u8]| {
            let mut v = code.to_be_bytes().to_vec();
            v.extend([0; 4]);
            v.extend(b);
            leaf("data", &v)
        };
        let str_atom = |cc: &str, b: &[u8]| {
            let mut v = vec![0; 4];
            v.extend(b);
            leaf(cc, &v)
        };
        let (ilst, head) = match place {
            Place::Value(k, false) => (vec![kids("\u{a9}cmt", vec![raw(k.code(), &marker)])], 0),
            Place::Value(k, true) => {
                let first = item(&Id::fc("\u{a9}nam"), &[Val::s("first")]);
                (vec![first, kids("\u{a9}cmt", vec![raw(1, b"one"), raw(k.code(), &marker), raw(2, &[0, 0x41])])], 0)
            }
            Place::Mean => (vec![kids("----", vec![str_atom("mean", &marker), str_atom("name", b"N"), raw(1, b"x")])], 1),
            Place::Name => (vec![kids("----", vec![str_atom("mean", b"M"), str_atom("name", &marker), raw(1, b"x")])], 2),
        };
        let nodes = bytes_of(&small_file(kids("ilst", ilst)));
        // the place of the text is found by its atom, in the parsed file
        let p = parse(&nodes[..]).unwrap();
        let il = find_ilst(&p).unwrap();
        let (it, n) = match place {
            Place::Value(_, false) => (0, 0),
            Place::Value(_, true) => (1, 1),
            Place::Mean => (0, 0),
            Place::Name => (0, 1),
        };
        let a = &il.kids()[it].kids()[n];
        let at = a.payload() as usize + if head > 0 { 4 } else { 8 };
        if nodes[at..at + len] != marker[..] {
            harness_error("text not found");
        }
        Text { nodes, at, len }
    }

    fn check(&mut self, place: Place, b: &[u8]) -> Verdict {
        self.nodes[self.at..self.at + self.len].copy_from_slice(b);
        let r = read_bytes("read_from", &self.nodes)?;
        let utf16 = matches!(place, Place::Value(Kind::Utf16, _));
        let text = if utf16 {
            utf16_decode(b)
        } else if utf8_valid(b) {
            Some(String::from_utf8(b.to_vec()).map_err(|_| "harness: UTF-8 reference disagrees with the standard library".to_owned())?)
        } else {
            None
        };
        match (r, text) {
            (Ok(t), Some(s)) => {
                let got = items_of(&t)?;
                let (id, n) = match place {
                    Place::Value(_, second) => (Id::fc("\u{a9}cmt"), second as usize),
                    Place::Mean => (Id::free(&s, "N"), 0),
                    Place::Name => (Id::free("M", &s), 0),
                };
                let v = match got.get(&id).and_then(|v| v.get(n)) {
                    Some(v) => v,
                    None => return Err(format!("text of bytes {:02x?} isn't found in [{}]", b, show_items(&got))),
                };
                if let Place::Value(k, _) = place {
                    ensure!(*v == Val::new(k, s.as_bytes()), "bytes {:02x?} are read as {:?}", b, v);
                }
                Ok(())
            }
            (Err(e), None) => {
                let k = kind_name(&e);
                let ok = match utf16 {
                    true => k == "Utf16StringDecoding" || b.len() % 2 == 1 && k == "Parsing",
                    false => k == "Utf8StringDecoding",
                };
                ensure!(ok, "bytes {:02x?} are reported as {}", b, k);
                Ok(())
            }
            (Ok(t), None) => Err(format!("invalid bytes {:02x?} are accepted as [{}]", b, show_items(&items_of(&t)?))),
            (Err(e), Some(s)) => Err(format!("valid text {:?} ({:02x?}) is refused: {}", s, b, e)),
        }
    }
}

/// First and last bytes of all ranges of the definition of UTF-8.
const UTF8_EDGES: [u8; 27] = [
    0x00, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5,
    0xF7, 0xF8, 0xFF,
];

const UTF16_EDGES: [u16; 12] = [0, 0x41, 0x00FF, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFEFF, 0xFFFE, 0xFFFF];

fn text_menu() -> Vec<String> {
    let mut v: Vec<String> = ["", "a", "ab", "\u{e9}", "\u{20ac}", "\u{1f600}", "a\u{0}b", "\u{feff}x", "x\u{301}", "\u{10ffff}\u{d7ff}\u{e000}"].iter().map(|s| s.to_string()).collect();
    v.push("z".repeat(300));
    v.push("\u{1f600}\u{e9}".repeat(70));
    v
}

fn byte_menu() -> Vec<Vec<u8>> {
    vec![
        vec![],
        vec![0],
        vec![1],
        vec![0xFF],
        vec![0, 1],
        vec![1, 0],
        vec![0xFF, 0xD8, 0xFF],
        b"\x89PNG\r\n".to_vec(),
        b"BM".to_vec(),
        vec![0x80; 4],
        vec![0; 8],
        vec![7; 300],
    ]
}

fn value_menu() -> Vec<Val> {
    let mut v = Vec::new();
    for k in KINDS {
        if k.is_text() {
            v.extend(text_menu().iter().map(|s| Val::new(k, s.as_bytes())));
        } else {
            v.extend(byte_menu().iter().map(|b| Val::new(k, b)));
        }
    }
    v
}

fn img_parts<T>(i: Img<T>) -> (Kind, T) {
    let k = match i.fmt {
        ImgFmt::Bmp => Kind::Bmp,
        ImgFmt::Jpeg => Kind::Jpeg,
        ImgFmt::Png => Kind::Png,
    };
    (k, i.data)
}

/// All accessors of one value.
fn accessors(v: &Val) -> Verdict {
    let d = v.to_data();
    let k = v.kind;
    let only = |kind: Kind| if k == kind { Some(&v.bytes[..]) } else { None };
    let bytes = if k.is_bytes() { Some(&v.bytes[..]) } else { None };
    let text = if k.is_text() { Some(std::str::from_utf8(&v.bytes).unwrap()) } else { None };
    let image = if k.is_image() { Some((k, &v.bytes[..])) } else { None };
    macro_rules! same {
        ($($name:literal $got:expr, $want:expr;)*) => {$(
            let (g, w) = (guard($name, || $got)?, $want);
            ensure!(g == w, "{} of {:?} is {:?} instead of {:?}", $name, v, g, w);
        )*};
    }
    same! {
        "len" d.len(), v.stored().len() as u64;
        "is_empty" d.is_empty(), v.bytes.is_empty();
        "is_bytes" d.is_bytes(), k.is_bytes();
        "is_string" d.is_string(), k.is_text();
        "is_image" d.is_image(), k.is_image();
        "is_reserved" d.is_reserved(), k == Kind::Reserved;
        "is_utf8" d.is_utf8(), k == Kind::Utf8;
        "is_utf16" d.is_utf16(), k == Kind::Utf16;
        "is_jpeg" d.is_jpeg(), k == Kind::Jpeg;
        "is_png" d.is_png(), k == Kind::Png;
        "is_be_signed" d.is_be_signed(), k == Kind::BeSigned;
        "is_bmp" d.is_bmp(), k == Kind::Bmp;
        "bytes" d.bytes(), bytes;
        "bytes_mut" d.clone().bytes_mut().map(|b| b.clone()), bytes.map(|b| b.to_vec());
        "into_bytes" d.clone().into_bytes(), bytes.map(|b| b.to_vec());
        "string" d.string(), text;
        "string_mut" d.clone().string_mut().map(|s| s.clone()), text.map(|s| s.to_owned());
        "into_string" d.clone().into_string(), text.map(|s| s.to_owned());
        "image" d.image().map(img_parts), image;
        "image_mut" d.clone().image_mut().map(img_parts).map(|(k, b)| (k, b.clone())), image.map(|(k, b)| (k, b.to_vec()));
        "into_image" d.clone().into_image().map(img_parts), image.map(|(k, b)| (k, b.to_vec()));
        "image_data" d.image_data(), image.map(|i| i.1);
        "image_data_mut" d.clone().image_data_mut().map(|b| b.clone()), image.map(|i| i.1.to_vec());
        "into_image_data" d.clone().into_image_data(), image.map(|i| i.1.to_vec());
        "reserved" d.reserved(), only(Kind::Reserved);
        "utf8" d.utf8().map(|s| s.as_bytes()), only(Kind::Utf8);
        "utf16" d.utf16().map(|s| s.as_bytes()), only(Kind::Utf16);
        "jpeg" d.jpeg(), only(Kind::Jpeg);
        "png" d.png(), only(Kind::Png);
        "be_signed" d.be_signed(), only(Kind::BeSigned);
        "bmp" d.bmp(), only(Kind::Bmp);
        "clone" d.clone() == d, true;
        "content" Val::of(&d), v.clone();
    }

    // changes made through the mutable accessors arrive, and change nothing else
    let longer = |add: &[u8]| {
        let mut b = v.bytes.clone();
        b.extend(add);
        Val::new(k, &b)
    };
    let add_text = "\u{e9}\u{1f600}";
    let mut changed: Vec<(&str, Data)> = Vec::new();
    let mut m = d.clone();
    if let Some(b) = m.bytes_mut() {
        b.extend(add_text.as_bytes());
        changed.push(("bytes_mut", m));
    }
    let mut m = d.clone();
    if let Some(s) = m.string_mut() {
        s.push_str(add_text);
        changed.push(("string_mut", m));
    }
    let mut m = d.clone();
    if let Some(i) = m.image_mut() {
        i.data.extend(add_text.as_bytes());
        changed.push(("image_mut", m));
    }
    let mut m = d.clone();
    if let Some(b) = m.image_data_mut() {
        b.extend(add_text.as_bytes());
        changed.push(("image_data_mut", m));
    }
    let want = longer(add_text.as_bytes());
    for (what, m) in changed {
        ensure!(Val::of(&m) == want, "after appending through {}: {:?} instead of {:?}", what, Val::of(&m), want);
        ensure!(m.len() == want.stored().len() as u64, "length {} after appending through {}", m.len(), what);
        ensure!(m != d, "{:?} equals itself changed through {}", v, what);
    }

    // images
    if k.is_image() {
        let i = img(v);
        let d2: Data = guard("From<Img>", || Data::from(i.clone()))?;
        ensure!(Val::of(&d2) == *v && d2 == d, "image {:?} becomes {:?}", v, Val::of(&d2));
        let d3: Data = guard("From<Img>", || Data::from(Img::new(i.fmt.clone(), &v.bytes[..])))?;
        ensure!(d3 == d, "borrowed image {:?} becomes {:?}", v, Val::of(&d3));
        let made = match k {
            Kind::Bmp => Img::bmp(v.bytes.clone()),
            Kind::Jpeg => Img::jpeg(v.bytes.clone()),
            _ => Img::png(v.bytes.clone()),
        };
        ensure!(made == i, "constructed image {:?} instead of {:?}", made.fmt, i.fmt);
        let p = (i.fmt.is_bmp(), i.fmt.is_jpeg(), i.fmt.is_png());
        ensure!(p == (k == Kind::Bmp, k == Kind::Jpeg, k == Kind::Png), "format predicates of {:?}: {:?}", k, p);
    }

    // the typed views of a tag
    let mut t = Tag::default();
    t.set_data(Fourcc(*b"test"), d.clone());
    ensure!(t.bytes().map(|(_, b)| b.to_vec()).collect::<Vec<_>>() == bytes.iter().map(|b| b.to_vec()).collect::<Vec<_>>(), "bytes of a tag with {:?}", v);
    ensure!(t.strings().map(|(_, s)| s.to_owned()).collect::<Vec<_>>() == text.iter().map(|s| s.to_string()).collect::<Vec<_>>(), "strings of a tag with {:?}", v);
    ensure!(
        t.images().map(|(_, i)| img_parts(i)).collect::<Vec<_>>() == image.into_iter().collect::<Vec<_>>(),
        "images of a tag with {:?}",
        v
    );
    Ok(())
}

fn c17(run: &mut Run) {
    // every scalar value, in blocks of 256
    run.explore("scalars", 0, |c| {
        let block = c.all(0x110000 / 256) as u32;
        let kind = *c.all_of(&[Kind::Utf8, Kind::Utf16]);
        let context = c.all(3);
        let vals: Vec<Val> = (block * 256..block * 256 + 256)
            .filter_map(char::from_u32)
            .map(|ch| match context {
                0 => Val::new(kind, ch.to_string().as_bytes()),
                1 => Val::new(kind, format!("a{}b", ch).as_bytes()),
                _ => Val::new(kind, format!("{}{}\u{1f600}\u{e9}", ch, ch).as_bytes()),
            })
            .collect();
        if vals.is_empty() {
            c.label("surrogates, no scalar values");
            return Ok(());
        }
        stores(&vals)?;
        c.step(vals.len() as u64);
        c.label("stored and recovered");
        c.sample(|| format!("code points {:x}.. as {:?}", block * 256, kind));
        Ok(())
    });

    // lengths of text and binary values
    let max = run.tiered(300, 1200);
    run.explore("lengths", 0, |c| {
        let n = c.all(max);
        let vals: Vec<Val> = KINDS
            .iter()
            .flat_map(|k| match k.is_text() {
                true => vec![Val::new(*k, "q".repeat(n).as_bytes()), Val::new(*k, "\u{20ac}".repeat(n).as_bytes()), Val::new(*k, "\u{1f600}".repeat(n).as_bytes())],
                false => vec![Val::new(*k, &(0..n).map(|i| (i * 7 + n) as u8).collect::<Vec<_>>())],
            })
            .collect();
        c.step(vals.len() as u64);
        stores(&vals)
    });

    const PLACES: [Place; 4] = [Place::Value(Kind::Utf8, false), Place::Value(Kind::Utf8, true), Place::Mean, Place::Name];

    // all byte sequences
    let deep = run.thorough();
    run.explore_t("utf8-sequences", 0, 120, |c| {
        let n = 1 + c.all(3);
        // length 3 is only explored for values in the quick tier
        let place = if n < 3 || deep { *c.all_of(&PLACES) } else { PLACES[0] };
        let first = c.all(256) as u8;
        let mut t = Text::new(place, n);
        let mut b = vec![0u8; n];
        b[0] = first;
        for x in 0..1u32 << (8 * (n - 1)) {
            for (i, y) in b[1..].iter_mut().enumerate() {
                *y = (x >> (8 * i)) as u8;
            }
            t.check(place, &b)?;
            c.step(1);
        }
        c.sample(|| format!("{} bytes starting with {:02x}", n, first));
        Ok(())
    });

    // longer ones over the boundaries of all ranges
    let longest = run.tiered(5, 6);
    run.explore_t("utf8-boundaries", 0, 300, |c| {
        let n = 3 + c.all(longest - 2);
        let place = if n == 3 { *c.all_of(&PLACES) } else { PLACES[0] };
        let first = *c.all_of(&UTF8_EDGES);
        let second = *c.all_of(&UTF8_EDGES);
        let mut t = Text::new(place, n);
        let mut b = vec![first; n];
        b[1] = second;
        let e = UTF8_EDGES.len();
        for x in 0..e.pow(n as u32 - 2) {
            let mut x = x;
            for y in b[2..].iter_mut() {
                *y = UTF8_EDGES[x % e];
                x /= e;
            }
            t.check(place, &b)?;
            c.step(1);
        }
        c.sample(|| format!("{} bytes starting with {:02x} {:02x}", n, first, second));
        Ok(())
    });

    // all units, all pairs of surrogates
    run.explore("utf16-units", 0, |c| {
        let hi = c.all(256) as u16;
        let place = Place::Value(Kind::Utf16, c.all(2) == 1);
        // alone, before and behind each boundary unit
        let mut t1 = Text::new(place, 2);
        let mut t2 = Text::new(place, 4);
        for lo in 0..256u16 {
            let u = (hi << 8 | lo).to_be_bytes();
            t1.check(place, &u)?;
            for e in UTF16_EDGES {
                let e = e.to_be_bytes();
                t2.check(place, &[u[0], u[1], e[0], e[1]])?;
                t2.check(place, &[e[0], e[1], u[0], u[1]])?;
            }
            c.step(1 + 2 * UTF16_EDGES.len() as u64);
        }
        Ok(())
    });
    run.explore("utf16-pairs", 0, |c| {
        let h = 0xD800 + c.all(0x800) as u16;
        let place = Place::Value(Kind::Utf16, false);
        let mut t = Text::new(place, 4);
        for l in 0xD800..0xE000u16 {
            let (h, l) = (h.to_be_bytes(), l.to_be_bytes());
            t.check(place, &[h[0], h[1], l[0], l[1]])?;
            c.step(1);
        }
        Ok(())
    });
    let units = run.tiered(5, 6);
    run.explore("utf16-sequences", 0, |c| {
        let n = c.all(units + 1);
        let place = Place::Value(Kind::Utf16, c.all(2) == 1);
        let tail = *c.all_of(&[None, Some(0u8), Some(0x41), Some(0xD8), Some(0xDC)]);
        let e = UTF16_EDGES.len();
        let first = if n > 0 { c.all(e) } else { 0 };
        let mut t = Text::new(place, 2 * n + tail.is_some() as usize);
        for x in 0..e.pow((n as u32).saturating_sub(1)) {
            let mut x = x * e + first;
            let mut b = Vec::with_capacity(2 * n + 1);
            for _ in 0..n {
                b.extend(UTF16_EDGES[x % e].to_be_bytes());
                x /= e;
            }
            b.extend(tail);
            t.check(place, &b)?;
            c.step(1);
        }
        Ok(())
    });

    // a single sequence, valid or not, at every place of longer texts
    let mut lens: Vec<usize> = (1..=run.tiered(72, 300)).collect();
    for n in [128usize, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536] {
        lens.extend(n - run.tiered(2, 9)..=n + run.tiered(2, 9));
    }
    let lens = &lens;
    run.explore("sequences in longer texts", 0, |c| {
        let len = *c.all_of(lens);
        let place = *c.all_of(&[Place::Value(Kind::Utf8, false), Place::Value(Kind::Utf16, false), Place::Mean, Place::Name, Place::Value(Kind::Utf16, true)]);
        let wide = matches!(place, Place::Value(Kind::Utf16, _));
        let filler = c.all(2);
        let fill: Vec<u8> = match (wide, filler) {
            (true, 0) => "a".encode_utf16().flat_map(|u| u.to_be_bytes()).collect(),
            (true, _) => "\u{1F600}".encode_utf16().flat_map(|u| u.to_be_bytes()).collect(),
            (false, 0) => b"a".to_vec(),
            (false, _) => "\u{e9}".as_bytes().to_vec(),
        };
        let seqs: &[&[u8]] = match wide {
            true => &[&[0xD8, 0], &[0xDC, 0], &[0xDB, 0xFF, 0xD8, 0], &[0xDC, 0, 0xD8, 0], &[0xD8, 0, 0xDC, 0], &[0xDB, 0xFF, 0xDF, 0xFF], &[0, 0], &[0xFE, 0xFF], &[0xFF, 0xFE], &[0xFF, 0xFD]],
            false => &[&[0x80], &[0xFF], &[0xC3], &[0xE2, 0x82], &[0xED, 0xA0, 0x80], &[0xC0, 0x80], &[0xF4, 0x90, 0x80, 0x80], &[0xF0, 0x9F, 0x98, 0x80], &[0], &[0xEF, 0xBB, 0xBF], &[0xEF, 0xBF, 0xBD]],
        };
        let seq = *c.all_of(seqs);
        let units = len / fill.len();
        let mut ats: Vec<usize> = (0..=units).collect();
        if units > 80 {
            ats = vec![0, 1, 2, units / 3, units / 2, units - 2, units - 1, units];
            ats.extend((1..).map(|k| 4096 * k / fill.len()).take_while(|x| *x < units).take(deep as usize * 8));
        }
        let base = fill.repeat(units);
        let mut t = Text::new(place, base.len() + seq.len());
        for at in ats {
            let mut b = base.clone();
            b.splice(at * fill.len()..at * fill.len(), seq.iter().copied());
            t.check(place, &b)?;
            c.step(1);
        }
        Ok(())
    });

    run.explore("accessors", 0, |c| {
        let menu = value_menu();
        let v = c.all_of(&menu);
        accessors(v)?;
        c.step(40);
        c.label(format!("{:?}", v.kind));
        c.sample(|| format!("{:?}", v));
        Ok(())
    });

    run.explore("equality", 0, |c| {
        let menu = value_menu();
        let a = c.all_of(&menu);
        let d = a.to_data();
        for b in &menu {
            let e = b.to_data();
            ensure!((d == e) == (a == b), "{:?} == {:?} is {}", a, b, d == e);
            ensure!((d != e) == (a != b), "{:?} != {:?} is {}", a, b, d != e);
            c.step(1);
        }
        Ok(())
    });

    // each kind of value under each kind of identifier, with all other kinds around
    run.explore("kinds", 0, |c| {
        let menu = value_menu();
        let v = c.all_of(&menu).clone();
        let w = Val::new(*c.all_of(&KINDS), b"other");
        let swap = c.all(2) == 1;
        let id = c.all_of(&[Id::fc("covr"), Id::fc("\u{a9}nam"), Id::fc("trkn"), Id::free("com.apple.iTunes", "ISRC"), Id::free("", "")]).clone();
        let vals = if swap { vec![w, v] } else { vec![v, w] };
        let items = [(id, vals)];
        let b = dumped(&tag_of(&items))?;
        let p = parse(&b[..]).map_err(|e| format!("dump is not well-formed: {}", e))?;
        same_items("stored", &stored_items(&b[..], find_ilst(&p).ok_or("no item list")?)?, &map_of(&items))?;
        check_items("read back", &must_read("reading the dump", &b)?, &map_of(&items))?;
        c.step(1);
        Ok(())
    });
}

// ---------------------------------------------------------------------------------------------
// C18

const CHANNELS: [(u8, ChannelConfig, u8, &str); 7] = [
    (1, ChannelConfig::Mono, 1, "Mono"),
    (2, ChannelConfig::Stereo, 2, "Stereo"),
    (3, ChannelConfig::Three, 3, "3.0"),
    (4, ChannelConfig::Four, 4, "4.0"),
    (5, ChannelConfig::Five, 5, "5.0"),
    (6, ChannelConfig::FiveOne, 6, "5.1"),
    (7, ChannelConfig::SevenOne, 8, "7.1"),
];

const RATES: [(u8, SampleRate, u32); 13] = [
    (0, SampleRate::Hz96000, 96000),
    (1, SampleRate::Hz88200, 88200),
    (2, SampleRate::Hz64000, 64000),
    (3, SampleRate::Hz48000, 48000),
    (4, SampleRate::Hz44100, 44100),
    (5, SampleRate::Hz32000, 32000),
    (6, SampleRate::Hz24000, 24000),
    (7, SampleRate::Hz22050, 22050),
    (8, SampleRate::Hz16000, 16000),
    (9, SampleRate::Hz12000, 12000),
    (10, SampleRate::Hz11025, 11025),
    (11, SampleRate::Hz8000, 8000),
    (12, SampleRate::Hz7350, 7350),
];

/// The value stored by a setter, as seen through the tag and in a dump.
fn stored_value(t: &Tag, id: &Id) -> Result<Vec<Val>, String> {
    let seen = items_of(t)?.remove(id).unwrap_or_default();
    let b = dumped(t)?;
    let p = parse(&b[..]).map_err(|e| format!("dump is not well-formed: {}", e))?;
    let dump = stored_items(&b[..], find_ilst(&p).ok_or("no item list")?)?.remove(id).unwrap_or_default();
    ensure2(seen == dump, || format!("the tag shows {:?}, the dump stores {:?}", seen, dump))?;
    Ok(seen)
}

fn ensure2(ok: bool, msg: impl FnOnce() -> String) -> Verdict {
    if ok {
        Ok(())
    } else {
        Err(msg())
    }
}

fn c18(run: &mut Run) {
    run.explore("codes", 0, |c| {
        let code = c.all(256) as u8;
        let unknown = |what: &str, e: &Error| {
            let n = match &e.kind {
                ErrorKind::UnknownMediaType(n) if what == "media type" => Some(*n),
                ErrorKind::UnknownChannelConfig(n) if what != "media type" => Some(*n),
                _ => None,
            };
            ensure2(n == Some(code), || format!("{} {} is reported as {:?}", what, code, e.kind))
        };

        let m = guard("MediaType::try_from", || MediaType::try_from(code))?;
        match (m, media_of(code)) {
            (Ok(m), Some((w, name))) => {
                ensure!(m == w, "media type {} is {:?} instead of {:?}", code, m, w);
                ensure!(m.to_string() == name, "{:?} is printed as {}", m, m);
            }
            (Err(e), None) => unknown("media type", &e)?,
            (m, w) => return Err(format!("media type {} is {:?} instead of {:?}", code, m.ok(), w)),
        }

        let (w, name) = rating_of(code);
        let r = guard("AdvisoryRating::from", || AdvisoryRating::from(code))?;
        ensure!(r == w, "rating {} is {:?} instead of {:?}", code, r, w);
        ensure!(r.to_string() == name, "{:?} is printed as {}", r, r);

        let ch = guard("ChannelConfig::try_from", || ChannelConfig::try_from(code))?;
        match (ch, CHANNELS.iter().find(|x| x.0 == code)) {
            (Ok(g), Some((_, w, n, name))) => {
                ensure!(g == *w, "channel configuration {} is {:?} instead of {:?}", code, g, w);
                ensure!(g.channel_count() == *n, "{:?} has {} channels", g, g.channel_count());
                ensure!(g.to_string() == *name, "{:?} is printed as {}", g, g);
            }
            (Err(e), None) => unknown("channel configuration", &e)?,
            (g, w) => return Err(format!("channel configuration {} is {:?} instead of {:?}", code, g.ok(), w)),
        }

        let s = guard("SampleRate::try_from", || SampleRate::try_from(code))?;
        match (s, RATES.iter().find(|x| x.0 == code)) {
            (Ok(g), Some((_, w, hz))) => {
                ensure!(g == *w, "sample rate {} is {:?} instead of {:?}", code, g, w);
                ensure!(g.hz() == *hz, "{:?} is {} Hz", g, g.hz());
                ensure!(g.to_string() == format!("{}Hz", hz), "{:?} is printed as {}", g, g);
            }
            (Err(e), None) => unknown("sample rate", &e)?,
            (g, w) => return Err(format!("sample rate {} is {:?} instead of {:?}", code, g.ok(), w)),
        }
        c.step(4);
        c.sample(|| format!("code {}", code));
        Ok(())
    });

    // stored values: any first byte, length and kind, alone or with other values around
    let lens = run.tiered(vec![0, 1, 2, 4, 5, 300], vec![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 255, 256, 300, 1000]);
    run.explore("stored", 0, |c| {
        let rating = c.all(2) == 1;
        let kind = *c.all_of(&KINDS);
        let len = *c.all_of(&lens);
        let around = c.all(4);
        let tail = *c.all_of(&[0u8, 1, 0xFF]);
        let id = Id::fc(if rating { "rtng" } else { "stik" });
        for code in 0..=255u8 {
            if kind.is_text() && code >= 0x80 {
                continue;
            }
            let mut b = vec![if kind.is_text() { tail & 0x7F } else { tail }; len];
            if len > 0 {
                b[0] = code;
            }
            let v = Val::new(kind, &b);
            let vals = match around {
                0 => vec![v],
                1 => vec![v, Val::new(Kind::Reserved, &[2])],
                2 => vec![Val::s("\u{2}"), Val::new(Kind::Png, &[2]), v],
                _ => vec![v, Val::new(Kind::BeSigned, &[])],
            };
            let t = tag_of(&[(id.clone(), vals.clone()), (Id::fc(if rating { "stik" } else { "rtng" }), vec![Val::s("\u{1}")])]);
            let first = vals.iter().find(|v| v.kind.is_bytes()).and_then(|v| v.bytes.first().copied());
            for t in [&t, &must_read("reading the dump", &dumped(&t)?)?] {
                let m = guard("media_type", || t.media_type())?;
                let r = guard("advisory_rating", || t.advisory_rating())?;
                let (wm, wr) = match rating {
                    true => (None, first.map(|f| rating_of(f).0)),
                    false => (first.and_then(media_of).map(|m| m.0), None),
                };
                ensure!(m == wm, "media type of {:?} is {:?} instead of {:?}", vals, m, wm);
                ensure!(r == wr, "rating of {:?} is {:?} instead of {:?}", vals, r, wr);
                c.step(1);
            }
            // it has to be possible to print it as well
            guard("printing", || t.to_string())?;
        }
        c.label(if rating { "rating" } else { "media type" });
        Ok(())
    });

    // setters, from any stored first byte and after each other
    run.explore("setters", 0, |c| {
        let rating = c.all(2) == 1;
        let id = Id::fc(if rating { "rtng" } else { "stik" });
        let before = c.all(257);
        let (n, n2) = if rating { (c.all(3), c.all(4)) } else { (c.all(8), c.all(9)) };
        let mut t = Tag::default();
        if before < 256 {
            t.set_data(id.to_ident(), Data::Reserved(vec![before as u8, 7]));
            t.add_data(id.to_ident(), Data::Utf8("x".to_owned()));
        }
        for n in [n, n2] {
            let set = if rating {
                match RATINGS.get(n) {
                    Some((code, r, _)) => {
                        guard("set_advisory_rating", || t.set_advisory_rating(*r))?;
                        ensure!(t.advisory_rating() == Some(*r), "rating {:?} set, {:?} read", r, t.advisory_rating());
                        Some(*code)
                    }
                    None => {
                        guard("remove_advisory_rating", || t.remove_advisory_rating())?;
                        ensure!(t.advisory_rating().is_none(), "rating {:?} after removing it", t.advisory_rating());
                        None
                    }
                }
            } else {
                match MEDIA.get(n) {
                    Some((code, m, _)) => {
                        guard("set_media_type", || t.set_media_type(*m))?;
                        ensure!(t.media_type() == Some(*m), "media type {:?} set, {:?} read", m, t.media_type());
                        Some(*code)
                    }
                    None => {
                        guard("remove_media_type", || t.remove_media_type())?;
                        ensure!(t.media_type().is_none(), "media type {:?} after removing it", t.media_type());
                        None
                    }
                }
            };
            let want: Vec<Val> = set.iter().map(|c| Val::new(Kind::Reserved, &[*c])).collect();
            let got = stored_value(&t, &id)?;
            ensure!(got == want, "stored {:?} instead of {:?}", got, want);
            let r = must_read("reading the dump", &dumped(&t)?)?;
            ensure!(r.media_type() == t.media_type() && r.advisory_rating() == t.advisory_rating(), "other codes read back");
            c.step(2);
        }
        Ok(())
    });

    // audio codes, through files and through audio information given by the user
    run.explore("audio", 0, |c| {
        let freq = c.all(16) as u16;
        let chan = c.all(16) as u16;
        let profile = *c.all_of(&[0u16, 1, 2, 5, 29, 30]);
        let mut e = Esds { word: Some(word(profile, freq, chan)), ..Esds::default() };
        if freq == 15 {
            // the frequency follows in 24 bits, before the channel configuration
            let v: u64 = (profile as u64) << 59 | 15 << 55 | 44100 << 31 | (chan as u64) << 27;
            let b = v.to_be_bytes();
            e.word = Some(u16::from_be_bytes([b[0], b[1]]));
            e.word_tail = b[2..].to_vec();
        }
        let mut nodes = small_file(kids("ilst", vec![]));
        if let Body::Kids(_, k) = &mut nodes[1].body {
            k[1] = trak(vec![stsd(vec![mp4a(e.bytes())])]);
        }
        let t = must_read("read_from", &bytes_of(&nodes))?;
        let ch = CHANNELS.iter().find(|x| x.0 as u16 == chan);
        let sr = RATES.iter().find(|x| x.0 as u16 == freq);
        ensure!(t.channel_config() == ch.map(|x| x.1), "channel configuration {} is {:?}", chan, t.channel_config());
        ensure!(t.sample_rate() == sr.map(|x| x.1), "frequency index {} is {:?}", freq, t.sample_rate());
        let s = t.to_string();
        for (what, name) in [("channel config: ", ch.map(|x| x.3.to_owned())), ("sample rate: ", sr.map(|x| format!("{}Hz", x.2)))] {
            let got = s.lines().find_map(|l| l.strip_prefix(what));
            ensure!(got == name.as_deref(), "{}{:?} is printed instead of {:?}", what, got, name);
        }
        let info = AudioInfo { channel_config: ch.map(|x| x.1), sample_rate: sr.map(|x| x.1), ..AudioInfo::default() };
        let u = Tag::new(String::new(), info, Vec::new());
        ensure!(u.channel_config() == ch.map(|x| x.1) && u.sample_rate() == sr.map(|x| x.1), "audio information isn't kept");
        c.step(3);
        Ok(())
    });
}

// ---------------------------------------------------------------------------------------------
// C21

fn some_ids() -> Vec<Id> {
    let mut v = Vec::new();
    // each byte value at each position, two ordinary codes, and all differing in case or order
    for base in [*b"abcd", [0xA9, b'n', b'a', b'm']] {
        for i in 0..4 {
            for x in 0..=255 {
                let mut f = base;
                f[i] = x;
                v.push(Id::Fc(f));
            }
        }
    }
    for f in [*b"----", *b"---:", *b"ABCD", *b"Abcd", *b"dcba", *b"badc", *b"    ", [0; 4], [0xFF; 4], *b"mean", *b"name", *b"data"] {
        v.push(Id::Fc(f));
    }
    let mut strings: Vec<String> = vec![String::new()];
    for a in ["a", "b", ":", "\u{e9}", "A"] {
        strings.push(a.to_owned());
        for b in ["a", "b", ":", "\u{e9}"] {
            strings.push(format!("{}{}", a, b));
        }
    }
    for s in ["----", "abcd", "com.apple.iTunes", "com.apple.itunes", "ISRC", "isrc", "ISRC ", "\u{c3}\u{a9}", "e\u{301}", "a\0"] {
        strings.push(s.to_owned());
    }
    for m in &strings {
        for n in &strings {
            v.push(Id::free(m, n));
        }
    }
    v.sort();
    v.dedup();
    v
}

/// An identifier in each of its kinds.
enum Any<'a> {
    Fc(Fourcc),
    Free(FreeformIdent<'a>),
    Data(DataIdent),
}

fn kinds_of(i: &Id) -> Vec<Any<'_>> {
    match i {
        Id::Fc(f) => vec![Any::Fc(Fourcc(*f)), Any::Data(i.to_ident())],
        Id::Free(m, n) => vec![Any::Free(FreeformIdent::new(m, n)), Any::Data(i.to_ident())],
    }
}

fn matches(a: &Any, b: &Any) -> bool {
    match (a, b) {
        (Any::Fc(a), Any::Fc(b)) => idents_match(a, b),
        (Any::Fc(a), Any::Free(b)) => idents_match(a, b),
        (Any::Fc(a), Any::Data(b)) => idents_match(a, b),
        (Any::Free(a), Any::Fc(b)) => idents_match(a, b),
        (Any::Free(a), Any::Free(b)) => idents_match(a, b),
        (Any::Free(a), Any::Data(b)) => idents_match(a, b),
        (Any::Data(a), Any::Fc(b)) => idents_match(a, b),
        (Any::Data(a), Any::Free(b)) => idents_match(a, b),
        (Any::Data(a), Any::Data(b)) => idents_match(a, b),
    }
}

/// Equality, where it's defined.
fn equal(a: &Any, b: &Any) -> Option<bool> {
    Some(match (a, b) {
        (Any::Fc(a), Any::Fc(b)) => {
            if (a == b) == (a != b) {
                return Some(false);
            }
            a == b
        }
        (Any::Free(a), Any::Free(b)) => a == b,
        (Any::Data(a), Any::Data(b)) => a == b,
        (Any::Fc(a), Any::Data(b)) => a == b,
        (Any::Free(a), Any::Data(b)) => a == b,
        _ => return None,
    })
}

fn lookup(t: &mut Tag, i: &Any, op: usize) -> usize {
    macro_rules! with {
        ($i:expr) => {
            match op {
                0 => t.data_of($i).count(),
                1 => t.strings_of($i).count(),
                2 => t.data_mut_of($i).count(),
                3 => t.strings_mut_of($i).count(),
                4 => {
                    t.retain_data_of($i, |_| true);
                    t.data().count()
                }
                5 => {
                    t.remove_strings_of($i);
                    t.data().count()
                }
                6 => {
                    t.remove_data_of($i);
                    t.data().count()
                }
                7 => t.take_strings_of($i).count(),
                _ => t.take_data_of($i).count(),
            }
        };
    }
    match i {
        Any::Fc(i) => with!(i),
        Any::Free(i) => with!(i),
        Any::Data(i) => with!(i),
    }
}

fn set(t: &mut Tag, i: &Any, add: bool) {
    let d = Data::Utf8("y".to_owned());
    match (i, add) {
        (Any::Fc(i), false) => t.set_data(*i, d),
        (Any::Free(i), false) => t.set_data(i.clone(), d),
        (Any::Data(i), false) => t.set_data(i.clone(), d),
        (Any::Fc(i), true) => t.add_data(*i, d),
        (Any::Free(i), true) => t.add_data(i.clone(), d),
        (Any::Data(i), true) => t.add_data(i.clone(), d),
    }
}

fn shown(i: &Id) -> String {
    match i {
        Id::Fc(f) => f.iter().map(|b| *b as char).collect(),
        Id::Free(m, n) => format!("----:{}:{}", m, n),
    }
}

fn c21(run: &mut Run) {
    let ids = some_ids();

    run.explore("pairs", 0, |c| {
        let a = c.all_of(&ids);
        let ka = kinds_of(a);
        for b in &ids {
            let kb = kinds_of(b);
            let same = a == b;
            for x in &ka {
                for y in &kb {
                    let m = matches(x, y);
                    ensure!(m == same, "identifiers {:?} and {:?} {}match", a, b, if m { "" } else { "don't " });
                    if let Some(e) = equal(x, y) {
                        ensure!(e == same, "identifiers {:?} and {:?} are {}equal", a, b, if e { "" } else { "not " });
                    }
                }
            }
            c.step((ka.len() * kb.len()) as u64);
        }
        c.label(if matches!(a, Id::Fc(_)) { "four-character code" } else { "freeform" });
        c.sample(|| format!("{:?} with {} others", a, ids.len()));
        Ok(())
    });

    // conversions and printing
    run.explore("conversions", 0, |c| {
        let a = c.all_of(&ids);
        let d = a.to_ident();
        let printed = shown(a);
        ensure!(d.to_string() == printed, "{:?} is printed as {}", a, d);
        match a {
            Id::Fc(f) => {
                let x = Fourcc(*f);
                ensure!(x.fourcc() == Some(x) && x.freeform().is_none(), "parts of {:?}", a);
                ensure!(d.fourcc() == Some(x) && d.freeform().is_none(), "parts of {:?}", d);
                ensure!(DataIdent::from(x) == d && DataIdent::fourcc(*f) == d, "conversion of {:?}", a);
                ensure!(x.to_string() == printed, "{:?} is printed as {}", a, x);
                ensure!(*x == *f, "{:?} has bytes {:?}", a, *x);
                let mut y = Fourcc::default();
                *y = *f;
                ensure!(y == x && y.0 == *f, "assigned {:?}", a);
            }
            Id::Free(m, n) => {
                let x = FreeformIdent::new(m, n);
                ensure!(x.mean == m && x.name == n, "parts of {:?}", a);
                ensure!(x.fourcc().is_none() && x.freeform() == Some(x.clone()), "parts of {:?}", a);
                ensure!(d.fourcc().is_none() && d.freeform() == Some(x.clone()), "parts of {:?}", d);
                ensure!(DataIdent::from(x.clone()) == d && DataIdent::from(&x) == d, "conversion of {:?}", a);
                ensure!(DataIdent::freeform(m.as_str(), n.as_str()) == d && DataIdent::freeform(m.clone(), n.clone()) == d, "construction of {:?}", a);
                ensure!(x.to_string() == printed, "{:?} is printed as {}", a, x);
            }
        }
        c.step(1);
        Ok(())
    });

    // values are found by the same identifiers only, in each kind, also after storing
    let limit = run.tiered(120usize, usize::MAX);
    run.explore("lookup", 0, |c| {
        let a = c.all_of(&ids);
        let through = c.all(2) == 1;
        let mut t = Tag::default();
        t.set_data(a.to_ident(), Data::Utf8("x".to_owned()));
        if through {
            // codes of the hierarchy can't be items of their own
            if matches!(a, Id::Fc(f) if f == b"----" || f == b"free" || f == &[0; 4]) {
                c.label("not storable");
                return Ok(());
            }
            t = must_read("reading the dump", &dumped(&t)?)?;
        }
        // the neighbours of an identifier, and itself
        let at = ids.iter().position(|i| i == a).unwrap_or(0);
        let others: Vec<&Id> = ids
            .iter()
            .enumerate()
            .filter(|(i, b)| i.abs_diff(at) <= limit / 2 || limit > ids.len() || near(a, b))
            .map(|(_, b)| b)
            .collect();
        for b in others {
            let same = a == b;
            for k in kinds_of(b) {
                for op in 0..4 {
                    let n = lookup(&mut t, &k, op);
                    ensure!(n == same as usize, "a value of {:?} is found {} times by {:?} (operation {})", a, n, b, op);
                }
                c.step(4);
                for op in 4..9 {
                    let mut u = t.clone();
                    let n = lookup(&mut u, &k, op);
                    let want = match op {
                        4 => 1,
                        5 | 6 => !same as usize,
                        _ => same as usize,
                    };
                    ensure!(n == want, "a value of {:?}, operation {} with {:?}: {} instead of {}", a, op, b, n, want);
                    let left = u.data().count();
                    let want = (op == 4 || !same) as usize;
                    ensure!(left == want, "a value of {:?}, operation {} with {:?}: {} values left", a, op, b, left);
                    c.step(1);
                }
                for add in [false, true] {
                    let mut u = t.clone();
                    set(&mut u, &k, add);
                    let want = match (same, add) {
                        (true, false) => map_of(&[(a.clone(), vec![Val::s("y")])]),
                        (true, true) => map_of(&[(a.clone(), vec![Val::s("x"), Val::s("y")])]),
                        _ => map_of(&[(a.clone(), vec![Val::s("x")]), (b.clone(), vec![Val::s("y")])]),
                    };
                    same_items(&format!("{:?} stored next to {:?}", b, a), &items_of(&u)?, &want)?;
                    c.step(1);
                }
            }
        }
        Ok(())
    });

    // pairs of freeform identifiers that are stored together remain apart
    let pairs: Vec<&Id> = ids.iter().filter(|i| matches!(i, Id::Free(m, n) if m.len() + n.len() <= 3)).collect();
    run.explore("stored-together", 0, |c| {
        let a = *c.all_of(&pairs);
        for b in &pairs {
            if a == *b {
                continue;
            }
            let items = [(a.clone(), vec![Val::s("1")]), ((*b).clone(), vec![Val::s("2"), Val::s("3")])];
            let t = must_read("reading the dump", &dumped(&tag_of(&items))?)?;
            check_items("read back", &t, &map_of(&items))?;
            c.step(1);
        }
        Ok(())
    });
}

/// Whether two identifiers are easily confused.
fn near(a: &Id, b: &Id) -> bool {
    match (a, b) {
        (Id::Fc(x), Id::Fc(y)) => x.iter().zip(y).filter(|(a, b)| a != b).count() <= 1,
        (Id::Free(m, n), Id::Free(o, p)) => m == o || n == p || format!("{}:{}", m, n) == format!("{}:{}", o, p),
        (Id::Free(m, n), Id::Fc(f)) | (Id::Fc(f), Id::Free(m, n)) => f == b"----" || m.as_bytes() == f || n.as_bytes() == f,
    }
}
