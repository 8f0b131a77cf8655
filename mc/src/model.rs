//! Reference model of tags: identifiers mapped to ordered lists of typed values, and the stored
//! encoding of values, written down from the documentation and independent of the crate.

use std::collections::BTreeMap;

use mp4ameta::{Data, DataIdent, Fourcc, Tag};

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Id {
    Fc([u8; 4]),
    Free(String, String),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Kind {
    Reserved,
    Utf8,
    Utf16,
    Jpeg,
    Png,
    BeSigned,
    Bmp,
}

pub const KINDS: [Kind; 7] =
    [Kind::Reserved, Kind::Utf8, Kind::Utf16, Kind::Jpeg, Kind::Png, Kind::BeSigned, Kind::Bmp];

impl Kind {
    pub fn code(self) -> u32 {
        match self {
            Kind::Reserved => 0,
            Kind::Utf8 => 1,
            Kind::Utf16 => 2,
            Kind::Jpeg => 13,
            Kind::Png => 14,
            Kind::BeSigned => 21,
            Kind::Bmp => 27,
        }
    }
    pub fn is_text(self) -> bool {
        matches!(self, Kind::Utf8 | Kind::Utf16)
    }
    pub fn is_bytes(self) -> bool {
        matches!(self, Kind::Reserved | Kind::BeSigned)
    }
    pub fn is_image(self) -> bool {
        matches!(self, Kind::Jpeg | Kind::Png | Kind::Bmp)
    }
}

/// A value; text content is kept as code points, everything else as bytes.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Val {
    pub kind: Kind,
    pub bytes: Vec<u8>,
}

pub type Items = BTreeMap<Id, Vec<Val>>;

impl Val {
    pub fn new(kind: Kind, bytes: &[u8]) -> Self {
        Val { kind, bytes: bytes.to_vec() }
    }
    pub fn s(s: &str) -> Self {
        Val::new(Kind::Utf8, s.as_bytes())
    }
    pub fn s16(s: &str) -> Self {
        Val::new(Kind::Utf16, s.as_bytes())
    }

    /// The bytes a data atom stores for this value.
    pub fn stored(&self) -> Vec<u8> {
        match self.kind {
            Kind::Utf16 => utf16_be(std::str::from_utf8(&self.bytes).unwrap()),
            _ => self.bytes.clone(),
        }
    }

    pub fn to_data(&self) -> Data {
        let b = self.bytes.clone();
        match self.kind {
            Kind::Reserved => Data::Reserved(b),
            Kind::Utf8 => Data::Utf8(String::from_utf8(b).unwrap()),
            Kind::Utf16 => Data::Utf16(String::from_utf8(b).unwrap()),
            Kind::Jpeg => Data::Jpeg(b),
            Kind::Png => Data::Png(b),
            Kind::BeSigned => Data::BeSigned(b),
            Kind::Bmp => Data::Bmp(b),
        }
    }

    pub fn of_kind(d: &Data) -> Kind {
        match d {
            Data::Reserved(_) => Kind::Reserved,
            Data::Utf8(_) => Kind::Utf8,
            Data::Utf16(_) => Kind::Utf16,
            Data::Jpeg(_) => Kind::Jpeg,
            Data::Png(_) => Kind::Png,
            Data::BeSigned(_) => Kind::BeSigned,
            Data::Bmp(_) => Kind::Bmp,
        }
    }

    pub fn of(d: &Data) -> Self {
        match d {
            Data::Reserved(b) => Val::new(Kind::Reserved, b),
            Data::Utf8(s) => Val::new(Kind::Utf8, s.as_bytes()),
            Data::Utf16(s) => Val::new(Kind::Utf16, s.as_bytes()),
            Data::Jpeg(b) => Val::new(Kind::Jpeg, b),
            Data::Png(b) => Val::new(Kind::Png, b),
            Data::BeSigned(b) => Val::new(Kind::BeSigned, b),
            Data::Bmp(b) => Val::new(Kind::Bmp, b),
        }
    }
}

/// Big-endian UTF-16, from the definition.
pub fn utf16_be(s: &str) -> Vec<u8> {
    let mut v = Vec::new();
    for c in s.chars() {
        let c = c as u32;
        if c < 0x10000 {
            v.extend_from_slice(&[(c >> 8) as u8, c as u8]);
        } else {
            let c = c - 0x10000;
            let (h, l) = (0xD800 + (c >> 10), 0xDC00 + (c & 0x3FF));
            v.extend_from_slice(&[(h >> 8) as u8, h as u8, (l >> 8) as u8, l as u8]);
        }
    }
    v
}

/// Decodes big-endian UTF-16, from the definition; None if it isn't well-formed.
pub fn utf16_decode(b: &[u8]) -> Option<String> {
    if b.len() % 2 != 0 {
        return None;
    }
    let u: Vec<u32> = b.chunks(2).map(|c| (c[0] as u32) << 8 | c[1] as u32).collect();
    let mut s = String::new();
    let mut i = 0;
    while i < u.len() {
        let c = match u[i] {
            0xD800..=0xDBFF => {
                i += 1;
                match u.get(i) {
                    Some(l @ 0xDC00..=0xDFFF) => 0x10000 + ((u[i - 1] - 0xD800) << 10) + (l - 0xDC00),
                    _ => return None,
                }
            }
            0xDC00..=0xDFFF => return None,
            c => c,
        };
        s.push(char::from_u32(c)?);
        i += 1;
    }
    Some(s)
}

/// Whether bytes are well-formed UTF-8, from the definition (Unicode table 3-7).
pub fn utf8_valid(b: &[u8]) -> bool {
    let mut i = 0;
    while i < b.len() {
        let cont = |k: usize, lo: u8, hi: u8| matches!(b.get(i + k), Some(x) if *x >= lo && *x <= hi);
        let n = match b[i] {
            0x00..=0x7F => 1,
            0xC2..=0xDF if cont(1, 0x80, 0xBF) => 2,
            0xE0 if cont(1, 0xA0, 0xBF) && cont(2, 0x80, 0xBF) => 3,
            0xED if cont(1, 0x80, 0x9F) && cont(2, 0x80, 0xBF) => 3,
            0xE1..=0xEC | 0xEE..=0xEF if cont(1, 0x80, 0xBF) && cont(2, 0x80, 0xBF) => 3,
            0xF0 if cont(1, 0x90, 0xBF) && cont(2, 0x80, 0xBF) && cont(3, 0x80, 0xBF) => 4,
            0xF1..=0xF3 if cont(1, 0x80, 0xBF) && cont(2, 0x80, 0xBF) && cont(3, 0x80, 0xBF) => 4,
            0xF4 if cont(1, 0x80, 0x8F) && cont(2, 0x80, 0xBF) && cont(3, 0x80, 0xBF) => 4,
            _ => return false,
        };
        i += n;
    }
    true
}

impl Id {
    pub fn fc(s: &str) -> Self {
        Id::Fc(fcc(s))
    }
    pub fn free(m: &str, n: &str) -> Self {
        Id::Free(m.to_owned(), n.to_owned())
    }
    pub fn to_ident(&self) -> DataIdent {
        match self {
            Id::Fc(f) => DataIdent::Fourcc(Fourcc(*f)),
            Id::Free(m, n) => DataIdent::Freeform { mean: m.clone(), name: n.clone() },
        }
    }
    pub fn of(i: &DataIdent) -> Self {
        match i {
            DataIdent::Fourcc(Fourcc(f)) => Id::Fc(*f),
            DataIdent::Freeform { mean, name } => Id::Free(mean.clone(), name.clone()),
        }
    }
}

/// Four bytes of a code written with `©` for 0xA9.
pub fn fcc(s: &str) -> [u8; 4] {
    let v: Vec<u8> = s.chars().map(|c| c as u32 as u8).collect();
    [v[0], v[1], v[2], v[3]]
}

/// The items of a tag, as seen through its public interface. Fails if one identifier is listed in
/// two places.
pub fn items_of(tag: &Tag) -> Result<Items, String> {
    let mut m = Items::new();
    let mut last: Option<Id> = None;
    for (i, d) in tag.data() {
        let id = Id::of(i);
        if last.as_ref() != Some(&id) && m.contains_key(&id) {
            return Err(format!("identifier {:?} is listed in two places", id));
        }
        m.entry(id.clone()).or_default().push(Val::of(d));
        last = Some(id);
    }
    Ok(m)
}

pub fn tag_of(items: &[(Id, Vec<Val>)]) -> Tag {
    let mut t = Tag::default();
    for (i, vs) in items {
        for v in vs {
            t.add_data(i.to_ident(), v.to_data());
        }
    }
    t
}

pub fn map_of(items: &[(Id, Vec<Val>)]) -> Items {
    let mut m = Items::new();
    for (i, vs) in items {
        if !vs.is_empty() {
            m.entry(i.clone()).or_default().extend(vs.iter().cloned());
        }
    }
    m
}

pub fn show_items(m: &Items) -> String {
    let mut s = String::new();
    for (i, vs) in m {
        s.push_str(&match i {
            Id::Fc(f) => f.iter().map(|b| *b as char).collect::<String>(),
            Id::Free(m, n) => format!("----:{}:{}", m, n),
        });
        s.push('=');
        for v in vs {
            let b: String = if v.bytes.len() > 12 {
                format!("<{} bytes>", v.bytes.len())
            } else {
                v.bytes.iter().map(|b| format!("{:02x}", b)).collect()
            };
            s.push_str(&format!("{:?}:{} ", v.kind, b));
        }
    }
    s
}

pub fn same_items(what: &str, got: &Items, want: &Items) -> Result<(), String> {
    if got == want {
        return Ok(());
    }
    let cut = |s: String| if s.len() > 400 { s.chars().take(400).collect() } else { s };
    Err(format!("{}: got [{}] instead of [{}]", what, cut(show_items(got)), cut(show_items(want))))
}
