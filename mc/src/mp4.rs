//! An independent model of MP4 files: atom trees, their encoding, and a strict parser.

use std::fs::File;

use crate::model::*;
use crate::sys;

/// What a chunk offset addresses.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Target {
    /// byte `off` of the payload of the `n`th top level mdat atom
    Media(usize, u64),
    Raw(u64),
}

#[derive(Clone, Debug)]
pub enum Body {
    Leaf(Vec<u8>),
    /// a payload of this length, all zero (not stored), except for its first and last bytes
    Hole(u64, Vec<u8>, Vec<u8>),
    Kids(Vec<u8>, Vec<Node>),
    Stco(Vec<Target>),
    Co64(Vec<Target>),
    /// a table, 64 bits wide or not, with flags
    Flagged([u8; 3], bool, Vec<Target>),
}

#[derive(Clone, Debug)]
pub struct Node {
    pub cc: [u8; 4],
    pub ext: bool,
    pub body: Body,
}

pub fn leaf(cc: &str, bytes: &[u8]) -> Node {
    Node { cc: fcc(cc), ext: false, body: Body::Leaf(bytes.to_vec()) }
}

pub fn kids(cc: &str, k: Vec<Node>) -> Node {
    Node { cc: fcc(cc), ext: false, body: Body::Kids(Vec::new(), k) }
}

pub fn full(cc: &str, prefix: &[u8], k: Vec<Node>) -> Node {
    Node { cc: fcc(cc), ext: false, body: Body::Kids(prefix.to_vec(), k) }
}

impl Node {
    pub fn ext(mut self, e: bool) -> Self {
        self.ext = e;
        self
    }

    pub fn head(&self) -> u64 {
        if self.ext {
            16
        } else {
            8
        }
    }

    pub fn len(&self) -> u64 {
        self.head()
            + match &self.body {
                Body::Leaf(b) => b.len() as u64,
                Body::Hole(n, _, _) => *n,
                Body::Kids(p, k) => p.len() as u64 + k.iter().map(|n| n.len()).sum::<u64>(),
                Body::Stco(t) => 8 + 4 * t.len() as u64,
                Body::Co64(t) => 8 + 8 * t.len() as u64,
                Body::Flagged(_, wide, t) => 8 + if *wide { 8 } else { 4 } * t.len() as u64,
            }
    }

    pub fn kids_mut(&mut self) -> &mut Vec<Node> {
        match &mut self.body {
            Body::Kids(_, k) => k,
            _ => crate::engine::harness_error("not a container"),
        }
    }
}

/// Encoded bytes; holes are left out.
#[derive(Clone, Debug, Default)]
pub struct Image {
    pub segs: Vec<(u64, Vec<u8>)>,
    pub len: u64,
}

impl Image {
    fn put(&mut self, b: &[u8]) {
        match self.segs.last_mut() {
            Some((p, s)) if *p + s.len() as u64 == self.len => s.extend_from_slice(b),
            _ => self.segs.push((self.len, b.to_vec())),
        }
        self.len += b.len() as u64;
    }

    pub fn bytes(&self) -> Vec<u8> {
        let mut v = vec![0u8; self.len as usize];
        for (p, s) in &self.segs {
            v[*p as usize..*p as usize + s.len()].copy_from_slice(s);
        }
        v
    }

    pub fn to_file(&self) -> File {
        let f = sys::memfd();
        sys::truncate(&f, self.len);
        for (p, s) in &self.segs {
            sys::put_at(&f, *p, s);
        }
        sys::rewind(&f);
        f
    }
}

/// Positions of the payloads of the top level mdat atoms.
pub fn media_positions(nodes: &[Node]) -> Vec<u64> {
    let mut pos = 0;
    let mut v = Vec::new();
    for n in nodes {
        if n.cc == *b"mdat" {
            v.push(pos + n.head());
        }
        pos += n.len();
    }
    v
}

pub fn encode(nodes: &[Node]) -> Image {
    let media = media_positions(nodes);
    let mut img = Image::default();
    for n in nodes {
        enc(n, &media, &mut img);
    }
    img
}

pub fn bytes_of(nodes: &[Node]) -> Vec<u8> {
    encode(nodes).bytes()
}

fn enc(n: &Node, media: &[u64], o: &mut Image) {
    let len = n.len();
    if n.ext {
        o.put(&[0, 0, 0, 1]);
        o.put(&n.cc);
        o.put(&len.to_be_bytes());
    } else {
        if len > u32::MAX as u64 {
            crate::engine::harness_error("atom too long for its head");
        }
        o.put(&(len as u32).to_be_bytes());
        o.put(&n.cc);
    }
    let table = |o: &mut Image, f: [u8; 3], wide: bool, t: &[Target]| {
        o.put(&[0, f[0], f[1], f[2]]);
        o.put(&(t.len() as u32).to_be_bytes());
        for t in t {
            let v = match t {
                Target::Media(m, off) => media[*m] + off,
                Target::Raw(o) => *o,
            };
            if wide {
                o.put(&v.to_be_bytes());
            } else if v > u32::MAX as u64 {
                crate::engine::harness_error("offset too large for stco");
            } else {
                o.put(&(v as u32).to_be_bytes());
            }
        }
    };
    match &n.body {
        Body::Leaf(b) => o.put(b),
        Body::Hole(len, a, z) => {
            o.put(a);
            o.len += len - a.len() as u64 - z.len() as u64;
            o.put(z);
        }
        Body::Kids(p, k) => {
            o.put(p);
            for c in k {
                enc(c, media, o);
            }
        }
        Body::Stco(t) => table(o, [0; 3], false, t),
        Body::Co64(t) => table(o, [0; 3], true, t),
        Body::Flagged(f, wide, t) => table(o, *f, *wide, t),
    }
}

/// Sets the flags of every atom that has some.
pub fn set_flags(n: &mut Node, f: [u8; 3]) {
    let full: [&[u8; 4]; 8] = [b"mvhd", b"meta", b"hdlr", b"stsd", b"esds", b"mean", b"name", b"stsz"];
    let has = full.contains(&&n.cc);
    match &mut n.body {
        Body::Leaf(b) if has && b.len() >= 4 => b[1..4].copy_from_slice(&f),
        Body::Kids(p, k) => {
            if has && p.len() >= 4 {
                p[1..4].copy_from_slice(&f);
            }
            for x in k.iter_mut() {
                if n.cc == *b"mp4a" && x.cc == *b"esds" || n.cc != *b"mp4a" {
                    set_flags(x, f);
                }
            }
        }
        Body::Stco(t) => n.body = Body::Flagged(f, false, std::mem::take(t)),
        Body::Co64(t) => n.body = Body::Flagged(f, true, std::mem::take(t)),
        _ => (),
    }
}

// ---------------------------------------------------------------------------------------------
// strict parser

pub trait Src {
    fn size(&self) -> u64;
    fn get(&self, pos: u64, len: usize) -> Vec<u8>;
}

impl Src for [u8] {
    fn size(&self) -> u64 {
        self.len() as u64
    }
    fn get(&self, pos: u64, len: usize) -> Vec<u8> {
        let a = (pos as usize).min(self.len());
        let b = (a + len).min(self.len());
        self[a..b].to_vec()
    }
}

impl Src for File {
    fn size(&self) -> u64 {
        sys::len(self)
    }
    fn get(&self, pos: u64, len: usize) -> Vec<u8> {
        sys::get_at(self, pos, len)
    }
}

#[derive(Clone, Debug)]
pub struct P {
    pub cc: [u8; 4],
    pub pos: u64,
    pub head: u64,
    pub len: u64,
    pub prefix: Vec<u8>,
    /// children, for containers
    pub kids: Option<Vec<P>>,
}

impl P {
    pub fn payload(&self) -> u64 {
        self.pos + self.head
    }
    pub fn payload_len(&self) -> u64 {
        self.len - self.head
    }
    pub fn name(&self) -> String {
        self.cc.iter().map(|b| *b as char).collect()
    }
    pub fn kid(&self, cc: &[u8; 4]) -> Option<&P> {
        self.kids.as_ref().and_then(|k| k.iter().find(|n| n.cc == *cc))
    }
    pub fn kids(&self) -> &[P] {
        self.kids.as_deref().unwrap_or(&[])
    }
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum Place {
    Top,
    Moov,
    Trak,
    Mdia,
    Minf,
    Stbl,
    Udta,
    Meta,
    Ilst,
    Item,
}

/// Parses a complete file; every atom has to end within its parent, and the children of each
/// container have to fill it exactly.
pub fn parse<S: Src + ?Sized>(src: &S) -> Result<Vec<P>, String> {
    level(src, 0, src.size(), Place::Top, "file")
}

fn level<S: Src + ?Sized>(src: &S, mut pos: u64, end: u64, place: Place, path: &str) -> Result<Vec<P>, String> {
    let mut v = Vec::new();
    while pos < end {
        if end - pos < 8 {
            return Err(format!("{} stray bytes at {} at the end of {}", end - pos, pos, path));
        }
        let h = src.get(pos, 16);
        if h.len() < 8 {
            return Err(format!("{} at {} is cut off", path, pos));
        }
        let l = u32::from_be_bytes([h[0], h[1], h[2], h[3]]) as u64;
        let cc = [h[4], h[5], h[6], h[7]];
        let (head, len) = if l == 1 {
            if h.len() < 16 {
                return Err(format!("extended head at {} in {} is cut off", pos, path));
            }
            (16, u64::from_be_bytes([h[8], h[9], h[10], h[11], h[12], h[13], h[14], h[15]]))
        } else {
            (8, l)
        };
        let name: String = cc.iter().map(|b| *b as char).collect();
        if len < head || len > end - pos {
            return Err(format!("atom {} at {} in {} has length {} with {} bytes left", name, pos, path, len, end - pos));
        }
        let sub = match (place, &cc) {
            (Place::Top, b"moov") => Some((Place::Moov, 0)),
            (Place::Moov, b"trak") => Some((Place::Trak, 0)),
            (Place::Moov, b"udta") => Some((Place::Udta, 0)),
            (Place::Trak, b"mdia") => Some((Place::Mdia, 0)),
            (Place::Mdia, b"minf") => Some((Place::Minf, 0)),
            (Place::Minf, b"stbl") => Some((Place::Stbl, 0)),
            (Place::Udta, b"meta") => Some((Place::Meta, 4)),
            (Place::Meta, b"ilst") => Some((Place::Ilst, 0)),
            (Place::Ilst, b"free") => None,
            (Place::Ilst, _) => Some((Place::Item, 0)),
            _ => None,
        };
        let mut p = P { cc, pos, head, len, prefix: Vec::new(), kids: None };
        if let Some((pl, pre)) = sub {
            if len < head + pre {
                return Err(format!("atom {} at {} is shorter than its head", name, pos));
            }
            p.prefix = src.get(pos + head, pre as usize);
            p.kids = Some(level(src, pos + head + pre, pos + len, pl, &format!("{}/{}", path, name))?);
        }
        v.push(p);
        pos += len;
    }
    Ok(v)
}

pub fn find_ilst(top: &[P]) -> Option<&P> {
    let moov = top.iter().find(|n| n.cc == *b"moov")?;
    moov.kid(b"udta")?.kid(b"meta")?.kid(b"ilst")
}

/// The items stored in an item list, decoded from the definition of the format.
pub fn stored_items<S: Src + ?Sized>(src: &S, ilst: &P) -> Result<Items, String> {
    let mut m = Items::new();
    for item in ilst.kids() {
        if item.cc == *b"free" {
            continue;
        }
        let mut mean = None;
        let mut name = None;
        let mut vals = Vec::new();
        for c in item.kids() {
            let b = src.get(c.payload(), c.payload_len() as usize);
            match &c.cc {
                b"mean" | b"name" => {
                    if b.len() < 4 || b[..4] != [0; 4] {
                        return Err(format!("bad {} atom in item {}", c.name(), item.name()));
                    }
                    let s = match utf8_valid(&b[4..]) {
                        true => String::from_utf8(b[4..].to_vec()).unwrap(),
                        false => return Err("mean or name is not valid utf-8".to_owned()),
                    };
                    match &c.cc {
                        b"mean" => mean = Some(s),
                        _ => name = Some(s),
                    }
                }
                b"data" => {
                    if b.len() < 8 || b[0] != 0 {
                        return Err(format!("bad data atom in item {}", item.name()));
                    }
                    let code = u32::from_be_bytes([0, b[1], b[2], b[3]]);
                    let kind = match KINDS.iter().find(|k| k.code() == code) {
                        Some(k) => *k,
                        None => return Err(format!("unknown type {} in item {}", code, item.name())),
                    };
                    let b = &b[8..];
                    let bytes = match kind {
                        Kind::Utf16 => match utf16_decode(b) {
                            Some(s) => s.into_bytes(),
                            None => return Err("invalid utf-16".to_owned()),
                        },
                        Kind::Utf8 if !utf8_valid(b) => return Err("invalid utf-8".to_owned()),
                        _ => b.to_vec(),
                    };
                    vals.push(Val { kind, bytes });
                }
                _ => (),
            }
        }
        let id = match (&item.cc, mean, name) {
            (b"----", Some(m), Some(n)) => Id::Free(m, n),
            _ => Id::Fc(item.cc),
        };
        m.entry(id).or_default().extend(vals);
    }
    Ok(m)
}

// ---------------------------------------------------------------------------------------------
// relations between the file before and after a write

fn same_leaf<S: Src + ?Sized, T: Src + ?Sized>(old: &S, a: &P, new: &T, b: &P, path: &str) -> Result<(), String> {
    let (la, lb) = (a.payload_len(), b.payload_len());
    if la != lb {
        return Err(format!("payload of {}/{} has {} bytes instead of {}", path, a.name(), lb, la));
    }
    const BIG: u64 = 1 << 22;
    let ranges: Vec<(u64, u64)> = if la <= BIG { vec![(0, la)] } else { vec![(0, 65536), (la - 65536, 65536)] };
    for (o, n) in ranges {
        if old.get(a.payload() + o, n as usize) != new.get(b.payload() + o, n as usize) {
            return Err(format!("payload bytes of {}/{} changed", path, a.name()));
        }
    }
    Ok(())
}

/// Everything but the item list and the chunk offset values is the same, and missing parents of the
/// item list were created exactly once.
pub fn preserved<S: Src + ?Sized, T: Src + ?Sized>(old: &S, op: &[P], new: &T, np: &[P]) -> Result<(), String> {
    same_kids(old, op, new, np, Place::Top, "")
}

fn same_kids<S: Src + ?Sized, T: Src + ?Sized>(
    old: &S,
    a: &[P],
    new: &T,
    b: &[P],
    place: Place,
    path: &str,
) -> Result<(), String> {
    let creatable: &[&[u8; 4]] = match place {
        Place::Moov => &[b"udta"],
        Place::Udta => &[b"meta"],
        Place::Meta => &[b"hdlr", b"ilst"],
        _ => &[],
    };
    let mut created: Vec<&P> = Vec::new();
    let mut kept: Vec<&P> = Vec::new();
    for n in b {
        let may = creatable.iter().any(|c| n.cc == **c)
            && !a.iter().any(|o| o.cc == n.cc)
            && !created.iter().any(|c| c.cc == n.cc);
        if may {
            created.push(n);
        } else {
            kept.push(n);
        }
    }
    let names = |v: &[&P]| v.iter().map(|n| n.name()).collect::<Vec<_>>().join(",");
    if a.len() != kept.len() || a.iter().zip(&kept).any(|(x, y)| x.cc != y.cc) {
        return Err(format!(
            "children of {}/ are [{}] instead of [{}]",
            path,
            b.iter().map(|n| n.name()).collect::<Vec<_>>().join(","),
            names(&a.iter().collect::<Vec<_>>())
        ));
    }
    for (x, y) in a.iter().zip(&kept) {
        let sub = match (place, &x.cc) {
            (Place::Top, b"moov") => Some(Place::Moov),
            (Place::Moov, b"trak") => Some(Place::Trak),
            (Place::Moov, b"udta") => Some(Place::Udta),
            (Place::Trak, b"mdia") => Some(Place::Mdia),
            (Place::Mdia, b"minf") => Some(Place::Minf),
            (Place::Minf, b"stbl") => Some(Place::Stbl),
            (Place::Udta, b"meta") => Some(Place::Meta),
            _ => None,
        };
        let p = format!("{}/{}", path, x.name());
        match (sub, place, &x.cc) {
            (Some(pl), _, _) => {
                if x.prefix != y.prefix {
                    return Err(format!("head of {} changed", p));
                }
                same_kids(old, x.kids(), new, y.kids(), pl, &p)?;
            }
            (_, Place::Meta, b"ilst") => (),
            (_, Place::Stbl, b"stco") | (_, Place::Stbl, b"co64") => {
                if x.payload_len() != y.payload_len() {
                    return Err(format!("length of {} changed", p));
                }
                if old.get(x.payload(), 8) != new.get(y.payload(), 8) {
                    return Err(format!("head of {} changed", p));
                }
            }
            _ => same_leaf(old, x, new, y, path)?,
        }
    }
    // the whole path down to the item list exists in the new file
    let need: &[&[u8; 4]] = match place {
        Place::Moov => &[b"udta"],
        Place::Udta if path == "/moov/udta" => &[b"meta"],
        Place::Meta if path == "/moov/udta/meta" => &[b"hdlr", b"ilst"],
        _ => &[],
    };
    for n in need {
        if !b.iter().any(|k| k.cc == **n) {
            return Err(format!("{} is missing in {}", String::from_utf8_lossy(*n), path));
        }
    }
    for c in created {
        created_ok(new, c, path)?;
    }
    Ok(())
}

fn created_ok<T: Src + ?Sized>(new: &T, c: &P, path: &str) -> Result<(), String> {
    let list = |p: &P| p.kids().iter().map(|k| k.name()).collect::<Vec<_>>().join(",");
    match &c.cc {
        b"udta" => {
            if c.kids().len() != 1 || c.kids()[0].cc != *b"meta" {
                return Err(format!("created {}/udta contains [{}]", path, list(c)));
            }
            created_ok(new, &c.kids()[0], &format!("{}/udta", path))
        }
        b"meta" => {
            if c.prefix != [0; 4] {
                return Err("created meta has a bad version".to_owned());
            }
            let mut names: Vec<String> = c.kids().iter().map(|k| k.name()).collect();
            names.sort();
            if names != ["hdlr", "ilst"] {
                return Err(format!("created {}/meta contains [{}]", path, list(c)));
            }
            let h = c.kids().iter().find(|k| k.cc == *b"hdlr").unwrap();
            created_ok(new, h, &format!("{}/meta", path))
        }
        b"hdlr" => {
            let b = new.get(c.payload(), c.payload_len() as usize);
            if b.len() < 24 || b[..8] != [0; 8] || &b[8..12] != b"mdir" {
                return Err(format!("created {}/hdlr is not a metadata handler", path));
            }
            Ok(())
        }
        _ => Ok(()),
    }
}

fn tables<'a>(top: &'a [P]) -> Vec<(&'a P, Vec<(&'a P, usize)>)> {
    // per track: the stco and co64 atoms with their entry sizes
    let mut v = Vec::new();
    for moov in top.iter().filter(|n| n.cc == *b"moov") {
        for t in moov.kids().iter().filter(|n| n.cc == *b"trak") {
            let mut w = Vec::new();
            let stbl = t.kid(b"mdia").and_then(|n| n.kid(b"minf")).and_then(|n| n.kid(b"stbl"));
            if let Some(s) = stbl {
                for k in s.kids() {
                    match &k.cc {
                        b"stco" => w.push((k, 4)),
                        b"co64" => w.push((k, 8)),
                        _ => (),
                    }
                }
            }
            v.push((t, w));
        }
    }
    v
}

pub fn entries<S: Src + ?Sized>(src: &S, t: &P, size: usize) -> Vec<u64> {
    let b = src.get(t.payload() + 8, t.payload_len() as usize - 8);
    b.chunks_exact(size).map(|c| c.iter().fold(0u64, |a, x| a << 8 | *x as u64)).collect()
}

/// Every chunk offset addresses the same byte of the same media atom; returns how many there are.
pub fn offsets_kept<S: Src + ?Sized, T: Src + ?Sized>(old: &S, op: &[P], new: &T, np: &[P]) -> Result<u64, String> {
    let media = |p: &[P]| p.iter().filter(|n| n.cc == *b"mdat").map(|n| (n.payload(), n.payload_len())).collect::<Vec<_>>();
    let (mo, mn) = (media(op), media(np));
    let (to, tn) = (tables(op), tables(np));
    if mo.len() != mn.len() || to.len() != tn.len() {
        return Err("the number of tracks or media atoms changed".to_owned());
    }
    let mut n = 0;
    for (ti, ((_, a), (_, b))) in to.iter().zip(&tn).enumerate() {
        if a.len() != b.len() {
            return Err("the number of chunk offset tables changed".to_owned());
        }
        for ((x, sx), (y, sy)) in a.iter().zip(b) {
            let (ex, ey) = (entries(old, x, *sx), entries(new, y, *sy));
            if ex.len() != ey.len() || sx != sy {
                return Err("the number of chunk offsets changed".to_owned());
            }
            for (i, (o, w)) in ex.iter().zip(&ey).enumerate() {
                let hit = mo.iter().position(|(p, l)| *o >= *p && *o < *p + *l);
                if let Some(m) = hit {
                    let want = *o - mo[m].0 + mn[m].0;
                    if *w != want {
                        return Err(format!(
                            "{} entry {} of track {} was {} (byte {} of media atom {}), is {} instead of {}",
                            x.name(),
                            i,
                            ti,
                            o,
                            o - mo[m].0,
                            m,
                            w,
                            want
                        ));
                    }
                    n += 1;
                }
            }
        }
    }
    Ok(n)
}
