//! C04, C05, C06: reading and writing files of arbitrary content.

use super::*;
use crate::mp4::*;
use crate::sys::{Answer, Op};

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C04",
            level: "model_checking",
            technique: "exhaustive enumeration of malformed files (field values, bytes, truncations, structure edits, word grammars) and of failing reads, on the real writer",
            note: "Every single corruption of the base files by the listed operators, pairs of corrupted length fields, exhaustive short word sequences at every level of the hierarchy, and every failing read or seek of a write; a refused write has to leave the file identical.",
            rule: "an execution writes a tag onto one enumerated file or with one failing operation; states are the distinct files written onto",
            assumptions: &["file operations go through libc's read/write/lseek/ftruncate family (interposed)"],
            run: c04,
        },
        Check {
            id: "C05",
            level: "model_checking",
            technique: "exhaustive enumeration of byte sequences (word grammars per hierarchy level) and of all corruptions of base files, on the real reader with operation and allocation accounting",
            note: "All word sequences up to the stated length at every level of the atom hierarchy, every truncation, every byte value at every position, every boundary value in every length field (and pairs of them), structural edits; each run is checked for panics, overflow, number of reader operations and peak allocation.",
            rule: "an execution reads one enumerated byte sequence; states are the distinct sequences",
            assumptions: &["bounds used: at most 16 reader operations per input byte + 1000, at most 32 bytes allocated per input byte + 64 KiB"],
            run: c05,
        },
        Check {
            id: "C06",
            level: "model_checking",
            technique: "exhaustive enumeration of byte sequences and corruptions as for C05, on the real writer, followed by reading the result",
            note: "Same families of files as C05; each write is checked for panics, overflow, operation count and allocation, and every successful write onto a readable file is read back.",
            rule: "an execution writes a tag onto one enumerated file; states are the distinct files",
            assumptions: &["bounds used: at most 64 file operations per byte + 10000, at most 32 bytes allocated per byte of file and tag + 256 KiB"],
            run: c06,
        },
    ]
}

// ---------------------------------------------------------------------------------------------
// base files

fn small_trak(stbl: Vec<Node>) -> Node {
    kids("trak", vec![leaf("tkhd", &[7; 4]), kids("mdia", vec![leaf("mdhd", &[5; 4]), kids("minf", vec![leaf("dinf", &[3; 2]), kids("stbl", stbl)])])])
}

fn short_mvhd(v: u8) -> Node {
    let b = mvhd_bytes(v, 600, 1501);
    leaf("mvhd", &b[..if v == 0 { 24 } else { 36 }])
}

fn rich_items() -> Vec<(Id, Vec<Val>)> {
    vec![
        (Id::fc("\u{a9}nam"), vec![Val::s("tit"), Val::s16("\u{1F600}")]),
        (Id::free("m", "n"), vec![Val::new(Kind::Reserved, &[1])]),
        (Id::fc("covr"), vec![Val::new(Kind::Png, &[1, 2, 3, 4, 5])]),
    ]
}

fn stco(t: &[Target]) -> Node {
    Node { cc: *b"stco", ext: false, body: Body::Stco(t.to_vec()) }
}

fn co64(t: &[Target]) -> Node {
    Node { cc: *b"co64", ext: false, body: Body::Co64(t.to_vec()) }
}

pub fn bases() -> Vec<(&'static str, Vec<Node>)> {
    let t0 = [Target::Media(0, 0), Target::Media(0, 3)];
    let udta = |k: Vec<Node>| kids("udta", k);
    let md = || meta(vec![leaf("hdlr", &[0; 25]), ilst_of(&rich_items())]);
    let audio = || mp4a(Esds::default().bytes());
    let long = || mp4a(Esds { n: [4; 4], before_config: true, before_specific: true, ..Esds::default() }.bytes());
    let mut ext = vec![
        leaf("ftyp", b"isom").ext(true),
        kids("moov", vec![udta(vec![filler(2), md().ext(true)]).ext(true), short_mvhd(1), small_trak(vec![co64(&t0).ext(true), stsd(vec![long().ext(true)]).ext(true)]).ext(true)]).ext(true),
        mdat(8, 1).ext(true),
    ];
    // 64-bit heads of the item list and of everything in it
    fn all_ext(n: &mut Node) {
        n.ext = true;
        if let Body::Kids(_, k) = &mut n.body {
            k.iter_mut().for_each(all_ext);
        }
    }
    ext[1].kids_mut()[0].kids_mut().iter_mut().for_each(all_ext);
    vec![
        (
            "media last",
            vec![leaf("ftyp", b"isom"), kids("moov", vec![short_mvhd(0), small_trak(vec![stsd(vec![audio()]), stco(&t0)]), udta(vec![md()])]), mdat(8, 1)],
        ),
        ("64-bit heads", ext),
        (
            "media around, table after",
            vec![
                leaf("ftyp", b"isom"),
                mdat(8, 1),
                kids(
                    "moov",
                    vec![short_mvhd(0), udta(vec![meta(vec![ilst_of(&rich_items()), filler(4)])]), small_trak(vec![stco(&[Target::Media(1, 2), Target::Media(0, 1)]), stsd(vec![audio()])]), small_trak(vec![co64(&[Target::Media(1, 2)])])],
                ),
                filler(3),
                mdat(8, 2),
            ],
        ),
        ("no item list", vec![leaf("ftyp", b""), kids("moov", vec![udta(vec![meta(vec![leaf("hdlr", &[0; 25])])]), small_trak(vec![stco(&t0)])]), mdat(8, 1)]),
        ("no metadata", vec![leaf("ftyp", b"isom"), kids("moov", vec![udta(vec![leaf("name", b"x")]), small_trak(vec![co64(&t0)]), short_mvhd(0)]), mdat(8, 1)]),
        ("no user data", vec![leaf("ftyp", b"isom"), kids("moov", vec![short_mvhd(1), small_trak(vec![stsd(vec![long()]), stco(&t0)])]), mdat(8, 1)]),
    ]
}

#[derive(Clone, Debug)]
struct Field {
    pos: usize,
    width: usize,
    /// length of the atom and what is left in its parent, for length fields
    len: u64,
    left: u64,
    cc: bool,
}

/// All length, type and count fields of a well-formed file.
fn fields(b: &[u8]) -> Vec<Field> {
    fn walk(b: &[u8], mut pos: usize, end: usize, out: &mut Vec<Field>) {
        while pos + 8 <= end {
            let w = |p: usize| u32::from_be_bytes(b[p..p + 4].try_into().unwrap()) as u64;
            let ext = w(pos) == 1;
            let (head, len) = if ext { (16, u64::from_be_bytes(b[pos + 8..pos + 16].try_into().unwrap())) } else { (8, w(pos)) };
            let left = (end - pos) as u64;
            out.push(Field { pos, width: 4, len, left, cc: false });
            out.push(Field { pos: pos + 4, width: 4, len: 0, left: 0, cc: true });
            if ext {
                out.push(Field { pos: pos + 8, width: 8, len, left, cc: false });
            }
            let cc: &[u8] = &b[pos + 4..pos + 8];
            let inner = pos + head;
            let stop = pos + len as usize;
            match cc {
                b"moov" | b"trak" | b"mdia" | b"minf" | b"stbl" | b"udta" | b"ilst" | b"----" | b"\xa9nam" | b"covr" => walk(b, inner, stop, out),
                b"meta" => walk(b, inner + 4, stop, out),
                b"stsd" => {
                    out.push(Field { pos: inner + 4, width: 4, len: 1, left: 0, cc: false });
                    walk(b, inner + 8, stop, out)
                }
                b"mp4a" => walk(b, inner + 28, stop, out),
                b"stco" | b"co64" => {
                    out.push(Field { pos: inner + 4, width: 4, len: w(inner + 4), left: left, cc: false });
                    let size = if cc == b"stco" { 4 } else { 8 };
                    let mut p = inner + 8;
                    while p + size <= stop {
                        out.push(Field { pos: p, width: size, len: w(p + size - 4), left, cc: false });
                        p += size;
                    }
                }
                b"mvhd" => {
                    let (a, d, n) = if b[inner] == 0 { (inner + 12, inner + 16, 4) } else { (inner + 20, inner + 24, 8) };
                    out.push(Field { pos: a, width: 4, len: 600, left: 0, cc: false });
                    out.push(Field { pos: d, width: n, len: 1501, left: 0, cc: false });
                }
                b"data" => out.push(Field { pos: inner, width: 4, len: w(inner), left: 21, cc: false }),
                _ => (),
            }
            pos = stop;
        }
    }
    let mut v = Vec::new();
    walk(b, 0, b.len(), &mut v);
    v
}

const CODES: [&[u8; 4]; 27] = [
    b"ftyp", b"moov", b"mdat", b"mvhd", b"trak", b"mdia", b"minf", b"stbl", b"stsd", b"mp4a", b"esds", b"stco", b"co64", b"udta", b"meta", b"hdlr", b"ilst", b"----", b"data",
    b"mean", b"name", b"free", b"\xa9nam", b"covr", b"zzzz", b"\0\0\0\0", b"\0\0\0\x01",
];

fn values(f: &Field, file: u64) -> Vec<u64> {
    if f.cc {
        return CODES.iter().map(|c| u32::from_be_bytes(**c) as u64).collect();
    }
    let mut v: Vec<u64> = (0..=17).collect();
    v.extend([20, 24, 25, 27, 28, 32, 36, 255, 256]);
    for x in [f.len, f.left, file] {
        for d in [0u64, 1, 4, 7, 8, 9, 16] {
            v.push(x.wrapping_add(d));
            v.push(x.wrapping_sub(d));
        }
    }
    let max = if f.width == 8 { u64::MAX } else { u32::MAX as u64 };
    for b in [7u32, 15, 16, 29, 30, 31, 32, 33, 60, 61, 62, 63] {
        for d in [-1i64, 0, 1] {
            v.push((1u64 << b).wrapping_add(d as u64));
        }
    }
    for d in 0..18 {
        v.push(max - d);
    }
    v.retain(|x| *x <= max);
    v.sort();
    v.dedup();
    v
}

fn few_values(f: &Field, file: u64) -> Vec<u64> {
    if f.cc {
        return [b"moov", b"mdat", b"udta", b"ilst", b"stco", b"free"].iter().map(|c| u32::from_be_bytes(**c) as u64).collect();
    }
    let max = if f.width == 8 { u64::MAX } else { u32::MAX as u64 };
    let mut v = vec![0, 1, 8, 16, f.len.wrapping_add(1), f.len.wrapping_sub(1), f.len + 8, f.len.wrapping_sub(8), f.left, f.left + 1, file, max, max - 7, max / 2, max / 2 + 1];
    v.retain(|x| *x <= max && *x != f.len);
    v.sort();
    v.dedup();
    v
}

fn put(b: &mut [u8], f: &Field, v: u64) {
    let s = v.to_be_bytes();
    b[f.pos..f.pos + f.width].copy_from_slice(&s[8 - f.width..]);
}

// ---------------------------------------------------------------------------------------------
// structure edits

/// Paths of all nodes.
fn paths(nodes: &[Node]) -> Vec<Vec<usize>> {
    fn walk(nodes: &[Node], at: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        for (i, n) in nodes.iter().enumerate() {
            at.push(i);
            out.push(at.clone());
            if let Body::Kids(_, k) = &n.body {
                walk(k, at, out);
            }
            at.pop();
        }
    }
    let mut v = Vec::new();
    walk(nodes, &mut Vec::new(), &mut v);
    v
}

fn parent<'a>(nodes: &'a mut Vec<Node>, p: &[usize]) -> &'a mut Vec<Node> {
    match p.len() {
        1 => nodes,
        _ => parent(nodes[p[0]].kids_mut(), &p[1..]),
    }
}

fn get(nodes: &[Node], p: &[usize]) -> Node {
    let n = nodes[p[0]].clone();
    match p.len() {
        1 => n,
        _ => match &n.body {
            Body::Kids(_, k) => get(k, &p[1..]),
            _ => harness_error("bad path"),
        },
    }
}

const EDITS: usize = 6;

/// Deletes, empties, repeats or moves a node.
fn edit(nodes: &mut Vec<Node>, p: &[usize], how: usize) {
    let i = *p.last().unwrap();
    let v = parent(nodes, p);
    match how {
        0 => {
            v.remove(i);
        }
        1 => {
            let n = v[i].clone();
            v.push(n);
        }
        2 => {
            let n = v[i].clone();
            v.insert(0, n);
        }
        3 => {
            v[i].body = Body::Leaf(vec![]);
        }
        4 => {
            // an empty one of the same kind behind it
            let n = Node { cc: v[i].cc, ext: false, body: Body::Kids(vec![], vec![]) };
            v.push(n);
        }
        _ => {
            let n = v.remove(i);
            nodes.push(n);
        }
    }
}

/// Media addresses have to exist when the file is encoded.
fn encodable(nodes: &mut [Node], media: usize) {
    for n in nodes {
        match &mut n.body {
            Body::Kids(_, k) => encodable(k, media),
            Body::Stco(t) | Body::Co64(t) | Body::Flagged(_, _, t) => {
                for x in t {
                    if matches!(x, Target::Media(m, _) if *m >= media) {
                        *x = Target::Raw(9999);
                    }
                }
            }
            _ => (),
        }
    }
}

fn edited_bytes(mut nodes: Vec<Node>) -> Vec<u8> {
    let n = media_positions(&nodes).len();
    encodable(&mut nodes, n);
    bytes_of(&nodes)
}

// ---------------------------------------------------------------------------------------------
// word grammars

struct Place {
    name: &'static str,
    /// the bytes around the enumerated ones
    wrap: fn(&[u8]) -> Vec<u8>,
    codes: &'static [&'static [u8; 4]],
}

fn atom(cc: &[u8; 4], prefix: &[u8], b: &[u8]) -> Vec<u8> {
    let mut v = ((8 + prefix.len() + b.len()) as u32).to_be_bytes().to_vec();
    v.extend(cc);
    v.extend(prefix);
    v.extend(b);
    v
}

fn file_with_moov(b: &[u8]) -> Vec<u8> {
    let mut v = atom(b"ftyp", b"", b"");
    v.extend(atom(b"moov", b"", b));
    v.extend(atom(b"mdat", b"", &[1, 2, 3]));
    v
}

fn stbl_in(b: &[u8]) -> Vec<u8> {
    file_with_moov(&atom(b"trak", b"", &atom(b"mdia", b"", &atom(b"minf", b"", &atom(b"stbl", b"", b)))))
}

const PLACES: [Place; 9] = [
    Place { name: "whole file", wrap: |b| b.to_vec(), codes: &[b"ftyp", b"moov", b"mdat"] },
    Place {
        name: "after ftyp",
        wrap: |b| {
            let mut v = atom(b"ftyp", b"", b"");
            v.extend(b);
            v
        },
        codes: &[b"moov", b"mdat", b"udta"],
    },
    Place { name: "moov", wrap: file_with_moov, codes: &[b"trak", b"udta", b"mvhd"] },
    Place { name: "udta", wrap: |b| file_with_moov(&atom(b"udta", b"", b)), codes: &[b"meta", b"hdlr"] },
    Place { name: "meta", wrap: |b| file_with_moov(&atom(b"udta", b"", &atom(b"meta", &[0; 4], b))), codes: &[b"ilst", b"hdlr"] },
    Place {
        name: "ilst",
        wrap: |b| file_with_moov(&atom(b"udta", b"", &atom(b"meta", &[0; 4], &atom(b"ilst", b"", b)))),
        codes: &[b"----", b"data", b"free"],
    },
    Place {
        name: "item",
        wrap: |b| file_with_moov(&atom(b"udta", b"", &atom(b"meta", &[0; 4], &atom(b"ilst", b"", &atom(b"----", b"", b))))),
        codes: &[b"mean", b"name", b"data"],
    },
    Place { name: "stbl", wrap: stbl_in, codes: &[b"stsd", b"stco", b"co64", b"mp4a"] },
    Place {
        name: "stsd",
        wrap: |b| stbl_in(&atom(b"stsd", &[0, 0, 0, 0, 0, 0, 0, 1], b)),
        codes: &[b"mp4a", b"esds"],
    },
];

const NUMBERS: [u32; 14] = [0, 1, 2, 7, 8, 9, 12, 16, 17, 24, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFF8, 0xFFFF_FFFF];

// ---------------------------------------------------------------------------------------------
// families of files

/// Runs `f` on every file of every family.
fn families(run: &mut Run, f: impl Fn(&Ctx, &[u8]) -> Verdict + Sync) {
    let deep = run.thorough();
    let bases: Vec<(&str, Vec<Node>, Vec<u8>)> = bases().into_iter().map(|(n, v)| (n, v.clone(), bytes_of(&v))).collect();
    let bases = &bases;
    let f = &f;
    run.explore("truncated", 0, |c| {
        let (name, _, b) = c.all_of(bases);
        let n = c.all(b.len() + 1);
        c.sample(|| format!("{} cut to {} bytes", name, n));
        f(c, &b[..n])
    });
    run.explore("bytes", 0, |c| {
        let (name, _, b) = c.all_of(bases);
        let p = c.all(b.len());
        let v = c.all(256) as u8;
        let mut b = b.clone();
        b[p] = v;
        c.sample(|| format!("{}: byte {} is {}", name, p, v));
        f(c, &b)
    });
    let all_fields: Vec<Vec<(Field, Vec<u64>, Vec<u64>)>> = bases
        .iter()
        .map(|(_, _, b)| {
            fields(b)
                .into_iter()
                .map(|f| {
                    let (v, w) = (values(&f, b.len() as u64), few_values(&f, b.len() as u64));
                    (f, v, w)
                })
                .collect()
        })
        .collect();
    let all_fields = &all_fields;
    run.explore("fields", 0, |c| {
        let k = c.all(bases.len());
        let (fd, v, _) = c.all_of(&all_fields[k]);
        let v = *c.all_of(v);
        let mut b = bases[k].2.clone();
        put(&mut b, fd, v);
        // at the end of the file, or cut off there
        if c.all(2) == 1 {
            b.truncate(fd.pos + fd.width);
        }
        c.sample(|| format!("{}: field at {} is {:#x}", bases[k].0, fd.pos, v));
        f(c, &b)
    });
    run.explore("field pairs", 0, |c| {
        let k = c.all(if deep { bases.len() } else { 3 });
        let i = c.all(all_fields[k].len() - 1);
        let j = i + 1 + c.all(all_fields[k].len() - 1 - i);
        let (x, y) = (&all_fields[k][i], &all_fields[k][j]);
        let a = *c.all_of(&x.2);
        let d = *c.all_of(&y.2);
        let mut b = bases[k].2.clone();
        put(&mut b, &x.0, a);
        put(&mut b, &y.0, d);
        c.sample(|| format!("{}: fields at {} and {} are {:#x} and {:#x}", bases[k].0, x.0.pos, y.0.pos, a, d));
        f(c, &b)
    });
    // an atom together with what encloses it claims to end far behind the end of the file
    run.explore("nested lengths", 0, |c| {
        let (name, nodes, _) = c.all_of(bases);
        let p = c.all_of(&paths(nodes)).clone();
        let from = c.all(p.len());
        let wide = c.all(2) == 1;
        let mut n = nodes.clone();
        if wide {
            for k in from..p.len() {
                let i = p[k];
                parent(&mut n, &p[..k + 1])[i].ext = true;
            }
        }
        let mut b = edited_bytes(n.clone());
        let file = b.len() as u64;
        let end = match wide {
            true => *c.all_of(&[file + 1, file + 8, 1 << 32, 1 << 33, 1 << 40, 1 << 50, (1 << 62) + 4, i64::MAX as u64 - 8, i64::MAX as u64, 1 << 63, u64::MAX - 7, u64::MAX]),
            false => *c.all_of(&[file + 1, file + 8, 1 << 20, 1 << 29, 1 << 31, (1 << 32) - 8, (1 << 32) - 1]),
        };
        // each level ends at the same place, or earlier than the one around it
        let step = *c.all_of(&[0u64, 8]);
        let mut heads = Vec::new();
        let mut start = 0;
        let mut level: &[Node] = &n;
        for i in &p {
            start += level[..*i].iter().map(|n| n.len()).sum::<u64>();
            heads.push(start);
            let x = &level[*i];
            start += x.head();
            if let Body::Kids(prefix, k) = &x.body {
                start += prefix.len() as u64;
                level = k;
            }
        }
        let mut len = 0;
        for k in from..p.len() {
            let at = heads[k] as usize;
            len = (end - step * (k - from) as u64).saturating_sub(heads[k]);
            if wide {
                b[at + 8..at + 16].copy_from_slice(&len.to_be_bytes());
            } else {
                b[at..at + 4].copy_from_slice(&(len as u32).to_be_bytes());
            }
        }
        // a count of entries that agrees with the length
        let head = if wide { 16 } else { 8 };
        let at = *heads.last().unwrap() as usize;
        let size = match &b[at + 4..at + 8] {
            b"stco" => Some(4),
            b"co64" => Some(8),
            b"stsd" => Some(36),
            _ => None,
        };
        if let Some(size) = size {
            if c.all(2) == 1 {
                let count = (len.saturating_sub(head + 8) / size).min(u32::MAX as u64) as u32;
                let at = at + head as usize + 4;
                b[at..at + 4].copy_from_slice(&count.to_be_bytes());
                if c.all(2) == 1 && count < u32::MAX {
                    // exactly
                    let len = head + 8 + size * count as u64;
                    let l = *heads.last().unwrap() as usize;
                    if wide {
                        b[l + 8..l + 16].copy_from_slice(&len.to_be_bytes());
                    } else {
                        b[l..l + 4].copy_from_slice(&(len as u32).to_be_bytes());
                    }
                }
            }
        }
        c.sample(|| format!("{}: levels {}.. of {:?} end at {:#x}", name, from, p, end));
        f(c, &b)
    });
    // files with many atoms, larger than any buffer: defects far behind the start
    let many: Vec<(String, Vec<u8>)> = (0..CROWDS)
        .flat_map(|w| [true, false].map(|first| (w, first)))
        .map(|(w, first)| (format!("crowd {} {}", w, first), bytes_of(&crowd(w, 40, first).nodes)))
        .collect();
    let many = &many;
    run.explore("many, truncated", 0, |c| {
        let (name, b) = c.all_of(many);
        // near every head, table and value; thorough: everywhere
        let n = if deep {
            c.all(b.len() + 1)
        } else {
            let n = c.all(b.len() / 7 + 1) * 7;
            n.min(b.len())
        };
        c.sample(|| format!("{} cut to {} bytes", name, n));
        f(c, &b[..n])
    });
    let many_fields: Vec<Vec<(Field, Vec<u64>)>> = many
        .iter()
        .map(|(_, b)| {
            fields(b)
                .into_iter()
                .map(|f| {
                    let v = few_values(&f, b.len() as u64);
                    (f, v)
                })
                .collect()
        })
        .collect();
    let many_fields = &many_fields;
    run.explore("many, fields", 0, |c| {
        let k = c.all(many.len());
        // from the front and from the back
        let n = many_fields[k].len();
        let i = c.all(if deep { n } else { n.min(240) });
        let i = if deep || i % 2 == 0 { i } else { n - 1 - i };
        let (fd, v) = &many_fields[k][i];
        let v = *c.all_of(v);
        let mut b = many[k].1.clone();
        put(&mut b, fd, v);
        c.sample(|| format!("{}: field at {} is {:#x}", many[k].0, fd.pos, v));
        f(c, &b)
    });
    let edits = run.tiered(2, 2);
    run.explore("structure edits", 0, |c| {
        let (name, nodes, _) = c.all_of(bases);
        let mut n = nodes.clone();
        let mut log = Vec::new();
        let count = c.all(edits) + 1;
        for _ in 0..count {
            let ps = paths(&n);
            if ps.is_empty() {
                break;
            }
            let p = c.all_of(&ps).clone();
            let how = c.all(EDITS);
            log.push((p.clone(), how));
            edit(&mut n, &p, how);
        }
        let b = edited_bytes(n);
        c.sample(|| format!("{}: {:?}", name, log));
        f(c, &b)
    });
    // a copy of any node anywhere else
    run.explore("transplants", 0, |c| {
        let (name, nodes, _) = c.all_of(bases);
        let ps = paths(nodes);
        let what = get(nodes, c.all_of(&ps));
        let at = c.all_of(&ps).clone();
        let mut n = nodes.clone();
        let i = *at.last().unwrap();
        let how = c.all(2);
        let v = parent(&mut n, &at);
        if how == 0 {
            v.insert(i, what);
        } else {
            v[i] = what;
        }
        let b = edited_bytes(n);
        c.sample(|| format!("{}: copy at {:?}", name, at));
        f(c, &b)
    });
    let words = run.tiered(4, 5);
    run.explore("words", 0, |c| {
        let p = c.all_of(&PLACES);
        let len = c.all(words + 1);
        let mut b = Vec::new();
        for _ in 0..len {
            let k = c.all(NUMBERS.len() + p.codes.len());
            match NUMBERS.get(k) {
                Some(n) => b.extend(n.to_be_bytes()),
                None => b.extend(p.codes[k - NUMBERS.len()]),
            }
        }
        // an incomplete word
        let tail = c.all(2);
        b.extend(&[0, 0, 0][..tail * 3]);
        let b = (p.wrap)(&b);
        c.sample(|| format!("{}: {} words", p.name, len));
        f(c, &b)
    });
    // sequences of atoms: length, code, few bytes of content
    let atoms = run.tiered(2, 3);
    run.explore("atom sequences", 0, |c| {
        let p = c.all_of(&PLACES);
        let len = c.all(atoms) + 1;
        let mut b = Vec::new();
        for _ in 0..len {
            let code = *c.all_of(p.codes);
            let content = c.all(4) * 5;
            let real = 8 + content as u32;
            let l = *c.all_of(&[real, 0, 1, 8, real + 1, real - 1, 12, 0xFFFF_FFFF]);
            b.extend(l.to_be_bytes());
            b.extend(code);
            b.extend(vec![0u8; content]);
        }
        let b = (p.wrap)(&b);
        c.sample(|| format!("{}: {} atoms", p.name, len));
        f(c, &b)
    });
    let n = run.tiered(5, 6);
    run.explore("descriptor bytes", 0, |c| {
        let len = c.all(n + 1);
        let alphabet = [0u8, 2, 3, 4, 5, 0x7F, 0x80, 0xFF];
        let place = c.all(3);
        let mut d: Vec<u8> = Vec::new();
        for _ in 0..len {
            d.push(*c.all_of(&alphabet));
        }
        let content = match place {
            0 => d.clone(),
            // inside the elementary stream descriptor
            1 => {
                let mut e = vec![3, 3 + d.len() as u8, 0, 1, 0];
                e.extend(&d);
                e
            }
            // inside the decoder config descriptor
            _ => {
                let mut e = vec![3, 18 + d.len() as u8, 0, 1, 0, 4, 13 + d.len() as u8];
                e.extend([0x40; 13]);
                e.extend(&d);
                e
            }
        };
        let esds = atom(b"esds", &[0; 4], &content);
        let b = stbl_in(&atom(b"stsd", &[0, 0, 0, 0, 0, 0, 0, 1], &atom(b"mp4a", &[0; 28], &esds)));
        c.sample(|| format!("descriptor bytes {:?}", d));
        f(c, &b)
    });
    let m = run.tiered(16, 16);
    run.explore("mvhd bytes", 0, |c| {
        let v = c.all(3) as u8;
        let cut = c.all(40);
        let scale = NUMBERS[c.all(m.min(NUMBERS.len()))];
        let hi = NUMBERS[c.all(NUMBERS.len())];
        let lo = NUMBERS[c.all(NUMBERS.len())];
        let mut b = mvhd_bytes(v, scale, (hi as u64) << 32 | lo as u64);
        if cut < 39 {
            b.truncate(cut);
        }
        let b = file_with_moov(&atom(b"mvhd", b"", &b));
        c.sample(|| format!("version {} time scale {} duration {}:{} cut {}", v, scale, hi, lo, cut));
        f(c, &b)
    });
}

// ---------------------------------------------------------------------------------------------

fn mix(c: &Ctx, b: &[u8]) {
    c.state(b);
    c.step(1);
}

/// The tag written onto arbitrary files.
fn small_tag() -> (Tag, Items) {
    let l = vec![(Id::fc("\u{a9}alb"), vec![Val::s("album, longer than what was there before, or not")]), (Id::free("a", "b"), vec![Val::new(Kind::BeSigned, &[7])])];
    (tag_of(&l), map_of(&l))
}

fn write_limited(t: &Tag, f: &File, size: u64) -> Result<R<()>, String> {
    sys::rewind(f);
    let max = 64 * size + 10_000;
    let mut n = 0u64;
    let plan = Box::new(move |_: Op, _: usize, _: i64| {
        n += 1;
        if n > max {
            emergency("the number of file operations is not bounded by the size of the file");
        }
        Answer::Normal
    });
    let limit = 32 * size + 256 * 1024;
    let ((r, _), peak) = sys::measured(1 << 30, || sys::with_plan(plan, || guard("write_to", || t.write_to(f))));
    let r = r?;
    if peak > limit {
        return Err(format!("write_to held {} bytes allocated for a file and tag of {} bytes", peak, size));
    }
    Ok(r)
}

/// Whether the contents of the file are these bytes.
fn unchanged(f: &File, b: &[u8]) -> Verdict {
    let l = sys::len(f);
    ensure!(l == b.len() as u64, "the write failed, but the file has {} bytes instead of {}", l, b.len());
    let now = sys::contents(f);
    if now != b {
        let p = now.iter().zip(b).position(|(a, b)| a != b).unwrap_or(0);
        return Err(format!("the write failed, but byte {} of the file changed from {} to {}", p, b[p], now[p]));
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C04

fn c04(run: &mut Run) {
    families(run, |c, b| {
        let (t, _) = small_tag();
        mix(c, b);
        with_file(b, |f| match write_limited(&t, f, b.len() as u64 + 200)? {
            Ok(()) => {
                c.label("written");
                Ok(())
            }
            Err(e) => {
                c.label(format!("refused: {}", kind_name(&e)));
                unchanged(f, b).map_err(|m| format!("{} (error: {})", m, e))
            }
        })
    });
    // storage that can't be read
    let d = run.tiered(1, 2);
    run.explore("failing reads", d, |c| {
        let l = layout(c, EVERYTHING);
        let b = bytes_of(&l.nodes);
        let (t, _) = small_tag();
        let f = &file_of_bytes(&b);
        // operations of an undisturbed run
        let ops = count_ops(&t, f)?;
        let i = c.all(ops.len() + 1);
        if i == ops.len() {
            return Ok(());
        }
        let persistent = c.all(2) == 1;
        let first_mod = ops.iter().position(|o| matches!(o, Op::Write | Op::SetLen)).unwrap_or(ops.len());
        let applies = match ops[i] {
            Op::Read => true,
            Op::Seek => i < first_mod,
            _ => false,
        };
        if !applies {
            c.label("trivial: not a reading operation");
            return Ok(());
        }
        let errno = *c.all_of(&[sys::EIO, sys::EACCES]);
        sys::reset(f, &b);
        let mut n = 0;
        let plan = Box::new(move |o: Op, _: usize, _: i64| {
            let k = n;
            n += 1;
            if k == i || persistent && k > i && matches!(o, Op::Read | Op::Seek) {
                Answer::Fail(errno)
            } else {
                Answer::Normal
            }
        });
        let (r, _) = sys::with_plan(plan, || guard("write_to", || t.write_to(f)));
        c.step(1);
        c.state(&(i, errno, persistent, &b));
        c.sample(|| format!("operation {} ({:?}) of {} fails with {}", i, ops[i], ops.len(), errno));
        match r? {
            Ok(()) => {
                c.label("written");
                Ok(())
            }
            Err(e) => {
                c.label(format!("refused: {}", kind_name(&e)));
                unchanged(f, &b).map_err(|m| format!("{} (error: {})", m, e))
            }
        }
    });
    // storage that reports an early end
    run.explore("early end", d, |c| {
        let l = layout(c, EVERYTHING);
        let b = bytes_of(&l.nodes);
        let (t, _) = small_tag();
        let f = &file_of_bytes(&b);
        let ops = count_ops(&t, f)?;
        let reads: Vec<usize> = (0..ops.len()).filter(|i| ops[*i] == Op::Read).collect();
        let i = *c.all_of(&reads);
        sys::reset(f, &b);
        let mut n = 0;
        let plan = Box::new(move |o: Op, _: usize, _: i64| {
            let k = n;
            n += 1;
            if k >= i && o == Op::Read {
                Answer::Zero
            } else {
                Answer::Normal
            }
        });
        let (r, _) = sys::with_plan(plan, || guard("write_to", || t.write_to(f)));
        c.step(1);
        c.state(&(i, &b));
        match r? {
            Ok(()) => {
                c.label("written");
                Ok(())
            }
            Err(e) => {
                c.label(format!("refused: {}", kind_name(&e)));
                unchanged(f, &b).map_err(|m| format!("{} (error: {})", m, e))
            }
        }
    });
}

pub fn file_of_bytes(b: &[u8]) -> File {
    sys::file_of(b)
}

/// The operations of an undisturbed write.
pub fn count_ops(t: &Tag, f: &File) -> Result<Vec<Op>, String> {
    use std::cell::RefCell;
    use std::rc::Rc;
    let log = Rc::new(RefCell::new(Vec::new()));
    let l = log.clone();
    let plan = Box::new(move |o: Op, _: usize, _: i64| {
        l.borrow_mut().push(o);
        Answer::Normal
    });
    sys::rewind(f);
    let (r, _) = sys::with_plan(plan, || guard("write_to", || t.write_to(f)));
    match r? {
        Ok(()) => (),
        Err(e) => return Err(format!("write_to failed: {}", e)),
    }
    let v = log.borrow().clone();
    Ok(v)
}

// ---------------------------------------------------------------------------------------------
// C05

fn c05(run: &mut Run) {
    families(run, |c, b| {
        mix(c, b);
        let len = b.len() as u64;
        let mut r = ios::plain(b);
        r.max_ops = 16 * len + 1000;
        let limit = 32 * len + 64 * 1024;
        let (res, peak) = sys::measured(1 << 30, || guard("read_from", || Tag::read_from(&mut r).map(|_| ())));
        let res = res?;
        ensure!(r.ops <= r.max_ops, "{} operations to read {} bytes", r.ops, len);
        ensure!(peak <= limit, "{} bytes were allocated to read {} bytes", peak, len);
        match res {
            Ok(()) => c.label("read"),
            Err(e) => c.label(kind_name(&e)),
        }
        Ok(())
    });
}

// ---------------------------------------------------------------------------------------------
// C06

fn c06(run: &mut Run) {
    families(run, |c, b| {
        let (t, items) = small_tag();
        mix(c, b);
        let before = match read_bytes("read_from", b)? {
            Ok(t) => Some(t),
            Err(_) => None,
        };
        with_file(b, |f| {
            let size = b.len() as u64 + 200;
            match write_limited(&t, f, size)? {
                Err(e) => {
                    c.label(format!("refused: {}", kind_name(&e)));
                    Ok(())
                }
                Ok(()) => {
                    let l = sys::len(f);
                    ensure!(l <= b.len() as u64 + 4096, "the file grew from {} to {} bytes", b.len(), l);
                    let now = sys::contents(f);
                    match before {
                        None => {
                            c.label("written onto an unreadable file");
                            Ok(())
                        }
                        Some(old) => {
                            c.label("written and read back");
                            let new = must_read("reading the written file", &now)?;
                            check_items("items read back", &new, &items)?;
                            ensure!(new.audio_info() == old.audio_info(), "audio information changed from {:?} to {:?}", old.audio_info(), new.audio_info());
                            ensure!(new.filetype() == old.filetype(), "the file type changed");
                            Ok(())
                        }
                    }
                }
            }
        })
    });
}
