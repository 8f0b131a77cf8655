// Demonstration against the crate in the current directory; builds its own files from scratch and
// keeps them in a directory of its own.
#![allow(dead_code, unused_imports, unused_macros)]
use mp4ameta::ident::{idents_match, FreeformIdent, Ident};
use mp4ameta::*;
use std::convert::TryFrom;
use std::fs::{File, OpenOptions};
use std::io::{self, Cursor, Read, Seek, SeekFrom, Write};

fn atom(cc: &[u8], c: &[u8]) -> Vec<u8> {
    let mut v = ((c.len() + 8) as u32).to_be_bytes().to_vec();
    v.extend(cc);
    v.extend(c);
    v
}
/// with a 64 bit length
fn long(cc: &[u8], c: &[u8]) -> Vec<u8> {
    let mut v = 1u32.to_be_bytes().to_vec();
    v.extend(cc);
    v.extend(((c.len() + 16) as u64).to_be_bytes());
    v.extend(c);
    v
}
fn cat(p: &[Vec<u8>]) -> Vec<u8> {
    p.concat()
}
fn ftyp() -> Vec<u8> {
    atom(b"ftyp", b"M4A \0\0\x02\0isomiso2")
}
fn data(code: u32, b: &[u8]) -> Vec<u8> {
    let mut v = code.to_be_bytes().to_vec();
    v.extend([0; 4]);
    v.extend(b);
    atom(b"data", &v)
}
fn text(s: &str) -> Vec<u8> {
    data(1, s.as_bytes())
}
fn full(cc: &[u8], b: &[u8]) -> Vec<u8> {
    let mut v = vec![0; 4];
    v.extend(b);
    atom(cc, &v)
}
fn free_item(mean: &str, name: &str, d: &[Vec<u8>]) -> Vec<u8> {
    atom(b"----", &cat(&[full(b"mean", mean.as_bytes()), full(b"name", name.as_bytes()), cat(d)]))
}
fn hdlr() -> Vec<u8> {
    atom(b"hdlr", b"\0\0\0\0\0\0\0\0mdirappl\0\0\0\0\0\0\0\0\0")
}
fn ilst(items: &[Vec<u8>]) -> Vec<u8> {
    atom(b"ilst", &cat(items))
}
fn meta(k: &[Vec<u8>]) -> Vec<u8> {
    full(b"meta", &cat(k))
}
fn udta(k: &[Vec<u8>]) -> Vec<u8> {
    atom(b"udta", &cat(k))
}
fn moov(k: &[Vec<u8>]) -> Vec<u8> {
    atom(b"moov", &cat(k))
}
fn tagged(items: &[Vec<u8>]) -> Vec<u8> {
    udta(&[meta(&[hdlr(), ilst(items)])])
}
fn mvhd(scale: u32, dur: u32) -> Vec<u8> {
    let mut v = vec![0; 12];
    v.extend(scale.to_be_bytes());
    v.extend(dur.to_be_bytes());
    v.extend([0; 80]);
    atom(b"mvhd", &v)
}
fn desc(tag: u8, b: &[u8]) -> Vec<u8> {
    let mut v = vec![tag, b.len() as u8];
    v.extend(b);
    v
}
fn esds(freq: u16, chan: u16) -> Vec<u8> {
    let w = 2u16 << 11 | freq << 7 | chan << 3;
    let mut dc = vec![0x40, 0x15, 0, 0, 0];
    dc.extend(192_000u32.to_be_bytes());
    dc.extend(128_000u32.to_be_bytes());
    dc.extend(desc(5, &w.to_be_bytes()));
    let mut es = vec![0, 1, 0];
    es.extend(desc(4, &dc));
    es.extend(desc(6, &[2]));
    full(b"esds", &desc(3, &es))
}
fn stsd_of(entries: &[Vec<u8>]) -> Vec<u8> {
    let mut v = (entries.len() as u32).to_be_bytes().to_vec();
    v.extend(cat(entries));
    full(b"stsd", &v)
}
fn stsd(freq: u16, chan: u16) -> Vec<u8> {
    let mut v = vec![0; 28];
    v[7] = 1;
    v.extend(esds(freq, chan));
    stsd_of(&[atom(b"mp4a", &v)])
}
fn stco(o: &[u32]) -> Vec<u8> {
    let mut v = (o.len() as u32).to_be_bytes().to_vec();
    o.iter().for_each(|o| v.extend(o.to_be_bytes()));
    full(b"stco", &v)
}
fn co64(o: &[u64]) -> Vec<u8> {
    let mut v = (o.len() as u32).to_be_bytes().to_vec();
    o.iter().for_each(|o| v.extend(o.to_be_bytes()));
    full(b"co64", &v)
}
fn trak(stbl: &[Vec<u8>]) -> Vec<u8> {
    atom(b"trak", &atom(b"mdia", &atom(b"minf", &atom(b"stbl", &cat(stbl)))))
}
fn mdat(n: usize) -> Vec<u8> {
    atom(b"mdat", &(0..n).map(|i| (i * 7 + 1) as u8).collect::<Vec<_>>())
}
/// an ordinary file
fn file(items: &[Vec<u8>]) -> Vec<u8> {
    cat(&[ftyp(), moov(&[mvhd(600, 1200), trak(&[stsd(4, 2)]), tagged(items)]), mdat(64)])
}
fn read(b: &[u8]) -> Result<Tag> {
    Tag::read_from(&mut Cursor::new(b))
}
fn dir() -> std::path::PathBuf {
    std::path::PathBuf::from(std::env::var("DEMO_DIR").expect("run by demo.sh"))
}
/// Writes the tag onto a file with this content, returns the result and the content after it.
fn write(t: &Tag, b: &[u8]) -> (Result<()>, Vec<u8>) {
    let p = dir().join("written.m4a");
    std::fs::write(&p, b).unwrap();
    let f = OpenOptions::new().read(true).write(true).open(&p).unwrap();
    let r = t.write_to(&f);
    drop(f);
    (r, std::fs::read(&p).unwrap())
}
fn written(t: &Tag, b: &[u8]) -> Vec<u8> {
    let (r, a) = write(t, b);
    r.unwrap();
    a
}
/// (code, position, length of the head, length) of the atoms in a range
fn kids(b: &[u8], mut pos: usize, end: usize) -> Vec<(Vec<u8>, usize, usize, usize)> {
    let mut v = Vec::new();
    while pos < end {
        assert!(end - pos >= 8, "stray bytes at {}", pos);
        let l = u32::from_be_bytes([b[pos], b[pos + 1], b[pos + 2], b[pos + 3]]) as usize;
        let (h, l) = if l == 1 {
            let mut x = [0; 8];
            x.copy_from_slice(&b[pos + 8..pos + 16]);
            (16, u64::from_be_bytes(x) as usize)
        } else {
            (8, l)
        };
        assert!(l >= h && pos + l <= end, "bad length {} at {}", l, pos);
        v.push((b[pos + 4..pos + 8].to_vec(), pos, h, l));
        pos += l;
    }
    v
}
/// content of the atom at a path, and its start; a number behind '#' selects one of several
fn at<'a>(b: &'a [u8], path: &str) -> (usize, &'a [u8]) {
    let (mut s, mut e) = (0, b.len());
    for p in path.split('/') {
        let (cc, n) = match p.find('#') {
            Some(i) => (&p[..i], p[i + 1..].parse::<usize>().unwrap()),
            None => (p, 0),
        };
        let k = kids(b, s, e);
        let f = k.iter().filter(|k| k.0 == cc.as_bytes()).nth(n).unwrap_or_else(|| panic!("no {} in {:?}", p, path));
        s = f.1 + f.2 + if cc == "meta" { 4 } else { 0 };
        e = f.1 + f.3;
    }
    (s, &b[s..e])
}
fn names(b: &[u8], path: &str) -> Vec<String> {
    let (s, c) = at(b, path);
    kids(b, s, s + c.len()).iter().map(|k| k.0.iter().map(|b| *b as char).collect()).collect()
}
fn values(t: &Tag) -> Vec<(DataIdent, Data)> {
    t.data().map(|(i, d)| (i.clone(), d.clone())).collect()
}
/// all values of a tag are recovered from a dump
fn dump(t: &Tag) -> Vec<u8> {
    let mut v = Vec::new();
    t.dump_to(&mut v).unwrap();
    v
}
fn fc(s: &[u8; 4]) -> Fourcc {
    Fourcc(*s)
}
