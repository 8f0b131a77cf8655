//! C16, C22: dumps and path based operations.

use std::collections::BTreeMap;
use std::io::Write;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::fs::{symlink, MetadataExt};
use std::path::{Path, PathBuf};

use mp4ameta::{Data, DataIdent};

use super::ioerrors::Scratch;
use super::*;
use crate::mp4::*;
use crate::sys::Answer;

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C16",
            level: "model_checking",
            technique: "bounded exhaustive enumeration of tag contents and sizes on the real writer, dumps decoded by an independent strict parser and read back",
            note: "All tags of up to N items and values over a menu, complete sweeps of value sizes, counts and of the sizes around 4 GiB (in a sink that keeps large writes as holes), all pairs of dumps to one path.",
            rule: "an execution dumps one enumerated tag; states are the distinct dumps",
            assumptions: &["values beyond 4 GiB consist of zero bytes, their dumps are checked by structure in the quick tier and read back in the thorough tier"],
            run: c16,
        },
        Check {
            id: "C22",
            level: "model_checking",
            technique: "explicit exploration of sequences of path operations on a scratch directory in lockstep with a model of the directory, all opened paths recorded",
            note: "All sequences of reads, writes and dumps over several names (files, links, directories, missing ones) up to a depth; after each the whole directory is compared with a model computed by handle based operations, and the files opened by the code are those named.",
            rule: "a state is the content of the scratch directory; a transition is one path based operation on the real file system",
            assumptions: &["files are opened through libc's open64 (interposed)"],
            run: c22,
        },
    ]
}

// ---------------------------------------------------------------------------------------------
// C16

/// The dump of a tag is what it should be; returns its bytes.
fn check_dump(t: &Tag, want: &Items) -> Result<Vec<u8>, String> {
    let b = dumped(t)?;
    let p = parse(&b[..]).map_err(|e| format!("dump is not well-formed: {}", e))?;
    let names: Vec<String> = p.iter().map(|p| p.name()).collect();
    ensure2(names == ["ftyp", "moov"], || format!("dump consists of {:?}", names))?;
    let ilst = find_ilst(&p).ok_or("dump has no item list")?;
    same_items("stored in the dump", &stored_items(&b[..], ilst)?, want)?;
    let r = must_read("reading the dump", &b)?;
    check_items("read from the dump", &r, want)?;
    ensure2(r.filetype().as_bytes() == &b[p[0].payload() as usize..(p[0].pos + p[0].len) as usize], || format!("file type {:?} read", r.filetype()))?;
    Ok(b)
}

fn ensure2(ok: bool, msg: impl FnOnce() -> String) -> Verdict {
    if ok {
        Ok(())
    } else {
        Err(msg())
    }
}

/// Accepts everything and keeps writes that are large as holes.
#[derive(Default)]
struct Sink {
    len: u64,
    segs: Vec<(u64, Vec<u8>)>,
}

impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        // zeros need not be kept, and writes that large hold nothing else
        if b.len() < 1 << 16 && b.iter().any(|x| *x != 0) {
            match self.segs.last_mut() {
                Some((p, s)) if *p + s.len() as u64 == self.len && s.len() < 1 << 16 => s.extend_from_slice(b),
                _ => self.segs.push((self.len, b.to_vec())),
            }
        }
        self.len += b.len() as u64;
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

impl Src for Sink {
    fn size(&self) -> u64 {
        self.len
    }
    fn get(&self, pos: u64, len: usize) -> Vec<u8> {
        let end = (pos + len as u64).min(self.len);
        let mut v = vec![0; end.saturating_sub(pos) as usize];
        let i = self.segs.partition_point(|(p, s)| p + (s.len() as u64) <= pos);
        for (p, s) in &self.segs[i..] {
            if *p >= end {
                break;
            }
            let (a, b) = ((*p).max(pos), (p + s.len() as u64).min(end));
            v[(a - pos) as usize..(b - pos) as usize].copy_from_slice(&s[(a - p) as usize..(b - p) as usize]);
        }
        v
    }
}

/// Reader of what a sink took.
struct SinkReader<'a>(&'a Sink, u64);

impl std::io::Read for SinkReader<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = b.len().min(1 << 20);
        let v = self.0.get(self.1, n);
        b[..v.len()].copy_from_slice(&v);
        self.1 += v.len() as u64;
        Ok(v.len())
    }
}

impl std::io::Seek for SinkReader<'_> {
    fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> {
        self.1 = match p {
            std::io::SeekFrom::Start(n) => n,
            std::io::SeekFrom::Current(d) => self.1.wrapping_add(d as u64),
            std::io::SeekFrom::End(d) => self.0.len.wrapping_add(d as u64),
        };
        Ok(self.1)
    }
}

/// `n` zero bytes, of which no memory is used unless they are written to.
fn zeros(n: u64) -> Vec<u8> {
    vec![0; n as usize]
}

fn zero_text(n: u64) -> String {
    // zero bytes are valid text
    unsafe { String::from_utf8_unchecked(zeros(n)) }
}

/// An item with values of which only the sizes matter.
#[derive(Clone, Debug)]
struct Big {
    id: Id,
    /// lengths of mean and name, if those matter
    names: Option<(u64, u64)>,
    vals: Vec<(Kind, u64)>,
}

impl Big {
    fn data(kind: Kind, n: u64) -> Data {
        match kind {
            Kind::Reserved => Data::Reserved(zeros(n)),
            Kind::Utf8 => Data::Utf8(zero_text(n)),
            Kind::Utf16 => Data::Utf16(zero_text(n / 2)),
            Kind::Jpeg => Data::Jpeg(zeros(n)),
            Kind::Png => Data::Png(zeros(n)),
            Kind::BeSigned => Data::BeSigned(zeros(n)),
            Kind::Bmp => Data::Bmp(zeros(n)),
        }
    }
    fn ident(&self) -> DataIdent {
        match self.names {
            Some((m, n)) => DataIdent::freeform(zero_text(m), zero_text(n)),
            None => self.id.to_ident(),
        }
    }
}

/// Whether dumping copies the values or hands them over in pieces, so that gigabytes take seconds.
fn copies_values() -> bool {
    let mut t = Tag::default();
    t.add_data(Id::fc("covr").to_ident(), Data::Png(zeros(64 << 20)));
    struct Count(u64);
    impl Write for Count {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
            self.0 += 1;
            Ok(b.len())
        }
        fn flush(&mut self) -> std::io::Result<()> {
            Ok(())
        }
    }
    let mut w = Count(0);
    let (_, peak) = sys::measured(u64::MAX, || guard("dump_to", || t.dump_to(&mut w).is_ok()));
    peak > 1 << 20 || w.0 > 1000
}

fn check_big(items: &[Big], read_back: bool) -> Result<u64, String> {
    let mut t = Tag::default();
    for i in items {
        t.add_all_data(i.ident(), i.vals.iter().map(|(k, n)| Big::data(*k, *n)));
    }
    let mut s = Sink::default();
    match guard("dump_to", || t.dump_to(&mut s))? {
        Ok(()) => (),
        Err(e) => return Err(format!("dump_to failed: {}", e)),
    }
    let p = parse(&s).map_err(|e| format!("dump is not well-formed: {}", e))?;
    let names: Vec<String> = p.iter().map(|p| p.name()).collect();
    ensure!(names == ["ftyp", "moov"], "dump consists of {:?}", names);
    let ilst = find_ilst(&p).ok_or("dump has no item list")?;
    ensure!(ilst.kids().len() == items.len(), "{} items stored, the tag has {}", ilst.kids().len(), items.len());
    for i in items {
        let free = matches!(i.id, Id::Free(..));
        let cc = match &i.id {
            Id::Fc(f) => *f,
            Id::Free(..) => *b"----",
        };
        let k = ilst.kid(&cc).ok_or_else(|| format!("no item {:?}", i.id))?.kids();
        let texts = if free { 2 } else { 0 };
        ensure!(k.len() == i.vals.len() + texts, "item {:?} has {} atoms, expected {}", i.id, k.len(), i.vals.len() + texts);
        if free {
            let (m, n) = match (&i.id, i.names) {
                (_, Some(n)) => n,
                (Id::Free(m, n), _) => (m.len() as u64, n.len() as u64),
                _ => unreachable!(),
            };
            ensure!(k[0].cc == *b"mean" && k[0].payload_len() == 4 + m, "mean has {} bytes, expected {}", k[0].payload_len(), 4 + m);
            ensure!(k[1].cc == *b"name" && k[1].payload_len() == 4 + n, "name has {} bytes, expected {}", k[1].payload_len(), 4 + n);
        }
        for (d, (kind, n)) in k[texts..].iter().zip(&i.vals) {
            ensure!(d.cc == *b"data" && d.payload_len() == 8 + n, "{} of {} bytes, expected data of {}", d.name(), d.payload_len(), 8 + n);
            let h = s.get(d.payload(), 8);
            ensure!(h[..4] == kind.code().to_be_bytes(), "type of a value is stored as {:?}, it is {:?}", &h[..4], kind);
        }
    }
    if read_back {
        let mut r = SinkReader(&s, 0);
        let r = match guard("reading the dump", || Tag::read_from(&mut r))? {
            Ok(t) => t,
            Err(e) => return Err(format!("reading the dump failed: {}", e)),
        };
        for i in items {
            let got: Vec<(u32, u64)> = r.data_of(&i.ident()).map(|d| (Val::of_kind(d).code(), d.len())).collect();
            let want: Vec<(u32, u64)> = i.vals.iter().map(|(k, n)| (k.code(), *n)).collect();
            ensure!(got == want, "read back {:?}, expected {:?}", got, want);
        }
    }
    Ok(s.len)
}

fn c16(run: &mut Run) {
    let ids = [
        Id::fc("\u{a9}nam"),
        Id::free("com.apple.iTunes", "ISRC"),
        Id::fc("covr"),
        Id::free("", ""),
        Id::Fc([0; 4]),
        Id::fc("moov"),
        Id::fc("----"),
        Id::free("\u{e9}\u{20ac}", "\u{1F600}"),
    ];
    let mut menu: Vec<Val> = Vec::new();
    for k in KINDS {
        menu.push(Val::new(k, b"abc"));
        menu.push(Val::new(k, b""));
    }
    menu.push(Val::s("\u{e9}\u{20ac}\u{1F600}"));
    menu.push(Val::s16("\u{e9}\u{20ac}\u{1F600}"));
    menu.push(Val::s16("\u{feff}bom"));
    menu.push(Val::s("\u{feff}\u{0}\r\n "));
    menu.push(Val::new(Kind::Png, &[0xA5; 300]));
    menu.push(Val::new(Kind::Reserved, &[0, 0, 0, 8, b'd', b'a', b't', b'a']));

    run.explore("menu", 0, |c| {
        let (t, want) = tag_n(c.all(N_TAGS));
        let b = check_dump(&t, &want)?;
        c.state(&b);
        c.sample(|| format!("{} bytes dumped", b.len()));
        Ok(())
    });
    let bound = run.tiered(5, 6);
    run.explore("tags", bound, |c| {
        let n = c.pick(4);
        let mut list = Vec::new();
        for i in 0..n {
            let id = ids[(i + c.pick(ids.len())) % ids.len()].clone();
            let vals: Vec<Val> = (0..1 + c.pick(3)).map(|_| c.pick_of(&menu).clone()).collect();
            list.push((id, vals));
        }
        let (t, want) = (tag_of(&list), map_of(&list));
        let b = check_dump(&t, &want)?;
        c.state(&b);
        c.sample(|| show_items(&want));
        Ok(())
    });
    run.explore("characters", 0, |c| {
        let l = any_sweep(c);
        let b = check_dump(&tag_of(&l), &map_of(&l))?;
        c.step(l.len() as u64 + l[0].1.len() as u64);
        c.state(&b);
        Ok(())
    });
    let (marks, ids) = (marks(), known_ids());
    let dumps = |c: &Ctx, l: Option<Vec<(Id, Vec<Val>)>>| {
        let Some(l) = l else { return Ok(()) };
        let b = check_dump(&tag_of(&l), &map_of(&l))?;
        c.step(1);
        c.state(&b);
        Ok(())
    };
    run.explore("marked values", 0, |c| dumps(c, marked(c, &marks)));
    run.explore("values of known identifiers", 0, |c| dumps(c, particular(c, &ids, &marks)));
    let sizes = run.tiered(10_000, 70_000);
    run.explore("value sizes", 0, |c| {
        let n = c.all(sizes);
        let kind = *c.all_of(&[Kind::Utf8, Kind::Utf16, Kind::Png]);
        if n > 1100 && n % 256 > 24 && n % 256 < 232 && kind != Kind::Png {
            return Ok(());
        }
        let v = Val::new(kind, &vec![b'x'; n]);
        let id = ids[n % 2].clone();
        let list = vec![(id, vec![v, Val::s("t")])];
        c.label("dumped");
        let b = check_dump(&tag_of(&list), &map_of(&list))?;
        c.state(&b);
        Ok(())
    });
    let counts = run.tiered(600, 3000);
    run.explore("counts", 0, |c| {
        let n = c.all(counts);
        let list: Vec<(Id, Vec<Val>)> = match c.all(2) {
            0 => vec![(ids[c.all(2)].clone(), (0..n).map(|i| Val::new(Kind::BeSigned, &i.to_be_bytes()[7..])).collect())],
            _ => (0..n).map(|i| (Id::Fc([b'a', b'b', (i >> 8) as u8, i as u8]), vec![Val::s("v")])).collect(),
        };
        let list: Vec<_> = list.into_iter().filter(|(_, v)| !v.is_empty()).collect();
        let b = check_dump(&tag_of(&list), &map_of(&list))?;
        c.state(&b);
        Ok(())
    });
    // what files contain
    let bound = run.tiered(3, 4);
    run.explore("of files", bound, |c| {
        let l = layout(c, Vary { media: false, stored: true, audio: true });
        let t = must_read("read", &bytes_of(&l.nodes))?;
        let b = check_dump(&t, &l.items)?;
        c.state(&b);
        Ok(())
    });

    // around 4 GiB
    const G4: u64 = 1 << 32;
    let near = run.tiered(80u64, 300);
    let id = |s: &str| Id::fc(s);
    // if every byte is copied there is only time for fewer sizes, and memory for one dump at a time
    let copies = copies_values();
    let one: std::sync::Mutex<()> = std::sync::Mutex::new(());
    let turn = || if copies { Some(one.lock().unwrap_or_else(|e| e.into_inner())) } else { None };
    let size = |c: &Ctx| if copies { G4 - 72 + 30 * c.all(3) as u64 } else { G4 - near + c.all(near as usize + 20) as u64 };
    let patience = if copies { 600 } else { 60 };
    let kinds: &[Kind] = if copies { &[Kind::Png] } else { &[Kind::Png, Kind::Utf8, Kind::Reserved] };
    run.explore_t("one huge value", 0, patience, |c| {
        let _turn = turn();
        let n = size(c);
        let kind = *c.all_of(kinds);
        let free = c.all(2) == 1;
        let i = Big { id: if free { Id::free("m", "n") } else { id("covr") }, names: None, vals: vec![(kind, n)] };
        let other = Big { id: id("\u{a9}nam"), names: None, vals: vec![(Kind::Utf8, 3)] };
        let items = match c.all(if copies { 1 } else { 3 }) {
            0 => vec![i],
            1 => vec![i, other],
            _ => vec![other, i],
        };
        let len = check_big(&items, false)?;
        c.state(&(len, kind, free));
        c.sample(|| format!("{} bytes dumped", len));
        Ok(())
    });
    run.explore_t("huge names", 0, patience, |c| {
        let _turn = turn();
        let n = size(c);
        let names = match c.all(if copies { 2 } else { 3 }) {
            0 => (n, 1),
            1 => (1, n),
            _ => (n / 2, n - n / 2),
        };
        let items = [Big { id: Id::free("", ""), names: Some(names), vals: vec![(Kind::Utf8, 3), (Kind::Png, 5)] }];
        let len = check_big(&items, false)?;
        c.state(&len);
        Ok(())
    });
    // several large values and items of which only the sum is huge
    run.explore_t("huge totals", 0, patience, |c| {
        let _turn = turn();
        let parts = 2 + c.all(if copies { 1 } else { 3 }) as u64;
        let total = size(c);
        let each = total / parts;
        let first = total - each * (parts - 1);
        let vals: Vec<(Kind, u64)> = (0..parts).map(|i| (KINDS[[0, 3, 4, 5, 6][i as usize]], if i == 0 { first } else { each })).collect();
        let items: Vec<Big> = match c.all(if copies { 2 } else { 3 }) {
            0 => vec![Big { id: id("covr"), names: None, vals }],
            1 => vec![Big { id: Id::free("m", "n"), names: None, vals }],
            _ => vals.into_iter().enumerate().map(|(i, v)| Big { id: Id::Fc([b'h', b'u', b'g', b'0' + i as u8]), names: None, vals: vec![v] }).collect(),
        };
        let len = check_big(&items, false)?;
        c.state(&(len, items.len()));
        Ok(())
    });
    if run.thorough() {
        run.explore_t("huge, read back", 0, 600, |c| {
            let _one = one.lock().unwrap_or_else(|e| e.into_inner());
            let items = match c.all(3) {
                0 => vec![Big { id: id("covr"), names: None, vals: vec![(Kind::Png, G4 - 1)] }, Big { id: id("\u{a9}nam"), names: None, vals: vec![(Kind::Utf8, 3)] }],
                1 => vec![Big { id: id("covr"), names: None, vals: vec![(Kind::Png, 9), (Kind::Png, G4 + 5)] }],
                _ => vec![Big { id: id("covr"), names: None, vals: vec![(Kind::Png, 3 << 30), (Kind::Jpeg, 3 << 29)] }],
            };
            let len = check_big(&items, true)?;
            c.state(&len);
            Ok(())
        });
        run.explore_t("huge utf-16", 0, 600, |c| {
            let _one = one.lock().unwrap_or_else(|e| e.into_inner());
            let n = *c.all_of(&[G4 - 18, G4 - 16, G4 + 2]);
            let len = check_big(&[Big { id: id("\u{a9}nam"), names: None, vals: vec![(Kind::Utf16, n)] }], false)?;
            c.state(&len);
            Ok(())
        });
    }

    let scratch = Scratch::new("c16");
    let scratch = &scratch;
    run.explore("to a path", 0, |c| {
        let path = scratch.file();
        let old: Option<Vec<u8>> = match c.all(6) {
            0 => None,
            1 => Some(vec![]),
            2 => Some(vec![0xA5; 3]),
            3 => Some(vec![0xA5; 100_000]),
            4 => Some(bytes_of(&small_file(ilst_of(&tag_items(7))))),
            _ => Some(dumped(&tag_n(c.all(N_TAGS)).0)?),
        };
        let _ = std::fs::remove_file(&path);
        if let Some(b) = &old {
            std::fs::write(&path, b).unwrap_or_else(|e| harness_error(&format!("scratch file: {}", e)));
        }
        let (t, want) = tag_n(c.all(N_TAGS));
        let b = check_dump(&t, &want)?;
        match guard("dump_to_path", || t.dump_to_path(&path))? {
            Ok(()) => (),
            Err(e) => return Err(format!("dump_to_path failed: {}", e)),
        }
        let now = std::fs::read(&path).map_err(|e| format!("after dump_to_path: {}", e))?;
        ensure!(now == b, "dump_to_path leaves {} bytes in the file that differ from the {} of dump_to", now.len(), b.len());
        c.state(&(old.map(|o| o.len()), now));
        Ok(())
    });
}

// ---------------------------------------------------------------------------------------------
// C22

/// What is at a name.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Entry {
    File(Vec<u8>),
    Link(PathBuf),
    Dir,
}

type Dir = BTreeMap<PathBuf, Entry>;

fn snapshot(dir: &Path) -> Dir {
    fn walk(dir: &Path, base: &Path, m: &mut Dir) {
        let fail = |e: std::io::Error| -> ! { harness_error(&format!("scratch directory: {}", e)) };
        for e in std::fs::read_dir(dir).unwrap_or_else(|e| fail(e)) {
            let p = e.unwrap_or_else(|e| fail(e)).path();
            let name = p.strip_prefix(base).unwrap().to_owned();
            let t = std::fs::symlink_metadata(&p).unwrap_or_else(|e| fail(e)).file_type();
            if t.is_symlink() {
                m.insert(name, Entry::Link(std::fs::read_link(&p).unwrap_or_else(|e| fail(e))));
            } else if t.is_dir() {
                m.insert(name, Entry::Dir);
                walk(&p, base, m);
            } else {
                m.insert(name, Entry::File(std::fs::read(&p).unwrap_or_else(|e| fail(e))));
            }
        }
    }
    let mut m = Dir::new();
    walk(dir, dir, &mut m);
    m
}

fn difference(a: &Dir, b: &Dir) -> String {
    let mut v = Vec::new();
    for k in a.keys().chain(b.keys()) {
        let show = |e: Option<&Entry>| match e {
            None => "nothing".to_owned(),
            Some(Entry::File(b)) => format!("{} bytes (hash {:08x})", b.len(), hash(b) as u32),
            Some(e) => format!("{:?}", e),
        };
        if a.get(k) != b.get(k) {
            v.push(format!("{}: expected {}, found {}", k.display(), show(a.get(k)), show(b.get(k))));
        }
    }
    v.dedup();
    v.join("; ")
}

/// The name a path finally leads to, or none if there is no such directory.
fn resolve(d: &Dir, mut name: PathBuf) -> PathBuf {
    for _ in 0..5 {
        match d.get(&name) {
            Some(Entry::Link(t)) => name = t.clone(),
            _ => break,
        }
    }
    name
}

struct PathCase {
    /// names in the directory
    names: Vec<PathBuf>,
}

/// What an operation through the path has to give: an error kind, or the outcome by handle.
enum Expect {
    NotFound,
    /// some I/O error, nothing changed
    IoError,
    Content(Vec<u8>),
}

fn expect_at(d: &Dir, name: &Path) -> (PathBuf, Expect) {
    let n = resolve(d, name.to_owned());
    let e = match d.get(&n) {
        Some(Entry::File(b)) => Expect::Content(b.clone()),
        Some(Entry::Dir) => Expect::IoError,
        Some(Entry::Link(_)) => Expect::IoError,
        None => Expect::NotFound,
    };
    (n, e)
}

fn is_not_found<T>(what: &str, r: &R<T>) -> Verdict {
    match r {
        Ok(_) => Err(format!("{} of a missing file succeeded", what)),
        Err(Error { kind: ErrorKind::Io(e), .. }) if e.kind() == std::io::ErrorKind::NotFound => Ok(()),
        Err(e) => Err(format!("{} of a missing file reports {:?}", what, e.kind)),
    }
}

fn is_io<T>(what: &str, r: &R<T>) -> Verdict {
    match r {
        Ok(_) => Err(format!("{} of a directory succeeded", what)),
        Err(Error { kind: ErrorKind::Io(_), .. }) => Ok(()),
        Err(e) => Err(format!("{} of a directory reports {:?}", what, e.kind)),
    }
}

fn same_outcome<T>(what: &str, got: &R<T>, want: &R<T>) -> Verdict {
    match (got, want) {
        (Ok(_), Ok(_)) => Ok(()),
        (Err(g), Err(w)) if format!("{:?}", g.kind) == format!("{:?}", w.kind) => Ok(()),
        _ => Err(format!(
            "{}: {} by path, {} by handle",
            what,
            got.as_ref().map(|_| "succeeds".to_owned()).unwrap_or_else(|e| format!("{:?}", e.kind)),
            want.as_ref().map(|_| "succeeds".to_owned()).unwrap_or_else(|e| format!("{:?}", e.kind))
        )),
    }
}

/// Executes one operation through a path and compares it with the model.
fn path_step(base: &Path, d: &mut Dir, name: &Path, op: usize, tag: &Tag) -> Verdict {
    const O_ACCMODE: i32 = 3;
    const O_CREAT: i32 = 0o100;
    const O_TRUNC: i32 = 0o1000;
    const O_APPEND: i32 = 0o2000;
    let path = base.join(name);
    let what = super::ioerrors::PATH_OPS[op];
    let (target, expect) = expect_at(d, name);
    let inode = |p: &Path| std::fs::metadata(p).map(|m| (m.dev(), m.ino(), m.mode(), m.nlink())).ok();
    let before = inode(&path);
    let (r, _) = sys::with_plan(Box::new(|_, _, _| Answer::Normal), || {
        guard(what, || match op {
            0 => Tag::read_from_path(&path).map(Some),
            1 => tag.write_to_path(&path).map(|_| None),
            _ => tag.dump_to_path(&path).map(|_| None),
        })
    });
    let r = r?;
    let opened = sys::opened();
    for (p, flags) in &opened {
        let p = Path::new(std::ffi::OsStr::from_bytes(p));
        ensure!(p == path, "{} of {} opens {}", what, name.display(), p.display());
        match op {
            0 => ensure!(flags & O_ACCMODE == 0 && flags & (O_CREAT | O_TRUNC) == 0, "read_from_path opens the file with flags {:o}", flags),
            1 => ensure!(flags & (O_CREAT | O_TRUNC | O_APPEND) == 0, "write_to_path opens the file with flags {:o}", flags),
            _ => (),
        }
    }
    match (op, expect) {
        (0 | 1, Expect::NotFound) => is_not_found(what, &r)?,
        (_, Expect::IoError) => is_io(what, &r)?,
        (0, Expect::Content(b)) => {
            let want = read_bytes("read_from", &b)?;
            match (&r, &want) {
                (Ok(Some(g)), Ok(w)) => {
                    same_items("read by path", &items_of(g)?, &items_of(w)?)?;
                    ensure!(g.audio_info() == w.audio_info() && g.filetype() == w.filetype(), "read by path: other audio information or file type than by handle");
                }
                (Err(_), Err(_)) => same_outcome("reading", &r.map(|_| ()), &want.map(|_| ()))?,
                _ => same_outcome("reading", &r.map(|_| ()), &want.map(|_| ()))?,
            }
        }
        (1, Expect::Content(b)) => {
            let (want, new) = with_file(&b, |f| -> Result<(R<()>, Vec<u8>), String> { Ok((write_file("write_to", tag, f)?, sys::contents(f))) })?;
            same_outcome("writing", &r.map(|_| ()), &want)?;
            ensure!(inode(&path) == before, "write_to_path replaces the file by another: {:?} before, {:?} after", before, inode(&path));
            d.insert(target, Entry::File(new));
        }
        (_, e) => {
            // a dump to a missing directory can't be created
            let parent = target.parent().filter(|p| *p != Path::new(""));
            let possible = parent.map_or(true, |p| d.get(p) == Some(&Entry::Dir));
            if !possible {
                is_not_found(what, &r)?;
            } else {
                if let Err(e) = &r {
                    return Err(format!("dump_to_path failed: {}", e));
                }
                let b = dumped(tag)?;
                let _ = e;
                d.insert(target, Entry::File(b));
            }
        }
    }
    let now = snapshot(base);
    ensure!(now == *d, "after {} of {}: {}", what, name.display(), difference(d, &now));
    Ok(())
}

/// A fresh directory with files, links and neighbours with similar names.
fn populate(base: &Path) -> Dir {
    let _ = std::fs::remove_dir_all(base);
    let fail = |e: std::io::Error| -> ! { harness_error(&format!("scratch directory: {}", e)) };
    std::fs::create_dir_all(base).unwrap_or_else(|e| fail(e));
    let put = |n: &str, b: &[u8]| std::fs::write(base.join(n), b).unwrap_or_else(|e| fail(e));
    put("a.m4a", &bytes_of(&small_file(ilst_of(&tag_items(0)))));
    put("b.m4a", &bytes_of(&bases_file()));
    put("a.m4a.tmp", b"a neighbour");
    put("a.m4a~", b"");
    put(".a.m4a", b"hidden");
    put("broken.m4a", &bytes_of(&small_file(ilst_of(&tag_items(0))))[..70]);
    put("empty.m4a", b"");
    std::fs::create_dir(base.join("dir.m4a")).unwrap_or_else(|e| fail(e));
    symlink("a.m4a", base.join("link.m4a")).unwrap_or_else(|e| fail(e));
    symlink("nowhere.m4a", base.join("dangling.m4a")).unwrap_or_else(|e| fail(e));
    snapshot(base)
}

/// A directory with this content.
fn build(base: &Path, d: &Dir) {
    let _ = std::fs::remove_dir_all(base);
    let fail = |e: std::io::Error| -> ! { harness_error(&format!("scratch directory: {}", e)) };
    std::fs::create_dir_all(base).unwrap_or_else(|e| fail(e));
    for (n, e) in d {
        match e {
            Entry::File(b) => std::fs::write(base.join(n), b),
            Entry::Link(t) => symlink(t, base.join(n)),
            Entry::Dir => std::fs::create_dir(base.join(n)),
        }
        .unwrap_or_else(|e| fail(e));
    }
}

fn bases_file() -> Vec<Node> {
    let mut n = small_file(ilst_of(&tag_items(4)));
    n.swap(1, 2);
    n
}

fn c22(run: &mut Run) {
    let scratch = Scratch::new("c22");
    let scratch = &scratch;
    let odd = PathBuf::from(std::ffi::OsString::from_vec(b"od\xFFd \n name.m4a".to_vec()));
    let case = PathCase {
        names: vec![
            "a.m4a".into(),
            "b.m4a".into(),
            "link.m4a".into(),
            "missing.m4a".into(),
            "dangling.m4a".into(),
            "dir.m4a".into(),
            "broken.m4a".into(),
            "empty.m4a".into(),
            "dir.m4a/inner.m4a".into(),
            "nodir/x.m4a".into(),
            odd,
        ],
    };
    let tags = [0usize, 7, 1];
    let operation = |n: usize| match n {
        0 => (0, 0),
        1 | 2 => (1, tags[n - 1]),
        _ => (2, tags[(n - 3) * 2]),
    };
    // all contents of the directory that can be reached, each built anew for each operation
    let depth = run.tiered(5, 7);
    run.bfs(
        "directories",
        vec![populate(&scratch.sub())],
        case.names.len() * 5,
        depth,
        |d, n| {
            let base = scratch.sub();
            build(&base, d);
            let (op, tag) = operation(n % 5);
            let mut d = d.clone();
            path_step(&base, &mut d, &case.names[n / 5], op, &tag_n(tag).0)?;
            Ok(Some(d))
        },
        hash,
        |n| format!("{} {}", super::ioerrors::PATH_OPS[operation(n % 5).0], case.names[n / 5].display()),
    );
    // in one directory, without merging
    let depth = run.tiered(2, 3);
    run.explore("sequences", 0, |c| {
        let base = scratch.sub();
        let mut d = populate(&base);
        for _ in 0..depth {
            let name = c.all_of(&case.names);
            let (op, tag) = operation(c.all(5));
            path_step(&base, &mut d, name, op, &tag_n(tag).0)?;
            c.step(1);
            c.state(&d);
        }
        c.sample(|| format!("{} entries in the end", d.len()));
        Ok(())
    });

    // two names of one file, and an open handle of it
    run.explore("hard links", 0, |c| {
        let base = scratch.sub();
        let _ = std::fs::remove_dir_all(&base);
        let fail = |e: std::io::Error| -> ! { harness_error(&format!("scratch directory: {}", e)) };
        std::fs::create_dir_all(&base).unwrap_or_else(|e| fail(e));
        let (a, b) = (base.join("a.m4a"), base.join("b.m4a"));
        let bytes = bytes_of(&small_file(ilst_of(&tag_items(c.all(N_TAGS)))));
        std::fs::write(&a, &bytes).unwrap_or_else(|e| fail(e));
        std::fs::hard_link(&a, &b).unwrap_or_else(|e| fail(e));
        let h = File::open(&a).unwrap_or_else(|e| fail(e));
        let t = tag_n(c.all(N_TAGS)).0;
        if let Err(e) = guard("write_to_path", || t.write_to_path(&b))? {
            return Err(format!("write_to_path failed: {}", e));
        }
        let want = written("write_to", &t, &bytes)?.map_err(|e| format!("write_to failed: {}", e))?;
        let now = std::fs::read(&a).unwrap_or_else(|e| fail(e));
        ensure!(now == want, "the other name of the written file has different content");
        ensure!(sys::contents(&h) == want, "an open handle of the written file has different content");
        c.state(&(bytes, want));
        Ok(())
    });

    // path types and forms
    run.explore("forms", 0, |c| {
        let base = scratch.sub();
        let mut d = populate(&base);
        let form = c.all(6);
        let op = c.all(3);
        let p = base.join("a.m4a");
        let s = p.to_str().unwrap_or_else(|| harness_error("scratch path")).to_owned();
        let alt = format!("{}/dir.m4a/../a.m4a", base.display());
        let t = tag_n(7).0;
        let r: R<()> = guard("path operation", || match (op, form) {
            (0, 0) => Tag::read_from_path(&s[..]).map(|_| ()),
            (0, 1) => Tag::read_from_path(s.clone()).map(|_| ()),
            (0, 2) => Tag::read_from_path(&p).map(|_| ()),
            (0, 3) => Tag::read_from_path(p.as_path()).map(|_| ()),
            (0, 4) => Tag::read_from_path(p.as_os_str()).map(|_| ()),
            (0, _) => Tag::read_from_path(&alt).map(|_| ()),
            (1, 0) => t.write_to_path(&s[..]),
            (1, 1) => t.write_to_path(s.clone()),
            (1, 2) => t.write_to_path(&p),
            (1, 3) => t.write_to_path(p.as_path()),
            (1, 4) => t.write_to_path(p.as_os_str()),
            (1, _) => t.write_to_path(&alt),
            (_, 0) => t.dump_to_path(&s[..]),
            (_, 1) => t.dump_to_path(s.clone()),
            (_, 2) => t.dump_to_path(&p),
            (_, 3) => t.dump_to_path(p.as_path()),
            (_, 4) => t.dump_to_path(p.as_os_str()),
            _ => t.dump_to_path(&alt),
        })?;
        if let Err(e) = r {
            return Err(format!("{} failed: {}", super::ioerrors::PATH_OPS[op], e));
        }
        let name = PathBuf::from("a.m4a");
        let old = match &d[&name] {
            Entry::File(b) => b.clone(),
            _ => harness_error("scratch file"),
        };
        match op {
            0 => (),
            1 => {
                let new = written("write_to", &t, &old)?.map_err(|e| format!("write_to failed: {}", e))?;
                d.insert(name, Entry::File(new));
            }
            _ => {
                d.insert(name, Entry::File(dumped(&t)?));
            }
        }
        let now = snapshot(&base);
        ensure!(now == d, "after {}: {}", super::ioerrors::PATH_OPS[op], difference(&d, &now));
        c.state(&d);
        Ok(())
    });

    // every layout, by path and by handle
    let bound = run.tiered(2, 3);
    run.explore("layouts", bound, |c| {
        let l = layout(c, EVERYTHING);
        let tag = c.pick(N_TAGS);
        let b = bytes_of(&l.nodes);
        let base = scratch.sub();
        let path = base.join("file.m4a");
        let _ = std::fs::remove_dir_all(&base);
        if std::fs::create_dir_all(&base).is_err() || std::fs::write(&path, &b).is_err() {
            harness_error("scratch directory");
        }
        let mut d = Dir::new();
        d.insert("file.m4a".into(), Entry::File(b));
        for op in [0, 1, 0] {
            path_step(&base, &mut d, Path::new("file.m4a"), op, &tag_n(tag).0)?;
            c.step(1);
            c.state(&d);
        }
        Ok(())
    });
    // and malformed files
    let b = bytes_of(&small_file(ilst_of(&tag_items(4))));
    run.explore("malformed", 0, |c| {
        let mut m = b.clone();
        match c.all(2) {
            0 => m.truncate(c.all(b.len())),
            _ => {
                let at = c.all(b.len());
                m[at] = *c.all_of(&[0u8, 0xFF, 0x80]);
            }
        }
        let base = scratch.sub();
        let path = base.join("file.m4a");
        let _ = std::fs::remove_dir_all(&base);
        if std::fs::create_dir_all(&base).is_err() || std::fs::write(&path, &m).is_err() {
            harness_error("scratch directory");
        }
        let mut d = Dir::new();
        d.insert("file.m4a".into(), Entry::File(m));
        for op in [0, 1] {
            path_step(&base, &mut d, Path::new("file.m4a"), op, &tag_n(7).0)?;
            c.step(1);
            c.state(&d);
        }
        Ok(())
    });
}
