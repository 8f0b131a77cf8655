//! C07, C08: failing, short and interrupted operations of the storage.

use std::cell::{Cell, RefCell};
use std::io::{BufReader, Seek, SeekFrom};
use std::path::PathBuf;
use std::rc::Rc;

use super::hostile::{bases, count_ops};
use super::*;
use crate::mp4::*;
use crate::sys::{Answer, Op};

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C07",
            level: "fault_enumeration",
            technique: "exhaustive fault injection: every operation of every read, write and dump fails, with each error, once or from then on, on the real code",
            note: "Every file operation (interposed libc calls, or a controlled reader/writer) of reads, writes and dumps of all layouts within the bound is made to fail in turn, with several errors, once and persistently, and writes also stop accepting bytes at every point; an operation that succeeds must have the undisturbed result.",
            rule: "an execution performs one operation on one file with one enumerated fault pattern; trivial ones inject no fault",
            assumptions: &["file operations go through libc's open/read/write/lseek/ftruncate family (interposed)"],
            run: c07,
        },
        Check {
            id: "C08",
            level: "fault_enumeration",
            technique: "exhaustive enumeration of transfer schedules: uniform chunk sizes, and every operation (pair of operations) delivered short or interrupted, on the real code",
            note: "All uniform transfer sizes with and without regular interruptions, and all patterns of at most N short or interrupted transfers at any operation, for reads, writes and dumps, and all start positions; the result has to be the one of full transfers.",
            rule: "an execution performs one operation on one file under one enumerated delivery schedule; trivial ones deliver everything at once",
            assumptions: &["file operations go through libc's open/read/write/lseek/ftruncate family (interposed)"],
            run: c08,
        },
    ]
}

/// The outcome of reading, for comparison.
#[derive(Clone, Debug, PartialEq)]
enum Outcome {
    Tag(String),
    Err(&'static str),
}

fn outcome(r: &R<Tag>) -> Result<Outcome, String> {
    Ok(match r {
        Ok(t) => {
            items_of(t)?;
            // order of items included
            let l: Vec<(Id, Val)> = t.data().map(|(i, d)| (Id::of(i), Val::of(d))).collect();
            Outcome::Tag(format!("{:?} {:?} {:?}", l, t.filetype(), t.audio_info()))
        }
        Err(e) => Outcome::Err(kind_name(e)),
    })
}

fn short(o: &Outcome) -> String {
    let s = format!("{:?}", o);
    s.chars().take(300).collect()
}

/// Injected failures: errno values, and (from 1000) kinds of other errors.
const ERRNOS: [i32; 4] = [sys::EIO, sys::EACCES, sys::ENOSPC, sys::EMFILE];
const KINDS_FROM: i32 = ios::CUSTOM;

fn carries(e: &Error, code: i32) -> Result<(), String> {
    match &e.kind {
        ErrorKind::Io(io) => {
            if code < KINDS_FROM {
                ensure!(io.raw_os_error() == Some(code), "the error reported ({:?}) is not the one that occurred (errno {})", io, code);
            } else {
                let want = ios::custom(code);
                ensure!(io.kind() == want.kind(), "the error reported ({:?}) is not the one that occurred ({:?})", io, want);
            }
            Ok(())
        }
        _ => Err(format!("a failed operation is reported as {} instead of an I/O error", e)),
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum How {
    Once,
    FromThenOn,
    /// this operation fails, and all others of its kind from then on
    Kind,
}

fn disturbed(how: How, i: usize, kind: Op, k: usize, o: Op) -> bool {
    match how {
        How::Once => k == i,
        How::FromThenOn => k >= i,
        How::Kind => k >= i && o == kind,
    }
}

fn label(c: &Ctx, ok: bool, hit: bool) {
    c.label(match (hit, ok) {
        (false, _) => "trivial: no fault",
        (true, true) => "fault without effect on the result",
        (true, false) => "fault reported",
    });
}

fn vary() -> Vary {
    EVERYTHING
}

fn c07(run: &mut Run) {
    let d = run.tiered(2, 3);

    // ------------------------------------------------------------------ reading from a reader
    let reads = |c: &Ctx, all: bool| {
        let l = layout(c, vary());
        let b = bytes_of(&l.nodes);
        let (want, ops) = undisturbed_read(&b)?;
        let i = c.all(ops.len());
        let how = if all { *c.all_of(&[How::Once, How::FromThenOn, How::Kind]) } else { How::Once };
        let code = if all { *c.all_of(&[sys::EIO, KINDS_FROM, KINDS_FROM + 1, KINDS_FROM + 2, KINDS_FROM + 3]) } else { sys::EIO };
        let kind = ops[i];
        let hit = Cell::new(false);
        let mut r = ios::Reader::with(&b, |o, k| {
            if disturbed(how, i, kind, k as usize, o) {
                hit.set(true);
                Answer::Fail(code)
            } else {
                Answer::Normal
            }
        });
        let res = guard("read_from", || Tag::read_from(&mut r))?;
        drop(r);
        c.step(1);
        c.sample(|| format!("operation {} ({:?}) of {} fails with {} {:?}", i, kind, ops.len(), code, how));
        label(c, res.is_ok(), hit.get());
        judge_read(&res, &want, code)
    };
    run.explore("failing reads, all errors", d - 1, |c| reads(c, true));
    run.explore("failing reads", d, |c| reads(c, false));
    // malformed files: an error must stay an error of either kind
    let hb: Vec<Vec<u8>> = bases().into_iter().map(|(_, n)| bytes_of(&n)).collect();
    let hb = &hb;
    run.explore("failing reads, buffered", 0, |c| {
        let b = c.all_of(hb);
        let cap = *c.all_of(&[1usize, 16, 64, 8192]);
        let (want, _) = undisturbed_read(b)?;
        // operations of the buffered run
        let log = RefCell::new(Vec::new());
        {
            let r = ios::Reader::with(b, |o, _| {
                log.borrow_mut().push(o);
                Answer::Normal
            });
            let mut r = BufReader::with_capacity(cap, r);
            let res = guard("read_from", || Tag::read_from(&mut r))?;
            ensure!(outcome(&res)? == want, "reading through a buffer of {} bytes differs", cap);
        }
        let ops = log.into_inner();
        let i = c.all(ops.len());
        let how = *c.all_of(&[How::Once, How::FromThenOn, How::Kind]);
        let code = *c.all_of(&[sys::EIO, KINDS_FROM]);
        let kind = ops[i];
        let r = ios::Reader::with(b, |o, k| if disturbed(how, i, kind, k as usize, o) { Answer::Fail(code) } else { Answer::Normal });
        let mut r = BufReader::with_capacity(cap, r);
        let res = guard("read_from", || Tag::read_from(&mut r))?;
        c.step(1);
        label(c, res.is_ok(), true);
        judge_read(&res, &want, code)
    });
    run.explore("reader ends early", d, |c| {
        let l = layout(c, vary());
        let b = bytes_of(&l.nodes);
        let (want, ops) = undisturbed_read(&b)?;
        let i = c.all(ops.len());
        let once = c.all(2) == 1;
        let mut r = ios::Reader::with(&b, |_, k| if k as usize == i || !once && k as usize > i { Answer::Zero } else { Answer::Normal });
        let res = guard("read_from", || Tag::read_from(&mut r))?;
        drop(r);
        c.step(1);
        label(c, res.is_ok(), ops[i] == Op::Read);
        if res.is_ok() {
            let got = outcome(&res)?;
            ensure!(got == want, "the reader ended early, but reading succeeds with {} instead of {}", short(&got), short(&want));
        }
        Ok(())
    });

    // ------------------------------------------------------------------ writing to a file
    run.explore("failing writes", d, |c| {
        let l = layout(c, vary());
        let t = c.pick(N_TAGS);
        let b = bytes_of(&l.nodes);
        fault_write(c, &b, &tag_n(t).0, false)
    });
    let small = |c: &Ctx| {
        // every table kind, created and replaced item lists, moved media
        let b = c.all_of(hb);
        let t = *c.all_of(&[0usize, 1, 3, 6]);
        fault_write(c, b, &tag_n(t).0, true)
    };
    run.explore("failing writes, all errors", 0, small);
    // every piece of the new metadata is the one that reaches the storage first
    let span = run.tiered(160, 700);
    run.explore("failing flushes", 0, |c| {
        let b = c.all_of(hb);
        let cut = c.all(span);
        let base = *c.all_of(&[4096usize, 8192]);
        let l = vec![
            (Id::fc("covr"), vec![Val::new(Kind::Png, &vec![7; base - cut]), Val::new(Kind::Bmp, &[1, 2])]),
            (Id::free("a", "bc"), vec![Val::s("x"), Val::new(Kind::BeSigned, &[1])]),
            (Id::fc("\u{a9}nam"), vec![Val::s16("y")]),
        ];
        fault_write(c, b, &tag_of(&l), false)
    });
    // values and tables that exceed the buffers, so that failures are met within them
    run.explore("failing writes, large values", 0, |c| {
        let b = &hb[0];
        let kind = *c.all_of(&KINDS);
        let n = *c.all_of(&[8176usize, 8190, 8192, 8194, 20_000]);
        let l = vec![(Id::free("a", "bc"), vec![Val::new(kind, &vec![b'v'; n]), Val::s("x")]), (Id::fc("\u{a9}nam"), vec![Val::s16("y"), Val::new(kind, &vec![b'w'; n])])];
        fault_write(c, b, &tag_of(&l), true)
    });
    run.explore("failing writes, large tables", 0, |c| {
        let n = *c.all_of(&[1022usize, 1024, 1030, 2046, 2048, 3000]);
        let targets: Vec<Target> = (0..n).map(|i| Target::Media(0, i as u64 % 40)).collect();
        let mut nodes = small_file(ilst_of(&tag_items(1)));
        let wide = c.all(2) == 1;
        let table = |wide: bool, t: Vec<Target>| match wide {
            true => Node { cc: *b"co64", ext: false, body: Body::Co64(t) },
            false => Node { cc: *b"stco", ext: false, body: Body::Stco(t) },
        };
        let k = nodes[1].kids_mut();
        k.insert(2, trak(vec![table(wide, targets)]));
        k.insert(3, trak(vec![table(!wide, vec![Target::Media(0, 7); 3])]));
        if c.all(2) == 1 {
            // behind the item list
            k.rotate_left(2);
        }
        fault_write(c, &bytes_of(&nodes), &tag_n(3).0, true)
    });
    run.explore("failing writes, many of everything", 0, |c| {
        let l = any_crowd(c, &[40]);
        fault_write(c, &bytes_of(&l.nodes), &tag_n(0).0, false)
    });
    // two independent faults
    run.explore("two faults", 2, |c| {
        let b = c.all_of(hb);
        let tag = tag_n(0).0;
        let want = written("write_to", &tag, b)?.map_err(|e| e.to_string())?;
        let first = Rc::new(Cell::new(0));
        let (cc, f1) = (c.clone(), first.clone());
        let plan = Box::new(move |_: Op, _: usize, _: i64| match cc.pick(3) {
            0 => Answer::Normal,
            n => {
                let e = ERRNOS[n - 1];
                if f1.get() == 0 {
                    f1.set(e);
                }
                Answer::Fail(e)
            }
        });
        with_file(b, |f| {
            let (r, _) = sys::with_plan(plan, || guard("write_to", || tag.write_to(f)));
            c.step(1);
            let r = r?;
            label(c, r.is_ok(), first.get() != 0);
            match r {
                Ok(()) => {
                    ensure!(sys::contents(f) == want, "an operation failed with errno {}, but the write reports success with a different result", first.get());
                    Ok(())
                }
                // one of the failures; the first one unless it had no effect
                Err(e) => match &e.kind {
                    ErrorKind::Io(io) if ERRNOS[..2].contains(&io.raw_os_error().unwrap_or(0)) => Ok(()),
                    _ => Err(format!("a failed operation is reported as {}", e)),
                },
            }
        })
    });

    // ------------------------------------------------------------------ dumping
    let caps = run.tiered(60, 400);
    run.explore("failing dumps", 0, |c| {
        let (tag, _) = tag_n(c.all(N_TAGS));
        let want = dumped(&tag)?;
        let log = RefCell::new(Vec::new());
        {
            let mut w = ios::Writer::with(|o, _| {
                log.borrow_mut().push(o);
                Answer::Normal
            });
            guard("dump_to", || tag.dump_to(&mut w))?.map_err(|e| format!("dump_to failed: {}", e))?;
            ensure!(w.out == want, "dump differs between two writers");
        }
        let ops = log.into_inner();
        let i = c.all(ops.len());
        let how = *c.all_of(&[How::Once, How::FromThenOn, How::Kind]);
        let code = *c.all_of(&[sys::EIO, sys::ENOSPC, KINDS_FROM, KINDS_FROM + 1, -1]);
        let kind = ops[i];
        let mut w = ios::Writer::with(|o, k| match disturbed(how, i, kind, k as usize, o) {
            true if code < 0 => Answer::Zero,
            true => Answer::Fail(code),
            false => Answer::Normal,
        });
        let r = guard("dump_to", || tag.dump_to(&mut w))?;
        let out = std::mem::take(&mut w.out);
        drop(w);
        c.step(1);
        c.sample(|| format!("operation {} ({:?}) of {} of a dump fails with {}", i, kind, ops.len(), code));
        label(c, r.is_ok(), true);
        match r {
            Ok(()) => {
                ensure!(out == want, "operation {} failed, but the dump reports success with {} of {} bytes", i, out.len(), want.len());
                Ok(())
            }
            Err(e) if code < 0 => match &e.kind {
                ErrorKind::Io(_) => Ok(()),
                _ => Err(format!("a full writer is reported as {}", e)),
            },
            Err(e) => carries(&e, code),
        }
    });
    run.explore("dumps to a full device", 0, |c| {
        let (tag, _) = tag_n(c.all(N_TAGS));
        let want = dumped(&tag)?;
        let room = c.all(caps.min(want.len()) + 1);
        // from the front and from the end
        let room = if c.all(2) == 1 { want.len().saturating_sub(room) } else { room };
        let buffered = c.all(2) == 1;
        let mut w = Full { room, out: Vec::new() };
        let r = if buffered {
            let mut bw = std::io::BufWriter::with_capacity(32, &mut w);
            let r = guard("dump_to", || tag.dump_to(&mut bw))?;
            let done = std::io::Write::flush(&mut bw);
            match done {
                Ok(()) => r,
                Err(_) => {
                    c.label("trivial: buffered by the caller");
                    return Ok(());
                }
            }
        } else {
            guard("dump_to", || tag.dump_to(&mut w))?
        };
        c.step(1);
        label(c, r.is_ok(), room < want.len());
        match r {
            Ok(()) => {
                ensure!(w.out == want, "only {} of {} bytes fit, but the dump reports success", w.out.len(), want.len());
                Ok(())
            }
            Err(e) => carries(&e, sys::ENOSPC),
        }
    });

    // ------------------------------------------------------------------ operations on paths
    let dir = Scratch::new("c07");
    let dir = &dir;
    run.explore("paths", 0, |c| {
        let op = c.all(3);
        let (name, nodes) = c.all_of(&bases()).clone();
        let b = bytes_of(&nodes);
        let tag = tag_n(*c.all_of(&[0usize, 1])).0;
        let path = dir.file();
        let mut log = path_run(op, &path, &b, &tag, Box::new(|_, _, _| Answer::Normal))?;
        if let Err(e) = &log.result {
            return Err(format!("{} of a file ({}) fails: {}", PATH_OPS[op], name, e));
        }
        let i = c.all(log.ops.len());
        let how = *c.all_of(&[How::Once, How::FromThenOn, How::Kind]);
        let code = *c.all_of(&ERRNOS);
        let kind = log.ops[i];
        let mut n = 0;
        let got = path_run(
            op,
            &path,
            &b,
            &tag,
            Box::new(move |o, _, _| {
                let k = n;
                n += 1;
                if disturbed(how, i, kind, k, o) {
                    Answer::Fail(code)
                } else {
                    Answer::Normal
                }
            }),
        )?;
        c.step(2);
        c.sample(|| format!("operation {} ({:?}) of {} of {} fails", i, kind, log.ops.len(), PATH_OPS[op]));
        label(c, got.result.is_ok(), true);
        match got.result {
            Ok(o) => {
                ensure!(o == log.result.unwrap(), "operation {} failed, but {} reports success with another result", i, PATH_OPS[op]);
                ensure!(got.content == std::mem::take(&mut log.content), "operation {} ({:?}) failed, but {} reports success with another file content", i, kind, PATH_OPS[op]);
                Ok(())
            }
            Err(e) => carries(&e, code),
        }
    });
}

/// A device with room for a number of bytes.
struct Full {
    room: usize,
    out: Vec<u8>,
}

impl std::io::Write for Full {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.room - self.out.len());
        if n == 0 && !b.is_empty() {
            return Err(std::io::Error::from_raw_os_error(sys::ENOSPC));
        }
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn undisturbed_read(b: &[u8]) -> Result<(Outcome, Vec<Op>), String> {
    let log = RefCell::new(Vec::new());
    let mut r = ios::Reader::with(b, |o, _| {
        log.borrow_mut().push(o);
        Answer::Normal
    });
    let res = guard("read_from", || Tag::read_from(&mut r))?;
    drop(r);
    Ok((outcome(&res)?, log.into_inner()))
}

fn judge_read(res: &R<Tag>, want: &Outcome, code: i32) -> Verdict {
    match res {
        Ok(_) => {
            let got = outcome(res)?;
            ensure!(got == *want, "an operation failed, but reading succeeds with {} instead of {}", short(&got), short(want));
            Ok(())
        }
        Err(e) => carries(e, code),
    }
}

fn fault_write(c: &Ctx, b: &[u8], tag: &Tag, all: bool) -> Verdict {
    with_file(b, |f| {
        let ops = count_ops(tag, f)?;
        let want = sys::contents(f);
        sys::reset(f, b);
        let i = c.all(ops.len());
        let how = if all { *c.all_of(&[How::Once, How::FromThenOn, How::Kind]) } else { *c.all_of(&[How::Once, How::FromThenOn]) };
        let code = if all { *c.all_of(&[sys::EIO, sys::ENOSPC, sys::EACCES, -1, -2]) } else { *c.all_of(&[sys::EIO, -1]) };
        let kind = ops[i];
        if code < 0 && kind != Op::Write {
            c.label("trivial: no fault");
            return Ok(());
        }
        let mut n = 0;
        let plan = Box::new(move |o: Op, len: usize, _: i64| {
            let k = n;
            n += 1;
            if !disturbed(how, i, kind, k, o) {
                return Answer::Normal;
            }
            match code {
                // nothing is accepted
                -1 if o == Op::Write => Answer::Zero,
                -1 => Answer::Normal,
                // part of it is accepted, then nothing
                -2 if k == i => Answer::Short(len / 2),
                -2 if o == Op::Write => Answer::Fail(sys::ENOSPC),
                -2 => Answer::Normal,
                e => Answer::Fail(e),
            }
        });
        let (r, _) = sys::with_plan(plan, || guard("write_to", || tag.write_to(f)));
        let r = r?;
        c.step(1);
        c.sample(|| format!("operation {} ({:?}) of {} of a write fails with {} {:?}", i, kind, ops.len(), code, how));
        label(c, r.is_ok(), true);
        match r {
            Ok(()) => {
                ensure!(
                    sys::contents(f) == want,
                    "operation {} ({:?}) of {} failed with {}, but the write reports success with another file content",
                    i, kind, ops.len(), code
                );
                Ok(())
            }
            Err(e) if code < 0 => match &e.kind {
                ErrorKind::Io(_) => Ok(()),
                _ => Err(format!("storage that accepts no more bytes is reported as {}", e)),
            },
            Err(e) => carries(&e, code),
        }
    })
}

// ---------------------------------------------------------------------------------------------
// paths

/// A scratch directory that is removed at the end.
pub struct Scratch {
    pub dir: PathBuf,
}

impl Scratch {
    pub fn new(name: &str) -> Self {
        // a file system in memory is much faster
        let at = |base: PathBuf| {
            let dir = base.join(format!("mc-{}-{}", name, std::process::id()));
            let _ = std::fs::remove_dir_all(&dir);
            std::fs::create_dir(&dir).map(|_| dir)
        };
        let dir = match at("/dev/shm".into()) {
            Ok(dir) => Ok(dir),
            Err(_) => at(std::env::temp_dir()),
        };
        match dir {
            Ok(dir) => Scratch { dir },
            Err(e) => harness_error(&format!("scratch directory: {}", e)),
        }
    }

    /// A file name of its own for every thread.
    pub fn file(&self) -> PathBuf {
        self.sub().join("file.m4a")
    }

    pub fn sub(&self) -> PathBuf {
        let d = self.dir.join(format!("{:?}", std::thread::current().id()).replace(['(', ')'], "-"));
        let _ = std::fs::create_dir(&d);
        d
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}

pub const PATH_OPS: [&str; 3] = ["read_from_path", "write_to_path", "dump_to_path"];

struct PathRun {
    result: R<Option<Outcome>>,
    content: Vec<u8>,
    ops: Vec<Op>,
}

fn path_run(op: usize, path: &PathBuf, b: &[u8], tag: &Tag, mut decide: sys::Decide) -> Result<PathRun, String> {
    std::fs::write(path, b).unwrap_or_else(|e| harness_error(&format!("scratch file: {}", e)));
    let log = Rc::new(RefCell::new(Vec::new()));
    let l = log.clone();
    let plan = Box::new(move |o: Op, n: usize, a: i64| {
        l.borrow_mut().push(o);
        decide(o, n, a)
    });
    let (r, _) = sys::with_plan(plan, || {
        guard(PATH_OPS[op], || match op {
            0 => Tag::read_from_path(path).map(Some),
            1 => tag.write_to_path(path).map(|_| None),
            _ => tag.dump_to_path(path).map(|_| None),
        })
    });
    let result = match r? {
        Ok(Some(t)) => Ok(Some(outcome(&Ok(t))?)),
        Ok(None) => Ok(None),
        Err(e) => Err(e),
    };
    let content = std::fs::read(path).unwrap_or_else(|e| harness_error(&format!("scratch file: {}", e)));
    let ops = log.borrow().clone();
    Ok(PathRun { result, content, ops })
}

// ---------------------------------------------------------------------------------------------
// C08

/// Deterministic delivery: at most `chunk` bytes, interrupted before every `intr`th transfer.
fn uniform(chunk: usize, intr: usize) -> impl FnMut(Op) -> Answer {
    let mut n = 0;
    move |o| {
        if !matches!(o, Op::Read | Op::Write) {
            return Answer::Normal;
        }
        n += 1;
        if intr > 0 && n % intr == 0 {
            Answer::Fail(sys::EINTR)
        } else {
            Answer::Short(chunk)
        }
    }
}

fn some_malformed() -> Vec<Vec<u8>> {
    let b = bytes_of(&bases()[0].1);
    let mut v = Vec::new();
    for cut in [4, 11, 12, 40, b.len() / 2, b.len() - 9, b.len() - 1] {
        v.push(b[..cut].to_vec());
    }
    for (at, x) in [(15usize, 0x90u8), (16, 0), (7, 0)] {
        let mut m = b.clone();
        m[at] = x;
        v.push(m);
    }
    v
}

fn c08(run: &mut Run) {
    let d = run.tiered(2, 3);
    let max_chunk = run.tiered(9usize, 40);
    // ---------------------------------------------------------------- uniform schedules
    run.explore("reading in chunks", d, |c| {
        let l = layout(c, vary());
        let b = bytes_of(&l.nodes);
        let (want, _) = undisturbed_read(&b)?;
        let chunk = 1 + c.all(max_chunk);
        let intr = *c.all_of(&[0usize, 2, 3]);
        let cap = *c.all_of(&[0usize, 5, 8192]);
        let mut u = uniform(chunk, intr);
        let mut r = ios::Reader::with(&b, move |o, _| u(o));
        let res = if cap == 0 {
            guard("read_from", || Tag::read_from(&mut r))?
        } else {
            let mut r = BufReader::with_capacity(cap, r);
            guard("read_from", || Tag::read_from(&mut r))?
        };
        c.step(1);
        c.sample(|| format!("{} bytes read in pieces of {}, interrupted every {}", b.len(), chunk, intr));
        let got = outcome(&res)?;
        ensure!(got == want, "in pieces of {} bytes, interrupted every {}: {} instead of {}", chunk, intr, short(&got), short(&want));
        Ok(())
    });
    let bad = some_malformed();
    let bad = &bad;
    run.explore("malformed files in chunks", 0, |c| {
        let b = c.all_of(bad);
        let (want, _) = undisturbed_read(b)?;
        let mut u = uniform(1 + c.all(max_chunk), *c.all_of(&[0usize, 2, 3]));
        let mut r = ios::Reader::with(b, move |o, _| u(o));
        let res = guard("read_from", || Tag::read_from(&mut r))?;
        drop(r);
        c.step(1);
        let got = outcome(&res)?;
        ensure!(got == want, "in pieces: {} instead of {}", short(&got), short(&want));
        Ok(())
    });
    run.explore("writing in chunks", d, |c| {
        let l = layout(c, vary());
        let t = c.pick(N_TAGS);
        let b = bytes_of(&l.nodes);
        let tag = tag_n(t).0;
        let want = written("write_to", &tag, &b)?.map_err(|e| format!("write_to failed: {}", e))?;
        let chunk = *c.all_of(&[1usize, 2, 3, 7, 100, 8191]);
        let intr = *c.all_of(&[0usize, 2, 3]);
        let mut u = uniform(chunk, intr);
        with_file(&b, |f| {
            let (r, _) = sys::with_plan(Box::new(move |o, _, _| u(o)), || guard("write_to", || tag.write_to(f)));
            c.step(1);
            c.sample(|| format!("{} bytes written onto in pieces of {}, interrupted every {}", b.len(), chunk, intr));
            same_write(r?, f, &want)
        })
    });
    run.explore("dumping in chunks", 0, |c| {
        let tag = tag_n(c.all(N_TAGS)).0;
        let want = dumped(&tag)?;
        let chunk = 1 + c.all(max_chunk);
        let intr = *c.all_of(&[0usize, 2, 3]);
        let mut u = uniform(chunk, intr);
        let mut w = ios::Writer::with(move |o, _| u(o));
        let r = guard("dump_to", || tag.dump_to(&mut w))?;
        c.step(1);
        if let Err(e) = r {
            return Err(format!("dump in pieces of {} bytes fails: {}", chunk, e));
        }
        ensure!(w.out == want, "dump in pieces of {} bytes differs", chunk);
        Ok(())
    });

    // ---------------------------------------------------------------- any operation short or interrupted
    let hb: Vec<Vec<u8>> = bases().into_iter().map(|(_, n)| bytes_of(&n)).collect();
    let hb = &hb;
    let dev = run.tiered(2, 3);
    let nbase = run.tiered(hb.len(), 2);
    run.explore("reading, any transfer disturbed", dev, |c| {
        let b = &hb[c.all(nbase)];
        let (want, _) = undisturbed_read(b)?;
        let cc = c.clone();
        let mut r = ios::Reader::with(b, move |o, _| match o {
            Op::Read => [Answer::Normal, Answer::Fail(sys::EINTR), Answer::Short(1), Answer::Short(2), Answer::Short(3)][cc.pick(5)],
            _ => Answer::Normal,
        });
        let res = guard("read_from", || Tag::read_from(&mut r))?;
        drop(r);
        c.step(1);
        let got = outcome(&res)?;
        ensure!(got == want, "with disturbed transfers: {} instead of {}", short(&got), short(&want));
        Ok(())
    });
    run.explore("writing, any transfer disturbed", dev, |c| {
        let b = c.all_of(hb);
        let tag = tag_n(*c.all_of(&[0usize, 1, 6])).0;
        let want = written("write_to", &tag, b)?.map_err(|e| format!("write_to failed: {}", e))?;
        let cc = c.clone();
        let plan = Box::new(move |o: Op, len: usize, _: i64| match o {
            Op::Read | Op::Write if len > 1 => {
                [Answer::Normal, Answer::Fail(sys::EINTR), Answer::Short(1), Answer::Short(len / 2), Answer::Short(len - 1)][cc.pick(5)]
            }
            Op::Read | Op::Write | Op::SetLen => [Answer::Normal, Answer::Fail(sys::EINTR)][cc.pick(2)],
            _ => Answer::Normal,
        });
        with_file(b, |f| {
            let (r, _) = sys::with_plan(plan, || guard("write_to", || tag.write_to(f)));
            c.step(1);
            same_write(r?, f, &want)
        })
    });
    run.explore("writing layouts, any transfer disturbed", d, |c| {
        // one disturbed transfer in every layout with d deviations
        let l = layout(c, vary());
        let b = bytes_of(&l.nodes);
        let tag = tag_n(0).0;
        let want = written("write_to", &tag, &b)?.map_err(|e| format!("write_to failed: {}", e))?;
        let cc = c.clone();
        let plan = Box::new(move |o: Op, len: usize, _: i64| match o {
            Op::Read | Op::Write => [Answer::Normal, Answer::Fail(sys::EINTR), Answer::Short(len / 2)][cc.pick(3)],
            _ => Answer::Normal,
        });
        with_file(&b, |f| {
            let (r, _) = sys::with_plan(plan, || guard("write_to", || tag.write_to(f)));
            c.step(1);
            same_write(r?, f, &want)
        })
    });
    run.explore("dumping, any transfer disturbed", dev, |c| {
        let tag = tag_n(*c.all_of(&[1usize, 2, 4, 8])).0;
        let want = dumped(&tag)?;
        let cc = c.clone();
        let mut w = ios::Writer::with(move |o, _| match o {
            Op::Write => [Answer::Normal, Answer::Fail(sys::EINTR), Answer::Short(1), Answer::Short(2)][cc.pick(4)],
            _ => Answer::Normal,
        });
        let r = guard("dump_to", || tag.dump_to(&mut w))?;
        c.step(1);
        if let Err(e) = r {
            return Err(format!("dump with disturbed transfers fails: {}", e));
        }
        ensure!(w.out == want, "dump with disturbed transfers differs");
        Ok(())
    });

    // ---------------------------------------------------------------- start positions
    let reach = run.tiered(80, 700);
    run.explore("start position", d - 1, |c| {
        let l = layout(c, vary());
        let b = bytes_of(&l.nodes);
        let (want, _) = undisturbed_read(&b)?;
        let n = c.all(reach);
        let n = if n >= reach - 4 { [4096, 8191, 8192, 70_000][n + 4 - reach] } else { n };
        // what precedes: junk, or a file of its own
        let mut all: Vec<u8> = match c.all(2) {
            0 => (0..n).map(|i| (i as u8).wrapping_mul(37)).collect(),
            _ => {
                let other = bytes_of(&small_file(ilst_of(&[(Id::fc("\u{a9}alb"), vec![Val::s("embedding")])])));
                other.iter().copied().cycle().take(n).collect()
            }
        };
        all.extend_from_slice(&b);
        let buffered = c.all(2) == 1;
        let mut r = ios::plain(&all);
        r.pos = n as u64;
        let res = if buffered {
            let mut r = BufReader::with_capacity(64, r);
            guard("read_from", || Tag::read_from(&mut r))?
        } else {
            guard("read_from", || Tag::read_from(&mut r))?
        };
        c.step(1);
        c.sample(|| format!("{} bytes behind {} others", b.len(), n));
        let got = outcome(&res)?;
        ensure!(got == want, "behind {} bytes: {} instead of {}", n, short(&got), short(&want));
        // a file at that position
        if n % 8 == 0 {
            with_file(&all, |f| {
                let mut f = f;
                f.seek(SeekFrom::Start(n as u64)).unwrap();
                let res = guard("read_from", || Tag::read_from(&mut f))?;
                ensure!(outcome(&res)? == want, "reading a file from position {} differs", n);
                ensure!(sys::contents(f) == all, "reading changed the file");
                Ok(())
            })?;
        }
        Ok(())
    });
}

fn same_write(r: R<()>, f: &File, want: &[u8]) -> Verdict {
    if let Err(e) = r {
        return Err(format!("the write fails: {}", e));
    }
    let got = sys::contents(f);
    if got != want {
        let p = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        return Err(format!("the file differs from byte {} ({} bytes instead of {})", p, got.len(), want.len()));
    }
    Ok(())
}
