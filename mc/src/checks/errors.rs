//! C23: what errors carry and print.

use std::error::Error as _;
use std::fmt::Write as _;
use std::io;

use mp4ameta::Fourcc;

use super::fields_checks::FullFmt;
use super::*;
use crate::mp4::*;
use crate::sys::{Answer, Op};

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C23",
        level: "model_checking",
        technique: "exhaustive enumeration of error kinds x carried values x descriptions x formatters that fail after each number of bytes, and of all failing operations and undecodable texts of real reads and dumps",
        note: "All kinds with all 256 (or boundary) values, all system error numbers, all descriptions of a menu; both ways of printing with a formatter that fails after each number of bytes; each read, seek and write of a scenario failing with each error number; each undecodable text at each place of each text a file contains.",
        rule: "a transition is one error constructed, converted, printed or met, and compared",
        assumptions: &[],
        run: c23,
    }]
}

const TEXTS: [&str; 8] = ["", "x", "Missing necessary data, no movie (moov) atom found", "Error parsing \u{a9}nam: {} %s \\", "a\nb\0c", "\u{1F600}\u{FFFD}", " ", "NoTag"];

fn io_errors() -> Vec<fn(i32) -> io::Error> {
    vec![
        io::Error::from_raw_os_error,
        |n| io::Error::new([io::ErrorKind::Other, io::ErrorKind::UnexpectedEof, io::ErrorKind::NotFound, io::ErrorKind::InvalidData][n as usize & 3], format!("custom {}", n)),
        |n| io::Error::from([io::ErrorKind::WriteZero, io::ErrorKind::Interrupted, io::ErrorKind::PermissionDenied, io::ErrorKind::OutOfMemory][n as usize & 3]),
    ]
}

fn same_io(a: &io::Error, b: &io::Error) -> bool {
    a.kind() == b.kind() && a.raw_os_error() == b.raw_os_error() && a.to_string() == b.to_string()
}

fn utf8(b: &[u8]) -> Option<std::string::FromUtf8Error> {
    String::from_utf8(b.to_vec()).err()
}

fn utf16(b: &[u16]) -> Option<std::string::FromUtf16Error> {
    String::from_utf16(b).err()
}

const BAD8: [&[u8]; 8] = [&[0xFF], &[0x80], &[0xC0, 0x80], &[0xED, 0xA0, 0x80], &[0xF4, 0x90, 0x80, 0x80], &[0xE2, 0x82], &[0xF0, 0x9F, 0x98], &[b'a', 0xFE, b'b', 0xFE]];

/// A kind, with what has to be found in print besides its value.
fn kind(c: &Ctx) -> (ErrorKind, Option<io::Error>) {
    let byte = |c: &Ctx| c.all(256) as u8;
    let k = match c.all(11) {
        0 => ErrorKind::AtomNotFound(Fourcc([*b"moov", *b"data", *b"esds", [0; 4], [0xFF; 4], *b"\xa9nam", *b"%s{}", *b"\n\t\"\\"][c.all(8)])),
        1 => ErrorKind::DescriptorNotFound(byte(c)),
        2 => {
            let make = *c.all_of(&io_errors());
            let n = c.all(134) as i32;
            return (ErrorKind::Io(make(n)), Some(make(n)));
        }
        3 => ErrorKind::NoTag,
        4 => ErrorKind::Parsing,
        5 => ErrorKind::UnknownChannelConfig(byte(c)),
        6 => ErrorKind::UnknownDataType((1u64 << c.all(33)).wrapping_sub(c.all(2) as u64) as u32),
        7 => ErrorKind::UnknownMediaType(byte(c)),
        8 => ErrorKind::UnknownVersion(byte(c)),
        9 => ErrorKind::Utf8StringDecoding(utf8(c.all_of(&BAD8)).unwrap()),
        _ => ErrorKind::Utf16StringDecoding(utf16(c.all_of(&[&[0xD800u16][..], &[0x41, 0xDC00], &[0xD800, 0x41]])).unwrap()),
    };
    (k, None)
}

fn number(k: &ErrorKind) -> Option<String> {
    match k {
        ErrorKind::DescriptorNotFound(n) | ErrorKind::UnknownChannelConfig(n) | ErrorKind::UnknownMediaType(n) | ErrorKind::UnknownVersion(n) => Some(n.to_string()),
        ErrorKind::UnknownDataType(n) => Some(n.to_string()),
        _ => None,
    }
}

#[allow(deprecated)]
fn cause_is(e: &Error, want: Option<&io::Error>) -> Verdict {
    let got = e.cause().map(|x| x.to_string());
    let want = want.map(|x| x.to_string());
    ensure!(got == want, "the cause of {:?} is {:?} instead of {:?}", e.kind, got, want);
    Ok(())
}

fn prints(e: &Error, fmt: impl Fn(&mut FullFmt) -> std::fmt::Result, what: &str) -> Verdict {
    let mut w = FullFmt::new(usize::MAX, false);
    let r = guard(what, || fmt(&mut w))?;
    ensure!(r.is_ok(), "{} of {:?} fails", what, e.kind);
    let s = w.out;
    let name = kind_name(e);
    ensure!(s.contains(name), "{} of an error of kind {} is {:?}", what, name, s);
    ensure!(s.contains(&e.description), "{} of an error lacks the description {:?}: {:?}", what, e.description, s);
    if let Some(n) = number(&e.kind) {
        ensure!(s.contains(&n), "{} of an error lacks the number {}: {:?}", what, n, s);
    }
    match &e.kind {
        ErrorKind::Io(i) => ensure!(s.contains(&format!("{:?}", i)), "{} lacks the failure {:?}: {:?}", what, i, s),
        ErrorKind::AtomNotFound(f) => ensure!(s.contains(&format!("{:?}", f)) || s.contains(&f.to_string()), "{} lacks the atom {}: {:?}", what, f, s),
        _ => (),
    }
    for room in 0..s.len() {
        for once in [false, true] {
            let mut w = FullFmt::new(room, once);
            let r = guard(what, || fmt(&mut w))?;
            ensure!(r.is_err() == w.failed, "{} with room for {} bytes: {}", what, room, if r.is_ok() { "the failure isn't reported" } else { "fails although the formatter didn't" });
        }
    }
    Ok(())
}

fn c23(run: &mut Run) {
    run.explore("printing", 0, |c| {
        let (k, cause) = kind(c);
        let e = Error::new(k, (*c.all_of(&TEXTS)).to_owned());
        c.label(kind_name(&e));
        c.sample(|| e.to_string());
        c.step(2);
        prints(&e, |w| write!(w, "{}", e), "Display")?;
        prints(&e, |w| write!(w, "{:?}", e), "Debug")?;
        cause_is(&e, cause.as_ref())
    });

    run.explore("conversions", 0, |c| {
        c.step(1);
        match c.all(3) {
            0 => {
                let make = *c.all_of(&io_errors());
                let n = c.all(134) as i32;
                let e = Error::from(make(n));
                let want = make(n);
                match &e.kind {
                    ErrorKind::Io(i) => ensure!(same_io(i, &want), "{:?} is converted to {:?}", want, i),
                    k => return Err(format!("{:?} is converted to {:?}", want, k)),
                }
                cause_is(&e, Some(&want))
            }
            1 => {
                let mut b = c.all_of(&[&b""[..], b"abc", "\u{e9}".as_bytes()]).to_vec();
                b.extend_from_slice(c.all_of(&BAD8));
                b.extend_from_slice(c.all_of(&[&b""[..], b"xyz"]));
                let want = utf8(&b).unwrap();
                match Error::from(want.clone()).kind {
                    ErrorKind::Utf8StringDecoding(x) => ensure!(x == want && x.as_bytes() == &b[..], "{:?} is converted to {:?}", want, x),
                    k => return Err(format!("{:?} is converted to {:?}", want, k)),
                }
                Ok(())
            }
            _ => {
                let e = Error::from(utf16(c.all_of(&[&[0xD800u16][..], &[0x41, 0xDC00]])).unwrap());
                ensure!(matches!(e.kind, ErrorKind::Utf16StringDecoding(_)), "a UTF-16 error is converted to {:?}", e.kind);
                cause_is(&e, None)
            }
        }
    });

    // the bytes that can't be decoded are carried by the error
    let before: [&[u8]; 4] = [b"", b"a", "\u{20ac}b".as_bytes(), &[b'x'; 300]];
    let after: [&[u8]; 3] = [b"", b"z", "y\u{1F600}".as_bytes()];
    run.explore("undecodable text", 0, |c| {
        let place = c.all(4);
        let text = [*c.all_of(&before), *c.all_of(&BAD8), *c.all_of(&after)].concat();
        let Some(want) = utf8(&text) else { return Ok(()) };
        let ext = c.all(2) == 1;
        let full = |b: &[u8]| [&[0; 4][..], b].concat();
        let item = match place {
            0 => kids("\u{a9}nam", vec![leaf("data", &[&[0, 0, 0, 1, 0, 0, 0, 0][..], &text].concat()).ext(ext)]),
            1 => kids("----", vec![leaf("mean", &full(&text)).ext(ext), leaf("name", &full(b"n")), leaf("data", &[0, 0, 0, 0, 0, 0, 0, 0, 1])]),
            _ => kids("----", vec![leaf("mean", &full(b"m")), leaf("name", &full(&text)).ext(ext), leaf("data", &[0, 0, 0, 0, 0, 0, 0, 0, 1])]),
        };
        let mut nodes = small_file(kids("ilst", vec![item]));
        if place == 3 {
            nodes = small_file(kids("ilst", vec![]));
            nodes[0] = leaf("ftyp", &text).ext(ext);
        }
        let b = bytes_of(&nodes);
        c.state(&b);
        c.step(1);
        c.label(["data", "mean", "name", "ftyp"][place]);
        match read_bytes("read", &b)? {
            Err(Error { kind: ErrorKind::Utf8StringDecoding(x), .. }) => {
                ensure!(x.as_bytes() == &text[..] && x == want, "the error carries {:?} instead of {:?}", x.as_bytes(), text);
                Ok(())
            }
            Err(e) => Err(format!("reported as {:?}", e.kind)),
            Ok(_) => Err("the text was accepted".to_owned()),
        }
    });

    // the failure of each operation is the cause
    let (_, items) = tag_n(4);
    let nodes = small_file(ilst_of(&tag_items(4)));
    let file = bytes_of(&nodes);
    let tag = tag_n(4).0;
    let _ = items;
    let clean = {
        let mut r = ios::plain(&file);
        let _ = Tag::read_from(&mut r);
        r.ops
    };
    let dump_ops = {
        let mut w = ios::Writer::with(|_, _| Answer::Normal);
        let _ = tag.dump_to(&mut w);
        w.ops
    };
    let codes: Vec<i32> = (1..134).filter(|n| *n != 4).chain(ios::CUSTOM..ios::CUSTOM + 4).collect();
    run.explore("failures", 0, |c| {
        let dump = c.all(2) == 1;
        let at = c.all(if dump { dump_ops } else { clean } as usize) as u64;
        let code = *c.all_of(&codes);
        let hit = std::cell::Cell::new(false);
        let decide = |_: Op, i: u64| {
            if i >= at {
                hit.set(true);
                Answer::Fail(code)
            } else {
                Answer::Normal
            }
        };
        c.step(1);
        c.label(if dump { "dump" } else { "read" });
        let r = if dump {
            let mut w = ios::Writer::with(decide);
            guard("dump_to", || tag.dump_to(&mut w))?
        } else {
            let mut r = ios::Reader::with(&file, decide);
            guard("read_from", || Tag::read_from(&mut r).map(|_| ()))?
        };
        let want = if code >= ios::CUSTOM { ios::custom(code) } else { io::Error::from_raw_os_error(code) };
        match r {
            Ok(()) if !hit.get() => Ok(()),
            Ok(()) => Err(format!("the failure of operation {} isn't reported", at)),
            Err(e) => {
                match &e.kind {
                    ErrorKind::Io(i) => ensure!(same_io(i, &want), "{:?} of operation {} is reported as {:?}", want, at, i),
                    k => return Err(format!("{:?} of operation {} is reported as {:?}", want, at, k)),
                }
                cause_is(&e, Some(&want))?;
                let s = e.to_string();
                ensure!(s.contains(&format!("{:?}", want)), "{:?} isn't found in {:?}", want, s);
                Ok(())
            }
        }
    });
}
