//! One check per property.

use std::fs::File;
use std::io::Cursor;

use mp4ameta::{Error, ErrorKind, Tag};

use crate::engine::*;
use crate::gen::*;
use crate::ios;
use crate::model::*;
use crate::sys;

mod dumps;
mod equality;
mod errors;
mod fields_checks;
mod files;
mod hostile;
mod ioerrors;
mod reading;
mod tags;
mod values;

pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    pub technique: &'static str,
    pub note: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub run: fn(&mut Run),
}

pub fn all() -> Vec<Check> {
    let mut v = Vec::new();
    v.extend(files::checks());
    v.extend(hostile::checks());
    v.extend(ioerrors::checks());
    v.extend(reading::checks());
    v.extend(dumps::checks());
    v.extend(tags::checks());
    v.extend(fields_checks::checks());
    v.extend(values::checks());
    v.extend(errors::checks());
    v.extend(equality::checks());
    v.sort_by_key(|c| c.id);
    v
}

// ---------------------------------------------------------------------------------------------
// calls of the code under test

pub type R<T> = Result<T, Error>;

pub fn read_bytes(what: &str, b: &[u8]) -> Result<R<Tag>, String> {
    guard(what, || Tag::read_from(&mut Cursor::new(b)))
}

pub fn must_read(what: &str, b: &[u8]) -> Result<Tag, String> {
    match read_bytes(what, b)? {
        Ok(t) => Ok(t),
        Err(e) => Err(format!("{} failed: {}", what, e)),
    }
}

pub fn write_file(what: &str, t: &Tag, f: &File) -> Result<R<()>, String> {
    sys::rewind(f);
    guard(what, || t.write_to(f))
}

pub fn must_write(what: &str, t: &Tag, f: &File) -> Result<(), String> {
    match write_file(what, t, f)? {
        Ok(()) => Ok(()),
        Err(e) => Err(format!("{} failed: {}", what, e)),
    }
}

/// Writes a tag onto a copy of the bytes and returns the new bytes.
pub fn written(what: &str, t: &Tag, b: &[u8]) -> Result<R<Vec<u8>>, String> {
    with_file(b, |f| Ok(write_file(what, t, f)?.map(|_| sys::contents(f))))
}

thread_local! {
    static SCRATCH: std::cell::RefCell<Vec<File>> = const { std::cell::RefCell::new(Vec::new()) };
}

/// Runs `f` with an anonymous file that has this content.
pub fn with_file<T>(b: &[u8], f: impl FnOnce(&File) -> T) -> T {
    let file = SCRATCH.with(|s| s.borrow_mut().pop()).unwrap_or_else(sys::memfd);
    sys::reset(&file, b);
    let r = f(&file);
    SCRATCH.with(|s| s.borrow_mut().push(file));
    r
}

pub fn check_items(what: &str, t: &Tag, want: &Items) -> Verdict {
    let got = items_of(t)?;
    same_items(what, &got, want)
}

pub fn dumped(t: &Tag) -> Result<Vec<u8>, String> {
    let mut v = Vec::new();
    match guard("dump_to", || t.dump_to(&mut v))? {
        Ok(()) => Ok(v),
        Err(e) => Err(format!("dump_to failed: {}", e)),
    }
}

pub fn kind_name(e: &Error) -> &'static str {
    match &e.kind {
        ErrorKind::AtomNotFound(_) => "AtomNotFound",
        ErrorKind::DescriptorNotFound(_) => "DescriptorNotFound",
        ErrorKind::Io(_) => "Io",
        ErrorKind::NoTag => "NoTag",
        ErrorKind::Parsing => "Parsing",
        ErrorKind::UnknownChannelConfig(_) => "UnknownChannelConfig",
        ErrorKind::UnknownDataType(_) => "UnknownDataType",
        ErrorKind::UnknownMediaType(_) => "UnknownMediaType",
        ErrorKind::UnknownVersion(_) => "UnknownVersion",
        ErrorKind::Utf8StringDecoding(_) => "Utf8StringDecoding",
        ErrorKind::Utf16StringDecoding(_) => "Utf16StringDecoding",
        ErrorKind::UnwritableData => "UnwritableData",
        #[allow(unreachable_patterns)]
        _ => "another kind",
    }
}

/// A small complete file around an item list.
pub fn small_file(ilst: crate::mp4::Node) -> Vec<crate::mp4::Node> {
    use crate::mp4::*;
    vec![
        leaf("ftyp", FTYP.as_bytes()),
        kids(
            "moov",
            vec![
                leaf("mvhd", &mvhd_bytes(0, 600, 1501)),
                trak(vec![
                    stsd(vec![mp4a(Esds::default().bytes())]),
                    Node { cc: *b"stco", ext: false, body: Body::Stco(vec![Target::Media(0, 0), Target::Media(0, 20)]) },
                ]),
                kids("udta", vec![meta(vec![hdlr(b"mdir"), ilst])]),
            ],
        ),
        mdat(40, 3),
    ]
}

#[allow(unused_imports)]
pub use ios::plain;
