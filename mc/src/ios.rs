//! Readers and writers whose every answer is decided by the check.

use std::io::{self, Read, Seek, SeekFrom, Write};

use crate::sys::{Answer, Op};

/// Codes from here on stand for errors that are not the system's.
pub const CUSTOM: i32 = 1000;

pub fn custom(code: i32) -> io::Error {
    let kinds = [io::ErrorKind::Other, io::ErrorKind::UnexpectedEof, io::ErrorKind::InvalidData, io::ErrorKind::WouldBlock];
    io::Error::new(kinds[(code - CUSTOM) as usize], "injected failure")
}

fn io_err(e: i32) -> io::Error {
    if e >= CUSTOM {
        return custom(e);
    }
    io::Error::from_raw_os_error(e)
}

/// A seekable reader over bytes; `decide(op, index)` answers the `index`th operation.
pub struct Reader<'a> {
    pub data: &'a [u8],
    pub pos: u64,
    pub ops: u64,
    pub read: u64,
    pub max_ops: u64,
    pub decide: Box<dyn FnMut(Op, u64) -> Answer + 'a>,
}

pub fn plain(data: &[u8]) -> Reader<'_> {
    Reader { data, pos: 0, ops: 0, read: 0, max_ops: u64::MAX, decide: Box::new(|_, _| Answer::Normal) }
}

impl<'a> Reader<'a> {
    pub fn with(data: &'a [u8], decide: impl FnMut(Op, u64) -> Answer + 'a) -> Self {
        Reader { data, pos: 0, ops: 0, read: 0, max_ops: u64::MAX, decide: Box::new(decide) }
    }

    fn op(&mut self, op: Op) -> Answer {
        self.ops += 1;
        if self.ops > self.max_ops {
            // an endless loop would not stop at an error it ignores
            if self.ops > self.max_ops + 1000 {
                crate::engine::emergency("the number of read operations is not bounded by the size of the input");
            }
            return Answer::Fail(crate::sys::EIO);
        }
        let i = self.ops - 1;
        (self.decide)(op, i)
    }
}

impl Read for Reader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let lim = match self.op(Op::Read) {
            Answer::Fail(e) => return Err(io_err(e)),
            Answer::Zero => return Ok(0),
            Answer::Short(k) => k.max(1),
            Answer::Normal => usize::MAX,
        };
        let a = (self.pos.min(self.data.len() as u64)) as usize;
        let n = buf.len().min(self.data.len() - a).min(lim);
        buf[..n].copy_from_slice(&self.data[a..a + n]);
        self.pos += n as u64;
        self.read += n as u64;
        Ok(n)
    }
}

impl Seek for Reader<'_> {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        if let Answer::Fail(e) = self.op(Op::Seek) {
            return Err(io_err(e));
        }
        // 64-bit file positions, as files have them
        let (base, off) = match s {
            SeekFrom::Start(p) => (0i128, p as i128),
            SeekFrom::Current(o) => (self.pos as i128, o as i128),
            SeekFrom::End(o) => (self.data.len() as i128, o as i128),
        };
        let p = base + off;
        if p < 0 || p > i64::MAX as i128 {
            return Err(io::Error::new(io::ErrorKind::InvalidInput, "invalid seek"));
        }
        self.pos = p as u64;
        Ok(self.pos)
    }
}

/// A writer collecting bytes.
pub struct Writer<'a> {
    pub out: Vec<u8>,
    pub ops: u64,
    pub decide: Box<dyn FnMut(Op, u64) -> Answer + 'a>,
}

impl<'a> Writer<'a> {
    pub fn with(decide: impl FnMut(Op, u64) -> Answer + 'a) -> Self {
        Writer { out: Vec::new(), ops: 0, decide: Box::new(decide) }
    }
}

impl Write for Writer<'_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.ops += 1;
        let lim = match (self.decide)(Op::Write, self.ops - 1) {
            Answer::Fail(e) => return Err(io_err(e)),
            Answer::Zero => return Ok(0),
            Answer::Short(k) => k.max(1),
            Answer::Normal => usize::MAX,
        };
        let n = buf.len().min(lim);
        self.out.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.ops += 1;
        match (self.decide)(Op::Sync, self.ops - 1) {
            Answer::Fail(e) => Err(io_err(e)),
            _ => Ok(()),
        }
    }
}
