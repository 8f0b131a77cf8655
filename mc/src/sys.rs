//! Everything the harness needs from the system: anonymous files, controlled answers of the storage
//! (interposed libc calls), and an allocator that accounts what a call allocates.
#![allow(clippy::missing_safety_doc)]

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::fs::File;
use std::os::fd::{AsRawFd, FromRawFd};
use std::os::raw::{c_char, c_int, c_long, c_uint, c_void};

extern "C" {
    fn syscall(num: c_long, ...) -> c_long;
    fn __errno_location() -> *mut c_int;
}

const SYS_READ: c_long = 0;
const SYS_WRITE: c_long = 1;
const SYS_LSEEK: c_long = 8;
const SYS_PREAD: c_long = 17;
const SYS_PWRITE: c_long = 18;
const SYS_READV: c_long = 19;
const SYS_WRITEV: c_long = 20;
const SYS_FTRUNCATE: c_long = 77;
const SYS_FSYNC: c_long = 74;
const SYS_FDATASYNC: c_long = 75;
const SYS_OPENAT: c_long = 257;
const SYS_MEMFD: c_long = 319;
const SYS_EXIT_GROUP: c_long = 231;

pub const EINTR: i32 = 4;
pub const EIO: i32 = 5;
pub const EACCES: i32 = 13;
pub const ENOSPC: i32 = 28;
pub const EMFILE: i32 = 24;

pub fn set_errno(e: i32) {
    unsafe { *__errno_location() = e }
}

/// Which call the code under test made.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Read,
    Write,
    Seek,
    SetLen,
    Sync,
    Open,
}

/// What the storage answers.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Answer {
    Normal,
    /// fail with this errno
    Fail(i32),
    /// transfer at most this many bytes
    Short(usize),
    /// a write or read that reports zero bytes transferred
    Zero,
}

pub type Decide = Box<dyn FnMut(Op, usize, i64) -> Answer>;

thread_local! {
    static PLAN: RefCell<Option<Decide>> = const { RefCell::new(None) };
    static ARMED: Cell<bool> = const { Cell::new(false) };
    static OPS: Cell<u64> = const { Cell::new(0) };
    static MODS: Cell<u64> = const { Cell::new(0) };
    static XFER: Cell<u64> = const { Cell::new(0) };
    static OPENS: RefCell<Vec<(Vec<u8>, i32)>> = const { RefCell::new(Vec::new()) };
}

/// Counts of calls made by the code under test in the last `with_plan`.
#[derive(Clone, Copy, Debug, Default)]
pub struct OpStats {
    pub ops: u64,
    pub mods: u64,
    pub bytes: u64,
}

/// Runs `f` with every file operation of this thread answered by `decide`.
pub fn with_plan<T>(decide: Decide, f: impl FnOnce() -> T) -> (T, OpStats) {
    struct Disarm;
    impl Drop for Disarm {
        fn drop(&mut self) {
            ARMED.with(|a| a.set(false));
            PLAN.with(|p| *p.borrow_mut() = None);
        }
    }
    PLAN.with(|p| *p.borrow_mut() = Some(decide));
    OPS.with(|c| c.set(0));
    MODS.with(|c| c.set(0));
    XFER.with(|c| c.set(0));
    OPENS.with(|o| o.borrow_mut().clear());
    ARMED.with(|a| a.set(true));
    let d = Disarm;
    let r = f();
    drop(d);
    (r, OpStats { ops: OPS.with(|c| c.get()), mods: MODS.with(|c| c.get()), bytes: XFER.with(|c| c.get()) })
}

/// Paths opened (with flags) during the last `with_plan`.
pub fn opened() -> Vec<(Vec<u8>, i32)> {
    OPENS.with(|o| o.borrow().clone())
}

fn decide(op: Op, len: usize, arg: i64) -> Answer {
    let armed = ARMED.try_with(|a| a.get()).unwrap_or(false);
    if !armed {
        return Answer::Normal;
    }
    // operations of the decision procedure itself are not controlled
    ARMED.with(|a| a.set(false));
    OPS.with(|c| c.set(c.get() + 1));
    if matches!(op, Op::Write | Op::SetLen) {
        MODS.with(|c| c.set(c.get() + 1));
    }
    let r = PLAN.with(|p| match &mut *p.borrow_mut() {
        Some(d) => d(op, len, arg),
        None => Answer::Normal,
    });
    ARMED.with(|a| a.set(true));
    r
}

fn xfer(r: isize) -> isize {
    if r > 0 {
        let _ = XFER.try_with(|c| c.set(c.get() + r as u64));
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
    match decide(Op::Read, n, 0) {
        Answer::Fail(e) => {
            set_errno(e);
            -1
        }
        Answer::Zero => 0,
        Answer::Short(k) => xfer(syscall(SYS_READ, fd, buf, n.min(k.max(1))) as isize),
        Answer::Normal => xfer(syscall(SYS_READ, fd, buf, n) as isize),
    }
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    match decide(Op::Write, n, 0) {
        Answer::Fail(e) => {
            set_errno(e);
            -1
        }
        Answer::Zero => 0,
        Answer::Short(k) => xfer(syscall(SYS_WRITE, fd, buf, n.min(k.max(1))) as isize),
        Answer::Normal => xfer(syscall(SYS_WRITE, fd, buf, n) as isize),
    }
}

#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: usize, off: i64) -> isize {
    match decide(Op::Read, n, off) {
        Answer::Fail(e) => {
            set_errno(e);
            -1
        }
        Answer::Zero => 0,
        Answer::Short(k) => xfer(syscall(SYS_PREAD, fd, buf, n.min(k.max(1)), off) as isize),
        Answer::Normal => xfer(syscall(SYS_PREAD, fd, buf, n, off) as isize),
    }
}

#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: usize, off: i64) -> isize {
    match decide(Op::Write, n, off) {
        Answer::Fail(e) => {
            set_errno(e);
            -1
        }
        Answer::Zero => 0,
        Answer::Short(k) => xfer(syscall(SYS_PWRITE, fd, buf, n.min(k.max(1)), off) as isize),
        Answer::Normal => xfer(syscall(SYS_PWRITE, fd, buf, n, off) as isize),
    }
}

#[repr(C)]
pub struct IoVec {
    base: *mut c_void,
    len: usize,
}

#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const IoVec, cnt: c_int) -> isize {
    let total = (0..cnt as usize).map(|i| (*iov.add(i)).len).sum();
    match decide(Op::Read, total, 0) {
        Answer::Fail(e) => {
            set_errno(e);
            -1
        }
        Answer::Zero => 0,
        Answer::Short(k) => {
            let first = (0..cnt as usize).map(|i| &*iov.add(i)).find(|v| v.len > 0);
            match first {
                Some(v) => xfer(syscall(SYS_READ, fd, v.base, v.len.min(k.max(1))) as isize),
                None => 0,
            }
        }
        Answer::Normal => xfer(syscall(SYS_READV, fd, iov, cnt) as isize),
    }
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const IoVec, cnt: c_int) -> isize {
    let total = (0..cnt as usize).map(|i| (*iov.add(i)).len).sum();
    match decide(Op::Write, total, 0) {
        Answer::Fail(e) => {
            set_errno(e);
            -1
        }
        Answer::Zero => 0,
        Answer::Short(k) => {
            let first = (0..cnt as usize).map(|i| &*iov.add(i)).find(|v| v.len > 0);
            match first {
                Some(v) => xfer(syscall(SYS_WRITE, fd, v.base, v.len.min(k.max(1))) as isize),
                None => 0,
            }
        }
        Answer::Normal => xfer(syscall(SYS_WRITEV, fd, iov, cnt) as isize),
    }
}

#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, whence: c_int) -> i64 {
    match decide(Op::Seek, whence as usize, off) {
        Answer::Fail(e) => {
            set_errno(e);
            -1
        }
        _ => syscall(SYS_LSEEK, fd, off, whence) as i64,
    }
}

#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    match decide(Op::SetLen, 0, len) {
        Answer::Fail(e) => {
            set_errno(e);
            -1
        }
        _ => syscall(SYS_FTRUNCATE, fd, len) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    match decide(Op::Sync, 0, 0) {
        Answer::Fail(e) => {
            set_errno(e);
            -1
        }
        _ => syscall(SYS_FSYNC, fd) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    match decide(Op::Sync, 0, 0) {
        Answer::Fail(e) => {
            set_errno(e);
            -1
        }
        _ => syscall(SYS_FDATASYNC, fd) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    const AT_FDCWD: c_int = -100;
    match decide(Op::Open, 0, flags as i64) {
        Answer::Fail(e) => {
            set_errno(e);
            return -1;
        }
        _ => (),
    }
    if ARMED.try_with(|a| a.get()).unwrap_or(false) {
        ARMED.with(|a| a.set(false));
        let p = std::ffi::CStr::from_ptr(path).to_bytes().to_vec();
        OPENS.with(|o| o.borrow_mut().push((p, flags)));
        ARMED.with(|a| a.set(true));
    }
    syscall(SYS_OPENAT, AT_FDCWD, path, flags, mode) as c_int
}

pub fn exit_now(code: i32) -> ! {
    unsafe {
        syscall(SYS_EXIT_GROUP, code as c_long);
    }
    loop {}
}

/// An anonymous in-memory file.
pub fn memfd() -> File {
    let fd = unsafe { syscall(SYS_MEMFD, c"mc".as_ptr(), 1 as c_uint) } as c_int;
    if fd < 0 {
        crate::engine::harness_error("memfd_create failed");
    }
    unsafe { File::from_raw_fd(fd) }
}

pub fn file_of(bytes: &[u8]) -> File {
    let f = memfd();
    put_at(&f, 0, bytes);
    rewind(&f);
    f
}

pub fn rewind(f: &File) {
    unsafe { syscall(SYS_LSEEK, f.as_raw_fd(), 0 as c_long, 0 as c_int) };
}

pub fn truncate(f: &File, len: u64) {
    let r = unsafe { syscall(SYS_FTRUNCATE, f.as_raw_fd(), len as c_long) };
    if r != 0 {
        crate::engine::harness_error("ftruncate failed");
    }
}

/// Resets the contents of a file to `bytes`.
pub fn reset(f: &File, bytes: &[u8]) {
    truncate(f, bytes.len() as u64);
    put_at(f, 0, bytes);
    rewind(f);
}

pub fn len(f: &File) -> u64 {
    unsafe {
        let fd = f.as_raw_fd();
        let cur = syscall(SYS_LSEEK, fd, 0 as c_long, 1 as c_int);
        let end = syscall(SYS_LSEEK, fd, 0 as c_long, 2 as c_int);
        syscall(SYS_LSEEK, fd, cur, 0 as c_int);
        end as u64
    }
}

pub fn put_at(f: &File, mut pos: u64, mut bytes: &[u8]) {
    while !bytes.is_empty() {
        let r = unsafe {
            syscall(SYS_PWRITE, f.as_raw_fd(), bytes.as_ptr(), bytes.len(), pos as c_long)
        };
        if r <= 0 {
            crate::engine::harness_error("pwrite failed");
        }
        pos += r as u64;
        bytes = &bytes[r as usize..];
    }
}

pub fn get_at(f: &File, mut pos: u64, len: usize) -> Vec<u8> {
    let mut v = vec![0u8; len];
    let mut got = 0;
    while got < len {
        let r = unsafe {
            syscall(SYS_PREAD, f.as_raw_fd(), v.as_mut_ptr().add(got), len - got, pos as c_long)
        };
        if r <= 0 {
            break;
        }
        got += r as usize;
        pos += r as u64;
    }
    v.truncate(got);
    v
}

pub fn contents(f: &File) -> Vec<u8> {
    get_at(f, 0, len(f) as usize)
}

// ---------------------------------------------------------------------------------------------

/// Allocator accounting what the current thread allocates while a guard is active.
pub struct Counting;

thread_local! {
    static GUARD: Cell<bool> = const { Cell::new(false) };
    static CUR: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static BIGGEST: Cell<u64> = const { Cell::new(0) };
    static LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
}

#[inline]
fn account(size: usize) {
    if GUARD.try_with(|g| g.get()).unwrap_or(false) {
        let cur = CUR.with(|c| {
            c.set(c.get() + size as i64);
            c.get()
        });
        PEAK.with(|p| p.set(p.get().max(cur)));
        BIGGEST.with(|b| b.set(b.get().max(size as u64)));
        if size as u64 > LIMIT.with(|l| l.get()) {
            // far beyond everything that is allowed: the process would not survive it
            GUARD.with(|g| g.set(false));
            crate::engine::emergency(&format!("a single allocation of {} bytes was requested", size));
        }
    }
}

#[inline]
fn release(size: usize) {
    if GUARD.try_with(|g| g.get()).unwrap_or(false) {
        CUR.with(|c| c.set(c.get() - size as i64));
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        account(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        release(l.size());
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        account(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        release(l.size());
        account(n);
        System.realloc(p, l, n)
    }
}

/// Runs `f` and returns the peak number of bytes it held allocated on this thread. A single request
/// of more than `limit` bytes ends the process with a violation report.
pub fn measured<T>(limit: u64, f: impl FnOnce() -> T) -> (T, u64) {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            GUARD.with(|g| g.set(false));
        }
    }
    CUR.with(|c| c.set(0));
    PEAK.with(|c| c.set(0));
    BIGGEST.with(|c| c.set(0));
    LIMIT.with(|c| c.set(limit));
    GUARD.with(|g| g.set(true));
    let off = Off;
    let r = f();
    drop(off);
    (r, PEAK.with(|c| c.get()).max(0) as u64)
}
