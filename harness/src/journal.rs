//! Records what the code under test does to files, by standing in for the C library's functions.
//! Recording is per thread, and only concerns files below a given directory.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::ffi::{c_char, c_int, c_long, c_void, CStr};
use std::path::{Path, PathBuf};

extern "C" {
    fn syscall(n: c_long, ...) -> c_long;
}

#[derive(Clone, Debug)]
pub enum Op {
    Create(PathBuf),
    Write(PathBuf, u64, Vec<u8>),
    Truncate(PathBuf, u64),
    Rename(PathBuf, PathBuf),
    Remove(PathBuf),
}

/// Contents of a directory.
pub type Files = BTreeMap<PathBuf, Vec<u8>>;

struct Rec {
    root: PathBuf,
    ops: Vec<Op>,
}

thread_local! {
    static REC: RefCell<Option<Rec>> = RefCell::new(None);
}

pub fn start(root: &Path) {
    REC.with(|r| *r.borrow_mut() = Some(Rec { root: root.to_path_buf(), ops: vec![] }));
}
pub fn stop() -> Vec<Op> {
    REC.with(|r| r.borrow_mut().take()).map(|r| r.ops).unwrap_or_default()
}

/// Number of operations recorded so far.
pub fn len() -> usize {
    REC.with(|r| r.borrow().as_ref().map_or(0, |r| r.ops.len()))
}

fn recording() -> bool {
    REC.try_with(|r| r.try_borrow().map(|r| r.is_some()).unwrap_or(false)).unwrap_or(false)
}
fn record(op: Op) {
    let _ = REC.try_with(|r| {
        if let Some(r) = r.borrow_mut().as_mut() {
            let p = match &op {
                Op::Create(p) | Op::Write(p, ..) | Op::Truncate(p, _) | Op::Rename(p, _) | Op::Remove(p) => p,
            };
            if p.starts_with(&r.root) {
                r.ops.push(op);
            }
        }
    });
}
fn path_of(fd: c_int) -> Option<PathBuf> {
    std::fs::read_link(format!("/proc/self/fd/{fd}")).ok()
}
unsafe fn path(p: *const c_char) -> PathBuf {
    use std::os::unix::ffi::OsStrExt;
    PathBuf::from(std::ffi::OsStr::from_bytes(CStr::from_ptr(p).to_bytes()))
}
unsafe fn position(fd: c_int) -> u64 {
    const F_GETFL: c_long = 3;
    const O_APPEND: c_long = 0o2000;
    if syscall(72, fd as c_long, F_GETFL) & O_APPEND != 0 {
        return u64::MAX;
    }
    syscall(8, fd as c_long, 0 as c_long, 1 as c_long) as u64
}

/// # Safety
/// As `write(2)`.
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    if let Some(r) = crate::kernel::write(fd, buf, n) {
        return r;
    }
    let at = if fd > 2 && recording() { Some((path_of(fd), position(fd))) } else { None };
    let r = syscall(1, fd as c_long, buf, n) as isize;
    if let (Some((Some(p), at)), true) = (at, r > 0) {
        let data = std::slice::from_raw_parts(buf as *const u8, r as usize).to_vec();
        record(Op::Write(p, at, data));
    }
    r
}
#[repr(C)]
pub struct IoVec {
    base: *const u8,
    len: usize,
}
/// # Safety
/// As `writev(2)`.
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const IoVec, n: c_int) -> isize {
    let at = if fd > 2 && recording() { Some((path_of(fd), position(fd))) } else { None };
    let r = syscall(20, fd as c_long, iov, n as c_long) as isize;
    if let (Some((Some(p), at)), true) = (at, r > 0) {
        let mut data = vec![];
        for v in std::slice::from_raw_parts(iov, n as usize) {
            data.extend_from_slice(std::slice::from_raw_parts(v.base, v.len));
        }
        data.truncate(r as usize);
        record(Op::Write(p, at, data));
    }
    r
}
/// # Safety
/// As `pwrite(2)`.
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: usize, off: i64) -> isize {
    let p = if fd > 2 && recording() { path_of(fd) } else { None };
    let r = syscall(18, fd as c_long, buf, n, off) as isize;
    if let (Some(p), true) = (p, r > 0) {
        let data = std::slice::from_raw_parts(buf as *const u8, r as usize).to_vec();
        record(Op::Write(p, off as u64, data));
    }
    r
}
/// # Safety
/// As `ftruncate(2)`.
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    let r = syscall(77, fd as c_long, len) as c_int;
    if r == 0 && recording() {
        if let Some(p) = path_of(fd) {
            record(Op::Truncate(p, len as u64));
        }
    }
    r
}
/// # Safety
/// As `open(2)`.
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: u32) -> c_int {
    let new = recording() && flags & 0o100 != 0 && !path(p).exists();
    let r = syscall(257, -100 as c_long, p, flags as c_long, mode as c_long) as c_int;
    if r >= 0 && recording() {
        if new {
            record(Op::Create(path(p)));
        } else if flags & 0o1000 != 0 {
            record(Op::Truncate(path(p), 0));
        }
    }
    r
}
/// # Safety
/// As `rename(2)`.
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    let r = syscall(82, a, b) as c_int;
    if r == 0 && recording() {
        record(Op::Rename(path(a), path(b)));
    }
    r
}
/// # Safety
/// As `unlink(2)`.
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    let r = syscall(87, a) as c_int;
    if r == 0 && recording() {
        record(Op::Remove(path(a)));
    }
    r
}

/// Perform an operation, or its first `cut` bytes.
pub fn apply(f: &mut Files, op: &Op, cut: Option<usize>) {
    match op {
        Op::Create(p) => {
            f.entry(p.clone()).or_default();
        }
        Op::Write(p, at, data) => {
            let data = &data[..cut.unwrap_or(data.len())];
            let v = f.entry(p.clone()).or_default();
            let at = if *at == u64::MAX { v.len() } else { *at as usize };
            if v.len() < at + data.len() {
                v.resize(at + data.len(), 0);
            }
            v[at..at + data.len()].copy_from_slice(data);
        }
        Op::Truncate(p, n) => f.entry(p.clone()).or_default().resize(*n as usize, 0),
        Op::Rename(a, b) => {
            if let Some(v) = f.remove(a) {
                f.insert(b.clone(), v);
            }
        }
        Op::Remove(p) => {
            f.remove(p);
        }
    }
}

/// Read all files below a directory.
pub fn read(root: &Path) -> Files {
    let mut f = Files::new();
    let mut dirs = vec![root.to_path_buf()];
    while let Some(d) = dirs.pop() {
        for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
            if e.path().is_dir() {
                dirs.push(e.path());
            } else {
                f.insert(e.path(), std::fs::read(e.path()).expect("engine: read"));
            }
        }
    }
    f
}

/// Write files that were below `from` below `to` instead.
pub fn restore(files: &Files, from: &Path, to: &Path) {
    for (p, v) in files {
        let p = to.join(p.strip_prefix(from).expect("engine: prefix"));
        std::fs::create_dir_all(p.parent().expect("engine: parent")).expect("engine: directory");
        std::fs::write(p, v).expect("engine: restore");
    }
}
