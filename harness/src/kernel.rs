//! A stand-in for the operating system's sockets, clock and `poll`, so that the real event loop runs under a
//! controlled scheduler. The C library's functions are defined here; sockets created by the thread under test are
//! simulated, everything else is passed on to the operating system.
use std::cell::RefCell;
use std::collections::VecDeque;
use std::ffi::{c_int, c_long, c_short, c_void};
use std::net::{Ipv4Addr, SocketAddr};

extern "C" {
    fn syscall(n: c_long, ...) -> c_long;
    fn __errno_location() -> *mut c_int;
}

pub const ECONNREFUSED: i32 = 111;
pub const ETIMEDOUT: i32 = 110;
pub const ECONNRESET: i32 = 104;
pub const ENETUNREACH: i32 = 101;
const EINTR: i32 = 4;
const EAGAIN: i32 = 11;
const EPIPE: i32 = 32;
const EBADF: i32 = 9;
const EINVAL: i32 = 22;
const ENOTCONN: i32 = 107;
const EINPROGRESS: i32 = 115;

const POLLIN: c_short = 1;
const POLLOUT: c_short = 4;
const POLLERR: c_short = 8;
const POLLHUP: c_short = 16;
const POLLNVAL: c_short = 32;
const POLLRDNORM: c_short = 0x40;
const POLLWRNORM: c_short = 0x100;

/// First descriptor of the simulation.
const BASE: c_int = 1 << 20;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St {
    New,
    Connecting,
    Up,
    /// The connection could not be established.
    Failed(i32),
}

pub struct Conn {
    pub fd: c_int,
    pub addr: SocketAddr,
    pub inbound: bool,
    pub st: St,
    /// The node still has the socket open.
    pub open: bool,
    pub shut: bool,
    /// Bytes the node has not read.
    pub rx: VecDeque<u8>,
    /// All bytes the remote sent.
    pub sent: Vec<u8>,
    pub fin: bool,
    pub reset: bool,
    /// Pending error.
    pub err: i32,
    /// Number of bytes the node can write before it has to wait.
    pub room: usize,
    /// Bytes the node wrote.
    pub tx: Vec<u8>,
    /// The next `poll` reports the socket readable although it is not.
    pub spurious: bool,
    /// A write failed.
    pub broken: bool,
}

impl Conn {
    pub fn local(&self) -> SocketAddr {
        SocketAddr::from(([127, 0, 0, 1], 40000 + (self.fd - BASE) as u16))
    }
    fn revents(&self) -> c_short {
        let mut e = 0;
        match self.st {
            St::New => return POLLOUT | POLLHUP,
            St::Connecting => return 0,
            St::Failed(_) => {
                e |= POLLIN | POLLRDNORM | POLLOUT | POLLWRNORM | POLLHUP;
            }
            St::Up => {
                if !self.rx.is_empty() || self.fin || self.reset || self.shut || self.spurious {
                    e |= POLLIN | POLLRDNORM;
                }
                if self.room > 0 || self.reset || self.shut {
                    e |= POLLOUT | POLLWRNORM;
                }
                if self.reset || self.shut {
                    e |= POLLHUP;
                }
            }
        }
        if self.err != 0 {
            e |= POLLERR;
        }
        e
    }
}

/// What a call to `poll` does once the environment has had its turn.
pub enum Poll {
    /// Report what is ready, or wait for the timeout if nothing is.
    Ready,
    /// Be interrupted by a signal.
    Interrupted,
    /// Give up.
    Abort,
}

/// The environment of the event loop.
pub trait Env {
    /// The event loop is about to wait. `timeout` is in milliseconds.
    fn poll(&mut self, k: &mut Kernel, timeout: i64) -> Poll;
    /// Called if nothing is ready: time passes until the timeout. Returns whether it may.
    fn timeout(&mut self, k: &mut Kernel, timeout: i64) -> bool;
    /// Outcome of dialling an address.
    fn dial(&mut self, k: &mut Kernel, addr: SocketAddr) -> Result<St, i32>;
    /// The event loop is about to read from the waker.
    fn waker_read(&mut self, k: &mut Kernel);
}

pub struct Kernel {
    /// Milliseconds.
    pub now: u64,
    pub conns: Vec<Conn>,
    pub listener: Option<c_int>,
    pub backlog: VecDeque<usize>,
    /// Descriptors in use, with the connection they belong to.
    fds: Vec<Option<Option<usize>>>,
    /// Milliseconds that pass after `poll` returned.
    pub lag: u64,
    /// Whether something was ready at the last call to `poll`.
    pub ready: bool,
    /// Whether the waker was among it.
    pub woken: bool,
}

impl Default for Kernel {
    fn default() -> Self {
        Self { now: 1_700_000_000_000, conns: vec![], listener: None, backlog: VecDeque::new(), fds: vec![], lag: 0, ready: false, woken: false }
    }
}

impl Kernel {
    fn alloc(&mut self) -> c_int {
        let i = self.fds.iter().position(|f| f.is_none()).unwrap_or(self.fds.len());
        if i == self.fds.len() {
            self.fds.push(None);
        }
        self.fds[i] = Some(None);
        BASE + i as c_int
    }
    fn conn(&mut self, fd: c_int) -> Option<&mut Conn> {
        let c = self.fds.get((fd - BASE) as usize).copied().flatten().flatten()?;
        self.conns.get_mut(c)
    }
    fn known(&self, fd: c_int) -> bool {
        fd >= BASE && matches!(self.fds.get((fd - BASE) as usize), Some(Some(_)))
    }
    fn add(&mut self, fd: c_int, addr: SocketAddr, inbound: bool, st: St, room: usize) -> usize {
        self.conns.push(Conn {
            fd,
            addr,
            inbound,
            st,
            open: true,
            shut: false,
            rx: VecDeque::new(),
            sent: vec![],
            fin: false,
            reset: false,
            err: 0,
            room,
            tx: vec![],
            spurious: false,
            broken: false,
        });
        let i = self.conns.len() - 1;
        if fd >= BASE {
            self.fds[(fd - BASE) as usize] = Some(Some(i));
        }
        i
    }
    /// A remote connects. It is given a descriptor when accepted.
    pub fn arrive(&mut self, addr: SocketAddr, room: usize) {
        let i = self.add(0, addr, true, St::Up, room);
        self.conns[i].open = false;
        self.backlog.push_back(i);
    }
    pub fn established(&mut self, i: usize, room: usize) {
        self.conns[i].st = St::Up;
        self.conns[i].room = room;
    }
    pub fn refused(&mut self, i: usize, err: i32) {
        self.conns[i].st = St::Failed(err);
        self.conns[i].err = err;
    }
    pub fn remote_sends(&mut self, i: usize, b: &[u8]) {
        let c = &mut self.conns[i];
        c.rx.extend(b);
        c.sent.extend_from_slice(b);
    }
    pub fn remote_resets(&mut self, i: usize) {
        let c = &mut self.conns[i];
        c.reset = true;
        c.err = ECONNRESET;
        c.rx.clear();
    }
}

thread_local! {
    static K: RefCell<Option<(Kernel, Box<dyn Env>)>> = RefCell::new(None);
}

/// Run `f` with this thread's sockets, clock and `poll` simulated.
pub fn run<T>(env: Box<dyn Env>, f: impl FnOnce() -> T) -> T {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            K.with(|k| *k.borrow_mut() = None);
        }
    }
    K.with(|k| *k.borrow_mut() = Some((Kernel::default(), env)));
    let _off = Off;
    f()
}

/// Access the simulation, from outside of it.
pub fn with<T>(f: impl FnOnce(&mut Kernel) -> T) -> T {
    K.with(|k| f(&mut k.borrow_mut().as_mut().expect("kernel").0))
}

fn active<T>(f: impl FnOnce(&mut Kernel, &mut Box<dyn Env>) -> T) -> Option<T> {
    K.try_with(|k| {
        let mut k = k.try_borrow_mut().ok()?;
        let (k, e) = k.as_mut()?;
        Some(f(k, e))
    })
    .ok()
    .flatten()
}

fn fail(e: i32) -> c_int {
    unsafe { *__errno_location() = e };
    -1
}

#[repr(C)]
pub struct PollFd {
    fd: c_int,
    events: c_short,
    revents: c_short,
}

/// # Safety
/// As `poll(2)`.
#[no_mangle]
pub unsafe extern "C" fn poll(fds: *mut PollFd, n: usize, timeout: c_int) -> c_int {
    let r = active(|k, env| {
        let fds = std::slice::from_raw_parts_mut(fds, n);
        for f in fds.iter_mut() {
            f.revents = 0;
        }
        match env.poll(k, timeout as i64) {
            Poll::Abort => return fail(EINVAL),
            Poll::Interrupted => return fail(EINTR),
            Poll::Ready => {}
        }
        let mut count = 0;
        k.woken = false;
        for f in fds.iter_mut() {
            let ev = if f.fd < BASE {
                let mut one = PollFd { fd: f.fd, events: f.events, revents: 0 };
                syscall(7, &mut one as *mut PollFd, 1 as c_long, 0 as c_long);
                if one.revents != 0 {
                    k.woken = true;
                }
                one.revents
            } else if Some(f.fd) == k.listener {
                if k.backlog.is_empty() {
                    0
                } else {
                    POLLIN | POLLRDNORM
                }
            } else if let Some(c) = k.conn(f.fd) {
                c.revents()
            } else {
                POLLNVAL
            };
            f.revents = ev & (f.events | POLLERR | POLLHUP | POLLNVAL);
            if f.revents != 0 {
                count += 1;
            }
        }
        for c in k.conns.iter_mut() {
            c.spurious = false;
        }
        k.ready = count > 0;
        if count == 0 && timeout != 0 {
            if !env.timeout(k, timeout as i64) {
                return fail(EINVAL);
            }
            k.now += timeout as u64;
        }
        k.now += std::mem::take(&mut k.lag);
        count
    });
    match r {
        Some(r) => r,
        None => syscall(7, fds, n, timeout as c_long) as c_int,
    }
}

unsafe fn read_addr(p: *const u8) -> SocketAddr {
    let b = std::slice::from_raw_parts(p, 8);
    SocketAddr::from((Ipv4Addr::new(b[4], b[5], b[6], b[7]), u16::from_be_bytes([b[2], b[3]])))
}
unsafe fn write_addr(a: SocketAddr, p: *mut u8, len: *mut u32) {
    if p.is_null() {
        return;
    }
    let mut b = [0u8; 16];
    b[0] = 2;
    b[2..4].copy_from_slice(&a.port().to_be_bytes());
    if let SocketAddr::V4(a) = a {
        b[4..8].copy_from_slice(&a.ip().octets());
    }
    let n = 16.min(*len as usize);
    std::ptr::copy_nonoverlapping(b.as_ptr(), p, n);
    *len = 16;
}

/// # Safety
/// As `socket(2)`.
#[no_mangle]
pub unsafe extern "C" fn socket(domain: c_int, ty: c_int, proto: c_int) -> c_int {
    if domain == 2 {
        if let Some(fd) = active(|k, _| k.alloc()) {
            return fd;
        }
    }
    syscall(41, domain as c_long, ty as c_long, proto as c_long) as c_int
}

/// # Safety
/// As `bind(2)`.
#[no_mangle]
pub unsafe extern "C" fn bind(fd: c_int, addr: *const u8, len: u32) -> c_int {
    if fd >= BASE {
        return 0;
    }
    syscall(49, fd as c_long, addr, len as c_long) as c_int
}

/// # Safety
/// As `listen(2)`.
#[no_mangle]
pub unsafe extern "C" fn listen(fd: c_int, n: c_int) -> c_int {
    if fd >= BASE {
        active(|k, _| k.listener = Some(fd));
        return 0;
    }
    syscall(50, fd as c_long, n as c_long) as c_int
}

/// # Safety
/// As `connect(2)`.
#[no_mangle]
pub unsafe extern "C" fn connect(fd: c_int, addr: *const u8, len: u32) -> c_int {
    if fd >= BASE {
        let a = read_addr(addr);
        return active(|k, env| {
            if !k.known(fd) {
                return fail(EBADF);
            }
            match env.dial(k, a) {
                Ok(st) => {
                    k.add(fd, a, false, st, if st == St::Up { 1000 } else { 0 });
                    if st == St::Up {
                        0
                    } else {
                        fail(EINPROGRESS)
                    }
                }
                Err(e) => fail(e),
            }
        })
        .unwrap_or_else(|| fail(EBADF));
    }
    syscall(42, fd as c_long, addr, len as c_long) as c_int
}

/// # Safety
/// As `accept4(2)`.
#[no_mangle]
pub unsafe extern "C" fn accept4(fd: c_int, addr: *mut u8, len: *mut u32, flags: c_int) -> c_int {
    if fd >= BASE {
        return active(|k, _| match k.backlog.pop_front() {
            None => fail(EAGAIN),
            Some(i) => {
                let fd = k.alloc();
                k.fds[(fd - BASE) as usize] = Some(Some(i));
                let c = &mut k.conns[i];
                c.fd = fd;
                c.open = true;
                write_addr(c.addr, addr, len);
                fd
            }
        })
        .unwrap_or_else(|| fail(EBADF));
    }
    syscall(288, fd as c_long, addr, len, flags as c_long) as c_int
}

/// # Safety
/// As `accept(2)`.
#[no_mangle]
pub unsafe extern "C" fn accept(fd: c_int, addr: *mut u8, len: *mut u32) -> c_int {
    accept4(fd, addr, len, 0)
}

/// # Safety
/// As `recv(2)`.
#[no_mangle]
pub unsafe extern "C" fn recv(fd: c_int, buf: *mut u8, n: usize, flags: c_int) -> isize {
    if fd >= BASE {
        const MSG_PEEK: c_int = 2;
        return active(|k, _| {
            let Some(c) = k.conn(fd) else { return fail(EBADF) as isize };
            if c.st == St::New || c.st == St::Connecting {
                return fail(if c.st == St::New { ENOTCONN } else { EAGAIN }) as isize;
            }
            if !c.rx.is_empty() {
                let m = n.min(c.rx.len());
                for i in 0..m {
                    *buf.add(i) = c.rx[i];
                }
                if flags & MSG_PEEK == 0 {
                    c.rx.drain(..m);
                }
                return m as isize;
            }
            if c.err != 0 {
                let e = std::mem::take(&mut c.err);
                return fail(e) as isize;
            }
            if c.fin || c.reset || c.shut || matches!(c.st, St::Failed(_)) {
                return 0;
            }
            fail(EAGAIN) as isize
        })
        .unwrap_or_else(|| fail(EBADF) as isize);
    }
    syscall(45, fd as c_long, buf, n, flags as c_long, 0 as c_long, 0 as c_long) as isize
}

/// # Safety
/// As `send(2)`.
#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, buf: *const u8, n: usize, flags: c_int) -> isize {
    if fd >= BASE {
        return active(|k, _| {
            let Some(c) = k.conn(fd) else { return fail(EBADF) as isize };
            if c.err != 0 {
                c.broken = true;
                let e = std::mem::take(&mut c.err);
                return fail(e) as isize;
            }
            if c.st == St::Connecting {
                return fail(EAGAIN) as isize;
            }
            if c.st != St::Up || c.reset || c.shut {
                c.broken = true;
                return fail(EPIPE) as isize;
            }
            let m = n.min(c.room);
            if m == 0 && n > 0 {
                return fail(EAGAIN) as isize;
            }
            c.room -= m;
            c.tx.extend_from_slice(std::slice::from_raw_parts(buf, m));
            m as isize
        })
        .unwrap_or_else(|| fail(EBADF) as isize);
    }
    syscall(44, fd as c_long, buf, n, flags as c_long, 0 as c_long, 0 as c_long) as isize
}

/// # Safety
/// As `read(2)`.
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut u8, n: usize) -> isize {
    if fd >= BASE {
        return recv(fd, buf, n, 0);
    }
    active(|k, env| env.waker_read(k));
    syscall(0, fd as c_long, buf, n) as isize
}

/// For `write(2)`, which is defined elsewhere.
/// # Safety
/// As `write(2)`.
pub unsafe fn write(fd: c_int, buf: *const c_void, n: usize) -> Option<isize> {
    if fd >= BASE {
        return Some(send(fd, buf as *const u8, n, 0));
    }
    None
}

/// # Safety
/// As `shutdown(2)`.
#[no_mangle]
pub unsafe extern "C" fn shutdown(fd: c_int, how: c_int) -> c_int {
    if fd >= BASE {
        return active(|k, _| match k.conn(fd) {
            None => fail(EBADF),
            Some(c) if c.st != St::Up || c.reset => fail(ENOTCONN),
            Some(c) => {
                c.shut = true;
                0
            }
        })
        .unwrap_or_else(|| fail(EBADF));
    }
    syscall(48, fd as c_long, how as c_long) as c_int
}

/// # Safety
/// As `close(2)`.
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if fd >= BASE {
        active(|k, _| {
            if let Some(c) = k.conn(fd) {
                c.open = false;
            }
            if k.listener == Some(fd) {
                k.listener = None;
            }
            if let Some(f) = k.fds.get_mut((fd - BASE) as usize) {
                *f = None;
            }
        });
        return 0;
    }
    syscall(3, fd as c_long) as c_int
}

/// # Safety
/// As `getsockname(2)`.
#[no_mangle]
pub unsafe extern "C" fn getsockname(fd: c_int, addr: *mut u8, len: *mut u32) -> c_int {
    if fd >= BASE {
        return active(|k, _| {
            if k.listener == Some(fd) {
                write_addr(SocketAddr::from(([0, 0, 0, 0], 8333)), addr, len);
                return 0;
            }
            match k.conn(fd) {
                None => fail(EBADF),
                Some(c) => {
                    write_addr(c.local(), addr, len);
                    0
                }
            }
        })
        .unwrap_or_else(|| fail(EBADF));
    }
    syscall(51, fd as c_long, addr, len) as c_int
}

/// # Safety
/// As `getpeername(2)`.
#[no_mangle]
pub unsafe extern "C" fn getpeername(fd: c_int, addr: *mut u8, len: *mut u32) -> c_int {
    if fd >= BASE {
        return active(|k, _| match k.conn(fd) {
            None => fail(EBADF),
            Some(c) if c.st != St::Up || c.reset || c.shut => fail(ENOTCONN),
            Some(c) => {
                write_addr(c.addr, addr, len);
                0
            }
        })
        .unwrap_or_else(|| fail(EBADF));
    }
    syscall(52, fd as c_long, addr, len) as c_int
}

/// # Safety
/// As `setsockopt(2)`.
#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: c_int, level: c_int, name: c_int, val: *const c_void, len: u32) -> c_int {
    if fd >= BASE {
        return 0;
    }
    syscall(54, fd as c_long, level as c_long, name as c_long, val, len as c_long) as c_int
}

/// # Safety
/// As `getsockopt(2)`.
#[no_mangle]
pub unsafe extern "C" fn getsockopt(fd: c_int, level: c_int, name: c_int, val: *mut c_int, len: *mut u32) -> c_int {
    if fd >= BASE {
        return active(|k, _| match k.conn(fd) {
            None => fail(EBADF),
            Some(c) => {
                *val = if name == 4 { std::mem::take(&mut c.err) } else { 0 };
                *len = 4;
                0
            }
        })
        .unwrap_or_else(|| fail(EBADF));
    }
    syscall(55, fd as c_long, level as c_long, name as c_long, val, len) as c_int
}

/// # Safety
/// As `fcntl(2)`.
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    if fd >= BASE {
        return 0;
    }
    syscall(72, fd as c_long, cmd as c_long, arg) as c_int
}

/// # Safety
/// As `ioctl(2)`.
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: c_long, arg: c_long) -> c_int {
    if fd >= BASE {
        return 0;
    }
    syscall(16, fd as c_long, req, arg) as c_int
}

/// # Safety
/// As `clock_gettime(2)`.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: c_int, ts: *mut [i64; 2]) -> c_int {
    match active(|k, _| k.now) {
        Some(t) => {
            (*ts)[0] = (t / 1000) as i64;
            (*ts)[1] = (t % 1000) as i64 * 1_000_000;
            0
        }
        None => syscall(228, id as c_long, ts) as c_int,
    }
}
