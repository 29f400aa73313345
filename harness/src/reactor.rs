//! N02: the event loop, run on simulated sockets.
use crate::engine::{space, Ch, Res, Space};
use crate::kernel::{self, Env, Kernel, Poll, St};
use crate::{Check, Tier};
use crossbeam_channel as chan;
use nakamoto_net::{Disconnect, Io, Link, LocalDuration, LocalTime, Publisher, Reactor as _, Service, StateMachine, Waker as _};
use nakamoto_net_poll::{Reactor, Waker};
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::net::{SocketAddr, TcpStream};
use std::rc::Rc;
use std::sync::{Arc, Mutex};

/// Why the service asks for a disconnect.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Why(&'static str);
impl std::fmt::Display for Why {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(self.0)
    }
}
impl From<Why> for Disconnect<Why> {
    fn from(w: Why) -> Self {
        Disconnect::StateMachine(w)
    }
}

#[derive(Clone, Default)]
struct Cfg {
    dials: usize,
    timer: bool,
    inbound: usize,
    commands: usize,
    acts: usize,
    reactions: usize,
    /// What the environment may do.
    traffic: bool,
    close: bool,
    rooms: bool,
    signals: bool,
    lag: bool,
    fails: bool,
    returns: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum V {
    Dialled,
    Attempted,
    Up,
    Gone,
}

struct View {
    addr: SocketAddr,
    conn: Option<usize>,
    st: V,
    link: Link,
    /// The dial failed at once.
    errno: Option<i32>,
    asked: bool,
    delivered: usize,
    queued: Vec<u8>,
}

struct Model {
    ch: *mut Ch,
    cfg: Cfg,
    err: Option<String>,
    views: Vec<View>,
    timers: Vec<u64>,
    overdue: usize,
    tick: Option<u64>,
    emitted: u64,
    published: Arc<Mutex<Vec<u64>>>,
    cmds_sent: usize,
    cmds_got: usize,
    commands: chan::Sender<(usize, Vec<Cmd>)>,
    shutdown: chan::Sender<()>,
    waker: Option<Waker>,
    stopping: bool,
    stopped_polls: usize,
    polls: usize,
    settling: usize,
    arrivals: usize,
    byte: u8,
    fresh: u8,
    timer_fired: usize,
}

#[derive(Clone, Debug)]
enum Cmd {
    Write(SocketAddr),
    Disconnect(SocketAddr),
    Connect(SocketAddr),
    Timer(u64),
}

type Shared = Rc<RefCell<Model>>;

fn addr(i: u8) -> SocketAddr {
    SocketAddr::from(([10, 0, 0, i], 8333))
}

impl Model {
    #[allow(clippy::mut_from_ref)]
    fn ch(&self) -> &mut Ch {
        // The choice context outlives the execution, which is single-threaded.
        unsafe { &mut *self.ch }
    }
    fn fail(&mut self, m: impl Into<String>) {
        if self.err.is_none() {
            self.err = Some(m.into());
        }
    }
    fn note(&self, f: impl FnOnce() -> String) {
        self.ch().note(f);
    }
    fn live(&self, a: &SocketAddr) -> Option<usize> {
        self.views.iter().rposition(|v| v.addr == *a && v.st != V::Gone)
    }
    fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n)
            .map(|_| {
                self.byte = self.byte.wrapping_add(1);
                self.byte
            })
            .collect()
    }
    /// The service is called.
    fn called(&mut self, now: u64) {
        self.ch().step();
        if self.tick != Some(now) {
            let t = self.tick;
            self.fail(format!("the service is called at {now} and was last told the time {t:?}"));
        }
    }
    fn send_command(&mut self, cmds: Vec<Cmd>) {
        let n = self.cmds_sent;
        self.cmds_sent += 1;
        self.commands.send((n, cmds)).ok();
        if let Some(w) = &self.waker {
            w.wake().ok();
        }
    }
}

struct Svc {
    m: Shared,
    out: VecDeque<Out>,
}
type Out = Io<Vec<u8>, u64, Why>;

impl Svc {
    fn event(&mut self) {
        let mut m = self.m.borrow_mut();
        m.emitted += 1;
        self.out.push_back(Io::Event(m.emitted));
    }
    fn react(&mut self, menu: &[Vec<Cmd>]) {
        let n = {
            let mut m = self.m.borrow_mut();
            if m.cfg.reactions == 0 || m.settling > 0 || m.err.is_some() {
                return;
            }
            let n = m.ch().pick(menu.len() + 1);
            if n == 0 {
                return;
            }
            m.cfg.reactions -= 1;
            m.note(|| format!("  the service answers: {:?}", menu[n - 1]));
            n
        };
        self.apply(&menu[n - 1]);
    }
    fn apply(&mut self, cmds: &[Cmd]) {
        for c in cmds {
            let o = match c {
                Cmd::Write(a) => Io::Write(*a, self.m.borrow_mut().bytes(3)),
                Cmd::Disconnect(a) => Io::Disconnect(*a, Why("asked")),
                Cmd::Connect(a) => Io::Connect(*a),
                Cmd::Timer(d) => Io::SetTimer(LocalDuration::from_millis(*d as u128)),
            };
            self.out.push_back(o);
        }
    }
}

fn now() -> u64 {
    kernel::with(|k| k.now)
}

impl Iterator for Svc {
    type Item = Out;
    fn next(&mut self) -> Option<Out> {
        loop {
            let o = self.out.pop_front()?;
            let mut m = self.m.borrow_mut();
            match &o {
                Io::Write(a, b) => {
                    if let Some(v) = m.live(a) {
                        m.views[v].queued.extend(b);
                    }
                }
                Io::Disconnect(a, _) => match m.live(a) {
                    Some(v) if m.views[v].st != V::Dialled => m.views[v].asked = true,
                    _ => continue,
                },
                Io::Connect(a) => {
                    // A service does not dial what it is connected to.
                    if m.live(a).is_some() {
                        continue;
                    }
                    m.views.push(View { addr: *a, conn: None, st: V::Dialled, link: Link::Outbound, errno: None, asked: false, delivered: 0, queued: vec![] });
                }
                Io::SetTimer(d) => {
                    let due = now() + d.as_millis() as u64;
                    if !m.timers.iter().any(|t| t.abs_diff(due) < 1000) {
                        m.timers.push(due);
                    }
                }
                Io::Event(_) => {}
            }
            return Some(o);
        }
    }
}

impl Service for Svc {
    type Command = (usize, Vec<Cmd>);
    fn command_received(&mut self, (n, cmds): Self::Command) {
        {
            let mut m = self.m.borrow_mut();
            m.called(now());
            m.note(|| format!("  command {n} received"));
            if n != m.cmds_got {
                let want = m.cmds_got;
                m.fail(format!("command {n} is delivered when it is the turn of command {want}"));
            }
            m.cmds_got = n + 1;
        }
        self.event();
        self.apply(&cmds);
    }
}

impl StateMachine for Svc {
    type Message = [u8];
    type Event = u64;
    type DisconnectReason = Why;

    fn initialize(&mut self, t: LocalTime) {
        let mut m = self.m.borrow_mut();
        m.tick = Some(t.duration_since(LocalTime::from_secs(0)).as_millis() as u64);
        m.called(now());
    }
    fn tick(&mut self, t: LocalTime) {
        self.m.borrow_mut().tick = Some(t.duration_since(LocalTime::from_secs(0)).as_millis() as u64);
    }
    fn timer_expired(&mut self) {
        let first = {
            let mut m = self.m.borrow_mut();
            let now = now();
            m.called(now);
            m.note(|| "  timer".into());
            if !m.timers.iter().any(|t| *t <= now) {
                m.fail("the service is woken before any timer it set is due");
            }
            m.timers.retain(|t| *t > now);
            m.timer_fired += 1;
            m.views.iter().find(|v| v.st == V::Up).map(|v| v.addr)
        };
        self.event();
        let mut menu = vec![vec![Cmd::Timer(3000)]];
        if let Some(a) = first {
            menu.push(vec![Cmd::Write(a)]);
        }
        self.react(&menu);
    }
    fn attempted(&mut self, a: &SocketAddr) {
        {
            let mut m = self.m.borrow_mut();
            m.called(now());
            m.note(|| format!("  dialling {a}"));
            match m.live(a) {
                Some(v) if m.views[v].st == V::Dialled && m.views[v].conn.is_some() => m.views[v].st = V::Attempted,
                _ => m.fail(format!("{a} is reported as being dialled, it is not")),
            }
        }
        self.event();
        self.react(&[vec![Cmd::Disconnect(*a)]]);
    }
    fn connected(&mut self, a: SocketAddr, local: &SocketAddr, link: Link) {
        {
            let mut m = self.m.borrow_mut();
            m.called(now());
            m.note(|| format!("  connected to {a} ({link:?})"));
            m.ch().nontrivial();
            if link == Link::Inbound {
                if m.live(&a).is_some() {
                    m.fail(format!("{a} is reported as connected twice"));
                    return;
                }
                let conn = kernel::with(|k| k.conns.iter().rposition(|c| c.inbound && c.open && c.addr == a));
                if conn.is_none() {
                    m.fail(format!("{a} is reported as connected, it is not"));
                    return;
                }
                m.views.push(View { addr: a, conn, st: V::Up, link, errno: None, asked: false, delivered: 0, queued: vec![] });
            } else {
                match m.live(&a) {
                    Some(v) if m.views[v].st == V::Attempted => {
                        m.views[v].st = V::Up;
                        let c = m.views[v].conn.unwrap();
                        let st = kernel::with(|k| k.conns[c].st);
                        if st != St::Up {
                            m.fail(format!("{a} is reported as connected, though the connection was not established ({st:?})"));
                            return;
                        }
                    }
                    _ => {
                        m.fail(format!("{a} is reported as connected unexpectedly"));
                        return;
                    }
                }
            }
            let v = m.live(&a).unwrap();
            let c = m.views[v].conn.unwrap();
            let want = kernel::with(|k| k.conns[c].local());
            if *local != want {
                m.fail(format!("{a} is reported as connected to our address {local} instead of {want}"));
            }
        }
        self.event();
        self.react(&[
            vec![Cmd::Write(a)],
            vec![Cmd::Disconnect(a)],
            vec![Cmd::Write(a), Cmd::Disconnect(a), Cmd::Timer(2000)],
            vec![Cmd::Write(a), Cmd::Write(a)],
        ]);
    }
    fn message_received(&mut self, a: &SocketAddr, b: Cow<[u8]>) {
        {
            let mut m = self.m.borrow_mut();
            m.called(now());
            m.note(|| format!("  {a} says {b:?}"));
            match m.live(a) {
                Some(v) if m.views[v].st == V::Up && !m.views[v].asked => {
                    let c = m.views[v].conn.unwrap();
                    let from = m.views[v].delivered;
                    let sent = kernel::with(|k| k.conns[c].sent.clone());
                    if b.is_empty() || from + b.len() > sent.len() || sent[from..from + b.len()] != b[..] {
                        m.fail(format!("{a} sent {sent:?}, after {from} bytes {b:?} were handed on"));
                    }
                    m.views[v].delivered += b.len();
                }
                _ => m.fail(format!("bytes received from {a}, which is not connected")),
            }
        }
        self.event();
        let a = *a;
        self.react(&[vec![Cmd::Write(a)], vec![Cmd::Disconnect(a)], vec![Cmd::Write(a), Cmd::Write(a)]]);
    }
    fn disconnected(&mut self, a: &SocketAddr, reason: Disconnect<Why>) {
        let outbound = {
            let mut m = self.m.borrow_mut();
            m.called(now());
            m.note(|| format!("  disconnected from {a}: {reason:?}"));
            m.ch().nontrivial();
            let Some(v) = m.live(a) else {
                m.fail(format!("{a} is reported as disconnected, it was not connected"));
                return;
            };
            let w = &m.views[v];
            let asked = matches!(reason, Disconnect::StateMachine(Why("asked")));
            let problem = if w.asked != asked {
                Some(format!("{a} is reported as disconnected with {reason:?}, asked for: {}", w.asked))
            } else if asked {
                None
            } else if w.st == V::Dialled {
                (w.errno.is_none() || !reason.is_dial_err()).then(|| format!("dialling {a} is reported as failed with {reason:?} ({:?})", w.errno))
            } else {
                kernel::with(|k| {
                    let c = &k.conns[w.conn.unwrap()];
                    let failed = matches!(c.st, St::Failed(_));
                    if !reason.is_connection_err() {
                        Some(format!("{a} is reported as disconnected with {reason:?}"))
                    } else if !failed && !c.fin && !c.reset && !c.broken {
                        Some(format!("{a} is reported as disconnected with {reason:?}, though nothing happened to the connection"))
                    } else if !failed && !c.reset && !c.broken && w.delivered != c.sent.len() {
                        Some(format!("{a} sent {:?} before closing, the last {} bytes were not handed on", c.sent, c.sent.len() - w.delivered))
                    } else {
                        None
                    }
                })
            };
            let outbound = w.link == Link::Outbound;
            m.views[v].st = V::Gone;
            if let Some(p) = problem {
                m.fail(p);
            }
            outbound
        };
        self.event();
        let fresh = {
            let mut m = self.m.borrow_mut();
            m.fresh += 1;
            addr(100 + m.fresh)
        };
        if outbound {
            self.react(&[vec![Cmd::Connect(*a)], vec![Cmd::Connect(fresh)]]);
        } else {
            self.react(&[vec![Cmd::Connect(fresh)]]);
        }
    }
}

#[derive(Clone)]
struct Pub(Arc<Mutex<Vec<u64>>>);
impl Publisher<u64> for Pub {
    fn publish(&mut self, e: u64) {
        self.0.lock().unwrap().push(e);
    }
}

struct World {
    m: Shared,
}

#[derive(Clone, Debug)]
enum Act {
    Establish(usize, usize),
    Refuse(usize, i32),
    Arrive(usize),
    /// A peer that reset its connection connects again, from the same address.
    Return(usize),
    Send(usize),
    Fin(usize),
    Reset(usize),
    Spurious(usize),
    Room(usize, usize),
    Command(Cmd),
    Lag,
    Signal,
}

const BIG: usize = 1000;

impl World {
    /// The event loop is about to wait: everything it was given must have been dealt with.
    fn check(m: &mut Model, k: &Kernel, timeout: i64) {
        for i in 0..m.views.len() {
            let v = &m.views[i];
            let a = v.addr;
            let open = v.conn.map_or(false, |c| k.conns[c].open);
            if v.st == V::Dialled {
                return m.fail(format!("{a} was to be dialled, and nothing was reported"));
            }
            if v.asked && v.st != V::Gone {
                return m.fail(format!("{a} was to be disconnected, and was not"));
            }
            if v.st == V::Gone && open {
                return m.fail(format!("{a} was reported as disconnected, and its socket is open"));
            }
            if v.st != V::Gone && !open {
                return m.fail(format!("the socket of {a} was closed, and it was not reported as disconnected"));
            }
            if let Some(c) = v.conn {
                let tx = &k.conns[c].tx;
                if tx.len() > v.queued.len() || v.queued[..tx.len()] != tx[..] {
                    let q = v.queued.clone();
                    return m.fail(format!("{tx:?} was sent to {a}, to be written was {q:?}"));
                }
            }
        }
        for (i, c) in k.conns.iter().enumerate() {
            if c.open && !m.views.iter().any(|v| v.conn == Some(i) && v.st != V::Gone) {
                return m.fail(format!("the connection with {} is open, and was not reported", c.addr));
            }
        }
        if let Some(due) = m.timers.iter().min() {
            let wait = due.saturating_sub(k.now) as i64;
            if timeout < 0 || timeout > wait {
                return m.fail(format!("the event loop waits {timeout} ms with a timer due in {wait} ms"));
            }
        }
        if m.timers.iter().any(|t| *t <= k.now) {
            m.overdue += 1;
            if m.overdue >= 3 {
                return m.fail("a timer that is due does not fire while connections are busy");
            }
        } else {
            m.overdue = 0;
        }
        let p = m.published.lock().unwrap().clone();
        if p.len() as u64 != m.emitted || p.iter().zip(1..).any(|(a, b)| *a != b) {
            return m.fail(format!("{} events were emitted, published were {p:?}", m.emitted));
        }
        if m.stopping && k.woken {
            m.stopped_polls += 1;
            if m.stopped_polls > 1 {
                m.fail("the event loop goes on after it was told to stop");
            }
        }
    }

    /// Nothing is left to happen.
    fn settled(m: &mut Model, k: &Kernel) {
        for i in 0..m.views.len() {
            let v = &m.views[i];
            let Some(c) = v.conn else { continue };
            let (a, c) = (v.addr, &k.conns[c]);
            if v.st == V::Gone {
                continue;
            }
            if v.st == V::Attempted {
                return m.fail(format!("the outcome of dialling {a} was never reported"));
            }
            if c.fin || c.reset {
                return m.fail(format!("{a} closed the connection, and it was never reported"));
            }
            if v.delivered != c.sent.len() {
                return m.fail(format!("{a} sent {:?}, the last {} bytes were not handed on", c.sent, c.sent.len() - v.delivered));
            }
            if c.tx.len() != v.queued.len() {
                return m.fail(format!("to be written to {a} was {:?}, {} bytes were", v.queued, c.tx.len()));
            }
        }
        if !k.backlog.is_empty() {
            return m.fail("a connection was not accepted");
        }
        if m.cmds_got != m.cmds_sent {
            let (a, b) = (m.cmds_got, m.cmds_sent);
            m.fail(format!("{a} of {b} commands were delivered"));
        }
    }

    fn acts(m: &Model, k: &Kernel) -> Vec<Act> {
        let cfg = &m.cfg;
        let mut v = vec![];
        for (i, c) in k.conns.iter().enumerate() {
            if c.open && c.st == St::Connecting {
                v.push(Act::Establish(i, BIG));
                if cfg.rooms {
                    v.push(Act::Establish(i, 1));
                }
                if cfg.fails {
                    v.push(Act::Refuse(i, kernel::ECONNREFUSED));
                }
            }
            let up = c.st == St::Up && (c.open || k.backlog.contains(&i)) && !c.shut;
            if up && !c.fin && !c.reset {
                if cfg.traffic {
                    v.push(Act::Send(i));
                }
                if cfg.close {
                    v.push(Act::Fin(i));
                    v.push(Act::Reset(i));
                }
                if cfg.signals {
                    v.push(Act::Spurious(i));
                }
            }
            if up && cfg.rooms && c.room < 4 {
                v.push(Act::Room(i, 1));
                v.push(Act::Room(i, BIG));
            }
        }
        if m.arrivals < cfg.inbound {
            v.push(Act::Arrive(BIG));
            if cfg.rooms {
                v.push(Act::Arrive(1));
            }
        }
        if cfg.returns && k.backlog.is_empty() {
            for (i, c) in k.conns.iter().enumerate() {
                let last = !k.conns[i + 1..].iter().any(|d| d.addr == c.addr);
                if last && (c.inbound && c.reset || !c.open) {
                    v.push(Act::Return(i));
                }
            }
        }
        if m.cmds_sent < cfg.commands {
            let live = m.views.iter().find(|v| v.st != V::Gone).map(|v| v.addr);
            if let Some(a) = live {
                v.push(Act::Command(Cmd::Write(a)));
                v.push(Act::Command(Cmd::Disconnect(a)));
            }
            v.push(Act::Command(Cmd::Connect(addr(50))));
            if cfg.timer {
                v.push(Act::Command(Cmd::Timer(1500)));
            }
        }
        if cfg.lag {
            v.push(Act::Lag);
        }
        if cfg.signals {
            v.push(Act::Signal);
        }
        v
    }
}

impl Env for World {
    fn poll(&mut self, k: &mut Kernel, timeout: i64) -> Poll {
        let m = &mut *self.m.borrow_mut();
        m.polls += 1;
        Self::check(m, k, timeout);
        if m.polls > 200 {
            m.fail("the event loop spins");
        }
        if m.err.is_some() {
            return Poll::Abort;
        }
        if m.settling == 0 && m.cfg.acts > 0 {
            let mut from = 0;
            let mut any = false;
            while m.cfg.acts > 0 {
                let acts = Self::acts(m, k);
                // In a fixed order within one wait: they happen at the same time.
                let acts: Vec<_> = acts.into_iter().filter(|a| kind(a) >= from).collect();
                let n = m.ch().pick(acts.len() + 1);
                if n == 0 {
                    break;
                }
                let a = acts[n - 1].clone();
                from = kind(&a) + matches!(a, Act::Lag) as usize;
                m.cfg.acts -= 1;
                any = true;
                m.note(|| format!("{a:?}"));
                match a {
                    Act::Establish(i, room) => k.established(i, room),
                    Act::Refuse(i, e) => k.refused(i, e),
                    Act::Arrive(room) => {
                        m.arrivals += 1;
                        k.arrive(addr(200 + m.arrivals as u8), room);
                    }
                    Act::Return(i) => {
                        let a = k.conns[i].addr;
                        k.arrive(a, BIG);
                    }
                    Act::Send(i) => {
                        let b = m.bytes(2);
                        k.remote_sends(i, &b);
                    }
                    Act::Fin(i) => k.conns[i].fin = true,
                    Act::Reset(i) => k.remote_resets(i),
                    Act::Spurious(i) => k.conns[i].spurious = true,
                    Act::Room(i, n) => k.conns[i].room += n,
                    Act::Command(c) => m.send_command(vec![c]),
                    Act::Lag => k.lag += 2500,
                    Act::Signal => return Poll::Interrupted,
                }
            }
            if !any {
                m.cfg.acts = m.cfg.acts.saturating_sub(1);
                m.note(|| "wait".into());
            }
            return Poll::Ready;
        }
        // Let everything come to an end.
        m.settling += 1;
        let mut more = false;
        for i in 0..k.conns.len() {
            if k.conns[i].open && k.conns[i].st == St::Connecting {
                k.established(i, BIG);
                more = true;
            }
            if k.conns[i].open && k.conns[i].st == St::Up && k.conns[i].room < 4 {
                k.conns[i].room += BIG;
                more = true;
            }
        }
        if m.settling > 1 && !more && !k.ready && m.timers.is_empty() && !m.stopping {
            Self::settled(m, k);
            if m.err.is_some() {
                return Poll::Abort;
            }
            m.note(|| "shutdown".into());
            m.stopping = true;
            m.shutdown.send(()).ok();
            if let Some(w) = &m.waker {
                w.wake().ok();
            }
        }
        if m.settling > 60 {
            m.fail("the event loop spins");
            return Poll::Abort;
        }
        Poll::Ready
    }
    fn timeout(&mut self, _k: &mut Kernel, timeout: i64) -> bool {
        let m = &mut *self.m.borrow_mut();
        if m.stopping {
            m.fail("the event loop waits after it was told to stop");
            return false;
        }
        m.note(|| format!("  {timeout} ms pass"));
        timeout >= 0
    }
    fn dial(&mut self, k: &mut Kernel, a: SocketAddr) -> Result<St, i32> {
        let m = &mut *self.m.borrow_mut();
        let Some(v) = m.live(&a).filter(|v| m.views[*v].st == V::Dialled && m.views[*v].conn.is_none()) else {
            m.fail(format!("{a} is dialled, nobody asked for it"));
            return Err(kernel::ENETUNREACH);
        };
        let r = if !m.cfg.fails || m.settling > 0 {
            Ok(St::Connecting)
        } else {
            match m.ch().pick(3) {
                0 => Ok(St::Connecting),
                1 => Ok(St::Up),
                _ => Err(kernel::ENETUNREACH),
            }
        };
        m.note(|| format!("  connect({a}): {r:?}"));
        match r {
            Ok(_) => m.views[v].conn = Some(k.conns.len()),
            Err(e) => m.views[v].errno = Some(e),
        }
        r
    }
    fn waker_read(&mut self, _k: &mut Kernel) {
        let m = &mut *self.m.borrow_mut();
        // Another thread may send a command at this point.
        if m.err.is_none() && m.settling == 0 && m.cfg.acts > 0 && m.cmds_sent < m.cfg.commands && m.ch().flip() {
            m.cfg.acts -= 1;
            m.note(|| "  meanwhile, another command is sent".into());
            let c = Cmd::Connect(addr(60 + m.cmds_sent as u8));
            m.send_command(vec![c]);
        }
    }
}

fn kind(a: &Act) -> usize {
    match a {
        Act::Establish(i, _) | Act::Refuse(i, _) => *i * 10,
        Act::Room(i, _) => *i * 10 + 1,
        Act::Send(i) => *i * 10 + 2,
        Act::Fin(i) | Act::Reset(i) => *i * 10 + 3,
        Act::Spurious(i) => *i * 10 + 4,
        Act::Arrive(_) | Act::Return(_) => 1000,
        Act::Command(_) => 1001,
        Act::Lag => 1002,
        Act::Signal => 1003,
    }
}

fn run(cfg: Cfg, ch: &mut Ch) -> Res {
    let (commands, rx) = chan::unbounded();
    let (shutdown, shutdown_rx) = chan::bounded(1);
    let (listening_tx, listening) = chan::bounded(1);
    let published = Arc::new(Mutex::new(vec![]));
    let m: Shared = Rc::new(RefCell::new(Model {
        ch,
        cfg: cfg.clone(),
        err: None,
        views: vec![],
        timers: vec![],
        overdue: 0,
        tick: None,
        emitted: 0,
        published: published.clone(),
        cmds_sent: 0,
        cmds_got: 0,
        commands,
        shutdown,
        waker: None,
        stopping: false,
        stopped_polls: 0,
        polls: 0,
        settling: 0,
        arrivals: 0,
        byte: 0,
        fresh: 0,
        timer_fired: 0,
    }));
    let mut svc = Svc { m: m.clone(), out: VecDeque::new() };
    for i in 0..cfg.dials {
        svc.apply(&[Cmd::Connect(addr(1 + i as u8))]);
    }
    if cfg.timer {
        svc.apply(&[Cmd::Timer(2000)]);
    }
    let listen: Vec<SocketAddr> = if cfg.inbound > 0 { vec![([0, 0, 0, 0], 8333).into()] } else { vec![] };
    let result = kernel::run(Box::new(World { m: m.clone() }), || {
        let mut r = Reactor::<TcpStream>::new(shutdown_rx, listening_tx).expect("reactor");
        m.borrow_mut().waker = Some(r.waker());
        let result = r.run(&listen, svc, Pub(published), rx);
        drop(r);
        result.map_err(|e| e.to_string())
    });
    let mut m = m.borrow_mut();
    if let Some(e) = m.err.take() {
        return Err(e);
    }
    if let Err(e) = result {
        return Err(format!("the event loop ended with an error: {e}"));
    }
    if !m.stopping {
        return Err("the event loop ended, nobody asked it to".into());
    }
    if cfg.inbound > 0 && listening.try_recv().ok() != Some(([0, 0, 0, 0], 8333).into()) {
        return Err("the address listened on was not reported".into());
    }
    let digest: Vec<_> = m.views.iter().map(|v| (v.addr, v.st as u8, v.delivered, v.queued.len(), v.asked)).collect();
    m.ch().state(&(digest, m.timer_fired, m.cmds_got, m.emitted));
    Ok(())
}

fn sp(name: &str, desc: &str, cfg: Cfg) -> Space {
    let d = format!("{desc}; up to {} happenings and {} reactions of the service", cfg.acts, cfg.reactions);
    space(name, d, move |ch| run(cfg.clone(), ch))
}

pub fn check(tier: Tier) -> Check {
    let x = tier.of(0, 1);
    let y = tier.of(1, 2);
    let spaces = vec![
        sp("dial", "one dialled peer: immediate and late success and failure, traffic, closing", Cfg { dials: 1, acts: 5 + y, reactions: 2, traffic: true, close: true, fails: true, ..Cfg::default() }),
        sp("dial-two", "two dialled peers", Cfg { dials: 2, acts: 4 + y, reactions: 1, traffic: true, close: true, fails: true, ..Cfg::default() }),
        sp("inbound", "two inbound peers: traffic, closing", Cfg { inbound: 2, acts: 6 + y, reactions: 1, traffic: true, close: true, ..Cfg::default() }),
        sp("returns", "peers whose connection or dial ended connect to the node from the same address", Cfg { dials: 1, inbound: 1, fails: true, acts: 5 + y, reactions: 1, traffic: true, close: true, returns: true, ..Cfg::default() }),
        sp("mixed", "an inbound and a dialled peer", Cfg { dials: 1, inbound: 1, acts: 5 + y, reactions: 1, traffic: true, close: true, ..Cfg::default() }),
        sp("writes", "partial writes to a dialled and an inbound peer", Cfg { dials: 1, inbound: 1, acts: 5 + x, reactions: 2, rooms: true, traffic: true, ..Cfg::default() }),
        sp("writes-close", "partial writes to a peer that closes the connection", Cfg { inbound: 1, acts: 6 + y, reactions: 2, rooms: true, traffic: true, close: true, ..Cfg::default() }),
        sp("commands", "commands at any time, also while the event loop wakes up", Cfg { dials: 1, commands: 3, timer: true, acts: 5 + y, reactions: 0, traffic: true, ..Cfg::default() }),
        sp("timers", "timers with busy connections and a slow event loop", Cfg { dials: 1, timer: true, acts: 6 + y, reactions: 2, traffic: true, lag: true, ..Cfg::default() }),
        sp("signals", "interrupted waits and spurious readiness", Cfg { dials: 1, inbound: 1, timer: true, acts: 5 + y, reactions: 1, traffic: true, close: true, signals: true, ..Cfg::default() }),
    ];
    Check {
        spaces,
        rule: "every sequence of the named happenings (grouped in every way into waits of the event loop) and service reactions, followed by everything coming to an end".into(),
        assumptions: vec![
            "the C library's socket, poll and clock functions are replaced by a simulation of their Linux behaviour (IPv4 stream sockets)".into(),
            "other threads act while the event loop waits or reads from the waker".into(),
        ],
    }
}
