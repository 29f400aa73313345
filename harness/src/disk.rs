//! S02: a node restarted after a crash. S03: the address file.
//!
//! The real client is loaded from a scratch directory and driven by a deterministic reactor; everything
//! it does to files is recorded, and every crash point of the recording (between any two operations and
//! inside each write) is restored into a fresh directory, from which the client is loaded again.
use crate::engine::{space, Ch, Res};
use crate::filters::serve_cfheaders;
use crate::journal::{self, Files, Op};
use crate::sim::{block_time, local, peer, version, Chain, NOW, CF, NET};
use crate::sync::serve_headers;
use crate::util::Scratch;
use crate::{Check, Tier};
use crossbeam_channel as chan;
use nakamoto_chain::block::store::File;
use nakamoto_chain::filter::cache::StoredHeader;
use nakamoto_client::handle::Handle as _;
use nakamoto_client::peer::{Cache, KnownAddress, Source, Store as _};
use nakamoto_client::{Client, Config, Handle, LoadingHandler};
use nakamoto_common::bitcoin::consensus::{deserialize, serialize};
use nakamoto_common::bitcoin::network::address::Address;
use nakamoto_common::bitcoin::network::constants::ServiceFlags;
use nakamoto_common::bitcoin::network::message::{NetworkMessage as M, RawNetworkMessage};
use nakamoto_common::block::store::{Genesis as _, Store as _};
use nakamoto_common::block::BlockHeader;
use nakamoto_net::{Disconnect, Io, Link, LocalDuration, LocalTime, Publisher, Reactor, Service, Waker};
use nakamoto_p2p::fsm::PeerId;
use std::borrow::Cow;
use std::cell::RefCell;
use std::net;
use std::path::{Path, PathBuf};
use std::sync::Arc;

enum Act {
    Write(PeerId, Vec<u8>),
    Connect(PeerId),
    Disconnect(PeerId),
    Other,
}

/// The running client, with its types erased.
trait Node {
    fn initialize(&mut self, t: LocalTime);
    fn tick(&mut self, t: LocalTime);
    fn timer(&mut self);
    fn connected(&mut self, a: PeerId);
    fn received(&mut self, a: PeerId, bytes: &[u8]);
    fn lost(&mut self, a: PeerId);
    fn serve(&mut self);
    fn next(&mut self) -> Option<Act>;
}

struct Local<S: Service, E> {
    service: S,
    publisher: E,
    commands: chan::Receiver<S::Command>,
}

impl<S: Service, E: Publisher<S::Event>> Node for Local<S, E> {
    fn initialize(&mut self, t: LocalTime) {
        self.service.initialize(t)
    }
    fn tick(&mut self, t: LocalTime) {
        self.service.tick(t)
    }
    fn timer(&mut self) {
        self.service.timer_expired()
    }
    fn connected(&mut self, a: PeerId) {
        self.service.attempted(&a);
        self.service.connected(a, &local(), Link::Outbound);
    }
    fn received(&mut self, a: PeerId, bytes: &[u8]) {
        self.service.message_received(&a, Cow::Borrowed(bytes));
    }
    fn lost(&mut self, a: PeerId) {
        let e = std::io::Error::from(std::io::ErrorKind::ConnectionReset);
        self.service.disconnected(&a, Disconnect::ConnectionError(Arc::new(e)));
    }
    fn serve(&mut self) {
        while let Ok(c) = self.commands.try_recv() {
            self.service.command_received(c);
        }
    }
    fn next(&mut self) -> Option<Act> {
        Some(match self.service.next()? {
            Io::Write(a, b) => Act::Write(a, b),
            Io::Connect(a) => Act::Connect(a),
            Io::Disconnect(a, r) => {
                self.service.disconnected(&a, r.into());
                Act::Disconnect(a)
            }
            Io::SetTimer(_) => Act::Other,
            Io::Event(e) => {
                self.publisher.publish(e);
                Act::Other
            }
        })
    }
}

thread_local! {
    static NODE: RefCell<Option<Box<dyn Node>>> = RefCell::new(None);
}

struct Mock;
#[derive(Clone)]
struct MockWaker;
impl Waker for MockWaker {
    fn wake(&self) -> std::io::Result<()> {
        NODE.with(|n| n.borrow_mut().as_mut().map(|n| n.serve()));
        Ok(())
    }
}
impl Reactor for Mock {
    type Waker = MockWaker;
    fn new(_: chan::Receiver<()>, _: chan::Sender<net::SocketAddr>) -> Result<Self, std::io::Error> {
        Ok(Self)
    }
    fn run<S, E>(&mut self, _: &[net::SocketAddr], service: S, publisher: E, commands: chan::Receiver<S::Command>) -> Result<(), nakamoto_net::error::Error>
    where
        S: Service,
        S::DisconnectReason: Into<Disconnect<S::DisconnectReason>>,
        E: Publisher<S::Event>,
    {
        let d: Box<dyn Node + '_> = Box::new(Local { service, publisher, commands });
        // SAFETY: every service and publisher used here owns all it needs.
        let d: Box<dyn Node + 'static> = unsafe { std::mem::transmute(d) };
        NODE.with(|c| *c.borrow_mut() = Some(d));
        Ok(())
    }
    fn waker(&self) -> MockWaker {
        MockWaker
    }
}

/// A loaded client and its only peer, which has the given chain.
struct Machine {
    handle: Handle<MockWaker>,
    now: LocalTime,
    open: bool,
    /// What the peer was sent and has not looked at.
    inbox: Vec<M>,
    /// Stop at the end of the process.
    dir: PathBuf,
}

impl Drop for Machine {
    fn drop(&mut self) {
        NODE.with(|n| n.borrow_mut().take());
    }
}

fn network(dir: &Path) -> PathBuf {
    dir.join(".nakamoto").join(NET.as_str())
}

fn with<T>(f: impl FnOnce(&mut dyn Node) -> T) -> T {
    let mut n = NODE.with(|n| n.borrow_mut().take()).expect("engine: no node");
    let r = f(&mut *n);
    NODE.with(|c| *c.borrow_mut() = Some(n));
    r
}

fn config(dir: &Path, verify: bool) -> Config {
    Config { network: NET, connect: vec![peer(0)], listen: vec![], root: dir.to_path_buf(), verify, ..Config::default() }
}

impl Machine {
    fn load(dir: &Path, verify: bool) -> Result<Self, String> {
        let c = Client::<Mock>::new().map_err(|e| format!("engine: {e}"))?;
        let handle = c.handle();
        c.load(config(dir, verify), LoadingHandler::Ignore).map_err(|e| format!("the client doesn't start: {e}"))?.run().map_err(|e| format!("engine: {e}"))?;
        let now = LocalTime::from_secs(NOW);
        let mut m = Self { handle, now, open: false, inbox: vec![], dir: dir.to_path_buf() };
        with(|n| n.initialize(now));
        m.drain();
        Ok(m)
    }
    fn drain(&mut self) {
        while let Some(a) = with(|n| n.next()) {
            match a {
                Act::Write(_, b) => {
                    if let Ok(m) = deserialize::<RawNetworkMessage>(&b) {
                        if self.open {
                            self.inbox.push(m.payload);
                        }
                    }
                }
                Act::Connect(a) => {
                    self.open = true;
                    with(|n| n.connected(a));
                }
                Act::Disconnect(_) => {
                    self.open = false;
                    self.inbox.clear();
                }
                Act::Other => {}
            }
        }
    }
    fn send(&mut self, m: M) {
        if !self.open {
            return;
        }
        let raw = serialize(&RawNetworkMessage { magic: NET.magic(), payload: m });
        let now = self.now;
        with(|n| {
            n.tick(now);
            n.received(peer(0), &raw);
        });
        self.drain();
    }
    /// The peer answers everything; filter headers only if it is told to.
    fn answer(&mut self, c: &Chain, known: &[&Chain], filters: bool) {
        let mut i = 0;
        while i < self.inbox.len() {
            let m = self.inbox[i].clone();
            let keep = match m {
                M::Version(_) => {
                    self.inbox.remove(i);
                    self.send(M::Version(version(peer(0), c.height(), ServiceFlags::NETWORK | CF, self.now.as_secs())));
                    self.send(M::Verack);
                    continue;
                }
                M::GetHeaders(g) => {
                    self.inbox.remove(i);
                    self.send(M::Headers(serve_headers(&c.headers(), &g.locator_hashes, g.stop_hash)));
                    continue;
                }
                M::Ping(n) => {
                    self.inbox.remove(i);
                    self.send(M::Pong(n));
                    continue;
                }
                M::GetCFHeaders(g) if filters => {
                    self.inbox.remove(i);
                    if let Some(r) = serve_cfheaders(known, &g) {
                        self.send(M::CFHeaders(r));
                    }
                    continue;
                }
                M::GetCFHeaders(_) => true,
                _ => false,
            };
            if keep {
                i += 1;
            } else {
                self.inbox.remove(i);
            }
        }
    }
    fn advance(&mut self, secs: u64) {
        self.now = self.now + LocalDuration::from_secs(secs);
        let now = self.now;
        with(|n| {
            n.tick(now);
            n.timer();
        });
        self.drain();
    }
    fn headers(&self) -> Result<Vec<BlockHeader>, String> {
        let (h, _, _) = self.handle.get_tip().map_err(|e| e.to_string())?;
        (0..=h).map(|i| self.handle.get_block_by_height(i).map_err(|e| e.to_string())?.ok_or_else(|| format!("no header at height {i}"))).collect()
    }
    fn filters(&self) -> Result<Vec<StoredHeader>, String> {
        let s = File::<StoredHeader>::open(network(&self.dir).join("filters.db"), StoredHeader::genesis(NET)).map_err(|e| e.to_string())?;
        let v = s.iter().map(|r| r.map(|x| x.1).map_err(|e| e.to_string())).collect();
        v
    }
}

/// Whether `v` are the first filter headers of the chain.
fn commits(v: &[StoredHeader], c: &Chain) -> bool {
    v.len() <= c.filter_headers.len() && v.iter().zip(&c.filter_headers).all(|(a, b)| (a.hash, a.header) == *b)
}

fn common(a: &Chain, b: &Chain) -> usize {
    a.blocks.iter().zip(&b.blocks).take_while(|(x, y)| x.block_hash() == y.block_hash()).count() - 1
}

/// Every state of the files in which a crash of the process during `ops` leaves them.
fn crash_points(before: &Files, ops: &[Op], every_byte: bool) -> Vec<(usize, String, Files)> {
    let mut v: Vec<(usize, String, Files)> = vec![];
    let mut f = before.clone();
    let mut add = |i: usize, what: String, f: &Files| {
        if v.last().map_or(true, |l| l.2 != *f) {
            v.push((i, what, f.clone()));
        }
    };
    add(0, "at the start".into(), &f);
    for (i, op) in ops.iter().enumerate() {
        if let Op::Write(p, _, d) = op {
            let cuts: Vec<usize> = if every_byte { (1..d.len()).collect() } else {
                // In the middle, and wherever a record may end.
                (1..d.len()).filter(|k| *k == d.len() / 2 || k % 64 == 0 || k % 80 == 0).collect()
            };
            for k in cuts {
                let mut g = f.clone();
                journal::apply(&mut g, op, Some(k));
                add(i, format!("after {k} of {} bytes were written to {:?}", d.len(), p.file_name().unwrap_or_default()), &g);
            }
        }
        journal::apply(&mut f, op, None);
        let name = match op {
            Op::Create(p) => format!("created {:?}", p.file_name().unwrap_or_default()),
            Op::Write(p, _, d) => format!("{} bytes were written to {:?}", d.len(), p.file_name().unwrap_or_default()),
            Op::Truncate(p, n) => format!("{:?} was truncated to {n} bytes", p.file_name().unwrap_or_default()),
            Op::Rename(p, q) => format!("{:?} was renamed to {:?}", p.file_name().unwrap_or_default(), q.file_name().unwrap_or_default()),
            Op::Remove(p) => format!("{:?} was removed", p.file_name().unwrap_or_default()),
        };
        add(i + 1, format!("after {name}"), &f);
    }
    v
}

/// The node follows the chain of its peer, from whatever it has.
fn converge(m: &mut Machine, c: &Chain, known: &[&Chain]) -> Res {
    for _ in 0..40 {
        m.answer(c, known, true);
        let (h, t, _) = m.handle.get_tip().map_err(|e| e.to_string())?;
        if h == c.height() && t == c.tip().header && m.filters()?.len() == c.filter_headers.len() {
            break;
        }
        m.advance(15);
    }
    let v = m.headers()?;
    if v != c.headers() {
        return Err(format!("after restarting, the node is at height {} of {}", v.len() - 1, c.height()));
    }
    let f = m.filters()?;
    if !commits(&f, c) {
        return Err("after restarting and synchronising, the stored filter headers aren't those of the chain".into());
    }
    if f.len() != c.filter_headers.len() {
        return Err(format!("after restarting, filter headers are only stored up to height {} of {}", f.len() - 1, c.height()));
    }
    Ok(())
}

fn restart(depth: usize, crashes: usize, ch: &mut Ch) -> Res {
    let scratch = Scratch::new();
    let dir = scratch.path.join("node");
    let verify = ch.flip();
    let mut chains = vec![Chain::genesis()];
    let mut first = Chain::genesis();
    first.grow(2 + ch.pick(2), 1);
    chains.push(first);
    let mut filters = vec![ch.flip()];
    for i in 0..depth {
        let last = chains.last().unwrap();
        let k = ch.pick(5);
        if k == 0 {
            break;
        }
        let mut next = if k < 3 { last.clone() } else { last.fork(last.height() - (k - 2) as u64) };
        next.grow(if k < 3 { k } else { k - 1 }, 10 + i as u8);
        chains.push(next);
        filters.push(ch.flip());
    }
    for (i, c) in chains.iter().enumerate().skip(1) {
        ch.note(|| {
            format!(
                "step {i}: chain of height {}, common with the previous one up to {}; filter headers {}",
                c.height(),
                common(c, &chains[i - 1]),
                if filters[i - 1] { "answered" } else { "not answered" }
            )
        });
    }
    let known: Vec<&Chain> = chains.iter().rev().collect();
    // Record.
    journal::start(&dir);
    let r = (|| -> Result<Vec<usize>, String> {
        let mut marks = vec![];
        let mut m = Machine::load(&dir, verify)?;
        for (i, c) in chains.iter().enumerate().skip(1) {
            if i > 1 {
                let new = c.headers().into_iter().filter(|h| !chains[i - 1].headers().contains(h)).collect();
                m.send(M::Headers(new));
            }
            m.answer(c, &known, filters[i - 1]);
            if m.headers()? != c.headers() {
                return Err("engine: the node doesn't follow its peer".into());
            }
            marks.push(journal_len());
        }
        // Time passes; addresses are saved.
        m.advance(61);
        m.answer(chains.last().unwrap(), &known, filters[filters.len() - 1]);
        marks.push(journal_len());
        Ok(marks)
    })();
    let ops = journal::stop();
    let marks = r?;
    {
        let mut f = Files::new();
        ops.iter().for_each(|o| journal::apply(&mut f, o, None));
        assert!(f == journal::read(&dir), "engine: recording of file operations is incomplete");
    }
    let steps: Vec<(usize, &Chain, &Chain)> =
        marks.iter().enumerate().map(|(i, m)| (*m, &chains[i.min(chains.len() - 1)], &chains[(i + 1).min(chains.len() - 1)])).collect();
    sweep(ch, &Run { before: &Files::new(), ops: &ops, dir: &dir, steps: &steps, known: &known, verify }, crashes)
}

/// A recorded run of the node: its steps, with the number of operations done at their ends, and the
/// chains of the peer before and after.
struct Run<'a> {
    before: &'a Files,
    ops: &'a [Op],
    dir: &'a Path,
    steps: &'a [(usize, &'a Chain, &'a Chain)],
    known: &'a [&'a Chain],
    verify: bool,
}

/// Restart the node from every crash point of a run.
fn sweep(ch: &mut Ch, run: &Run, crashes: usize) -> Res {
    let scratch = Scratch::new();
    let points = crash_points(run.before, run.ops, false);
    let end = run.known[0];
    let total = points.len();
    for (n, (at, what, files)) in points.into_iter().enumerate() {
        let (until, a, b) = *run.steps.iter().find(|s| at < s.0).or(run.steps.last()).expect("engine: steps");
        ch.step();
        ch.nontrivial();
        ch.note(|| format!("crash {what} ({n} of {total}); restart"));
        let dir = scratch.path.join(n.to_string());
        journal::restore(&files, run.dir, &dir);
        if crashes > 1 {
            journal::start(&dir);
        }
        let r = (|| -> Result<Chain, String> {
            let mut m = Machine::load(&dir, run.verify)?;
            let h = m.headers()?;
            let base = common(a, b);
            let of = |c: &Chain| h.len() > base && h.len() <= c.blocks.len() && h[..] == c.headers()[..h.len()];
            let chain = if of(a) {
                a
            } else if of(b) {
                b
            } else {
                return Err(format!("the header chain (height {}) is neither the old (height {}) nor the new one (height {})", h.len() - 1, a.height(), b.height()));
            };
            let f = m.filters()?;
            ch.state(&(at, h.len(), f.len(), commits(&f, chain)));
            if f.len() > h.len() {
                return Err(format!("{} filter headers for {} headers", f.len(), h.len()));
            }
            if !commits(&f, chain) {
                return Err("stale-filters".to_string());
            }
            converge(&mut m, end, run.known)?;
            Ok(chain.fork(h.len() as u64 - 1))
        })();
        let ops = journal::stop();
        let loaded = match r {
            Ok(c) => c,
            Err(e) if e == "stale-filters" => {
                // Known if the crash falls between the update of the header store and the rollback
                // of the filter store in a re-org.
                let pending = run.ops[at..until]
                    .iter()
                    .any(|o| matches!(o, Op::Truncate(p, n) if p.ends_with("filters.db") && *n as usize / 64 == common(a, b)));
                if !(common(a, b) < a.height() as usize && pending && ch.known("crash-in-reorg", || format!("crash {what}"))) {
                    return Err(format!("crash {what} ({n} of {total}): filter headers of blocks that aren't on the header chain"));
                }
                let _ = std::fs::remove_dir_all(&dir);
                continue;
            }
            Err(e) => return Err(format!("crash {what} ({n} of {total}): {e}")),
        };
        let _ = std::fs::remove_dir_all(&dir);
        if crashes > 1 {
            let steps = [(ops.len(), &loaded, end)];
            sweep(ch, &Run { before: &relocate(&files, run.dir, &dir), ops: &ops, dir: &dir, steps: &steps, ..*run }, crashes - 1)?;
        }
    }
    Ok(())
}

/// The same files in another directory.
fn relocate(f: &Files, from: &Path, to: &Path) -> Files {
    f.iter().map(|(p, v)| (to.join(p.strip_prefix(from).expect("engine: prefix")), v.clone())).collect()
}

fn journal_len() -> usize {
    journal::len()
}

// ---------------------------------------------------------------- S03

fn times() -> [Option<LocalTime>; 4] {
    [None, Some(LocalTime::from_secs(0)), Some(LocalTime::from_secs(1_700_000_001)), Some(LocalTime::from_secs(u32::MAX as u64))]
}

fn addrs() -> Vec<net::SocketAddr> {
    vec![
        ([88, 1, 1, 1], 8333).into(),
        ([255, 255, 255, 255], 0).into(),
        "[2001:db8::1]:65535".parse().expect("engine: address"),
        "[fd87:d87e:eb43::7]:1".parse().expect("engine: address"),
        "[::ffff:1.2.3.4]:18444".parse().expect("engine: address"),
    ]
}

fn sources() -> Vec<Source> {
    vec![Source::Dns, Source::Imported, Source::Peer(addrs()[0]), Source::Peer(addrs()[2])]
}

fn services() -> [ServiceFlags; 4] {
    [ServiceFlags::NONE, ServiceFlags::NETWORK | CF, ServiceFlags::from(1 << 63), ServiceFlags::from(u64::MAX)]
}

fn entries(c: &Cache) -> Vec<(net::IpAddr, KnownAddress)> {
    let mut v: Vec<_> = c.iter().map(|(a, k)| (*a, k.clone())).collect();
    v.sort_by_key(|x| x.0);
    v
}

fn reopen(p: &Path) -> Result<Vec<(net::IpAddr, KnownAddress)>, String> {
    Cache::open(p).map(|c| entries(&c)).map_err(|e| format!("the saved address file can't be opened: {e}"))
}

/// Every combination of the attributes of an address.
fn combos(ch: &mut Ch) -> Res {
    let a = *ch.of(&addrs());
    let ka = KnownAddress {
        addr: Address::new(&a, *ch.of(&services())),
        source: *ch.of(&sources()),
        last_success: *ch.of(&times()),
        last_attempt: *ch.of(&times()),
        last_sampled: *ch.of(&times()),
        last_active: *ch.of(&times()),
    };
    ch.note(|| format!("{ka:?}"));
    ch.step();
    ch.nontrivial();
    let s = Scratch::new();
    let p = s.path.join("peers.json");
    let mut c = Cache::create(&p).map_err(|e| e.to_string())?;
    c.insert(a.ip(), ka.clone());
    c.flush().map_err(|e| e.to_string())?;
    drop(c);
    let v = reopen(&p)?;
    if v != vec![(a.ip(), ka.clone())] {
        return Err(format!("saved {ka:?}, read back {v:?}"));
    }
    ch.state(&format!("{ka:?}"));
    Ok(())
}

fn entry(i: usize, variant: usize) -> (net::IpAddr, KnownAddress) {
    let a = addrs()[i];
    let t = times();
    (
        a.ip(),
        KnownAddress {
            addr: Address::new(&a, services()[variant + 1]),
            source: sources()[i % 4],
            last_success: t[variant * 2],
            last_attempt: t[3 - variant],
            last_sampled: None,
            last_active: t[variant],
        },
    )
}

/// All sequences of operations on an address file, with every crash point of the last save.
fn address_file(depth: usize, crash: bool, ch: &mut Ch) -> Res {
    let s = Scratch::new();
    let dir = s.path.join("node");
    let net = network(&dir);
    std::fs::create_dir_all(&net).expect("engine: directory");
    let p = net.join("peers.json");
    let mut model: Vec<(net::IpAddr, KnownAddress)> = vec![];
    let mut saved = model.clone();
    let mut previous = model.clone();
    let mut before = Files::new();
    let mut ops = vec![];
    let mut c = Cache::create(&p).map_err(|e| e.to_string())?;
    before.insert(p.clone(), vec![]);
    for _ in 0..depth {
        ch.step();
        match ch.pick(9) {
            k @ 0..=5 => {
                let (ip, ka) = entry(k % 3, k / 3);
                let i = model.iter().position(|m| m.0 == ip);
                match (k / 3, i) {
                    (_, None) => {
                        ch.note(|| format!("add {ip}"));
                        c.insert(ip, ka.clone());
                        model.push((ip, ka));
                    }
                    (0, Some(i)) => {
                        ch.note(|| format!("remove {ip}"));
                        c.remove(&ip);
                        model.remove(i);
                    }
                    (_, Some(i)) => {
                        ch.note(|| format!("update {ip}"));
                        if let Some(x) = c.get_mut(&ip) {
                            *x = ka.clone();
                        }
                        model[i].1 = ka;
                    }
                }
            }
            6 => {
                ch.note(|| "save".into());
                ch.nontrivial();
                before = journal::read(&dir);
                journal::start(&dir);
                let r = c.flush();
                ops = journal::stop();
                r.map_err(|e| e.to_string())?;
                previous = std::mem::replace(&mut saved, model.clone());
            }
            7 => {
                ch.note(|| "restart".into());
                c = Cache::open(&p).map_err(|e| format!("the saved address file can't be opened: {e}"))?;
                model = saved.clone();
                let mut want = model.clone();
                want.sort_by_key(|x| x.0);
                if entries(&c) != want {
                    return Err(format!("saved {want:?}, read back {:?}", entries(&c)));
                }
            }
            _ => {
                ch.note(|| "clear".into());
                c.clear();
                model.clear();
            }
        }
        let mut v: Vec<_> = model.iter().map(|m| format!("{m:?}")).collect();
        v.extend(saved.iter().map(|m| format!("saved {m:?}")));
        v.sort();
        ch.state(&v);
    }
    drop(c);
    let mut want = saved.clone();
    want.sort_by_key(|x| x.0);
    let v = reopen(&p)?;
    if v != want {
        return Err(format!("saved {want:?}, read back {v:?}"));
    }
    if !crash || ops.is_empty() {
        return Ok(());
    }
    for (n, (_, what, files)) in crash_points(&before, &ops, true).into_iter().enumerate() {
        ch.step();
        let case = s.path.join(format!("c{n}"));
        journal::restore(&files, &dir, &case);
        let r = (|| -> Res {
            let m = Machine::load(&case, false)?;
            drop(m);
            let v = reopen(&network(&case).join("peers.json"))?;
            for (ip, ka) in &v {
                if !previous.iter().chain(&saved).any(|(a, b)| a == ip && b == ka) {
                    return Err(format!("read back {ka:?}, which was never saved"));
                }
            }
            Ok(())
        })();
        let _ = std::fs::remove_dir_all(&case);
        r.map_err(|e| format!("save interrupted {what}: {e}"))?;
    }
    Ok(())
}

pub fn check_s02(tier: Tier) -> Check {
    let _ = block_time;
    let d = tier.of(2, 3);
    Check {
        spaces: vec![
            space("restart", "all crash points of all short histories of synchronising", move |ch| restart(d, 1, ch)),
            space("twice", "a second crash, at any point after restarting from any crash point", move |ch| restart(d - 1, 2, ch)),
        ],
        rule: "the client starts; its headers are a prefix of the old or the new chain of the interrupted update, at least the common part; its filter headers are a prefix of those of that chain; it synchronises to its peer's chain".into(),
        assumptions: vec![
            "a crash ends the process: file operations up to some point are done, the next write partly, in program order (no reordering by the operating system)".into(),
            "one peer; short chains".into(),
        ],
    }
}

pub fn check_s03(tier: Tier) -> Check {
    let d = tier.of(0, 1);
    Check {
        spaces: vec![
            space("attributes", "every combination of boundary attributes", combos),
            space("histories", "all sequences of additions, updates, removals, saves and restarts", move |ch| address_file(5 + d, false, ch)),
            space("crashes", "the client is started from every crash point of the last save of each history", move |ch| address_file(4 + d, true, ch)),
        ],
        rule: "what is read back is what was last saved; after an interrupted save the client starts, and knows no address that was never saved".into(),
        assumptions: vec!["timestamps are whole seconds, as saved; a crash ends the process and leaves a prefix of its file operations, the last write cut at any byte".into()],
    }
}
