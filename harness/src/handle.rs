//! E02: what users of a client handle see: event streams, waiting, queries.
//!
//! The real `Client` and `Handle` run over a reactor that hands the state machine's events to the
//! client's real publisher, and that is driven from inside the handle's waker, so that every point at
//! which the node may act during a call on a handle is a choice of the explorer.
use crate::engine::{space, Ch, Res};
use crate::sim::*;
use crate::sync::serve_headers;
use crate::{Check, Tier};
use crossbeam_channel as chan;
use nakamoto_client::handle::{Error, Handle as _};
use nakamoto_client::{Client, Handle};
use nakamoto_common::bitcoin::network::constants::ServiceFlags;
use nakamoto_common::bitcoin::network::message::NetworkMessage as M;
use nakamoto_common::bitcoin::Block;
use nakamoto_common::block::{BlockHash, Height};
use nakamoto_net::event::broadcast;
use nakamoto_net::{Disconnect, Io, Link, LocalTime, Publisher, Reactor, Service, StateMachine, Waker};
use nakamoto_p2p::fsm::{Command, DisconnectReason, Event, PeerId};
use std::borrow::Cow;
use std::cell::RefCell;
use std::net;
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use std::time::Duration;

const FULL: ServiceFlags = ServiceFlags::NETWORK;

trait Driver {
    /// Publish what the service emitted.
    fn pump(&mut self);
    /// Process the commands that were sent.
    fn serve(&mut self);
}

struct Local<S: Service, E> {
    service: S,
    publisher: E,
    commands: chan::Receiver<S::Command>,
}

impl<S: Service, E: Publisher<S::Event>> Driver for Local<S, E> {
    fn pump(&mut self) {
        while let Some(o) = self.service.next() {
            if let Io::Event(e) = o {
                self.publisher.publish(e);
            }
        }
    }
    fn serve(&mut self) {
        while let Ok(c) = self.commands.try_recv() {
            self.service.command_received(c);
            self.pump();
        }
    }
}

thread_local! {
    static DRIVER: RefCell<Option<Box<dyn Driver>>> = RefCell::new(None);
    static HOOK: RefCell<Option<Box<dyn FnMut()>>> = RefCell::new(None);
}

fn pump() {
    DRIVER.with(|d| d.borrow_mut().as_mut().map(|d| d.pump()));
}
fn serve() {
    DRIVER.with(|d| d.borrow_mut().as_mut().map(|d| d.serve()));
}
fn stop() {
    DRIVER.with(|d| d.borrow_mut().take());
}

struct MockReactor;
#[derive(Clone)]
struct MockWaker;
impl Waker for MockWaker {
    fn wake(&self) -> std::io::Result<()> {
        let hook = HOOK.with(|h| h.borrow_mut().take());
        match hook {
            None => serve(),
            Some(mut f) => {
                f();
                HOOK.with(|h| *h.borrow_mut() = Some(f));
            }
        }
        Ok(())
    }
}
impl Reactor for MockReactor {
    type Waker = MockWaker;
    fn new(_: chan::Receiver<()>, _: chan::Sender<net::SocketAddr>) -> Result<Self, std::io::Error> {
        Ok(Self)
    }
    fn run<S, E>(&mut self, _: &[net::SocketAddr], service: S, publisher: E, commands: chan::Receiver<S::Command>) -> Result<(), nakamoto_net::error::Error>
    where
        S: Service,
        S::DisconnectReason: Into<Disconnect<S::DisconnectReason>>,
        E: Publisher<S::Event>,
    {
        let d: Box<dyn Driver + '_> = Box::new(Local { service, publisher, commands });
        // SAFETY: every service and publisher used here owns all it needs.
        let d: Box<dyn Driver + 'static> = unsafe { std::mem::transmute(d) };
        DRIVER.with(|c| *c.borrow_mut() = Some(d));
        Ok(())
    }
    fn waker(&self) -> MockWaker {
        MockWaker
    }
}

type Shared = Rc<RefCell<Sim>>;

/// The node: commands go to the simulated node, its events come out.
struct Svc(Shared);
impl Iterator for Svc {
    type Item = Io<Vec<u8>, Event, DisconnectReason>;
    fn next(&mut self) -> Option<Self::Item> {
        let mut s = self.0.borrow_mut();
        while !s.outs.is_empty() {
            if let Out::Event(e) = s.outs.remove(0) {
                return Some(Io::Event(e));
            }
        }
        None
    }
}
impl StateMachine for Svc {
    type Message = [u8];
    type Event = Event;
    type DisconnectReason = DisconnectReason;
    fn message_received(&mut self, _: &PeerId, _: Cow<[u8]>) {}
    fn attempted(&mut self, _: &PeerId) {}
    fn connected(&mut self, _: PeerId, _: &net::SocketAddr, _: Link) {}
    fn disconnected(&mut self, _: &PeerId, _: Disconnect<DisconnectReason>) {}
    fn tick(&mut self, _: LocalTime) {}
    fn timer_expired(&mut self) {}
}
impl Service for Svc {
    type Command = Command;
    fn command_received(&mut self, c: Command) {
        self.0.borrow_mut().command(c);
    }
}

/// Clears the thread's reactor when an execution ends, however it ends.
struct Reset;
impl Drop for Reset {
    fn drop(&mut self) {
        HOOK.with(|h| h.borrow_mut().take());
        stop();
    }
}

fn client(s: Sim) -> (Shared, Handle<MockWaker>, Reset) {
    let sim = Rc::new(RefCell::new(s));
    let c = Client::<MockReactor>::new().expect("engine: client");
    let h = c.handle();
    c.run_service(&[], Svc(sim.clone())).expect("engine: run");
    (sim, h, Reset)
}

fn node(c: &Chain) -> Sim {
    let mut s = Sim::new(Opts { headers: c.headers(), book: BookStore::default(), ..Opts::default() });
    s.init();
    s.take();
    s
}

// ---------------------------------------------------------------- event streams

fn number(i: u64) -> Event {
    Event::PeerHeightUpdated { height: i }
}
fn seq(e: &Event) -> Option<u64> {
    match e {
        Event::PeerHeightUpdated { height } | Event::BlockProcessed { height, .. } | Event::FilterReceived { height, .. } => Some(*height),
        _ => None,
    }
}

enum Rx {
    Events(chan::Receiver<Event>),
    Blocks(chan::Receiver<(Block, Height)>),
    Filters(chan::Receiver<(nakamoto_common::block::filter::BlockFilter, BlockHash, Height)>),
}

/// All sequences of subscribing, unsubscribing and publishing.
fn streams(depth: usize, ch: &mut Ch) -> Res {
    let c = {
        let mut c = Chain::genesis();
        c.grow(1, 1);
        c
    };
    let (sim, h, _reset) = client(node(&c));
    let h2 = h.clone();
    // Receiver, events expected, events already read.
    let mut subs: Vec<(usize, Rx, Vec<u64>, Vec<u64>)> = vec![];
    let mut created = 0usize;
    let mut n = 0u64;
    for _ in 0..depth {
        let k = ch.pick(6 + subs.len() * 2);
        ch.step();
        match k {
            0..=2 => {
                if created == 4 {
                    return Ok(());
                }
                created += 1;
                let by = if created % 2 == 0 { &h2 } else { &h };
                let rx = match k {
                    0 => Rx::Events(by.events()),
                    1 => Rx::Blocks(by.blocks()),
                    _ => Rx::Filters(by.filters()),
                };
                ch.note(|| format!("subscriber {created} subscribes to {}", ["events", "blocks", "filters"][k]));
                subs.push((created, rx, vec![], vec![]));
            }
            3..=5 => {
                n += 1;
                let e = match k {
                    3 => number(n),
                    4 => Event::BlockProcessed { block: c.blocks[1].clone(), height: n, fees: None },
                    _ => Event::FilterReceived { from: peer(0), filter: c.filters[1].clone(), height: n, block: c.hash(1) },
                };
                ch.note(|| format!("event {n}: {}", ["height", "block", "filter"][k - 3]));
                if !subs.is_empty() {
                    ch.nontrivial();
                }
                sim.borrow_mut().outs.push(Out::Event(e));
                pump();
                for (_, rx, want, _) in &mut subs {
                    let interested = match rx {
                        Rx::Events(_) => true,
                        Rx::Blocks(_) => k == 4,
                        Rx::Filters(_) => k == 5,
                    };
                    if interested {
                        want.push(n);
                    }
                }
            }
            k => {
                let (i, read) = ((k - 6) / 2, (k - 6) % 2 == 0);
                if read {
                    let (id, rx, _, got) = &mut subs[i];
                    ch.note(|| format!("subscriber {id} reads"));
                    drain(rx, got);
                } else {
                    let (id, rx, want, mut got) = subs.remove(i);
                    ch.note(|| format!("subscriber {id} leaves"));
                    drain(&rx, &mut got);
                    if want != got {
                        return Err(format!("subscriber {id} received {got:?}, published {want:?}"));
                    }
                }
            }
        }
        let view: Vec<_> = subs.iter().map(|s| (s.0, s.2.clone(), s.3.clone())).collect();
        ch.state(&view);
    }
    for (id, rx, want, mut got) in subs {
        drain(&rx, &mut got);
        if want != got {
            return Err(format!("subscriber {id} received {got:?}, published {want:?}"));
        }
    }
    Ok(())
}

/// A subscriber that doesn't read for a long time misses nothing, and holds back nobody.
fn backlog(ch: &mut Ch) -> Res {
    let c = {
        let mut c = Chain::genesis();
        c.grow(1, 1);
        c
    };
    let (sim, h, _reset) = client(node(&c));
    let n = *ch.of(&[10u64, 63, 64, 65, 1000, 1024, 1025, 5000, 70_000]);
    let k = ch.pick(3);
    let slow = match k {
        0 => Rx::Events(h.events()),
        1 => Rx::Blocks(h.blocks()),
        _ => Rx::Filters(h.filters()),
    };
    let quick = Rx::Events(h.events());
    let (mut got, mut read) = (vec![], vec![]);
    for i in 1..=n {
        let e = match k {
            0 => number(i),
            1 => Event::BlockProcessed { block: c.blocks[1].clone(), height: i, fees: None },
            _ => Event::FilterReceived { from: peer(0), filter: c.filters[1].clone(), height: i, block: c.hash(1) },
        };
        sim.borrow_mut().outs.push(Out::Event(e));
        pump();
        drain(&quick, &mut read);
        if read.last() != Some(&i) {
            return Err(format!("event {i} isn't received at once"));
        }
    }
    ch.step();
    ch.nontrivial();
    ch.state(&(n, k));
    drain(&slow, &mut got);
    if got.len() as u64 != n || read != got || !got.iter().zip(1..).all(|(a, b)| *a == b) {
        return Err(format!("a subscriber that reads late received {} of {n} events", got.len()));
    }
    Ok(())
}

fn drain(rx: &Rx, got: &mut Vec<u64>) {
    match rx {
        Rx::Events(r) => got.extend(r.try_iter().filter_map(|e| seq(&e))),
        Rx::Blocks(r) => got.extend(r.try_iter().map(|x| x.1)),
        Rx::Filters(r) => got.extend(r.try_iter().map(|x| x.2)),
    }
}

/// What another thread does while an event is being delivered.
type Interrupt = Arc<Mutex<Option<(usize, Box<dyn FnOnce() + Send>)>>>;

/// An event whose duplication is a scheduling point.
struct Item(u64, Interrupt);
impl Clone for Item {
    fn clone(&self) -> Self {
        let mut g = self.1.lock().unwrap();
        match g.take() {
            Some((0, f)) => {
                drop(g);
                f();
            }
            Some((k, f)) => *g = Some((k - 1, f)),
            None => {}
        }
        Item(self.0, self.1.clone())
    }
}

/// Another thread subscribes, leaves or reads at each point of a delivery.
fn interrupted(ch: &mut Ch) -> Res {
    let hook: Interrupt = Arc::default();
    let (mut b, sub) = broadcast::<Item, Item>(|e, p| p.emit(e));
    let n = ch.pick(4);
    let mut rx: Vec<Option<chan::Receiver<Item>>> = (0..n).map(|_| Some(sub.subscribe())).collect();
    let mut got: Vec<Vec<u64>> = vec![vec![]; n];
    let mut next = 0;
    let mut publish = |b: &mut nakamoto_net::event::Broadcast<Item, Item>| {
        next += 1;
        b.publish(Item(next, hook.clone()));
        next
    };
    for _ in 0..ch.pick(2) {
        publish(&mut b);
    }
    let at = ch.pick(n + 1);
    let action = ch.pick(1 + n);
    let late: Arc<Mutex<Option<chan::Receiver<Item>>>> = Arc::default();
    let left = Arc::new(Mutex::new(None));
    let mut worker: Arc<Mutex<Option<std::thread::JoinHandle<()>>>> = Arc::default();
    let mut gone = None;
    let f: Box<dyn FnOnce() + Send> = if action == 0 {
        ch.note(|| format!("another thread subscribes while event is delivered to subscriber {at} of {n}"));
        let (sub, late, worker) = (sub.clone(), late.clone(), worker.clone());
        Box::new(move || {
            let (done, wait) = chan::bounded(1);
            let t = std::thread::spawn(move || {
                let r = sub.subscribe();
                *late.lock().unwrap() = Some(r);
                done.send(()).ok();
            });
            *worker.lock().unwrap() = Some(t);
            // Either it is done, or it is waiting for the delivery to end.
            wait.recv_timeout(Duration::from_millis(20)).ok();
        })
    } else {
        let i = action - 1;
        ch.note(|| format!("subscriber {i} leaves while an event is delivered to subscriber {at} of {n}"));
        gone = Some(i);
        let r = rx[i].take();
        let left = left.clone();
        Box::new(move || {
            *left.lock().unwrap() = r.as_ref().map(|r| r.try_iter().map(|x| x.0).collect::<Vec<_>>());
            drop(r);
        })
    };
    *hook.lock().unwrap() = Some((at, f));
    let k = publish(&mut b);
    ch.step();
    if hook.lock().unwrap().take().is_none() {
        ch.nontrivial();
    }
    if let Some(t) = Arc::get_mut(&mut worker).and_then(|w| w.get_mut().unwrap().take()) {
        t.join().map_err(|_| "panic in subscribe".to_string())?;
    } else if let Some(t) = worker.lock().unwrap().take() {
        t.join().map_err(|_| "panic in subscribe".to_string())?;
    }
    let last = publish(&mut b);
    for (i, r) in rx.iter().enumerate() {
        if let Some(r) = r {
            got[i].extend(r.try_iter().map(|x| x.0));
            let want: Vec<u64> = (1..=last).collect();
            if got[i] != want {
                return Err(format!("subscriber {i} received {:?}, published {want:?}", got[i]));
            }
        }
    }
    if let (Some(i), Some(v)) = (gone, left.lock().unwrap().clone()) {
        let before: Vec<u64> = (1..k).collect();
        if !(v == before || v == (1..=k).collect::<Vec<_>>()) {
            return Err(format!("subscriber {i} had received {v:?} before it left"));
        }
    }
    if let Some(r) = late.lock().unwrap().take() {
        let v: Vec<u64> = r.try_iter().map(|x| x.0).collect();
        if !(v == vec![last] || v == vec![k, last]) {
            return Err(format!("subscribed during event {k}, received {v:?}, published up to {last}"));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- waiting

/// Long enough for a call that must return, short for one that need not.
fn timeout(must: bool) -> Duration {
    Duration::from_millis(if must { 10_000 } else { 1 })
}

/// When the steps of a history happen: before the call; between the call and the node's first reaction;
/// while the caller waits; when it asks again.
#[derive(Clone, Copy)]
struct Plan {
    before: usize,
    early: usize,
    waiting: usize,
    again: bool,
}

fn plan(ch: &mut Ch, n: usize) -> Plan {
    let before = ch.pick(n + 1);
    let early = ch.pick(n - before + 1);
    let waiting = ch.pick(n - before - early + 1);
    let again = before + early + waiting < n && ch.flip();
    Plan { before, early, waiting, again }
}

/// Install the waker's behaviour: `step(i)` performs the i-th step of the history.
fn schedule(p: Plan, n: usize, step: Rc<dyn Fn(usize)>) {
    let mut wake = 0;
    let mut at = p.before;
    HOOK.with(|h| {
        *h.borrow_mut() = Some(Box::new(move || {
            wake += 1;
            let run = |at: &mut usize, k: usize| {
                for _ in 0..k {
                    step(*at);
                    pump();
                    *at += 1;
                }
            };
            if wake == 1 {
                run(&mut at, p.early);
                serve();
                run(&mut at, p.waiting);
            } else if p.again {
                let k = n - at;
                run(&mut at, k);
                serve();
            } else {
                serve();
                let k = n - at;
                run(&mut at, k);
            }
        }))
    });
}

fn heights(depth: usize, ch: &mut Ch) -> Res {
    let mut c = Chain::genesis();
    c.grow(2, 1);
    let x = peer(0);
    let target = 1 + ch.pick(6) as u64;
    // The history of the chain, as chains.
    let mut hist = vec![c.clone()];
    let n = ch.pick(depth + 1);
    for i in 0..n {
        let last = hist.last().unwrap().clone();
        let salt = 10 + i as u8;
        let next = match ch.pick(5) {
            k @ 0..=2 => {
                let mut l = last.clone();
                l.grow(k + 1, salt);
                l
            }
            k => {
                let depth = (k - 2) as u64;
                let mut l = last.fork(last.height() - depth);
                l.grow(depth as usize + 1 + ch.pick(2), salt);
                l
            }
        };
        hist.push(next);
    }
    let p = plan(ch, n);
    let all = p.before + p.early + p.waiting == n;
    ch.note(|| {
        let hs: Vec<_> = hist.iter().map(|c| format!("{}@{}", crate::util::short(&c.hash(c.height())), c.height())).collect();
        format!("chains {hs:?}; waiting for height {target}; {} updates before the call, {} before it reaches the node, {} while waiting", p.before, p.early, p.waiting)
    });
    let mut s = node(&c);
    s.command(Command::Connect(x));
    s.dial_ok(x);
    s.handshake(x, c.height(), FULL);
    let (sim, mut h, _reset) = client(s);
    let hist = Rc::new(hist);
    let step: Rc<dyn Fn(usize)> = {
        let (sim, hist) = (sim.clone(), hist.clone());
        Rc::new(move |i| {
            let (a, b) = (&hist[i], &hist[i + 1]);
            let mut s = sim.borrow_mut();
            let new = b.headers().into_iter().filter(|h| !a.headers().contains(h)).collect();
            s.recv(x, M::Headers(new));
            while let Some(m) = s.pop(&x) {
                if let M::GetHeaders(g) = m {
                    s.recv(x, M::Headers(serve_headers(&b.headers(), &g.locator_hashes, g.stop_hash)));
                }
            }
            assert_eq!(s.tip().1, b.hash(b.height()), "engine: node doesn't follow its peer");
        })
    };
    for i in 0..p.before {
        step(i);
        pump();
    }
    schedule(p, n, step);
    // The node is at these chains during the call.
    let during: Vec<&Chain> = hist[p.before..].iter().collect();
    let end = &hist[p.before + p.early + p.waiting];
    let must = end.height() >= target;
    h.set_timeout(timeout(must));
    ch.step();
    if n > 0 {
        ch.nontrivial();
    }
    let r = h.wait_for_height(target);
    ch.state(&(target, format!("{r:?}")));
    match r {
        Ok(hash) => {
            if !during.iter().any(|c| c.height() >= target && c.hash(target) == hash) {
                return Err(format!("waiting for height {target} returned {hash}, which wasn't the block at that height"));
            }
        }
        Err(Error::Timeout) if !must => {}
        Err(e) => return Err(format!("waiting for height {target} failed although the chain reached height {} (all updates made: {all}): {e}", end.height())),
    }
    Ok(())
}

fn peers(depth: usize, ch: &mut Ch) -> Res {
    let c = {
        let mut c = Chain::genesis();
        c.grow(2, 1);
        c
    };
    let required = [FULL, FULL | CF][ch.pick(2)];
    let count = 1 + ch.pick(3);
    // Steps: peer i toggles: completes its handshake (or only connects), or leaves.
    let n = ch.pick(depth + 1);
    let mut set: Vec<Vec<usize>> = vec![vec![]];
    let mut steps = vec![];
    for _ in 0..n {
        let i = ch.pick(4);
        let mut l = set.last().unwrap().clone();
        if let Some(k) = l.iter().position(|x| *x == i) {
            l.remove(k);
            steps.push((i, false));
        } else {
            l.push(i);
            steps.push((i, true));
        }
        set.push(l);
    }
    let services = |i: usize| if i == 3 { FULL } else { FULL | CF };
    let p = plan(ch, n);
    ch.note(|| format!("waiting for {count} peers with {required}; history {steps:?}; {} before the call, {} before it reaches the node, {} while waiting", p.before, p.early, p.waiting));
    let mut s = node(&c);
    s.run_for(1);
    let (sim, mut h, _reset) = client(s);
    let steps = Rc::new(steps);
    let step: Rc<dyn Fn(usize)> = {
        let (sim, steps) = (sim.clone(), steps.clone());
        Rc::new(move |k| {
            let (i, up) = steps[k];
            let mut s = sim.borrow_mut();
            if up {
                s.inbound(peer(i));
                s.handshake(peer(i), 2 + i as u64, services(i));
            } else {
                s.lose(peer(i));
            }
        })
    };
    for i in 0..p.before {
        step(i);
        pump();
    }
    schedule(p, n, step);
    let good = |l: &Vec<usize>| {
        let mut v: Vec<_> = l.iter().filter(|i| services(**i).has(required)).map(|i| (peer(*i), 2 + *i as u64, services(*i))).collect();
        v.sort();
        v
    };
    let during: Vec<_> = set[p.before..].iter().map(good).collect();
    let end = good(&set[p.before + p.early + p.waiting]);
    let must = set[p.before + p.early + p.waiting..].iter().all(|l| good(l).len() >= count);
    h.set_timeout(timeout(must));
    ch.step();
    if n > 0 {
        ch.nontrivial();
    }
    let r = h.wait_for_peers(count, required);
    ch.state(&(count, format!("{r:?}").len(), during.len()));
    match r {
        Ok(mut v) => {
            v.sort();
            if v.len() < count {
                return Err(format!("waiting for {count} peers returned {v:?}"));
            }
            if !during.contains(&v) {
                return Err(format!("waiting for {count} peers returned {v:?}, which weren't the node's peers at any time during the call ({during:?})"));
            }
        }
        Err(Error::Timeout) if !must => {}
        Err(e) => return Err(format!("waiting for {count} peers failed although the node had {end:?}: {e}")),
    }
    Ok(())
}

/// Connecting to and disconnecting from an address.
fn links(ch: &mut Ch) -> Res {
    let c = Chain::genesis();
    // The other peer has another address, or is on the same host.
    let a = peer(0);
    let b = if ch.flip() { peer(1) } else { std::net::SocketAddr::new(a.ip(), 4444) };
    let dis = ch.flip();
    let mut s = node(&c);
    if dis {
        for p in [a, b] {
            s.inbound(p);
            s.handshake(p, 0, FULL);
        }
    }
    let (sim, mut h, _reset) = client(s);
    // What the network does: 0 nothing, 1 the connection succeeds / the other peer leaves,
    // 2 it fails, 3 another peer connects.
    let n = ch.pick(3);
    let steps: Vec<usize> = (0..n).map(|_| ch.pick(4)).collect();
    let early = ch.pick(n + 1);
    ch.note(|| format!("{} {a}; then {steps:?}", if dis { "disconnecting" } else { "connecting to" }));
    let events = Rc::new(RefCell::new(h.events()));
    {
        let (sim, steps) = (sim.clone(), steps.clone());
        let act = move |k: usize| {
            let mut s = sim.borrow_mut();
            match (k, dis) {
                (1, false) if s.is_dialing(&a) => s.dial_ok(a),
                (2, false) if s.is_dialing(&a) => s.lose(a),
                (3, false) if !s.is_open(&b) => s.inbound(b),
                (1, true) => s.lose(b),
                (2, true) => s.lose(a),
                (3, true) if !s.is_open(&b) => s.inbound(b),
                _ => {}
            }
        };
        let mut first = true;
        HOOK.with(|x| {
            *x.borrow_mut() = Some(Box::new(move || {
                if std::mem::take(&mut first) {
                    for k in &steps[..early] {
                        act(*k);
                        pump();
                    }
                    serve();
                    for k in &steps[early..] {
                        act(*k);
                        pump();
                    }
                } else {
                    serve();
                }
            }))
        });
    }
    // The expected outcome is known once the steps ran; run them with a timeout that can't expire
    // before events that exist are read.
    let expect = if dis { true } else { steps[early..].iter().find(|k| [1, 2].contains(*k)) == Some(&1) };
    h.set_timeout(timeout(expect));
    ch.step();
    ch.nontrivial();
    let r = if dis { h.disconnect(a).map(|_| None) } else { h.connect(a).map(Some) };
    let seen: Vec<Event> = events.borrow().try_iter().collect();
    let happened = seen.iter().any(|e| match e {
        Event::PeerConnected { addr, .. } => !dis && *addr == a,
        Event::PeerDisconnected { addr, .. } => dis && *addr == a,
        _ => false,
    });
    ch.state(&(dis, happened, seen.len()));
    match r {
        Ok(l) => {
            if !happened {
                return Err(format!("returned although it didn't happen, events {seen:?}"));
            }
            if l.map_or(false, |l| l != Link::Outbound) {
                return Err(format!("link {l:?}"));
            }
        }
        Err(Error::Timeout) if !happened => {}
        Err(e) => return Err(format!("{e}, although it happened: {seen:?}")),
    }
    Ok(())
}

/// Queries are answered with the state of the node, and fail once it has stopped.
fn queries(depth: usize, ch: &mut Ch) -> Res {
    let mut c = Chain::genesis();
    c.grow(2, 1);
    let mut all = c.headers();
    let x = peer(0);
    let mut s = node(&c);
    s.inbound(x);
    s.handshake(x, 2, FULL);
    let (sim, mut h, _reset) = client(s);
    h.set_timeout(timeout(false));
    let h2 = h.clone();
    for i in 0..depth {
        let k = ch.pick(4);
        let mut next = if k < 2 { c.clone() } else { c.fork(c.height() + 1 - k as u64) };
        next.grow(if k < 2 { k + 1 } else { k }, 20 + i as u8);
        let new: Vec<_> = next.headers().into_iter().filter(|h| !c.headers().contains(h)).collect();
        all.extend(new.clone());
        ch.note(|| format!("{} headers from height {}", new.len(), next.height() as usize - new.len() + 1));
        if ch.flip() {
            let mut s = sim.borrow_mut();
            s.recv(x, M::Headers(new));
            s.clear_inbox(&x);
            drop(s);
            pump();
        } else {
            match h.import_headers(new) {
                Ok(Ok(_)) => {}
                r => return Err(format!("import failed: {r:?}")),
            }
        }
        c = next;
        ch.step();
        ch.nontrivial();
        ch.state(&c.hash(c.height()));
        let by = [&h, &h2][i % 2];
        match by.get_tip() {
            Ok((a, b, _)) if a == c.height() && b == c.tip().header => {}
            r => return Err(format!("tip {r:?}, the node is at {}", c.height())),
        }
        for height in 0..c.height() + 2 {
            match by.get_block_by_height(height) {
                Ok(r) if r == c.headers().get(height as usize).cloned() => {}
                r => return Err(format!("block at height {height}: {r:?}")),
            }
        }
        for x in &all {
            let hash = x.block_hash();
            let at = c.headers().iter().position(|h| h == x);
            match (by.get_block(&hash), at) {
                (Ok(Some((i, b))), Some(at)) if i == at as u64 && b == *x => {}
                // Blocks that aren't on the active chain may or may not be known.
                (Ok(_), None) => {}
                (r, at) => return Err(format!("block {hash} (active at {at:?}): {r:?}")),
            }
        }
    }
    let late = ch.pick(3);
    match late {
        0 => stop(),
        1 => HOOK.with(|x| *x.borrow_mut() = Some(Box::new(stop))),
        _ => HOOK.with(|x| {
            *x.borrow_mut() = Some(Box::new(|| {
                serve();
                stop();
            }))
        }),
    }
    ch.note(|| format!("the node stops {}", ["before the call", "before it processes the command", "after processing the command"][late]));
    let want = late == 2;
    let r = match ch.pick(10) {
        0 => h.get_tip().map(|_| true),
        1 => h.get_block(&c.hash(1)).map(|_| true),
        2 => h.get_block_by_height(1).map(|_| true),
        3 => h.find_branch(&c.hash(1)).map(|_| true),
        4 => h.import_headers(vec![]).map(|_| true),
        5 => h.get_peers(FULL).map(|_| true),
        6 => h.get_submitted_transaction(&transaction(1, 1, false).txid()).map(|_| true),
        7 => h.broadcast(M::GetAddr, |_| true).map(|_| true),
        8 => match h.request_filters(0..=0) {
            Err(Error::GetFilters(_)) => Ok(true),
            r => r.map(|_| true),
        },
        _ => h.submit_transaction(transaction(1, 1, false)).map(|_| true),
    };
    match r {
        Ok(_) if want => Ok(()),
        Err(Error::Disconnected) if !want => Ok(()),
        r => Err(format!("call returned {r:?}, answered: {want}")),
    }
}

pub fn check(tier: Tier) -> Check {
    let d = tier.of(0, 1);
    Check {
        spaces: vec![
            space("streams", "subscribing, leaving, reading and publishing in any order", move |ch| streams(6 + d, ch)),
            space("backlog", "up to 70000 events published before a subscriber reads them", backlog),
            space("interrupted", "another thread subscribes or leaves at each point of a delivery", interrupted),
            space("heights", "waiting for a height while the chain grows and re-organises", move |ch| heights(3 + d, ch)),
            space("peers", "waiting for peers while peers come and go", move |ch| peers(4 + d, ch)),
            space("links", "connecting and disconnecting", links),
            space("queries", "queries on a changing chain, and a node that stops", move |ch| queries(3 + d, ch)),
        ],
        rule: "each subscriber received exactly what was published since it subscribed, in order; waiting returns what was true at an instant during the call, and returns if the condition holds at the end; queries return the state of the node; calls on a stopped node fail".into(),
        assumptions: vec![
            "the node acts during a call on a handle only when the handle wakes it or while the caller waits; the caller's own steps between are not interrupted".into(),
        ],
    }
}
