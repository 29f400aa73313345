//! A deterministic reactor around the real protocol state machine.
//!
//! `Sim` owns the real `StateMachine` with a real in-memory block tree and filter store and does what the `nakamoto-net-poll`
//! reactor does with its outputs (same order, same timer manager), except that the network and the clock are driven by the
//! choice program.
use crate::util::mine_block;
use nakamoto_chain::block::cache::BlockCache;
use nakamoto_chain::block::store::Memory;
use nakamoto_chain::filter::cache::FilterCache as FilterHeaderCache;
use nakamoto_chain::filter::cache::StoredHeader;
use nakamoto_common::bitcoin::blockdata::block::BlockHeader;
use nakamoto_common::bitcoin::consensus::params::Params;
use nakamoto_common::bitcoin::network::address::Address;
use nakamoto_common::bitcoin::network::constants::ServiceFlags;
use nakamoto_common::bitcoin::network::message::{NetworkMessage, RawNetworkMessage};
use nakamoto_common::bitcoin::network::message_network::VersionMessage;
use nakamoto_common::bitcoin::{Block, BlockHash, Script, Transaction};
use nakamoto_common::block::filter::{self, BlockFilter, FilterHash, FilterHeader, Filters};
use nakamoto_common::block::store::Genesis as _;
use nakamoto_common::block::time::{AdjustedTime, LocalDuration, LocalTime, RefClock};
use nakamoto_common::block::tree::BlockTree as _;
use nakamoto_common::block::Height;
use nakamoto_common::network::Network;
use nakamoto_common::nonempty::NonEmpty;
use nakamoto_common::p2p::peer::{KnownAddress, Source, Store};
use nakamoto_net::{Disconnect, Io, Link, StateMachine as _};
use nakamoto_net_poll::time::TimeoutManager;
use nakamoto_p2p::fsm::{self, Command, Config, DisconnectReason, Event, Limits, PeerId, StateMachine};
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::{BTreeMap, VecDeque};
use std::net;
use std::rc::Rc;
use std::sync::{Arc, Mutex};

pub const NET: Network = Network::Regtest;
/// Start of simulated time, in seconds.
pub const NOW: u64 = 1_700_000_000;
pub const CF: ServiceFlags = ServiceFlags::COMPACT_FILTERS;

pub type Clock = RefClock<AdjustedTime<PeerId>>;
pub type Sm = StateMachine<BlockCache<Memory<BlockHeader>>, MirrorFilters, BookStore, Clock>;

/// Filter header store: the real cache, with a copy of its contents that the harness can read.
pub struct MirrorFilters {
    inner: FilterHeaderCache<Memory<StoredHeader>>,
    copy: Rc<RefCell<Vec<(FilterHash, FilterHeader)>>>,
}
impl MirrorFilters {
    fn sync(&mut self) {
        let h = self.inner.height();
        *self.copy.borrow_mut() = (0..=h).filter_map(|i| self.inner.get_header(i)).collect();
    }
}
impl Filters for MirrorFilters {
    fn get_headers(&self, range: std::ops::RangeInclusive<Height>) -> Vec<(FilterHash, FilterHeader)> {
        self.inner.get_headers(range)
    }
    fn get_header(&self, height: Height) -> Option<(FilterHash, FilterHeader)> {
        self.inner.get_header(height)
    }
    fn import_headers(&mut self, headers: Vec<(FilterHash, FilterHeader)>) -> Result<Height, filter::Error> {
        let r = self.inner.import_headers(headers);
        self.sync();
        r
    }
    fn tip(&self) -> (&FilterHash, &FilterHeader) {
        self.inner.tip()
    }
    fn height(&self) -> Height {
        self.inner.height()
    }
    fn get_prev_header(&self, height: Height) -> Option<FilterHeader> {
        self.inner.get_prev_header(height)
    }
    fn rollback(&mut self, height: Height) -> Result<(), filter::Error> {
        let r = self.inner.rollback(height);
        self.sync();
        r
    }
    fn clear(&mut self) -> Result<(), filter::Error> {
        let r = self.inner.clear();
        self.sync();
        r
    }
}

/// Address store with a deterministic iteration order.
#[derive(Clone, Default, Debug)]
pub struct BookStore(pub BTreeMap<net::IpAddr, KnownAddress>, Rc<RefCell<BTreeMap<net::IpAddr, Address>>>);
impl Store for BookStore {
    fn get(&self, ip: &net::IpAddr) -> Option<&KnownAddress> {
        self.0.get(ip)
    }
    fn get_mut(&mut self, ip: &net::IpAddr) -> Option<&mut KnownAddress> {
        self.0.get_mut(ip)
    }
    fn insert(&mut self, ip: net::IpAddr, ka: KnownAddress) -> bool {
        if self.0.contains_key(&ip) {
            return false;
        }
        self.1.borrow_mut().insert(ip, ka.addr.clone());
        self.0.insert(ip, ka);
        true
    }
    fn remove(&mut self, ip: &net::IpAddr) -> Option<KnownAddress> {
        self.1.borrow_mut().remove(ip);
        self.0.remove(ip)
    }
    fn iter<'a>(&'a self) -> Box<dyn Iterator<Item = (&'a net::IpAddr, &'a KnownAddress)> + 'a> {
        Box::new(self.0.iter())
    }
    fn len(&self) -> usize {
        self.0.len()
    }
    fn clear(&mut self) {
        self.1.borrow_mut().clear();
        self.0.clear()
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl BookStore {
    pub fn of(addrs: &[(PeerId, ServiceFlags)], source: Source) -> Self {
        let mut b = Self::default();
        for (a, s) in addrs {
            b.insert(a.ip(), KnownAddress::new(Address::new(a, *s), source, None));
        }
        b
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum State {
    Dialing,
    Open,
}
pub struct Conn {
    pub link: Link,
    pub state: State,
    /// Messages the node wrote to this connection, not yet looked at by the peer.
    pub inbox: VecDeque<NetworkMessage>,
}

/// Something the node did.
#[derive(Clone, Debug)]
pub enum Out {
    Msg(PeerId, NetworkMessage),
    Connect(PeerId),
    /// The dial failed at once.
    DialFailed(PeerId),
    Disconnect(PeerId, DisconnectReason),
    Event(Event),
}

pub struct Opts {
    pub headers: Vec<BlockHeader>,
    pub filter_headers: Vec<(FilterHash, FilterHeader)>,
    pub connect: Vec<PeerId>,
    pub book: BookStore,
    pub limits: Limits,
    pub services: ServiceFlags,
    pub required: ServiceFlags,
    pub checkpoints: Vec<(Height, BlockHash)>,
    pub start_ms: u64,
    pub seed: u64,
    pub hooks: fsm::Hooks,
    pub domains: Vec<nakamoto_common::p2p::Domain>,
}
impl Default for Opts {
    fn default() -> Self {
        Self {
            headers: vec![],
            filter_headers: vec![],
            connect: vec![],
            book: BookStore::default(),
            limits: Limits::default(),
            services: ServiceFlags::NONE,
            required: ServiceFlags::NETWORK,
            checkpoints: vec![],
            start_ms: NOW * 1000,
            seed: 1,
            hooks: fsm::Hooks::default(),
            domains: nakamoto_common::p2p::Domain::all(),
        }
    }
}

pub struct Sim {
    pub sm: Sm,
    pub clock: Clock,
    pub now: LocalTime,
    pub timers: TimeoutManager<()>,
    pub conns: BTreeMap<PeerId, Conn>,
    /// Everything the node did since the last `take`.
    pub outs: Vec<Out>,
    /// Contradictions with the environment noticed by the reactor.
    pub faults: Vec<String>,
    filters: Rc<RefCell<Vec<(FilterHash, FilterHeader)>>>,
    book: Rc<RefCell<BTreeMap<net::IpAddr, Address>>>,
    /// Number of timer wake-ups delivered.
    pub wakes: u64,
    /// Number of dials that fail at once.
    pub fail_dials: u32,
    /// Connections and attempts that ended since the last look: address, whether established, whether by the node.
    pub ends: Vec<(PeerId, bool, bool)>,
}

pub fn millis(ms: u64) -> LocalTime {
    LocalTime::from_secs(0) + LocalDuration::from_millis(ms as u128)
}

pub fn local() -> net::SocketAddr {
    ([203, 0, 113, 77], 8333).into()
}

/// Address of the i-th peer; all in different ranges, routable.
pub fn peer(i: usize) -> PeerId {
    ([88, 10 + i as u8, 1, 1], 8333).into()
}

impl Sim {
    pub fn new(o: Opts) -> Self {
        let params = Params::new(NET.into());
        let genesis = NET.genesis();
        let clock: Clock = RefClock::from(AdjustedTime::new(millis(o.start_ms)));
        let mut tree = BlockCache::new(Memory::new(NonEmpty::new(genesis)), params.clone(), &o.checkpoints).expect("tree");
        if !o.headers.is_empty() {
            tree.import_blocks(o.headers.iter().cloned().skip_while(|h| h.block_hash() == genesis.block_hash()), &clock).expect("initial headers");
        }
        let g = StoredHeader::genesis(NET);
        let mut inner = FilterHeaderCache::load(Memory::new(NonEmpty::new(g))).expect("filters");
        if !o.filter_headers.is_empty() {
            inner.import_headers(o.filter_headers[1..].to_vec()).expect("filter headers");
        }
        let filters = Rc::new(RefCell::new(vec![]));
        let mut mirror = MirrorFilters { inner, copy: filters.clone() };
        mirror.sync();
        let cfg = Config {
            network: NET,
            params,
            connect: o.connect,
            services: o.services,
            required_services: o.required,
            limits: o.limits,
            hooks: o.hooks,
            domains: o.domains,
            ..Config::default()
        };
        let book = o.book.1.clone();
        let sm = StateMachine::new(tree, mirror, o.book, clock.clone(), fastrand::Rng::with_seed(o.seed), cfg);
        Self {
            sm,
            clock,
            now: millis(o.start_ms),
            timers: TimeoutManager::new(LocalDuration::from_secs(1)),
            conns: BTreeMap::new(),
            outs: vec![],
            faults: vec![],
            filters,
            book,
            wakes: 0,
            fail_dials: 0,
            ends: vec![],
        }
    }

    pub fn init(&mut self) {
        self.sm.initialize(self.now);
        self.drain();
    }

    /// Process the outputs of the state machine as the reactor does.
    pub fn drain(&mut self) {
        let mut guard = 0u64;
        while let Some(out) = self.sm.next() {
            guard += 1;
            assert!(guard < 1_000_000, "node: endless output");
            match out {
                Io::Write(a, m) => {
                    if m.magic != NET.magic() {
                        self.faults.push(format!("message with magic {:x}", m.magic));
                    }
                    if let Some(c) = self.conns.get_mut(&a) {
                        c.inbox.push_back(m.payload.clone());
                        self.outs.push(Out::Msg(a, m.payload));
                    }
                }
                Io::Connect(a) => {
                    if self.conns.contains_key(&a) {
                        self.faults.push(format!("dialled {a} while a connection to it exists"));
                    }
                    if self.fail_dials > 0 {
                        self.fail_dials -= 1;
                        self.outs.push(Out::Connect(a));
                        self.outs.push(Out::DialFailed(a));
                        self.ends.push((a, false, false));
                        let e = std::io::Error::from(std::io::ErrorKind::AddrNotAvailable);
                        self.sm.disconnected(&a, Disconnect::DialError(Arc::new(e)));
                        continue;
                    }
                    self.conns.insert(a, Conn { link: Link::Outbound, state: State::Dialing, inbox: VecDeque::new() });
                    self.outs.push(Out::Connect(a));
                    self.sm.attempted(&a);
                }
                Io::Disconnect(a, r) => {
                    if let Some(c) = self.conns.remove(&a) {
                        self.ends.push((a, c.state == State::Open, true));
                        self.outs.push(Out::Disconnect(a, r.clone()));
                        self.sm.disconnected(&a, r.into());
                    }
                }
                Io::SetTimer(d) => {
                    self.timers.register((), self.now + d);
                }
                Io::Event(e) => self.outs.push(Out::Event(e)),
            }
        }
    }

    pub fn take(&mut self) -> Vec<Out> {
        std::mem::take(&mut self.outs)
    }

    fn tick(&mut self) {
        self.sm.tick(self.now);
    }

    /// Let time pass without the node noticing until its next activity.
    pub fn elapse_ms(&mut self, ms: u64) {
        self.now = self.now + LocalDuration::from_millis(ms as u128);
    }

    /// Jump to the next pending timer and fire it. Returns `false` if there is none.
    pub fn fire(&mut self) -> bool {
        let Some(d) = self.timers.next(self.now) else { return false };
        self.now = self.now + d;
        self.tick();
        let mut v = vec![];
        self.timers.wake(self.now, &mut v);
        if !v.is_empty() {
            self.wakes += 1;
            self.sm.timer_expired();
        }
        self.drain();
        true
    }

    /// Time until the next timer.
    pub fn next_timer(&self) -> Option<LocalDuration> {
        self.timers.next(self.now)
    }

    /// Let `secs` pass, firing every timer that becomes due on the way.
    pub fn run_for(&mut self, secs: u64) {
        let end = self.now + LocalDuration::from_secs(secs);
        while let Some(d) = self.timers.next(self.now) {
            if self.now + d > end {
                break;
            }
            self.fire();
        }
        if self.now < end {
            self.now = end;
            self.tick();
            self.drain();
        }
    }

    pub fn now_secs(&self) -> u64 {
        self.now.as_secs()
    }

    pub fn is_dialing(&self, a: &PeerId) -> bool {
        self.conns.get(a).map_or(false, |c| c.state == State::Dialing)
    }
    pub fn is_open(&self, a: &PeerId) -> bool {
        self.conns.get(a).map_or(false, |c| c.state == State::Open)
    }

    pub fn dial_ok(&mut self, a: PeerId) {
        self.tick();
        self.conns.get_mut(&a).expect("engine: dialing").state = State::Open;
        self.sm.connected(a, &local(), Link::Outbound);
        self.drain();
    }
    pub fn inbound(&mut self, a: PeerId) {
        self.tick();
        self.conns.insert(a, Conn { link: Link::Inbound, state: State::Open, inbox: VecDeque::new() });
        self.sm.connected(a, &local(), Link::Inbound);
        self.drain();
    }
    /// The connection (or connection attempt) fails or is closed by the remote.
    pub fn lose(&mut self, a: PeerId) {
        self.tick();
        if let Some(c) = self.conns.remove(&a) {
            self.ends.push((a, c.state == State::Open, false));
            let e = std::io::Error::from(std::io::ErrorKind::ConnectionReset);
            self.sm.disconnected(&a, Disconnect::ConnectionError(Arc::new(e)));
        }
        self.drain();
    }
    /// Several connections break in the same poll round.
    pub fn lose_all(&mut self, addrs: &[PeerId]) {
        self.tick();
        for a in addrs {
            if let Some(c) = self.conns.remove(a) {
                self.ends.push((*a, c.state == State::Open, false));
                let e = std::io::Error::from(std::io::ErrorKind::ConnectionReset);
                self.sm.disconnected(a, Disconnect::ConnectionError(Arc::new(e)));
            }
        }
        self.drain();
    }

    /// A message arrives.
    pub fn recv(&mut self, from: PeerId, msg: NetworkMessage) {
        self.recv_many(&[(from, msg)]);
    }
    /// Several messages arrive in the same poll round.
    pub fn recv_many(&mut self, msgs: &[(PeerId, NetworkMessage)]) {
        self.tick();
        for (from, msg) in msgs {
            if self.is_open(from) {
                self.sm.message_received(from, Cow::Owned(RawNetworkMessage { magic: NET.magic(), payload: msg.clone() }));
            }
        }
        self.drain();
    }
    pub fn command(&mut self, c: Command) {
        self.commands(vec![c]);
    }
    /// Several commands are handled in the same poll round.
    pub fn commands(&mut self, cs: Vec<Command>) {
        self.tick();
        for c in cs {
            self.sm.command(c);
        }
        self.drain();
    }

    /// Pop the next message the node sent to this peer.
    pub fn pop(&mut self, a: &PeerId) -> Option<NetworkMessage> {
        self.conns.get_mut(a).and_then(|c| c.inbox.pop_front())
    }
    pub fn clear_inbox(&mut self, a: &PeerId) {
        if let Some(c) = self.conns.get_mut(a) {
            c.inbox.clear();
        }
    }

    /// Complete the handshake on an open connection.
    pub fn handshake(&mut self, a: PeerId, height: Height, services: ServiceFlags) {
        self.handshake_with(a, version(a, height, services, self.now_secs()), false);
    }
    pub fn handshake_with(&mut self, a: PeerId, v: VersionMessage, wtxid: bool) {
        self.recv(a, NetworkMessage::Version(v));
        if wtxid {
            self.recv(a, NetworkMessage::WtxidRelay);
        }
        self.recv(a, NetworkMessage::Verack);
        self.clear_handshake(&a);
    }
    fn clear_handshake(&mut self, a: &PeerId) {
        if let Some(c) = self.conns.get_mut(a) {
            c.inbox.retain(|m| {
                !matches!(m, NetworkMessage::Version(_) | NetworkMessage::Verack | NetworkMessage::WtxidRelay | NetworkMessage::SendHeaders)
            });
        }
    }
    /// Ask the node to dial a peer, let the connection succeed and complete the handshake.
    pub fn outbound(&mut self, a: PeerId, height: Height, services: ServiceFlags) {
        if !self.conns.contains_key(&a) {
            self.command(Command::Connect(a));
        }
        self.dial_ok(a);
        self.handshake(a, height, services);
    }

    // ---- Observations ----

    /// The active chain as the node reports it.
    pub fn chain(&mut self) -> Vec<BlockHeader> {
        let cell: Arc<Mutex<Vec<BlockHeader>>> = Arc::new(Mutex::new(vec![]));
        let c = cell.clone();
        self.sm.command(Command::QueryTree(Arc::new(move |t| {
            let mut v = c.lock().unwrap();
            v.clear();
            for h in 0..=t.height() {
                match t.get_block_by_height(h) {
                    Some(b) => v.push(*b),
                    None => break,
                }
            }
        })));
        let v = cell.lock().unwrap().clone();
        v
    }
    pub fn height(&mut self) -> Height {
        self.tip().0
    }
    pub fn tip(&mut self) -> (Height, BlockHash) {
        let (s, r) = crossbeam_channel::bounded(1);
        self.sm.command(Command::GetTip(s));
        let (h, b, _) = r.recv().expect("tip");
        (h, b.block_hash())
    }
    /// All stored filter headers, genesis first.
    pub fn filter_chain(&self) -> Vec<(FilterHash, FilterHeader)> {
        self.filters.borrow().clone()
    }
    /// Addresses in the node's address store.
    pub fn known(&self) -> BTreeMap<net::IpAddr, Address> {
        self.book.borrow().clone()
    }
    pub fn negotiated(&mut self) -> Vec<PeerId> {
        let (s, r) = crossbeam_channel::bounded(1);
        self.sm.command(Command::GetPeers(ServiceFlags::NONE, s));
        let mut v: Vec<PeerId> = r.recv().expect("peers").into_iter().map(|p| p.addr).collect();
        v.sort();
        v
    }
}

pub fn version(a: PeerId, height: Height, services: ServiceFlags, now: u64) -> VersionMessage {
    VersionMessage {
        version: 70016,
        services,
        timestamp: now as i64,
        receiver: Address::new(&local(), ServiceFlags::NONE),
        sender: Address::new(&a, services),
        // Distinct per peer.
        nonce: 7_000_000 + a.ip().to_string().bytes().fold(a.port() as u64, |h, b| h.wrapping_mul(131).wrapping_add(b as u64)),
        user_agent: "/sim:1.0/".into(),
        start_height: height as i32,
        relay: true,
    }
}

// ---- Blocks ---------------------------------------------------------------------------------------------------------

/// Script number `i`.
pub fn script(i: u8) -> Script {
    Script::from(vec![0x51, 0x01, i, 0x87])
}

/// A chain of blocks on top of some ancestor. Each block pays to the scripts listed for it.
#[derive(Clone)]
pub struct Chain {
    /// Genesis first.
    pub blocks: Vec<Block>,
    pub filters: Vec<BlockFilter>,
    pub filter_headers: Vec<(FilterHash, FilterHeader)>,
}

impl Chain {
    pub fn genesis() -> Self {
        let b = NET.genesis_block();
        let f = BlockFilter::genesis(NET);
        let fh = FilterHeader::genesis(NET);
        let hash = FilterHash::genesis(NET);
        Self { blocks: vec![b], filters: vec![f], filter_headers: vec![(hash, fh)] }
    }
    pub fn tip(&self) -> &Block {
        self.blocks.last().unwrap()
    }
    pub fn height(&self) -> Height {
        self.blocks.len() as Height - 1
    }
    pub fn headers(&self) -> Vec<BlockHeader> {
        self.blocks.iter().map(|b| b.header).collect()
    }
    pub fn hash(&self, h: Height) -> BlockHash {
        self.blocks[h as usize].block_hash()
    }
    /// Chain cut at the given height.
    pub fn fork(&self, h: Height) -> Self {
        Self {
            blocks: self.blocks[..=h as usize].to_vec(),
            filters: self.filters[..=h as usize].to_vec(),
            filter_headers: self.filter_headers[..=h as usize].to_vec(),
        }
    }
    /// Chain cut at the given height, for chains without filters.
    pub fn fork_headers(&self, h: Height) -> Self {
        Self { blocks: self.blocks[..=h as usize].to_vec(), filters: vec![], filter_headers: self.filter_headers[..=h as usize].to_vec() }
    }
    /// Extend with a block paying to the given scripts and containing the given transactions. `salt` tells siblings apart.
    pub fn push(&mut self, time: u32, salt: u8, scripts: &[Script], txs: &[Transaction]) {
        let height = self.blocks.len() as u32;
        let b = mine_block(self.tip().block_hash(), time, height, salt, scripts, txs);
        let f = BlockFilter::new_script_filter(&b, |_| Ok::<Script, nakamoto_common::bitcoin::util::bip158::Error>(Script::new())).expect("filter");
        let prev = self.filter_headers.last().unwrap().1;
        let fh = f.filter_header(&prev);
        let hash = FilterHash::hash(&f.content);
        self.blocks.push(b);
        self.filters.push(f);
        self.filter_headers.push((hash, fh));
    }
    /// Extend with `n` blocks.
    pub fn grow(&mut self, n: usize, salt: u8) {
        for _ in 0..n {
            let t = block_time(self.blocks.len());
            self.push(t, salt, &[script(200)], &[]);
        }
    }
}
use nakamoto_common::bitcoin_hashes::Hash as _;

/// Block times: a second apart, ending recently.
pub fn block_time(height: usize) -> u32 {
    (NOW as u32) - 40 * 60 + height as u32
}

pub fn messages(outs: &[Out], to: PeerId) -> Vec<&NetworkMessage> {
    outs.iter()
        .filter_map(|o| match o {
            Out::Msg(a, m) if *a == to => Some(m),
            _ => None,
        })
        .collect()
}
pub fn disconnected(outs: &[Out], a: PeerId) -> Option<&DisconnectReason> {
    outs.iter().find_map(|o| match o {
        Out::Disconnect(b, r) if *b == a => Some(r),
        _ => None,
    })
}
pub fn events(outs: &[Out]) -> impl Iterator<Item = &Event> {
    outs.iter().filter_map(|o| match o {
        Out::Event(e) => Some(e),
        _ => None,
    })
}
pub fn describe(o: &Out) -> String {
    match o {
        Out::Msg(a, m) => {
            let d = format!("{m:?}");
            format!("node -> {}: {} {}", a.ip(), m.cmd(), &d[..d.len().min(120)])
        }
        Out::Connect(a) => format!("node dials {a}"),
        Out::DialFailed(a) => format!("dialling {a} fails at once"),
        Out::Disconnect(a, r) => format!("node disconnects {}: {r}", a.ip()),
        Out::Event(e) => format!("event: {e}"),
    }
}

/// Transaction number `i`, paying to script `to`. With `witness`, its transaction and witness identifiers differ.
pub fn transaction(i: u8, to: u8, witness: bool) -> Transaction {
    use nakamoto_common::bitcoin::blockdata::transaction::{OutPoint, TxIn, TxOut};
    use nakamoto_common::bitcoin::{PackedLockTime, Sequence, Txid, Witness};
    Transaction {
        version: 1,
        lock_time: PackedLockTime::ZERO,
        input: vec![TxIn {
            previous_output: OutPoint { txid: Txid::hash(&[i, 0x77]), vout: i as u32 },
            script_sig: Script::new(),
            sequence: Sequence::MAX,
            witness: if witness { Witness::from_vec(vec![vec![i, 1, 2]]) } else { Witness::new() },
        }],
        output: vec![TxOut { value: 10_000 + i as u64, script_pubkey: script(to) }],
    }
}
