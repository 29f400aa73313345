//! N01: byte streams.
use crate::engine::{space, Ch, Res};
use crate::sim::{local, millis, peer, version, BookStore, NET, NOW};
use crate::{Check, Tier};
use nakamoto_chain::block::cache::BlockCache;
use nakamoto_chain::block::store::Memory;
use nakamoto_chain::filter::cache::{FilterCache, StoredHeader};
use nakamoto_client::{Config, Service};
use nakamoto_common::bitcoin::blockdata::block::BlockHeader;
use nakamoto_common::bitcoin::consensus::{deserialize, deserialize_partial, serialize, Params};
use nakamoto_common::bitcoin::network::address::Address;
use nakamoto_common::bitcoin::network::constants::ServiceFlags;
use nakamoto_common::bitcoin::network::message::{CommandString, NetworkMessage as M, RawNetworkMessage};
use nakamoto_common::bitcoin::network::message_blockdata::{GetHeadersMessage, Inventory};
use nakamoto_common::bitcoin::network::message_filter::GetCFilters;
use nakamoto_common::bitcoin::BlockHash;
use nakamoto_common::bitcoin_hashes::{sha256d, Hash as _};
use nakamoto_common::block::store::Genesis as _;
use nakamoto_common::block::time::{AdjustedTime, LocalTime, RefClock};
use nakamoto_common::nonempty::NonEmpty;
use nakamoto_net::{Disconnect, Io, Link, StateMachine as _};
use nakamoto_net_poll::socket::Socket;
use nakamoto_p2p::fsm::{Hooks, PeerId};
use std::borrow::Cow;
use std::io;
use std::sync::{Arc, Mutex};

type Log = Arc<Mutex<Vec<(PeerId, M)>>>;
type Svc = Service<BlockCache<Memory<BlockHeader>>, FilterCache<Memory<StoredHeader>>, BookStore, RefClock<AdjustedTime<PeerId>>>;

struct Node {
    svc: Svc,
    log: Log,
    /// Connections the node closed.
    closed: Vec<PeerId>,
    written: Vec<(PeerId, Vec<u8>)>,
}

fn node(deliver: bool) -> Node {
    let log: Log = Default::default();
    let l = log.clone();
    let hooks = Hooks {
        // Messages are recorded. Unless asked for, the protocol does not get to see them, so that it does not react.
        on_message: Arc::new(move |a, m, _| {
            l.lock().unwrap().push((a, m.clone()));
            if deliver {
                Ok(())
            } else {
                Err("recorded")
            }
        }),
        ..Hooks::default()
    };
    let now: LocalTime = millis(NOW * 1000);
    let clock = RefClock::from(AdjustedTime::new(now));
    let tree = BlockCache::new(Memory::new(NonEmpty::new(NET.genesis())), Params::new(NET.into()), &[]).expect("tree");
    let filters = FilterCache::load(Memory::new(NonEmpty::new(StoredHeader::genesis(NET)))).expect("filters");
    let cfg = Config { network: NET, hooks, ..Config::default() };
    let mut svc = Service::new(tree, filters, BookStore::default(), clock, fastrand::Rng::with_seed(1), cfg);
    svc.initialize(now);
    let mut n = Node { svc, log, closed: vec![], written: vec![] };
    n.drain();
    n
}

impl Node {
    fn drain(&mut self) {
        while let Some(o) = self.svc.next() {
            match o {
                Io::Disconnect(a, r) => {
                    self.closed.push(a);
                    self.svc.disconnected(&a, r.into());
                }
                Io::Write(a, b) => self.written.push((a, b)),
                _ => {}
            }
        }
    }
    fn open(&mut self, a: PeerId) {
        self.svc.connected(a, &local(), Link::Inbound);
        self.drain();
    }
    fn close(&mut self, a: PeerId) {
        let e = io::Error::from(io::ErrorKind::ConnectionReset);
        self.svc.disconnected(&a, Disconnect::ConnectionError(Arc::new(e)));
        self.drain();
    }
    fn read(&mut self, a: PeerId, bytes: &[u8]) {
        if !bytes.is_empty() && !self.closed.contains(&a) {
            self.svc.message_received(&a, Cow::Borrowed(bytes));
            self.drain();
        }
    }
    fn take(&mut self) -> Vec<(PeerId, M)> {
        std::mem::take(&mut *self.log.lock().unwrap())
    }
}

fn raw(m: &M) -> Vec<u8> {
    if let M::Unknown { command, payload } = m {
        return frame(NET.magic(), command.as_ref(), payload, None, None);
    }
    serialize(&RawNetworkMessage { magic: NET.magic(), payload: m.clone() })
}

fn kinds() -> Vec<M> {
    vec![
        M::Verack,
        M::Ping(0x0102_0304_0506_0708),
        M::Inv(vec![Inventory::Block(BlockHash::hash(&[1])), Inventory::Transaction(nakamoto_common::bitcoin::Txid::hash(&[2]))]),
        M::Headers(vec![NET.genesis()]),
        M::Unknown { command: CommandString::try_from_static("mystery").unwrap(), payload: vec![0xf9, 0xbe, 0xb4, 0xd9, 7] },
        M::Addr(vec![(7, Address::new(&peer(3), ServiceFlags::NETWORK))]),
    ]
}

fn more_kinds() -> Vec<M> {
    let mut v = kinds();
    v.push(M::Version(version(peer(0), 5, ServiceFlags::NETWORK, NOW)));
    v.push(M::GetHeaders(GetHeadersMessage::new(vec![BlockHash::hash(&[3])], BlockHash::all_zeros())));
    v.push(M::GetCFilters(GetCFilters { filter_type: 0, start_height: 5, stop_hash: BlockHash::hash(&[4]) }));
    v.push(M::Block(NET.genesis_block()));
    v.push(M::Tx(NET.genesis_block().txdata[0].clone()));
    v.push(M::GetAddr);
    v.push(M::Pong(9));
    v.push(M::NotFound(vec![Inventory::Block(BlockHash::hash(&[5]))]));
    v.push(M::FeeFilter(-1));
    v.push(M::WtxidRelay);
    v.push(M::SendHeaders);
    v
}

fn expect(n: &mut Node, want: &[(PeerId, &M)], what: impl Fn() -> String) -> Res {
    let got = n.take();
    let same = got.len() == want.len() && got.iter().zip(want).all(|((a, m), (b, k))| a == b && m == *k);
    if !same {
        let f = |v: Vec<&M>| v.iter().map(|m| m.cmd().to_string()).collect::<Vec<_>>().join(",");
        return Err(format!(
            "{}: decoded [{}], sent [{}]",
            what(),
            f(got.iter().map(|x| &x.1).collect()),
            f(want.iter().map(|x| x.1).collect())
        ));
    }
    if !n.closed.is_empty() {
        return Err(format!("{}: peer disconnected", what()));
    }
    Ok(())
}

/// Every division of a stream of messages into reads: all pairs of cuts and all uniform read sizes.
fn splits(len: usize, two: bool, ch: &mut Ch) -> Res {
    let ks = kinds();
    let msgs: Vec<M> = (0..len).map(|_| ch.of(&ks).clone()).collect();
    let stream: Vec<u8> = msgs.iter().flat_map(raw).collect();
    let a = peer(0);
    let want: Vec<(PeerId, &M)> = msgs.iter().map(|m| (a, m)).collect();
    let n = stream.len();
    ch.note(|| format!("stream of {n} bytes: {}", msgs.iter().map(|m| m.cmd().to_string()).collect::<Vec<_>>().join(", ")));
    let mut nd = node(false);
    nd.open(a);
    // Which messages must have been delivered after the first i bytes.
    let mut ends = vec![];
    let mut o = 0;
    for m in &msgs {
        o += raw(m).len();
        ends.push(o);
    }
    for i in 0..=n {
        nd.read(a, &stream[..i]);
        let due = ends.iter().filter(|e| **e <= i).count();
        let got = nd.log.lock().unwrap().len();
        if got != due {
            return Err(format!("{got} messages delivered after {i} of {n} bytes, {due} are complete"));
        }
        nd.read(a, &stream[i..]);
        ch.step();
        expect(&mut nd, &want, || format!("stream cut at {i}"))?;
    }
    if two {
        for i in 0..=n {
            for j in i..=n {
                nd.read(a, &stream[..i]);
                nd.read(a, &stream[i..j]);
                nd.read(a, &stream[j..]);
                ch.step();
                expect(&mut nd, &want, || format!("stream cut at {i} and {j}"))?;
            }
        }
    }
    for k in 1..=n {
        for c in stream.chunks(k) {
            nd.read(a, c);
        }
        ch.step();
        expect(&mut nd, &want, || format!("stream in reads of {k}"))?;
    }
    ch.nontrivial();
    ch.state(&stream);
    Ok(())
}

/// Two peers: their reads are interleaved.
fn interleaved(ch: &mut Ch) -> Res {
    let ks = kinds();
    let (x, y) = (ch.of(&ks).clone(), ch.of(&ks).clone());
    let (a, b) = (peer(0), peer(1));
    let (sx, sy) = (raw(&x), raw(&y));
    ch.note(|| format!("{} from one peer, {} from another", x.cmd(), y.cmd()));
    let mut nd = node(false);
    nd.open(a);
    nd.open(b);
    for i in 0..=sx.len() {
        for j in 0..=sy.len() {
            let parts = [(a, &sx[..i]), (a, &sx[i..]), (b, &sy[..j]), (b, &sy[j..])];
            for order in [[0, 1, 2, 3], [0, 2, 1, 3], [0, 2, 3, 1], [2, 0, 1, 3], [2, 0, 3, 1], [2, 3, 0, 1]] {
                for k in order {
                    nd.read(parts[k].0, parts[k].1);
                }
                ch.step();
                let got = nd.take();
                let of = |p: PeerId| got.iter().filter(|g| g.0 == p).map(|g| &g.1).collect::<Vec<_>>();
                if of(a) != vec![&x] || of(b) != vec![&y] || !nd.closed.is_empty() {
                    return Err(format!("reads {order:?} with cuts at {i} and {j}: messages of two peers mixed up"));
                }
            }
        }
    }
    ch.nontrivial();
    ch.state(&(sx, sy));
    Ok(())
}

/// A connection ends in the middle of a message; the next connection of the same peer starts afresh.
fn reconnect(ch: &mut Ch) -> Res {
    let ks = kinds();
    let (x, y) = (ch.of(&ks).clone(), ch.of(&ks).clone());
    let a = peer(0);
    let (sx, sy) = (raw(&x), raw(&y));
    let mut nd = node(false);
    for i in 0..sx.len() {
        nd.open(a);
        nd.read(a, &sx[..i]);
        nd.close(a);
        nd.open(a);
        nd.read(a, &sy);
        ch.step();
        expect(&mut nd, &[(a, &y)], || format!("{} after reconnecting {i} bytes into {}", y.cmd(), x.cmd()))?;
        nd.close(a);
    }
    ch.nontrivial();
    ch.state(&(sx, sy));
    Ok(())
}

fn frame(magic: u32, cmd: &str, payload: &[u8], len: Option<u32>, sum: Option<[u8; 4]>) -> Vec<u8> {
    let mut v = magic.to_le_bytes().to_vec();
    let mut c = [0u8; 12];
    c[..cmd.len()].copy_from_slice(cmd.as_bytes());
    v.extend(c);
    v.extend(len.unwrap_or(payload.len() as u32).to_le_bytes());
    let h = sha256d::Hash::hash(payload);
    v.extend(sum.unwrap_or([h[0], h[1], h[2], h[3]]));
    v.extend(payload);
    v
}

/// A frame that may not be decodable, between good messages.
fn malformed(ch: &mut Ch) -> Res {
    let ks = more_kinds();
    let k = ch.of(&ks).clone();
    let good = raw(&k);
    let payload = good[24..].to_vec();
    let cmd = k.cmd().to_string();
    let kind = ch.pick(5);
    // Frames to try and whether they are known to be bad for framing reasons.
    let mut frames: Vec<(String, Vec<u8>, bool)> = vec![];
    match kind {
        0 => {
            for n in 0..payload.len() {
                frames.push((format!("payload cut to {n} of {} bytes", payload.len()), frame(NET.magic(), &cmd, &payload[..n], None, None), false));
            }
        }
        1 => {
            for i in 0..4 {
                let h = sha256d::Hash::hash(&payload);
                let mut s = [h[0], h[1], h[2], h[3]];
                s[i] ^= 1;
                frames.push((format!("checksum byte {i} flipped"), frame(NET.magic(), &cmd, &payload, None, Some(s)), true));
            }
        }
        2 => {
            for b in 0..4 {
                frames.push((format!("magic byte {b} flipped"), frame(NET.magic() ^ (1 << (8 * b)), &cmd, &payload, None, None), true));
            }
        }
        3 => {
            for n in [1, 9] {
                let mut p = payload.clone();
                p.extend(vec![0u8; n]);
                frames.push((format!("{n} extra payload bytes"), frame(NET.magic(), &cmd, &p, None, None), false));
            }
        }
        _ => {
            for i in 0..payload.len().min(90) {
                let mut p = payload.clone();
                p[i] = 0xff;
                frames.push((format!("payload byte {i} set to 255"), frame(NET.magic(), &cmd, &p, None, None), false));
            }
        }
    }
    let (a, b) = (peer(0), peer(1));
    let (first, last) = (M::Ping(1), M::Ping(2));
    for (what, f, bad) in frames {
        ch.note(|| format!("{cmd}: {what}"));
        // Whether the frame has a meaning is up to the message format.
        let meaning = if bad { None } else { deserialize_partial::<RawNetworkMessage>(&f).ok().map(|x| x.0.payload) };
        for split in 0..3 {
            let mut nd = node(false);
            nd.open(a);
            nd.open(b);
            let mut s = raw(&first);
            s.extend(&f);
            let end = s.len();
            if split != 2 {
                s.extend(raw(&last));
            }
            // Another peer is in the middle of a message.
            let other = raw(&ks[5]);
            nd.read(b, &other[..30]);
            match split {
                0 => nd.read(a, &s),
                1 => s.chunks(1).for_each(|c| nd.read(a, c)),
                _ => {
                    nd.read(a, &s[..end - 1]);
                    nd.read(a, &s[end - 1..]);
                }
            }
            nd.read(b, &other[30..]);
            ch.step();
            let got = nd.take();
            let ga: Vec<&M> = got.iter().filter(|g| g.0 == a).map(|g| &g.1).collect();
            let gb: Vec<&M> = got.iter().filter(|g| g.0 == b).map(|g| &g.1).collect();
            if gb != vec![&ks[5]] || nd.closed.contains(&b) {
                return Err(format!("{cmd} with {what}: other peer disturbed"));
            }
            match &meaning {
                Some(m) => {
                    let mut want = vec![&first, m];
                    if split != 2 {
                        want.push(&last);
                    }
                    if ga != want || nd.closed.contains(&a) {
                        return Err(format!("{cmd} with {what}: decodable message not delivered, or stream stuck"));
                    }
                }
                None => {
                    ch.nontrivial();
                    if ga != vec![&first] {
                        return Err(format!("{cmd} with {what}: {} messages delivered", ga.len()));
                    }
                    if !nd.closed.contains(&a) {
                        return Err(format!("{cmd} with {what}: peer sent an undecodable message and is still connected"));
                    }
                    // Nothing of it is left for the next connection.
                    nd.closed.clear();
                    nd.open(a);
                    nd.read(a, &raw(&last));
                    expect(&mut nd, &[(a, &last)], || format!("{cmd} with {what}, then reconnected"))?;
                }
            }
        }
        ch.state(&f);
    }
    Ok(())
}

/// Messages of the maximum size are decoded; a peer announcing larger ones is not buffered without limit.
fn oversized(ch: &mut Ch) -> Res {
    const MAX: usize = 4_000_000;
    let a = peer(0);
    let b = peer(1);
    let declared = *ch.of(&[MAX - 1, MAX, 4_194_304 + MAX, u32::MAX as usize]);
    let read = *ch.of(&[500_000usize, 32 * 1024 * 8]);
    let prefix = ch.flip();
    let mut nd = node(false);
    nd.open(a);
    nd.open(b);
    ch.note(|| format!("message with declared length {declared}, in reads of {read}"));
    let cmd = "mystery";
    let payload = vec![7u8; declared.min(2 * MAX)];
    let mut s = if prefix { raw(&M::Ping(1)) } else { vec![] };
    let np = prefix as usize;
    s.extend(frame(NET.magic(), cmd, &payload, Some(declared as u32), None));
    for c in s.chunks(read) {
        nd.read(a, c);
        ch.step();
    }
    let got = nd.take();
    if declared <= MAX {
        match got.last() {
            Some((_, M::Unknown { payload: p, .. })) if *p == payload && got.len() == np + 1 && nd.closed.is_empty() => {}
            _ => return Err(format!("message of {declared} bytes was not decoded")),
        }
    } else {
        ch.nontrivial();
        if got.len() != np {
            return Err("oversized message was decoded".into());
        }
        if !nd.closed.contains(&a) {
            return Err(format!("{} bytes of one message buffered and the peer is still connected", s.len()));
        }
    }
    nd.read(b, &raw(&M::Ping(2)));
    if nd.take().len() != 1 || nd.closed.contains(&b) {
        return Err("other peer disturbed".into());
    }
    ch.state(&(declared, read));
    Ok(())
}

/// Bytes the node writes decode to what it meant to send, in order.
fn outgoing(ch: &mut Ch) -> Res {
    let a = peer(0);
    let mut nd = node(true);
    nd.open(a);
    nd.read(a, &raw(&M::Version(version(a, 0, ServiceFlags::NETWORK, NOW))));
    nd.read(a, &raw(&M::Verack));
    let mut want = vec!["version", "wtxidrelay", "verack", "sendheaders", "ping"];
    for i in 0..3 {
        match ch.pick(3) {
            0 => {
                nd.read(a, &raw(&M::Ping(i)));
                want.push("pong");
            }
            1 => {
                nd.read(a, &raw(&M::GetAddr));
                want.push("addr");
            }
            _ => {
                let mut s = raw(&M::Ping(i));
                s.extend(raw(&M::Ping(100 + i)));
                nd.read(a, &s);
                want.extend(["pong", "pong"]);
            }
        }
        ch.step();
    }
    let stream: Vec<u8> = nd.written.iter().flat_map(|(_, b)| b.clone()).collect();
    let mut rest = &stream[..];
    let mut got = vec![];
    while !rest.is_empty() {
        let (m, n) = deserialize_partial::<RawNetworkMessage>(rest).map_err(|e| format!("node wrote undecodable bytes: {e}"))?;
        if m.magic != NET.magic() {
            return Err("node wrote a message with the wrong magic".into());
        }
        got.push(m.cmd().to_string());
        rest = &rest[n..];
    }
    if got != want {
        return Err(format!("node wrote {got:?} instead of {want:?}"));
    }
    for (_, b) in &nd.written {
        deserialize::<RawNetworkMessage>(b).map_err(|e| format!("write is not one message: {e}"))?;
    }
    ch.nontrivial();
    ch.state(&got.join(","));
    Ok(())
}

#[derive(Default)]
struct Pipe {
    /// What the next writes do: bytes accepted, or an error.
    script: Vec<Result<usize, io::ErrorKind>>,
    out: Vec<u8>,
}
#[derive(Clone, Default)]
struct SharedPipe(Arc<Mutex<Pipe>>);
impl io::Read for SharedPipe {
    fn read(&mut self, _: &mut [u8]) -> io::Result<usize> {
        Ok(0)
    }
}
impl io::Write for SharedPipe {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let mut p = self.0.lock().unwrap();
        let r = if p.script.is_empty() { Ok(usize::MAX) } else { p.script.remove(0) };
        match r {
            Ok(n) => {
                let n = n.min(b.len());
                p.out.extend(&b[..n]);
                Ok(n)
            }
            Err(k) => Err(io::Error::from(k)),
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// Every pattern of partial writes, refusals and further messages.
fn writes(depth: usize, ch: &mut Ch) -> Res {
    let pipe = SharedPipe::default();
    let mut sock = Socket::from(pipe.clone(), peer(0), Link::Outbound);
    let mut sent: Vec<u8> = vec![];
    let mut next = 0u8;
    for _ in 0..depth {
        match ch.pick(3) {
            0 => {
                let n = *ch.of(&[1usize, 3]);
                let bytes: Vec<u8> = (0..n).map(|i| next.wrapping_add(i as u8)).collect();
                next = next.wrapping_add(n as u8);
                ch.note(|| format!("push {bytes:?}"));
                sent.extend(&bytes);
                sock.push(&bytes);
            }
            k => {
                // A flush during which the transport takes up to two partial writes and then maybe refuses.
                let script: Vec<Result<usize, io::ErrorKind>> = if k == 1 {
                    vec![]
                } else {
                    let mut v: Vec<Result<usize, io::ErrorKind>> = vec![];
                    for _ in 0..ch.pick(3) {
                        v.push(Ok(*ch.of(&[1usize, 2])));
                    }
                    v.push(*ch.of(&[Err(io::ErrorKind::WouldBlock), Ok(0)]));
                    v
                };
                ch.note(|| format!("flush, transport: {script:?}"));
                let before = pipe.0.lock().unwrap().out.len();
                let full = script.is_empty();
                // Would the script run into the refusal?
                let room: usize = script.iter().map(|r| r.unwrap_or(0)).sum();
                let pending = sent.len() - before;
                pipe.0.lock().unwrap().script = script;
                let r = sock.flush();
                pipe.0.lock().unwrap().script.clear();
                let out = pipe.0.lock().unwrap().out.clone();
                if !sent.starts_with(&out) {
                    return Err(format!("bytes {out:?} written, {sent:?} sent"));
                }
                let done = out.len() == sent.len();
                if r.is_ok() != done {
                    return Err(format!("flush reported {r:?} with {} of {} bytes written", out.len(), sent.len()));
                }
                if full && !done {
                    return Err("bytes left although the transport takes everything".into());
                }
                if !full && out.len() != before + room.min(pending) {
                    return Err(format!("{} bytes written, transport would have taken {room} of {pending}", out.len() - before));
                }
                if let Err(e) = &r {
                    if ![io::ErrorKind::WouldBlock, io::ErrorKind::WriteZero].contains(&e.kind()) {
                        return Err(format!("flush failed with {e}"));
                    }
                    ch.nontrivial();
                }
            }
        }
        ch.step();
        let out = pipe.0.lock().unwrap().out.len();
        ch.state(&(sent.len(), out));
    }
    sock.flush().map_err(|e| format!("final flush failed: {e}"))?;
    if pipe.0.lock().unwrap().out != sent {
        return Err("bytes lost, repeated or reordered".into());
    }
    Ok(())
}

pub fn check(tier: Tier) -> Check {
    let d = tier.of(5, 6);
    let mut spaces = vec![
        space("split-2", "all streams of 2 messages, all pairs of cuts, all uniform read sizes", |ch: &mut Ch| splits(2, true, ch)),
        space("split-3", "all streams of 3 messages, all cuts, all uniform read sizes", |ch: &mut Ch| splits(3, false, ch)),
        space("interleaved", "two peers, all cuts of one message each, all orders of the reads", interleaved),
        space("reconnect", "connection lost after every number of bytes of a message", reconnect),
        space("malformed", "truncated, corrupted, oversized and foreign frames between good messages, in several splits", malformed),
        space("oversized", "messages at and beyond the maximum size, in several read sizes", oversized),
        space("outgoing", "all sequences of 3 requests; the bytes written are decoded again", outgoing),
        space("writes", format!("all sequences of {d} pushes and flushes with all patterns of up to two partial writes and a refusal"), move |ch| writes(d, ch)),
    ];
    if tier == Tier::Thorough {
        spaces.push(space("split-3-pairs", "all streams of 3 messages, all pairs of cuts", |ch: &mut Ch| splits(3, true, ch)));
    }
    Check {
        spaces,
        rule: "every execution of every space satisfied the monitor".into(),
        assumptions: vec![
            "message payload formats are those of the bitcoin crate, which decides whether a complete frame has a meaning".into(),
            "message kinds, stream lengths and cuts bounded as stated per space".into(),
        ],
    }
}
