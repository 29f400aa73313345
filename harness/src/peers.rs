//! P01: handshake. P02: connection limits and maintenance. P03: pings. P04: address book.
use crate::engine::{space, Ch, Res};
use crate::sim::*;
use crate::{Check, Tier};
use nakamoto_common::bitcoin::network::address::Address;
use nakamoto_common::bitcoin::network::constants::ServiceFlags;
use nakamoto_common::bitcoin::network::message::NetworkMessage as M;
use nakamoto_common::bitcoin::network::message_blockdata::GetHeadersMessage;
use nakamoto_common::bitcoin::{BlockHash, BlockHeader};
use nakamoto_common::bitcoin_hashes::Hash as _;
use nakamoto_common::p2p::peer::Source;
use nakamoto_net::Link;
use nakamoto_p2p::fsm::{Command, Event, Hooks, Limits, PeerId};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

pub fn note_outs(ch: &mut Ch, outs: &[Out]) {
    if ch.is_recording() {
        for o in outs {
            let d = describe(o);
            ch.note(|| format!("    {d}"));
        }
    }
}

// ---- P01 -------------------------------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Hs {
    AwaitVersion,
    AwaitVerack,
    Done,
    Closed,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Setup {
    Inbound,
    /// Dialled from the address book.
    Outbound,
    /// Dialled because the user asked for it (trusted).
    Requested,
    /// Dialled because it is configured.
    Configured,
    /// As above, with a hook refusing every peer.
    Refused,
    RefusedInbound,
    RefusedRequested,
}

impl Setup {
    fn refused(self) -> bool {
        matches!(self, Setup::Refused | Setup::RefusedInbound | Setup::RefusedRequested)
    }
}

const HEIGHT_AHEAD: u64 = 2017;

/// Is this a message by which the node asks the peer for something or offers it something?
fn is_use(m: &M) -> bool {
    matches!(
        m,
        M::GetHeaders(_) | M::GetCFHeaders(_) | M::GetCFilters(_) | M::GetData(_) | M::GetAddr | M::Inv(_) | M::Ping(_) | M::Tx(_)
    )
}

fn handshake(setup: Setup, headers: &[BlockHeader], depth: usize, ch: &mut Ch) -> Res {
    let a = peer(0);
    let ours = headers.len() as u64 - 1;
    let mut hooks = Hooks::default();
    if setup.refused() {
        hooks.on_version = Arc::new(|_, _| Err("refused"));
    }
    let book = match setup {
        Setup::Outbound | Setup::Refused => BookStore::of(&[(a, ServiceFlags::NETWORK | CF)], Source::Dns),
        _ => BookStore::default(),
    };
    let connect = if setup == Setup::Configured { vec![a] } else { vec![] };
    let mut s = Sim::new(Opts { headers: headers.to_vec(), book, hooks, connect, ..Opts::default() });
    s.init();
    match setup {
        Setup::Inbound | Setup::RefusedInbound => s.inbound(a),
        Setup::Requested | Setup::RefusedRequested => {
            s.command(Command::Connect(a));
            s.dial_ok(a);
        }
        Setup::Outbound | Setup::Refused | Setup::Configured => {
            if !s.is_dialing(&a) {
                return Err("an address from the address book or configuration was not dialled at start".into());
            }
            s.dial_ok(a);
        }
    }
    let outbound = !matches!(setup, Setup::Inbound | Setup::RefusedInbound);
    let mut st = Hs::AwaitVersion;
    let mut since = s.now;
    let (mut sent_version, mut sent_verack, mut negotiated, mut disconnected) = (0, 0, 0, 0);
    let mut wtxid = false;
    let mut accepted: Option<(u64, ServiceFlags, bool, u32)> = None;

    for d in 0..depth + 1 {
        let before = st;
        // Expected reaction, if any, is computed from the reference state machine.
        let mut must_close = false;
        let mut may_close = false;
        let mut must_negotiate = false;
        if d > 0 {
            let n = if ours > 2000 { 5 } else { 10 };
            let act = ch.pick(n);
            let full = ServiceFlags::NETWORK | ServiceFlags::WITNESS;
            // (protocol version, services, height)
            let v = match act {
                0 => Some((70016, full, ours)),
                1 => Some((70012, full, ours)),
                2 if ours > 2000 => Some((70016, full, ours - 2016)),
                3 if ours > 2000 => Some((70016, full, ours - HEIGHT_AHEAD)),
                2 => Some((70011, full, ours)),
                3 => Some((70016, ServiceFlags::WITNESS, ours)),
                _ => None,
            };
            if let Some((ver, services, height)) = v {
                let mut m = version(a, height, services, s.now_secs());
                m.version = ver;
                m.relay = act != 1;
                if act == 3 {
                    m.user_agent = nakamoto_p2p::fsm::USER_AGENT.into();
                }
                ch.note(|| format!("peer sends version {ver}, services {services}, height {height}"));
                if st == Hs::AwaitVersion {
                    let trusted = setup == Setup::Requested;
                    let bad = ver < 70012
                        || (outbound && !services.has(ServiceFlags::NETWORK) && !trusted)
                        || (outbound && ours.saturating_sub(height) > 2016 && !trusted)
                        || setup.refused();
                    if bad {
                        must_close = true;
                        ch.nontrivial();
                    } else {
                        st = Hs::AwaitVerack;
                        since = s.now;
                        accepted = Some((height, services, m.relay, ver.min(70016)));
                    }
                } else if st != Hs::Closed {
                    may_close = true;
                    ch.nontrivial();
                }
                s.recv(a, M::Version(m));
            } else if act == 4 {
                ch.note(|| "peer sends verack".into());
                match st {
                    Hs::AwaitVerack => {
                        must_negotiate = true;
                        st = Hs::Done;
                    }
                    Hs::Closed => {}
                    _ => may_close = true,
                }
                s.recv(a, M::Verack);
            } else if act == 5 {
                ch.note(|| "peer sends wtxidrelay".into());
                match st {
                    Hs::AwaitVerack => wtxid = true,
                    Hs::Closed => {}
                    _ => may_close = true,
                }
                s.recv(a, M::WtxidRelay);
            } else if act == 6 {
                ch.note(|| "peer sends ping".into());
                s.recv(a, M::Ping(5));
            } else if act == 7 {
                ch.note(|| "peer sends sendheaders, getheaders, addr".into());
                s.recv(a, M::SendHeaders);
                s.recv(
                    a,
                    M::GetHeaders(GetHeadersMessage { version: 70016, locator_hashes: vec![], stop_hash: BlockHash::all_zeros() }),
                );
                s.recv(a, M::Addr(vec![(NOW as u32, Address::new(&peer(9), full))]));
            } else {
                let secs = if act == 8 { 11 } else { 2 };
                ch.note(|| format!("{secs}s pass"));
                let waited = |s: &Sim| s.now.as_secs() - since.as_secs();
                // Check just before the limit as well, so that an early timeout is noticed.
                for _ in 0..secs {
                    s.run_for(1);
                    answer_pings(&mut s);
                    let closed = !s.is_open(&a);
                    match st {
                        Hs::AwaitVersion | Hs::AwaitVerack => {
                            if closed && waited(&s) < 12 {
                                return Err(format!("handshake dropped after {}s", waited(&s)));
                            }
                            if !closed && waited(&s) > 13 {
                                return Err(format!("handshake still open after {}s", waited(&s)));
                            }
                            if closed {
                                st = Hs::Closed;
                                ch.nontrivial();
                            }
                        }
                        Hs::Done | Hs::Closed => {}
                    }
                    if st == Hs::Closed {
                        // What comes next is another connection.
                        break;
                    }
                }
            }
            ch.step();
        }
        let outs = s.take();
        note_outs(ch, &outs);
        for o in &outs {
            match o {
                Out::Msg(b, m) if *b == a => match m {
                    M::Version(_) => sent_version += 1,
                    M::Verack => sent_verack += 1,
                    M::Pong(_) | M::Addr(_) if before != Hs::Done && st != Hs::Done && matches!(m, M::Pong(_)) => {
                        return Err("pong sent to a peer that is not negotiated".into());
                    }
                    m if is_use(m) && st != Hs::Done && before != Hs::Done => {
                        return Err(format!("`{}` sent to a peer that is not negotiated", m.cmd()));
                    }
                    _ => {}
                },
                Out::Event(Event::PeerNegotiated { addr, link, services, height, version, relay, wtxid_relay, .. }) if *addr == a => {
                    negotiated += 1;
                    if !must_negotiate {
                        return Err(format!("peer reported as negotiated in handshake state {before:?}"));
                    }
                    let (h, sv, r, v) = accepted.unwrap();
                    if (*height, *services, *relay, *version, *wtxid_relay) != (h, sv, r, v, wtxid) || link.is_outbound() != outbound {
                        return Err("negotiated peer reported with attributes other than it sent".into());
                    }
                }
                Out::Event(Event::PeerDisconnected { addr, .. }) if *addr == a => disconnected += 1,
                Out::Disconnect(b, _) if *b == a => {}
                _ => {}
            }
        }
        if let Some(f) = s.faults.first() {
            return Err(f.clone());
        }
        let open = s.is_open(&a);
        if must_close && open {
            return Err("unacceptable peer was not disconnected".into());
        }
        if must_negotiate && negotiated != 1 {
            return Err(format!("handshake completed but {negotiated} negotiations reported"));
        }
        if negotiated > 1 {
            return Err("connection negotiated twice".into());
        }
        if !open && st != Hs::Closed {
            if !(must_close || may_close) {
                return Err(format!("well-behaved peer disconnected in handshake state {st:?}"));
            }
            st = Hs::Closed;
        }
        if st == Hs::Closed && before != Hs::Closed && disconnected != 1 {
            return Err(format!("{disconnected} disconnections reported for one connection"));
        }
        if sent_version > 1 || sent_verack > 1 {
            return Err(format!("{sent_version} version and {sent_verack} verack messages sent on one connection"));
        }
        let (ev, ea) = match st {
            Hs::AwaitVersion => (outbound as usize, 0),
            Hs::AwaitVerack | Hs::Done => (1, 1),
            Hs::Closed => (sent_version, sent_verack),
        };
        if (sent_version, sent_verack) != (ev, ea) {
            return Err(format!("in state {st:?}: {sent_version} version and {sent_verack} verack messages sent, {ev} and {ea} expected"));
        }
        let peers = s.negotiated();
        if peers.contains(&a) != (st == Hs::Done) {
            return Err(format!("peer in handshake state {st:?} listed as negotiated: {}", peers.contains(&a)));
        }
        ch.state(&(setup as u8, st, sent_version, sent_verack, negotiated, since.as_secs(), s.now_secs(), wtxid));
        if st == Hs::Closed {
            break;
        }
    }
    Ok(())
}

/// Unusual values in the fields of `version`.
fn extreme_fields(ch: &mut Ch) -> Res {
    let a = peer(0);
    let inbound = ch.flip();
    let mut s = Sim::new(Opts::default());
    s.init();
    if inbound {
        s.inbound(a);
    } else {
        s.command(Command::Connect(a));
        s.dial_ok(a);
    }
    let mut v = version(a, 0, ServiceFlags::NETWORK, s.now_secs());
    v.timestamp = *ch.of(&[0, -1, 1, i64::MAX, i64::MIN, i64::MIN + NOW as i64, s.now_secs() as i64]);
    v.start_height = *ch.of(&[0, -1, 1, i32::MAX, i32::MIN]);
    v.version = *ch.of(&[70012, 70016, 70017, u32::MAX]);
    v.user_agent = ch.of(&["", "/x:1/", "\u{fffd}"]).to_string();
    v.nonce = *ch.of(&[0, u64::MAX]);
    ch.note(|| format!("peer sends {v:?}"));
    let want = v.version.min(70016);
    s.recv(a, M::Version(v));
    s.recv(a, M::Verack);
    ch.step();
    ch.nontrivial();
    let outs = s.take();
    note_outs(ch, &outs);
    let n = events(&outs).filter(|e| matches!(e, Event::PeerNegotiated { addr, version, .. } if *addr == a && *version == want)).count();
    if n != 1 || s.negotiated() != vec![a] {
        return Err(format!("{n} negotiations after a complete handshake"));
    }
    s.run_for(61);
    ch.state(&(inbound, s.conns.len()));
    Ok(())
}

/// The node's own outbound connection arrives at its own listening port.
fn self_connection(ch: &mut Ch) -> Res {
    let (x, y) = (peer(0), peer(1));
    let services = ServiceFlags::NETWORK | CF;
    let book = if ch.flip() { BookStore::of(&[(x, services)], Source::Dns) } else { BookStore::default() };
    let mut s = Sim::new(Opts { book, services, ..Opts::default() });
    s.init();
    if !s.is_dialing(&x) {
        s.command(Command::Connect(x));
    }
    if ch.flip() {
        s.dial_ok(x);
        s.inbound(y);
    } else {
        // Accepting first makes no difference to the node.
        s.inbound(y);
        s.dial_ok(x);
    }
    ch.nontrivial();
    // Relay messages between the two ends, in every order.
    for _ in 0..8 {
        let fx = s.conns.get(&x).map_or(false, |c| !c.inbox.is_empty());
        let fy = s.conns.get(&y).map_or(false, |c| !c.inbox.is_empty());
        let (from, to) = match (fx, fy) {
            (false, false) => break,
            (true, false) => (x, y),
            (false, true) => (y, x),
            (true, true) => {
                if ch.flip() {
                    (x, y)
                } else {
                    (y, x)
                }
            }
        };
        let m = s.pop(&from).unwrap();
        ch.note(|| format!("{} relayed from {} to {}", m.cmd(), from.ip(), to.ip()));
        s.recv(to, m);
        ch.step();
        let outs = s.take();
        note_outs(ch, &outs);
    }
    if s.is_open(&x) && s.is_open(&y) {
        return Err("connection of the node to itself was not detected".into());
    }
    let n = s.negotiated();
    if n.contains(&x) && n.contains(&y) {
        return Err("node negotiated with itself".into());
    }
    // An ordinary peer is still welcome.
    s.inbound(peer(3));
    s.handshake(peer(3), 0, ServiceFlags::NETWORK);
    if !s.negotiated().contains(&peer(3)) {
        return Err("ordinary peer refused after a self-connection".into());
    }
    ch.state(&(s.conns.len(), s.negotiated().len()));
    Ok(())
}

/// Two connections shaking hands at the same time do not disturb each other.
fn two_handshakes(la: Link, lb: Link, ch: &mut Ch) -> Res {
    let ps = [peer(0), peer(1)];
    let mut s = Sim::new(Opts::default());
    s.init();
    for (p, l) in ps.iter().zip([la, lb]) {
        if l == Link::Inbound {
            s.inbound(*p);
        } else {
            s.command(Command::Connect(*p));
            s.dial_ok(*p);
        }
    }
    s.take();
    let mut progress = [0usize; 2];
    let mut neg = [0usize; 2];
    for _ in 0..4 {
        let i = match (progress[0] < 2, progress[1] < 2) {
            (true, true) => ch.pick(2),
            (true, false) => 0,
            (false, true) => 1,
            _ => break,
        };
        let m = if progress[i] == 0 { M::Version(version(ps[i], 0, ServiceFlags::NETWORK, s.now_secs())) } else { M::Verack };
        progress[i] += 1;
        ch.note(|| format!("peer {i} sends {}", m.cmd()));
        s.recv(ps[i], m);
        ch.step();
        let outs = s.take();
        note_outs(ch, &outs);
        for e in events(&outs) {
            if let Event::PeerNegotiated { addr, .. } = e {
                neg[ps.iter().position(|p| p == addr).unwrap()] += 1;
            }
        }
        for j in 0..2 {
            if neg[j] != (progress[j] == 2) as usize {
                return Err(format!("peer {j} negotiated {} times after {} messages", neg[j], progress[j]));
            }
        }
    }
    ch.nontrivial();
    ch.state(&(neg, la.is_inbound(), lb.is_inbound()));
    Ok(())
}

// ---- P02 -------------------------------------------------------------------------------------------------------

const ALL: fn() -> ServiceFlags = || ServiceFlags::NETWORK | CF;

struct Book {
    addrs: Vec<(PeerId, ServiceFlags)>,
}

/// Automatic connections from an address book.
fn limits(target: usize, max_in: usize, book: &Book, depth: usize, ch: &mut Ch) -> Res {
    let opts = Opts {
        book: BookStore::of(&book.addrs, Source::Dns),
        limits: Limits { max_outbound_peers: target, max_inbound_peers: max_in, ..Limits::default() },
        seed: 1 + ch.pick(2) as u64,
        ..Opts::default()
    };
    let mut s = Sim::new(opts);
    s.init();
    let mut dialled: BTreeSet<PeerId> = BTreeSet::new();
    let mut tried = 0;
    let mut inbound_next = 20;
    let mut reconnects = 0;
    let mut asked = false;
    let mut idle_since_full = 0u64;
    let _ = &mut idle_since_full;
    // Peers known to lack the preferred services (they negotiated without).
    let mut lesser: BTreeSet<PeerId> = BTreeSet::new();
    for d in 0..depth + 1 {
        let mut keep = None;
        if d > 0 {
            // Actions: per existing connection, what can happen to it; plus time and inbound connections.
            let mut acts: Vec<(u8, PeerId)> = vec![];
            for (a, c) in &s.conns {
                match c.state {
                    State::Dialing => {
                        acts.push((0, *a));
                        acts.push((1, *a));
                    }
                    State::Open => {
                        acts.push((1, *a));
                    }
                }
            }
            let neg = s.negotiated();
            for (a, c) in &s.conns {
                if c.state == State::Open && !neg.contains(a) {
                    acts.push((2, *a));
                    if c.link.is_outbound() {
                        acts.push((3, *a));
                    }
                }
                if c.state == State::Open && c.link.is_outbound() && reconnects < 2 {
                    acts.push((6, *a));
                }
            }
            if !asked {
                acts.extend(s.conns.keys().map(|a| (8, *a)));
            }
            acts.push((4, peer(0)));
            if s.fail_dials == 0 {
                acts.push((7, peer(0)));
            }
            if inbound_next < 24 {
                acts.push((5, peer(inbound_next)));
            }
            let (act, a) = acts[ch.pick(acts.len())];
            match act {
                0 => {
                    ch.note(|| format!("connection to {} established", a.ip()));
                    s.dial_ok(a);
                }
                1 => {
                    ch.note(|| format!("connection to {} lost", a.ip()));
                    tried += 1;
                    s.lose(a);
                    ch.nontrivial();
                }
                2 => {
                    ch.note(|| format!("{} completes the handshake with all services", a.ip()));
                    s.handshake(a, 0, ALL());
                }
                3 => {
                    ch.note(|| format!("{} completes the handshake without the preferred services", a.ip()));
                    s.handshake(a, 0, ServiceFlags::NETWORK);
                    if s.is_open(&a) {
                        lesser.insert(a);
                    }
                    ch.nontrivial();
                }
                4 => {
                    // One minute passes; peers answer pings meanwhile.
                    ch.note(|| "a minute passes".into());
                    for _ in 0..6 {
                        s.run_for(10);
                        answer_pings(&mut s);
                    }
                }
                7 => {
                    ch.note(|| "the next dial will fail at once".into());
                    s.fail_dials = 1;
                }
                6 => {
                    s.fail_dials = 0;
                    ch.note(|| format!("user disconnects {} and connects again at once", a.ip()));
                    reconnects += 1;
                    s.commands(vec![Command::Disconnect(a), Command::Connect(a)]);
                    keep = lesser.contains(&a).then_some(a);
                    ch.nontrivial();
                }
                8 => {
                    ch.note(|| format!("user asks for a connection to {}, which is there", a.ip()));
                    s.command(Command::Connect(a));
                    asked = true;
                    ch.nontrivial();
                }
                _ => {
                    let before = s.conns.values().filter(|c| c.link.is_inbound()).count();
                    ch.note(|| format!("{} connects to us", a.ip()));
                    inbound_next += 1;
                    s.inbound(a);
                    if before < max_in && !s.is_open(&a) {
                        return Err(format!("inbound peer refused with {before} of {max_in} inbound peers connected"));
                    }
                    if before >= max_in {
                        ch.nontrivial();
                    }
                }
            }
            ch.step();
        }
        let outs = s.take();
        note_outs(ch, &outs);
        for o in &outs {
            if let Out::Connect(a) = o {
                dialled.insert(*a);
                lesser.remove(a);
            }
        }
        check_ends(&mut s, &outs)?;
        // A connection the user asked for is not limited.
        lesser.extend(keep);
        lesser.retain(|a| s.conns.contains_key(a));
        check_limits(&s, target, max_in, &lesser)?;
        ch.state(&(
            target,
            max_in,
            s.conns.iter().map(|(a, c)| (a.ip(), c.link.is_outbound(), c.state == State::Open)).collect::<Vec<_>>(),
            dialled.len(),
        ));
    }
    let _ = tried;
    // While below target, with addresses never tried, the node keeps dialling.
    let out = s.conns.values().filter(|c| c.link.is_outbound()).count();
    let fresh: Vec<_> = book.addrs.iter().filter(|(a, _)| !dialled.contains(a)).collect();
    if out < target && !fresh.is_empty() {
        for _ in 0..7 {
            s.run_for(10);
            answer_pings(&mut s);
        }
        let outs = s.take();
        note_outs(ch, &outs);
        if !outs.iter().any(|o| matches!(o, Out::Connect(_))) {
            let inb = s.conns.values().filter(|c| c.link.is_inbound()).count();
            return Err(format!("{out} of {target} outbound connections ({inb} inbound), unused addresses left, but nothing was dialled for over a minute"));
        }
        lesser.retain(|a| s.conns.contains_key(a));
        check_limits(&s, target, max_in, &lesser)?;
    }
    Ok(())
}

/// Each connection and attempt that ended was reported, once.
fn check_ends(s: &mut Sim, outs: &[Out]) -> Res {
    let mut ends = std::mem::take(&mut s.ends);
    for e in events(outs) {
        let (a, failed) = match e {
            Event::PeerDisconnected { addr, .. } => (*addr, false),
            Event::PeerConnectionFailed { addr, .. } => (*addr, true),
            _ => continue,
        };
        // An attempt that the node gives up may be reported either way.
        match ends.iter().position(|(b, est, own)| *b == a && (*own && !*est || failed != *est)) {
            Some(i) => {
                ends.remove(i);
            }
            None if failed => return Err(format!("reported a failed attempt to connect to {a} that did not happen")),
            None => return Err(format!("reported a disconnection from {a} that did not happen")),
        }
    }
    match ends.first() {
        None => Ok(()),
        Some((a, true, _)) => Err(format!("the end of the connection with {a} was not reported")),
        Some((a, false, _)) => Err(format!("the failure of the attempt to connect to {a} was not reported")),
    }
}

fn check_limits(s: &Sim, target: usize, max_in: usize, lesser: &BTreeSet<PeerId>) -> Res {
    if let Some(f) = s.faults.first() {
        return Err(f.clone());
    }
    let out: Vec<PeerId> = s.conns.iter().filter(|(_, c)| c.link.is_outbound()).map(|(a, _)| *a).collect();
    let inb = s.conns.values().filter(|c| c.link.is_inbound()).count();
    if out.len() > target + target / 2 {
        return Err(format!("{} outbound connections with a target of {target}", out.len()));
    }
    let main = out.iter().filter(|a| !lesser.contains(a)).count();
    if main > target {
        return Err(format!("{main} outbound connections to peers not known to lack services, with a target of {target}"));
    }
    if inb > max_in {
        return Err(format!("{inb} inbound connections with a limit of {max_in}"));
    }
    Ok(())
}

pub fn answer_pings(s: &mut Sim) {
    let addrs: Vec<PeerId> = s.conns.keys().cloned().collect();
    for a in addrs {
        let mut pongs = vec![];
        if let Some(c) = s.conns.get_mut(&a) {
            c.inbox.retain(|m| {
                if let M::Ping(n) = m {
                    pongs.push(*n);
                    false
                } else {
                    true
                }
            });
        }
        for n in pongs {
            s.recv(a, M::Pong(n));
        }
    }
}

/// Configured (persistent) peers are retried after every loss, and nothing else is dialled.
fn persistent(n: usize, depth: usize, ch: &mut Ch) -> Res {
    let ps: Vec<PeerId> = (0..n).map(peer).collect();
    let book = BookStore::of(&[(peer(8), ALL()), (peer(9), ALL())], Source::Dns);
    let mut s = Sim::new(Opts { connect: ps.clone(), book, ..Opts::default() });
    s.init();
    for p in &ps {
        if !s.is_dialing(p) {
            return Err(format!("configured peer {} not dialled at start", p.ip()));
        }
    }
    let outs = s.take();
    note_outs(ch, &outs);
    if outs.iter().any(|o| matches!(o, Out::Connect(a) if !ps.contains(a))) {
        return Err("dialled an address that was not configured".into());
    }
    let mut losses: BTreeMap<PeerId, u32> = BTreeMap::new();
    // When a lost peer must have been dialled again at the latest, and may be at the earliest.
    let mut due: BTreeMap<PeerId, (u64, u64)> = BTreeMap::new();
    for _ in 0..depth {
        let mut acts: Vec<(u8, PeerId)> = vec![];
        let neg = s.negotiated();
        for (a, c) in &s.conns {
            match c.state {
                State::Dialing => {
                    acts.push((0, *a));
                    acts.push((1, *a));
                }
                State::Open if !neg.contains(a) => {
                    acts.push((1, *a));
                    acts.push((2, *a));
                    acts.push((3, *a));
                }
                State::Open => {
                    acts.push((1, *a));
                    acts.push((6, *a));
                    acts.push((7, *a));
                }
            }
        }
        acts.push((4, ps[0]));
        acts.push((5, ps[0]));
        if s.fail_dials == 0 {
            acts.push((8, ps[0]));
        }
        let (act, a) = acts[ch.pick(acts.len())];
        let lost = |a: PeerId, s: &Sim, losses: &mut BTreeMap<PeerId, u32>, due: &mut BTreeMap<PeerId, (u64, u64)>| {
            let k = losses.entry(a).or_default();
            let delay = 2u64.saturating_pow(*k).clamp(1, 3600);
            *k += 1;
            due.insert(a, (s.now_secs() + delay, s.now_secs() + delay + 60));
        };
        match act {
            0 => {
                ch.note(|| format!("connection to {} established", a.ip()));
                s.dial_ok(a);
                losses.remove(&a);
            }
            1 => {
                ch.note(|| format!("connection to {} lost", a.ip()));
                s.lose(a);
                ch.nontrivial();
            }
            2 => {
                ch.note(|| format!("{} completes the handshake", a.ip()));
                s.handshake(a, 0, ALL());
            }
            3 => {
                ch.note(|| format!("{} sends an unacceptable version", a.ip()));
                let mut v = version(a, 0, ALL(), s.now_secs());
                v.version = 60000;
                s.recv(a, M::Version(v));
                ch.nontrivial();
            }
            4 | 5 => {
                let secs = if act == 4 { 1 } else { 60 };
                ch.note(|| format!("{secs}s pass"));
                for _ in 0..secs {
                    s.run_for(1);
                    answer_pings(&mut s);
                    // Losses and dials are looked at every second.
                    if let Some(e) = scan(&mut s, ch, &ps, &mut losses, &mut due, &lost) {
                        return Err(e);
                    }
                }
            }
            8 => {
                ch.note(|| "the next dial will fail at once".into());
                s.fail_dials = 1;
                ch.nontrivial();
            }
            7 => {
                s.fail_dials = 0;
                ch.note(|| format!("user disconnects {} and connects again at once", a.ip()));
                s.commands(vec![Command::Disconnect(a), Command::Connect(a)]);
                ch.nontrivial();
                let outs = s.take();
                note_outs(ch, &outs);
                if !s.is_dialing(&a) {
                    return Err(format!("{} was not dialled at the user's request", a.ip()));
                }
                check_ends(&mut s, &outs)?;
            }
            _ => {
                ch.note(|| format!("user disconnects {}", a.ip()));
                s.command(Command::Disconnect(a));
                ch.nontrivial();
            }
        }
        ch.step();
        if act == 1 {
            lost(a, &s, &mut losses, &mut due);
        }
        if let Some(e) = scan(&mut s, ch, &ps, &mut losses, &mut due, &lost) {
            return Err(e);
        }
        ch.state(&(
            s.conns.iter().map(|(a, c)| (a.ip(), c.state == State::Open)).collect::<Vec<_>>(),
            losses.clone(),
            due.iter().map(|(a, (x, _))| (a.ip(), x.saturating_sub(s.now_secs()))).collect::<Vec<_>>(),
        ));
    }
    // Everything that is due gets dialled.
    for _ in 0..160 {
        if due.is_empty() {
            break;
        }
        s.run_for(1);
        answer_pings(&mut s);
        if let Some(e) = scan(&mut s, ch, &ps, &mut losses, &mut due, &lost_fn) {
            return Err(e);
        }
    }
    Ok(())
}

/// Many failures in a row of a configured peer: the delay doubles up to an hour, and starts over after a success.
fn backoff(n: usize, ch: &mut Ch) -> Res {
    let a = peer(0);
    let mut s = Sim::new(Opts { connect: vec![a], ..Opts::default() });
    s.init();
    let mut delay = 1u64;
    s.take();
    // Whether the attempt under way fails by itself.
    let mut at_once = false;
    for i in 0..n + 1 {
        let last = i == n;
        if last {
            ch.note(|| "connection established, then lost".into());
            s.fail_dials = 0;
            if at_once {
                return Ok(());
            }
            s.dial_ok(a);
            s.lose(a);
            delay = 1;
        } else if !at_once {
            ch.note(|| "attempt fails".into());
            s.lose(a);
        }
        ch.step();
        ch.nontrivial();
        let outs = s.take();
        note_outs(ch, &outs);
        check_ends(&mut s, &outs)?;
        at_once = !last && ch.flip();
        if at_once {
            ch.note(|| "the next dial will fail at once".into());
            s.fail_dials = 1;
        }
        s.run_for(delay - 1);
        let mut outs = s.take();
        if outs.iter().any(|o| matches!(o, Out::Connect(_) | Out::DialFailed(_))) {
            return Err(format!("{a} dialled again earlier than {delay}s after failure {i}"));
        }
        let mut waited = 0;
        while !outs.iter().any(|o| matches!(o, Out::Connect(_))) {
            if waited > 61 {
                return Err(format!("{a} not dialled again {}s after failure {i}, {delay}s expected", delay + waited));
            }
            s.run_for(1);
            waited += 1;
            outs = s.take();
        }
        note_outs(ch, &outs);
        check_ends(&mut s, &outs)?;
        if let Some(f) = s.faults.first() {
            return Err(f.clone());
        }
        ch.state(&(i, delay, at_once));
        delay = (delay * 2).min(3600);
    }
    Ok(())
}

fn lost_fn(a: PeerId, s: &Sim, losses: &mut BTreeMap<PeerId, u32>, due: &mut BTreeMap<PeerId, (u64, u64)>) {
    let k = losses.entry(a).or_default();
    let delay = 2u64.saturating_pow(*k).clamp(1, 3600);
    *k += 1;
    due.insert(a, (s.now_secs() + delay, s.now_secs() + delay + 60));
}

fn scan(
    s: &mut Sim,
    ch: &mut Ch,
    ps: &[PeerId],
    losses: &mut BTreeMap<PeerId, u32>,
    due: &mut BTreeMap<PeerId, (u64, u64)>,
    lost: &dyn Fn(PeerId, &Sim, &mut BTreeMap<PeerId, u32>, &mut BTreeMap<PeerId, (u64, u64)>),
) -> Option<String> {
    let outs = s.take();
    note_outs(ch, &outs);
    if let Some(f) = s.faults.first() {
        return Some(f.clone());
    }
    if let Err(e) = check_ends(s, &outs) {
        return Some(e);
    }
    for o in &outs {
        match o {
            Out::Connect(a) => {
                if !ps.contains(a) {
                    return Some(format!("dialled {a}, which is not among the configured peers"));
                }
                match due.remove(a) {
                    Some((earliest, _)) if s.now_secs() >= earliest => {}
                    Some((earliest, _)) => return Some(format!("{a} dialled again {}s early", earliest - s.now_secs())),
                    None => return Some(format!("{a} dialled although it was not lost")),
                }
            }
            Out::Disconnect(a, _) | Out::DialFailed(a) => lost(*a, s, losses, due),
            _ => {}
        }
    }
    for (a, (_, latest)) in due.iter() {
        if s.now_secs() > *latest {
            return Some(format!("configured peer {} not dialled again a minute after its retry was due", a.ip()));
        }
    }
    None
}

// ---- P03 -------------------------------------------------------------------------------------------------------

/// Timers have a granularity: a wake-up may wait for another manager's idle timer.
const SLACK: u64 = 61;

struct Pinged {
    /// Outstanding ping.
    sent: Option<(u64, u64)>,
    old: Vec<u64>,
    /// Time of the last matching pong.
    idle: u64,
    /// Negotiated.
    alive: bool,
    /// Connected since, without having completed the handshake.
    half: Option<u64>,
}

fn pings(n: usize, offset_ms: u64, depth: usize, ch: &mut Ch) -> Res {
    let mut s = Sim::new(Opts { start_ms: NOW * 1000, ..Opts::default() });
    s.init();
    let ps: Vec<PeerId> = (0..n).map(peer).collect();
    let mut st: Vec<Pinged> = vec![];
    for (i, p) in ps.iter().enumerate() {
        s.elapse_ms(offset_ms);
        if i % 2 == 0 {
            s.inbound(*p);
        } else {
            s.command(Command::Connect(*p));
            s.dial_ok(*p);
        }
        s.handshake(*p, 0, ServiceFlags::NETWORK);
        st.push(Pinged { sent: None, old: vec![], idle: s.now_secs(), alive: true, half: None });
    }
    let mut expect_pong: Vec<Vec<u64>> = vec![vec![]; n];
    let outs = s.take();
    note_outs(ch, &outs);
    absorb(&s, &outs, &ps, &mut st, &mut expect_pong)?;
    for (i, x) in st.iter().enumerate() {
        if x.sent.is_none() {
            return Err(format!("peer {i} was not pinged when it was negotiated"));
        }
    }
    for d in 0..depth {
        let mut acts: Vec<(u8, usize)> = vec![];
        for i in 0..n {
            if st[i].alive {
                if st[i].sent.is_some() {
                    acts.push((0, i));
                    acts.push((1, i));
                }
                if !st[i].old.is_empty() {
                    acts.push((2, i));
                }
                acts.push((3, i));
                acts.push((4, i));
            } else if st[i].half.is_some() {
                acts.push((9, i));
            } else {
                acts.push((8, i));
            }
        }
        acts.extend([(5, 0), (6, 0), (7, 0)]);
        let (act, i) = acts[ch.pick(acts.len())];
        match act {
            0 => {
                let (nonce, _) = st[i].sent.take().unwrap();
                ch.note(|| format!("peer {i} answers its ping"));
                st[i].old.push(nonce);
                st[i].idle = s.now_secs();
                s.recv(ps[i], M::Pong(nonce));
            }
            1 => {
                let (nonce, _) = st[i].sent.unwrap();
                let wrong = *ch.of(&[nonce ^ 1, 0, u64::MAX]);
                ch.note(|| format!("peer {i} answers with a wrong nonce"));
                s.recv(ps[i], M::Pong(wrong));
                ch.nontrivial();
            }
            2 => {
                let nonce = *st[i].old.last().unwrap();
                if st[i].sent.map(|x| x.0) != Some(nonce) {
                    ch.note(|| format!("peer {i} repeats an old pong"));
                    s.recv(ps[i], M::Pong(nonce));
                    ch.nontrivial();
                }
            }
            3 => {
                let nonce = 0xabc0_0000_0000_0001 + d as u64;
                ch.note(|| format!("peer {i} pings the node"));
                expect_pong[i].push(nonce);
                s.recv(ps[i], M::Ping(nonce));
            }
            4 => {
                ch.note(|| format!("peer {i} disconnects"));
                st[i].alive = false;
                s.lose(ps[i]);
            }
            8 => {
                ch.note(|| format!("peer {i} connects again"));
                if i % 2 == 0 {
                    s.inbound(ps[i]);
                } else {
                    s.command(Command::Connect(ps[i]));
                    s.dial_ok(ps[i]);
                }
                st[i].half = Some(s.now_secs());
                ch.nontrivial();
            }
            9 => {
                ch.note(|| format!("peer {i} completes the handshake again"));
                s.handshake(ps[i], 0, ServiceFlags::NETWORK);
                st[i] = Pinged { sent: None, old: vec![], idle: s.now_secs(), alive: true, half: None };
                let outs = s.take();
                note_outs(ch, &outs);
                absorb(&s, &outs, &ps, &mut st, &mut expect_pong)?;
                if st[i].sent.is_none() {
                    return Err(format!("peer {i} was not pinged when it was negotiated again"));
                }
            }
            _ => {
                let secs = match act {
                    5 => 29,
                    6 => 30,
                    _ => 120,
                };
                ch.note(|| format!("{secs}s pass"));
                for _ in 0..secs {
                    s.run_for(1);
                    let outs = s.take();
                    note_outs(ch, &outs);
                    absorb(&s, &outs, &ps, &mut st, &mut expect_pong)?;
                    deadlines(&s, &st)?;
                }
                ch.nontrivial();
            }
        }
        ch.step();
        let outs = s.take();
        note_outs(ch, &outs);
        absorb(&s, &outs, &ps, &mut st, &mut expect_pong)?;
        deadlines(&s, &st)?;
        for (i, e) in expect_pong.iter().enumerate() {
            if !e.is_empty() {
                return Err(format!("ping of peer {i} was not answered"));
            }
        }
        ch.state(&(
            st.iter().map(|x| (x.alive, x.half.is_some(), x.sent.map(|y| s.now_secs() - y.1), s.now_secs() - x.idle)).collect::<Vec<_>>(),
            s.next_timer().map(|d| d.as_secs()),
        ));
    }
    Ok(())
}

fn deadlines(s: &Sim, st: &[Pinged]) -> Res {
    let now = s.now_secs();
    for (i, x) in st.iter().enumerate() {
        if !x.alive {
            continue;
        }
        match x.sent {
            Some((_, t)) if now > t + 30 + SLACK => {
                return Err(format!("peer {i} has not answered a ping for {}s and is still connected", now - t));
            }
            None if now > x.idle + 120 + SLACK => {
                return Err(format!("peer {i} was not pinged for {}s", now - x.idle));
            }
            _ => {}
        }
    }
    Ok(())
}

fn absorb(s: &Sim, outs: &[Out], ps: &[PeerId], st: &mut [Pinged], expect: &mut [Vec<u64>]) -> Res {
    let now = s.now_secs();
    for o in outs {
        match o {
            Out::Msg(a, M::Ping(nonce)) => {
                let i = ps.iter().position(|p| p == a).unwrap();
                if !st[i].alive {
                    return Err(format!("peer {i} pinged before it was negotiated"));
                }
                if st[i].sent.is_some() {
                    return Err(format!("peer {i} pinged again before answering"));
                }
                if !st[i].old.is_empty() && now < st[i].idle + 120 {
                    return Err(format!("peer {i} pinged {}s after its last pong", now - st[i].idle));
                }
                st[i].sent = Some((*nonce, now));
            }
            Out::Msg(a, M::Pong(nonce)) => {
                let i = ps.iter().position(|p| p == a).unwrap();
                match expect[i].iter().position(|x| x == nonce) {
                    Some(k) => {
                        expect[i].remove(k);
                    }
                    None => return Err(format!("pong {nonce:x} sent to peer {i}, which did not ask for it")),
                }
            }
            Out::Disconnect(a, r) => {
                let i = ps.iter().position(|p| p == a).unwrap();
                if let Some(t) = st[i].half {
                    if now < t + 12 {
                        return Err(format!("peer {i} disconnected ({r}) {}s after it connected again", now - t));
                    }
                    st[i].half = None;
                    continue;
                }
                match st[i].sent {
                    Some((_, t)) if now >= t + 30 => st[i].alive = false,
                    Some((_, t)) => return Err(format!("peer {i} disconnected ({r}) {}s after a ping", now - t)),
                    None => return Err(format!("responsive peer {i} disconnected ({r})")),
                }
            }
            _ => {}
        }
    }
    Ok(())
}

// ---- P04 -------------------------------------------------------------------------------------------------------

const MIN: u64 = 60;

/// Independent statement of which IPv4 addresses are globally routable.
fn routable(ip: [u8; 4]) -> bool {
    match ip {
        [192, 0, 0, 9] | [192, 0, 0, 10] => true,
        [0, ..] | [10, ..] | [127, ..] => false,
        [172, b, ..] if (16..32).contains(&b) => false,
        [192, 168, ..] | [169, 254, ..] => false,
        [192, 0, 2, _] | [198, 51, 100, _] | [203, 0, 113, _] => false,
        [255, 255, 255, 255] => false,
        _ => true,
    }
}

fn gossiper(s: &mut Sim) -> PeerId {
    let g = peer(40);
    s.inbound(g);
    s.handshake(g, 0, ServiceFlags::NETWORK);
    g
}

/// One address is learnt; it is dialled if and only if it is acceptable.
fn learnt(ch: &mut Ch) -> Res {
    let ips: &[[u8; 4]] = &[
        [88, 1, 1, 1],
        [9, 255, 255, 255],
        [10, 0, 0, 0],
        [10, 255, 255, 255],
        [11, 0, 0, 0],
        [126, 255, 255, 255],
        [127, 0, 0, 1],
        [128, 0, 0, 0],
        [172, 15, 255, 255],
        [172, 16, 0, 1],
        [172, 31, 255, 255],
        [172, 32, 0, 0],
        [192, 167, 255, 255],
        [192, 168, 0, 1],
        [192, 169, 0, 0],
        [169, 253, 1, 1],
        [169, 254, 1, 1],
        [169, 255, 1, 1],
        [192, 0, 0, 9],
        [192, 0, 2, 1],
        [198, 51, 100, 7],
        [203, 0, 113, 7],
        [255, 255, 255, 255],
        [0, 0, 0, 0],
        [0, 1, 2, 3],
        [1, 0, 0, 0],
    ];
    let services = [
        ServiceFlags::NETWORK,
        ServiceFlags::NETWORK | CF,
        ServiceFlags::NONE,
        ServiceFlags::WITNESS | CF,
        ServiceFlags::NETWORK | ServiceFlags::BLOOM,
        ServiceFlags::NETWORK | ServiceFlags::GETUTXO,
    ];
    let now = NOW;
    let times = [now as u32, 0, 1, (now + 60 * MIN) as u32, (now + 60 * MIN) as u32 + 1, u32::MAX];
    let mut s = Sim::new(Opts { limits: Limits { max_outbound_peers: 1, ..Limits::default() }, ..Opts::default() });
    s.init();
    let g = gossiper(&mut s);
    let ip = *ch.of(ips);
    let sv = *ch.of(&services);
    let t = *ch.of(&times);
    // 0: gossip, 1: imported by the user, 2: gossip of the address under which the node is known, 3: gossip of a banned address,
    // 4: gossip in a message with too many addresses, 5: gossip in a message with as many as allowed.
    let how = ch.pick(6);
    if how != 0 && (sv != services[0] && sv != services[1] && sv != services[2]) {
        return Ok(());
    }
    let a: PeerId = (ip, 8333).into();
    let mut ok = routable(ip)
        && sv.has(ServiceFlags::NETWORK)
        && !sv.has(ServiceFlags::BLOOM)
        && !sv.has(ServiceFlags::GETUTXO);
    if how != 1 {
        ok &= t != 0 && (t as u64) <= now + 60 * MIN;
    }
    let mut list = vec![(t, Address::new(&a, sv))];
    match how {
        0 => {}
        1 => {
            ch.note(|| format!("user imports {a} {sv}"));
            s.command(Command::ImportAddresses(vec![Address::new(&a, sv)]));
        }
        2 => {
            let p = peer(41);
            s.inbound(p);
            let mut v = version(p, 0, ServiceFlags::NETWORK, now);
            v.receiver = Address::new(&a, ServiceFlags::NONE);
            s.handshake_with(p, v, false);
            ch.note(|| format!("a peer reports {a} as the node's own address"));
            ok = false;
        }
        3 => {
            if !routable(ip) {
                return Ok(());
            }
            let b: PeerId = (ip, 1234).into();
            s.inbound(b);
            s.handshake(b, 0, ServiceFlags::NETWORK);
            s.recv(b, M::Verack);
            ch.note(|| format!("{b} misbehaves"));
            if s.is_open(&b) {
                return Err("misbehaving peer still connected".into());
            }
            ok = false;
        }
        4 => {
            list = vec![list[0].clone(); 1001];
            ok = false;
        }
        _ => list = vec![list[0].clone(); 1000],
    }
    if how != 1 {
        ch.note(|| format!("gossip of {} x {a} {sv}, last active {t}", list.len()));
        s.recv(g, M::Addr(list));
    }
    ch.step();
    if !ok {
        ch.nontrivial();
    }
    s.run_for(61);
    let outs = s.take();
    note_outs(ch, &outs);
    let dials: Vec<PeerId> = outs.iter().filter_map(|o| if let Out::Connect(b) = o { Some(*b) } else { None }).collect();
    if ok && dials != vec![a] {
        return Err(format!("usable address {a} was learnt but {dials:?} dialled"));
    }
    if !ok && !dials.is_empty() {
        return Err(format!("unusable address dialled: {dials:?}"));
    }
    // What peers are told.
    if how != 1 {
        s.recv(g, M::GetAddr);
        let outs = s.take();
        for m in messages(&outs, g) {
            if let M::Addr(l) = m {
                for (_, x) in l {
                    if !ok || x.socket_addr().ok() != Some(a) {
                        return Err(format!("peer was told about {x:?}, which is not in the address book"));
                    }
                }
            }
        }
    }
    ch.state(&(ok, dials.len(), how));
    Ok(())
}

struct Known {
    services_ok: bool,
    banned: bool,
    /// Last time it was dialled.
    dialled: Option<u64>,
    /// Negotiated at least once.
    success: bool,
    /// Dialled from the book at least once.
    attempted: bool,
}

/// Histories of gossip, connection outcomes, misbehaviour and time.
fn book_history(depth: usize, target: usize, initial: usize, ch: &mut Ch) -> Res {
    let pool: Vec<PeerId> = (0..4).map(|i| ([88, if i < 2 { 1 } else { i }, 1, 1 + i], 8333).into()).collect();
    let seed = 1 + ch.pick(2) as u64;
    let opts = Opts {
        limits: Limits { max_outbound_peers: target, ..Limits::default() },
        book: BookStore::of(&pool[..initial].iter().map(|a| (*a, ALL())).collect::<Vec<_>>(), Source::Imported),
        seed,
        ..Opts::default()
    };
    let mut s = Sim::new(opts);
    let mut book: BTreeMap<PeerId, Known> = BTreeMap::new();
    let fresh = || Known { services_ok: true, banned: false, dialled: None, success: false, attempted: false };
    for a in &pool[..initial] {
        book.insert(*a, fresh());
    }
    s.init();
    let g = gossiper(&mut s);
    let mut second: Option<PeerId> = None;
    let mut others = 0u16;
    watch(&mut s, ch, &mut book)?;
    for _ in 0..depth {
        let neg = s.negotiated();
        let mut acts: Vec<(u8, PeerId)> = vec![];
        for a in &pool {
            match s.conns.get(a).map(|c| c.state.clone()) {
                Some(State::Dialing) => acts.extend([(0, *a), (1, *a)]),
                Some(State::Open) if !neg.contains(a) => acts.extend([(2, *a), (1, *a)]),
                Some(State::Open) => {
                    acts.extend([(1, *a), (3, *a)]);
                    if second.is_none() {
                        acts.push((7, *a));
                    }
                }
                None => {}
            }
        }
        if let Some(x) = second {
            acts.push((8, x));
            acts.push((9, x));
        }
        // Gossip about an address not known yet, or one that is banned.
        if let Some(a) = pool.iter().find(|a| !book.contains_key(a)) {
            acts.push((4, *a));
        }
        if let Some((a, _)) = book.iter().find(|(_, k)| k.banned) {
            acts.push((4, *a));
        }
        acts.push((5, g));
        acts.push((6, g));
        let (act, a) = acts[ch.pick(acts.len())];
        match act {
            0 => {
                ch.note(|| format!("connection to {a} established"));
                s.dial_ok(a);
            }
            1 => {
                ch.note(|| format!("connection to {a} lost"));
                s.lose(a);
            }
            2 => {
                ch.note(|| format!("{a} completes the handshake"));
                s.handshake(a, 0, ALL());
                book.get_mut(&a).unwrap().success = true;
            }
            3 => {
                ch.note(|| format!("{a} misbehaves"));
                s.recv(a, M::Verack);
                book.get_mut(&a).unwrap().banned = true;
                ch.nontrivial();
            }
            4 => {
                ch.note(|| format!("gossip about {a}"));
                s.recv(g, M::Addr(vec![(s.now_secs() as u32, Address::new(&a, ALL()))]));
                book.entry(a).or_insert_with(fresh);
            }
            5 => {
                ch.note(|| "a minute passes".into());
                for _ in 0..6 {
                    s.run_for(10);
                    answer_pings(&mut s);
                    watch(&mut s, ch, &mut book)?;
                }
            }
            6 => {
                ch.note(|| "four minutes pass".into());
                for _ in 0..24 {
                    s.run_for(10);
                    answer_pings(&mut s);
                    watch(&mut s, ch, &mut book)?;
                }
            }
            7 => {
                let x: PeerId = (a.ip(), 50_000 + others).into();
                others += 1;
                ch.note(|| format!("a second connection arrives from {x}"));
                s.inbound(x);
                second = Some(x);
                ch.nontrivial();
            }
            8 => {
                ch.note(|| format!("second connection {x} lost", x = a));
                s.lose(a);
                second = None;
            }
            _ => {
                ch.note(|| format!("second connection {x} misbehaves", x = a));
                s.handshake(a, 0, ALL());
                s.recv(a, M::Verack);
                second = None;
                // Same host: not to be dialled again.
                for (b, k) in book.iter_mut() {
                    if b.ip() == a.ip() {
                        k.banned = true;
                    }
                }
            }
        }
        ch.step();
        if let Some(x) = second {
            if !s.conns.contains_key(&x) {
                second = None;
            }
        }
        watch(&mut s, ch, &mut book)?;
        // What peers are told.
        s.recv(g, M::GetAddr);
        let outs = s.take();
        for m in messages(&outs, g) {
            if let M::Addr(l) = m {
                for (_, x) in l {
                    match x.socket_addr().ok().and_then(|a| book.get(&a)) {
                        Some(k) if !k.banned => {}
                        _ => return Err(format!("peer was told about {x:?}, which is not known or banned")),
                    }
                }
            }
        }
        s.clear_inbox(&g);
        s.outs.extend(outs);
        watch(&mut s, ch, &mut book)?;
        ch.state(&(
            s.conns.keys().cloned().collect::<Vec<_>>(),
            book.iter().map(|(a, k)| (*a, k.banned, k.success, k.dialled.map(|t| s.now_secs() - t))).collect::<Vec<_>>(),
        ));
    }
    Ok(())
}

fn watch(s: &mut Sim, ch: &mut Ch, book: &mut BTreeMap<PeerId, Known>) -> Res {
    let now = s.now_secs();
    let outs = s.take();
    note_outs(ch, &outs);
    if let Some(f) = s.faults.first() {
        return Err(f.clone());
    }
    for o in &outs {
        match o {
            Out::Connect(a) => {
                let Some(k) = book.get_mut(a) else { return Err(format!("dialled {a}, which was never learnt")) };
                if k.banned {
                    return Err(format!("dialled {a}, which misbehaved"));
                }
                if !k.services_ok {
                    return Err(format!("dialled {a}, which lacks the required services"));
                }
                if k.attempted && !k.success {
                    return Err(format!("dialled {a}, with which connecting was tried before without success"));
                }
                // The node's notion of time for this purpose is a minute coarse.
                if k.dialled.map_or(false, |t| now < t + 119) {
                    return Err(format!("dialled {a} again after {}s", now - k.dialled.unwrap()));
                }
                if s.conns.keys().any(|b| b != a && b.ip() == a.ip()) {
                    return Err(format!("dialled {a} while connected to the same host"));
                }
                k.dialled = Some(now);
                k.attempted = true;
            }
            // A host is not used again once it was dropped for misbehaviour.
            Out::Disconnect(a, r) if !r.is_transient() => {
                for (b, k) in book.iter_mut() {
                    if b.ip() == a.ip() {
                        k.banned = true;
                    }
                }
            }
            _ => {}
        }
    }
    Ok(())
}

/// Many addresses of one range: the book stays bounded and consistent.
fn full_range(ch: &mut Ch) -> Res {
    let mut s = Sim::new(Opts { limits: Limits { max_outbound_peers: 1, ..Limits::default() }, seed: 1 + ch.pick(4) as u64, ..Opts::default() });
    s.init();
    let g = gossiper(&mut s);
    let n = *ch.of(&[255usize, 256, 257, 300, 600]);
    let chunk = *ch.of(&[1000usize, 128, 7]);
    let addrs: Vec<(u32, Address)> =
        (0..n).map(|i| (NOW as u32, Address::new(&([77, 7, (i / 250) as u8 + 1, (i % 250) as u8 + 1], 8333).into(), ALL()))).collect();
    let known: BTreeSet<PeerId> = addrs.iter().map(|(_, a)| a.socket_addr().unwrap()).collect();
    for c in addrs.chunks(chunk) {
        s.recv(g, M::Addr(c.to_vec()));
        ch.step();
        let len = s.known().len();
        if len > 256 {
            return Err(format!("{len} addresses of one range are kept"));
        }
    }
    let len = s.known().len();
    if len != n.min(256) {
        return Err(format!("{len} of {n} addresses of one range are kept"));
    }
    ch.nontrivial();
    for _ in 0..4 {
        s.recv(g, M::GetAddr);
        let outs = s.take();
        for m in messages(&outs, g) {
            if let M::Addr(l) = m {
                if l.len() > 1000 {
                    return Err("more than 1000 addresses in one message".into());
                }
                if l.iter().any(|(_, a)| !s.known().contains_key(&a.socket_addr().unwrap().ip())) {
                    return Err("peer was told about an address that is not known".into());
                }
            }
        }
        s.run_for(61);
        answer_pings(&mut s);
        let outs = s.take();
        for o in &outs {
            match o {
                Out::Connect(a) => {
                    if !known.contains(a) {
                        return Err(format!("dialled {a}, which was never learnt"));
                    }
                    s.lose(*a);
                }
                _ => {}
            }
        }
    }
    ch.state(&(n, chunk));
    Ok(())
}

/// Only addresses of the domains the node is set up for are dialled, however they are known.
fn domains(ch: &mut Ch) -> Res {
    use nakamoto_common::p2p::Domain;
    let sets = [vec![Domain::IPV4], vec![Domain::IPV6], Domain::all(), vec![]];
    let set = ch.of(&sets).clone();
    let addr = |i: usize| -> PeerId {
        if i < 2 {
            ([88, 1 + i as u8, 1, 1], 8333).into()
        } else {
            ([0x2a01, i as u16, 0, 0, 0, 0, 0, 1], 8333).into()
        }
    };
    // 0: known at start, 1: gossip, 2: imported, 3: asked for by the user, 4: configured.
    let how = ch.pick(5);
    let picked: Vec<PeerId> = (0..4).filter(|_| ch.flip()).map(addr).collect();
    let with = |a: &PeerId| set.contains(&if a.is_ipv4() { Domain::IPV4 } else { Domain::IPV6 });
    ch.note(|| format!("domains {set:?}, way {how}, addresses {picked:?}"));
    let book: Vec<(PeerId, ServiceFlags)> = picked.iter().map(|a| (*a, ALL())).collect();
    let mut s = Sim::new(Opts {
        domains: set.clone(),
        book: if how == 0 { BookStore::of(&book, Source::Dns) } else { BookStore::default() },
        connect: if how == 4 { picked.clone() } else { vec![] },
        limits: Limits { max_outbound_peers: 8, ..Limits::default() },
        seed: 1 + ch.pick(2) as u64,
        ..Opts::default()
    });
    s.init();
    let g = gossiper(&mut s);
    match how {
        1 => s.recv(g, M::Addr(picked.iter().map(|a| (NOW as u32, Address::new(a, ALL()))).collect())),
        2 => s.command(Command::ImportAddresses(picked.iter().map(|a| Address::new(a, ALL())).collect())),
        3 => s.commands(picked.iter().map(|a| Command::Connect(*a)).collect()),
        _ => {}
    }
    ch.step();
    s.run_for(61);
    let outs = s.take();
    note_outs(ch, &outs);
    if let Some(f) = s.faults.first() {
        return Err(f.clone());
    }
    // Dials time out and may be repeated.
    let dials: BTreeSet<PeerId> = outs.iter().filter_map(|o| if let Out::Connect(a) = o { Some(*a) } else { None }).collect();
    let want: BTreeSet<PeerId> = picked.iter().filter(|a| with(a)).cloned().collect();
    if dials != want {
        return Err(format!("with the domains {set:?}, of {picked:?} were dialled {dials:?}"));
    }
    if want.len() != picked.len() {
        ch.nontrivial();
    }
    ch.state(&(how, dials));
    Ok(())
}

pub fn check(id: &str, tier: Tier) -> Check {
    let q = |a: usize, b: usize| tier.of(a, b);
    let mut spaces = vec![];
    match id {
        "P01" => {
            use Setup::*;
            for setup in [Inbound, Outbound, Requested, Configured, Refused, RefusedInbound, RefusedRequested] {
                let d = if setup.refused() { 3 } else { q(5, 6) };
                spaces.push(space(
                    format!("handshake-{setup:?}"),
                    format!("every sequence of {d} messages and delays on one connection"),
                    move |ch| handshake(setup, &Chain::genesis().headers(), d, ch),
                ));
            }
            let mut long = Chain::genesis();
            long.grow(2020, 0);
            for setup in [Inbound, Outbound, Requested, Configured] {
                let long = long.headers();
                spaces.push(space(
                    format!("stale-{setup:?}"),
                    "every sequence of 2 messages with peers 2016 and 2017 blocks behind",
                    move |ch| handshake(setup, &long, 2, ch),
                ));
            }
            spaces.push(space("extreme-fields", "every combination of boundary values in the version message", extreme_fields));
            spaces.push(space("self-connection", "every relay order between the two ends of a connection to oneself", self_connection));
            for (la, lb) in [(Link::Inbound, Link::Outbound), (Link::Outbound, Link::Outbound), (Link::Inbound, Link::Inbound)] {
                spaces.push(space(
                    format!("pair-{la:?}-{lb:?}"),
                    "every interleaving of two handshakes",
                    move |ch| two_handshakes(la, lb, ch),
                ));
            }
        }
        "P02" => {
            let d = q(6, 7);
            for target in [1usize, 2] {
                for max_in in [1usize, 2] {
                    let book = Book { addrs: (0..4).map(|i| (peer(i), ALL())).collect() };
                    spaces.push(space(
                        format!("limits-{target}-{max_in}"),
                        format!("every sequence of {d} connection events with {target} outbound target, {max_in} inbound limit and 4 addresses"),
                        move |ch| limits(target, max_in, &book, d, ch),
                    ));
                }
            }
            let book = Book { addrs: (0..4).map(|i| (peer(i), if i < 2 { ServiceFlags::NETWORK } else { ALL() })).collect() };
            spaces.push(space("limits-mixed", "as above with addresses lacking the preferred services", move |ch| limits(2, 1, &book, d, ch)));
            let book = Book { addrs: (0..7).map(|i| (peer(i), ALL())).collect() };
            let dm = q(5, 6);
            spaces.push(space("limits-4-0", "as above with an outbound target of 4 and 7 addresses", move |ch| limits(4, 0, &book, dm, ch)));
            let book = Book { addrs: (0..4).map(|i| (peer(i), ServiceFlags::NETWORK)).collect() };
            spaces.push(space("limits-lesser", "as above with only addresses lacking the preferred services", move |ch| limits(2, 1, &book, d, ch)));
            let b = q(13, 16);
            spaces.push(space("backoff", format!("{b} consecutive failures of a configured peer, each at once or later"), move |ch| backoff(b, ch)));
            for n in [1usize, 2] {
                let d = if n == 1 { q(8, 10) } else { q(6, 7) };
                spaces.push(space(
                    format!("persistent-{n}"),
                    format!("every sequence of {d} connection events with {n} configured peers"),
                    move |ch| persistent(n, d, ch),
                ));
            }
        }
        "P03" => {
            for (n, off, d) in [(1usize, 0u64, q(7, 8)), (2, 0, q(5, 6)), (2, 500, q(5, 6)), (1, 999, q(6, 8)), (3, 300, q(4, 5))] {
                spaces.push(space(
                    format!("pings-{n}-{off}ms"),
                    format!("every sequence of {d} pongs, pings, disconnects and delays with {n} peers, phase {off} ms"),
                    move |ch| pings(n, off, d, ch),
                ));
            }
        }
        "P04" => {
            spaces.push(space("learnt", "every combination of address range, services, activity time and way of learning it", learnt));
            for (target, initial, d) in [(1usize, 1usize, q(7, 8)), (1, 2, q(7, 8)), (2, 3, q(6, 7)), (1, 0, q(7, 8))] {
                spaces.push(space(
                    format!("history-{target}-{initial}"),
                    format!("every sequence of {d} gossip, connection, misbehaviour and time events, outbound target {target}, {initial} addresses known at start"),
                    move |ch| book_history(d, target, initial, ch),
                ));
            }
            spaces.push(space("domains", "IPv4 and IPv6 addresses known in every way, every set of domains", domains));
            spaces.push(space("full-range", "address ranges at and beyond capacity", full_range));
        }
        _ => unreachable!(),
    }
    Check {
        spaces,
        rule: "every execution of every space satisfied the monitor".into(),
        assumptions: vec![
            "the reactor behaves as nakamoto-net-poll's (outputs processed in order, timers through its TimeoutManager)".into(),
            "message, peer and step counts bounded as stated per space".into(),
        ],
    }
}
