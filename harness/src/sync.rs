//! P05: header synchronisation.
use crate::engine::{space, Ch, Res};
use crate::peers::{answer_pings, note_outs};
use crate::sim::*;
use crate::{Check, Tier};
use nakamoto_common::bitcoin::network::constants::ServiceFlags;
use nakamoto_common::bitcoin::network::message::NetworkMessage as M;
use nakamoto_common::bitcoin::network::message_blockdata::{GetHeadersMessage, Inventory};
use nakamoto_common::bitcoin::{BlockHash, BlockHeader};
use nakamoto_common::bitcoin_hashes::Hash as _;
use nakamoto_p2p::fsm::{Command, Event, PeerId};
use std::collections::BTreeMap;
use std::sync::OnceLock;

const FULL: ServiceFlags = ServiceFlags::NETWORK;
/// Most headers in one message.
const MAX: usize = 2000;

/// What a node holding `chain` answers to a `getheaders` request.
pub fn serve_headers(chain: &[BlockHeader], locators: &[BlockHash], stop: BlockHash) -> Vec<BlockHeader> {
    let start = locators.iter().find_map(|l| chain.iter().rposition(|b| b.block_hash() == *l)).unwrap_or(0);
    let mut v = vec![];
    for b in chain.iter().skip(start + 1) {
        v.push(*b);
        if v.len() == MAX || b.block_hash() == stop {
            break;
        }
    }
    v
}

/// Keeps track of what the node says about its chain.
pub struct Follower {
    chain: Vec<BlockHeader>,
    /// Heights claimed by negotiated peers.
    claims: BTreeMap<PeerId, u64>,
    pub synced: Option<(u64, BlockHash)>,
}

impl Follower {
    pub fn new(s: &mut Sim) -> Self {
        Self { chain: s.chain(), claims: BTreeMap::new(), synced: None }
    }
    pub fn height(&self) -> u64 {
        self.chain.len() as u64 - 1
    }
    pub fn chain(&self) -> &[BlockHeader] {
        &self.chain
    }
    /// Apply what the node reported; the result must be the chain it holds.
    pub fn follow(&mut self, outs: &[Out]) -> Res {
        // Blocks (dis)connected since the last summary event.
        let (mut conn, mut disc): (Vec<(u64, BlockHeader)>, Vec<(u64, BlockHeader)>) = (vec![], vec![]);
        for o in outs {
            match o {
                Out::Event(Event::PeerNegotiated { addr, height, .. }) => {
                    self.claims.insert(*addr, *height);
                }
                Out::Event(Event::PeerDisconnected { addr, .. }) => {
                    self.claims.remove(addr);
                }
                Out::Event(Event::BlockDisconnected { height, header }) => {
                    if self.height() != *height || self.chain.last() != Some(header) {
                        return Err(format!("block {} reported as disconnected at height {height} is not the tip", header.block_hash()));
                    }
                    disc.push((*height, *header));
                    self.chain.pop();
                }
                Out::Event(Event::BlockConnected { height, header }) => {
                    if self.height() + 1 != *height || self.chain.last().map(|b| b.block_hash()) != Some(header.prev_blockhash) {
                        return Err(format!("block {} reported as connected at height {height} does not extend the chain reported so far", header.block_hash()));
                    }
                    conn.push((*height, *header));
                    self.chain.push(*header);
                }
                Out::Event(Event::BlockHeadersImported { hash, height, reverted, connected, reorg }) => {
                    if self.height() != *height || self.chain.last().map(|b| b.block_hash()) != Some(*hash) {
                        return Err(format!("import of headers up to {hash} at {height} reported, but the blocks reported lead elsewhere"));
                    }
                    let c: Vec<_> = connected.iter().cloned().collect();
                    if c != conn || *reverted != disc || *reorg == disc.is_empty() {
                        return Err("import summary differs from the blocks reported as connected and disconnected".into());
                    }
                    conn.clear();
                    disc.clear();
                }
                Out::Event(Event::BlockHeadersSynced { hash, height }) => {
                    let tip = self.chain.last().unwrap().block_hash();
                    if *hash != tip || *height != self.height() {
                        return Err(format!("synced reported with {hash} at {height} while the tip is {tip} at {}", self.height()));
                    }
                    if self.claims.is_empty() {
                        return Err("synced reported without any peer".into());
                    }
                    if let Some((a, h)) = self.claims.iter().find(|(_, h)| **h > self.height()) {
                        return Err(format!("synced reported at {height} although {} has height {h}", a.ip()));
                    }
                    self.synced = Some((*height, *hash));
                }
                _ => {}
            }
        }
        if !conn.is_empty() || !disc.is_empty() {
            return Err("blocks reported as connected or disconnected without the summary of the import".into());
        }
        Ok(())
    }
    pub fn compare(&self, s: &mut Sim) -> Res {
        if s.chain() != self.chain {
            let (h, t) = s.tip();
            return Err(format!(
                "the node's active chain (height {h}, tip {t}) is not the one it reported (height {}, tip {})",
                self.height(),
                self.chain.last().unwrap().block_hash()
            ));
        }
        Ok(())
    }
}

fn observe(s: &mut Sim, f: &mut Follower, ch: &mut Ch) -> Res<Vec<Out>> {
    let outs = s.take();
    note_outs(ch, &outs);
    f.follow(&outs)?;
    f.compare(s)?;
    Ok(outs)
}

/// The honest peer looks at what the node sent to it; its answers are queued.
fn collect(s: &mut Sim, a: PeerId, q: &mut Vec<GetHeadersMessage>) {
    while let Some(m) = s.pop(&a) {
        match m {
            M::GetHeaders(g) => q.push(g),
            M::Ping(n) => s.recv(a, M::Pong(n)),
            _ => {}
        }
    }
}

fn invalid(prev: &BlockHeader, kind: usize) -> BlockHeader {
    let mut h = *prev;
    h.prev_blockhash = prev.block_hash();
    h.time = prev.time + 1;
    h.nonce = 0;
    match kind {
        // Work missing.
        0 => {
            let t = h.target();
            while h.validate_pow(&t).is_ok() {
                h.nonce += 1;
            }
        }
        // Time in the past.
        1 => {
            h.time = 1;
            mine(&mut h);
        }
        // Time in the far future.
        2 => {
            h.time = NOW as u32 + 4 * 3600;
            mine(&mut h);
        }
        // Wrong target (below the limit, so that the work is still valid).
        _ => {
            h.bits = 0x1f7fffff;
            mine(&mut h);
        }
    }
    h
}
fn mine(h: &mut BlockHeader) {
    let t = h.target();
    while h.validate_pow(&t).is_err() {
        h.nonce += 1;
    }
}

struct World {
    /// What the node starts with.
    ours: Chain,
    /// What the honest peer ends up with.
    best: Chain,
    /// Short valid chain known to the other peer.
    other: Chain,
    bad: Vec<BlockHeader>,
}

fn world(ours: usize, fork: u64, best: usize) -> World {
    let mut a = Chain::genesis();
    a.grow(ours, 1);
    let mut b = a.fork(fork);
    b.grow(best, 2);
    let mut o = Chain::genesis();
    o.grow(2, 3);
    let bad = (0..4).map(|k| invalid(&o.tip().header, k)).collect();
    World { ours: a, best: b, other: o, bad }
}

/// One honest peer that answers everything, one that does anything.
fn converge(w: &World, start: u64, honest_services: ServiceFlags, claim: u64, depth: usize, ch: &mut Ch) -> Res {
    let mut s = Sim::new(Opts { headers: w.ours.headers(), ..Opts::default() });
    s.init();
    let mut f = Follower::new(&mut s);
    let (h, l) = (peer(0), peer(1));
    // The other peer connects first, in either direction, or after the honest one.
    let mode = ch.pick(3);
    let honest_first = mode == 2;
    ch.note(|| format!("other peer: {}", ["outbound", "inbound", "outbound, after the honest one"][mode]));
    let join = |s: &mut Sim, a: PeerId, height: u64, sv: ServiceFlags, inbound: bool| {
        if inbound {
            s.inbound(a);
            s.handshake(a, height, sv);
        } else {
            s.outbound(a, height, sv);
        }
    };
    if honest_first {
        join(&mut s, h, start, honest_services, false);
        join(&mut s, l, claim, FULL, false);
    } else {
        join(&mut s, l, claim, FULL, mode == 1);
        join(&mut s, h, start, honest_services, false);
    }
    let mut have = start as usize;
    let mut q = vec![];
    let chain = w.best.headers();
    let mut punished = false;
    let mut returns = 1;
    let all = |s: &mut Sim, f: &mut Follower, ch: &mut Ch, q: &mut Vec<GetHeadersMessage>, have: usize| -> Res {
        // Everything the honest peer has to say is delivered.
        for _ in 0..50 {
            collect(s, h, q);
            if q.is_empty() {
                return Ok(());
            }
            let g = q.remove(0);
            s.recv(h, M::Headers(serve_headers(&chain[..=have], &g.locator_hashes, g.stop_hash)));
            observe(s, f, ch)?;
        }
        Err("the node keeps asking for headers it was given".into())
    };
    let other = w.other.headers();
    observe(&mut s, &mut f, ch)?;
    for _ in 0..depth {
        collect(&mut s, h, &mut q);
        let up = s.is_open(&l);
        let mut acts: Vec<u8> = vec![];
        if !q.is_empty() {
            acts.push(0);
        }
        if have + 1 < chain.len() {
            acts.extend([1, 2]);
        }
        acts.push(3);
        acts.push(4);
        if returns > 0 {
            acts.push(15);
        }
        if up {
            acts.extend([5, 6, 7, 8, 9, 10, 11, 12, 13, 14]);
        }
        let act = acts[ch.pick(acts.len())];
        let mut must_punish = false;
        let (height, tip) = s.tip();
        match act {
            0 => {
                let g = q.remove(0);
                ch.note(|| "honest peer answers".to_string());
                s.recv(h, M::Headers(serve_headers(&chain[..=have], &g.locator_hashes, g.stop_hash)));
            }
            1 => {
                have += 1;
                ch.note(|| format!("honest peer announces block {have} by its header"));
                s.recv(h, M::Headers(vec![chain[have]]));
            }
            2 => {
                // Only answered if the node is not busy asking someone else; announced again by header later.
                have += 1;
                ch.note(|| format!("honest peer announces block {have} by its hash"));
                s.recv(h, M::Inv(vec![Inventory::Block(chain[have].block_hash())]));
                let _ = observe(&mut s, &mut f, ch)?;
                all(&mut s, &mut f, ch, &mut q, have)?;
                s.recv(h, M::Headers(vec![chain[have]]));
            }
            3 | 4 => {
                all(&mut s, &mut f, ch, &mut q, have)?;
                let secs = if act == 3 { 31 } else { 605 };
                ch.note(|| format!("{secs}s pass"));
                let mut left = secs;
                while left > 0 {
                    let d = left.min(15);
                    s.run_for(d);
                    left -= d;
                    observe(&mut s, &mut f, ch)?;
                    answer_pings(&mut s);
                    all(&mut s, &mut f, ch, &mut q, have)?;
                }
            }
            5 => {
                ch.note(|| "other peer disconnects".to_string());
                s.lose(l);
            }
            15 => {
                ch.note(|| "the connection with the honest peer is lost and established again".to_string());
                returns -= 1;
                s.lose(h);
                q.clear();
                observe(&mut s, &mut f, ch)?;
                s.outbound(h, have as u64, honest_services);
            }
            6 => {
                ch.note(|| "other peer answers with nothing".to_string());
                s.recv(l, M::Headers(vec![]));
            }
            7 => {
                ch.note(|| "other peer sends a shorter chain".to_string());
                s.recv(l, M::Headers(other[1..].to_vec()));
            }
            8 => {
                ch.note(|| "other peer sends a header of unknown parent".to_string());
                s.recv(l, M::Headers(other[2..].to_vec()));
            }
            9 => {
                ch.note(|| "other peer announces a block nobody has".to_string());
                s.recv(l, M::Inv(vec![Inventory::Block(BlockHash::hash(b"no such block"))]));
            }
            10 => {
                ch.note(|| "other peer relays the honest peer's chain".to_string());
                s.recv(l, M::Headers(chain[1..=have].to_vec()));
            }
            11 => {
                ch.note(|| "other peer relays part of the honest chain with an invalid header after it".to_string());
                let k = if have > 2 && ch.flip() { have } else { have.min(2) };
                let mut v = chain[1..=k].to_vec();
                v.push(invalid(&chain[k], 1));
                s.recv(l, M::Headers(v));
                // Only headers on top of the active chain are judged by their context.
                must_punish = k as u64 > height || tip == chain[k].block_hash();
            }
            12 | 13 => {
                // Invalid header on top of its own chain.
                let k = if act == 12 { 0 } else { 1 + ch.pick(3) };
                ch.note(|| format!("other peer sends a chain with an invalid header (kind {k})"));
                let mut v = other[1..].to_vec();
                v.push(w.bad[k]);
                s.recv(l, M::Headers(v));
                must_punish = k == 0 || 2 > height || tip == w.other.tip().block_hash();
            }
            _ => {
                ch.note(|| "other peer sends more headers than allowed".to_string());
                s.recv(l, M::Headers(vec![other[1]; MAX + 1]));
                must_punish = true;
            }
        }
        ch.step();
        let outs = observe(&mut s, &mut f, ch)?;
        if must_punish && s.is_open(&l) {
            return Err("a peer that sent invalid headers is still connected".into());
        }
        if must_punish {
            punished = true;
            ch.nontrivial();
        }
        if disconnected(&outs, h).is_some() || !s.is_open(&h) {
            return Err("the honest peer was disconnected".into());
        }
        ch.state(&(s.chain().len(), s.tip().1, have, q.len(), s.is_open(&l), s.next_timer().map(|d| d.as_secs()), f.synced.map(|x| x.0)));
    }
    let _ = punished;
    all(&mut s, &mut f, ch, &mut q, have)?;
    for _ in 0..80 {
        if s.tip().1 == chain[have].block_hash() && (claim > have as u64 || f.synced.map(|x| x.1) == Some(chain[have].block_hash())) {
            break;
        }
        s.run_for(15);
        observe(&mut s, &mut f, ch)?;
        answer_pings(&mut s);
        all(&mut s, &mut f, ch, &mut q, have)?;
        if !s.is_open(&h) {
            return Err("the honest peer was disconnected".into());
        }
    }
    let best = have.max(w.ours.height() as usize);
    let expected = if best == have { chain[have].block_hash() } else { w.ours.tip().block_hash() };
    if have as u64 > w.ours.height() && s.tip().1 != expected {
        return Err(format!(
            "twenty minutes after the last disturbance the node is at height {} ({}) although an honest peer has height {have} ({expected})",
            s.height(),
            s.tip().1,
        ));
    }
    if have as u64 > w.ours.height() && claim <= have as u64 && f.synced != Some((have as u64, expected)) {
        return Err("the node holds the best chain of its peers but did not report itself synced".into());
    }
    ch.nontrivial();
    Ok(())
}

/// Chains longer than one message.
fn long_chain() -> &'static Vec<BlockHeader> {
    static C: OnceLock<Vec<BlockHeader>> = OnceLock::new();
    C.get_or_init(|| {
        let mut v = vec![nakamoto_common::block::store::Genesis::genesis(NET)];
        for i in 1..=2 * MAX as u32 + 1 {
            let p: &BlockHeader = v.last().unwrap();
            let mut h = *p;
            h.prev_blockhash = p.block_hash();
            h.time = NOW as u32 - 7000 + i;
            h.nonce = 0;
            mine(&mut h);
            v.push(h);
        }
        v
    })
}

fn batches(len: usize, depth: usize, ch: &mut Ch) -> Res {
    let chain = &long_chain()[..=len];
    let mut s = Sim::new(Opts::default());
    s.init();
    let mut f = Follower::new(&mut s);
    let (h, l) = (peer(0), peer(1));
    // Both have the chain, but the second one may stop answering. The honest peer's chain may have grown since
    // its handshake; as it doesn't announce that, the node can only find out if that is the peer it asks.
    let claim = *ch.of(&[len, len - 1, len.min(MAX)]) as u64;
    if claim == len as u64 {
        s.outbound(l, len as u64, FULL);
    }
    s.outbound(h, claim, FULL);
    observe(&mut s, &mut f, ch)?;
    let answer = |s: &mut Sim, a: PeerId, g: &GetHeadersMessage| {
        s.recv(a, M::Headers(serve_headers(chain, &g.locator_hashes, g.stop_hash)));
    };
    let (mut qh, mut ql) = (vec![], vec![]);
    let mut stuck = false;
    let mut more = false;
    let mut returns = 1;
    for _ in 0..depth {
        collect(&mut s, h, &mut qh);
        collect(&mut s, l, &mut ql);
        let mut acts = vec![];
        if !qh.is_empty() {
            acts.push(0);
        }
        if s.is_open(&l) {
            if !ql.is_empty() {
                acts.push(1);
            }
            acts.push(2);
        }
        acts.push(3);
        if returns > 0 {
            acts.push(4);
        }
        match acts[ch.pick(acts.len())] {
            4 => {
                ch.note(|| "the connection with the honest peer is lost and established again".to_string());
                returns -= 1;
                s.lose(h);
                qh.clear();
                observe(&mut s, &mut f, ch)?;
                s.outbound(h, len as u64, FULL);
            }
            0 => {
                ch.note(|| "honest peer answers".to_string());
                let g = qh.remove(0);
                answer(&mut s, h, &g);
            }
            1 => {
                ch.note(|| "other peer answers".to_string());
                let g = ql.remove(0);
                let new = s.height();
                answer(&mut s, l, &g);
                more = s.height() == new + MAX as u64;
            }
            2 => {
                ch.note(|| "other peer is lost".to_string());
                s.lose(l);
            }
            _ => {
                ch.note(|| "31s pass, in which the honest peer answers and the other does not".to_string());
                for _ in 0..32 {
                    while !qh.is_empty() {
                        let g = qh.remove(0);
                        answer(&mut s, h, &g);
                        observe(&mut s, &mut f, ch)?;
                        collect(&mut s, h, &mut qh);
                    }
                    s.run_for(1);
                    answer_pings(&mut s);
                    collect(&mut s, h, &mut qh);
                }
                if !ql.is_empty() {
                    stuck = true;
                    if more && s.is_open(&l) {
                        return Err("a peer that does not continue the chain it started to send is still connected".into());
                    }
                }
                ql.clear();
            }
        }
        ch.step();
        observe(&mut s, &mut f, ch)?;
        if !s.is_open(&h) {
            return Err("the honest peer was disconnected".into());
        }
        ch.state(&(s.height(), qh.len(), ql.len(), s.is_open(&l)));
    }
    if stuck {
        ch.nontrivial();
    }
    for _ in 0..130 {
        collect(&mut s, h, &mut qh);
        while !qh.is_empty() {
            let g = qh.remove(0);
            answer(&mut s, h, &g);
            observe(&mut s, &mut f, ch)?;
            collect(&mut s, h, &mut qh);
        }
        if f.synced == Some((len as u64, chain[len].block_hash())) {
            break;
        }
        s.run_for(10);
        observe(&mut s, &mut f, ch)?;
        answer_pings(&mut s);
    }
    if s.tip() != (len as u64, chain[len].block_hash()) {
        return Err(format!("twenty minutes after the last disturbance the node is at height {} although an honest peer has height {len}", s.height()));
    }
    if f.synced != Some((len as u64, chain[len].block_hash())) {
        return Err("the node holds the best chain of its peers but did not report itself synced".into());
    }
    Ok(())
}

/// A block is announced by its hash and the announcer does not supply it; others are asked for it.
fn retries(n: usize, ch: &mut Ch) -> Res {
    let mut base = Chain::genesis();
    base.grow(2, 1);
    let mut s = Sim::new(Opts { headers: base.headers(), ..Opts::default() });
    s.init();
    let mut f = Follower::new(&mut s);
    let ps: Vec<PeerId> = (0..n).map(peer).collect();
    // Only the peers from the first answering one on have the block.
    let answering = ch.pick(n + 1);
    let order = ch.pick(2);
    for p in &ps {
        s.outbound(*p, 2, FULL);
        answer_pings(&mut s);
    }
    observe(&mut s, &mut f, ch)?;
    let mut chain = base.clone();
    chain.grow(2, 4);
    let tip = chain.tip().block_hash();
    let hs = chain.headers();
    let first = if order == 0 { 0 } else { n - 1 };
    ch.note(|| format!("peer {first} announces a block that it does not supply; peers {answering}.. would"));
    // The last one announced is the highest.
    let from = hs.len() - 1 - ch.pick(2);
    s.recv(ps[first], M::Inv(hs[from..].iter().map(|b| Inventory::Block(b.block_hash())).collect()));
    let mut asked = vec![];
    for round in 0..n + 2 {
        let outs = observe(&mut s, &mut f, ch)?;
        let mut now = vec![];
        for o in &outs {
            if let Out::Msg(a, M::GetHeaders(g)) = o {
                if g.stop_hash != tip {
                    return Err(format!("{} asked for headers up to {}", a.ip(), g.stop_hash));
                }
                now.push((*a, g.clone()));
            }
        }
        if now.len() > 1 {
            return Err("the same block was asked from several peers at once".into());
        }
        let Some((a, g)) = now.pop() else { break };
        if round == 0 && a != ps[first] {
            return Err("the announcing peer was not asked first".into());
        }
        if asked.contains(&a) {
            return Err(format!("{} asked again although it did not answer", a.ip()));
        }
        asked.push(a);
        let i = ps.iter().position(|p| *p == a).unwrap();
        if i >= answering && i != first {
            ch.nontrivial();
            s.recv(a, M::Headers(serve_headers(&hs, &g.locator_hashes, g.stop_hash)));
            observe(&mut s, &mut f, ch)?;
            if s.tip().1 != tip {
                return Err("headers that were asked for were not imported".into());
            }
            return Ok(());
        }
        ch.step();
        for _ in 0..31 {
            s.run_for(1);
            answer_pings(&mut s);
        }
    }
    let others = n - 1;
    if asked.len() < 1 + others.min(3) {
        return Err(format!("only {} peers were asked for the announced block", asked.len()));
    }
    Ok(())
}

/// Headers the user imports.
fn import(max: usize, ch: &mut Ch) -> Res {
    let w = world(2, 1, 3);
    let mut s = Sim::new(Opts { headers: w.ours.headers(), ..Opts::default() });
    s.init();
    let mut f = Follower::new(&mut s);
    let a = peer(0);
    s.inbound(a);
    let claim = *ch.of(&[0, 2, 3]);
    ch.note(|| format!("inbound peer at height {claim}"));
    s.handshake(a, claim, FULL);
    observe(&mut s, &mut f, ch)?;
    let pool: Vec<BlockHeader> = [&w.ours, &w.best, &w.other].iter().flat_map(|c| c.headers().into_iter().skip(1)).chain(w.bad.iter().cloned()).collect();
    for _ in 0..2 {
        let n = 1 + ch.pick(max);
        let v: Vec<BlockHeader> = (0..n).map(|_| *ch.of(&pool)).collect();
        let (tx, rx) = crossbeam_channel::bounded(1);
        let before = s.tip();
        s.command(Command::ImportHeaders(v.clone(), tx));
        let outs = observe(&mut s, &mut f, ch)?;
        let r = rx.try_recv().map_err(|_| "no reply to an import of headers".to_string())?;
        ch.step();
        let after = s.tip();
        if let Ok(r) = &r {
            let changed = matches!(r, nakamoto_common::block::tree::ImportResult::TipChanged { .. });
            if changed != (before != after) {
                return Err("the reply to an import of headers is not what happened".into());
            }
        }
        // Inbound peers that are behind get told about a new tip.
        let told = messages(&outs, a).iter().filter(|m| matches!(m, M::Headers(v) if v.len() == 1 && v[0].block_hash() == after.1)).count();
        if before != after {
            ch.nontrivial();
            if told != 1 && after.0 > claim {
                return Err(format!("the new tip was announced {told} times to a peer that is behind"));
            }
        } else if told != 0 {
            return Err("a tip that is not new was announced".into());
        }
        ch.state(&after.1);
    }
    Ok(())
}

pub fn check(tier: Tier) -> Check {
    let d = tier.of(4, 5);
    let mut spaces = vec![
        space("ahead", format!("honest peer ahead on the node's chain and announcing; another peer doing anything; {d} steps"), move |ch| {
            let w = world(1, 1, 4);
            converge(&w, 4, FULL, 0, d, ch)
        }),
        space("forked", format!("honest peer on a longer fork; another peer claiming a height it does not have; {d} steps"), move |ch| {
            let w = world(2, 1, 4);
            converge(&w, 3, FULL, 100, d, ch)
        }),
        space("deep", format!("honest peer on a longer fork of several blocks; {} steps", d - 1), move |ch| {
            let w = world(3, 1, 4);
            converge(&w, 4, FULL, 0, d - 1, ch)
        }),
        space("all-cf", format!("honest peer also serves filters; {} steps", d - 1), move |ch| {
            let w = world(0, 0, 4);
            converge(&w, 3, FULL | CF, 0, d - 1, ch)
        }),
        space("level", format!("honest peer announces blocks while the node is level with it; {d} steps"), move |ch| {
            let w = world(2, 2, 3);
            converge(&w, 2, FULL, 2, d, ch)
        }),
        space("retries", "block announced by hash and not supplied by its announcer, 2 to 5 peers", |ch| {
            let n = 2 + ch.pick(4);
            retries(n, ch)
        }),
        space("import", "two imports by the user of up to two (thorough: three) headers from three chains and invalid ones", move |ch| import(tier.of(2, 3), ch)),
    ];
    for len in [MAX - 1, MAX, MAX + 1, 2 * MAX, 2 * MAX + 1] {
        let d = tier.of(4, 6);
        spaces.push(space(format!("batches-{len}"), format!("chain of {len} headers fetched in batches from two peers, one of which fails at any point; {d} steps"), move |ch| batches(len, d, ch)));
    }
    Check {
        spaces,
        rule: "an honest peer, simulated by an independent chain server, answers each request; the node's reported chain is reconstructed from its events and compared with its tree after every step; at the end the node must hold the honest peer's chain".into(),
        assumptions: vec![
            "regtest difficulty: work is proportional to height".into(),
            "an honest peer answers requests within the request timeout and announces new blocks by headers".into(),
        ],
    }
}
