//! P09: block download. P10: submitted transactions.
use crate::engine::{space, Ch, Res};
use crate::peers::{answer_pings, note_outs};
use crate::sim::*;
use crate::{Check, Tier};
use nakamoto_common::bitcoin::network::constants::ServiceFlags;
use nakamoto_common::bitcoin::network::message::NetworkMessage as M;
use nakamoto_common::bitcoin::network::message_blockdata::Inventory;
use nakamoto_common::bitcoin::{Block, BlockHash, BlockHeader, Transaction, Txid, Witness};
use nakamoto_common::bitcoin_hashes::Hash as _;
use nakamoto_p2p::fsm::event::TxStatus;
use nakamoto_p2p::fsm::{Command, Event, PeerId};
use std::collections::{BTreeMap, BTreeSet};

const FULL: ServiceFlags = ServiceFlags::NETWORK;
/// Seconds between requests for the same block.
const RETRY: u64 = 15;

/// The block as peers send it when asked for it without witnesses (BIP 144).
fn stripped(b: &Block) -> Block {
    let mut b = b.clone();
    for tx in &mut b.txdata {
        for i in &mut tx.input {
            i.witness = Witness::new();
        }
    }
    b
}

/// Same header, other contents.
fn forged(b: &Block) -> Block {
    let mut b = b.clone();
    b.txdata.push(transaction(99, 99, false));
    b
}

struct Dl<'a> {
    chains: Vec<&'a Chain>,
    /// Requested and not yet reported.
    wanted: BTreeSet<BlockHash>,
    /// Requests received by peers and not answered.
    pending: Vec<(PeerId, BlockHash)>,
    asked: BTreeMap<BlockHash, u64>,
    /// A valid copy was delivered since the block was last asked for by the user.
    delivered: BTreeSet<BlockHash>,
    active: Vec<BlockHash>,
    no_blocks: PeerId,
    reported: u64,
}

fn hashes(h: Vec<BlockHeader>) -> Vec<BlockHash> {
    h.iter().map(|b| b.block_hash()).collect()
}

impl<'a> Dl<'a> {
    fn new(s: &mut Sim, chains: Vec<&'a Chain>, no_blocks: PeerId) -> Self {
        let active = hashes(s.chain());
        Self { chains, wanted: BTreeSet::new(), pending: vec![], asked: BTreeMap::new(), delivered: BTreeSet::new(), active, no_blocks, reported: 0 }
    }
    fn block(&self, h: &BlockHash) -> Option<&'a Block> {
        self.chains.iter().find_map(|c| c.blocks.iter().find(|b| b.block_hash() == *h))
    }
    fn wants(&mut self, h: BlockHash) {
        self.wanted.insert(h);
        if self.delivered.remove(&h) {
            self.asked.remove(&h);
        }
    }
    fn want(&mut self, s: &mut Sim, h: BlockHash) {
        self.wants(h);
        s.command(Command::RequestBlock(h));
    }
    fn check(&mut self, s: &mut Sim, ch: &mut Ch) -> Res<Vec<Out>> {
        let outs = s.take();
        note_outs(ch, &outs);
        let before = std::mem::replace(&mut self.active, hashes(s.chain()));
        for o in &outs {
            match o {
                Out::Msg(a, M::GetData(invs)) => {
                    for i in invs {
                        let (Inventory::Block(h) | Inventory::WitnessBlock(h)) = i else {
                            return Err(format!("{i:?} asked from {}", a.ip()));
                        };
                        if *a == self.no_blocks {
                            return Err("a block was asked from a peer that doesn't serve blocks".into());
                        }
                        if !self.wanted.contains(h) || self.delivered.contains(h) {
                            return Err(format!("block {h} asked for although nobody requested it or it was received"));
                        }
                        let now = s.now_secs();
                        if self.asked.get(h).map_or(false, |t| now < t + RETRY) {
                            return Err(format!("block {h} asked for again within {RETRY} seconds"));
                        }
                        self.asked.insert(*h, now);
                        self.pending.push((*a, *h));
                    }
                }
                Out::Event(Event::BlockProcessed { block, height, .. }) => {
                    let h = block.block_hash();
                    self.reported += 1;
                    let at = |c: &[BlockHash]| c.get(*height as usize) == Some(&h);
                    if !at(&self.active) && !at(&before) {
                        return Err(format!("block {h} reported at height {height}, where it is not on the active chain"));
                    }
                    if !self.wanted.remove(&h) {
                        return Err(format!("block {h} (height {height}) reported although not requested, or a second time"));
                    }
                    let b = self.block(&h).expect("engine: block");
                    if *block != *b && *block != stripped(b) {
                        return Err(format!("block {h} reported with contents that its header does not commit to"));
                    }
                    self.asked.remove(&h);
                    for w in &self.wanted {
                        if let Some(x) = self.active.iter().position(|c| c == w) {
                            if (x as u64) < *height {
                                return Err(format!("block at height {height} reported before the one at {x}, requested together with it"));
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        self.pending.retain(|(a, _)| s.is_open(a));
        Ok(outs)
    }
    fn answer_all(&mut self, s: &mut Sim, a: PeerId, ch: &mut Ch) -> Res {
        while let Some(i) = self.pending.iter().position(|(b, _)| *b == a) {
            let (_, h) = self.pending.remove(i);
            // Peers don't have blocks that are not on the active chain anymore.
            if let Some(b) = self.block(&h).filter(|_| self.active.contains(&h)) {
                self.delivered.insert(h);
                s.recv(a, M::Block(stripped(b)));
                self.check(s, ch)?;
            }
        }
        Ok(())
    }
    /// Let time pass with the honest peer answering.
    fn pass(&mut self, s: &mut Sim, a: PeerId, secs: u64, ch: &mut Ch) -> Res {
        for _ in 0..secs {
            self.answer_all(s, a, ch)?;
            s.run_for(1);
            self.check(s, ch)?;
            answer_pings(s);
            self.check(s, ch)?;
        }
        self.answer_all(s, a, ch)
    }
}

fn download(depth: usize, ch: &mut Ch) -> Res {
    let mut a = Chain::genesis();
    a.grow(3, 1);
    let mut b = a.fork(1);
    b.grow(3, 2);
    let seed = 1 + ch.pick(2) as u64;
    let mut s = Sim::new(Opts { headers: a.headers(), seed, ..Opts::default() });
    s.init();
    let (p, l, x) = (peer(0), peer(1), peer(2));
    s.inbound(x);
    s.handshake(x, 0, ServiceFlags::NONE);
    let late = ch.flip();
    if !late {
        s.outbound(l, 3, FULL);
        s.outbound(p, 3, FULL);
    }
    s.take();
    let mut f = Dl::new(&mut s, vec![&a, &b], x);
    let unknown = BlockHash::hash(b"unknown");
    let mut reorg = false;
    let mut connected = !late;
    let mut last: Option<BlockHash> = None;
    for _ in 0..depth {
        // What can happen.
        #[derive(Clone, Copy)]
        enum Act {
            Want(BlockHash),
            WantTwo(BlockHash, BlockHash),
            Answer(usize),
            AnswerAll(bool),
            Forged(usize),
            Uninvited(BlockHash),
            Again,
            Pass(u64),
            Lose,
            Reorg,
            Connect,
        }
        let mut acts = vec![Act::Pass(2), Act::Pass(16)];
        let top = if reorg { &b } else { &a };
        acts.push(Act::Want(top.hash(3)));
        acts.push(Act::WantTwo(top.hash(3), top.hash(1)));
        acts.push(Act::Want(top.hash(2)));
        acts.push(Act::Want(if reorg { a.hash(2) } else { unknown }));
        let mut seen: Vec<(PeerId, BlockHash)> = vec![];
        for (i, q) in f.pending.iter().enumerate() {
            if seen.contains(q) || f.block(&q.1).is_none() {
                continue;
            }
            seen.push(*q);
            acts.push(Act::Answer(i));
            if q.0 == l {
                acts.push(Act::Forged(i));
            }
        }
        if seen.len() > 1 {
            acts.extend([Act::AnswerAll(false), Act::AnswerAll(true)]);
        }
        if s.is_open(&l) {
            acts.push(Act::Lose);
            acts.push(Act::Uninvited(top.hash(2)));
        }
        if last.is_some() && s.is_open(&p) {
            acts.push(Act::Again);
        }
        if !reorg {
            acts.push(Act::Reorg);
        }
        if !connected {
            acts.push(Act::Connect);
        }
        let mut forger = None;
        match acts[ch.pick(acts.len())] {
            Act::Want(h) => {
                ch.note(|| format!("block {h} is requested"));
                f.want(&mut s, h);
            }
            Act::WantTwo(h, g) => {
                ch.note(|| format!("blocks {h} and {g} are requested"));
                f.wants(h);
                f.wants(g);
                s.commands(vec![Command::RequestBlock(h), Command::RequestBlock(g)]);
            }
            Act::Answer(i) => {
                let (q, h) = f.pending.remove(i);
                ch.note(|| format!("{} sends block {h}", q.ip()));
                f.delivered.insert(h);
                last = Some(h);
                s.recv(q, M::Block(stripped(f.block(&h).unwrap())));
                ch.nontrivial();
            }
            Act::AnswerAll(rev) => {
                let mut v: Vec<_> = std::mem::take(&mut f.pending).into_iter().filter(|q| f.block(&q.1).is_some()).collect();
                if rev {
                    v.reverse();
                }
                ch.note(|| format!("all requests are answered at once, reversed: {rev}"));
                f.delivered.extend(v.iter().map(|q| q.1));
                let msgs: Vec<_> = v.iter().map(|q| (q.0, M::Block(f.block(&q.1).unwrap().clone()))).collect();
                s.recv_many(&msgs);
                ch.nontrivial();
            }
            Act::Forged(i) => {
                let (q, h) = f.pending.remove(i);
                ch.note(|| format!("{} sends block {h} with other contents", q.ip()));
                if f.wanted.contains(&h) && !f.delivered.contains(&h) {
                    forger = Some(q);
                }
                s.recv(q, M::Block(forged(f.block(&h).unwrap())));
                ch.nontrivial();
            }
            Act::Uninvited(h) => {
                ch.note(|| format!("block {h} arrives, maybe nobody asked"));
                if f.wanted.contains(&h) {
                    f.delivered.insert(h);
                }
                s.recv(l, M::Block(f.block(&h).unwrap().clone()));
            }
            Act::Again => {
                let h = last.unwrap();
                ch.note(|| format!("block {h} arrives again"));
                if f.wanted.contains(&h) {
                    f.delivered.insert(h);
                }
                s.recv(p, M::Block(f.block(&h).unwrap().clone()));
            }
            Act::Pass(n) => {
                ch.note(|| format!("{n}s pass, nobody answers"));
                for _ in 0..n {
                    s.run_for(1);
                    f.check(&mut s, ch)?;
                    answer_pings(&mut s);
                    f.check(&mut s, ch)?;
                }
            }
            Act::Lose => {
                ch.note(|| "one peer is lost".to_string());
                s.lose(l);
            }
            Act::Reorg => {
                ch.note(|| "re-org".to_string());
                reorg = true;
                s.recv(x, M::Headers(b.headers()[2..].to_vec()));
                ch.nontrivial();
            }
            Act::Connect => {
                ch.note(|| "peers connect".to_string());
                connected = true;
                s.outbound(l, 3, FULL);
                s.outbound(p, 3, FULL);
            }
        }
        ch.step();
        f.check(&mut s, ch)?;
        if forger.map_or(false, |q| s.is_open(&q)) {
            return Err("a peer that sent a block with forged contents is still connected".into());
        }
        if connected && !s.is_open(&p) {
            return Err("the honest peer was disconnected".into());
        }
        ch.state(&(s.tip(), &f.wanted, f.pending.len(), &f.delivered, s.is_open(&l), s.next_timer().map(|d| d.as_secs())));
    }
    if !connected {
        s.outbound(p, 3, FULL);
    }
    s.lose(l);
    f.check(&mut s, ch)?;
    f.pass(&mut s, p, 40, ch)?;
    for h in &f.wanted {
        if let Some(x) = f.active.iter().position(|c| c == h) {
            return Err(format!("the block at height {x} was requested but never reported, although a peer sends what it is asked for"));
        }
    }
    if !s.is_open(&p) {
        return Err("the honest peer was disconnected".into());
    }
    Ok(())
}

/// Every order and grouping in which requested blocks can arrive.
fn orders(n: usize, ch: &mut Ch) -> Res {
    let mut a = Chain::genesis();
    a.grow(n, 1);
    let mut s = Sim::new(Opts { headers: a.headers(), ..Opts::default() });
    s.init();
    let p = peer(0);
    s.outbound(p, n as u64, FULL);
    s.take();
    let mut f = Dl::new(&mut s, vec![&a], peer(7));
    let mut left: Vec<BlockHash> = (0..=n as u64).map(|h| a.hash(h)).collect();
    // Requested in any order, all at once or one in the middle.
    let k = 1 + ch.pick(n + 1);
    let late = left.split_off(k);
    for h in left.iter().rev() {
        f.want(&mut s, *h);
    }
    let mut late = Some(late);
    s.run_for(2);
    f.check(&mut s, ch)?;
    while !left.is_empty() || late.is_some() {
        let i = ch.pick(left.len() + late.is_some() as usize);
        if i == left.len() {
            let v = late.take().unwrap();
            for h in v {
                f.want(&mut s, h);
                left.push(h);
            }
            s.run_for(2);
            f.check(&mut s, ch)?;
            continue;
        }
        let h = left.remove(i);
        f.delivered.insert(h);
        s.recv(p, M::Block(stripped(f.block(&h).unwrap())));
        f.check(&mut s, ch)?;
        ch.step();
        ch.nontrivial();
        ch.state(&(&left, &f.wanted));
    }
    if !f.wanted.is_empty() {
        return Err(format!("{} blocks were delivered and not reported", f.wanted.len()));
    }
    Ok(())
}

/// Every way in which the transactions sent with a header can differ from the ones it commits to, one at a time.
fn forgeries(ch: &mut Ch) -> Res {
    let n = ch.pick(5);
    let txs: Vec<Transaction> = (0..n as u8).map(|i| transaction(i, i, i % 2 == 0)).collect();
    let mut a = Chain::genesis();
    a.grow(1, 1);
    let s0 = script(1);
    a.push(block_time(2), 3, &[s0], &txs);
    let mut s = Sim::new(Opts { headers: a.headers(), ..Opts::default() });
    s.init();
    let (l, p) = (peer(1), peer(0));
    s.outbound(l, 2, FULL);
    s.take();
    let mut f = Dl::new(&mut s, vec![&a], peer(7));
    let h = a.hash(2);
    f.want(&mut s, h);
    s.run_for(1);
    f.check(&mut s, ch)?;
    let real = f.block(&h).unwrap();
    let mut b = if ch.flip() { stripped(real) } else { real.clone() };
    let len = b.txdata.len();
    let what = ch.pick(10);
    let i = if what == 0 || what == 1 { 0 } else { ch.pick(len) };
    match what {
        0 => b.txdata.clear(),
        1 => b.txdata.push(transaction(99, 99, false)),
        2 => {
            b.txdata.remove(i);
        }
        3 => b.txdata.insert(i, transaction(99, 99, false)),
        4 => b.txdata[i] = transaction(99, 99, false),
        5 => b.txdata[i].output[0].value += 1,
        6 => b.txdata[i].output[0].script_pubkey = script(98),
        7 => b.txdata[i].version += 1,
        8 => {
            // The last transactions are repeated. The merkle root may stay the same.
            let tail = b.txdata[i..].to_vec();
            b.txdata.extend(tail);
        }
        _ => {
            let j = ch.pick(len);
            if i == j {
                return Ok(());
            }
            b.txdata.swap(i, j);
        }
    }
    ch.note(|| format!("the block of {len} transactions is sent with its contents changed: change {what} at {i}"));
    s.recv(l, M::Block(b));
    f.pending.clear();
    ch.step();
    ch.nontrivial();
    ch.state(&(n, what, i));
    f.check(&mut s, ch)?;
    if s.is_open(&l) {
        return Err("a peer that sent a block with forged contents is still connected".into());
    }
    s.outbound(p, 2, FULL);
    f.check(&mut s, ch)?;
    f.pass(&mut s, p, 20, ch)?;
    if !f.wanted.is_empty() {
        return Err("a block was requested but never reported, although a peer sends what it is asked for".into());
    }
    Ok(())
}

// ---- Transactions ---------------------------------------------------------------------------------------------------

/// Seconds between announcements to a peer, and how much later than that they may be.
const ANNOUNCE: u64 = 60;
const SLACK: u64 = 4;
const ATTEMPTS: u64 = 3;

#[derive(Default, Clone)]
struct Queue {
    wtxid: bool,
    relay: bool,
    /// Transactions to announce and since when.
    txs: BTreeMap<Txid, u64>,
    /// Attempts to announce since the last sign of life, and when the last was.
    attempts: u64,
    /// Last announcement, forgotten when the peer reacts; and last announcement.
    last: Option<u64>,
    sent: Option<u64>,
}

struct Txs {
    txs: Vec<Transaction>,
    /// Submitted and not confirmed.
    pending: BTreeSet<Txid>,
    confirmed: BTreeMap<Txid, (BlockHash, u64)>,
    peers: BTreeMap<PeerId, Queue>,
    /// Expected answers and reports of this round.
    expect_tx: Vec<(PeerId, Txid)>,
    expect: Vec<(Txid, String)>,
}

fn status(t: &TxStatus) -> String {
    match t {
        TxStatus::Acknowledged { peer } => format!("acknowledged by {}", peer.ip()),
        TxStatus::Confirmed { height, block } => format!("confirmed in {block} at {height}"),
        TxStatus::Reverted { transaction } => format!("reverted {}", transaction.txid()),
        other => format!("{other:?}"),
    }
}

impl Txs {
    fn tx(&self, id: &Txid) -> &Transaction {
        self.txs.iter().find(|t| t.txid() == *id).expect("engine: transaction")
    }
    fn submitted(&mut self, id: Txid, now: u64) {
        self.pending.insert(id);
        for q in self.peers.values_mut().filter(|q| q.relay) {
            q.txs.entry(id).or_insert(now);
        }
    }
    fn connected(&mut self, a: PeerId, relay: bool, wtxid: bool, now: u64) {
        let txs = if relay { self.pending.iter().map(|t| (*t, now)).collect() } else { BTreeMap::new() };
        self.peers.insert(a, Queue { relay, wtxid, txs, attempts: 0, last: None, sent: None });
    }
    fn block(&mut self, b: &Block, height: u64) {
        for t in &b.txdata {
            let id = t.txid();
            if self.pending.remove(&id) {
                self.confirmed.insert(id, (b.block_hash(), height));
                self.expect.push((id, format!("confirmed in {} at {height}", b.block_hash())));
                for q in self.peers.values_mut() {
                    if q.txs.remove(&id).is_some() && q.txs.is_empty() {
                        q.attempts = 0;
                        q.last = None;
                    }
                }
            }
        }
    }
    fn reverted(&mut self, b: &Block, now: u64) {
        let h = b.block_hash();
        for id in self.confirmed.iter().filter(|c| c.1 .0 == h).map(|c| *c.0).collect::<Vec<_>>() {
            self.confirmed.remove(&id);
            self.expect.push((id, format!("reverted {id}")));
            self.submitted(id, now);
        }
    }
    fn getdata(&mut self, a: PeerId, id: Txid) {
        if self.pending.contains(&id) {
            self.expect_tx.push((a, id));
            let q = self.peers.get_mut(&a).unwrap();
            if q.txs.remove(&id).is_some() {
                q.attempts = 0;
                q.last = None;
                self.expect.push((id, format!("acknowledged by {}", a.ip())));
            }
        }
    }
    fn check(&mut self, s: &mut Sim, ch: &mut Ch) -> Res<Vec<Out>> {
        let outs = s.take();
        note_outs(ch, &outs);
        let now = s.now_secs();
        for o in &outs {
            match o {
                Out::Msg(a, M::Inv(invs)) => {
                    let q = self.peers.get_mut(a).ok_or("inventories sent to a peer that is not negotiated")?;
                    if !q.relay {
                        return Err("a transaction was announced to a peer that doesn't relay transactions".into());
                    }
                    if q.last.map_or(false, |t| now < t + ANNOUNCE) {
                        return Err(format!("announced to {} twice within a minute", a.ip()));
                    }
                    let mut left: BTreeSet<Txid> = q.txs.keys().cloned().collect();
                    for i in invs {
                        let id = match i {
                            Inventory::Transaction(t) | Inventory::WitnessTransaction(t) if !q.wtxid => *t,
                            Inventory::WTx(w) if q.wtxid => self.txs.iter().find(|t| t.wtxid() == *w).map(|t| t.txid()).ok_or("unknown transaction announced")?,
                            other => return Err(format!("{} was sent {other:?}", a.ip())),
                        };
                        if !left.remove(&id) {
                            return Err(format!("{id} announced to {}: confirmed, never submitted, or fetched already", a.ip()));
                        }
                    }
                    if !left.is_empty() {
                        return Err(format!("announcement to {} lacks {left:?}", a.ip()));
                    }
                    q.attempts += 1;
                    q.last = Some(now);
                    q.sent = Some(now);
                    if q.attempts > ATTEMPTS {
                        return Err(format!("announced to {} more than {ATTEMPTS} times", a.ip()));
                    }
                }
                Out::Msg(a, M::Tx(t)) => {
                    let i = self.expect_tx.iter().position(|e| *e == (*a, t.txid())).ok_or("a transaction was sent that is not pending or was not asked for")?;
                    self.expect_tx.remove(i);
                    if t != self.tx(&t.txid()) {
                        return Err("a transaction was sent altered".into());
                    }
                }
                Out::Event(Event::TxStatusChanged { txid, status: st }) => {
                    let d = status(st);
                    let i = self.expect.iter().position(|e| *e == (*txid, d.clone())).ok_or_else(|| format!("transaction {txid} reported as {d}, which is not so"))?;
                    self.expect.remove(i);
                }
                Out::Disconnect(a, r) => {
                    if let Some(q) = self.peers.get(a) {
                        if q.attempts < ATTEMPTS || q.txs.is_empty() || q.last.map_or(true, |t| now < t + ANNOUNCE) {
                            return Err(format!("{} was disconnected ({r}) after {} announcements", a.ip(), q.attempts));
                        }
                    }
                }
                _ => {}
            }
        }
        if let Some((id, e)) = self.expect.first() {
            return Err(format!("transaction {id} was not reported as {e}"));
        }
        if let Some((a, t)) = self.expect_tx.first() {
            return Err(format!("{} did not get {t} it asked for", a.ip()));
        }
        self.peers.retain(|a, _| s.is_open(a));
        for (a, q) in &self.peers {
            for (t, since) in &q.txs {
                let due = q.sent.map_or(*since, |l| (*since).max(l + ANNOUNCE));
                if now > due + SLACK {
                    return Err(format!("{t}, submitted and not fetched by {}, was due for announcement {} seconds ago", a.ip(), now - due));
                }
            }
        }
        for t in self.txs.clone() {
            let (tx, rx) = crossbeam_channel::bounded(1);
            s.command(Command::GetSubmittedTransaction(t.txid(), tx));
            let got = rx.recv().expect("reply");
            if got.is_some() != self.pending.contains(&t.txid()) {
                return Err(format!("asked for submitted transaction {}: {:?}, pending: {}", t.txid(), got.is_some(), self.pending.contains(&t.txid())));
            }
        }
        Ok(outs)
    }
    fn pass(&mut self, s: &mut Sim, secs: u64, ch: &mut Ch) -> Res {
        for _ in 0..secs {
            s.run_for(1);
            self.check(s, ch)?;
            answer_pings(s);
            self.check(s, ch)?;
        }
        Ok(())
    }
    /// The node requests a block and gets it.
    fn fetch(&mut self, s: &mut Sim, b: &Block, height: u64, ch: &mut Ch) -> Res {
        s.command(Command::RequestBlock(b.block_hash()));
        for _ in 0..3 {
            s.run_for(1);
            let outs = self.check(s, ch)?;
            for o in outs {
                if let Out::Msg(a, M::GetData(_)) = o {
                    if s.is_open(&a) {
                        self.block(b, height);
                        s.recv(a, M::Block(stripped(b)));
                        self.check(s, ch)?;
                        return Ok(());
                    }
                }
            }
        }
        Ok(())
    }
}

fn link(s: &mut Sim, a: PeerId, relay: bool, wtxid: bool) {
    s.command(Command::Connect(a));
    s.dial_ok(a);
    let mut v = version(a, 2, FULL, s.now_secs());
    v.relay = relay;
    s.handshake_with(a, v, wtxid);
}

fn submit(s: &mut Sim, f: &mut Txs, t: &Transaction) -> Res {
    let (tx, rx) = crossbeam_channel::bounded(1);
    f.submitted(t.txid(), s.now_secs());
    s.command(Command::SubmitTransaction(t.clone(), tx));
    let got: BTreeSet<PeerId> = match rx.recv().expect("reply") {
        Ok(v) => v.into_iter().collect(),
        Err(_) => BTreeSet::new(),
    };
    let want: BTreeSet<PeerId> = f.peers.iter().filter(|q| q.1.relay).map(|q| *q.0).collect();
    if got != want {
        return Err(format!("submission is said to go to {got:?} instead of {want:?}"));
    }
    Ok(())
}

fn transactions(depth: usize, ch: &mut Ch) -> Res {
    let base = {
        let mut c = Chain::genesis();
        c.grow(2, 1);
        c
    };
    let txs = vec![transaction(1, 11, true), transaction(2, 12, false)];
    let mut a = base.clone();
    a.push(block_time(3), 1, &[script(200)], if ch.flip() { &txs[..1] } else { &txs[..] });
    let mut b = base.clone();
    let again = ch.pick(3);
    b.push(block_time(3), 2, &[script(200)], if again == 1 { &txs[..1] } else { &[] });
    b.push(block_time(4), 2, &[script(200)], if again == 2 { &txs[..] } else { &[] });
    let mut s = Sim::new(Opts { headers: base.headers(), ..Opts::default() });
    s.init();
    let (r, w, n, x) = (peer(0), peer(1), peer(2), peer(3));
    s.inbound(x);
    let mut v = version(x, 0, ServiceFlags::NONE, s.now_secs());
    v.relay = false;
    s.handshake_with(x, v, true);
    link(&mut s, r, true, false);
    s.take();
    let mut f = Txs { txs: txs.clone(), pending: BTreeSet::new(), confirmed: BTreeMap::new(), peers: BTreeMap::new(), expect_tx: vec![], expect: vec![] };
    let now = s.now_secs();
    f.connected(x, false, true, now);
    f.connected(r, true, false, now);
    let mut on = 0;
    let mut held: Option<PeerId> = None;
    let mut met = BTreeSet::from([r]);
    for _ in 0..depth {
        #[derive(Clone, Copy, Debug)]
        enum Act {
            Submit(usize),
            Fetch(PeerId, usize, u8),
            FetchAll(PeerId),
            Pass(u64),
            Connect(PeerId),
            Lose,
            Block,
            /// The block is requested, and sent later.
            Request,
            Deliver,
            Reorg,
        }
        let mut acts = vec![Act::Pass(2), Act::Pass(123), Act::Submit(0), Act::Submit(1)];
        for q in [r, w] {
            if s.is_open(&q) {
                acts.extend([Act::Fetch(q, 0, 2), Act::Fetch(q, 1, 0)]);
            }
        }
        if s.is_open(&w) {
            acts.push(Act::Fetch(w, 0, 1));
            acts.push(Act::Fetch(w, 1, 2));
            acts.push(Act::FetchAll(w));
        }
        for q in [w, n] {
            if !met.contains(&q) {
                acts.push(Act::Connect(q));
            }
        }
        if s.is_open(&r) {
            acts.push(Act::Lose);
            if on == 0 {
                acts.push(Act::Block);
                if held.is_none() {
                    acts.push(Act::Request);
                }
            }
            if on < 2 {
                acts.push(Act::Reorg);
            }
        }
        if on == 1 && held.map_or(false, |q| s.is_open(&q)) {
            acts.push(Act::Deliver);
        }
        let act = acts[ch.pick(acts.len())];
        ch.note(|| format!("{act:?}"));
        match act {
            Act::Pass(k) => f.pass(&mut s, k, ch)?,
            Act::Submit(i) => submit(&mut s, &mut f, &txs[i])?,
            Act::Fetch(q, i, kind) => {
                let inv = match kind {
                    0 => Inventory::Transaction(txs[i].txid()),
                    1 => Inventory::WitnessTransaction(txs[i].txid()),
                    _ => Inventory::WTx(txs[i].wtxid()),
                };
                f.getdata(q, txs[i].txid());
                s.recv(q, M::GetData(vec![inv]));
                ch.nontrivial();
            }
            Act::FetchAll(q) => {
                let unknown = transaction(77, 77, false);
                let mut invs = vec![Inventory::WTx(unknown.wtxid()), Inventory::Transaction(unknown.txid()), Inventory::Block(a.hash(1)), Inventory::Error];
                for tx in &txs {
                    f.getdata(q, tx.txid());
                    invs.push(Inventory::WTx(tx.wtxid()));
                }
                s.recv(q, M::GetData(invs));
                ch.nontrivial();
            }
            Act::Connect(q) => {
                met.insert(q);
                link(&mut s, q, q == w, q == w);
                let now = s.now_secs();
                f.connected(q, q == w, q == w, now);
            }
            Act::Lose => s.lose(r),
            Act::Block => {
                on = 1;
                s.recv(x, M::Headers(vec![a.tip().header]));
                f.check(&mut s, ch)?;
                f.fetch(&mut s, a.tip(), 3, ch)?;
                ch.nontrivial();
            }
            Act::Request => {
                on = 1;
                s.recv(x, M::Headers(vec![a.tip().header]));
                f.check(&mut s, ch)?;
                s.command(Command::RequestBlock(a.tip().block_hash()));
                s.run_for(1);
                for o in f.check(&mut s, ch)? {
                    if let Out::Msg(q, M::GetData(_)) = o {
                        held = Some(q);
                    }
                }
            }
            Act::Deliver => {
                f.block(a.tip(), 3);
                s.recv(held.take().unwrap(), M::Block(stripped(a.tip())));
                ch.nontrivial();
            }
            Act::Reorg => {
                if on == 1 {
                    f.reverted(a.tip(), s.now_secs());
                }
                on = 2;
                s.recv(x, M::Headers(b.headers()[3..].to_vec()));
                f.check(&mut s, ch)?;
                f.fetch(&mut s, &b.blocks[3], 3, ch)?;
                f.fetch(&mut s, &b.blocks[4], 4, ch)?;
                ch.nontrivial();
            }
        }
        ch.step();
        f.check(&mut s, ch)?;
        ch.state(&(&f.pending, on, f.peers.iter().map(|(a, q)| (*a, q.attempts, q.txs.len(), q.last.map(|t| s.now_secs() - t))).collect::<Vec<_>>()));
    }
    // Announcements run out.
    f.pass(&mut s, 4 * ANNOUNCE + 20, ch)?;
    for (a, q) in &f.peers {
        if !q.txs.is_empty() {
            return Err(format!("{} did not fetch {} transactions and is still connected", a.ip(), q.txs.len()));
        }
    }
    if f.peers.get(&x).is_none() || (met.contains(&n) && f.peers.get(&n).is_none()) {
        return Err("a peer that doesn't relay transactions was disconnected".into());
    }
    Ok(())
}

/// Transactions are remembered for twelve blocks after their confirmation.
fn deep(ch: &mut Ch) -> Res {
    let tx = transaction(1, 11, true);
    let k = 9 + ch.pick(5);
    let mut a = Chain::genesis();
    a.grow(1, 1);
    let mut b = a.clone();
    a.push(block_time(2), 1, &[script(200)], &[tx.clone()]);
    a.grow(k, 1);
    b.grow(k + 2, 2);
    let start = a.fork(1);
    let mut s = Sim::new(Opts { headers: start.headers(), ..Opts::default() });
    s.init();
    let (r, x) = (peer(0), peer(3));
    s.inbound(x);
    let mut v = version(x, 0, ServiceFlags::NONE, s.now_secs());
    v.relay = false;
    s.handshake_with(x, v, false);
    link(&mut s, r, true, false);
    s.take();
    let mut f = Txs { txs: vec![tx.clone()], pending: BTreeSet::new(), confirmed: BTreeMap::new(), peers: BTreeMap::new(), expect_tx: vec![], expect: vec![] };
    let now = s.now_secs();
    f.connected(x, false, false, now);
    f.connected(r, true, false, now);
    submit(&mut s, &mut f, &tx)?;
    f.check(&mut s, ch)?;
    f.pass(&mut s, 2, ch)?;
    s.recv(x, M::Headers(vec![a.blocks[2].header]));
    f.fetch(&mut s, &a.blocks[2], 2, ch)?;
    s.recv(x, M::Headers(a.headers()[3..].to_vec()));
    f.check(&mut s, ch)?;
    if ch.flip() {
        f.pass(&mut s, 61, ch)?;
    }
    ch.step();
    // The block is k blocks deep.
    let mut reports = false;
    if k <= 12 {
        f.reverted(&a.blocks[2], s.now_secs());
        reports = true;
    }
    s.recv(x, M::Headers(b.headers()[2..].to_vec()));
    if !reports {
        // May or may not be remembered.
        let outs = s.take();
        let _ = outs;
        return Ok(());
    }
    f.check(&mut s, ch)?;
    f.pass(&mut s, 5, ch)?;
    ch.nontrivial();
    Ok(())
}

/// The same transaction submitted with different witnesses (signed twice): confirmed as one.
fn versions(depth: usize, ch: &mut Ch) -> Res {
    let base = {
        let mut c = Chain::genesis();
        c.grow(2, 1);
        c
    };
    let v1 = transaction(1, 11, true);
    let mut v2 = v1.clone();
    v2.input[0].witness = nakamoto_common::bitcoin::Witness::from_vec(vec![vec![9, 9, 9]]);
    let txs = [v1, v2];
    let id = txs[0].txid();
    if txs[1].txid() != id || txs[0].wtxid() == txs[1].wtxid() {
        return Err("engine: versions".into());
    }
    let mut a = base.clone();
    a.push(block_time(3), 1, &[script(200)], &txs[..1]);
    let mut b = base.clone();
    b.grow(2, 2);
    let mut s = Sim::new(Opts { headers: base.headers(), ..Opts::default() });
    s.init();
    let (r, w, x) = (peer(0), peer(1), peer(3));
    s.inbound(x);
    let mut v = version(x, 0, ServiceFlags::NONE, s.now_secs());
    v.relay = false;
    s.handshake_with(x, v, false);
    link(&mut s, r, true, false);
    link(&mut s, w, true, true);
    s.take();
    let mut pending = [false; 2];
    let mut on = 0;
    // Looks at what the node did: `asked` is the version asked for by identifier with witness.
    fn look(s: &mut Sim, pending: &[bool; 2], txs: &[Transaction; 2], asked: &[Transaction], reports: &mut Vec<String>, ch: &mut Ch) -> Res<usize> {
        let outs = s.take();
        note_outs(ch, &outs);
        let mut sent = 0;
        for o in &outs {
            match o {
                Out::Msg(a, M::Inv(v)) => {
                    for i in v {
                        let known = match i {
                            Inventory::WTx(w) => (0..2).any(|k| pending[k] && txs[k].wtxid() == *w),
                            Inventory::Transaction(t) => *t == txs[0].txid() && (pending[0] || pending[1]),
                            _ => false,
                        };
                        if !known {
                            return Err(format!("{i:?} announced to {}, which is confirmed or was never submitted", a.ip()));
                        }
                    }
                }
                Out::Msg(_, M::Tx(t)) => {
                    sent += 1;
                    if !asked.contains(t) {
                        return Err("a transaction was sent that was not asked for, altered or not submitted".into());
                    }
                }
                Out::Event(Event::TxStatusChanged { txid, status: st }) if *txid == txs[0].txid() => reports.push(status(st)),
                Out::Event(Event::TxStatusChanged { .. }) => return Err("status of an unknown transaction".into()),
                _ => {}
            }
        }
        Ok(sent)
    }
    for _ in 0..depth {
        let mut acts = vec![0, 1, 2, 3];
        if s.is_open(&r) {
            acts.push(4);
            if on < 2 {
                acts.push(9);
            }
            if on == 0 {
                acts.push(8);
            }
        }
        if s.is_open(&w) {
            acts.extend([5, 6]);
        }
        let act = *ch.of(&acts);
        ch.step();
        ch.note(|| ["submit version 1", "submit version 2", "wait 2 s", "wait 61 s", "fetch by txid", "fetch version 1 by wtxid", "fetch version 2 by wtxid", "", "block with version 1", "re-org without it"][act].into());
        let mut reports = vec![];
        match act {
            0 | 1 => {
                let (tx, _rx) = crossbeam_channel::bounded(1);
                // Once confirmed, submitting it again is the user's business.
                // The latest version replaces the other.
                pending = [act == 0, act == 1];
                s.command(Command::SubmitTransaction(txs[act].clone(), tx));
                look(&mut s, &pending, &txs, &[], &mut reports, ch)?;
            }
            2 | 3 => {
                for _ in 0..if act == 2 { 2 } else { 61 } {
                    s.run_for(1);
                    answer_pings(&mut s);
                    look(&mut s, &pending, &txs, &[], &mut reports, ch)?;
                }
            }
            4..=6 => {
                let (p, inv, may): (_, _, Vec<Transaction>) = match act {
                    4 => (r, Inventory::Transaction(id), (0..2).filter(|k| pending[*k]).map(|k| txs[k].clone()).collect()),
                    k => (w, Inventory::WTx(txs[k - 5].wtxid()), (0..2).filter(|j| *j == k - 5 && pending[*j]).map(|k| txs[k].clone()).collect()),
                };
                s.recv(p, M::GetData(vec![inv]));
                let sent = look(&mut s, &pending, &txs, &may, &mut reports, ch)?;
                if sent != usize::from(!may.is_empty()) {
                    return Err(format!("{sent} transactions sent to a peer that asked for one"));
                }
                reports.retain(|r| !r.starts_with("acknowledged"));
                ch.nontrivial();
            }
            8 => {
                on = 1;
                s.recv(x, M::Headers(vec![a.tip().header]));
                look(&mut s, &pending, &txs, &[], &mut reports, ch)?;
                s.command(Command::RequestBlock(a.tip().block_hash()));
                s.run_for(1);
                look(&mut s, &pending, &txs, &[], &mut reports, ch)?;
                let was = pending[0] || pending[1];
                pending = [false; 2];
                s.recv(r, M::Block(stripped(a.tip())));
                look(&mut s, &pending, &txs, &[], &mut reports, ch)?;
                let want: Vec<String> = if was { vec![format!("confirmed in {} at 3", a.tip().block_hash())] } else { vec![] };
                if reports != want {
                    return Err(format!("reported {reports:?} instead of {want:?}"));
                }
                reports.clear();
                ch.nontrivial();
            }
            _ => {
                let confirmed = on == 1;
                on = 2;
                let before = pending;
                // Either version may come back.
                if confirmed {
                    pending = [true; 2];
                }
                s.recv(x, M::Headers(b.headers()[3..].to_vec()));
                look(&mut s, &pending, &txs, &[], &mut reports, ch)?;
                let back = reports.iter().filter(|r| r.starts_with("reverted")).count();
                if back > 1 || reports.len() != back {
                    return Err(format!("reported {reports:?} after a re-org"));
                }
                if back == 0 {
                    pending = before;
                } else {
                    // Follow the node in which version it kept.
                    for k in 0..2 {
                        s.recv(w, M::GetData(vec![Inventory::WTx(txs[k].wtxid())]));
                        pending[k] = s.take().iter().any(|o| matches!(o, Out::Msg(_, M::Tx(_))));
                    }
                    if s.is_open(&w) && !pending[0] && !pending[1] {
                        return Err("reported as reverted, but not pending".into());
                    }
                    if !s.is_open(&w) {
                        return Ok(());
                    }
                }
                reports.clear();
            }
        }
        if !reports.is_empty() {
            return Err(format!("reported {reports:?}"));
        }
        let (tx, rx) = crossbeam_channel::bounded(1);
        s.command(Command::GetSubmittedTransaction(id, tx));
        let got = rx.recv().expect("reply");
        if got.is_some() != (pending[0] || pending[1]) {
            return Err(format!("submitted transaction found: {}, pending: {pending:?}", got.is_some()));
        }
        ch.state(&(pending, on, s.is_open(&r), s.is_open(&w)));
    }
    // Pending ones are announced, others are not.
    let mut reports = vec![];
    for _ in 0..250 {
        s.run_for(1);
        answer_pings(&mut s);
        look(&mut s, &pending, &txs, &[], &mut reports, ch)?;
    }
    if !reports.is_empty() {
        return Err(format!("reported {reports:?}"));
    }
    Ok(())
}

pub fn check(id: &str, tier: Tier) -> Check {
    match id {
        "P09" => {
            let d = tier.of(5, 6);
            let n = tier.of(5, 6);
            Check {
                spaces: vec![
                    space("download", format!("requests, deliveries, forged and repeated blocks, losses, re-org and delays; {d} steps"), move |ch| download(d, ch)),
                    space("orders", format!("{} blocks arriving in every order, requested in two groups", n + 1), move |ch| orders(n, ch)),
                    space("forgeries", "blocks of up to five transactions with every one of them removed, replaced, moved or changed", forgeries),
                ],
                rule: "every reported block must be requested, on the active chain at its height, genuine, reported once and not before a lower requested one; at the end, with an honest peer answering, no requested block of the active chain is missing".into(),
                assumptions: vec!["peers send blocks without witnesses when asked for blocks without witnesses, as BIP 144 demands".into()],
            }
        }
        "P10" => {
            let d = tier.of(4, 5);
            Check {
                spaces: vec![
                    space("transactions", format!("submissions, fetches, connections, losses, blocks, re-org and delays; {d} steps"), move |ch| transactions(d, ch)),
                    space("deep", "re-orgs of every depth around the limit", deep),
                    space("versions", format!("a transaction submitted with two different witnesses; {} steps", d + 1), move |ch| versions(d + 1, ch)),
                ],
                rule: "announcements, deliveries and status reports must be those of a reference model; announcements have a deadline".into(),
                assumptions: vec!["peers send blocks without witnesses when asked for blocks without witnesses, as BIP 144 demands".into()],
            }
        }
        _ => unreachable!(),
    }
}
