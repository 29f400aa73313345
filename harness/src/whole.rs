//! E03: what a user ends up with is a function of the chain.
use crate::engine::{space, Ch, Res};
use crate::filters::serve_cfheaders;
use crate::peers::{answer_pings, note_outs};
use crate::sim::*;
use crate::sync::serve_headers;
use crate::{Check, Tier};
use nakamoto_common::bitcoin::network::constants::ServiceFlags;
use nakamoto_common::bitcoin::network::message::NetworkMessage as M;
use nakamoto_common::bitcoin::network::message_blockdata::{GetHeadersMessage, Inventory};
use nakamoto_common::bitcoin::network::message_filter::{CFilter, GetCFHeaders};
use nakamoto_common::bitcoin::{Block, BlockHash, Script, Transaction, Txid};
use nakamoto_p2p::fsm::event::TxStatus;
use nakamoto_p2p::fsm::{Command, Event, PeerId};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::ops::Bound;

const FULL: ServiceFlags = ServiceFlags::NETWORK;

/// Something an honest peer has to send.
enum Due {
    Headers(GetHeadersMessage),
    CfHeaders(GetCFHeaders),
    Filter(BlockHash),
    Block(BlockHash),
    Tx(Txid),
}

struct Peer {
    addr: PeerId,
    /// Index of the chain it is on.
    at: usize,
    due: VecDeque<Due>,
    /// Announces new blocks by header rather than by hash.
    by_header: bool,
}

/// The user: blocks and statuses as told by the events.
struct User {
    watch: BTreeSet<Script>,
    from: Option<u64>,
    view: BTreeMap<u64, Block>,
    tx: Option<Transaction>,
    status: Option<(u64, BlockHash)>,
    scanned: Option<u64>,
}

struct World<'a> {
    s: Sim,
    /// The chains honest peers go through, each with more work than the one before.
    chains: Vec<&'a Chain>,
    peers: Vec<Peer>,
    user: User,
    reorgs: usize,
}

impl<'a> World<'a> {
    fn find(&self, h: &BlockHash, upto: usize) -> Option<(&'a Chain, usize)> {
        self.chains[..=upto].iter().find_map(|c| c.blocks.iter().position(|b| b.block_hash() == *h).map(|i| (*c, i)))
    }
    fn relevant(&self, b: &Block) -> bool {
        b.txdata.iter().any(|t| t.output.iter().any(|o| self.user.watch.contains(&o.script_pubkey)))
    }
    /// Heights and hashes of the relevant blocks of the active chain.
    fn wanted(&self, active: &[BlockHash]) -> BTreeMap<u64, BlockHash> {
        let Some(from) = self.user.from else { return BTreeMap::new() };
        let mut v = BTreeMap::new();
        for (h, b) in active.iter().enumerate().skip(from as usize) {
            let (c, i) = self.find(b, self.chains.len() - 1).expect("engine: block");
            if self.relevant(&c.blocks[i]) {
                v.insert(h as u64, *b);
            }
        }
        v
    }
    fn view(&self) -> BTreeMap<u64, BlockHash> {
        self.user.view.iter().filter(|(_, b)| self.relevant(b)).map(|(h, b)| (*h, b.block_hash())).collect()
    }
    fn observe(&mut self, ch: &mut Ch) -> Res {
        let outs = self.s.take();
        note_outs(ch, &outs);
        let active: Vec<BlockHash> = self.s.chain().iter().map(|b| b.block_hash()).collect();
        for o in &outs {
            match o {
                Out::Event(Event::BlockDisconnected { height, header }) => {
                    self.reorgs += 1;
                    if let Some(b) = self.user.view.get(height) {
                        if b.block_hash() != header.block_hash() {
                            return Err(format!("block {} disconnected at height {height}, the user has {}", header.block_hash(), b.block_hash()));
                        }
                        ch.nontrivial();
                    }
                    self.user.view.remove(height);
                    if self.user.scanned.map_or(false, |x| x >= *height) {
                        self.user.scanned = height.checked_sub(1);
                    }
                }
                Out::Event(Event::BlockMatched { block, height }) => {
                    if self.user.from.map_or(true, |f| *height < f.min(1)) {
                        return Err(format!("block {height} reported without a rescan"));
                    }
                    self.user.view.insert(*height, block.clone());
                }
                Out::Event(Event::Scanned { height }) => {
                    self.user.scanned = Some(*height);
                    let want = self.wanted(&active);
                    let view = self.view();
                    for (h, b) in want.range(..=*height) {
                        if view.get(h) != Some(b) {
                            return Err(format!("scanned up to {height} and the user has not got the relevant block {h}"));
                        }
                    }
                }
                Out::Event(Event::TxStatusChanged { txid, status }) => {
                    if self.user.tx.as_ref().map(|t| t.txid()) != Some(*txid) {
                        return Err(format!("status of unknown transaction {txid} reported"));
                    }
                    match status {
                        TxStatus::Confirmed { height, block } => self.user.status = Some((*height, *block)),
                        TxStatus::Reverted { .. } => self.user.status = None,
                        _ => {}
                    }
                }
                Out::Msg(a, m) => {
                    let Some(p) = self.peers.iter_mut().find(|p| p.addr == *a) else { continue };
                    match m {
                        M::GetHeaders(g) => p.due.push_back(Due::Headers(g.clone())),
                        M::GetCFHeaders(g) => p.due.push_back(Due::CfHeaders(g.clone())),
                        M::GetCFilters(g) => {
                            let at = p.at;
                            let Some((c, i)) = self.find(&g.stop_hash, at) else { continue };
                            let p = self.peers.iter_mut().find(|p| p.addr == *a).unwrap();
                            for h in g.start_height as usize..=i {
                                p.due.push_back(Due::Filter(c.hash(h as u64)));
                            }
                        }
                        M::GetData(v) => {
                            for i in v {
                                match i {
                                    Inventory::Block(h) | Inventory::WitnessBlock(h) => p.due.push_back(Due::Block(*h)),
                                    _ => {}
                                }
                            }
                        }
                        M::Inv(v) => {
                            for i in v {
                                if let Inventory::Transaction(t) = i {
                                    p.due.push_back(Due::Tx(*t));
                                }
                            }
                        }
                        _ => {}
                    }
                }
                _ => {}
            }
        }
        // The user never holds something that isn't so.
        for (h, b) in self.view() {
            if active.get(h as usize) != Some(&b) {
                return Err(format!("the user holds block {b} for height {h}, which isn't on the active chain"));
            }
        }
        if let Some((h, b)) = self.user.status {
            if active.get(h as usize) != Some(&b) {
                return Err(format!("the user's transaction is confirmed in block {b} at height {h}, which isn't on the active chain"));
            }
        }
        Ok(())
    }
    /// Deliver the next message that peer `i` has to send.
    fn deliver(&mut self, i: usize, ch: &mut Ch) -> Res {
        let p = &mut self.peers[i];
        let Some(d) = p.due.pop_front() else { return Ok(()) };
        let (a, at) = (p.addr, p.at);
        let msg = match d {
            Due::Headers(g) => Some(M::Headers(serve_headers(&self.chains[at].headers(), &g.locator_hashes, g.stop_hash))),
            Due::CfHeaders(g) => serve_cfheaders(&self.chains[..=at], &g).map(M::CFHeaders),
            Due::Filter(h) => self.find(&h, at).map(|(c, i)| M::CFilter(CFilter { filter_type: 0, block_hash: h, filter: c.filters[i].content.clone() })),
            Due::Block(h) => self.find(&h, at).map(|(c, i)| M::Block(c.blocks[i].clone())),
            Due::Tx(t) => Some(M::GetData(vec![Inventory::Transaction(t)])),
        };
        if let Some(m) = msg {
            self.s.recv(a, m);
        }
        self.observe(ch)
    }
    fn advance(&mut self, i: usize, ch: &mut Ch) -> Res {
        let p = &mut self.peers[i];
        p.at += 1;
        let (old, new) = (self.chains[p.at - 1], self.chains[p.at]);
        if self.s.is_open(&p.addr) {
            let fork = (0..).take_while(|h| old.blocks.get(*h).map(|b| b.block_hash()) == new.blocks.get(*h).map(|b| b.block_hash())).count();
            let (a, by_header) = (p.addr, p.by_header);
            if by_header {
                self.s.recv(a, M::Headers(new.headers()[fork..].to_vec()));
            } else {
                self.s.recv(a, M::Inv(vec![Inventory::Block(new.tip().block_hash())]));
            }
        }
        self.observe(ch)
    }
    /// Peers that the node gave up on (they were too slow, or didn't have what it asked for) connect again.
    fn reconnect(&mut self, ch: &mut Ch) -> Res {
        for i in 0..2 {
            if !self.s.is_open(&self.peers[i].addr) {
                self.peers[i].due.clear();
                self.connect(i, ch)?;
            }
        }
        Ok(())
    }
    fn connect(&mut self, i: usize, ch: &mut Ch) -> Res {
        let (a, h) = (self.peers[i].addr, self.chains[self.peers[i].at].height());
        self.s.outbound(a, h, FULL | CF);
        self.observe(ch)
    }
    fn rescan(&mut self, from: u64, ch: &mut Ch) -> Res {
        self.user.from = Some(from);
        let watch = self.user.watch.iter().cloned().collect();
        self.s.command(Command::Rescan { from: Bound::Included(from), to: Bound::Unbounded, watch });
        self.observe(ch)
    }
    fn done(&mut self) -> Result<(), String> {
        let last = *self.chains.last().unwrap();
        let active: Vec<BlockHash> = self.s.chain().iter().map(|b| b.block_hash()).collect();
        if active.last() != Some(&last.tip().block_hash()) {
            return Err(format!("the node is at height {} of another chain", active.len() - 1));
        }
        let (want, view) = (self.wanted(&active), self.view());
        if let Some((h, _)) = want.iter().find(|(h, b)| view.get(h) != Some(b)) {
            return Err(format!("the user has not got the relevant block {h}"));
        }
        if self.user.scanned != Some(last.height()) {
            return Err(format!("the node reports itself as scanned up to {:?}", self.user.scanned));
        }
        if let Some(t) = &self.user.tx {
            let at = last.blocks.iter().position(|b| b.txdata.iter().any(|x| x.txid() == t.txid())).map(|i| (i as u64, last.hash(i as u64)));
            if self.user.status != at {
                return Err(format!("the user's transaction is confirmed at {:?}, it should be {at:?}", self.user.status));
            }
        }
        Ok(())
    }
}

fn run(chains: &[&Chain], start: usize, depth: usize, seeds: u64, tx: Option<&Transaction>, ch: &mut Ch) -> Res {
    let seed = 1 + ch.pick(seeds as usize) as u64;
    let first = chains[0];
    let stored = ch.pick(start + 1);
    let mut w = World {
        s: Sim::new(Opts {
            headers: if stored > 0 { first.headers() } else { vec![] },
            filter_headers: if stored > 1 { first.filter_headers.clone() } else { vec![] },
            seed,
            ..Opts::default()
        }),
        chains: chains.to_vec(),
        peers: (0..2).map(|i| Peer { addr: peer(i), at: 0, due: VecDeque::new(), by_header: i == 0 }).collect(),
        user: User { watch: [script(1), script(2)].into(), from: None, view: BTreeMap::new(), tx: None, status: None, scanned: None },
        reorgs: 0,
    };
    w.s.init();
    w.observe(ch)?;
    w.connect(0, ch)?;
    w.connect(1, ch)?;
    let early = ch.flip();
    if early {
        w.rescan(0, ch)?;
    }
    if let Some(t) = tx {
        w.user.tx = Some(t.clone());
        let (c, _r) = crossbeam_channel::bounded(1);
        w.s.command(Command::SubmitTransaction(t.clone(), c));
        w.observe(ch)?;
    }
    let mut rescans = 1;
    let mut losses = 1;
    let mut passes = 1;
    let mut watches = if tx.is_none() { 1 } else { 0 };
    let last = chains.len() - 1;
    for _ in 0..depth {
        #[derive(Debug, Clone, Copy)]
        enum Act {
            One(usize),
            All(usize),
            Advance(usize),
            Lose,
            Rescan(u64),
            Watch,
            Pass,
        }
        let mut acts = vec![];
        for i in 0..2 {
            if !w.peers[i].due.is_empty() {
                acts.push(Act::One(i));
            }
            if w.peers[i].due.len() > 1 {
                acts.push(Act::All(i));
            }
            if w.peers[i].at < last {
                acts.push(Act::Advance(i));
            }
        }
        if losses > 0 {
            acts.push(Act::Lose);
        }
        if rescans > 0 {
            acts.push(Act::Rescan(if early { 0 } else { 2 }));
        }
        if watches > 0 {
            acts.push(Act::Watch);
        }
        if passes > 0 {
            acts.push(Act::Pass);
        }
        if acts.is_empty() {
            break;
        }
        let act = acts[ch.pick(acts.len())];
        ch.note(|| format!("{act:?}"));
        match act {
            Act::One(i) => w.deliver(i, ch)?,
            Act::All(i) => {
                for _ in 0..w.peers[i].due.len() {
                    w.deliver(i, ch)?;
                }
            }
            Act::Advance(i) => w.advance(i, ch)?,
            Act::Lose => {
                losses -= 1;
                let a = w.peers[1].addr;
                w.s.lose(a);
                w.peers[1].due.clear();
                w.observe(ch)?;
                w.connect(1, ch)?;
            }
            Act::Rescan(f) => {
                rescans -= 1;
                w.rescan(f, ch)?;
            }
            Act::Watch => {
                // What is watched already is watched again.
                watches -= 1;
                let watch = w.user.watch.iter().cloned().collect();
                w.s.command(Command::Watch { watch });
                w.observe(ch)?;
            }
            Act::Pass => {
                passes -= 1;
                w.s.run_for(7);
                w.observe(ch)?;
            }
        }
        w.reconnect(ch)?;
        ch.step();
        ch.state(&(w.s.tip(), w.view(), w.user.scanned, w.peers.iter().map(|p| (p.at, p.due.len())).collect::<Vec<_>>()));
    }
    // Now everything is delivered.
    if w.user.from.is_none() {
        w.rescan(1, ch)?;
    }
    for i in 0..2 {
        while w.peers[i].at < last {
            w.advance(i, ch)?;
        }
    }
    let mut r = Err("engine: not looked at".to_string());
    let mut quiet = 0;
    for _ in 0..1200 {
        while w.peers.iter().any(|p| !p.due.is_empty()) {
            for i in 0..2 {
                w.deliver(i, ch)?;
            }
        }
        r = w.done();
        if r.is_ok() {
            quiet += 1;
            if quiet == 3 {
                break;
            }
        }
        w.s.run_for(1);
        w.observe(ch)?;
        answer_pings(&mut w.s);
        w.observe(ch)?;
        w.reconnect(ch)?;
    }
    if w.reorgs > 0 {
        ch.nontrivial();
    }
    r.map_err(|e| format!("twenty minutes after the last disturbance, with everything answered, {e}"))
}

fn chains(tx: &Transaction) -> (Chain, Chain, Chain) {
    let mut a = Chain::genesis();
    a.push(block_time(1), 1, &[script(1)], &[]);
    let mut b = a.clone();
    a.push(block_time(2), 1, &[script(2)], &[]);
    let a2 = a.clone();
    a.push(block_time(3), 1, &[script(5)], &[tx.clone()]);
    b.push(block_time(2), 2, &[script(1)], &[]);
    b.push(block_time(3), 2, &[script(7)], &[]);
    b.push(block_time(4), 2, &[script(2)], &[tx.clone()]);
    (a2, a, b)
}

pub fn check(tier: Tier) -> Check {
    let d = tier.of(5, 6);
    let mut spaces = vec![];
    for (name, with) in [("watch", false), ("submit", true)] {
        spaces.push(space(
            name,
            format!("two honest peers that move through three chains; every interleaving of their messages, announcements, a loss, rescans and a pause; {d} steps"),
            move |ch| {
                let tx = transaction(1, 9, false);
                let (a2, a3, b4) = chains(&tx);
                run(&[&a2, &a3, &b4], 2, d, tier.of(3, 4), with.then_some(&tx), ch)
            },
        ));
    }
    Check {
        spaces,
        rule: "the user's view, kept up to date from events alone, must never hold a block or confirmation that is not on the active chain, must be complete whenever the node says it has scanned, and must end as the relevant part of the peers' chain".into(),
        assumptions: vec!["peers are honest: they answer in order, with what their chain has".into()],
    }
}
