//! P08: rescans.
use crate::engine::{space, Ch, Res};
use crate::filters::serve_cfheaders;
use crate::peers::{answer_pings, note_outs};
use crate::sim::*;
use crate::{Check, Tier};
use nakamoto_common::bitcoin::network::constants::ServiceFlags;
use nakamoto_common::bitcoin::network::message::NetworkMessage as M;
use nakamoto_common::bitcoin::network::message_blockdata::Inventory;
use nakamoto_common::bitcoin::network::message_filter::{CFilter, GetCFHeaders};
use nakamoto_common::bitcoin::{Block, BlockHash, Script, Transaction, Txid};
use nakamoto_p2p::fsm::event::TxStatus;
use nakamoto_p2p::fsm::{Command, Event, Limits, PeerId};
use std::collections::{BTreeMap, BTreeSet};
use std::ops::Bound;

const FULL: ServiceFlags = ServiceFlags::NETWORK;
const MAX: u64 = 1000;

struct Scan<'a> {
    chains: Vec<&'a Chain>,
    headers: Vec<(PeerId, GetCFHeaders)>,
    filters: Vec<(PeerId, BlockHash)>,
    blocks: Vec<(PeerId, BlockHash)>,
    active: Vec<BlockHash>,
    /// The rescan in force.
    on: bool,
    start: u64,
    end: Option<u64>,
    next: u64,
    watch: BTreeSet<Script>,
    txs: BTreeMap<Txid, Transaction>,
    /// Matched and not reported yet; of this rescan and of earlier ones.
    pending: BTreeSet<(u64, BlockHash)>,
    old: BTreeSet<(u64, BlockHash)>,
    scanned: Option<u64>,
    undone: bool,
    /// Filters the user asked for.
    extra: BTreeSet<u64>,
}

pub fn low(b: Bound<u64>, tip: u64) -> u64 {
    match b {
        Bound::Included(h) => h,
        Bound::Excluded(h) => h + 1,
        Bound::Unbounded => tip + 1,
    }
}

impl<'a> Scan<'a> {
    fn new(s: &mut Sim, chains: Vec<&'a Chain>) -> Self {
        let active = s.chain().iter().map(|b| b.block_hash()).collect();
        Self {
            chains,
            headers: vec![],
            filters: vec![],
            blocks: vec![],
            active,
            on: false,
            start: 0,
            end: None,
            next: 0,
            watch: BTreeSet::new(),
            txs: BTreeMap::new(),
            pending: BTreeSet::new(),
            old: BTreeSet::new(),
            scanned: None,
            undone: false,
            extra: BTreeSet::new(),
        }
    }
    fn find(&self, h: &BlockHash) -> Option<(&'a Chain, usize)> {
        self.chains.iter().find_map(|c| c.blocks.iter().position(|b| b.block_hash() == *h).map(|i| (*c, i)))
    }
    fn block(&self, h: &BlockHash) -> &'a Block {
        let (c, i) = self.find(h).expect("engine: block");
        &c.blocks[i]
    }
    fn filter(&self, h: &BlockHash) -> CFilter {
        let (c, i) = self.find(h).expect("engine: block");
        CFilter { filter_type: 0, block_hash: *h, filter: c.filters[i].content.clone() }
    }
    fn matches(&self, h: &BlockHash) -> bool {
        let b = self.block(h);
        let scripts: BTreeSet<&Script> = b.txdata.iter().flat_map(|t| t.output.iter().map(|o| &o.script_pubkey)).collect();
        self.watch.iter().any(|w| scripts.contains(w)) || self.txs.values().any(|t| t.output.iter().all(|o| o.script_pubkey.is_op_return() || scripts.contains(&o.script_pubkey)))
    }
    fn rescan(&mut self, s: &mut Sim, from: Bound<u64>, to: Bound<u64>, watch: Vec<Script>, ch: &mut Ch) -> Res {
        let tip = s.height();
        self.start = low(from, tip);
        self.end = match to {
            Bound::Included(h) => Some(h),
            Bound::Excluded(0) => {
                self.start = self.start.max(1);
                Some(0)
            }
            Bound::Excluded(h) => Some(h - 1),
            Bound::Unbounded => None,
        };
        self.on = true;
        self.next = self.start;
        self.scanned = None;
        self.undone = false;
        self.watch = watch.iter().cloned().collect();
        let p = std::mem::take(&mut self.pending);
        self.old.extend(p);
        s.command(Command::Rescan { from, to, watch });
        let (start, end) = (self.start, self.end);
        let outs = self.check(s, ch)?;
        if !events(&outs).any(|e| matches!(e, Event::FilterRescanStarted { start: a, stop: b } if *a == start && *b == end)) {
            return Err(format!("a rescan of {start}..={end:?} was not reported as started"));
        }
        Ok(())
    }
    fn check(&mut self, s: &mut Sim, ch: &mut Ch) -> Res<Vec<Out>> {
        let outs = s.take();
        note_outs(ch, &outs);
        let now: Vec<BlockHash> = s.chain().iter().map(|b| b.block_hash()).collect();
        let before = std::mem::replace(&mut self.active, now);
        for o in &outs {
            match o {
                Out::Msg(a, M::GetCFHeaders(g)) => self.headers.push((*a, g.clone())),
                Out::Msg(a, M::GetCFilters(g)) => {
                    let Some(stop) = self.active.iter().position(|h| *h == g.stop_hash).map(|x| x as u64) else {
                        return Err("filters asked for blocks that are not on the active chain".into());
                    };
                    let start = g.start_height as u64;
                    if g.filter_type != 0 || start > stop || stop - start >= MAX {
                        return Err(format!("filters {start}..={stop} asked for"));
                    }
                    if (start..=stop).any(|h| !self.extra.contains(&h) && (h < self.start || self.end.map_or(false, |e| h > e))) {
                        return Err(format!("filters {start}..={stop} asked for, outside of the range of the rescan"));
                    }
                    for h in start..=stop {
                        self.filters.push((*a, self.active[h as usize]));
                    }
                }
                Out::Msg(a, M::GetData(v)) => {
                    for i in v {
                        if let Inventory::Block(h) | Inventory::WitnessBlock(h) = i {
                            self.blocks.push((*a, *h));
                        }
                    }
                }
                Out::Event(Event::BlockHeadersImported { reverted, .. }) => {
                    if let Some((h, _)) = reverted.last() {
                        if self.on && self.next > *h {
                            self.next = (*h).max(self.start);
                        }
                        if self.on && self.scanned.map_or(false, |x| x >= *h) {
                            self.scanned = None;
                        }
                        if !self.on && self.end.map_or(false, |e| e >= *h) {
                            // It was complete, and isn't resumed.
                            self.undone = true;
                        }
                    }
                    let active = self.active.clone();
                    self.pending.retain(|(h, b)| active.get(*h as usize) == Some(b));
                }
                Out::Event(Event::FilterProcessed { block, height, matched, valid, .. }) => {
                    if !self.on {
                        return Err(format!("filter {height} processed with no rescan in progress"));
                    }
                    if *height != self.next {
                        return Err(format!("filter {height} processed, {} is next", self.next));
                    }
                    if self.end.map_or(false, |e| *height > e) {
                        return Err(format!("filter {height} processed, the rescan ends at {:?}", self.end));
                    }
                    if !*valid || (self.active.get(*height as usize) != Some(block) && before.get(*height as usize) != Some(block)) {
                        return Err(format!("filter of block {block} processed at height {height}, valid: {valid}; it isn't on the active chain"));
                    }
                    let want = self.matches(block);
                    if *matched != want {
                        return Err(format!("filter {height} reported with matched = {matched}, it should be {want}"));
                    }
                    if want {
                        self.pending.insert((*height, *block));
                        ch.nontrivial();
                    }
                    self.next += 1;
                }
                Out::Event(Event::FilterRescanStopped { height }) => {
                    if !self.on || self.end != Some(*height) || self.next <= *height {
                        return Err(format!("rescan reported as stopped at {height}; end is {:?}, next filter is {}, in progress: {}", self.end, self.next, self.on));
                    }
                    self.on = false;
                }
                Out::Event(Event::BlockMatched { block, height }) => {
                    let k = (*height, block.block_hash());
                    let old = self.old.remove(&k);
                    if !self.pending.remove(&k) && !old {
                        return Err(format!("block {height} reported as matched, although it doesn't match or was reported"));
                    }
                    if *block != *self.block(&k.1) {
                        return Err("a block was reported with other contents".into());
                    }
                    if let Some((h, _)) = self.pending.iter().next() {
                        if h < height {
                            return Err(format!("matched block {height} reported before {h}"));
                        }
                    }
                }
                Out::Event(Event::Scanned { height }) => {
                    if *height >= self.next || *height < self.start {
                        return Err(format!("reported as scanned up to {height}; filters from {} were processed up to {} (exclusive)", self.start, self.next));
                    }
                    if let Some((h, _)) = self.pending.iter().next() {
                        if h <= height {
                            return Err(format!("reported as scanned up to {height}, the matching block {h} wasn't reported yet"));
                        }
                    }
                    self.scanned = Some(*height);
                }
                Out::Event(Event::TxStatusChanged { txid, status }) => match status {
                    TxStatus::Confirmed { .. } => {
                        self.txs.remove(txid);
                    }
                    TxStatus::Reverted { transaction } => {
                        self.txs.insert(*txid, transaction.clone());
                    }
                    _ => {}
                },
                _ => {}
            }
        }
        if self.on && self.end.map_or(false, |e| self.next > e) {
            return Err(format!("the last filter of the rescan was processed, and it was not reported as stopped ({:?})", self.end));
        }
        self.headers.retain(|q| s.is_open(&q.0));
        self.filters.retain(|q| s.is_open(&q.0));
        self.blocks.retain(|q| s.is_open(&q.0));
        Ok(outs)
    }
    fn answer_headers(&mut self, s: &mut Sim, ch: &mut Ch) -> Res {
        while !self.headers.is_empty() {
            let (a, g) = self.headers.remove(0);
            if let Some(m) = serve_cfheaders(&self.chains, &g) {
                s.recv(a, M::CFHeaders(m));
                self.check(s, ch)?;
            }
        }
        Ok(())
    }
    fn answer_filters(&mut self, s: &mut Sim, rev: bool, ch: &mut Ch) -> Res {
        let mut v = std::mem::take(&mut self.filters);
        if rev {
            v.reverse();
        }
        for (a, h) in v {
            s.recv(a, M::CFilter(self.filter(&h)));
            self.check(s, ch)?;
        }
        Ok(())
    }
    fn answer_blocks(&mut self, s: &mut Sim, rev: bool, ch: &mut Ch) -> Res {
        let mut v = std::mem::take(&mut self.blocks);
        if rev {
            v.reverse();
        }
        for (a, h) in v {
            s.recv(a, M::Block(self.block(&h).clone()));
            self.check(s, ch)?;
        }
        Ok(())
    }
    /// With everything answered, the rescan gets to where it can get.
    fn finish(&mut self, s: &mut Sim, ch: &mut Ch) -> Res {
        for _ in 0..70 {
            self.answer_headers(s, ch)?;
            self.answer_filters(s, false, ch)?;
            self.answer_blocks(s, false, ch)?;
            s.run_for(1);
            self.check(s, ch)?;
            answer_pings(s);
            self.check(s, ch)?;
        }
        let tip = s.height();
        let last = self.end.map_or(tip, |e| e.min(tip));
        if last >= self.start {
            if self.next != last + 1 {
                return Err(format!("a minute after the last disturbance filters are processed up to {} (exclusive) of {}..={last}", self.next, self.start));
            }
            if self.scanned != Some(last) && !self.undone {
                return Err(format!("everything up to {last} is processed, last reported as scanned: {:?}", self.scanned));
            }
        }
        if let Some((h, _)) = self.pending.iter().next() {
            return Err(format!("block {h} matches and was never reported"));
        }
        if self.on != self.end.map_or(true, |e| e > tip && e >= self.start) {
            return Err(format!("rescan of {}..={:?} at height {tip}, in progress: {}", self.start, self.end, self.on));
        }
        Ok(())
    }
}

fn chains() -> (Chain, Chain) {
    let mut a = Chain::genesis();
    a.push(block_time(1), 1, &[script(1)], &[]);
    let mut b = a.clone();
    a.push(block_time(2), 1, &[script(2)], &[]);
    a.push(block_time(3), 1, &[script(1), script(3)], &[]);
    a.push(block_time(4), 1, &[script(2)], &[]);
    b.push(block_time(2), 2, &[script(3)], &[]);
    b.push(block_time(3), 2, &[script(2)], &[]);
    b.push(block_time(4), 2, &[script(1)], &[]);
    (a, b)
}

fn node(headers: &Chain, filters: usize, cache: usize, seed: u64) -> Sim {
    let mut s = Sim::new(Opts {
        headers: headers.headers(),
        filter_headers: headers.filter_headers[..=filters].to_vec(),
        limits: Limits { filter_cache_size: cache, ..Limits::default() },
        seed,
        ..Opts::default()
    });
    s.init();
    s
}

fn watches(i: usize) -> Vec<Script> {
    match i {
        0 => vec![script(1)],
        1 => vec![script(2)],
        2 => vec![script(1), script(2), script(3)],
        _ => vec![script(7)],
    }
}

/// Disturbances of all kinds.
fn scan(depth: usize, cache: usize, ch: &mut Ch) -> Res {
    let (a4, b) = chains();
    let a = a4.fork(3);
    let have = 3 - ch.pick(2);
    let mut s = node(&a, have, cache, 1);
    let (p, l, x) = (peer(0), peer(1), peer(2));
    s.inbound(x);
    s.handshake(x, 0, FULL);
    let mut f = Scan::new(&mut s, vec![&a4, &b]);
    s.outbound(l, 3, FULL | CF);
    s.outbound(p, 3, FULL | CF);
    f.check(&mut s, ch)?;
    let ranges = [(Bound::Included(0), Bound::Unbounded), (Bound::Included(1), Bound::Included(2)), (Bound::Included(2), Bound::Included(4)), (Bound::Unbounded, Bound::Unbounded)];
    let r = ch.pick(3);
    let w = [2, 0][ch.pick(2)];
    ch.note(|| format!("rescan {:?} watch {w}", ranges[r]));
    f.rescan(&mut s, ranges[r].0, ranges[r].1, watches(w), ch)?;
    let mut reorg = false;
    let mut last: Option<BlockHash> = None;
    for _ in 0..depth {
        #[derive(Clone, Copy, Debug)]
        enum Act {
            Headers,
            Filter(usize),
            Filters(bool),
            Bogus(usize),
            Blocks(bool),
            Block(usize),
            Again,
            Pass,
            Lose,
            Grow,
            Reorg(bool),
            Rescan(usize, usize),
            Watch,
        }
        let mut acts = vec![Act::Pass, Act::Rescan(0, 1), Act::Rescan(1, 2), Act::Rescan(3, 2), Act::Watch];
        if !f.headers.is_empty() {
            acts.push(Act::Headers);
        }
        let n = f.filters.len();
        if n > 0 {
            acts.push(Act::Filter(0));
            acts.push(Act::Filters(false));
        }
        if n > 1 {
            acts.push(Act::Filter(n - 1));
            acts.push(Act::Filters(true));
        }
        if let Some(i) = f.filters.iter().position(|q| q.0 == l) {
            acts.push(Act::Bogus(i));
        }
        if !f.blocks.is_empty() {
            acts.push(Act::Block(f.blocks.len() - 1));
        }
        if f.blocks.len() > 1 {
            acts.extend([Act::Blocks(false), Act::Blocks(true)]);
        }
        if last.is_some() {
            acts.push(Act::Again);
        }
        if s.is_open(&l) {
            acts.push(Act::Lose);
        }
        if !reorg {
            acts.push(Act::Reorg(false));
            if !f.blocks.is_empty() || !f.filters.is_empty() {
                acts.push(Act::Reorg(true));
            }
            if s.height() == 3 {
                acts.push(Act::Grow);
            }
        }
        let act = acts[ch.pick(acts.len())];
        ch.note(|| format!("{act:?}"));
        let mut punish = false;
        match act {
            Act::Headers => f.answer_headers(&mut s, ch)?,
            Act::Filter(i) => {
                let (q, h) = f.filters.remove(i);
                last = Some(h);
                s.recv(q, M::CFilter(f.filter(&h)));
            }
            Act::Filters(rev) => f.answer_filters(&mut s, rev, ch)?,
            Act::Bogus(i) => {
                let (_, h) = f.filters.remove(i);
                let at = f.active.iter().position(|b| *b == h);
                punish = at.map_or(false, |x| s.filter_chain().len() > x);
                let mut m = f.filter(&h);
                m.filter.push(0);
                s.recv(l, M::CFilter(m));
            }
            Act::Blocks(rev) => f.answer_blocks(&mut s, rev, ch)?,
            Act::Block(i) => {
                let (q, h) = f.blocks.remove(i);
                s.recv(q, M::Block(f.block(&h).clone()));
            }
            Act::Again => s.recv(p, M::CFilter(f.filter(&last.unwrap()))),
            Act::Pass => {
                for _ in 0..7 {
                    // The honest peer isn't that slow.
                    let (mine, others) = std::mem::take(&mut f.headers).into_iter().partition(|q| q.0 == p);
                    f.headers = mine;
                    f.answer_headers(&mut s, ch)?;
                    f.headers.extend::<Vec<_>>(others);
                    s.run_for(1);
                    f.check(&mut s, ch)?;
                    answer_pings(&mut s);
                    f.check(&mut s, ch)?;
                }
            }
            Act::Lose => s.lose(l),
            Act::Grow => s.recv(x, M::Headers(vec![a4.tip().header])),
            Act::Reorg(same) => {
                reorg = true;
                let mut msgs = vec![(x, M::Headers(b.headers()[2..].to_vec()))];
                if same {
                    // Answers arrive in the same round.
                    for (q, h) in std::mem::take(&mut f.filters) {
                        msgs.push((q, M::CFilter(f.filter(&h))));
                    }
                    for (q, h) in std::mem::take(&mut f.blocks) {
                        msgs.push((q, M::Block(f.block(&h).clone())));
                    }
                }
                s.recv_many(&msgs);
            }
            Act::Rescan(r, w) => f.rescan(&mut s, ranges[r].0, ranges[r].1, watches(w), ch)?,
            Act::Watch => {
                f.watch.insert(script(2));
                s.command(Command::Watch { watch: vec![script(2)] });
            }
        }
        ch.step();
        f.check(&mut s, ch)?;
        if punish && s.is_open(&l) {
            return Err("a peer that sent an invalid filter is still connected".into());
        }
        if !s.is_open(&p) {
            return Err("the honest peer was disconnected".into());
        }
        ch.state(&(s.tip(), f.next, f.start, f.end, &f.pending, f.filters.len(), f.blocks.len(), f.headers.len(), s.is_open(&l)));
    }
    s.lose(l);
    f.check(&mut s, ch)?;
    f.finish(&mut s, ch)?;
    if !s.is_open(&p) {
        return Err("the honest peer was disconnected".into());
    }
    Ok(())
}

/// Every range, every set of matching heights, every order of arrival.
fn orders(n: usize, cache: usize, ch: &mut Ch) -> Res {
    let mut a = Chain::genesis();
    for h in 1..=n {
        let t = block_time(h);
        a.push(t, 1, &[script(h as u8)], &[]);
    }
    let mut s = node(&a, n, cache, 1);
    let p = peer(0);
    let mut f = Scan::new(&mut s, vec![&a]);
    let late = ch.flip();
    if !late {
        s.outbound(p, n as u64, FULL | CF);
    }
    f.check(&mut s, ch)?;
    let watch: Vec<Script> = match ch.pick(3) {
        0 => (1..=n as u8).map(script).collect(),
        1 => vec![script(1)],
        _ => vec![script(n as u8), script(2)],
    };
    let from = ch.pick(n + 1) as u64;
    let to = from + ch.pick(n + 1 - from as usize) as u64;
    ch.note(|| format!("rescan {from}..={to}"));
    f.rescan(&mut s, Bound::Included(from), Bound::Included(to), watch, ch)?;
    if late {
        s.outbound(p, n as u64, FULL | CF);
        f.check(&mut s, ch)?;
    }
    while !f.filters.is_empty() {
        let i = ch.pick(f.filters.len());
        let (q, h) = f.filters.remove(i);
        s.recv(q, M::CFilter(f.filter(&h)));
        f.check(&mut s, ch)?;
        ch.step();
        if !f.blocks.is_empty() && ch.flip() {
            f.answer_blocks(&mut s, true, ch)?;
        }
        if ch.pick(3) == 2 && f.filters.len() == 1 {
            s.run_for(2);
            f.check(&mut s, ch)?;
        }
    }
    f.finish(&mut s, ch)?;
    // Once more, now with filters in the cache.
    if cache > 0 {
        let from = ch.pick(2) as u64;
        let w = vec![script(2), script(n as u8)];
        f.rescan(&mut s, Bound::Included(from), Bound::Unbounded, w, ch)?;
        f.finish(&mut s, ch)?;
    }
    Ok(())
}

/// Every combination of bounds around the ends of the chain.
fn bounds(ch: &mut Ch) -> Res {
    let (a, _) = chains();
    let mut s = node(&a, 4, 1024, 1);
    let p = peer(0);
    let mut f = Scan::new(&mut s, vec![&a]);
    if ch.flip() {
        s.outbound(p, 4, FULL | CF);
    }
    f.check(&mut s, ch)?;
    let bs = [0, 1, 3, 4, 5, 6, 1_000_000];
    let mut bound = |ch: &mut Ch| match ch.pick(3) {
        0 => Bound::Unbounded,
        1 => Bound::Included(*ch.of(&bs)),
        _ => Bound::Excluded(*ch.of(&bs)),
    };
    let (from, to) = (bound(ch), bound(ch));
    let w = ch.pick(4);
    ch.note(|| format!("rescan {from:?} {to:?} watch {w}"));
    f.rescan(&mut s, from, to, watches(w), ch)?;
    ch.step();
    if !s.is_open(&p) {
        s.outbound(p, 4, FULL | CF);
        f.check(&mut s, ch)?;
    }
    f.finish(&mut s, ch)?;
    ch.nontrivial();
    Ok(())
}

/// Rescans over filters that are cached, without peers, and requests for filters.
fn offline(depth: usize, cache: usize, ch: &mut Ch) -> Res {
    let (a, b) = chains();
    let a = a.fork(3);
    let mut s = node(&a, 3, cache, 1);
    let (p, x) = (peer(0), peer(2));
    s.inbound(x);
    s.handshake(x, 0, FULL);
    let mut f = Scan::new(&mut s, vec![&a, &b]);
    s.outbound(p, 3, FULL | CF);
    f.check(&mut s, ch)?;
    let first = ch.pick(2) as u64;
    f.rescan(&mut s, Bound::Included(first), Bound::Unbounded, watches(3), ch)?;
    for _ in 0..1 + ch.pick(4) {
        let (q, h) = f.filters.remove(0);
        s.recv(q, M::CFilter(f.filter(&h)));
        f.check(&mut s, ch)?;
        if f.filters.is_empty() {
            break;
        }
    }
    let mut reorg = false;
    for _ in 0..depth {
        let mut acts = vec![0, 1, 2, 3, 4];
        if !reorg {
            acts.push(5);
        }
        match acts[ch.pick(acts.len())] {
            0 => {
                ch.note(|| "peer gone or back".into());
                if s.is_open(&p) {
                    s.lose(p);
                } else {
                    let h = s.height();
                    s.outbound(p, h, FULL | CF);
                }
            }
            1 => {
                ch.note(|| "peer gone and back".into());
                s.lose(p);
                f.check(&mut s, ch)?;
                let h = s.height();
                s.outbound(p, h, FULL | CF);
            }
            2 => {
                let from = ch.pick(4) as u64;
                let to = *ch.of(&[Bound::Unbounded, Bound::Included(2), Bound::Excluded(4)]);
                ch.note(|| format!("rescan {from} {to:?}"));
                f.rescan(&mut s, Bound::Included(from), to, watches(2), ch)?;
            }
            3 => {
                let r = *ch.of(&[(0u64, 3u64), (2, 4), (3, 2), (5, 5), (1, u64::MAX)]);
                let (tx, rx) = crossbeam_channel::bounded(1);
                f.extra.extend(r.0..=r.1.min(4));
                let open = s.is_open(&p);
                let fit = r.0 <= r.1 && r.1 < s.filter_chain().len() as u64;
                s.command(Command::RequestFilters(r.0..=r.1, tx));
                let got = rx.recv().map_err(|_| "a request for filters got no reply")?;
                ch.note(|| format!("filters {r:?} requested: {got:?}"));
                if got.is_ok() != (open && fit) {
                    return Err(format!("filters {r:?} requested: {got:?}; connected: {open}, range is known: {fit}"));
                }
            }
            4 => {
                ch.note(|| "filters and blocks".into());
                f.answer_filters(&mut s, false, ch)?;
                f.answer_blocks(&mut s, false, ch)?;
            }
            _ => {
                reorg = true;
                ch.note(|| "re-org".into());
                s.recv(x, M::Headers(b.headers()[2..].to_vec()));
            }
        }
        ch.step();
        f.check(&mut s, ch)?;
        f.answer_headers(&mut s, ch)?;
        ch.state(&(s.tip(), f.next, f.start, f.end, &f.pending, f.filters.len(), f.blocks.len(), s.is_open(&p)));
    }
    if !s.is_open(&p) {
        let h = s.height();
        s.outbound(p, h, FULL | CF);
        f.check(&mut s, ch)?;
    }
    f.finish(&mut s, ch)
}

/// Submitted transactions are watched for until confirmed, and again when their block is reverted.
fn submitted(depth: usize, ch: &mut Ch) -> Res {
    let mut tx = transaction(1, 50, false);
    // Outputs that only some blocks pay to, and outputs that filters don't cover.
    let kind = ch.pick(4);
    if kind > 0 {
        let mut o = tx.output[0].clone();
        o.script_pubkey = if kind == 1 { script(51) } else { Script::new_op_return(b"data") };
        tx.output.push(o);
    }
    if kind == 3 {
        tx.output.remove(0);
    }
    ch.note(|| format!("transaction pays to {:?}", tx.output.iter().map(|o| o.script_pubkey.to_string()).collect::<Vec<_>>()));
    let mut base = Chain::genesis();
    base.grow(1, 1);
    let mut a = base.clone();
    a.push(block_time(2), 1, &[script(200)], &[tx.clone()]);
    let other = transaction(2, 52, false);
    a.push(block_time(3), 1, &[script(200)], &[other.clone()]);
    let mut b = base.clone();
    b.push(block_time(2), 2, &[script(50)], &[]);
    let again = ch.flip();
    b.push(block_time(3), 2, &[script(200)], if again { std::slice::from_ref(&tx) } else { &[] });
    b.push(block_time(4), 2, &[script(200)], if again { std::slice::from_ref(&other) } else { &[] });
    let mut s = node(&base, 1, 1024, 1);
    let (p, x) = (peer(0), peer(2));
    s.inbound(x);
    s.handshake(x, 0, FULL);
    let mut f = Scan::new(&mut s, vec![&a, &b]);
    s.outbound(p, 3, FULL | CF);
    f.check(&mut s, ch)?;
    f.rescan(&mut s, Bound::Unbounded, Bound::Unbounded, if ch.flip() { vec![script(9)] } else { vec![] }, ch)?;
    let (mut at, mut sent) = (0, false);
    for _ in 0..depth {
        let mut acts = vec![0];
        if !sent {
            acts.extend([1, 6]);
        }
        if at < 2 {
            acts.push(2);
        }
        if !f.headers.is_empty() {
            acts.push(3);
        }
        if !f.filters.is_empty() {
            acts.push(4);
        }
        if !f.blocks.is_empty() {
            acts.push(5);
        }
        let act = acts[ch.pick(acts.len())];
        match act {
            0 => {
                ch.note(|| "7s pass".to_string());
                for _ in 0..7 {
                    s.run_for(1);
                    f.check(&mut s, ch)?;
                    answer_pings(&mut s);
                    f.check(&mut s, ch)?;
                }
            }
            1 | 6 => {
                ch.note(|| format!("transaction submitted, with another one: {}", act == 6));
                sent = true;
                for tx in if act == 1 { vec![&tx] } else { vec![&tx, &other] } {
                    f.txs.insert(tx.txid(), tx.clone());
                    let (c, _r) = crossbeam_channel::bounded(1);
                    s.command(Command::SubmitTransaction(tx.clone(), c));
                }
            }
            2 => {
                at += 1;
                let c = if at == 1 { &a } else { &b };
                ch.note(|| format!("chain {at}"));
                s.recv(x, M::Headers(c.headers()[2..].to_vec()));
            }
            3 => f.answer_headers(&mut s, ch)?,
            4 => f.answer_filters(&mut s, true, ch)?,
            _ => f.answer_blocks(&mut s, true, ch)?,
        }
        ch.step();
        f.check(&mut s, ch)?;
        ch.state(&(s.tip(), f.next, f.txs.len(), f.filters.len(), f.blocks.len(), f.headers.len()));
    }
    f.finish(&mut s, ch)
}

/// Filters requested in batches.
fn batches(n: u64, ch: &mut Ch) -> Res {
    let c = {
        let mut c = crate::filters::long().fork_headers(n);
        let g = c.filters.first().cloned().unwrap_or_else(|| Chain::genesis().filters[0].clone());
        c.filters = std::iter::once(g).collect();
        c
    };
    let mut s = node(&c, n as usize, 1024, 1 + ch.pick(2) as u64);
    let (p, l) = (peer(0), peer(1));
    let mut f = Scan::new(&mut s, vec![&c]);
    s.outbound(p, n, FULL | CF);
    s.outbound(l, n, FULL | CF);
    f.check(&mut s, ch)?;
    let from = ch.pick(3) as u64;
    let to = if ch.flip() { Bound::Unbounded } else { Bound::Included(n - ch.pick(2) as u64) };
    f.rescan(&mut s, Bound::Included(from), to, vec![script(1)], ch)?;
    let end = f.end.unwrap_or(n);
    let want: Vec<BlockHash> = (from..=end).map(|h| c.hash(h)).collect();
    let got: Vec<BlockHash> = f.filters.iter().map(|q| q.1).collect();
    if want != got {
        return Err(format!("filters {from}..={end} needed, {} of {} asked for", got.len(), want.len()));
    }
    ch.step();
    ch.nontrivial();
    Ok(())
}

pub fn check(_: &str, tier: Tier) -> Check {
    let d = tier.of(4, 5);
    let n = tier.of(3, 4);
    let mut spaces = vec![space("bounds", "every combination of bounds around the ends of the chain", bounds)];
    for (c, name) in [(0usize, "uncached"), (1024 * 1024, "cached")] {
        spaces.push(space(format!("orders-{name}"), format!("{n} blocks, every range, every order of filters"), move |ch| orders(n, c, ch)));
        spaces.push(space(
            format!("scan-{name}"),
            format!("filters, blocks, invalid and repeated filters, re-org, new blocks, new rescans, losses and timeouts; {d} steps"),
            move |ch| scan(d, c, ch),
        ));
    }
    for (c, name) in [(0usize, "uncached"), (1024 * 1024, "cached"), (60, "little")] {
        spaces.push(space(
            format!("offline-{name}"),
            format!("the only peer comes and goes, rescans and requests for filters; {} steps", d - 1),
            move |ch| offline(d - 1, c, ch),
        ));
    }
    spaces.push(space("submitted", format!("rescan with a submitted transaction, confirmed and reverted; {} steps", d + 3), move |ch| submitted(d + 3, ch)));
    for n in [999, 1000, 1001, 2001] {
        spaces.push(space(format!("batches-{n}"), format!("requests for about {n} filters"), move |ch| batches(n, ch)));
    }
    Check {
        spaces,
        rule: "filters must be processed once each, in order, within the range, for blocks of the active chain; matches, reported blocks and progress must be those of a reference scan of the chain; at the end, with an honest peer answering, the scan must be complete".into(),
        assumptions: vec!["peers' filter headers are honest; filters are checked against them".into()],
    }
}
