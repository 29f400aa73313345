//! F02: filter cache. T01: network-adjusted time. T02: timers. E01: fee estimates.
use crate::engine::{space, Ch, Res};
use crate::{Check, Tier};
use nakamoto_common::bitcoin::blockdata::block::BlockHeader;
use nakamoto_common::bitcoin::blockdata::script::Script;
use nakamoto_common::bitcoin::blockdata::transaction::{OutPoint, Transaction, TxIn, TxOut};
use nakamoto_common::bitcoin::blockdata::witness::Witness;
use nakamoto_common::bitcoin::hash_types::{BlockHash, TxMerkleNode, Txid};
use nakamoto_common::bitcoin::{Block, PackedLockTime, Sequence};
use nakamoto_common::bitcoin_hashes::Hash as _;
use nakamoto_common::block::time::{AdjustedClock, AdjustedTime, Clock, LocalDuration, LocalTime, RefClock};
use nakamoto_net_poll::time::TimeoutManager;
use nakamoto_p2p::fsm::fees::{FeeEstimate, FeeEstimator};
use nakamoto_p2p::fsm::filter_cache::{Filter, FilterCache};
use std::collections::{BTreeMap, HashMap};

// ---- F02 -------------------------------------------------------------------------------------------------------

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
struct Fil {
    tag: u32,
    len: usize,
}
impl Filter for Fil {
    fn len(&self) -> usize {
        self.len
    }
}

fn filter_cache(capacity: usize, depth: usize, sizes: &[usize], heights: u64, ch: &mut Ch) -> Res {
    let mut c: FilterCache<Fil> = FilterCache::new(capacity);
    // Last filter stored per height, not rolled back since.
    let mut last: BTreeMap<u64, Fil> = BTreeMap::new();
    let mut tag = 0;
    for d in 0..depth {
        if !ch.flip() {
            let h = ch.pick(heights as usize) as u64;
            let len = *ch.of(sizes);
            tag += 1;
            let f = Fil { tag, len };
            let stored = c.push(h, f.clone());
            ch.note(|| format!("push filter of {len} bytes at {h} -> {stored}"));
            if stored != (len <= capacity) {
                return Err(format!("push of {len} bytes into a cache of {capacity} returned {stored}"));
            }
            if stored {
                if last.insert(h, f).is_some() {
                    ch.nontrivial();
                }
            }
        } else {
            let h = ch.pick(heights as usize) as u64;
            c.rollback(h);
            ch.note(|| format!("rollback to {h}"));
            last.retain(|k, _| *k <= h);
        }
        ch.step();
        let held: Vec<(u64, Fil)> = c.iter().map(|(h, f)| (*h, f.clone())).collect();
        let total: usize = held.iter().map(|(_, f)| f.len).sum();
        if total > capacity {
            return Err(format!("cache holds {total} bytes, more than its capacity of {capacity}"));
        }
        if c.size() != total {
            return Err(format!("cache reports {} bytes but holds {total}", c.size()));
        }
        if c.len() != held.len() || c.is_empty() != held.is_empty() || c.heights().collect::<Vec<_>>() != held.iter().map(|x| x.0).collect::<Vec<_>>() {
            return Err("length, heights and contents disagree".into());
        }
        if c.start() != held.first().map(|x| x.0) || c.end() != held.last().map(|x| x.0) || c.capacity() != capacity {
            return Err("start or end of the cache is wrong".into());
        }
        for h in 0..heights + 2 {
            let got = c.get(&h).cloned();
            if let Some(f) = &got {
                if last.get(&h) != Some(f) {
                    return Err(format!("cache returns a filter for height {h} that is not the last one stored"));
                }
            }
            if got != held.iter().find(|x| x.0 == h).map(|x| x.1.clone()) {
                return Err(format!("lookup and iteration disagree at height {h}"));
            }
        }
        // Nothing is dropped unless space is needed: what is missing could not be kept along with it, lowest heights first.
        let start = held.first().map(|x| x.0).unwrap_or(u64::MAX);
        for (h, f) in &last {
            if !held.iter().any(|x| x.0 == *h) && *h > start {
                return Err(format!("filter of {} bytes at height {h} was dropped although a lower one is held", f.len));
            }
        }
        last.retain(|h, _| held.iter().any(|x| x.0 == *h));
        ch.state(&(held, d));
    }
    Ok(())
}

/// Without pressure on the capacity nothing is ever dropped.
fn filter_cache_keeps(depth: usize, ch: &mut Ch) -> Res {
    let mut c: FilterCache<Fil> = FilterCache::new(4 * 5);
    let mut last: BTreeMap<u64, Fil> = BTreeMap::new();
    for d in 0..depth {
        match ch.pick(4) {
            3 => {
                let h = ch.pick(4) as u64;
                c.rollback(h);
                last.retain(|k, _| *k <= h);
                ch.note(|| format!("rollback to {h}"));
            }
            _ => {
                let h = ch.pick(4) as u64;
                let len = 1 + ch.pick(2) * 4;
                let f = Fil { tag: d as u32, len };
                c.push(h, f.clone());
                ch.note(|| format!("push {len} bytes at {h}"));
                if last.insert(h, f).is_some() {
                    ch.nontrivial();
                }
            }
        }
        ch.step();
        for h in 0..4u64 {
            if c.get(&h) != last.get(&h) {
                return Err(format!("filter at height {h} is not in the cache although it never exceeded its capacity"));
            }
        }
        ch.state(&(last.clone(), d));
    }
    Ok(())
}

// ---- T01 -------------------------------------------------------------------------------------------------------

struct TimeRef {
    sources: Vec<u32>,
    samples: Vec<i64>,
    offset: i64,
}
impl TimeRef {
    fn new() -> Self {
        Self { sources: vec![], samples: vec![0], offset: 0 }
    }
    fn record(&mut self, src: u32, s: i64) {
        if self.sources.len() >= 200 || self.sources.contains(&src) {
            return;
        }
        self.sources.push(src);
        self.samples.push(s);
        let mut v = self.samples.clone();
        v.sort();
        if v.len() >= 5 && v.len() % 2 == 1 {
            let m = v[v.len() / 2];
            self.offset = if (-4200..=4200).contains(&m) { m } else { 0 };
        }
    }
}

fn time_ok(t: &RefClock<AdjustedTime<u32>>, r: &TimeRef, local: u64) -> Res {
    let adj = t.block_time() as i64;
    let want = local as i64 + r.offset;
    if (adj - local as i64).abs() > 70 * 60 {
        return Err(format!("adjusted time is {} seconds away from local time", adj - local as i64));
    }
    if adj != want {
        return Err(format!("adjusted time is local{:+}, expected local{:+} with samples {:?}", adj - local as i64, r.offset, r.samples));
    }
    if t.local_time().as_secs() != local {
        return Err("local time is wrong".into());
    }
    Ok(())
}

fn adjusted(depth: usize, offsets: &[i64], ch: &mut Ch) -> Res {
    let mut local = 1_600_000_000u64;
    let mut t: RefClock<AdjustedTime<u32>> = AdjustedTime::new(LocalTime::from_secs(local)).into();
    let mut r = TimeRef::new();
    for d in 0..depth {
        // A new source, or one that already contributed.
        let dup = d > 0 && ch.pick(3) == 2;
        let src = if dup { (d - 1) as u32 } else { d as u32 };
        let s = *ch.of(offsets);
        ch.note(|| format!("source {src} reports {s}"));
        t.record_offset(src, s);
        r.record(src, s);
        ch.step();
        if d == depth / 2 {
            local += 1234;
            t.set(LocalTime::from_secs(local));
        }
        time_ok(&t, &r, local)?;
        ch.state(&(r.samples.clone(), r.sources.len(), d));
        if r.offset != 0 {
            ch.nontrivial();
        }
    }
    Ok(())
}

fn adjusted_many(ch: &mut Ch) -> Res {
    let local = 1_600_000_000u64;
    let mut t: RefClock<AdjustedTime<u32>> = AdjustedTime::new(LocalTime::from_secs(local)).into();
    let mut r = TimeRef::new();
    let pat = ch.pick(5);
    let n = 195 + ch.pick(12) as u32;
    let late = *ch.of(&[5000i64, -4000, 0, 4200]);
    ch.note(|| format!("{n} sources, pattern {pat}, late samples {late}"));
    for i in 0..n {
        let s = match pat {
            0 => i as i64,
            1 => 4000 - i as i64 * 40,
            2 => if i < 100 { -4200 } else { 4200 },
            3 => if i % 3 == 0 { 100_000 } else { 30 },
            _ => (i as i64 * 7919) % 9001 - 4500,
        };
        let s = if i >= 190 { late } else { s };
        t.record_offset(i, s);
        r.record(i, s);
        ch.step();
        time_ok(&t, &r, local)?;
        if i % 7 == 0 {
            // A source that reported before reports something else.
            t.record_offset(i / 2, 4199);
            r.record(i / 2, 4199);
            time_ok(&t, &r, local)?;
        }
    }
    ch.nontrivial();
    ch.state(&(pat, n, late));
    Ok(())
}

// ---- T02 -------------------------------------------------------------------------------------------------------

fn timers(threshold_ms: u64, depth: usize, grid: &[u64], ch: &mut Ch) -> Res {
    let th = LocalDuration::from_millis(threshold_ms as u128);
    let at = |ms: u64| LocalTime::from_secs(1_000_000) + LocalDuration::from_millis(ms as u128);
    let mut tm: TimeoutManager<u32> = TimeoutManager::new(th);
    let mut pending: Vec<(u64, u32)> = vec![];
    let mut now = 0u64;
    let mut key = 0;
    for d in 0..depth {
        match ch.pick(2) {
            0 => {
                let due = now + *ch.of(grid);
                key += 1;
                let ok = tm.register(key, at(due));
                ch.note(|| format!("now {now}: register timer {key} due {due} -> {ok}"));
                let close = pending.iter().any(|(t, _)| (*t as i64 - due as i64).unsigned_abs() < threshold_ms);
                if !ok && !close {
                    return Err(format!("timer due {due} was refused although no pending timer is within {threshold_ms} ms: {pending:?}"));
                }
                if ok && close {
                    return Err(format!("timer due {due} was accepted within {threshold_ms} ms of a pending one: {pending:?}"));
                }
                if ok {
                    pending.push((due, key));
                } else {
                    ch.nontrivial();
                }
            }
            _ => {
                // Advance to just before, exactly at, or past the reported wait; or arbitrarily.
                let wait = tm.next(at(now)).map(|w| w.as_millis() as u64);
                let to = match ch.pick(4) {
                    0 => now + wait.unwrap_or(0).saturating_sub(1),
                    1 => now + wait.unwrap_or(0),
                    2 => now + wait.unwrap_or(0) + threshold_ms + 1,
                    _ => now + grid.iter().max().unwrap() * 2,
                };
                now = to;
                let mut woken = vec![];
                let n = tm.wake(at(now), &mut woken);
                ch.note(|| format!("now {now}: wake -> {woken:?}"));
                let mut due: Vec<(u64, u32)> = pending.iter().copied().filter(|(t, _)| *t <= now).collect();
                pending.retain(|(t, _)| *t > now);
                if n != woken.len() {
                    return Err(format!("wake returned {n} for {} timers", woken.len()));
                }
                let mut got = woken.clone();
                got.sort();
                let mut want: Vec<u32> = due.iter().map(|x| x.1).collect();
                want.sort();
                if got != want {
                    return Err(format!("at {now} the timers {got:?} fired, expected {want:?}"));
                }
                due.sort();
                let order: Vec<u64> = woken.iter().map(|k| due.iter().find(|x| x.1 == *k).unwrap().0).collect();
                if order.windows(2).any(|w| w[0] > w[1]) {
                    return Err("timers fired out of time order".into());
                }
                if !woken.is_empty() {
                    ch.nontrivial();
                }
            }
        }
        ch.step();
        if tm.len() != pending.len() || tm.is_empty() != pending.is_empty() {
            return Err(format!("{} timers are pending, expected {}", tm.len(), pending.len()));
        }
        for back in [now, now.saturating_sub(1), now + 1] {
            let want = pending.iter().map(|(t, _)| t.saturating_sub(back)).min();
            let got = tm.next(at(back)).map(|w| w.as_millis() as u64);
            if got != want {
                return Err(format!("the wait at {back} is {got:?}, the earliest timer is due in {want:?}"));
            }
        }
        let mut p = pending.iter().map(|(t, _)| t - now).collect::<Vec<_>>();
        p.sort();
        ch.state(&(p, d));
    }
    Ok(())
}

// ---- E01 -------------------------------------------------------------------------------------------------------

fn coinbase(n: u32, values: &[u64]) -> Transaction {
    Transaction {
        version: 1,
        lock_time: PackedLockTime::ZERO,
        input: vec![TxIn { previous_output: OutPoint::null(), script_sig: Script::from(n.to_le_bytes().to_vec()), sequence: Sequence::MAX, witness: Witness::default() }],
        output: values.iter().map(|v| TxOut { value: *v, script_pubkey: Script::new() }).collect(),
    }
}

fn spend(n: u32, inputs: &[OutPoint], values: &[u64]) -> Transaction {
    // Some have witness data, which counts less than the rest.
    let w = if (n / 10 + n) % 2 == 1 { Witness::from_vec(vec![vec![7; 1 + 33 * (n as usize % 5)]]) } else { Witness::default() };
    Transaction {
        version: 2,
        lock_time: PackedLockTime(n),
        input: inputs.iter().map(|o| TxIn { previous_output: *o, script_sig: Script::new(), sequence: Sequence::MAX, witness: w.clone() }).collect(),
        output: values.iter().map(|v| TxOut { value: *v, script_pubkey: Script::new() }).collect(),
    }
}

fn block(n: u32, txdata: Vec<Transaction>) -> Block {
    Block {
        header: BlockHeader { version: 1, prev_blockhash: BlockHash::all_zeros(), merkle_root: TxMerkleNode::all_zeros(), time: n, bits: 0x207fffff, nonce: n },
        txdata,
    }
}

/// Reference: replays the surviving blocks from scratch.
#[derive(Clone)]
struct Fees {
    blocks: Vec<(u64, Block)>,
}
impl Fees {
    fn utxos(&self) -> HashMap<OutPoint, u64> {
        let mut u = HashMap::new();
        for (_, b) in &self.blocks {
            Self::rates(&mut u, b);
        }
        u
    }
    fn rates(u: &mut HashMap<OutPoint, u64>, b: &Block) -> Vec<u64> {
        let mut v = vec![];
        for tx in &b.txdata {
            let id = tx.txid();
            let out: u64 = tx.output.iter().map(|o| o.value).sum();
            if !tx.is_coin_base() {
                let known: Option<u64> = tx.input.iter().map(|i| u.get(&i.previous_output).copied()).sum();
                for i in &tx.input {
                    u.remove(&i.previous_output);
                }
                if let Some(inp) = known {
                    let vb = tx.weight() as f64 / 4.0;
                    v.push(((inp - out) as f64 / vb).round() as u64);
                }
            }
            for (k, o) in tx.output.iter().enumerate() {
                u.insert(OutPoint { txid: id, vout: k as u32 }, o.value);
            }
        }
        v
    }
    fn process(&mut self, b: &Block, h: u64) -> Option<FeeEstimate> {
        if h <= self.blocks.last().map(|x| x.0).unwrap_or(0) {
            return None;
        }
        let mut u = self.utxos();
        let mut r = Self::rates(&mut u, b);
        self.blocks.push((h, b.clone()));
        r.sort();
        if r.is_empty() {
            return None;
        }
        let n = r.len();
        let median = if n % 2 == 1 { r[n / 2] } else { ((r[n / 2 - 1] as f64 + r[n / 2] as f64) / 2.0).round() as u64 };
        Some(FeeEstimate { low: r[0], median, high: r[n - 1] })
    }
    fn rollback(&mut self, h: u64) {
        self.blocks.retain(|b| b.0 <= h);
    }
}

fn fees(depth: usize, max_tx: usize, ch: &mut Ch) -> Res {
    let mut fe = FeeEstimator::default();
    let mut m = Fees { blocks: vec![] };
    let mut n = 0u32;
    // A transaction output the estimator has never seen.
    let unknown = OutPoint { txid: Txid::hash(&[9]), vout: 0 };
    for d in 0..depth {
        let top = m.blocks.last().map(|x| x.0).unwrap_or(0);
        match ch.pick(4) {
            3 if d > 0 => {
                // Roll back to: above the top, the top, or any height below.
                let h = top + 2 - ch.pick(top as usize + 3).min(top as usize + 2) as u64;
                ch.note(|| format!("rollback to {h}"));
                ch.nontrivial();
                fe.rollback(h);
                m.rollback(h);
            }
            c => {
                // Process a block: at the next height, after a gap, or at an old height.
                let h = match c {
                    0 => top + 1,
                    1 => top + 3,
                    _ => top,
                };
                if h == 0 {
                    continue;
                }
                n += 1;
                let mut txs = vec![coinbase(n, &[5_000_000, 70_000])];
                let mut avail: Vec<(OutPoint, u64)> = m.utxos().into_iter().collect();
                avail.sort();
                // Spending within the block is possible too.
                avail.push((OutPoint { txid: txs[0].txid(), vout: 0 }, 5_000_000));
                let k = ch.pick(max_tx + 1);
                for t in 0..k {
                    // Inputs: one known, one known and one unknown (both orders), only unknown, two known.
                    let kind = ch.pick(5);
                    let a = if avail.is_empty() || kind == 3 { None } else { Some(avail.remove(0)) };
                    let b = if kind == 4 && !avail.is_empty() { Some(avail.remove(avail.len() - 1)) } else { None };
                    let mut ins: Vec<OutPoint> = vec![];
                    let mut total = 0;
                    if let Some((o, v)) = a {
                        ins.push(o);
                        total += v;
                    }
                    if let Some((o, v)) = b {
                        ins.push(o);
                        total += v;
                    }
                    match kind {
                        1 => ins.push(unknown),
                        2 => ins.insert(0, unknown),
                        _ => {}
                    }
                    if ins.is_empty() {
                        ins.push(unknown);
                    }
                    let fee = (total / 3).min(1000 * (1 + t as u64) + 77 * n as u64);
                    let rest = total - fee;
                    let tx = spend(n * 10 + t as u32, &ins, &[rest / 2, rest - rest / 2]);
                    avail.push((OutPoint { txid: tx.txid(), vout: 1 }, rest - rest / 2));
                    txs.push(tx);
                }
                let b = block(n, txs);
                let got = fe.process(b.clone(), h);
                let want = m.process(&b, h);
                ch.note(|| format!("process block {n} with {k} transactions at {h} -> {got:?}"));
                if got != want {
                    return Err(format!("estimate for the block at {h} is {got:?}, expected {want:?}"));
                }
                if got.is_some() {
                    ch.nontrivial();
                }
            }
        }
        ch.step();
        ch.state(&(m.blocks.iter().map(|(h, b)| (*h, b.header.nonce, b.txdata.len())).collect::<Vec<_>>(), d));
    }
    // What remains of the estimator's knowledge: spend everything still unspent, in one block.
    let mut avail: Vec<(OutPoint, u64)> = m.utxos().into_iter().collect();
    avail.sort();
    let txs: Vec<Transaction> = avail.iter().enumerate().map(|(i, (o, v))| spend(900 + i as u32, &[*o], &[v - v / 4])).collect();
    let b = block(999, txs);
    let h = m.blocks.last().map(|x| x.0).unwrap_or(0) + 1;
    let got = fe.process(b.clone(), h);
    let want = m.process(&b, h);
    if got != want {
        return Err(format!("after the history, a block spending all known outputs gives {got:?}, expected {want:?}"));
    }
    Ok(())
}

/// Deep histories: up to the supported re-org depth.
fn fees_deep(len: u64, ch: &mut Ch) -> Res {
    let mut fe = FeeEstimator::default();
    let mut m = Fees { blocks: vec![] };
    let mut n = 0;
    let grow = |fe: &mut FeeEstimator, m: &mut Fees, to: u64, n: &mut u32, ch: &mut Ch| -> Res {
        let from = m.blocks.last().map(|x| x.0).unwrap_or(0);
        for h in from + 1..=to {
            *n += 1;
            let mut u: Vec<_> = m.utxos().into_iter().collect();
            u.sort();
            let mut txs = vec![coinbase(*n, &[1_000_000])];
            if let Some((o, v)) = u.last() {
                txs.push(spend(*n, &[*o], &[v - (v / 100) * (*n as u64 % 7)]));
            }
            let b = block(*n, txs);
            let (g, w) = (fe.process(b.clone(), h), m.process(&b, h));
            ch.step();
            if g != w {
                return Err(format!("estimate at {h} is {g:?}, expected {w:?}"));
            }
        }
        Ok(())
    };
    let a = 1 + ch.pick(len as usize) as u64;
    grow(&mut fe, &mut m, a, &mut n, ch)?;
    let b = ch.pick(13) as u64;
    let to = a.saturating_sub(b);
    ch.note(|| format!("{a} blocks, rollback to {to}"));
    fe.rollback(to);
    m.rollback(to);
    ch.nontrivial();
    let c = to + 1 + ch.pick(3) as u64;
    grow(&mut fe, &mut m, c, &mut n, ch)?;
    // A second re-org, within what the first left.
    let left = 12u64.saturating_sub(b);
    let d = ch.pick(left as usize + 1) as u64;
    let to2 = c.saturating_sub(d);
    ch.note(|| format!("grow to {c}, rollback to {to2}"));
    fe.rollback(to2);
    m.rollback(to2);
    grow(&mut fe, &mut m, to2 + 2, &mut n, ch)?;
    ch.state(&(a, b, c, d));
    Ok(())
}

pub fn check(id: &str, tier: Tier) -> Check {
    let q = tier == Tier::Quick;
    let mut spaces = vec![];
    match id {
        "F02" => {
            let d = if q { 5 } else { 6 };
            for cap in [0usize, 3, 5] {
                spaces.push(space(format!("capacity-{cap}"), format!("cache of {cap} bytes, every sequence of {d} insertions (heights 0..3, sizes 0,1,3,6 around the capacity) and rollbacks"), move |ch| filter_cache(cap, d, &[0, 1, 3, 6], 3, ch)));
            }
            spaces.push(space("keeps", "no pressure on capacity: nothing is dropped", move |ch| filter_cache_keeps(if q { 5 } else { 6 }, ch)));
        }
        "T01" => {
            let d = if q { 6 } else { 7 };
            spaces.push(space("bounds", format!("{d} reports, new or repeated sources, offsets around the limits"), move |ch| adjusted(d, &[0, 4200, 4201, -4200, -4201], ch)));
            spaces.push(space("extreme", "extreme offsets", move |ch| adjusted(if q { 6 } else { 7 }, &[1, -1, i64::MAX, i64::MIN], ch)));
            spaces.push(space("many", "up to 206 sources, around the sample limit", adjusted_many));
        }
        "T02" => {
            let d = if q { 6 } else { 7 };
            spaces.push(space("second", format!("granularity 1 s, {d} operations"), move |ch| timers(1000, d, &[0, 1, 999, 1000, 1001, 30000], ch)));
            spaces.push(space("none", format!("no granularity, {d} operations"), move |ch| timers(0, d, &[0, 1, 5, 30000], ch)));
            spaces.push(space("deep", "few due times, longer sequences", move |ch| timers(1000, if q { 8 } else { 10 }, &[500, 1500], ch)));
        }
        "E01" => {
            spaces.push(space("two-tx", "every sequence of blocks (next height, gap, old height; up to two spends) and rollbacks", move |ch| fees(if q { 3 } else { 4 }, 2, ch)));
            spaces.push(space("one-tx", "longer sequences, one spend", move |ch| fees(if q { 4 } else { 5 }, 1, ch)));
            spaces.push(space("deep", "histories of up to 20 blocks, two re-orgs up to 12 deep together", move |ch| fees_deep(20, ch)));
        }
        _ => unreachable!(),
    }
    let (rule, assumptions) = match id {
        "F02" => ("every sequence of insertions and rollbacks; non-trivial: a height is stored twice", vec![]),
        "T01" => ("every sequence of reports; non-trivial: the adjustment is not zero", vec!["like Bitcoin Core, the median is only taken when the number of samples (our own zero included) is odd".to_string()]),
        "T02" => ("every sequence of registrations, waits and wake-ups; non-trivial: a timer fires or is refused", vec![]),
        _ => ("every history of processed blocks and rollbacks compared with a replay of the surviving blocks; non-trivial: an estimate or a rollback", vec!["blocks spend each output at most once and no more than its value".to_string()]),
    };
    Check { spaces, rule: rule.into(), assumptions }
}
