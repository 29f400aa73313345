//! P06: data served to peers.
use crate::engine::{space, Ch, Res};
use crate::peers::note_outs;
use crate::sim::*;
use crate::{Check, Tier};
use nakamoto_common::bitcoin::network::constants::ServiceFlags;
use nakamoto_common::bitcoin::network::message::NetworkMessage as M;
use nakamoto_common::bitcoin::network::message_blockdata::{GetHeadersMessage, Inventory};
use nakamoto_common::bitcoin::network::message_filter::{CFHeaders, GetCFHeaders};
use nakamoto_common::bitcoin::{BlockHash, BlockHeader, Transaction, Txid, Wtxid};
use nakamoto_common::bitcoin_hashes::Hash as _;
use nakamoto_common::block::filter::{FilterHash, FilterHeader};
use nakamoto_p2p::fsm::{Command, Event, PeerId};
use std::sync::OnceLock;

const MAX: usize = 2000;

/// Active chain, a stale branch the node knows, and hashes nobody knows.
struct World {
    active: Chain,
    stale: Chain,
}
fn world() -> World {
    let mut stale = Chain::genesis();
    stale.grow(3, 1);
    let mut active = stale.fork(1);
    active.grow(4, 2);
    World { active, stale }
}

/// A node that went through a re-org, with filter headers up to the given height, and a peer.
fn node(w: &World, filters: usize, inbound: bool) -> (Sim, PeerId) {
    let mut s = Sim::new(Opts {
        headers: w.stale.headers(),
        filter_headers: w.stale.filter_headers[..=filters.min(3)].to_vec(),
        ..Opts::default()
    });
    s.init();
    let (tx, _rx) = crossbeam_channel::bounded(1);
    s.command(Command::ImportHeaders(w.active.headers()[2..].to_vec(), tx));
    let a = peer(0);
    if inbound {
        s.inbound(a);
        s.handshake(a, 0, ServiceFlags::NETWORK);
    } else {
        s.outbound(a, 0, ServiceFlags::NETWORK);
    }
    s.take();
    (s, a)
}

fn expect_headers(active: &[BlockHeader], locators: &[BlockHash], stop: BlockHash) -> Vec<BlockHeader> {
    let at = |h: &BlockHash| active.iter().position(|b| b.block_hash() == *h);
    if locators.is_empty() {
        return at(&stop).map(|i| vec![active[i]]).unwrap_or_default();
    }
    let start = locators.iter().find_map(at).unwrap_or(0);
    let end = at(&stop).unwrap_or(active.len() - 1);
    let mut v = vec![];
    let mut i = start + 1;
    while i <= end && v.len() < MAX {
        v.push(active[i]);
        i += 1;
    }
    v
}

fn replies(outs: &[Out], a: PeerId) -> Vec<M> {
    messages(outs, a).into_iter().filter(|m| !matches!(m, M::Ping(_))).cloned().collect()
}

fn headers(ch: &mut Ch) -> Res {
    let w = world();
    let inbound = ch.flip();
    let (mut s, a) = node(&w, 0, inbound);
    let mut pool: Vec<BlockHash> = w.active.headers().iter().map(|h| h.block_hash()).collect();
    pool.extend(w.stale.headers().iter().skip(2).map(|h| h.block_hash()));
    pool.push(BlockHash::hash(b"unknown"));
    let n = ch.pick(4);
    let locators: Vec<BlockHash> = (0..n).map(|_| *ch.of(&pool)).collect();
    pool.push(BlockHash::all_zeros());
    let stop = *ch.of(&pool);
    ch.note(|| format!("getheaders {locators:?} stop {stop}"));
    s.recv(a, M::GetHeaders(GetHeadersMessage::new(locators.clone(), stop)));
    ch.step();
    let outs = s.take();
    note_outs(ch, &outs);
    let e = expect_headers(&w.active.headers(), &locators, stop);
    let r = replies(&outs, a);
    let ok = if e.is_empty() { r.is_empty() } else { r == vec![M::Headers(e.clone())] };
    if !ok {
        return Err(format!("request for headers after {locators:?} up to {stop} answered with {r:?}, expected {} headers", e.len()));
    }
    if !s.is_open(&a) {
        return Err("peer disconnected for asking for headers".into());
    }
    if !e.is_empty() {
        ch.nontrivial();
    }
    ch.state(&e.iter().map(|h| h.block_hash()).collect::<Vec<_>>());
    Ok(())
}

/// Header chain with made-up filter headers, longer than one message.
fn long() -> &'static (Vec<BlockHeader>, Vec<(FilterHash, FilterHeader)>) {
    static C: OnceLock<(Vec<BlockHeader>, Vec<(FilterHash, FilterHeader)>)> = OnceLock::new();
    C.get_or_init(|| {
        let g = Chain::genesis();
        let mut v = g.headers();
        let mut f = g.filter_headers.clone();
        for i in 1..=MAX as u32 + 3 {
            let p = *v.last().unwrap();
            let mut h = p;
            h.prev_blockhash = p.block_hash();
            h.time = NOW as u32 - 4000 + i;
            h.nonce = 0;
            let t = h.target();
            while h.validate_pow(&t).is_err() {
                h.nonce += 1;
            }
            v.push(h);
            let hash = FilterHash::hash(&i.to_le_bytes());
            let prev = f.last().unwrap().1;
            f.push((hash, hash.filter_header(&prev)));
        }
        (v, f)
    })
}

fn limits(ch: &mut Ch) -> Res {
    let (hs, fs) = long();
    let mut s = Sim::new(Opts { headers: hs.clone(), filter_headers: fs.clone(), ..Opts::default() });
    s.init();
    let a = peer(0);
    s.inbound(a);
    s.handshake(a, 0, ServiceFlags::NETWORK);
    s.take();
    let top = hs.len() - 1;
    ch.nontrivial();
    if ch.flip() {
        let from = ch.pick(5);
        let stop = top - ch.pick(5);
        let zero = ch.flip();
        let stop_hash = if zero { BlockHash::all_zeros() } else { hs[stop].block_hash() };
        let l = vec![hs[from].block_hash()];
        s.recv(a, M::GetHeaders(GetHeadersMessage::new(l.clone(), stop_hash)));
        let outs = s.take();
        let r = replies(&outs, a);
        let e = expect_headers(hs, &l, stop_hash);
        if r != vec![M::Headers(e.clone())] {
            return Err(format!("expected {} headers from {} to {}", e.len(), from + 1, from + e.len()));
        }
    } else {
        let start = ch.pick(6);
        let stop = [top, top - 1, MAX + 1, MAX, MAX - 1, 5][ch.pick(6)];
        s.recv(a, M::GetCFHeaders(GetCFHeaders { filter_type: 0, start_height: start as u32, stop_hash: hs[stop].block_hash() }));
        let outs = s.take();
        judge_cfheaders(hs, fs, start as u64, hs[stop].block_hash(), 0, &replies(&outs, a))?;
    }
    ch.step();
    Ok(())
}

/// The only possible answer to a request for filter headers, if it can be met.
fn judge_cfheaders(active: &[BlockHeader], filters: &[(FilterHash, FilterHeader)], start: u64, stop: BlockHash, kind: u8, r: &[M]) -> Res {
    let at = active.iter().position(|b| b.block_hash() == stop).map(|i| i as u64);
    let e = match at {
        Some(end) if kind == 0 && start <= end && end - start < MAX as u64 && end < filters.len() as u64 => Some(CFHeaders {
            filter_type: 0,
            stop_hash: stop,
            previous_filter_header: if start == 0 { FilterHeader::all_zeros() } else { filters[start as usize - 1].1 },
            filter_hashes: filters[start as usize..=end as usize].iter().map(|f| f.0).collect(),
        }),
        _ => None,
    };
    let ok = match &e {
        Some(e) => r == [M::CFHeaders(e.clone())],
        None => r.is_empty(),
    };
    if !ok {
        let got: Vec<String> = r.iter().map(|m| if let M::CFHeaders(c) = m { format!("{} filter headers", c.filter_hashes.len()) } else { m.cmd().to_string() }).collect();
        return Err(format!(
            "request for filter headers {start}..={at:?} of {} answered with {got:?}, expected {}",
            filters.len() - 1,
            e.map_or("nothing".to_string(), |e| format!("{} filter headers", e.filter_hashes.len()))
        ));
    }
    Ok(())
}

fn cfheaders(ch: &mut Ch) -> Res {
    let w = world();
    // How far filter headers are: before the fork, or partly along the new chain.
    let have = ch.pick(5);
    let mut s = Sim::new(Opts { headers: w.active.headers(), filter_headers: w.active.filter_headers[..=have].to_vec(), ..Opts::default() });
    s.init();
    let a = peer(0);
    s.inbound(a);
    s.handshake(a, 0, ServiceFlags::NETWORK);
    let (tx, _rx) = crossbeam_channel::bounded(1);
    s.command(Command::ImportHeaders(w.stale.headers()[2..].to_vec(), tx));
    s.take();
    let starts: Vec<u32> = (0..8).chain([2000, u32::MAX - 1, u32::MAX]).collect();
    let start = *ch.of(&starts);
    let mut pool: Vec<BlockHash> = w.active.headers().iter().map(|h| h.block_hash()).collect();
    pool.push(w.stale.hash(2));
    pool.push(w.stale.hash(3));
    pool.push(BlockHash::hash(b"unknown"));
    pool.push(BlockHash::all_zeros());
    let stop = *ch.of(&pool);
    let kind = *ch.of(&[0u8, 1, 255]);
    ch.note(|| format!("filter headers up to {have}; getcfheaders {start} {stop} type {kind}"));
    s.recv(a, M::GetCFHeaders(GetCFHeaders { filter_type: kind, start_height: start, stop_hash: stop }));
    ch.step();
    let outs = s.take();
    note_outs(ch, &outs);
    let r = replies(&outs, a);
    judge_cfheaders(&w.active.headers(), &w.active.filter_headers[..=have], start as u64, stop, kind, &r)?;
    if !r.is_empty() {
        ch.nontrivial();
    }
    ch.state(&(have, start, stop, kind));
    Ok(())
}

/// Filter headers asked for right after a re-org, in the same poll round or the next.
fn cfheaders_reorg(ch: &mut Ch) -> Res {
    let w = world();
    let have = ch.pick(4);
    let mut s = Sim::new(Opts { headers: w.stale.headers(), filter_headers: w.stale.filter_headers[..=have].to_vec(), ..Opts::default() });
    s.init();
    let a = peer(0);
    s.inbound(a);
    s.handshake(a, 0, ServiceFlags::NETWORK);
    s.take();
    let same = ch.flip();
    let start = ch.pick(5);
    let stop = 1 + ch.pick(5);
    let stop_hash = w.active.hash(stop as u64);
    let req = M::GetCFHeaders(GetCFHeaders { filter_type: 0, start_height: start as u32, stop_hash });
    let new = M::Headers(w.active.headers()[2..].to_vec());
    ch.note(|| format!("filter headers up to {have}; re-org at 1, getcfheaders {start}..={stop}"));
    if same {
        s.recv_many(&[(a, new), (a, req)]);
    } else {
        s.recv(a, new);
        s.take();
        s.recv(a, req);
    }
    ch.step();
    let outs = s.take();
    note_outs(ch, &outs);
    let r: Vec<M> = replies(&outs, a).into_iter().filter(|m| matches!(m, M::CFHeaders(_))).collect();
    // Only what both chains share is left.
    let left = have.min(1);
    for m in &r {
        if let M::CFHeaders(c) = m {
            let ok = stop <= left && start <= stop && c.filter_hashes == w.active.filter_headers[start..=stop].iter().map(|f| f.0).collect::<Vec<_>>();
            let stale = stop <= have && start <= stop && c.filter_hashes == w.stale.filter_headers[start..=stop].iter().map(|f| f.0).collect::<Vec<_>>();
            if !ok && same && stale && ch.known("reorg-same-round", || format!("{start}..={stop}")) {
                continue;
            }
            if !ok {
                return Err(format!("filter headers of blocks that are no longer active were served for the new chain ({start}..={stop})"));
            }
        }
    }
    ch.nontrivial();
    Ok(())
}

/// Transactions asked for.
fn getdata(steps: usize, ch: &mut Ch) -> Res {
    let mut chain = Chain::genesis();
    chain.grow(1, 1);
    let txs: Vec<Transaction> = vec![transaction(1, 1, false), transaction(2, 2, true), transaction(3, 3, true)];
    let mut block = chain.clone();
    block.push(block_time(2), 1, &[script(9)], &txs[1..2]);
    let mut s = Sim::new(Opts { headers: block.headers(), ..Opts::default() });
    s.init();
    let ps = [peer(0), peer(1)];
    s.outbound(ps[0], 0, ServiceFlags::NETWORK);
    s.inbound(ps[1]);
    s.handshake(ps[1], 0, ServiceFlags::NETWORK);
    s.take();
    // Transactions the node has and are not confirmed.
    let mut have = [false; 3];
    let mut requested = false;
    for step in 0..=steps {
        let last = step == steps;
        match if last { 2 + ch.pick(2) } else { ch.pick(4) } {
            0 => {
                let i = ch.pick(2);
                let (tx, rx) = crossbeam_channel::bounded(1);
                ch.note(|| format!("submit transaction {i}"));
                s.command(Command::SubmitTransaction(txs[i].clone(), tx));
                rx.try_recv().map_err(|_| "no reply to a submission".to_string())?.map_err(|e| format!("submission failed: {e}"))?;
                have[i] = true;
                s.take();
            }
            1 if !requested => {
                requested = true;
                ch.note(|| "the block with transaction 1 arrives".to_string());
                s.command(Command::RequestBlock(block.tip().block_hash()));
                s.recv(ps[0], M::Block(block.tip().clone()));
                let outs = s.take();
                if !events(&outs).any(|e| matches!(e, Event::BlockProcessed { .. })) {
                    return Err("requested block not processed".into());
                }
                have[1] = false;
            }
            1 => {}
            k => {
                let p = ps[k - 2];
                let n = if last { 1 + ch.pick(2) } else { 1 };
                let mut invs = vec![];
                for _ in 0..n {
                    invs.push(match ch.pick(13) {
                        i @ 0..=2 => Inventory::Transaction(txs[i].txid()),
                        i @ 3..=5 => Inventory::WitnessTransaction(txs[i - 3].txid()),
                        i @ 6..=8 => Inventory::WTx(txs[i - 6].wtxid()),
                        9 => Inventory::Block(block.tip().block_hash()),
                        10 => Inventory::WitnessBlock(block.tip().block_hash()),
                        11 => Inventory::WTx(Wtxid::from_hash(txs[1].txid().as_hash())),
                        _ => Inventory::Transaction(Txid::from_hash(txs[1].wtxid().as_hash())),
                    });
                }
                ch.note(|| format!("getdata {invs:?}"));
                s.recv(p, M::GetData(invs.clone()));
                let outs = s.take();
                note_outs(ch, &outs);
                let e: Vec<M> = invs
                    .iter()
                    .filter_map(|inv| {
                        (0..3)
                            .find(|i| {
                                have[*i]
                                    && match inv {
                                        Inventory::Transaction(t) | Inventory::WitnessTransaction(t) => *t == txs[*i].txid(),
                                        Inventory::WTx(t) => *t == txs[*i].wtxid(),
                                        _ => false,
                                    }
                            })
                            .map(|i| M::Tx(txs[i].clone()))
                    })
                    .collect();
                let other = messages(&outs, if p == ps[0] { ps[1] } else { ps[0] });
                if other.iter().any(|m| matches!(m, M::Tx(_))) {
                    return Err("a transaction was sent to a peer that did not ask for it".into());
                }
                let r = replies(&outs, p);
                if r != e {
                    return Err(format!("request for {invs:?} answered with {} messages, expected {} transactions", r.len(), e.len()));
                }
                if !e.is_empty() {
                    ch.nontrivial();
                }
            }
        }
        ch.step();
        if !ps.iter().all(|p| s.is_open(p)) {
            return Err("a peer was disconnected".into());
        }
        ch.state(&(have, requested));
    }
    Ok(())
}

pub fn check(tier: Tier) -> Check {
    let d = tier.of(2, 3);
    Check {
        spaces: vec![
            space("headers", "every request for headers with up to three locators and a stop hash among active, stale and unknown hashes", headers),
            space("cfheaders", "every request for filter headers with start heights around all boundaries and active, stale and unknown stop hashes, for every length of the filter header chain", cfheaders),
            space("cfheaders-reorg", "filter headers asked for around a re-org", cfheaders_reorg),
            space("limits", "requests around the protocol's message limits on a chain longer than one message", limits),
            space("getdata", format!("{d} submissions, confirmations and requests, then a request of up to two inventory items of every kind"), move |ch| getdata(d, ch)),
        ],
        rule: "every reply is compared with the one an independent server of the same chain would give".into(),
        assumptions: vec!["requests from peers that completed the handshake".into()],
    }
}
