//! P11: nothing a peer sends makes the node crash or hang, or drop other peers.
use crate::engine::{space, Ch, Res};
use crate::peers::{answer_pings, note_outs};
use crate::sim::*;
use crate::sync::serve_headers;
use crate::util::mine_block;
use crate::{Check, Tier};
use nakamoto_common::bitcoin::blockdata::block::BlockHeader;
use nakamoto_common::bitcoin::blockdata::transaction::{OutPoint, TxIn, TxOut};
use nakamoto_common::bitcoin::network::address::{AddrV2, AddrV2Message, Address};
use nakamoto_common::bitcoin::network::constants::ServiceFlags;
use nakamoto_common::bitcoin::network::message::{CommandString, NetworkMessage as M};
use nakamoto_common::bitcoin::network::message_blockdata::{GetBlocksMessage, GetHeadersMessage, Inventory};
use nakamoto_common::bitcoin::network::message_filter::*;
use nakamoto_common::bitcoin::network::message_network::{Reject, RejectReason};
use nakamoto_common::bitcoin::{Block, BlockHash, PackedLockTime, Script, Sequence, Transaction, TxMerkleNode, Txid, Witness};
use nakamoto_common::bitcoin_hashes::{sha256d, Hash};
use nakamoto_common::block::filter::{BlockFilter, FilterHash, FilterHeader};
use nakamoto_common::block::store::Genesis as _;
use nakamoto_p2p::fsm::{Command, PeerId};
use std::ops::Bound;

const FULL: ServiceFlags = ServiceFlags::NETWORK;

type Letter = (String, Vec<M>);

fn one(v: &mut Vec<Letter>, name: impl Into<String>, m: M) {
    v.push((name.into(), vec![m]));
}

fn spend(i: u8, inputs: &[OutPoint], values: &[u64]) -> Transaction {
    Transaction {
        version: 1,
        lock_time: PackedLockTime(i as u32),
        input: inputs
            .iter()
            .map(|o| TxIn { previous_output: *o, script_sig: Script::new(), sequence: Sequence::MAX, witness: Witness::new() })
            .collect(),
        output: values.iter().map(|v| TxOut { value: *v, script_pubkey: script(2) }).collect(),
    }
}

/// Blocks with transactions that no honest miner would include.
fn chain() -> Chain {
    let mut c = Chain::genesis();
    c.push(block_time(1), 1, &[script(1), script(1)], &[]);
    let coin = |b: &Block, vout| OutPoint { txid: b.txdata[0].txid(), vout };
    let (a, b) = (coin(c.tip(), 0), coin(c.tip(), 1));
    // More is spent than there is; values whose sum is too large.
    let t1 = spend(1, &[a], &[u64::MAX]);
    let t2 = spend(2, &[b], &[u64::MAX, u64::MAX, 1]);
    let huge = OutPoint { txid: t2.txid(), vout: 0 };
    let huge1 = OutPoint { txid: t2.txid(), vout: 1 };
    c.push(block_time(2), 1, &[script(2)], &[t1.clone(), t2]);
    // Inputs whose sum is too large, inputs spent twice, no inputs, no outputs, spending itself.
    let t3 = spend(3, &[huge, huge1], &[1]);
    let again = OutPoint { txid: t1.txid(), vout: 0 };
    let t4 = spend(4, &[again, again], &[1]);
    let t5 = spend(5, &[], &[1, 2]);
    let t6 = spend(6, &[OutPoint { txid: t5.txid(), vout: 1 }], &[]);
    let t7 = spend(7, &[OutPoint { txid: t5.txid(), vout: 0 }], &[u64::MAX / 2]);
    c.push(block_time(3), 1, &[], &[t3, t4, t5, t6, t7]);
    c
}

/// Contents of filters, most of them malformed.
fn contents() -> Vec<Vec<u8>> {
    vec![
        vec![],
        vec![0],
        vec![1],
        vec![1, 0, 0, 0],
        vec![2, 0xff, 0xff, 0xff, 0xff],
        vec![0xfd],
        vec![0xfd, 1, 0, 0, 0, 0],
        vec![0xfe, 0xff, 0xff, 0xff, 0xff, 0, 0, 0],
        [vec![0xff; 9], vec![0; 40]].concat(),
        vec![0xff; 60],
    ]
}

/// Other chains that exist: a longer fork; then blocks after the tip and after block 1, with several times.
fn worlds(c: &Chain, now: u64) -> Vec<Chain> {
    let mut v = vec![c.fork(1)];
    v[0].grow(3, 5);
    for t in [0, now as u32, u32::MAX] {
        let mut n = c.clone();
        n.push(t, 7, &[script(1)], &[]);
        let mut f = c.fork(1);
        f.push(t, 8, &[script(1)], &[]);
        v.extend([n, f]);
    }
    v
}

fn letters(c: &Chain, worlds: &[Chain], now: u64) -> Vec<Letter> {
    let mut v: Vec<Letter> = vec![];
    let l = &mut v;
    let zero = BlockHash::all_zeros();
    let unknown = BlockHash::hash(b"unknown");
    let h = |i| c.hash(i);
    let vm = |f: &dyn Fn(&mut nakamoto_common::bitcoin::network::message_network::VersionMessage)| {
        let mut x = version(peer(9), 3, FULL | CF, now);
        f(&mut x);
        M::Version(x)
    };
    one(l, "version", vm(&|_| ()));
    one(l, "version, extreme", vm(&|x| (x.start_height, x.timestamp, x.version) = (i32::MIN, i64::MIN, u32::MAX)));
    one(l, "version, extreme", vm(&|x| (x.start_height, x.timestamp, x.nonce) = (i32::MAX, i64::MAX, u64::MAX)));
    one(l, "verack", M::Verack);
    one(l, "wtxidrelay", M::WtxidRelay);
    one(l, "sendheaders", M::SendHeaders);
    one(l, "sendaddrv2", M::SendAddrV2);
    one(l, "getaddr", M::GetAddr);
    one(l, "mempool", M::MemPool);
    one(l, "ping", M::Ping(u64::MAX));
    one(l, "pong", M::Pong(0));
    one(l, "feefilter", M::FeeFilter(i64::MIN));
    one(l, "alert", M::Alert(vec![0xff; 100]));
    one(
        l,
        "reject",
        M::Reject(Reject { message: "tx".into(), ccode: RejectReason::Obsolete, reason: "\u{1F980}".into(), hash: sha256d::Hash::all_zeros() }),
    );
    one(l, "unknown", M::Unknown { command: CommandString::try_from_static("sendtxrcncl").expect("engine: command"), payload: vec![1; 40] });
    let a4 = |ip: [u8; 4], port| Address::new(&(ip, port).into(), ServiceFlags::from(u64::MAX));
    one(l, "addr, none", M::Addr(vec![]));
    for t in [0, 1, now as u32, u32::MAX] {
        one(l, format!("addr, time {t}"), M::Addr(vec![(t, a4([99, 1, 1, 1], 0)), (t, a4([0, 0, 0, 0], 1)), (t, a4([255, 255, 255, 255], 65535)), (t, a4([99, 1, 1, 1], 9))]));
    }
    one(l, "addr, many", M::Addr((0..1001u32).map(|i| (now as u32, a4([100, (i >> 8) as u8, i as u8, 7], 8333))).collect()));
    one(l, "addr, ourselves and peers", M::Addr([peer(0), peer(1), local()].iter().map(|a| (now as u32, Address::new(a, FULL))).collect()));
    one(
        l,
        "addrv2",
        M::AddrV2(
            [AddrV2::Ipv4([99, 9, 9, 9].into()), AddrV2::TorV3([7; 32]), AddrV2::Unknown(77, vec![0; 512]), AddrV2::Unknown(78, vec![])]
                .into_iter()
                .map(|addr| AddrV2Message { time: u32::MAX, services: ServiceFlags::from(u64::MAX), addr, port: 0 })
                .collect(),
        ),
    );
    let invs = |h: BlockHash| {
        let t = Txid::hash(h.as_ref());
        vec![
            Inventory::Error,
            Inventory::Block(h),
            Inventory::WitnessBlock(h),
            Inventory::CompactBlock(h),
            Inventory::Transaction(t),
            Inventory::WitnessTransaction(t),
            Inventory::WTx(nakamoto_common::bitcoin::Wtxid::hash(h.as_ref())),
            Inventory::Unknown { inv_type: u32::MAX, hash: [0xff; 32] },
        ]
    };
    for (n, x) in [("unknown", unknown), ("tip", h(3)), ("zero", zero)] {
        one(l, format!("inv, {n}"), M::Inv(invs(x)));
        one(l, format!("getdata, {n}"), M::GetData(invs(x)));
        one(l, format!("notfound, {n}"), M::NotFound(invs(x)));
    }
    one(l, "inv, none", M::Inv(vec![]));
    one(l, "inv, many", M::Inv(vec![Inventory::Block(unknown); 50_001]));
    one(l, "getblocks", M::GetBlocks(GetBlocksMessage { version: 0, locator_hashes: vec![], stop_hash: zero }));
    for (n, loc, stop) in [
        ("none", vec![], zero),
        ("none, known stop", vec![], h(2)),
        ("genesis", vec![h(0)], unknown),
        ("tip", vec![h(3)], h(3)),
        ("many unknown", vec![unknown; 102], zero),
        ("stop before", vec![h(2)], h(1)),
    ] {
        one(l, format!("getheaders, {n}"), M::GetHeaders(GetHeadersMessage { version: u32::MAX, locator_hashes: loc, stop_hash: stop }));
    }
    let hdr = |prev: BlockHash, time: u32, salt| mine_block(prev, time, 1, salt, &[script(1)], &[]).header;
    one(l, "headers, none", M::Headers(vec![]));
    one(l, "headers, known", M::Headers(c.headers()[1..].to_vec()));
    one(l, "headers, genesis", M::Headers(c.headers()[..1].to_vec()));
    one(l, "headers, backwards", M::Headers(c.headers().into_iter().rev().collect()));
    one(l, "headers, repeated", M::Headers(vec![c.headers()[3]; 2001]));
    one(l, "headers, unconnected", M::Headers(vec![hdr(unknown, block_time(4), 7)]));
    one(l, "headers, many unconnected", M::Headers((0..30).map(|i| hdr(unknown, block_time(4), i)).collect()));
    for w in &worlds[1..] {
        let t = w.tip().header.time;
        one(l, format!("headers, block {}, time {t}", w.height()), M::Headers(vec![w.tip().header]));
    }
    let tweak = |f: &dyn Fn(&mut BlockHeader)| {
        let mut x = hdr(h(3), block_time(4), 9);
        f(&mut x);
        vec![x]
    };
    for b in [0, 1, 0x0100_0000, 0x0180_0000, 0x1d00_ffff, 0x207f_ffff, 0x20ff_ffff, 0xff00_0001, 0xff7f_ffff, u32::MAX] {
        one(l, format!("headers, bits {b:x}"), M::Headers(tweak(&|x| x.bits = b)));
    }
    one(l, "headers, extreme", M::Headers(tweak(&|x| (x.version, x.nonce, x.merkle_root) = (i32::MIN, u32::MAX, TxMerkleNode::all_zeros()))));
    let fork = &worlds[0];
    one(l, "headers, re-org", M::Headers(fork.headers()[2..].to_vec()));
    for (n, b) in [("2", &c.blocks[2]), ("3", &c.blocks[3]), ("of a fork", &fork.blocks[2])] {
        one(l, format!("block {n}"), M::Block(b.clone()));
    }
    v.push(("all blocks".into(), c.blocks[1..].iter().map(|b| M::Block(b.clone())).collect()));
    let l = &mut v;
    one(l, "block, empty", M::Block(Block { header: c.blocks[2].header, txdata: vec![] }));
    one(l, "block, other contents", M::Block(Block { header: c.blocks[2].header, txdata: c.blocks[3].txdata.clone() }));
    one(l, "tx", M::Tx(c.blocks[3].txdata[3].clone()));
    one(l, "tx, ours", M::Tx(transaction(1, 1, true)));
    for f in [0u8, 1] {
        for (s, x) in [(0, h(3)), (u32::MAX, h(3)), (3, h(0)), (0, unknown), (2, h(2)), (4, h(3))] {
            if f == 1 && s != 0 {
                continue;
            }
            one(l, format!("getcfilters {f} {s}"), M::GetCFilters(GetCFilters { filter_type: f, start_height: s, stop_hash: x }));
            one(l, format!("getcfheaders {f} {s}"), M::GetCFHeaders(GetCFHeaders { filter_type: f, start_height: s, stop_hash: x }));
        }
    }
    one(l, "getcfcheckpt", M::GetCFCheckpt(GetCFCheckpt { filter_type: 0, stop_hash: h(3) }));
    one(l, "cfcheckpt", M::CFCheckpt(CFCheckpt { filter_type: 0, stop_hash: h(3), filter_headers: vec![] }));
    let fh = FilterHeader::genesis(NET);
    let ok: Vec<FilterHash> = c.filter_headers[1..].iter().map(|x| x.0).collect();
    for (n, stop, prev, hashes) in [
        ("good", h(3), fh, ok.clone()),
        ("none", h(3), fh, vec![]),
        ("too many", h(3), fh, vec![ok[0]; 4]),
        ("many", h(3), fh, vec![ok[0]; 2001]),
        ("to genesis", h(0), fh, vec![ok[0]]),
        ("unknown stop", unknown, fh, ok.clone()),
        ("other", h(3), FilterHeader::hash(b"x"), ok.clone()),
        ("short", h(2), fh, ok[..2].to_vec()),
        ("of a fork", fork.hash(3), fh, ok),
    ] {
        one(l, format!("cfheaders, {n}"), M::CFHeaders(CFHeaders { filter_type: 0, stop_hash: stop, previous_filter_header: prev, filter_hashes: hashes }));
    }
    for (i, f) in contents().into_iter().enumerate() {
        let x = FilterHash::hash(&f);
        let mut seq = vec![M::CFHeaders(CFHeaders { filter_type: 0, stop_hash: h(3), previous_filter_header: fh, filter_hashes: vec![x; 3] })];
        seq.extend((1..4).rev().map(|k| M::CFilter(CFilter { filter_type: 0, block_hash: h(k), filter: f.clone() })));
        l.push((format!("cfheaders and cfilters {i}"), seq));
    }
    let good = |k: usize| c.filters[k].content.clone();
    for (n, t, b, f) in [
        ("genesis", 0, h(0), BlockFilter::genesis(NET).content),
        ("good", 0, h(1), good(1)),
        ("empty", 0, h(1), vec![]),
        ("other type", 9, h(1), good(1)),
        ("unknown", 0, unknown, good(1)),
        ("other", 0, h(2), good(1)),
    ] {
        one(l, format!("cfilter, {n}"), M::CFilter(CFilter { filter_type: t, block_hash: b, filter: f }));
    }
    l.push(("cfilters".into(), (0..4).map(|k| M::CFilter(CFilter { filter_type: 0, block_hash: h(k as u64), filter: good(k) })).collect()));
    v
}

const SETUPS: [&str; 7] = [
    "inbound, no version",
    "outbound, no version",
    "outbound, version received",
    "inbound",
    "outbound",
    "outbound, filter headers known, rescan, blocks requested, transaction submitted",
    "outbound, only peer serving filters, rescan, blocks requested, transaction submitted",
];

fn setup(c: &Chain, i: usize) -> (Sim, PeerId, PeerId) {
    let (x, honest) = (peer(0), peer(1));
    let mut s = Sim::new(Opts {
        headers: c.headers(),
        filter_headers: if i == 6 { vec![] } else { c.filter_headers.clone() },
        book: BookStore::default(),
        ..Opts::default()
    });
    s.init();
    s.command(Command::Connect(honest));
    s.dial_ok(honest);
    s.handshake(honest, 3, if i == 6 { FULL } else { FULL | CF });
    if i >= 5 {
        for b in 1..4 {
            s.command(Command::RequestBlock(c.hash(b)));
        }
        let (t, _r) = crossbeam_channel::bounded(1);
        s.command(Command::SubmitTransaction(transaction(1, 1, true), t));
        s.command(Command::Rescan { from: Bound::Included(0), to: Bound::Unbounded, watch: vec![script(1), script(7)] });
    }
    match i {
        0 => s.inbound(x),
        3 => {
            s.inbound(x);
            s.handshake(x, 3, FULL | CF);
        }
        1 | 2 => {
            s.command(Command::Connect(x));
            s.dial_ok(x);
            if i == 2 {
                s.recv(x, M::Version(version(x, 3, FULL | CF, s.now_secs())));
            }
        }
        _ => s.outbound(x, 3, FULL | CF),
    }
    s.run_for(2);
    (s, x, honest)
}

/// The honest peer answers what it is asked.
/// Returns false if it was asked for the filters of a block that doesn't exist (a header the other
/// peer made up), which it cannot answer.
fn honest(s: &mut Sim, h: PeerId, c: &Chain, others: &[Chain]) -> bool {
    let known: Vec<&Chain> = std::iter::once(c).chain(others).collect();
    let mut possible = true;
    answer_pings(s);
    while let Some(m) = s.pop(&h) {
        let r = match m {
            M::GetHeaders(g) => Some(M::Headers(serve_headers(&c.headers(), &g.locator_hashes, g.stop_hash))),
            M::GetCFHeaders(g) => {
                let r = crate::filters::serve_cfheaders(&known, &g).map(M::CFHeaders);
                possible &= r.is_some() || known.iter().any(|k| k.blocks.iter().any(|b| b.block_hash() == g.stop_hash));
                r
            }
            M::GetData(v) => {
                for i in v {
                    if let Inventory::Block(b) = i {
                        if let Some(b) = c.blocks.iter().find(|x| x.block_hash() == b) {
                            s.recv(h, M::Block(b.clone()));
                        }
                    }
                    if let Inventory::Transaction(_) = i {}
                }
                None
            }
            M::Inv(v) => Some(M::GetData(v)),
            _ => None,
        };
        if let Some(r) = r {
            s.recv(h, r);
        }
    }
    possible
}

fn hostile(depth: usize, from: usize, until: usize, ch: &mut Ch) -> Res {
    let c = chain();
    let i = from + ch.pick(until - from);
    ch.note(|| format!("peer 88.10.1.1 is {}", SETUPS[i]));
    let (mut s, x, h) = setup(&c, i);
    let worlds = worlds(&c, s.now_secs());
    let ls = letters(&c, &worlds, s.now_secs());
    let mut possible = true;
    let outs = s.take();
    note_outs(ch, &outs);
    for _ in 0..depth {
        let (name, ms) = &ls[ch.pick(ls.len())];
        ch.note(|| format!("88.10.1.1 sends {name}"));
        let open = s.is_open(&x);
        for m in ms {
            s.recv(x, m.clone());
        }
        ch.step();
        if open {
            ch.nontrivial();
        }
        possible &= honest(&mut s, h, &c, &worlds);
        let outs = s.take();
        note_outs(ch, &outs);
        if !s.is_open(&h) && !possible {
            return Ok(());
        }
        if !s.is_open(&h) {
            return Err("a peer that did nothing wrong was disconnected".into());
        }
        ch.state(&(s.tip(), s.is_open(&x), s.filter_chain().len(), i, outs.len()));
    }
    for _ in 0..8 {
        s.run_for(10);
        possible &= honest(&mut s, h, &c, &worlds);
    }
    let outs = s.take();
    note_outs(ch, &outs);
    if !s.is_open(&h) && !possible {
        return Ok(());
    }
    if !s.is_open(&h) {
        return Err("a peer that did nothing wrong was disconnected".into());
    }
    s.recv(h, M::Ping(77));
    if !s.take().iter().any(|o| matches!(o, Out::Msg(a, M::Pong(77)) if *a == h)) {
        return Err("the node no longer answers".into());
    }
    // It still follows the honest chain, if it is the best.
    let mut next = c.clone();
    next.grow(3, 99);
    let before = s.height();
    s.recv(h, M::Headers(next.headers()[4..].to_vec()));
    honest(&mut s, h, &next, &worlds);
    if before < next.height() && s.tip().0 < next.height() {
        return Err(format!("the node stays at height {before} after headers up to {}", next.height()));
    }
    Ok(())
}

pub fn check(tier: Tier) -> Check {
    let mut spaces = vec![
        space("pairs-handshake", "two messages, before the handshake is complete", |ch| hostile(2, 0, 3, ch)),
        space("pairs", "two messages of a peer in each state, node idle or busy", |ch| hostile(2, 3, 7, ch)),
    ];
    if tier == Tier::Thorough {
        for i in [6, 5, 4, 3] {
            spaces.push(space(format!("triples-{i}"), format!("three messages of a peer: {}", SETUPS[i]), move |ch| hostile(3, i, i + 1, ch)));
        }
    }
    Check {
        spaces,
        rule: "no panic (debug assertions and overflow checks on), no endless loop, no disconnection of a peer that did nothing wrong, the node answers pings and follows a better chain afterwards".into(),
        assumptions: vec!["messages are drawn from an alphabet of about 150 with boundary values in every field the node reads".into()],
    }
}
