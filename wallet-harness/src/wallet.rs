//! W01: the wallet's unspent outputs are those that pay its addresses and that nothing it processed spends.
//!
//! A ledger is a list of transactions over a few addresses, in chain order, cut into blocks. The real wallet loop
//! (`Wallet::run`, on a real database file) is run one or more times over it, each run seeing the blocks from the
//! first on, as the client delivers them after a re-scan; the database is then read back through a new connection.
use std::collections::{BTreeMap, BTreeSet};
use std::net;
use std::ops::{Bound, RangeBounds, RangeInclusive};
use std::sync::{Arc, Mutex};

use crossbeam_channel as chan;
use nakamoto_client::handle::{self, Handle};
use nakamoto_client::{Event, Network};
use nakamoto_common::bitcoin::hashes::Hash as _;
use nakamoto_common::bitcoin::network::constants::ServiceFlags;
use nakamoto_common::bitcoin::network::message::NetworkMessage;
use nakamoto_common::bitcoin::network::Address as NetAddress;
use nakamoto_common::bitcoin::util::address::WitnessVersion;
use nakamoto_common::bitcoin::util::bip32::DerivationPath;
use nakamoto_common::bitcoin::util::uint::Uint256;
use nakamoto_common::bitcoin::{
    self, Address, OutPoint, PackedLockTime, PubkeyHash, Script, Sequence, Transaction, TxIn, TxOut, Txid, WPubkeyHash, Witness,
};
use nakamoto_common::block::filter::BlockFilter;
use nakamoto_common::block::tree::{BlockReader, Error as TreeError, ImportResult};
use nakamoto_common::block::{Block, BlockHash, BlockHeader, Height};
use nakamoto_common::nonempty::NonEmpty;
use nakamoto_p2p::fsm::{self, Command, Link, Peer};
use nakamoto_wallet::wallet::db::{Read as _, Write as _};
use nakamoto_wallet::wallet::{Db, Hw, Wallet};

use crate::engine::{space, Ch, Res};
use crate::util::Scratch;
use crate::{Check, Tier};

/// The terminal's size, as the terminal interface asks for it.
#[no_mangle]
pub unsafe extern "C" fn ioctl(_fd: i32, _req: u64, size: *mut [u16; 4]) -> i32 {
    if _req == 0x5413 {
        *size = [40, 120, 0, 0];
        return 0;
    }
    -1
}

/// A handle to a client which only records what it is asked to scan for.
#[derive(Clone, Default)]
struct Recorder(Arc<Mutex<Vec<(Bound<Height>, Bound<Height>, Vec<Script>)>>>);

#[allow(unused_variables)]
impl Handle for Recorder {
    fn get_tip(&self) -> Result<(Height, BlockHeader, Uint256), handle::Error> {
        Err(handle::Error::Disconnected)
    }
    fn get_block(&self, hash: &BlockHash) -> Result<Option<(Height, BlockHeader)>, handle::Error> {
        Ok(None)
    }
    fn get_block_by_height(&self, height: Height) -> Result<Option<BlockHeader>, handle::Error> {
        Ok(None)
    }
    fn query_tree(&self, query: impl Fn(&dyn BlockReader) + Send + Sync + 'static) -> Result<(), handle::Error> {
        Err(handle::Error::Disconnected)
    }
    fn find_branch(&self, to: &BlockHash) -> Result<Option<(Height, NonEmpty<BlockHeader>)>, handle::Error> {
        Ok(None)
    }
    fn request_block(&self, hash: &BlockHash) -> Result<(), handle::Error> {
        Ok(())
    }
    fn request_filters(&self, range: RangeInclusive<Height>) -> Result<(), handle::Error> {
        Ok(())
    }
    fn blocks(&self) -> chan::Receiver<(Block, Height)> {
        chan::never()
    }
    fn filters(&self) -> chan::Receiver<(BlockFilter, BlockHash, Height)> {
        chan::never()
    }
    fn events(&self) -> chan::Receiver<Event> {
        chan::never()
    }
    fn command(&self, cmd: Command) -> Result<(), handle::Error> {
        if let Command::Rescan { from, to, watch } = cmd {
            self.0.lock().unwrap().push((from, to, watch));
        }
        Ok(())
    }
    fn broadcast(&self, msg: NetworkMessage, predicate: fn(Peer) -> bool) -> Result<Vec<net::SocketAddr>, handle::Error> {
        Ok(vec![])
    }
    fn connect(&self, addr: net::SocketAddr) -> Result<Link, handle::Error> {
        Err(handle::Error::Disconnected)
    }
    fn disconnect(&self, addr: net::SocketAddr) -> Result<(), handle::Error> {
        Ok(())
    }
    fn submit_transaction(&self, tx: Transaction) -> Result<NonEmpty<net::SocketAddr>, handle::Error> {
        Err(handle::Error::Disconnected)
    }
    fn get_submitted_transaction(&self, txid: &Txid) -> Result<Option<Transaction>, handle::Error> {
        Ok(None)
    }
    fn import_headers(&self, headers: Vec<BlockHeader>) -> Result<Result<ImportResult, TreeError>, handle::Error> {
        Err(handle::Error::Disconnected)
    }
    fn import_addresses(&self, addrs: Vec<NetAddress>) -> Result<(), handle::Error> {
        Ok(())
    }
    fn wait<F: FnMut(fsm::Event) -> Option<T>, T>(&self, f: F) -> Result<T, handle::Error> {
        Err(handle::Error::Disconnected)
    }
    fn wait_for_peers(
        &self,
        count: usize,
        required_services: impl Into<ServiceFlags>,
    ) -> Result<Vec<(net::SocketAddr, Height, ServiceFlags)>, handle::Error> {
        Ok(vec![])
    }
    fn wait_for_height(&self, h: Height) -> Result<BlockHash, handle::Error> {
        Err(handle::Error::Disconnected)
    }
    fn shutdown(self) -> Result<(), handle::Error> {
        Ok(())
    }
}

const NETWORKS: [Network; 2] = [Network::Mainnet, Network::Regtest];

/// Who is paid: two addresses of the wallet (one of each kind), somebody else, or a script without an address.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum To {
    A,
    B,
    Other,
    Data,
}

fn address(to: To, net: Network) -> Option<Address> {
    let net: bitcoin::Network = net.into();
    let wp = |b: u8| bitcoin::util::address::Payload::WitnessProgram {
        version: WitnessVersion::V0,
        program: WPubkeyHash::hash(&[b]).to_vec(),
    };
    let payload = match to {
        To::A => wp(1),
        To::B => bitcoin::util::address::Payload::PubkeyHash(PubkeyHash::hash(&[2])),
        To::Other => wp(3),
        To::Data => return None,
    };
    Some(Address { payload, network: net })
}

fn script(to: To, net: Network) -> Script {
    match address(to, net) {
        Some(a) => a.script_pubkey(),
        None => Script::new_op_return(&[1, 2, 3]),
    }
}

struct Ledger {
    net: Network,
    txs: Vec<Transaction>,
    /// Number of transactions in the first `i` blocks.
    cuts: Vec<usize>,
}

impl Ledger {
    /// Enumerate ledgers of exactly `n` transactions.
    fn choose(ch: &mut Ch, n: usize, outs: usize, ins: usize, net: Network, blocks: bool) -> Ledger {
        let mut txs: Vec<Transaction> = vec![];
        let mut cuts = vec![0];
        // Outputs which can be spent, with what they pay.
        let mut open: Vec<(OutPoint, To)> = vec![];
        let mut value = 10_000u64;
        for i in 0..n {
            let k = 1 + ch.pick(outs);
            let mut output = vec![];
            let mut to = vec![];
            for _ in 0..k {
                let t = *ch.of(&[To::A, To::B, To::Other, To::Data][..if i == 0 { 4 } else { 3 }]);
                output.push(TxOut { value, script_pubkey: script(t, net) });
                to.push(t);
                value *= 2;
            }
            // What it spends: something foreign, or up to `ins` of what is there, in either order.
            let mut input = vec![];
            let mut spend = |o: OutPoint| {
                input.push(TxIn { previous_output: o, script_sig: Script::new(), sequence: Sequence::MAX, witness: Witness::new() })
            };
            let m = ch.pick(ins.min(open.len()) + 1);
            if m == 0 || ch.flip() {
                spend(OutPoint { txid: Txid::from_slice(&[i as u8 + 1; 32]).unwrap(), vout: 0 });
            }
            for _ in 0..m {
                let j = ch.pick(open.len());
                spend(open.remove(j).0);
            }
            let tx = Transaction { version: 1, lock_time: PackedLockTime(0), input, output };
            let txid = tx.txid();
            ch.note(|| {
                format!(
                    "transaction {i}: spends {}, pays {}",
                    tx.input.iter().map(|i| format!("{:.6}:{}", i.previous_output.txid, i.previous_output.vout)).collect::<Vec<_>>().join(" "),
                    to.iter().zip(&tx.output).map(|(t, o)| format!("{t:?}={}", o.value)).collect::<Vec<_>>().join(" ")
                ) + &format!(" ({txid:.6})")
            });
            for (v, t) in to.iter().enumerate() {
                if *t != To::Data {
                    open.push((OutPoint { txid, vout: v as u32 }, *t));
                }
            }
            txs.push(tx);
            if i + 1 == n || (blocks && ch.flip()) {
                ch.note(|| format!("block {} ends", cuts.len()));
                cuts.push(i + 1);
            }
        }
        Ledger { net, txs, cuts }
    }

    fn block(&self, i: usize) -> Block {
        let header = BlockHeader {
            version: 1,
            prev_blockhash: BlockHash::all_zeros(),
            merkle_root: bitcoin::TxMerkleNode::all_zeros(),
            time: 0,
            bits: 0,
            nonce: i as u32,
        };
        Block { header, txdata: self.txs[self.cuts[i]..self.cuts[i + 1]].to_vec() }
    }
}

type Coins = BTreeMap<OutPoint, (Script, u64)>;

/// The outputs of the first `n` transactions to the given scripts which none of them spends.
fn unspent(txs: &[Transaction], watch: &[Script]) -> Coins {
    let spent: BTreeSet<OutPoint> = txs.iter().flat_map(|t| t.input.iter().map(|i| i.previous_output)).collect();
    let mut coins = Coins::new();
    for t in txs {
        for (v, o) in t.output.iter().enumerate() {
            let p = OutPoint { txid: t.txid(), vout: v as u32 };
            if watch.contains(&o.script_pubkey) && !spent.contains(&p) {
                coins.insert(p, (o.script_pubkey.clone(), o.value));
            }
        }
    }
    coins
}

/// What is left if a coin can return, because a transaction that pays it is seen again after one that spends it.
fn replayed(mut coins: Coins, txs: &[Transaction], watch: &[Script]) -> Coins {
    for t in txs {
        for (v, o) in t.output.iter().enumerate() {
            if watch.contains(&o.script_pubkey) {
                coins.insert(OutPoint { txid: t.txid(), vout: v as u32 }, (o.script_pubkey.clone(), o.value));
            }
        }
        for i in &t.input {
            coins.remove(&i.previous_output);
        }
    }
    coins
}

fn show(c: &Coins) -> String {
    let v: Vec<_> = c.iter().map(|(o, (_, v))| format!("{:.6}:{}={v}", o.txid, o.vout)).collect();
    format!("[{}]", v.join(" "))
}

/// Read the database back.
fn stored(db: &Db, all: &[OutPoint]) -> Res<(Coins, u64)> {
    let mut coins = Coins::new();
    for (o, t) in db.utxos().map_err(|e| format!("the wallet's outputs can't be read: {e}"))? {
        if coins.insert(o, (t.script_pubkey, t.value)).is_some() {
            return Err(format!("{o} is listed twice"));
        }
    }
    for o in all {
        let one = db.utxo(o).map_err(|e| format!("{o} can't be read: {e}"))?.map(|(_, t)| (t.script_pubkey, t.value));
        if one.as_ref() != coins.get(o) {
            return Err(format!("{o} is {one:?} when asked for, and {:?} when listed", coins.get(o)));
        }
    }
    let balance = db.balance().map_err(|e| format!("the balance can't be read: {e}"))?;
    Ok((coins, balance))
}

fn judge(ch: &mut Ch, db: &Db, l: &Ledger, want: &Coins, again: Option<&Coins>) -> Res {
    let all: Vec<OutPoint> =
        l.txs.iter().flat_map(|t| (0..t.output.len()).map(|v| OutPoint { txid: t.txid(), vout: v as u32 })).collect();
    let (coins, balance) = stored(db, &all)?;
    let sum: u64 = coins.values().map(|c| c.1).sum();
    if balance != sum {
        return Err(format!("the balance is {balance}, and the unspent outputs {} make {sum}", show(&coins)));
    }
    if &coins != want {
        if again == Some(&coins) && ch.known("rescan-returns-spent", || format!("{} instead of {}", show(&coins), show(want))) {
            return Ok(());
        }
        return Err(format!("the unspent outputs are {}, and should be {}", show(&coins), show(want)));
    }
    if !coins.is_empty() {
        ch.nontrivial();
    }
    ch.state(&(balance, coins.into_iter().collect::<Vec<_>>()));
    Ok(())
}

fn new_db(path: &std::path::Path, net: Network, addrs: &[To]) -> Res<Db> {
    let db = Db::open(path).map_err(|e| format!("the wallet can't be opened: {e}"))?;
    for (i, a) in addrs.iter().enumerate() {
        db.add_address(&address(*a, net).unwrap(), i, None).map_err(|e| format!("an address can't be added: {e}"))?;
    }
    Ok(db)
}

fn hw() -> Hw {
    Hw::new(DerivationPath::default())
}

/// One run of the wallet, which sees the blocks before `upto`.
fn run(ch: &mut Ch, path: &std::path::Path, l: &Ledger, upto: usize, birth: Height, offline: bool, addrs: &[To]) -> Res {
    let db = Db::open(path).map_err(|e| format!("the wallet can't be opened: {e}"))?;
    let rec = Recorder::default();
    let mut w = Wallet::new(rec.clone(), l.net, db, hw());
    let (_itx, inputs) = chan::unbounded();
    let (_stx, signals) = chan::unbounded();
    let (ltx, loading) = chan::unbounded();
    let (etx, events) = chan::unbounded();
    drop(ltx);
    for i in 0..upto {
        let height = birth + i as Height;
        let block = l.block(i);
        etx.send(Event::FilterProcessed { block: block.block_hash(), height, matched: true, cached: false, valid: true }).unwrap();
        etx.send(Event::BlockMatched { height, block }).unwrap();
        ch.step();
    }
    drop(etx);
    let mut term: Vec<u8> = vec![];
    match w.run(birth, inputs, signals, loading, events, offline, &mut term) {
        Ok(()) | Err(nakamoto_wallet::error::Error::Channel(_)) => {}
        Err(e) => return Err(format!("the wallet stopped with an error: {e}")),
    }
    let mine: BTreeSet<Script> = addrs.iter().map(|a| script(*a, l.net)).collect();
    let asked = rec.0.lock().unwrap();
    if offline {
        if !asked.is_empty() {
            return Err("a wallet that is offline asked for a scan".into());
        }
    } else {
        let ok = asked.len() == 1
            && (asked[0].0, asked[0].1).contains(&birth)
            && (birth == 0 || !(asked[0].0, asked[0].1).contains(&(birth - 1)))
            && (asked[0].0, asked[0].1).contains(&Height::MAX)
            && asked[0].2.iter().cloned().collect::<BTreeSet<_>>() == mine;
        if !ok {
            return Err(format!("the wallet was to scan for its addresses from {birth} on, and asked for {:?}", *asked));
        }
    }
    if upto > 0 {
        let balance = w.balance().map_err(|e| format!("the balance can't be read: {e}"))?;
        let screen = String::from_utf8_lossy(&term);
        let last = screen.rfind("\u{1b}[2J").unwrap_or(0);
        let text = format!("{:.4} BTC", balance as f64 / 1e8);
        if !screen[last..].contains(&text) {
            return Err(format!("the balance is {text}, and the screen doesn't show it"));
        }
    }
    Ok(())
}

fn runs(ch: &mut Ch, n: usize, outs: usize, ins: usize, max_runs: usize, offline_too: bool) -> Res {
    let net = NETWORKS[0];
    let addrs: &[To] = &[To::A, To::B];
    let l = Ledger::choose(ch, n, outs, ins, net, true);
    let watch: Vec<Script> = addrs.iter().map(|a| script(*a, net)).collect();
    let s = Scratch::new();
    let path = s.path.join("w.db");
    new_db(&path, net, addrs)?;

    let blocks = l.cuts.len() - 1;
    let mut most = 0;
    let mut model = Coins::new();
    for r in 0..max_runs {
        let upto = ch.pick(blocks + 1);
        if upto == 0 && r > 0 {
            break;
        }
        ch.note(|| format!("run {r}: blocks 1 to {upto}"));
        run(ch, &path, &l, upto, 7, false, addrs)?;
        most = most.max(upto);
        let seen = &l.txs[..l.cuts[upto]];
        model = replayed(model, seen, &watch);
        let want = unspent(&l.txs[..l.cuts[most]], &watch);
        let db = Db::open(&path).map_err(|e| format!("the wallet can't be opened again: {e}"))?;
        judge(ch, &db, &l, &want, (r > 0).then_some(&model))?;
        if offline_too {
            ch.note(|| "the wallet is opened offline".into());
            run(ch, &path, &l, 0, 7, true, addrs)?;
            judge(ch, &db, &l, &want, (r > 0).then_some(&model))?;
        }
    }
    Ok(())
}

/// Transactions applied directly, judged after each, with every set of addresses.
fn apply(ch: &mut Ch, n: usize, outs: usize, ins: usize, narrow: bool) -> Res {
    let net = *ch.of(&NETWORKS[..if narrow { 1 } else { 2 }]);
    let sets = [&[To::A, To::B][..], &[To::A], &[To::B], &[]];
    let addrs: &[To] = *ch.of(&sets[..if narrow { 1 } else { 4 }]);
    let l = Ledger::choose(ch, n, outs, ins, net, false);
    let watch: Vec<Script> = addrs.iter().map(|a| script(*a, net)).collect();
    let s = Scratch::new();
    let path = s.path.join("w.db");
    let db = new_db(&path, net, addrs)?;
    let other = Db::open(&path).map_err(|e| format!("the wallet can't be opened again: {e}"))?;
    let mut w = Wallet::new(Recorder::default(), net, db, hw());
    for i in 0..n {
        ch.step();
        w.apply(&l.txs[i], &watch);
        // The same transaction again changes nothing.
        if (!narrow || i + 1 == n) && ch.flip() {
            ch.note(|| format!("transaction {i} is applied twice"));
            w.apply(&l.txs[i], &watch);
        }
        let want = unspent(&l.txs[..=i], &watch);
        judge(ch, &other, &l, &want, None)?;
        let b = w.balance().map_err(|e| format!("the balance can't be read: {e}"))?;
        let sum: u64 = want.values().map(|c| c.1).sum();
        if b != sum {
            return Err(format!("the wallet's balance is {b}, and its outputs make {sum}"));
        }
    }
    Ok(())
}

/// Large amounts and many outputs.
fn large(ch: &mut Ch) -> Res {
    const MAX: u64 = 21_000_000 * 100_000_000;
    let net = *ch.of(&NETWORKS);
    let addrs: &[To] = &[To::A, To::B];
    let watch: Vec<Script> = addrs.iter().map(|a| script(*a, net)).collect();
    let n = *ch.of(&[1usize, 2, 40]);
    let value = *ch.of(&[0u64, 1, u32::MAX as u64 + 1, MAX]);
    let s = Scratch::new();
    let path = s.path.join("w.db");
    let db = new_db(&path, net, addrs)?;
    let mut w = Wallet::new(Recorder::default(), net, db, hw());
    let to = *ch.of(addrs);
    let first = Transaction {
        version: 1,
        lock_time: PackedLockTime(0),
        input: vec![],
        output: (0..n).map(|i| TxOut { value: if i == 0 { value } else { i as u64 }, script_pubkey: script(to, net) }).collect(),
    };
    let txid = first.txid();
    let spent = ch.pick(n.min(3) + 1);
    let second = Transaction {
        version: 2,
        lock_time: PackedLockTime(0),
        input: (0..spent)
            .map(|i| TxIn {
                previous_output: OutPoint { txid, vout: (n - 1 - i) as u32 },
                script_sig: Script::new(),
                sequence: Sequence::MAX,
                witness: Witness::new(),
            })
            .collect(),
        output: vec![],
    };
    ch.note(|| format!("{n} outputs, the first of {value}; the last {spent} are spent"));
    let l = Ledger { net, txs: vec![first, second], cuts: vec![0, 2] };
    for t in &l.txs {
        ch.step();
        w.apply(t, &watch);
    }
    let want = unspent(&l.txs, &watch);
    drop(w);
    let db = Db::open(&path).map_err(|e| format!("the wallet can't be opened again: {e}"))?;
    judge(ch, &db, &l, &want, None)
}

pub fn check(tier: Tier) -> Check {
    let mut spaces = vec![];
    for n in 1..=2 {
        spaces.push(space(
            format!("apply {n}"),
            format!("{n} transactions of up to 2 inputs and 2 outputs applied one by one, each once or twice, with every set of addresses"),
            move |ch: &mut Ch| apply(ch, n, 2, 2, false),
        ));
    }
    spaces.push(space("apply chain", "longer chains of transactions with one input and one output", move |ch: &mut Ch| {
        apply(ch, tier.of(3, 4), 1, 1, tier == Tier::Thorough)
    }));
    for n in 1..=2 {
        spaces.push(space(
            format!("runs {n}"),
            format!("{n} transactions in all blocks, seen by several runs which each stop after any block, and opened offline"),
            move |ch: &mut Ch| runs(ch, n, 2, 2, tier.of(2, 3), true),
        ));
    }
    spaces.push(space("runs chain", "longer chains seen by several runs", move |ch: &mut Ch| {
        runs(ch, tier.of(3, 4), 1, tier.of(2, 1), 2, false)
    }));
    if tier == Tier::Thorough {
        spaces.push(space("apply 3", "3 transactions of up to 2 inputs and 2 outputs applied one by one", |ch: &mut Ch| apply(ch, 3, 2, 2, true)));
        spaces.push(space("runs wide", "3 transactions of up to 2 outputs in all blocks, seen by one run", |ch: &mut Ch| runs(ch, 3, 2, 1, 1, false)));
    }
    spaces.push(space("large", "amounts up to the supply, and many outputs", large));
    Check {
        spaces,
        rule: "every ledger of the stated number of transactions over two addresses of the wallet, a foreign one and a data output, \
               every choice of inputs, every cut into blocks and every sequence of runs"
            .into(),
        assumptions: vec![
            "blocks reach the wallet in chain order from its birth height, as P08 and P09 establish for the client".into(),
            "SQLite keeps its promises; the terminal and the hardware device are stand-ins".into(),
        ],
    }
}
