//! C01..C05: the block tree.
use crate::engine::{space, Ch, Res, Space};
use crate::util::*;
use crate::{Check, Tier};
use nakamoto_chain::block::cache::BlockCache;
use nakamoto_chain::block::store::{File, Memory};
use nakamoto_common::bitcoin::blockdata::block::BlockHeader;
use nakamoto_common::bitcoin::consensus::params::Params;
use nakamoto_common::bitcoin::hash_types::BlockHash;
use nakamoto_common::bitcoin::network::constants::Network;
use nakamoto_common::bitcoin::util::uint::Uint256;
use nakamoto_common::bitcoin_hashes::Hash as _;
use nakamoto_common::block::tree::{BlockReader, BlockTree, Error, ImportResult};
use nakamoto_common::block::store::Store;
use nakamoto_common::nonempty::NonEmpty;
use std::collections::{BTreeMap, BTreeSet};

const T0: u32 = 1_600_000_000;
const HALF: u32 = 0x207fffff; // target 2^255
const EASY: u32 = 0x2000ffff; // about 2^248

/// Network configurations under which trees are explored.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Net {
    /// Uniform difficulty, deterministic tie-break.
    Regtest,
    /// Uniform difficulty, mainnet tie-break.
    Mainnet,
    /// Retarget every three blocks.
    Retarget,
    /// Minimum-difficulty exception, retarget every three blocks.
    MinDiff,
    /// The real regression test network.
    RealRegtest,
    /// The regression test network's genesis, retarget every three blocks.
    RealRetarget,
}

impl Net {
    pub fn params(self) -> Params {
        let mut p = Params::new(Network::Regtest);
        match self {
            Net::Regtest | Net::RealRegtest => {}
            Net::RealRetarget => {
                p.allow_min_difficulty_blocks = false;
                p.no_pow_retargeting = false;
                p.pow_target_spacing = 4;
                p.pow_target_timespan = 12;
            }
            Net::Mainnet => {
                p.network = Network::Bitcoin;
                p.allow_min_difficulty_blocks = false;
                p.no_pow_retargeting = true;
            }
            Net::Retarget => {
                p.network = Network::Signet;
                p.allow_min_difficulty_blocks = false;
                p.no_pow_retargeting = false;
                p.pow_target_spacing = 4;
                p.pow_target_timespan = 12;
                p.pow_limit = BlockHeader::u256_from_compact_target(EASY);
            }
            Net::MinDiff => {
                p.network = Network::Regtest;
                p.allow_min_difficulty_blocks = true;
                p.no_pow_retargeting = false;
                p.pow_target_spacing = 4;
                p.pow_target_timespan = 12;
            }
        }
        p
    }
    fn genesis(self) -> BlockHeader {
        let bits = match self {
            Net::Regtest | Net::Mainnet => HALF,
            Net::Retarget | Net::MinDiff => EASY,
            Net::RealRegtest | Net::RealRetarget => return *genesis_block(Network::Regtest),
        };
        mine(Mine { prev: BlockHash::all_zeros(), time: T0, bits, rank: (0, 1), salt: 0, pow_ok: true })
    }
    fn spacing(self) -> u32 {
        self.params().pow_target_spacing as u32
    }
}

/// How a header is made, relative to its own ancestors.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    /// Valid, parent time plus the target spacing.
    Plain,
    /// Valid, earliest legal time.
    Early,
    /// Valid, much later than the parent.
    Late,
    /// Valid, very much later than the parent.
    VeryLate,
    /// Valid, exactly at the latest legal time.
    Latest,
    /// This many seconds after the parent.
    Plus(u32),
    /// Exactly twice the spacing after the parent / one second more.
    Gap2,
    Gap2Plus,
    /// Invalid: time equals the median time past.
    TooOld,
    /// Invalid: one second beyond the latest legal time.
    TooNew,
    /// Invalid: hash above target.
    BadPow,
    /// Invalid: target harder than required.
    Harder,
    /// Invalid: target easier than required (where possible).
    Easier,
    /// Invalid: target one unit in the mantissa away from what is required.
    OffByOne,
}
use Kind::*;

pub struct Node {
    pub parent: Option<usize>,
    pub header: BlockHeader,
    pub hash: BlockHash,
    pub height: u64,
    /// Satisfies all rules relative to its ancestors.
    pub own_valid: bool,
    /// As `own_valid` for this header and all its ancestors.
    pub valid: bool,
    pub work: Uint256,
    pub kind: Kind,
}

/// Reference rules. `anc` is the full ancestor path, genesis first.
pub fn mtp(anc: &[BlockHeader]) -> u32 {
    let n = anc.len().min(11);
    let mut t: Vec<u32> = anc[anc.len() - n..].iter().map(|h| h.time).collect();
    t.sort();
    t[t.len() / 2]
}

pub fn required_bits(anc: &[BlockHeader], time: u32, p: &Params) -> u32 {
    let interval = p.pow_target_timespan / p.pow_target_spacing;
    let last = anc.last().unwrap();
    let height = anc.len() as u64;
    let limit_bits = match p.network {
        Network::Regtest => 0x207fffff,
        Network::Signet => 0x1e0377ae,
        _ => 0x1d00ffff,
    };
    if height % interval != 0 {
        if p.allow_min_difficulty_blocks {
            if time as u64 > last.time as u64 + 2 * p.pow_target_spacing {
                return limit_bits;
            }
            for (h, b) in anc.iter().enumerate().rev() {
                if b.bits != limit_bits || h as u64 % interval == 0 {
                    return b.bits;
                }
            }
            unreachable!()
        }
        return last.bits;
    }
    if p.no_pow_retargeting {
        return last.bits;
    }
    let first = &anc[(height - interval) as usize];
    let span = p.pow_target_timespan as i64;
    let actual = (last.time as i64 - first.time as i64).clamp(span / 4, span * 4);
    let t = last.target().mul_u32(actual as u32) / Uint256::from_u64(span as u64).unwrap();
    let t = if t > p.pow_limit { p.pow_limit } else { t };
    BlockHeader::compact_target_from_u256(&t)
}

pub fn header_valid(anc: &[BlockHeader], h: &BlockHeader, p: &Params, now: u32) -> bool {
    let bits = required_bits(anc, h.time, p);
    h.target() == BlockHeader::u256_from_compact_target(bits)
        && h.validate_pow(&h.target()).is_ok()
        && h.target() <= p.pow_limit
        && h.time > mtp(anc)
        && h.time as u64 <= now as u64 + 7200
}

/// A tree of headers with the reference verdict for each.
pub struct Universe {
    pub net: Net,
    pub params: Params,
    pub genesis: BlockHeader,
    pub nodes: Vec<Node>,
    pub now: u32,
}

impl Universe {
    pub fn new(net: Net, now: u32) -> Self {
        Self { net, params: net.params(), genesis: net.genesis(), nodes: vec![], now }
    }
    pub fn path(&self, i: Option<usize>) -> Vec<BlockHeader> {
        let mut v = vec![];
        let mut c = i;
        while let Some(k) = c {
            v.push(self.nodes[k].header);
            c = self.nodes[k].parent;
        }
        v.push(self.genesis);
        v.reverse();
        v
    }
    pub fn height(&self, i: Option<usize>) -> u64 {
        i.map(|i| self.nodes[i].height).unwrap_or(0)
    }
    pub fn hash(&self, i: Option<usize>) -> BlockHash {
        i.map(|i| self.nodes[i].hash).unwrap_or(self.genesis.block_hash())
    }
    pub fn work(&self, i: Option<usize>) -> Uint256 {
        i.map(|i| self.nodes[i].work).unwrap_or(self.genesis.work())
    }
    pub fn is_ancestor(&self, a: Option<usize>, mut b: Option<usize>) -> bool {
        loop {
            if a == b {
                return true;
            }
            match b {
                Some(k) => b = self.nodes[k].parent,
                None => return false,
            }
        }
    }
    /// Add a header. Returns `None` if such a header cannot be made here (falls back at the caller).
    pub fn add(&mut self, parent: Option<usize>, kind: Kind, rank: (u8, u8)) -> Option<usize> {
        let anc = self.path(parent);
        let last = *anc.last().unwrap();
        let sp = self.net.spacing();
        let m = mtp(&anc);
        let time = match kind {
            Plain | BadPow | Harder | Easier | OffByOne => last.time + sp,
            Early => m + 1,
            TooOld => m,
            Late => last.time + 3 * sp,
            VeryLate => last.time + 40 * sp,
            Plus(n) => last.time + n,
            Gap2 => last.time + 2 * sp,
            Gap2Plus => last.time + 2 * sp + 1,
            Latest => self.now + 7200,
            TooNew => self.now + 7201,
        };
        let req = required_bits(&anc, time, &self.params);
        let t = BlockHeader::u256_from_compact_target(req);
        let four = Uint256::from_u64(4).unwrap();
        let bits = match kind {
            Harder => BlockHeader::compact_target_from_u256(&(t / four)),
            Easier => {
                if req >= 0x203fffff {
                    return None;
                }
                BlockHeader::compact_target_from_u256(&t.mul_u32(2))
            }
            OffByOne => req - 1,
            _ => req,
        };
        if BlockHeader::u256_from_compact_target(bits) < BlockHeader::u256_from_compact_target(0x1f07ffff) {
            return None; // Too expensive to mine.
        }
        let header = mine(Mine {
            prev: last.block_hash(),
            time,
            bits,
            rank,
            salt: 1 + self.nodes.len() as u8,
            pow_ok: kind != BadPow,
        });
        let own_valid = header_valid(&anc, &header, &self.params, self.now);
        let node = Node {
            parent,
            header,
            hash: header.block_hash(),
            height: anc.len() as u64,
            own_valid,
            valid: own_valid && parent.map(|p| self.nodes[p].valid).unwrap_or(true),
            work: self.work(parent) + header.work(),
            kind,
        };
        self.nodes.push(node);
        Some(self.nodes.len() - 1)
    }
    pub fn find(&self, h: &BlockHash) -> Option<Option<usize>> {
        if *h == self.genesis.block_hash() {
            return Some(None);
        }
        self.nodes.iter().position(|n| n.hash == *h).map(Some)
    }
}

type Cache<S> = BlockCache<S>;

/// Model of what the tree has been given.
struct Model {
    received: BTreeSet<usize>,
    tip: Option<usize>,
    checkpoints: BTreeMap<u64, BlockHash>,
}

impl Model {
    /// All tips eligible as active chain: valid, connected within what was received, and consistent with checkpoints.
    fn eligible(&self, u: &Universe) -> Vec<Option<usize>> {
        let mut v: Vec<Option<usize>> = vec![None];
        for &i in &self.received {
            let mut c = Some(i);
            let mut ok = true;
            while let Some(k) = c {
                let n = &u.nodes[k];
                ok &= n.own_valid && self.received.contains(&k);
                if let Some(cp) = self.checkpoints.get(&n.height) {
                    ok &= *cp == n.hash;
                }
                c = n.parent;
            }
            if ok {
                v.push(Some(i));
            }
        }
        // Once the active chain has reached a checkpoint, only chains through it are eligible.
        let reached = self.last_checkpoint(u);
        if reached > 0 {
            let mut cp = self.tip;
            while u.height(cp) > reached {
                cp = u.nodes[cp.unwrap()].parent;
            }
            v.retain(|t| u.is_ancestor(cp, *t));
        }
        v
    }
    fn last_checkpoint(&self, u: &Universe) -> u64 {
        let h = u.height(self.tip);
        self.checkpoints.keys().rev().find(|c| **c <= h).copied().unwrap_or(0)
    }
}

struct Opts {
    id: &'static str,
    net: Net,
    /// Number of headers in the tree.
    n: usize,
    /// Length of a linear chain below the tree, with the time pattern given.
    base: &'static [usize],
    base_kinds: &'static [Kind],
    /// Kinds for tree headers.
    kinds: &'static [Kind],
    /// At most this many headers may have a kind other than the first.
    max_special: usize,
    batches: bool,
    duplicates: bool,
    checkpoints: usize,
    ranks: bool,
    queries: bool,
    forks_below: u64,
    /// The node may be restarted this many times, between imports.
    restarts: usize,
}

const DEF: Opts = Opts {
    id: "C01",
    net: Net::Regtest,
    n: 4,
    base: &[0],
    base_kinds: &[Plain],
    kinds: &[Plain],
    max_special: usize::MAX,
    batches: true,
    duplicates: false,
    checkpoints: 0,
    ranks: true,
    queries: false,
    forks_below: 0,
    restarts: 0,
};

fn import_err_index(e: &Error) -> Option<(usize, &Error)> {
    match e {
        Error::BlockImportAborted(inner, i, _) => Some((*i, inner)),
        _ => None,
    }
}

fn scenario(o: &Opts, shapes: &[Vec<usize>], ch: &mut Ch) -> Res {
    let now = o.net.genesis().time + 4000;
    let mut u = Universe::new(o.net, now);
    let shape = ch.of(shapes).clone();
    let n = shape.len();
    let desc = o.ranks && ch.flip();
    let base = *ch.of(o.base);

    // Base chain: cycles through the given kinds.
    let mut root: Option<usize> = None;
    for i in 0..base {
        let k = o.base_kinds[i % o.base_kinds.len()];
        root = u.add(root, k, (0, 1)).or_else(|| u.add(root, Plain, (0, 1)));
    }
    let base_nodes: Vec<usize> = (0..u.nodes.len()).collect();
    // The tree may hang off the base's tip or off one of its ancestors.
    if base > 0 && o.forks_below > 0 {
        for _ in 0..ch.pick(o.forks_below as usize + 1) {
            root = root.and_then(|r| u.nodes[r].parent);
        }
    }
    // The tree.
    let mut idx = vec![];
    let mut specials = 0;
    for i in 0..n {
        let parent = if shape[i] == usize::MAX { root } else { Some(idx[shape[i]]) };
        let r = if desc { n - 1 - i } else { i };
        let rank = (r as u8, n as u8);
        let kind = if specials < o.max_special { *ch.of(o.kinds) } else { o.kinds[0] };
        if kind != o.kinds[0] {
            specials += 1;
        }
        let Some(k) = u.add(parent, kind, rank).or_else(|| u.add(parent, o.kinds[0], rank)) else {
            return Ok(()); // Not constructible: nothing to check.
        };
        idx.push(k);
    }
    // Checkpoints: on tree headers.
    let mut m = Model { received: BTreeSet::new(), tip: None, checkpoints: BTreeMap::new() };
    for c in 0..o.checkpoints {
        let extra = if c == 0 { 0 } else { 1 };
        let k = ch.pick(n + extra);
        if k < n {
            let nd = &u.nodes[idx[k]];
            m.checkpoints.entry(nd.height).or_insert(nd.hash);
        }
    }
    ch.note(|| {
        format!(
            "tree over base of {base}: {}",
            idx.iter()
                .map(|&k| {
                    let nd = &u.nodes[k];
                    format!("{}<-{}(h{} {:?} work {} valid {})", u.nodes[k].parent.map(|p| short(&u.nodes[p].hash)).unwrap_or("genesis".into()),
                        short(&nd.hash), nd.height, nd.kind, nd.work.low_u64(), nd.own_valid)
                })
                .collect::<Vec<_>>()
                .join(" ")
        )
    });
    if !m.checkpoints.is_empty() {
        let c = format!("{:?}", m.checkpoints.iter().map(|(h, x)| (h, short(x))).collect::<Vec<_>>());
        ch.note(|| format!("checkpoints {c}"));
    }

    let cps: Vec<(u64, BlockHash)> = m.checkpoints.iter().map(|(h, b)| (*h, *b)).collect();
    let run = Run { o, u: &u, cps: &cps, base: &base_nodes, tree: &idx };
    if o.restarts > 0 {
        let dir = Scratch::new();
        let path = dir.path.join("headers.db");
        let store = File::create(&path, u.genesis).map_err(|e| format!("creating the store: {e}"))?;
        run.go(store, m, ch, |u, m, ch, old| {
            drop(old);
            restart(&path, u, &cps, m, ch)
        })
    } else {
        run.go(Memory::new(NonEmpty::new(u.genesis)), m, ch, |_, _, _, _| unreachable!())
    }
}

struct Run<'a> {
    o: &'a Opts,
    u: &'a Universe,
    cps: &'a [(u64, BlockHash)],
    base: &'a [usize],
    tree: &'a [usize],
}

impl Run<'_> {
    /// Deliver the tree's headers in every order and batching, with restarts in between.
    fn go<S: Store<Header = BlockHeader>>(
        &self,
        store: S,
        mut m: Model,
        ch: &mut Ch,
        mut reload: impl FnMut(&Universe, &mut Model, &mut Ch, Cache<S>) -> Res<Cache<S>>,
    ) -> Res {
        let (o, u) = (self.o, self.u);
        let mut cache = BlockCache::new(store, u.params.clone(), self.cps).map_err(|e| format!("new: {e}"))?;
        let clock = Frozen(u.now);

        if !self.base.is_empty() {
            step(o, u, &mut m, &mut cache, &clock, self.base, ch)?;
        }
        let mut restarts = o.restarts;
        let mut left: Vec<usize> = self.tree.to_vec();
        let mut dup_used = !o.duplicates;
        let mut batch: Vec<usize> = vec![];
        while !left.is_empty() || !batch.is_empty() {
            let dup = if !dup_used && !m.received.is_empty() { 1 } else { 0 };
            if !left.is_empty() {
                let c = ch.pick(left.len() + dup);
                if c == left.len() {
                    // A header that was already given, on its own or inside a batch.
                    dup_used = true;
                    let known: Vec<usize> = m.received.iter().copied().collect();
                    batch.push(*ch.of(&known));
                } else {
                    batch.push(left.remove(c));
                }
            }
            let close = left.is_empty() || !o.batches || ch.flip();
            if close {
                let b = std::mem::take(&mut batch);
                let rejected = step(o, u, &mut m, &mut cache, &clock, &b, ch)?;
                // Headers behind a rejected one were not looked at: offer them again.
                for r in rejected {
                    left.push(r);
                }
                if restarts > 0 && ch.flip() {
                    restarts -= 1;
                    let lost: Vec<usize> = m.received.iter().copied().collect();
                    cache = reload(u, &mut m, ch, cache)?;
                    // What was not on the active chain is forgotten: some of it is sent again.
                    for k in lost {
                        if !m.received.contains(&k) && ch.flip() {
                            left.push(k);
                        }
                    }
                    if o.queries {
                        queries(u, &m, &cache, ch)?;
                    }
                }
            }
        }
        Ok(())
    }
}

/// Open the store again and load the chain from it: everything about the active chain is as before.
fn restart(path: &std::path::Path, u: &Universe, cps: &[(u64, BlockHash)], m: &mut Model, ch: &mut Ch) -> Res<Cache<File<BlockHeader>>> {
    ch.step();
    ch.nontrivial();
    ch.note(|| "restart: the chain is loaded from its store".into());
    let open = || File::open(path, u.genesis).map_err(|e| format!("opening the store: {e}"));
    let h = u.height(m.tip);
    let seen = std::cell::RefCell::new(vec![]);
    let cache = BlockCache::new(open()?, u.params.clone(), cps)
        .and_then(|c| {
            c.load_with(|h| {
                seen.borrow_mut().push(h);
                std::ops::ControlFlow::Continue(())
            })
        })
        .map_err(|e| format!("loading the chain after a restart: {e}"))?;
    if seen.into_inner() != (1..=h).collect::<Vec<_>>() {
        return Err("loading does not report every height in turn".into());
    }
    // Interrupted at any height, loading says so.
    for k in 1..=h {
        let r = BlockCache::new(open()?, u.params.clone(), cps).and_then(|c| {
            c.load_with(|h| if h == k { std::ops::ControlFlow::Break(()) } else { std::ops::ControlFlow::Continue(()) })
        });
        if !matches!(r, Err(Error::Interrupted)) {
            return Err(format!("loading was interrupted at height {k}, but reported {:?}", r.map(|_| ()).map_err(|e| e.to_string())));
        }
    }
    let active = u.path(m.tip);
    if cache.chain().collect::<Vec<_>>() != active {
        return Err(format!("the chain loaded is not the one that was active (tip {} at {})", short(&cache.tip().0), cache.height()));
    }
    if cache.chain_work() != u.work(m.tip) || cache.height() != h || cache.tip() != (u.hash(m.tip), *active.last().unwrap()) {
        return Err(format!("after loading: height {} work {}, expected {h} and {}", cache.height(), cache.chain_work(), u.work(m.tip)));
    }
    m.received = BTreeSet::new();
    let mut c = m.tip;
    while let Some(k) = c {
        m.received.insert(k);
        c = u.nodes[k].parent;
    }
    Ok(cache)
}

/// A store is only loaded if it was made for the network's genesis.
fn wrong_network(ch: &mut Ch) -> Res {
    let nets = [Network::Regtest, Network::Testnet, Network::Bitcoin, Network::Signet];
    let made_for = *ch.of(&nets);
    let opened_as = *ch.of(&nets);
    let params = *ch.of(&nets);
    let len = ch.pick(4);
    let dir = Scratch::new();
    let path = dir.path.join("headers.db");
    let mut prev = *genesis_block(made_for);
    let mut headers = vec![];
    for i in 0..len {
        prev = mine(Mine { prev: prev.block_hash(), time: prev.time + 600, bits: HALF, rank: (0, 1), salt: i as u8, pow_ok: true });
        headers.push(prev);
    }
    let mut f = File::create(&path, *genesis_block(made_for)).map_err(|e| e.to_string())?;
    f.put(headers.iter().copied()).map_err(|e| e.to_string())?;
    drop(f);
    let genesis = *genesis_block(opened_as);
    let f = File::open(&path, genesis).map_err(|e| e.to_string())?;
    let r = BlockCache::from(f, Params::new(params), &[]);
    ch.step();
    ch.state(&(made_for.magic(), opened_as.magic(), params.magic(), len));
    ch.note(|| format!("{len} headers stored for {made_for:?}, opened for {opened_as:?} with {params:?} rules -> {:?}", r.as_ref().map(|_| ()).map_err(|e| e.to_string())));
    let fits = made_for == opened_as && opened_as == params;
    match r {
        Ok(c) => {
            if len > 0 && !fits {
                return Err("headers of another network were loaded".into());
            }
            let want: Vec<BlockHeader> = std::iter::once(genesis).chain(headers).collect();
            if c.chain().collect::<Vec<_>>() != want {
                return Err("the chain loaded is not the one stored".into());
            }
        }
        Err(Error::GenesisMismatch) if len > 0 && !fits => ch.nontrivial(),
        Err(e) => return Err(format!("loading failed: {e}")),
    }
    Ok(())
}

fn genesis_block(n: Network) -> &'static BlockHeader {
    use std::sync::OnceLock;
    static G: OnceLock<Vec<(Network, BlockHeader)>> = OnceLock::new();
    let v = G.get_or_init(|| {
        [Network::Regtest, Network::Testnet, Network::Bitcoin, Network::Signet]
            .into_iter()
            .map(|n| (n, nakamoto_common::bitcoin::blockdata::constants::genesis_block(n).header))
            .collect()
    });
    &v.iter().find(|(m, _)| *m == n).unwrap().1
}

/// Import one batch and check. Returns the headers that were not processed because the batch was aborted.
fn step<S: Store<Header = BlockHeader>>(o: &Opts, u: &Universe, m: &mut Model, cache: &mut Cache<S>, clock: &Frozen, batch: &[usize], ch: &mut Ch) -> Res<Vec<usize>> {
    let before_tip = m.tip;
    let before: Vec<BlockHeader> = u.path(m.tip);
    let r = cache.import_blocks(batch.iter().map(|&k| u.nodes[k].header), clock);
    ch.step();
    ch.note(|| {
        format!(
            "import [{}] -> {}",
            batch.iter().map(|&k| short(&u.nodes[k].hash)).collect::<Vec<_>>().join(", "),
            match &r {
                Ok(ImportResult::TipChanged { hash, height, reverted, connected, .. }) => format!(
                    "tip {} at {} reverted {:?} connected {:?}",
                    short(hash), height,
                    reverted.iter().map(|(h, b)| (h, short(&b.block_hash()))).collect::<Vec<_>>(),
                    connected.iter().map(|(h, b)| (h, short(&b.block_hash()))).collect::<Vec<_>>()
                ),
                Ok(ImportResult::TipUnchanged) => "unchanged".into(),
                Err(e) => format!("error: {e}"),
            }
        )
    });
    let mut rest = vec![];
    let mut active_changed_by_abort = false;
    match &r {
        Ok(_) => m.received.extend(batch.iter().copied()),
        Err(e) => {
            let Some((i, inner)) = import_err_index(e) else {
                return Err(format!("import failed with an unexpected error: {e}"));
            };
            active_changed_by_abort = true;
            m.received.extend(batch[..i].iter().copied());
            rest.extend(batch[i + 1..].iter().copied());
            // The header at `i` must deserve rejection.
            let nd = &u.nodes[batch[i]];
            let below_cp = matches!(inner, Error::InvalidBlockHeight(_)) && !m.checkpoints.is_empty();
            let off_cp = m.checkpoints.get(&nd.height).map(|c| *c != nd.hash).unwrap_or(false);
            let judge = matches!(o.id, "C01" | "C02");
            if judge && nd.own_valid && !off_cp && !below_cp {
                return Err(format!("valid header {} at height {} was rejected: {inner}", short(&nd.hash), nd.height));
            }
            if judge && below_cp && nd.own_valid && !off_cp {
                // Must fork off below the last checkpoint reached (judged on the state after the preceding headers).
                let reached = cache.last_checkpoint();
                if nd.height > reached {
                    return Err(format!("header {} at height {} rejected as below checkpoint {reached}", short(&nd.hash), nd.height));
                }
            }
        }
    }
    // Locate the active chain of the implementation in our universe.
    let (tip_hash, tip_header) = cache.tip();
    let Some(tip) = u.find(&tip_hash) else {
        return Err(format!("tip {tip_hash} is not a header that was imported"));
    };
    let chain: Vec<BlockHeader> = cache.chain().collect();
    let want = u.path(tip);
    if chain != want {
        return Err("the active chain is not a path from genesis to the tip".into());
    }
    if tip_header != *want.last().unwrap() {
        return Err("tip header differs from the last header of the chain".into());
    }
    // Rules: every active header is valid and was received (C02).
    let mut c = tip;
    while let Some(k) = c {
        if matches!(o.id, "C01" | "C02") && !u.nodes[k].own_valid {
            return Err(format!("invalid header {} ({:?}) at height {} is active", short(&u.nodes[k].hash), u.nodes[k].kind, u.nodes[k].height));
        }
        if !m.received.contains(&k) {
            return Err("a header that was never accepted is active".into());
        }
        c = u.nodes[k].parent;
    }
    // Checkpoints (C04).
    for (h, hash) in m.checkpoints.iter().filter(|_| o.id == "C04") {
        if let Some(b) = chain.get(*h as usize) {
            if b.block_hash() != *hash {
                return Err(format!("active block at checkpoint height {h} is not the checkpoint"));
            }
        }
        if before.len() as u64 > *h {
            ch.nontrivial();
            if chain.len() as u64 <= *h || chain[..=*h as usize] != before[..=*h as usize] {
                return Err(format!("blocks at or below checkpoint {h} were replaced after it was reached"));
            }
        }
    }
    // Best chain (C01, C02).
    if matches!(o.id, "C01" | "C02" | "C06") {
        best_chain(u, m, cache, before_tip, tip, ch)?;
    }
    // Report (C03).
    if matches!(o.id, "C03" | "C06") && !active_changed_by_abort {
        check_report(&before, &chain, r.as_ref().unwrap(), ch)?;
    }
    if tip != before_tip && !u.is_ancestor(before_tip, tip) {
        ch.nontrivial();
    }
    m.tip = tip;
    if o.queries {
        queries(u, m, cache, ch)?;
    }
    ch.state(&(tip_hash, m.received.iter().map(|&k| u.nodes[k].hash).collect::<Vec<_>>()));
    Ok(rest)
}

/// The active chain is the valid chain with the most work.
fn best_chain<S: Store<Header = BlockHeader>>(u: &Universe, m: &Model, cache: &Cache<S>, before_tip: Option<usize>, tip: Option<usize>, ch: &mut Ch) -> Res {
    let tip_hash = u.hash(tip);
    let el = m.eligible(u);
    let best = el.iter().map(|t| u.work(*t)).max().unwrap();
    if u.work(tip) != best {
        let b = el.iter().find(|t| u.work(**t) == best).unwrap();
        return Err(format!(
            "active tip {} has work {} but {} with work {} was received and is valid",
            short(&tip_hash), u.work(tip).low_u64(), short(&u.hash(*b)), best.low_u64()
        ));
    }
    let ties: Vec<Option<usize>> = el.iter().copied().filter(|t| u.work(*t) == best).collect();
    if ties.len() > 1 {
        ch.nontrivial();
    }
    if u.params.network != Network::Bitcoin {
        let low = ties.iter().map(|t| u.hash(*t)).min().unwrap();
        if tip_hash != low {
            return Err(format!("equal-work tie resolved to {} instead of the lower {}", short(&tip_hash), short(&low)));
        }
    } else if ties.contains(&before_tip) && tip != before_tip {
        return Err("mainnet switched to a chain of equal work".into());
    }
    if cache.height() != u.height(tip) {
        return Err(format!("height is {} but the tip is at {}", cache.height(), u.height(tip)));
    }
    if cache.chain_work() != u.work(tip) {
        return Err(format!("total work is {} but the chain carries {}", cache.chain_work(), u.work(tip)));
    }
    Ok(())
}

fn check_report(before: &[BlockHeader], after: &[BlockHeader], r: &ImportResult, _ch: &mut Ch) -> Res {
    match r {
        ImportResult::TipUnchanged => {
            if before != after {
                return Err("the active chain changed but the import reported it unchanged".into());
            }
        }
        ImportResult::TipChanged { header, hash, height, reverted, connected } => {
            if before == after {
                return Err("the import reported a new tip but the active chain is the same".into());
            }
            let fork = before.iter().zip(after).take_while(|(a, b)| a == b).count();
            let want_rev: Vec<(u64, BlockHeader)> = (fork..before.len()).rev().map(|i| (i as u64, before[i])).collect();
            let want_con: Vec<(u64, BlockHeader)> = (fork..after.len()).map(|i| (i as u64, after[i])).collect();
            if *header != *after.last().unwrap() || *hash != header.block_hash() || *height != after.len() as u64 - 1 {
                return Err(format!("reported tip {} at {height} is not the tip of the active chain", short(hash)));
            }
            if *reverted != want_rev {
                return Err(format!(
                    "reported reverted blocks {:?}, expected {:?}",
                    reverted.iter().map(|(h, b)| (h, short(&b.block_hash()))).collect::<Vec<_>>(),
                    want_rev.iter().map(|(h, b)| (h, short(&b.block_hash()))).collect::<Vec<_>>()
                ));
            }
            let got: Vec<(u64, BlockHeader)> = connected.iter().cloned().collect();
            if got != want_con {
                return Err(format!(
                    "reported connected blocks {:?}, expected {:?}",
                    got.iter().map(|(h, b)| (h, short(&b.block_hash()))).collect::<Vec<_>>(),
                    want_con.iter().map(|(h, b)| (h, short(&b.block_hash()))).collect::<Vec<_>>()
                ));
            }
        }
    }
    Ok(())
}

/// Reference for locator heights: dense at first, then exponentially spaced, genesis always last.
fn locator_heights(from: u64) -> Vec<u64> {
    let mut v = vec![];
    let mut h = from as i64;
    let mut step = 1i64;
    while h > 0 {
        if v.len() >= 8 {
            step *= 2;
        }
        v.push(h as u64);
        h -= step;
    }
    v.push(0);
    v
}

fn queries<S: Store<Header = BlockHeader>>(u: &Universe, m: &Model, cache: &Cache<S>, ch: &mut Ch) -> Res {
    let active = u.path(m.tip);
    let hashes: Vec<BlockHash> = active.iter().map(|h| h.block_hash()).collect();
    let h = active.len() as u64 - 1;
    let unknown = BlockHash::from_inner([0x77; 32]);
    let mut all: Vec<BlockHash> = u.nodes.iter().map(|n| n.hash).collect();
    all.push(u.genesis.block_hash());
    all.push(unknown);
    all.push(BlockHash::all_zeros());
    ch.step();

    for x in &all {
        let pos = hashes.iter().position(|y| y == x);
        let got = cache.get_block(x).map(|(h, b)| (h, *b));
        let want = pos.map(|p| (p as u64, active[p]));
        if got != want {
            return Err(format!("lookup of {} by hash returned {:?}, expected {:?}", short(x), got.map(|g| g.0), want.map(|g| g.0)));
        }
        if cache.contains(x) != pos.is_some() {
            return Err(format!("membership of {} is wrong", short(x)));
        }
        let received = u.find(x).map(|i| i.map(|k| m.received.contains(&k)).unwrap_or(true)).unwrap_or(false);
        if cache.is_known(x) != received {
            return Err(format!("known-block query for {} is {}, expected {}", short(x), !received, received));
        }
        // Branch.
        let want = match (pos, u.find(x)) {
            (Some(p), _) => Some((p as u64, vec![active[p]])),
            (None, Some(Some(k))) if received => {
                let mut path = vec![];
                let mut c = Some(k);
                let mut ok = true;
                while let Some(i) = c {
                    if hashes.contains(&u.nodes[i].hash) {
                        break;
                    }
                    ok &= m.received.contains(&i);
                    path.push(u.nodes[i].header);
                    c = u.nodes[i].parent;
                }
                let fh = u.height(c);
                path.push(active[fh as usize]);
                path.reverse();
                if ok { Some((fh, path)) } else { None }
            }
            _ => None,
        };
        let got = cache.find_branch(x).map(|(h, b)| (h, b.iter().cloned().collect::<Vec<_>>()));
        if got != want {
            return Err(format!("branch to {} is {:?}, expected {:?}", short(x), got.map(|g| (g.0, g.1.len())), want.map(|g| (g.0, g.1.len()))));
        }
    }
    for i in 0..h + 3 {
        if cache.get_block_by_height(i) != active.get(i as usize) {
            return Err(format!("lookup by height {i} is wrong"));
        }
        for j in i..h + 3 {
            let got: Vec<(u64, BlockHash)> = BlockReader::range(cache, i..j).collect();
            let want: Vec<(u64, BlockHash)> = (i..j.min(h + 1)).map(|k| (k, hashes[k as usize])).collect();
            if got != want {
                return Err(format!("range {i}..{j} is wrong"));
            }
        }
    }
    let fwd: Vec<_> = cache.iter().collect();
    let want: Vec<_> = active.iter().enumerate().map(|(i, b)| (i as u64, *b)).collect();
    let mut bwd: Vec<_> = cache.iter().rev().collect();
    bwd.reverse();
    if fwd != want || bwd != want {
        return Err("iteration differs from the active chain".into());
    }
    // Alternating ends.
    {
        let mut it = cache.iter();
        let (mut lo, mut hi) = (0usize, active.len());
        let mut front = true;
        while lo < hi {
            let (g, w) = if front {
                lo += 1;
                (it.next(), want[lo - 1])
            } else {
                hi -= 1;
                (it.next_back(), want[hi])
            };
            if g != Some(w) {
                return Err("double-ended iteration differs from the active chain".into());
            }
            front = !front;
        }
        if it.next().is_some() || it.next_back().is_some() {
            return Err("iteration does not end".into());
        }
    }
    if cache.best_block() != (h, active.last().unwrap()) || cache.genesis() != &u.genesis {
        return Err("best block or genesis is wrong".into());
    }
    if cache.checkpoints() != m.checkpoints || cache.last_checkpoint() != m.last_checkpoint(u) {
        return Err("checkpoints are wrong".into());
    }
    for k in 1..=h + 1 {
        if cache.median_time_past(k) != mtp(&active[..k as usize]) {
            return Err(format!("median time past at {k} is wrong"));
        }
    }
    // Header location.
    let mut locs: Vec<Vec<BlockHash>> = vec![vec![]];
    for a in &all {
        locs.push(vec![*a]);
        for b in &all {
            locs.push(vec![*a, *b]);
        }
    }
    for l in &locs {
        for s in &all {
            for max in [0usize, 1, 2, 1000] {
                let want: Vec<BlockHeader> = if l.is_empty() {
                    hashes.iter().position(|x| x == s).map(|p| vec![active[p]]).unwrap_or_default()
                } else {
                    let start = l.iter().find_map(|x| hashes.iter().position(|y| y == x)).unwrap_or(0);
                    let stop = hashes.iter().position(|y| y == s).unwrap_or(h as usize);
                    let mut v = vec![];
                    let mut k = start + 1;
                    while k <= stop && v.len() < max {
                        v.push(active[k]);
                        k += 1;
                    }
                    v
                };
                let got = cache.locate_headers(l, *s, max);
                if got != want {
                    return Err(format!(
                        "locating [{}] stop {} max {max} returned {} headers, expected {}",
                        l.iter().map(short).collect::<Vec<_>>().join(","), short(s), got.len(), want.len()
                    ));
                }
            }
        }
    }
    check_locators(cache, &hashes, m.last_checkpoint(u))
}

fn check_locators<S: Store<Header = BlockHeader>>(cache: &Cache<S>, hashes: &[BlockHash], cp: u64) -> Res {
    for from in 0..hashes.len() as u64 {
        let got = cache.locator_hashes(from);
        let bad = |m: String| Err(format!("locators from {from} (last checkpoint {cp}): {m}"));
        let mut hs: Vec<i64> = vec![];
        for g in &got {
            match hashes.iter().position(|h| h == g) {
                Some(p) => hs.push(p as i64),
                None => return bad(format!("{} is not on the active chain", short(g))),
            }
        }
        if from < cp {
            if hs.iter().any(|h| *h < cp as i64) {
                return bad("reach below the last checkpoint".into());
            }
            continue;
        }
        if hs.first() != Some(&(from as i64)) {
            return bad("do not start at the requested height".into());
        }
        let mut gap = 1;
        for w in hs.windows(2) {
            let d = w[0] - w[1];
            if d <= 0 {
                return bad("do not go strictly backwards".into());
            }
            if d > 2 * gap && w[1] != 0 {
                return bad(format!("skip from {} to {}", w[0], w[1]));
            }
            gap = d;
        }
        let last = *hs.last().unwrap();
        if last < cp as i64 {
            return bad("reach below the last checkpoint".into());
        }
        if cp == 0 && last != 0 {
            return bad("do not end with genesis".into());
        }
        if last - cp as i64 >= 2 * gap.max(1) + 1 {
            return bad(format!("end at {last}"));
        }
        let log = 64 - (from + 1).leading_zeros() as usize;
        if hs.len() > 14 + log {
            return bad(format!("{} hashes, they do not thin out", hs.len()));
        }
    }
    Ok(())
}

/// Long linear chain: locators and location across their exponential part, with a checkpoint anywhere.
fn long_chain(len: usize, ch: &mut Ch) -> Res {
    let mut u = Universe::new(Net::Regtest, T0 + 4000);
    u.now = T0 + 600 * (len as u32 + 4);
    let mut tip = None;
    for _ in 0..len {
        tip = u.add(tip, Plain, (0, 1));
    }
    let cp = ch.pick(len + 1);
    let cps: Vec<(u64, BlockHash)> = if cp == 0 { vec![] } else { vec![(cp as u64, u.nodes[cp - 1].hash)] };
    let h = ch.pick(len + 1);
    let mut cache = BlockCache::new(Memory::new(NonEmpty::new(u.genesis)), u.params.clone(), &cps).map_err(|e| e.to_string())?;
    cache.import_blocks(u.nodes[..h].iter().map(|n| n.header), &Frozen(u.now)).map_err(|e| format!("import of a valid chain failed: {e}"))?;
    ch.step();
    let active: Vec<BlockHeader> = u.path(tip)[..=h].to_vec();
    let hashes: Vec<BlockHash> = active.iter().map(|b| b.block_hash()).collect();
    let reached = if cp <= h { cp as u64 } else { 0 };
    ch.note(|| format!("chain of height {h}, checkpoint at {cp}"));
    ch.nontrivial();
    ch.state(&(h, cp));
    if cache.last_checkpoint() != reached {
        return Err(format!("last checkpoint is {}, expected {reached}", cache.last_checkpoint()));
    }
    check_locators(&cache, &hashes, reached)?;
    for k in 1..=h as u64 {
        if cache.median_time_past(k) != mtp(&active[..k as usize]) {
            return Err(format!("median time past at {k} is wrong"));
        }
    }
    // A peer that knows any prefix of our chain gets the continuation.
    for a in 0..=h {
        let loc: Vec<BlockHash> = locator_heights(a as u64).into_iter().map(|x| hashes[x as usize]).collect();
        for max in [1usize, 5, 2000] {
            let got = cache.locate_headers(&loc, BlockHash::all_zeros(), max);
            let want: Vec<BlockHeader> = active[a + 1..].iter().take(max).cloned().collect();
            if got != want {
                return Err(format!("continuation after {a} (max {max}) is wrong"));
            }
        }
    }
    Ok(())
}

/// `extend_tip`: extends the active chain by one valid header, or leaves everything as it was.
fn extend(id: &str, ch: &mut Ch, net: Net, kinds: &[Kind], depth: usize) -> Res {
    let now = T0 + 4000;
    let mut u = Universe::new(net, now);
    let mut cache = BlockCache::new(Memory::new(NonEmpty::new(u.genesis)), u.params.clone(), &[]).map_err(|e| e.to_string())?;
    let mut tip: Option<usize> = None;
    for d in 0..depth {
        let on_tip = d == 0 || ch.pick(4) != 3;
        let parent = if on_tip { tip } else { tip.and_then(|t| u.nodes[t].parent) };
        let kind = *ch.of(kinds);
        let Some(k) = u.add(parent, kind, (0, 1)) else { return Ok(()) };
        let before = u.path(tip);
        let r = cache.extend_tip(u.nodes[k].header, &Frozen(now));
        ch.step();
        ch.note(|| format!("extend with {} ({kind:?}) on {} -> {:?}", short(&u.nodes[k].hash), if on_tip || tip.is_none() { "tip" } else { "parent of tip" },
            r.as_ref().map(|x| matches!(x, ImportResult::TipChanged { .. })).map_err(|e| e.to_string())));
        let connects = parent == tip;
        let after: Vec<BlockHeader> = cache.chain().collect();
        match r {
            Ok(res) => {
                if id == "C02" && connects && !u.nodes[k].own_valid {
                    return Err(format!("invalid header ({kind:?}) was accepted as new tip"));
                }
                if connects {
                    tip = Some(k);
                }
                if id == "C03" {
                    check_report(&before, &after, &res, ch)?;
                }
            }
            Err(e) => {
                if id == "C02" && connects && u.nodes[k].own_valid {
                    return Err(format!("valid header ({kind:?}) at height {} was rejected: {e}", u.nodes[k].height));
                }
                ch.nontrivial();
            }
        }
        if after != u.path(tip) || cache.height() != u.height(tip) || cache.chain_work() != u.work(tip) || cache.tip().0 != u.hash(tip) {
            return Err("the active chain is not what the accepted headers make it".into());
        }
        ch.state(&(cache.tip().0, d));
    }
    Ok(())
}

/// Branches much longer than the trees hold, growing in turns: deep re-orgs back and forth.
fn long_forks(o: &Opts, stages: usize, ch: &mut Ch) -> Res {
    let now = o.net.genesis().time + 4000;
    let mut u = Universe::new(o.net, now);
    let mut m = Model { received: BTreeSet::new(), tip: None, checkpoints: BTreeMap::new() };
    let desc = ch.flip();
    let base = *ch.of(o.base);
    let mut cache = BlockCache::new(Memory::new(NonEmpty::new(u.genesis)), u.params.clone(), &[]).map_err(|e| format!("new: {e}"))?;
    let clock = Frozen(u.now);
    let mut root: Option<usize> = None;
    for _ in 0..base {
        root = u.add(root, Plain, (0, 1));
    }
    if base > 0 {
        let all: Vec<usize> = (0..u.nodes.len()).collect();
        step(o, &u, &mut m, &mut cache, &clock, &all, ch)?;
    }
    // The third branch forks off the first one, where that is long enough.
    let mut branches: [Vec<usize>; 3] = [vec![], vec![], vec![]];
    for _ in 0..stages {
        let b = ch.pick(3);
        let count = *ch.of(&[1usize, 6]);
        let backwards = count > 1 && ch.flip();
        let mut new = vec![];
        for _ in 0..count {
            let parent = branches[b].last().copied().or(if b == 2 { branches[0].get(3).copied().or(root) } else { root });
            let r = if desc { 2 - b } else { b } as u8;
            let Some(k) = u.add(parent, Plain, (r, 3)) else { return Ok(()) };
            branches[b].push(k);
            new.push(k);
        }
        ch.note(|| format!("branch {b} grows by {count}{}", if backwards { ", delivered backwards one by one" } else { "" }));
        if backwards {
            for k in new.into_iter().rev() {
                step(o, &u, &mut m, &mut cache, &clock, &[k], ch)?;
            }
        } else {
            step(o, &u, &mut m, &mut cache, &clock, &new, ch)?;
        }
    }
    Ok(())
}

fn long_fork_space(o: Opts, stages: usize) -> Space {
    space("long-forks", format!("{stages} turns in which one of three branches, over a chain of {:?} blocks, grows by 1 or 6 headers, in one batch or backwards one by one", o.base), move |ch| long_forks(&o, stages, ch))
}

/// Extending the tip directly towards and past a checkpoint, which the headers may match or not.
fn extend_cp(net: Net, kinds: &[Kind], depth: usize, mismatch: bool, ch: &mut Ch) -> Res {
    let now = T0 + 4000;
    let mut u = Universe::new(net, now);
    let mut path: Vec<usize> = vec![];
    for _ in 0..depth {
        let kind = *ch.of(kinds);
        let Some(k) = u.add(path.last().copied(), kind, (0, 1)) else { return Ok(()) };
        path.push(k);
    }
    let at = 1 + ch.pick(depth) as u64;
    let matching = !mismatch || ch.flip();
    let cp = if matching { u.nodes[path[at as usize - 1]].hash } else { BlockHash::hash(b"checkpoint") };
    let mut cache = BlockCache::new(Memory::new(NonEmpty::new(u.genesis)), u.params.clone(), &[(at, cp)]).map_err(|e| e.to_string())?;
    ch.note(|| format!("checkpoint at {at}, on this chain: {matching}"));
    for (i, &k) in path.iter().enumerate() {
        let nd = &u.nodes[k];
        let good = nd.own_valid && (nd.height != at || matching);
        let r = cache.extend_tip(nd.header, &Frozen(now));
        ch.step();
        ch.note(|| format!("extend with {} ({:?}) -> {:?}", short(&nd.hash), nd.kind, r.as_ref().map(|_| ()).map_err(|e| e.to_string())));
        if r.is_ok() != good {
            return Err(format!("header ({:?}) at height {} was {}", nd.kind, nd.height, if good { "rejected" } else { "accepted, though invalid or not the checkpoint" }));
        }
        let tip = if good { Some(k) } else { path[..i].last().copied() };
        if cache.chain().collect::<Vec<_>>() != u.path(tip) || cache.tip().0 != u.hash(tip) {
            return Err("the active chain is not what the accepted headers make it".into());
        }
        ch.state(&(cache.tip().0, at, matching));
        ch.nontrivial();
        if !good {
            break;
        }
    }
    Ok(())
}

fn tree_space(name: &str, desc: &str, o: Opts) -> Space {
    let shapes = trees(o.n);
    let d = format!("{desc}; all {} rooted trees of {} headers, every arrival order{}{}{}", shapes.len(), o.n,
        if o.batches { ", every batching" } else { ", one at a time" },
        if o.duplicates { ", one re-sent header anywhere" } else { "" },
        if o.kinds.len() > 1 { format!(", header variants {:?} (at most {} special)", o.kinds, if o.max_special == usize::MAX { o.n } else { o.max_special }) } else { String::new() });
    space(name, d, move |ch| scenario(&o, &shapes, ch))
}

pub fn check(id: &str, tier: Tier) -> Check {
    let mut spaces = vec![];
    let q = tier == Tier::Quick;
    match id {
        "C01" => {
            spaces.push(tree_space("uniform", "uniform difficulty", Opts { n: if q { 5 } else { 6 }, ..DEF }));
            spaces.push(tree_space("duplicates", "uniform difficulty", Opts { n: 4, duplicates: true, ..DEF }));
            spaces.push(tree_space("mainnet", "mainnet tie-break", Opts { n: if q { 5 } else { 6 }, net: Net::Mainnet, ..DEF }));
            spaces.push(tree_space("retarget", "difficulty differs between branches", Opts { n: if q { 4 } else { 5 }, base: &[1, 2], net: Net::Retarget, kinds: &[Plain, Early, Late], ..DEF }));
            spaces.push(tree_space("mindiff", "minimum-difficulty exception", Opts { n: 4, base: &[0, 1, 2], net: Net::MinDiff, kinds: &[Plain, Late], batches: !q, ..DEF }));
            spaces.push(tree_space("checkpoint", "one checkpoint", Opts { n: if q { 4 } else { 5 }, checkpoints: 1, ..DEF }));
            spaces.push(long_fork_space(Opts { base: &[0, 5], id: "C01", ..DEF }, if q { 4 } else { 5 }));
            spaces.push(tree_space("invalid", "one invalid header", Opts { n: 4, kinds: &[Plain, BadPow, TooOld, Harder, TooNew], max_special: 1, ..DEF }));
            if !q {
                spaces.push(tree_space("uniform7", "uniform difficulty", Opts { n: 7, batches: false, ..DEF }));
            }
        }
        "C02" => {
            const ALL: &[Kind] = &[Plain, Early, Latest, Gap2, Gap2Plus, TooOld, TooNew, BadPow, Harder, Easier, OffByOne];
            spaces.push(tree_space("uniform-rules", "uniform difficulty", Opts { n: if q { 3 } else { 4 }, kinds: ALL, max_special: if q { 3 } else { 2 }, ranks: false, id: "C02", ..DEF }));
            spaces.push(tree_space("retarget-rules", "retarget every three blocks, base chains of 0..3 blocks", Opts { n: 3, net: Net::Retarget, base: &[0, 1, 2, 3], kinds: &[Plain, Early, Late, VeryLate, TooOld, Harder, Easier, OffByOne], max_special: 3, ranks: false, batches: !q, id: "C02", ..DEF }));
            spaces.push(tree_space("retarget-deep", "retarget with irregular base chains", Opts { n: 4, net: Net::Retarget, base: &[3, 5, 8], base_kinds: &[Latest, Early, Early, VeryLate, Early], kinds: &[Plain, Early, VeryLate], max_special: 4, ranks: false, batches: false, forks_below: 3, id: "C02", ..DEF }));
            spaces.push(tree_space("mindiff-rules", "minimum-difficulty exception", Opts { n: if q { 3 } else { 4 }, net: Net::MinDiff, base: &[0, 1, 2, 4], base_kinds: &[Plain, Late, Gap2Plus], kinds: &[Plain, Gap2, Gap2Plus, Late, Early, Harder, OffByOne], max_special: 3, ranks: false, batches: false, id: "C02", ..DEF }));
            spaces.push(tree_space("retarget-clamp", "periods around a quarter and four times the target timespan, far from the limit", Opts { n: if q { 3 } else { 4 }, net: Net::Retarget, base: &[6, 7], base_kinds: &[Early], kinds: &[Plain, Plus(1), Plus(2), Plus(3), Plus(45), Plus(46), Plus(47), Plus(48), VeryLate], max_special: 2, ranks: false, batches: false, id: "C02", ..DEF }));
            spaces.push(space("extend-checkpoint", "extending the tip directly towards and past a checkpoint", move |ch| extend_cp(Net::Retarget, &[Plain, Early, VeryLate, TooOld, TooNew, BadPow, Harder, OffByOne], if q { 4 } else { 5 }, false, ch)));
            spaces.push(tree_space("median", "median time over irregular base chains", Opts { n: if q { 3 } else { 4 }, base: &[4, 10, 11, 12, 13], base_kinds: &[Plain, Early, Late, Early, Plain, Late, Early], kinds: &[Early, TooOld, Plain, TooNew, Latest], max_special: if q { 2 } else { 3 }, ranks: false, batches: false, forks_below: 2, id: "C02", ..DEF }));
            for net in [Net::Regtest, Net::Retarget, Net::MinDiff] {
                let depth = if q { 4 } else { 5 };
                spaces.push(space(format!("extend-{net:?}"), format!("extending the tip directly, {depth} steps, all header variants"), move |ch| {
                    extend("C02", ch, net, &[Plain, Early, Late, Gap2, Gap2Plus, TooOld, TooNew, BadPow, Harder, Easier, OffByOne], depth)
                }));
            }
        }
        "C03" => {
            spaces.push(tree_space("reports", "uniform difficulty", Opts { n: if q { 5 } else { 6 }, id: "C03", ..DEF }));
            spaces.push(tree_space("reports-mainnet", "mainnet", Opts { n: if q { 5 } else { 6 }, net: Net::Mainnet, id: "C03", ..DEF }));
            spaces.push(tree_space("reports-dup", "re-sent headers", Opts { n: 4, duplicates: true, id: "C03", ..DEF }));
            spaces.push(tree_space("reports-retarget", "difficulty differs between branches", Opts { n: 4, base: &[1, 2], net: Net::Retarget, kinds: &[Plain, Early, Late], id: "C03", ..DEF }));
            spaces.push(tree_space("reports-mindiff", "shorter branches may carry more work", Opts { n: if q { 4 } else { 5 }, base: &[0, 1], net: Net::MinDiff, kinds: &[Plain, Late], id: "C03", ..DEF }));
            spaces.push(tree_space("reports-base", "forks off a longer chain", Opts { n: if q { 4 } else { 5 }, base: &[3], forks_below: 3, id: "C03", ..DEF }));
            spaces.push(tree_space("reports-six", "six headers in whole-batch or two-batch arrivals", Opts { n: 6, ranks: false, batches: !q, id: "C03", ..DEF }));
            spaces.push(long_fork_space(Opts { base: &[0, 5], id: "C03", ..DEF }, if q { 4 } else { 5 }));
            spaces.push(space("extend", "extending the tip directly", move |ch| extend("C03", ch, Net::Regtest, &[Plain, Early, TooOld], if q { 5 } else { 6 })));
        }
        "C04" => {
            spaces.push(tree_space("one", "one checkpoint on any header", Opts { n: if q { 5 } else { 6 }, checkpoints: 1, batches: !q, id: "C04", ..DEF }));
            spaces.push(tree_space("two", "up to two checkpoints", Opts { n: if q { 4 } else { 5 }, checkpoints: 2, id: "C04", ..DEF }));
            spaces.push(tree_space("one-batched", "one checkpoint, batches", Opts { n: 4, checkpoints: 1, base: &[0, 2], forks_below: 2, id: "C04", ..DEF }));
            spaces.push(tree_space("mainnet", "one checkpoint, mainnet tie-break", Opts { n: if q { 4 } else { 5 }, checkpoints: 1, net: Net::Mainnet, id: "C04", ..DEF }));
            spaces.push(tree_space("mindiff", "one checkpoint, branches of different work", Opts { n: 5, net: Net::MinDiff, base: if q { &[0] } else { &[0, 1] }, kinds: &[Plain, Late], checkpoints: 1, batches: false, ranks: !q, id: "C04", ..DEF }));
            spaces.push(space("extend-checkpoint", "extending the tip directly towards and past a checkpoint", move |ch| extend_cp(Net::Regtest, &[Plain, Early, TooOld, BadPow], if q { 5 } else { 6 }, true, ch)));
        }
        "C05" => {
            spaces.push(tree_space("queries", "all queries after every import", Opts { n: if q { 4 } else { 5 }, queries: true, id: "C05", ..DEF }));
            spaces.push(tree_space("queries-cp", "all queries with a checkpoint", Opts { n: 4, queries: true, checkpoints: 1, batches: false, base: &[0, 2], forks_below: 1, id: "C05", ..DEF }));
            spaces.push(tree_space("queries-base", "all queries, forks off a chain of 12", Opts { n: 3, queries: true, base: &[12], forks_below: 3, batches: false, id: "C05", ..DEF }));
            spaces.push(long_fork_space(Opts { base: &[0, 12], queries: true, id: "C05", ..DEF }, 3));
            spaces.push(tree_space("queries-mindiff", "all queries, shorter branches may carry more work", Opts { n: if q { 3 } else { 4 }, queries: true, net: Net::MinDiff, kinds: &[Plain, Late], id: "C05", ..DEF }));
            let len = if q { 40 } else { 150 };
            spaces.push(space("long", format!("linear chains up to height {len}, checkpoint anywhere, every locator start"), move |ch| long_chain(len, ch)));
        }
        "C06" => {
            spaces.push(space("networks", "stores of up to three headers made for, opened for and loaded with the rules of every combination of networks", wrong_network));
            spaces.push(tree_space("restart-base", "restarts of a chain of up to 34 blocks", Opts { n: 3, net: Net::RealRegtest, base: &[15, 16, 17, 34], base_kinds: &[Plain, Early, Early], forks_below: 3, restarts: 1, ranks: false, batches: false, id: "C06", ..DEF }));
            spaces.push(tree_space("restart", "one restart from the stored file between any two imports", Opts { n: if q { 3 } else { 4 }, net: Net::RealRegtest, restarts: 1, queries: true, id: "C06", ..DEF }));
            spaces.push(tree_space("restart-cp", "restarts with a checkpoint", Opts { n: 4, net: Net::RealRegtest, checkpoints: 1, restarts: 1, queries: !q, batches: !q, id: "C06", ..DEF }));
            spaces.push(tree_space("restart-retarget", "restarts across difficulty changes", Opts { n: 3, net: Net::RealRetarget, base: &[0, 1, 2, 4], kinds: &[Plain, Early, Late], forks_below: 1, restarts: 1, batches: !q, id: "C06", ..DEF }));
            spaces.push(tree_space("restarts", "up to two restarts", Opts { n: 4, net: Net::RealRegtest, restarts: 2, batches: !q, id: "C06", ..DEF }));
        }
        _ => unreachable!(),
    }
    Check {
        spaces,
        rule: "every choice of tree, header variant, arrival order, batching and checkpoint placement within the listed bounds is executed on the real block tree and compared step by step with a reference model; non-trivial executions contain a re-org, an equal-work tie, a rejected header or a reached checkpoint".into(),
        assumptions: vec![
            "proof-of-work is kept real but easy: parameters are passed in through the public API".into(),
            "in-memory header store, except C06, which uses the file store".into(),
        ],
    }
}
