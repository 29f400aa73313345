use nakamoto_common::bitcoin::blockdata::block::BlockHeader;
use nakamoto_common::bitcoin::hash_types::{BlockHash, TxMerkleNode};
use nakamoto_common::bitcoin_hashes::Hash as _;
use nakamoto_common::block::time::{Clock, LocalTime};
use std::cell::RefCell;
use std::collections::HashMap;

/// A clock frozen at a given block time.
#[derive(Clone, Debug)]
pub struct Frozen(pub u32);
impl Clock for Frozen {
    fn block_time(&self) -> u32 {
        self.0
    }
    fn local_time(&self) -> LocalTime {
        // Block time is the network's, which may differ from the local one.
        LocalTime::from_secs(self.0 as u64 + 1800)
    }
    fn from_block_time(t: u32) -> Self {
        Frozen(t)
    }
}

pub fn bytes(h: &BlockHash) -> [u8; 32] {
    let mut a = [0u8; 32];
    a.copy_from_slice(&h[..]);
    a
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Mine {
    pub prev: BlockHash,
    pub time: u32,
    pub bits: u32,
    /// Distinguishes siblings; also fixes the order of hashes: bucket `rank` of `of`.
    pub rank: (u8, u8),
    pub salt: u8,
    /// Whether the header must satisfy (or must miss) its own target.
    pub pow_ok: bool,
}

thread_local! {
    static MINED: RefCell<HashMap<Mine, BlockHeader>> = RefCell::new(HashMap::new());
}

/// Build a header with the given fields and a nonce found by search.
pub fn mine(m: Mine) -> BlockHeader {
    MINED.with(|c| {
        if let Some(h) = c.borrow().get(&m) {
            return *h;
        }
        let mut merkle = [0u8; 32];
        merkle[0] = m.salt;
        merkle[1] = m.rank.0;
        let mut h = BlockHeader {
            version: 1,
            prev_blockhash: m.prev,
            merkle_root: TxMerkleNode::from_inner(merkle),
            time: m.time,
            bits: m.bits,
            nonce: 0,
        };
        let target = h.target();
        loop {
            let hash = h.block_hash();
            let ok = h.validate_pow(&target).is_ok();
            let b = hash[0] as u32 * m.rank.1 as u32 / 256;
            if ok == m.pow_ok && b == m.rank.0 as u32 {
                break;
            }
            h.nonce = h.nonce.checked_add(1).expect("unmineable header");
        }
        c.borrow_mut().insert(m, h);
        h
    })
}

/// All unlabelled rooted trees with `n` non-root nodes, as parent arrays (`usize::MAX` = root), parents first.
pub fn trees(n: usize) -> Vec<Vec<usize>> {
    fn canon(p: &[usize], root: usize) -> String {
        let mut kids: Vec<String> = (0..p.len())
            .filter(|&i| p[i] == root)
            .map(|i| canon(p, i))
            .collect();
        kids.sort();
        format!("({})", kids.concat())
    }
    let mut seen = std::collections::BTreeMap::new();
    let mut p = vec![usize::MAX; n];
    fn rec(
        p: &mut Vec<usize>,
        i: usize,
        seen: &mut std::collections::BTreeMap<String, Vec<usize>>,
    ) {
        if i == p.len() {
            seen.entry(canon(p, usize::MAX)).or_insert_with(|| p.clone());
            return;
        }
        p[i] = usize::MAX;
        rec(p, i + 1, seen);
        for j in 0..i {
            p[i] = j;
            rec(p, i + 1, seen);
        }
    }
    if n > 0 {
        rec(&mut p, 0, &mut seen);
    } else {
        seen.insert("()".into(), vec![]);
    }
    seen.into_values().collect()
}

pub fn short(h: &BlockHash) -> String {
    let b = &h[..];
    format!("{:02x}{:02x}{:02x}", b[0], b[1], b[2])
}

/// Scratch directory, removed when dropped.
pub struct Scratch {
    pub path: std::path::PathBuf,
}

impl Scratch {
    pub fn new() -> Self {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        let base = if std::path::Path::new("/dev/shm").is_dir() { std::path::PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
        let path = base.join(format!("nkmc-{}", std::process::id())).join(N.fetch_add(1, Ordering::SeqCst).to_string());
        std::fs::create_dir_all(&path).expect("scratch directory");
        Self { path }
    }
    /// Remove everything this process left behind.
    pub fn cleanup() {
        for base in [std::path::PathBuf::from("/dev/shm"), std::env::temp_dir()] {
            let _ = std::fs::remove_dir_all(base.join(format!("nkmc-{}", std::process::id())));
        }
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.path);
    }
}

/// Build and solve a regtest block.
pub fn mine_block(
    prev: BlockHash,
    time: u32,
    height: u32,
    salt: u8,
    scripts: &[nakamoto_common::bitcoin::Script],
    txs: &[nakamoto_common::bitcoin::Transaction],
) -> nakamoto_common::bitcoin::Block {
    use nakamoto_common::bitcoin::blockdata::transaction::{OutPoint, Transaction, TxIn, TxOut};
    use nakamoto_common::bitcoin::{Block, PackedLockTime, Script, Sequence, Witness};
    thread_local! {
        static BLOCKS: RefCell<HashMap<(BlockHash, u32, u32, u8, Vec<Script>, Vec<nakamoto_common::bitcoin::Txid>), Block>> = RefCell::new(HashMap::new());
    }
    let key = (prev, time, height, salt, scripts.to_vec(), txs.iter().map(|t| t.txid()).collect::<Vec<_>>());
    if let Some(b) = BLOCKS.with(|c| c.borrow().get(&key).cloned()) {
        return b;
    }
    let coinbase = Transaction {
        version: 1,
        lock_time: PackedLockTime::ZERO,
        input: vec![TxIn {
            previous_output: OutPoint::null(),
            script_sig: Script::from(vec![0x04, (height >> 8) as u8, height as u8, salt, 0]),
            sequence: Sequence::MAX,
            witness: Witness::new(),
        }],
        output: scripts.iter().map(|s| TxOut { value: 50_000, script_pubkey: s.clone() }).collect(),
    };
    let mut txdata = vec![coinbase];
    txdata.extend(txs.iter().cloned());
    let mut b = Block {
        header: BlockHeader {
            version: 1,
            prev_blockhash: prev,
            merkle_root: TxMerkleNode::all_zeros(),
            time,
            bits: 0x207fffff,
            nonce: 0,
        },
        txdata,
    };
    b.header.merkle_root = b.compute_merkle_root().expect("transactions");
    let target = b.header.target();
    while b.header.validate_pow(&target).is_err() {
        b.header.nonce += 1;
    }
    BLOCKS.with(|c| c.borrow_mut().insert(key, b.clone()));
    b
}
