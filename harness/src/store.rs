//! S01: header and filter-header files. F01: filter header cache.
use crate::engine::{space, Ch, Res};
use crate::util::*;
use crate::{Check, Tier};
use nakamoto_chain::block::store::{File, Memory};
use nakamoto_chain::filter::cache::{FilterCache, StoredHeader};
use nakamoto_common::bitcoin::blockdata::block::BlockHeader;
use nakamoto_common::bitcoin::consensus::{Decodable, Encodable};
use nakamoto_common::bitcoin::hash_types::BlockHash;
use nakamoto_common::bitcoin_hashes::Hash as _;
use nakamoto_common::block::filter::{FilterHash, FilterHeader, Filters};
use nakamoto_common::block::store::{Genesis as _, Store};
use nakamoto_common::network::Network;
use nakamoto_common::nonempty::NonEmpty;
use std::ops::ControlFlow;
use std::path::{Path, PathBuf};

/// Records of a given kind, distinguishable by number.
trait Rec: 'static + Copy + Encodable + Decodable {
    const SIZE: usize;
    fn make(n: u32) -> Self;
    fn bytes(&self) -> Vec<u8> {
        let mut v = vec![];
        self.consensus_encode(&mut v).unwrap();
        v
    }
}

impl Rec for BlockHeader {
    const SIZE: usize = 80;
    fn make(n: u32) -> Self {
        let mut h = mine(Mine { prev: BlockHash::all_zeros(), time: 7, bits: 0x207fffff, rank: (0, 1), salt: 0, pow_ok: true });
        h.nonce = n.wrapping_mul(0x01010101) + 1;
        h.time = n + 1;
        h
    }
}

impl Rec for StoredHeader {
    const SIZE: usize = 64;
    fn make(n: u32) -> Self {
        let mut a = [0x5au8; 32];
        a[..4].copy_from_slice(&(n + 1).to_le_bytes());
        StoredHeader { hash: FilterHash::from_inner(a), header: FilterHeader::from_inner({ a[31] = 1; a }) }
    }
}

fn verify<R: Rec>(s: &File<R>, want: &[R], ch: &mut Ch) -> Res {
    ch.step();
    let n = want.len();
    let len = s.len().map_err(|e| format!("length failed: {e}"))?;
    if len != n {
        return Err(format!("store reports {len} records, expected {n}"));
    }
    let h = s.height().map_err(|e| format!("height failed: {e}"))?;
    if h as usize + 1 != n {
        return Err(format!("store reports height {h}, expected {}", n - 1));
    }
    s.check().map_err(|e| format!("integrity check failed on an intact store: {e}"))?;
    for (i, w) in want.iter().enumerate() {
        match s.get(i as u64) {
            Ok(g) if g.bytes() == w.bytes() => {}
            Ok(_) => return Err(format!("record at height {i} differs from what was written")),
            Err(e) => return Err(format!("record at height {i} is unreadable: {e}")),
        }
    }
    for i in [n, n + 1, n + 17] {
        if s.get(i as u64).is_ok() {
            return Err(format!("record at height {i} exists beyond the end"));
        }
    }
    let mut k = 0usize;
    for r in s.iter() {
        let (h, x) = r.map_err(|e| format!("iteration failed: {e}"))?;
        if h as usize != k || k >= n || x.bytes() != want[k].bytes() {
            return Err(format!("iteration yields a wrong record at position {k}"));
        }
        k += 1;
    }
    if k != n {
        return Err(format!("iteration yields {k} records, expected {n}"));
    }
    // Reads do not disturb each other: two iterations and lookups at the same time.
    let (mut a, mut b) = (s.iter(), s.iter());
    for i in 0..n + 1 {
        if i < n && s.get((n - 1 - i) as u64).map(|g| g.bytes()).ok() != Some(want[n - 1 - i].bytes()) {
            return Err(format!("record at height {} is wrong while iterating", n - 1 - i));
        }
        for it in [&mut a, &mut b] {
            let g = match it.next() {
                Some(r) => Some(r.map(|(h, x)| (h as usize, x.bytes())).map_err(|e| format!("iteration failed while reading by height: {e}"))?),
                None => None,
            };
            if g != want.get(i).map(|w| (i, w.bytes())) {
                return Err(format!("position {i} of an iteration is wrong when read at the same time by height"));
            }
        }
    }
    Ok(())
}

fn raw(p: &Path) -> Vec<u8> {
    std::fs::read(p).expect("read store file")
}

struct Bounds {
    depth: usize,
    sizes: &'static [usize],
    every_byte: bool,
}

fn file_store<R: Rec>(b: &Bounds, ch: &mut Ch) -> Res {
    let dir = Scratch::new();
    let path: PathBuf = dir.path.join("store.db");
    let genesis = R::make(999_999);
    let mut want: Vec<R> = vec![genesis];
    let mut next = 0u32;
    let mut s = if ch.flip() { File::create(&path, genesis).map_err(|e| format!("create: {e}"))? } else { File::open(&path, genesis).map_err(|e| format!("open: {e}"))? };
    verify(&s, &want, ch)?;
    for d in 0..b.depth {
        match ch.pick(5) {
            0 => {
                let n = *ch.of(b.sizes);
                let recs: Vec<R> = (0..n).map(|_| { next += 1; R::make(next) }).collect();
                let before = raw(&path);
                let h = s.put(recs.iter().copied()).map_err(|e| format!("append failed: {e}"))?;
                want.extend(recs);
                ch.note(|| format!("append {n} -> height {h}"));
                if h as usize != want.len() - 1 {
                    return Err(format!("append returned height {h}, expected {}", want.len() - 1));
                }
                if !raw(&path).starts_with(&before) {
                    return Err("an append modified records that were already stored".into());
                }
            }
            1 => {
                let top = want.len() - 1;
                let mut hs = vec![top, top.saturating_sub(1), top / 2, 0];
                hs.dedup();
                let h = *ch.of(&hs);
                ch.note(|| format!("rollback to {h}"));
                s.rollback(h as u64).map_err(|e| format!("rollback failed: {e}"))?;
                want.truncate(h + 1);
            }
            2 => {
                ch.note(|| "close and reopen".into());
                drop(s);
                s = File::open(&path, genesis).map_err(|e| format!("reopen failed: {e}"))?;
            }
            3 => {
                s.sync().map_err(|e| format!("sync failed: {e}"))?;
                s.heal().map_err(|e| format!("heal of an intact store failed: {e}"))?;
                ch.note(|| "sync and heal".into());
            }
            _ => {
                // Crash while appending `n` records: any number of their bytes reached the file.
                let n = (*ch.of(b.sizes)).max(1);
                let recs: Vec<R> = (0..n).map(|_| { next += 1; R::make(next) }).collect();
                let before = raw(&path).len();
                s.put(recs.iter().copied()).map_err(|e| format!("append failed: {e}"))?;
                drop(s);
                let total = raw(&path).len() - before;
                if total != n * R::SIZE {
                    return Err(format!("append wrote {total} bytes, expected {}", n * R::SIZE));
                }
                let cuts: Vec<usize> = if b.every_byte && n <= 2 {
                    (0..=total).collect()
                } else {
                    let mut v: Vec<usize> = vec![0, 1, R::SIZE / 2, R::SIZE - 1, R::SIZE, R::SIZE + 1, total / 2, total - R::SIZE, total - 1, total];
                    v.sort();
                    v.dedup();
                    v.retain(|c| *c <= total);
                    v
                };
                let c = *ch.of(&cuts);
                ch.note(|| format!("crash: {c} of {total} bytes of an append of {n} were written"));
                ch.nontrivial();
                let f = std::fs::OpenOptions::new().write(true).open(&path).unwrap();
                f.set_len((before + c) as u64).unwrap();
                drop(f);
                s = File::open(&path, genesis).map_err(|e| format!("open after a crash failed: {e}"))?;
                let torn = c % R::SIZE != 0;
                if s.check().is_err() != torn {
                    return Err(format!("integrity check {} a file with {c} bytes of an append", if torn { "accepts" } else { "rejects" }));
                }
                s.heal().map_err(|e| format!("heal failed: {e}"))?;
                want.extend(recs[..c / R::SIZE].iter().copied());
            }
        }
        verify(&s, &want, ch)?;
        ch.state(&(want.iter().map(|r| r.bytes()).collect::<Vec<_>>(), d));
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------------------------

fn fhash(n: u32) -> FilterHash {
    FilterHash::hash(&n.to_le_bytes())
}

fn link(prev: &[(FilterHash, FilterHeader)], n: u32) -> (FilterHash, FilterHeader) {
    let h = fhash(n);
    // Reference for the link: double-SHA256 of hash followed by the previous header.
    let mut d = h.into_inner().to_vec();
    d.extend_from_slice(&prev.last().unwrap().1.into_inner());
    (h, FilterHeader::hash(&d))
}

fn check_filters<S: Store<Header = StoredHeader>>(c: &FilterCache<S>, want: &[(FilterHash, FilterHeader)], ch: &mut Ch) -> Res {
    ch.step();
    let n = want.len();
    if c.height() as usize != n - 1 {
        return Err(format!("height is {}, expected {}", c.height(), n - 1));
    }
    let (h, x) = c.tip();
    if (*h, *x) != want[n - 1] {
        return Err("tip is not the last filter header stored".into());
    }
    for i in 0..n + 2 {
        if c.get_header(i as u64) != want.get(i).copied() {
            return Err(format!("filter header at height {i} is wrong"));
        }
        for j in (i..n + 2).filter(|j| n < 12 || *j < i + 2 || *j + 3 > n) {
            let w: Vec<_> = (i..=j).filter_map(|k| want.get(k).copied()).collect();
            if c.get_headers(i as u64..=j as u64) != w {
                return Err(format!("filter headers {i}..={j} are wrong"));
            }
        }
        if i > 0 && i < n {
            let prev = c.get_prev_header(i as u64);
            if prev != Some(want[i - 1].1) {
                return Err(format!("previous filter header of height {i} is wrong"));
            }
        }
    }
    c.verify(Network::Regtest).map_err(|e| format!("verification rejects a linked chain: {e:?}"))?;
    if n > 1 && c.verify(Network::Mainnet).is_ok() {
        return Err("verification accepts another network's filter headers".into());
    }
    Ok(())
}

fn filter_cache_file(depth: usize, sizes: &[usize], ch: &mut Ch) -> Res {
    let dir = Scratch::new();
    let path = dir.path.join("filters.db");
    let g = StoredHeader::genesis(Network::Regtest);
    let mut want = vec![(g.hash, g.header)];
    let mut n = 0;
    let open = |p: &Path| -> Res<FilterCache<File<StoredHeader>>> {
        let f = File::open(p, g).map_err(|e| format!("open: {e}"))?;
        FilterCache::load(f).map_err(|e| format!("load: {e}"))
    };
    let mut c = open(&path)?;
    check_filters(&c, &want, ch)?;
    for d in 0..depth {
        match ch.pick(4) {
            0 => {
                let k = *ch.of(sizes);
                let mut new = vec![];
                for _ in 0..k {
                    n += 1;
                    let l = link(&want, n);
                    want.push(l);
                    new.push(l);
                }
                let h = c.import_headers(new).map_err(|e| format!("import failed: {e}"))?;
                ch.note(|| format!("import {k} -> {h}"));
                if h as usize != want.len() - 1 {
                    return Err(format!("import returned height {h}, expected {}", want.len() - 1));
                }
            }
            1 => {
                let h = ch.pick(want.len());
                ch.note(|| format!("rollback to {h}"));
                ch.nontrivial();
                c.rollback(h as u64).map_err(|e| format!("rollback failed: {e}"))?;
                want.truncate(h + 1);
            }
            2 => {
                ch.note(|| "clear".into());
                c.clear().map_err(|e| format!("clear failed: {e}"))?;
                want.truncate(1);
            }
            _ => {
                ch.note(|| "reload from disk".into());
                drop(c);
                c = open(&path)?;
            }
        }
        check_filters(&c, &want, ch)?;
        // What is on disk is what is in memory.
        check_filters(&open(&path)?, &want, ch)?;
        ch.state(&(want.clone(), d));
    }
    Ok(())
}

/// Verification accepts a store exactly if it is linked from the network's genesis.
fn verification(len: usize, ch: &mut Ch) -> Res {
    let net = *ch.of(&[Network::Mainnet, Network::Testnet, Network::Regtest, Network::Signet]);
    let g = StoredHeader::genesis(net);
    let mut recs = vec![(g.hash, g.header)];
    for i in 0..len {
        let l = link(&recs, i as u32);
        recs.push(l);
    }
    // Corruption: none, or at position p: the hash, the header, both (relinked or not), swapped with the next, or one bit.
    let kind = ch.pick(7);
    let mut recs2 = recs.clone();
    let mut ok = true;
    if kind > 0 {
        let p = ch.pick(len + 1);
        let other = fhash(77_777);
        match kind {
            1 => recs2[p].0 = other,
            2 => recs2[p].1 = FilterHeader::hash(&[1]),
            3 => {
                // A different but properly linked chain from `p` on: valid unless it replaces genesis.
                if p == 0 {
                    recs2[0].0 = other;
                    recs2[0].1 = FilterHeader::hash(&[2]);
                } else {
                    for q in p..=len {
                        let l = link(&recs2[..q].to_vec(), 500 + q as u32);
                        recs2[q] = l;
                    }
                }
                ok = p != 0;
            }
            4 => {
                if p + 1 > len {
                    return Ok(());
                }
                recs2.swap(p, p + 1);
            }
            5 => {
                let mut b = recs2[p].1.into_inner();
                let bit = ch.pick(256);
                b[bit / 8] ^= 1 << (bit % 8);
                recs2[p].1 = FilterHeader::from_inner(b);
            }
            _ => {
                let mut b = recs2[p].0.into_inner();
                let bit = ch.pick(256);
                b[bit / 8] ^= 1 << (bit % 8);
                recs2[p].0 = FilterHash::from_inner(b);
            }
        }
        if kind != 3 {
            ok = false;
        }
        ch.nontrivial();
        ch.note(|| format!("{net:?}: corruption kind {kind} at {p} of {len}"));
    }
    let v: Vec<StoredHeader> = recs2.iter().map(|(hash, header)| StoredHeader { hash: *hash, header: *header }).collect();
    let c = FilterCache::load(Memory::new(NonEmpty::from_vec(v).unwrap())).map_err(|e| format!("load: {e}"))?;
    ch.step();
    ch.state(&(recs2, kind));
    let got = c.verify(net).is_ok();
    if got != ok {
        return Err(format!("verification {} a store that is {}", if got { "accepts" } else { "rejects" }, if ok { "linked" } else { "not linked" }));
    }
    // Interrupting the verification is reported, never taken for success.
    if ok && !matches!(c.verify_with(net, |h| if h as usize == len { ControlFlow::Break(()) } else { ControlFlow::Continue(()) }), Err(_)) {
        return Err("interrupted verification reports success".into());
    }
    Ok(())
}

pub fn check(id: &str, tier: Tier) -> Check {
    let q = tier == Tier::Quick;
    let mut spaces = vec![];
    match id {
        "S01" => {
            let d = tier.of(3, 4) as usize;
            let b = move || Bounds { depth: d, sizes: &[1, 2, 15], every_byte: false };
            spaces.push(space("headers", format!("header file: every sequence of {d} appends (1, 2, 15), rollbacks, reopenings, heals and crashes (boundary cuts)"), move |ch| file_store::<BlockHeader>(&b(), ch)));
            spaces.push(space("filters", format!("filter-header file: every sequence of {d} operations"), move |ch| file_store::<StoredHeader>(&b(), ch)));
            let d2 = tier.of(2, 3) as usize;
            let b2 = move || Bounds { depth: d2, sizes: &[1, 2], every_byte: true };
            spaces.push(space("headers-bytes", format!("header file: {d2} operations, crash at every byte of an append"), move |ch| file_store::<BlockHeader>(&b2(), ch)));
            spaces.push(space("filters-bytes", format!("filter-header file: {d2} operations, crash at every byte of an append"), move |ch| file_store::<StoredHeader>(&b2(), ch)));
            let b3 = move || Bounds { depth: tier.of(3, 4) as usize, sizes: &[0, 16, 17], every_byte: false };
            spaces.push(space("headers-batch", "header file: appends around the read batch size (0, 16, 17)", move |ch| file_store::<BlockHeader>(&b3(), ch)));
        }
        "F01" => {
            let d = if q { 5 } else { 6 };
            spaces.push(space("file", format!("every sequence of {d} imports (1..3 headers), rollbacks (any height), clears and reloads"), move |ch| filter_cache_file(d, &[1, 2, 3], ch)));
            let d2 = 4;
            spaces.push(space("file-batch", format!("every sequence of {d2} imports around the read batch size (0, 1, 16, 33 headers), rollbacks (any height), clears and reloads"), move |ch| filter_cache_file(d2, &[0, 1, 16, 33], ch)));
            for n in [0usize, 1, 2, 4, 19] {
                spaces.push(space(format!("verify-{n}"), format!("stores of {n} headers on every network, every single corruption (each field, each bit, each position)"), move |ch| verification(n, ch)));
            }
        }
        _ => unreachable!(),
    }
    Check {
        spaces,
        rule: "every operation sequence within the bounds is executed on the real store in a scratch directory and all reads are compared with the logical sequence; non-trivial executions contain a crash, a rollback or a corruption".into(),
        assumptions: vec![
            "a crash leaves a prefix of the bytes of the interrupted append (the file is opened in append mode); truncation is atomic".into(),
        ],
    }
}
