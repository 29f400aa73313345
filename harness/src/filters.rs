//! P07: filter headers. P08: rescans.
use crate::engine::{space, Ch, Res};
use crate::peers::{answer_pings, note_outs};
use crate::sim::*;
use crate::{Check, Tier};
use nakamoto_common::bitcoin::network::constants::ServiceFlags;
use nakamoto_common::bitcoin::network::message::NetworkMessage as M;
use nakamoto_common::bitcoin::network::message_filter::{CFHeaders, GetCFHeaders};
use nakamoto_common::bitcoin::{BlockHash, BlockHeader};
use nakamoto_common::bitcoin_hashes::Hash as _;
use nakamoto_common::block::filter::{FilterHash, FilterHeader};
use nakamoto_p2p::fsm::{Command, Event, PeerId};
use std::ops::Bound;
use std::sync::OnceLock;

const FULL: ServiceFlags = ServiceFlags::NETWORK;
const MAX: u64 = 2000;

/// What a peer knowing these chains answers.
pub fn serve_cfheaders(chains: &[&Chain], g: &GetCFHeaders) -> Option<CFHeaders> {
    let c = chains.iter().find(|c| c.blocks.iter().any(|b| b.block_hash() == g.stop_hash))?;
    let stop = c.blocks.iter().position(|b| b.block_hash() == g.stop_hash)?;
    let start = g.start_height as usize;
    if start > stop || stop - start >= MAX as usize {
        return None;
    }
    Some(CFHeaders {
        filter_type: 0,
        stop_hash: g.stop_hash,
        previous_filter_header: if start == 0 { FilterHeader::all_zeros() } else { c.filter_headers[start - 1].1 },
        filter_hashes: c.filter_headers[start..=stop].iter().map(|f| f.0).collect(),
    })
}

struct Fh<'a> {
    chains: Vec<&'a Chain>,
    /// Requests received by each peer and not answered yet.
    pending: Vec<(PeerId, GetCFHeaders)>,
    synced: Option<u64>,
    /// Requests answered (well or badly) since they were last made.
    answered: Vec<BlockHash>,
    /// Peers that may be asked: dialled and offering filters.
    from: Vec<PeerId>,
    /// There was no re-org in the last round.
    quiet: bool,
}

impl<'a> Fh<'a> {
    /// The stored filter headers are those of a prefix of the active chain.
    fn check(&mut self, s: &mut Sim, ch: &mut Ch) -> Res<Vec<Out>> {
        let outs = s.take();
        note_outs(ch, &outs);
        let active: Vec<BlockHeader> = s.chain();
        let tip = active.last().unwrap().block_hash();
        let c = self.chains.iter().find(|c| c.blocks.iter().any(|b| b.block_hash() == tip)).expect("engine: unknown tip");
        let f = s.filter_chain();
        if f.len() > active.len() {
            return Err(format!("filter headers up to {} stored while the chain's height is {}", f.len() - 1, active.len() - 1));
        }
        for (h, x) in f.iter().enumerate() {
            if *x != c.filter_headers[h] {
                return Err(format!("the filter header stored at height {h} is not that of the active block at this height"));
            }
        }
        for o in &outs {
            match o {
                Out::Msg(a, M::GetCFHeaders(g)) => {
                    if !self.from.contains(a) {
                        return Err(format!("filter headers asked from {}, which was not dialled or doesn't offer filters", a.ip()));
                    }
                    // A request that can be met: its range is on the active chain.
                    let stop = active.iter().position(|b| b.block_hash() == g.stop_hash).map(|x| x as u64);
                    if g.filter_type != 0 || stop.map_or(true, |x| (g.start_height as u64) > x || x - g.start_height as u64 >= MAX) {
                        return Err(format!("filter headers {}..={stop:?} asked from {}", g.start_height, a.ip()));
                    }
                    self.pending.push((*a, g.clone()));
                    self.answered.retain(|h| *h != g.stop_hash);
                }
                Out::Event(Event::FilterHeadersSynced { height }) => {
                    if *height + 1 != f.len() as u64 || f.len() != active.len() {
                        // The report may be followed by a re-org in the same round.
                        if self.quiet || *height + 1 > active.len() as u64 {
                            return Err(format!("filter headers reported in sync at {height} with {} of {}", f.len() - 1, active.len() - 1));
                        }
                    }
                    self.synced = Some(*height);
                }
                _ => {}
            }
        }
        self.quiet = true;
        self.pending.retain(|(a, _)| s.is_open(a));
        Ok(outs)
    }
    fn take(&mut self, a: PeerId) -> Option<GetCFHeaders> {
        let i = self.pending.iter().position(|(b, _)| *b == a)?;
        Some(self.pending.remove(i).1)
    }
    fn answer(&mut self, s: &mut Sim, a: PeerId, ch: &mut Ch) -> Res<bool> {
        let Some(g) = self.take(a) else { return Ok(false) };
        if let Some(m) = serve_cfheaders(&self.chains, &g) {
            self.answered.push(g.stop_hash);
            s.recv(a, M::CFHeaders(m));
            self.check(s, ch)?;
        }
        Ok(true)
    }
    fn answer_all(&mut self, s: &mut Sim, a: PeerId, ch: &mut Ch) -> Res {
        for _ in 0..100 {
            if !self.answer(s, a, ch)? {
                return Ok(());
            }
        }
        Err("the node keeps asking for filter headers it was given".into())
    }
}

fn track(height: usize, have: usize, depth: usize, ch: &mut Ch) -> Res {
    let mut a = Chain::genesis();
    a.grow(height, 1);
    let mut a2 = a.clone();
    a2.grow(1, 1);
    let mut b = a.fork(1);
    b.grow(height + 1, 2);
    let mut b2 = b.clone();
    b2.grow(1, 2);
    let seed = 1 + ch.pick(2) as u64;
    let rescan = ch.flip();
    let mut s = Sim::new(Opts { headers: a.headers(), filter_headers: a.filter_headers[..=have].to_vec(), seed, ..Opts::default() });
    s.init();
    let (p, l, x) = (peer(0), peer(1), peer(2));
    let mut f = Fh { chains: vec![&a2, &b2], pending: vec![], synced: None, answered: vec![], from: vec![p, l], quiet: true };
    s.inbound(x);
    s.handshake(x, 0, FULL | CF);
    s.outbound(peer(3), 0, FULL);
    if rescan {
        ch.note(|| "rescan from 0".to_string());
        s.command(Command::Rescan { from: Bound::Included(0), to: Bound::Unbounded, watch: vec![script(1)] });
    }
    s.outbound(l, height as u64, FULL | CF);
    s.outbound(p, height as u64, FULL | CF);
    f.check(&mut s, ch)?;
    let mut last: Option<CFHeaders> = None;
    let mut lost_honest = false;
    for _ in 0..depth {
        let mut acts: Vec<u8> = vec![0];
        let (h, _) = s.tip();
        let on_a = s.tip().1 == a.tip().block_hash() || s.tip().1 == a2.tip().block_hash();
        if f.pending.iter().any(|q| q.0 == p) {
            acts.push(1);
        }
        if f.pending.iter().any(|q| q.0 == l) {
            acts.extend([2, 3, 4, 5, 6, 7]);
        }
        if s.is_open(&l) {
            acts.extend([8, 9]);
        }
        if last.is_some() {
            acts.push(10);
        }
        if h == a.height() && on_a {
            acts.extend([11]);
        }
        if on_a {
            acts.extend([12, 13]);
        } else if h < b2.height() {
            acts.push(11);
        }
        if !f.pending.is_empty() {
            acts.push(14);
        }
        let act = acts[ch.pick(acts.len())];
        let mut punish = None;
        let before = s.filter_chain().len();
        match act {
            0 => {
                let secs = *ch.of(&[7u64, 61]);
                ch.note(|| format!("{secs}s pass, the honest peer answers"));
                for _ in 0..secs {
                    f.answer_all(&mut s, p, ch)?;
                    s.run_for(1);
                    f.check(&mut s, ch)?;
                    answer_pings(&mut s);
                    f.check(&mut s, ch)?;
                }
            }
            1 => {
                let g = f.take(p).unwrap();
                let m = serve_cfheaders(&f.chains, &g);
                ch.note(|| format!("honest peer answers request {}..{}", g.start_height, g.stop_hash));
                if let Some(m) = m {
                    f.answered.push(g.stop_hash);
                    last = Some(m.clone());
                    s.recv(p, M::CFHeaders(m));
                }
            }
            2..=7 => {
                let g = f.take(l).unwrap();
                let mut m = serve_cfheaders(&f.chains, &g).unwrap();
                // Would the answer be looked at? Not if it is of no use any more.
                let on_chain = s.chain().iter().any(|b| b.block_hash() == g.stop_hash);
                let useful = on_chain && !f.answered.contains(&g.stop_hash) && m.previous_filter_header == s.filter_chain().last().unwrap().1 && s.filter_chain().len() as u64 == g.start_height as u64;
                match act {
                    2 => {
                        ch.note(|| "other peer answers".to_string());
                        last = Some(m.clone());
                    }
                    3 => {
                        ch.note(|| "other peer answers with a wrong filter type".to_string());
                        m.filter_type = 1;
                        punish = Some(useful);
                    }
                    4 => {
                        ch.note(|| "other peer answers with no headers".to_string());
                        m.filter_hashes.clear();
                        punish = Some(useful);
                    }
                    5 => {
                        ch.note(|| "other peer answers with a header too few".to_string());
                        m.filter_hashes.pop();
                        punish = Some(useful);
                    }
                    6 => {
                        ch.note(|| "other peer answers with a header too many".to_string());
                        m.filter_hashes.push(FilterHash::hash(b"more"));
                        punish = Some(useful);
                    }
                    _ => {
                        ch.note(|| "other peer answers with a wrong previous header".to_string());
                        m.previous_filter_header = FilterHeader::hash(b"wrong");
                        punish = Some(false);
                    }
                }
                f.answered.push(g.stop_hash);
                s.recv(l, M::CFHeaders(m));
            }
            8 => {
                ch.note(|| "other peer is lost".to_string());
                s.lose(l);
            }
            9 => {
                ch.note(|| "other peer sends filter headers nobody asked for".to_string());
                let top = s.filter_chain();
                // For the next block, but never asked for.
                let stop = BlockHash::hash(b"never asked");
                s.recv(l, M::CFHeaders(CFHeaders { filter_type: 0, stop_hash: stop, previous_filter_header: top.last().unwrap().1, filter_hashes: vec![FilterHash::hash(b"x")] }));
                punish = Some(false);
            }
            10 => {
                ch.note(|| "the last answer arrives again".to_string());
                s.recv(p, M::CFHeaders(last.clone().unwrap()));
            }
            11 => {
                let c = if on_a { &a2 } else { &b2 };
                ch.note(|| "a block extends the chain".to_string());
                s.recv(x, M::Headers(vec![c.headers()[h as usize + 1]]));
                ch.nontrivial();
            }
            12 => {
                ch.note(|| "re-org".to_string());
                s.recv(x, M::Headers(b.headers()[2..].to_vec()));
                ch.nontrivial();
            }
            13 => {
                ch.note(|| "re-org, with the honest peer's answers in the same round".to_string());
                let mut msgs = vec![(x, M::Headers(b.headers()[2..].to_vec()))];
                while let Some(g) = f.take(p) {
                    if let Some(m) = serve_cfheaders(&f.chains, &g) {
                        f.answered.push(g.stop_hash);
                        msgs.push((p, M::CFHeaders(m)));
                    }
                }
                if ch.flip() {
                    msgs.rotate_left(1);
                }
                s.recv_many(&msgs);
                f.quiet = false;
                ch.nontrivial();
            }
            _ => {
                // Answered by a peer that was not asked.
                let (q, g) = f.pending[0].clone();
                if let Some(m) = serve_cfheaders(&f.chains, &g) {
                    let lose = q == l && ch.flip();
                    ch.note(|| format!("a request made to {} is answered by another peer, asked peer lost: {lose}", q.ip()));
                    if lose {
                        s.lose(l);
                        f.check(&mut s, ch)?;
                        s.lose(p);
                        lost_honest = true;
                        f.check(&mut s, ch)?;
                    }
                    f.answered.push(g.stop_hash);
                    s.recv(x, M::CFHeaders(m));
                }
            }
        }
        ch.step();
        let outs = f.check(&mut s, ch)?;
        if punish == Some(true) && s.is_open(&l) {
            return Err("a peer that sent invalid filter headers is still connected".into());
        }
        if punish.is_some() && s.filter_chain().len() > before {
            return Err("invalid filter headers were stored".into());
        }
        if punish == Some(false) && disconnected(&outs, l).is_some() {
            // Not judged.
        }
        if disconnected(&outs, p).is_some() || (!s.is_open(&p) && !lost_honest) {
            return Err("the honest peer was disconnected".into());
        }
        ch.state(&(s.tip(), s.filter_chain().len(), f.pending.len(), s.is_open(&l), s.next_timer().map(|d| d.as_secs())));
        if lost_honest {
            break;
        }
    }
    if lost_honest {
        s.outbound(p, height as u64, FULL | CF);
        f.check(&mut s, ch)?;
    }
    for _ in 0..130 {
        f.answer_all(&mut s, p, ch)?;
        if s.filter_chain().len() as u64 == s.height() + 1 {
            break;
        }
        s.run_for(1);
        f.check(&mut s, ch)?;
        answer_pings(&mut s);
        f.check(&mut s, ch)?;
        if !s.is_open(&p) {
            return Err("the honest peer was disconnected".into());
        }
    }
    let (h, _) = s.tip();
    if s.filter_chain().len() as u64 != h + 1 {
        return Err(format!("two minutes after the last disturbance filter headers reach {} of {h}", s.filter_chain().len() - 1));
    }
    if h as usize > have && f.synced != Some(h) {
        return Err(format!("filter headers reached the tip at {h}, last reported in sync: {:?}", f.synced));
    }
    Ok(())
}

/// Chain with made-up filter headers.
pub fn long() -> &'static Chain {
    static C: OnceLock<Chain> = OnceLock::new();
    C.get_or_init(|| {
        let mut c = Chain::genesis();
        let tx = c.blocks[0].txdata.clone();
        for i in 1..=2 * MAX as u32 + 1 {
            let mut b = c.tip().clone();
            b.header.prev_blockhash = c.tip().block_hash();
            b.header.time = NOW as u32 - 7000 + i;
            b.header.nonce = 0;
            b.txdata = tx.clone();
            let t = b.header.target();
            while b.header.validate_pow(&t).is_err() {
                b.header.nonce += 1;
            }
            let hash = FilterHash::hash(&i.to_le_bytes());
            let prev = c.filter_headers.last().unwrap().1;
            c.filter_headers.push((hash, hash.filter_header(&prev)));
            c.blocks.push(b);
        }
        c
    })
}

/// Chains longer than one message, from two peers, one of which may stop answering.
fn batches(len: u64, depth: usize, ch: &mut Ch) -> Res {
    let c = long().fork_headers(len);
    let seed = 1 + ch.pick(2) as u64;
    let mut s = Sim::new(Opts { headers: c.headers(), seed, ..Opts::default() });
    s.init();
    let (p, l) = (peer(0), peer(1));
    let mut f = Fh { chains: vec![&c], pending: vec![], synced: None, answered: vec![], from: vec![p, l], quiet: true };
    s.outbound(l, len, FULL | CF);
    s.outbound(p, len, FULL | CF);
    f.check(&mut s, ch)?;
    for _ in 0..depth {
        let mut acts = vec![0];
        if f.pending.iter().any(|q| q.0 == p) {
            acts.push(1);
        }
        if f.pending.iter().any(|q| q.0 == l) {
            acts.push(2);
        }
        if s.is_open(&l) {
            acts.push(3);
        }
        match acts[ch.pick(acts.len())] {
            0 => {
                for _ in 0..7 {
                    f.answer_all(&mut s, p, ch)?;
                    s.run_for(1);
                    f.check(&mut s, ch)?;
                }
                ch.nontrivial();
            }
            1 => {
                f.answer(&mut s, p, ch)?;
            }
            2 => {
                f.answer(&mut s, l, ch)?;
            }
            _ => s.lose(l),
        }
        ch.step();
        f.check(&mut s, ch)?;
        if !s.is_open(&p) {
            return Err("the honest peer was disconnected".into());
        }
        ch.state(&(s.filter_chain().len(), s.is_open(&l), f.pending.len()));
    }
    for _ in 0..130 {
        f.answer_all(&mut s, p, ch)?;
        if s.filter_chain().len() as u64 == len + 1 {
            break;
        }
        s.run_for(1);
        answer_pings(&mut s);
        f.check(&mut s, ch)?;
    }
    if s.filter_chain().len() as u64 != len + 1 || f.synced != Some(len) {
        return Err(format!("two minutes after the last disturbance filter headers reach {} of {len}, reported in sync: {:?}", s.filter_chain().len() - 1, f.synced));
    }
    Ok(())
}

/// Filter headers are not fetched before the last checkpoint is reached.
fn checkpoint(ch: &mut Ch) -> Res {
    let mut a = Chain::genesis();
    a.grow(4, 1);
    let at = 1 + ch.pick(4);
    let first = ch.pick(4);
    // An earlier one makes no difference.
    let earlier = ch.pick(at);
    let mut checkpoints = vec![(at as u64, a.hash(at as u64))];
    if earlier > 0 {
        checkpoints.insert(0, (earlier as u64, a.hash(earlier as u64)));
    }
    let mut s = Sim::new(Opts { headers: a.fork(first as u64).headers(), checkpoints, ..Opts::default() });
    s.init();
    let p = peer(0);
    let mut f = Fh { chains: vec![&a], pending: vec![], synced: None, answered: vec![], from: vec![p], quiet: true };
    s.outbound(p, 4, FULL | CF);
    f.check(&mut s, ch)?;
    let mut h = first;
    loop {
        let (tip, _) = s.tip();
        if (tip as usize) < at {
            if !f.pending.is_empty() {
                return Err(format!("filter headers asked for at height {tip}, before the checkpoint at {at}"));
            }
        } else {
            f.answer_all(&mut s, p, ch)?;
            if s.filter_chain().len() as u64 != tip + 1 {
                return Err(format!("filter headers reach {} of {tip} although the checkpoint at {at} was reached", s.filter_chain().len() - 1));
            }
            ch.nontrivial();
        }
        if h == 4 {
            break;
        }
        let n = 1 + ch.pick(4 - h);
        s.recv(p, M::Headers(a.headers()[h + 1..=h + n].to_vec()));
        h += n;
        f.check(&mut s, ch)?;
        ch.step();
    }
    Ok(())
}

pub fn check(id: &str, tier: Tier) -> Check {
    match id {
        "P07" => {
            let d = tier.of(4, 5);
            let mut spaces = vec![
                space("behind", format!("no filter headers yet, {d} steps"), move |ch| track(2, 0, d, ch)),
                space("level", format!("filter headers up to the tip, {d} steps"), move |ch| track(3, 3, d, ch)),
                space("partial", format!("some filter headers, {d} steps"), move |ch| track(3, 2, d, ch)),
                space("checkpoint", "every way to grow to and past a checkpoint", checkpoint),
            ];
            for n in [MAX - 1, MAX, MAX + 1, 2 * MAX, 2 * MAX + 1] {
                let d = tier.of(3, 5);
                spaces.push(space(format!("batches-{n}"), format!("{n} filter headers in batches, one of two peers failing at any point; {d} steps"), move |ch| batches(n, d, ch)));
            }
            Check {
                spaces,
                rule: "after every step the stored filter headers must be those of a prefix of the active chain; at the end, with an honest peer answering, they must reach its tip".into(),
                assumptions: vec!["invalid filter headers that a peer makes up consistently cannot be told from valid ones and are not sent".into()],
            }
        }
        _ => unreachable!(),
    }
}
