From 95b7d6fc690408924bbca47e677c21b7b1710552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:51 +0000
Subject: [PATCH 01/52] fix: validate fork branches against their own ancestors

Median-time-past and difficulty targets of a candidate branch were computed
from the blocks of the active chain at the same heights, instead of the
branch's own ancestors. Invalid branches could be activated, and valid ones
with more work ignored.
---
 chain/src/block/cache.rs | 71 +++++++++++++++++++++++++++++++++-------
 common/src/block/tree.rs | 50 +++++++++++++++++-----------
 2 files changed, 91 insertions(+), 30 deletions(-)

diff --git a/chain/src/block/cache.rs b/chain/src/block/cache.rs
index 1631e48..81e6cc2 100644
--- a/chain/src/block/cache.rs
+++ b/chain/src/block/cache.rs
@@ -232,7 +232,7 @@ impl<S: Store<Header = BlockHeader>> BlockCache<S> {
         // Block extends the active chain. We can fully validate it before proceeding.
         // Instead of adding the block to the main chain, we let chain selection do the job.
         if header.prev_blockhash == best {
-            self.validate(tip, &header, clock)?;
+            self.validate(tip, &[], &header, clock)?;
         }
 
         // Validate that the block's PoW is valid against its difficulty target, and
@@ -425,8 +425,8 @@ impl<S: Store<Header = BlockHeader>> BlockCache<S> {
             header: candidate.fork_header,
         };
 
-        for header in candidate.headers.iter() {
-            self.validate(&tip, header, clock)?;
+        for (i, header) in candidate.headers.iter().enumerate() {
+            self.validate(&tip, &candidate.headers[..i], header, clock)?;
 
             tip = CachedBlock {
                 height: tip.height + 1,
@@ -436,10 +436,31 @@ impl<S: Store<Header = BlockHeader>> BlockCache<S> {
         Ok(())
     }
 
+    /// Iterate backwards over the blocks a new block on top of `tip` would build on, starting
+    /// from `tip`. If `tip` is not on the active chain, `branch` must contain the headers leading
+    /// from the active chain to `tip`, included.
+    fn ancestors<'a>(
+        &'a self,
+        tip: &CachedBlock,
+        branch: &'a [BlockHeader],
+    ) -> impl Iterator<Item = (Height, &'a BlockHeader)> + 'a {
+        let fork_height = tip.height - branch.len() as Height;
+
+        branch
+            .iter()
+            .rev()
+            .chain((0..=fork_height).rev().map(|h| &self.chain[h as usize].header))
+            .zip((0..=tip.height).rev())
+            .map(|(header, height)| (height, header))
+    }
+
     /// Validate a block header as a potential new tip. This performs full header validation.
+    /// The `branch` is the list of headers leading from the active chain to `tip`, included. It
+    /// is empty if `tip` is on the active chain.
     fn validate(
         &self,
         tip: &CachedBlock,
+        branch: &[BlockHeader],
         header: &BlockHeader,
         clock: &impl Clock,
     ) -> Result<(), Error> {
@@ -451,10 +472,10 @@ impl<S: Store<Header = BlockHeader>> BlockCache<S> {
             if header.time > tip.time + self.params.pow_target_spacing as BlockTime * 2 {
                 block::pow_limit_bits(&self.params.network)
             } else {
-                self.next_min_difficulty_target(&self.params)
+                self.next_min_difficulty_target(tip, branch)
             }
         } else {
-            self.next_difficulty_target(tip.height, tip.time, tip.target(), &self.params)
+            self.next_branch_difficulty_target(tip, branch)
         };
 
         let target = BlockHeader::u256_from_compact_target(compact_target);
@@ -484,7 +505,7 @@ impl<S: Store<Header = BlockHeader>> BlockCache<S> {
         // A timestamp is accepted as valid if it is greater than the median timestamp of
         // the previous MEDIAN_TIME_SPAN blocks, and less than the network-adjusted
         // time + MAX_FUTURE_BLOCK_TIME.
-        if header.time <= self.median_time_past(height) {
+        if header.time <= self.branch_median_time_past(tip, branch) {
             return Err(Error::InvalidBlockTime(header.time, Ordering::Less));
         }
         if header.time > clock.block_time() + time::MAX_FUTURE_BLOCK_TIME {
@@ -495,12 +516,12 @@ impl<S: Store<Header = BlockHeader>> BlockCache<S> {
     }
 
     /// Get the next minimum-difficulty target. Only valid in testnet and regtest networks.
-    fn next_min_difficulty_target(&self, params: &Params) -> Bits {
-        assert!(params.allow_min_difficulty_blocks);
+    fn next_min_difficulty_target(&self, tip: &CachedBlock, branch: &[BlockHeader]) -> Bits {
+        assert!(self.params.allow_min_difficulty_blocks);
 
-        let pow_limit_bits = block::pow_limit_bits(&params.network);
+        let pow_limit_bits = block::pow_limit_bits(&self.params.network);
 
-        for (height, header) in self.iter().rev() {
+        for (height, header) in self.ancestors(tip, branch) {
             if header.bits != pow_limit_bits
                 || height % self.params.difficulty_adjustment_interval() == 0
             {
@@ -510,6 +531,34 @@ impl<S: Store<Header = BlockHeader>> BlockCache<S> {
         pow_limit_bits
     }
 
+    /// Get the next difficulty target for a block on top of `tip`.
+    fn next_branch_difficulty_target(&self, tip: &CachedBlock, branch: &[BlockHeader]) -> Bits {
+        let interval = self.params.difficulty_adjustment_interval();
+
+        if (tip.height + 1) % interval != 0 {
+            return BlockHeader::compact_target_from_u256(&tip.target());
+        }
+        let (_, first) = self
+            .ancestors(tip, branch)
+            .take(interval as usize)
+            .last()
+            .expect("BlockCache::next_branch_difficulty_target: `tip` is always included");
+
+        tree::adjusted_difficulty_target(first, tip.time, tip.target(), &self.params)
+    }
+
+    /// Get the median time past for a block on top of `tip`.
+    fn branch_median_time_past(&self, tip: &CachedBlock, branch: &[BlockHeader]) -> BlockTime {
+        let mut times = self
+            .ancestors(tip, branch)
+            .take(time::MEDIAN_TIME_SPAN as usize)
+            .map(|(_, header)| header.time)
+            .collect::<Vec<_>>();
+
+        times.sort_unstable();
+        times[times.len() / 2]
+    }
+
     /// Rollback active chain to the given height. Returns the list of rolled-back headers.
     fn rollback(&mut self, height: Height) -> Result<Vec<(Height, BlockHeader)>, Error> {
         let mut stale = Vec::new();
@@ -633,7 +682,7 @@ impl<S: Store<Header = BlockHeader>> BlockTree for BlockCache<S> {
         if header.prev_blockhash == tip.hash() {
             let height = tip.height + 1;
 
-            self.validate(tip, &header, clock)?;
+            self.validate(tip, &[], &header, clock)?;
             self.extend_chain(height, hash, header);
             self.store.put(std::iter::once(header))?;
 
diff --git a/common/src/block/tree.rs b/common/src/block/tree.rs
index f02f2ed..1b5c0d9 100644
--- a/common/src/block/tree.rs
+++ b/common/src/block/tree.rs
@@ -219,31 +219,43 @@ pub trait BlockReader {
         let last_adjustment_block = self
             .get_block_by_height(last_adjustment_height)
             .unwrap_or_else(|| self.genesis());
-        let last_adjustment_time = last_adjustment_block.time;
 
-        if params.no_pow_retargeting {
-            return last_adjustment_block.bits;
-        }
+        adjusted_difficulty_target(last_adjustment_block, last_time, last_target, params)
+    }
+}
 
-        let actual_timespan = last_time - last_adjustment_time;
-        let mut adjusted_timespan = actual_timespan;
+/// Get the difficulty target that follows an adjustment interval, given the first block of
+/// the interval, and the time and target of its last block.
+pub fn adjusted_difficulty_target(
+    last_adjustment_block: &BlockHeader,
+    last_time: BlockTime,
+    last_target: Target,
+    params: &Params,
+) -> Bits {
+    let last_adjustment_time = last_adjustment_block.time;
 
-        if actual_timespan < params.pow_target_timespan as BlockTime / 4 {
-            adjusted_timespan = params.pow_target_timespan as BlockTime / 4;
-        } else if actual_timespan > params.pow_target_timespan as BlockTime * 4 {
-            adjusted_timespan = params.pow_target_timespan as BlockTime * 4;
-        }
+    if params.no_pow_retargeting {
+        return last_adjustment_block.bits;
+    }
 
-        let mut target = last_target;
+    let actual_timespan = last_time - last_adjustment_time;
+    let mut adjusted_timespan = actual_timespan;
 
-        target = target.mul_u32(adjusted_timespan);
-        target = target / Target::from_u64(params.pow_target_timespan).unwrap();
+    if actual_timespan < params.pow_target_timespan as BlockTime / 4 {
+        adjusted_timespan = params.pow_target_timespan as BlockTime / 4;
+    } else if actual_timespan > params.pow_target_timespan as BlockTime * 4 {
+        adjusted_timespan = params.pow_target_timespan as BlockTime * 4;
+    }
 
-        // Ensure a difficulty floor.
-        if target > params.pow_limit {
-            target = params.pow_limit;
-        }
+    let mut target = last_target;
 
-        BlockHeader::compact_target_from_u256(&target)
+    target = target.mul_u32(adjusted_timespan);
+    target = target / Target::from_u64(params.pow_target_timespan).unwrap();
+
+    // Ensure a difficulty floor.
+    if target > params.pow_limit {
+        target = params.pow_limit;
     }
+
+    BlockHeader::compact_target_from_u256(&target)
 }
-- 
2.43.0


From 7a6974a8ca9e31e5e963b8d18bb50d837cda5ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:51 +0000
Subject: [PATCH 02/52] fix: don't overflow when an adjustment interval has a
 negative timespan

---
 common/src/block/tree.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/src/block/tree.rs b/common/src/block/tree.rs
index 1b5c0d9..d3530d1 100644
--- a/common/src/block/tree.rs
+++ b/common/src/block/tree.rs
@@ -238,7 +238,8 @@ pub fn adjusted_difficulty_target(
         return last_adjustment_block.bits;
     }
 
-    let actual_timespan = last_time - last_adjustment_time;
+    // Block times aren't monotonic, hence an interval may have a negative timespan.
+    let actual_timespan = last_time.saturating_sub(last_adjustment_time);
     let mut adjusted_timespan = actual_timespan;
 
     if actual_timespan < params.pow_target_timespan as BlockTime / 4 {
-- 
2.43.0


From 6dce160ba6ae0160ed833698db2bb3b3943202c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:51 +0000
Subject: [PATCH 03/52] fix: never re-org below the last checkpoint

Blocks stored as orphans before a checkpoint was reached could still be
activated after it, if their branch forked off prior to the checkpoint.
---
 chain/src/block/cache.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/chain/src/block/cache.rs b/chain/src/block/cache.rs
index 81e6cc2..790a8e5 100644
--- a/chain/src/block/cache.rs
+++ b/chain/src/block/cache.rs
@@ -374,6 +374,10 @@ impl<S: Store<Header = BlockHeader>> BlockCache<S> {
 
         for tip in self.orphans.keys() {
             if let Some(branch) = self.fork(tip) {
+                // Ignore forks from the main chain, prior to the last checkpoint.
+                if branch.fork_height < self.last_checkpoint() {
+                    continue;
+                }
                 if self.validate_branch(&branch, clock).is_ok() {
                     branches.push(branch);
                 }
-- 
2.43.0


From 5dd223a01fdf491cd3b3948d0cb921286352de11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:29 +0000
Subject: [PATCH 04/52] fix: report the net effect of importing several headers
 on the active chain

When an import re-organizes the chain more than once, blocks that were active
before and after the import were reported as connected, and blocks that had
been reconnected in between were not reported as reverted.
---
 chain/src/block/cache.rs | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/chain/src/block/cache.rs b/chain/src/block/cache.rs
index 790a8e5..3884c33 100644
--- a/chain/src/block/cache.rs
+++ b/chain/src/block/cache.rs
@@ -634,8 +634,19 @@ impl<S: Store<Header = BlockHeader>> BlockTree for BlockCache<S> {
                     reverted: r,
                     connected: c,
                 }) => {
-                    seen.extend(c.iter().map(|(_, h)| h.block_hash()));
-                    reverted.extend(r.into_iter().map(|(i, h)| ((i, h.block_hash()), h)));
+                    // Don't include reverted blocks that were connected during this import, since
+                    // we only want to include blocks reverted from the main chain.
+                    reverted.extend(
+                        r.into_iter()
+                            .map(|(i, h)| ((i, h.block_hash()), h))
+                            .filter(|((_, h), _)| !seen.contains(h)),
+                    );
+                    seen.extend(
+                        c.iter()
+                            .map(|(i, h)| (*i, h.block_hash()))
+                            .filter(|k| !reverted.contains_key(k))
+                            .map(|(_, h)| h),
+                    );
                     connected.extend(c);
 
                     best_hash = hash;
@@ -650,11 +661,14 @@ impl<S: Store<Header = BlockHeader>> BlockTree for BlockCache<S> {
         }
 
         if !connected.is_empty() {
-            // Don't return reverted blocks if they were seen as connected at some point, since
-            // we only want to include blocks reverted from the main chain.
-            reverted.retain(|(_, h), _| !seen.contains(h) && !self.contains(h));
-            // Don't return connected blocks if they are not in the main chain.
-            connected.retain(|_, h| self.contains(&h.block_hash()));
+            // Don't return connected blocks if they are not in the main chain, or if they already
+            // were before this import.
+            connected.retain(|i, h| {
+                let hash = h.block_hash();
+                self.contains(&hash) && !reverted.contains_key(&(*i, hash))
+            });
+            // Don't return reverted blocks if they were connected again.
+            reverted.retain(|(_, h), _| !self.contains(h));
 
             Ok(ImportResult::TipChanged {
                 header: best_header,
-- 
2.43.0


From 6b05a2bdbd27538e273f24d8b8401a67a087558b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:54 +0000
Subject: [PATCH 05/52] fix: account for replaced filters in the filter cache
 size

---
 p2p/src/fsm/filter_cache.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/p2p/src/fsm/filter_cache.rs b/p2p/src/fsm/filter_cache.rs
index 08c69e9..6346d2f 100644
--- a/p2p/src/fsm/filter_cache.rs
+++ b/p2p/src/fsm/filter_cache.rs
@@ -124,7 +124,9 @@ impl<T: Filter> FilterCache<T> {
             return false;
         }
 
-        self.cache.insert(height, filter);
+        if let Some(replaced) = self.cache.insert(height, filter) {
+            self.size -= replaced.len();
+        }
         self.size += size;
 
         while self.size > self.capacity {
-- 
2.43.0


From bcb90aea0e5058ee598e7d375300a500bfadd470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:54 +0000
Subject: [PATCH 06/52] fix: don't overflow on extreme peer time offsets

---
 common/src/block/time.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/src/block/time.rs b/common/src/block/time.rs
index b38e2b6..35f18eb 100644
--- a/common/src/block/time.rs
+++ b/common/src/block/time.rs
@@ -230,7 +230,7 @@ impl<K: Hash + Eq> AdjustedTime<K> {
             let median_offset: TimeOffset = offsets[count / 2];
 
             // Don't let other nodes change our time by more than a certain amount.
-            if median_offset.abs() <= MAX_TIME_ADJUSTMENT {
+            if (-MAX_TIME_ADJUSTMENT..=MAX_TIME_ADJUSTMENT).contains(&median_offset) {
                 self.offset = median_offset;
             } else {
                 // TODO: Check whether other nodes have times similar to ours, otherwise
-- 
2.43.0


From 0b8f881f4e8b5edc7e3a07dd26233e741cbf2a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:54 +0000
Subject: [PATCH 07/52] fix: don't forget processed blocks when rolling back
 fee estimates above them

---
 p2p/src/fsm/fees.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/p2p/src/fsm/fees.rs b/p2p/src/fsm/fees.rs
index 4ec322a..1486076 100644
--- a/p2p/src/fsm/fees.rs
+++ b/p2p/src/fsm/fees.rs
@@ -125,6 +125,10 @@ impl FeeEstimator {
 
     /// Rollback to a certain height.
     pub fn rollback(&mut self, height: Height) {
+        // Nothing was processed above that height.
+        if height >= self.height {
+            return;
+        }
         self.snapshots.retain(|(h, _)| h <= &height);
 
         if let Some((h, snapshot)) = self.snapshots.pop_back() {
-- 
2.43.0


From a7d9197ec9369ae9dc6cbc3145b661e8de255c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:40 +0000
Subject: [PATCH 08/52] fix: ignore redundant version messages instead of
 repeating the handshake

---
 p2p/src/fsm/peermgr.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/p2p/src/fsm/peermgr.rs b/p2p/src/fsm/peermgr.rs
index c263f7b..34fc360 100644
--- a/p2p/src/fsm/peermgr.rs
+++ b/p2p/src/fsm/peermgr.rs
@@ -424,7 +424,8 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
     ) -> Result<(), DisconnectReason> {
         let now = self.clock.local_time();
 
-        if let Some(Peer::Connected { conn, .. }) = self.peers.get(addr) {
+        // Nb. Redundant `version` messages are ignored: the handshake is only carried out once.
+        if let Some(Peer::Connected { conn, peer: None }) = self.peers.get(addr) {
             let VersionMessage {
                 // Peer's best height.
                 start_height,
-- 
2.43.0


From 368135982b71c21a98b79c8425a98504cfc8a28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:27 +0000
Subject: [PATCH 09/52] fix: detect connections to ourselves

---
 p2p/src/fsm/peermgr.rs | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/p2p/src/fsm/peermgr.rs b/p2p/src/fsm/peermgr.rs
index 34fc360..4e3355f 100644
--- a/p2p/src/fsm/peermgr.rs
+++ b/p2p/src/fsm/peermgr.rs
@@ -113,6 +113,8 @@ pub struct Connection {
     pub link: Link,
     /// Connected since this time.
     pub since: LocalTime,
+    /// Nonce sent in our `version` message, if any. Used to detect self-connections.
+    nonce: Option<u64>,
 }
 
 /// Peer state.
@@ -157,8 +159,6 @@ pub struct PeerInfo {
     /// Whether this is a persistent peer.
     pub persistent: bool,
 
-    /// Peer nonce. Used to detect self-connections.
-    nonce: u64,
     /// Peer handshake state.
     state: HandshakeState,
 }
@@ -311,6 +311,9 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
         // inbound. To prevent this, we could look at IPs when receiving inbound connections,
         // to check whether we are already connected to the peer.
 
+        // We only send our `version` message first on outbound connections.
+        let nonce = link.is_outbound().then(|| self.rng.u64(..));
+
         self.peers.insert(
             addr,
             Peer::Connected {
@@ -319,6 +322,7 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
                     local_addr,
                     link,
                     since: local_time,
+                    nonce,
                 },
                 peer: None,
             },
@@ -338,10 +342,15 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
                 }
             }
             Link::Outbound => {
-                let nonce = self.rng.u64(..);
                 self.outbox.version(
                     addr,
-                    self.version(addr, local_addr, nonce, height, local_time),
+                    self.version(
+                        addr,
+                        local_addr,
+                        nonce.unwrap_or_default(),
+                        height,
+                        local_time,
+                    ),
                 );
             }
         }
@@ -471,11 +480,10 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
                 return Err(DisconnectReason::PeerHeight(start_height as Height));
             }
             // Check for self-connections. We only need to check one link direction,
-            // since in the case of a self-connection, we will see both link directions.
-            for (peer, conn) in self.peers() {
-                if conn.link.is_outbound() && peer.nonce == nonce {
-                    return Err(DisconnectReason::SelfConnection);
-                }
+            // since in the case of a self-connection, the inbound end receives the nonce that
+            // was sent on the outbound end.
+            if self.connected().any(|c| c.nonce == Some(nonce)) {
+                return Err(DisconnectReason::SelfConnection);
             }
 
             // If this peer doesn't have the preferred services, and we already have enough peers,
@@ -497,7 +505,7 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
                     self.outbox
                         .version(
                             conn.addr,
-                            self.version(conn.addr, conn.local_addr, nonce, height, now),
+                            self.version(conn.addr, conn.local_addr, self.rng.u64(..), height, now),
                         )
                         .wtxid_relay(conn.addr)
                         .verack(conn.addr)
@@ -520,7 +528,6 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
                 Peer::Connected {
                     conn,
                     peer: Some(PeerInfo {
-                        nonce,
                         height: start_height as Height,
                         time_offset: timestamp - now.block_time() as i64,
                         services,
-- 
2.43.0


From 0ab3a1857ef2e8f19f44c589e44ea78d5274d10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:11 +0000
Subject: [PATCH 10/52] fix: don't overflow on extreme timestamps in version
 messages

---
 p2p/src/fsm/peermgr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p2p/src/fsm/peermgr.rs b/p2p/src/fsm/peermgr.rs
index 4e3355f..eb1f3d0 100644
--- a/p2p/src/fsm/peermgr.rs
+++ b/p2p/src/fsm/peermgr.rs
@@ -529,7 +529,7 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
                     conn,
                     peer: Some(PeerInfo {
                         height: start_height as Height,
-                        time_offset: timestamp - now.block_time() as i64,
+                        time_offset: timestamp.saturating_sub(now.block_time() as i64),
                         services,
                         persistent,
                         user_agent,
-- 
2.43.0


From 99029155ad4e1c982512bb4254047c00ebcacdb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:31 +0000
Subject: [PATCH 11/52] fix: accept inbound connections up to the configured
 limit

---
 p2p/src/fsm/peermgr.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/p2p/src/fsm/peermgr.rs b/p2p/src/fsm/peermgr.rs
index eb1f3d0..1819e37 100644
--- a/p2p/src/fsm/peermgr.rs
+++ b/p2p/src/fsm/peermgr.rs
@@ -331,8 +331,9 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
 
         match link {
             Link::Inbound => {
+                // Nb. This connection is included in the count.
                 if self.connected().filter(|c| c.link.is_inbound()).count()
-                    >= self.config.max_inbound_peers
+                    > self.config.max_inbound_peers
                 {
                     // TODO: Test this branch.
                     // Don't allow inbound connections beyond the configured limit.
-- 
2.43.0


From 6a3c696b8f8e957f0b45458275015631ad48befe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:51 +0000
Subject: [PATCH 12/52] fix: don't let inbound peers prevent outbound
 connections

---
 p2p/src/fsm/peermgr.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/p2p/src/fsm/peermgr.rs b/p2p/src/fsm/peermgr.rs
index 1819e37..934430b 100644
--- a/p2p/src/fsm/peermgr.rs
+++ b/p2p/src/fsm/peermgr.rs
@@ -785,8 +785,9 @@ impl<C: Clock> PeerManager<C> {
         // Peers only with required services, which we'd eventually want to drop in favor of peers
         // that have all services.
         let secondary = self.negotiated(Link::Outbound).count() - primary;
-        // Connected peers that have not yet completed handshake.
-        let connected = self.connected().count() - primary - secondary;
+        // Connected outbound peers that have not yet completed handshake.
+        let connected =
+            self.connected().filter(|c| c.link.is_outbound()).count() - primary - secondary;
         // Connecting peers.
         let connecting = self.connecting().count();
 
-- 
2.43.0


From 1a1b7eb2106a0e6b8afe66f607b6b6850eafd5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:37 +0000
Subject: [PATCH 13/52] fix: don't lose a connection attempt made while the
 previous connection is closing

---
 p2p/src/fsm/peermgr.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/p2p/src/fsm/peermgr.rs b/p2p/src/fsm/peermgr.rs
index 934430b..658243c 100644
--- a/p2p/src/fsm/peermgr.rs
+++ b/p2p/src/fsm/peermgr.rs
@@ -182,6 +182,8 @@ pub struct PeerManager<C> {
     peers: HashMap<net::SocketAddr, Peer>,
     /// Peers that have been disconnected and a retry attempt is scheduled.
     disconnected: HashMap<net::SocketAddr, (Option<LocalTime>, usize)>,
+    /// Peers to connect to again once their connection is closed.
+    reconnect: HashSet<net::SocketAddr>,
     outbox: Outbox,
     rng: fastrand::Rng,
     hooks: Hooks,
@@ -201,12 +203,14 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
     pub fn new(config: Config, rng: fastrand::Rng, hooks: Hooks, clock: C) -> Self {
         let peers = HashMap::with_hasher(rng.clone().into());
         let disconnected = HashMap::with_hasher(rng.clone().into());
+        let reconnect = HashSet::with_hasher(rng.clone().into());
 
         Self {
             config,
             last_idle: None,
             peers,
             disconnected,
+            reconnect,
             outbox: Outbox::default(),
             rng,
             hooks,
@@ -391,7 +395,9 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
         }
         self.peers.remove(addr);
 
-        if self.config.persistent.contains(addr) {
+        if self.reconnect.remove(addr) {
+            self.connect(addr);
+        } else if self.config.persistent.contains(addr) {
             self.persistent_disconnected(addr, local_time);
         } else {
             // If an outbound peer disconnected, we should make sure to maintain
@@ -748,13 +754,15 @@ impl<C: Clock> PeerManager<C> {
         if self.is_connected(addr) || self.is_connecting(addr) {
             return true;
         }
-        if !self.is_disconnected(addr) && !self.is_disconnecting(addr) {
-            return false;
-        }
         // Don't allow connections to unsupported domains.
         if !self.config.domains.contains(&Domain::for_address(addr)) {
             return false;
         }
+        // If the previous connection is still being closed, wait for it.
+        if self.is_disconnecting(addr) {
+            self.reconnect.insert(*addr);
+            return true;
+        }
         self.peers.insert(*addr, Peer::Connecting { time });
         self.outbox.connect(*addr, CONNECTION_TIMEOUT);
 
-- 
2.43.0


From fa4cbe6b0a803b7c79bed1cfe035d8c6a3ab4d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:35 +0000
Subject: [PATCH 14/52] fix: don't ignore imported addresses

---
 p2p/src/fsm/addrmgr.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/p2p/src/fsm/addrmgr.rs b/p2p/src/fsm/addrmgr.rs
index 7d24d4a..0d88968 100644
--- a/p2p/src/fsm/addrmgr.rs
+++ b/p2p/src/fsm/addrmgr.rs
@@ -368,8 +368,9 @@ impl<P: Store, C: Clock> AddressManager<P, C> {
             if addr.services.has(ServiceFlags::GETUTXO) || addr.services.has(ServiceFlags::BLOOM) {
                 continue;
             }
-            // Ignore addresses that don't have a "last active" time.
-            if last_active == 0 {
+            // Ignore addresses that don't have a "last active" time, unless they were imported,
+            // in which case it isn't relevant.
+            if last_active == 0 && source != Source::Imported {
                 continue;
             }
             // Ignore addresses that are too far into the future.
@@ -403,7 +404,6 @@ impl<P: Store, C: Clock> AddressManager<P, C> {
             }
 
             let last_active = if last_active == 0 {
-                // TODO: Cannot be 'None' due to above condition.
                 None
             } else {
                 Some(LocalTime::from_block_time(last_active))
-- 
2.43.0


From ddb7175115e40f2d64f4319fe1d7e86127af7ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:01 +0000
Subject: [PATCH 15/52] fix: ban misbehaving peers that aren't in the address
 book

---
 p2p/src/fsm/addrmgr.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/p2p/src/fsm/addrmgr.rs b/p2p/src/fsm/addrmgr.rs
index 0d88968..85381ca 100644
--- a/p2p/src/fsm/addrmgr.rs
+++ b/p2p/src/fsm/addrmgr.rs
@@ -555,12 +555,14 @@ impl<P: Store, C: Clock> AddressManager<P, C> {
 
         let key = self::addr_key(addr);
 
+        // TODO: Persist bans.
+        // Nb. The address may be unknown to us, eg. if the peer connected to us.
+        self.bans.insert(*addr);
+
         if let Some(range) = self.address_ranges.get_mut(&key) {
             range.remove(addr);
 
-            // TODO: Persist bans.
             self.peers.remove(addr);
-            self.bans.insert(*addr);
 
             if range.is_empty() {
                 self.address_ranges.remove(&key);
-- 
2.43.0


From a8d3fe2a8d1d386f9dad41cade84f2e11a4ce296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:38 +0000
Subject: [PATCH 16/52] fix: keep track of several connections with the same
 host in the address manager

---
 p2p/src/fsm/addrmgr.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/p2p/src/fsm/addrmgr.rs b/p2p/src/fsm/addrmgr.rs
index 85381ca..c0b2dfc 100644
--- a/p2p/src/fsm/addrmgr.rs
+++ b/p2p/src/fsm/addrmgr.rs
@@ -61,7 +61,7 @@ impl<P: Store, C> AddressManager<P, C> {
             if time - ka.last_sampled.unwrap_or_default() < SAMPLE_TIMEOUT {
                 continue;
             }
-            if !self.connected.contains(addr) {
+            if !self::is_connected(&self.connected, addr) {
                 return false;
             }
         }
@@ -94,7 +94,7 @@ pub struct AddressManager<P, C> {
     peers: P,
     bans: HashSet<net::IpAddr>,
     address_ranges: HashMap<u8, HashSet<net::IpAddr>>,
-    connected: HashSet<net::IpAddr>,
+    connected: HashSet<net::SocketAddr>,
     sources: HashSet<net::SocketAddr>,
     local_addrs: HashSet<net::SocketAddr>,
     /// The last time we asked our peers for new addresses.
@@ -233,14 +233,14 @@ impl<P: Store, C: Clock> AddressManager<P, C> {
         if !self::is_routable(&addr.ip()) || self::is_local(&addr.ip()) {
             return;
         }
-        self.connected.insert(addr.ip());
+        self.connected.insert(*addr);
     }
 
     /// Called when a peer has handshaked.
     fn peer_negotiated(&mut self, addr: &net::SocketAddr, services: ServiceFlags, link: Link) {
         let time = self.clock.local_time();
 
-        if !self.connected.contains(&addr.ip()) {
+        if !self.connected.contains(addr) {
             return;
         }
         if link.is_outbound() {
@@ -268,7 +268,7 @@ impl<P: Store, C: Clock> AddressManager<P, C> {
         addr: &net::SocketAddr,
         reason: Disconnect<super::DisconnectReason>,
     ) {
-        if self.connected.remove(&addr.ip()) {
+        if self.connected.remove(addr) {
             // Disconnected peers cannot be used as a source for new addresses.
             self.sources.remove(addr);
 
@@ -502,7 +502,7 @@ impl<P: Store, C: Clock> AddressManager<P, C> {
                     continue;
                 }
                 // If we're already connected to this address, skip it.
-                if self.connected.contains(ip) {
+                if self::is_connected(&self.connected, ip) {
                     continue;
                 }
                 // If the provided filter doesn't pass, keep looking.
@@ -551,8 +551,6 @@ impl<P: Store, C: Clock> AddressManager<P, C> {
 
     /// Remove an address from the address book and prevent it from being sampled again.
     fn ban(&mut self, addr: &net::IpAddr) -> bool {
-        debug_assert!(!self.connected.contains(addr));
-
         let key = self::addr_key(addr);
 
         // TODO: Persist bans.
@@ -583,6 +581,11 @@ impl<P: Store, C: Clock> AddressSource for AddressManager<P, C> {
     }
 }
 
+/// Check whether there is a connection with the given IP address. Nb. There can be more than one.
+fn is_connected(connected: &HashSet<net::SocketAddr>, ip: &net::IpAddr) -> bool {
+    connected.iter().any(|addr| addr.ip() == *ip)
+}
+
 /// Check whether an IP address is globally routable.
 pub fn is_routable(addr: &net::IpAddr) -> bool {
     match addr {
-- 
2.43.0


From 33360a12215db55a053503d0a4cd035f3ae48ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:23 +0000
Subject: [PATCH 17/52] fix: don't wait forever on messages that are shorter
 than they should be

---
 p2p/src/stream.rs | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/p2p/src/stream.rs b/p2p/src/stream.rs
index 91975be..e5a2893 100644
--- a/p2p/src/stream.rs
+++ b/p2p/src/stream.rs
@@ -26,14 +26,24 @@ impl Decoder {
 
     /// Decode and return the next message. Returns [`None`] if nothing was decoded.
     pub fn decode_next<D: Decodable>(&mut self) -> Result<Option<D>, encode::Error> {
-        match encode::deserialize_partial::<D>(&self.unparsed) {
-            Ok((msg, index)) => {
+        let mut reader = Reader {
+            bytes: &self.unparsed,
+            exhausted: false,
+        };
+
+        match D::consensus_decode_from_finite_reader(&mut reader) {
+            Ok(msg) => {
                 // Drain deserialized bytes only.
+                let index = self.unparsed.len() - reader.bytes.len();
                 self.unparsed.drain(..index);
                 Ok(Some(msg))
             }
 
-            Err(encode::Error::Io(ref err)) if err.kind() == io::ErrorKind::UnexpectedEof => {
+            // We only wait for more input if it ran out. Otherwise, it's a message that ends before
+            // it should, and no amount of input can change that.
+            Err(encode::Error::Io(ref err))
+                if err.kind() == io::ErrorKind::UnexpectedEof && reader.exhausted =>
+            {
                 Ok(None)
             }
             Err(err) => Err(err),
@@ -41,6 +51,23 @@ impl Decoder {
     }
 }
 
+/// Reader that keeps track of whether it was exhausted.
+struct Reader<'a> {
+    bytes: &'a [u8],
+    exhausted: bool,
+}
+
+impl<'a> io::Read for Reader<'a> {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        let count = self.bytes.read(buf)?;
+
+        if count < buf.len() {
+            self.exhausted = true;
+        }
+        Ok(count)
+    }
+}
+
 #[cfg(test)]
 mod test {
     use super::*;
-- 
2.43.0


From 2a36321943ed7094b52633937bf7bfaa48d2944f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:54 +0000
Subject: [PATCH 18/52] fix: don't buffer messages of unlimited size

---
 p2p/src/stream.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/p2p/src/stream.rs b/p2p/src/stream.rs
index e5a2893..2e24160 100644
--- a/p2p/src/stream.rs
+++ b/p2p/src/stream.rs
@@ -3,6 +3,9 @@ use std::io;
 
 use nakamoto_common::bitcoin::consensus::{encode, Decodable};
 
+/// Maximum size of a message, including its header.
+pub const MAX_MESSAGE_SIZE: usize = encode::MAX_VEC_SIZE + 24;
+
 /// Message stream decoder.
 ///
 /// Used to for example turn a byte stream into network messages.
@@ -44,6 +47,13 @@ impl Decoder {
             Err(encode::Error::Io(ref err))
                 if err.kind() == io::ErrorKind::UnexpectedEof && reader.exhausted =>
             {
+                // Don't buffer more than a message's worth of input.
+                if self.unparsed.len() > MAX_MESSAGE_SIZE {
+                    return Err(encode::Error::OversizedVectorAllocation {
+                        requested: self.unparsed.len(),
+                        max: MAX_MESSAGE_SIZE,
+                    });
+                }
                 Ok(None)
             }
             Err(err) => Err(err),
-- 
2.43.0


From 85c16ac1b7815972690df2c538cf80171986f599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:34 +0000
Subject: [PATCH 19/52] fix: report headers imported before an invalid one, and
 punish peers sending it

Every error that occurs while importing headers is wrapped in a
`BlockImportAborted` error, which was ignored: peers sending invalid headers
weren't disconnected, store errors were lost, and if valid headers came
before the invalid one in the same message, the active chain changed without
any of the usual events, leaving filters and subscribers on the old chain.
---
 p2p/src/fsm/syncmgr.rs | 94 ++++++++++++++++++++++++++++++------------
 1 file changed, 67 insertions(+), 27 deletions(-)

diff --git a/p2p/src/fsm/syncmgr.rs b/p2p/src/fsm/syncmgr.rs
index da8d6de..d1a0ca6 100644
--- a/p2p/src/fsm/syncmgr.rs
+++ b/p2p/src/fsm/syncmgr.rs
@@ -243,37 +243,71 @@ impl<C: Clock> SyncManager<C> {
         blocks: I,
         tree: &mut T,
     ) -> Result<ImportResult, Error> {
+        let (previous, _) = tree.tip();
         let result = tree.import_blocks(blocks, &self.clock);
 
-        if let Ok(ImportResult::TipChanged {
-            hash,
-            height,
-            reverted,
-            connected,
-            ..
-        }) = &result
-        {
-            let reorg = !reverted.is_empty();
-
-            for (height, header) in reverted.iter().cloned() {
-                self.outbox
-                    .event(Event::BlockDisconnected { height, header });
+        match &result {
+            Ok(ImportResult::TipChanged {
+                hash,
+                height,
+                reverted,
+                connected,
+                ..
+            }) => {
+                self.tip_changed(hash, *height, reverted, connected, tree);
             }
-            for (height, header) in connected.iter().cloned() {
-                self.outbox.event(Event::BlockConnected { height, header });
+            // Nb. The headers that come before the invalid one are imported.
+            Err(Error::BlockImportAborted(_, _, _)) => {
+                if let Some((fork_height, branch)) = tree.find_branch(&previous) {
+                    let (hash, _) = tree.tip();
+                    let height = tree.height();
+                    let mut reverted = (fork_height + 1..)
+                        .zip(branch.tail().iter().cloned())
+                        .collect::<Vec<_>>();
+                    reverted.reverse();
+
+                    let connected = (fork_height + 1..=height)
+                        .filter_map(|h| tree.get_block_by_height(h).map(|b| (h, *b)))
+                        .collect::<Vec<_>>();
+
+                    if let Some(connected) = NonEmpty::from_vec(connected) {
+                        self.tip_changed(&hash, height, &reverted, &connected, tree);
+                    }
+                }
             }
-            self.outbox.event(Event::BlockHeadersImported {
-                reorg,
-                hash: *hash,
-                height: *height,
-                connected: connected.clone(),
-                reverted: reverted.clone(),
-            });
-            self.broadcast_tip(hash, tree);
+            _ => {}
         }
         result
     }
 
+    /// Called when our active chain changed.
+    fn tip_changed<T: BlockReader>(
+        &mut self,
+        hash: &BlockHash,
+        height: Height,
+        reverted: &[(Height, BlockHeader)],
+        connected: &NonEmpty<(Height, BlockHeader)>,
+        tree: &T,
+    ) {
+        let reorg = !reverted.is_empty();
+
+        for (height, header) in reverted.iter().cloned() {
+            self.outbox
+                .event(Event::BlockDisconnected { height, header });
+        }
+        for (height, header) in connected.iter().cloned() {
+            self.outbox.event(Event::BlockConnected { height, header });
+        }
+        self.outbox.event(Event::BlockHeadersImported {
+            reorg,
+            hash: *hash,
+            height,
+            connected: connected.clone(),
+            reverted: reverted.to_vec(),
+        });
+        self.broadcast_tip(hash, tree);
+    }
+
     /// Called when we receive headers from a peer.
     pub fn received_headers<T: BlockTree>(
         &mut self,
@@ -314,7 +348,13 @@ impl<C: Clock> SyncManager<C> {
             return;
         }
 
-        match self.import_blocks(headers.into_iter(), tree) {
+        let result = match self.import_blocks(headers.into_iter(), tree) {
+            // What matters here is the reason for which the import was aborted.
+            Err(Error::BlockImportAborted(e, _, _)) => Err(*e),
+            result => result,
+        };
+
+        match result {
             Ok(ImportResult::TipUnchanged) => {
                 // Try to find a common ancestor that leads up to the first header in
                 // the list we received.
@@ -366,11 +406,11 @@ impl<C: Clock> SyncManager<C> {
             }
             // Harmless errors can be ignored.
             Err(Error::DuplicateBlock(_) | Error::BlockMissing(_)) => {}
-            // TODO: This will be removed.
-            Err(Error::BlockImportAborted(_, _, _)) => {}
             // These shouldn't happen here.
             // TODO: Perhaps there's a better way to have this error not show up here.
-            Err(Error::Interrupted | Error::GenesisMismatch) => {}
+            Err(
+                Error::BlockImportAborted(_, _, _) | Error::Interrupted | Error::GenesisMismatch,
+            ) => {}
         }
     }
 
-- 
2.43.0


From 94fc341a664dac1a0b69dcb2852905bdae9cc4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:44 +0000
Subject: [PATCH 20/52] fix: don't keep asking a peer for headers it already
 sent

A peer on a fork with no more work than ours answers our `getheaders` with
headers we already know, upon which we'd send the same request again, in a
loop that only ends if the chain changes. With debug assertions on, the
repeated request made the node panic.
---
 p2p/src/fsm/syncmgr.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/p2p/src/fsm/syncmgr.rs b/p2p/src/fsm/syncmgr.rs
index d1a0ca6..81d75cb 100644
--- a/p2p/src/fsm/syncmgr.rs
+++ b/p2p/src/fsm/syncmgr.rs
@@ -361,7 +361,11 @@ impl<C: Clock> SyncManager<C> {
                 let locators = (tree.locator_hashes(tree.height()), root);
                 let timeout = self.config.request_timeout;
 
-                self.request(*from, locators, timeout, OnTimeout::Ignore);
+                // If we already asked, the peer has nothing better to offer for now. Asking again
+                // would go on forever.
+                if self.peers.get(from).map_or(true, |p| p.last_asked.as_ref() != Some(&locators)) {
+                    self.request(*from, locators, timeout, OnTimeout::Ignore);
+                }
             }
             Ok(ImportResult::TipChanged { hash, height, .. }) => {
                 // Update peer height.
@@ -426,8 +430,6 @@ impl<C: Clock> SyncManager<C> {
             return;
         }
         if let Some(peer) = self.peers.get_mut(&addr) {
-            debug_assert!(peer.last_asked.as_ref() != Some(&locators));
-
             peer.last_asked = Some(locators.clone());
 
             let sent_at = self.clock.local_time();
-- 
2.43.0


From 4279adcaba03222caf3fe75e57fe92ac4737b8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:57 +0000
Subject: [PATCH 21/52] fix: sync headers when all peers support compact
 filters

Peers with compact filters support were never asked for headers, instead of
being asked last.
---
 p2p/src/fsm/syncmgr.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/p2p/src/fsm/syncmgr.rs b/p2p/src/fsm/syncmgr.rs
index 81d75cb..abfbde7 100644
--- a/p2p/src/fsm/syncmgr.rs
+++ b/p2p/src/fsm/syncmgr.rs
@@ -616,9 +616,9 @@ impl<C: Clock> SyncManager<C> {
 
         peers
             .iter()
-            .filter(|(a, p)| self.is_request_candidate(a, p, locators))
-            .find(|(_, p)| p.preferred && p.height > height)
-            .or_else(|| peers.iter().find(|(_, p)| p.preferred))
+            .filter(|(a, p)| self.is_request_candidate(a, p, locators) && p.height > height)
+            .max_by_key(|(_, p)| p.preferred)
+            .or_else(|| peers.iter().max_by_key(|(_, p)| p.preferred))
             .map(|(a, _)| **a)
     }
 
-- 
2.43.0


From 114413e2caac931a04a5086b518a9a3bc62e3971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:02 +0000
Subject: [PATCH 22/52] fix: only answer requests for filter headers we can
 meet

Requests whose start is after their end made the node panic, requests beyond
our last filter header were answered with fewer headers than asked for, and
requests for more headers than the protocol allows were answered.
---
 p2p/src/fsm/cbfmgr.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/p2p/src/fsm/cbfmgr.rs b/p2p/src/fsm/cbfmgr.rs
index b3d6d99..121d99d 100644
--- a/p2p/src/fsm/cbfmgr.rs
+++ b/p2p/src/fsm/cbfmgr.rs
@@ -748,8 +748,21 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
             });
         };
 
-        let headers = self.filters.get_headers(start_height..=stop_height);
-        if !headers.is_empty() {
+        if start_height > stop_height {
+            return Err(Error::InvalidMessage {
+                from,
+                reason: "getcfheaders: start height is greater than stop height",
+            });
+        }
+        if stop_height - start_height >= MAX_MESSAGE_CFHEADERS as Height {
+            return Err(Error::InvalidMessage {
+                from,
+                reason: "getcfheaders: requested header count exceeds maximum",
+            });
+        }
+
+        if stop_height <= self.filters.height() {
+            let headers = self.filters.get_headers(start_height..=stop_height);
             let hashes = headers.iter().map(|(hash, _)| *hash);
             let prev_header = self.filters.get_prev_header(start_height).expect(
                 "FilterManager::received_getcfheaders: all headers up to the tip must exist",
-- 
2.43.0


From 1fd149ddaca91d0bd3dd04080acefd89ca2344a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:48 +0000
Subject: [PATCH 23/52] fix: drop requests for filter headers of a stale branch

After a re-org, a getcfheaders request made for the old branch was retried
until met, and peers that could not meet it were disconnected, or punished
when they did.
---
 p2p/src/fsm/cbfmgr.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/p2p/src/fsm/cbfmgr.rs b/p2p/src/fsm/cbfmgr.rs
index 121d99d..6653353 100644
--- a/p2p/src/fsm/cbfmgr.rs
+++ b/p2p/src/fsm/cbfmgr.rs
@@ -219,6 +219,10 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
                     if let Err(e) = self.rollback(fork_height) {
                         self.outbox.error(e);
                     }
+                    // Requests for filter headers of the stale branch can't be met by peers
+                    // that have moved to the new one.
+                    self.inflight
+                        .retain(|stop_hash, _| tree.get_block(stop_hash).is_some());
                 }
                 // Trigger a filter sync, since we're going to have to catch up on the
                 // new block header(s). This is not required, but reduces latency.
@@ -634,7 +638,8 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
         let stop_height = if let Some((height, _)) = tree.get_block(&stop_hash) {
             height
         } else {
-            return Err(Error::InvalidMessage {
+            // The block was reverted while the request was inflight.
+            return Err(Error::Ignored {
                 from,
                 reason: "unknown `cfheaders` stop hash",
             });
-- 
2.43.0


From 0b7d5d84a88e652d17988eff7fe609ed57fcf85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:46 +0000
Subject: [PATCH 24/52] fix: don't panic when filter headers arrive with no
 filter peer connected

---
 p2p/src/fsm/cbfmgr.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/p2p/src/fsm/cbfmgr.rs b/p2p/src/fsm/cbfmgr.rs
index 6653353..706f2ce 100644
--- a/p2p/src/fsm/cbfmgr.rs
+++ b/p2p/src/fsm/cbfmgr.rs
@@ -709,7 +709,11 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
         self.filters
             .import_headers(headers)
             .map(|height| {
-                self.headers_imported(start_height, height, tree).unwrap(); // TODO
+                match self.headers_imported(start_height, height, tree) {
+                    // If we're not connected, the filters are requested once a peer connects.
+                    Ok(()) | Err(GetFiltersError::NotConnected) => {}
+                    Err(err) => panic!("{}: Error fetching filters: {}", source!(), err),
+                }
 
                 assert!(height <= tree.height());
 
-- 
2.43.0


From 1b23d817a9a6024850da9f79d9d1b8e5144cf458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:19 +0000
Subject: [PATCH 25/52] fix: a block that can't be had no longer holds back the
 others

Blocks that were requested and aren't on the active chain, because of a
re-org or because nobody knows them, kept every other block from being
processed; and blocks received before a re-org were processed after it.
---
 p2p/src/fsm/invmgr.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/p2p/src/fsm/invmgr.rs b/p2p/src/fsm/invmgr.rs
index bf76a3b..0da31f0 100644
--- a/p2p/src/fsm/invmgr.rs
+++ b/p2p/src/fsm/invmgr.rs
@@ -174,6 +174,11 @@ impl<C: Clock> InventoryManager<C> {
                 for (height, _) in reverted {
                     self.block_reverted(height);
                 }
+                // Drop received blocks that are no longer on the active chain, and process those
+                // that were only waiting for blocks which aren't anymore either.
+                self.received
+                    .retain(|_, block| tree.get_block(&block.block_hash()).is_some());
+                self.process_blocks(tree);
             }
             Event::MessageReceived { from, message } => match message.as_ref() {
                 NetworkMessage::Block(block) => {
@@ -414,15 +419,24 @@ impl<C: Clock> InventoryManager<C> {
         let height = if let Some((height, _)) = tree.get_block(&hash) {
             height
         } else {
-            return vec![];
+            // Blocks may have been waiting for this one.
+            return self.process_blocks(tree);
         };
 
         // Add to processing queue. Blocks are processed in-order only.
         self.received.insert(height, block);
+        self.process_blocks(tree)
+    }
 
-        // If there are still blocks remaining to download, don't process any of the
-        // received queue yet.
-        if !self.remaining.is_empty() {
+    /// Process the received blocks, in order. Returns the list of confirmed [`Txid`].
+    fn process_blocks<T: BlockReader>(&mut self, tree: &T) -> Vec<Txid> {
+        // If there are still blocks of the active chain remaining to download, don't process
+        // any of the received queue yet.
+        if self
+            .remaining
+            .keys()
+            .any(|hash| tree.get_block(hash).is_some())
+        {
             return vec![];
         }
 
-- 
2.43.0


From 8c0cd06d8aa3990669e05c43c0569a09cafee941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:56 +0000
Subject: [PATCH 26/52] fix: don't accept a block whose transactions don't
 match its header

---
 p2p/src/fsm/invmgr.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/p2p/src/fsm/invmgr.rs b/p2p/src/fsm/invmgr.rs
index 0da31f0..bc0e9b0 100644
--- a/p2p/src/fsm/invmgr.rs
+++ b/p2p/src/fsm/invmgr.rs
@@ -395,12 +395,22 @@ impl<C: Clock> InventoryManager<C> {
     /// Note that the confirmed transactions don't necessarily pertain to this block.
     pub fn received_block<T: BlockReader>(
         &mut self,
-        _from: &PeerId,
+        from: &PeerId,
         block: Block,
         tree: &T,
     ) -> Vec<Txid> {
         let hash = block.block_hash();
 
+        // The header of a block says nothing about the transactions that come with it, unless
+        // they are the ones it commits to.
+        if self.remaining.contains_key(&hash) && !block.check_merkle_root() {
+            self.outbox.event(Event::PeerMisbehaved {
+                addr: *from,
+                reason: "block does not match its merkle root",
+            });
+            return vec![];
+        }
+
         if self.remaining.remove(&hash).is_none() {
             // Nb. The remote isn't necessarily sending an unsolicited block here.
             // We often have to ask multiple peers to get a response, so we may
-- 
2.43.0


From 388a7e2ffdb32c169f5512f64d6c36c6703ff069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:02 +0000
Subject: [PATCH 27/52] fix: don't announce transactions to peers that don't
 relay them

---
 p2p/src/fsm/invmgr.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/p2p/src/fsm/invmgr.rs b/p2p/src/fsm/invmgr.rs
index bc0e9b0..f9d4d32 100644
--- a/p2p/src/fsm/invmgr.rs
+++ b/p2p/src/fsm/invmgr.rs
@@ -204,8 +204,10 @@ impl<C: Clock> InventoryManager<C> {
     ) {
         // Add existing inventories to this peer's outbox so that they are announced.
         let mut outbox = HashMap::with_hasher(self.rng.clone().into());
-        for (wtxid, tx) in self.mempool.iter() {
-            outbox.insert(*wtxid, tx.txid());
+        if relay {
+            for (wtxid, tx) in self.mempool.iter() {
+                outbox.insert(*wtxid, tx.txid());
+            }
         }
         self.schedule_tick();
         self.peers.insert(
-- 
2.43.0


From e4b34616e187996b54550f3dd7fdb087a7f9d645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:50 +0000
Subject: [PATCH 28/52] fix: recognize confirmed transactions in blocks without
 witnesses

---
 p2p/src/fsm/invmgr.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/p2p/src/fsm/invmgr.rs b/p2p/src/fsm/invmgr.rs
index f9d4d32..bdb2846 100644
--- a/p2p/src/fsm/invmgr.rs
+++ b/p2p/src/fsm/invmgr.rs
@@ -466,11 +466,22 @@ impl<C: Clock> InventoryManager<C> {
             let hash = block.block_hash();
 
             for tx in &block.txdata {
-                let wtxid = tx.wtxid();
+                let txid = tx.txid();
 
                 // Attempt to remove confirmed transaction from mempool.
-                if let Some(transaction) = self.mempool.remove(&wtxid) {
-                    confirmed.push(tx.txid());
+                //
+                // Nb. We can't use the `wtxid` of the block's transaction, since blocks are
+                // requested and received without witness data.
+                let wtxid = self
+                    .mempool
+                    .iter()
+                    .find(|(_, tx)| tx.txid() == txid)
+                    .map(|(wtxid, _)| *wtxid);
+
+                if let Some((wtxid, transaction)) =
+                    wtxid.and_then(|wtxid| self.mempool.remove_entry(&wtxid))
+                {
+                    confirmed.push(txid);
 
                     // Transactions that have been confirmed no longer need to be announced.
                     for peer in self.peers.values_mut() {
-- 
2.43.0


From 8a03cc6ccc134751def5ca792e191b9f83026c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:54 +0000
Subject: [PATCH 29/52] fix: don't hold announcements of confirmed transactions
 against peers

---
 p2p/src/fsm/invmgr.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/p2p/src/fsm/invmgr.rs b/p2p/src/fsm/invmgr.rs
index bdb2846..3f286ea 100644
--- a/p2p/src/fsm/invmgr.rs
+++ b/p2p/src/fsm/invmgr.rs
@@ -485,7 +485,9 @@ impl<C: Clock> InventoryManager<C> {
 
                     // Transactions that have been confirmed no longer need to be announced.
                     for peer in self.peers.values_mut() {
-                        peer.outbox.remove(&wtxid);
+                        if peer.outbox.remove(&wtxid).is_some() && peer.outbox.is_empty() {
+                            peer.reset();
+                        }
                     }
 
                     self.confirmed
-- 
2.43.0


From 6f7b0b80d68328d222fbccb22248510211694ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:11 +0000
Subject: [PATCH 30/52] fix: report the height scanned, not the one after it

---
 p2p/src/fsm/cbfmgr.rs | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/p2p/src/fsm/cbfmgr.rs b/p2p/src/fsm/cbfmgr.rs
index 706f2ce..6690f72 100644
--- a/p2p/src/fsm/cbfmgr.rs
+++ b/p2p/src/fsm/cbfmgr.rs
@@ -191,17 +191,7 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
             Event::BlockProcessed { block, height, .. } => {
                 if self.pending_blocks.remove(&height) {
                     self.outbox.event(Event::BlockMatched { block, height });
-
-                    // Since blocks are processed and matched in-order, we know this is the latest
-                    // block that has matched.
-                    // If there are no pending blocks however, it means there are no other matches,
-                    // therefore we can jump to the current rescan height.
-                    let height = if self.pending_blocks.is_empty() {
-                        self.rescan.current.max(height)
-                    } else {
-                        height
-                    };
-                    self.outbox.event(Event::Scanned { height });
+                    self.scanned();
                 }
             }
             Event::BlockDisconnected { height, .. } => {
@@ -293,9 +283,7 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
                             // Filters being processed only updates our progress if there are no
                             // pending blocks. Otherwise we have to wait for the block to arrive.
                             if self.pending_blocks.is_empty() {
-                                self.outbox.event(Event::Scanned {
-                                    height: self.rescan.current,
-                                });
+                                self.scanned();
                             }
                         }
                         Err(Error::InvalidMessage { from, .. }) => {
@@ -603,6 +591,18 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
         }
     }
 
+    /// Report the height up to which all filters were processed, and all matching blocks were
+    /// received, if there is one.
+    fn scanned(&mut self) {
+        let next = match self.pending_blocks.iter().next() {
+            Some(pending) => Height::min(*pending, self.rescan.current),
+            None => self.rescan.current,
+        };
+        if next > self.rescan.start {
+            self.outbox.event(Event::Scanned { height: next - 1 });
+        }
+    }
+
     /// Remove transaction from list of transactions being watch.
     fn unwatch_transaction(&mut self, txid: &Txid) -> bool {
         self.rescan.transactions.remove(txid).is_some()
-- 
2.43.0


From b8edf3202466cbef603d6a1dd8370f4d23089382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:48 +0000
Subject: [PATCH 31/52] fix: don't underflow on rescans ending before the first
 block

---
 p2p/src/fsm/cbfmgr.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/p2p/src/fsm/cbfmgr.rs b/p2p/src/fsm/cbfmgr.rs
index 6690f72..2f2bb34 100644
--- a/p2p/src/fsm/cbfmgr.rs
+++ b/p2p/src/fsm/cbfmgr.rs
@@ -371,19 +371,19 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
         watch: Vec<Script>,
         tree: &T,
     ) -> Vec<(Height, BlockHash)> {
-        self.rescan.restart(
-            match start {
-                Bound::Unbounded => tree.height() + 1,
-                Bound::Included(h) => h,
-                Bound::Excluded(h) => h + 1,
-            },
-            match end {
-                Bound::Unbounded => None,
-                Bound::Included(h) => Some(h),
-                Bound::Excluded(h) => Some(h - 1),
-            },
-            watch,
-        );
+        let start = match start {
+            Bound::Unbounded => tree.height() + 1,
+            Bound::Included(h) => h,
+            Bound::Excluded(h) => h.saturating_add(1),
+        };
+        let (start, end) = match end {
+            Bound::Unbounded => (start, None),
+            Bound::Included(h) => (start, Some(h)),
+            // There are no heights to scan before the first one.
+            Bound::Excluded(0) => (start.max(1), Some(0)),
+            Bound::Excluded(h) => (start, Some(h - 1)),
+        };
+        self.rescan.restart(start, end, watch);
 
         self.outbox.event(Event::FilterRescanStarted {
             start: self.rescan.start,
-- 
2.43.0


From 5869430f834176d04071034aec4130d73cb7bb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:42 +0000
Subject: [PATCH 32/52] fix: end rescans after their last filter, not before it

---
 p2p/src/fsm/cbfmgr.rs        | 49 +++++++++++++++++-------------------
 p2p/src/fsm/cbfmgr/rescan.rs |  7 ++++--
 2 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/p2p/src/fsm/cbfmgr.rs b/p2p/src/fsm/cbfmgr.rs
index 2f2bb34..d6200da 100644
--- a/p2p/src/fsm/cbfmgr.rs
+++ b/p2p/src/fsm/cbfmgr.rs
@@ -344,8 +344,7 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
         if now - self.last_processed.unwrap_or_default() >= DEFAULT_REQUEST_TIMEOUT {
             if self.rescan.active {
                 self.rescan.reset(); // Clear pending request queue.
-                self.get_cfilters(self.rescan.current..=self.filters.height(), tree)
-                    .ok();
+                self.get_cfilters(self.missing(), tree).ok();
             }
         }
     }
@@ -390,29 +389,15 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
             stop: self.rescan.end,
         });
 
-        if self.rescan.watch.is_empty() {
-            return vec![];
-        }
-
-        let height = self.filters.height();
-        let start = self.rescan.start;
-        let stop = self
-            .rescan
-            .end
-            // Don't request further than the filter chain height.
-            .map(|h| Height::min(h, height))
-            .unwrap_or(height);
-        let range = start..=stop;
-
-        if range.is_empty() {
-            return vec![];
-        }
+        let range = self.missing();
 
-        // Start fetching the filters we can.
-        match self.get_cfilters(range, tree) {
-            Ok(()) => {}
-            Err(GetFiltersError::NotConnected) => {}
-            Err(err) => panic!("{}: Error fetching filters: {}", source!(), err),
+        if !self.rescan.watch.is_empty() && !range.is_empty() {
+            // Start fetching the filters we can.
+            match self.get_cfilters(range, tree) {
+                Ok(()) => {}
+                Err(GetFiltersError::NotConnected) => {}
+                Err(err) => panic!("{}: Error fetching filters: {}", source!(), err),
+            }
         }
         // When we reset the rescan range, there is the possibility of getting immediate cache
         // hits from `get_cfilters`. Hence, process the filter queue.
@@ -586,11 +571,23 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
 
         if self.rescan.active {
             // TODO: Don't do this too often.
-            self.get_cfilters(self.rescan.current..=self.filters.height(), tree)
-                .ok();
+            self.get_cfilters(self.missing(), tree).ok();
         }
     }
 
+    /// The range of filters that can be requested, and haven't yet been processed by the rescan.
+    fn missing(&self) -> RangeInclusive<Height> {
+        let height = self.filters.height();
+        let stop = self
+            .rescan
+            .end
+            // Don't request further than the filter chain height.
+            .map(|h| Height::min(h, height))
+            .unwrap_or(height);
+
+        self.rescan.current..=stop
+    }
+
     /// Report the height up to which all filters were processed, and all matching blocks were
     /// received, if there is one.
     fn scanned(&mut self) {
diff --git a/p2p/src/fsm/cbfmgr/rescan.rs b/p2p/src/fsm/cbfmgr/rescan.rs
index f308520..81493b9 100644
--- a/p2p/src/fsm/cbfmgr/rescan.rs
+++ b/p2p/src/fsm/cbfmgr/rescan.rs
@@ -110,7 +110,10 @@ impl Rescan {
         let mut current = self.current;
         let old = current;
 
-        while let Some((filter, block_hash, cached)) = self.received.remove(&current) {
+        while self.end.map_or(true, |stop| current <= stop) {
+            let Some((filter, block_hash, cached)) = self.received.remove(&current) else {
+                break;
+            };
             let (matched, valid) = if let Ok(matched) = self.match_filter(&filter, &block_hash) {
                 (matched, true)
             } else {
@@ -132,7 +135,7 @@ impl Rescan {
         self.current = current;
 
         if let Some(stop) = self.end {
-            if self.current == stop {
+            if self.active && self.current > stop {
                 self.active = false;
                 events.push(Event::FilterRescanStopped { height: stop });
             }
-- 
2.43.0


From fcce8265910e0e77ac7ba8d78665a2ed075addfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:41 +0000
Subject: [PATCH 33/52] fix: don't match filters of blocks that are no longer
 on the active chain

---
 p2p/src/fsm/cbfmgr/rescan.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/p2p/src/fsm/cbfmgr/rescan.rs b/p2p/src/fsm/cbfmgr/rescan.rs
index 81493b9..6c23d99 100644
--- a/p2p/src/fsm/cbfmgr/rescan.rs
+++ b/p2p/src/fsm/cbfmgr/rescan.rs
@@ -83,7 +83,10 @@ impl Rescan {
 
     /// Rollback state to height.
     pub fn rollback(&mut self, to: Height) {
-        self.cache.rollback(to)
+        self.cache.rollback(to);
+        // Filters that haven't been processed yet are for blocks that are no longer on the
+        // active chain.
+        self.received.retain(|height, _| *height <= to);
     }
 
     /// A filter was received.
-- 
2.43.0


From 174aa5324be04e16dec63f8cae25628628cb8a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:18 +0000
Subject: [PATCH 34/52] fix: don't match filters of the old chain while a
 re-org is underway

---
 p2p/src/fsm/cbfmgr.rs        | 4 ++--
 p2p/src/fsm/cbfmgr/rescan.rs | 9 ++++++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/p2p/src/fsm/cbfmgr.rs b/p2p/src/fsm/cbfmgr.rs
index d6200da..8603818 100644
--- a/p2p/src/fsm/cbfmgr.rs
+++ b/p2p/src/fsm/cbfmgr.rs
@@ -401,7 +401,7 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
         }
         // When we reset the rescan range, there is the possibility of getting immediate cache
         // hits from `get_cfilters`. Hence, process the filter queue.
-        let (matches, events, _) = self.rescan.process();
+        let (matches, events, _) = self.rescan.process(tree);
         for event in events {
             self.outbox.event(event);
         }
@@ -855,7 +855,7 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
         });
 
         if self.rescan.received(height, filter, block_hash) {
-            let (matches, events, processed) = self.rescan.process();
+            let (matches, events, processed) = self.rescan.process(tree);
             for event in events {
                 self.outbox.event(event);
             }
diff --git a/p2p/src/fsm/cbfmgr/rescan.rs b/p2p/src/fsm/cbfmgr/rescan.rs
index 6c23d99..9500bc9 100644
--- a/p2p/src/fsm/cbfmgr/rescan.rs
+++ b/p2p/src/fsm/cbfmgr/rescan.rs
@@ -107,7 +107,10 @@ impl Rescan {
     ///
     /// Checks whether any of the queued filters is next in line (by height) and if so,
     /// processes it and returns the result of trying to match it with the watch list.
-    pub fn process(&mut self) -> (Vec<(Height, BlockHash)>, Vec<Event>, Height) {
+    pub fn process<T: BlockReader>(
+        &mut self,
+        tree: &T,
+    ) -> (Vec<(Height, BlockHash)>, Vec<Event>, Height) {
         let mut events = Vec::new();
         let mut matches = Vec::new();
         let mut current = self.current;
@@ -117,6 +120,10 @@ impl Rescan {
             let Some((filter, block_hash, cached)) = self.received.remove(&current) else {
                 break;
             };
+            // The tree may have been re-organized, without us having been told yet.
+            if tree.get_block(&block_hash).is_none() {
+                break;
+            }
             let (matched, valid) = if let Ok(matched) = self.match_filter(&filter, &block_hash) {
                 (matched, true)
             } else {
-- 
2.43.0


From dde9d27cece28726928dc667c736eddd9d525496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:55 +0000
Subject: [PATCH 35/52] fix: report blocks matching cached filters

---
 p2p/src/fsm/cbfmgr.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/p2p/src/fsm/cbfmgr.rs b/p2p/src/fsm/cbfmgr.rs
index 8603818..668c311 100644
--- a/p2p/src/fsm/cbfmgr.rs
+++ b/p2p/src/fsm/cbfmgr.rs
@@ -405,6 +405,11 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
         for event in events {
             self.outbox.event(event);
         }
+        // These blocks have to be reported as matching when they arrive.
+        self.pending_blocks.extend(matches.iter().map(|(h, _)| *h));
+        if self.pending_blocks.is_empty() {
+            self.scanned();
+        }
         matches
     }
 
-- 
2.43.0


From ba537fb3cb8661cb4467b9f0338354bbac02bb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:55 +0000
Subject: [PATCH 36/52] fix: don't panic on requests for filters that aren't
 known yet

---
 p2p/src/fsm/cbfmgr.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/p2p/src/fsm/cbfmgr.rs b/p2p/src/fsm/cbfmgr.rs
index 668c311..05febdc 100644
--- a/p2p/src/fsm/cbfmgr.rs
+++ b/p2p/src/fsm/cbfmgr.rs
@@ -425,10 +425,9 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
         if self.peers.is_empty() {
             return Err(GetFiltersError::NotConnected);
         }
-        if range.is_empty() {
+        if range.is_empty() || *range.end() > self.filters.height() {
             return Err(GetFiltersError::InvalidRange);
         }
-        assert!(*range.end() <= self.filters.height());
 
         // TODO: Only ask peers synced to a certain height.
         // Choose a different peer for each requested range.
-- 
2.43.0


From 10fc04911ad10b89ca9d56bd0ef8d27cbdbeaf02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:15 +0000
Subject: [PATCH 37/52] fix: process cached filters when there are no peers to
 fetch others from

---
 p2p/src/fsm/cbfmgr.rs        |  3 +++
 p2p/src/fsm/cbfmgr/rescan.rs | 26 +++++++++++++++-----------
 2 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/p2p/src/fsm/cbfmgr.rs b/p2p/src/fsm/cbfmgr.rs
index 05febdc..e90c2f1 100644
--- a/p2p/src/fsm/cbfmgr.rs
+++ b/p2p/src/fsm/cbfmgr.rs
@@ -391,6 +391,9 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
 
         let range = self.missing();
 
+        // Cached filters can be processed even if there's no peer to fetch the others from.
+        self.rescan.load(range.clone(), tree);
+
         if !self.rescan.watch.is_empty() && !range.is_empty() {
             // Start fetching the filters we can.
             match self.get_cfilters(range, tree) {
diff --git a/p2p/src/fsm/cbfmgr/rescan.rs b/p2p/src/fsm/cbfmgr/rescan.rs
index 9500bc9..2dce84e 100644
--- a/p2p/src/fsm/cbfmgr/rescan.rs
+++ b/p2p/src/fsm/cbfmgr/rescan.rs
@@ -176,6 +176,20 @@ impl Rescan {
         Ok(matched)
     }
 
+    /// Insert the cached filters of the given range into the processing queue.
+    pub fn load<T: BlockReader>(&mut self, range: RangeInclusive<Height>, tree: &T) {
+        for height in range {
+            if let Some(filter) = self.cache.get(&height) {
+                if let Some(header) = tree.get_block_by_height(height) {
+                    let block_hash = header.block_hash();
+
+                    self.received
+                        .insert(height, (filter.clone(), block_hash, true));
+                }
+            }
+        }
+    }
+
     /// Given a range of filter heights, return the ranges that are missing.
     /// This is useful to figure out which ranges to fetch while ensuring we don't request
     /// the same heights more than once.
@@ -187,17 +201,7 @@ impl Rescan {
         if range.is_empty() {
             return vec![];
         }
-
-        for height in range.clone() {
-            if let Some(filter) = self.cache.get(&height) {
-                if let Some(header) = tree.get_block_by_height(height) {
-                    let block_hash = header.block_hash();
-                    // Insert the cached filters into the processing queue.
-                    self.received
-                        .insert(height, (filter.clone(), block_hash, true));
-                }
-            }
-        }
+        self.load(range.clone(), tree);
 
         // Heights to skip.
         // Note that cached heights will have been added to the `received` list.
-- 
2.43.0


From 5988f3e9ff9e4ea96871e818ea5dff9d6be94698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:59 +0000
Subject: [PATCH 38/52] fix: don't panic on transactions that spend more than
 they have

---
 p2p/src/fsm/fees.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/p2p/src/fsm/fees.rs b/p2p/src/fsm/fees.rs
index 1486076..14064c4 100644
--- a/p2p/src/fsm/fees.rs
+++ b/p2p/src/fsm/fees.rs
@@ -142,8 +142,8 @@ impl FeeEstimator {
     /// Apply the transaction to the UTXO set and calculate the fee rate.
     fn apply(&mut self, tx: &Transaction) -> Option<FeeRate> {
         let txid = tx.txid();
-        let mut received = 0;
-        let mut sent = 0;
+        let mut received: u64 = 0;
+        let mut sent: Option<u64> = Some(0);
 
         // Look for outputs.
         for (vout, output) in tx.output.iter().enumerate() {
@@ -152,7 +152,7 @@ impl FeeEstimator {
                 vout: vout as u32,
             };
             self.utxos.insert(outpoint, output.clone());
-            sent += output.value;
+            sent = sent.and_then(|sent| sent.checked_add(output.value));
         }
         // Since coinbase transactions have no inputs, we only process the outputs.
         if tx.is_coin_base() {
@@ -165,14 +165,13 @@ impl FeeEstimator {
         // the transaction fee. If one is missing, we have to bail.
         for input in tx.input.iter() {
             if let Some(out) = self.utxos.remove(&input.previous_output) {
-                received += out.value;
+                received = received.saturating_add(out.value);
             } else {
                 return None;
             }
         }
-        assert!(received >= sent, "you can't spend what you don't have",);
-
-        let fee = received - sent;
+        // Nb. We don't validate transactions, so it's possible for one to spend more than it has.
+        let fee = received.checked_sub(sent?)?;
         let weight = tx.weight();
         let rate = fee as f64 / (weight as f64 / WITNESS_SCALE_FACTOR as f64);
 
-- 
2.43.0


From 6d19b1bcc807159d34aeca65bc108cf047d4276c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:59 +0000
Subject: [PATCH 39/52] fix: don't match filters with an impossible number of
 elements

---
 p2p/src/fsm/cbfmgr/rescan.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/p2p/src/fsm/cbfmgr/rescan.rs b/p2p/src/fsm/cbfmgr/rescan.rs
index 2dce84e..e0bfd38 100644
--- a/p2p/src/fsm/cbfmgr/rescan.rs
+++ b/p2p/src/fsm/cbfmgr/rescan.rs
@@ -1,10 +1,12 @@
 //! Blockchain (re-)scanning for matching scripts.
 use std::collections::BTreeSet;
+use std::io;
 use std::ops::RangeInclusive;
 use std::rc::Rc;
 
+use nakamoto_common::bitcoin::consensus::encode::deserialize_partial;
 use nakamoto_common::bitcoin::util::bip158;
-use nakamoto_common::bitcoin::{Script, Txid};
+use nakamoto_common::bitcoin::{Script, Txid, VarInt};
 use nakamoto_common::block::filter::BlockFilter;
 use nakamoto_common::block::tree::BlockReader;
 use nakamoto_common::block::{BlockHash, Height};
@@ -162,6 +164,15 @@ impl Rescan {
     ) -> Result<bool, bip158::Error> {
         let mut matched = false;
 
+        // Don't attempt to match filters that claim more elements than they can possibly hold,
+        // as each element takes at least 20 bits.
+        let VarInt(elements) = deserialize_partial(&filter.content)
+            .map(|(n, _)| n)
+            .unwrap_or(VarInt(0));
+        if elements > filter.content.len() as u64 * 8 / 20 {
+            return Err(bip158::Error::Io(io::ErrorKind::InvalidData.into()));
+        }
+
         // Match scripts first, then match transactions. All outputs of a transaction must
         // match to consider the transaction matched.
         if !self.watch.is_empty() {
-- 
2.43.0


From 94a694b9258bc7c4aaa3fdc40678cce9442613f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:59 +0000
Subject: [PATCH 40/52] fix: wait for the peers that are connected, not those
 that once were

---
 client/src/client.rs | 55 +++++++++++++++-----------------------------
 1 file changed, 19 insertions(+), 36 deletions(-)

diff --git a/client/src/client.rs b/client/src/client.rs
index 85c301b..def30d0 100644
--- a/client/src/client.rs
+++ b/client/src/client.rs
@@ -1,6 +1,5 @@
 //! Core nakamoto client functionality. Wraps all the other modules under a unified
 //! interface.
-use std::collections::HashMap;
 use std::env;
 use std::fs;
 use std::io;
@@ -652,43 +651,27 @@ impl<W: Waker> handle::Handle for Handle<W> {
         let events = self.events.subscribe();
         let required_services = required_services.into();
 
-        let negotiated = self.get_peers(required_services)?;
-        if negotiated.len() == count {
-            return Ok(negotiated
-                .into_iter()
-                .map(|p| (p.addr, p.height, p.services))
-                .collect());
-        }
+        let start = time::Instant::now();
 
-        let mut negotiated = negotiated
-            .into_iter()
-            .map(|p| (p.addr, (p.height, p.services)))
-            .collect::<HashMap<_, _>>(); // Get already connected peers.
+        loop {
+            let negotiated = self.get_peers(required_services)?;
+            if negotiated.len() >= count {
+                return Ok(negotiated
+                    .into_iter()
+                    .map(|p| (p.addr, p.height, p.services))
+                    .collect());
+            }
 
-        event::wait(
-            &events,
-            |e| match e {
-                fsm::Event::PeerNegotiated {
-                    addr,
-                    height,
-                    services,
-                    ..
-                } => {
-                    if services.has(required_services) {
-                        negotiated.insert(addr, (height, services));
-                    }
-
-                    if negotiated.len() == count {
-                        Some(negotiated.iter().map(|(a, (h, s))| (*a, *h, *s)).collect())
-                    } else {
-                        None
-                    }
-                }
-                _ => None,
-            },
-            self.timeout,
-        )
-        .map_err(handle::Error::from)
+            // Check again when there is a new peer.
+            event::wait(
+                &events,
+                |e| match e {
+                    fsm::Event::PeerNegotiated { .. } => Some(()),
+                    _ => None,
+                },
+                self.timeout.saturating_sub(start.elapsed()),
+            )?;
+        }
     }
 
     fn wait_for_height(&self, h: Height) -> Result<BlockHash, handle::Error> {
-- 
2.43.0


From 6697b1b3dd5a08c5bd07eaf8b2cbfe2be89faa7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:59 +0000
Subject: [PATCH 41/52] fix: don't miss a height that is reached by importing
 several headers

---
 client/src/client.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/client/src/client.rs b/client/src/client.rs
index def30d0..2bcb969 100644
--- a/client/src/client.rs
+++ b/client/src/client.rs
@@ -682,7 +682,10 @@ impl<W: Waker> handle::Handle for Handle<W> {
             None => event::wait(
                 &events,
                 |e| match e {
-                    Event::BlockHeadersImported { height, hash, .. } if height == h => Some(hash),
+                    Event::BlockHeadersImported { connected, .. } => connected
+                        .iter()
+                        .find(|(height, _)| *height == h)
+                        .map(|(_, header)| header.block_hash()),
                     _ => None,
                 },
                 self.timeout,
-- 
2.43.0


From 5e8b6cd7ff7999984e304870d97b8ea53e9ce2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:06 +0000
Subject: [PATCH 42/52] hook: make the peer address cache public under
 cfg(nkmc)

---
 client/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/client/src/lib.rs b/client/src/lib.rs
index e326948..1916b25 100644
--- a/client/src/lib.rs
+++ b/client/src/lib.rs
@@ -6,7 +6,10 @@ mod client;
 mod error;
 #[allow(hidden_glob_reexports)]
 mod event;
+#[cfg(not(nkmc))]
 mod peer;
+#[cfg(nkmc)]
+pub mod peer;
 mod service;
 
 pub use client::*;
-- 
2.43.0


From 3471ffff168c6cae177f71296b7313c3a8350b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:23 +0000
Subject: [PATCH 43/52] fix: start with an empty address book if saving it was
 interrupted

---
 client/src/peer.rs     | 17 +++++++++++++++--
 common/src/p2p/peer.rs |  2 +-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/client/src/peer.rs b/client/src/peer.rs
index 506071f..bbddbcc 100644
--- a/client/src/peer.rs
+++ b/client/src/peer.rs
@@ -35,8 +35,21 @@ impl Cache {
         })
     }
 
-    /// Create a new cache from a file.
+    /// Create a new cache from a file. If the file is malformed, eg. because saving it was
+    /// interrupted, the cache is empty.
     pub fn from(mut file: fs::File) -> io::Result<Self> {
+        let addrs = match Self::read(&mut file) {
+            Err(err) if err.kind() == io::ErrorKind::InvalidData => {
+                log::warn!(target: "client", "Corruption detected in peer cache, ignoring..");
+                HashMap::new()
+            }
+            result => result?,
+        };
+        Ok(Self { file, addrs })
+    }
+
+    /// Read addresses from a file.
+    fn read(file: &mut fs::File) -> io::Result<HashMap<net::IpAddr, KnownAddress>> {
         use io::Read;
         use microserde::json::Value;
         use std::str::FromStr;
@@ -65,7 +78,7 @@ impl Cache {
             }
         }
 
-        Ok(Self { file, addrs })
+        Ok(addrs)
     }
 }
 
diff --git a/common/src/p2p/peer.rs b/common/src/p2p/peer.rs
index 37bf3ef..f2e0d0d 100644
--- a/common/src/p2p/peer.rs
+++ b/common/src/p2p/peer.rs
@@ -288,7 +288,7 @@ impl KnownAddress {
         };
 
         let addr = match obj.get("address") {
-            Some(Value::String(addr)) => addr.parse().unwrap(),
+            Some(Value::String(addr)) => addr.parse().map_err(|_| serde::Error)?,
             _ => return Err(serde::Error),
         };
         let services = match obj.get("services") {
-- 
2.43.0


From d17151d9a01b6292c754681eed693ce4e6f71dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:28 +0000
Subject: [PATCH 44/52] fix: don't load filter headers past the last block
 header

---
 client/src/client.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/client/src/client.rs b/client/src/client.rs
index 2bcb969..c77edac 100644
--- a/client/src/client.rs
+++ b/client/src/client.rs
@@ -301,7 +301,7 @@ impl<R: Reactor> Client<R> {
 
         let cfheaders_genesis = filter::cache::StoredHeader::genesis(network);
         let cfheaders_path = dir.join("filters.db");
-        let cfheaders_store = match store::File::create(&cfheaders_path, cfheaders_genesis) {
+        let mut cfheaders_store = match store::File::create(&cfheaders_path, cfheaders_genesis) {
             Ok(store) => {
                 log::info!(target: "client", "Initializing new filter header store {:?}", cfheaders_path);
                 store
@@ -320,6 +320,10 @@ impl<R: Reactor> Client<R> {
             }
             Err(err) => return Err(err.into()),
         };
+        if cfheaders_store.height()? > cache.height() {
+            log::warn!(target: "client", "Filter store is ahead of header store, rolling back..");
+            cfheaders_store.rollback(cache.height())?;
+        }
         log::info!(target: "client", "Loading filter headers from store..");
 
         let filters = FilterCache::load_with(cfheaders_store, |height| {
-- 
2.43.0


From a45207c4e6b6da20c5beb2282ac5ec6e9af48122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:06 +0000
Subject: [PATCH 45/52] fix: don't report a failed dial as an established
 connection

---
 net/poll/src/reactor.rs | 8 +++++++-
 net/poll/src/socket.rs  | 5 +++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/net/poll/src/reactor.rs b/net/poll/src/reactor.rs
index 436f606..d5d4b88 100644
--- a/net/poll/src/reactor.rs
+++ b/net/poll/src/reactor.rs
@@ -419,8 +419,14 @@ impl<Id: PeerId> Reactor<net::TcpStream, Id> {
         // that it is ready for writing, once a connection has been established."
         //
         // Since we perform a non-blocking connect, we're only really connected once the socket
-        // is writable.
+        // is writable. Nb. A socket also becomes writable if the connection attempt failed.
         if self.connecting.remove(&addr) {
+            if let Some(err) = socket.take_error()? {
+                trace!("{}: Connection error: {}", socket_addr, err.to_string());
+
+                self.unregister_peer(addr, Disconnect::ConnectionError(Arc::new(err)), service);
+                return Ok(());
+            }
             let local_addr = socket.local_address()?;
 
             service.connected(addr.clone(), &local_addr, socket.link);
diff --git a/net/poll/src/socket.rs b/net/poll/src/socket.rs
index 2347fa5..13e97ce 100644
--- a/net/poll/src/socket.rs
+++ b/net/poll/src/socket.rs
@@ -23,6 +23,11 @@ impl Socket<net::TcpStream> {
         self.raw.local_addr()
     }
 
+    /// Get the pending error on the socket, if any, and clear it.
+    pub fn take_error(&self) -> io::Result<Option<io::Error>> {
+        self.raw.take_error()
+    }
+
     /// Disconnect socket.
     pub fn disconnect(&self) -> io::Result<()> {
         self.raw.shutdown(net::Shutdown::Both)
-- 
2.43.0


From ac68e909688001f0d776d057e04fdaacb52a26b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:02 +0000
Subject: [PATCH 46/52] fix: don't let busy sockets hold up timers

---
 net/poll/src/reactor.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/net/poll/src/reactor.rs b/net/poll/src/reactor.rs
index d5d4b88..84879d3 100644
--- a/net/poll/src/reactor.rs
+++ b/net/poll/src/reactor.rs
@@ -258,18 +258,20 @@ impl<Id: PeerId> nakamoto_net::Reactor<Id> for Reactor<net::TcpStream, Id> {
                         }
                     }
                 }
-                Err(err) if err.kind() == io::ErrorKind::TimedOut => {
-                    // Nb. The way this is currently used basically ignores which keys have
-                    // timed out. So as long as *something* timed out, we wake the service.
-                    self.timeouts.wake(local_time, &mut timeouts);
-
-                    if !timeouts.is_empty() {
-                        timeouts.clear();
-                        service.timer_expired();
-                    }
-                }
+                Err(err) if err.kind() == io::ErrorKind::TimedOut => {}
                 Err(err) => return Err(err.into()),
             }
+            // Nb. Timeouts are checked whether or not there was I/O, as otherwise busy sockets
+            // could hold them up indefinitely.
+            //
+            // The way this is currently used basically ignores which keys have
+            // timed out. So as long as *something* timed out, we wake the service.
+            self.timeouts.wake(local_time, &mut timeouts);
+
+            if !timeouts.is_empty() {
+                timeouts.clear();
+                service.timer_expired();
+            }
             self.process(&mut service, &mut publisher, local_time);
         }
     }
-- 
2.43.0


From 54871d5de63f493f616bfc2d14348c3ffc296e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:05 +0000
Subject: [PATCH 47/52] fix: keep running when a signal interrupts the event
 loop

---
 net/poll/src/reactor.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/net/poll/src/reactor.rs b/net/poll/src/reactor.rs
index 84879d3..a8e483b 100644
--- a/net/poll/src/reactor.rs
+++ b/net/poll/src/reactor.rs
@@ -259,6 +259,9 @@ impl<Id: PeerId> nakamoto_net::Reactor<Id> for Reactor<net::TcpStream, Id> {
                     }
                 }
                 Err(err) if err.kind() == io::ErrorKind::TimedOut => {}
+                Err(err) if err.kind() == io::ErrorKind::Interrupted => {
+                    // A signal was handled while waiting.
+                }
                 Err(err) => return Err(err.into()),
             }
             // Nb. Timeouts are checked whether or not there was I/O, as otherwise busy sockets
-- 
2.43.0


From 8b19055e0bc771fd35832a7acdc812475d76cf35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:54 +0000
Subject: [PATCH 48/52] fix: report the previous connection of a reconnecting
 peer as closed

---
 net/poll/src/reactor.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/net/poll/src/reactor.rs b/net/poll/src/reactor.rs
index a8e483b..247a50c 100644
--- a/net/poll/src/reactor.rs
+++ b/net/poll/src/reactor.rs
@@ -230,6 +230,17 @@ impl<Id: PeerId> nakamoto_net::Reactor<Id> for Reactor<net::TcpStream, Id> {
                                     let local_addr = conn.local_addr()?;
                                     let link = Link::Inbound;
 
+                                    // Nb. The peer may have reset its previous connection, and
+                                    // reconnected from the same address before we noticed.
+                                    if self.peers.contains_key(&addr) {
+                                        self.unregister_peer(
+                                            addr.clone(),
+                                            Disconnect::ConnectionError(Arc::new(io::Error::from(
+                                                io::ErrorKind::ConnectionReset,
+                                            ))),
+                                            &mut service,
+                                        );
+                                    }
                                     self.register_peer(addr.clone(), conn, link);
 
                                     service.connected(addr, &local_addr, link);
-- 
2.43.0


From fe5f1970e90f78ca871afbd15248035a8a0d19fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:19 +0000
Subject: [PATCH 49/52] fix: report dials that fail at once as failed
 connections

---
 p2p/src/fsm/peermgr.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/p2p/src/fsm/peermgr.rs b/p2p/src/fsm/peermgr.rs
index 658243c..0bf7e40 100644
--- a/p2p/src/fsm/peermgr.rs
+++ b/p2p/src/fsm/peermgr.rs
@@ -387,8 +387,10 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
             });
         } else if self.is_connecting(addr) {
             // If we haven't yet established a connection, the disconnect reason
-            // should always be a `ConnectionError`.
-            if let network::Disconnect::ConnectionError(error) = reason {
+            // should always be a `DialError` or a `ConnectionError`.
+            if let network::Disconnect::DialError(error)
+            | network::Disconnect::ConnectionError(error) = reason
+            {
                 self.outbox
                     .event(Event::PeerConnectionFailed { addr: *addr, error });
             }
-- 
2.43.0


From eb01a2b45667afd1e2077665cfadb117cc931d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:42 +0000
Subject: [PATCH 50/52] fix: recognise submitted transactions with outputs that
 filters leave out

---
 p2p/src/fsm/cbfmgr.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/p2p/src/fsm/cbfmgr.rs b/p2p/src/fsm/cbfmgr.rs
index e90c2f1..5a80d6c 100644
--- a/p2p/src/fsm/cbfmgr.rs
+++ b/p2p/src/fsm/cbfmgr.rs
@@ -358,7 +358,13 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
     pub fn watch_transaction(&mut self, tx: &Transaction) {
         self.rescan.transactions.insert(
             tx.txid(),
-            tx.output.iter().map(|o| o.script_pubkey.clone()).collect(),
+            tx.output
+                .iter()
+                .map(|o| &o.script_pubkey)
+                // These are not part of filters.
+                .filter(|s| !s.is_empty() && !s.is_op_return())
+                .cloned()
+                .collect(),
         );
     }
 
-- 
2.43.0


From b351f0eba22a1c5f4a85e035fc7ff17ea595bc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:15 +0000
Subject: [PATCH 51/52] fix: replace submitted transactions that differ in
 their witness only

---
 p2p/src/fsm/invmgr.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/p2p/src/fsm/invmgr.rs b/p2p/src/fsm/invmgr.rs
index 3f286ea..3b84a0e 100644
--- a/p2p/src/fsm/invmgr.rs
+++ b/p2p/src/fsm/invmgr.rs
@@ -524,6 +524,13 @@ impl<C: Clock> InventoryManager<C> {
         let txid = tx.txid();
         let wtxid = tx.wtxid();
 
+        // The same transaction with another witness is replaced: only one of them can confirm.
+        self.mempool
+            .retain(|w, tx| *w == wtxid || tx.txid() != txid);
+        for peer in self.peers.values_mut() {
+            peer.outbox.retain(|w, t| *w == wtxid || *t != txid);
+        }
+
         // Insert transaction into the peer outboxes and keep a local copy for re-broadcasting later.
         self.mempool.insert(wtxid, tx);
 
-- 
2.43.0


From 8a94232322f451d5c4df498738445585d33a6cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:11 +0000
Subject: [PATCH 52/52] fix: refuse blocks that repeat transactions

---
 p2p/src/fsm/invmgr.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/p2p/src/fsm/invmgr.rs b/p2p/src/fsm/invmgr.rs
index 3b84a0e..2d80164 100644
--- a/p2p/src/fsm/invmgr.rs
+++ b/p2p/src/fsm/invmgr.rs
@@ -19,7 +19,7 @@
 //! the [`InventoryManager::timer_expired`] function is called. Confirmed transactions are removed
 //! after they are burried at a certain depth.
 //!
-use std::collections::BTreeMap;
+use std::collections::{BTreeMap, BTreeSet};
 
 use nakamoto_common::bitcoin::network::message::NetworkMessage;
 use nakamoto_common::bitcoin::network::{constants::ServiceFlags, message_blockdata::Inventory};
@@ -404,8 +404,11 @@ impl<C: Clock> InventoryManager<C> {
         let hash = block.block_hash();
 
         // The header of a block says nothing about the transactions that come with it, unless
-        // they are the ones it commits to.
-        if self.remaining.contains_key(&hash) && !block.check_merkle_root() {
+        // they are the ones it commits to. Repeating transactions at the end of a block may leave
+        // its merkle root as it is (CVE-2012-2459), but no block has the same transaction twice.
+        if self.remaining.contains_key(&hash)
+            && (!block.check_merkle_root() || has_duplicates(&block.txdata))
+        {
             self.outbox.event(Event::PeerMisbehaved {
                 addr: *from,
                 reason: "block does not match its merkle root",
@@ -559,6 +562,13 @@ impl<C: Clock> InventoryManager<C> {
     }
 }
 
+/// Check whether a transaction appears more than once.
+fn has_duplicates(transactions: &[Transaction]) -> bool {
+    let mut txids = BTreeSet::new();
+
+    !transactions.iter().all(|tx| txids.insert(tx.txid()))
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0

