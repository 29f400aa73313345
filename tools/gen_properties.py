#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script so that statements stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=mech)))

CACHE="chain/src/block/cache.rs"; TREE="common/src/block/tree.rs"

prop("C01","The active chain is always the most-work valid chain",
 "After any sequence of header imports, in any order and split into any batches, with forks, gaps that are filled later and repeated headers, the active chain is the valid chain with the most cumulative work among all headers received that connect to genesis, and the reported height, tip and total work are those of that chain. When two chains have equal work, every network but mainnet settles on the one whose tip hash is lower regardless of arrival order, and mainnet stays on the chain it already has.",
 ["histories","inputs"],"every tree of headers up to the bound, every arrival order and every batching of it",
 "The quickcheck model test samples random trees and a handful of fixed forks; arrival orders times batchings of even a six-header tree exceed what it samples, and it never mixes difficulties.",
 [CACHE,TREE],"header import, orphan handling, candidate enumeration, work comparison and fork switching")

prop("C02","Only headers that satisfy every consensus rule enter the active chain",
 "A header joins the active chain only if, judged against its own ancestors, its hash meets its declared target, that target is exactly the one the network's difficulty rules require (periodic retarget with its clamp and floor, and the minimum-difficulty exception where the network has it), its timestamp is later than the median of its up to eleven predecessors and not more than two hours ahead of network-adjusted time. Conversely a header that satisfies all of these rules and extends the best chain is accepted.",
 ["inputs","histories"],"every short chain of timestamps, targets and work values around each rule's boundary, on the main branch and on forks",
 "Existing tests validate one real mainnet prefix and a few hand-made headers; rule boundaries on forks, and combinations of retargeting with odd timestamps, are never reached.",
 [CACHE,TREE,"common/src/block.rs","common/src/block/time.rs"],"header validation, median-time-past, difficulty retargeting")

prop("C03","Import results describe exactly how the active chain changed",
 "A successful import that changes the tip reports the new tip with its height, exactly the blocks that were active before and no longer are (highest first), and exactly the blocks that are active now and were not before (lowest first); an import that leaves the active chain as it was reports it unchanged. Replaying the reports in order therefore reconstructs the active chain.",
 ["histories","inputs"],"every sequence of import batches over every small header tree",
 "Tests check single re-orgs with fixed batches; results that depend on several re-orgs inside a single batch are not covered.",
 [CACHE],"aggregation of per-header results into one import result")

prop("C04","Checkpoints are final",
 "A block whose hash differs from the checkpoint at its height never becomes active, and once the active chain has reached a checkpoint no later import, however much work it carries and in whatever order its headers arrived, removes or replaces a block at or below that checkpoint.",
 ["histories","inputs"],"every small header tree, every placement of checkpoints on it, every arrival order",
 "One unit test imports one fork below one checkpoint; forks seeded before the checkpoint is reached are not covered.",
 [CACHE],"checkpoint validation and fork-depth limits")

prop("C05","Chain queries agree with the active chain",
 "Lookups by height and by hash, membership and known-block queries, ranges, full iteration, total work and paths to stale branches always agree with each other and with the active chain. Header location returns the active headers that follow the first locator that is on the active chain, up to the stop hash or the requested maximum, and locators produced for the chain start at the requested height, go strictly backwards with at most exponentially growing gaps, end at the genesis block or the last checkpoint reached, and never go below it.",
 ["histories","inputs"],"every reachable chain state within bounds times every query argument drawn from all known and unknown hashes",
 "Tests compare a few locator lists on a linear chain; queries on states reached through re-orgs are sampled only.",
 [CACHE,TREE,"common/src/block.rs"],"read interface of the block tree, locator generation")

prop("C06","A chain loaded from its store behaves like the one that was saved",
 "When a node is restarted at any point, the chain it loads from its header store is the active chain it had, with the same height, tip, total work, checkpoints and answers to queries, every height is reported once and in order while loading, and loading can be interrupted at any height. From then on headers are imported, compared, reported and rejected exactly as by a node that was never restarted and had received only that chain, including headers of branches it had seen before. Headers stored for another network are refused.",
 ["histories","inputs"],"every small header tree, arrival order and batching with restarts between any two imports; every combination of networks",
 "Tests load a fixed file once and do not import anything afterwards.",
 [CACHE,"chain/src/block/store/io.rs"],"loading the block cache from its store")

prop("S01","The header and filter-header files survive any crash",
 "Whatever sequence of appends and truncations was performed, reading a store back by height, by iteration or after reopening yields exactly the logical sequence written. If a crash leaves the file cut at any byte, opening and healing it yields a prefix of what was being written that still ends at a record boundary, keeps everything that was present before the interrupted append, and the store remains usable.",
 ["crash_points","histories"],"every operation sequence up to the bound and every byte position at which the last operation can be cut",
 "Tests corrupt one file at one offset; they do not enumerate cut positions or histories.",
 ["chain/src/block/store/io.rs","chain/src/block/store/memory.rs","chain/src/filter/store.rs"],"append, truncate, length, iterate and heal on the flat-file store")

prop("S02","A node restarted after a crash reaches a consistent state",
 "After the client stops or its process crashes at any point of syncing, restarting it from the same directory succeeds, its header chain is a prefix-consistent chain it had stored, its filter headers never extend beyond the header chain and all commit to blocks of that chain, and from there it synchronises to its peers' best chain.",
 ["crash_points","histories"],"every intermediate on-disk state of header and filter files during extension and re-org histories",
 "No test restarts a client from an interrupted state.",
 ["client/src/client.rs","chain/src/block/cache.rs","chain/src/filter/cache.rs"],"client loading, healing, header verification and filter header verification")

prop("S03","The peer address file round-trips and survives interruption",
 "Addresses saved by the client are read back equal after a restart, whatever their combination of addresses, services, sources and timestamps. An address file that an interrupted save left in any partial state never prevents the client from starting.",
 ["crash_points","inputs"],"every combination of field values within bounds; every byte position at which a save can be interrupted",
 "One unit test round-trips one record.",
 ["client/src/peer.rs","common/src/p2p/peer.rs"],"JSON peer cache")

prop("F01","Stored filter headers always form one hash-linked chain",
 "Through any sequence of imports of linked filter headers and rollbacks, in memory and after reopening the file, the stored filter headers are exactly those imported and not rolled back, starting from the network's genesis filter; lookups by height, range and tip agree, and rolling back to a height keeps exactly the headers up to it. Verification accepts exactly the stores in which every filter header is the hash-link of its filter hash with its predecessor.",
 ["histories","inputs"],"every operation sequence up to the bound, including single-record corruptions",
 "Unit tests cover one import and one corrupted record.",
 ["chain/src/filter/cache.rs","common/src/block/filter.rs"],"filter header cache and verification")

prop("F02","The filter cache stays within its size limit and never lies",
 "Whatever filters are inserted, in whatever order and with whatever rollbacks, the cache returns for a height either nothing or exactly the filter last stored for it, reports as its size the bytes it holds, never exceeds its configured capacity, and makes room by dropping the lowest heights first.",
 ["histories","configurations"],"every sequence of inserts and rollbacks up to the bound for every small capacity",
 "A quickcheck test samples random histories and checks a subset of these invariants.",
 ["p2p/src/fsm/filter_cache.rs"],"bounded filter cache")

prop("T01","Network-adjusted time is bounded and median-based",
 "Network-adjusted time starts at local time. Whenever the number of samples (our own zero offset included) is odd and at least five, it becomes local time plus the median of the clock offsets, or plain local time if that median is beyond seventy minutes; it therefore never differs from local time by more than seventy minutes. Each distinct peer contributes at most one sample, at most two hundred are kept, and no offset value disturbs this.",
 ["inputs","histories"],"every sequence of samples over boundary-valued offsets and repeated sources",
 "Unit tests use a few sample lists.",
 ["common/src/block/time.rs"],"adjusted clock sampling")

prop("T02","Requested wake-ups are never lost or early",
 "Every timer that is accepted fires exactly once, in time order, as soon as its due time is reached and never before, the wait reported to the event loop never exceeds the earliest pending timer, and a timer is refused only if a pending one lies within the configured granularity of it.",
 ["histories"],"every sequence of registrations and clock advances up to the bound",
 "A quickcheck test samples registration sets with a single drain.",
 ["net/poll/src/time.rs","net/src/time.rs"],"timeout manager")

prop("N01","Message decoding is independent of how bytes are split",
 "However a peer's byte stream is divided into reads and interleaved with other peers', the node decodes the same messages in the same order, each as soon as its last byte is there, and nothing of one connection is carried over into the next. A complete message that cannot be decoded (bad checksum, wrong network, payload too short or meaningless for its type) or an incomplete one larger than the protocol's 4 MB limit gets the peer disconnected, without anything after it being processed and without disturbing other peers. Outgoing messages are written to a peer's connection completely and in order however the transport splits or refuses writes.",
 ["inputs","schedules"],"every split of short message streams into reads, and every pattern of partial writes",
 "Tests feed one stream in one or two splits.",
 ["p2p/src/stream.rs","client/src/service.rs","net/poll/src/socket.rs"],"stream decoder, per-peer inbox, socket write buffer")

prop("N02","The event loop reports every connection, byte, command and timer once",
 "Whatever happens on the network: each dial is reported as attempted and then as connected once the connection is established, or as failed, and each accepted connection is reported once; a connection that is closed by the peer, fails, or is to be closed on request is reported as disconnected exactly once, with the reason, its socket is closed by then and nothing is reported of it afterwards. Bytes received are handed on in order, all of them before an orderly close is reported, and bytes to be written are sent in order and completely as soon as the connection takes them. Commands sent from other threads are handed on once and in order, none is missed. Timers fire when they are due, also while connections are busy, and never before. Time is told before anything else that happens at that time; events are published once and in order; interrupted waits and spurious readiness change nothing, and the loop ends when, and only when, it is told to.",
 ["schedules","fault_sequences"],"every bounded sequence of connection outcomes, traffic, closings, resets, partial writes, commands, delays and signals, in every grouping into waits, with every bounded reaction of the service",
 "Tests cannot control the kernel: the tests of the reactor use real sockets on loopback or none at all.",
 ["net/poll/src/reactor.rs","net/poll/src/socket.rs","net/poll/src/time.rs"],"poll loop, socket write buffer, timeouts, waker")

prop("P01","The handshake admits only acceptable peers, exactly once",
 "A peer is announced as negotiated, and asked for data, pinged or told about transactions, only after its version and its acknowledgement were received in that order; peers below the minimum protocol version, and dialled peers (other than those the user asked for or on a local address) that lack the required services or are more than 2016 blocks behind our chain, are disconnected instead, as is any peer the user's version hook refuses. Each connection is negotiated and reported at most once and our own version and acknowledgement are sent exactly once, whatever the peer repeats; a handshake that does not complete within its timeout is dropped, a connection of the node to itself is detected and dropped, and no field value of a version message disturbs the node.",
 ["schedules","inputs"],"every sequence of handshake messages, repeated and out of order, and timeouts up to the bound for inbound and outbound links",
 "Tests run the handshake in its normal order plus a few single deviations.",
 ["p2p/src/fsm/peermgr.rs"],"peer manager state machine")

prop("P02","Connections stay within limits and required peers are retried",
 "Connections the node opens on its own never exceed its outbound target, not counting peers known to lack the preferred services, and never exceed one and a half times the target in all; it keeps no more inbound peers than its inbound limit and accepts them below it, and never dials an address it is already connected or connecting to. While below target and with unused addresses available it keeps dialling, however many inbound peers there are; with configured (persistent) peers it dials only those, and retries them after every loss, with a delay that doubles with each consecutive failure, up to an hour. Connecting again right after disconnecting works, and the end of every connection and attempt is reported once, as a disconnection or as a failed attempt.",
 ["schedules","configurations"],"every interleaving of connection attempts, successes, failures, disconnects and timers up to the bound",
 "Tests cover fixed scenarios with one or two peers.",
 ["p2p/src/fsm/peermgr.rs","p2p/src/fsm/addrmgr.rs"],"connection maintenance")

prop("P03","Unresponsive peers are detected, responsive ones are kept",
 "Every negotiated peer is pinged when it is negotiated and then two minutes after each answer (up to the granularity of the node's timers), never while an answer is outstanding; a peer that answers each ping with the matching nonce within thirty seconds is never disconnected for inactivity, and one that does not is disconnected at the next timer wake-up, at most a minute later, even if it sends other pongs. Every ping of a negotiated peer is answered with its own nonce, exactly once.",
 ["schedules"],"every interleaving of pings, pongs (matching or not), timer wake-ups and disconnects up to the bound",
 "One test follows one fixed timeline.",
 ["p2p/src/fsm/pingmgr.rs"],"ping manager")

prop("P04","The address book only hands out usable, unbanned addresses",
 "An address the node dials on its own comes from what it was given or learnt, and is not that of a host it is connected to, one it dialled in the last two minutes, one it dialled before without ever completing a handshake, or a host it disconnected for anything but a passing reason. Of the addresses learnt from peers or imported by the user, exactly those that are globally routable (IPv4), offer the required services and none of the antiquated ones, are not the node's own and, if from peers, were active at a known time not over an hour in the future and came in a message of at most 1000, are used, provided their kind (IPv4 or IPv6) is configured. At most 256 addresses per range are kept; peers are told only about addresses in the book, at most 1000 at a time.",
 ["histories","schedules"],"every sequence of address gossip, samples, connection outcomes and time steps up to the bound",
 "Unit tests cover single rules with fixed addresses; quickcheck samples insertions.",
 ["p2p/src/fsm/addrmgr.rs"],"address manager")

prop("P05","Header sync converges to the best chain of honest peers",
 "While a peer the node has dialled answers its header requests and announces its new blocks, then whatever the order of messages, and whatever other peers do (stay silent, disconnect, send invalid, unconnected, known or too many headers, claim heights they do not have, announce blocks that do not exist), the node holds the best chain that peer has at most twenty minutes after the last disturbance, reports itself synced at it if no connected peer claims more, and keeps that peer. The blocks reported as connected and disconnected always add up to the active chain, and synced is reported only with the actual tip and at a height no connected peer exceeds. A peer that sends headers without the work they claim, an invalid header on top of the active chain or more headers than allowed, or stops in the middle of a longer chain, is disconnected; a block announced by its hash and not supplied is asked from up to three other peers in turn; a new tip is announced to inbound peers that are behind.",
 ["schedules","fault_sequences"],"every bounded schedule of deliveries, losses, timeouts, announcements and misbehaviour of an honest and an arbitrary peer, short chains and chains around multiples of the message limit",
 "Simulation tests run random schedules of fixed scenarios.",
 ["p2p/src/fsm/syncmgr.rs","p2p/src/fsm.rs"],"header synchronisation")

prop("P06","Data served to peers is correct and bounded",
 "Requests from negotiated peers are answered only with data of the active chain or transactions we hold. A request for headers gets the active headers after its first known locator (genesis if none is known) up to the stop hash, or the single stop header if it has no locators; one for filter headers gets exactly the range it names, with the filter header before it, provided all of it is on the active chain and held; neither ever exceeds 2000 entries. Each requested transaction that was submitted and is not confirmed is sent once to the peer that asked, under its transaction or witness identifier. Nothing is answered to requests that cannot be met, and no request value disturbs the node.",
 ["inputs","histories"],"every request built from known, stale and unknown hashes and boundary heights in every reachable chain state within bounds",
 "Tests request one or two fixed ranges.",
 ["p2p/src/fsm/syncmgr.rs","p2p/src/fsm/cbfmgr.rs","p2p/src/fsm/invmgr.rs"],"request serving")

prop("P07","Filter headers track the active chain through re-orgs",
 "After any schedule of header imports, re-orgs, filter-header responses (honest, late, duplicated, malformed, unsolicited or from another peer), losses and timeouts, the stored filter headers are those of a prefix of the active chain: they never extend beyond it, they are rolled back with it, and malformed or unasked-for answers are never stored. Each request covers a range of the active chain of at most 2000 headers, none is made before the last checkpoint is reached or to a peer that the node has not dialled or that does not offer filters, a peer answering a live request with an invalid message is disconnected, a peer that answers what it is asked is not, and while such a peer is connected the filter headers reach the tip and are reported in sync, which they are only when they have.",
 ["schedules","histories"],"every bounded interleaving of header and filter-header messages and re-orgs",
 "Tests cover one re-org with one order of messages.",
 ["p2p/src/fsm/cbfmgr.rs","p2p/src/fsm.rs"],"compact-filter header sync and rollback")

prop("P08","Rescans report every matching block, in order, exactly once",
 "For a rescan over a height range, filters are requested and processed for the heights of that range only, once each and in increasing order, every block of the active chain whose filter matches a watched script or all the outputs of a submitted transaction that filters cover is reported as matched with its contents, no other block is, the height reported as scanned is never ahead of what was processed and reported, and a bounded scan ends exactly after its last height while an unbounded one follows the tip. This holds whatever the order in which filters and blocks arrive, with duplicates, invalid filters, timeouts, cached filters, peers coming and going, and re-orgs (from which an unfinished scan resumes at the fork) in between. Requests for filters that are not available are refused.",
 ["schedules","histories"],"every bounded interleaving of filter and block deliveries, re-orgs and timeouts, for every small range and every set of matching heights",
 "Property tests shuffle filters randomly for one rescan; re-orgs are covered by two fixed scenarios.",
 ["p2p/src/fsm/cbfmgr.rs","p2p/src/fsm/cbfmgr/rescan.rs"],"rescan state machine")

prop("P09","Requested blocks are delivered once, in height order",
 "Every requested block of the active chain is eventually reported as processed exactly once as long as a peer that serves blocks answers, with the transactions its header commits to, in increasing height order within the set of requests outstanding together, whatever the order blocks arrive in. Requests go only to peers that serve blocks, are repeated no sooner than every fifteen seconds until answered, and requests that cannot be met (unknown or stale blocks) hold back no other. Blocks nobody asked for, or whose contents do not match their header, are never reported, and the sender of the latter is disconnected.",
 ["schedules"],"every bounded interleaving of block requests, deliveries, duplicates, timeouts and disconnects",
 "Tests shuffle deliveries of one request set randomly.",
 ["p2p/src/fsm/invmgr.rs"],"block download queue")

prop("P10","Submitted transactions are announced until acknowledged or confirmed",
 "A submitted transaction is announced to every connected peer that relays transactions and to no other, now and when new ones connect, is served unaltered to peers that ask for it, is re-announced every minute to peers that have not fetched it, at most three times in a row before such a peer is disconnected, and is reported acknowledged by each peer that fetches it. It is reported confirmed exactly once when a block containing it is processed, with or without its witness data, after which it is neither announced nor served; if that block is reverted within twelve blocks it is reported so and becomes pending again. Submitting it again with other witness data replaces the earlier version.",
 ["schedules"],"every bounded interleaving of submissions, peer connections, requests, timers, blocks and re-orgs",
 "Tests follow single timelines.",
 ["p2p/src/fsm/invmgr.rs"],"transaction inventory")

prop("P11","No peer input can crash or hang the node",
 "No sequence of messages that decodes, from any peer in any connection state, makes the node panic, loop or abort; the worst a peer achieves is its own disconnection: peers that did nothing wrong stay connected, and the node goes on answering them and following the best chain.",
 ["inputs","schedules"],"every sequence up to the bound of messages with boundary-valued fields in every handshake state",
 "Tests send well-formed messages; hostile field values are not enumerated.",
 ["p2p/src/fsm.rs","p2p/src/fsm/cbfmgr.rs","p2p/src/fsm/syncmgr.rs","p2p/src/fsm/peermgr.rs","p2p/src/fsm/addrmgr.rs","p2p/src/fsm/invmgr.rs"],"message dispatch in every sub-protocol")

prop("E01","Fee estimates match the blocks on the active chain",
 "For every processed block the reported low, median and high fee rates are those of the block's transactions whose inputs are all known, and after a rollback within the supported depth (twelve blocks) the estimator behaves as if the rolled-back blocks had never been processed.",
 ["histories"],"every sequence of block processing and rollbacks up to the bound",
 "Two unit tests with fixed histories.",
 ["p2p/src/fsm/fees.rs"],"fee estimator snapshots")

prop("E02","Subscribers see every event, in order, and never stale ones",
 "Every subscriber receives every event published after it subscribed, in publication order, regardless of other subscribers coming and going. Waiting through a handle for a chain height, a number of peers or a connection returns once the condition holds, whatever happens before, during and after the call, and what it returns was true at some instant during the call. Queries return the node's current chain, and calls on a stopped node fail instead of blocking.",
 ["schedules"],"every interleaving of subscriptions, publications and drops up to the bound",
 "Tests use one subscriber.",
 ["net/src/event.rs","client/src/client.rs"],"event broadcast")

prop("E03","What a user ends up with is a function of the chain",
 "A user who starts a rescan and follows the events (keeping each block reported as matched until it is reported as disconnected, and the latest status of a submitted transaction) never holds a relevant block or a confirmation that is not on the node's active chain, holds every relevant block up to a height whenever that height is reported as scanned, and, once honest peers have delivered everything, holds exactly the relevant blocks and the confirmation that the peers' best chain has from the start of the rescan on. This does not depend on the state the node started from, the order in which peers' headers, filter headers, filters and blocks arrive, how the chain grew or was re-organised meanwhile, which peers were lost or slow, or on rescans and watch commands being repeated.",
 ["schedules","histories"],"every interleaving up to the bound of two honest peers' messages, announcements of new and re-organised chains, a loss, a pause and user commands",
 "The client's documentation lists these as properties to test; the tests deliver one order.",
 ["p2p/src/fsm.rs","p2p/src/fsm/syncmgr.rs","p2p/src/fsm/cbfmgr.rs","p2p/src/fsm/cbfmgr/rescan.rs","p2p/src/fsm/invmgr.rs","client/src/event.rs"],"interplay of header sync, filter sync, rescans and block download")

prop("W01","The wallet balance is the sum of its unspent outputs",
 "After any sequence of matched blocks, including repeats, the wallet's unspent outputs are exactly the outputs paying its addresses that no processed transaction spends, each counted once, and the balance is their sum, also after reopening the wallet.",
 ["histories","inputs"],"every sequence of transactions up to the bound over a small set of addresses and outpoints",
 "Unit tests add and remove one output.",
 ["wallet/src/wallet.rs","wallet/src/wallet/db.rs"],"wallet UTXO database")

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P),"properties")
