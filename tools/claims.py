DIRECT = "Exhaustive within the stated bounds on the real implementation through its public API; assumes the small-scope hypothesis."
SIM = DIRECT + " The reactor (sockets, poll loop, clock) is replaced by a deterministic one that processes outputs in the same order and uses the real timer manager."
CLAIMED.update({
 "S01": ("model checking of the real file stores: all operation sequences and all byte positions of a cut, against a reference sequence", DIRECT + " Crash model: the interrupted append leaves any byte prefix of what it would have written."),
 "F01": ("model checking of the real filter header cache: all import/rollback/reopen sequences and single-record corruptions, against a reference sequence", DIRECT),
 "F02": ("model checking of the real filter cache: all insert/rollback sequences for all small capacities, against a reference model", DIRECT),
 "T01": ("model checking of the real adjusted clock: all sample sequences over boundary offsets, against a reference model", DIRECT),
 "T02": ("model checking of the real timeout manager: all registration/clock sequences, against a reference model", DIRECT),
 "E01": ("model checking of the real fee estimator: all processing/rollback sequences, against a reference recomputation", DIRECT),
 "P01": ("model checking of the real protocol state machine: all sequences of handshake messages and delays on one and two connections, against a reference handshake automaton", SIM),
 "P02": ("model checking of the real protocol state machine: all interleavings of dial outcomes, losses, handshakes, user commands, inbound connections and timers, with invariant and bounded-response monitors", SIM),
 "P03": ("model checking of the real protocol state machine: all interleavings of pongs, pings, losses and delays, with invariant and deadline monitors", SIM),
 "P04": ("model checking of the real protocol state machine: all combinations of learnt address attributes and all sequences of gossip, connection outcomes, misbehaviour and delays, against a reference address book", SIM),
 "N01": ("model checking of the real client service, stream decoder and socket: all cuts of short message streams into reads, all read interleavings of two peers, all truncations and corruptions of frames, all patterns of partial writes", DIRECT),
 "N02": ("model checking of the real event loop on a simulated kernel: all sequences of connection outcomes, traffic, closings, partial writes, commands, delays and interruptions, in all groupings into waits, with all reactions of the service, against a reference of what happened to each connection", DIRECT + " The C library's socket, poll and clock functions are replaced by a simulation of their behaviour on Linux; the service is a scripted one."),
 "P05": ("model checking of the real protocol state machine: all schedules of an honest and an arbitrary peer's header messages, losses and timeouts, with the reported chain reconstructed from events and a bounded-convergence check against an independent chain server", SIM),
 "P06": ("model checking of the real protocol state machine: all requests over active, stale and unknown hashes and boundary heights in all small chain states, against an independent server of the same chain", SIM),
 "P07": ("model checking of the real protocol state machine: all schedules of filter-header answers of an honest and an arbitrary peer, re-orgs, losses and timeouts, against the filter headers of the active chain, with a bounded-convergence check", SIM),
 "P08": ("model checking of the real protocol state machine: all rescan bounds, all orders of filters and blocks, and all schedules of answers, invalid and repeated filters, re-orgs, new blocks, new rescans, losses and timeouts, with and without cached filters, against a reference scan of the active chain", SIM),
 "P09": ("model checking of the real protocol state machine: all schedules of block requests, deliveries, forged and unrequested blocks, re-orgs, losses and timeouts, and all delivery orders, against a reference download queue", SIM),
 "P10": ("model checking of the real protocol state machine: all schedules of submissions, requests by peers, connections, confirmations, re-orgs and delays, against a reference announcement queue", SIM),
 "P11": ("model checking of the real protocol state machine: all pairs and triples of messages from an alphabet with boundary values in every field, from a peer in each connection state, with the node idle and busy, checked for panics, loops, lost peers and loss of service", SIM),
 "E02": ("model checking of the real client, handle and event broadcast over a deterministic reactor: all orders of subscribing, leaving, reading and publishing, all placements of chain and peer changes relative to waiting calls, against reference streams and states", DIRECT + " The node acts at the points where a handle call wakes it, and at each duplication of an event that is being delivered."),
 "E03": ("model checking of the whole real protocol state machine with two honest peers: all interleavings of their answers, announcements of growth and re-orgs, a loss, a pause and user commands, against the relevant part of the peers' chain", SIM + " Peers are honest and answer in order."),
 "S02": ("model checking of the real client over its real stores: all short histories of imports, re-orgs and filter headers, with a crash after every byte-range written or file operation of each, restarted on exactly the files left behind", DIRECT + " File operations are recorded at the C library boundary; a crash keeps a prefix of them, so write reordering by a failing disk is not covered."),
 "S03": ("model checking of the real address-book file: all combinations of entry attributes, all histories of saves and loads, and a crash after every byte written of each save, against a reference book", DIRECT + " Reaches the address cache through the cfg(nkmc) hook."),
 "W01": ("model checking of the real wallet loop and database: all ledgers of a few transactions over the wallet's and foreign addresses, all cuts into blocks and all sequences of complete and interrupted scans, against a reference ledger", DIRECT + " The client is a stand-in which delivers blocks in chain order."),
})
