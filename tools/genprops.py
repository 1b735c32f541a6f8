#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": m, "where": w} for m, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

NET = ["mpc-net/src/local.rs", "mpc-net/src/blocking.rs", "mpc-net/src/async_net.rs", "mpc-net/src/tcp.rs",
       "mpc-net/src/tls.rs", "mpc-net/src/quic.rs", "mpc-net/src/tcp_session.rs", "mpc-net/src/tcp_session_blocking.rs"]

prop("N01", "Messages arrive in order, exactly once and intact on every transport",
 "On every transport (in-process channels, TCP, TLS, QUIC, and the blocking and async TCP session networks), each message a party sends to a peer is returned by that peer's receive calls for that sender exactly once, in sending order and byte-for-byte unchanged, including empty messages and messages much larger than any internal buffer. This holds for each ordered pair of parties and each network independently, however the operating system splits, coalesces, delays or interrupts reads and writes, and however traffic of other peers, directions, networks and threads interleaves with it. A receive never returns a message that was not sent.",
 ["schedules", "inputs", "fault_sequences", "configurations"],
 "every message-size sequence, party count, transport, thread interleaving, and every short read/write, interrupted call, delay, datagram loss, duplication and reordering",
 "The tests send one small message per pair over an idle loopback, where a frame is one read and one write; segmentation, interrupted calls, loss, queue-full paths and thread interleavings are never reached.",
 NET, [("length-prefixed framing with partial read/write loops", "mpc-net/src/blocking.rs"), ("pump tasks and length-delimited codec", "mpc-net/src/async_net.rs"), ("bounded channels", "mpc-net/src/local.rs")],
 [("per-peer send and receive queues", "frames accepted but not yet written / read but not yet received", "BlockingChannels, AsyncChannels, LocalNetwork")], ["Network::send / Network::recv return values"])

prop("N02", "The configured frame length limit is enforced on both sides, exactly",
 "With a maximum frame length configured, a send of a message longer than the limit fails without putting anything on the wire, and every message up to and including the limit is delivered. A peer that announces a frame longer than the receiver's limit makes the receive fail with an error; the receiver never returns part of such a frame and never treats its bytes as other messages. Frames that were complete before the offending one are still delivered first, in order.",
 ["inputs", "configurations", "fault_sequences"],
 "every limit, message length around and far beyond it, asymmetric limits at the two ends, and every segmentation of the bytes",
 "One unit test feeds one oversized header to the blocking frame reader; the limit on the send path, the exact boundary, the async transports and mismatching limits under segmentation are untested.",
 NET, [("send-side length check", "mpc-net/src/blocking.rs, mpc-net/src/async_net.rs"), ("header check before buffering", "mpc-net/src/blocking.rs"), ("codec max_frame_length", "mpc-net/src/quic.rs, mpc-net/src/tcp_session.rs")])

prop("N03", "Connection set-up wires every party, network and fork correctly in any order",
 "When all parties of a configuration start, in any order and with any delays, refused first connections, slow links or name-lookup delays, every party's networks are established and each endpoint for peer j on network k is connected to exactly peer j's endpoint for that party on network k. This holds for any number of parties, for several networks set up at once, for parties listed in any order, and for QUIC forks taken in the same order. No two networks or peers are ever cross-wired.",
 ["schedules", "configurations", "fault_sequences"],
 "every start order and delay, number of parties and networks, order of the party list, address form and connection arrival order",
 "The tests start three parties at once on loopback and only check that a message comes through; connections arriving in an order that differs from the accept loop's own order are never produced.",
 ["mpc-net/src/tcp.rs", "mpc-net/src/tls.rs", "mpc-net/src/quic.rs", "mpc-net/src/tcp_session.rs", "mpc-net/src/tcp_session_blocking.rs", "mpc-net/src/config.rs"],
 [("connection header with network index and party id (and direction for TLS)", "mpc-net/src/tcp.rs, mpc-net/src/tls.rs"), ("connect retry loop", "mpc-net/src/tcp.rs"), ("party id over a uni stream, ids over bidi streams", "mpc-net/src/quic.rs")])

prop("N04", "A failed peer yields its complete messages, then an error, never garbage",
 "When a peer process dies or its connection is reset or closed at any point, even in the middle of a message, receives from it return, in order, only messages that were completely sent before the failure, and after those every receive from it fails with an error instead of blocking, panicking or returning partial data. Communication between the surviving parties is unaffected. Sends to the failed peer either succeed or fail with an error, and never block forever or panic.",
 ["crash_points", "schedules", "fault_sequences"],
 "every crash instant (between any two system calls), failure mode (process exit, reset, truncated stream), transport and message history",
 "No test ever kills a peer or resets a connection; only one unit test truncates a byte slice fed to the frame reader.",
 NET, [("error forwarded as the last queue item, then the reader stops", "mpc-net/src/blocking.rs, mpc-net/src/async_net.rs"), ("disconnected channels surface as errors", "mpc-net/src/local.rs")])

prop("N05", "Flush and graceful drop never lose an accepted message",
 "When flush returns success, every message accepted by earlier send calls on that network has been handed to the operating system, so it still reaches a live peer even if the sending process ends right afterwards. When a network is dropped without an explicit flush, including while its send queues are full or the peer is slow, everything it accepted is still delivered to live peers before its connection is closed. A flush that could not hand everything over reports an error.",
 ["schedules", "crash_points", "inputs"],
 "every amount of queued data, reader speed, scheduling of the background writers, and drop or exit instant",
 "The tests never end a party right after its last send: they join all parties, so lost tails are invisible.",
 NET, [("flush marker through the send queue with acknowledgement", "mpc-net/src/blocking.rs, mpc-net/src/async_net.rs"), ("flush in Drop", "mpc-net/src/tcp.rs, mpc-net/src/tls.rs, mpc-net/src/quic.rs, mpc-net/src/tcp_session.rs, mpc-net/src/tcp_session_blocking.rs"), ("shutdown handshake", "mpc-net/src/quic.rs")])

prop("N06", "Configured timeouts bound every blocking network call",
 "With a send/receive timeout configured, a receive from a silent peer fails after about that timeout and not before it, and sends to a peer that stopped reading fail within a bounded number of timeouts instead of blocking forever. With a flush timeout, flush and drop return within a bounded number of flush timeouts even if a peer accepts no data; with a connect timeout (or session set-up timeout), establishment fails within a bounded number of those timeouts if a peer never appears or never answers. A call that times out leaves the process able to continue, and without a configured timeout no call fails merely because a peer is slow.",
 ["fault_sequences", "schedules", "configurations"],
 "every timeout value, transport, and instant at which a peer stalls, goes silent or never appears",
 "No test configures a timeout and then stalls a peer; wall-clock tests could not cover minutes of virtual time.",
 NET + ["mpc-net/src/config.rs"], [("recv_timeout / tokio timeout around queue receives", "mpc-net/src/blocking.rs, mpc-net/src/async_net.rs, mpc-net/src/local.rs"), ("SO_RCVTIMEO on accept, SO_SNDTIMEO on writes", "mpc-net/src/tcp.rs, mpc-net/src/tls.rs"), ("connect timeout loop", "mpc-net/src/tcp.rs"), ("init_session timeout", "mpc-net/src/tcp_session_blocking.rs")])

prop("N07", "Sessions are matched by id and party, isolated from each other, and recoverable",
 "A session network connects exactly the parties that initialised the same session id, whichever side arrives first; concurrent sessions never exchange messages. A session set-up that times out or is abandoned does not disturb other sessions, and a later set-up of that session id by all parties succeeds. Incoming connections nobody picks up are discarded after the idle time, and a set-up that is still legitimately waiting is not.",
 ["schedules", "histories", "fault_sequences"],
 "every arrival order of connections and set-up calls, number of concurrent sessions, abandonment point, retry history and idle time",
 "The tests create sessions whose parties all arrive promptly; abandonment, retries, cleanup and racing arrivals are never exercised.",
 ["mpc-net/src/tcp_session.rs", "mpc-net/src/tcp_session_blocking.rs"],
 [("map of waiting streams and waiters keyed by (session id, party id)", "mpc-net/src/tcp_session.rs, mpc-net/src/tcp_session_blocking.rs"), ("idle cleanup task", "mpc-net/src/tcp_session.rs, mpc-net/src/tcp_session_blocking.rs")])

prop("N08", "A stalled or stray connection cannot block or crash anyone else",
 "A connection that arrives at a party's port but sends nothing, only part of its introduction, or garbage, does not crash the party and does not keep sessions of well-behaved peers from being established or from communicating. The same holds when accepting a connection fails.",
 ["fault_sequences", "schedules"],
 "every stray, stalled, truncated or garbage connection arriving at any point, on every session transport",
 "The tests only ever connect well-behaved parties.",
 ["mpc-net/src/tcp_session.rs", "mpc-net/src/tcp_session_blocking.rs"],
 [("accept loop and stream registration", "mpc-net/src/tcp_session.rs, mpc-net/src/tcp_session_blocking.rs")])

prop("N09", "Connection statistics equal the payload bytes actually sent and received",
 "For every peer, the statistics report exactly the total payload length of the messages accepted for sending to it and of the messages returned from it, independently per network, whatever threads did the sending and receiving and whatever other peers do. Differences between two snapshots are the traffic in between.",
 ["schedules", "histories"],
 "every history of sends and receives by concurrent threads, peers, networks and snapshot instants",
 "No test reads the statistics of the socket transports.",
 NET + ["mpc-net/src/lib.rs"], [("atomic byte counters per peer and direction", "mpc-net/src/blocking.rs, mpc-net/src/async_net.rs, mpc-net/src/local.rs"), ("ConnectionStats and its difference", "mpc-net/src/lib.rs")])

prop("N10", "Dropping networks releases their sockets and background threads",
 "Once all parties have dropped a network, every socket it opened is closed and every background thread or task it started has ended, within bounded time, on every transport. A long-running process that creates and drops networks or sessions repeatedly therefore does not accumulate threads or connections.",
 ["schedules", "histories"],
 "every order and timing in which parties create, use and drop networks and sessions",
 "Test processes exit at once, so leaked threads and sockets are never noticed.",
 ["mpc-net/src/blocking.rs", "mpc-net/src/async_net.rs", "mpc-net/src/tcp.rs", "mpc-net/src/tls.rs", "mpc-net/src/tcp_session.rs", "mpc-net/src/tcp_session_blocking.rs", "mpc-net/src/quic.rs"],
 [("writer and reader loop termination", "mpc-net/src/blocking.rs"), ("cancellation of reader tasks on drop", "mpc-net/src/async_net.rs"), ("runtime owned by the connection handler", "mpc-net/src/quic.rs")])

prop("N11", "Slow receivers exert bounded, lossless back-pressure",
 "While a peer does not receive, a sender can get only a bounded number of messages ahead of it before send blocks, so memory use stays bounded; once the peer receives again, the sender resumes and no message is lost or reordered. A slow or stalled peer does not stop the same party from exchanging messages with other peers, or on other networks, from other threads.",
 ["schedules", "fault_sequences"],
 "every queue fill level, stall instant and length, message size and set of concurrently used peers and networks",
 "The tests never fill a queue.",
 NET, [("bounded queues of 32 frames per peer and direction", "mpc-net/src/blocking.rs, mpc-net/src/async_net.rs, mpc-net/src/local.rs")])

prop("N12", "Joined network closures run concurrently, once each, with results in order",
 "Each of the join helpers (two to eight closures) runs every closure exactly once, all of them concurrently so that closures waiting for each other or for the network make progress, and returns the results in argument order. It returns only after all of them finished, and a panic in any closure is propagated to the caller.",
 ["schedules"],
 "every interleaving of two to eight closures that communicate with each other and with peers",
 "The helpers are only used inside protocol tests with one timing.",
 ["mpc-net/src/lib.rs"], [("scoped threads", "mpc-net/src/lib.rs")])

SH = ["mpc-core/src/protocols/shamir.rs", "mpc-core/src/protocols/shamir/arithmetic.rs", "mpc-core/src/protocols/shamir/pointshare.rs",
      "mpc-core/src/protocols/shamir/poly.rs", "mpc-core/src/protocols/shamir/network.rs", "mpc-core/src/protocols/shamir/rngs.rs",
      "mpc-core/src/protocols/shamir/arithmetic/ops.rs", "mpc-core/src/protocols/shamir/pointshare/ops.rs"]
prop("S01", "Shamir operations compute the plain result for every party count and threshold",
 "For every number of parties n, threshold t with 2t+1 <= n, prime field and curve, and every sequence of Shamir operations on shared and public values (additions, multiplications, vector and batched forms, inverses, square roots, openings, point and scalar-point operations, polynomial evaluation and the like), all parties finish and every opened result equals the same computation on plain values. The result does not depend on message delays, on party scheduling, on the number of worker threads or on how the operations are batched.",
 ["programs", "schedules", "inputs", "configurations"],
 "every program over the operation set, every (n, t), every input including zero, one and minus one, and every schedule of the parties",
 "The tests run each operation once, mostly with three parties and threshold one, with random inputs.",
 SH, [("king-based degree reduction", "mpc-core/src/protocols/shamir/network.rs, mpc-core/src/protocols/shamir/arithmetic.rs"), ("Lagrange interpolation", "mpc-core/src/protocols/shamir.rs")])
prop("S02", "Every Shamir sharing is consistent: any large enough set of parties agrees",
 "After dealing a secret and after every operation that yields a sharing, the shares of all n parties lie on one polynomial of the stated degree t, so that every subset of t+1 parties reconstructs the same value; an input dealt or converted from a public value reconstructs to it. In multi-element results this holds element by element and in order. Reconstruction from any sufficiently large subset, in any order of its members, gives the same value.",
 ["programs", "schedules", "configurations"],
 "every program, (n, t), subset of parties and schedule",
 "The tests always combine the shares of one fixed set of parties, so a share inconsistent at another party or of too high degree goes unnoticed.",
 SH, [("share polynomial and interpolation", "mpc-core/src/protocols/shamir.rs"), ("degree reduction", "mpc-core/src/protocols/shamir/arithmetic.rs")])
prop("S03", "Masking randomness is fresh, matched across parties and used at most once",
 "Each random pair consumed by a Shamir protocol is a sharing of one uniformly random value at both degrees, known to no party, agreed between all parties, and consumed by at most one operation, across refills of the pool, batches of any size, initial preprocessing of any amount and forked states. Hence masked values that parties exchange while multiplying the same secrets repeatedly, in one state or in forks, never repeat and never expose a difference of secrets. Requesting more randomness than is stored never fails, blocks or reuses earlier values.",
 ["programs", "schedules", "histories", "configurations"],
 "every sequence of operation sizes, preprocessing amounts, refills and forks, for every (n, t)",
 "Reuse of a mask leaves all results correct, so no functional test can see it.",
 ["mpc-core/src/protocols/shamir/rngs.rs", "mpc-core/src/protocols/shamir.rs"], [("pool of random pairs with refill", "mpc-core/src/protocols/shamir/rngs.rs"), ("fork of the state and its generators", "mpc-core/src/protocols/shamir.rs")],
 [("pool of (degree-t, degree-2t) pairs", "unused correlated randomness", "mpc-core/src/protocols/shamir/rngs.rs")])
prop("S04", "A failing party makes Shamir protocols fail cleanly, never wrongly",
 "If a party crashes, is cut off or its messages stop at any point of set-up or of an operation, every other party either finishes with the correct result or returns an error in bounded time (given network timeouts or a closed connection); no party returns a wrong value, panics or hangs. A peer message of the wrong length or that does not decode makes the receiving operation fail with an error rather than yield a truncated or wrong result.",
 ["crash_points", "fault_sequences", "schedules"],
 "every crash point, lost or malformed message, operation and (n, t)",
 "No test injects a network failure into a protocol.",
 SH, [("error propagation from the network", "mpc-core/src/protocols/shamir/network.rs"), ("deserialisation checks", "mpc-core/src/protocols/shamir/network.rs")])
prop("S05", "Shared Poseidon2 and Merkle tree gadgets equal their plain versions",
 "For every state width, field element vector and party configuration, the secret-shared Poseidon2 permutation (with or without precomputed randomness, single or packed, in place or not) and the secret-shared Merkle root and compression/sponge computations give, when opened, exactly the plain result, under any schedule. Precomputed material is consumed in step by all parties and is not used twice.",
 ["inputs", "schedules", "configurations"],
 "every width, input, batch count, tree size and arity, (n, t) and schedule",
 "The tests use one configuration per width with three parties.",
 ["mpc-core/src/gadgets/poseidon2/shamir.rs", "mpc-core/src/gadgets/poseidon2/poseidon2_permutation.rs", "mpc-core/src/gadgets/merkle_tree/shamir.rs", "mpc-core/src/gadgets/merkle_tree/plain.rs"],
 [("precomputed S-box randomness", "mpc-core/src/gadgets/poseidon2/shamir.rs")])

PR = ["co-circom/co-groth16/src/groth16.rs", "co-circom/co-groth16/src/mpc.rs", "co-circom/co-groth16/src/mpc/shamir.rs"]
PL = ["co-circom/co-plonk/src/lib.rs", "co-circom/co-plonk/src/round1.rs", "co-circom/co-plonk/src/round2.rs", "co-circom/co-plonk/src/round3.rs", "co-circom/co-plonk/src/round4.rs", "co-circom/co-plonk/src/round5.rs", "co-circom/co-plonk/src/mpc/shamir.rs"]
prop("P01", "Collaborative Groth16: all parties output one proof, and it verifies",
 "For every satisfying witness, party count and threshold, all parties of a collaborative Groth16 run finish with the identical proof, and that proof verifies against the circuit's verifying key and exactly the public inputs of that witness, and against no other public inputs. This holds under every message delay, scheduling of the parties and their parallel sub-protocols, and number of worker threads.",
 ["schedules", "inputs", "configurations"],
 "every witness, circuit, (n, t), delay pattern and interleaving of the concurrent sub-protocols",
 "The tests run one witness per circuit with three parties over in-process channels at full speed.",
 PR, [("two networks used by concurrent sub-protocols", "co-circom/co-groth16/src/groth16.rs"), ("joint opening of proof elements", "co-circom/co-groth16/src/mpc/shamir.rs")])
prop("P02", "Collaborative Plonk: all parties output one proof, and it verifies",
 "For every satisfying witness, party count and threshold, all parties of a collaborative Plonk run finish with the identical proof, and that proof verifies against the circuit's verifying key and exactly the public inputs of that witness. This holds under every message delay, scheduling of the parties and their parallel sub-protocols, and number of worker threads.",
 ["schedules", "inputs", "configurations"],
 "every witness, circuit, (n, t), delay pattern and interleaving of the eight concurrent networks",
 "The tests run one witness per circuit with three parties over in-process channels at full speed.",
 PL, [("eight networks used by concurrent sub-protocols", "co-circom/co-plonk/src/lib.rs"), ("transcript derived from jointly opened commitments", "co-circom/co-plonk/src/round1.rs")])
prop("P03", "Proof blinding is fresh and jointly random in every run",
 "Two runs of a collaborative prover on the same witness, or the same run with only one party's randomness changed, yield different proofs in every blinded element, and both verify. No blinding value is zero, constant, chosen by a single party or reused within a proof.",
 ["histories", "schedules"],
 "every pair of runs, party whose randomness changes, witness and (n, t)",
 "Proofs verify just as well without blinding, so the tests cannot see its loss.",
 PR + PL, [("random shares for r and s", "co-circom/co-groth16/src/groth16.rs"), ("random blinders b_1..b_11", "co-circom/co-plonk/src/round1.rs")])
prop("P04", "A failing party makes collaborative proving fail cleanly, never wrongly",
 "If a party crashes, is cut off or stalls at any point of a collaborative Groth16 or Plonk run, every other party either outputs a proof that verifies or returns an error in bounded time; no party outputs an invalid proof, panics or hangs. A witness of the wrong size is rejected by its holder with an error, and no party outputs an invalid proof for it.",
 ["crash_points", "fault_sequences", "schedules"],
 "every crash point and failure mode on any of the networks, proof system, and (n, t)",
 "No test injects a failure into a proving run.",
 PR + PL, [("error propagation through joined closures", "co-circom/co-groth16/src/groth16.rs, co-circom/co-plonk/src/lib.rs")])

R3 = ["mpc-core/src/protocols/rep3/arithmetic.rs", "mpc-core/src/protocols/rep3/binary.rs", "mpc-core/src/protocols/rep3/conversion.rs", "mpc-core/src/protocols/rep3/pointshare.rs", "mpc-core/src/protocols/rep3/poly.rs", "mpc-core/src/protocols/rep3/network.rs", "mpc-core/src/protocols/rep3/rngs.rs", "mpc-core/src/protocols/rep3/detail.rs"]
prop("R01", "Replicated three-party operations compute the plain result",
 "For every sequence of replicated three-party operations on field, binary and curve-point sharings (linear, multiplicative, vector, comparison, bit and share-type conversion operations), all parties finish, every opened result equals the plain computation, and every intermediate sharing is replicated consistently: the component a party holds for its neighbour equals the neighbour's own. This holds under every message delay and scheduling of the parties.",
 ["programs", "schedules", "inputs"],
 "every program over the operation set, every input including boundary values, and every schedule",
 "The tests run each operation once on random inputs and open from a fixed pair of components.",
 R3, [("additive masking with correlated generators and resharing to the neighbour", "mpc-core/src/protocols/rep3/network.rs, mpc-core/src/protocols/rep3/rngs.rs")])
prop("R02", "Replicated three-party correlated randomness stays in step and is never reused",
 "The pairwise generators of the three parties stay in step through every operation, batch and fork, so masks always cancel and values meant to be common to all parties are equal; forks and repeated operations never reuse a mask. Masked values exchanged while repeating the same operation on the same secrets therefore never repeat.",
 ["programs", "histories", "schedules"],
 "every sequence of operations, batch sizes and forks, sequential or concurrent",
 "Reused masks leave results correct; desynchronisation needs sequences the tests do not run.",
 ["mpc-core/src/protocols/rep3/rngs.rs", "mpc-core/src/protocols/rep3.rs"], [("pairwise seeded generators and fork", "mpc-core/src/protocols/rep3/rngs.rs")])
prop("R03", "Ring, garbled-circuit and conversion gadgets equal their plain versions",
 "Three-party ring arithmetic and binary operations, garbled-circuit conversions and gadgets (decomposition, comparison, division, sorting, table look-up), and the bridge from replicated to Shamir sharings give, when opened, exactly the plain result for every input, width and schedule.",
 ["inputs", "schedules", "configurations"],
 "every input, width, batch size and schedule",
 "The tests sample random inputs once per gadget.",
 ["mpc-core/src/protocols/rep3_ring", "mpc-core/src/protocols/rep3/yao", "mpc-core/src/protocols/bridges/rep3_to_shamir.rs"], [("garbler/evaluator pair over the network", "mpc-core/src/protocols/rep3/yao/garbler.rs, mpc-core/src/protocols/rep3/yao/evaluator.rs")])
prop("R04", "A failing party makes replicated protocols fail cleanly, never wrongly",
 "If a party crashes, is cut off or its messages stop at any point of set-up or of an operation of the replicated three-party protocols, every other party either finishes with the correct result or returns an error in bounded time (given network timeouts or a closed connection); no party returns a wrong value, panics or hangs. A peer message of the wrong length makes the receiving operation fail with an error rather than yield a truncated or wrong result.",
 ["crash_points", "fault_sequences", "schedules"],
 "every crash point, lost or malformed message, and operation",
 "No test injects a network failure into a protocol.",
 R3, [("error propagation and length checks", "mpc-core/src/protocols/rep3/network.rs")])
prop("R05", "Replicated provers output one valid, freshly blinded proof",
 "For every circuit, witness, way of handing the shares out (plain, halved, seeded, both, out of a batch; written to a file and read back) and schedule, the replicated collaborative Groth16 and Plonk provers, the Groth16 prover through the Shamir bridge and the Shamir provers on a witness translated from replicated shares all give every party the same proof, which verifies against exactly the statement's public inputs; its blinding is fresh, non-zero and needs no particular party's randomness.",
 ["inputs", "schedules", "configurations"],
 "every circuit, witness, sharing and interleaving of three parties",
 "The tests prove a few fixed circuits on one schedule and never look at the blinding or at compressed shares.",
 ["co-circom/co-groth16/src/groth16.rs", "co-circom/co-plonk/src/lib.rs", "co-circom/co-circom-types/src/lib.rs"], [("replicated prover drivers", "co-circom/co-groth16/src/mpc/rep3.rs, co-circom/co-plonk/src/mpc/rep3.rs"), ("uncompress and translate", "co-circom/co-circom/src/lib.rs")])
prop("R06", "A failing party or wrong sizes make replicated proving fail cleanly",
 "If a party crashes, is cut off, its messages stop or have the wrong length at any point of a replicated (or bridged, or translated) collaborative proof or of expanding and translating its witness, or if parties bring public inputs or witness shares of the wrong number, every other party either outputs the correct valid proof or returns an error in bounded time; no party outputs an invalid proof, panics or hangs.",
 ["crash_points", "fault_sequences", "schedules", "inputs"],
 "every crash point, lost or malformed message and wrong witness size",
 "No test injects a failure into a proof.",
 ["co-circom/co-groth16/src/groth16.rs", "co-circom/co-plonk/src/lib.rs", "co-circom/co-circom/src/lib.rs"], [("witness size checks", "co-circom/co-groth16/src/groth16.rs, co-circom/co-plonk/src/lib.rs")])
prop("V01", "Collaborative witness extension equals plain witness generation",
 "Running a circuit's witness extension collaboratively (three-party replicated, Shamir, or replicated in batches) yields, for every program, input sharing and schedule, shares of exactly the witness the program's meaning gives, with the public part open and equal at every party; secret branches behave like branches, failing assertions are reported and assertions in branches not taken are not.",
 ["inputs", "schedules", "configurations"],
 "every program, input, split into public and secret inputs, machine configuration and schedule",
 "The tests compare a fixed set of circuits.",
 ["co-circom/circom-mpc-vm"], [("parties over the network", "mpc-core/src/protocols")])
prop("V02", "A failing or disagreeing party makes witness extension fail cleanly",
 "When a party fails in the middle of a collaborative witness extension, or its machine is configured differently from its neighbour's, no party finishes with a wrong witness: each one either finishes with a correct witness or returns an error within a bounded time.",
 ["faults", "schedules", "configurations"],
 "every program, fault point and kind of fault",
 "No test makes a party fail or disagree.",
 ["co-circom/circom-mpc-vm/src/mpc_vm.rs", "co-circom/circom-mpc-vm/src/mpc"], [("crash, hang, damaged messages", "mpc-net/src")])
prop("C01", "Key, witness, proof and configuration files round-trip",
 "Every proof, witness share, public input, verifying key and network configuration that is written is read back as the same value, in the formats snarkjs and circom use; malformed files are rejected.",
 ["inputs"], "every value and every malformed file",
 "The tests use a fixed set of files.",
 ["co-circom/co-circom-types/src/lib.rs", "mpc-net/src/config.rs", "mpc-core/src/serde_compat.rs"], [("serde implementations", "co-circom/co-circom-types/src/lib.rs")])
prop("U01", "Plain big-integer, bit and ring arithmetic helpers are correct",
 "The local integer, bit and ring element types agree with mathematical arithmetic modulo their width for every operation and input.",
 ["inputs"], "every operand pair and operation", "The tests sample operands.",
 ["mpc-core/src/uint", "mpc-core/src/protocols/rep3_ring/ring"], [("integer wrappers", "mpc-core/src/uint/ruint_wrapper.rs")])
prop("H01", "Collaborative UltraHonk gives all parties one valid, blinded proof",
 "For every circuit (every gate kind, lookups, read-only and read-write memory with public or secret access types, copy constraints), witness, transcript hash and schedule, the replicated and the Shamir collaborative UltraHonk provers give every party the same proof and the circuit's public inputs; the proof verifies against exactly those; without zero knowledge it is the proof the single-party prover gives, which verifies too; with zero knowledge every committed witness polynomial is blinded, freshly and without needing one particular party's randomness.",
 ["inputs", "schedules", "configurations"], "every circuit, witness, number of parties and threshold, and interleaving",
 "The tests prove a fixed list of Noir programs on one schedule, need crates that are not in the sandbox and never look at the blinding.",
 ["co-noir/co-ultrahonk/src", "co-noir/co-noir-common/src", "co-noir/ultrahonk/src"], [("collaborative prover", "co-noir/co-ultrahonk/src/co_oink/co_oink_prover.rs, co-noir/co-ultrahonk/src/co_decider"), ("drivers", "co-noir/co-noir-common/src/mpc")])
prop("H02", "A failing party makes collaborative UltraHonk proving fail cleanly",
 "If a party crashes, is cut off, its messages stop or have the wrong length at any point of a collaborative UltraHonk proof, every other party either outputs the correct valid proof or returns an error in bounded time (given network timeouts or a closed connection); no party outputs an invalid proof, panics or hangs.",
 ["crash_points", "fault_sequences", "schedules"], "every crash point and lost or malformed message",
 "No test injects a failure into a proof.",
 ["co-noir/co-ultrahonk/src", "co-noir/co-noir-common/src/mpc"], [("error propagation", "co-noir/co-noir-common/src/mpc/rep3.rs, co-noir/co-noir-common/src/mpc/shamir.rs")])
prop("H03", "Collaborative Noir witness generation equals plain witness generation",
 "For every compiled Noir program, split of the inputs into public and secret, and schedule, the replicated and (for the operations it supports) the Shamir solver give the parties consistent shares of exactly the witness the single-party solver computes: constraints, logic, ranges, memory, hashes, curve operations and unconstrained functions with public or secret branches and predicates. Returned values are opened, stored values are the stored ones, and nothing that depends on secret inputs becomes public otherwise.",
 ["programs", "inputs", "schedules", "configurations"], "every program, input, split of the inputs, number of parties and interleaving",
 "The tests run a fixed list of programs, mostly alone in the clear, and need crates that are not in the sandbox.",
 ["co-noir/co-acvm/src", "co-noir/co-brillig/src"], [("collaborative solver", "co-noir/co-acvm/src/solver.rs, co-noir/co-acvm/src/mpc"), ("unconstrained functions", "co-noir/co-brillig/src/brillig_vm.rs, co-noir/co-brillig/src/mpc")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
