CLAIMS = {
 "N01": ("deterministic simulation, seeded search: schedules, segmentation, interruptions, delays and loss over all transports; every received message compared with what was sent", "Seeded search, not exhaustive; real transports on a simulated kernel."),
 "N02": ("deterministic simulation, seeded search: sends at and around the limit, unequal limits, hand-made frame announcements; reference model of what may be returned", "Seeded search; limits up to 70,000 bytes."),
 "N03": ("deterministic simulation, seeded search: start orders and delays, refused connections, slow links and name look-ups, many networks and forks; every endpoint identifies itself", "Seeded search; up to 5 parties and 4 networks."),
 "N04": ("deterministic simulation with fault injection: crash (exit or reset), reset links and graceful leave at any message; prefix property of received messages, errors afterwards, survivors undisturbed", "Seeded search; crashes at scheduling points of the simulated kernel."),
 "N05": ("deterministic simulation with fault injection: process end right after flush or drop, full queues, dead peers next to live ones; everything accepted must arrive", "Seeded search; the process keeps running while its data drains where the peer still sends to it."),
 "N06": ("deterministic simulation, virtual time: silent, mute, absent and unreachable peers in eight situations; duration of every call against its configured bound", "Seeded search; bounds allow a small number of timeouts, as the property says."),
 "N09": ("deterministic simulation, seeded search: random traffic from many threads with failures; statistics compared with a recorded ledger", "Seeded search."),
 "N10": ("deterministic simulation, seeded search: drop orders and repeated networks; the simulated kernel lists every remaining thread and socket", "Seeded search; thread and socket inventory is exact."),
 "N11": ("deterministic simulation, seeded search: stalled receivers; bound on the messages ahead, progress of other peers, losslessness after resumption", "Seeded search."),
 "N12": ("deterministic simulation, seeded search: closures meeting each other at rendezvous points under all scheduling policies; result order, exactly-once and panics", "Seeded search."),
 "N07": ("deterministic simulation, seeded search: concurrent sessions with confusable ids in any arrival order, abandoned and repeated set-ups, idle connections in virtual time; every message names its session", "Seeded search; a repeated set-up that meets a left-over connection is a known finding."),
 "N08": ("deterministic simulation with fault injection: silent, partial, garbage, reset and misdirected connections and failing accepts next to well-behaved parties; set-up time bound, sessions must work", "Seeded search; silent connections during static set-up are a known finding."),
 "S01": ("deterministic simulation, seeded search: random programs over field and point operations, 1 to 9 parties, every threshold, forks and batches under seeded schedules and delays; every opened value against plain arithmetic", "Seeded search; programs of up to a few dozen operations."),
 "S02": ("deterministic simulation, seeded search: after the same programs the shares of all parties are collected and interpolated; degree, every subset size and order", "Seeded search; subsets are sampled where there are many."),
 "S03": ("deterministic simulation, seeded search: programs of requests on families of forked states, repeated with one party's entropy changed; consumed pairs recombined, compared and searched for reuse; refills cut at any point", "Seeded search; uniformity is judged by dependence on every party's entropy, not statistically."),
 "S04": ("deterministic simulation with fault injection: crash, reset, hang, partition, lost, shortened, lengthened, empty and undecodable messages at any message of a random program; results right or errors, in bounded time", "Seeded search; messages damaged so that they still decode are outside the semi-honest model."),
 "S05": ("deterministic simulation, seeded search: Poseidon2 variants and Merkle trees over random widths, arities and precomputation under seeded schedules; opened results against the plain code", "Seeded search; state widths 2, 3, 4 and 16."),
 "P01": ("deterministic simulation, seeded search: random constraint systems with own keys, all parties proving on real networks under seeded schedules; equality, verification, rejection of other inputs", "Seeded search; random circuits of up to 700 constraints, BN254 and BLS12-381, both reductions."),
 "P02": ("deterministic simulation, seeded search: random Plonk circuits with own keys, all parties proving on eight networks under seeded schedules; equality, verification, rejection of other inputs", "Seeded search; random circuits of up to 28 gates plus additions."),
 "P03": ("deterministic simulation with controlled randomness: the same run with no, one or all parties' entropy changed; blinding recovered from the proof with the known trapdoor", "Seeded search; of Plonk's blinding values the last two cannot be recovered from a proof and are judged through the commitments that contain them."),
 "P04": ("deterministic simulation with fault injection: crash, reset, hang, partition, lost and damaged messages at any point of Groth16 and Plonk proving, and witnesses of the wrong size; valid proof or error in bounded time", "Seeded search; messages damaged so that they still decode are outside the semi-honest model."),
 "R01": ("deterministic simulation, seeded search: random programs over field, binary, bit and point sharings and their conversions, forks and batches under seeded schedules and delays; every result and every sharing against plain arithmetic", "Seeded search; the garbling dependencies that are not available offline are replaced by stand-ins (wire labels and a mixing function); point sharings with a share at infinity are outside the conversions' stated domain."),
 "R02": ("deterministic simulation, seeded search: programs of requests and operations on families of forked states, repeated with one party's entropy changed; values of the three parties fitted together and searched for reuse", "Seeded search; freshness is judged by equality of values and messages and by dependence on the parties' entropy."),
 "R03": ("deterministic simulation, seeded search: random programs of ring (1 to 512 bits), binary, conversion, cast, garbled-circuit, look-up, sorting, hashing and bridge operations on boundary-heavy inputs under seeded schedules and delays; every result and every sharing against the plain computation", "Seeded search; hash functions given as Bristol circuits and the sparse-table gadgets are not generated; garbling dependencies are stand-ins."),
 "R04": ("deterministic simulation with fault injection: crash, reset, hang, partition, lost, shortened, lengthened and empty messages at any message of a random program; results right or errors, in bounded time", "Seeded search; messages damaged so that they still decode are outside the property."),
 "R05": ("deterministic simulation: random circuits and keys with known trapdoor proved by three simulated parties from every form of replicated shares; verification, equality across parties and the blinding extracted through the trapdoor as oracle", "Seeded search; circuits up to some hundred constraints (Groth16) or 16 gates (Plonk)."),
 "R06": ("deterministic simulation with fault injection: crash, reset, hang, partition, lost, shortened, lengthened and empty messages at any message of a replicated proof, and wrong witness sizes; valid proof or error in bounded time", "Seeded search; messages damaged so that they still decode are outside the semi-honest model."),
 "V01": ("deterministic simulation, seeded search: random circuit programs (functions, branches, loops, components, accelerators, assertions) compiled to the machine's code and run by all parties under seeded schedules and delays; every witness position against an independent interpreter", "Seeded search; programs of up to a few hundred operations within the operations each machine supports; the circom front end itself is not available offline, its code generation is mirrored."),
 "V02": ("deterministic simulation with fault injection: crash, reset, hang, partition, lost, shortened, lengthened and empty messages and unequal configurations; witnesses right or errors, in bounded time", "Seeded search; messages damaged so that they still decode are outside the semi-honest model."),
 "H01": ("deterministic simulation, seeded search: random circuits laid out by the harness proved by 3 replicated or 2 to 7 Shamir parties under seeded schedules and delays, with a reference string of known trapdoor; equality across parties, with the single-party prover and with commitments recomputed from the trapdoor, verification, and blinding compared over runs with changed entropy", "Seeded search; circuits of up to 256 rows; the builder that lays out circuits from Noir programs is not part (its dependencies are not available offline)."),
 "H02": ("deterministic simulation with fault injection: crash, reset, hang, partition, lost, shortened, lengthened and empty messages at any message of an UltraHonk proof; valid proof or error in bounded time", "Seeded search; messages damaged so that they still decode are outside the semi-honest model."),
 "H03": ("deterministic simulation, seeded search: random compiled Noir programs (constraints, logic, ranges, memory, hashes, curve operations, unconstrained functions with branches, loops, calls and stores) solved by three replicated or 2 to 7 Shamir parties under seeded schedules and delays; every witness, sharing, returned and stored value against the generator's own evaluation, which the single-party solver must reproduce too", "Seeded search; programs of up to some tens of opcodes; Noir's own crates (opcode definitions, single-party black boxes, input encoding) are stand-ins, as they are not available offline."),
}
NA = {
 "C01": "pure functions of their input: no schedule, clock, network, entropy or other party for a simulator to control; the readers and writers themselves are in external crates",
 "U01": "pure functions of their input: no schedule, clock, I/O, entropy or other party for a simulator to control",
}
