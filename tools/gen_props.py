#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

LT = ["lt/encoder.go", "iblt/encoder.go", "ldpc/encoder.go"]
LTD = ["lt/decoder.go", "iblt/decoder.go", "ldpc/decoder.go"]

prop("C01", "Codewords are exact XORs of distinct transactions of the coding window",
 "Every codeword an LT encoder (lt, iblt, ldpc) produces combines pairwise distinct transactions of its current coding window: exactly as many as the drawn degree, or the whole window when the degree is larger. Its payload is the XOR of exactly those transactions' data and its header lists exactly their keyed short hashes; every subset of that size can be the one selected (in lt and iblt all are equally likely), whatever was produced before. Producing a codeword never changes the content or the order of the coding window.",
 ["inputs", "histories", "configurations"],
 "every window size, degree (below, at and above the window), outcome of the random source, and history of additions, evictions, resets and earlier codewords",
 "Tests draw a few seeded codewords from one window of fixed size; they cannot enumerate every outcome of the random source nor histories mixing production with eviction, and ldpc's tests do not compile.",
 LT, [("sampling without replacement and shuffle undo", "lt/encoder.go produceCodeword, iblt/encoder.go produceCodeword"), ("reservoir sampling", "ldpc/encoder.go produceCodeword")],
 ["the codeword returned by the encoder", "what a decoder primed with all other members recovers from it"],
 [("coding window", "transactions eligible for codewords, oldest first", "lt/encoder.go Encoder")])

prop("C02", "The coding window is the latest W distinct transactions, first in first out",
 "At any time the encoder's coding window is exactly the most recent W accepted transactions in arrival order. A transaction is refused exactly when it is currently in the window, becomes acceptable again as soon as it has been evicted, and refusing it changes nothing; resetting the encoder with a new window size makes it behave like a newly created one.",
 ["histories", "configurations"],
 "every sequence of additions (new, repeated, previously evicted), productions and resets with growing, shrinking and zero window sizes",
 "Tests add one fixed list of transactions once; eviction followed by re-adding, and resets between, are not covered.",
 LT, [("window slice and its hash index evicted together", "lt/encoder.go AddTransaction / Reset, same in iblt and ldpc")],
 ["result of adding a transaction", "header and payload of a codeword of full degree", "set of single-transaction codewords"])

prop("C03", "LT decoders output only genuine transactions, each at most once while remembered",
 "Whatever codewords and transactions an LT decoder (lt, iblt, ldpc) is fed, in whatever order and multiplicity, every transaction it outputs is bit-for-bit one that a sender encoded, was not already known to the decoder (still remembered, received directly or decoded before), and is output once. A transaction handed to the decoder directly is never reported back as decoded.",
 ["histories", "inputs"],
 "every sequence of codewords over every subset of the transactions, duplicated, reordered or stale codewords from several senders, interleaved with direct additions",
 "Tests decode one seeded stream once and check only that everything arrived; they never check that nothing else did, nor interleave local additions.",
 LTD, [("hash check before accepting a peeled symbol", "lt/decoder.go decodeCodewords"), ("peeling", "lt/decoder.go peelTransaction / markDecoded")],
 ["transactions returned when a codeword or a transaction is added"])

prop("C04", "LT decoding recovers exactly what peeling can, whatever the arrival order",
 "After every step an LT decoder with enough memory knows exactly the transactions that exhaustive peeling of everything received so far determines, and it outputs each of them in the very step that makes it determined; the final set does not depend on arrival order. A received codeword reports itself decoded exactly when all transactions it combines are known.",
 ["histories", "schedules"],
 "every set of codewords over up to a bounded number of transactions, every arrival order, every interleaving with directly added transactions, long peeling chains included",
 "Existing tests stop when one seeded stream has been decoded; late, out-of-order or minimal sets of codewords and the decoded flag of individual codewords are not exercised.",
 LTD, [("blocking lists and ripple queue", "lt/decoder.go markDecoded / decodeCodewords"), ("peeling of known members on arrival", "lt/decoder.go AddCodeword")],
 ["transactions returned by each step", "decoded status of each pending codeword", "HasDecoded"],
 [("pending transactions", "transactions referenced by undecoded codewords", "lt/decoder.go Decoder")])

prop("C05", "A decoder with bounded memory forgets exactly all but its latest M transactions",
 "As long as no two transactions share a keyed short hash, a decoder created with memory M remembers exactly the last M distinct transactions it learned (decoded or added); learning one more forgets the oldest only. A remembered transaction peels codewords and is never output again, a forgotten one is treated as never seen: it can be decoded, reported and learned again, and forgetting never invalidates codewords that are still pending.",
 ["histories", "configurations"],
 "every sequence of codewords and direct additions with every memory size from zero up to more than the number of transactions",
 "Tests use a memory that is never exceeded, so no eviction ever happens in them.",
 LTD, [("recency list and eviction", "lt/decoder.go storeNewTransaction; ldpc/decoder.go storeNewTransaction")],
 ["HasDecoded", "transactions returned by each step"])

prop("C06", "Short-hash conflicts and corrupt codewords are contained",
 "Two transactions sharing a keyed short hash, or a codeword whose content does not match its header, can cost that codeword or the conflicting transaction only: the decoder does not crash or hang, never outputs a transaction whose hash does not match the header it came from, reports the spoiled codeword as finished, and later codewords over other transactions decode as if the conflict had not happened. The encoder refuses a transaction whose short hash is already in its window.",
 ["inputs", "histories", "fault_sequences"],
 "every sequence of codewords and additions over an alphabet with genuinely colliding short hashes and with payloads that do not match their header",
 "No test contains a collision: one has about one chance in four billion per pair, so they can only be reached by constructing them.",
 LTD + LT, [("hash comparison and failToDecode", "lt/decoder.go decodeCodewords / failToDecode"), ("conflicting direct additions", "lt/decoder.go AddTransaction")],
 ["returned transactions", "decoded status of codewords", "panics"])

prop("C07", "Timing out codewords never changes what an ldpc decoder learns",
 "Releasing any received codeword at any time, once, leaves what this and every other decoder decodes, remembers and reports unchanged. A decoded transaction is marked expired exactly when the codeword it was extracted from had been released before.",
 ["histories", "schedules"],
 "every interleaving of receiving codewords, adding transactions and releasing codewords on one or two decoders that share recycled objects",
 "ldpc's own tests do not compile and no test releases a codeword; the recycling pools make the effect show up only in later, unrelated codewords.",
 ["ldpc/decoder.go", "node/receiver.go"], [("deferred release and object pools", "ldpc/decoder.go Free / decodeCodewords / pendingCodewordPool / pendingTransactionPool")],
 ["returned transactions and their expired mark", "decoded status of unreleased codewords"])

prop("C08", "Codecs never modify or share data that belongs to the caller",
 "No operation of any codec (lt, iblt, ldpc, riblt) modifies a symbol, transaction, codeword or coded symbol it was handed or has already returned: the same object can be used again afterwards, by another encoder, decoder or sketch, with the same result. Modifying a symbol that is backed by a pointer after it was wrapped as a transaction does not disturb the codec. (Lists of recovered symbols are views, valid until the decoder is reset; the sketch that another is subtracted from is updated in place.)",
 ["histories", "inputs"],
 "every short sequence of operations on two encoders and two decoders sharing the same transactions, codewords and coded symbols, for value and pointer symbol types",
 "Tests use every object in one place only; aliasing shows only when an object is reused after an operation.",
 ["lt/transaction.go", "lt/encoder.go", "lt/decoder.go", "iblt/decoder.go", "ldpc/encoder.go", "riblt/decoder.go", "riblt/encoder.go", "riblt/sketch.go"],
 [("duplicate before XOR", "lt/transaction.go NewTransaction; riblt/decoder.go TryDecode")],
 ["bytes of all objects after each operation", "results of a second use"])

prop("C09", "Independent codec instances can be used concurrently",
 "Encoders and decoders that share no objects behave, under every interleaving of goroutines each using its own instances, exactly as when each runs alone. The overlap simulations of the microbenchmarks, which rely on this, therefore return the same result under every schedule.",
 ["schedules"],
 "every interleaving, at statement granularity and up to a preemption bound, of goroutines using separate instances of lt, iblt, ldpc and riblt",
 "Tests are single-threaded; a shared scratch buffer or pooled object used after return would go unnoticed.",
 ["lt/encoder.go", "lt/decoder.go", "ldpc/encoder.go", "ldpc/decoder.go", "ldpc/transaction.go", "riblt/encoder.go", "riblt/decoder.go", "microbenchmarks/onesender.go"],
 [("state is per instance", "lt/decoder.go Decoder; lt/encoder.go Encoder"), ("pools hand out exclusive objects", "ldpc/decoder.go pools, ldpc/transaction.go hasherPool")],
 ["results of every call in each goroutine"])

prop("C10", "Rateless IBLT completion means the exact set difference",
 "When a rateless IBLT decoder that was given all of its own symbols and at least one coded symbol of the other side reports completion, the symbols it lists as remote are exactly those only the sender has and those listed as local exactly those only the receiver has, each once, with intact content and hash. Reconciliation of any two sets completes after finitely many coded symbols, and later coded symbols do not change the result.",
 ["inputs", "schedules"],
 "every pair of sets over a universe of symbols, sizes including empty and equal sets, decoding attempted after any subset of the received coded symbols",
 "Existing tests reconcile one pair of large sets attempting to decode after every symbol; small, lopsided, equal and empty differences and other decoding schedules are not covered.",
 ["riblt/decoder.go", "riblt/encoder.go", "riblt/random.go"],
 [("purity test by checksum and pending count", "riblt/decoder.go TryDecode / AddCodedSymbol"), ("peeling of symbols into earlier and later cells", "riblt/decoder.go applyNewSymbol")],
 ["Decoded", "Remote", "Local"],
 [("pending", "number of received coded symbols not yet fully explained", "riblt/decoder.go Decoder")])

prop("C11", "Rateless IBLT decoding peels everything it can, however calls are scheduled",
 "After each decoding attempt the recovered symbols are exactly those that exhaustive peeling of all coded symbols received so far recovers, independently of when earlier attempts were made. Completion is reported exactly when every coded symbol received so far is fully explained by the symbols known.",
 ["schedules", "inputs"],
 "every assignment of small symbol sets to the two sides, every pattern of which coded symbols they map to, and every schedule of decoding attempts",
 "The test attempts decoding after every coded symbol of a single instance; the dirty list and the pending count depend on the schedule.",
 ["riblt/decoder.go"], [("dirty list", "riblt/decoder.go TryDecode / applyNewSymbol / AddCodedSymbol")],
 ["Decoded", "Remote", "Local"])

prop("C12", "Coded streams and sketches agree, are linear, and resets equal fresh instances",
 "For any set of symbols the first m symbols of the rateless stream are exactly the m cells of a sketch of that set, whatever the insertion order and whether hashes are precomputed, and shorter sketches are prefixes of longer ones. Subtracting the sketch of one set from that of another gives the sketch of their difference, cell by cell, for every pair of sets and symbol type, and decoding it gives what the rateless decoder gives. A reset encoder or decoder is indistinguishable from a new one.",
 ["inputs", "histories", "configurations"],
 "every small set, insertion order and sketch size, pairs of overlapping, disjoint, equal and empty sets, value and pointer symbols, resets after any partial use",
 "The sketch has no correctness test at all and no test resets an encoder or decoder in use.",
 ["riblt/encoder.go", "riblt/sketch.go", "riblt/decoder.go"],
 [("ordering heap of next positions", "riblt/encoder.go fixHead / fixTail / applyWindow"), ("cell-wise subtraction", "riblt/sketch.go Subtract"), ("reset of windows", "riblt/encoder.go reset, riblt/decoder.go Reset")],
 ["coded symbols", "sketch cells", "decoding results"])

prop("C13", "Every symbol hash maps to an endless, strictly increasing position sequence",
 "For every 64-bit hash, adding the symbol to an encoder, decoder or sketch (before the first coded symbol) terminates and maps it to coded symbol 0 and then to a strictly increasing sequence of positions that is a function of the hash only, the same in encoder, decoder and sketch. No hash value makes coding hang, skip a symbol, repeat a position, or crash.",
 ["inputs"],
 "all structured classes of 64-bit hash values, in particular the states where the position generator yields extreme values, and long position sequences",
 "Tests use siphash outputs of a few thousand small integers; the degenerate states of the generator have probability near 2^-54 and are adversarially reachable.",
 ["riblt/random.go", "riblt/encoder.go", "riblt/decoder.go", "riblt/sketch.go"],
 [("position generator", "riblt/random.go nextIndex")],
 ["positions at which a lone symbol appears in the stream, in a sketch, and in the decoder"])

prop("C14", "Symbols appear at position i with density 1/(1+i/2)",
 "Over uniformly distributed hashes a symbol is mapped to coded symbol i with probability 1/(1+i/2), up to the approximation error of the generator (4% at i=1, falling off as 1/i), for every i. This density is what makes the overhead independent of the size of the difference.",
 ["inputs"],
 "a complete grid over the 64-bit generator outputs for the transition from every position up to a bound",
 "No test looks at the mapping's distribution; a wrong density still decodes, only with more symbols or almost never.",
 ["riblt/random.go"], [("inverse transform of the degree sequence", "riblt/random.go nextIndex")],
 ["positions of symbols in the coded stream"])

prop("C15", "The event simulator delivers every message exactly once in time order",
 "Every scheduled message is delivered exactly once, to its addressee (the sender itself when none is given), with its payload and sender, at exactly its sending time plus its delay. Messages are delivered in order of arrival time, and those arriving at the same time in the order they were scheduled, including messages scheduled during the delivery of others.",
 ["schedules", "programs"],
 "every small program of modules that send messages with any delays, including zero and equal ones, from inside and outside handlers",
 "The simulator has no tests.",
 ["des/simulator.go"], [("priority queue ordered by arrival and sequence number", "des/simulator.go Less / deliverNextMessage")],
 ["messages handed to modules"])

prop("C16", "The simulation clock and counters are exact and runs stop at the horizon",
 "Running the simulator up to a time delivers all messages arriving at or before that time and none arriving later, so that a run split at any horizons delivers the same messages as one run. The clock never goes backwards and always equals the arrival time of the latest delivered message; queued plus delivered counts equal the messages scheduled, and the simulator is drained exactly when nothing is queued.",
 ["schedules", "programs"],
 "every small program of messages and every split of the run at any sequence of horizons, equal and decreasing ones included",
 "The simulator has no tests; both simulation programs run it in slices and divide counts by the clock.",
 ["des/simulator.go"], [("horizon test and clock update", "des/simulator.go RunUntil / deliverNextMessage"), ("counters", "des/simulator.go EventsQueued / EventsDelivered")],
 ["messages delivered by each slice", "Time, EventsQueued, EventsDelivered, Drained"])

prop("C17", "Simulated reconciliation networks spread every transaction to every node, once",
 "In the rateless IBLT simulation (coding and pull algorithms, with or without first-hop flooding), once every node has generated a transaction, every transaction reaches every node of a connected network under every timing and interleaving of messages on links that keep order. Each node accounts each transaction as received exactly once, whether generated or decoded, every further copy as a duplicate, never records a transaction nobody generated, and counts the bytes of every message received.",
 ["schedules", "configurations", "histories"],
 "every interleaving of message deliveries and transaction arrivals on two- and three-node topologies with several shard counts and window settings",
 "There are no tests of the simulation; a fixed seed runs one schedule.",
 ["newsim/module.go", "newsim/coding.go", "newsim/pull.go"],
 [("message handling and forwarding", "newsim/module.go HandleMessage / forwardTransaction"), ("block protocol", "newsim/coding.go onCodeword / onAck / tryProduceCodeword"), ("announce, request, response", "newsim/pull.go handleMessage")],
 ["received set and metrics of each server", "messages put on the links"],
 [("received", "transactions the node has", "newsim/module.go server")])

prop("C18", "Shards partition the hash space on both ends of a link",
 "For every number of shards, every shard randomizer and every symbol hash, exactly one shard of a sender's schedule covers the symbol, sender and receiver agree which, and the schedule visits every shard before repeating any. Every buffered transaction therefore enters exactly one block within one round of the schedule, and none is lost or duplicated when a block is formed.",
 ["inputs", "configurations"],
 "every shard count up to a bound plus large ones, every boundary hash value of every shard, every permutation order, every buffer content and order",
 "No tests; boundaries are hit with probability 2^-58.",
 ["newsim/coding.go"], [("interval test with wrap-around", "newsim/coding.go tryProduceCodeword / onCodeword"), ("schedule", "newsim/coding.go connectCodingServers")],
 ["block announcements", "transactions a block transfers"])

prop("C19", "Rateless IBLT block protocol stays in step and within its send window",
 "On a link with order and arbitrary delays, the receiver never decodes a codeword against the wrong block, acknowledges each block's start and completion exactly once, ignores codewords of a block it has completed, and the sender starts a new block only after the previous one was completed. Outside the announced burst a sender never has more unacknowledged codewords of the current block outstanding than its window allows (at least one), and a link with an unfinished block never falls silent.",
 ["schedules", "configurations"],
 "every interleaving of codewords, acknowledgements and new transactions on a link, for window growth factors and shard counts including extremes",
 "No tests; a single seed exercises one timing.",
 ["newsim/coding.go"], [("window and acknowledgement handling", "newsim/coding.go onAck / tryFillSendWindow"), ("block reception", "newsim/coding.go onCodeword")],
 ["messages on the link", "decoded blocks"])

prop("C20", "LT simulation finishes every block and keeps to its send window",
 "In the LT simulation, whatever the interleaving of codewords, acknowledgements, transaction arrivals and forced synchronisation, a sender starts a block as soon as, and only when, the previous one is acknowledged, blocks may start, its window has room and the configured minimum of transactions (at least one) is buffered; the block takes all of them. It sends codewords as long as, and only while, fewer than its window are outstanding; the window is the configured share of the block, rounded down but at least one (the first codeword of a block still counts against the window before). Every codeword received is acknowledged exactly once, and a block is acknowledged once, by the first codeword at which more than the threshold have arrived and all but the tolerated share of them are decoded. A started block always finishes, and every node records each transaction it has once and counts codewords and decoded transactions exactly.",
 ["schedules", "configurations", "histories"],
 "every interleaving on two- and three-node networks for thresholds, overhead factors (including those that round the window to zero), loss targets, and synchronised and free-running blocks",
 "There are no tests; one seed runs one schedule with default parameters.",
 ["simulator/node.go", "simulator/module.go"], [("sender window", "simulator/node.go tryFillSendWindow / tryProduceCodeword / onAck"), ("block detection", "simulator/node.go onCodeword")],
 ["messages on the link", "received set and metrics"])

prop("C21", "LT simulation forwards every learned transaction once, paced",
 "Every transaction a node of the LT simulation generates or decodes is handed to the sender of every one of its links exactly once, in the order learned, never before it was learned. Each forwarding time is the earliest that is not before the transaction was learned and at least the configured minimum interval after the previous one of the node (the start of the simulation counts as the first).",
 ["schedules", "histories"],
 "every arrival pattern of bursts and decoded batches at equal, close and distant times and every interval setting",
 "No tests of the pacing exist.",
 ["simulator/module.go"], [("slot allocation", "simulator/module.go scheduleForwardingTransactions"), ("loopback delivery", "simulator/module.go HandleMessage")],
 ["delays of self-addressed messages", "sender buffers"])

prop("C22", "Simulations are reproducible",
 "Two runs of a simulation (either simulator) with the same configuration, topology and seed produce the same sequence of message deliveries and the same results, whatever the order in which the runtime iterates maps and however long the run takes in real time.",
 ["schedules", "configurations"],
 "every map iteration order the runtime could choose at each iteration, on topologies with nodes of several links",
 "Map iteration order differs between runs, so a passing comparison of two runs settles nothing.",
 ["simulator/module.go", "newsim/module.go", "newsim/main.go", "simulator/main.go", "des/simulator.go"],
 [("ordered peer list", "newsim/module.go peers"), ("seeded generators", "newsim/module.go newServers")],
 ["sequence of delivered messages"])

prop("C23", "Connected nodes agree on coding keys however the stream is fragmented",
 "After two nodes connect, each decodes with exactly the key the other encodes with, and every codeword sent arrives intact and in order, however the byte stream is split into reads. A connection that ends or fails before the whole key arrived is reported as an error and never becomes a peer.",
 ["inputs", "fault_sequences"],
 "every segmentation of the incoming byte stream up to a bound on the number of deviations, with data following the key immediately, and failure after every byte",
 "The node has no tests, and a loopback connection delivers the 16 bytes at once.",
 ["node/controller.go", "node/message.go", "node/receiver.go", "node/sender.go"], [("key exchange", "node/controller.go handleConn"), ("gob framing", "node/controller.go newPeer")],
 ["what the peer decodes", "result of the connection handler"])

prop("C24", "A node relays every transaction to every peer and never deadlocks",
 "Under every scheduling of a node's goroutines, each time a transaction is generated locally or decoded from any peer without having expired it is offered for encoding to every connected peer exactly once, and to every peer's decoder; an expired one goes to the decoders only. As long as its connections accept and deliver data the node never reaches a state where goroutines wait on each other forever, whatever the number of peers and the volume decoded at once.",
 ["schedules", "histories"],
 "every interleaving up to a preemption bound of the controller, senders, receivers and connections, with channel capacities reduced as well as a full-size burst",
 "No tests of the node exist; the deadlock needs full channels in two goroutines at once.",
 ["node/controller.go", "node/receiver.go", "node/sender.go"], [("fan-out", "node/controller.go loop / notifyUnexpiredTransaction"), ("select loops", "node/receiver.go decode, node/sender.go loop")],
 ["codewords written to each connection", "progress of all goroutines"])

prop("C25", "Loss feedback is conserved: every lost codeword is reported exactly once",
 "A received codeword that is still undecoded when its timeout has passed at the arrival of a later codeword is counted lost exactly once, one decoded in time never. Every counted loss is reported to the peer exactly once, in a later codeword that is really sent, even when codewords are dropped because the connection is slow; a reported loss raises the sending rate of the peer by the configured increment per lost codeword exactly once.",
 ["schedules", "histories"],
 "every arrival pattern of decodable and undecodable codewords relative to the timeout, every interleaving with sending ticks and full send queues",
 "No tests of the node exist; timing and queue pressure decide the outcome.",
 ["node/receiver.go", "node/sender.go"], [("receive window expiry", "node/receiver.go decode"), ("loss accumulation", "node/sender.go loop")],
 ["loss field of codewords", "sending rate"])

prop("C26", "A node sends codewords at its current rate, never below the minimum",
 "In every interval the number of codewords a sender produces is its accumulated rate budget rounded down, the remainder being carried over, so that no budget is lost or spent twice. Each codeword actually queued lowers the rate by the configured decrement and never below the minimum; a codeword dropped because the queue is full lowers nothing.",
 ["schedules", "histories", "configurations"],
 "every interleaving of ticks, loss reports and queue pressure for rates below, at and far above one codeword per tick",
 "No tests of the node exist.",
 ["node/sender.go"], [("credit counter and rate floor", "node/sender.go loop")],
 ["codewords handed to the connection per tick", "resulting rate"])

prop("C27", "Testbed commands run on every server and every failure is reported",
 "Running an operation on a list of servers calls it exactly once for every server with that server's own data, concurrently, and returns only after all have finished. Every failing call is reported once, naming its server, and a failure never keeps the operation from running on the other servers.",
 ["schedules", "inputs"],
 "every interleaving of up to four concurrent operations and every pattern of failures",
 "The testbed has no tests; lost or misattributed calls depend on scheduling.",
 ["testbed/exp.go", "testbed/sshutil.go", "testbed/cluster.go"], [("fan-out and join", "testbed/exp.go runAll")],
 ["calls made", "reported failures", "time of return"])

prop("C28", "Cloud commands act on exactly the right servers and say what failed",
 "Whatever servers, regions, keys and groups a provider has, and whichever requests fail: start creates exactly the requested number of servers, with the tag, key, image and plan they need, in every region that was asked for and can have them, and none elsewhere; stop and reboot act exactly once on every server that has the tag and is in a state that allows it, and on no other; nothing is created, ended or rebooted without confirmation; the list that is written has exactly one right entry for each server, ordered by location and then ID (as text), and the command does not claim to have written a list that it could not write. A failing request is reported; with Vultr it makes the command end with a nonzero status, with AWS it concerns only its own region and the other regions are served. In every schedule of the requests the command ends, and it does not panic.",
 ["fault_sequences", "interleavings", "inputs"],
 "every provider state, pattern of failing requests and schedule of the concurrent ones, for regions with a VPC and at most one tagged key and group, within bounds",
 "The code talks to AWS and Vultr directly, with one goroutine per region or server; no test runs it, and failures of single requests cannot be produced at will.",
 ["testbed/aws.go", "testbed/vultr.go", "testbed/cluster.go", "testbed/sshutil.go"],
 [("StartServers, StopServers, RestartServers, DumpServerInfo", "testbed/vultr.go"), ("AWSStartInstanceAtRegions, AWSStopServersAtAllRegions, AWSListServersAtAllRegions, AWSGetImageID", "testbed/aws.go"), ("dispatchCluster, getConfirmation", "testbed/cluster.go")],
 ["requests to the providers", "output and exit status of the program", "the written server list"])

prop("C29", "Communication overhead stays within the published bounds",
 "For large random sets the number of coded symbols needed stays near 1.35 to 1.7 per difference for rateless IBLTs, and within the soliton overhead for LT codes, independent of the size of the sets.",
 ["inputs"],
 "all random choices of hashes and all set sizes",
 "The tests only log the number of codewords of one instance.",
 ["riblt/random.go", "lt/encoder.go", "benchmark/main.go"], [("degree sequence", "riblt/random.go nextIndex")],
 ["number of coded symbols until completion"])

prop("C30", "Nodes form exactly the configured links and run as configured",
 "Whatever the order in which nodes start and however often dialing fails, a node connects exactly once to every address it was given, trying again until it succeeds, and every connection made or accepted on which the peer's key arrives becomes that of a peer; connections that stay silent or break off before keep no other from becoming one. Connections work with the window, degree distribution, memory, timeout, rate increment and target loss given on the command line, start at the given rate (that of the transactions if none is given) and never below the given minimum. Transactions are generated at the configured rate, each new and stamped with its time, and offered to all peers, so that in a connected network of nodes they get to every node.",
 ["schedules", "faults", "configurations"],
 "every order and spacing of node starts, every pattern of failing dials and of silent, broken or late connections, every combination of command line values",
 "There are no tests of the node program; which links come up depends on the order of starts and on failures.",
 ["node/main.go", "node/controller.go"], [("listening, dialing and accepting", "node/main.go main"), ("peers from connections", "node/controller.go handleConn, newPeer"), ("generation of transactions", "node/main.go randomTransaction")],
 ["connections made", "peers that transactions are offered to", "codewords per interval", "content of codewords"])

prop("C31", "Simulations run on the network and with the workload they are given",
 "For every topology file and command line, both simulators simulate exactly the nodes and links of the file: messages travel both ways along every link, each taking exactly the delay given for the link, and between no other nodes; the numbers of nodes and peers printed are those of the file. Every node gets its own Poisson arrivals, in bursts of the size and at the rate given, from the beginning to the end of the given duration. Options reach every node: the algorithm, flooding and number of shards (newsim); threshold, control overhead, rate limit of forwarding, period of synchronized blocks and seed (simulator).",
 ["configurations", "inputs"],
 "all topology files describing connected networks (orientation and order of lines arbitrary) and all values of the options",
 "There are no tests of the simulation programs, and a wrong link or delay only shifts the results.",
 ["newsim/main.go", "newsim/topology.go", "newsim/module.go", "simulator/main.go", "simulator/topology.go", "simulator/module.go"],
 [("reading of the file", "newsim/topology.go, simulator/topology.go loadTopology"), ("links", "newsim connectCodingServers, connectPullServers; simulator connectServers"), ("arrivals", "newServers and HandleMessage")],
 ["messages delivered: sender, receiver, time, kind", "first line printed"])

prop("C32", "Simulation reports are true of the simulated time after the warm-up",
 "The results both simulators print at the end are those of the messages actually delivered after the warm-up: rates of transactions received, decoded and duplicate per second of simulated time, overhead (bytes or codewords received per transaction decoded), quantiles of the latency from the generation of a transaction to its receipt (within the 1 % of the sketch), each as mean, standard deviation and quantiles over all nodes; the rate of codewords at node 0 in every interval; and the quantiles of the overlap of new blocks with what the peer already has, in one file for each node. Nothing from before the warm-up counts, nothing after it is left out.",
 ["configurations", "inputs"],
 "all topologies, command lines and resulting runs in which every node receives something after the warm-up",
 "There are no tests of the simulation programs, and wrong statistics look as plausible as right ones.",
 ["newsim/main.go", "newsim/types.go", "newsim/module.go", "newsim/messages.go", "simulator/main.go", "simulator/filter.go", "simulator/transaction.go", "simulator/module.go"],
 [("counters", "HandleMessage, resetMetric"), ("distributions", "distributionSketch"), ("report", "main, collectMoments")],
 ["standard output", "overlap files", "messages delivered"])


out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
    
for p in P:
    if len(p["title"]) > 80: print("TITLE", p["id"], len(p["title"]))
print(len(P))
