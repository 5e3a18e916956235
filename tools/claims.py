NA = {
 "C29": "an asymptotic statement about averages over random sets; exhaustive enumeration of a bounded space cannot decide it (C14 decides the density it rests on)",
}
EX = "explicit-state exploration of the real code: every choice sequence within the bounds is executed"
T["C01"] = (EX + "; random source replaced by choice points", "all outcomes of the random source for small windows and degrees (5 codec/symbol variants), XOR and header compared with the chosen members, window order compared before and after; boundary outcomes of the skip sampling in ldpc; larger windows at boundary outcomes only")
T["C02"] = (EX + " against a FIFO window model", "all histories of additions, productions and resets up to the depth bound on a small universe for every window size; window read back through codewords of full degree; windows up to 1000 (thorough 3000) and 140000 (400000) steps in patterned histories")
T["C03"] = (EX + " in lock step with a reference decoder", "all histories up to the depth bound over all codewords on 3-4 transactions; chains, permutations and evictions deeper but narrower; structures of 1000 (C04: 5000, thorough 70000) transactions released by one codeword or addition")
T["C04"] = (EX + " in lock step with an exhaustive-peeling reference", "as C03; arrival-order permutations of fixed sets of codewords of up to 7 codewords")
T["C05"] = (EX + " in lock step with a recency model", "all histories up to the depth bound with every memory size 0..n+1; memories up to 129, 300, 1024 and 5000 (thorough 20000) slid past their end, and 70000 (200000) steps with small ones")
T["C06"] = (EX + " over an alphabet with real short-hash collisions", "collisions found by birthday search at start; all histories up to the depth bound over colliding transactions and corrupt codewords")
T["C07"] = (EX + " with the object pools under the explorer's control", "all interleavings of codewords, additions and releases up to the depth bound on one and two decoders, compared with the same history without releases")
T["C08"] = (EX + " with byte-wise snapshots of every object after every operation", "all histories of operations up to the depth bound on two encoders and two decoders sharing objects, value and pointer symbols; all histories of 4-5 (thorough 5-6) additions, subtractions and decodings on three sketches of 1 and 3 cells")
T["C10"] = (EX + " in lock step with a set-difference reference", "all assignments of 5-6 symbols to the two sides and decoding schedules, run to completion; set sizes on a grid up to 257 per part (thorough 600) and 1500 and 70000, going on for up to 70000 (300000) coded symbols after completion; for every bit, mixtures whose content hashes to the checksum except for that bit")
T["C11"] = (EX + " in lock step with an exhaustive-peeling reference", "all symbol sets of up to 4 symbols over all position patterns of the first 5-6 coded symbols, all sides, all schedules of decoding attempts")
T["C12"] = (EX + "; cells compared with the sum of what each symbol contributes alone", "all subsets and insertion orders of 5 symbols, all pairs of subsets for subtraction, all partial uses before a reset within small bounds; large sets (up to 140000 symbols) and long streams (up to 150000, thorough 1000000 coded symbols) in 4 orders only")
T["C13"] = ("exhaustive enumeration of the extreme classes of hash values on the real code", "all hashes that put the position generator within a few units of 0, 2^64 or a power of two at one of its first 8 steps; positions compared between encoder, sketch, decoder and decoding for 1500 positions; ordinary hashes are covered by C10-C12 only")
T["C14"] = ("complete enumeration of a grid of hash values on the real code", "grids of 2^20 hashes with 4 offsets, first 200 positions, frequency within 1% plus the known approximation error; not a statement about all 2^64 hashes")
T["C15"] = (EX + " against a reference scheduler", "all programs of up to 6 messages among up to 3 modules with delays 0, 1, 2 and very large ones, sent from inside and outside handlers; queues of up to 70 messages in patterned orders, crowds of thousands and long runs")
T["C16"] = (EX + " against a reference clock", "as C15 with every sequence of up to 4 horizons")
T["C17"] = (EX + "; liveness by strongly connected components of the explored state graph", "2-node and line-3 networks: every interleaving, to a fixed point; triangles with up to 3 and 4-node networks with up to 2 departures from first-come-first-served delivery; networks of 3-4 nodes with cycles under every assignment of latencies 1, 3, 9 to the links; 1-6 transactions per node, and bursts of 60 and 150 (thorough 350) in timed line and triangle networks; random choices of the program (shard randomizer, order) from 1-2 seeds")
T["C18"] = (EX + "; two real link ends driven in lock step over every shard boundary", "every shard count 1-20, 31, 64, several schedules and randomizers, hashes whose product falls on, before and after every shard boundary (up to 64 boundaries), known to the sender, the receiver or both; not all 2^64 hashes")
T["C19"] = (EX + " in lock step with a reference model of the link; liveness by strongly connected components", "the state spaces of C17, judged by the link model: block numbers, acknowledgements, window, burst, silence; the large bursts too")
T["C20"] = (EX + " in lock step with a reference model of links and knowledge", "two nodes, threshold 1-3, overhead 0.3-1, up to 6 transactions: every interleaving, to a fixed point; overhead up to 4, 3-node lines and triangles and synchronised blocks: every schedule with up to 1-2 departures from first-come-first-served; two nodes with blocks of 30 and 120 (thorough 500) transactions in order of arrival; codeword contents from 1-3 seeds of the generator, not all")
T["C21"] = (EX + " against a reference slot allocation", "one node with 3 peers: every sequence of 4-5 events (arrival, burst, one or two decoded transactions) at distances 0, interval-1, interval, 3 intervals, with both orders of simultaneous events; batches of 400 arrivals, 300 transactions decoded at once and 30 peers; plus the hand-over checks in the smaller networks of C20")
T["C22"] = ("systematic exploration of the environments of whole runs: the program is rebuilt with map iteration, clock and global random source under the explorer's control and run in a process per environment; every one must deliver the same messages and write the same results", "all connected graphs of up to 4 nodes and a 6-way star, equal and different delays, 3-4 parameter sets per simulator, runs of 300-3000 deliveries; one fixed order for all map iterations (6 orders), and every order (all for up to 3 entries, 5 for more) at each of up to 12 (thorough 150) single iterations of the baseline run; clock steps 1 ns, 1 s, backwards; not all combinations of orders")
SC = "stateless exploration of the real goroutines under a controlled scheduler, clock and byte-level connections"
T["C23"] = (SC + "; every segmentation and failure point of the stream", "all 2^15 ways to cut the key, every cut of the stream into 2 pieces (thorough 3) and into 3 (4) with one cut in the key, end or failure after each of 0-15 key bytes in three forms, failing writes; 1-2 departures from the default schedule in the configurations about timing; one remote, two remotes or two real nodes; keys and codewords from one seed")
T["C24"] = (SC + ", against a reference decoder per connection", "1, 2, 3 peers with channels reduced to 2-3 entries: every schedule with up to 3, 2, 2 departures from the default one (thorough one more; one less in the larger scenarios); 8 scenarios (simultaneous arrivals, connecting meanwhile, chains and fans decoded at once, relayed transactions that set off decoding, expired codewords, tickers, slow connections) and bursts of 1600 transactions per peer through full-size channels in the default schedule")
T["C25"] = (SC + ", against a reference of window and rate", "every history of 5 (thorough 7) arrivals, completions and waits on a fast and on a stalled connection; 1-2 peers with up to 2 (3) departures from the default schedule; loss reports of 0-9 with three increments; remote clocks off by -7 s, +9 s and 0; time passes only when nothing else can run, so arrivals exactly at the timeout are not explored")
T["C26"] = (SC + ", against a reference budget", "14 parameter sets (rates 1-3300 per second, decrements 0-300, three floors): 400 (thorough 5000) intervals on a fast connection, every history of 4-6 (7-9) intervals, stalls and single writes with a queue of 3, and 1 (2) departures from the default schedule; up to 1e-6 of rounding in the budget is accepted")
T["C27"] = (SC + ", with stand-ins for ssh and os/exec that lead to servers in the harness", "0-4 servers with every pattern of 4-8 kinds of failure, calls that wait for each other or not, every schedule with up to 3, 2, 1 departures from the default one (thorough one more) with switches before every statement and within updates; up to 40 servers with the default schedule; the five commands of exp on 1-3 servers")
T["C09"] = ("stateless exploration of the real code under a controlled scheduler that may switch before every statement and within updates, results compared with those of running alone; plus exhaustive enumeration of operation sequences taking turns under a happens-before race monitor",
 "pairs and triples of users of lt, iblt, ldpc and riblt with equal and different data: every place for one switch in long programs, for two in short ones (thorough: two and three); every pair of hand-over places and all sequences of 3 (4) operations under the race monitor; overlap simulations with 2-6 runs, 52 runs with the switch among the first 700 (2500) steps")
T["C30"] = (SC + "; the whole program, main included, in a network played by the harness", "up to 4 addresses failing up to 30 times and 3 accepted connections of 6 kinds, failing accepts, 1 (thorough 2) departures from the default schedule while connecting; all 3^3*3*3 combinations of rates, 5 windows, 4 timeouts, 12 degree distributions on a grid of 600 random values, 4 (7) memories; every history of 4 (6) gaps between transactions; 8 (10) networks of 2-4 nodes with every order and spacing of starts")
T["C31"] = ("systematic exploration of whole runs of the programs over all small networks and a grid of options; the messages delivered are matched with the file under every naming of the nodes", "all connected networks of 2-4 (thorough 5) nodes with different delays, and a star, ring and tree of 11-13; 4 notations of the file up to 3 nodes; 4 command lines per program (2 per network of 4 nodes in the quick run), 7 with defaults on 2 nodes, a grid of rates and bursts, and dense networks of more than 10 nodes")
T["C32"] = ("systematic exploration of whole runs of the programs over all small networks and a grid of options; every printed number is recomputed from the messages delivered", "networks as C31; 7 command lines for newsim, 6 for simulator (half of them per network of 4 nodes in the quick run) and 6 with defaults on 2-3 nodes; what is taken as the end of the warm-up may be the given time or the end of the interval at or after it; values over the sketch to 1 % and one rank; duplicates found by decoding are only bounded from below")
T["C28"] = (SC + ", with stand-ins for the providers' services, the image list, standard input, files and the exit of the program", "Vultr: 1-4 regions in any subset supported, 0-3 servers in any state and tag, any one request failing (reboot: any set), anything missing, any answer to the confirmation; AWS: 1-3 regions, any request of any region failing, keys and groups there or not, instances in any state, with or without addresses, in pages; schedules with up to 2 (thorough 3) departures from the default one with switches before every statement; a full disk, an unusable key")
