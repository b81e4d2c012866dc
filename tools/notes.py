"""What is particular about each property's check (for DESIGN.md)."""
NOTES = {
"C01": "Design: tree of nodes with cached heights, deletion by in-order successor, rotations. All shapes reachable over N keys are enumerated (as gaps between keys matter and their names do not, key names are part of the shape only up to order). Oracle: a finite function from keys to values. Variants: descending order, keys with parts the order ignores, strings.",
"C02": "Oracle: an AVL tree of height h has at least MinNodes(h) and at most 2^h-1 entries; entries are counted by iterating, and one lookup may cost at most a constant times the greatest height an AVL tree of that size can have, counted in calls of less.",
"C03": "Leaf size 4 on the model stands for the code's 64 by mapping each abstract key to a group of 16, 31 or 64 real keys, which makes node splits happen on the code as in the design; recorded histories hold up to 12,000 keys (three levels).",
"C04": "Hash functions are part of the initial state: a table from keys to homes chosen by TLC, so that every collision pattern within the bounds occurs, including clusters that wrap around the end of the table. ProbeInv: every entry is reachable from its home without a gap.",
"C05": "Families of up to 3 (explored) and 7 (recorded) copies of copies; after every step every member of the family is observed.",
"C06": "hashset, mapset and the set wrapper; initial values with repetitions are part of the initial state.",
"C07": "All pairs and triples of operands over N elements, with the receiver possibly among them, across implementations.",
"C08": "All pairs of subsets of N elements across implementations.",
"C09": "Design: recency list plus hash map. Oracle: a sequence of (key, value) from most to least recently used.",
"C10": "Callbacks are part of the model: none, logging, looking up, removing another entry, removing the evicted entry. The order and content of each call is a result of the step that caused it.",
"C11": "Nodes keep their identity: removed nodes can be inserted again, values tell them apart.",
"C12": "The zero Queue, New and FromSlice as initial states.",
"C13": "Exploration over two values to depth L, and over one value to great depth to reach storage growth.",
"C14": "Heaps over ranks with ties (elements of equal rank are told apart by their identity) and over distinct ranks in every order of arrival.",
"C15": "Every query [a,b) over the coordinates is asked in every state.",
"C16": "Rejected intervals included.",
"C17": "All four variants side by side.",
"C18": "Initial maps are part of the initial state.",
"C19": "Keys over alphabets whose letters the driver maps to bytes 0, 0x7f, 0x80, 0xff, ...",
"C20": "As C19; all queries over the bounded universe of strings.",
"C21": "Thresholds (SplitLength, JoinLength, RebalanceRatio) are constants of each run; contents are told apart by identity, and the states of the rope are its tree shapes.",
"C22": "As C21 with several ropes at a time.",
"C23": "The action property Immutable says that no step changes an existing version; on the code every version is read again after every step, and caller-owned slices are overwritten after each call.",
"C24": "As C23, judging the new versions.",
"C25": "Design: blocks with split on overflow and merge on underflow for entries-per-block 1 to 4.",
"C26": "Iterator positions are part of the state.",
"C27": "Shapes are part of the initial state; every fill rectangle, in any corner order, is a transition.",
"C28": "Every coordinate from -2 to size+2 for every operation and shape, with the array read before and after.",
"C29": "All argument tuples over R ranks with T members each; floats include -0, infinities.",
"C30": "Purity cannot be seen in one call: behaviours hash the same value again after other values, from other places in memory, and the specification only demands equal results for equal contents.",
"C31": "Design (MCPar): two goroutines whose steps begin (read) and end (write) in every interleaving; Confluent says that results and contents are those of running the programs one after another, given that the programs are separate, which the specification defines (`Writes`, `Touches`). With `Memo = TRUE` (a lookup that leaves a note in two halves) TLC finds Confluent violated. Every pair of programs is executed on the real code as goroutines under Go's race detector, which observes whether a step that the specification classifies as reading writes after all: happens-before analysis does not depend on how the goroutines happened to be scheduled. Recorded: 2 to 4 goroutines with random programs on all containers at up to 3,000 entries, validated by TracePar.",
"C32": "Design (MCAmort): when a hash table moves its entries, with a bank balance: Paid says a constant fee per operation covers all moves (TLC finds it violated if tables shrink when a quarter full). From every state the real map alternates insertions and removals at that size. Recorded steps are wrapped in `calls`, `mem` or `cpu`, whose bounds CostModel states in the contents before the step: they are far (a factor of 10 and more) above what is measured and far below work in proportion to the 70,000 to 140,000 entries held. Processor time is that of the thread, so other load does not matter, with collections switched off.",
"C33": "Design (MCSpace): groups of entries come and go in every order while room is reserved as tables, slices or linked nodes do; Lean says that the room is bounded by the peak (TLC finds it violated for a scheme that only marks entries as removed, which is what B-trees do). From every state entries then come and go on the real container, and the bytes reachable before and after (heap size after a garbage collection) are compared. Recorded: tens of thousands of entries pass through containers that hold hundreds, by every way of adding and removing, with lookups, copies, set operations, splits and iterations in between. The bound, 64 KiB plus 256 bytes for each entry of the peak, is far above what is measured (at most 37 KB) and amounts to less than five bytes for each entry that passed.",
"C34": "Design (MCSpread): the xor-shift-multiply hash on words of 8 or 10 bits, for all shifts of at least half a word and a set of odd multipliers: Injective says that no two words get the same hash, Undone that every step has an inverse (TLC finds both violated with an even multiplier). For 64 bits this is an argument by analogy; the code is bound to the contract by the families: every spacing by a power of two that fits the type, times several factors, from several bases, and all pairs of bits, for each of the ten integer helpers (the 8- and 16-bit types completely), and numbered texts and texts with two changing bytes for the other two. Counted are the different hashes and the slots used; the bound on slots (half the number of keys, where random placement uses 0.63) is five standard deviations away for the smallest family, and nothing is random in the helpers.",
}
