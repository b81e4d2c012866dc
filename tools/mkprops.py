#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for titles/statements)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "AVL tree is an ordered map for every history",
 "After any sequence of puts, overwrites and removals (also of absent keys) under any strict-weak-order less function, looking a key up returns exactly the value most recently put for it, or 'absent' if it was never put or was removed since. The reported size is the number of present keys, and iteration visits each present key exactly once, with its current value, in increasing order of less.",
 ["histories","inputs"], "every operation sequence, every key set, every strict weak order (ascending, descending, equivalence classes of distinguishable keys)",
 "The one randomized test follows a single 1000-step history over 100 int keys with the natural order, never checks the iteration order, never looks up an absent key and only removes present keys.",
 ["avl/avl.go"], [("node.add / node.remove / rotations / findSmallest","avl/avl.go")],
 [("root","binary search tree of key/value nodes","avl/avl.go Tree")], ["Tree.Get","Tree.Size","Tree.Each"])

prop("C02", "AVL and interval trees stay balanced and report true height",
 "After any sequence of insertions, overwrites and removals, the AVL tree and the interval tree hold at least as many entries as the smallest height-balanced binary tree of the height they report, and at most 2^height-1 entries (height 0 exactly when empty). An AVL tree lookup therefore never needs more than a logarithmic number of comparisons in the number of entries, whatever the history.",
 ["histories","inputs"], "every operation sequence and key order",
 "No test reads Height or counts comparisons; imbalance or a stale height leaves all results of the existing tests unchanged.",
 ["avl/avl.go","interval/itree.go"], [("rebalanceTree / recalculateHeight / rotateLeft / rotateRight","avl/avl.go, interval/itree.go")],
 [("height","cached subtree height used by the balance decision","avl/avl.go node.height, interval/itree.go node.height")], ["Tree.Height","Tree.Size","Tree.Each","calls of the less function during Tree.Get"])

prop("C03", "B-tree is an ordered map for every history",
 "After any sequence of puts, overwrites and removals (also of absent keys, and puts of previously removed keys) under any strict-weak-order less function, looking a key up returns exactly the value most recently put for it, or 'absent'. The reported size is the number of present keys, and iteration visits each present key exactly once, with its current value, in increasing order of less, no matter how many node splits happened.",
 ["histories","inputs"], "every operation sequence and every number of keys, including those that split leaves, internal nodes and the root repeatedly",
 "The randomized test uses 100 possible keys, so the tree splits at most once or twice and never has an internal split; it never calls Size and never looks up absent keys or checks order.",
 ["btree/btree.go"], [("insert / split / tombstones","btree/btree.go")],
 [("root, height, n","nodes of up to 64 entries; removed keys stay as invalid entries","btree/btree.go Tree")], ["Tree.Get","Tree.Size","Tree.Each"])

prop("C04", "Hash map is a finite map for every history, hash and capacity",
 "After any sequence of puts, overwrites, removals and clears, starting from any initial capacity and with any hash function consistent with the equality function (however badly it collides), looking a key up returns exactly the value most recently put for it, or 'absent'. The reported size is the number of present keys, and iteration visits each present key exactly once with its current value.",
 ["histories","inputs","configurations"], "every operation sequence, initial capacity, and hash/equality pair, including constant hashes and hashes that wrap probe sequences around the end of the table",
 "The randomized test uses one well-mixed hash, so long colliding or wrapping probe clusters at grow/shrink boundaries practically never occur; it never calls Size or looks up absent keys.",
 ["hashmap/map.go"], [("linear probing, backward re-insertion on Remove, resize","hashmap/map.go")],
 [("entries, capacity, length","open-addressing table","hashmap/map.go Map")], ["Map.Get","Map.Size","Map.Each"])

prop("C05", "A copy and its original never affect each other",
 "Copying a hash map, hash set, queue, stack, bidirectional map or 2-D array, or cloning a set, yields a container with the same contents; from then on no operation on either one (including clearing it, or copying it again) ever changes what the other one holds. This stays true for any number of copies of copies written in any order.",
 ["histories"], "every interleaving of copies and writes over any number of related copies",
 "Only hashmap has a copy test, and it writes one key of the copy and looks only at the copy; no test writes to the original, clears, removes, or copies a copy.",
 ["hashmap/map.go","hashset/set.go","queue/queue.go","stack/stack.go","bimap/bimap.go","array2d/array2d.go","set/set.go"],
 [("copy-on-write flag and lazy table duplication","hashmap/map.go Copy/Put/Remove/Clear"),("eager copies","queue/queue.go Copy, stack/stack.go Copy, bimap/bimap.go Copy, array2d/array2d.go Copy, set/set.go Clone")],
 [("readonly","table is shared with another map","hashmap/map.go Map.readonly")], ["contents of every related copy after each write"])

prop("C06", "Hash set and map set are mathematical sets for every history",
 "After any sequence of puts (also repeated), removals (also of absent elements) and clears, on a set created empty or from initial values, membership is true exactly for the elements put and not removed or cleared since. The reported size is the number of members and iteration visits every member exactly once.",
 ["histories","inputs","configurations"], "every operation sequence, element set, initial capacity and hash function; both set implementations and the generic Set wrapper over them",
 "The tests follow one random history per set with a well-mixed hash and check only that iterated elements should be there, not that expected ones are.",
 ["hashset/set.go","mapset/set.go","set/set.go"], [("hashset over hashmap; mapset over map","hashset/set.go, mapset/set.go"),("Set wrapper: Keys, Map, String","set/set.go")],
 [], ["Has","Size","Each","Keys","Map","String"])

prop("C07", "Set algebra computes exactly the mathematical result",
 "For all receivers and any number of operands, whatever the set implementations, hashes and insertion orders: union, intersection and difference return exactly the set-theoretic result, and symmetric difference exactly the elements that occur in one single set of all those involved; the variants taking literal elements agree. The returning variants change no existing set; the in-place variants leave exactly the result in the receiver, return it, and change no other set, even when the receiver itself is an operand.",
 ["inputs","histories"], "all receivers and operand lists (0 to n operands, mixed implementations, aliasing), all hash functions and table layouts",
 "The examples use a handful of fixed small sets; no test runs an in-place operation on a colliding hash set, aliases receiver and operand, or checks that operands are unchanged.",
 ["set/set.go","hashset/set.go","mapset/set.go","hashmap/map.go"], [("Clone + InPlace*","set/set.go"),("iteration while removing","set/set.go InPlaceIntersection, InPlaceDifference")],
 [], ["contents of the result, the receiver and all operands"])

prop("C08", "Set comparisons agree with the mathematical relations",
 "For any two sets, of any two implementations: equality, subset, superset, proper subset, proper superset and disjointness each return true exactly when the mathematical relation holds between their contents. They change neither set.",
 ["inputs"], "all pairs of sets, both implementations on either side, including empty and identical sets",
 "No test calls any of the comparison methods.",
 ["set/set.go"], [("Equal, IsSubset, IsSuperset, IsProperSubset, IsProperSuperset, IsDisjoint","set/set.go")], [], ["results of the comparison methods","contents of both sets afterwards"])

prop("C09", "LRU cache keeps exactly the most recently used entries, in order",
 "After any sequence of puts, gets, removals and capacity changes (capacity zero included), the cache holds exactly what a least-recently-used cache of that capacity holds: lookups return the latest value of each held key and 'absent' otherwise, and iteration visits the held entries exactly once from most to least recently used. A successful get and any put count as a use; failed gets, removals, size queries and iteration do not.",
 ["histories","configurations"], "every sequence of operations and capacity changes, for every capacity >= 0",
 "One fixed example of nine calls; no failed get, overwrite, re-insertion after removal, capacity 0 or 1, or shrink below several entries followed by further use.",
 ["cache/cache.go","list/list.go"], [("table + recency list kept in step","cache/cache.go Get/Put/Remove/Resize/evict")],
 [("table, lru, capacity","key index and recency list","cache/cache.go Cache")], ["Get","Each","Size"])

prop("C10", "LRU cache never exceeds its capacity and reports each eviction once",
 "At every moment the cache's size is at most its capacity (any capacity >= 0), and its reported capacity is the last one set. The registered callback runs exactly once for each held entry dropped to respect the capacity, with that entry's key and latest value, in least-recently-used-first order, before that entry is gone; it never runs for explicit removals, overwrites or entries that stay. A callback that looks up or removes entries of the cache does not corrupt it.",
 ["histories","configurations"], "every sequence of operations, capacity changes and callback registrations, including callbacks that use the cache while an eviction is in progress",
 "One fixed example with three evictions and a callback that only prints.",
 ["cache/cache.go"], [("evict / Put / Resize / SetEvictCallback","cache/cache.go")],
 [("evictCb","registered callback","cache/cache.go Cache")], ["callback invocations and the cache as seen from inside them","Size","Capacity"])

prop("C11", "Linked list links stay consistent under every edit sequence",
 "After any sequence of pushes at either end, insertions before or after a member node, removals of member nodes (also first, last, only) and re-insertion of removed nodes, walking forward from the front visits exactly the expected nodes in order and walking backward from the back visits them in reverse. Front and back are the first and last nodes (both absent when empty), insertion returns the inserted node, and the per-node iterations start at the node they are called on.",
 ["histories"], "every sequence of edits at every position",
 "One example that pushes four values at the back; no insertion, removal or reverse walk is ever run.",
 ["list/list.go"], [("PushFrontNode, PushBackNode, InsertAfter, InsertBefore, Remove","list/list.go")],
 [("Front, Back, Prev, Next","public links","list/list.go")], ["Front/Next walk","Back/Prev walk","Each","EachReverse","EachNode","EachReverseNode"])

prop("C12", "Queue is first-in first-out for every history",
 "After any sequence of enqueues, dequeues (single, tried, or all), clears and constructions from a slice, items leave the queue in exactly the order they entered, each exactly once, and the length, emptiness, peeks, full listings and iteration always agree with the items waiting. Peeking never changes the queue; on an empty queue the trying variants report false with the zero value, the plain variants panic, and either way the queue stays usable.",
 ["histories"], "every operation sequence",
 "Tests are short fixed scenarios per method; no long mixed history, no reuse after clear, after emptying or after a panic.",
 ["queue/queue.go","list/list.go"], [("list + separate length counter","queue/queue.go")], [("list, length","items and count","queue/queue.go Queue")], ["Dequeue","TryDequeue","DequeueAll","Peek","TryPeek","PeekAll","Each","Len","Empty"])

prop("C13", "Stack is last-in first-out for every history",
 "After any sequence of pushes and pops, a pop returns and removes the most recently pushed value not yet popped, a peek returns it without removing it, and the size is the number of values left. On an empty stack pop and peek return the zero value, change nothing, and the stack stays usable.",
 ["histories"], "every operation sequence",
 "One short fixed scenario; no popping past empty and continuing, no interleavings at backing-array growth.",
 ["stack/stack.go"], [("append / reslice","stack/stack.go")], [("entries","values bottom to top","stack/stack.go Stack")], ["Pop","Peek","Size"])

prop("C14", "Heap always yields a least element and loses none",
 "For any initial data and any sequence of pushes, pops and peeks under any strict-weak-order less function, a pop removes and returns one element than which no other held element is less, and a peek returns such an element without removing it. No element is ever lost, duplicated or altered, the size is the number held, and on an empty heap pop and peek report false with the zero value.",
 ["histories","inputs"], "every initial slice and operation sequence, every strict weak order, with equal-ranking but distinguishable elements",
 "Fixed lists of at most six distinct ints, pushes then pops, never interleaved at larger sizes, no duplicates that could be told apart.",
 ["heap/heap.go"], [("up / down sift, heapify","heap/heap.go")], [("data","binary heap array","heap/heap.go Heap")], ["Pop","Peek","Size"])

prop("C15", "Interval tree overlap queries are exact",
 "After any sequence of adds, puts and removals, an overlap query for [low, high) returns exactly the stored intervals whose low end is below the query's high end and whose high end is above the query's low end, each once with its current value, sorted by low end. The query changes nothing.",
 ["histories","inputs"], "every operation sequence and every query, with intervals that nest, touch, are empty or are replaced by shorter or longer ones, over int, float and string endpoints",
 "One tree of three intervals that is never modified by removal; the stale subtree-maximum bugs this structure is prone to need removals, replacements and rotations.",
 ["interval/itree.go"], [("max augmentation maintained by updateMax in insert/remove/rotations; pruning in overlaps","interval/itree.go")],
 [("max","largest high end in a subtree","interval/itree.go node.max")], ["Tree.Overlaps"])

prop("C16", "Interval tree is a map keyed by interval start for every history",
 "After any sequence of adds, puts and removals, looking up a start returns exactly the interval and value currently stored for it, or 'absent'; the size counts them and iteration visits each once, sorted by start. Put replaces and returns the conflicting interval; add keeps it, changes nothing and returns it; remove returns what it removed, or false if there was none; an interval whose low end exceeds its high end is rejected with a panic that changes nothing.",
 ["histories","inputs"], "every operation sequence",
 "Tests only put four intervals and query; Add, Remove, Get, Size and Each are never called and returned conflicts are never checked.",
 ["interval/itree.go"], [("insert with/without overwrite, remove, removeThis","interval/itree.go")], [("root","AVL tree keyed by low end","interval/itree.go Tree")], ["Add","Put","Remove","Get","Size","Each"])

prop("C17", "Multimaps hold exactly the entries put and not removed",
 "For each of the four multimap variants and any sequence of puts, removals of one entry, removals of a whole key and clears: the entries held are exactly the multiset (duplicates-allowed variants) or set (others) implied by the history, where removing one entry removes a single occurrence and removing something absent changes nothing. Per-key listing, counts, membership, number of keys, total size and both iterations always agree with that content, a key without entries does not exist, and variants that promise sorted keys or values deliver them sorted.",
 ["histories","inputs"], "every operation sequence on each of the four variants, under every order given for keys and values",
 "One fixed scenario of about fifteen steps shared by the four variants.",
 ["multimap/multimap.go","multimap/avl.go","multimap/map.go","multimap/values.go"], [("keys container of value containers with a separate size counter","multimap/avl.go, multimap/map.go"),("valuesSlice / valuesSet","multimap/values.go")],
 [("size","cached total number of entries","multimap/multimap.go baseMultiMap")], ["Get","Count","Has","Dimension","Size","Each","EachAssociation"])

prop("C18", "Bidirectional map is always a one-to-one correspondence",
 "After any sequence of adds, removals by key, removals by value and clears, starting from the zero value or from a given map, each held key has exactly one value and each held value exactly one key: forward and reverse lookups, membership tests, length and iteration all describe the same set of pairs. Adding a pair displaces exactly the pairs that share its key or its value, and looking up or removing something absent changes nothing.",
 ["histories"], "every sequence of operations, including adds whose key and value collide with two different pairs",
 "Tests add and remove a single pair; no collision, overwrite, reverse removal or clear is exercised.",
 ["bimap/bimap.go"], [("two maps kept in step","bimap/bimap.go Add/RemoveForward/RemoveReverse/Clear")], [("forward, reverse","the two indexes","bimap/bimap.go Bimap")], ["GetForward","GetReverse","ContainsForward","ContainsReverse","Len","Each"])

prop("C19", "Trie is a map over non-empty strings for every history",
 "After any sequence of puts, overwrites and removals (also of absent keys, prefixes or extensions of present keys), lookup and membership of any string return exactly the value most recently put for it, or 'absent'; the reported size is the number of present keys. Any bytes may occur in keys; the empty string is never a key and operations on it change nothing.",
 ["histories","inputs"], "every operation sequence over arbitrary byte strings, with keys that are prefixes of one another",
 "The randomized test uses long random strings that hardly ever share prefixes, so node deletion with two children and prefix keys never happen; Size and absent keys are never checked.",
 ["trie/trie.go"], [("ternary search tree put/remove, Hibbard deletion of unused nodes","trie/trie.go")], [("n, root","key count and tree","trie/trie.go Trie")], ["Get","Contains","Size"])

prop("C20", "Trie prefix queries are exact and ordered",
 "After any sequence of puts and removals, listing the keys returns exactly the present keys in ascending byte order, listing the keys with a prefix returns exactly those present keys that start with it, in the same order, and the longest-prefix query returns the longest present key that is a prefix of the query, or the empty string if there is none. The queries change nothing.",
 ["histories","inputs"], "every set of byte-string keys reached by any history, and every query string",
 "Only two- and three-key fixed examples call KeysWithPrefix; LongestPrefix is never called; the randomized test never has related prefixes.",
 ["trie/trie.go"], [("collect / get / LongestPrefix","trie/trie.go")], [], ["Keys","KeysWithPrefix","LongestPrefix"])

prop("C21", "Rope edits and reads match an array for every history",
 "For any initial contents and any sequence of insertions and removals of ranges at valid positions, under any valid split/join thresholds, the rope's length, full value, every slice and every element are those of an ordinary array given the same edits. An inserted slice is copied: later changes to it do not show in the rope, and inserting a slice read from the same rope inserts what was read.",
 ["histories","inputs","configurations"], "every edit sequence, every position and length, every SplitLength >= 1 and JoinLength <= SplitLength",
 "One random history per operation with thresholds 4/2, always removing then inserting 20 bytes at one place; no self-insertion, no reads at boundaries after in-place edits.",
 ["rope/rope.go"], [("leaf splitting/merging (adjust), index arithmetic of Insert/Remove/Slice, in-place leaf edits","rope/rope.go")],
 [("SplitLength, JoinLength","tunable thresholds","rope/rope.go"),("length","cached subtree length","rope/rope.go Node")], ["Len","Value","Slice","At"])

prop("C22", "Rope splitting, joining and rebalancing preserve the contents",
 "Splitting a rope at any position yields two ropes holding exactly the left and right parts, joining any number of ropes yields exactly their concatenation in order, and rebuilding or rebalancing changes no content; every resulting rope remains fully usable for all further operations, and the two parts of a split can be edited independently of each other. Visiting the leaves in order always yields the contents in order.",
 ["histories","inputs","configurations"], "every sequence of edits, splits, joins, rebuilds and rebalances, under any valid thresholds and rebalance ratio",
 "Rebuild, Rebalance and Each are never called; the split test immediately re-joins and never edits the parts.",
 ["rope/rope.go"], [("SplitAt / join / Rebuild / Rebalance / Each","rope/rope.go")], [("kind","leaf or inner node","rope/rope.go Node.kind"),("RebalanceRatio","rebuild trigger","rope/rope.go")], ["Value, Len, Slice, At of all resulting ropes","Each"])

prop("C23", "Persistent rope versions never change",
 "Once a version of a persistent rope exists, its contents stay the same forever: no insertion, removal, split, join, rebuild or rebalance of it or of any version related to it, and no write by the caller into a slice it passed to an insertion or received from a read, ever changes what any existing version yields.",
 ["histories"], "every history of operations over any family of related versions",
 "Two tests compare the original after a single edit of a 10-byte rope; structural sharing across splits, joins and in-place rebuilds of shared nodes is never observed.",
 ["prope/prope.go"], [("copy-on-edit of the path, fresh result slices, in-place Rebuild of shared nodes","prope/prope.go")], [("shared nodes","subtrees shared between versions","prope/prope.go Node")], ["Value, Len, Slice, At of every earlier version after each operation"])

prop("C24", "Persistent rope operations produce exactly the right new version",
 "For any version and any valid arguments, under any valid thresholds, insertion, removal, splitting and joining (of zero or more ropes) return versions whose length, full value, slices and elements are those of an ordinary array treated the same way. Rebuilding and rebalancing leave the contents of the version they are applied to as they were.",
 ["histories","inputs","configurations"], "every version reachable by any history, every position and range, every SplitLength >= 1 and JoinLength <= SplitLength",
 "Random tests compare a few hundred states at one threshold setting; Join, Rebuild and Rebalance are not called after mixed histories and At/Slice are checked only on fresh ropes.",
 ["prope/prope.go"], [("bound / copySlice index arithmetic, adjust","prope/prope.go")], [("length","cached subtree length","prope/prope.go Node")], ["Len","Value","Slice","At"])

prop("C25", "Unrolled list holds exactly the sequence its history implies",
 "For any entries-per-block of at least one and any sequence of pushes at either end, insertions before or after a valid iterator and removals at a valid iterator, the list holds exactly the elements an ordinary sequence would hold, in order: the size counts them, a walk from the beginning yields them in order, and a walk from the end yields them in reverse.",
 ["histories","configurations"], "every operation sequence at every position and every block size, crossing block boundaries",
 "Fixed scenarios with block size 8 around one or two blocks; no long mixed history, no block size 1 or 2.",
 ["ulist/ulist.go","ulist/ulist_iter.go"], [("block overflow handling, block removal","ulist/ulist.go")], [("ll, size","list of blocks and element count","ulist/ulist.go UList")], ["Size","Begin..Next walk","End..Prev walk"])

prop("C26", "Unrolled list iterators land where the contract says",
 "An iterator from the beginning or the end points to the first or last element and is valid exactly when the list is non-empty; moving it visits neighbours one by one, becomes invalid when it runs past an end, and one step back from there is the end element again. After insertion before or after it, the iterator points to the new element; after removal it points to the element that followed the removed one, or is invalid exactly if there was none, and then one step back reaches the new last element.",
 ["histories","configurations"], "every walk and every insertion or removal at every position, for every block size >= 1",
 "Tests walk one list of ten and remove only the last elements or everything from the front; a removal at the end of a non-last block is never followed by a use of the iterator.",
 ["ulist/ulist.go","ulist/ulist_iter.go"], [("Next / Prev / AddAfter / AddBefore / Remove iterator updates","ulist/ulist_iter.go, ulist/ulist.go")], [("node, index","block and offset pointed to","ulist/ulist_iter.go UListIter")], ["IsValid","Get","Next","Prev"])

prop("C27", "2-D array cells are independent for every shape",
 "For every width and height, square or not, a new array holds the zero (or given) value everywhere and an array built from jagged rows holds exactly the given in-bounds values, ignoring all others. Setting a cell, filling a rectangle (corners in any order) or writing through a row or row-span slice changes exactly the addressed cells and no others, and reads and the string form show every cell's latest value at its own coordinates.",
 ["inputs","histories"], "every shape (including empty, single row, single column, wide and tall), every coordinate, every rectangle and span",
 "Every test and example uses a square array, for which confusing width and height is invisible.",
 ["array2d/array2d.go"], [("row-major index arithmetic, Fill, Row, RowSpan, OfJagged","array2d/array2d.go")], [("width, height, slice","shape and cells","array2d/array2d.go Array2D")], ["Get","String","Row","RowSpan","Width","Height"])

prop("C28", "2-D array rejects every out-of-range access without effect",
 "For every shape, reading or setting a cell, filling a region or taking a row or row span with any coordinate outside the array's bounds panics and changes no cell; with all coordinates inside the bounds none of them ever panics.",
 ["inputs"], "every shape and every coordinate combination, including negative ones and ones valid for the other dimension only",
 "No test passes an out-of-range coordinate or a non-square array.",
 ["array2d/array2d.go"], [("bounds checks","array2d/array2d.go Get/Set/Fill/Row/RowSpan")], [], ["panics","all cells afterwards"])

prop("C29", "Ordering helpers agree with the ordering they are given",
 "For any ordered values, or any strict-weak-order less function: comparing returns -1, 0 or 1 exactly as the first argument orders before, ranks equal to or orders after the second, the maximum and minimum return one of their arguments that no other argument exceeds or undercuts. Clamping to a range with lo not above hi returns lo if the value orders before lo, hi if hi orders before it, and otherwise the value itself (not merely one of equal rank). The default less and equality functions are the type's own operators.",
 ["inputs"], "all argument combinations over ordered types and custom orders with equal-ranking distinguishable values",
 "Each helper has one or two fixed example calls on ints or strings; ties of distinguishable values are never tried.",
 ["generic.go"], [("Compare, Less, Equals, Max, Min, Clamp, MaxFunc, MinFunc, ClampFunc","generic.go")], [], ["return values"])

prop("C30", "Hash helpers are pure functions consistent with equality",
 "Hashing equal values with the same helper always yields the same hash, however often and in whatever order values are hashed and wherever the value is stored; hashing a string and hashing the same bytes yields the same hash, and hashing never changes its input.",
 ["inputs","histories"], "all values of all supported types and every call history",
 "No test calls a hash helper directly; hashmap tests would not notice a rare inconsistency for keys they do not use.",
 ["generic.go"], [("HashInt*/HashUint*/HashString/HashBytes","generic.go")], [], ["return values","the hashed byte slices"])

prop("C31", "Separate use from several goroutines needs no locking",
 "Goroutines that run at the same time without synchronization get exactly the results, and leave exactly the contents, they would by running one after another, and no data race occurs, as long as no container (or version of a persistent rope) that one of them changes is used by another: operations that only look something up, iterate, compare, count or derive a new container change nothing, not even internally (cache lookups, which reorder, taking a copy of a hash map or hash set, which marks the original copy-on-write, and rebalancing or rebuilding a persistent rope, which rewrites nodes it shares with other versions, count as changes of all that are concerned), and containers created separately, or copies, versions and set-operation results derived from a shared one, have no hidden state in common.",
 ["schedules","histories","inputs"], "every number of goroutines, every interleaving of their steps, every container type",
 "No test starts a goroutine; a hidden write in a lookup (a memo, a lazily built view, a temporarily changed node, a package-level buffer) is invisible to one goroutine and to most interleavings of several.",
 ["avl/avl.go","btree/btree.go","hashmap/map.go","hashset/set.go","interval/itree.go","trie/trie.go","heap/heap.go","queue/queue.go","rope/rope.go","prope/prope.go","ulist/ulist.go","set/set.go"],
 [("lookup, iteration, copy and derivation operations of every container","all packages")], [], ["results of the steps of each goroutine","contents afterwards","reports of the Go race detector"])

prop("C32", "Operations do no more work than their data structure promises",
 "Whatever the history, a put, lookup or removal in an AVL tree or heap makes a number of comparisons logarithmic in the number of entries, in a B-tree logarithmic in the number of keys it ever held; puts, lookups and removals in a hash map or hash set make, averaged over any run of operations, a constant number of hash and equality calls when the hash spreads the keys; copying a hash map or set calls neither and takes constant memory until one side is changed; cache, queue and stack operations take constant time, and interval tree operations logarithmic time plus what they return; inserting into, removing from, splitting, joining and reading a rope or persistent rope takes memory and time logarithmic in its length plus what is inserted, removed or returned. No such operation visits or copies entries in proportion to those it is not about.",
 ["histories","inputs"], "every operation sequence, size and position",
 "Tests compare results, which are the same however much is visited, copied or compared; their containers hold hundreds of entries, where linear work goes unnoticed.",
 ["avl/avl.go","btree/btree.go","hashmap/map.go","heap/heap.go","interval/itree.go","cache/cache.go","rope/rope.go","prope/prope.go"],
 [("balance, node splits, growing and shrinking of tables, copy-on-write, structural sharing","avl/avl.go, btree/btree.go, hashmap/map.go, interval/itree.go, prope/prope.go")], [], ["calls of less, equals and hash","bytes allocated","processor time"])

prop("C33", "Memory held is bounded by the largest contents, not by the history",
 "However long a container is used, the memory reachable from it is bounded in proportion to the most entries it held at a time (for ropes, elements), not to the operations performed: entries that are removed, evicted, overwritten or cleared, tables that were replaced, nodes that are no longer used, versions and copies that were dropped, iterators, lookups and query results leave nothing behind. This holds for every container except the B-tree, which keeps deleted keys until it is dropped.",
 ["histories"], "every sequence of operations, however long, on every container",
 "Tests end after a few hundred operations and look at results, which are the same whether or not what was removed stays reachable.",
 ["avl/avl.go","hashmap/map.go","hashset/set.go","interval/itree.go","trie/trie.go","heap/heap.go","queue/queue.go","stack/stack.go","cache/cache.go","list/list.go","ulist/ulist.go","rope/rope.go","prope/prope.go","multimap/avl.go","bimap/bimap.go"],
 [("unlinking of nodes, shrinking of tables, pruning of unused trie nodes, dropping of empty multimap keys","trie/trie.go, list/list.go, hashmap/map.go, multimap/avl.go")], [], ["bytes reachable"])

prop("C34", "Hash helpers tell keys apart",
 "Two different values of an integer type never have the same hash under that type's helper. Different strings or byte slices that differ in number, prefix, suffix or single bytes get different hashes (collisions of the 64-bit hash are not to be met in practice). The low bits of the hash, by which tables pick a slot, depend on the whole key: the keys of any regular family, consecutive or equally spaced integers (by powers of two as well), integers that differ in one or two bits, numbered texts, fill a table of at least as many slots about as evenly as random numbers would, so that no such family degrades a hash map.",
 ["inputs"], "all values, and all regular families of keys at any offset and spacing",
 "No test calls a hash helper; maps with a few hundred small keys work, only more slowly, however badly keys are spread.",
 ["generic.go"], [("hash, HashInt*/HashUint*/HashString/HashBytes","generic.go")], [], ["return values"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
