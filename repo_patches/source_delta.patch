From 68df1d0eccc06f86b02a40ef1282174fb2634e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:32 +0000
Subject: [PATCH 01/13] fix: array2d: use the width as row stride

Cells of non-square arrays overlapped (width > height) or could not be
addressed at all (width < height).
---
 array2d/array2d.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/array2d/array2d.go b/array2d/array2d.go
index 172283c..e8fa9ab 100644
--- a/array2d/array2d.go
+++ b/array2d/array2d.go
@@ -78,7 +78,7 @@ func (a Array2D[T]) Get(x, y int) T {
 }
 
 func (a Array2D[T]) getUnchecked(x, y int) T {
-	return a.slice[x+y*a.height]
+	return a.slice[x+y*a.width]
 }
 
 // Set sets a value in the array.
@@ -95,7 +95,7 @@ func (a Array2D[T]) Set(x, y int, value T) {
 }
 
 func (a Array2D[T]) setUnchecked(x, y int, value T) {
-	a.slice[x+y*a.height] = value
+	a.slice[x+y*a.width] = value
 }
 
 // Width returns the width of this array. The maximum x value is Width()-1.
@@ -134,7 +134,7 @@ func (a Array2D[T]) RowSpan(x1, x2, y int) []T {
 	if x2 < x1 {
 		x1, x2 = x2, x1
 	}
-	return a.slice[x1+y*a.height : 1+x2+y*a.height]
+	return a.slice[x1+y*a.width : 1+x2+y*a.width]
 }
 
 // Row returns a mutable slice for an entire row. Changing values in this slice
@@ -143,7 +143,7 @@ func (a Array2D[T]) Row(y int) []T {
 	if y < 0 || y >= a.height {
 		panic(fmt.Sprintf("array2d: y index out of range [%d] with height %d", y, a.height))
 	}
-	return a.slice[y*a.height : a.width+y*a.height]
+	return a.slice[y*a.width : a.width+y*a.width]
 }
 
 // Fill will assign all values inside the region to the specified value.
@@ -171,10 +171,10 @@ func (a Array2D[T]) Fill(x1, y1, x2, y2 int, value T) {
 	if y2 < y1 {
 		y1, y2 = y2, y1
 	}
-	firstRow := a.slice[x1+y1*a.height : 1+x2+y1*a.height]
+	firstRow := a.slice[x1+y1*a.width : 1+x2+y1*a.width]
 	fill(firstRow, value)
 	for y := y1 + 1; y <= y2; y++ {
-		copy(a.slice[x1+y*a.height:1+x2+y*a.height], firstRow)
+		copy(a.slice[x1+y*a.width:1+x2+y*a.width], firstRow)
 	}
 }
 
-- 
2.43.0


From de0ede53dd6d86632e150f21eca88660b21d3074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:32 +0000
Subject: [PATCH 02/13] fix: array2d: OfJagged ignores rows beyond the height

The documentation promises that out-of-bounds values are ignored, but
extra rows made it panic.
---
 array2d/array2d.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/array2d/array2d.go b/array2d/array2d.go
index e8fa9ab..dad7379 100644
--- a/array2d/array2d.go
+++ b/array2d/array2d.go
@@ -32,6 +32,9 @@ func NewFilled[T any](width, height int, value T) Array2D[T] {
 func OfJagged[J ~[]S, S ~[]E, E any](width, height int, jagged J) Array2D[E] {
 	arr := New[E](width, height)
 	for y, row := range jagged {
+		if y >= height {
+			break
+		}
 		copy(arr.Row(y), row)
 	}
 	return arr
-- 
2.43.0


From 6ceaeb8dc7935942175963f90a82977b00fab76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:32 +0000
Subject: [PATCH 03/13] fix: set: IsDisjoint returned the opposite of the truth

---
 set/set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/set/set.go b/set/set.go
index cb9cdf5..e5abf3b 100644
--- a/set/set.go
+++ b/set/set.go
@@ -145,7 +145,7 @@ func (s Set[K]) Keys() []K {
 
 func (s Set[K]) IsDisjoint(other SetOf[K]) bool {
 	// TODO: maybe optimize?
-	return s.Intersection(other).Size() > 0
+	return s.Intersection(other).Size() == 0
 }
 
 func (s Set[K]) IsSubset(of SetOf[K]) bool {
-- 
2.43.0


From 2bcf03ce9e21985c4d194df82583bf1d65ad1858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:32 +0000
Subject: [PATCH 04/13] fix: set: do not remove from a set while iterating over
 it

Removing from a hashset moves entries of the same probe cluster to slots
that the running iteration has already passed, so InPlaceIntersection (and
InPlaceDifference with the receiver itself as operand) left elements in.
---
 set/set.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/set/set.go b/set/set.go
index e5abf3b..9916c5a 100644
--- a/set/set.go
+++ b/set/set.go
@@ -108,20 +108,22 @@ func (s Set[K]) SymmetricDifference(others ...SetOf[K]) Set[K] {
 
 func (s Set[K]) InPlaceIntersection(others ...SetOf[K]) Set[K] {
 	for _, other := range others {
-		s.Each(func(key K) {
+		for _, key := range s.Keys() {
 			if !other.Has(key) {
 				s.Remove(key)
 			}
-		})
+		}
 	}
 	return s
 }
 
 func (s Set[K]) InPlaceDifference(others ...SetOf[K]) Set[K] {
 	for _, other := range others {
-		other.Each(func(key K) {
-			s.Remove(key)
-		})
+		for _, key := range s.Keys() {
+			if other.Has(key) {
+				s.Remove(key)
+			}
+		}
 	}
 	return s
 }
-- 
2.43.0


From 51b3bfbbdca5c510bf5d09a7d053fe3ef9c4b391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:32 +0000
Subject: [PATCH 05/13] fix: btree: overwriting a key does not change the size

---
 btree/btree.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/btree/btree.go b/btree/btree.go
index c96e2ea..7f461b4 100644
--- a/btree/btree.go
+++ b/btree/btree.go
@@ -77,8 +77,11 @@ func (t *Tree[K, V]) search(x *node[K, V], key K, height int) (V, bool) {
 
 // Put associates 'key' with 'val'.
 func (t *Tree[K, V]) Put(key K, val V) {
+	_, exists := t.Get(key)
 	u := t.insert(t.root, key, val, t.height, true)
-	t.n++
+	if !exists {
+		t.n++
+	}
 	if u == nil {
 		return
 	}
-- 
2.43.0


From 8d8695c6dd1b04998bbfd2d1e871b9aef7646beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:32 +0000
Subject: [PATCH 06/13] fix: hashmap: Clear must not write to a table shared
 with copies

---
 hashmap/map.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hashmap/map.go b/hashmap/map.go
index 088978a..8544f5d 100644
--- a/hashmap/map.go
+++ b/hashmap/map.go
@@ -172,6 +172,13 @@ func (m *Map[K, V]) Remove(key K) {
 
 // Clear removes all key-value pairs from the map.
 func (m *Map[K, V]) Clear() {
+	if m.readonly {
+		m.entries = make([]entry[K, V], m.capacity)
+		m.length = 0
+		m.readonly = false
+		return
+	}
+
 	for idx, entry := range m.entries {
 		if entry.filled {
 			m.remove(uint64(idx))
-- 
2.43.0


From 5ad42058a18c85eb58d7b639cba61a0feb92510a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:33 +0000
Subject: [PATCH 07/13] fix: trie: removing an absent key does not change the
 size

---
 trie/trie.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trie/trie.go b/trie/trie.go
index d01739d..b251082 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -145,7 +145,7 @@ func (t *Trie[V]) put(x *node[V], key string, val V, d int) *node[V] {
 // Remove removes the value associated with 'key', along with any nodes of the key that are no
 // longer used.
 func (t *Trie[V]) Remove(key string) {
-	if len(key) == 0 {
+	if !t.Contains(key) {
 		return
 	}
 
-- 
2.43.0


From d5fd0aa5357080ac4fd16f48e32c75196ffd99b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:33 +0000
Subject: [PATCH 08/13] fix: rope: Rebuild left an inner node without children

Every use of a rope after Rebuild (or a Rebalance that rebuilt a node)
panicked with a nil dereference.
---
 rope/rope.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rope/rope.go b/rope/rope.go
index 6fb6c75..199d2ef 100644
--- a/rope/rope.go
+++ b/rope/rope.go
@@ -234,6 +234,7 @@ func (n *Node[V]) Rebuild() {
 		n.value = concat(n.left.Value(), n.right.Value())
 		n.left = nil
 		n.right = nil
+		n.kind = tLeaf
 		n.adjust()
 	}
 }
-- 
2.43.0


From 7715d59a2a19f7f9301d1215730679e5f18ff388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:33 +0000
Subject: [PATCH 09/13] fix: rope: inserting a slice read from the same rope
 inserted garbage

After a Remove left spare capacity in a leaf, Insert shifted the leaf in
place before copying the inserted slice out of it.
---
 rope/rope.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rope/rope.go b/rope/rope.go
index 199d2ef..8ff7c11 100644
--- a/rope/rope.go
+++ b/rope/rope.go
@@ -109,6 +109,9 @@ func (n *Node[V]) Remove(start, end int) {
 		// slice tricks delete
 		n.value = append(n.value[:start], n.value[end:]...)
 		n.length = len(n.value)
+		// Drop the spare capacity: inserting in place would overwrite the
+		// inserted slice if it was read from this node.
+		n.value = n.value[:n.length:n.length]
 	case tNode:
 		leftLength := n.left.length
 		leftStart := g.Min(start, leftLength)
-- 
2.43.0


From 9ec259bbe32d9446277cf575654881a7406c6419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:33 +0000
Subject: [PATCH 10/13] fix: ulist: Remove at the end of a block moves the
 iterator to the next block

---
 ulist/ulist.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ulist/ulist.go b/ulist/ulist.go
index 0249f92..abf21ef 100644
--- a/ulist/ulist.go
+++ b/ulist/ulist.go
@@ -127,6 +127,11 @@ func (ul *UList[V]) Remove(iter *UListIter[V]) {
 		iter.Next()
 		return
 	}
+	if iter.index == len(iter.node.Value) && iter.node.Next != nil {
+		// The last entry of the block was removed, and there is a next block.
+		iter.node = iter.node.Next
+		iter.index = 0
+	}
 }
 
 func hasCapacity[V any](llNode *list.Node[ulistBlk[V]]) bool {
-- 
2.43.0


From f7361fb43507ce5a6661d2fe3e8e7d1e80dafab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:33 +0000
Subject: [PATCH 11/13] fix: cache: Put into a cache of capacity zero panicked

---
 cache/cache.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cache/cache.go b/cache/cache.go
index b67844b..c585c39 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -54,6 +54,9 @@ func (t *Cache[K, V]) Put(k K, e V) {
 		return
 	}
 
+	if t.capacity == 0 {
+		return // nothing fits
+	}
 	if len(t.table) == t.capacity {
 		t.evict()
 	}
-- 
2.43.0


From bc29030a5ba9b232864bddbad7d5eb5f64b99467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:33 +0000
Subject: [PATCH 12/13] fix: cache: a callback that uses the cache corrupted it

The callback may move or remove the back of the recency list; evict then
removed a different node from the list than from the table.
---
 cache/cache.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cache/cache.go b/cache/cache.go
index c585c39..bf05359 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -75,8 +75,7 @@ func (t *Cache[K, V]) evict() {
 	if t.evictCb != nil {
 		t.evictCb(entry.Key, entry.Val)
 	}
-	t.lru.Remove(t.lru.Back)
-	delete(t.table, entry.Key)
+	t.Remove(entry.Key)
 }
 
 // Remove causes the entry associated with the given key to be immediately
-- 
2.43.0


From b084c497c2340bf7f03939db35a575d2d3eaaafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:45 +0000
Subject: [PATCH 13/13] fix: prope: Remove copied the whole rope

Subtrees without any removed element were rebuilt node by node, so removing
a single element took time and space linear in the length of the rope
instead of the documented O(lg n). Share them, and do not visit subtrees
that are removed entirely.
---
 prope/prope.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/prope/prope.go b/prope/prope.go
index cfca004..d77104b 100644
--- a/prope/prope.go
+++ b/prope/prope.go
@@ -116,6 +116,12 @@ func (n *Node[V]) Insert(pos int, value []V) *Node[V] {
 // Remove returns a new version of the rope with the elements
 // in the [start:end) range removed.
 func (n *Node[V]) Remove(start, end int) *Node[V] {
+	if start >= end {
+		return n // nothing to remove: share the whole node
+	}
+	if start == 0 && end == n.length {
+		return New([]V{})
+	}
 	if n.kind == tLeaf {
 		return New(remove(n.value, start, end))
 	}
-- 
2.43.0

