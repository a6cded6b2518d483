From 33494652bce9c980f366f8c5d88abaf59adab10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:00 +0000
Subject: [PATCH 01/21] fix: import math in utils/comparator so that the
 package compiles

Float32Comparator and Float64Comparator use math.IsNaN but the package did
not import "math", so the package, and every container and algorithm that
takes a comparator, did not build.
---
 utils/comparator/comparator.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utils/comparator/comparator.go b/utils/comparator/comparator.go
index 32ba76d..aad362d 100644
--- a/utils/comparator/comparator.go
+++ b/utils/comparator/comparator.go
@@ -1,5 +1,7 @@
 package comparator
 
+import "math"
+
 type Ordered interface {
 	Integer | Float | ~string
 }
-- 
2.43.0


From 726c7ed7cd4187f42de0632eb1d97fa4781e77d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:02 +0000
Subject: [PATCH 02/21] fix: compare the real parts of both operands in
 Complex64Comparator

It compared real(a) with itself, so 1 ranked above 2 and the comparator was
not antisymmetric.
---
 utils/comparator/comparator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/comparator/comparator.go b/utils/comparator/comparator.go
index aad362d..f903548 100644
--- a/utils/comparator/comparator.go
+++ b/utils/comparator/comparator.go
@@ -282,7 +282,7 @@ func Complex64Comparator(a, b complex64) int {
 	if a == b {
 		return 0
 	}
-	if real(a) < real(a) {
+	if real(a) < real(b) {
 		return -1
 	}
 	if real(a) == real(b) && imag(a) < imag(b) {
-- 
2.43.0


From a1e24f6354f58ca6c97696ba0d8ea46b317c601b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:02 +0000
Subject: [PATCH 03/21] fix: make OrderedTypeCmp and the complex comparators
 total orders on NaN

OrderedTypeCmp(NaN, 1) and OrderedTypeCmp(1, NaN) both returned 1, and so did
the complex comparators with a NaN part, so a container keyed with them could
not find a NaN again and was left inconsistently ordered. Order NaN the way
Float32Comparator and Float64Comparator already do.
---
 utils/comparator/comparator.go | 42 ++++++++++++++++------------------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/utils/comparator/comparator.go b/utils/comparator/comparator.go
index f903548..94173b4 100644
--- a/utils/comparator/comparator.go
+++ b/utils/comparator/comparator.go
@@ -29,11 +29,19 @@ type Float interface {
 //	1  , if a > b
 type Comparator[T any] func(a, b T) int
 
+// OrderedTypeCmp compare a with b
+//
+//	-1 , if a < b
+//	0  , if a == b
+//	1  , if a > b
+//
+// A floating-point NaN is equal to NaN and less than any other value.
 func OrderedTypeCmp[T Ordered](a, b T) int {
-	if a == b {
+	aIsNaN, bIsNaN := a != a, b != b
+	if a == b || (aIsNaN && bIsNaN) {
 		return 0
 	}
-	if a < b {
+	if a < b || aIsNaN {
 		return -1
 	}
 	return 1
@@ -273,38 +281,28 @@ func BoolComparator(a, b bool) int {
 	return 1
 }
 
-// Complex64Comparator compare a with b
+// Complex64Comparator compare a with b by their real parts, then by their imaginary parts,
+// with NaN ordered as in Float32Comparator
 //
 //	-1 , if a < b
 //	0  , if a == b
 //	1  , if a > b
 func Complex64Comparator(a, b complex64) int {
-	if a == b {
-		return 0
+	if ret := Float32Comparator(real(a), real(b)); ret != 0 {
+		return ret
 	}
-	if real(a) < real(b) {
-		return -1
-	}
-	if real(a) == real(b) && imag(a) < imag(b) {
-		return -1
-	}
-	return 1
+	return Float32Comparator(imag(a), imag(b))
 }
 
-// Complex128Comparator compare a with b
+// Complex128Comparator compare a with b by their real parts, then by their imaginary parts,
+// with NaN ordered as in Float64Comparator
 //
 //	-1 , if a < b
 //	0  , if a == b
 //	1  , if a > b
 func Complex128Comparator(a, b complex128) int {
-	if a == b {
-		return 0
+	if ret := Float64Comparator(real(a), real(b)); ret != 0 {
+		return ret
 	}
-	if real(a) < real(b) {
-		return -1
-	}
-	if real(a) == real(b) && imag(a) < imag(b) {
-		return -1
-	}
-	return 1
+	return Float64Comparator(imag(a), imag(b))
 }
-- 
2.43.0


From ce84c85fe8160be3a53e2c46166a47bdad9a6dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:02 +0000
Subject: [PATCH 04/21] fix: chain the digests in GenHashInts

The inner "data :=" shadowed the seed, so every round hashed the seed again
and the values repeated with period 8: a ketama ring never had more than 8
points per node (10 replicas are the default), and a bloom filter with more
than 8 hash functions had a false positive rate above the one it was sized
for. The first 8 values are unchanged.
---
 algorithm/hash/hash.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algorithm/hash/hash.go b/algorithm/hash/hash.go
index 756d91f..be6ecd5 100644
--- a/algorithm/hash/hash.go
+++ b/algorithm/hash/hash.go
@@ -11,7 +11,7 @@ func GenHashInts(seed []byte, n int) []uint64 {
 	data := seed
 	var hashInts []uint64
 	for len(hashInts) < n {
-		data := Hash512(data)
+		data = Hash512(data)
 		temp := make([]uint64, len(data)/8)
 		buf := bytes.NewBuffer(data)
 		binary.Read(buf, binary.BigEndian, temp)
-- 
2.43.0


From 2172fc567eb95db69f709b1efd1f6ea0a6f5d071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:02 +0000
Subject: [PATCH 05/21] fix: stop Hamt.Traversal when the visitor returns false

Only the innermost node stopped, its parents went on with their next child.
---
 ds/hamt/hamt.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ds/hamt/hamt.go b/ds/hamt/hamt.go
index 9ca1833..03684c1 100644
--- a/ds/hamt/hamt.go
+++ b/ds/hamt/hamt.go
@@ -161,19 +161,22 @@ func (h *BitmapNode[T]) find(depth int, hash uint64, key Key) (T, error) {
 	return *new(T), ErrorNotFound
 }
 
-func (h *BitmapNode[T]) traversal(visitor visitor.KvVisitor[Key, T]) {
+func (h *BitmapNode[T]) traversal(visitor visitor.KvVisitor[Key, T]) bool {
 	for _, entry := range h.children {
 		if entry.Type() == BITMAP_NODE {
-			entry.(*BitmapNode[T]).traversal(visitor)
+			if !entry.(*BitmapNode[T]).traversal(visitor) {
+				return false
+			}
 		} else {
 			node := entry.(*KvNode[T])
 			for kv := node.kvList; kv != nil; kv = kv.next {
 				if !visitor(kv.key, kv.value) {
-					return
+					return false
 				}
 			}
 		}
 	}
+	return true
 }
 
 func (h *BitmapNode[T]) erase(depth int, hash uint64, key Key) bool {
-- 
2.43.0


From c78d13de25612ca33d6885629ec0c3ed73c07bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:02 +0000
Subject: [PATCH 06/21] fix: test for an empty ring in Ketama.Get under the
 lock it reads with

Between the Empty() call and taking the lock another goroutine could remove
the last node, and Get dereferenced a nil node.
---
 ds/ketama/ketama.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ds/ketama/ketama.go b/ds/ketama/ketama.go
index a890a76..2d202ef 100644
--- a/ds/ketama/ketama.go
+++ b/ds/ketama/ketama.go
@@ -105,16 +105,15 @@ func (k *Ketama) Remove(nodes ...string) {
 
 // Get returns the node closest to key in the clockwise direction
 func (k *Ketama) Get(key string) (string, bool) {
-	if k.Empty() {
-		return "", false
-	}
-
 	hashs := hash.GenHashInts([]byte(salt+key), 1)
 	hash := hashs[0]
 
 	k.locker.Lock()
 	defer k.locker.Unlock()
 
+	if k.m.Size() == 0 {
+		return "", false
+	}
 	iter := k.m.LowerBound(hash)
 	if iter.IsValid() {
 		return iter.Value(), true
-- 
2.43.0


From 8440df2c3fceeebc4af59e73daac74e6dc151cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:02 +0000
Subject: [PATCH 07/21] fix: let bidlist PushBackList and PushFrontList work on
 an empty list

They dereferenced the nil head.
---
 ds/list/bidlist/list.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ds/list/bidlist/list.go b/ds/list/bidlist/list.go
index bde246e..d0c4750 100644
--- a/ds/list/bidlist/list.go
+++ b/ds/list/bidlist/list.go
@@ -269,7 +269,7 @@ func (l *List[T]) moveToAfter(n, at *Node[T]) {
 // The list and other may be the same. They must not be nil.
 func (l *List[T]) PushBackList(other *List[T]) {
 	for i, n := other.Len(), other.FrontNode(); i > 0; i, n = i-1, n.Next() {
-		l.InsertAfter(n.Value, l.head.prev)
+		l.pushBack(n.Value)
 	}
 }
 
@@ -277,7 +277,7 @@ func (l *List[T]) PushBackList(other *List[T]) {
 // The list and other may be the same. They must not be nil.
 func (l *List[T]) PushFrontList(other *List[T]) {
 	for i, e := other.Len(), other.BackNode(); i > 0; i, e = i-1, e.Prev() {
-		l.InsertBefore(e.Value, l.head)
+		l.PushFront(e.Value)
 	}
 }
 
-- 
2.43.0


From a211b9b805d526183e70fbebaf9ee6dd2d99f0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:02 +0000
Subject: [PATCH 08/21] fix: let bidlist MoveAfter move the front node after
 the back node

In the ring the front node already follows the back node, so the move was
taken for a no-op although the front has to change.
---
 ds/list/bidlist/list.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ds/list/bidlist/list.go b/ds/list/bidlist/list.go
index d0c4750..08b8412 100644
--- a/ds/list/bidlist/list.go
+++ b/ds/list/bidlist/list.go
@@ -251,12 +251,15 @@ func (l *List[T]) MoveAfter(n, mark *Node[T]) {
 }
 
 func (l *List[T]) moveToAfter(n, at *Node[T]) {
-	if n == at.next || n == at {
+	if n == at {
 		return
 	}
 	if n == l.head {
 		l.head = n.next
 	}
+	if n == at.next {
+		return
+	}
 	n.prev.next = n.next
 	n.next.prev = n.prev
 	n.next = at.next
-- 
2.43.0


From d3233a38a0cb2812a8dfb6856f6c1cc0ce667306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:02 +0000
Subject: [PATCH 09/21] fix: detach the nodes in bidlist Clear

Nodes removed by Clear still counted as nodes of the list, so that passing one
to Remove made the length negative and to InsertAfter corrupted the list.
---
 ds/list/bidlist/list.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ds/list/bidlist/list.go b/ds/list/bidlist/list.go
index 08b8412..56cb1e3 100644
--- a/ds/list/bidlist/list.go
+++ b/ds/list/bidlist/list.go
@@ -190,8 +190,9 @@ func (l *List[T]) remove(n *Node[T]) *Node[T] {
 
 // Clear removes all nodes
 func (l *List[T]) Clear() {
-	l.head = nil
-	l.len = 0
+	for l.head != nil {
+		l.remove(l.head)
+	}
 }
 
 // PopBack removes the last node in the list and returns its value
-- 
2.43.0


From 484bd497678dfe89b2fbafd80f4f9e7c9fdc60ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:02 +0000
Subject: [PATCH 10/21] fix: leave a simplelist alone when InsertAfter is given
 a foreign mark

As documented, and as in bidlist. The new node was linked into the other list
while the length and possibly the tail of this one changed.
---
 ds/list/simplelist/simplelist.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ds/list/simplelist/simplelist.go b/ds/list/simplelist/simplelist.go
index dbbaa57..eb555b2 100644
--- a/ds/list/simplelist/simplelist.go
+++ b/ds/list/simplelist/simplelist.go
@@ -9,6 +9,7 @@ import (
 type Node[T any] struct {
 	next  *Node[T]
 	Value T
+	list  *List[T]
 }
 
 // Next returns the next list node or nil.
@@ -49,7 +50,7 @@ func (l *List[T]) BackNode() *Node[T] {
 
 // PushFront inserts a new node n with value v at the front of the list.
 func (l *List[T]) PushFront(v T) {
-	n := &Node[T]{Value: v}
+	n := &Node[T]{Value: v, list: l}
 	if l.len == 0 {
 		l.head = n
 		l.tail = n
@@ -62,7 +63,7 @@ func (l *List[T]) PushFront(v T) {
 
 // PushBack inserts a new node n with value v at the back of the list.
 func (l *List[T]) PushBack(v T) {
-	n := &Node[T]{Value: v}
+	n := &Node[T]{Value: v, list: l}
 	if l.len == 0 {
 		l.head = n
 		l.tail = n
@@ -77,7 +78,10 @@ func (l *List[T]) PushBack(v T) {
 // If mark is not a node of the list, the list is not modified.
 // The mark must not be nil.
 func (l *List[T]) InsertAfter(v T, mark *Node[T]) *Node[T] {
-	return l.insertAfter(&Node[T]{Value: v}, mark)
+	if mark.list != l {
+		return nil
+	}
+	return l.insertAfter(&Node[T]{Value: v, list: l}, mark)
 }
 
 func (l *List[T]) insertAfter(n, at *Node[T]) *Node[T] {
@@ -107,6 +111,7 @@ func (l *List[T]) Remove(pre, n *Node[T]) T {
 			l.tail = pre
 		}
 	}
+	n.list = nil
 	l.len--
 	return n.Value
 }
-- 
2.43.0


From 49e06f31dcfb1cee9a802e3f2809e49b0aae2ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:02 +0000
Subject: [PATCH 11/21] fix: let SliceWrapper.Last return the last position,
 not the end

---
 ds/slice/slice_wrapper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ds/slice/slice_wrapper.go b/ds/slice/slice_wrapper.go
index 32c0935..608f9d7 100644
--- a/ds/slice/slice_wrapper.go
+++ b/ds/slice/slice_wrapper.go
@@ -60,6 +60,6 @@ func (s *SliceWrapper[T]) First() *SliceIterator[T] {
 // Last returns the last iterator of s
 func (s *SliceWrapper[T]) Last() *SliceIterator[T] {
 	return &SliceIterator[T]{s: s,
-		position: s.Len(),
+		position: s.Len() - 1,
 	}
 }
-- 
2.43.0


From 754808afe040533191fbb94b3dbfc82c8df360b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:02 +0000
Subject: [PATCH 12/21] fix: order ranges of two elements in NthElement

last is inclusive here, so the guard returned before comparing the two, for
[2 1] as well as for every two-element partition.
---
 algorithm/sort/nth_element.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algorithm/sort/nth_element.go b/algorithm/sort/nth_element.go
index 9b434e1..57b8cf5 100644
--- a/algorithm/sort/nth_element.go
+++ b/algorithm/sort/nth_element.go
@@ -15,7 +15,7 @@ func NthElement[T any](first, last iterator.RandomAccessIterator[T], n int, cmp
 }
 
 func nthElement[T any](first, last iterator.RandomAccessIterator[T], n int, cmp comparator.Comparator[T]) {
-	if first.Position()+1 >= last.Position() {
+	if first.Position() >= last.Position() {
 		return
 	}
 
-- 
2.43.0


From 295e23da6f3a8b0dfbf234f0045f35bc879218d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:02 +0000
Subject: [PATCH 13/21] fix: end the recursion of Stable on an empty range

It recursed until the stack overflowed.
---
 algorithm/sort/stable_sort.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algorithm/sort/stable_sort.go b/algorithm/sort/stable_sort.go
index 1765635..db1c07b 100644
--- a/algorithm/sort/stable_sort.go
+++ b/algorithm/sort/stable_sort.go
@@ -13,7 +13,7 @@ func Stable[T any](first, last iterator.RandomAccessIterator[T], cmp comparator.
 }
 
 func mergeSort[T any](first, last iterator.RandomAccessIterator[T], cmp comparator.Comparator[T], tempSlice []T) {
-	if first.Position()+1 == last.Position() {
+	if first.Position()+1 >= last.Position() {
 		return
 	}
 	mid := first.IteratorAt((first.Position() + last.Position()) >> 1)
-- 
2.43.0


From 533de6d1f18ee1fb0c7617beaa6ff7dbb64a1471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:02 +0000
Subject: [PATCH 14/21] fix: let Reverse leave an empty range alone

It swapped elements outside the range, or panicked.
---
 algorithm/op.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/algorithm/op.go b/algorithm/op.go
index 3762592..c980e2b 100644
--- a/algorithm/op.go
+++ b/algorithm/op.go
@@ -14,6 +14,9 @@ func Swap[T any](a, b iterator.Iterator[T]) {
 
 // Reverse reverse the elements in the range [first, last]
 func Reverse[T any](first, last iterator.BidIterator[T]) {
+	if first.Equal(last) {
+		return
+	}
 	left := first.Clone().(iterator.BidIterator[T])
 	right := last.Clone().(iterator.BidIterator[T]).Prev().(iterator.BidIterator[T])
 	for !left.Equal(right) {
-- 
2.43.0


From e900bad63f97c5c5a5f4f3b50255d3655e623c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:35 +0000
Subject: [PATCH 15/21] fix: read the other set under its lock in Intersect,
 Union and Diff

Only the receiver was locked, so another goroutine changing the other
goroutine-safe set raced with the walk over it. Copy it under its own lock
first: holding both could deadlock with a pending writer.
---
 ds/set/set.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/ds/set/set.go b/ds/set/set.go
index 057be50..92725ac 100644
--- a/ds/set/set.go
+++ b/ds/set/set.go
@@ -182,9 +182,24 @@ func (s *Set[T]) String() string {
 	return str
 }
 
+// snapshot returns a copy of the set, so that another set can be combined with it
+// without holding the locks of both
+func (s *Set[T]) snapshot() *Set[T] {
+	s.locker.RLock()
+	defer s.locker.RUnlock()
+
+	set := New(s.keyCmp)
+	for node := s.tree.First(); node != nil; node = node.Next() {
+		set.tree.Insert(node.Key(), Empty)
+	}
+	return set
+}
+
 // Intersect returns a new set with the common elements in the set s and the passed set
 // Please ensure s set and other set uses the same keyCmp
 func (s *Set[T]) Intersect(other *Set[T]) *Set[T] {
+	other = other.snapshot()
+
 	s.locker.RLock()
 	defer s.locker.RUnlock()
 
@@ -209,6 +224,8 @@ func (s *Set[T]) Intersect(other *Set[T]) *Set[T] {
 // Union returns a new set with the all elements in the set s and the passed set
 // Please ensure s set and other set uses the same keyCmp
 func (s *Set[T]) Union(other *Set[T]) *Set[T] {
+	other = other.snapshot()
+
 	s.locker.RLock()
 	defer s.locker.RUnlock()
 
@@ -241,6 +258,8 @@ func (s *Set[T]) Union(other *Set[T]) *Set[T] {
 // Diff returns a new set with the elements in the set s but not in the passed set
 // Please ensure s set and other set uses the same keyCmp
 func (s *Set[T]) Diff(other *Set[T]) *Set[T] {
+	other = other.snapshot()
+
 	s.locker.RLock()
 	defer s.locker.RUnlock()
 
-- 
2.43.0


From ef8158da269f5e6d7d1f58954e20550b1833b99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:35 +0000
Subject: [PATCH 16/21] fix: keep the other nodes in place when RbTree.Delete
 removes one

Deleting a node with two children copied its successor's key and value into it
and unlinked the successor's node, so that an iterator to the successor, which
is still in the container, pointed outside the tree: advancing it skipped or
repeated elements, and erasing it corrupted the size and the tree of Map,
MultiMap, Set and MultiSet.
---
 ds/rbtree/rbtree.go | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/ds/rbtree/rbtree.go b/ds/rbtree/rbtree.go
index cf7cee9..56135b2 100644
--- a/ds/rbtree/rbtree.go
+++ b/ds/rbtree/rbtree.go
@@ -197,17 +197,43 @@ func (t *RbTree[K, V]) Delete(node *Node[K, V]) {
 		y.parent.right = x
 	}
 
+	yColor := y.color
 	if y != z {
-		z.key = y.key
-		z.value = y.value
+		// link y in z's place: copying y's data into z would leave nodes and
+		// iterators that point to y outside the tree
+		if xparent == z {
+			xparent = y
+		}
+		t.replaceNode(z, y)
 	}
 
-	if y.color {
+	if yColor {
 		t.rbDeleteFixup(x, xparent)
 	}
 	t.size--
 }
 
+// replaceNode links y, which is not in the tree, in the place of z
+func (t *RbTree[K, V]) replaceNode(z, y *Node[K, V]) {
+	y.parent = z.parent
+	y.left = z.left
+	y.right = z.right
+	y.color = z.color
+	if z.parent == nil {
+		t.root = y
+	} else if z == z.parent.left {
+		z.parent.left = y
+	} else {
+		z.parent.right = y
+	}
+	if y.left != nil {
+		y.left.parent = y
+	}
+	if y.right != nil {
+		y.right.parent = y
+	}
+}
+
 func (t *RbTree[K, V]) rbDeleteFixup(x, parent *Node[K, V]) {
 	var w *Node[K, V]
 	for x != t.root && getColor(x) {
-- 
2.43.0


From b8d4f4e5159b586082b80cce41c679fe1598b3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:35 +0000
Subject: [PATCH 17/21] fix: copy the data in the bloom filter's NewFromData

The filter kept the caller's buffer, so reusing the buffer lost elements, and
filters created from the same data changed, and raced with, each other.
---
 ds/bloomfilter/bloom.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ds/bloomfilter/bloom.go b/ds/bloomfilter/bloom.go
index dfac42f..fe56426 100644
--- a/ds/bloomfilter/bloom.go
+++ b/ds/bloomfilter/bloom.go
@@ -75,7 +75,7 @@ func NewFromData(data []byte, opts ...Option) *BloomFilter {
 	reader := bytes.NewReader(data)
 	binary.Read(reader, binary.LittleEndian, &b.m)
 	binary.Read(reader, binary.LittleEndian, &b.k)
-	b.b = bitmap.NewFromData(data[8+8:])
+	b.b = bitmap.NewFromData(append([]byte(nil), data[8+8:]...))
 	return b
 }
 
-- 
2.43.0


From b2cd82cc17285961037f0e9945591cab8b91e59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:35 +0000
Subject: [PATCH 18/21] fix: serve elements of the same priority in the order
 they were pushed

As the README states for the priority queue: "If in any case the elements have
same priority, they are served as per their ordering in the queue." The heap
alone served six equal elements as 0 5 4 3 2 1.
---
 ds/priorityqueue/priority_queue.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/ds/priorityqueue/priority_queue.go b/ds/priorityqueue/priority_queue.go
index 8f2371e..f4d8487 100644
--- a/ds/priorityqueue/priority_queue.go
+++ b/ds/priorityqueue/priority_queue.go
@@ -15,12 +15,16 @@ var (
 // ElementHolder holds elements of the PriorityQueue
 type ElementHolder[T any] struct {
 	elements []T
+	orders   []uint64 // orders[i] tells when elements[i] was pushed
+	pushed   uint64   // amount of elements pushed so far
 	cmpFun   comparator.Comparator[T]
 }
 
 // Push pushes an element to the ElementHolder
 func (h *ElementHolder[T]) Push(element T) {
 	h.elements = append(h.elements, element)
+	h.orders = append(h.orders, h.pushed)
+	h.pushed++
 }
 
 // Pop pops an element from the ElementHolder
@@ -30,6 +34,7 @@ func (h *ElementHolder[T]) Pop() T {
 	}
 	item := h.elements[h.Len()-1]
 	h.elements = h.elements[:h.Len()-1]
+	h.orders = h.orders[:h.Len()]
 	return item
 }
 
@@ -45,14 +50,17 @@ func (h *ElementHolder[T]) Len() int {
 	return len(h.elements)
 }
 
-// Len compare two elements at position i and j , and returns true if elements[i] < elements[j]
+// Less compare two elements at position i and j , and returns true if elements[i] < elements[j],
+// or if they are equal and elements[i] was pushed first
 func (h *ElementHolder[T]) Less(i, j int) bool {
-	return h.cmpFun(h.elements[i], h.elements[j]) < 0
+	ret := h.cmpFun(h.elements[i], h.elements[j])
+	return ret < 0 || ret == 0 && h.orders[i] < h.orders[j]
 }
 
 // Swap swaps two elements at position i and j
 func (h *ElementHolder[T]) Swap(i, j int) {
 	h.elements[i], h.elements[j] = h.elements[j], h.elements[i]
+	h.orders[i], h.orders[j] = h.orders[j], h.orders[i]
 }
 
 // Options holds PriorityQueue's options
@@ -133,6 +141,7 @@ func (q *PriorityQueue[T]) Clear() {
 
 	// reset cap to zero
 	q.holder.elements = q.holder.elements[:0]
+	q.holder.orders = q.holder.orders[:0]
 }
 
 // Size returns the amount of elements in the queue
-- 
2.43.0


From d7521367d64196aa03fca241ea4744ab93e77d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:24 +0000
Subject: [PATCH 19/21] fix: separate elements in String also after ones with
 an empty format

A leading element formatted as the empty string (such as "") was not
followed by a separator.
---
 ds/deque/deque.go                | 8 +++-----
 ds/list/bidlist/list.go          | 8 +++-----
 ds/list/simplelist/simplelist.go | 8 +++-----
 ds/set/multiset.go               | 8 +++-----
 ds/set/set.go                    | 8 +++-----
 5 files changed, 15 insertions(+), 25 deletions(-)

diff --git a/ds/deque/deque.go b/ds/deque/deque.go
index aced69f..8cc880d 100644
--- a/ds/deque/deque.go
+++ b/ds/deque/deque.go
@@ -385,12 +385,10 @@ func (d *Deque[T]) preIndex(index int) int {
 
 // String returns a string representation of the deque
 func (d *Deque[T]) String() string {
-	str := "["
+	str, sep := "[", ""
 	for i := 0; i < d.Size(); i++ {
-		if str != "[" {
-			str += " "
-		}
-		str += fmt.Sprintf("%v", d.At(i))
+		str += sep + fmt.Sprintf("%v", d.At(i))
+		sep = " "
 	}
 	str += "]"
 
diff --git a/ds/list/bidlist/list.go b/ds/list/bidlist/list.go
index 56cb1e3..df4e01a 100644
--- a/ds/list/bidlist/list.go
+++ b/ds/list/bidlist/list.go
@@ -287,12 +287,10 @@ func (l *List[T]) PushFrontList(other *List[T]) {
 
 // String returns a string representation of the list
 func (l *List[T]) String() string {
-	str := "["
+	str, sep := "[", ""
 	for n := l.FrontNode(); n != nil; n = n.Next() {
-		if str != "[" {
-			str += " "
-		}
-		str += fmt.Sprintf("%v", n.Value)
+		str += sep + fmt.Sprintf("%v", n.Value)
+		sep = " "
 	}
 	str += "]"
 	return str
diff --git a/ds/list/simplelist/simplelist.go b/ds/list/simplelist/simplelist.go
index eb555b2..10764d0 100644
--- a/ds/list/simplelist/simplelist.go
+++ b/ds/list/simplelist/simplelist.go
@@ -148,12 +148,10 @@ func (l *List[T]) MoveToBack(pre, n *Node[T]) {
 
 // String returns a string representation of the list
 func (l *List[T]) String() string {
-	str := "["
+	str, sep := "[", ""
 	for n := l.FrontNode(); n != nil; n = n.Next() {
-		if str != "[" {
-			str += " "
-		}
-		str += fmt.Sprintf("%v", n.Value)
+		str += sep + fmt.Sprintf("%v", n.Value)
+		sep = " "
 	}
 	str += "]"
 	return str
diff --git a/ds/set/multiset.go b/ds/set/multiset.go
index 2ae7a3f..e9362a8 100644
--- a/ds/set/multiset.go
+++ b/ds/set/multiset.go
@@ -165,12 +165,10 @@ func (ms *MultiSet[T]) Traversal(visitor visitor.Visitor[T]) {
 
 // String returns s string representation of the MultiSet
 func (ms *MultiSet[T]) String() string {
-	str := "["
+	str, sep := "[", ""
 	ms.Traversal(func(value T) bool {
-		if str != "[" {
-			str += " "
-		}
-		str += fmt.Sprintf("%v", value)
+		str += sep + fmt.Sprintf("%v", value)
+		sep = " "
 		return true
 	})
 	str += "]"
diff --git a/ds/set/set.go b/ds/set/set.go
index 92725ac..63af6d6 100644
--- a/ds/set/set.go
+++ b/ds/set/set.go
@@ -170,12 +170,10 @@ func (s *Set[T]) Traversal(visitor visitor.Visitor[T]) {
 
 // String returns a string representation of the set
 func (s *Set[T]) String() string {
-	str := "["
+	str, sep := "[", ""
 	s.Traversal(func(value T) bool {
-		if str != "[" {
-			str += " "
-		}
-		str += fmt.Sprintf("%v", value)
+		str += sep + fmt.Sprintf("%v", value)
+		sep = " "
 		return true
 	})
 	str += "]"
-- 
2.43.0


From 6a8ae04444f6ffd768adee8af3ace8c62bf66d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:23 +0000
Subject: [PATCH 20/21] fix: count an entry only once it is in the tree

A comparator that panicked at the last comparison of Insert left Size, of the
tree and of the maps and sets on it, one above what they held.
---
 ds/rbtree/rbtree.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ds/rbtree/rbtree.go b/ds/rbtree/rbtree.go
index 56135b2..ac96bc7 100644
--- a/ds/rbtree/rbtree.go
+++ b/ds/rbtree/rbtree.go
@@ -111,17 +111,18 @@ func (t *RbTree[K, V]) Insert(key K, value V) {
 	}
 
 	z := &Node[K, V]{parent: y, color: RED, key: key, value: value}
-	t.size++
 
 	if y == nil {
 		z.color = BLACK
 		t.root = z
+		t.size++
 		return
 	} else if t.keyCmp(z.key, y.key) < 0 {
 		y.left = z
 	} else {
 		y.right = z
 	}
+	t.size++
 	t.rbInsertFixup(z)
 }
 
-- 
2.43.0


From 250c3fdd331d14a0f8f28e9e56f637a1e46bc035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:23 +0000
Subject: [PATCH 21/21] fix: combine a set with itself as it is at one moment

The set was read twice, under its lock each time, so that the difference of a
set with itself was not empty when another goroutine inserted in between.
---
 ds/set/set.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ds/set/set.go b/ds/set/set.go
index 63af6d6..6c2d83c 100644
--- a/ds/set/set.go
+++ b/ds/set/set.go
@@ -196,6 +196,9 @@ func (s *Set[T]) snapshot() *Set[T] {
 // Intersect returns a new set with the common elements in the set s and the passed set
 // Please ensure s set and other set uses the same keyCmp
 func (s *Set[T]) Intersect(other *Set[T]) *Set[T] {
+	if other == s {
+		return s.snapshot()
+	}
 	other = other.snapshot()
 
 	s.locker.RLock()
@@ -222,6 +225,9 @@ func (s *Set[T]) Intersect(other *Set[T]) *Set[T] {
 // Union returns a new set with the all elements in the set s and the passed set
 // Please ensure s set and other set uses the same keyCmp
 func (s *Set[T]) Union(other *Set[T]) *Set[T] {
+	if other == s {
+		return s.snapshot()
+	}
 	other = other.snapshot()
 
 	s.locker.RLock()
@@ -256,6 +262,9 @@ func (s *Set[T]) Union(other *Set[T]) *Set[T] {
 // Diff returns a new set with the elements in the set s but not in the passed set
 // Please ensure s set and other set uses the same keyCmp
 func (s *Set[T]) Diff(other *Set[T]) *Set[T] {
+	if other == s {
+		return New(s.keyCmp)
+	}
 	other = other.snapshot()
 
 	s.locker.RLock()
-- 
2.43.0

