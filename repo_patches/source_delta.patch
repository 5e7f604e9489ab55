From 904c34210aef5cf29f06e77fc25e8a252d66e036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:47 +0000
Subject: [PATCH 01/22] fix: recycling a node of exactly 258 slots indexed past
 the recycler lists

---
 allocator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allocator.go b/allocator.go
index 6db5d74..b79dbc1 100644
--- a/allocator.go
+++ b/allocator.go
@@ -178,7 +178,7 @@ func (a *Allocator) endOp() {
 }
 
 func (a *Allocator) recycle(node uint64, slots int) {
-	if slots > len(a.recycler) {
+	if slots >= len(a.recycler) {
 		return
 	}
 	e := atomic.LoadUint64(a.globalEpoch)
-- 
2.43.0


From e4b8f38502fd7167129ef8fa877080d0fca786ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:48 +0000
Subject: [PATCH 02/22] fix: DeleteOperation.Abort passed the nodes to
 unlockNodes3 in the wrong order

---
 delete.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delete.go b/delete.go
index b7537db..5042ad2 100644
--- a/delete.go
+++ b/delete.go
@@ -341,7 +341,7 @@ func (op *DeleteOperation) Abort() {
 	case deleteLeaf, replaceNodeWithLeaf:
 		op.unlock()
 	case replaceNodeWithNode:
-		op.idx.unlockNodes3(op.parent, op.node, op.child)
+		op.unlock3()
 	}
 	op.allocator.endOp()
 	if op.releaseAlloc {
-- 
2.43.0


From 482a3394e305675ad5b65380ccce1b868c682390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:48 +0000
Subject: [PATCH 03/22] fix: deleting from a node-256 without locks lost the
 delete when the node was copied concurrently

---
 delete.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/delete.go b/delete.go
index 5042ad2..9511766 100644
--- a/delete.go
+++ b/delete.go
@@ -155,6 +155,11 @@ searchLoop:
 				return false
 			}
 			if isLeaf(a) {
+				// lock node and parent, a concurrent copy of the node would otherwise lose the delete
+				if !op.lock() {
+					runtime.Gosched()
+					goto S
+				}
 				op.raw = a
 				op.leafPtr = p
 				op.kind = deleteLeaf256
@@ -323,6 +328,7 @@ func (op *DeleteOperation) Finalize() (deleted bool) {
 		if deleted {
 			op.allocator.itemCounter--
 		}
+		op.unlock()
 	}
 	op.allocator.endOp()
 	if op.releaseAlloc {
@@ -338,7 +344,7 @@ func (op *DeleteOperation) Abort() {
 	switch op.kind {
 	case deleteRoot:
 		op.idx.unlockRoot()
-	case deleteLeaf, replaceNodeWithLeaf:
+	case deleteLeaf, deleteLeaf256, replaceNodeWithLeaf:
 		op.unlock()
 	case replaceNodeWithNode:
 		op.unlock3()
-- 
2.43.0


From 43dd01036b442c47890d9db9cd23028e7d45b627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:49 +0000
Subject: [PATCH 04/22] fix: nodes sharing a lock were locked together without
 comparing their generations

---
 locks.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/locks.go b/locks.go
index ad61f9e..a9a13c0 100644
--- a/locks.go
+++ b/locks.go
@@ -50,6 +50,13 @@ func (idx *Tree) lockNodes3(child uint64, childGen int32, node uint64, nodeGen i
 	// lock child
 	block := child >> blockSlotsShift
 	lock := child & lockOffsetMask
+	// when a lock is shared all generations must agree, otherwise one of the nodes has changed since its generation was read
+	if node>>blockSlotsShift == block && node&lockOffsetMask == lock && nodeGen != childGen {
+		return false
+	}
+	if parent>>blockSlotsShift == block && parent&lockOffsetMask == lock && parentGen != childGen {
+		return false
+	}
 	if !atomic.CompareAndSwapInt32(&idx.blocks[block].locks[lock], childGen, childGen+1) {
 		return false
 	}
@@ -135,6 +142,10 @@ func (idx *Tree) lockNodes2(node uint64, nodeGen int32, parent uint64, parentGen
 			atomic.AddInt32(&idx.blocks[block].locks[lock], -1)
 			return false
 		}
+	} else if parentGen != nodeGen {
+		// the lock is shared, and one of the nodes has changed since its generation was read
+		atomic.AddInt32(&idx.blocks[block].locks[lock], -1)
+		return false
 	}
 	return true
 }
-- 
2.43.0


From 59df471c0b7d81da1bdef4b59b5eb6f6b3132328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:50 +0000
Subject: [PATCH 05/22] fix: iterator restarted from the beginning when its
 last batch was a full one

---
 iterator.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/iterator.go b/iterator.go
index 6954a4f..6c86220 100644
--- a/iterator.go
+++ b/iterator.go
@@ -233,11 +233,16 @@ searchLoop:
 func (i *Iterator) storeResumePosition() {
 	// first trim consecutive items without any more children from end of stack
 	var j int
-	for j = len(i.stack) - 1; j > 0; j-- {
+	for j = len(i.stack) - 1; j >= 0; j-- {
 		if i.stack[j].more {
 			break
 		}
 	}
+	if j < 0 {
+		// nothing left to scan
+		i.done = true
+		return
+	}
 	i.stack = i.stack[:j+1]
 
 	// traverse stack from start to end to build the partial key we should continue from
-- 
2.43.0


From a5f2c1656af2d2a9e7e0af9cf37176c1da49d3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:23 +0000
Subject: [PATCH 06/22] fix: iterator repeated or skipped items when the tree
 changed between its batches

---
 iterator.go | 117 ++++++++++++++++++++++++++++------------------------
 1 file changed, 62 insertions(+), 55 deletions(-)

diff --git a/iterator.go b/iterator.go
index 6c86220..4013ad6 100644
--- a/iterator.go
+++ b/iterator.go
@@ -1,6 +1,7 @@
 package radix
 
 import (
+	"bytes"
 	"sync"
 	"sync/atomic"
 )
@@ -69,9 +70,12 @@ func (i *Iterator) Next() bool {
 	alloc.startOp()
 
 	// 2. seek to start
-	var raw uint64
+	var (
+		raw   uint64
+		depth int
+	)
 	if len(i.searchPrefix) > 0 {
-		raw, _ = i.idx.partialSearch(i.searchPrefix)
+		raw, depth = i.idx.partialSearch(i.searchPrefix)
 	} else {
 		raw = atomic.LoadUint64(&i.idx.root)
 	}
@@ -84,78 +88,75 @@ func (i *Iterator) Next() bool {
 	if isLeaf(raw) {
 		alloc.endOp()
 		i.idx.ReleaseAllocator(alloc)
+		i.prefetched = i.prefetched[:0]
 		i.pp = 0
 		i.value = getLeafValue(raw)
 		i.done = true
 		return true
 	}
 
-	// 3. seek to the partial key where we last left of, while building stack
-	// we traverse i.resumeAt to reposition raw & nextChild
-	nextChild := 0
+	// 3. seek to the key path where we last left of, while building stack
+	// we traverse i.resumeAt (which starts at the root) to reposition raw & nextChild
+	// the tree might have changed since, so we look for the first child not before i.resumeAt
+	var (
+		nextChild = 0
+		prefix    []byte
+	)
 preSearchLoop:
-	for k := 0; k < len(i.resumeAt); k++ {
+	for k := depth; k < len(i.resumeAt); k++ {
 		_, node, count, prefixLen := explodeNode(raw)
 		data := i.idx.getNodeData(node)
+		nextChild = 0
 		if prefixLen > 0 {
 			var prefixSlots int
-			if prefixLen == 255 {
-				prefixLen = int(data[0])
-				prefixSlots = ((prefixLen + 15) >> 3)
-			} else {
-				prefixSlots = ((prefixLen + 7) >> 3)
-			}
+			prefix, prefixSlots = appendPrefix(prefix[:0], data, prefixLen)
 			data = data[prefixSlots:]
-			k += prefixLen
-			if k >= len(i.resumeAt) {
+			if len(prefix) >= len(i.resumeAt)-k {
+				if bytes.Compare(prefix, i.resumeAt[k:]) < 0 {
+					nextChild = count
+				}
+				break preSearchLoop
+			}
+			if c := bytes.Compare(prefix, i.resumeAt[k:k+len(prefix)]); c != 0 {
+				if c < 0 {
+					// the whole node is before i.resumeAt
+					nextChild = count
+				}
 				break preSearchLoop
 			}
+			k += len(prefix)
 		}
 
 		char := i.resumeAt[k]
 		if count >= fullAllocFrom {
-			// check a fixed size node-256
-			a := atomic.LoadUint64(&data[int(char)])
-			if a != 0 && byte(a) == char {
-				if isLeaf(a) {
-					nextChild = int(char)
-					break preSearchLoop
-				}
-				// child node found
-				// since it's a node-256 we need to check if there are any more children in this node
-				var next int
-				for next = int(char) + 1; next < count; next++ {
-					if atomic.LoadUint64(&data[next]) != 0 {
-						break
-					}
-				}
-				// go down into this node, saving the current position on the stack
-				i.stack = append(i.stack, position{raw, next, next < count})
-				raw = a
-				continue preSearchLoop
+			// fixed size node-256
+			nextChild = int(char)
+		} else {
+			// variable sized node
+			for nextChild < count && byte(atomic.LoadUint64(&data[nextChild])) < char {
+				nextChild++
+			}
+			if nextChild == count {
+				break preSearchLoop
 			}
-			// if no node was found, it means that this subtree might have been deleted since last iteration
-			// what are our options in this case ?
+		}
+		a := atomic.LoadUint64(&data[nextChild])
+		if a == 0 || byte(a) != char || isLeaf(a) {
 			break preSearchLoop
-		} else {
-			// scan a variable sized node
-			for l := range data[:count] {
-				a := atomic.LoadUint64(&data[l])
-				if byte(a) == char {
-					if isLeaf(a) {
-						nextChild = l
-						break preSearchLoop
-					}
-					// go down into this node, saving the current position on the stack
-					i.stack = append(i.stack, position{raw, l + 1, l+1 < count})
-					raw = a
-					continue preSearchLoop
+		}
+		// go down into this node, saving the current position on the stack
+		next := nextChild + 1
+		if count >= fullAllocFrom {
+			// since it's a node-256 we need to check if there are any more children in this node
+			for ; next < count; next++ {
+				if atomic.LoadUint64(&data[next]) != 0 {
+					break
 				}
 			}
-			// if no node was found, it means that this subtree might have been deleted since last iteration
-			// what are our options in this case ?
-			break
 		}
+		i.stack = append(i.stack, position{raw, next, next < count})
+		raw = a
+		nextChild = 0
 	}
 
 	// 4. continue the scan, adding leaves to the prefetched array
@@ -208,7 +209,7 @@ searchLoop:
 		}
 		// if we have prefetched enough values, save the position and abort the scan
 		if len(i.prefetched) > defaultPrefetchLength {
-			i.storeResumePosition()
+			i.storeResumePosition(depth)
 			break
 		}
 		// pop from stack
@@ -230,7 +231,8 @@ searchLoop:
 	return false
 }
 
-func (i *Iterator) storeResumePosition() {
+// storeResumePosition saves the key path to continue from, depth is the number of bytes of the search prefix leading to the first node on the stack
+func (i *Iterator) storeResumePosition(depth int) {
 	// first trim consecutive items without any more children from end of stack
 	var j int
 	for j = len(i.stack) - 1; j >= 0; j-- {
@@ -246,9 +248,9 @@ func (i *Iterator) storeResumePosition() {
 	i.stack = i.stack[:j+1]
 
 	// traverse stack from start to end to build the partial key we should continue from
-	i.resumeAt = i.resumeAt[:0]
+	i.resumeAt = append(i.resumeAt[:0], i.searchPrefix[:depth]...)
 	for j, pos := range i.stack {
-		key, node, _, prefixLen := explodeNode(pos.node)
+		key, node, count, prefixLen := explodeNode(pos.node)
 		data := i.idx.getNodeData(node)
 		if j > 0 {
 			i.resumeAt = append(i.resumeAt, key)
@@ -259,6 +261,11 @@ func (i *Iterator) storeResumePosition() {
 		}
 		// for the last stack item, we need to add the nextChild too
 		if j == len(i.stack)-1 {
+			if count >= fullAllocFrom {
+				// the slot might have been cleared by now
+				i.resumeAt = append(i.resumeAt, byte(pos.k))
+				break
+			}
 			a := atomic.LoadUint64(&data[prefixSlots+pos.k])
 			i.resumeAt = append(i.resumeAt, byte(a))
 		}
-- 
2.43.0


From cf536aa8099734ab2b22302b48671a7becc50abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:23 +0000
Subject: [PATCH 07/22] fix: searching an empty tree read block 0, which might
 not be allocated yet

---
 radix.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/radix.go b/radix.go
index d8479c0..2729ac9 100644
--- a/radix.go
+++ b/radix.go
@@ -313,7 +313,7 @@ func (idx *Tree) getNodeFromRaw(raw uint64) (count, prefixLen int, data []uint64
 
 func (idx *Tree) partialSearch(searchPrefix []byte) (raw uint64, depth int) {
 	root := atomic.LoadUint64(&idx.root)
-	if len(searchPrefix) == 0 {
+	if root == 0 || len(searchPrefix) == 0 {
 		return root, 0
 	}
 	if isLeaf(root) {
@@ -508,6 +508,9 @@ func (idx *Tree) Count(searchPrefix []byte) (nodes, leaves int) {
 func (idx *Tree) search(key []byte) (uint64, bool) {
 	depth := 0
 	root := atomic.LoadUint64(&idx.root)
+	if root == 0 {
+		return 0, false
+	}
 	if isLeaf(root) {
 		if byte(root) == key[0] {
 			return getLeafValue(root), true
-- 
2.43.0


From a9241b1437d7d7068ea6acea22b9ca3c6c8830a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:24 +0000
Subject: [PATCH 08/22] fix: looking up or deleting an empty key panicked when
 the tree had a single leaf

---
 delete.go | 2 +-
 radix.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/delete.go b/delete.go
index 9511766..976f63a 100644
--- a/delete.go
+++ b/delete.go
@@ -83,7 +83,7 @@ S:
 		return false
 	}
 	if isLeaf(root) {
-		if byte(root) == key[0] {
+		if len(key) > 0 && byte(root) == key[0] {
 			if !op.idx.lockLeafRoot(root) {
 				runtime.Gosched()
 				goto S
diff --git a/radix.go b/radix.go
index 2729ac9..336e817 100644
--- a/radix.go
+++ b/radix.go
@@ -512,7 +512,7 @@ func (idx *Tree) search(key []byte) (uint64, bool) {
 		return 0, false
 	}
 	if isLeaf(root) {
-		if byte(root) == key[0] {
+		if len(key) > 0 && byte(root) == key[0] {
 			return getLeafValue(root), true
 		}
 		return 0, false
-- 
2.43.0


From 46b3ef47c0a5c43854622bc8c94664904c4c29dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:25 +0000
Subject: [PATCH 09/22] fix: MinKey and MaxKey read nodes without reserving the
 epoch

---
 radix.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/radix.go b/radix.go
index 336e817..8528785 100644
--- a/radix.go
+++ b/radix.go
@@ -395,6 +395,11 @@ searchLoop:
 // For example, if we store temperature readings using the key "temp_TIMESTAMP" where timestamp is an 8 byte BigEndian ns timestamp
 // MaxKey([]byte("temp_")) returns the last made reading.
 func (idx *Tree) MaxKey(searchPrefix []byte) (v uint64, ok bool) {
+	// reserve the current epoch while reading
+	alloc := idx.GetAllocator()
+	defer idx.ReleaseAllocator(alloc)
+	alloc.startOp()
+	defer alloc.endOp()
 	raw, _ := idx.partialSearch(searchPrefix)
 	if raw == 0 {
 		return 0, false
@@ -447,6 +452,11 @@ searchLoop:
 // Minimum means the first key in the lexicographic order. If keys are uint64 in BigEndian it is also the smallest number.
 // If ok is false the index is empty.
 func (idx *Tree) MinKey(searchPrefix []byte) (v uint64, ok bool) {
+	// reserve the current epoch while reading
+	alloc := idx.GetAllocator()
+	defer idx.ReleaseAllocator(alloc)
+	alloc.startOp()
+	defer alloc.endOp()
 	raw, _ := idx.partialSearch(searchPrefix)
 	if raw == 0 {
 		return 0, false
-- 
2.43.0


From 58f035987aa4ae220aeb0db349cc2aef1c6c7d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:11 +0000
Subject: [PATCH 10/22] fix: a node-256 was kept without any children, and then
 blocked shorter keys and MinKey/MaxKey

---
 delete.go | 36 ++++++++++++++++++++++++++++--------
 radix.go  |  3 +++
 2 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/delete.go b/delete.go
index 976f63a..3ac4c3d 100644
--- a/delete.go
+++ b/delete.go
@@ -160,7 +160,6 @@ searchLoop:
 					runtime.Gosched()
 					goto S
 				}
-				op.raw = a
 				op.leafPtr = p
 				op.kind = deleteLeaf256
 				op.Value = getLeafValue(a)
@@ -321,14 +320,35 @@ func (op *DeleteOperation) Finalize() (deleted bool) {
 		deleted = true
 
 	case deleteLeaf256:
-		// PARAMETERS: op.leafPtr, op.raw
-		// TODO(oscar): replace with a variable sized node when the threshold size is reached?
-		// TODO(oscar): replace with a leaf when there is only one child left
-		deleted = atomic.CompareAndSwapUint64(op.leafPtr, op.raw, 0)
-		if deleted {
-			op.allocator.itemCounter--
+		// PARAMETERS: op.node, op.parent, op.nodePtr, op.raw, op.leafPtr, op.prefixLen, op.prefixSlots
+		src := op.data[op.prefixSlots : op.prefixSlots+256]
+		left := -1
+		for i := range src {
+			if src[i] != 0 {
+				left++
+			}
 		}
-		op.unlock()
+		if left > shrinkAt {
+			atomic.StoreUint64(op.leafPtr, 0)
+			op.unlock()
+		} else {
+			// replace it with a variable sized node, so that it never ends up without children
+			newNode, dst := op.idx.allocateNode(op.allocator, left, op.prefixLen)
+			copy(dst, op.data[:op.prefixSlots])
+			dst = dst[op.prefixSlots:]
+			n := 0
+			for i := range src {
+				if src[i] != 0 && &src[i] != op.leafPtr {
+					dst[n] = src[i]
+					n++
+				}
+			}
+			atomic.StoreUint64(op.nodePtr, buildNode(byte(op.raw), newNode, left, op.prefixLen))
+			op.unlock()
+			op.allocator.recycle(op.node, 256+op.prefixSlots)
+		}
+		op.allocator.itemCounter--
+		deleted = true
 	}
 	op.allocator.endOp()
 	if op.releaseAlloc {
diff --git a/radix.go b/radix.go
index 8528785..70607e0 100644
--- a/radix.go
+++ b/radix.go
@@ -44,6 +44,9 @@ const (
 
 	fullAllocFrom  = 128
 	fullAllocAfter = fullAllocFrom - 1
+
+	// a node-256 left with this number of children is replaced with a variable sized node
+	shrinkAt = fullAllocFrom / 2
 )
 
 const (
-- 
2.43.0


From 752b9927df60c9cb6ceeea7d56d66cc59bbbb9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:11 +0000
Subject: [PATCH 11/22] fix: MinKey and MaxKey gave up at a node-256 without
 leaves instead of going back in the tree

---
 radix.go | 91 ++++++++++++--------------------------------------------
 1 file changed, 19 insertions(+), 72 deletions(-)

diff --git a/radix.go b/radix.go
index 70607e0..ba63517 100644
--- a/radix.go
+++ b/radix.go
@@ -410,45 +410,7 @@ func (idx *Tree) MaxKey(searchPrefix []byte) (v uint64, ok bool) {
 	if isLeaf(raw) {
 		return getLeafValue(raw), true
 	}
-	// now find the max
-searchLoop:
-	for {
-		_, node, count, prefixLen := explodeNode(raw)
-		block := int(node >> blockSlotsShift)
-		offset := int(node & blockSlotsOffsetMask)
-		data := idx.blocks[block].data[offset:]
-		var prefixSlots int
-		if prefixLen > 0 {
-			if prefixLen == 255 {
-				prefixLen = int(data[0])
-				prefixSlots = (prefixLen + 15) >> 3
-			} else {
-				prefixSlots = (prefixLen + 7) >> 3
-			}
-			data = data[prefixSlots:]
-		}
-		if count >= fullAllocFrom {
-			// find max, iterate from top
-			for k := 255; k >= 0; k-- {
-				a := atomic.LoadUint64(&data[k])
-				if a != 0 {
-					if isLeaf(a) {
-						return getLeafValue(a), true
-					}
-					raw = a
-					continue searchLoop
-				}
-			}
-			// BUG: this might happen if all children in the node has been deleted, since we currently don't shrink node-256. we should go back in the tree!
-			return 0, false
-		}
-		// load the last child (since they are ordered)
-		a := atomic.LoadUint64(&data[count-1])
-		if isLeaf(a) {
-			return getLeafValue(a), true
-		}
-		raw = a
-	}
+	return idx.edgeLeaf(raw, true)
 }
 
 // MinKey returns the minimum key having the given searchPrefix, or the minimum key in the whole index if searchIndex is nil.
@@ -467,45 +429,30 @@ func (idx *Tree) MinKey(searchPrefix []byte) (v uint64, ok bool) {
 	if isLeaf(raw) {
 		return getLeafValue(raw), true
 	}
-	// now find the min
-searchLoop:
-	for {
-		_, node, count, prefixLen := explodeNode(raw)
-		block := int(node >> blockSlotsShift)
-		offset := int(node & blockSlotsOffsetMask)
-		data := idx.blocks[block].data[offset:]
-		var prefixSlots int
-		if prefixLen > 0 {
-			if prefixLen == 255 {
-				prefixLen = int(data[0])
-				prefixSlots = (prefixLen + 15) >> 3
-			} else {
-				prefixSlots = (prefixLen + 7) >> 3
-			}
-			data = data[prefixSlots:]
+	return idx.edgeLeaf(raw, false)
+}
+
+// edgeLeaf returns the value of the last or the first leaf below the given node.
+func (idx *Tree) edgeLeaf(raw uint64, last bool) (v uint64, ok bool) {
+	count, _, data := idx.getNodeFromRaw(raw)
+	for i := 0; i < count; i++ {
+		k := i
+		if last {
+			k = count - 1 - i
 		}
-		if count >= fullAllocFrom {
-			// find min, iterate from bottom
-			for k := range data[:count] {
-				a := atomic.LoadUint64(&data[k])
-				if a != 0 {
-					if isLeaf(a) {
-						return getLeafValue(a), true
-					}
-					raw = a
-					continue searchLoop
-				}
-			}
-			// BUG: this might happen if all children in the node has been deleted, since we currently don't shrink node-256. we should go back in the tree!
-			return 0, false
+		a := atomic.LoadUint64(&data[k])
+		if a == 0 {
+			continue
 		}
-		// load first child (since they are ordered)
-		a := atomic.LoadUint64(&data[0])
 		if isLeaf(a) {
 			return getLeafValue(a), true
 		}
-		raw = a
+		// the leaves of a node-256 might be deleted while we scan it, go on with the next child then
+		if v, ok = idx.edgeLeaf(a, last); ok {
+			return v, true
+		}
 	}
+	return 0, false
 }
 
 // NewIterator returns an Iterator for iterating in order over all keys having the given prefix, or the complete index if searchPrefix is nil.
-- 
2.43.0


From 732547347f85f6a15977fefffb1629ec6a83fe3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:12 +0000
Subject: [PATCH 12/22] fix: Len, Stop, Start and Admin released allocators
 held by others when called concurrently, and Len restarted a stopped tree

---
 admin.go | 13 +++++--------
 radix.go | 38 ++++++++++++++++++++++++++++++--------
 2 files changed, 35 insertions(+), 16 deletions(-)

diff --git a/admin.go b/admin.go
index 207ca6e..ff5425b 100644
--- a/admin.go
+++ b/admin.go
@@ -31,18 +31,15 @@ func (idx *Tree) Admin(out io.Writer, argv []string) {
 	case "allocators":
 		switch {
 		case len(argv) == 1:
-			// withdraw all allocators
-			var a []int
-			for i := 0; i < len(idx.allocators); i++ {
-				a = append(a, idx.allocatorQueue.get())
+			idx.stopLock.Lock()
+			defer idx.stopLock.Unlock()
+			if !idx.stopped {
+				idx.withdrawAllocators()
+				defer idx.releaseAllocators()
 			}
 			for i, a := range idx.allocators {
 				a.printStats(out, i)
 			}
-			// release allocators again
-			for i := range a {
-				idx.allocatorQueue.put(a[i])
-			}
 
 			// case argv[1] == "reservations":
 			// 	printReservations(out)
diff --git a/radix.go b/radix.go
index ba63517..bc5d294 100644
--- a/radix.go
+++ b/radix.go
@@ -86,7 +86,9 @@ type Tree struct {
 	blockMap     map[int]int
 	blockMapLock sync.RWMutex
 
-	stopped int32
+	// stopLock is held while withdrawing or releasing all allocators, and protects stopped
+	stopLock sync.Mutex
+	stopped  bool
 
 	// this value is not guaranteed to be correct until the tree is still and all allocators have flushed their counters
 	liveObjects int64
@@ -138,12 +140,16 @@ func NewTreeFromState(data io.Reader) (*Tree, error) {
 // Len returns the current number of items in the tree
 // It needs to query all allocators for their counters, so it will block if an allocator is constantly reserved...
 func (idx *Tree) Len() (count int) {
-	idx.Stop()
+	idx.stopLock.Lock()
+	defer idx.stopLock.Unlock()
+	if !idx.stopped {
+		idx.withdrawAllocators()
+		defer idx.releaseAllocators()
+	}
 	count = int(idx.liveObjects)
 	for _, a := range idx.allocators {
 		count += int(a.itemCounter)
 	}
-	idx.Start()
 	return
 }
 
@@ -151,20 +157,36 @@ func (idx *Tree) Len() (count int) {
 // It will blocks until it gets all allocators.
 // If already stopped, it returns silently.
 func (idx *Tree) Stop() {
-	if !atomic.CompareAndSwapInt32(&idx.stopped, 0, 1) {
+	idx.stopLock.Lock()
+	defer idx.stopLock.Unlock()
+	if idx.stopped {
 		return
 	}
-	for i := 0; i < len(idx.allocators); i++ {
-		_ = idx.allocatorQueue.get()
-	}
+	idx.withdrawAllocators()
+	idx.stopped = true
 }
 
 // Start releases all allocators withdrawn through a previous call to Stop.
 // In case the indexed is not stopped in returns silently.
 func (idx *Tree) Start() {
-	if !atomic.CompareAndSwapInt32(&idx.stopped, 1, 0) {
+	idx.stopLock.Lock()
+	defer idx.stopLock.Unlock()
+	if !idx.stopped {
 		return
 	}
+	idx.stopped = false
+	idx.releaseAllocators()
+}
+
+// withdrawAllocators gets all allocators. The caller must hold stopLock.
+func (idx *Tree) withdrawAllocators() {
+	for i := 0; i < len(idx.allocators); i++ {
+		_ = idx.allocatorQueue.get()
+	}
+}
+
+// releaseAllocators releases all allocators. The caller must hold stopLock.
+func (idx *Tree) releaseAllocators() {
 	for i := 0; i < len(idx.allocators); i++ {
 		idx.allocatorQueue.put(i)
 	}
-- 
2.43.0


From 835672704c372886518996da7283930842f0bb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:13 +0000
Subject: [PATCH 13/22] fix: the saved number of objects missed those not
 flushed by the allocators

---
 state.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/state.go b/state.go
index 8f63d92..b7d0914 100644
--- a/state.go
+++ b/state.go
@@ -19,8 +19,14 @@ import (
 func (idx *Tree) writeState(out io.Writer) (int, error) {
 	written := 0
 
+	// include what the allocators have not flushed yet
+	objects := atomic.LoadInt64(&idx.liveObjects)
+	for _, a := range idx.allocators {
+		objects += a.itemCounter
+	}
+
 	// write metadata: blocksize, number of blocks, number of allocators, root node location
-	n, err := out.Write([]byte(fmt.Sprintf("objects %d\nblocksize %d\nallocated_blocks %d\nallocators %d\nroot_node %d\nepoch %d\n", atomic.LoadInt64(&idx.liveObjects), blockSize, idx.nextFreeBlock, len(idx.allocators), atomic.LoadUint64(&idx.root), atomic.LoadUint64(idx.manager.globalEpoch))))
+	n, err := out.Write([]byte(fmt.Sprintf("objects %d\nblocksize %d\nallocated_blocks %d\nallocators %d\nroot_node %d\nepoch %d\n", objects, blockSize, idx.nextFreeBlock, len(idx.allocators), atomic.LoadUint64(&idx.root), atomic.LoadUint64(idx.manager.globalEpoch))))
 	if err != nil {
 		return 0, err
 	}
-- 
2.43.0


From 9798f32e7a0f511120e2b06583f8795e8308532d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:13 +0000
Subject: [PATCH 14/22] fix: the saved state missed a block not yet counted by
 the block allocator

---
 state.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/state.go b/state.go
index b7d0914..a95feb7 100644
--- a/state.go
+++ b/state.go
@@ -25,8 +25,16 @@ func (idx *Tree) writeState(out io.Writer) (int, error) {
 		objects += a.itemCounter
 	}
 
+	// the block allocator might not have counted a block it just handed out
+	next := int(atomic.LoadUint64(&idx.nextFreeBlock))
+	for _, a := range idx.allocators {
+		if !a.empty && a.block >= next {
+			next = a.block + 1
+		}
+	}
+
 	// write metadata: blocksize, number of blocks, number of allocators, root node location
-	n, err := out.Write([]byte(fmt.Sprintf("objects %d\nblocksize %d\nallocated_blocks %d\nallocators %d\nroot_node %d\nepoch %d\n", objects, blockSize, idx.nextFreeBlock, len(idx.allocators), atomic.LoadUint64(&idx.root), atomic.LoadUint64(idx.manager.globalEpoch))))
+	n, err := out.Write([]byte(fmt.Sprintf("objects %d\nblocksize %d\nallocated_blocks %d\nallocators %d\nroot_node %d\nepoch %d\n", objects, blockSize, next, len(idx.allocators), atomic.LoadUint64(&idx.root), atomic.LoadUint64(idx.manager.globalEpoch))))
 	if err != nil {
 		return 0, err
 	}
@@ -94,7 +102,6 @@ func (idx *Tree) writeState(out io.Writer) (int, error) {
 		writerDone <- nil
 	}()
 
-	next := int(atomic.LoadUint64(&idx.nextFreeBlock))
 	for i := 0; i < next; i++ {
 		toCompress <- i
 	}
-- 
2.43.0


From 9227ddd92654521e626d05d18855f0d9980da99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:14 +0000
Subject: [PATCH 15/22] fix: WriteState blocked forever when the writer failed
 with many blocks left

---
 state.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/state.go b/state.go
index a95feb7..81312f3 100644
--- a/state.go
+++ b/state.go
@@ -82,24 +82,27 @@ func (idx *Tree) writeState(out io.Writer) (int, error) {
 	go func() {
 		// writer
 		var writeTime time.Duration
+		var err error
 		for job := range toWrite {
-			n, err := out.Write([]byte(fmt.Sprintf("block %d\ncompression snappy\nsize %d\n", job.block, len(job.buf))))
+			var n int
+			n, err = out.Write([]byte(fmt.Sprintf("block %d\ncompression snappy\nsize %d\n", job.block, len(job.buf))))
 			if err != nil {
-				writerDone <- err
-				return
+				break
 			}
 			written += n
 			start := time.Now()
 			n, err = out.Write(job.buf)
 			jobPool.Put(job)
 			if err != nil {
-				writerDone <- err
-				return
+				break
 			}
 			written += n
 			writeTime += time.Since(start)
 		}
-		writerDone <- nil
+		// let the workers finish after an error
+		for range toWrite {
+		}
+		writerDone <- err
 	}()
 
 	for i := 0; i < next; i++ {
-- 
2.43.0


From de9c027c62c058920ef49ce5253a4d1f3f6bbf36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:39 +0000
Subject: [PATCH 16/22] fix: loading a truncated state panicked or returned a
 tree with missing content

---
 state.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/state.go b/state.go
index 81312f3..35c2c46 100644
--- a/state.go
+++ b/state.go
@@ -125,12 +125,16 @@ func (idx *Tree) loadState(data io.Reader) error {
 		allocators int
 		nextBlock  = -1
 		readBuf    []byte
+		sections   int
 	)
 	// reset block map
 	idx.blockMap = make(map[int]int)
 	for {
 		line, err := reader.ReadBytes('\n')
 		if err == io.EOF {
+			if len(line) > 0 {
+				return io.ErrUnexpectedEOF
+			}
 			break
 		}
 		if err != nil {
@@ -139,6 +143,9 @@ func (idx *Tree) loadState(data io.Reader) error {
 		// trim \n
 		line = line[:len(line)-1]
 		space := bytes.IndexByte(line, ' ')
+		if space < 0 {
+			return fmt.Errorf("Corrupted index state file? Bad line %q", line)
+		}
 		v, _ := strconv.ParseUint(string(line[space+1:]), 10, 64)
 
 		switch string(line[:space]) {
@@ -177,6 +184,7 @@ func (idx *Tree) loadState(data io.Reader) error {
 			if err := idx.allocators[v].loadState(reader); err != nil {
 				return err
 			}
+			sections++
 			idx.blockMap[idx.allocators[v].block] = blockAllocated
 
 		case "block":
@@ -216,5 +224,14 @@ func (idx *Tree) loadState(data io.Reader) error {
 			}
 		}
 	}
+	// everything announced by the metadata must be there
+	if allocators == 0 || sections != allocators {
+		return fmt.Errorf("Corrupted index state file? %d allocators loaded of %d", sections, allocators)
+	}
+	for i := uint64(0); i < idx.nextFreeBlock; i++ {
+		if i >= maxBlockCount || idx.blocks[i] == nil {
+			return fmt.Errorf("Corrupted index state file? Data block %d is missing", i)
+		}
+	}
 	return nil
 }
-- 
2.43.0


From b009579002f6398e6506813637ce424d01b65f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:40 +0000
Subject: [PATCH 17/22] fix: merging a node with its child never recycled the
 node

---
 delete.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/delete.go b/delete.go
index 3ac4c3d..b77709f 100644
--- a/delete.go
+++ b/delete.go
@@ -53,6 +53,7 @@ type DeleteOperation struct {
 	count        int
 	prefixLen    int
 	prefixSlots  int
+	nodeSlots    int
 	leafPosition int
 
 	prefix []byte
@@ -241,6 +242,8 @@ searchLoop:
 					childBlock := int(op.child >> blockSlotsShift)
 					childOffset := int(op.child & blockSlotsOffsetMask)
 					op.data = op.idx.blocks[childBlock].data[childOffset:]
+					// remember the size of the node being replaced
+					op.nodeSlots = count + op.prefixSlots
 					// append child node prefix, update op.prefixSlots to the number of slots used by the child
 					op.prefix, op.prefixSlots = appendPrefix(op.prefix, op.data, childPrefixLen)
 
@@ -295,7 +298,8 @@ func (op *DeleteOperation) Finalize() (deleted bool) {
 		atomic.StoreUint64(op.nodePtr, buildNode(byte(op.raw), newNode, op.count, len(op.prefix)))
 		// unlock
 		op.unlock3()
-		// recycle the old child node
+		// recycle the old node and its child node
+		op.allocator.recycle(op.node, op.nodeSlots)
 		op.allocator.recycle(op.child, op.count+op.prefixSlots)
 		op.allocator.itemCounter--
 		deleted = true
-- 
2.43.0


From 586f9dc90f7b4e7f8fdbe2ae082f057ed5785160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:40 +0000
Subject: [PATCH 18/22] fix: a node-256 with a prefix longer than 8 bytes was
 never recycled

---
 allocator.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/allocator.go b/allocator.go
index b79dbc1..1993917 100644
--- a/allocator.go
+++ b/allocator.go
@@ -48,6 +48,9 @@ type Allocator struct {
 	_ [8]uint64
 }
 
+// maxRecycledSlots is the size of the largest recycled node, a node-256 having a prefix of 255 bytes
+const maxRecycledSlots = 256 + 33
+
 type recycledItem struct {
 	n uint64
 	e uint64
@@ -66,7 +69,7 @@ func newAllocator(idx *Tree, id int, blocksize uint64, newBlocks chan int) *Allo
 		empty:       true,
 		nextFree:    blocksize,
 		blockSize:   blocksize,
-		recycler:    make([][]recycledItem, 258),
+		recycler:    make([][]recycledItem, maxRecycledSlots+1),
 		newBlocks:   newBlocks,
 	}
 }
-- 
2.43.0


From 7bcdaa6ea58e4ff946318d618e84d9284b4b6c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:30 +0000
Subject: [PATCH 19/22] fix: Counter counted a node again each time it came
 back to it from a child node

---
 counter.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/counter.go b/counter.go
index 8b32ef6..8511ca2 100644
--- a/counter.go
+++ b/counter.go
@@ -66,20 +66,28 @@ searchLoop:
 	for {
 		_, node, count, prefixLen := explodeNode(p.raw)
 		data := c.idx.getNodeData(node)
+		// we come back to a node for the children after a child node, but count it once
+		first := p.nextChild == 0
 		if prefixLen > 0 {
 			prefixSlots := ((prefixLen + 7) >> 3)
 			if prefixLen == 255 {
-				c.LargePrefixes++
+				if first {
+					c.LargePrefixes++
+				}
 				prefixLen = int(data[0])
 				prefixSlots = ((prefixLen + 15) >> 3)
 			}
-			c.NodesWithPrefix++
-			c.TotalPrefixBytes += prefixSlots * 8
-			c.TotalPrefixLength += prefixLen
+			if first {
+				c.NodesWithPrefix++
+				c.TotalPrefixBytes += prefixSlots * 8
+				c.TotalPrefixLength += prefixLen
+			}
 			data = data[prefixSlots:]
 		}
 
-		c.NodeSizes[count]++
+		if first {
+			c.NodeSizes[count]++
+		}
 
 		for k := p.nextChild; k < count; k++ {
 			a := atomic.LoadUint64(&data[k])
-- 
2.43.0


From 03e15a5a14572736e88cece7ebcbaa3b6f03fe9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:10 +0000
Subject: [PATCH 20/22] fix: an allocator that never had a block was loaded as
 having one, so saving at once again could read a missing block

---
 allocator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allocator.go b/allocator.go
index 1993917..7bf523f 100644
--- a/allocator.go
+++ b/allocator.go
@@ -284,7 +284,7 @@ func (a *Allocator) loadState(reader *bufio.Reader) error {
 
 		switch string(line[:space]) {
 		case "empty":
-			a.empty = bytes.Equal(line[space+1:], []byte("true"))
+			a.empty = bytes.Equal(values, []byte("true"))
 		case "next_free":
 			a.nextFree = v
 		case "block":
-- 
2.43.0


From 5e5b0bc2f4da08e5715d7e17aaa585dd97f625fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:13 +0000
Subject: [PATCH 21/22] fix: admin "node" panicked on ids that are no node,
 could not be given ids of large nodes back, and showed unused slots as
 children

---
 admin.go | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/admin.go b/admin.go
index ff5425b..eb13a71 100644
--- a/admin.go
+++ b/admin.go
@@ -71,8 +71,13 @@ func (idx *Tree) Admin(out io.Writer, argv []string) {
 			fmt.Fprint(out, "usage: node <id>\n")
 			return
 		}
-		node, _ := strconv.Atoi(argv[1])
-		idx.debugPrintNode(out, uint64(node))
+		// ids use all 64 bits
+		node, err := strconv.ParseUint(argv[1], 10, 64)
+		if err != nil {
+			fmt.Fprint(out, "usage: node <id>\n")
+			return
+		}
+		idx.debugPrintNode(out, node)
 
 	default:
 		fmt.Fprintf(out, "Unknown command '%s'\n", argv[0])
@@ -90,24 +95,43 @@ func (idx *Tree) debugPrintNode(out io.Writer, node uint64) {
 	block := value >> blockSlotsShift
 	offset := value & blockSlotsOffsetMask
 
-	if int(block) > len(idx.blocks) || int(offset) > len(idx.blocks[block].data) {
+	if int(block) >= len(idx.blocks) || idx.blocks[block] == nil || int(offset) >= len(idx.blocks[block].data) {
 		fmt.Fprintf(out, "Invalid node\n")
 		return
 	}
 
 	data := idx.blocks[block].data[offset:]
 
+	// the id could be any number, or that of a node given up and reused while we look at it
+	length, slots := uint64(prefixLen), 0
+	if prefixLen == 255 {
+		length = atomic.LoadUint64(&data[0])
+		slots = 1
+	}
+	if length > uint64(len(data))*8 || (prefixLen == 255 && length < 255) {
+		fmt.Fprintf(out, "Invalid node\n")
+		return
+	}
+	start := slots
+	slots += int(length+7) >> 3
+	if slots+count > len(data) {
+		fmt.Fprintf(out, "Invalid node\n")
+		return
+	}
+
 	fmt.Fprintf(out, "NODE %d (%064b): key=%s, data=%d, count=%d, prefixLen=%d\n", node, node, printableChar(key), value, count, prefixLen)
 
-	var prefix []byte
 	if prefixLen > 0 {
-		prefix, slots := appendPrefix(prefix, data, prefixLen)
-		fmt.Fprintf(out, "Prefix: %s\n", prefix)
+		fmt.Fprintf(out, "Prefix: %s\n", byteSliceFromUint64(data[start:slots])[:length])
 		data = data[slots:]
 	}
 
 	for i := range data[:count] {
 		a := atomic.LoadUint64(&data[i])
+		if a == 0 {
+			// no child here
+			continue
+		}
 		if isLeaf(a) {
 			debugPrintLeaf(out, a)
 		} else {
-- 
2.43.0


From 79b82fbcafb59c0ba3d0df42b7815b7cbea53079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:03 +0000
Subject: [PATCH 22/22] fix: nodes with prefixes of more than 2 KiB were never
 recycled, so memory grew without bound under churn

---
 allocator.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/allocator.go b/allocator.go
index 7bf523f..aa6289b 100644
--- a/allocator.go
+++ b/allocator.go
@@ -48,7 +48,7 @@ type Allocator struct {
 	_ [8]uint64
 }
 
-// maxRecycledSlots is the size of the largest recycled node, a node-256 having a prefix of 255 bytes
+// maxRecycledSlots is the size of a node-256 having a prefix of 255 bytes, larger nodes are rare
 const maxRecycledSlots = 256 + 33
 
 type recycledItem struct {
@@ -181,9 +181,7 @@ func (a *Allocator) endOp() {
 }
 
 func (a *Allocator) recycle(node uint64, slots int) {
-	if slots >= len(a.recycler) {
-		return
-	}
+	a.growRecycler(slots)
 	e := atomic.LoadUint64(a.globalEpoch)
 	a.recycler[slots] = append(a.recycler[slots], recycledItem{node, e})
 	a.counter++
@@ -195,6 +193,13 @@ func (a *Allocator) recycle(node uint64, slots int) {
 	//a.slotsReleased += uint64(slots)
 }
 
+// growRecycler makes sure there is a list for nodes of the given number of slots, prefixes can be of any length
+func (a *Allocator) growRecycler(slots int) {
+	if n := slots + 1 - len(a.recycler); n > 0 {
+		a.recycler = append(a.recycler, make([][]recycledItem, n)...)
+	}
+}
+
 func (a *Allocator) printStats(out io.Writer, i int) {
 	if a.empty {
 		fmt.Fprintf(out, "Allocator %d - EMPTY (blocksize %d)\n", i, a.blockSize)
@@ -301,6 +306,10 @@ func (a *Allocator) loadState(reader *bufio.Reader) error {
 			}
 			size, _ := strconv.Atoi(string(values[:space]))
 			count, _ := strconv.Atoi(string(values[space+1:]))
+			if size > int(blockSize>>3) {
+				return fmt.Errorf("Corrupted state file, recycled nodes of %d slots", size)
+			}
+			a.growRecycler(size)
 			if count <= cap(a.recycler[size]) {
 				a.recycler[size] = a.recycler[size][0:count]
 			} else {
-- 
2.43.0

