From ab108730bf60f0a8c82912d294a27c135fceb9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:53 +0000
Subject: [PATCH 01/19] fix: searches on an empty tree do not read unallocated
 memory

A lookup or prefix search on an empty tree treated the zero root as a node in block 0, which is nil until the
block allocator goroutine has run for the first time.
---
 radix.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/radix.go b/radix.go
index d8479c0..0942d03 100644
--- a/radix.go
+++ b/radix.go
@@ -313,7 +313,7 @@ func (idx *Tree) getNodeFromRaw(raw uint64) (count, prefixLen int, data []uint64
 
 func (idx *Tree) partialSearch(searchPrefix []byte) (raw uint64, depth int) {
 	root := atomic.LoadUint64(&idx.root)
-	if len(searchPrefix) == 0 {
+	if root == 0 || len(searchPrefix) == 0 {
 		return root, 0
 	}
 	if isLeaf(root) {
@@ -508,6 +508,10 @@ func (idx *Tree) Count(searchPrefix []byte) (nodes, leaves int) {
 func (idx *Tree) search(key []byte) (uint64, bool) {
 	depth := 0
 	root := atomic.LoadUint64(&idx.root)
+	if root == 0 {
+		// the tree is empty
+		return 0, false
+	}
 	if isLeaf(root) {
 		if byte(root) == key[0] {
 			return getLeafValue(root), true
-- 
2.43.0


From f66ddb3fbaba60480a4887a3dd557480f9130981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:07 +0000
Subject: [PATCH 02/19] fix: Counter accounts for every node once

Node size and prefix figures were added again each time the count returned to a node from one of its children.
---
 counter.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/counter.go b/counter.go
index 8b32ef6..47effb7 100644
--- a/counter.go
+++ b/counter.go
@@ -69,17 +69,24 @@ searchLoop:
 		if prefixLen > 0 {
 			prefixSlots := ((prefixLen + 7) >> 3)
 			if prefixLen == 255 {
-				c.LargePrefixes++
+				if p.nextChild == 0 {
+					c.LargePrefixes++
+				}
 				prefixLen = int(data[0])
 				prefixSlots = ((prefixLen + 15) >> 3)
 			}
-			c.NodesWithPrefix++
-			c.TotalPrefixBytes += prefixSlots * 8
-			c.TotalPrefixLength += prefixLen
+			if p.nextChild == 0 {
+				c.NodesWithPrefix++
+				c.TotalPrefixBytes += prefixSlots * 8
+				c.TotalPrefixLength += prefixLen
+			}
 			data = data[prefixSlots:]
 		}
 
-		c.NodeSizes[count]++
+		// a node we return to after having visited one of its children is already accounted for
+		if p.nextChild == 0 {
+			c.NodeSizes[count]++
+		}
 
 		for k := p.nextChild; k < count; k++ {
 			a := atomic.LoadUint64(&data[k])
-- 
2.43.0


From 5a4671081c874ebcdc487b6171eb5407b7c6b148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:16 +0000
Subject: [PATCH 03/19] fix: aborting a node-merging delete unlocks its nodes
 in the right roles

Abort passed parent and child in swapped positions, so it panicked when the node was the root.
---
 delete.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delete.go b/delete.go
index b7537db..5042ad2 100644
--- a/delete.go
+++ b/delete.go
@@ -341,7 +341,7 @@ func (op *DeleteOperation) Abort() {
 	case deleteLeaf, replaceNodeWithLeaf:
 		op.unlock()
 	case replaceNodeWithNode:
-		op.idx.unlockNodes3(op.parent, op.node, op.child)
+		op.unlock3()
 	}
 	op.allocator.endOp()
 	if op.releaseAlloc {
-- 
2.43.0


From d6e37efdb53f2d0625cec863a5993d19a33204a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:49 +0000
Subject: [PATCH 04/19] fix: a resumed iteration continues at the right key

An iterator that had more than one batch of items restarted from the beginning (or from a wrong node) when no node
on its stack had any children left, when it had a search prefix, or when the node it left off at was changed or
deleted meanwhile. The resume position is now the complete partial key, and resuming seeks the first item that is
not before it.
---
 iterator.go | 133 ++++++++++++++++++++++++++++++----------------------
 1 file changed, 77 insertions(+), 56 deletions(-)

diff --git a/iterator.go b/iterator.go
index 6954a4f..139f6ec 100644
--- a/iterator.go
+++ b/iterator.go
@@ -1,6 +1,7 @@
 package radix
 
 import (
+	"bytes"
 	"sync"
 	"sync/atomic"
 )
@@ -69,9 +70,12 @@ func (i *Iterator) Next() bool {
 	alloc.startOp()
 
 	// 2. seek to start
-	var raw uint64
+	var (
+		raw   uint64
+		depth int
+	)
 	if len(i.searchPrefix) > 0 {
-		raw, _ = i.idx.partialSearch(i.searchPrefix)
+		raw, depth = i.idx.partialSearch(i.searchPrefix)
 	} else {
 		raw = atomic.LoadUint64(&i.idx.root)
 	}
@@ -84,29 +88,42 @@ func (i *Iterator) Next() bool {
 	if isLeaf(raw) {
 		alloc.endOp()
 		i.idx.ReleaseAllocator(alloc)
+		i.prefetched = i.prefetched[:0]
 		i.pp = 0
-		i.value = getLeafValue(raw)
 		i.done = true
+		if len(i.resumeAt) > 0 && byte(raw) < i.resumeAt[depth] {
+			// the only item left is before the position where we left off
+			return false
+		}
+		i.value = getLeafValue(raw)
 		return true
 	}
 
 	// 3. seek to the partial key where we last left of, while building stack
-	// we traverse i.resumeAt to reposition raw & nextChild
+	// we traverse i.resumeAt to reposition raw & nextChild at the first item that is not before it. The tree might
+	// have changed since last iteration, so nodes on the way can be missing, or have a different prefix.
 	nextChild := 0
+	var prefix []byte
 preSearchLoop:
-	for k := 0; k < len(i.resumeAt); k++ {
+	for k := depth; k < len(i.resumeAt); k++ {
 		_, node, count, prefixLen := explodeNode(raw)
 		data := i.idx.getNodeData(node)
 		if prefixLen > 0 {
 			var prefixSlots int
-			if prefixLen == 255 {
-				prefixLen = int(data[0])
-				prefixSlots = ((prefixLen + 15) >> 3)
-			} else {
-				prefixSlots = ((prefixLen + 7) >> 3)
-			}
+			prefix, prefixSlots = appendPrefix(prefix[:0], data, prefixLen)
 			data = data[prefixSlots:]
-			k += prefixLen
+			common := len(prefix)
+			if common > len(i.resumeAt)-k {
+				common = len(i.resumeAt) - k
+			}
+			if c := bytes.Compare(prefix[:common], i.resumeAt[k:k+common]); c != 0 {
+				if c < 0 {
+					// everything below this node is before the position where we left off
+					nextChild = count
+				}
+				break preSearchLoop
+			}
+			k += len(prefix)
 			if k >= len(i.resumeAt) {
 				break preSearchLoop
 			}
@@ -116,44 +133,38 @@ preSearchLoop:
 		if count >= fullAllocFrom {
 			// check a fixed size node-256
 			a := atomic.LoadUint64(&data[int(char)])
-			if a != 0 && byte(a) == char {
-				if isLeaf(a) {
-					nextChild = int(char)
-					break preSearchLoop
+			if a == 0 || isLeaf(a) || k+1 == len(i.resumeAt) {
+				nextChild = int(char)
+				break preSearchLoop
+			}
+			// child node found
+			// since it's a node-256 we need to check if there are any more children in this node
+			var next int
+			for next = int(char) + 1; next < count; next++ {
+				if atomic.LoadUint64(&data[next]) != 0 {
+					break
 				}
-				// child node found
-				// since it's a node-256 we need to check if there are any more children in this node
-				var next int
-				for next = int(char) + 1; next < count; next++ {
-					if atomic.LoadUint64(&data[next]) != 0 {
-						break
-					}
+			}
+			// go down into this node, saving the current position on the stack
+			i.stack = append(i.stack, position{raw, next, next < count})
+			raw = a
+			continue preSearchLoop
+		} else {
+			// scan a variable sized node for the first child that is not before char
+			for nextChild = 0; nextChild < count; nextChild++ {
+				a := atomic.LoadUint64(&data[nextChild])
+				if byte(a) < char {
+					continue
+				}
+				if byte(a) > char || isLeaf(a) || k+1 == len(i.resumeAt) {
+					break preSearchLoop
 				}
 				// go down into this node, saving the current position on the stack
-				i.stack = append(i.stack, position{raw, next, next < count})
+				i.stack = append(i.stack, position{raw, nextChild + 1, nextChild+1 < count})
 				raw = a
+				nextChild = 0
 				continue preSearchLoop
 			}
-			// if no node was found, it means that this subtree might have been deleted since last iteration
-			// what are our options in this case ?
-			break preSearchLoop
-		} else {
-			// scan a variable sized node
-			for l := range data[:count] {
-				a := atomic.LoadUint64(&data[l])
-				if byte(a) == char {
-					if isLeaf(a) {
-						nextChild = l
-						break preSearchLoop
-					}
-					// go down into this node, saving the current position on the stack
-					i.stack = append(i.stack, position{raw, l + 1, l+1 < count})
-					raw = a
-					continue preSearchLoop
-				}
-			}
-			// if no node was found, it means that this subtree might have been deleted since last iteration
-			// what are our options in this case ?
 			break
 		}
 	}
@@ -208,7 +219,7 @@ searchLoop:
 		}
 		// if we have prefetched enough values, save the position and abort the scan
 		if len(i.prefetched) > defaultPrefetchLength {
-			i.storeResumePosition()
+			i.storeResumePosition(depth)
 			break
 		}
 		// pop from stack
@@ -230,20 +241,25 @@ searchLoop:
 	return false
 }
 
-func (i *Iterator) storeResumePosition() {
+// storeResumePosition saves the partial key of the next child to examine. depth is the number of bytes in searchPrefix
+// leading to the node where the scan started.
+func (i *Iterator) storeResumePosition(depth int) {
 	// first trim consecutive items without any more children from end of stack
-	var j int
-	for j = len(i.stack) - 1; j > 0; j-- {
-		if i.stack[j].more {
-			break
-		}
+	n := len(i.stack)
+	for n > 0 && !i.stack[n-1].more {
+		n--
+	}
+	i.stack = i.stack[:n]
+	if n == 0 {
+		// there is nothing more to examine
+		i.done = true
+		return
 	}
-	i.stack = i.stack[:j+1]
 
 	// traverse stack from start to end to build the partial key we should continue from
-	i.resumeAt = i.resumeAt[:0]
+	i.resumeAt = append(i.resumeAt[:0], i.searchPrefix[:depth]...)
 	for j, pos := range i.stack {
-		key, node, _, prefixLen := explodeNode(pos.node)
+		key, node, count, prefixLen := explodeNode(pos.node)
 		data := i.idx.getNodeData(node)
 		if j > 0 {
 			i.resumeAt = append(i.resumeAt, key)
@@ -254,8 +270,13 @@ func (i *Iterator) storeResumePosition() {
 		}
 		// for the last stack item, we need to add the nextChild too
 		if j == len(i.stack)-1 {
-			a := atomic.LoadUint64(&data[prefixSlots+pos.k])
-			i.resumeAt = append(i.resumeAt, byte(a))
+			if count >= fullAllocFrom {
+				// the position is the key byte, the child itself may be gone by now
+				i.resumeAt = append(i.resumeAt, byte(pos.k))
+			} else {
+				a := atomic.LoadUint64(&data[prefixSlots+pos.k])
+				i.resumeAt = append(i.resumeAt, byte(a))
+			}
 		}
 	}
 }
-- 
2.43.0


From 3d0090f3bdd738aafc8a89f827379f49c7ce875b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:11 +0000
Subject: [PATCH 05/19] fix: recycling a node of 258 words does not panic

The bound check let a size equal to the number of recycling lists through.
---
 allocator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allocator.go b/allocator.go
index 6db5d74..b79dbc1 100644
--- a/allocator.go
+++ b/allocator.go
@@ -178,7 +178,7 @@ func (a *Allocator) endOp() {
 }
 
 func (a *Allocator) recycle(node uint64, slots int) {
-	if slots > len(a.recycler) {
+	if slots >= len(a.recycler) {
 		return
 	}
 	e := atomic.LoadUint64(a.globalEpoch)
-- 
2.43.0


From 80b8bf4a6f9f9bf119e2b0c973d8d1a41bef79cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:56 +0000
Subject: [PATCH 06/19] fix: deleting from a 256-node holds the node's lock

A prepared delete of a leaf in a node-256 took no lock, so the node could be
replaced by a copy before the delete was finalized. The delete then cleared the
leaf in the detached node, reported success, and the key stayed in the tree.
---
 delete.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/delete.go b/delete.go
index 5042ad2..54a4a1b 100644
--- a/delete.go
+++ b/delete.go
@@ -155,6 +155,11 @@ searchLoop:
 				return false
 			}
 			if isLeaf(a) {
+				// lock the node, otherwise it might be replaced by a copy while the delete is pending
+				if !op.lock() {
+					runtime.Gosched()
+					goto S
+				}
 				op.raw = a
 				op.leafPtr = p
 				op.kind = deleteLeaf256
@@ -323,6 +328,7 @@ func (op *DeleteOperation) Finalize() (deleted bool) {
 		if deleted {
 			op.allocator.itemCounter--
 		}
+		op.unlock()
 	}
 	op.allocator.endOp()
 	if op.releaseAlloc {
@@ -338,7 +344,7 @@ func (op *DeleteOperation) Abort() {
 	switch op.kind {
 	case deleteRoot:
 		op.idx.unlockRoot()
-	case deleteLeaf, replaceNodeWithLeaf:
+	case deleteLeaf, deleteLeaf256, replaceNodeWithLeaf:
 		op.unlock()
 	case replaceNodeWithNode:
 		op.unlock3()
-- 
2.43.0


From e228597bbdc4a59d2a97d4b43f1ecb3598cb1b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:46 +0000
Subject: [PATCH 07/19] fix: nodes sharing a lock are only locked if none has
 changed

lockNodes3 and lockNodes2 compared a single generation when two of the nodes map
to the same lock. A delete that merges a node with its child reads the child's
generation later than the node's, so it could get the lock although the node had
been changed in between, and undo that change.
---
 locks.go | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/locks.go b/locks.go
index ad61f9e..d64c4df 100644
--- a/locks.go
+++ b/locks.go
@@ -62,19 +62,31 @@ func (idx *Tree) lockNodes3(child uint64, childGen int32, node uint64, nodeGen i
 			atomic.AddInt32(&idx.blocks[block].locks[lock], -1)
 			return false
 		}
+	} else if nodeGen != childGen {
+		// node shares its lock with child, but has changed since we read it
+		atomic.AddInt32(&idx.blocks[block].locks[lock], -1)
+		return false
 	}
 	// lock parent, if needed
 	block3 := parent >> blockSlotsShift
 	lock3 := parent & lockOffsetMask
-	lock3Unique := (lock3 != lock || block3 != block) && (lock3 != lock2 || block3 != block2)
-	if lock3Unique {
-		if !atomic.CompareAndSwapInt32(&idx.blocks[block3].locks[lock3], parentGen, parentGen+1) {
-			atomic.AddInt32(&idx.blocks[block].locks[lock], -1)
-			if lock2Unique {
-				atomic.AddInt32(&idx.blocks[block2].locks[lock2], -1)
-			}
-			return false
+	parentLocked := false
+	switch {
+	case lock3 == lock && block3 == block:
+		// parent shares its lock with child
+		parentLocked = parentGen == childGen
+	case lock3 == lock2 && block3 == block2:
+		// parent shares its lock with node
+		parentLocked = parentGen == nodeGen
+	default:
+		parentLocked = atomic.CompareAndSwapInt32(&idx.blocks[block3].locks[lock3], parentGen, parentGen+1)
+	}
+	if !parentLocked {
+		atomic.AddInt32(&idx.blocks[block].locks[lock], -1)
+		if lock2Unique {
+			atomic.AddInt32(&idx.blocks[block2].locks[lock2], -1)
 		}
+		return false
 	}
 	return true
 }
@@ -135,6 +147,10 @@ func (idx *Tree) lockNodes2(node uint64, nodeGen int32, parent uint64, parentGen
 			atomic.AddInt32(&idx.blocks[block].locks[lock], -1)
 			return false
 		}
+	} else if parentGen != nodeGen {
+		// parent shares its lock with node, but has changed since we read it
+		atomic.AddInt32(&idx.blocks[block].locks[lock], -1)
+		return false
 	}
 	return true
 }
-- 
2.43.0


From a8364f2a5cdb9f1ee845f4e879a9fd7fce6df533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:44 +0000
Subject: [PATCH 08/19] fix: MinKey and MaxKey search past emptied nodes

A node-256 stays in the tree when all its children have been deleted. When the
search ended in such a node it reported that there is no key, although there were
others before or after it.
---
 radix.go | 102 +++++++++++++++++--------------------------------------
 1 file changed, 32 insertions(+), 70 deletions(-)

diff --git a/radix.go b/radix.go
index 0942d03..06ff1e7 100644
--- a/radix.go
+++ b/radix.go
@@ -403,44 +403,25 @@ func (idx *Tree) MaxKey(searchPrefix []byte) (v uint64, ok bool) {
 		return getLeafValue(raw), true
 	}
 	// now find the max
-searchLoop:
-	for {
-		_, node, count, prefixLen := explodeNode(raw)
-		block := int(node >> blockSlotsShift)
-		offset := int(node & blockSlotsOffsetMask)
-		data := idx.blocks[block].data[offset:]
-		var prefixSlots int
-		if prefixLen > 0 {
-			if prefixLen == 255 {
-				prefixLen = int(data[0])
-				prefixSlots = (prefixLen + 15) >> 3
-			} else {
-				prefixSlots = (prefixLen + 7) >> 3
-			}
-			data = data[prefixSlots:]
-		}
-		if count >= fullAllocFrom {
-			// find max, iterate from top
-			for k := 255; k >= 0; k-- {
-				a := atomic.LoadUint64(&data[k])
-				if a != 0 {
-					if isLeaf(a) {
-						return getLeafValue(a), true
-					}
-					raw = a
-					continue searchLoop
-				}
+	leaf := idx.lastLeaf(raw)
+	return getLeafValue(leaf), leaf != 0
+}
+
+// lastLeaf returns the last leaf below raw, or 0 if there is none (a node-256 is not removed when all its children are deleted).
+func (idx *Tree) lastLeaf(raw uint64) uint64 {
+	if isLeaf(raw) {
+		return raw
+	}
+	count, _, data := idx.getNodeFromRaw(raw)
+	// iterate from top
+	for k := count - 1; k >= 0; k-- {
+		if a := atomic.LoadUint64(&data[k]); a != 0 {
+			if leaf := idx.lastLeaf(a); leaf != 0 {
+				return leaf
 			}
-			// BUG: this might happen if all children in the node has been deleted, since we currently don't shrink node-256. we should go back in the tree!
-			return 0, false
-		}
-		// load the last child (since they are ordered)
-		a := atomic.LoadUint64(&data[count-1])
-		if isLeaf(a) {
-			return getLeafValue(a), true
 		}
-		raw = a
 	}
+	return 0
 }
 
 // MinKey returns the minimum key having the given searchPrefix, or the minimum key in the whole index if searchIndex is nil.
@@ -455,44 +436,25 @@ func (idx *Tree) MinKey(searchPrefix []byte) (v uint64, ok bool) {
 		return getLeafValue(raw), true
 	}
 	// now find the min
-searchLoop:
-	for {
-		_, node, count, prefixLen := explodeNode(raw)
-		block := int(node >> blockSlotsShift)
-		offset := int(node & blockSlotsOffsetMask)
-		data := idx.blocks[block].data[offset:]
-		var prefixSlots int
-		if prefixLen > 0 {
-			if prefixLen == 255 {
-				prefixLen = int(data[0])
-				prefixSlots = (prefixLen + 15) >> 3
-			} else {
-				prefixSlots = (prefixLen + 7) >> 3
-			}
-			data = data[prefixSlots:]
-		}
-		if count >= fullAllocFrom {
-			// find min, iterate from bottom
-			for k := range data[:count] {
-				a := atomic.LoadUint64(&data[k])
-				if a != 0 {
-					if isLeaf(a) {
-						return getLeafValue(a), true
-					}
-					raw = a
-					continue searchLoop
-				}
+	leaf := idx.firstLeaf(raw)
+	return getLeafValue(leaf), leaf != 0
+}
+
+// firstLeaf returns the first leaf below raw, or 0 if there is none (a node-256 is not removed when all its children are deleted).
+func (idx *Tree) firstLeaf(raw uint64) uint64 {
+	if isLeaf(raw) {
+		return raw
+	}
+	count, _, data := idx.getNodeFromRaw(raw)
+	// iterate from bottom
+	for k := 0; k < count; k++ {
+		if a := atomic.LoadUint64(&data[k]); a != 0 {
+			if leaf := idx.firstLeaf(a); leaf != 0 {
+				return leaf
 			}
-			// BUG: this might happen if all children in the node has been deleted, since we currently don't shrink node-256. we should go back in the tree!
-			return 0, false
-		}
-		// load first child (since they are ordered)
-		a := atomic.LoadUint64(&data[0])
-		if isLeaf(a) {
-			return getLeafValue(a), true
 		}
-		raw = a
 	}
+	return 0
 }
 
 // NewIterator returns an Iterator for iterating in order over all keys having the given prefix, or the complete index if searchPrefix is nil.
-- 
2.43.0


From 40d2a5ddeb4796a7dbf3096de2b453fb4469a961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:07 +0000
Subject: [PATCH 09/19] fix: MinKey and MaxKey reserve the current epoch

They walked the tree without a reservation, so the nodes on their way could be
recycled and reused by concurrent updates and deletes.
---
 radix.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/radix.go b/radix.go
index 06ff1e7..19875fa 100644
--- a/radix.go
+++ b/radix.go
@@ -395,6 +395,12 @@ searchLoop:
 // For example, if we store temperature readings using the key "temp_TIMESTAMP" where timestamp is an 8 byte BigEndian ns timestamp
 // MaxKey([]byte("temp_")) returns the last made reading.
 func (idx *Tree) MaxKey(searchPrefix []byte) (v uint64, ok bool) {
+	// reserve the current epoch so that the nodes we visit are not reused, we need an allocator for this
+	alloc := idx.GetAllocator()
+	defer idx.ReleaseAllocator(alloc)
+	alloc.startOp()
+	defer alloc.endOp()
+
 	raw, _ := idx.partialSearch(searchPrefix)
 	if raw == 0 {
 		return 0, false
@@ -428,6 +434,12 @@ func (idx *Tree) lastLeaf(raw uint64) uint64 {
 // Minimum means the first key in the lexicographic order. If keys are uint64 in BigEndian it is also the smallest number.
 // If ok is false the index is empty.
 func (idx *Tree) MinKey(searchPrefix []byte) (v uint64, ok bool) {
+	// reserve the current epoch so that the nodes we visit are not reused, we need an allocator for this
+	alloc := idx.GetAllocator()
+	defer idx.ReleaseAllocator(alloc)
+	alloc.startOp()
+	defer alloc.endOp()
+
 	raw, _ := idx.partialSearch(searchPrefix)
 	if raw == 0 {
 		return 0, false
-- 
2.43.0


From 490230db611c0515adbc017b22cd4c8bf01c1c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:16 +0000
Subject: [PATCH 10/19] fix: saved state counts the objects of all allocators

The object count in the state header left out the counters that the allocators
had not flushed yet, so Len of the loaded tree was wrong.
---
 state.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/state.go b/state.go
index 8f63d92..a627d08 100644
--- a/state.go
+++ b/state.go
@@ -19,8 +19,14 @@ import (
 func (idx *Tree) writeState(out io.Writer) (int, error) {
 	written := 0
 
+	// include the private counters of the allocators, they are not part of the allocator state
+	objects := atomic.LoadInt64(&idx.liveObjects)
+	for _, a := range idx.allocators {
+		objects += a.itemCounter
+	}
+
 	// write metadata: blocksize, number of blocks, number of allocators, root node location
-	n, err := out.Write([]byte(fmt.Sprintf("objects %d\nblocksize %d\nallocated_blocks %d\nallocators %d\nroot_node %d\nepoch %d\n", atomic.LoadInt64(&idx.liveObjects), blockSize, idx.nextFreeBlock, len(idx.allocators), atomic.LoadUint64(&idx.root), atomic.LoadUint64(idx.manager.globalEpoch))))
+	n, err := out.Write([]byte(fmt.Sprintf("objects %d\nblocksize %d\nallocated_blocks %d\nallocators %d\nroot_node %d\nepoch %d\n", objects, blockSize, idx.nextFreeBlock, len(idx.allocators), atomic.LoadUint64(&idx.root), atomic.LoadUint64(idx.manager.globalEpoch))))
 	if err != nil {
 		return 0, err
 	}
-- 
2.43.0


From 0bd46f61681c74607413a8636a6aedc3d68eec1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:36 +0000
Subject: [PATCH 11/19] fix: saved state contains the last block handed out

---
 allocator.go |  2 +-
 state.go     | 20 +++++++++++++++++---
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/allocator.go b/allocator.go
index b79dbc1..1363a11 100644
--- a/allocator.go
+++ b/allocator.go
@@ -281,7 +281,7 @@ func (a *Allocator) loadState(reader *bufio.Reader) error {
 
 		switch string(line[:space]) {
 		case "empty":
-			a.empty = bytes.Equal(line[space+1:], []byte("true"))
+			a.empty = bytes.Equal(values, []byte("true"))
 		case "next_free":
 			a.nextFree = v
 		case "block":
diff --git a/state.go b/state.go
index a627d08..557f850 100644
--- a/state.go
+++ b/state.go
@@ -14,6 +14,19 @@ import (
 	"github.com/golang/snappy"
 )
 
+// usedBlocks returns the number of blocks handed out to the allocators.
+// idx.nextFreeBlock can't be used directly, since it lags behind until the block allocator has prepared the next free block.
+// It assumes are allocators are locked by caller.
+func (idx *Tree) usedBlocks() int {
+	used := int(atomic.LoadUint64(&idx.nextFreeBlock))
+	for _, a := range idx.allocators {
+		if !a.empty && a.block >= used {
+			used = a.block + 1
+		}
+	}
+	return used
+}
+
 // writeState writes the complete index state to the given filename.
 // It assumes are allocators are locked by caller.
 func (idx *Tree) writeState(out io.Writer) (int, error) {
@@ -25,8 +38,10 @@ func (idx *Tree) writeState(out io.Writer) (int, error) {
 		objects += a.itemCounter
 	}
 
+	usedBlocks := idx.usedBlocks()
+
 	// write metadata: blocksize, number of blocks, number of allocators, root node location
-	n, err := out.Write([]byte(fmt.Sprintf("objects %d\nblocksize %d\nallocated_blocks %d\nallocators %d\nroot_node %d\nepoch %d\n", objects, blockSize, idx.nextFreeBlock, len(idx.allocators), atomic.LoadUint64(&idx.root), atomic.LoadUint64(idx.manager.globalEpoch))))
+	n, err := out.Write([]byte(fmt.Sprintf("objects %d\nblocksize %d\nallocated_blocks %d\nallocators %d\nroot_node %d\nepoch %d\n", objects, blockSize, usedBlocks, len(idx.allocators), atomic.LoadUint64(&idx.root), atomic.LoadUint64(idx.manager.globalEpoch))))
 	if err != nil {
 		return 0, err
 	}
@@ -94,8 +109,7 @@ func (idx *Tree) writeState(out io.Writer) (int, error) {
 		writerDone <- nil
 	}()
 
-	next := int(atomic.LoadUint64(&idx.nextFreeBlock))
-	for i := 0; i < next; i++ {
+	for i := 0; i < usedBlocks; i++ {
 		toCompress <- i
 	}
 	close(toCompress)
-- 
2.43.0


From e53e8cfdf3e57bf55f95c3ddf309862a5352f8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:10 +0000
Subject: [PATCH 12/19] fix: a failed write does not block WriteState

---
 state.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/state.go b/state.go
index 557f850..eb8d01e 100644
--- a/state.go
+++ b/state.go
@@ -89,24 +89,29 @@ func (idx *Tree) writeState(out io.Writer) (int, error) {
 	go func() {
 		// writer
 		var writeTime time.Duration
+		var writeErr error
 		for job := range toWrite {
+			if writeErr != nil {
+				// keep receiving, the workers would otherwise block forever
+				continue
+			}
 			n, err := out.Write([]byte(fmt.Sprintf("block %d\ncompression snappy\nsize %d\n", job.block, len(job.buf))))
 			if err != nil {
-				writerDone <- err
-				return
+				writeErr = err
+				continue
 			}
 			written += n
 			start := time.Now()
 			n, err = out.Write(job.buf)
 			jobPool.Put(job)
 			if err != nil {
-				writerDone <- err
-				return
+				writeErr = err
+				continue
 			}
 			written += n
 			writeTime += time.Since(start)
 		}
-		writerDone <- nil
+		writerDone <- writeErr
 	}()
 
 	for i := 0; i < usedBlocks; i++ {
-- 
2.43.0


From 215be38f70a608c3ab6ca23a98a91240989fb2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:11 +0000
Subject: [PATCH 13/19] fix: incomplete state is refused when loading

---
 state.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/state.go b/state.go
index eb8d01e..02e738d 100644
--- a/state.go
+++ b/state.go
@@ -134,20 +134,32 @@ func (idx *Tree) loadState(data io.Reader) error {
 		allocators int
 		nextBlock  = -1
 		readBuf    []byte
+
+		// used for verifying that the state is complete
+		missing          = map[string]bool{"objects": true, "blocksize": true, "allocated_blocks": true, "allocators": true, "root_node": true, "epoch": true}
+		loadedAllocators int
+		loadedBlocks     int
 	)
 	// reset block map
 	idx.blockMap = make(map[int]int)
 	for {
 		line, err := reader.ReadBytes('\n')
-		if err == io.EOF {
+		if err == io.EOF && len(line) == 0 {
 			break
 		}
+		if err == io.EOF {
+			return fmt.Errorf("Incomplete index state file? %w", io.ErrUnexpectedEOF)
+		}
 		if err != nil {
 			return err
 		}
 		// trim \n
 		line = line[:len(line)-1]
 		space := bytes.IndexByte(line, ' ')
+		if space < 0 {
+			return fmt.Errorf("Corrupted index state file? Bad line %q", line)
+		}
+		delete(missing, string(line[:space]))
 		v, _ := strconv.ParseUint(string(line[space+1:]), 10, 64)
 
 		switch string(line[:space]) {
@@ -187,6 +199,7 @@ func (idx *Tree) loadState(data io.Reader) error {
 				return err
 			}
 			idx.blockMap[idx.allocators[v].block] = blockAllocated
+			loadedAllocators++
 
 		case "block":
 			// block X
@@ -223,7 +236,11 @@ func (idx *Tree) loadState(data io.Reader) error {
 			if idx.blockMap[int(nextBlock)] != blockAllocated {
 				idx.blockMap[int(nextBlock)] = blockWritten
 			}
+			loadedBlocks++
 		}
 	}
+	if len(missing) > 0 || loadedAllocators != len(idx.allocators) || uint64(loadedBlocks) != idx.nextFreeBlock {
+		return fmt.Errorf("Incomplete index state file? Got %d of %d allocators and %d of %d blocks", loadedAllocators, len(idx.allocators), loadedBlocks, idx.nextFreeBlock)
+	}
 	return nil
 }
-- 
2.43.0


From e27ea47aeba22a98c9e15c9ddee20be36015ef6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:18 +0000
Subject: [PATCH 14/19] fix: withdrawing all allocators is serialized and keeps
 a stopped tree stopped

---
 admin.go | 17 +++++------------
 radix.go | 53 ++++++++++++++++++++++++++++++++++++++++++-----------
 2 files changed, 47 insertions(+), 23 deletions(-)

diff --git a/admin.go b/admin.go
index 207ca6e..c2dc13d 100644
--- a/admin.go
+++ b/admin.go
@@ -31,18 +31,11 @@ func (idx *Tree) Admin(out io.Writer, argv []string) {
 	case "allocators":
 		switch {
 		case len(argv) == 1:
-			// withdraw all allocators
-			var a []int
-			for i := 0; i < len(idx.allocators); i++ {
-				a = append(a, idx.allocatorQueue.get())
-			}
-			for i, a := range idx.allocators {
-				a.printStats(out, i)
-			}
-			// release allocators again
-			for i := range a {
-				idx.allocatorQueue.put(a[i])
-			}
+			idx.withAllAllocators(func() {
+				for i, a := range idx.allocators {
+					a.printStats(out, i)
+				}
+			})
 
 			// case argv[1] == "reservations":
 			// 	printReservations(out)
diff --git a/radix.go b/radix.go
index 19875fa..1a5bf15 100644
--- a/radix.go
+++ b/radix.go
@@ -83,7 +83,8 @@ type Tree struct {
 	blockMap     map[int]int
 	blockMapLock sync.RWMutex
 
-	stopped int32
+	stopped  int32
+	stopLock sync.Mutex // held by whoever withdraws or releases all allocators
 
 	// this value is not guaranteed to be correct until the tree is still and all allocators have flushed their counters
 	liveObjects int64
@@ -135,12 +136,12 @@ func NewTreeFromState(data io.Reader) (*Tree, error) {
 // Len returns the current number of items in the tree
 // It needs to query all allocators for their counters, so it will block if an allocator is constantly reserved...
 func (idx *Tree) Len() (count int) {
-	idx.Stop()
-	count = int(idx.liveObjects)
-	for _, a := range idx.allocators {
-		count += int(a.itemCounter)
-	}
-	idx.Start()
+	idx.withAllAllocators(func() {
+		count = int(atomic.LoadInt64(&idx.liveObjects))
+		for _, a := range idx.allocators {
+			count += int(a.itemCounter)
+		}
+	})
 	return
 }
 
@@ -148,20 +149,50 @@ func (idx *Tree) Len() (count int) {
 // It will blocks until it gets all allocators.
 // If already stopped, it returns silently.
 func (idx *Tree) Stop() {
-	if !atomic.CompareAndSwapInt32(&idx.stopped, 0, 1) {
+	idx.stopLock.Lock()
+	defer idx.stopLock.Unlock()
+	if atomic.LoadInt32(&idx.stopped) == 1 {
 		return
 	}
-	for i := 0; i < len(idx.allocators); i++ {
-		_ = idx.allocatorQueue.get()
-	}
+	idx.withdrawAllocators()
+	atomic.StoreInt32(&idx.stopped, 1)
 }
 
 // Start releases all allocators withdrawn through a previous call to Stop.
 // In case the indexed is not stopped in returns silently.
 func (idx *Tree) Start() {
+	// a Stop that is still waiting for allocators is not waited for, since the caller might have one
+	if atomic.LoadInt32(&idx.stopped) == 0 {
+		return
+	}
+	idx.stopLock.Lock()
+	defer idx.stopLock.Unlock()
 	if !atomic.CompareAndSwapInt32(&idx.stopped, 1, 0) {
 		return
 	}
+	idx.releaseAllocators()
+}
+
+// withAllAllocators calls f while all allocators are withdrawn, either by this call or by a previous call to Stop.
+func (idx *Tree) withAllAllocators(f func()) {
+	idx.stopLock.Lock()
+	defer idx.stopLock.Unlock()
+	if atomic.LoadInt32(&idx.stopped) == 0 {
+		idx.withdrawAllocators()
+		defer idx.releaseAllocators()
+	}
+	f()
+}
+
+// withdrawAllocators waits for and reserves all allocators. The caller must hold stopLock.
+func (idx *Tree) withdrawAllocators() {
+	for i := 0; i < len(idx.allocators); i++ {
+		_ = idx.allocatorQueue.get()
+	}
+}
+
+// releaseAllocators returns all allocators reserved by withdrawAllocators. The caller must hold stopLock.
+func (idx *Tree) releaseAllocators() {
 	for i := 0; i < len(idx.allocators); i++ {
 		idx.allocatorQueue.put(i)
 	}
-- 
2.43.0


From 7fbe152dd53bb556fd5b42fd5aa952bdfd8c83ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:23 +0000
Subject: [PATCH 15/19] fix: merging a node with its child recycles both

---
 delete.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/delete.go b/delete.go
index 54a4a1b..f48e7fd 100644
--- a/delete.go
+++ b/delete.go
@@ -56,6 +56,8 @@ type DeleteOperation struct {
 	leafPosition int
 
 	prefix []byte
+	// number of slots used by the prefix of the replaced node, when it is merged with its child
+	nodePrefixSlots int
 }
 
 var deleteOperationPool = sync.Pool{
@@ -235,7 +237,7 @@ searchLoop:
 					}
 
 					// now build the new prefix, start with adding the existing prefix for the current node (the one being replaced)
-					op.prefix, _ = appendPrefix(op.prefix[:0], op.data, prefixLen)
+					op.prefix, op.nodePrefixSlots = appendPrefix(op.prefix[:0], op.data, prefixLen)
 					// add the child node key
 					op.prefix = append(op.prefix, childKey)
 					// update op.data to point to child node data
@@ -288,7 +290,7 @@ func (op *DeleteOperation) Finalize() (deleted bool) {
 		deleted = true
 
 	case replaceNodeWithNode:
-		// PARAMETERS: op.node, op.parent, op.child, op.count, op.block, op.offset, op.count, op.prefixSlots, op.prefix
+		// PARAMETERS: op.node, op.parent, op.child, op.count, op.block, op.offset, op.count, op.prefixSlots, op.prefix, op.nodePrefixSlots
 		newNode, dst := op.idx.allocateNodeWithPrefix(op.allocator, op.count, op.prefix)
 		src := op.data[op.prefixSlots : op.prefixSlots+op.count]
 		copy(dst, src)
@@ -296,8 +298,9 @@ func (op *DeleteOperation) Finalize() (deleted bool) {
 		atomic.StoreUint64(op.nodePtr, buildNode(byte(op.raw), newNode, op.count, len(op.prefix)))
 		// unlock
 		op.unlock3()
-		// recycle the old child node
+		// recycle the old child node, and the old node which had two children
 		op.allocator.recycle(op.child, op.count+op.prefixSlots)
+		op.allocator.recycle(op.node, 2+op.nodePrefixSlots)
 		op.allocator.itemCounter--
 		deleted = true
 
-- 
2.43.0


From 7bf342133e9fbe3d6bddc4bc6a230a127c87caeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:30 +0000
Subject: [PATCH 16/19] fix: UpdateOperation.String does not use the position
 of an earlier operation

---
 update.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/update.go b/update.go
index 70680de..1810c51 100644
--- a/update.go
+++ b/update.go
@@ -103,6 +103,12 @@ func (op *UpdateOperation) prepareUpdate(key []byte) (found bool) {
 	op.FetchedKey = op.FetchedKey[:0]
 	op.allocator.startOp()
 S:
+	// the operation might be reused, and it might be restarted: forget the previous position
+	op.depth = 0
+	op.prefix = op.prefix[:0]
+	op.prefixSlots = 0
+	op.node = 0
+	op.parent = 0
 	root := atomic.LoadUint64(&op.idx.root)
 	if root == 0 {
 		// index is empty, lock root
@@ -134,10 +140,8 @@ S:
 		return false
 	}
 
-	op.depth = 0
 	op.nodePtr = &op.idx.root
 	op.raw = root
-	op.parent = 0
 	op.parentGen = 0
 	prefixLen := 0
 
-- 
2.43.0


From 6b30c6af86c3929870b1de6f9568a695ad4f8786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:38 +0000
Subject: [PATCH 17/19] fix: Admin refuses invalid node ids

---
 admin.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/admin.go b/admin.go
index c2dc13d..d0540aa 100644
--- a/admin.go
+++ b/admin.go
@@ -67,8 +67,12 @@ func (idx *Tree) Admin(out io.Writer, argv []string) {
 			fmt.Fprint(out, "usage: node <id>\n")
 			return
 		}
-		node, _ := strconv.Atoi(argv[1])
-		idx.debugPrintNode(out, uint64(node))
+		node, err := strconv.ParseUint(argv[1], 10, 64)
+		if err != nil {
+			fmt.Fprintf(out, "Invalid node\n")
+			return
+		}
+		idx.debugPrintNode(out, node)
 
 	default:
 		fmt.Fprintf(out, "Unknown command '%s'\n", argv[0])
@@ -86,13 +90,27 @@ func (idx *Tree) debugPrintNode(out io.Writer, node uint64) {
 	block := value >> blockSlotsShift
 	offset := value & blockSlotsOffsetMask
 
-	if int(block) > len(idx.blocks) || int(offset) > len(idx.blocks[block].data) {
+	if block >= uint64(len(idx.blocks)) || idx.blocks[block] == nil {
 		fmt.Fprintf(out, "Invalid node\n")
 		return
 	}
 
 	data := idx.blocks[block].data[offset:]
 
+	// verify that the prefix and the children are inside of the block
+	slots := uint64(prefixLen+7) >> 3
+	if prefixLen == 255 {
+		if data[0] < 255 || data[0] > blockSize {
+			fmt.Fprintf(out, "Invalid node\n")
+			return
+		}
+		slots = (data[0] + 15) >> 3
+	}
+	if slots+uint64(count) > uint64(len(data)) {
+		fmt.Fprintf(out, "Invalid node\n")
+		return
+	}
+
 	fmt.Fprintf(out, "NODE %d (%064b): key=%s, data=%d, count=%d, prefixLen=%d\n", node, node, printableChar(key), value, count, prefixLen)
 
 	var prefix []byte
-- 
2.43.0


From 3bfcf09ecf6695cf405f729907324f4569755f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:00 +0000
Subject: [PATCH 18/19] fix: print nodes from a copy, their memory may be
 reused meanwhile

---
 admin.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/admin.go b/admin.go
index d0540aa..0339320 100644
--- a/admin.go
+++ b/admin.go
@@ -99,18 +99,25 @@ func (idx *Tree) debugPrintNode(out io.Writer, node uint64) {
 
 	// verify that the prefix and the children are inside of the block
 	slots := uint64(prefixLen+7) >> 3
+	first := atomic.LoadUint64(&data[0])
 	if prefixLen == 255 {
-		if data[0] < 255 || data[0] > blockSize {
+		if first < 255 || first > blockSize {
 			fmt.Fprintf(out, "Invalid node\n")
 			return
 		}
-		slots = (data[0] + 15) >> 3
+		slots = (first + 15) >> 3
 	}
 	if slots+uint64(count) > uint64(len(data)) {
 		fmt.Fprintf(out, "Invalid node\n")
 		return
 	}
 
+	// print a copy, the memory may be reused by concurrent writers at any time
+	data = append([]uint64(nil), data[:slots+uint64(count)]...)
+	if len(data) > 0 {
+		data[0] = first
+	}
+
 	fmt.Fprintf(out, "NODE %d (%064b): key=%s, data=%d, count=%d, prefixLen=%d\n", node, node, printableChar(key), value, count, prefixLen)
 
 	var prefix []byte
-- 
2.43.0


From ce98a09ab2b0950da77bc47b57def24bf1d3e59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:46 +0000
Subject: [PATCH 19/19] fix: writers check that a node below a locked one is
 still part of the tree

A node that is being replaced stays locked until after the replacement, so its
generation does not tell that it is disconnected. A writer on its way down that
had read the locked node could go on to a child which was meanwhile replaced
through the new node, and change a detached copy: the operation reported
success but was lost.
---
 delete.go |  4 ++++
 radix.go  | 31 +++++++++++++++++++++++++++++++
 update.go |  4 ++++
 3 files changed, 39 insertions(+)

diff --git a/delete.go b/delete.go
index f48e7fd..4da7307 100644
--- a/delete.go
+++ b/delete.go
@@ -120,6 +120,10 @@ searchLoop:
 		if op.parent != 0 && op.parentGen != op.idx.generation(op.parent) {
 			goto S
 		}
+		// if the parent is locked, it might have been disconnected already without the generation telling
+		if op.parent != 0 && op.parentGen&1 == 1 && !op.idx.connected(key, op.raw) {
+			goto S
+		}
 
 		block := int(op.node >> blockSlotsShift)
 		offset := int(op.node & blockSlotsOffsetMask)
diff --git a/radix.go b/radix.go
index 1a5bf15..d728788 100644
--- a/radix.go
+++ b/radix.go
@@ -510,6 +510,37 @@ func (idx *Tree) Count(searchPrefix []byte) (nodes, leaves int) {
 	return NewCounter(idx).Count(searchPrefix)
 }
 
+// connected reports whether the node is part of the tree, on the path of the given key. The caller must have reserved the
+// current epoch.
+func (idx *Tree) connected(key []byte, node uint64) bool {
+	depth := 0
+	raw := atomic.LoadUint64(&idx.root)
+	for raw != node {
+		if raw == 0 || isLeaf(raw) {
+			return false
+		}
+		count, prefixLen, data := idx.getNodeFromRaw(raw)
+		depth += prefixLen
+		if depth >= len(key) {
+			return false
+		}
+		k := key[depth]
+		depth++
+		if count >= fullAllocFrom {
+			raw = atomic.LoadUint64(&data[int(k)])
+			continue
+		}
+		raw = 0
+		for i := range data[:count] {
+			if a := atomic.LoadUint64(&data[i]); byte(a) == k {
+				raw = a
+				break
+			}
+		}
+	}
+	return true
+}
+
 func (idx *Tree) search(key []byte) (uint64, bool) {
 	depth := 0
 	root := atomic.LoadUint64(&idx.root)
diff --git a/update.go b/update.go
index 1810c51..b4cc370 100644
--- a/update.go
+++ b/update.go
@@ -159,6 +159,10 @@ searchLoop:
 		if op.parent != 0 && op.parentGen != op.idx.generation(op.parent) {
 			goto S
 		}
+		// if the parent is locked, it might have been disconnected already without the generation telling
+		if op.parent != 0 && op.parentGen&1 == 1 && !op.idx.connected(key, op.raw) {
+			goto S
+		}
 
 		block := int(op.node >> blockSlotsShift)
 		offset := int(op.node & blockSlotsOffsetMask)
-- 
2.43.0

