From 7403774ea9ebf7786ffda281b7d71fcffa9160ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:13 +0000
Subject: [PATCH 01/63] fix: trie lookups, inserts and deletes must honour the
 node prefix when the key is exhausted

---
 trie/trie.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trie/trie.go b/trie/trie.go
index f07b85d..3fa9987 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -266,7 +266,7 @@ func (t *Trie) get(startNode *node, prefixString []byte, offset int, trace *[]no
 		return nil, false
 	}
 
-	if offset >= len(prefixString) {
+	if offset >= len(prefixString) && !startNode.hasPrefix() {
 		if startNode.hasValue() {
 			return startNode.value, true
 		} else {
@@ -362,7 +362,7 @@ func (t *Trie) insert(startNode *node, prefixString []byte, offset int, value in
 	startNode.generation = t.gen
 
 	// set value to current node and return
-	if offset >= len(prefixString) {
+	if offset >= len(prefixString) && !startNode.hasPrefix() {
 		// no more prefix, no more actions
 		changed, _, delta := startNode.setValue(value)
 		t.valueCount = t.valueCount + delta
@@ -506,7 +506,7 @@ func (t *Trie) delete(startNode *node, prefixString []byte, offset int) (changed
 	startNode.generation = t.gen
 
 	// remove current node value, if no more prefix
-	if offset >= len(prefixString) {
+	if offset >= len(prefixString) && !startNode.hasPrefix() {
 		changed, shouldRemove, oldValue = t.removeValue(startNode)
 		return
 	}
-- 
2.43.0


From 4be03f1363dc135ebd314e0dcab373102c1e880a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:01 +0000
Subject: [PATCH 02/63] fix: a trie commit must report a failed save of any
 node, not only of the root

---
 trie/trie.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trie/trie.go b/trie/trie.go
index 3fa9987..83b97c7 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -668,7 +668,9 @@ func (t *Trie) iterateSave(node *node) error {
 	// depth-first traversal
 	for i := 0; i < childrenLength; i++ {
 		if node.children[i] != nil {
-			_ = t.iterateSave(node.children[i])
+			if err := t.iterateSave(node.children[i]); err != nil {
+				return err
+			}
 		}
 	}
 	if node.isDirty() {
-- 
2.43.0


From d227e52ad26ee0b04702dedb5c55ce961ee883f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:02 +0000
Subject: [PATCH 03/63] fix: Trie.Collapse, Count and IsEmpty must hold the
 trie lock

---
 trie/trie.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/trie/trie.go b/trie/trie.go
index 83b97c7..a50f24d 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -222,10 +222,16 @@ func (t *Trie) hashLocked() ([]byte, error) {
 }
 
 func (t *Trie) Count() int {
+	t.lock.Lock()
+	defer t.lock.Unlock()
+
 	return t.valueCount
 }
 
 func (t *Trie) IsEmpty() bool {
+	t.lock.Lock()
+	defer t.lock.Unlock()
+
 	return t.root.isEmpty()
 }
 
@@ -644,6 +650,9 @@ func (t *Trie) Commit() error {
 }
 
 func (t *Trie) Collapse() error {
+	t.lock.Lock()
+	defer t.lock.Unlock()
+
 	if t.root != nil {
 		if t.root.canCollapse() {
 			if err := t.root.collapse(); err != nil {
-- 
2.43.0


From 8350ec6fd086f9511e447e9c597a7c1c04305420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:02 +0000
Subject: [PATCH 04/63] fix: reversed iteration skipped the value of a node
 whose child 0 exists

---
 trie/iterator.go | 34 +++++++++++++++-------------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/trie/iterator.go b/trie/iterator.go
index 7aee241..7342f27 100644
--- a/trie/iterator.go
+++ b/trie/iterator.go
@@ -363,26 +363,22 @@ func (rt *reversedValueIterator) Next() bool {
 				_ = rt.trie.expandNodeValue(last.node)
 			}
 			last.index--
-			for last.index >= 0 {
-				if last.node.children[last.index] == nil {
-					// nil child, ignore
-					last.index--
-					if last.index < 0 {
-						// check value when the reversedTrace just before poping out
-						if last.node.hasValue() {
-							return true
-						} else {
-							// shortcut, pop node if there's no value
-							_ = last.node.collapse()
-							rt.stack = rt.stack[:len(rt.stack)-1]
-						}
-					}
-				} else {
-					// push child node to stack
-					rt.stack = append(rt.stack, &reversedTrace{node: last.node.children[last.index], index: childrenLength})
-					break
-				}
+			for last.index >= 0 && last.node.children[last.index] == nil {
+				// nil child, ignore
+				last.index--
+			}
+			if last.index >= 0 {
+				// push child node to stack
+				rt.stack = append(rt.stack, &reversedTrace{node: last.node.children[last.index], index: childrenLength})
+				continue
 			}
+			// check value when the reversedTrace just before poping out
+			if last.node.hasValue() {
+				return true
+			}
+			// shortcut, pop node if there's no value
+			_ = last.node.collapse()
+			rt.stack = rt.stack[:len(rt.stack)-1]
 		}
 	}
 }
-- 
2.43.0


From 8b00963fc5e7d9c5111d43802c00a8c158bf05f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:52 +0000
Subject: [PATCH 05/63] fix: a trie clone must not lose nodes that could not be
 persisted

---
 trie/node.go | 13 +++++++++++++
 trie/trie.go | 12 +++++++++++-
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/trie/node.go b/trie/node.go
index 986a406..f2d590a 100644
--- a/trie/node.go
+++ b/trie/node.go
@@ -734,6 +734,19 @@ func (n *node) collapseValue() error {
 	return nil
 }
 
+// clone returns a copy of the node and all its children in memory
+func (n *node) clone() *node {
+	if n == nil {
+		return nil
+	}
+	c := *n
+	c.prefix = common.CopyBytes(n.prefix)
+	for i := 0; i < childrenLength; i++ {
+		c.children[i] = n.children[i].clone()
+	}
+	return &c
+}
+
 func (n *node) ToString(recursive bool) string {
 	buf := new(bytes.Buffer)
 	nt := n.ntype()
diff --git a/trie/trie.go b/trie/trie.go
index a50f24d..783b222 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -166,7 +166,17 @@ func (t *Trie) Clone() *Trie {
 	t.lock.Lock()
 	defer t.lock.Unlock()
 
-	_ = t.commitLocked()
+	if err := t.commitLocked(); err != nil {
+		// some nodes could not be persisted, the clone could not load them by the root hash, so
+		// it must have its own copy of the nodes in memory
+		log.Errorf("commit before cloning failed: %v", err)
+		return &Trie{
+			root:         t.root.clone(),
+			nodeAdapter:  t.nodeAdapter,
+			valueAdapter: t.valueAdapter,
+			gen:          t.gen,
+		}
+	}
 	rootHash, _ := t.hashLocked()
 	return &Trie{
 		root: NewNodeWithFuncs(rootHash, t.gen, t.root.valueEncode,
-- 
2.43.0


From cafded73630918bfd56ee7457ac2bc11b70b9ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:11 +0000
Subject: [PATCH 06/63] fix: a truncated node read must leave the trie node
 collapsed

---
 trie/trie.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/trie/trie.go b/trie/trie.go
index 783b222..3a9ad90 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -603,9 +603,12 @@ func (t *Trie) expandNode(node *node) error {
 		return fmt.Errorf("load %s data error: %v", node, err)
 	}
 	buf := rtl.NewValueReader(bytes.NewBuffer(nodebytes), 256)
-	if err = rtl.Decode(buf, node); err != nil {
+	// decode into a new node, an incomplete one must not replace the collapsed node
+	decoded := NewNodeWithFuncs(nil, node.generation, node.valueEncode, node.valueDecode, node.valueHasher)
+	if err = rtl.Decode(buf, decoded); err != nil {
 		return fmt.Errorf("decode nodebytes@[%x] DA:%s error: %v", hashes, t.nodeAdapter, err)
 	}
+	node.prefix, node.children, node.valuehash = decoded.prefix, decoded.children, decoded.valuehash
 	if node.inErrorStatus() {
 		log.Warnf("[BUGFIX] an error node found:%v, nodeHash:%x, nodeValue:%x", node, hashes, nodebytes)
 		// oldprefix := node.prefix
-- 
2.43.0


From e3ce805a172c9176c5487bbac8b1bb783966618a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:22 +0000
Subject: [PATCH 07/63] fix: LDB.Batch must report the write error

---
 db/ldb.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/db/ldb.go b/db/ldb.go
index 6aa8a14..9c2d006 100644
--- a/db/ldb.go
+++ b/db/ldb.go
@@ -101,8 +101,7 @@ func (db *LDB) Batch(batch Batch) error {
 	if !ok {
 		return fmt.Errorf("illegal batch type, expect *ldbBatch, but %v", batch)
 	}
-	db.db.Write(lb.b, nil)
-	return nil
+	return db.db.Write(lb.b, nil)
 }
 
 type ldbBatch struct {
-- 
2.43.0


From dc2343853eec71c113d3b83b12dff621bf0b7017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:23 +0000
Subject: [PATCH 08/63] fix: cached database reported absent keys as present
 and shared cached values with callers

---
 db/cacheddb.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/db/cacheddb.go b/db/cacheddb.go
index 962c98a..51dacde 100644
--- a/db/cacheddb.go
+++ b/db/cacheddb.go
@@ -94,10 +94,11 @@ func (d *cachedDB) Put(key, value []byte) error {
 func (d *cachedDB) Has(key []byte) (bool, error) {
 	d.lock.RLock()
 	defer d.lock.RUnlock()
-	_, ok := d.cache.Get(string(key))
+	v, ok := d.cache.Get(string(key))
 	if ok {
 		atomic.AddUint64(&(d.hitcount), 1)
-		return true, nil
+		// the absence of the key could be cached too
+		return v.([]byte) != nil, nil
 	}
 	atomic.AddUint64(&(d.misscount), 1)
 	return d.baseDB.Has(key)
@@ -110,14 +111,14 @@ func (d *cachedDB) Get(key []byte) ([]byte, error) {
 	v, ok := d.cache.Get(ckey)
 	if ok {
 		atomic.AddUint64(&(d.hitcount), 1)
-		return v.([]byte), nil
+		return CopySlice(v.([]byte)), nil
 	}
 	atomic.AddUint64(&(d.misscount), 1)
 	r, err := d.baseDB.Get(key)
 	if err != nil {
 		return nil, err
 	}
-	d.cache.Add(ckey, r)
+	d.cache.Add(ckey, CopySlice(r))
 	return r, nil
 }
 
-- 
2.43.0


From d9445c210a17746dc911ecac8774cdf783abd467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:24 +0000
Subject: [PATCH 09/63] fix: memory batches must copy keys and values and
 refuse nil like Put does

---
 db/memdb.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/db/memdb.go b/db/memdb.go
index 857f88b..9cc2e3b 100644
--- a/db/memdb.go
+++ b/db/memdb.go
@@ -123,12 +123,15 @@ func (m *MemDB) Close() error {
 }
 
 func (b *memBatch) Put(key, value []byte) error {
-	b.cmds = append(b.cmds, &batcher{typ: putBatcher, key: key, value: value})
+	if key == nil || value == nil {
+		return common.ErrNil
+	}
+	b.cmds = append(b.cmds, &batcher{typ: putBatcher, key: CopySlice(key), value: CopySlice(value)})
 	return nil
 }
 
 func (b *memBatch) Delete(key []byte) error {
-	b.cmds = append(b.cmds, &batcher{typ: deleteBatcher, key: key})
+	b.cmds = append(b.cmds, &batcher{typ: deleteBatcher, key: CopySlice(key)})
 	return nil
 }
 
-- 
2.43.0


From eec72404d7bbdae2e3af5d87f07ac84588df51d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:25 +0000
Subject: [PATCH 10/63] fix: BatchWrite dropped the pending batch when the last
 items were skipped

---
 db/types.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/db/types.go b/db/types.go
index f0eeaff..ba80cd0 100644
--- a/db/types.go
+++ b/db/types.go
@@ -99,7 +99,7 @@ func BatchWrite(dbase Database, threshold, length int,
 			continue
 		}
 		index = index + 1
-		if index == threshold || i == (length-1) {
+		if index == threshold {
 			if err = dbase.Batch(batch); err != nil {
 				return count, err
 			}
@@ -107,5 +107,12 @@ func BatchWrite(dbase Database, threshold, length int,
 			index = 0
 		}
 	}
+	if index > 0 {
+		// the last items may be skipped, what has been collected must be written anyway
+		if err = dbase.Batch(batch); err != nil {
+			return count, err
+		}
+		count = count + index
+	}
 	return count, nil
 }
-- 
2.43.0


From cda41b06cf9df91e87fd5836c10fa6e34de15bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:26 +0000
Subject: [PATCH 11/63] fix: batches of key-converting adapters were passed
 wrapped to the underlying database

---
 db/adapters.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/db/adapters.go b/db/adapters.go
index dd99fa5..cb80923 100644
--- a/db/adapters.go
+++ b/db/adapters.go
@@ -68,6 +68,14 @@ func (k *KeyBatch) Size() int {
 	return k.batch.Size()
 }
 
+// unwrapBatch returns the batch of the underlying database
+func unwrapBatch(batch Batch) Batch {
+	if kb, ok := batch.(*KeyBatch); ok {
+		return kb.batch
+	}
+	return batch
+}
+
 type keyPrefixedDataAdapter struct {
 	database  Database
 	keyPrefix []byte
@@ -122,7 +130,7 @@ func (k *keyPrefixedDataAdapter) NewBatch() Batch {
 }
 
 func (k *keyPrefixedDataAdapter) SaveBatch(batch Batch) error {
-	return k.database.Batch(batch)
+	return k.database.Batch(unwrapBatch(batch))
 }
 
 /*
@@ -201,7 +209,7 @@ func (d *KeyDatabase) NewBatch() Batch {
 }
 
 func (d *KeyDatabase) Batch(batch Batch) error {
-	return d.database.Batch(batch)
+	return d.database.Batch(unwrapBatch(batch))
 }
 
 func (d *KeyDatabase) Close() error {
-- 
2.43.0


From 366fabfb6549ccd4f25d0aaa37e78b18964e3e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:58 +0000
Subject: [PATCH 12/63] fix: RevertTo must restore the state of checkpoint 0
 instead of dropping all pending changes

---
 trie/revertable.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/trie/revertable.go b/trie/revertable.go
index 5754d25..5af596a 100644
--- a/trie/revertable.go
+++ b/trie/revertable.go
@@ -15,6 +15,7 @@
 package trie
 
 import (
+	"bytes"
 	"fmt"
 	"sync"
 
@@ -79,6 +80,7 @@ func (r *RevertableTrie) SetTo(newTrie *Trie) error {
 	}
 	r.Origin = newTrie
 	r.Live = nil
+	r.chkpts = nil
 	return nil
 }
 
@@ -314,12 +316,22 @@ func (r *RevertableTrie) RevertTo(checkPoint int, root []byte) error {
 	if h != r.chkpts[checkPoint] {
 		return ErrNotExist
 	}
+	if r.Origin == nil {
+		return common.ErrNil
+	}
+	originRoot, err := r.Origin.HashValue()
+	if err != nil {
+		return err
+	}
+	if bytes.Equal(originRoot, root) {
+		// there was no uncommitted change when the checkpoint was created
+		r.Live = nil
+	} else {
+		r.Live = r.Origin.Inherit(root)
+	}
 	r.chkpts = r.chkpts[:checkPoint]
 	if len(r.chkpts) == 0 {
 		r.chkpts = nil
-		r.Live = nil
-	} else {
-		r.Live = r.Live.Inherit(root)
 	}
 	return nil
 }
-- 
2.43.0


From f109d60ff89ae53005e5803847f0e794e91abb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:37 +0000
Subject: [PATCH 13/63] fix: HistoryTree.Has locked itself out

---
 trie/historytree.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/trie/historytree.go b/trie/historytree.go
index 18bde69..7659e9b 100644
--- a/trie/historytree.go
+++ b/trie/historytree.go
@@ -413,9 +413,6 @@ func (h *HistoryTree) Append(key uint64, value []byte) (err error) {
 }
 
 func (h *HistoryTree) Has(key uint64) bool {
-	h.lock.Lock()
-	defer h.lock.Unlock()
-
 	_, exist := h.Get(key)
 	return exist
 }
-- 
2.43.0


From 98aa1edd2a396ba3b5cd7d66a56097eaee9ad2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:08 +0000
Subject: [PATCH 14/63] fix: a failed load must not wipe the history tree node
 being expanded

---
 trie/historytree.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/trie/historytree.go b/trie/historytree.go
index 7659e9b..3062541 100644
--- a/trie/historytree.go
+++ b/trie/historytree.go
@@ -1027,28 +1027,32 @@ func (n *TreeNode) readFull(root []byte, adapter db.DataAdapter) error {
 		return common.ErrNil
 	}
 
-	n.Reset()
 	if len(root) == 0 || bytes.Compare(root, common.NilHashSlice) == 0 {
+		n.Reset()
 		return nil
 	}
 
+	// The node must keep its hash until the content was loaded and decoded completely, otherwise
+	// it would be lost for ever by a failed (and maybe temporary) loading.
 	content, err := adapter.Load(root)
 	if err != nil {
 		return err
 	}
 
 	if len(content) == 0 {
+		// no such node in the database (e.g. in a tree created by proofs), stay collapsed
 		return nil
 	}
 
 	loadEntire := false
+	loaded := NewTreeNode()
 
 	// When the first byte is 0xff, it indicates that the content is the serialization of the
 	// *serialNode; otherwise, it indicates that the content is only the value
 	if content[0] == 0x1 {
-		n.isLeaf = true
+		loaded.isLeaf = true
 	} else if content[0] == 0x0 {
-		n.isLeaf = false
+		loaded.isLeaf = false
 	} else if content[0] == 0xff {
 		loadEntire = true
 	} else {
@@ -1062,11 +1066,14 @@ func (n *TreeNode) readFull(root []byte, adapter db.DataAdapter) error {
 		if err = rtl.Decode(vr, sn); err != nil {
 			return err
 		}
-		n.fromSerialNode(adapter, sn)
+		loaded.fromSerialNode(adapter, sn)
 	} else {
-		err = n.decodeDescendants(adapter, vr)
+		if err = loaded.decodeDescendants(adapter, vr); err != nil {
+			return err
+		}
 	}
-	return err
+	*n = *loaded
+	return nil
 }
 
 // Remove all ancestors on the path indicated by prefix from the Branchs cache
@@ -1254,6 +1261,10 @@ func (n *TreeNode) traceDescendant(adapter db.DataAdapter, prefixString []byte,
 		if err = n.expand(adapter); err != nil {
 			return false, nil, false, err
 		}
+		if append && n.isCollapsed() {
+			// nothing can be appended to a node whose content is unknown
+			return false, nil, false, ErrMissingChild
+		}
 	}
 	maxpos := len(prefixString) - 1
 	if offset == maxpos && n.IsLeaf() == false {
-- 
2.43.0


From 1da0c3bd23a51fa3c5a0e97aea11f984d47e8b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:09 +0000
Subject: [PATCH 15/63] fix: HistoryTree.Clone returned nil when a node could
 not be saved or loaded

---
 trie/historytree.go | 39 +++++++++++++++++++++++++++++++++++----
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/trie/historytree.go b/trie/historytree.go
index 3062541..9b5378e 100644
--- a/trie/historytree.go
+++ b/trie/historytree.go
@@ -308,11 +308,24 @@ func (h *HistoryTree) Clone() *HistoryTree {
 	h.lock.Lock()
 	defer h.lock.Unlock()
 
-	_ = h._commit()
-	root, _ := h._hashValue()
 	adapter := h.adapter.Clone().(db.DatabasedAdapter)
-	ht, _ := _newHistoryTree(adapter, root, false)
-	return ht
+	err := h._commit()
+	if err == nil {
+		var root []byte
+		if root, err = h._hashValue(); err == nil {
+			var ht *HistoryTree
+			if ht, err = _newHistoryTree(adapter, root, false); err == nil {
+				return ht
+			}
+		}
+	}
+	// the nodes could not be saved or loaded, the clone must have its own copy of them
+	log.Errorf("reloading the cloned history tree failed: %v", err)
+	return &HistoryTree{
+		expecting: h.expecting,
+		root:      h.root.clone(),
+		adapter:   adapter,
+	}
 }
 
 func (h *HistoryTree) _hashValue() ([]byte, error) {
@@ -664,6 +677,24 @@ func (n *TreeNode) copy() (*TreeNode, error) {
 	return node, nil
 }
 
+// deep copy of the nodes in memory
+func (n *TreeNode) clone() *TreeNode {
+	if n == nil {
+		return nil
+	}
+	node := NewTreeNode()
+	node.isDirty = n.isDirty
+	node.isLeaf = n.isLeaf
+	for k, v := range n.Branchs {
+		node.Branchs[k] = common.CopyBytes(v)
+	}
+	for i := 0; i < childrenLength; i++ {
+		node.Children[i] = n.Children[i].clone()
+		node.Leafs[i] = common.CopyBytes(n.Leafs[i])
+	}
+	return node
+}
+
 func (n *TreeNode) Reset() {
 	n.Branchs = make(map[string][]byte)
 	for i := 0; i < childrenLength; i++ {
-- 
2.43.0


From d0c170269466fe8dd947c039928c2eb8914b487d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:50 +0000
Subject: [PATCH 16/63] fix: a chopped history tree could not be committed or
 lost the uncommitted nodes

---
 trie/historytree.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/trie/historytree.go b/trie/historytree.go
index 9b5378e..c60b916 100644
--- a/trie/historytree.go
+++ b/trie/historytree.go
@@ -1740,6 +1740,7 @@ func (n *TreeNode) _chop(index int, indexingChanged bool) (newnode *TreeNode, ch
 	}
 	node := NewTreeNode()
 	node.isLeaf = n.isLeaf
+	node.isDirty = true // a node with these children may have never been saved
 	if n.isLeaf {
 		if n.Leafs[index] == nil {
 			return nil, false, fmt.Errorf("no leaf value at index:%d", index)
@@ -1756,6 +1757,11 @@ func (n *TreeNode) _chop(index int, indexingChanged bool) (newnode *TreeNode, ch
 		}
 		for i := 0; i <= index; i++ {
 			if n.Children[i] != nil {
+				if n.Children[i].isDirty {
+					// it can not be loaded by its hash before it is saved
+					node.Children[i] = n.Children[i].clone()
+					continue
+				}
 				child, err := n.Children[i].copy()
 				if err != nil {
 					return nil, false, fmt.Errorf("copy child index:%d failed: %v", i, err)
-- 
2.43.0


From 962290ca50bd860579233aa044bef3834e213f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:51 +0000
Subject: [PATCH 17/63] fix: CollapseBefore panicked on a partial history tree

---
 trie/historytree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trie/historytree.go b/trie/historytree.go
index c60b916..7823c2e 100644
--- a/trie/historytree.go
+++ b/trie/historytree.go
@@ -384,6 +384,10 @@ func (h *HistoryTree) CollapseBefore(key uint64) error {
 	if parentNode.IsLeaf() {
 		return common.ErrIllegalStatus
 	}
+	if parentNode.Children[index-1] == nil {
+		// unknown in a tree created by proofs, nothing to collapse
+		return nil
+	}
 	if parentNode.Children[index-1].isDirty {
 		return common.ErrIllegalStatus
 	}
-- 
2.43.0


From e2e70df059f1afd15380bb6fbffc609bd6ef6cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:51 +0000
Subject: [PATCH 18/63] fix: existence proofs must be bound to the proved child
 and to the node's value flag

---
 trie/proof.go | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/trie/proof.go b/trie/proof.go
index 6ae0ba0..f31d68a 100644
--- a/trie/proof.go
+++ b/trie/proof.go
@@ -467,6 +467,10 @@ func (n *NodeProof) ExistenceMatch(keyprefix []byte) (matched bool, valueHash *c
 				// current proof proves node value, there's no valueHash
 				return true, nil, nil, ErrMismatchProof
 			}
+			if !n.Header.NT.HasValue() {
+				// the node has no value, whatever is in ValueHash
+				return false, nil, nil, nil
+			}
 			if n.ValueHash == nil {
 				return true, nil, nil, ErrMissingValue
 			}
@@ -499,6 +503,10 @@ func (n *NodeProof) ExistenceMatch(keyprefix []byte) (matched bool, valueHash *c
 				// The current node proves value, and there is no ValueHash
 				return true, nil, nil, ErrMismatchProof
 			}
+			if !n.Header.NT.HasValue() {
+				// the node has no value, whatever is in ValueHash
+				return false, nil, nil, nil
+			}
 			if n.ValueHash == nil {
 				return true, nil, nil, ErrMissingValue
 			}
@@ -522,7 +530,7 @@ func (n *NodeProof) ExistenceMatch(keyprefix []byte) (matched bool, valueHash *c
 		return false, nil, keyprefix, ErrMismatchProof
 	}
 
-	if byte(n.PType) != keyprefix[0] {
+	if byte(n.PType) != keyprefix[0] || !n.provesChild(int(keyprefix[0])) {
 		// It's not proof of the child node be want to find
 		return false, nil, keyprefix, ErrMismatchProof
 	}
@@ -531,6 +539,31 @@ func (n *NodeProof) ExistenceMatch(keyprefix []byte) (matched bool, valueHash *c
 	return true, nil, keyprefix[1:], nil
 }
 
+// Whether ChildProofs is the path of the child at index in the merkle tree of all existing children.
+// PType does not participate in hashing, so the child it names must be the one which is proved.
+func (n *NodeProof) provesChild(index int) bool {
+	pos, count := 0, 0
+	for i := 0; i < childrenLength; i++ {
+		if !n.Header.HasChild(i) {
+			continue
+		}
+		if i < index {
+			pos++
+		}
+		count++
+	}
+	depth := 1
+	for 1<<uint(depth) < count {
+		depth++
+	}
+	if n.ChildProofs.Len() != depth || n.ChildProofs.Paths == nil {
+		return false
+	}
+	key := big.NewInt(0)
+	n.ChildProofs.BigKey(key, 0)
+	return key.Cmp(big.NewInt(int64(pos))) == 0
+}
+
 func (n *NodeProof) ExistenceHash() ([]byte, error) {
 	if n.PType.IsProofExistence() == false {
 		return nil, fmt.Errorf("only ExistenceProof can Hash, but it's %s", n.PType)
-- 
2.43.0


From e2cb5b2e6d5dc085a9c3cbb8e0cad1bd01e3b066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:24 +0000
Subject: [PATCH 19/63] fix: a reopened history tree with gaps must expect the
 key after its last value

---
 trie/historytree.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/trie/historytree.go b/trie/historytree.go
index 7823c2e..39ccdf4 100644
--- a/trie/historytree.go
+++ b/trie/historytree.go
@@ -744,9 +744,8 @@ func (n *TreeNode) rightmostChild(checkPrecedingNil bool) (index int, child *Tre
 		if n.Children[i] != nil {
 			index = i
 			child = n.Children[i]
-			// once a non-nil value presented, it returns immediately when nil present.
-			// That is, only preceding continuous nil is allowed
-			checkPrecedingNil = true
+			// There may be a gap on the left side of the rightmost one if it is not checked, because
+			// proofs of any keys can be merged into a partial tree
 		} else {
 			if checkPrecedingNil {
 				return
@@ -793,9 +792,8 @@ func (n *TreeNode) rightmostLeaf(checkPrecedingNil bool) (index int, leaf []byte
 		if n.Leafs[i] != nil {
 			index = i
 			leaf = n.Leafs[i]
-			// once a non-nil value presented, it returns immediately when nil present.
-			// That is, only preceding continuous nil is allowed
-			checkPrecedingNil = true
+			// There may be a gap on the left side of the rightmost one if it is not checked, because
+			// proofs of any keys can be merged into a partial tree
 		} else {
 			if checkPrecedingNil {
 				return
-- 
2.43.0


From ee8aa4e91d4da9db66e4a15ba10496c051c92588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:24 +0000
Subject: [PATCH 20/63] fix: merging a proof below an unknown leaf node lost
 the value

---
 trie/historytree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trie/historytree.go b/trie/historytree.go
index 39ccdf4..b505717 100644
--- a/trie/historytree.go
+++ b/trie/historytree.go
@@ -1226,6 +1226,10 @@ func (n *TreeNode) _mergeHashItems(adapter db.DataAdapter, index int, value []by
 	if len(proof) != ValueKeyLength {
 		return errors.New("length of TreeNode proof should be 4")
 	}
+	if n.isCollapsed() {
+		// the content of the node is unknown, but not whether it is on the level of the leafs
+		n.isLeaf = child == nil
+	}
 	if n.isLeaf {
 		n.Leafs[index] = common.CopyBytes(value)
 	} else {
-- 
2.43.0


From f87ea9e0207858021e8ecb7b765b5d11ac717998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:24 +0000
Subject: [PATCH 21/63] fix: a failed load must not leave a proof merged in
 part

---
 trie/historytree.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trie/historytree.go b/trie/historytree.go
index b505717..2b64143 100644
--- a/trie/historytree.go
+++ b/trie/historytree.go
@@ -1255,7 +1255,9 @@ func (n *TreeNode) _mergeHashItems(adapter db.DataAdapter, index int, value []by
 							if err := n.Children[p].putValue(adapter, nil, h.Bytes()); err != nil {
 								return err
 							}
-						} else {
+						} else if !n.Children[p].isCollapsed() {
+							// a collapsed node already has its hash and must not be loaded for it: a
+							// failed loading would leave the path merged in part
 							if err := n.Children[p].putValue(adapter, nil, h.Bytes()); err != nil {
 								return err
 							}
-- 
2.43.0


From ff2b51b1fc232205d37676b045d1beb92b5b5c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:19 +0000
Subject: [PATCH 22/63] fix: a combined trie without sub-tries must be reopened
 from its root

---
 trie/combinedtrie.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trie/combinedtrie.go b/trie/combinedtrie.go
index 14a0155..7e841b0 100644
--- a/trie/combinedtrie.go
+++ b/trie/combinedtrie.go
@@ -257,7 +257,8 @@ func (c *SmallCombinedTrie) saveRoot() error {
 // TODO optimization needed
 func (c *SmallCombinedTrie) loadRoot(rootHash []byte, nadapter db.DataAdapter, vadapter db.DataAdapter,
 	encode NodeValueEncode, decode NodeValueDecode, hasher NodeValueHasher) error {
-	if rootHash == nil {
+	if rootHash == nil || bytes.Equal(rootHash, common.NilHashSlice) {
+		// the root of a combined trie without sub-tries
 		return nil
 	}
 	value, err := c.adapter.Load(rootHash)
-- 
2.43.0


From 6473c9c804e10826d4207fbe23de830f146cb122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:52 +0000
Subject: [PATCH 23/63] fix: a combined commit must save the sub-trie roots it
 committed

---
 trie/combinedtrie.go | 41 ++++++++++++++++++++++-------------------
 trie/trie.go         | 12 ++++++++++++
 2 files changed, 34 insertions(+), 19 deletions(-)

diff --git a/trie/combinedtrie.go b/trie/combinedtrie.go
index 7e841b0..eb30408 100644
--- a/trie/combinedtrie.go
+++ b/trie/combinedtrie.go
@@ -205,46 +205,49 @@ func (c *SmallCombinedTrie) IsDirty() bool {
 func (c *SmallCombinedTrie) Commit() error {
 	c.lock.Lock()
 	defer c.lock.Unlock()
-	for _, t := range c.valueMap {
-		if t != nil {
-			if t.IsDirty() {
-				if err := t.Commit(); err != nil {
-					return err
-				}
-			}
+	// a sub-trie may be changed after it was committed, so the roots committed
+	// are the ones to be saved
+	hashes := make([][]byte, len(c.keys))
+	for i, k := range c.keys {
+		t := c.valueMap[k]
+		if t == nil {
+			continue
 		}
+		h, err := t.commitDirty()
+		if err != nil {
+			return err
+		}
+		hashes[i] = h
 	}
 	// save top hash
-	if err := c.saveRoot(); err != nil {
+	if err := c.saveRoot(hashes); err != nil {
 		return err
 	}
 	return nil
 }
 
-func (c *SmallCombinedTrie) saveRoot() error {
+// saveRoot saves the committed root hash of each sub-trie in the order of c.keys
+func (c *SmallCombinedTrie) saveRoot(hashes [][]byte) error {
 	if c.adapter == nil {
 		log.Warn("SmallCombinedTrie save root without DataAdapter")
 		return nil
 	}
 	buf := new(bytes.Buffer)
-	for i := 0; i < len(c.keys); i++ {
-		t, ok := c.valueMap[c.keys[i]]
-		if !ok || t == nil {
+	hashList := make([][]byte, 0, len(hashes))
+	for i, h := range hashes {
+		if h == nil {
 			continue
 		}
-		h, err := t.HashValue()
-		if err != nil {
-			return err
-		}
-		if err = rtl.Encode(c.keys[i], buf); err != nil {
+		if err := rtl.Encode(c.keys[i], buf); err != nil {
 			return err
 		}
-		if err = rtl.Encode(h, buf); err != nil {
+		if err := rtl.Encode(h, buf); err != nil {
 			return err
 		}
+		hashList = append(hashList, h)
 	}
 	// trie hash
-	h, err := c.computeHash(0, nil)
+	h, err := common.MerkleHashComplete(hashList, 0, nil)
 	if err != nil {
 		return err
 	}
diff --git a/trie/trie.go b/trie/trie.go
index 3a9ad90..72458b3 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -265,6 +265,18 @@ func (t *Trie) CommitAndHash() ([]byte, error) {
 	return root, nil
 }
 
+// commitDirty commits the trie if it is dirty, and returns the root hash committed
+func (t *Trie) commitDirty() ([]byte, error) {
+	t.lock.Lock()
+	defer t.lock.Unlock()
+	if t.root.isDirty() {
+		if err := t.commitLocked(); err != nil {
+			return nil, err
+		}
+	}
+	return t.hashLocked()
+}
+
 func (t *Trie) Get(key []byte) (interface{}, bool) {
 	t.lock.Lock()
 	defer t.lock.Unlock()
-- 
2.43.0


From 4594a751234908b7fe8229aaf723a099267ddea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:58 +0000
Subject: [PATCH 24/63] fix: a routine pool could not be started again after it
 was stopped

---
 routinepool.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/routinepool.go b/routinepool.go
index 9c08999..7ff1c77 100644
--- a/routinepool.go
+++ b/routinepool.go
@@ -114,7 +114,6 @@ func NewRoutinePool(name string, routineSize int, queueSize int, workFunc Worker
 			workFunc: workFunc,
 		}
 	}
-	ret.wg.Add(routineSize)
 	return ret
 }
 
@@ -133,7 +132,11 @@ func (p *RoutinePool) Start() {
 		return
 	}
 	p.started = true
+	// the last Stop closed the previous quit channel
+	p.quit = make(chan struct{})
+	p.wg.Add(len(p.workers))
 	for i := 0; i < len(p.workers); i++ {
+		p.workers[i].quit = p.quit
 		go p.workers[i].work()
 	}
 }
-- 
2.43.0


From 683a6a306d0cdefbd3c4a5b51057d13eef8c27f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:04 +0000
Subject: [PATCH 25/63] fix: KeyCount returned the live map without its lock

---
 routinepool.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/routinepool.go b/routinepool.go
index 7ff1c77..6303efa 100644
--- a/routinepool.go
+++ b/routinepool.go
@@ -188,8 +188,16 @@ func decKeyCount(key string) {
 	}
 }
 
+// KeyCount returns the number of objects being processed for each key
 func KeyCount() map[string]int {
-	return routinePoolKeyCountMap
+	routinePoolKeyCountLock.Lock()
+	defer routinePoolKeyCountLock.Unlock()
+
+	ret := make(map[string]int, len(routinePoolKeyCountMap))
+	for k, c := range routinePoolKeyCountMap {
+		ret[k] = c
+	}
+	return ret
 }
 
 func (p *RoutinePool) PostLower(v interface{}) {
-- 
2.43.0


From 20a4222c56567b30118e54a2f724136d1ac9c7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:05 +0000
Subject: [PATCH 26/63] fix: a service whose initialisation failed could be
 started, but not initialised again

---
 types.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/types.go b/types.go
index e111139..b85a942 100644
--- a/types.go
+++ b/types.go
@@ -157,12 +157,15 @@ func (s *AbstractService) SetChanger(changer ServiceStateChanger) {
 func (s *AbstractService) Init() error {
 	s.serviceLocker.Lock()
 	defer s.serviceLocker.Unlock()
+	status := s.serviceStatus
 	if err := s.serviceStatus.CheckInit(); err != nil {
 		return err
 	}
 
 	if s.InitFunc != nil {
 		if err := s.InitFunc(); err != nil {
+			// not initialized, must not be started
+			s.serviceStatus = status
 			return err
 		}
 	}
-- 
2.43.0


From 82682ad6f7d1eee3d3ac0f88b53c65fe0dcfb9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:06 +0000
Subject: [PATCH 27/63] fix: two concurrent Adds of a key to a LruMap could
 both succeed

---
 types.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/types.go b/types.go
index b85a942..2400328 100644
--- a/types.go
+++ b/types.go
@@ -228,11 +228,8 @@ func NewLruMap(size int) *LruMap {
 }
 
 func (m *LruMap) Add(key interface{}, value interface{}) bool {
-	if m.Map.Contains(key) {
-		return false
-	}
-	m.Map.Add(key, value)
-	return true
+	exist, _ := m.Map.ContainsOrAdd(key, value)
+	return !exist
 }
 
 func (m *LruMap) Get(key interface{}) interface{} {
-- 
2.43.0


From e934a86be7a2aeb0a794c672b8b154e81ea80974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:07 +0000
Subject: [PATCH 28/63] fix: zero bytes were returned as random when the
 entropy source failed

---
 basic.go | 4 +++-
 utils.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/basic.go b/basic.go
index 193d83a..bb5fe28 100644
--- a/basic.go
+++ b/basic.go
@@ -321,7 +321,9 @@ func (nid *NodeID) Generate() error {
 
 func GenerateNodeID() *NodeID {
 	r := new(NodeID)
-	r.Generate()
+	if err := r.Generate(); err != nil {
+		panic(DvppError{"could not generate node id", err})
+	}
 	return r
 }
 
diff --git a/utils.go b/utils.go
index ca372cd..094ed8e 100644
--- a/utils.go
+++ b/utils.go
@@ -47,7 +47,9 @@ func ReverseBytes(bs []byte) []byte {
 
 func RandomBytes(length int) []byte {
 	b := make([]byte, length)
-	_, _ = io.ReadFull(rand.Reader, b)
+	if _, err := io.ReadFull(rand.Reader, b); err != nil {
+		panic(DvppError{"could not get random bytes", err})
+	}
 	return b
 }
 
-- 
2.43.0


From 0f73b53ced78637c6501c5907d82db2ef6c3cb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:27 +0000
Subject: [PATCH 29/63] fix: NodeIDSet returned zero ids, and wrong positions
 after a deletion

---
 basic.go | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/basic.go b/basic.go
index bb5fe28..46c58db 100644
--- a/basic.go
+++ b/basic.go
@@ -651,9 +651,14 @@ func (ns *NodeIDSet) Delete(id *NodeID) {
 	copy(ns.l[i:], ns.l[i+1:])
 	ns.l = ns.l[:len(ns.l)-1]
 	delete(ns.m, *id)
+	for ; i < len(ns.l); i++ {
+		ns.m[*ns.l[i]] = i
+	}
 }
 
 func (ns *NodeIDSet) Get(i int) (*NodeID, bool) {
+	ns.lock.RLock()
+	defer ns.lock.RUnlock()
 	if i < 0 || i >= len(ns.l) {
 		return nil, false
 	}
@@ -671,16 +676,17 @@ func (ns *NodeIDSet) GetIndex(id *NodeID) (int, bool) {
 }
 
 func (ns *NodeIDSet) GetNodeIDs(chainid ChainID) NodeIDs {
-	if len(ns.l) > 0 {
-		nids := make(NodeIDs, len(ns.l))
-		sort.Sort(ns)
-		for i := 0; i < len(ns.l); i++ {
-			nids = append(nids, *ns.l[i])
-		}
-		return nids
-	} else {
-		return make(NodeIDs, 0)
-	}
+	ns.lock.Lock()
+	defer ns.lock.Unlock()
+	sort.Slice(ns.l, func(i, j int) bool {
+		return bytes.Compare(ns.l[i][:], ns.l[j][:]) < 0
+	})
+	nids := make(NodeIDs, 0, len(ns.l))
+	for i, id := range ns.l {
+		ns.m[*id] = i
+		nids = append(nids, *id)
+	}
+	return nids
 }
 
 func (e EraNum) IsNil() bool {
-- 
2.43.0


From 195f191780d2f52b523274fd30ba8362244d49c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:54 +0000
Subject: [PATCH 30/63] fix: the cash check log panicked when it was not or
 could not be initialised

---
 log/cashcheck.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/log/cashcheck.go b/log/cashcheck.go
index 817cf96..602e634 100644
--- a/log/cashcheck.go
+++ b/log/cashcheck.go
@@ -10,7 +10,12 @@ import (
 )
 
 var (
-	ccLog        *logrus.Logger
+	// nothing is written until the check log is initialized successfully
+	ccLog = &logrus.Logger{
+		Out:       &EmptyWriter{},
+		Formatter: &logrus.TextFormatter{},
+		Level:     logrus.ErrorLevel,
+	}
 	ccLogLock    sync.RWMutex
 	createCCOnce sync.Once
 )
-- 
2.43.0


From 2789e5755d886ccd5a0d97fd808fa69751d7c310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:00 +0000
Subject: [PATCH 31/63] fix: WithField dropped fields after the first

---
 log/log.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/log/log.go b/log/log.go
index 494bf46..f57bc1f 100644
--- a/log/log.go
+++ b/log/log.go
@@ -196,7 +196,7 @@ func WithField(vs ...interface{}) logrus.FieldLogger {
 	}
 	l := len(vs)
 	fields := make(logrus.Fields)
-	for i := 0; i < l/2; i += 2 {
+	for i := 0; i+1 < l; i += 2 {
 		k, ok := vs[i].(string)
 		if !ok {
 			continue
-- 
2.43.0


From 200619776416d81119156ba859d176db64c2431d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:36 +0000
Subject: [PATCH 32/63] fix: a failing log file kept messages from the console

---
 log/hooks.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/log/hooks.go b/log/hooks.go
index e0545c8..42cc3aa 100644
--- a/log/hooks.go
+++ b/log/hooks.go
@@ -65,11 +65,10 @@ func (m *FileAndConsoleHook) Fire(entry *logrus.Entry) error {
 		return err
 	}
 
+	var fileErr error
 	if m.logfile != nil {
-		_, err = m.logfile.Write(msg)
-		if err != nil {
-			return err
-		}
+		// a failure of the log file must not keep the message from the console
+		_, fileErr = m.logfile.Write(msg)
 	}
 
 	if m.consoleWriter != nil {
@@ -82,7 +81,7 @@ func (m *FileAndConsoleHook) Fire(entry *logrus.Entry) error {
 		}
 	}
 
-	return nil
+	return fileErr
 }
 
 func (m *FileAndConsoleHook) Levels() []logrus.Level {
-- 
2.43.0


From 0414d4356314180c4cbf5ec39340a58651d3c359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:51 +0000
Subject: [PATCH 33/63] fix: records logged with fields during InitLog were
 lost

---
 log/log.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/log/log.go b/log/log.go
index f57bc1f..a7fce09 100644
--- a/log/log.go
+++ b/log/log.go
@@ -56,15 +56,17 @@ func InitLogWithSuffix(path string, suffix string) {
 		TimestampFormat: time.StampMilli,
 	}
 
-	rootLog = &logrus.Logger{
+	logger := &logrus.Logger{
 		Out:       &EmptyWriter{},
 		Formatter: formatter,
 		Hooks:     make(logrus.LevelHooks),
 		Level:     logrus.DebugLevel,
 	}
-	rootLog.AddHook(NewFileAndConsoleHook(formatter, writer, os.Stdout,
+	logger.AddHook(NewFileAndConsoleHook(formatter, writer, os.Stdout,
 		logrus.InfoLevel, logrus.WarnLevel, logrus.ErrorLevel))
-	wrapped = rootLog
+	// rootLog may be used concurrently, set it after the hook is added
+	rootLog = logger
+	wrapped = logger
 }
 
 func InitLog(path string, nid []byte) {
-- 
2.43.0


From 00712766ca28e5a04b778764d1598878bb9c86cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:24 +0000
Subject: [PATCH 34/63] fix: InitCheckLog panicked when the node id was short

---
 log/cashcheck.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/log/cashcheck.go b/log/cashcheck.go
index 602e634..9113808 100644
--- a/log/cashcheck.go
+++ b/log/cashcheck.go
@@ -24,7 +24,10 @@ func InitCheckLog(path string, nid []byte) {
 	createCCOnce.Do(func() {
 		ccLogLock.Lock()
 		defer ccLogLock.Unlock()
-		checkLogFile := path + ".check." + fmt.Sprintf("%x", nid[:5]) + ".%Y"
+		if len(nid) > 5 {
+			nid = nid[:5]
+		}
+		checkLogFile := path + ".check." + fmt.Sprintf("%x", nid) + ".%Y"
 		checkWriter, err := rotatelogs.New(checkLogFile,
 			rotatelogs.WithMaxAge(-1), rotatelogs.WithRotationTime(time.Hour*24*365))
 		if err != nil {
-- 
2.43.0


From 466af9540d2436583d1a43457ad30955024db97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:35 +0000
Subject: [PATCH 35/63] fix: MerkleProofs could not be read from a reader with
 short reads

---
 hash.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hash.go b/hash.go
index 77dc56f..8b7eeea 100644
--- a/hash.go
+++ b/hash.go
@@ -476,14 +476,14 @@ func writeArray(array []byte, buf []byte, w io.Writer) error {
 }
 
 func readArray(sizeBuf []byte, r io.Reader) ([]byte, error) {
-	_, err := r.Read(sizeBuf)
+	_, err := io.ReadFull(r, sizeBuf)
 	if err != nil {
 		return nil, err
 	}
 	size := binary.BigEndian.Uint16(sizeBuf)
 	array := make([]byte, size)
 	if size > 0 {
-		_, err = r.Read(array)
+		_, err = io.ReadFull(r, array)
 		if err != nil {
 			return array, err
 		}
@@ -573,7 +573,7 @@ func (p *MerkleProofs) Serialization(w io.Writer) error {
 
 func (p *MerkleProofs) Deserialization(r io.Reader) (shouldBeNil bool, err error) {
 	flag := make([]byte, 1)
-	_, err = r.Read(flag)
+	_, err = io.ReadFull(r, flag)
 	if err != nil {
 		return
 	}
-- 
2.43.0


From 90c90d79dbec67422c3b12c26a653bec525f93d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:33 +0000
Subject: [PATCH 36/63] fix: TreeNode could not be read from a reader with
 short reads

---
 trie/historytree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trie/historytree.go b/trie/historytree.go
index 2b64143..aab509b 100644
--- a/trie/historytree.go
+++ b/trie/historytree.go
@@ -1708,7 +1708,7 @@ func (n *TreeNode) decodeDescendants(adapter db.DataAdapter, vr rtl.ValueReader)
 
 func (n *TreeNode) Deserialization(r io.Reader) (shouldBeNil bool, err error) {
 	flag := make([]byte, 1)
-	_, err = r.Read(flag)
+	_, err = io.ReadFull(r, flag)
 	if err != nil {
 		return
 	}
-- 
2.43.0


From 2ecc75a7cf2d8e75c206423c549232e887f13745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:33 +0000
Subject: [PATCH 37/63] fix: Marshal sent an incomplete trie without an error
 when a node could not be read

---
 trie/iterator.go | 14 ++++++++++++++
 trie/utils.go    | 10 +++++++++-
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/trie/iterator.go b/trie/iterator.go
index 7342f27..4ffe0a0 100644
--- a/trie/iterator.go
+++ b/trie/iterator.go
@@ -61,6 +61,7 @@ type (
 
 	trieValueIterator struct {
 		nit *nodeIterator
+		err error // the first error met while iterating
 	}
 )
 
@@ -255,11 +256,13 @@ func (it *trieValueIterator) Next() bool {
 		if n.isCollapsed() {
 			if err := t.expandNode(n); err != nil {
 				log.Errorf("Next: expand node %s failed: %v", n, err)
+				it.setError(err)
 			}
 		}
 		if n.isValueCollapsed() {
 			if err := t.expandNodeValue(n); err != nil {
 				log.Errorf("Next: expand value %s failed: %v", n, err)
+				it.setError(err)
 			}
 		}
 		return n.hasValue()
@@ -270,6 +273,17 @@ func (it *trieValueIterator) Next() bool {
 	return true
 }
 
+func (it *trieValueIterator) setError(err error) {
+	if it.err == nil {
+		it.err = err
+	}
+}
+
+// Err returns the first error met while iterating. If it is not nil, some values were skipped.
+func (it *trieValueIterator) Err() error {
+	return it.err
+}
+
 func (it *trieValueIterator) Current() (key []byte, value interface{}) {
 	node := it.nit.Current()
 	if node == nil {
diff --git a/trie/utils.go b/trie/utils.go
index 090ff08..5d4b693 100644
--- a/trie/utils.go
+++ b/trie/utils.go
@@ -160,7 +160,7 @@ func (t *Trie) Marshal(w io.Writer) error {
 			}
 		}
 	}
-	return nil
+	return iteratorError(it)
 }
 
 func MarshalAsMap(t ITrie, w io.Writer) error {
@@ -176,6 +176,14 @@ func MarshalAsMap(t ITrie, w io.Writer) error {
 			}
 		}
 	}
+	return iteratorError(it)
+}
+
+// iteratorError returns the error which made the iterator skip values, if there is any
+func iteratorError(it ValueIterator) error {
+	if e, ok := it.(interface{ Err() error }); ok {
+		return e.Err()
+	}
 	return nil
 }
 
-- 
2.43.0


From 06bbf6af2f7e553a45d548ebc8cf97f026fac2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:04 +0000
Subject: [PATCH 38/63] fix: Marshal reported success when the writer failed in
 the last value

---
 trie/combinedtrie.go |  4 ++--
 trie/utils.go        | 16 +++++++++++++---
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/trie/combinedtrie.go b/trie/combinedtrie.go
index eb30408..43665c5 100644
--- a/trie/combinedtrie.go
+++ b/trie/combinedtrie.go
@@ -375,10 +375,10 @@ func (c *SmallCombinedTrie) Marshal(w io.Writer) error {
 	it := c.ValueIterator()
 	for it.Next() {
 		k, v := it.Current()
-		if err := rtl.Encode(k, w); err != nil {
+		if err := encodeTo(k, w); err != nil {
 			return err
 		}
-		if err := rtl.Encode(v, w); err != nil {
+		if err := encodeTo(v, w); err != nil {
 			return err
 		}
 	}
diff --git a/trie/utils.go b/trie/utils.go
index 5d4b693..e3eba6f 100644
--- a/trie/utils.go
+++ b/trie/utils.go
@@ -155,7 +155,7 @@ func (t *Trie) Marshal(w io.Writer) error {
 	for it.Next() {
 		_, v := it.Current()
 		if v != nil {
-			if err := rtl.Encode(v, w); err != nil {
+			if err := encodeTo(v, w); err != nil {
 				return err
 			}
 		}
@@ -168,10 +168,10 @@ func MarshalAsMap(t ITrie, w io.Writer) error {
 	for it.Next() {
 		k, v := it.Current()
 		if k != nil {
-			if err := rtl.Encode(k, w); err != nil {
+			if err := encodeTo(k, w); err != nil {
 				return err
 			}
-			if err := rtl.Encode(v, w); err != nil {
+			if err := encodeTo(v, w); err != nil {
 				return err
 			}
 		}
@@ -187,6 +187,16 @@ func iteratorError(it ValueIterator) error {
 	return nil
 }
 
+// encodeTo writes the encoding of v to w. rtl.Encode() does not report all errors of the writer.
+func encodeTo(v interface{}, w io.Writer) error {
+	bs, err := rtl.Marshal(v)
+	if err != nil {
+		return err
+	}
+	_, err = w.Write(bs)
+	return err
+}
+
 func CheckTrieRoot(root []byte, rootShouldBe []byte) error {
 	if !bytes.Equal(root, rootShouldBe) {
 		return fmt.Errorf("check failed, expecting %x but %x",
-- 
2.43.0


From 14d0ce9bec17ae2b30b8be2456100a72cdecdef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:38 +0000
Subject: [PATCH 39/63] fix: Dump worked on the nodes in use without the lock
 of the trie

---
 trie/trie.go | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/trie/trie.go b/trie/trie.go
index 72458b3..0a5af00 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -998,14 +998,39 @@ func (t *Trie) ReversedValueIterator() ValueIterator {
 	return newReversedValueIterator(newt)
 }
 
+// snapshot returns a trie of the persisted nodes, or nil if the trie is empty
+func (t *Trie) snapshot() (*Trie, error) {
+	t.lock.Lock()
+	defer t.lock.Unlock()
+
+	if t.root == nil || t.root.isEmpty() {
+		return nil, nil
+	}
+	if t.root.isDirty() {
+		return nil, errors.New("trie is dirty")
+	}
+	rootHash, err := t.hashLocked()
+	if err != nil {
+		return nil, err
+	}
+	return &Trie{
+		root: NewNodeWithFuncs(rootHash, t.gen, t.root.valueEncode,
+			t.root.valueDecode, t.root.valueHasher),
+		nodeAdapter:  t.nodeAdapter,
+		valueAdapter: t.valueAdapter,
+		gen:          t.gen,
+	}, nil
+}
+
 func (t *Trie) Dump(to db.Database, valueCallback func(key, value []byte)) error {
-	if t == nil || t.root == nil || t.root.isEmpty() {
+	if t == nil {
 		return nil
 	}
-	if t.root.isDirty() {
-		return errors.New("trie is dirty")
+	// nodes are expanded and collapsed while dumping, so it can not be done on the nodes in use
+	t, err := t.snapshot()
+	if err != nil || t == nil {
+		return err
 	}
-	var err error
 	var na, va db.DatabasedAdapter
 	if tna, ok := t.nodeAdapter.(db.DatabasedAdapter); ok {
 		na, err = tna.Rebase(to)
-- 
2.43.0


From ac5254542cca77fcc6338a45d352de900319034d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:06 +0000
Subject: [PATCH 40/63] fix: Dump gave the value of the empty key twice

---
 trie/trie.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trie/trie.go b/trie/trie.go
index 0a5af00..7a10ee2 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -1093,6 +1093,7 @@ func (t *Trie) Dump(to db.Database, valueCallback func(key, value []byte)) error
 				}
 				if len(prefix) == 0 {
 					valueCallback(nil, valuebytes)
+					continue
 				}
 				if len(prefix)%2 != 0 {
 					return fmt.Errorf("odd length prefix(%s) found a (%d)bytes value",
-- 
2.43.0


From 43fc5b392657ac1787fdee36bc8572233370f0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:51 +0000
Subject: [PATCH 41/63] fix: RevertableTrie.Dump could dump a trie which is
 being changed

---
 trie/revertable.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/trie/revertable.go b/trie/revertable.go
index 5af596a..e467a64 100644
--- a/trie/revertable.go
+++ b/trie/revertable.go
@@ -336,11 +336,25 @@ func (r *RevertableTrie) RevertTo(checkPoint int, root []byte) error {
 	return nil
 }
 
+// originSnapshot must be made under the lock, because Origin could become Live without being copied
+func (r *RevertableTrie) originSnapshot() (*Trie, error) {
+	r.lock.Lock()
+	defer r.lock.Unlock()
+	if r.Origin == nil {
+		return nil, nil
+	}
+	return r.Origin.snapshot()
+}
+
 func (r *RevertableTrie) Dump(to db.Database, valueCallback func(key, value []byte)) error {
 	if r == nil {
 		return nil
 	}
-	return r.Origin.Dump(to, valueCallback)
+	origin, err := r.originSnapshot()
+	if err != nil {
+		return err
+	}
+	return origin.Dump(to, valueCallback)
 }
 
 type RevertableHistoryTree struct {
-- 
2.43.0


From 7a2aa50c0c789976b740734911e33b888fd03e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:07 +0000
Subject: [PATCH 42/63] fix: GetExistenceProof gave a wrong proof of absence
 when a node could not be read

---
 trie/trie.go | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/trie/trie.go b/trie/trie.go
index 7a10ee2..628d553 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -281,7 +281,8 @@ func (t *Trie) Get(key []byte) (interface{}, bool) {
 	t.lock.Lock()
 	defer t.lock.Unlock()
 	prefix := keyToPrefix(key)
-	return t.get(t.root, prefix, 0, nil)
+	value, ok, _ := t.get(t.root, prefix, 0, nil)
+	return value, ok
 }
 
 // Take startNode as the root and prefixString[offset:] as the key to get the value in the node
@@ -289,22 +290,22 @@ func (t *Trie) Get(key []byte) (interface{}, bool) {
 // Each nodePosition in trace:
 // 		nodePosition.nodeInPos: the node selected for the current lookup
 // 		nodePosition.pos: the index of current startNode.children[] which is the node selected
-func (t *Trie) get(startNode *node, prefixString []byte, offset int, trace *[]nodePosition) (interface{}, bool) {
+func (t *Trie) get(startNode *node, prefixString []byte, offset int, trace *[]nodePosition) (interface{}, bool, error) {
 	if err := t.fullExpand(startNode); err != nil {
-		return nil, false
+		return nil, false, err
 	}
 
 	if offset >= len(prefixString) && !startNode.hasPrefix() {
 		if startNode.hasValue() {
-			return startNode.value, true
+			return startNode.value, true, nil
 		} else {
-			return nil, false
+			return nil, false, nil
 		}
 	}
 
 	if startNode.isEmpty() {
 		// current node is empty or
-		return nil, false
+		return nil, false, nil
 	}
 
 	suffix := prefixString[offset:]
@@ -322,19 +323,19 @@ func (t *Trie) get(startNode *node, prefixString []byte, offset int, trace *[]no
 		// input prefix is starting with current node's prefix
 		if inRemains == 0 {
 			// if current node prefix matches with input prefix, return current node value
-			return startNode.value, startNode.value != nil
+			return startNode.value, startNode.value != nil, nil
 		}
 		// inRemains > 0, go down the path by child node
 		childIndex := int(suffix[matchLength])
 		if startNode.children[childIndex] == nil {
 			// no child in the path of prefix, return
-			return nil, false
+			return nil, false, nil
 		}
 		// expand child first
 		if startNode.children[childIndex].isCollapsed() {
 			if err := t.expandNode(startNode.children[childIndex]); err != nil {
 				log.Errorf("expand %s error: %s", startNode.children[childIndex], err)
-				return nil, false
+				return nil, false, err
 			}
 		}
 
@@ -345,7 +346,7 @@ func (t *Trie) get(startNode *node, prefixString []byte, offset int, trace *[]no
 		return t.get(startNode.children[childIndex], prefixString, offset+matchLength+1, trace)
 	} else {
 		// there're remains in current node's prefix not match with input prefix, not found
-		return nil, false
+		return nil, false, nil
 	}
 }
 
@@ -859,7 +860,7 @@ func (t *Trie) getProofLocked(key []byte) (val interface{}, proofs ProofChain, o
 	// Use an illegal pos to indicate that root is not the child of any node
 	trace[0] = nodePosition{childrenLength + 1, t.root}
 	prefix := keyToPrefix(key)
-	val, ok = t.get(t.root, prefix, 0, &trace)
+	val, ok, _ = t.get(t.root, prefix, 0, &trace)
 	if !ok {
 		// rh, _ := t.hashLocked()
 		// // value does not exist, proof cannot be provided
@@ -899,7 +900,10 @@ func (t *Trie) getExistenceLocked(key []byte) (exist bool, proofs ProofChain, er
 	trace := make([]nodePosition, 1, 16)
 	trace[0] = nodePosition{pos: childrenLength + 1, nodeInPos: t.root}
 	prefix := keyToPrefix(key)
-	_, exist = t.get(t.root, prefix, 0, &trace)
+	_, exist, err = t.get(t.root, prefix, 0, &trace)
+	if err != nil {
+		return false, nil, err
+	}
 
 	nodeChild := nodePosition{16, nil}
 	l := len(trace)
-- 
2.43.0


From 4bda3955296d58c06e8cadf39d076967e7724698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:15 +0000
Subject: [PATCH 43/63] fix: cachedDB.Put kept the cached value when a put
 reported an error but took effect

---
 db/cacheddb.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/db/cacheddb.go b/db/cacheddb.go
index 51dacde..acfc07e 100644
--- a/db/cacheddb.go
+++ b/db/cacheddb.go
@@ -84,11 +84,9 @@ func (d *cachedDB) Put(key, value []byte) error {
 	d.lock.Lock()
 	defer d.lock.Unlock()
 	d.writecount++
-	if err := d.baseDB.Put(key, value); err != nil {
-		return err
-	}
+	// a Put that failed may have taken effect
 	d.cache.Remove(string(key))
-	return nil
+	return d.baseDB.Put(key, value)
 }
 
 func (d *cachedDB) Has(key []byte) (bool, error) {
-- 
2.43.0


From 8d69a7083d296c9325ba53ccbb34a16f713fa948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:59 +0000
Subject: [PATCH 44/63] fix: a combined trie was loaded from incomplete data as
 a smaller trie

---
 trie/combinedtrie.go | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/trie/combinedtrie.go b/trie/combinedtrie.go
index 43665c5..2958721 100644
--- a/trie/combinedtrie.go
+++ b/trie/combinedtrie.go
@@ -16,6 +16,7 @@ package trie
 
 import (
 	"bytes"
+	"fmt"
 	"io"
 	"sort"
 	"sync"
@@ -271,6 +272,8 @@ func (c *SmallCombinedTrie) loadRoot(rootHash []byte, nadapter db.DataAdapter, v
 	if len(value) == 0 {
 		return common.ErrNil
 	}
+	var keys []string
+	var hashList [][]byte
 	buf := bytes.NewBuffer(value)
 	vr := rtl.NewValueReader(buf, 0)
 	for vr.HasMore() {
@@ -283,20 +286,21 @@ func (c *SmallCombinedTrie) loadRoot(rootHash []byte, nadapter db.DataAdapter, v
 			return err
 		}
 		if err := rtl.Decode(vr, v); err != nil {
-			if err == io.EOF {
-				break
-			}
 			return err
 		}
-		var key, trieHash []byte
-		if k != nil {
-			key = *k
-		}
-		if v != nil {
-			trieHash = *v
-		}
-		t := NewTrieWithValueFuncs(trieHash, nadapter, vadapter, encode, decode, hasher)
-		s := string(key)
+		keys = append(keys, string(*k))
+		hashList = append(hashList, *v)
+	}
+	// incomplete data must not be taken for a smaller trie
+	h, err := common.MerkleHashComplete(hashList, 0, nil)
+	if err != nil {
+		return err
+	}
+	if !bytes.Equal(h, rootHash) {
+		return fmt.Errorf("root %x of the loaded sub-tries is not %x", h, rootHash)
+	}
+	for i, s := range keys {
+		t := NewTrieWithValueFuncs(hashList[i], nadapter, vadapter, encode, decode, hasher)
 		_, exist := c.valueMap[s]
 		if !exist {
 			c.valueMap[s] = t
-- 
2.43.0


From 027d3a6e28ba09aec967f148f9475148449d118a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:19 +0000
Subject: [PATCH 45/63] fix: verifying a proof chain with a missing element
 panicked

---
 trie/proof.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trie/proof.go b/trie/proof.go
index f31d68a..cb80180 100644
--- a/trie/proof.go
+++ b/trie/proof.go
@@ -793,6 +793,10 @@ func (c ProofChain) BigKey() *big.Int {
 	key := big.NewInt(0)
 	pos := 0
 	for _, np := range c {
+		if np == nil {
+			// such a chain proves nothing
+			continue
+		}
 		pos = np.ChildProofs.BigKey(key, pos)
 	}
 	return key
-- 
2.43.0


From b4b4641b784781e0d7f59a4ea657e9e3c3081f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:20 +0000
Subject: [PATCH 46/63] fix: MerkleHashCompleteOld pads a copy of the leaves,
 not the caller's slice

---
 hash.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hash.go b/hash.go
index 8b7eeea..5ce273d 100644
--- a/hash.go
+++ b/hash.go
@@ -815,6 +815,11 @@ func MerkleHashCompleteOld(hashList [][]byte, toBeProof int, proofs *MerkleProof
 	for max < len(hashList) {
 		max <<= 1
 	}
+	// pad a copy: appending to hashList itself could write into the spare capacity of the slice of
+	// the caller
+	leaves := make([][]byte, len(hashList), max)
+	copy(leaves, hashList)
+	hashList = leaves
 	for i := len(hashList); i < max; i++ {
 		hashList = append(hashList, CopyBytes(NilHashSlice))
 	}
-- 
2.43.0


From 5a61a35680338572cb9b24c33e8ae68aedd9975b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:21 +0000
Subject: [PATCH 47/63] fix: MoreTimes.IsValid accepts orders repeated from the
 first proof on

---
 hash.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hash.go b/hash.go
index 5ce273d..5dbc084 100644
--- a/hash.go
+++ b/hash.go
@@ -123,7 +123,7 @@ func (ms MoreTimes) IsValid() bool {
 	if len(ms) == 0 {
 		return false
 	}
-	lastIndex := 0
+	lastIndex := -1
 	for _, m := range ms {
 		if !m.IsValid() {
 			return false
-- 
2.43.0


From 30d8750d7ef1a21fb35dda87b2e3b5c30442c3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:23 +0000
Subject: [PATCH 48/63] fix: ABI.Pack returns bytes of its own instead of a
 slice shared with the method ID

---
 abi/abi.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/abi/abi.go b/abi/abi.go
index e040ffd..d7b7600 100644
--- a/abi/abi.go
+++ b/abi/abi.go
@@ -77,8 +77,11 @@ func (abi ABI) Pack(name string, args ...interface{}) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	// Pack up the method ID too if not a constructor and return
-	return append(method.ID, arguments...), nil
+	// Pack up the method ID too if not a constructor and return. The caller owns the result: it must
+	// not share the bytes (or the spare capacity) of method.ID with other calls.
+	packed := make([]byte, 0, len(method.ID)+len(arguments))
+	packed = append(packed, method.ID...)
+	return append(packed, arguments...), nil
 }
 
 func (abi ABI) PackEventArgs(name string, args ...interface{}) ([]byte, error) {
-- 
2.43.0


From a81486b5b03f96693c7e331e2c04edfb78a57a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:23 +0000
Subject: [PATCH 49/63] fix: UnpackEvent and EventString take the topic of each
 indexed parameter, and hashes for what is only hashed

---
 abi/abi.go      |  4 ++--
 abi/thinkium.go |  7 +++----
 abi/topics.go   | 11 +++++++++++
 3 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/abi/abi.go b/abi/abi.go
index d7b7600..64ddab8 100644
--- a/abi/abi.go
+++ b/abi/abi.go
@@ -463,11 +463,11 @@ func (abi ABI) EventString(topics []common.Hash, data []byte) (string, error) {
 		}
 		if arg.Indexed {
 			indexes++
-			j := 1 + i
+			j := indexes // topics[0] is the ID of the event
 			if j >= len(topics) {
 				return "", fmt.Errorf("%d topic is missing", j)
 			}
-			value, err := toGoType(0, arg.Type, topics[j][:])
+			value, err := topicValue(arg.Type, topics[j])
 			if err != nil {
 				return "", fmt.Errorf("%d topic unpack failed: %v", j, err)
 			}
diff --git a/abi/thinkium.go b/abi/thinkium.go
index 8ee5dda..ce8899e 100644
--- a/abi/thinkium.go
+++ b/abi/thinkium.go
@@ -98,20 +98,19 @@ func (abi ABI) UnpackEvent(v interface{}, topics []common.Hash, data []byte) err
 	for i, arg := range args {
 		if arg.Indexed {
 			indexes++
-			j := 1 + i
+			j := indexes // topics[0] is the ID of the event
 			if j >= len(topics) {
 				return fmt.Errorf("%d topic is missing", j)
 			}
-			value, err := toGoType(0, arg.Type, topics[j][:])
+			value, err := topicValue(arg.Type, topics[j])
 			if err != nil {
 				return fmt.Errorf("%d topic unpack failed: %w", j, err)
 			}
 			ret = append(ret, value)
 		} else {
-			break
+			ret = append(ret, values[i-indexes])
 		}
 	}
-	ret = append(ret, values...)
 	return args.CopyEvent(v, ret)
 }
 
diff --git a/abi/topics.go b/abi/topics.go
index 5ff3aa6..9f8357b 100644
--- a/abi/topics.go
+++ b/abi/topics.go
@@ -110,6 +110,17 @@ func genIntType(rule int64, size uint) []byte {
 	return topic[:]
 }
 
+// topicValue returns the value of an indexed event parameter. The types that are not value types
+// (strings, bytes, arrays and tuples) are only known by the keccak256 hash in the topic.
+func topicValue(t Type, topic common.Hash) (interface{}, error) {
+	switch t.T {
+	case StringTy, BytesTy, SliceTy, ArrayTy, TupleTy:
+		return topic, nil
+	default:
+		return toGoType(0, t, topic[:])
+	}
+}
+
 // ParseTopics converts the indexed topic fields into actual log field values.
 func ParseTopics(out interface{}, fields Arguments, topics []common.Hash) error {
 	return parseTopicWithSetter(fields, topics,
-- 
2.43.0


From 28ad1f736ed43b0a1f0910de2a4a8b636e999e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:24 +0000
Subject: [PATCH 50/63] fix: MakeTopics encodes negative big integers in two's
 complement

---
 abi/topics.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/abi/topics.go b/abi/topics.go
index 9f8357b..df6e500 100644
--- a/abi/topics.go
+++ b/abi/topics.go
@@ -24,6 +24,7 @@ import (
 	"reflect"
 
 	"github.com/ThinkiumGroup/go-common"
+	"github.com/ThinkiumGroup/go-common/math"
 )
 
 // MakeTopics converts a filter query argument list into a filter topic set.
@@ -40,8 +41,8 @@ func MakeTopics(query ...[]interface{}) ([][]common.Hash, error) {
 			case common.Address:
 				copy(topic[common.HashLength-common.AddressLength:], rule[:])
 			case *big.Int:
-				blob := rule.Bytes()
-				copy(topic[common.HashLength-len(blob):], blob)
+				// two's complement, as the parameter is encoded
+				copy(topic[:], math.U256Bytes(new(big.Int).Set(rule)))
 			case bool:
 				if rule {
 					topic[common.HashLength-1] = 1
-- 
2.43.0


From 03c7e41845ed59334d2eb3b1d241e75b7db34e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:25 +0000
Subject: [PATCH 51/63] fix: ParseSelector refuses a bare name instead of
 panicking

---
 abi/selector_parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/abi/selector_parser.go b/abi/selector_parser.go
index d5472e3..7782512 100644
--- a/abi/selector_parser.go
+++ b/abi/selector_parser.go
@@ -84,7 +84,10 @@ func parseElementaryType(unescapedSelector string) (string, string, error) {
 }
 
 func parseCompositeType(unescapedSelector string) ([]interface{}, string, error) {
-	if len(unescapedSelector) == 0 || unescapedSelector[0] != '(' {
+	if len(unescapedSelector) == 0 {
+		return nil, "", fmt.Errorf("expected '(', got nothing")
+	}
+	if unescapedSelector[0] != '(' {
 		return nil, "", fmt.Errorf("expected '(', got %c", unescapedSelector[0])
 	}
 	parsedType, rest, err := parseType(unescapedSelector[1:])
-- 
2.43.0


From e259082c35afd620e62a714f35be9a9065a59c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:26 +0000
Subject: [PATCH 52/63] fix: refuse fixed byte types longer than a word

---
 abi/type.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/abi/type.go b/abi/type.go
index 17be76f..93a3955 100644
--- a/abi/type.go
+++ b/abi/type.go
@@ -154,6 +154,9 @@ func NewType(t string, internalType string, components []ArgumentMarshaling) (ty
 		if varSize == 0 {
 			typ.T = BytesTy
 		} else {
+			if varSize > 32 {
+				return Type{}, fmt.Errorf("abi: unsupported arg type: %s", t)
+			}
 			typ.T = FixedBytesTy
 			typ.Size = varSize
 		}
-- 
2.43.0


From b2edb3a88067d2a4f223fad2b96c15aa18a4e623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:27 +0000
Subject: [PATCH 53/63] fix: decoding an array of dynamic elements checks the
 whole offset word

---
 abi/unpack.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/abi/unpack.go b/abi/unpack.go
index f7d3080..bf610e2 100644
--- a/abi/unpack.go
+++ b/abi/unpack.go
@@ -225,9 +225,9 @@ func toGoType(index int, t Type, output []byte) (interface{}, error) {
 		return forEachUnpack(t, output[begin:], 0, length)
 	case ArrayTy:
 		if isDynamicType(*t.Elem) {
-			offset := binary.BigEndian.Uint64(returnOutput[len(returnOutput)-8:])
-			if offset > uint64(len(output)) {
-				return nil, fmt.Errorf("abi: toGoType offset greater than output length: offset: %d, len(output): %d", offset, len(output))
+			offset, err := tuplePointsTo(index, output)
+			if err != nil {
+				return nil, err
 			}
 			return forEachUnpack(t, output[offset:], 0, t.Size)
 		}
-- 
2.43.0


From 595f13884a6745431897cd8fdc7d00f70a1e051e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:36 +0000
Subject: [PATCH 54/63] fix: packing refuses arrays of another length or
 element for addresses, functions and fixed bytes

---
 abi/error_handling.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/abi/error_handling.go b/abi/error_handling.go
index 7add707..0acc1f5 100644
--- a/abi/error_handling.go
+++ b/abi/error_handling.go
@@ -68,11 +68,15 @@ func typeCheck(t Type, value reflect.Value) error {
 	// Check base type validity. Element types will be checked later on.
 	if t.GetType().Kind() != value.Kind() {
 		return typeErr(t.GetType().Kind(), value.Kind())
-	} else if t.T == FixedBytesTy && t.Size != value.Len() {
-		return typeErr(t.GetType(), value.Type())
-	} else {
-		return nil
 	}
+	switch t.T {
+	case FixedBytesTy, AddressTy, FunctionTy:
+		// the kind is array: it must be one of as many bytes
+		if value.Len() != t.GetType().Len() || value.Type().Elem().Kind() != reflect.Uint8 {
+			return typeErr(t.GetType(), value.Type())
+		}
+	}
+	return nil
 }
 
 // typeErr returns a formatted type casting error.
-- 
2.43.0


From 76a2f11dffb2391d6c5f89eab62f05266d0d5cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:36 +0000
Subject: [PATCH 55/63] fix: packing refuses nil values instead of panicking

---
 abi/error_handling.go | 3 +++
 abi/reflect.go        | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/abi/error_handling.go b/abi/error_handling.go
index 0acc1f5..14a6c6c 100644
--- a/abi/error_handling.go
+++ b/abi/error_handling.go
@@ -61,6 +61,9 @@ func sliceTypeCheck(t Type, val reflect.Value) error {
 // typeCheck checks that the given reflection value can be assigned to the reflection
 // type in t.
 func typeCheck(t Type, value reflect.Value) error {
+	if !value.IsValid() || (value.Kind() == reflect.Ptr && value.IsNil()) {
+		return typeErr(t.GetType(), "nil")
+	}
 	if t.T == SliceTy || t.T == ArrayTy {
 		return sliceTypeCheck(t, value)
 	}
diff --git a/abi/reflect.go b/abi/reflect.go
index 7917fa9..c12cf4f 100644
--- a/abi/reflect.go
+++ b/abi/reflect.go
@@ -50,7 +50,7 @@ func ConvertType(in interface{}, proto interface{}) interface{} {
 // indirect recursively dereferences the value until it either gets the value
 // or finds a big.Int
 func indirect(v reflect.Value) reflect.Value {
-	if v.Kind() == reflect.Ptr && v.Elem().Type() != reflect.TypeOf(big.Int{}) {
+	if v.Kind() == reflect.Ptr && !v.IsNil() && v.Elem().Type() != reflect.TypeOf(big.Int{}) {
 		return indirect(v.Elem())
 	}
 	return v
-- 
2.43.0


From 2f0e60ff0f932d93f73e9d61bdd2bcf8add26f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:36 +0000
Subject: [PATCH 56/63] fix: math.Exp does not change its base

---
 math/big.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/math/big.go b/math/big.go
index 1da29d3..758bf01 100644
--- a/math/big.go
+++ b/math/big.go
@@ -257,6 +257,7 @@ func S256(x *big.Int) *big.Int {
 //
 // Courtesy @karalabe and @chfast
 func Exp(base, exponent *big.Int) *big.Int {
+	base = new(big.Int).Set(base)
 	result := big.NewInt(1)
 
 	for _, word := range exponent.Bits() {
-- 
2.43.0


From bfc02ddc15ad5b1b1fc8366584fdbc311f3ac9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:36 +0000
Subject: [PATCH 57/63] fix: RatToInt64, RatToInt64Floor and Int64MulRat round
 the exact value

---
 math/big.go | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/math/big.go b/math/big.go
index 758bf01..466a2ad 100644
--- a/math/big.go
+++ b/math/big.go
@@ -19,7 +19,6 @@ package math
 
 import (
 	"fmt"
-	"math"
 	"math/big"
 )
 
@@ -407,24 +406,24 @@ func CopyBigRat(x *big.Rat) *big.Rat {
 // return the smallest integer not less than r. If r is too large or divided by 0,
 // nomeans is true, and x is meaningless
 func RatToInt64(r *big.Rat) (x int64, nomeans bool) {
-	f, _ := r.Float64()
-	if math.IsNaN(f) || math.IsInf(f, 0) || f > float64(math.MaxInt64) || f < float64(math.MinInt64) {
+	// -floor(-r)
+	q := new(big.Int).Neg(r.Num())
+	q.Div(q, r.Denom())
+	q.Neg(q)
+	if !q.IsInt64() {
 		return 0, true
 	}
-	x = int64(f)
-	if float64(x) < f {
-		x += 1
-	}
-	return x, false
+	return q.Int64(), false
 }
 
 // lower round of r
 func RatToInt64Floor(r *big.Rat) (x int64, nomeans bool) {
-	f, _ := r.Float64()
-	if math.IsNaN(f) || math.IsInf(f, 0) || f > float64(math.MaxInt64) || f < float64(math.MinInt64) {
+	// the denominator is positive, the Euclidean division rounds down
+	q := new(big.Int).Div(r.Num(), r.Denom())
+	if !q.IsInt64() {
 		return 0, true
 	}
-	return int64(f), false
+	return q.Int64(), false
 }
 
 func CompareBigInt(a, b *big.Int) int {
-- 
2.43.0


From ebe41ffd21ecafeec5d566c50ff24fe95319492e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:36 +0000
Subject: [PATCH 58/63] fix: BigInt.HexString of nil is zero like its other
 methods

---
 math/big.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/math/big.go b/math/big.go
index 466a2ad..dcfc5dc 100644
--- a/math/big.go
+++ b/math/big.go
@@ -648,10 +648,10 @@ func (b *BigInt) String() string {
 }
 
 func (b *BigInt) HexString() string {
-	bs := (*big.Int)(b).Bytes()
-	if len(bs) == 0 {
+	if b.IsZero() {
 		return "0"
 	}
+	bs := (*big.Int)(b).Bytes()
 	if b.Sign() < 0 {
 		return fmt.Sprintf("-%x", bs)
 	}
-- 
2.43.0


From c6d8e32970a211cdca96acdbf6dbe1e8f929ecdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:37 +0000
Subject: [PATCH 59/63] fix: ParseBig256 takes the sign before the hex prefix,
 where MarshalText writes it

---
 math/big.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/math/big.go b/math/big.go
index dcfc5dc..2721baf 100644
--- a/math/big.go
+++ b/math/big.go
@@ -121,8 +121,15 @@ func ParseBig256(s string) (*big.Int, bool) {
 	}
 	var bigint *big.Int
 	var ok bool
-	if len(s) >= 2 && (s[:2] == "0x" || s[:2] == "0X") {
-		bigint, ok = new(big.Int).SetString(s[2:], 16)
+	sign, digits := "", s
+	if s[0] == '-' || s[0] == '+' {
+		sign, digits = s[:1], s[1:]
+	}
+	if len(digits) >= 2 && (digits[:2] == "0x" || digits[:2] == "0X") {
+		if digits = digits[2:]; len(digits) > 0 && (digits[0] == '-' || digits[0] == '+') {
+			return nil, false // the sign comes before the prefix
+		}
+		bigint, ok = new(big.Int).SetString(sign+digits, 16)
 	} else {
 		bigint, ok = new(big.Int).SetString(s, 10)
 	}
-- 
2.43.0


From 1428e7e1c333c5952d76063a3cff9b1717b115b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:39 +0000
Subject: [PATCH 60/63] fix: marshalling a negative hexutil.Big returns the
 documented error

---
 hexutil/json.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hexutil/json.go b/hexutil/json.go
index fbc2124..ea7a5f9 100644
--- a/hexutil/json.go
+++ b/hexutil/json.go
@@ -19,6 +19,7 @@ package hexutil
 import (
 	"encoding/hex"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"math/big"
 	"reflect"
@@ -134,6 +135,9 @@ type Big big.Int
 
 // MarshalText implements encoding.TextMarshaler
 func (b Big) MarshalText() ([]byte, error) {
+	if (*big.Int)(&b).Sign() < 0 {
+		return nil, errors.New("hexutil: cannot marshal a negative integer")
+	}
 	return []byte(EncodeBig((*big.Int)(&b))), nil
 }
 
-- 
2.43.0


From 2cb8c0e02d37f50e24b8ebfa17b2efd76bd53306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:07 +0000
Subject: [PATCH 61/63] fix: ForPrint shows strings, arrays and empty values
 instead of panicking

---
 bytes.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/bytes.go b/bytes.go
index 6112388..342b76e 100644
--- a/bytes.go
+++ b/bytes.go
@@ -39,7 +39,7 @@ func startAndEnd(length, startPos, endPos int) (start, end int) {
 }
 
 func ForPrintSlice(s []byte, startPos int, endPos int) []byte {
-	if s == nil {
+	if len(s) == 0 {
 		return []byte{}
 	}
 	l := len(s)
@@ -60,8 +60,12 @@ func ForPrintValue(val reflect.Value, startPos, endPos int) []byte {
 		if typ.Elem().Kind() != reflect.Uint8 {
 			return []byte{}
 		}
-		startPos, endPos = startAndEnd(val.Len(), startPos, endPos)
-		s = val.Slice(startPos, endPos).Bytes()
+		// the array may not be addressable, and then cannot be sliced
+		array := make([]byte, val.Len())
+		for i := range array {
+			array[i] = byte(val.Index(i).Uint())
+		}
+		s = ForPrintSlice(array, startPos, endPos)
 	case reflect.Slice:
 		if val.IsNil() || typ.Elem().Kind() != reflect.Uint8 || val.Len() == 0 {
 			return []byte{}
@@ -69,8 +73,7 @@ func ForPrintValue(val reflect.Value, startPos, endPos int) []byte {
 		startPos, endPos = startAndEnd(val.Len(), startPos, endPos)
 		s = val.Slice(startPos, endPos).Bytes()
 	case reflect.String:
-		startPos, endPos = startAndEnd(val.Len(), startPos, endPos)
-		s = val.Slice(startPos, endPos).Bytes()
+		s = ForPrintSlice([]byte(val.String()), startPos, endPos)
 	default:
 		return []byte{}
 	}
-- 
2.43.0


From 62bd2bfcf64e68af13cf168b6be3373ae32ff921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:07 +0000
Subject: [PATCH 62/63] fix: HashRipemd160 returns the hash of its argument

---
 hash.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hash.go b/hash.go
index 5dbc084..8ea30f1 100644
--- a/hash.go
+++ b/hash.go
@@ -750,7 +750,8 @@ func CipherHash256(pro HashProvider, in ...[]byte) []byte {
 
 func HashRipemd160(data []byte) []byte {
 	md := ripemd160.New()
-	return md.Sum(data)
+	md.Write(data)
+	return md.Sum(nil)
 }
 
 func SlicesToHashs(bss [][]byte) [][]byte {
-- 
2.43.0


From e1ce15b780383546ccb22518d1697a738e425f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:19 +0000
Subject: [PATCH 63/63] fix: PrintValues shows the values that are not loaded

---
 trie/trie.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trie/trie.go b/trie/trie.go
index 628d553..0616957 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -836,7 +836,7 @@ func (t *Trie) iteratePrint(buf *bytes.Buffer, prefix string, node *node, valueO
 	if len(prefix) > 0 {
 		p = prefix + "."
 	}
-	if valueOnly == false || (valueOnly && node.hasValue()) {
+	if valueOnly == false || node.hasValue() || node.isValueCollapsed() {
 		if node.isValueCollapsed() {
 			if err := t.expandNodeValue(node); err != nil {
 				log.Errorf("iteratePrint: expand value %s failed: %v", node, err)
-- 
2.43.0

