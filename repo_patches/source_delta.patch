From aa3c8193ef68950b97f0f94a1af08b5284c30f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:15 +0000
Subject: [PATCH 01/32] fix: find keys whose hash falls exactly on a bucket
 border or on the last dummy

A key whose reversed hash equals the border of a bucket lies behind the
dummy of that bucket, but the lookup searched backwards from it, and a key
with the reversed hash ^0 was stored behind the last dummy, where neither
Get nor RangeItem reached it.
---
 map.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/map.go b/map.go
index ce5b69c..ccbeb2d 100644
--- a/map.go
+++ b/map.go
@@ -940,6 +940,10 @@ func (h *Map) add2(start *elist_head.ListHead, e HMapEntry, opts ...HMethodOpt)
 		if !e.PtrListHead().IsSingle() {
 			Log(LogWarn, "add2: element for insertion  is not single ")
 		}
+		// a bucket starts before its items, and the last dummy stays last.
+		if e.PtrMapHead().IsDummy() || ehead.PtrMapHead().reverse == ^uint64(0) {
+			return e.PtrMapHead().reverse <= ehead.PtrMapHead().reverse
+		}
 		return e.PtrMapHead().reverse < ehead.PtrMapHead().reverse
 	}, ignoreBucketEntry(false))
 	if !e.PtrListHead().IsSingle() {
@@ -1475,7 +1479,8 @@ func (h *Map) _searchBybucket(lbCur *bucket, reverseNoMask uint64, ignoreBucketE
 		lbNext = lbCur.NextOnLevel()
 	}
 
-	if lbNext.reverse < reverseNoMask {
+	// items follow the dummy of their bucket. only the last dummy (^0) is behind its items.
+	if lbNext.reverse <= reverseNoMask && lbNext.reverse != ^uint64(0) {
 		result := lbNext.entry(h)
 
 		// FIXME: why fail to get
-- 
2.43.0


From 04087a26a7a7b0a6fc19001d89a3d3ef2a5d5121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:15 +0000
Subject: [PATCH 02/32] fix: lookup in an embedded pool skips deleted items at
 its start

With the first items of a pool deleted, the binary search took the reverse
of the deleted first item, so that Get returned a deleted item or missed
live ones.
---
 map_embedded.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/map_embedded.go b/map_embedded.go
index 0012d26..3ee7c58 100644
--- a/map_embedded.go
+++ b/map_embedded.go
@@ -35,6 +35,10 @@ func (h *Map) bsearchBybucket(bucket *bucket, reverseNoMask uint64, ignoreBucket
 		if item == nil {
 			return true
 		}
+		// no live item up to i
+		if item.IsDeleted() {
+			return false
+		}
 		return atomic.LoadUint64(&item.reverse) >= reverseNoMask
 		//return items.reverseAt(i) >= reverseNoMask
 	})
-- 
2.43.0


From e6ccb6b12693a39f47ca3ecba8e3caa6a2a4f694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:15 +0000
Subject: [PATCH 03/32] fix: do not allocate a bucket before its split is known
 to be possible

makeBucket2 took the new bucket from the bucket pool and returned without
an item pool when no item lies behind the split point. A later lookup in
that bucket recursed in itemPool() for ever.
---
 map_embedded.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/map_embedded.go b/map_embedded.go
index 3ee7c58..c907d44 100644
--- a/map_embedded.go
+++ b/map_embedded.go
@@ -73,6 +73,11 @@ func (h *Map) makeBucket2(bucket *bucket) (err error) {
 	if newReverse&1 > 0 {
 		newReverse++
 	}
+	idx, err := bucket.itemPool().findIdx(newReverse)
+	if err != nil || idx == 0 {
+		return err
+	}
+
 	b := h.bucketFromPoolEmbedded(newReverse)
 	if b == nil {
 		return ErrBucketAllocatedFail
@@ -87,11 +92,6 @@ func (h *Map) makeBucket2(bucket *bucket) (err error) {
 	b.LevelHead.Init()
 	b.initItemPool()
 
-	idx, err := bucket.itemPool().findIdx(newReverse)
-	if err != nil || idx == 0 {
-		return err
-	}
-
 	olen := len(bucket.itemPool().items)
 	nPool, err2 := bucket.itemPool()._split(idx, false)
 	_ = err2
-- 
2.43.0


From 5cc571ba468fd6c2be431862d09d376cacb22208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:43 +0000
Subject: [PATCH 04/32] fix: keep an embedded pool in hash order when items
 were deleted

Deleted items were ignored when the place of a new item was chosen, so an
item was appended behind deleted items with larger hashes, and a free slot
could be reused although a live item behind it was smaller. Later lookups
(binary search) missed live keys, and with every item deleted the code read
before the slice or recursed for ever. Deleted items now keep their place.
---
 map_embedded.go | 34 +++++++++-------------------------
 1 file changed, 9 insertions(+), 25 deletions(-)

diff --git a/map_embedded.go b/map_embedded.go
index c907d44..9807bc1 100644
--- a/map_embedded.go
+++ b/map_embedded.go
@@ -263,8 +263,8 @@ func (sp *samepleItemPool) state4get(reverse uint64, tail int, len int, cap int)
 	}
 
 	items := sp.itemSlice(false)
-	last := items._at(tail, false, true)
-	if atomic.LoadUint64(&last.reverse) < reverse {
+	last := items._at(tail, false, false)
+	if atomic.LoadUint64(&last.reverse) <= reverse {
 		return getLargest
 	}
 
@@ -276,7 +276,7 @@ func (sp *samepleItemPool) bsearchFromFreeList(reverse uint64, tail int) (int, b
 
 	items := sp.ptrItems()
 
-	idx := sort.Search(tail, func(i int) bool {
+	idx := sort.Search(tail+1, func(i int) bool {
 		item := items._at(i, true, false)
 		return atomic.LoadUint64(&item.reverse) > reverse
 	})
@@ -351,10 +351,7 @@ func (sp *samepleItemPool) insertToPool(reverse uint64, mu sync.Locker) (newItem
 
 	for i := 0; i < olen; i++ {
 		//for i := range sp.items {
-		if sp.items[i].IsIgnored() {
-			continue
-		}
-		if sp.items[i].reverse < reverse {
+		if sp.items[i].reverse <= reverse {
 			continue
 		}
 		if i == olen-1 {
@@ -449,24 +446,11 @@ func (sp *samepleItemPool) insertToPool(reverse uint64, mu sync.Locker) (newItem
 //go:norace
 func (sp *samepleItemPool) getWithFn(reverse uint64, mu sync.Locker) (new MapItem, nPool *samepleItemPool, fn unlocker) {
 
-	lastActiveIdx := -1
-
 	items := *sp.ptrItems()
 	olen := items.Len()
 	ocap := items.Cap()
-
-	for i := olen - 1; i >= 0; i-- {
-		pItem := items.at(i)
-		if pItem == nil {
-			continue
-		}
-		item := *pItem
-		if item.IsIgnored() {
-			continue
-		}
-		lastActiveIdx = i
-		break
-	}
+	// deleted items keep their place in the order
+	lastIdx := olen - 1
 
 	defer func() {
 		if new == nil {
@@ -476,8 +460,8 @@ func (sp *samepleItemPool) getWithFn(reverse uint64, mu sync.Locker) (new MapIte
 	}()
 
 	// for debug
-	//lastgets = append(lastgets, sp.state4get(reverse, lastActiveIdx))
-	switch sp.state4get(reverse, lastActiveIdx, olen, ocap) {
+	//lastgets = append(lastgets, sp.state4get(reverse, lastIdx))
+	switch sp.state4get(reverse, lastIdx, olen, ocap) {
 	case getEmpty, getLargest:
 		nmu := mu
 		new, nPool, fn = sp.appendLast(nmu)
@@ -510,7 +494,7 @@ func (sp *samepleItemPool) getWithFn(reverse uint64, mu sync.Locker) (new MapIte
 			mu.Unlock()
 		}
 
-		idx, found := sp.bsearchFromFreeList(reverse, lastActiveIdx)
+		idx, found := sp.bsearchFromFreeList(reverse, lastIdx)
 		if !found {
 			goto RETRY
 		}
-- 
2.43.0


From 74eff554f7d2846fcaee22cbf2654c55db82e122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:13 +0000
Subject: [PATCH 05/32] fix: Purge in embedded mode must not corrupt the pool

Purge unlinked an item but left it in the item slice, whose reallocation
relinks the whole slice through its first and last item, and shrinking a
pool dropped a live item (len was set to i-1) and handed out a slot that was
still marked as deleted. Only removed items at the end of the pool are given
back now, wiped; others stay in place until they are reused.
---
 map.go          | 19 +++----------------
 map_embedded.go |  6 +++++-
 2 files changed, 8 insertions(+), 17 deletions(-)

diff --git a/map.go b/map.go
index ccbeb2d..d7c4357 100644
--- a/map.go
+++ b/map.go
@@ -1588,8 +1588,8 @@ func (h *Map) purgeInEmbedded(key interface{}) bool {
 
 	// remove item
 	// 1. item status to remove
-	// 2. purge from linked-list
-	// 3. insert free list ( keep pointer order ?)
+	// 2. purge removed items at the end of pool from linked-list.
+	//    other items keep their place until getWithFn() reuses them
 
 	pool := bucket.itemPool()
 	if pool == nil {
@@ -1597,22 +1597,9 @@ func (h *Map) purgeInEmbedded(key interface{}) bool {
 	}
 	item.Delete()
 
-	pOpts := elist_head.SharedTrav(list_head.WaitNoM())
-	item.PtrListHead().MarkForDelete()
-	elist_head.SharedTrav(pOpts...)
-	item.PtrListHead().Init()
-
 	pItems := pool.ptrItems()
-	len := pItems.Len()
-	if item.PtrListHead() == &pItems._at(len-1, true, false).ListHead &&
-		atomic_util.CompareAndSwapInt(&pItems.len, len, len-1) {
+	if item.PtrListHead() == &pItems._at(pItems.Len()-1, true, false).ListHead {
 		pool.shrinkLen()
-		return true
-	}
-
-	err := pool.PushWithOrder(item.(*SampleItem))
-	if err != nil {
-		return false
 	}
 	return true
 }
diff --git a/map_embedded.go b/map_embedded.go
index 9807bc1..af54e7c 100644
--- a/map_embedded.go
+++ b/map_embedded.go
@@ -699,6 +699,9 @@ ADD_LAST:
 
 func (sp *samepleItemPool) shrinkLen() {
 
+	pOpts := elist_head.SharedTrav(list_head.WaitNoM())
+	defer elist_head.SharedTrav(pOpts...)
+
 	pItemSlice := sp.ptrItems()
 	l := pItemSlice.Len()
 	for i := l - 1; i > -1; i-- {
@@ -706,12 +709,13 @@ func (sp *samepleItemPool) shrinkLen() {
 		if item == nil || !item.IsDeleted() {
 			break
 		}
-		if !atomic_util.CompareAndSwapInt(&pItemSlice.len, l, i-1) {
+		if !atomic_util.CompareAndSwapInt(&pItemSlice.len, i+1, i) {
 			break
 		}
 		if !item.Empty() {
 			item.MarkForDelete()
 		}
+		*item = SampleItem{}
 	}
 }
 
-- 
2.43.0


From 89627cd7f5915eba5eab6ee783595ae56fb0948a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:15 +0000
Subject: [PATCH 06/32] fix: Len counts live keys after Delete and Purge

Delete and Purge left the item count untouched, so that Len grew with every
deleted and re-added key.
---
 map.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/map.go b/map.go
index d7c4357..c33e0ef 100644
--- a/map.go
+++ b/map.go
@@ -1559,6 +1559,7 @@ func (h *Map) Delete(key interface{}) bool {
 		return false
 	}
 	item.Delete()
+	h.AddLen(-1)
 	return true
 
 }
@@ -1596,6 +1597,7 @@ func (h *Map) purgeInEmbedded(key interface{}) bool {
 		return false
 	}
 	item.Delete()
+	h.AddLen(-1)
 
 	pItems := pool.ptrItems()
 	if item.PtrListHead() == &pItems._at(pItems.Len()-1, true, false).ListHead {
-- 
2.43.0


From 2b9854c9d07bd3dd4b7529a65307580ad8c5c52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:09 +0000
Subject: [PATCH 07/32] fix: tell keys with the same hash apart

Lookups stopped at the first item with the hash of the key. With two keys of
the same 64-bit hash one of them was never found, and every Set added it
again. Items of one hash are neighbors, so look there for the conflict hash.
---
 map.go | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/map.go b/map.go
index c33e0ef..d7df367 100644
--- a/map.go
+++ b/map.go
@@ -457,13 +457,38 @@ func (h *Map) _get(k, conflict uint64) (MapItem, bool) {
 		}
 		return nil, false
 	}
-	if e.PtrMapHead().reverse != bits.Reverse64(k) || e.PtrMapHead().conflict != conflict {
+	if e.PtrMapHead().reverse != bits.Reverse64(k) {
+		return nil, false
+	}
+	if e = h.searchConflict(e, conflict); e == nil {
 		return nil, false
 	}
 	return e.(MapItem), true
 
 }
 
+// searchConflict ... items of the same hash are neighbors in list. choose the item of conflict.
+func (h *Map) searchConflict(e HMapEntry, conflict uint64) HMapEntry {
+
+	head := e.PtrMapHead()
+	reverse := atomic.LoadUint64(&head.reverse)
+	if atomic.LoadUint64(&head.conflict) == conflict {
+		return e
+	}
+	find := func(cur *MapHead, step func(*MapHead) *MapHead) HMapEntry {
+		for ; cur != nil && atomic.LoadUint64(&cur.reverse) == reverse; cur = step(cur) {
+			if !cur.IsIgnored() && atomic.LoadUint64(&cur.conflict) == conflict {
+				return e.HmapEntryFromListHead(cur.PtrListHead())
+			}
+		}
+		return nil
+	}
+	if result := find(head.NextWithNil(), (*MapHead).NextWithNil); result != nil {
+		return result
+	}
+	return find(head.PrevtWithNil(), (*MapHead).PrevtWithNil)
+}
+
 func (h *Map) getWithBucket(k, conflict uint64) (MapItem, *bucket, bool) {
 
 	if EnableStats {
@@ -497,7 +522,7 @@ func (h *Map) getWithBucket(k, conflict uint64) (MapItem, *bucket, bool) {
 	if ereverse := atomic.LoadUint64(&e.PtrMapHead().reverse); ereverse != bits.Reverse64(k) {
 		return nil, bucket, false
 	}
-	if econflict := atomic.LoadUint64(&e.PtrMapHead().conflict); econflict != conflict {
+	if e = h.searchConflict(e, conflict); e == nil {
 		return nil, bucket, false
 	}
 
-- 
2.43.0


From e347e21e4ba99c6e0854839e3659c47acb382bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:45 +0000
Subject: [PATCH 08/32] fix: keep items outside of pools reachable for the
 garbage collector

Items are linked by relative addresses (uintptr), which the garbage
collector does not follow. Items made by Set without a pool and items given
to StoreItem were freed while still in the map.
---
 map.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/map.go b/map.go
index d7df367..0e15c02 100644
--- a/map.go
+++ b/map.go
@@ -60,6 +60,9 @@ type Map struct {
 	pooler *Pool
 
 	isEmbededItemInBucket bool
+
+	// items outside of pools. elist_head has only relative addresses, invisible for GC
+	retained []MapItem
 }
 
 var conf mapConf = mapConf{
@@ -708,6 +711,7 @@ func (h *Map) Set(key, value interface{}) bool {
 		}
 	} else {
 		s = &SampleItem{}
+		h.retain(s)
 	}
 
 	s.K = key.(string)
@@ -738,9 +742,16 @@ func (h *Map) StoreItem(item MapItem) bool {
 		return h._update(oitem, item.Value())
 	}
 
+	h.retain(item)
 	return h._set(k, conflict, bucket, item)
 }
 
+func (h *Map) retain(item MapItem) {
+	h.mu.Lock()
+	h.retained = append(h.retained, item)
+	h.mu.Unlock()
+}
+
 func (h *Map) eachEntry(start *elist_head.ListHead, fn func(*entryHMap)) {
 	for cur := start; !cur.Empty(); cur = cur.Next() {
 		e := entryHMapFromListHead(cur)
-- 
2.43.0


From 68c5468b30849a934abfc66fc26cd9896794ca27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:55 +0000
Subject: [PATCH 09/32] fix: UsePool and UseEmbeddedPool return the option that
 restores the old setting

---
 map.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/map.go b/map.go
index 0e15c02..f3d4083 100644
--- a/map.go
+++ b/map.go
@@ -123,6 +123,7 @@ func ItemFn(fn func() MapItem) OptHMap {
 
 func UsePool(enable bool) OptHMap {
 	return func(h *Map) OptHMap {
+		prev := h.pooler != nil
 		if !enable {
 			h.pooler = nil
 		} else if h.pooler == nil {
@@ -130,7 +131,7 @@ func UsePool(enable bool) OptHMap {
 			h.pooler.startMgr()
 		}
 
-		return UsePool(!enable)
+		return UsePool(prev)
 	}
 }
 
@@ -138,11 +139,15 @@ func UseEmbeddedPool(enable bool) OptHMap {
 	return func(h *Map) OptHMap {
 		old := h.isEmbededItemInBucket
 		h.isEmbededItemInBucket = enable
-		if enable {
-			UsePool(false)(h)
+		if !enable {
+			return UseEmbeddedPool(old)
 		}
+		pool := UsePool(false)(h)
 
-		return UsePool(old)
+		return func(h *Map) OptHMap {
+			pool(h)
+			return UseEmbeddedPool(old)(h)
+		}
 	}
 }
 
-- 
2.43.0


From 3f4186e46c8fe82b3ac1a28f7dfd66886133961a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:37 +0000
Subject: [PATCH 10/32] fix: RMap.Get returns the stored value and does not
 panic on missing keys

---
 rmap/rmap.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rmap/rmap.go b/rmap/rmap.go
index 0e8a59b..12e629b 100644
--- a/rmap/rmap.go
+++ b/rmap/rmap.go
@@ -65,6 +65,9 @@ func (m *RMap) getDirtyEntry(k, conflict uint64) (e smap.MapItem) {
 func (m *RMap) getDirty(k, conflict uint64) (v interface{}, ok bool) {
 
 	e := m.getDirtyEntry(k, conflict)
+	if e == nil {
+		return nil, false
+	}
 	return e.Value(), true
 }
 
@@ -152,7 +155,10 @@ func (m *RMap) Get(key string) (v interface{}, ok bool) {
 
 func (m *RMap) Get2(k, conflict uint64) (v interface{}, ok bool) {
 
-	read := m.read.Load().(*readMap)
+	read, succ := m.read.Load().(*readMap)
+	if !succ {
+		return nil, false
+	}
 	av, ok := read.m[k]
 	var e *smap.SampleItem
 	if ok {
@@ -160,7 +166,7 @@ func (m *RMap) Get2(k, conflict uint64) (v interface{}, ok bool) {
 		if e.MapHead.ConflictInHamp() != conflict {
 			ok = false
 		} else {
-			v = e.V
+			v = e.Value()
 		}
 	}
 
-- 
2.43.0


From c5fa2f12ca2f13f7a37f57b8c5e3c3fdf5368e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:50 +0000
Subject: [PATCH 11/32] fix: RMap.Set of a key in the read map is not lost, nor
 taken for another key with the same hash

---
 rmap/rmap.go         | 27 +++++++++++++++------------
 sample_hmap_entry.go |  5 +++--
 2 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/rmap/rmap.go b/rmap/rmap.go
index 12e629b..aadce7e 100644
--- a/rmap/rmap.go
+++ b/rmap/rmap.go
@@ -22,8 +22,13 @@ type RMap struct {
 	dirty *smap.Map
 }
 
+// hashKey identifies a key by both of its hashes.
+type hashKey struct {
+	k, conflict uint64
+}
+
 type readMap struct {
-	m       map[uint64]atomic.Value
+	m       map[hashKey]*atomic.Value
 	amended bool // include dirty map
 }
 
@@ -88,7 +93,7 @@ func (m *RMap) Set2(k, conflict uint64, kstr string, v interface{}) bool {
 		return true
 	}
 
-	_, ok := read.m[k]
+	_, ok := read.m[hashKey{k, conflict}]
 	if !ok {
 		e := m.getDirtyEntry(k, conflict)
 		if e != nil {
@@ -159,13 +164,11 @@ func (m *RMap) Get2(k, conflict uint64) (v interface{}, ok bool) {
 	if !succ {
 		return nil, false
 	}
-	av, ok := read.m[k]
+	av, ok := read.m[hashKey{k, conflict}]
 	var e *smap.SampleItem
 	if ok {
 		e, ok = av.Load().(*smap.SampleItem)
-		if e.MapHead.ConflictInHamp() != conflict {
-			ok = false
-		} else {
+		if ok {
 			v = e.Value()
 		}
 	}
@@ -174,7 +177,7 @@ func (m *RMap) Get2(k, conflict uint64) (v interface{}, ok bool) {
 		// m.Lock()
 		// defer m.Unlock()
 		read := m.read.Load().(*readMap)
-		av, ok = read.m[k]
+		av, ok = read.m[hashKey{k, conflict}]
 		if !ok && read.amended {
 			v, ok = m.getDirty(k, conflict)
 			m.missLocked()
@@ -187,7 +190,7 @@ func (m *RMap) Delete(key string) bool {
 	k, conflict := smap.KeyToHash(key)
 
 	read, _ := m.read.Load().(*readMap)
-	av, ok := read.m[k]
+	av, ok := read.m[hashKey{k, conflict}]
 	if !ok && read.amended {
 		m.Lock()
 		defer m.Unlock()
@@ -226,7 +229,7 @@ func (m *RMap) storeReadFromDirty(amended bool) {
 		oread, _ := m.read.Load().(*readMap)
 
 		nread := &readMap{
-			m:       map[uint64]atomic.Value{},
+			m:       map[hashKey]*atomic.Value{},
 			amended: amended,
 		}
 
@@ -241,9 +244,9 @@ func (m *RMap) storeReadFromDirty(amended bool) {
 		m.dirty.RangeItem(func(item smap.MapItem) bool {
 			e, ok := item.(*smap.SampleItem)
 			if ok {
-				a := atomic.Value{}
+				a := &atomic.Value{}
 				a.Store(e)
-				nread.m[e.KeyInHmap()] = a
+				nread.m[hashKey{e.KeyInHmap(), e.ConflictInHamp()}] = a
 
 			}
 
@@ -277,7 +280,7 @@ func (m *RMap) initDirty() {
 }
 
 func (r *readMap) store2(k, conflict uint64, kstr string, v interface{}) (smap.MapItem, bool) {
-	ov, ok := r.m[k]
+	ov, ok := r.m[hashKey{k, conflict}]
 	if !ok {
 		return nil, ok
 	}
diff --git a/sample_hmap_entry.go b/sample_hmap_entry.go
index d006d7a..f5ecd2d 100644
--- a/sample_hmap_entry.go
+++ b/sample_hmap_entry.go
@@ -7,6 +7,7 @@
 package skiplistmap
 
 import (
+	"math/bits"
 	"sync/atomic"
 	"unsafe"
 
@@ -65,8 +66,8 @@ func (s *SampleItem) SetValue(v interface{}) bool {
 }
 
 func (s *SampleItem) Setup() {
-	s.reverse, s.conflict = KeyToHash(s.Key())
-
+	k, conflict := KeyToHash(s.Key())
+	s.reverse, s.conflict = bits.Reverse64(k), conflict
 }
 
 func (s *SampleItem) Next() HMapEntry {
-- 
2.43.0


From c95e836476685b3deb63e0001c79b0819f94aedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:52 +0000
Subject: [PATCH 12/32] fix: RMap.Delete does not deadlock or panic, and Len
 counts the keys in the read map

---
 rmap/rmap.go | 56 +++++++++++++++++++++++++++++-----------------------
 1 file changed, 31 insertions(+), 25 deletions(-)

diff --git a/rmap/rmap.go b/rmap/rmap.go
index aadce7e..2384902 100644
--- a/rmap/rmap.go
+++ b/rmap/rmap.go
@@ -167,10 +167,11 @@ func (m *RMap) Get2(k, conflict uint64) (v interface{}, ok bool) {
 	av, ok := read.m[hashKey{k, conflict}]
 	var e *smap.SampleItem
 	if ok {
-		e, ok = av.Load().(*smap.SampleItem)
-		if ok {
-			v = e.Value()
+		e, _ = av.Load().(*smap.SampleItem)
+		if e == nil {
+			return nil, false
 		}
+		v = e.Value()
 	}
 
 	if !ok && read.amended {
@@ -189,35 +190,43 @@ func (m *RMap) Get2(k, conflict uint64) (v interface{}, ok bool) {
 func (m *RMap) Delete(key string) bool {
 	k, conflict := smap.KeyToHash(key)
 
-	read, _ := m.read.Load().(*readMap)
+	read, succ := m.read.Load().(*readMap)
+	if !succ {
+		return false
+	}
 	av, ok := read.m[hashKey{k, conflict}]
 	if !ok && read.amended {
-		m.Lock()
-		defer m.Unlock()
-		read, _ := m.read.Load().(*readMap)
-		if !ok && read.amended {
-			// av, ok = m.dirty[k]
-			// delete(m.dirty, k)
-			e := m.getDirtyEntry(k, conflict)
-			if e != nil {
-				m.dirty.AddLen(-1)
-				e.Delete()
-			}
-
-			m.missLocked()
+		e := m.getDirtyEntry(k, conflict)
+		if e != nil {
+			ok = m.dirty.Delete(key)
 		}
+		m.missLocked()
+		return ok
 	}
 
 	if ok {
 		ohead := av.Load().(*smap.SampleItem)
-		//ohead.conflict = conflict
-		return av.CompareAndSwap(ohead, nil)
+		if ohead == nil {
+			return false
+		}
+		// a nil item marks a deleted key
+		return av.CompareAndSwap(ohead, (*smap.SampleItem)(nil))
 
 	}
 	return false
 }
 func (m *RMap) Len() int {
-	return int(m.dirty.Len())
+	cnt := int(m.dirty.Len())
+	read, succ := m.read.Load().(*readMap)
+	if !succ {
+		return cnt
+	}
+	for _, a := range read.m {
+		if e, ok := a.Load().(*smap.SampleItem); ok && e != nil {
+			cnt++
+		}
+	}
+	return cnt
 }
 
 func (m *RMap) storeReadFromDirty(amended bool) {
@@ -235,8 +244,8 @@ func (m *RMap) storeReadFromDirty(amended bool) {
 
 		//MENTION: not require copy oread ?
 		for k, a := range oread.m {
-			_, ok := a.Load().(*smap.SampleItem)
-			if !ok {
+			e, ok := a.Load().(*smap.SampleItem)
+			if !ok || e == nil {
 				continue
 			}
 			nread.m[k] = a
@@ -253,9 +262,6 @@ func (m *RMap) storeReadFromDirty(amended bool) {
 			return true
 		})
 
-		if len(nread.m) == 0 {
-			break
-		}
 		if len(oread.m) == 0 {
 			nread.amended = true
 		}
-- 
2.43.0


From 24a0f9ce6b076c9c24995732116f382673e992be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:12 +0000
Subject: [PATCH 13/32] fix: SampleItem accepts values of changing types, and
 nil

---
 sample_hmap_entry.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/sample_hmap_entry.go b/sample_hmap_entry.go
index f5ecd2d..6de82f4 100644
--- a/sample_hmap_entry.go
+++ b/sample_hmap_entry.go
@@ -21,6 +21,12 @@ type SampleItem struct {
 	MapHead
 }
 
+// sampleValue is what SampleItem.V holds. atomic.Value needs the same type on
+// every Store, and no nil.
+type sampleValue struct {
+	value interface{}
+}
+
 var sampleItem MapItem = &SampleItem{}
 
 //var EmptySampleHMapEntry SampleItem = SampleItem{}
@@ -54,14 +60,12 @@ func (s *SampleItem) Key() interface{} {
 }
 
 func (s *SampleItem) Value() interface{} {
-	return s.V.Load()
+	v, _ := s.V.Load().(sampleValue)
+	return v.value
 }
 
 func (s *SampleItem) SetValue(v interface{}) bool {
-	if v == nil {
-		return false
-	}
-	s.V.Store(v)
+	s.V.Store(sampleValue{v})
 	return true
 }
 
-- 
2.43.0


From 64b04c4c8966c9d2f6c1ea7e9bbe13f94ef35981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:29 +0000
Subject: [PATCH 14/32] fix: StoreItem of a SampleItem makes the map read its
 items as SampleItem

---
 map.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/map.go b/map.go
index f3d4083..dad340c 100644
--- a/map.go
+++ b/map.go
@@ -747,6 +747,14 @@ func (h *Map) StoreItem(item MapItem) bool {
 		return h._update(oitem, item.Value())
 	}
 
+	if _, ok := item.(*SampleItem); ok {
+		if _, ok := h.ItemFn().(*SampleItem); !ok {
+			ItemFn(func() MapItem {
+				return EmptySampleHMapEntry
+			})(h)
+		}
+	}
+
 	h.retain(item)
 	return h._set(k, conflict, bucket, item)
 }
-- 
2.43.0


From eab0fd9aa10ea70c4524df8479f7767eab9fee0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:20 +0000
Subject: [PATCH 15/32] fix: StoreItem in embedded mode does not lose the key

---
 map.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/map.go b/map.go
index dad340c..82900d5 100644
--- a/map.go
+++ b/map.go
@@ -740,6 +740,12 @@ func (h *Map) Set(key, value interface{}) bool {
 
 // StoreItem ... set key/value item with embedded-linked-list
 func (h *Map) StoreItem(item MapItem) bool {
+	if h.isEmbededItemInBucket {
+		// items live in the pool of a bucket. store key/value there
+		key, ok := item.Key().(string)
+		return ok && h.Set(key, item.Value())
+	}
+
 	k, conflict := item.KeyHash()
 
 	oitem, bucket, found := h._loadItem(k, conflict, nil)
-- 
2.43.0


From 0b5eacb6ac3f57b247d714258c26ab188baff868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:37 +0000
Subject: [PATCH 16/32] fix: UsePool(false) keeps the items of the pool
 reachable for the garbage collector

---
 map.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/map.go b/map.go
index 82900d5..0710d08 100644
--- a/map.go
+++ b/map.go
@@ -63,6 +63,7 @@ type Map struct {
 
 	// items outside of pools. elist_head has only relative addresses, invisible for GC
 	retained []MapItem
+	oldPools []*Pool
 }
 
 var conf mapConf = mapConf{
@@ -125,6 +126,9 @@ func UsePool(enable bool) OptHMap {
 	return func(h *Map) OptHMap {
 		prev := h.pooler != nil
 		if !enable {
+			if prev {
+				h.oldPools = append(h.oldPools, h.pooler)
+			}
 			h.pooler = nil
 		} else if h.pooler == nil {
 			h.pooler = newPool()
-- 
2.43.0


From bffd396ed2a31235259c22beba4db267202256bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:47 +0000
Subject: [PATCH 17/32] fix: DumpEntry reads items of other types than
 SampleItem

---
 map.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/map.go b/map.go
index 0710d08..ccb8acb 100644
--- a/map.go
+++ b/map.go
@@ -1171,7 +1171,10 @@ func (h *Map) DumpEntry(w io.Writer) {
 		//var e HMapEntry
 		//e = e.HmapEntryFromListHead(cur)
 		mhead := EmptyMapHead.FromListHead(cur).(*MapHead)
-		e := fromMapHead(mhead)
+		var e MapItem = entryHMapFromListHead(cur)
+		if !mhead.IsDummy() {
+			e = h.ItemFn().HmapEntryFromListHead(cur).(MapItem)
+		}
 
 		var ekey interface{}
 		ekey = e.Key()
-- 
2.43.0


From 9667a8c5b0a4cd98f2b7508f1c04d371ddd4985c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:10 +0000
Subject: [PATCH 18/32] fix: only one of concurrent Delete and Purge calls
 removes an item

Two goroutines could both see an item as live, so that both reported success
and Len was reduced twice. Embedded items are removed under the lock of their
bucket, after a second look.
---
 bucket.go            |  4 ++--
 map.go               | 36 ++++++++++++++++++++----------------
 map_embedded.go      |  5 +++++
 maphead.go           | 16 ++++++++++++++++
 sample_hmap_entry.go |  2 +-
 5 files changed, 44 insertions(+), 19 deletions(-)

diff --git a/bucket.go b/bucket.go
index 8118a01..0789036 100644
--- a/bucket.go
+++ b/bucket.go
@@ -356,12 +356,12 @@ func (b *bucket) _validateItemsNear() {
 }
 
 func (b *bucket) GetItem(r uint64) (MapItem, *samepleItemPool, unlocker) {
-	return b.itemPool().getWithFn(r, &b.muPool)
+	return b.itemPool().getWithFn(r, b.mutex())
 }
 
 func (b *bucket) RunLazyUnlocker(fn unlocker) {
 
-	fn(&b.muPool)
+	fn(b.mutex())
 
 }
 
diff --git a/map.go b/map.go
index ccb8acb..3063224 100644
--- a/map.go
+++ b/map.go
@@ -600,17 +600,21 @@ func (h *Map) LoadItemByHash(k uint64, conflict uint64) (item MapItem, success b
 func (h *Map) loadItem(k uint64, conflict uint64, key interface{}) (item MapItem, bucket *bucket, lock *trylock.Mutex, found bool) {
 
 	for {
-		item, bucket, found = h._loadItem(0, 0, key)
+		item, bucket, found = h._loadItem(k, conflict, key)
 		if !found {
-			break
+			return
 		}
-		if bucket.muPool.TryLock() {
-			//defer bucket.muPool.Unlock()
-			lock = &bucket.muPool
-			break
+		lock = bucket.mutex()
+		lock.Lock()
+
+		// the item may be removed or moved until the bucket was locked.
+		cur, curBucket, ok := h._loadItem(k, conflict, key)
+		if ok && cur.PtrMapHead() == item.PtrMapHead() && curBucket.mutex() == lock {
+			return
 		}
+		lock.Unlock()
+		lock = nil
 	}
-	return
 }
 
 func (h *Map) _loadItem(k uint64, conflict uint64, key interface{}) (MapItem, *bucket, bool) {
@@ -1616,8 +1620,12 @@ func (h *Map) _searchBybucket(lbCur *bucket, reverseNoMask uint64, ignoreBucketE
 //Delete ... set nil to the key of MapItem. cannot Get entry
 func (h *Map) Delete(key interface{}) bool {
 
+	if h.isEmbededItemInBucket {
+		return h.purgeInEmbedded(key)
+	}
+
 	item, ok := h.LoadItem(key)
-	if !ok {
+	if !ok || !item.PtrMapHead().markDeleted() {
 		return false
 	}
 	item.Delete()
@@ -1651,20 +1659,16 @@ func (h *Map) purgeInEmbedded(key interface{}) bool {
 
 	// remove item
 	// 1. item status to remove
-	// 2. purge removed items at the end of pool from linked-list.
-	//    other items keep their place until getWithFn() reuses them
+	// 2. items keep their place until getWithFn() reuses them, or until
+	//    the next insertion removes them from the end of the pool.
+	//    a traversal may be on the item now.
 
 	pool := bucket.itemPool()
-	if pool == nil {
+	if pool == nil || !item.PtrMapHead().markDeleted() {
 		return false
 	}
 	item.Delete()
 	h.AddLen(-1)
-
-	pItems := pool.ptrItems()
-	if item.PtrListHead() == &pItems._at(pItems.Len()-1, true, false).ListHead {
-		pool.shrinkLen()
-	}
 	return true
 }
 
diff --git a/map_embedded.go b/map_embedded.go
index af54e7c..bd675f5 100644
--- a/map_embedded.go
+++ b/map_embedded.go
@@ -223,6 +223,11 @@ func (h *Map) bucketFromPoolEmbedded(reverse uint64) (b *bucket) {
 
 }
 
+// mutex ... lock of the pool, which the first down-level bucket shares with its parent
+func (b *bucket) mutex() *trylock.Mutex {
+	return &b.toBase().muPool
+}
+
 func (b *bucket) toBase() *bucket {
 
 	if b._parent == nil {
diff --git a/maphead.go b/maphead.go
index 267a390..f9293aa 100644
--- a/maphead.go
+++ b/maphead.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"io"
 	"math/bits"
+	"sync/atomic"
 	"unsafe"
 
 	"github.com/kazu/elist_head"
@@ -41,6 +42,21 @@ func (mh *MapHead) IsDeleted() bool {
 	return mh.state&mapIsDeleted > 0
 }
 
+// markDeleted ... mark as deleted. false if another goroutine did it before
+func (mh *MapHead) markDeleted() bool {
+
+	state := (*uint32)(&mh.state)
+	for {
+		old := atomic.LoadUint32(state)
+		if old&uint32(mapIsDeleted) > 0 {
+			return false
+		}
+		if atomic.CompareAndSwapUint32(state, old, old|uint32(mapIsDeleted)) {
+			return true
+		}
+	}
+}
+
 func (mh *MapHead) ConflictInHamp() uint64 {
 	return mh.conflict
 }
diff --git a/sample_hmap_entry.go b/sample_hmap_entry.go
index 6de82f4..ddafc35 100644
--- a/sample_hmap_entry.go
+++ b/sample_hmap_entry.go
@@ -86,7 +86,7 @@ func (s *SampleItem) PtrMapHead() *MapHead {
 }
 
 func (s *SampleItem) Delete() {
-	s.state |= mapIsDeleted
+	s.markDeleted()
 }
 
 func (s *SampleItem) KeyHash() (uint64, uint64) {
-- 
2.43.0


From a51a928aa60038cd0aa35a995753988c6c2f0062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:11 +0000
Subject: [PATCH 19/32] fix: deleted embedded items keep their place for
 concurrent readers

A lookup or traversal on an item that was zeroed or unlinked by Purge at the
same time missed live items. Deleted items keep their hash and links until
their slot is taken again.
---
 map_embedded.go | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/map_embedded.go b/map_embedded.go
index bd675f5..ab4248d 100644
--- a/map_embedded.go
+++ b/map_embedded.go
@@ -30,20 +30,14 @@ func (h *Map) bsearchBybucket(bucket *bucket, reverseNoMask uint64, ignoreBucket
 	items := pool.ptrItems()
 	l := items.Len()
 
+	// deleted items keep their place in the order
 	idx := sort.Search(l, func(i int) bool {
-		item := items._at(i, true, true)
-		if item == nil {
-			return true
-		}
-		// no live item up to i
-		if item.IsDeleted() {
-			return false
-		}
-		return atomic.LoadUint64(&item.reverse) >= reverseNoMask
-		//return items.reverseAt(i) >= reverseNoMask
+		return items.reverseAt(i) >= reverseNoMask
 	})
-	if idx < l && items.reverseAt(idx) == reverseNoMask {
-		return items._at(idx, true, true)
+	for ; idx < l && items.reverseAt(idx) == reverseNoMask; idx++ {
+		if item := items._at(idx, false, false); !item.IsDeleted() {
+			return item
+		}
 	}
 
 	a := bucket.toBase().prevAsB()
@@ -320,6 +314,8 @@ func (sp *samepleItemPool) appendLast(mu sync.Locker) (newItem MapItem, nPool *s
 	if l >= items.Cap() {
 		return nil, nil, fn
 	}
+	// a purged item may have been here
+	*items._at(l, false, false) = SampleItem{}
 	if atomic_util.CompareAndSwapInt(&items.len, l, l+1) {
 		new = items.at(l)
 		return new, nil, fn
@@ -720,7 +716,6 @@ func (sp *samepleItemPool) shrinkLen() {
 		if !item.Empty() {
 			item.MarkForDelete()
 		}
-		*item = SampleItem{}
 	}
 }
 
-- 
2.43.0


From 38bb8d8faa1ede9b48ab3575a49666c06d619f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:11 +0000
Subject: [PATCH 20/32] fix: insert one new key at a time

Concurrent insertions of one key both added an item, and concurrent
insertions of different keys lost items or the borders of buckets.
---
 map.go | 61 ++++++++++++++++++++++++++++++++++++++++------------------
 1 file changed, 42 insertions(+), 19 deletions(-)

diff --git a/map.go b/map.go
index 3063224..fdba30d 100644
--- a/map.go
+++ b/map.go
@@ -53,6 +53,7 @@ type Map struct {
 
 	modeForBucket SearchMode
 	mu            sync.Mutex
+	muInsert      sync.Mutex // one insertion of a new key at a time
 	levels        [16]atomic.Value
 
 	ItemFn func() MapItem
@@ -628,27 +629,40 @@ func (h *Map) _loadItem(k uint64, conflict uint64, key interface{}) (MapItem, *b
 
 var madeBucket int32 = 0
 
+// updateByKey ... update the value of a key in the map. done is false if the key is not found
+func (h *Map) updateByKey(key, value interface{}) (done, ok bool) {
+
+	var item MapItem
+	if h.isEmbededItemInBucket {
+		var lock *trylock.Mutex
+		item, _, lock, done = h.loadItem(0, 0, key)
+		if lock != nil {
+			defer lock.Unlock()
+		}
+	} else {
+		item, _, done = h._loadItem(0, 0, key)
+	}
+	if done {
+		ok = h._update(item, value)
+	}
+	return
+}
+
 // Set ... set the value for a key
 func (h *Map) Set(key, value interface{}) bool {
 	atomic.StoreInt32(&madeBucket, 0)
 
-	var item MapItem
-	var bucket *bucket
-	var found bool
+	if done, ok := h.updateByKey(key, value); done {
+		return ok
+	}
 
-	for {
-		item, bucket, found = h._loadItem(0, 0, key)
-		if !found {
-			break
-		}
-		if !h.isEmbededItemInBucket {
-			return h._update(item, value)
-		}
-		if bucket.muPool.TryLock() {
-			defer bucket.muPool.Unlock()
-			return h._update(item, value)
-		}
+	h.muInsert.Lock()
+	defer h.muInsert.Unlock()
+	// another goroutine may have set the key
+	if done, ok := h.updateByKey(key, value); done {
+		return ok
 	}
+	_, bucket, _ := h._loadItem(0, 0, key)
 
 	var s *SampleItem
 	useDump := false
@@ -666,12 +680,14 @@ func (h *Map) Set(key, value interface{}) bool {
 		k, conflict := KeyToHash(key)
 		var nPool *samepleItemPool
 
+		lock := bucket.mutex()
+		lock.Lock()
+		defer lock.Unlock()
+
 		//lastgets = nil
 		oPool := bucket.itemPool()
-		item, nPool, fn := oPool.getWithFn(bits.Reverse64(k), &bucket.muPool)
-		if fn != nil {
-			defer fn(&bucket.muPool)
-		}
+		oPool.shrinkLen()
+		item, nPool, _ := oPool.getWithFn(bits.Reverse64(k), nil)
 
 		s = item.(*SampleItem)
 		if nPool != nil {
@@ -756,6 +772,13 @@ func (h *Map) StoreItem(item MapItem) bool {
 
 	k, conflict := item.KeyHash()
 
+	if oitem, _, found := h._loadItem(k, conflict, nil); found {
+		return h._update(oitem, item.Value())
+	}
+
+	h.muInsert.Lock()
+	defer h.muInsert.Unlock()
+	// another goroutine may have set the key
 	oitem, bucket, found := h._loadItem(k, conflict, nil)
 	if found {
 		return h._update(oitem, item.Value())
-- 
2.43.0


From ae3da174c530a094eae6e767a0a22de0f97292dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:36 +0000
Subject: [PATCH 21/32] fix: RMap guards the move from dirty to read with its
 lock

Concurrent Set, Get and Delete lost keys that were stored in dirty while it was
replaced, and revived or lost keys while read was replaced.
---
 rmap/rmap.go | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/rmap/rmap.go b/rmap/rmap.go
index 2384902..e0e7308 100644
--- a/rmap/rmap.go
+++ b/rmap/rmap.go
@@ -77,6 +77,9 @@ func (m *RMap) getDirty(k, conflict uint64) (v interface{}, ok bool) {
 }
 
 func (m *RMap) Set2(k, conflict uint64, kstr string, v interface{}) bool {
+	m.Lock()
+	defer m.Unlock()
+
 	read, succ := m.read.Load().(*readMap)
 	if !succ {
 		m.read.Store(&readMap{})
@@ -175,13 +178,20 @@ func (m *RMap) Get2(k, conflict uint64) (v interface{}, ok bool) {
 	}
 
 	if !ok && read.amended {
-		// m.Lock()
-		// defer m.Unlock()
+		m.Lock()
+		defer m.Unlock()
 		read := m.read.Load().(*readMap)
 		av, ok = read.m[hashKey{k, conflict}]
 		if !ok && read.amended {
 			v, ok = m.getDirty(k, conflict)
 			m.missLocked()
+		} else if ok {
+			// the key was moved from dirty meanwhile
+			e, _ = av.Load().(*smap.SampleItem)
+			if e == nil {
+				return nil, false
+			}
+			v = e.Value()
 		}
 	}
 	return
@@ -189,6 +199,8 @@ func (m *RMap) Get2(k, conflict uint64) (v interface{}, ok bool) {
 
 func (m *RMap) Delete(key string) bool {
 	k, conflict := smap.KeyToHash(key)
+	m.Lock()
+	defer m.Unlock()
 
 	read, succ := m.read.Load().(*readMap)
 	if !succ {
@@ -216,6 +228,9 @@ func (m *RMap) Delete(key string) bool {
 	return false
 }
 func (m *RMap) Len() int {
+	m.RLock()
+	defer m.RUnlock()
+
 	cnt := int(m.dirty.Len())
 	read, succ := m.read.Load().(*readMap)
 	if !succ {
@@ -229,11 +244,9 @@ func (m *RMap) Len() int {
 	return cnt
 }
 
+// storeReadFromDirty ... move all items of dirty to read. m must be locked
 func (m *RMap) storeReadFromDirty(amended bool) {
 
-	m.Lock()
-	defer m.Unlock()
-
 	for {
 		oread, _ := m.read.Load().(*readMap)
 
@@ -266,9 +279,7 @@ func (m *RMap) storeReadFromDirty(amended bool) {
 			nread.amended = true
 		}
 		if m.read.CompareAndSwap(oread, nread) {
-			m.Unlock()
 			m.initDirty()
-			m.Lock()
 			break
 		}
 		_ = "???"
-- 
2.43.0


From 632fe2fd1dcdff05e00b4af6dd3dc96e429a5ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:33 +0000
Subject: [PATCH 22/32] fix: embedded lookups wait for the end of an insertion

An insertion moves the items of a pool; lookups, updates and deletions at the
same time missed live keys, returned the value of another key or crashed.
---
 map.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/map.go b/map.go
index fdba30d..a8ded84 100644
--- a/map.go
+++ b/map.go
@@ -53,7 +53,7 @@ type Map struct {
 
 	modeForBucket SearchMode
 	mu            sync.Mutex
-	muInsert      sync.Mutex // one insertion of a new key at a time
+	muInsert      sync.RWMutex // one insertion of a new key at a time
 	levels        [16]atomic.Value
 
 	ItemFn func() MapItem
@@ -571,6 +571,7 @@ func (h *Map) searchBucket(k uint64) (result *bucket) {
 
 // Get ... return the value for a key, if not found, ok is false
 func (h *Map) Get(key interface{}) (value interface{}, ok bool) {
+	defer h.rlockEmbedded()()
 	item, ok := h._get(KeyToHash(key))
 	if !ok {
 		return nil, false
@@ -579,6 +580,7 @@ func (h *Map) Get(key interface{}) (value interface{}, ok bool) {
 }
 
 func (h *Map) GetByHash(hash, conflict uint64) (value interface{}, ok bool) {
+	defer h.rlockEmbedded()()
 	item, ok := h._get(hash, conflict)
 	if !ok {
 		return nil, false
@@ -588,16 +590,27 @@ func (h *Map) GetByHash(hash, conflict uint64) (value interface{}, ok bool) {
 
 // LoadItem ... return key/value item with embedded-linked-list. if not found, ok is false
 func (h *Map) LoadItem(key interface{}) (item MapItem, success bool) {
+	defer h.rlockEmbedded()()
 	item, _, success = h._loadItem(0, 0, key)
 	return
 }
 
 func (h *Map) LoadItemByHash(k uint64, conflict uint64) (item MapItem, success bool) {
 
+	defer h.rlockEmbedded()()
 	item, success = h._get(k, conflict)
 	return
 }
 
+// rlockEmbedded ... wait for the end of an insertion, which moves items embedded in buckets
+func (h *Map) rlockEmbedded() (unlock func()) {
+	if !h.isEmbededItemInBucket {
+		return func() {}
+	}
+	h.muInsert.RLock()
+	return h.muInsert.RUnlock
+}
+
 func (h *Map) loadItem(k uint64, conflict uint64, key interface{}) (item MapItem, bucket *bucket, lock *trylock.Mutex, found bool) {
 
 	for {
@@ -652,7 +665,11 @@ func (h *Map) updateByKey(key, value interface{}) (done, ok bool) {
 func (h *Map) Set(key, value interface{}) bool {
 	atomic.StoreInt32(&madeBucket, 0)
 
-	if done, ok := h.updateByKey(key, value); done {
+	done, ok := func() (bool, bool) {
+		defer h.rlockEmbedded()()
+		return h.updateByKey(key, value)
+	}()
+	if done {
 		return ok
 	}
 
@@ -1672,6 +1689,7 @@ func (h *Map) purgeInEmbedded(key interface{}) bool {
 	var lock *trylock.Mutex
 	_, _, _, _ = item, bucket, lock, found
 
+	defer h.rlockEmbedded()()
 	item, bucket, lock, found = h.loadItem(0, 0, key)
 	if lock != nil {
 		defer lock.Unlock()
-- 
2.43.0


From 224d2ae0804c3f39bc11281f1204b66da521ddf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:33 +0000
Subject: [PATCH 23/32] fix: insertion leaves purged embedded items to the
 traversals on them

The slot of a purged item was cleared and taken again while a traversal was
on it, which crashed. Deleted items are removed by copying the others.
---
 map.go          |  5 ++---
 map_embedded.go | 53 ++++++++++++++++++++++++++++++++-----------------
 2 files changed, 37 insertions(+), 21 deletions(-)

diff --git a/map.go b/map.go
index a8ded84..91cb671 100644
--- a/map.go
+++ b/map.go
@@ -703,7 +703,7 @@ func (h *Map) Set(key, value interface{}) bool {
 
 		//lastgets = nil
 		oPool := bucket.itemPool()
-		oPool.shrinkLen()
+		oPool.compact()
 		item, nPool, _ := oPool.getWithFn(bits.Reverse64(k), nil)
 
 		s = item.(*SampleItem)
@@ -1700,8 +1700,7 @@ func (h *Map) purgeInEmbedded(key interface{}) bool {
 
 	// remove item
 	// 1. item status to remove
-	// 2. items keep their place until getWithFn() reuses them, or until
-	//    the next insertion removes them from the end of the pool.
+	// 2. items keep their place until the next insertion to the pool.
 	//    a traversal may be on the item now.
 
 	pool := bucket.itemPool()
diff --git a/map_embedded.go b/map_embedded.go
index ab4248d..08cb3eb 100644
--- a/map_embedded.go
+++ b/map_embedded.go
@@ -314,8 +314,6 @@ func (sp *samepleItemPool) appendLast(mu sync.Locker) (newItem MapItem, nPool *s
 	if l >= items.Cap() {
 		return nil, nil, fn
 	}
-	// a purged item may have been here
-	*items._at(l, false, false) = SampleItem{}
 	if atomic_util.CompareAndSwapInt(&items.len, l, l+1) {
 		new = items.at(l)
 		return new, nil, fn
@@ -698,25 +696,44 @@ ADD_LAST:
 	return err
 }
 
-func (sp *samepleItemPool) shrinkLen() {
+// compact ... remove deleted items. the old items stay as they are, because a traversal may be on them
+func (sp *samepleItemPool) compact() {
 
-	pOpts := elist_head.SharedTrav(list_head.WaitNoM())
-	defer elist_head.SharedTrav(pOpts...)
-
-	pItemSlice := sp.ptrItems()
-	l := pItemSlice.Len()
-	for i := l - 1; i > -1; i-- {
-		item := pItemSlice._at(i, true, false)
-		if item == nil || !item.IsDeleted() {
-			break
-		}
-		if !atomic_util.CompareAndSwapInt(&pItemSlice.len, i+1, i) {
-			break
-		}
-		if !item.Empty() {
-			item.MarkForDelete()
+	olen := len(sp.items)
+	newItems := make([]SampleItem, 0, cap(sp.items))
+	for i := range sp.items {
+		if !sp.items[i].IsDeleted() {
+			newItems = append(newItems, sp.items[i])
 		}
 	}
+	if len(newItems) == 0 && olen > 0 {
+		// an item is required to keep the place in linked-list
+		newItems = append(newItems, sp.items[olen-1])
+	}
+	nlen := len(newItems)
+	if nlen == olen {
+		return
+	}
+
+	prevItem := sp.items[0].ListHead.Prev()
+	nextItem := sp.items[olen-1].ListHead.Next()
+
+	newListHead := &elist_head.ListHead{}
+	newListTail := &elist_head.ListHead{}
+	elist_head.InitAsEmpty(newListHead, newListTail)
+
+	middle := nextListHeadOfSampleItem()
+	for i := range newItems {
+		newItems[i].ListHead = middle
+	}
+	if err := newListHead.ReplaceNext(&newItems[0].ListHead, &newItems[nlen-1].ListHead, newListTail); err != nil {
+		Log(LogFatal, "replace fail")
+	}
+	if err := prevItem.ReplaceNext(newListHead.Next(), newListTail.Prev(), nextItem); err != nil {
+		Log(LogFatal, "fail to replace newItems")
+	}
+	newItemSlice := toItemSlice(newItems)
+	sp.ptrItems().CopyFrom(&newItemSlice, 0, newItemSlice.Len())
 }
 
 type sliceHeader struct {
-- 
2.43.0


From 5fc732f12ad2d1a779e7cae8809294849a8cc1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:57 +0000
Subject: [PATCH 24/32] fix: an item with the hash of the last dummy keeps the
 order of its pool

It was linked before the other items of that hash, while the embedded pool
has it after them, and moving the pool linked the items wrong.
---
 map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/map.go b/map.go
index 91cb671..92d5661 100644
--- a/map.go
+++ b/map.go
@@ -1044,7 +1044,7 @@ func (h *Map) add2(start *elist_head.ListHead, e HMapEntry, opts ...HMethodOpt)
 			Log(LogWarn, "add2: element for insertion  is not single ")
 		}
 		// a bucket starts before its items, and the last dummy stays last.
-		if e.PtrMapHead().IsDummy() || ehead.PtrMapHead().reverse == ^uint64(0) {
+		if e.PtrMapHead().IsDummy() || (ehead.PtrMapHead().IsDummy() && ehead.PtrMapHead().reverse == ^uint64(0)) {
 			return e.PtrMapHead().reverse <= ehead.PtrMapHead().reverse
 		}
 		return e.PtrMapHead().reverse < ehead.PtrMapHead().reverse
-- 
2.43.0


From 924d0a26d12303a05b8effa8db676920368771bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:17 +0000
Subject: [PATCH 25/32] fix: a lookup uses the item type of the time it found
 the item

The first Set changes the item type of the map. A concurrent Get, which took
the item type before, read the new item as another type.
---
 map.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/map.go b/map.go
index 92d5661..436fa51 100644
--- a/map.go
+++ b/map.go
@@ -1626,7 +1626,7 @@ func (h *Map) _searchBybucket(lbCur *bucket, reverseNoMask uint64, ignoreBucketE
 				continue
 			}
 			if curReverse == reverseNoMask {
-				return result.HmapEntryFromListHead(cur.PtrListHead())
+				return h.ItemFn().HmapEntryFromListHead(cur.PtrListHead())
 			}
 			return nil
 		}
@@ -1647,7 +1647,7 @@ func (h *Map) _searchBybucket(lbCur *bucket, reverseNoMask uint64, ignoreBucketE
 			continue
 		}
 		if curReverse == reverseNoMask {
-			return result.HmapEntryFromListHead(cur.PtrListHead())
+			return h.ItemFn().HmapEntryFromListHead(cur.PtrListHead())
 		}
 
 		return nil
-- 
2.43.0


From a807fe2ddf56c2f7bc86d33bb155b7578cd009bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:21 +0000
Subject: [PATCH 26/32] fix: growing a pool leaves its items in place

_expand copied the items to a larger pool. Items loaded before, and updates
and deletions which had found their item already, were lost.
---
 pool2.go | 70 ++++----------------------------------------------------
 1 file changed, 4 insertions(+), 66 deletions(-)

diff --git a/pool2.go b/pool2.go
index 5a7cbe6..8ac7c1d 100644
--- a/pool2.go
+++ b/pool2.go
@@ -283,81 +283,19 @@ func (sp *samepleItemPool) DumpExpandInfo(w io.Writer, outers []unsafe.Pointer,
 
 }
 
+// _expand ... add a larger pool behind. items of sp keep their place, because others may use them now
 func (sp *samepleItemPool) _expand() (*samepleItemPool, error) {
 
 	sp.mu.Lock()
 	defer sp.mu.Unlock()
 
-	olen := len(sp.items)
-	empty := elist_head.ListHead{}
-	if sp.items[olen-1].ListHead == empty {
-		Log(LogError, "last item must not be empty")
-	}
-
 	nPool := &samepleItemPool{}
-	_ = nPool
-	var e error
-	var pOpts []list_head.TravOpt
-	var next *list_head.ListHead
-	a := samepleItemPool{}
-	if sp.ListHead == a.ListHead {
-		goto NO_DELETE
-	}
-	next = sp.Next()
-	pOpts = list_head.DefaultModeTraverse.Option(list_head.WaitNoM())
-	e = sp.MarkForDelete()
-	if e != nil {
-		return nil, EPoolAlreadyDeleted
-	}
-NO_DELETE:
-
 	elist_head.InitAsEmpty(&nPool.freeHead, &nPool.freeTail)
-
-	nCap := PoolCap(len(sp.items))
-
-	nPool.items = make([]SampleItem, 0, nCap)
-	nPool.items = append(nPool.items, sp.items...)
-
-	// for debugging
-	var outers []unsafe.Pointer
-	var b strings.Builder
-	if IsDebug() {
-		outers = elist_head.OuterPtrs(
-			unsafe.Pointer(&sp.items[0]),
-			unsafe.Pointer(&sp.items[len(sp.items)-1]),
-			unsafe.Pointer(&nPool.items[0]),
-			int(SampleItemSize),
-			int(SampleItemOffsetOf))
-		sp.DumpExpandInfo(&b, outers, "B:rewrite reverse=0x%x\n", &sp.items[0].reverse)
-	}
-
-	err := elist_head.RepaireSliceAfterCopy(
-		unsafe.Pointer(&sp.items[0]),
-		unsafe.Pointer(&sp.items[len(sp.items)-1]),
-		unsafe.Pointer(&nPool.items[0]),
-		int(SampleItemSize),
-		int(SampleItemOffsetOf))
-
-	if err != nil {
-		return nil, EPoolExpandFail
-	}
-
-	// for debugging
-	if IsDebug() {
-		sp.DumpExpandInfo(&b, outers, "A:rewrite reverse=0x%x\n", &sp.items[0].reverse)
-		fmt.Println(b.String())
-	}
-
+	nPool.items = make([]SampleItem, 0, PoolCap(len(sp.items)))
 	nPool.Init()
 
-	//FIXME: check
-	next.InsertBefore(&nPool.ListHead)
-	list_head.DefaultModeTraverse.Option(pOpts...)
-	if ok, _ := sp.IsSafety(); ok {
-		sp.Init()
-	} else {
-		sp.IsSafety()
-		Log(LogWarn, "old sampleItem pool is not safety")
+	if _, err := sp.DirectNext().InsertBefore(&nPool.ListHead); err != nil {
+		return nil, EPoolExpandFail
 	}
 	return nPool, nil
 }
-- 
2.43.0


From 775ff893207f85c8808006f568a50c7a03738ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:42 +0000
Subject: [PATCH 27/32] fix: lookups pass over buckets that another goroutine
 is making

---
 bucket.go | 8 ++++++++
 map.go    | 7 ++++---
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/bucket.go b/bucket.go
index 0789036..cb9345d 100644
--- a/bucket.go
+++ b/bucket.go
@@ -464,6 +464,14 @@ func (list *bucketSlice) _at(i int, checklen bool) (result *bucket) {
 	return (*bucket)(unsafe.Add(data, i*int(bucketSize)))
 }
 
+// publish ... set the slice. lookups of other goroutines check cap and len before they use data
+func (list *bucketSlice) publish(buckets []bucket) {
+
+	atomic.StorePointer(&list.data, unsafe.Pointer(&buckets[0]))
+	atomic_util.StoreInt(&list.len, len(buckets))
+	atomic_util.StoreInt(&list.cap, cap(buckets))
+}
+
 func (list *bucketSlice) Len() int {
 
 	return atomic_util.LoadInt(&list.len)
diff --git a/map.go b/map.go
index 436fa51..571fe93 100644
--- a/map.go
+++ b/map.go
@@ -1767,7 +1767,8 @@ func (h *Map) FindBucket(reverse uint64) (b *bucket) {
 
 func (h *Map) findBucket(reverse uint64) (b *bucket) {
 
-	return h._findBucket(reverse, false, false)
+	// pass over buckets another goroutine is making
+	return h._findBucket(reverse, false, !h.isEmbededItemInBucket)
 }
 
 func (h *Map) _findBucket(reverse uint64, ignoreNoPool bool, ignoreNoInitDummy bool) (b *bucket) {
@@ -1912,11 +1913,11 @@ func (h *Map) bucketFromPool(reverse uint64, opts ...cOptFn) (b *bucket, onOk fu
 				}
 			}
 			lCur.LevelHead.InsertBefore(&downLevels[0].LevelHead)
-			downLevels[0].state = bucketStateInit
+			downLevels[0].state = bucketStateActive
 			// if idx != 0 && !h.isEmbededItemInBucket {
 			// 	h.add2(b.head(), &b.downLevels[0].dummy)
 			// }
-			b.downLevels = downLevels
+			b.ptrDownLevels().publish(downLevels)
 		} else if len(b.downLevels) == 0 {
 			if !recoverBucketWithOutInit {
 				goto RETRY_INITIALIZE
-- 
2.43.0


From fb32b86214d045ded0b061d21bd2c692f38777d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:42 +0000
Subject: [PATCH 28/32] fix: terminators of item copies stay in place when the
 stack grows

---
 map_embedded.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/map_embedded.go b/map_embedded.go
index 08cb3eb..9ff0edb 100644
--- a/map_embedded.go
+++ b/map_embedded.go
@@ -371,9 +371,7 @@ func (sp *samepleItemPool) insertToPool(reverse uint64, mu sync.Locker) (newItem
 		}
 		copy(newItems[i+1:], sp.items[i:])
 
-		newListHead := &elist_head.ListHead{}
-		newListTail := &elist_head.ListHead{}
-		elist_head.InitAsEmpty(newListHead, newListTail)
+		newListHead, newListTail := newEmptyList()
 
 		middle := nextListHeadOfSampleItem()
 		for i := 0; i < olen+1; i++ {
@@ -561,9 +559,7 @@ func (sp *samepleItemPool) expand(mu sync.Locker) (unlocker, error) {
 	newItems := make([]SampleItem, olen, nCap)
 	toPtrItemSlice(&newItems).CopyDataFrom(0, sp.ptrItems(), 0, olen)
 
-	newListHead := &elist_head.ListHead{}
-	newListTail := &elist_head.ListHead{}
-	elist_head.InitAsEmpty(newListHead, newListTail)
+	newListHead, newListTail := newEmptyList()
 
 	err = newListHead.ReplaceNext(&newItems[0].ListHead, &newItems[olen-1].ListHead, newListTail)
 	if err != nil {
@@ -600,6 +596,15 @@ func (sp *samepleItemPool) expand(mu sync.Locker) (unlocker, error) {
 
 }
 
+// newEmptyList ... make head/tail terminater. elements are linked by their distance.
+// so that they must be in heap, a stack moves when it grows.
+//go:noinline
+func newEmptyList() (head, tail *elist_head.ListHead) {
+	head, tail = &elist_head.ListHead{}, &elist_head.ListHead{}
+	elist_head.InitAsEmpty(head, tail)
+	return
+}
+
 func nextListHeadOfSampleItem() elist_head.ListHead {
 
 	list := elist_head.NewEmptyList()
@@ -718,9 +723,7 @@ func (sp *samepleItemPool) compact() {
 	prevItem := sp.items[0].ListHead.Prev()
 	nextItem := sp.items[olen-1].ListHead.Next()
 
-	newListHead := &elist_head.ListHead{}
-	newListTail := &elist_head.ListHead{}
-	elist_head.InitAsEmpty(newListHead, newListTail)
+	newListHead, newListTail := newEmptyList()
 
 	middle := nextListHeadOfSampleItem()
 	for i := range newItems {
-- 
2.43.0


From a12ed4ab7b2a8e71a3be0e10ac82786bde30b0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:42 +0000
Subject: [PATCH 29/32] fix: a split puts deleted items on their side of the
 border

---
 map_embedded.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/map_embedded.go b/map_embedded.go
index 9ff0edb..bda2b3e 100644
--- a/map_embedded.go
+++ b/map_embedded.go
@@ -621,9 +621,7 @@ func nextListHeadOfSampleItem() elist_head.ListHead {
 func (sp *samepleItemPool) findIdx(reverse uint64) (int, error) {
 
 	for i := range sp.items {
-		if sp.items[i].IsIgnored() {
-			continue
-		}
+		// deleted items keep their place in the order
 		if reverse <= sp.items[i].reverse {
 			return i, nil
 		}
-- 
2.43.0


From e110c1b0c3ccbcb738e09fd45b6170086f647066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:22 +0000
Subject: [PATCH 30/32] fix: entries can be read while another goroutine
 updates or deletes them

---
 item.go | 29 +++++++++++++++++++----------
 map.go  |  4 ++--
 2 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/item.go b/item.go
index 5892576..5e93319 100644
--- a/item.go
+++ b/item.go
@@ -6,22 +6,23 @@ package skiplistmap
 
 import (
 	"sync"
+	"sync/atomic"
 	"unsafe"
 
 	"github.com/kazu/elist_head"
 )
 
 type entryHMap struct {
-	key   interface{}
-	value interface{}
+	key   unsafe.Pointer // of interface{}
+	value unsafe.Pointer // of interface{}
 
 	MapHead
 }
 
 func NewEntryMap(key, value interface{}) *entryHMap {
 	return &entryHMap{
-		key:   key,
-		value: value,
+		key:   unsafe.Pointer(&key),
+		value: unsafe.Pointer(&value),
 	}
 }
 
@@ -48,15 +49,23 @@ func (s *entryHMap) HmapEntryFromListHead(lhead *elist_head.ListHead) HMapEntry
 }
 
 func (s *entryHMap) Key() interface{} {
-	return s.key
+	return loadIface(&s.key)
 }
 
 func (s *entryHMap) Value() interface{} {
-	return s.value
+	return loadIface(&s.value)
+}
+
+// loadIface ... key and value are read while other goroutines replace them
+func loadIface(p *unsafe.Pointer) interface{} {
+	if v := (*interface{})(atomic.LoadPointer(p)); v != nil {
+		return *v
+	}
+	return nil
 }
 
 func (s *entryHMap) SetValue(v interface{}) bool {
-	s.value = v
+	atomic.StorePointer(&s.value, unsafe.Pointer(&v))
 	return true
 }
 
@@ -78,12 +87,12 @@ func (s *entryHMap) Offset() uintptr {
 }
 
 func (s *entryHMap) Delete() {
-	s.key = nil
-	s.MapHead.state |= mapIsDeleted
+	atomic.StorePointer(&s.key, nil)
+	s.markDeleted()
 }
 
 func (s *entryHMap) KeyHash() (uint64, uint64) {
-	return KeyToHash(s.key)
+	return KeyToHash(s.Key())
 }
 
 type HMapEntry interface {
diff --git a/map.go b/map.go
index 571fe93..5acb13d 100644
--- a/map.go
+++ b/map.go
@@ -822,7 +822,7 @@ func (h *Map) retain(item MapItem) {
 func (h *Map) eachEntry(start *elist_head.ListHead, fn func(*entryHMap)) {
 	for cur := start; !cur.Empty(); cur = cur.Next() {
 		e := entryHMapFromListHead(cur)
-		if e.key == nil {
+		if e.Key() == nil {
 			continue
 		}
 		fn(e)
@@ -834,7 +834,7 @@ func (h *Map) each(start *elist_head.ListHead, fn func(key, value interface{}))
 
 	for cur := start; !cur.Empty(); cur = cur.Next() {
 		e := entryHMapFromListHead(cur)
-		fn(e.key, e.value)
+		fn(e.Key(), e.Value())
 	}
 	return
 }
-- 
2.43.0


From adf1ded23f0b22771714942a3576b9dc88dc3507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:10 +0000
Subject: [PATCH 31/32] fix: searches do not share their options with other
 goroutines

---
 map.go | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/map.go b/map.go
index 5acb13d..26def4c 100644
--- a/map.go
+++ b/map.go
@@ -842,14 +842,7 @@ func (h *Map) each(start *elist_head.ListHead, fn func(key, value interface{}))
 // must renename to find
 func (h *Map) find(start *elist_head.ListHead, cond func(HMapEntry) bool, opts ...searchArg) (result HMapEntry, cnt int) {
 
-	conf := sharedSearchOpt(nil)
-	previous := conf.Options(opts...)
-	defer func() {
-		if previous != nil {
-			conf.Options(previous)
-			sharedSearchOpt(conf)
-		}
-	}()
+	conf := newSearchOpt(opts...)
 	cnt = 0
 	var e MapItem
 	if start.Empty() {
@@ -1457,6 +1450,15 @@ func sharedSearchOpt(setter *searchOpt) *searchOpt {
 	return _sharedSearchOpt.Load().(*searchOpt)
 }
 
+// newSearchOpt ... options of one search. other goroutines use the shared ones meanwhile
+func newSearchOpt(opts ...searchArg) *searchOpt {
+
+	o := &searchOpt{}
+	o._ignoreBucketEntry.Store(sharedSearchOpt(nil).ignoreBucketEntry())
+	o.Options(opts...)
+	return o
+}
+
 func (o *searchOpt) ignoreBucketEntry() bool {
 	return o._ignoreBucketEntry.Load().(bool)
 }
@@ -1483,14 +1485,7 @@ func (o *searchOpt) Options(opts ...searchArg) (previous searchArg) {
 }
 func (h *Map) SearchKey(k uint64, opts ...searchArg) HMapEntry {
 
-	conf := sharedSearchOpt(nil)
-	previous := conf.Options(opts...)
-	defer func() {
-		if previous != nil {
-			conf.Options(previous)
-			sharedSearchOpt(conf)
-		}
-	}()
+	conf := newSearchOpt(opts...)
 	return h.searchKey(k, conf.ignoreBucketEntry())
 
 }
-- 
2.43.0


From 2d5a6e7c84d29c90308b567cfeacc4e44d9187b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:48 +0000
Subject: [PATCH 32/32] fix: a lookup from behind missed an item another
 goroutine was linking and that was already found from the front

---
 map.go | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/map.go b/map.go
index 26def4c..63540d1 100644
--- a/map.go
+++ b/map.go
@@ -463,21 +463,31 @@ func (h *Map) _get(k, conflict uint64) (MapItem, bool) {
 		DebugStats[CntOfGet]++
 		h.mu.Unlock()
 	}
-	e := h.searchKey(k, true)
+	e := h.sameHash(h.searchKey(k, true), k, conflict)
+	if e == nil && !h.isEmbededItemInBucket {
+		// a search from behind misses an item being linked, which others may find from the front
+		b, reverse := h.searchBucket4update(k)
+		e = h.sameHash(h.searchBybucket(b, reverse, true), k, conflict)
+	}
+	if e == nil {
+		return nil, false
+	}
+	return e.(MapItem), true
+
+}
+
+// sameHash ... choose the item of k and conflict from the items at e. nil if not found
+func (h *Map) sameHash(e HMapEntry, k, conflict uint64) HMapEntry {
 	if e == nil {
 		if Failreverse == 0 {
 			Failreverse = bits.Reverse64(k)
 		}
-		return nil, false
+		return nil
 	}
 	if e.PtrMapHead().reverse != bits.Reverse64(k) {
-		return nil, false
-	}
-	if e = h.searchConflict(e, conflict); e == nil {
-		return nil, false
+		return nil
 	}
-	return e.(MapItem), true
-
+	return h.searchConflict(e, conflict)
 }
 
 // searchConflict ... items of the same hash are neighbors in list. choose the item of conflict.
-- 
2.43.0

