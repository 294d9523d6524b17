package h

import (
	"math/bits"
	"unsafe"

	"github.com/kazu/elist_head"
	skiplistmap "github.com/kazu/skiplistmap"
	"github.com/kazu/skiplistmap/atomic_util"
	"verifharness/vh"
)

// Ints stores items whose keys are arbitrary numbers.
func Ints() {
	n := vh.Param("keys", 2)
	mode := vh.Param("mode", plain)
	m := newMap(mode, vh.Param("max", 32))
	keys := make([]uint64, n)
	live := make([]bool, n)
	val := make([]int, n)
	mk := func(i int) interface{} {
		switch vh.Param("type", 0) {
		case 1:
			return int(keys[i])
		case 2:
			return int64(keys[i])
		case 3:
			return int32(keys[i])
		case 4:
			return uint32(keys[i])
		case 5:
			return byte(keys[i])
		}
		return keys[i]
	}
	for i := range keys {
		keys[i] = vh.U64("key")
		for j := 0; j < i; j++ {
			vh.Assume(mk(i) != mk(j))
		}
		if vh.Param("region", 0) == 3 {
			vh.Assume(keys[i]&15 == 6)
		}
	}
	next := 1
	store := func(i int) {
		ok := m.StoreItem(skiplistmap.NewEntryMap(mk(i), next))
		vh.Assert(ok, "StoreItem returns true")
		live[i], val[i] = true, next
		next++
	}
	for i := 0; i < vh.Param("pre", n); i++ {
		store(i)
	}
	for s := 0; s < vh.Param("steps", 1); s++ {
		i := vh.Choice("which", n)
		switch vh.Choice("op", 2) {
		case 0:
			store(i)
		case 1:
			ok := m.Delete(mk(i))
			vh.Assert(ok == live[i], "Delete reports whether the key was there")
			live[i] = false
		}
	}
	cnt := 0
	for i := range keys {
		if live[i] {
			cnt++
		}
		v, ok := m.Get(mk(i))
		vh.Assert(ok == live[i], "Get finds exactly the live numeric keys")
		x, _ := v.(int)
		vh.Assert(!ok || x == val[i], "Get returns the last value stored")
	}
	vh.Assert(m.Len() == cnt, "Len is the number of live keys")
	seen := 0
	last := uint64(0)
	m.Range(func(k, v interface{}) bool {
		found := false
		x, _ := v.(int)
		for i := range keys {
			if live[i] && k == mk(i) {
				found = true
				vh.Assert(x == val[i], "Range shows the last value stored")
			}
		}
		vh.Assert(found, "Range visits exactly the live numeric keys")
		h, _ := skiplistmap.KeyToHash(k)
		vh.Assert(seen == 0 || bits.Reverse64(h) > last, "Range goes in reversed-hash order")
		last = bits.Reverse64(h)
		seen++
		return true
	})
	vh.Assert(seen == cnt, "Range visits exactly the live numeric keys")
	if vh.Param("dump", 0) != 0 {
		s := &sink{}
		switch vh.Choice("dump", 3) {
		case 0:
			m.DumpBucket(s)
		case 1:
			m.DumpBucketPerLevel(s)
		case 2:
			m.DumpEntry(s)
		}
		vh.Assert(s.n == 1, "a dump is written to the writer given")
	}
	vh.Reach("end")
}

// Store stores items the user made.
func Store() {
	w := newWorld()
	items := make([]*skiplistmap.SampleItem, w.n)
	store := func(i int) {
		it := skiplistmap.NewSampleItem(w.key[i], w.next)
		ok := w.m.StoreItem(it)
		vh.Assert(ok, "StoreItem returns true")
		if !w.live[i] {
			items[i] = it
		}
		w.live[i], w.val[i] = true, w.next
		w.next++
	}
	for i := 0; i < vh.Param("pre", w.n); i++ {
		store(i)
	}
	for s := 0; s < vh.Param("steps", 1); s++ {
		i := vh.Choice("key", w.n)
		switch vh.Choice("op", 3) {
		case 0:
			store(i)
		case 1:
			if !w.live[i] {
				items[i] = nil
			}
			w.set(i)
		case 2:
			w.del(i)
			items[i] = nil
		}
	}
	for i := range items {
		if items[i] == nil || !w.live[i] || vh.Param("mode", plain) == embedded {
			continue
		}
		got, ok := w.m.LoadItem(w.key[i])
		vh.Assert(ok && got == skiplistmap.MapItem(items[i]), "LoadItem returns the item that was stored")
	}
	w.audit(auditGet | auditRange | auditLen | auditHash)
	vh.Reach("end")
}

// Values stores values of changing types.
func Values() {
	w := newWorld()
	vals := [6]interface{}{1, "x", nil, 2.5, []int{3}, w}
	same := func(a, b interface{}) bool {
		if x, ok := a.([]int); ok {
			y, ok := b.([]int)
			return ok && len(x) == len(y) && &x[0] == &y[0]
		}
		if _, ok := b.([]int); ok {
			return false
		}
		return a == b
	}
	last := make([]interface{}, w.n)
	how := vh.Param("how", 0)
	set := func(i int, v interface{}) {
		switch how {
		case 0:
			vh.Assert(w.m.Set(w.key[i], v), "Set returns true")
		case 1:
			vh.Assert(w.m.StoreItem(skiplistmap.NewSampleItem(w.key[i], v)), "StoreItem returns true")
		case 2:
			vh.Assert(w.m.StoreItem(skiplistmap.NewEntryMap(w.key[i], v)), "StoreItem returns true")
		}
		last[i] = v
	}
	for i := 0; i < w.n; i++ {
		set(i, vals[vh.Choice("val", len(vals))])
	}
	v := vals[vh.Choice("val", len(vals))]
	if vh.Choice("update", 2) == 0 {
		set(0, v)
	} else {
		it, ok := w.m.LoadItem(w.key[0])
		vh.Assert(ok && it.SetValue(v), "SetValue of a loaded item succeeds")
		last[0] = v
	}
	for i := 0; i < w.n; i++ {
		v, ok := w.m.Get(w.key[i])
		vh.Assert(ok && same(v, last[i]), "Get returns the last value set, of any type")
		it, ok := w.m.LoadItem(w.key[i])
		vh.Assert(ok && same(it.Value(), last[i]), "an item shows the last value set, of any type")
	}
	seen := 0
	w.m.Range(func(k, v interface{}) bool {
		s, _ := k.(string)
		i := w.index(s)
		vh.Assert(i >= 0 && same(v, last[i]), "Range shows the last value set, of any type")
		seen++
		return seen <= w.n
	})
	vh.Assert(seen == w.n, "Range shows every key")
	vh.Reach("end")
}

// KeyHash checks the hashes of every supported kind of key.
func KeyHash() {
	x := vh.U64("x")
	sext := func(v, b uint64) uint64 { return uint64(int64(v<<(64-b)) >> (64 - b)) }
	is := func(k interface{}, want uint64) {
		h, c := skiplistmap.KeyToHash(k)
		vh.Assert(h == want && c == 0, "a number is its own hash")
	}
	is(x, x)
	is(int(x), x)
	is(int64(x), x)
	is(int32(x), sext(x, 32))
	is(uint32(x), x&0xffffffff)
	is(byte(x), x&0xff)
	is(nil, 0)
	lens := [...]int{0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 300}
	k := ""
	for i := lens[vh.Choice("len", len(lens))]; len(k) < i; {
		k += string(rune('a' + len(k)%26))
	}
	vh.SetHash(k, x, vh.U64("c"))
	h1, c1 := skiplistmap.KeyToHash(k)
	h2, c2 := skiplistmap.KeyToHash([]byte(k))
	h3, c3 := skiplistmap.NewSampleItem(k, 1).KeyHash()
	h4, c4 := skiplistmap.NewEntryMap(k, 1).KeyHash()
	vh.Assert(h1 == x && h2 == x && h3 == x && h4 == x, "the same text has one hash")
	vh.Assert(c1 == c2 && c2 == c3 && c3 == c4, "the same text has one conflict hash")
	vh.Assert(skiplistmap.MemHash([]byte(k)) == skiplistmap.MemHashString(k), "the same text has one hash")
	s := skiplistmap.NewSampleItem(k, 1)
	s.Setup()
	vh.Assert(s.KeyInHmap() == h1 && s.ConflictInHamp() == c1, "an item set up knows its hashes")
	vh.Reach("end")
}

// HashAgain hashes several keys in an arbitrary order, several times, and one
// of them from a buffer that held other text before.
func HashAgain() {
	text := []string{"ab", "cd", "ef", "abab", ""}
	var hs, cs [5]uint64
	for i, t := range text {
		hs[i] = vh.U64("h." + t)
		vh.SetHash(t, hs[i], vh.U64("c."+t))
		_, cs[i] = skiplistmap.KeyToHash(t)
	}
	buf := make([]byte, 4)
	for s := 0; s < vh.Param("steps", 3); s++ {
		i := vh.Choice("text", len(text))
		var k interface{}
		switch vh.Choice("form", 4) {
		case 0:
			k = text[i]
		case 1:
			k = []byte(text[i])
		case 2:
			k = buf[:copy(buf, text[i])]
		case 3:
			it := skiplistmap.NewSampleItem(text[i], 1)
			h, c := it.KeyHash()
			vh.Assert(h == hs[i] && c == cs[i], "a text has the same hashes every time")
			k = it.Key()
		}
		h, c := skiplistmap.KeyToHash(k)
		vh.Assert(h == hs[i] && c == cs[i], "a text has the same hashes every time")
	}
	vh.Reach("end")
}

// Heads checks the conversions between items and list elements.
func Heads() {
	s := skiplistmap.NewSampleItem("a", 7)
	e := skiplistmap.NewEntryMap("b", 8)
	check := func(it skiplistmap.MapItem, key string, val int) {
		head := it.PtrListHead()
		back := it.HmapEntryFromListHead(head)
		vh.Assert(back == skiplistmap.HMapEntry(it), "an item is recovered from its list element")
		vh.Assert(it.PtrMapHead().PtrListHead() == head, "an item has one list element")
		at := skiplistmap.ElementOf(unsafe.Pointer(head), it.Offset())
		vh.Assert(uintptr(at)+it.Offset() == uintptr(unsafe.Pointer(head)), "Offset is the place of the list element")
		mh, ok := skiplistmap.EmptyMapHead.FromListHead(head).(*skiplistmap.MapHead)
		vh.Assert(ok && mh == it.PtrMapHead(), "a map head is recovered from its list element")
		k, _ := it.Key().(string)
		v, _ := it.Value().(int)
		vh.Assert(k == key && v == val, "an item has its key and value")
		vh.Assert(it.SetValue(9), "SetValue succeeds")
		v, _ = it.Value().(int)
		vh.Assert(v == 9, "SetValue is visible")
		h := it.PtrMapHead()
		vh.Assert(!h.IsDeleted() && !h.IsIgnored() && !h.IsDummy(), "a new item is live")
		it.Delete()
		vh.Assert(h.IsDeleted() && h.IsIgnored() && !h.IsDummy(), "a deleted item is marked")
		it.Delete()
		vh.Assert(h.IsDeleted() && h.IsIgnored() && !h.IsDummy(), "a deleted item is marked")
	}
	check(s, "a", 7)
	check(e, "b", 8)
	vh.Assert(skiplistmap.SampleItemFromListHead(s.PtrListHead()) == s, "an item is recovered from its list element")
	_ = (*elist_head.ListHead)(nil)
	n := skiplistmap.NilMapEntry()
	vh.Assert(n != nil, "NilMapEntry is an entry")
	vh.Reach("end")
}

// Capacity checks how pools grow.
func Capacity() {
	x := vh.Int("len", 0, 1<<40)
	c := skiplistmap.PoolCap(x)
	vh.Assert(c > x, "a pool grows")
	vh.Assert(x < 2 || x >= 256 || c <= 2*x, "a small pool at most doubles")
	vh.Assert(x < 2 || x >= 256 || c&(c-1) == 0, "the capacity of a small pool is a power of two")
	vh.Assert(x < 256 || c-x <= 64 && c%64 == 0, "a large pool grows by up to 64 items")
	vh.Reach("end")
}

// CapacityMono compares two sizes.
func CapacityMono() {
	x := vh.Int("x", 0, 1<<20)
	y := vh.Int("y", 0, 1<<20)
	vh.Assume(x <= y)
	vh.Assert(skiplistmap.PoolCap(x) <= skiplistmap.PoolCap(y), "a larger pool does not get a smaller capacity")
	vh.Reach("end")
}

// AtomicInt checks the helpers for atomic ints.
func AtomicInt() {
	a, b, c := int(vh.U64("a")), int(vh.U64("b")), int(vh.U64("c"))
	g := [3]int{11, a, 13}
	p := &g[1]
	vh.Assert(atomic_util.LoadInt(p) == a, "LoadInt reads the whole int")
	ok := atomic_util.CompareAndSwapInt(p, b, c)
	vh.Assert(ok == (a == b), "CompareAndSwapInt compares the whole int")
	want := a
	if ok {
		want = c
	}
	vh.Assert(g[1] == want && atomic_util.LoadInt(p) == want, "CompareAndSwapInt swaps exactly on success")
	atomic_util.StoreInt(p, b)
	vh.Assert(g[1] == b && g[0] == 11 && g[2] == 13, "StoreInt writes the whole int and nothing else")
	vh.Reach("end")
}

// Errors checks the error type.
func Errors() {
	t := skiplistmap.ErrType(vh.U64("type"))
	e := skiplistmap.NewError(t, "m", nil)
	vh.Assert(e.ErrorNum() == uint16(t) && e.Type == t, "an error keeps its type")
	o := skiplistmap.NewError(t, "o", e)
	vh.Assert(o.ErrorNum() == uint16(t), "an error keeps its type")
	_ = o.Error()
	_ = e.Error()
	vh.Reach("end")
}

// SetKey passes keys of all supported types to Set.
func SetKey() {
	w := newWorld()
	keys := [8]interface{}{"k", uint64(1), int(2), int32(3), uint32(4), int64(5), byte(6), []byte("seven")}
	k := keys[vh.Choice("type", len(keys))]
	vh.Assert(w.m.Set(k, 1), "Set returns true")
	v, ok := w.m.Get(k)
	x, _ := v.(int)
	vh.Assert(ok && x == 1, "Get finds what Set stored")
	vh.Reach("end")
}
