package h

import (
	"math/bits"

	skiplistmap "github.com/kazu/skiplistmap"
	"verifharness/vh"
)

// TogglePool switches the item pool on and off between operations.
func TogglePool() {
	w := newWorld()
	toggled(w)
	vh.RunGC()
	w.audit(auditGet | auditRange | auditLen)
	w.steps(vh.Param("after", 1), opSet|opDelete)
	w.audit(auditGet | auditRange | auditLen)
	vh.Reach("end")
}

//go:noinline
func toggled(w *world) {
	back := w.m.Options(skiplistmap.UsePool(vh.Choice("first", 2) == 0))
	w.set(0)
	switch vh.Choice("second", 3) {
	case 0:
		w.m.Options(back...)
	case 1:
		w.m.Options(skiplistmap.UsePool(false))
	case 2:
		w.m.Options(skiplistmap.UsePool(true))
	}
	for i := 1; i < w.n; i++ {
		w.set(i)
	}
}

// Restore applies options to a new map, then what they returned, and checks
// that the map works as configured before.
func Restore() {
	w := newWorld()
	var back []skiplistmap.OptHMap
	switch vh.Param("opt", 0) {
	case 0:
		back = w.m.Options(skiplistmap.MaxPefBucket(1))
	case 1:
		back = w.m.Options(skiplistmap.BucketMode(skiplistmap.CombineSearch2))
	case 2:
		back = w.m.Options(skiplistmap.UsePool(true))
	case 3:
		back = w.m.Options(skiplistmap.UsePool(false))
	case 4:
		back = w.m.Options(skiplistmap.MaxPefBucket(2), skiplistmap.BucketMode(skiplistmap.CombineSearch))
	case 5:
		back = w.m.Options(skiplistmap.ItemFn(func() skiplistmap.MapItem { return skiplistmap.EmptySampleHMapEntry }))
	}
	// the options returned restore, and what they return applies again
	again := w.m.Options(back...)
	vh.Assert(len(again) == len(back), "an option returns the option that restores")
	switch vh.Choice("third", 2) {
	case 1:
		w.m.Options(w.m.Options(again...)...)
	}
	for i := 0; i < w.n; i++ {
		w.set(i)
	}
	w.steps(vh.Param("steps", 1), opSet|opDelete)
	w.audit(auditGet | auditRange | auditLen)
	vh.Reach("end")
}

// Undo switches a new map to the embedded pool and back.
func Undo() {
	n := vh.Param("keys", 2)
	hs, cs := setupKeys(n, vh.Param("region", 0), nil)
	m := skiplistmap.New(skiplistmap.MaxPefBucket(vh.Param("max", 32)))
	first := skiplistmap.UseEmbeddedPool(true)
	if vh.Choice("opt", 2) == 1 {
		first = skiplistmap.UsePool(true)
	}
	back := m.Options(first)
	m.Options(back...)
	w := &world{m: m, n: n, next: 1, key: keyNames[:n], hash: hs, conf: cs}
	w.live, w.val = make([]bool, n), make([]int, n)
	for i := 0; i < n; i++ {
		w.set(i)
	}
	w.steps(vh.Param("steps", 1), opSet|opDelete)
	w.audit(auditGet | auditRange | auditLen)
	// a plain map again: items keep their place
	it, ok := m.LoadItem(w.key[0])
	if ok {
		it2, ok2 := m.LoadItem(w.key[0])
		vh.Assert(ok2 && it == it2, "a key keeps its item")
	}
	vh.Reach("end")
}

// Slots takes slots out of the embedded pool with the bucket functions.
func Slots() {
	n := vh.Param("keys", 2)
	m := newMap(embedded, vh.Param("max", 4))
	rs := make([]uint64, n)
	items := make([]*skiplistmap.SampleItem, n)
	for i := range rs {
		rs[i] = vh.U64("reverse")
		vh.Assume(rs[i] != ^uint64(0))
		if vh.Param("region", 0) == 3 {
			vh.Assume(rs[i]>>60 == uint64(vh.Param("top", 1)))
		}
		for j := 0; j < i; j++ {
			vh.Assume(rs[i] != rs[j])
		}
	}
	for i, r := range rs {
		b := m.FindBucket(r)
		item, pool, fn := b.GetItem(r)
		if pool != nil {
			b.SetItemPool(pool)
		}
		s, ok := item.(*skiplistmap.SampleItem)
		vh.Assert(ok && s != nil, "GetItem returns a slot")
		s.K = keyNames[i]
		vh.SetHash(s.K, bits.Reverse64(r), uint64(i))
		s.Setup()
		s.SetValue(i)
		vh.Assert(m.TestSet(bits.Reverse64(r), uint64(i), b, s), "TestSet returns true")
		if fn != nil {
			b.RunLazyUnlocker(fn)
		}
		items[i] = s
	}
	for i, r := range rs {
		v, ok := m.GetByHash(bits.Reverse64(r), uint64(i))
		x, _ := v.(int)
		vh.Assert(ok && x == i, "an item put into its slot is found")
	}
	last := uint64(0)
	cnt := 0
	m.RangeItem(func(it skiplistmap.MapItem) bool {
		r := bits.Reverse64(it.PtrMapHead().KeyInHmap())
		vh.Assert(cnt == 0 || r > last, "slots are in reversed-hash order")
		last = r
		cnt++
		return cnt <= n
	})
	vh.Assert(cnt == n, "every slot taken is in the map once")
	vh.Assert(m.Len() == n, "Len is the number of slots taken")
	vh.Reach("end")
}

// lines counts what is written to it.
type lines struct{ n int }

func (l *lines) Write(p []byte) (int, error) {
	for _, c := range p {
		if c == '\n' {
			l.n++
		}
	}
	return len(p), nil
}

// shape is the number of buckets of a map and the elements a lookup passes.
func shape(m *skiplistmap.Map, keys []string) (buckets, passed int) {
	l := &lines{}
	m.DumpBucket(l)
	skiplistmap.EnableStats = true
	skiplistmap.ResetStats()
	for _, k := range keys {
		m.Get(k)
	}
	skiplistmap.EnableStats = false
	for _, n := range skiplistmap.DebugStats {
		passed += n
	}
	return l.n, passed
}

// Twin compares a map whose option was changed and restored with a map that
// never had it: both hold the same keys in the same shape.
func Twin() {
	n := vh.Param("keys", 2)
	hs, cs := setupKeys(n, vh.Param("region", 0), nil)
	mode, max := vh.Param("mode", plain), vh.Param("max", 32)
	a := &world{m: newMap(mode, max), n: n, next: 1, key: keyNames[:n], hash: hs, conf: cs}
	b := &world{m: newMap(mode, max), n: n, next: 1, key: keyNames[:n], hash: hs, conf: cs}
	for _, w := range []*world{a, b} {
		w.live, w.val = make([]bool, n), make([]int, n)
	}
	kind := vh.Param("opt", 0)
	opt := func() skiplistmap.OptHMap {
		switch kind {
		case 0:
			return skiplistmap.MaxPefBucket(1 + vh.Choice("size", 3))
		case 1:
			modes := [7]skiplistmap.SearchMode{
				skiplistmap.LenearSearchForBucket, skiplistmap.NestedSearchForBucket, skiplistmap.CombineSearch,
				skiplistmap.CombineSearch2, skiplistmap.CombineSearch3, skiplistmap.CombineSearch4, skiplistmap.NoItemSearchForBucket}
			return skiplistmap.BucketMode(modes[vh.Choice("mode", len(modes))])
		case 2:
			return skiplistmap.UsePool(vh.Choice("pool", 2) == 0)
		case 3:
			return skiplistmap.UseEmbeddedPool(vh.Choice("pool", 2) == 0)
		}
		return skiplistmap.ItemFn(func() skiplistmap.MapItem { return skiplistmap.EmptySampleHMapEntry })
	}
	back := a.m.Options(opt())
	vh.Assert(len(back) == 1, "Options returns one option per option given")
	again := a.m.Options(back...)
	if vh.Choice("third", 2) == 1 {
		a.m.Options(a.m.Options(again...)...)
	}
	if kind == 4 {
		// without the option the map holds items with numeric keys
		x := vh.U64("number")
		vh.Assert(a.m.StoreItem(skiplistmap.NewEntryMap(x, 7)), "StoreItem returns true")
		it, ok := a.m.LoadItem(x)
		vh.Assert(ok, "LoadItem finds exactly the live numeric keys")
		k, isNum := it.Key().(uint64)
		v, isInt := it.Value().(int)
		vh.Assert(isNum && k == x && isInt && v == 7, "LoadItem returns the item of the numeric key")
		vh.Reach("end")
		return
	}
	for i := 0; i < n; i++ {
		a.set(i)
		b.set(i)
	}
	for s := 0; s < vh.Param("steps", 0); s++ {
		op, i := 1<<uint(vh.Choice("op", 2)), vh.Choice("key", n)
		a.do(op, i)
		b.do(op, i)
	}
	a.audit(auditGet | auditRange | auditLen)
	b.audit(auditGet | auditRange | auditLen)
	ab, ap := shape(a.m, a.key)
	bb, bp := shape(b.m, b.key)
	vh.Assert(ab == bb, "a restored map has as many buckets as one never changed")
	vh.Assert(ap == bp, "a restored map searches like one never changed")
	if mode != embedded {
		ai, aok := a.m.LoadItem(a.key[0])
		bi, bok := b.m.LoadItem(b.key[0])
		vh.Assert(aok == bok, "a restored map holds what one never changed holds")
		if aok {
			a.set(0)
			b.set(0)
			x, _ := ai.Value().(int)
			y, _ := bi.Value().(int)
			vh.Assert(x == y, "a restored map updates like one never changed")
		}
	}
	vh.Reach("end")
}
