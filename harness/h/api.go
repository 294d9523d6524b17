package h

import (
	"io"
	"math/bits"

	skiplistmap "github.com/kazu/skiplistmap"
	"verifharness/vh"
)

// start builds a world and runs its arbitrary history.
func start() *world {
	w := newWorld()
	pre := vh.Param("pre", w.n)
	for i := 0; i < pre; i++ {
		w.set(i)
	}
	w.steps(vh.Param("steps", 0), vh.Param("ops", opSet|opDelete))
	return w
}

// Lookup asks for an arbitrary pair of hashes after a history.
func Lookup() {
	w := start()
	k, c := vh.U64("query"), vh.U64("querycon")
	at := -1
	for i := range w.key {
		if w.live[i] && w.hash[i] == k && w.conf[i] == c {
			at = i
		}
	}
	check := func(v interface{}, ok bool) {
		vh.Assert(ok == (at >= 0), "a lookup by hash finds exactly the live pairs of hashes")
		if ok {
			n, isInt := v.(int)
			vh.Assert(isInt && n == w.val[at], "a lookup by hash returns the value of its key")
		}
	}
	v, ok := w.m.GetByHash(k, c)
	check(v, ok)
	it, ok := w.m.LoadItemByHash(k, c)
	if ok {
		s, _ := it.Key().(string)
		vh.Assert(at >= 0 && s == w.key[at], "a lookup by hash returns the item of its key")
		check(it.Value(), ok)
		vh.Assert(it.PtrMapHead().KeyInHmap() == k && it.PtrMapHead().ConflictInHamp() == c, "an item knows its hashes")
	} else {
		check(nil, ok)
	}
	// a key that was never stored
	vh.SetHash("absent", k, c)
	_, ok = w.m.Get("absent")
	vh.Assert(ok == (at >= 0), "Get of a key never stored finds nothing")
	if at < 0 {
		vh.Assert(!w.m.Delete("absent"), "Delete of a missing key returns false")
		vh.Assert(!w.m.Purge("absent"), "Purge of a missing key returns false")
		w.audit(auditGet | auditLen)
	}
	vh.Reach("end")
}

// Traverse walks the items the public ways.
func Traverse() {
	w := start()
	w.audit(auditRange)
	// Range shows what RangeItem shows
	var items []skiplistmap.MapItem
	w.m.RangeItem(func(it skiplistmap.MapItem) bool {
		items = append(items, it)
		return true
	})
	at := 0
	w.m.Range(func(k, v interface{}) bool {
		vh.Assert(at < len(items), "Range visits what RangeItem visits")
		a, _ := items[at].Key().(string)
		b, _ := k.(string)
		x, _ := items[at].Value().(int)
		y, _ := v.(int)
		vh.Assert(a == b && x == y, "Range visits what RangeItem visits")
		at++
		return true
	})
	vh.Assert(at == len(items), "Range visits what RangeItem visits")
	// a callback that returns false ends the traversal
	stop := vh.Choice("stop", len(items)+1)
	calls := 0
	w.m.Range(func(k, v interface{}) bool {
		calls++
		return calls <= stop
	})
	want := stop + 1
	if want > len(items) {
		want = len(items)
	}
	vh.Assert(calls == want, "Range stops when the callback returns false")
	// the chain of items from First to Last holds the live ones in order
	at = 0
	n := 0
	last := w.m.Last().PtrMapHead()
	vh.Assert(last.KeyInHmap() == ^uint64(0), "Last is the end of the map")
	prev := uint64(0)
	e := w.m.First()
	vh.Assert(e.PtrMapHead().PrevtWithNil() == nil, "nothing is before First")
	vh.Assert(last.NextWithNil() == nil, "nothing is behind Last")
	for {
		h := e.PtrMapHead()
		rv := bits.Reverse64(h.KeyInHmap())
		vh.Assert(rv >= prev, "the chain from First to Last is in reversed-hash order")
		prev = rv
		if !h.IsIgnored() {
			vh.Assert(at < len(items) && items[at].PtrMapHead() == h, "the chain from First to Last holds the live items")
			at++
		}
		if h == last {
			break
		}
		n++
		vh.Assert(n < 1000, "the chain from First reaches Last")
		nx := e.Next()
		vh.Assert(nx.PtrMapHead() != h, "the chain from First reaches Last")
		vh.Assert(h.NextWithNil() == nx.PtrMapHead(), "NextWithNil is the map head of Next")
		if vh.Param("prev", 1) != 0 {
			vh.Assert(nx.PtrMapHead().PrevtWithNil() == h, "PrevtWithNil is the inverse of NextWithNil")
			vh.Assert(nx.Prev().PtrMapHead() == h, "Prev is the inverse of Next")
		}
		e = nx
	}
	vh.Assert(at == len(items), "the chain from First to Last holds the live items")
	vh.Reach("end")
}

// InPlace keeps an item while the map changes around it.
func InPlace() {
	w := newWorld()
	w.set(0)
	it, ok := w.m.LoadItem(w.key[0])
	vh.Assert(ok, "LoadItem finds a stored key")
	for i := 1; i < w.n; i++ {
		w.set(i)
	}
	// operations on the other keys
	for s := 0; s < vh.Param("steps", 1); s++ {
		op := vh.Choice("op", 2)
		i := 1 + vh.Choice("key", w.n-1)
		w.do(1<<uint(op), i)
	}
	before := w.m.Len()
	switch vh.Choice("update", 2) {
	case 0:
		w.set(0)
		n, _ := it.Value().(int)
		vh.Assert(n == w.val[0], "a loaded item shows later updates of its key")
	case 1:
		vh.Assert(it.SetValue(w.next), "SetValue succeeds")
		w.val[0] = w.next
		w.next++
	}
	vh.Assert(w.m.Len() == before, "an update does not add a key")
	again, ok := w.m.LoadItem(w.key[0])
	vh.Assert(ok && again == it, "a key keeps its item")
	w.audit(auditGet | auditRange | auditLen)
	vh.Reach("end")
}

// Reentrant uses the map from inside a traversal.
func Reentrant() {
	w := start()
	op := vh.Choice("cop", 4) // what the callback does at the stop-th item
	target := vh.Choice("ckey", w.n)
	stop := vh.Choice("stop", w.n)
	visited := make([]int, len(w.key))
	calls := 0
	was := append([]bool{}, w.live...)
	var done bool
	w.m.RangeItem(func(it skiplistmap.MapItem) bool {
		k, _ := it.Key().(string)
		i := w.index(k)
		vh.Assert(i >= 0, "a traversal visits only stored keys")
		visited[i]++
		if calls == stop {
			done = true
			switch op {
			case 0:
				w.set(target)
			case 1:
				w.del(target)
			case 2:
				w.get(target)
			case 3:
				n := 0
				w.m.Range(func(k, v interface{}) bool {
					n++
					return true
				})
				vh.Assert(n == w.count(), "a traversal inside a traversal is complete")
			}
		}
		calls++
		vh.Assert(calls <= 2*len(w.key)+2, "a traversal with changes ends")
		return true
	})
	for i := range w.key {
		if was[i] && (i != target || op >= 2) {
			vh.Assert(visited[i] == 1, "a traversal visits untouched keys exactly once")
		}
		vh.Assert(visited[i] <= 1 || i == target && op == 0, "a traversal visits no key twice")
		if !was[i] && !done {
			vh.Assert(visited[i] == 0, "a traversal does not visit missing keys")
		}
	}
	w.audit(auditGet | auditRange | auditLen)
	vh.Reach("end")
}

// Kinds runs a map of text keys next to one of numeric keys.
func Kinds() {
	first := vh.Choice("first", 2)
	var w *world
	var m *skiplistmap.Map
	x := vh.U64("number")
	val := 0
	store := func() {
		val = 500 + val + 1
		vh.Assert(m.StoreItem(skiplistmap.NewEntryMap(x, val)), "StoreItem returns true")
	}
	text := func() {
		w = newWorld()
		w.set(0)
	}
	number := func() {
		m = skiplistmap.New(skiplistmap.MaxPefBucket(vh.Param("max", 32)))
		store()
	}
	if first == 0 {
		text()
		number()
	} else {
		number()
		text()
	}
	for s := 0; s < vh.Param("steps", 1); s++ {
		switch vh.Choice("op", 3) {
		case 0:
			w.set(vh.Choice("key", w.n))
		case 1:
			w.del(vh.Choice("key", w.n))
		case 2:
			store()
		}
	}
	it, ok := m.LoadItem(x)
	vh.Assert(ok, "LoadItem finds exactly the live numeric keys")
	k, isNum := it.Key().(uint64)
	v, isInt := it.Value().(int)
	vh.Assert(isNum && k == x && isInt && v == val, "LoadItem returns the item of the numeric key")
	n := 0
	m.Range(func(key, value interface{}) bool {
		k, isNum := key.(uint64)
		v, isInt := value.(int)
		vh.Assert(isNum && k == x && isInt && v == val, "Range shows the numeric keys")
		n++
		return n < 3
	})
	vh.Assert(n == 1 && m.Len() == 1, "Range shows every numeric key once")
	vh.Assert(m.Delete(x), "Delete reports whether the key was there")
	_, ok = m.Get(x)
	vh.Assert(!ok, "Get finds exactly the live numeric keys")
	w.audit(auditGet | auditRange | auditLen | auditHash)
	vh.Reach("end")
}

// Isolation runs two maps next to each other.
func Isolation() {
	w := newWorld()
	o := &world{m: newMap(vh.Param("mode2", plain), vh.Param("max", 32)), n: w.n, next: 1000,
		key: w.key, hash: w.hash, conf: w.conf, coll: w.coll}
	o.live = make([]bool, len(w.key))
	o.val = make([]int, len(w.key))
	ops := [3]int{opSet, opDelete, opItem}
	w.set(0)
	o.set(0)
	for s := 0; s < vh.Param("steps", 2); s++ {
		t := w
		if vh.Choice("which", 2) != 0 {
			t = o
		}
		t.do(ops[vh.Choice("op", 3)], vh.Choice("key", w.n))
	}
	w.audit(vh.Param("audit", auditGet|auditRange|auditLen))
	o.audit(vh.Param("audit", auditGet|auditRange|auditLen))
	vh.Reach("end")
}

type sink struct{ n int }

func (s *sink) Write(p []byte) (int, error) {
	s.n++
	return len(p), nil
}

var _ io.Writer = (*sink)(nil)

// Dumps inspects the map with the debugging functions between operations.
func Dumps() {
	w := start()
	s := &sink{}
	switch vh.Choice("dump", 3) {
	case 0:
		w.m.DumpBucket(s)
	case 1:
		w.m.DumpBucketPerLevel(s)
	case 2:
		w.m.DumpEntry(s)
	}
	vh.Assert(s.n == 1, "a dump is written to the writer given")
	w.audit(auditGet | auditRange | auditLen)
	w.steps(vh.Param("after", 1), opSet|opDelete)
	w.audit(auditGet | auditRange | auditLen)
	vh.Reach("end")
}

// Stats runs a history with statistics and logging switched on.
func Stats() {
	skiplistmap.EnableStats = true
	skiplistmap.ResetStats()
	skiplistmap.SetLogIO(&sink{})
	w := start()
	w.audit(auditGet | auditRange | auditLen | auditHash)
	skiplistmap.ResetStats()
	w.audit(auditGet)
	vh.Reach("end")
}

// Switch changes the search mode or the bucket size between operations.
func Switch() {
	w := start()
	modes := [7]skiplistmap.SearchMode{
		skiplistmap.LenearSearchForBucket, skiplistmap.NestedSearchForBucket, skiplistmap.CombineSearch,
		skiplistmap.CombineSearch2, skiplistmap.CombineSearch3, skiplistmap.CombineSearch4, skiplistmap.NoItemSearchForBucket}
	var back []skiplistmap.OptHMap
	switch vh.Param("what", 0) {
	case 0:
		back = w.m.Options(skiplistmap.BucketMode(modes[vh.Choice("mode", len(modes))]))
	case 1:
		back = w.m.Options(skiplistmap.MaxPefBucket(1 + vh.Choice("size", 4)))
	}
	w.audit(auditGet | auditRange | auditLen | auditHash)
	w.steps(vh.Param("after", 1), opSet|opDelete)
	w.audit(auditGet | auditRange | auditLen | auditHash)
	if vh.Param("restore", 0) != 0 {
		vh.Assert(len(back) == 1, "Options returns the options that restore the old settings")
		w.m.Options(back...)
		w.steps(vh.Param("after", 1), opSet|opDelete)
		w.audit(auditGet | auditRange | auditLen | auditHash)
	}
	vh.Reach("end")
}
