package h

import (
	skiplistmap "github.com/kazu/skiplistmap"
	"github.com/kazu/skiplistmap/rmap"
	"verifharness/vh"
)

// event is one operation of a concurrent history.
type event struct {
	op   int // opSet...
	key  int
	arg  int // value to set
	ok   bool
	val  int
	t0   int // clock at the call
	t1   int // clock at the return
	bad  bool
	done bool
}

const (
	opRange = 32
	opHash  = 64
	opStore = 128
)

var clock int

func tick() int {
	clock++
	return clock
}

// mixed gives the values of the second goroutine another type.
func mixed(n int) interface{} {
	if n >= 110 && vh.Param("mixed", 0) != 0 {
		return "v" + string(rune(n))
	}
	return n
}

func unmixed(v interface{}) (int, bool) {
	if s, ok := v.(string); ok {
		if len(s) < 2 || s[0] != 'v' {
			return 0, false
		}
		for _, r := range s[1:] {
			return int(r), true
		}
	}
	n, ok := v.(int)
	return n, ok
}

// store inserts an item the caller made.
func (w *world) store(i, arg int) bool {
	if vh.Param("entry", 0) != 0 {
		return w.m.StoreItem(skiplistmap.NewEntryMap(w.key[i], mixed(arg)))
	}
	return w.m.StoreItem(skiplistmap.NewSampleItem(w.key[i], mixed(arg)))
}

// run executes the event against the map; the call and the return are
// scheduling points of the operation itself, never of the bookkeeping.
func (w *world) run(e *event) {
	k := w.key[e.key]
	e.t0 = tick()
	switch e.op {
	case opSet:
		e.ok = w.m.Set(k, mixed(e.arg))
	case opStore:
		e.ok = w.store(e.key, e.arg)
	case opDelete:
		e.ok = w.m.Delete(k)
	case opPurge:
		e.ok = w.m.Purge(k)
	case opGet:
		v, ok := w.m.Get(k)
		e.ok = ok
		if ok {
			n, isInt := unmixed(v)
			e.val, e.bad = n, !isInt
		}
	case opHash:
		v, ok := w.m.GetByHash(w.hash[e.key], w.conf[e.key])
		e.ok = ok
		if ok {
			n, isInt := unmixed(v)
			e.val, e.bad = n, !isInt
		}
	case opItem:
		it, ok := w.m.LoadItem(k)
		e.ok = ok
		if ok {
			key := it.Key()
			kk, _ := key.(string)
			e.bad = kk != k && !(key == nil && vh.Param("entry", 0) != 0)
		}
	case opRange:
		e.ok = true
		w.snapshot(e)
	}
	e.t1 = tick()
	e.done = true
}

// snapshot traverses the map while others change it: keys nobody touches are
// visited exactly once, the others at most once, in order.
func (w *world) snapshot(e *event) {
	seen := make([]int, len(w.key))
	total := 0
	w.m.RangeItem(func(it skiplistmap.MapItem) bool {
		key := it.Key()
		if key == nil && vh.Param("entry", 0) != 0 {
			// deleting an entry clears its key
			total++
			return total <= 3*len(w.key)
		}
		k, _ := key.(string)
		at := w.index(k)
		if at < 0 {
			e.bad = true
			return false
		}
		seen[at]++
		total++
		return total <= 3*len(w.key)
	})
	for i := range w.key {
		// a key that is deleted and set again meanwhile may be met again
		if seen[i] > 1 && !w.again(i) || w.live[i] && seen[i] == 0 && !w.touched(i) {
			e.bad = true
		}
		if surely(e, i, w.live[i], true) && seen[i] == 0 || surely(e, i, w.live[i], false) && seen[i] > 0 {
			e.bad = true
		}
	}
}

var evs []*event

func (w *world) again(i int) bool {
	del, set := false, false
	for _, e := range evs {
		if e.key == i {
			del = del || e.op == opDelete || e.op == opPurge
			set = set || e.op == opSet || e.op == opStore
		}
	}
	return del && set
}

// surely tells whether key i was there (or was not) during the whole of r: an
// operation of that kind had returned before, and no operation of the other
// kind ended after it was called.
func surely(r *event, i int, was, want bool) bool {
	sure := was == want
	for _, e := range evs {
		if e.key == i && e.done && e.t1 < r.t0 && sets(e) == want && touches(e) {
			sure = true
			for _, o := range evs {
				if o.key == i && touches(o) && sets(o) != want && (!o.done || o.t1 > e.t0) {
					sure = false
				}
			}
			if sure {
				return true
			}
		}
	}
	for _, o := range evs {
		if o.key == i && touches(o) && sets(o) != want {
			sure = false
		}
	}
	return sure
}

func sets(e *event) bool {
	return e.op == opSet || e.op == opStore
}

func touches(e *event) bool {
	return sets(e) || e.op == opDelete || e.op == opPurge
}

func (w *world) touched(i int) bool {
	for _, e := range evs {
		if e.key == i && (e.op == opDelete || e.op == opPurge || e.op == opSet || e.op == opStore) {
			return true
		}
	}
	return false
}

// explain looks for an order of the operations that respects real time and
// in which every one of them does what it would do alone, ending in the
// state found afterwards.
func explain(todo []*event, live []bool, val []int, fin []bool, finVal []int) bool {
	n := 0
	for i, e := range todo {
		if e == nil {
			continue
		}
		n++
		first := true
		for _, o := range todo {
			if o != nil && o != e && o.t1 < e.t0 {
				first = false
			}
		}
		if !first {
			continue
		}
		k := e.key
		ol, ov := live[k], val[k]
		fits := true
		switch e.op {
		case opSet, opStore:
			fits = e.ok
			live[k], val[k] = true, e.arg
		case opDelete, opPurge:
			fits = e.ok == ol
			live[k] = false
		case opGet, opHash:
			fits = e.ok == ol && (!ol || e.val == ov)
		case opItem:
			fits = e.ok == ol
		case opRange:
			// Len of a read-mostly map
			c := 0
			for _, l := range live {
				if l {
					c++
				}
			}
			fits = e.val == c
		}
		if fits {
			todo[i] = nil
			r := explain(todo, live, val, fin, finVal)
			todo[i] = e
			if r {
				live[k], val[k] = ol, ov
				return true
			}
		}
		live[k], val[k] = ol, ov
	}
	if n > 0 {
		return false
	}
	for k := range live {
		if live[k] != fin[k] || live[k] && val[k] != finVal[k] {
			return false
		}
	}
	return true
}

// Concurrent runs operations of several goroutines on one map under every
// schedule within the bounds and looks for a sequential explanation.
func Concurrent() {
	w := newWorld()
	pre := vh.Param("pre", w.n)
	for i := 0; i < pre; i++ {
		if vh.Param("entry", 0) != 0 {
			vh.Assert(w.store(i, w.next), "StoreItem returns true")
			w.live[i], w.val[i] = true, w.next
			w.next++
			continue
		}
		w.set(i)
	}
	w.steps(vh.Param("steps", 0), vh.Param("ops", opSet|opDelete))
	w.parallel(w.run)
	for _, e := range evs {
		vh.Assert(e.done, "every operation returns")
		vh.Assert(!e.bad, "a concurrent lookup or traversal shows items of the map")
	}
	fin, finVal := make([]bool, len(w.key)), make([]int, len(w.key))
	for i := range w.key {
		v, ok := w.m.Get(w.key[i])
		fin[i] = ok
		if ok {
			n, isInt := unmixed(v)
			vh.Assert(isInt, "Get returns a value that was set")
			finVal[i] = n
		}
	}
	var todo []*event
	for _, e := range evs {
		if e.op != opRange {
			todo = append(todo, e)
		}
	}
	vh.Assert(explain(todo, w.live, w.val, fin, finVal), "concurrent operations behave as in some sequential order")
	copy(w.live, fin)
	copy(w.val, finVal)
	vh.Assert(w.m.Len() == w.count(), "Len is the number of live keys after concurrent use")
	w.auditRange()
	vh.Reach("end")
}

// parallel picks the operations of every goroutine and runs them under every
// schedule.
func (w *world) parallel(run func(e *event)) {
	nt := vh.Param("threads", 2)
	var lists [4][]*event
	for t := 0; t < nt; t++ {
		n := vh.Param("n"+string(rune('0'+t)), 1)
		kinds := vh.Param("ops"+string(rune('0'+t)), opSet|opDelete|opGet)
		var ks [8]int
		nk := 0
		for b := 0; b < 8; b++ {
			if kinds&(1<<uint(b)) != 0 {
				ks[nk] = 1 << uint(b)
				nk++
			}
		}
		for i := 0; i < n; i++ {
			e := &event{op: ks[vh.Choice("op", nk)], arg: 100 + 10*t + i}
			if e.op != opRange {
				if k := vh.Param("k"+string(rune('0'+t)), -1); k >= 0 {
					e.key = k
				} else {
					e.key = vh.Choice("key", w.n)
				}
			}
			lists[t] = append(lists[t], e)
			evs = append(evs, e)
		}
	}
	vh.MaxPreempt(vh.Param("preempt", 1))
	var fns []func()
	first := 0
	if vh.Param("both", 0) != 0 {
		first = vh.Choice("first", nt)
	}
	for i := 0; i < nt; i++ {
		l := lists[(first+i)%nt]
		fns = append(fns, func() {
			for _, e := range l {
				run(e)
			}
		})
	}
	vh.Par(fns...)
}

// RMapConcurrent does the same with the read-mostly map.
func RMapConcurrent() {
	n := vh.Param("keys", 2)
	hs, cs := setupKeys(n, vh.Param("region", 0), nil)
	m := rmap.New()
	w := &world{n: n, next: 1, key: keyNames[:n], hash: hs, conf: cs}
	w.live = make([]bool, n)
	w.val = make([]int, n)
	for i := 0; i < vh.Param("pre", 0); i++ {
		m.Set(w.key[i], w.next)
		w.live[i], w.val[i] = true, w.next
		w.next++
	}
	for i := 0; i < vh.Param("gets", 0); i++ {
		m.Get(w.key[n-1])
	}
	get := func(i int) (bool, int, bool) {
		v, ok := m.Get(w.key[i])
		if !ok {
			return false, 0, false
		}
		x, isInt := v.(int)
		return true, x, !isInt
	}
	w.parallel(func(e *event) {
		e.t0 = tick()
		switch e.op {
		case opSet:
			e.ok = m.Set(w.key[e.key], e.arg)
		case opDelete:
			e.ok = m.Delete(w.key[e.key])
		case opGet:
			e.ok, e.val, e.bad = get(e.key)
		case opRange:
			e.val = m.Len()
		}
		e.t1 = tick()
		e.done = true
	})
	for _, e := range evs {
		vh.Assert(e.done, "every operation returns")
		vh.Assert(!e.bad, "Get returns a value that was set")
	}
	fin, finVal := make([]bool, n), make([]int, n)
	live := 0
	for i := range fin {
		var bad bool
		fin[i], finVal[i], bad = get(i)
		vh.Assert(!bad, "Get returns a value that was set")
		if fin[i] {
			live++
		}
	}
	vh.Assert(explain(append([]*event(nil), evs...), w.live, w.val, fin, finVal), "concurrent operations behave as in some sequential order")
	vh.Assert(m.Len() == live, "RMap.Len is the number of live keys after concurrent use")
	vh.Reach("end")
}

// Apart runs goroutines on maps of their own: each of them sees its map as if
// it were alone.
func Apart() {
	w := newWorld()
	o := &world{m: newMap(vh.Param("mode2", plain), vh.Param("max", 32)), n: w.n, next: 1000,
		key: w.key, hash: w.hash, conf: w.conf, coll: w.coll}
	o.live = make([]bool, len(w.key))
	o.val = make([]int, len(w.key))
	for i := range w.live {
		if w.live[i] {
			o.set(i)
		}
	}
	for i := 0; i < vh.Param("pre", 0); i++ {
		w.set(i)
		o.set(i)
	}
	var ks [8]int
	var todo [2][]func()
	for t, x := range []*world{w, o} {
		x := x
		nk := 0
		for b := 0; b < 8; b++ {
			if vh.Param("ops"+string(rune('0'+t)), opSet|opDelete|opGet)&(1<<uint(b)) != 0 {
				ks[nk] = 1 << uint(b)
				nk++
			}
		}
		for i := 0; i < vh.Param("n"+string(rune('0'+t)), 1); i++ {
			op, k := ks[vh.Choice("op", nk)], vh.Choice("key", w.n)
			todo[t] = append(todo[t], func() {
				switch op {
				case opRange:
					x.auditRange()
				case opHash:
					x.search(k)
				default:
					x.do(op, k)
				}
			})
		}
	}
	vh.MaxPreempt(vh.Param("preempt", 1))
	run := func(l []func()) func() {
		return func() {
			for _, f := range l {
				f()
			}
		}
	}
	if vh.Param("both", 0) != 0 && vh.Choice("first", 2) != 0 {
		vh.Par(run(todo[1]), run(todo[0]))
	} else {
		vh.Par(run(todo[0]), run(todo[1]))
	}
	for _, x := range []*world{w, o} {
		x.audit(auditGet | auditRange | auditLen)
		for i := 0; i < x.n; i++ {
			x.search(i)
		}
	}
	vh.Reach("end")
}

// search looks a key up with SearchKey.
func (w *world) search(i int) {
	e := w.m.SearchKey(w.hash[i])
	vh.Assert((e != nil) == w.live[i], "SearchKey finds exactly the live keys")
	if e != nil {
		it, ok := e.(skiplistmap.MapItem)
		vh.Assert(ok, "SearchKey finds items")
		k, _ := it.Key().(string)
		vh.Assert(k == w.key[i], "SearchKey returns the item of the key")
	}
}
