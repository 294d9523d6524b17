package h

import (
	"math/bits"

	skiplistmap "github.com/kazu/skiplistmap"
	"verifharness/vh"
)

// storage modes
const (
	plain = iota
	pooled
	embedded
)

var keyNames = []string{"a", "b", "c", "d", "e", "f", "g", "h"}

// world is a map under test with the reference it is compared to: what a
// plain Go map would hold.  The first n keys have arbitrary hashes, the rest
// are filler with fixed ones.
type world struct {
	m    *skiplistmap.Map
	n    int
	key  []string
	hash []uint64
	conf []uint64
	live []bool
	val  []int
	next int
	coll bool
}

// newWorld builds the map the parameters describe: mode, max, bmode (search
// mode + 1), fill (number of filler keys), keys, region.
func newWorld() *world {
	n := vh.Param("keys", 2)
	m := newMap(vh.Param("mode", plain), vh.Param("max", 32))
	if b := vh.Param("bmode", 0); b > 0 {
		m.Options(skiplistmap.BucketMode(skiplistmap.SearchMode(b - 1)))
	}
	w := &world{m: m, n: n, next: 1, coll: vh.Param("collide", 0) != 0}
	w.fill(vh.Param("fill", 0))
	hs, cs := setupKeys(n, vh.Param("region", 0), w.hash)
	w.key = append(append([]string{}, keyNames[:n]...), w.key...)
	w.hash = append(hs, w.hash...)
	w.conf = append(cs, w.conf...)
	w.live = append(make([]bool, n), w.live...)
	w.val = append(make([]int, n), w.val...)
	return w
}

// fill stores filler keys: spread over all regions, or with the parameter
// ftop >= 0 inside that top-level region; fsort orders them by hash.
func (w *world) fill(n int) {
	ftop := vh.Param("ftop", -1)
	for i := 0; i < n; i++ {
		x := uint64(i+1) * 0x9e3779b97f4a7c15
		if vh.Param("fsort", 0) != 0 {
			x = uint64(i+1) << uint(vh.Param("fsort", 48))
		}
		if ftop >= 0 {
			d := uint(4 * vh.Param("deep", 1))
			x = prefix(ftop, d) | x>>d
		}
		k := "f" + string(rune('A'+i/26)) + string(rune('a'+i%26))
		vh.SetHash(k, bits.Reverse64(x), x^0x5555)
		w.key = append(w.key, k)
		w.hash = append(w.hash, bits.Reverse64(x))
		w.conf = append(w.conf, x^0x5555)
		w.live = append(w.live, false)
		w.val = append(w.val, 0)
		w.set(i)
	}
}

func (w *world) set(i int) {
	ok := w.m.Set(w.key[i], w.next)
	vh.Assert(ok, "Set returns true")
	w.live[i], w.val[i] = true, w.next
	w.next++
}

func (w *world) del(i int) {
	ok := w.m.Delete(w.key[i])
	vh.Assert(ok == w.live[i], "Delete reports whether the key was there")
	w.live[i] = false
}

func (w *world) purge(i int) {
	ok := w.m.Purge(w.key[i])
	vh.Assert(ok == w.live[i], "Purge reports whether the key was there")
	w.live[i] = false
}

func (w *world) get(i int) {
	v, ok := w.m.Get(w.key[i])
	vh.Assert(ok == w.live[i], "Get finds exactly the live keys")
	if ok {
		n, isInt := v.(int)
		vh.Assert(isInt && n == w.val[i], "Get returns the last value set")
	} else {
		vh.Assert(v == nil, "Get returns nil for a missing key")
	}
}

// viaItem updates a live key through the item LoadItem returns.
func (w *world) viaItem(i int) {
	it, ok := w.m.LoadItem(w.key[i])
	vh.Assert(ok == w.live[i], "LoadItem finds exactly the live keys")
	if !ok {
		return
	}
	k, _ := it.Key().(string)
	vh.Assert(k == w.key[i], "LoadItem returns the item of the key")
	vh.Assert(it.SetValue(w.next), "SetValue of a loaded item succeeds")
	w.val[i] = w.next
	w.next++
}

func (w *world) count() (c int) {
	for _, l := range w.live {
		if l {
			c++
		}
	}
	return
}

// ops is a set of operation kinds.
const (
	opSet = 1 << iota
	opDelete
	opPurge
	opGet
	opItem
)

// steps runs arbitrary operations of the allowed kinds on arbitrary keys (of
// the arbitrary ones).
func (w *world) steps(n, ops int) {
	var kinds [8]int
	nk := 0
	for b := 0; b < 5; b++ {
		if ops&(1<<uint(b)) != 0 {
			kinds[nk] = 1 << uint(b)
			nk++
		}
	}
	for s := 0; s < n; s++ {
		w.do(kinds[vh.Choice("op", nk)], vh.Choice("key", w.n))
	}
}

func (w *world) do(op, i int) {
	switch op {
	case opSet:
		w.set(i)
	case opDelete:
		w.del(i)
	case opPurge:
		w.purge(i)
	case opGet:
		w.get(i)
	case opItem:
		w.viaItem(i)
	}
}

// audits
const (
	auditGet   = 1
	auditRange = 2
	auditLen   = 4
	auditHash  = 8
)

func (w *world) audit(what int) {
	if what&auditGet != 0 {
		for i := range w.key {
			w.get(i)
		}
	}
	if what&auditHash != 0 {
		for i := range w.key {
			v, ok := w.m.GetByHash(w.hash[i], w.conf[i])
			vh.Assert(ok == w.live[i], "GetByHash finds exactly the live keys")
			n, _ := v.(int)
			vh.Assert(!ok || n == w.val[i], "GetByHash returns the last value set")
		}
	}
	if what&auditRange != 0 {
		w.auditRange()
	}
	if what&auditLen != 0 {
		vh.Assert(w.m.Len() == w.count(), "Len is the number of live keys")
	}
}

func (w *world) index(k string) int {
	for i := range w.key {
		if w.key[i] == k {
			return i
		}
	}
	return -1
}

func (w *world) auditRange() {
	seen := make([]int, len(w.key))
	first := true
	last := uint64(0)
	total := 0
	w.m.RangeItem(func(it skiplistmap.MapItem) bool {
		k, _ := it.Key().(string)
		at := w.index(k)
		vh.Assert(at >= 0, "RangeItem visits only stored keys")
		seen[at]++
		total++
		vh.Assert(total <= len(w.key), "RangeItem visits every key once")
		rv := bits.Reverse64(w.hash[at])
		vh.Assert(first || last < rv || last == rv && w.coll, "RangeItem goes in reversed-hash order")
		v, isInt := unmixed(it.Value())
		vh.Assert(isInt && v == w.val[at], "RangeItem shows current values")
		first, last = false, rv
		return true
	})
	for i := range w.key {
		want := 0
		if w.live[i] {
			want = 1
		}
		vh.Assert(seen[i] == want, "RangeItem visits exactly the live keys")
	}
}

func newMap(mode, max int) *skiplistmap.Map {
	switch mode {
	case pooled:
		// pools served by goroutines
		skiplistmap.UseGoroutineInPool = vh.Param("served", 0) != 0
		return skiplistmap.New(skiplistmap.MaxPefBucket(max), skiplistmap.UsePool(true), skiplistmap.BucketMode(skiplistmap.CombineSearch4))
	case embedded:
		return skiplistmap.New(skiplistmap.MaxPefBucket(max), skiplistmap.UseEmbeddedPool(true), skiplistmap.BucketMode(skiplistmap.CombineSearch3))
	}
	return skiplistmap.New(skiplistmap.MaxPefBucket(max))
}

// prefix is d bits of the hex digit t, repeated.
func prefix(t int, d uint) (x uint64) {
	for b := uint(0); b < d; b += 4 {
		x = x>>4 | uint64(t)<<60
	}
	return
}

// setupKeys gives the first n keys arbitrary 64-bit hashes: pairwise distinct
// ones, or with the parameter collide at least distinct pairs of hashes.
// region narrows where they may fall in hash order:
//
//	0  anywhere
//	1  all keys in one of the 16 top-level regions (which one is arbitrary)
//	2  each key in the first, second or last region
//	3  all keys share the first deep hex digits (in hash order): digit top;
//	   the last pin keys have fixed hashes
func setupKeys(n, region int, used []uint64) ([]uint64, []uint64) {
	hs, cs := make([]uint64, n), make([]uint64, n)
	collide := vh.Param("collide", 0) != 0
	for i := range hs {
		hs[i] = vh.U64("hash." + keyNames[i])
		conf := vh.U64("conf." + keyNames[i])
		for j := 0; j < i; j++ {
			if collide {
				vh.Assume(hs[i] != hs[j] || conf != cs[j])
			} else {
				vh.Assume(hs[i] != hs[j])
			}
		}
		for _, u := range used {
			vh.Assume(hs[i] != u)
		}
		cs[i] = conf
		top := bits.Reverse64(hs[i]) >> 60
		switch region {
		case 1:
			vh.Assume(top == bits.Reverse64(hs[0])>>60)
		case 2:
			vh.Assume(top == 0 || top == 1 || top == 15)
		case 3:
			d := uint(4 * vh.Param("deep", 1))
			t := vh.Param("top", 6)
			vh.Assume(bits.Reverse64(hs[i])>>(64-d) == prefix(t, d)>>(64-d))
			if i >= n-vh.Param("pin", 0) {
				hs[i] = bits.Reverse64(prefix(t, d) | uint64(i+1)*0x9e3779b97f4a7c15>>d)
				for j := 0; j < i; j++ {
					vh.Assume(hs[i] != hs[j])
				}
			}
		}
		vh.SetHash(keyNames[i], hs[i], conf)
	}
	return hs, cs
}
