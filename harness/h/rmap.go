package h

import (
	"github.com/kazu/skiplistmap/rmap"
	"verifharness/vh"
)

// RMap drives the read-mostly map through an arbitrary history.
func RMap() {
	n := vh.Param("keys", 2)
	hs, cs := setupKeys(n, vh.Param("region", 0), nil)
	_, _ = hs, cs
	m := rmap.New()
	w := &world{n: n, next: 1, key: keyNames[:n], hash: hs, conf: cs}
	w.live = make([]bool, n)
	w.val = make([]int, n)
	set := func(i int) {
		vh.Assert(m.Set(w.key[i], w.next), "RMap.Set returns true")
		w.live[i], w.val[i] = true, w.next
		w.next++
	}
	get := func(i int) {
		v, ok := m.Get(w.key[i])
		vh.Assert(ok == w.live[i], "RMap.Get finds exactly the live keys")
		if ok {
			x, isInt := v.(int)
			vh.Assert(isInt && x == w.val[i], "RMap.Get returns the last value set")
		} else {
			vh.Assert(v == nil, "RMap.Get returns nil for a missing key")
		}
	}
	for i := 0; i < vh.Param("pre", 0); i++ {
		set(i)
	}
	ops := vh.Param("ops", 3)
	for s := 0; s < vh.Param("steps", 3); s++ {
		i := vh.Choice("key", n)
		switch vh.Choice("op", ops) {
		case 0:
			set(i)
		case 1:
			get(i)
		case 2:
			ok := m.Delete(w.key[i])
			vh.Assert(ok == w.live[i], "RMap.Delete reports whether the key was there")
			w.live[i] = false
		}
		if vh.Param("len", 1) != 0 {
			vh.Assert(m.Len() == w.count(), "RMap.Len is the number of live keys")
		}
	}
	for k := 0; k < vh.Param("rounds", 2); k++ {
		for i := 0; i < n; i++ {
			get(i)
		}
	}
	vh.Assert(m.Len() == w.count(), "RMap.Len is the number of live keys")
	vh.Reach("end")
}
