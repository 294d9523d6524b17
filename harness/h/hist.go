package h

import (
	"verifharness/vh"
)

// History drives one map through an arbitrary bounded history of operations
// on keys with arbitrary hashes and compares it with a reference map.
func History() {
	w := newWorld()
	pre := vh.Param("pre", w.n) // keys set up front
	for i := 0; i < pre; i++ {
		w.set(i)
	}
	w.script(vh.Param("script", 1))
	w.steps(vh.Param("steps", 0), vh.Param("ops", opSet|opDelete))
	w.audit(vh.Param("audit", auditGet|auditRange))
	vh.Reach("end")
}

// script runs the operations its hexadecimal digits name, after a leading 1:
// 0-3 set, 8-b delete, c-f purge a key; 4 is any of these on any key.
func (w *world) script(s int) {
	n := 0
	for s>>uint(4*n) > 1 {
		n++
	}
	for n--; n >= 0; n-- {
		d := s >> uint(4*n) & 15
		switch {
		case d < 4:
			w.set(d)
		case d >= 12:
			w.purge(d - 12)
		case d >= 8:
			w.del(d - 8)
		default:
			w.steps(1, opSet|opDelete|opPurge)
		}
	}
}
