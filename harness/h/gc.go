package h

import (
	"verifharness/vh"
)

// Collect runs the garbage collector between operations: afterwards the map
// has only what pointers keep alive.
func Collect() {
	w := startCollected()
	vh.RunGC()
	w.audit(auditGet | auditRange | auditLen)
	w.steps(vh.Param("after", 1), opSet|opDelete)
	vh.RunGC()
	w.audit(auditGet | auditRange | auditLen)
	vh.Reach("end")
}

//go:noinline
func startCollected() *world {
	w := newWorld()
	for i := 0; i < vh.Param("pre", w.n); i++ {
		w.set(i)
		if vh.Param("each", 0) != 0 {
			vh.RunGC()
		}
	}
	w.steps(vh.Param("steps", 0), vh.Param("ops", opSet|opDelete|opPurge))
	return w
}
