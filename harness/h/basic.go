// Package h holds the harnesses: one exported function per property aspect.
package h

import (
	skiplistmap "github.com/kazu/skiplistmap"
	"verifharness/vh"
)

func Smoke() {
	m := skiplistmap.New()
	vh.Assert(m.Set("a", 1), "set returns true")
	v, ok := m.Get("a")
	vh.Assert(ok && v.(int) == 1, "get after set")
	vh.Reach("end")
}
