package main

import (
	"go/types"
	"os"
	"sync"
	"sync/atomic"
)

// A preemption only matters when what the goroutine does between two
// scheduling points conflicts with what another goroutine does: moving it
// behind a segment that touches nothing another goroutine writes (and writes
// nothing another one touches) leads to the same states.  The alternative
// "preempt here" is therefore held back until a conflict is seen, on
// whichever path that belongs to the same start of the concurrent part, and
// is dropped if there is none when everything else has been explored.

type domain struct {
	mu      sync.Mutex
	base    int // number of objects when the goroutines start
	acc     map[uint64]accMask
	waiting map[uint64][]*cand
	nwait   int
	ex      *Explorer
}

type accMask struct{ r, w uint16 } // goroutines that read, write

// noReduction explores every alternative (to test the reduction itself).
var noReduction = os.Getenv("GOSYM_NORED") != ""

// cand is a held back alternative.
type cand struct {
	st   *State
	tid  int
	keys []access
}

type access struct {
	key uint64
	w   bool
}

var typeClass sync.Map
var typeClassN int64

func classOf(t types.Type) uint64 {
	if t == nil {
		return 0
	}
	if v, ok := typeClass.Load(t); ok {
		return v.(uint64)
	}
	v, _ := typeClass.LoadOrStore(t, uint64(atomic.AddInt64(&typeClassN, 1)))
	return v.(uint64)
}

// key identifies a word of memory: by address if it existed when the
// goroutines started, otherwise by the goroutine that allocated it, its type
// and its place in the type.
func (st *State) accKey(a uint64) (uint64, bool) {
	if a >= heapBase {
		i := int((a - heapBase) >> objShift)
		if i < st.dom.base {
			return a >> 3, true
		}
		if i >= len(st.objs) || st.objs[i] == nil {
			return 0, false
		}
		o := st.objs[i]
		if o.local {
			return 0, false
		}
		off := a & (1<<objShift - 1)
		if o.typ != nil && o.n > 0 && len(o.data) >= o.n {
			off %= uint64(len(o.data) / o.n)
		}
		return 1<<63 | uint64(o.owner)<<56 | classOf(o.typ)<<20 | off>>3, true
	}
	if a >= constBase && a < constBase+regionEnd {
		return 0, false
	}
	return a >> 3, true
}

func (st *State) note(a uint64, n int, w bool) {
	if st.dom == nil || st.noNote {
		return
	}
	for p := a &^ 7; p < a+uint64(n); p += 8 {
		k, ok := st.accKey(p)
		if !ok {
			continue
		}
		dup := false
		lo := len(st.seg) - 16
		if lo < 0 {
			lo = 0
		}
		for _, s := range st.seg[lo:] {
			if s.key == k && s.w == w {
				dup = true
				break
			}
		}
		if !dup {
			st.seg = append(st.seg, access{k, w})
		}
	}
}

// flush ends a segment of the running goroutine.
func (st *State) flush() {
	d := st.dom
	if d == nil {
		return
	}
	c := st.cand
	st.cand = nil
	if len(st.seg) == 0 {
		return
	}
	me := uint16(1) << uint(st.th().id&15)
	d.mu.Lock()
	var out []*State
	hit := false
	for _, s := range st.seg {
		m := d.acc[s.key]
		if m.w&^me != 0 || s.w && m.r&^me != 0 {
			hit = true
		}
		n := m
		if s.w {
			n.w |= me
		} else {
			n.r |= me
		}
		if n != m {
			d.acc[s.key] = n
			if ws := d.waiting[s.key]; len(ws) > 0 {
				keep := ws[:0]
				for _, o := range ws {
					if o.st == nil {
						continue
					}
					om := uint16(1) << uint(o.tid&15)
					rel := false
					for _, k := range o.keys {
						if k.key == s.key && (n.w&^om != 0 || k.w && n.r&^om != 0) {
							rel = true
						}
					}
					if rel {
						out = append(out, o.st)
						o.st = nil
						d.nwait--
					} else {
						keep = append(keep, o)
					}
				}
				d.waiting[s.key] = keep
			}
		}
	}
	if c != nil && c.st != nil {
		if hit || d.nwait > 30000 || noReduction {
			out = append(out, c.st)
			c.st = nil
		} else {
			if len(c.keys) == 0 {
				d.nwait++
			}
			for _, s := range st.seg {
				c.keys = append(c.keys, s)
				d.waiting[s.key] = append(d.waiting[s.key], c)
			}
		}
	}
	d.mu.Unlock()
	st.seg = st.seg[:0:0]
	for _, o := range out {
		atomic.AddInt64(&d.ex.forks, 1)
		d.ex.push(o)
	}
}

// abandon releases the alternative of a segment that was not completed.
func (st *State) abandon() {
	if st.dom == nil {
		return
	}
	c := st.cand
	st.flush()
	if c == nil {
		return
	}
	d := st.dom
	d.mu.Lock()
	s := c.st
	c.st = nil
	d.mu.Unlock()
	if s != nil {
		atomic.AddInt64(&d.ex.forks, 1)
		d.ex.push(s)
	}
}
