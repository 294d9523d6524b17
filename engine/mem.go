package main

import (
	"encoding/binary"
	"fmt"
	"go/types"
	"sort"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

// Address space: every object owns a 1 MiB slot, so an access outside an
// object never lands in another one.
const (
	objShift   = 20
	heapBase   = uint64(0x00c0_0000_0000)
	globalBase = uint64(0x0050_0000_0000_0)
	constBase  = uint64(0x0060_0000_0000_0)
	fnBase     = uint64(0x0040_0000_0000_0)
	regionEnd  = uint64(0x0010_0000_0000_0)
)

type cell struct {
	off  int32
	size uint8
	n    *Node
}

type mapEntry struct {
	k, v Val
	id   uint64
}

type mapData struct {
	kt, vt types.Type
	ents   []mapEntry
	seq    uint64 // id of the last entry
}

type Object struct {
	epoch uint64
	data  []byte
	sym   []cell // sorted by off, non overlapping
	typ   types.Type
	n     int
	ro    bool
	mp    *mapData
	fn    *ssa.Function // closure object
	tag   string
	owner uint8 // goroutine that allocated it
	local bool  // never reachable from another goroutine
}

func (o *Object) clone(ep uint64) *Object {
	c := *o
	c.epoch = ep
	c.data = append([]byte(nil), o.data...)
	if len(o.sym) > 0 {
		c.sym = append([]cell(nil), o.sym...)
	}
	if o.mp != nil {
		m := *o.mp
		m.ents = append([]mapEntry(nil), o.mp.ents...)
		c.mp = &m
	}
	return &c
}

func (o *Object) firstCell(off int) int {
	// first cell with cell end > off
	return sort.Search(len(o.sym), func(i int) bool { return int(o.sym[i].off)+int(o.sym[i].size) > off })
}

func rdConc(d []byte, off int, size uint8) uint64 {
	switch size {
	case 8:
		return binary.LittleEndian.Uint64(d[off:])
	case 4:
		return uint64(binary.LittleEndian.Uint32(d[off:]))
	case 1:
		return uint64(d[off])
	case 2:
		return uint64(binary.LittleEndian.Uint16(d[off:]))
	}
	var v uint64
	for i := int(size) - 1; i >= 0; i-- {
		v = v<<8 | uint64(d[off+i])
	}
	return v
}

func wrConc(d []byte, off int, size uint8, v uint64) {
	switch size {
	case 8:
		binary.LittleEndian.PutUint64(d[off:], v)
	case 4:
		binary.LittleEndian.PutUint32(d[off:], uint32(v))
	case 1:
		d[off] = byte(v)
	case 2:
		binary.LittleEndian.PutUint16(d[off:], uint16(v))
	default:
		for i := 0; i < int(size); i++ {
			d[off+i] = byte(v >> (8 * uint(i)))
		}
	}
}

// ld reads size bytes as a bit-vector of width size*8.
func (o *Object) ld(off int, size uint8) E {
	if len(o.sym) > 0 {
		i := o.firstCell(off)
		if i < len(o.sym) && int(o.sym[i].off) < off+int(size) {
			c := o.sym[i]
			if int(c.off) == off && c.size == size {
				return E{n: c.n}
			}
			var r E
			var rw uint8
			for b := int(size) - 1; b >= 0; b-- {
				r = concat(r, rw, o.ldByte(off+b), 8)
				rw += 8
			}
			return r
		}
	}
	return E{c: rdConc(o.data, off, size)}
}

func (o *Object) ldByte(off int) E {
	i := o.firstCell(off)
	if i < len(o.sym) && int(o.sym[i].off) <= off {
		c := o.sym[i]
		return extract(E{n: c.n}, c.size*8, uint8(off-int(c.off))*8, 8)
	}
	return E{c: uint64(o.data[off])}
}

// clear removes symbolic cells overlapping [off,off+n).
func (o *Object) clear(off, n int) {
	if len(o.sym) == 0 {
		return
	}
	i := o.firstCell(off)
	j := i
	var keep []cell
	for j < len(o.sym) && int(o.sym[j].off) < off+n {
		c := o.sym[j]
		for b := 0; b < int(c.size); b++ {
			p := int(c.off) + b
			if p < off || p >= off+n {
				e := extract(E{n: c.n}, c.size*8, uint8(b)*8, 8)
				if e.n == nil {
					o.data[p] = byte(e.c)
				} else {
					keep = append(keep, cell{int32(p), 1, e.n})
				}
			}
		}
		j++
	}
	if i == j {
		return
	}
	ns := make([]cell, 0, len(o.sym)-(j-i)+len(keep))
	ns = append(ns, o.sym[:i]...)
	ns = append(ns, keep...)
	ns = append(ns, o.sym[j:]...)
	o.sym = ns
}

func (o *Object) st(off int, size uint8, e E) {
	if e.n == nil {
		if len(o.sym) > 0 {
			o.clear(off, int(size))
		}
		wrConc(o.data, off, size, e.c)
		return
	}
	if i := o.firstCell(off); i < len(o.sym) && int(o.sym[i].off) == off && o.sym[i].size == size {
		o.sym[i].n = e.n
		return
	}
	o.clear(off, int(size))
	i := o.firstCell(off)
	o.sym = append(o.sym, cell{})
	copy(o.sym[i+1:], o.sym[i:])
	o.sym[i] = cell{int32(off), size, e.n}
}

// ---- state memory

func (st *State) alloc(t types.Type, n int) uint64 {
	sz := int(sizes.Sizeof(t)) * n
	return st.allocBytes(sz, t, n)
}

func (st *State) allocBytes(sz int, t types.Type, n int) uint64 {
	if sz == 0 {
		sz = 1
	}
	if sz > 1<<objShift {
		panic(pathEnd{kind: endUnsupported, msg: "allocation larger than 1 MiB"})
	}
	o := &Object{epoch: st.epoch, data: make([]byte, sz), typ: t, n: n, owner: uint8(st.cur)}
	st.objs = append(st.objs, o)
	return heapBase + uint64(len(st.objs)-1)<<objShift
}

// obj resolves an address for reading.
func (st *State) obj(a uint64) (*Object, int) {
	off := int(a & (1<<objShift - 1))
	switch {
	case a >= heapBase && a < heapBase+uint64(len(st.objs))<<objShift:
		return st.objs[(a-heapBase)>>objShift], off
	case a >= globalBase && a < globalBase+regionEnd:
		return st.global(int((a - globalBase) >> objShift)), off
	case a >= constBase && a < constBase+regionEnd:
		i := int((a - constBase) >> objShift)
		cstrs.mu.RLock()
		defer cstrs.mu.RUnlock()
		if i < len(cstrs.obj) {
			return cstrs.obj[i], off
		}
	}
	return nil, 0
}

func (st *State) global(i int) *Object {
	for len(st.globs) <= i {
		st.globs = append(st.globs, nil)
	}
	if st.globs[i] == nil {
		g := globalByIdx(i)
		t := under(g.Type()).(*types.Pointer).Elem()
		sz := int(sizes.Sizeof(t))
		if sz == 0 {
			sz = 1
		}
		st.globs[i] = &Object{epoch: st.epoch, data: make([]byte, sz), typ: t, n: 1, tag: g.String()}
	}
	return st.globs[i]
}

func (st *State) wobj(a uint64) (*Object, int) {
	off := int(a & (1<<objShift - 1))
	switch {
	case a >= heapBase && a < heapBase+uint64(len(st.objs))<<objShift:
		i := (a - heapBase) >> objShift
		o := st.objs[i]
		if o.epoch != st.epoch {
			o = o.clone(st.epoch)
			st.objs[i] = o
		}
		return o, off
	case a >= globalBase && a < globalBase+regionEnd:
		i := int((a - globalBase) >> objShift)
		o := st.global(i)
		if o.epoch != st.epoch {
			o = o.clone(st.epoch)
			st.globs[i] = o
		}
		return o, off
	}
	return nil, 0
}

// read returns size bytes at a; faults end up as Go panics or memory faults.
func (st *State) read(a uint64, size uint8) E {
	if st.dom != nil {
		st.note(a, int(size), false)
	}
	o, off := st.obj(a)
	if o == nil || off+int(size) > len(o.data) {
		return st.oobRead(a, size, o, off)
	}
	return o.ld(off, size)
}

// oobRead models a read just outside an object (the code under test forms
// container pointers to list terminators): the value is arbitrary.
func (st *State) oobRead(a uint64, size uint8, o *Object, off int) E {
	if a < 1<<16 || int64(a) < 0 && int64(a) > -(1<<16) {
		panic(faultPanic{nilDeref})
	}
	near := o != nil && off < len(o.data)+256
	if !near {
		if o2, _ := st.obj(a + 256); o2 != nil && (a+256)>>objShift != a>>objShift {
			near = true
		}
	}
	if !near {
		st.fault(a, "read", o, off)
	}
	atomic.AddInt64(&st.w.ex.oob, 1)
	st.opaqueCnt++
	return E{n: mkVar(fmt.Sprintf("oob#%d", st.opaqueCnt), size*8)}
}

func (st *State) write(a uint64, size uint8, e E) {
	if st.dom != nil {
		st.note(a, int(size), true)
	}
	o, off := st.wobj(a)
	if o == nil || off+int(size) > len(o.data) {
		st.fault(a, "write", o, off)
	}
	o.st(off, size, e)
}

func (st *State) loadLeaf(a uint64, l leaf) E {
	e := st.read(a+uint64(l.off), l.size)
	if l.kind == lkBool {
		return b8ToBool(e)
	}
	return e
}

func b8ToBool(e E) E {
	if e.n == nil {
		return concB(e.c != 0)
	}
	return bnot(cmp(OEq, 8, e, E{}))
}

func boolToB8(e E) E {
	if e.n == nil {
		return e
	}
	return ite(e, E{c: 1}, E{c: 0}, 8)
}

func (st *State) storeLeaf(a uint64, l leaf, e E) {
	if l.kind == lkBool {
		e = boolToB8(e)
	}
	st.write(a+uint64(l.off), l.size, e)
}

func (st *State) load(a uint64, ly *layout) Val {
	if ly.scalar {
		return Val{e: st.loadLeaf(a, ly.leaves[0])}
	}
	if len(ly.leaves) == 0 {
		return ly.zero
	}
	if st.dom != nil {
		st.note(a, ly.size, false)
	}
	agg := make([]E, len(ly.leaves))
	o, off := st.obj(a)
	inside := o != nil && off+ly.size <= len(o.data)
	for i, l := range ly.leaves {
		var e E
		if inside {
			e = o.ld(off+l.off, l.size)
		} else {
			e = st.read(a+uint64(l.off), l.size)
		}
		if l.kind == lkBool {
			e = b8ToBool(e)
		}
		agg[i] = e
	}
	return Val{agg: agg}
}

func (st *State) store(a uint64, ly *layout, v Val) {
	if ly.scalar {
		st.storeLeaf(a, ly.leaves[0], v.e)
		return
	}
	if len(ly.leaves) == 0 {
		return
	}
	if st.dom != nil {
		st.note(a, ly.size, true)
	}
	o, off := st.wobj(a)
	if o == nil || off+ly.size > len(o.data) {
		st.fault(a, "write", o, off)
	}
	for i, l := range ly.leaves {
		e := v.agg[i]
		if l.kind == lkBool {
			e = boolToB8(e)
		}
		o.st(off+l.off, l.size, e)
	}
}

func (st *State) memmove(dst, src uint64, n int) {
	if n == 0 {
		return
	}
	if st.dom != nil {
		st.note(src, n, false)
		st.note(dst, n, true)
	}
	so, soff := st.obj(src)
	if so == nil || soff+n > len(so.data) {
		st.fault(src, "read", so, soff)
	}
	buf := append([]byte(nil), so.data[soff:soff+n]...)
	var cells []cell
	if len(so.sym) > 0 {
		for i := so.firstCell(soff); i < len(so.sym) && int(so.sym[i].off) < soff+n; i++ {
			c := so.sym[i]
			if int(c.off) >= soff && int(c.off)+int(c.size) <= soff+n {
				cells = append(cells, cell{c.off - int32(soff), c.size, c.n})
				continue
			}
			for b := 0; b < int(c.size); b++ {
				p := int(c.off) + b
				if p >= soff && p < soff+n {
					e := extract(E{n: c.n}, c.size*8, uint8(b)*8, 8)
					if e.n == nil {
						buf[p-soff] = byte(e.c)
					} else {
						cells = append(cells, cell{int32(p - soff), 1, e.n})
					}
				}
			}
		}
	}
	do, doff := st.wobj(dst)
	if do == nil || doff+n > len(do.data) {
		st.fault(dst, "write", do, doff)
	}
	do.clear(doff, n)
	copy(do.data[doff:], buf)
	for _, c := range cells {
		do.st(doff+int(c.off), c.size, E{n: c.n})
	}
}

// bytesAt reads n concrete bytes (ok=false when any byte is symbolic).
func (st *State) bytesAt(a uint64, n int) ([]byte, bool) {
	if n == 0 {
		return nil, true
	}
	o, off := st.obj(a)
	if o == nil || off+n > len(o.data) {
		st.fault(a, "read", o, off)
	}
	if len(o.sym) > 0 {
		if i := o.firstCell(off); i < len(o.sym) && int(o.sym[i].off) < off+n {
			return nil, false
		}
	}
	return o.data[off : off+n], true
}

func (st *State) goString(v Val) string {
	p := st.concretize(v.agg[0], 64)
	n := st.concretize(v.agg[1], 64)
	b, ok := st.bytesAt(p, int(n))
	if !ok {
		out := make([]byte, n)
		for i := range out {
			out[i] = byte(st.concretize(st.read(p+uint64(i), 1), 8))
		}
		return string(out)
	}
	return string(b)
}

func (st *State) newStr(s string) Val {
	return strVal(s)
}
