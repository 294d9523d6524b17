package main

import "go/types"

// reachability over typed pointers, as Go's garbage collector sees it: an
// unsafe.Pointer or *T keeps its object alive, a uintptr does not.

func appendPtrOffs(out []int, t types.Type, off int) []int {
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Kind() == types.UnsafePointer || u.Info()&types.IsString != 0 {
			out = append(out, off)
		}
	case *types.Pointer, *types.Chan, *types.Map, *types.Signature, *types.Slice:
		out = append(out, off)
	case *types.Interface:
		out = append(out, off+8)
	case *types.Struct:
		fs := make([]*types.Var, u.NumFields())
		for i := range fs {
			fs[i] = u.Field(i)
		}
		offs := sizes.Offsetsof(fs)
		for i := range fs {
			out = appendPtrOffs(out, fs[i].Type(), off+int(offs[i]))
		}
	case *types.Array:
		es := int(sizes.Sizeof(u.Elem()))
		for i := 0; i < int(u.Len()); i++ {
			out = appendPtrOffs(out, u.Elem(), off+i*es)
		}
	}
	return out
}

// gcReach marks every heap object reachable from the given roots.
func (st *State) gcReach(roots []uint64) map[uint64]bool {
	var symbolic bool
	return st.gcReach2(roots, &symbolic)
}

func (st *State) gcReach2(roots []uint64, symbolic *bool) map[uint64]bool {
	seen := map[uint64]bool{}
	work := append([]uint64(nil), roots...)
	push := func(e E) {
		if e.n != nil {
			*symbolic = true
		} else if e.c >= heapBase {
			work = append(work, e.c)
		}
	}
	visitVal := func(t types.Type, v Val) {
		l := lay(t)
		if l.scalar {
			push(v.e)
			return
		}
		for _, e := range v.agg {
			push(e)
		}
	}
	for len(work) > 0 {
		a := work[len(work)-1]
		work = work[:len(work)-1]
		base := a >> objShift << objShift
		if a < heapBase || seen[base] {
			continue
		}
		o, _ := st.obj(base)
		if o == nil {
			continue
		}
		seen[base] = true
		if o.mp != nil {
			for _, e := range o.mp.ents {
				visitVal(o.mp.kt, e.k)
				visitVal(o.mp.vt, e.v)
			}
			continue
		}
		if o.fn != nil {
			p := 8
			for _, fv := range o.fn.FreeVars {
				ly := lay(fv.Type())
				visitVal(fv.Type(), st.load(base+uint64(p), ly))
				p += (ly.size + 7) &^ 7
			}
			continue
		}
		if o.typ == nil {
			for f := 0; f+8 <= len(o.data); f += 8 {
				if e := o.ld(f, 8); e.n == nil && e.c >= heapBase {
					work = append(work, e.c)
				}
			}
			continue
		}
		offs := appendPtrOffs(nil, o.typ, 0)
		es := int(sizes.Sizeof(o.typ))
		if len(offs) == 0 || es == 0 {
			continue
		}
		for i := 0; i < o.n; i++ {
			for _, f := range offs {
				if i*es+f+8 <= len(o.data) {
					push(o.ld(i*es+f, 8))
				}
			}
		}
	}
	return seen
}

// vh.Retained(root, addr uintptr): is the object at addr reachable from root
// (or from a package variable of the code under test)?
func intrRetained(st *State, fr *Frame, ci *callInfo) (Val, int) {
	rt := st.concretize(ci.args[0].agg[1], 64)
	a := st.concretize(ci.args[1].e, 64)
	roots := []uint64{rt}
	for i, o := range st.globs {
		if o == nil || o.typ == nil {
			continue
		}
		g := globalByIdx(i)
		if g == nil || g.Pkg == nil || !st.w.ex.prog.modPkgs[g.Pkg.Pkg.Path()] {
			continue
		}
		for _, f := range appendPtrOffs(nil, o.typ, 0) {
			if f+8 <= len(o.data) {
				if e := o.ld(f, 8); e.n == nil {
					roots = append(roots, e.c)
				}
			}
		}
	}
	seen := st.gcReach(roots)
	return bv(seen[a>>objShift<<objShift]), 0
}

// vh.RunGC(): free what no pointer reaches.  Registers of all frames count as
// roots whatever their type, so this never frees more than the collector may.
func intrRunGC(st *State, fr *Frame, ci *callInfo) (Val, int) {
	var roots []uint64
	symbolic := false
	addE := func(e E) {
		if e.n != nil {
			return
		}
		if e.c >= heapBase {
			roots = append(roots, e.c)
		}
	}
	addV := func(v Val) {
		addE(v.e)
		for _, e := range v.agg {
			addE(e)
		}
	}
	for _, t := range st.threads {
		for _, f := range t.frames {
			for _, r := range f.regs {
				addV(r)
			}
			for _, d := range f.defers {
				for _, a := range d.args {
					addV(a)
				}
				for _, a := range d.binds {
					addV(a)
				}
			}
		}
		for _, p := range t.panics {
			addV(p.val)
		}
	}
	for i := range st.globs {
		o := st.globs[i]
		if o == nil {
			continue
		}
		if o.typ == nil {
			for f := 0; f+8 <= len(o.data); f += 8 {
				addE(o.ld(f, 8))
			}
			continue
		}
		for _, f := range appendPtrOffs(nil, o.typ, 0) {
			if f+8 <= len(o.data) {
				addE(o.ld(f, 8))
			}
		}
	}
	seen := st.gcReach2(roots, &symbolic)
	if symbolic {
		return Val{}, 0 // a symbolic pointer may reach anything
	}
	for i, o := range st.objs {
		if o != nil && !seen[heapBase+uint64(i)<<objShift] {
			st.objs[i] = nil
		}
	}
	return Val{}, 0
}
