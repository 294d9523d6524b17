package main

import (
	"fmt"
	"go/token"
	"go/types"
	"slices"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// ---- interfaces

func (st *State) mkIface(tid uint64, t types.Type, v Val) Val {
	if isScalar(t) {
		l := scalarLeaf(t)
		e := v.e
		if l.kind == lkBool {
			e = zext(boolToB8(e), 8, 64)
		} else {
			e = zext(e, l.w(), 64)
		}
		return Val{agg: []E{conc(tid), e}}
	}
	ly := lay(t)
	if len(ly.leaves) == 0 {
		return Val{agg: []E{conc(tid), conc(0)}}
	}
	a := st.alloc(t, 1)
	st.store(a, ly, v)
	return Val{agg: []E{conc(tid), conc(a)}}
}

func (st *State) unIface(t types.Type, d E) Val {
	if isScalar(t) {
		l := scalarLeaf(t)
		if l.kind == lkBool {
			return sv(b8ToBool(extract(d, 64, 0, 8)))
		}
		return sv(extract(d, 64, 0, l.w()))
	}
	ly := lay(t)
	if len(ly.leaves) == 0 {
		return ly.zero
	}
	return st.load(st.concretize(d, 64), ly)
}

// ---- equality

func (st *State) eqVal(t types.Type, a, b Val) E {
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return st.eqStr(a, b)
		}
		l := scalarLeaf(t)
		if l.kind == lkFloat {
			if a.e.n != nil || b.e.n != nil {
				panic(pathEnd{kind: endUnsupported, msg: "symbolic float comparison"})
			}
			return concB(bitsFloat(a.e.c, l.size) == bitsFloat(b.e.c, l.size))
		}
		return cmp(OEq, l.w(), a.e, b.e)
	case *types.Interface:
		if !st.decide(cmp(OEq, 64, a.agg[0], b.agg[0])) {
			return E{}
		}
		tid := st.concretize(a.agg[0], 64)
		if tid == 0 {
			return E{c: 1}
		}
		dt := typeByID(tid)
		if !types.Comparable(dt) {
			panic(faultPanic{"comparing uncomparable type " + dt.String()})
		}
		return st.eqVal(dt, st.unIface(dt, a.agg[1]), st.unIface(dt, b.agg[1]))
	case *types.Struct:
		r := E{c: 1}
		for i := 0; i < u.NumFields(); i++ {
			lo, hi := fieldRange(u, i)
			ft := u.Field(i).Type()
			r = band(r, st.eqVal(ft, subVal(a, lo, hi, ft), subVal(b, lo, hi, ft)))
			if r.n == nil && r.c == 0 {
				return r
			}
		}
		return r
	case *types.Array:
		n := nleaves(u.Elem())
		r := E{c: 1}
		for i := 0; i < int(u.Len()); i++ {
			r = band(r, st.eqVal(u.Elem(), subVal(a, i*n, i*n+n, u.Elem()), subVal(b, i*n, i*n+n, u.Elem())))
		}
		return r
	case *types.Slice:
		// only against nil
		return cmp(OEq, 64, a.agg[0], b.agg[0])
	}
	return cmp(OEq, 64, a.e, b.e)
}

func (st *State) eqStr(a, b Val) E {
	la, lb := st.concretize(a.agg[1], 64), st.concretize(b.agg[1], 64)
	if la != lb {
		return E{}
	}
	if la == 0 {
		return E{c: 1}
	}
	pa, pb := st.concretize(a.agg[0], 64), st.concretize(b.agg[0], 64)
	if pa == pb {
		return E{c: 1}
	}
	x, ok1 := st.bytesAt(pa, int(la))
	y, ok2 := st.bytesAt(pb, int(la))
	if ok1 && ok2 {
		return concB(string(x) == string(y))
	}
	r := E{c: 1}
	for i := uint64(0); i < la; i++ {
		r = band(r, cmp(OEq, 8, st.read(pa+i, 1), st.read(pb+i, 1)))
	}
	return r
}

// ---- binary / unary operators

func (cc *compiler) binop(x *ssa.BinOp, dst, next int) insFn {
	a, b := cc.op(x.X), cc.op(x.Y)
	t := x.X.Type()
	u := under(t)
	bt, isBasic := u.(*types.Basic)
	if isBasic && bt.Info()&types.IsString != 0 {
		return cc.strOp(x, a, b, dst, next)
	}
	switch x.Op {
	case token.EQL, token.NEQ:
		neg := x.Op == token.NEQ
		if isScalar(t) && !(isBasic && bt.Info()&types.IsFloat != 0) {
			w := scalarLeaf(t).w()
			return func(st *State, fr *Frame) int {
				r := cmp(OEq, w, a.e(fr), b.e(fr))
				if neg {
					r = bnot(r)
				}
				fr.regs[dst] = sv(r)
				return next
			}
		}
		yt := x.Y.Type()
		return func(st *State, fr *Frame) int {
			av, bw := a.get(fr), b.get(fr)
			ct := t
			// mixed interface / concrete comparison
			_, xi := under(t).(*types.Interface)
			_, yi := under(yt).(*types.Interface)
			if xi && !yi {
				bw = st.mkIface(typeID(yt), yt, bw)
			} else if yi && !xi {
				av = st.mkIface(typeID(t), t, av)
				ct = yt
			}
			r := st.eqVal(ct, av, bw)
			if neg {
				r = bnot(r)
			}
			fr.regs[dst] = sv(r)
			return next
		}
	}
	l := scalarLeaf(t)
	w := l.w()
	if l.kind == lkFloat {
		op := x.Op
		sz := l.size
		return func(st *State, fr *Frame) int {
			p, q := a.e(fr), b.e(fr)
			if p.n != nil || q.n != nil {
				panic(pathEnd{kind: endUnsupported, msg: "symbolic float arithmetic"})
			}
			f, g := bitsFloat(p.c, sz), bitsFloat(q.c, sz)
			switch op {
			case token.ADD:
				fr.regs[dst] = cv(floatBits(f+g, sz))
			case token.SUB:
				fr.regs[dst] = cv(floatBits(f-g, sz))
			case token.MUL:
				fr.regs[dst] = cv(floatBits(f*g, sz))
			case token.QUO:
				fr.regs[dst] = cv(floatBits(f/g, sz))
			case token.LSS:
				fr.regs[dst] = bv(f < g)
			case token.LEQ:
				fr.regs[dst] = bv(f <= g)
			case token.GTR:
				fr.regs[dst] = bv(f > g)
			case token.GEQ:
				fr.regs[dst] = bv(f >= g)
			default:
				panic(pathEnd{kind: endUnsupported, msg: "float op " + op.String()})
			}
			return next
		}
	}
	arith := func(op Op) insFn {
		return func(st *State, fr *Frame) int {
			fr.regs[dst] = Val{e: bin(op, w, a.e(fr), b.e(fr))}
			return next
		}
	}
	compare := func(op Op, swap, neg bool) insFn {
		return func(st *State, fr *Frame) int {
			p, q := a.e(fr), b.e(fr)
			if swap {
				p, q = q, p
			}
			r := cmp(op, w, p, q)
			if neg {
				r = bnot(r)
			}
			fr.regs[dst] = Val{e: r}
			return next
		}
	}
	lt := OUlt
	if l.sgn {
		lt = OSlt
	}
	if l.kind == lkBool {
		switch x.Op {
		case token.AND, token.LAND:
			return func(st *State, fr *Frame) int { fr.regs[dst] = sv(band(a.e(fr), b.e(fr))); return next }
		case token.OR, token.LOR:
			return func(st *State, fr *Frame) int { fr.regs[dst] = sv(bor(a.e(fr), b.e(fr))); return next }
		case token.XOR:
			return func(st *State, fr *Frame) int { fr.regs[dst] = sv(bnot(cmp(OEq, 0, a.e(fr), b.e(fr)))); return next }
		}
	}
	switch x.Op {
	case token.ADD:
		return arith(OAdd)
	case token.SUB:
		return arith(OSub)
	case token.MUL:
		return arith(OMul)
	case token.AND:
		return arith(OAnd)
	case token.OR:
		return arith(OOr)
	case token.XOR:
		return arith(OXor)
	case token.AND_NOT:
		return func(st *State, fr *Frame) int {
			fr.regs[dst] = sv(bin(OAnd, w, a.e(fr), bvnot(b.e(fr), w)))
			return next
		}
	case token.QUO, token.REM:
		op := OUDiv
		if x.Op == token.REM {
			op = OURem
		}
		if l.sgn {
			op = OSDiv
			if x.Op == token.REM {
				op = OSRem
			}
		}
		return func(st *State, fr *Frame) int {
			p, q := a.e(fr), b.e(fr)
			if st.decide(cmp(OEq, w, q, E{})) {
				return st.rtPanic("integer divide by zero")
			}
			o := op
			if l.sgn && q.n == nil && sx(q.c, w) > 0 && p.n != nil && p.n.op == OZext {
				if o == OSDiv {
					o = OUDiv
				} else {
					o = OURem
				}
			}
			fr.regs[dst] = sv(bin(o, w, p, q))
			return next
		}
	case token.SHL, token.SHR:
		yl := scalarLeaf(x.Y.Type())
		op := OShl
		if x.Op == token.SHR {
			op = OLshr
			if l.sgn {
				op = OAshr
			}
		}
		return func(st *State, fr *Frame) int {
			p, q := a.e(fr), b.e(fr)
			if yl.sgn && st.decide(cmp(OSlt, yl.w(), q, E{})) {
				return st.rtPanic("negative shift amount")
			}
			if q.n == nil {
				c := q.c
				if c >= uint64(w) {
					if op == OAshr {
						c = uint64(w) - 1
					} else {
						fr.regs[dst] = cv(0)
						return next
					}
				}
				fr.regs[dst] = sv(bin(op, w, p, E{c: c}))
				return next
			}
			// symbolic shift count: bring to width w (saturating)
			if yl.w() > w {
				big := cmp(OUlt, yl.w(), E{c: uint64(w) - 1}, q)
				q = ite(big, E{c: uint64(w)}, extract(q, yl.w(), 0, w), w)
			} else {
				q = zext(q, yl.w(), w)
			}
			fr.regs[dst] = sv(bin(op, w, p, q))
			return next
		}
	case token.LSS:
		return compare(lt, false, false)
	case token.GTR:
		return compare(lt, true, false)
	case token.LEQ:
		return compare(lt, true, true)
	case token.GEQ:
		return compare(lt, false, true)
	}
	return unsupportedIns("binop " + x.Op.String())
}

func (cc *compiler) strOp(x *ssa.BinOp, a, b *operand, dst, next int) insFn {
	op := x.Op
	return func(st *State, fr *Frame) int {
		p, q := a.get(fr), b.get(fr)
		switch op {
		case token.ADD:
			fr.regs[dst] = st.newStr(st.goString(p) + st.goString(q))
		case token.EQL:
			fr.regs[dst] = sv(st.eqStr(p, q))
		case token.NEQ:
			fr.regs[dst] = sv(bnot(st.eqStr(p, q)))
		default:
			s, t := st.goString(p), st.goString(q)
			var r bool
			switch op {
			case token.LSS:
				r = s < t
			case token.LEQ:
				r = s <= t
			case token.GTR:
				r = s > t
			case token.GEQ:
				r = s >= t
			}
			fr.regs[dst] = bv(r)
		}
		return next
	}
}

func (cc *compiler) unop(x *ssa.UnOp, dst, next int) insFn {
	o := cc.op(x.X)
	switch x.Op {
	case token.ARROW:
		return cc.recv(x, dst, next)
	case token.MUL:
		ly := lay(x.Type())
		if ly.scalar {
			l := ly.leaves[0]
			return func(st *State, fr *Frame) int {
				p := o.e(fr)
				a := p.c
				if p.n != nil {
					a = st.concretize(p, 64)
				}
				if a == 0 {
					return st.nilPanic()
				}
				fr.regs[dst] = Val{e: st.loadLeaf(a, l)}
				return next
			}
		}
		return func(st *State, fr *Frame) int {
			a := st.concretize(o.e(fr), 64)
			if a == 0 {
				return st.nilPanic()
			}
			fr.regs[dst] = st.load(a, ly)
			return next
		}
	case token.NOT:
		return func(st *State, fr *Frame) int {
			fr.regs[dst] = sv(bnot(o.e(fr)))
			return next
		}
	case token.SUB:
		l := scalarLeaf(x.Type())
		return func(st *State, fr *Frame) int {
			e := o.e(fr)
			if l.kind == lkFloat {
				if e.n != nil {
					panic(pathEnd{kind: endUnsupported, msg: "symbolic float"})
				}
				fr.regs[dst] = cv(floatBits(-bitsFloat(e.c, l.size), l.size))
				return next
			}
			fr.regs[dst] = sv(bin(OSub, l.w(), E{}, e))
			return next
		}
	case token.XOR:
		w := scalarLeaf(x.Type()).w()
		return func(st *State, fr *Frame) int {
			fr.regs[dst] = sv(bvnot(o.e(fr), w))
			return next
		}
	}
	return unsupportedIns("unop " + x.Op.String())
}

// ---- conversions

func (cc *compiler) convert(xv ssa.Value, to types.Type, dst, next int) insFn {
	o := cc.op(xv)
	from := xv.Type()
	fu, tu := under(from), under(to)
	fb, fok := fu.(*types.Basic)
	tb, tok := tu.(*types.Basic)
	if fok && tok && fb.Info()&types.IsString == 0 && tb.Info()&types.IsString == 0 {
		fl, tl := scalarLeaf(from), scalarLeaf(to)
		ff, tf := fl.kind == lkFloat, tl.kind == lkFloat
		fw, tw := fl.w(), tl.w()
		return func(st *State, fr *Frame) int {
			e := o.e(fr)
			switch {
			case !ff && !tf:
				switch {
				case tw < fw:
					e = extract(e, fw, 0, tw)
				case tw > fw && fl.sgn:
					e = sext(e, fw, tw)
				case tw > fw:
					e = zext(e, fw, tw)
				}
			default:
				if e.n != nil {
					panic(pathEnd{kind: endUnsupported, msg: "symbolic float conversion"})
				}
				var f float64
				switch {
				case ff:
					f = bitsFloat(e.c, fl.size)
				case fl.sgn:
					f = float64(sx(e.c, fw))
				default:
					f = float64(e.c)
				}
				if tf {
					e = conc(floatBits(f, tl.size))
				} else if tl.sgn {
					e = conc(uint64(int64(f)) & mask(tw))
				} else {
					e = conc(uint64(f) & mask(tw))
				}
			}
			fr.regs[dst] = sv(e)
			return next
		}
	}
	if tok && tb.Info()&types.IsString != 0 {
		if fok && fb.Info()&types.IsString != 0 {
			return func(st *State, fr *Frame) int { fr.regs[dst] = o.get(fr); return next }
		}
		if fok { // int -> string
			w := scalarLeaf(from)
			return func(st *State, fr *Frame) int {
				c := sx(st.concretize(o.e(fr), w.w()), w.w())
				fr.regs[dst] = st.newStr(string(rune(c)))
				return next
			}
		}
		if sl, ok := fu.(*types.Slice); ok {
			es := sizes.Sizeof(sl.Elem())
			return func(st *State, fr *Frame) int {
				v := o.get(fr)
				n := st.concretize(v.agg[1], 64)
				p := st.concretize(v.agg[0], 64)
				if es == 1 {
					if n == 0 {
						fr.regs[dst] = strVal("")
						return next
					}
					if b, ok := st.bytesAt(p, int(n)); ok {
						fr.regs[dst] = st.newStr(string(b))
						return next
					}
					a := st.alloc(types.Typ[types.Uint8], int(n))
					st.memmove(a, p, int(n))
					fr.regs[dst] = Val{agg: []E{conc(a), conc(n)}}
					return next
				}
				var sb strings.Builder
				for i := uint64(0); i < n; i++ {
					sb.WriteRune(rune(int32(st.concretize(st.read(p+4*i, 4), 32))))
				}
				fr.regs[dst] = st.newStr(sb.String())
				return next
			}
		}
	}
	if sl, ok := tu.(*types.Slice); ok && fok && fb.Info()&types.IsString != 0 {
		es := sizes.Sizeof(sl.Elem())
		return func(st *State, fr *Frame) int {
			v := o.get(fr)
			if es == 1 {
				n := st.concretize(v.agg[1], 64)
				a := st.alloc(types.Typ[types.Uint8], int(n))
				if n > 0 {
					st.memmove(a, st.concretize(v.agg[0], 64), int(n))
				}
				fr.regs[dst] = Val{agg: []E{conc(a), conc(n), conc(n)}}
				return next
			}
			rs := []rune(st.goString(v))
			a := st.alloc(types.Typ[types.Int32], len(rs))
			for i, r := range rs {
				st.write(a+uint64(4*i), 4, conc(uint64(uint32(r))))
			}
			n := uint64(len(rs))
			fr.regs[dst] = Val{agg: []E{conc(a), conc(n), conc(n)}}
			return next
		}
	}
	// pointer / unsafe.Pointer / identical representation
	if isScalar(from) && isScalar(to) || nleaves(from) == nleaves(to) {
		return func(st *State, fr *Frame) int { fr.regs[dst] = o.get(fr); return next }
	}
	return unsupportedIns(fmt.Sprintf("convert %v -> %v", from, to))
}

// ---- indexing

// idx64 normalises an index operand to a signed 64-bit term.
func idx64(e E, l leaf) E {
	if l.sgn {
		return sext(e, l.w(), 64)
	}
	return zext(e, l.w(), 64)
}

// checkIndex returns the concretised index, ok=false when out of range.
func (st *State) checkIndex(i E, l leaf, n E) (uint64, bool) {
	i = idx64(i, l)
	in := cmp(OUlt, 64, i, n)
	if !st.decide(in) {
		return 0, false
	}
	return st.concretize(i, 64), true
}

func (cc *compiler) indexAddr(x *ssa.IndexAddr, dst, next int) insFn {
	o, io := cc.op(x.X), cc.op(x.Index)
	il := scalarLeaf(x.Index.Type())
	switch u := under(x.X.Type()).(type) {
	case *types.Slice:
		es := uint64(sizes.Sizeof(u.Elem()))
		return func(st *State, fr *Frame) int {
			v := o.get(fr)
			i, ok := st.checkIndex(io.e(fr), il, v.agg[1])
			if !ok {
				return st.rtPanic("index out of range")
			}
			fr.regs[dst] = cv(st.concretize(v.agg[0], 64) + i*es)
			return next
		}
	case *types.Pointer:
		at := under(u.Elem()).(*types.Array)
		es := uint64(sizes.Sizeof(at.Elem()))
		n := conc(uint64(at.Len()))
		return func(st *State, fr *Frame) int {
			a := st.concretize(o.e(fr), 64)
			i, ok := st.checkIndex(io.e(fr), il, n)
			if !ok {
				return st.rtPanic("index out of range")
			}
			if a == 0 {
				return st.nilPanic()
			}
			fr.regs[dst] = cv(a + i*es)
			return next
		}
	}
	return unsupportedIns("IndexAddr on " + x.X.Type().String())
}

func (cc *compiler) index(x *ssa.Index, dst, next int) insFn {
	o, io := cc.op(x.X), cc.op(x.Index)
	il := scalarLeaf(x.Index.Type())
	switch u := under(x.X.Type()).(type) {
	case *types.Array:
		n := nleaves(u.Elem())
		et := u.Elem()
		ln := conc(uint64(u.Len()))
		return func(st *State, fr *Frame) int {
			i, ok := st.checkIndex(io.e(fr), il, ln)
			if !ok {
				return st.rtPanic("index out of range")
			}
			fr.regs[dst] = subVal(o.get(fr), int(i)*n, int(i)*n+n, et)
			return next
		}
	case *types.Basic:
		return func(st *State, fr *Frame) int {
			v := o.get(fr)
			i, ok := st.checkIndex(io.e(fr), il, v.agg[1])
			if !ok {
				return st.rtPanic("index out of range")
			}
			fr.regs[dst] = sv(st.read(st.concretize(v.agg[0], 64)+i, 1))
			return next
		}
	}
	return unsupportedIns("Index on " + x.X.Type().String())
}

func (cc *compiler) slice(x *ssa.Slice, dst, next int) insFn {
	o := cc.op(x.X)
	var lo, hi, mx *operand
	var ll, hl, ml leaf
	if x.Low != nil {
		lo, ll = cc.op(x.Low), scalarLeaf(x.Low.Type())
	}
	if x.High != nil {
		hi, hl = cc.op(x.High), scalarLeaf(x.High.Type())
	}
	if x.Max != nil {
		mx, ml = cc.op(x.Max), scalarLeaf(x.Max.Type())
	}
	isStr := false
	var es uint64
	var arr *types.Array
	switch u := under(x.X.Type()).(type) {
	case *types.Basic:
		isStr = true
		es = 1
	case *types.Slice:
		es = uint64(sizes.Sizeof(u.Elem()))
	case *types.Pointer:
		arr = under(u.Elem()).(*types.Array)
		es = uint64(sizes.Sizeof(arr.Elem()))
	default:
		return unsupportedIns("slice of " + x.X.Type().String())
	}
	return func(st *State, fr *Frame) int {
		var p, n, c E
		if arr != nil {
			p = o.e(fr)
			if st.concretize(p, 64) == 0 {
				return st.nilPanic()
			}
			n = conc(uint64(arr.Len()))
			c = n
		} else {
			v := o.get(fr)
			p, n = v.agg[0], v.agg[1]
			c = n
			if !isStr {
				c = v.agg[2]
			}
		}
		l, h, m := E{}, n, c
		if lo != nil {
			l = idx64(lo.e(fr), ll)
		}
		if hi != nil {
			h = idx64(hi.e(fr), hl)
		}
		if mx != nil {
			m = idx64(mx.e(fr), ml)
		}
		if !st.decide(bnot(cmp(OUlt, 64, c, m))) || !st.decide(bnot(cmp(OUlt, 64, m, h))) || !st.decide(bnot(cmp(OUlt, 64, h, l))) {
			return st.rtPanic("slice bounds out of range")
		}
		lc := st.concretize(l, 64)
		hc := st.concretize(h, 64)
		pc := st.concretize(p, 64)
		np := pc
		if isStr {
			if hc-lc == 0 {
				np = 0
			} else {
				np = pc + lc
			}
			fr.regs[dst] = Val{agg: []E{conc(np), conc(hc - lc)}}
			return next
		}
		mc := st.concretize(m, 64)
		if mc-lc > 0 {
			np = pc + lc*es
		}
		fr.regs[dst] = Val{agg: []E{conc(np), conc(hc - lc), conc(mc - lc)}}
		return next
	}
}

// ---- maps

func (st *State) mapObj(a uint64) *mapData {
	if st.dom != nil {
		st.note(a, 1, false)
	}
	o, _ := st.obj(a)
	if o == nil || o.mp == nil {
		panic(pathEnd{kind: endUnsupported, msg: "bad map pointer"})
	}
	return o.mp
}

func (st *State) mapFind(m *mapData, k Val) int {
	for i := range m.ents {
		if st.decide(st.eqVal(m.kt, m.ents[i].k, k)) {
			return i
		}
	}
	return -1
}

func (st *State) mapSet(a uint64, k, v Val) {
	m := st.mapObj(a)
	i := st.mapFind(m, k)
	if st.dom != nil {
		st.note(a, 1, true)
	}
	o, _ := st.wobj(a)
	if i >= 0 {
		o.mp.ents[i].v = v
		return
	}
	o.mp.seq++
	o.mp.ents = append(o.mp.ents, mapEntry{k, v, o.mp.seq})
}

func (st *State) mapDelete(a uint64, k Val) {
	if a == 0 {
		return
	}
	i := st.mapFind(st.mapObj(a), k)
	if i < 0 {
		return
	}
	if st.dom != nil {
		st.note(a, 1, true)
	}
	o, _ := st.wobj(a)
	ne := append([]mapEntry(nil), o.mp.ents[:i]...)
	o.mp.ents = append(ne, o.mp.ents[i+1:]...)
}

func (cc *compiler) lookup(x *ssa.Lookup, dst, next int) insFn {
	o, ko := cc.op(x.X), cc.op(x.Index)
	if b, ok := under(x.X.Type()).(*types.Basic); ok && b.Info()&types.IsString != 0 {
		il := scalarLeaf(x.Index.Type())
		return func(st *State, fr *Frame) int {
			v := o.get(fr)
			i, ok := st.checkIndex(ko.e(fr), il, v.agg[1])
			if !ok {
				return st.rtPanic("index out of range")
			}
			fr.regs[dst] = sv(st.read(st.concretize(v.agg[0], 64)+i, 1))
			return next
		}
	}
	mt := under(x.X.Type()).(*types.Map)
	vt := mt.Elem()
	commaOk := x.CommaOk
	return func(st *State, fr *Frame) int {
		a := st.concretize(o.e(fr), 64)
		v := zeroVal(vt)
		found := false
		if a != 0 {
			m := st.mapObj(a)
			if i := st.mapFind(m, ko.get(fr)); i >= 0 {
				v, found = m.ents[i].v, true
			}
		}
		if commaOk {
			agg := appendVal(nil, v, vt)
			fr.regs[dst] = Val{agg: append(agg, concB(found))}
		} else {
			fr.regs[dst] = v
		}
		return next
	}
}

// mapBackwards decides the order of an iteration over a map: as inserted or
// the reverse of it (if the run asks for both).
func (st *State) mapBackwards(m E) bool {
	if st.w.ex.params["maporder"] == 0 {
		return false
	}
	a := st.concretize(m, 64)
	if a == 0 || len(st.mapObj(a).ents) < 2 {
		return false
	}
	k := st.names[mapOrder]
	n := E{n: inputVar(mapOrder, k, 8)}
	st.assume(cmp(OUlt, 8, n, conc(2)))
	r := st.decide(cmp(OEq, 8, n, conc(1)))
	st.names[mapOrder] = k + 1
	return r
}

const mapOrder = "order of a map"

func (cc *compiler) nextIns(x *ssa.Next, dst, next int) insFn {
	o := cc.op(x.Iter)
	tt := x.Type().(*types.Tuple)
	if x.IsString {
		return func(st *State, fr *Frame) int {
			it := st.concretize(o.e(fr), 64)
			pos := st.read(it, 8).c
			s := st.goString(Val{agg: []E{st.read(it+8, 8), st.read(it+16, 8)}})
			if pos >= uint64(len(s)) {
				fr.regs[dst] = Val{agg: []E{{}, {}, {}}}
				return next
			}
			r, n := utf8.DecodeRuneInString(s[pos:])
			st.write(it, 8, conc(pos+uint64(n)))
			fr.regs[dst] = Val{agg: []E{conc(1), conc(pos), conc(uint64(uint32(r)))}}
			return next
		}
	}
	return func(st *State, fr *Frame) int {
		it := st.concretize(o.e(fr), 64)
		pos := st.read(it, 8).c
		mp := st.concretize(st.read(it+8, 8), 64)
		back := st.read(it+16, 8).c != 0
		// entries added or removed meanwhile are not visited
		var ents, now []mapEntry
		if mp != 0 {
			o, _ := st.obj(it)
			ents, now = o.mp.ents, st.mapObj(mp).ents
		}
		cur := -1
		for ; cur < 0 && pos < uint64(len(ents)); pos++ {
			i := pos
			if back {
				i = uint64(len(ents)) - 1 - pos
			}
			cur = slices.IndexFunc(now, func(e mapEntry) bool { return e.id == ents[i].id })
		}
		st.write(it, 8, conc(pos))
		kt, vt := tt.At(1).Type(), tt.At(2).Type()
		inv := func(t types.Type) bool {
			b, ok := t.(*types.Basic)
			return ok && b.Kind() == types.Invalid
		}
		if cur < 0 {
			agg := []E{{}}
			for _, t := range []types.Type{kt, vt} {
				if inv(t) {
					agg = append(agg, E{})
				} else {
					agg = appendVal(agg, zeroVal(t), t)
				}
			}
			fr.regs[dst] = Val{agg: agg}
			return next
		}
		agg := []E{{c: 1}}
		if inv(kt) {
			agg = append(agg, E{})
		} else {
			agg = appendVal(agg, now[cur].k, kt)
		}
		if inv(vt) {
			agg = append(agg, E{})
		} else {
			agg = appendVal(agg, now[cur].v, vt)
		}
		fr.regs[dst] = Val{agg: agg}
		return next
	}
}

// ---- type assertions

func (cc *compiler) typeAssert(x *ssa.TypeAssert, dst, next int) insFn {
	o := cc.op(x.X)
	at := x.AssertedType
	commaOk := x.CommaOk
	it, toIface := under(at).(*types.Interface)
	aid := uint64(0)
	if !toIface {
		aid = typeID(at)
	}
	return func(st *State, fr *Frame) int {
		v := o.get(fr)
		tid := st.concretize(v.agg[0], 64)
		ok := false
		var r Val
		if tid != 0 {
			if toIface {
				ok = types.Implements(typeByID(tid), it)
				r = v
			} else if tid == aid {
				ok = true
				r = st.unIface(at, v.agg[1])
			}
		}
		if !ok {
			if !commaOk {
				d := "nil"
				if tid != 0 {
					d = typeByID(tid).String()
				}
				return st.rtPanic("interface conversion: interface is " + d + ", not " + at.String())
			}
			r = zeroVal(at)
		}
		if commaOk {
			agg := appendVal(make([]E, 0, 3), r, at)
			fr.regs[dst] = Val{agg: append(agg, concB(ok))}
		} else {
			fr.regs[dst] = r
		}
		return next
	}
}

// ---- builtins

func (cc *compiler) builtin(b *ssa.Builtin, cm *ssa.CallCommon, dst, next int) insFn {
	ops := cc.ops(cm.Args)
	var t0 types.Type
	if len(cm.Args) > 0 {
		t0 = cm.Args[0].Type()
	}
	set := func(fr *Frame, v Val) int { fr.regs[dst] = v; return next }
	switch b.Name() {
	case "len", "cap":
		isCap := b.Name() == "cap"
		switch u := under(t0).(type) {
		case *types.Basic:
			return func(st *State, fr *Frame) int { return set(fr, sv(ops[0].get(fr).agg[1])) }
		case *types.Slice:
			i := 1
			if isCap {
				i = 2
			}
			return func(st *State, fr *Frame) int { return set(fr, sv(ops[0].get(fr).agg[i])) }
		case *types.Map:
			return func(st *State, fr *Frame) int {
				a := st.concretize(ops[0].e(fr), 64)
				n := 0
				if a != 0 {
					n = len(st.mapObj(a).ents)
				}
				return set(fr, cv(uint64(n)))
			}
		case *types.Array:
			return func(st *State, fr *Frame) int { return set(fr, cv(uint64(u.Len()))) }
		case *types.Pointer:
			n := uint64(under(u.Elem()).(*types.Array).Len())
			return func(st *State, fr *Frame) int { return set(fr, cv(n)) }
		case *types.Chan:
			return func(st *State, fr *Frame) int {
				a := st.concretize(ops[0].e(fr), 64)
				if a == 0 {
					return set(fr, cv(0))
				}
				if isCap {
					return set(fr, cv(st.read(a+chCap, 8).c))
				}
				return set(fr, cv(st.read(a+chN, 8).c))
			}
		}
	case "append":
		et := under(cm.Args[0].Type()).(*types.Slice).Elem()
		es := uint64(sizes.Sizeof(et))
		return func(st *State, fr *Frame) int {
			s, y := ops[0].get(fr), ops[1].get(fr)
			n, c := st.concretize(s.agg[1], 64), st.concretize(s.agg[2], 64)
			m := st.concretize(y.agg[1], 64)
			p := st.concretize(s.agg[0], 64)
			yp := st.concretize(y.agg[0], 64)
			if m == 0 {
				return set(fr, s)
			}
			if n+m > c {
				nc := c * 2
				if nc < n+m {
					nc = n + m
				}
				if es < 8 && nc < 8 {
					nc = 8
				}
				if es*nc > 1<<objShift {
					panic(pathEnd{kind: endUnsupported, msg: "append beyond 1 MiB"})
				}
				np := st.alloc(et, int(nc))
				st.memmove(np, p, int(n*es))
				p, c = np, nc
			}
			st.memmove(p+n*es, yp, int(m*es))
			return set(fr, Val{agg: []E{conc(p), conc(n + m), conc(c)}})
		}
	case "copy":
		et := under(cm.Args[0].Type()).(*types.Slice).Elem()
		es := uint64(sizes.Sizeof(et))
		return func(st *State, fr *Frame) int {
			s, y := ops[0].get(fr), ops[1].get(fr)
			n, m := st.concretize(s.agg[1], 64), st.concretize(y.agg[1], 64)
			if m < n {
				n = m
			}
			if n > 0 {
				st.memmove(st.concretize(s.agg[0], 64), st.concretize(y.agg[0], 64), int(n*es))
			}
			return set(fr, cv(n))
		}
	case "delete":
		return func(st *State, fr *Frame) int {
			st.mapDelete(st.concretize(ops[0].e(fr), 64), ops[1].get(fr))
			return next
		}
	case "clear":
		if _, ok := under(t0).(*types.Map); ok {
			return func(st *State, fr *Frame) int {
				a := st.concretize(ops[0].e(fr), 64)
				if a != 0 {
					st.note(a, 1, true)
					o, _ := st.wobj(a)
					o.mp.ents = nil
				}
				return next
			}
		}
	case "min", "max":
		l := scalarLeaf(t0)
		if l.kind == lkInt && isScalar(t0) {
			lt := OUlt
			if l.sgn {
				lt = OSlt
			}
			isMin := b.Name() == "min"
			return func(st *State, fr *Frame) int {
				r := ops[0].e(fr)
				for _, o := range ops[1:] {
					y := o.e(fr)
					c := cmp(lt, l.w(), y, r)
					if !isMin {
						c = cmp(lt, l.w(), r, y)
					}
					r = ite(c, y, r, l.w())
				}
				return set(fr, sv(r))
			}
		}
	case "panic":
		return func(st *State, fr *Frame) int { return st.goPanic(ops[0].get(fr), "") }
	case "recover":
		return func(st *State, fr *Frame) int {
			t := st.th()
			n := len(t.frames)
			if fr.deferRun && n >= 2 && t.frames[n-2].unw == 1 && len(t.panics) > 0 {
				p := t.panics[len(t.panics)-1]
				if !p.recovered {
					p.recovered = true
					return set(fr, p.val)
				}
			}
			return set(fr, Val{agg: []E{{}, {}}})
		}
	case "print", "println":
		return func(st *State, fr *Frame) int { return next }
	case "close":
		return func(st *State, fr *Frame) int {
			if n := st.closeChan(st.concretize(ops[0].e(fr), 64)); n != 0 {
				return n
			}
			return next
		}
	case "ssa:wrapnilchk":
		return func(st *State, fr *Frame) int {
			v := ops[0].get(fr)
			if st.concretize(v.e, 64) == 0 {
				return st.nilPanic()
			}
			return set(fr, v)
		}
	case "Add": // unsafe.Add
		l := scalarLeaf(cm.Args[1].Type())
		return func(st *State, fr *Frame) int {
			return set(fr, sv(bin(OAdd, 64, ops[0].e(fr), idx64(ops[1].e(fr), l))))
		}
	case "Slice": // unsafe.Slice
		l := scalarLeaf(cm.Args[1].Type())
		return func(st *State, fr *Frame) int {
			n := idx64(ops[1].e(fr), l)
			return set(fr, Val{agg: []E{ops[0].e(fr), n, n}})
		}
	case "SliceData", "StringData":
		return func(st *State, fr *Frame) int { return set(fr, sv(ops[0].get(fr).agg[0])) }
	case "String":
		l := scalarLeaf(cm.Args[1].Type())
		return func(st *State, fr *Frame) int {
			return set(fr, Val{agg: []E{ops[0].e(fr), idx64(ops[1].e(fr), l)}})
		}
	}
	return unsupportedIns("builtin " + b.Name())
}
