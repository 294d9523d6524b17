package main

import (
	"fmt"
	"go/token"
	"go/types"
	"path/filepath"
	"slices"
	"strings"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type insFn func(st *State, fr *Frame) int

const (
	ctlSwitch = -1
	ctlBlock  = -2
)

type Code struct {
	fn       *ssa.Function
	p        *Program
	ins      []insFn
	src      []ssa.Instruction
	nregs    int
	regOf    map[ssa.Value]int
	blkStart []int
	recover  int
	paramN   int
	name     string
}

func (c *Code) pos(pc int) string {
	for i := pc; i >= 0 && i < len(c.src); i-- {
		if c.src[i] == nil {
			continue
		}
		if p := c.src[i].Pos(); p.IsValid() {
			ps := c.p.fset.Position(p)
			return fmt.Sprintf("%s:%d", filepath.Base(ps.Filename), ps.Line)
		}
	}
	return ""
}

type operand struct {
	reg int
	v   Val
}

func (o *operand) get(fr *Frame) Val {
	if o.reg >= 0 {
		return fr.regs[o.reg]
	}
	return o.v
}

func (o *operand) e(fr *Frame) E {
	if o.reg >= 0 {
		return fr.regs[o.reg].e
	}
	return o.v.e
}

type compiler struct {
	p    *Program
	fn   *ssa.Function
	c    *Code
	pend []func() // fixups
}

func (p *Program) compile(fn *ssa.Function) *Code {
	c := &Code{fn: fn, p: p, regOf: map[ssa.Value]int{}, recover: -1, name: fn.String()}
	if fn.Blocks == nil {
		panic(pathEnd{kind: endUnsupported, msg: "no body: " + fn.String()})
	}
	cc := &compiler{p: p, fn: fn, c: c}
	reg := func(v ssa.Value) {
		c.regOf[v] = c.nregs
		c.nregs++
	}
	for _, x := range fn.Params {
		reg(x)
	}
	c.paramN = len(fn.Params)
	for _, x := range fn.FreeVars {
		reg(x)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				reg(v)
			}
		}
	}
	// positions
	c.blkStart = make([]int, len(fn.Blocks))
	n := 0
	for _, b := range fn.Blocks {
		c.blkStart[b.Index] = n
		for _, in := range b.Instrs {
			switch in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
				continue
			}
			n++
		}
	}
	c.ins = make([]insFn, 0, n)
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
				continue
			}
			c.src = append(c.src, in)
			c.ins = append(c.ins, cc.safeInstr(b, in, len(c.ins)))
		}
	}
	if fn.Recover != nil {
		c.recover = c.blkStart[fn.Recover.Index]
	}
	return c
}

func newFrame(st *State, c *Code, args []Val, binds []Val) *Frame {
	fr := &Frame{code: c, regs: make([]Val, c.nregs), epoch: st.epoch, dst: -1}
	copy(fr.regs, args)
	copy(fr.regs[c.paramN:], binds)
	return fr
}

func (cc *compiler) op(v ssa.Value) *operand {
	switch x := v.(type) {
	case *ssa.Const:
		return &operand{reg: -1, v: constVal(x)}
	case *ssa.Global:
		return &operand{reg: -1, v: cv(globalAddr(x))}
	case *ssa.Function:
		return &operand{reg: -1, v: cv(fnAddr(x))}
	case *ssa.Builtin:
		return &operand{reg: -1}
	}
	r, ok := cc.c.regOf[v]
	if !ok {
		panic(fmt.Sprintf("no register for %v in %v", v, cc.fn))
	}
	return &operand{reg: r}
}

func (cc *compiler) ops(vs []ssa.Value) []*operand {
	out := make([]*operand, len(vs))
	for i, v := range vs {
		out[i] = cc.op(v)
	}
	return out
}

type phiMove struct {
	dst int
	src *operand
}

// edge compiles the transfer b -> to.
func (cc *compiler) edge(b, to *ssa.BasicBlock, which int) func(fr *Frame) int {
	// predecessor index: the which-th occurrence of b among to.Preds
	idx := -1
	seen := 0
	for i, p := range to.Preds {
		if p == b {
			if seen == which {
				idx = i
				break
			}
			seen++
		}
	}
	if idx < 0 {
		for i, p := range to.Preds {
			if p == b {
				idx = i
			}
		}
	}
	var mv []phiMove
	for _, in := range to.Instrs {
		if ph, ok := in.(*ssa.Phi); ok {
			mv = append(mv, phiMove{cc.c.regOf[ph], cc.op(ph.Edges[idx])})
		} else if _, ok := in.(*ssa.DebugRef); !ok {
			break
		}
	}
	start := cc.c.blkStart[to.Index]
	switch len(mv) {
	case 0:
		return func(fr *Frame) int { return start }
	case 1:
		m := mv[0]
		return func(fr *Frame) int { fr.regs[m.dst] = m.src.get(fr); return start }
	}
	return func(fr *Frame) int {
		var tmp [8]Val
		t := tmp[:0]
		for i := range mv {
			t = append(t, mv[i].src.get(fr))
		}
		for i := range mv {
			fr.regs[mv[i].dst] = t[i]
		}
		return start
	}
}

func unsupportedIns(msg string) insFn {
	return func(st *State, fr *Frame) int {
		panic(pathEnd{kind: endUnsupported, msg: msg + " at " + st.where()})
	}
}

// safeInstr encodes one instruction; what cannot be encoded ends the path that
// reaches it as not encoded.
func (cc *compiler) safeInstr(b *ssa.BasicBlock, in ssa.Instruction, pc int) (f insFn) {
	defer func() {
		switch r := recover().(type) {
		case nil:
		case pathEnd:
			f = unsupportedIns(r.msg)
		default:
			f = unsupportedIns(fmt.Sprintf("engine: %v", r))
		}
	}()
	return cc.instr(b, in, pc)
}

func (cc *compiler) instr(b *ssa.BasicBlock, in ssa.Instruction, pc int) insFn {
	next := pc + 1
	dst := -1
	if v, ok := in.(ssa.Value); ok {
		dst = cc.c.regOf[v]
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		t := under(x.Type()).(*types.Pointer).Elem()
		return func(st *State, fr *Frame) int {
			fr.regs[dst] = cv(st.alloc(t, 1))
			if !x.Heap {
				st.objs[len(st.objs)-1].local = true
			}
			return next
		}
	case *ssa.BinOp:
		return cc.binop(x, dst, next)
	case *ssa.UnOp:
		return cc.unop(x, dst, next)
	case *ssa.Call:
		return cc.call(x, &x.Call, dst, next)
	case *ssa.ChangeInterface, *ssa.ChangeType:
		o := cc.op(*in.Operands(nil)[0])
		return func(st *State, fr *Frame) int {
			fr.regs[dst] = o.get(fr)
			return next
		}
	case *ssa.Convert:
		return cc.convert(x.X, x.Type(), dst, next)
	case *ssa.MultiConvert:
		return cc.convert(x.X, x.Type(), dst, next)
	case *ssa.SliceToArrayPointer:
		o := cc.op(x.X)
		n := uint64(under(under(x.Type()).(*types.Pointer).Elem()).(*types.Array).Len())
		return func(st *State, fr *Frame) int {
			v := o.get(fr)
			if st.decide(cmp(OSlt, 64, v.agg[1], conc(n))) {
				return st.rtPanic("cannot convert slice to array pointer: length too short")
			}
			fr.regs[dst] = sv(v.agg[0])
			return next
		}
	case *ssa.Defer:
		return cc.deferIns(x, next)
	case *ssa.Go:
		return cc.goIns(x, next)
	case *ssa.Extract:
		o := cc.op(x.Tuple)
		tt := x.Tuple.Type().(*types.Tuple)
		lo := 0
		for i := 0; i < x.Index; i++ {
			lo += nleaves(tt.At(i).Type())
		}
		et := tt.At(x.Index).Type()
		hi := lo + nleaves(et)
		sc := isScalar(et)
		return func(st *State, fr *Frame) int {
			v := o.get(fr)
			if sc {
				fr.regs[dst] = Val{e: v.agg[lo]}
			} else {
				fr.regs[dst] = Val{agg: v.agg[lo:hi:hi]}
			}
			return next
		}
	case *ssa.Field:
		o := cc.op(x.X)
		stt := under(x.X.Type()).(*types.Struct)
		lo, hi := fieldRange(stt, x.Field)
		ft := stt.Field(x.Field).Type()
		return func(st *State, fr *Frame) int {
			fr.regs[dst] = subVal(o.get(fr), lo, hi, ft)
			return next
		}
	case *ssa.FieldAddr:
		o := cc.op(x.X)
		stt := under(under(x.X.Type()).(*types.Pointer).Elem()).(*types.Struct)
		off := uint64(fieldOff(stt, x.Field))
		return func(st *State, fr *Frame) int {
			p := o.e(fr)
			a := p.c
			if p.n != nil {
				a = st.concretize(p, 64)
			}
			if a == 0 {
				return st.nilPanic()
			}
			fr.regs[dst] = cv(a + off)
			return next
		}
	case *ssa.If:
		o := cc.op(x.Cond)
		wt, wf := 0, 0
		if b.Succs[0] == b.Succs[1] {
			wf = 1
		}
		et, ef := cc.edge(b, b.Succs[0], wt), cc.edge(b, b.Succs[1], wf)
		return func(st *State, fr *Frame) int {
			c := o.e(fr)
			if c.n == nil {
				if c.c != 0 {
					return et(fr)
				}
				return ef(fr)
			}
			if st.decide(c) {
				return et(fr)
			}
			return ef(fr)
		}
	case *ssa.Jump:
		e := cc.edge(b, b.Succs[0], 0)
		return func(st *State, fr *Frame) int { return e(fr) }
	case *ssa.Index:
		return cc.index(x, dst, next)
	case *ssa.IndexAddr:
		return cc.indexAddr(x, dst, next)
	case *ssa.Lookup:
		return cc.lookup(x, dst, next)
	case *ssa.MakeChan:
		return cc.makeChan(x, dst, next)
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		ops := cc.ops(x.Bindings)
		lays := make([]*layout, len(ops))
		sz := 8
		offs := make([]int, len(ops))
		for i, bnd := range x.Bindings {
			lays[i] = lay(bnd.Type())
			offs[i] = sz
			sz += (lays[i].size + 7) &^ 7
		}
		return func(st *State, fr *Frame) int {
			a := st.allocBytes(sz, nil, 1)
			o := st.objs[len(st.objs)-1]
			o.fn = fn
			for i := range ops {
				st.store(a+uint64(offs[i]), lays[i], ops[i].get(fr))
			}
			fr.regs[dst] = cv(a)
			return next
		}
	case *ssa.MakeInterface:
		o := cc.op(x.X)
		t := x.X.Type()
		tid := typeID(t)
		return func(st *State, fr *Frame) int {
			fr.regs[dst] = st.mkIface(tid, t, o.get(fr))
			return next
		}
	case *ssa.MakeMap:
		mt := under(x.Type()).(*types.Map)
		return func(st *State, fr *Frame) int {
			a := st.allocBytes(8, nil, 1)
			st.objs[len(st.objs)-1].mp = &mapData{kt: mt.Key(), vt: mt.Elem()}
			fr.regs[dst] = cv(a)
			return next
		}
	case *ssa.MakeSlice:
		l, c := cc.op(x.Len), cc.op(x.Cap)
		lw, cw := scalarLeaf(x.Len.Type()), scalarLeaf(x.Cap.Type())
		et := under(x.Type()).(*types.Slice).Elem()
		es := uint64(sizes.Sizeof(et))
		return func(st *State, fr *Frame) int {
			n := sx(st.concretize(l.e(fr), lw.w()), lw.w())
			k := sx(st.concretize(c.e(fr), cw.w()), cw.w())
			if n < 0 {
				return st.rtPanic("makeslice: len out of range")
			}
			if k < n {
				return st.rtPanic("makeslice: cap out of range")
			}
			if es*uint64(k) > 1<<objShift {
				panic(pathEnd{kind: endUnsupported, msg: "makeslice larger than 1 MiB"})
			}
			a := st.alloc(et, int(k))
			fr.regs[dst] = Val{agg: []E{conc(a), conc(uint64(n)), conc(uint64(k))}}
			return next
		}
	case *ssa.MapUpdate:
		m, k, v := cc.op(x.Map), cc.op(x.Key), cc.op(x.Value)
		return func(st *State, fr *Frame) int {
			a := st.concretize(m.e(fr), 64)
			if a == 0 {
				return st.rtPanic("assignment to entry in nil map")
			}
			st.mapSet(a, k.get(fr), v.get(fr))
			return next
		}
	case *ssa.Range:
		o := cc.op(x.X)
		_, isMap := under(x.X.Type()).(*types.Map)
		return func(st *State, fr *Frame) int {
			backwards := false
			if isMap {
				backwards = st.mapBackwards(o.e(fr))
			}
			// iterator object: [pos][ptr][len of a string, direction of a map]
			a := st.allocBytes(24, types.Typ[types.Uint64], 3)
			if isMap {
				mp := st.concretize(o.e(fr), 64)
				st.write(a+8, 8, conc(mp))
				if backwards {
					st.write(a+16, 8, conc(1))
				}
				if mp != 0 {
					m := *st.mapObj(mp)
					m.ents = slices.Clone(m.ents)
					st.objs[len(st.objs)-1].mp = &m
				}
			} else {
				v := o.get(fr)
				st.write(a+8, 8, v.agg[0])
				st.write(a+16, 8, v.agg[1])
			}
			fr.regs[dst] = cv(a)
			return next
		}
	case *ssa.Next:
		return cc.nextIns(x, dst, next)
	case *ssa.Panic:
		o := cc.op(x.X)
		return func(st *State, fr *Frame) int {
			return st.goPanic(o.get(fr), "")
		}
	case *ssa.Return:
		return cc.ret(x)
	case *ssa.RunDefers:
		return func(st *State, fr *Frame) int {
			for len(fr.defers) > 0 {
				d := fr.defers[len(fr.defers)-1]
				fr.defers = fr.defers[:len(fr.defers)-1]
				if st.runDefer(fr, d) {
					return ctlSwitch // pc unchanged: re-executed after the deferred call returns
				}
			}
			return next
		}
	case *ssa.Slice:
		return cc.slice(x, dst, next)
	case *ssa.Store:
		a, v := cc.op(x.Addr), cc.op(x.Val)
		ly := lay(x.Val.Type())
		return func(st *State, fr *Frame) int {
			p := a.e(fr)
			ad := p.c
			if p.n != nil {
				ad = st.concretize(p, 64)
			}
			if ad == 0 {
				return st.nilPanic()
			}
			st.store(ad, ly, v.get(fr))
			return next
		}
	case *ssa.TypeAssert:
		return cc.typeAssert(x, dst, next)
	case *ssa.Select:
		return cc.sel(x, dst, next)
	case *ssa.Send:
		return cc.send(x, next)
	}
	return unsupportedIns(fmt.Sprintf("instruction %T", in))
}

func (cc *compiler) ret(x *ssa.Return) insFn {
	ops := cc.ops(x.Results)
	ts := make([]types.Type, len(x.Results))
	for i, r := range x.Results {
		ts[i] = r.Type()
	}
	return func(st *State, fr *Frame) int {
		var v Val
		switch len(ops) {
		case 0:
		case 1:
			v = ops[0].get(fr)
		default:
			agg := make([]E, 0, len(ops)+4)
			for i, o := range ops {
				agg = appendVal(agg, o.get(fr), ts[i])
			}
			v.agg = agg
		}
		return st.doReturn(fr, v)
	}
}

func (st *State) doReturn(fr *Frame, v Val) int {
	t := st.th()
	t.frames = t.frames[:len(t.frames)-1]
	if len(t.frames) == 0 {
		return ctlSwitch
	}
	if fr.deferRun {
		// maybe we were unwinding
		return ctlSwitch
	}
	caller := st.top()
	if fr.dst >= 0 {
		caller.regs[fr.dst] = v
	}
	return ctlSwitch
}

// ---- panics

func (st *State) nilPanic() int {
	return st.rtPanic(nilDeref)
}

func (st *State) rtPanic(msg string) int {
	t := types.Type(types.Typ[types.String])
	if vp := st.w.ex.prog.prog.ImportedPackage(vhPkg); vp != nil {
		if m := vp.Type("RuntimeError"); m != nil {
			t = m.Type()
		}
	}
	v := st.mkIface(typeID(t), t, strVal("runtime error: "+msg))
	return st.goPanic(v, "runtime error: "+msg)
}

func (st *State) panicText(v Val) string {
	if v.agg[0].n != nil {
		return "?"
	}
	t := typeByID(v.agg[0].c)
	if t == nil {
		return "nil"
	}
	if b, ok := under(t).(*types.Basic); ok && b.Kind() == types.String && v.agg[1].n == nil {
		return st.goString(st.unIface(t, v.agg[1]))
	}
	return "value of type " + t.String()
}

func (st *State) goPanic(v Val, msg string) int {
	if msg == "" {
		msg = st.panicText(v)
	}
	t := st.th()
	t.panics = append(t.panics, &goPanicRec{val: v, msg: msg + " @ " + st.where()})
	return st.unwind()
}

// unwind advances the unwinding of the top frame: runs its deferred calls,
// pops it when nobody recovered, or completes a recovery.
func (st *State) unwind() int {
	t := st.th()
	for {
		if len(t.frames) == 0 {
			return ctlSwitch
		}
		fr := st.top()
		if fr.unw == 2 { // recovered: remaining defers, then the recover block
			for len(fr.defers) > 0 {
				d := fr.defers[len(fr.defers)-1]
				fr.defers = fr.defers[:len(fr.defers)-1]
				if st.runDefer(fr, d) {
					return ctlSwitch
				}
			}
			fr.unw = 0
			if fr.code.recover >= 0 {
				fr.pc = fr.code.recover
				return ctlSwitch
			}
			res := fr.code.fn.Signature.Results()
			var v Val
			if res.Len() == 1 {
				v = zeroVal(res.At(0).Type())
			} else if res.Len() > 1 {
				v = zeroVal(res)
			}
			return st.doReturn(fr, v)
		}
		p := t.panics[len(t.panics)-1]
		if fr.unw == 1 && p.recovered {
			t.panics = t.panics[:len(t.panics)-1]
			fr.unw = 2
			continue
		}
		fr.unw = 1
		ran := false
		for len(fr.defers) > 0 {
			d := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[:len(fr.defers)-1]
			if st.runDefer(fr, d) {
				ran = true
				break
			}
		}
		if ran {
			return ctlSwitch
		}
		if len(t.frames) == 1 {
			label := p.msg
			if i := strings.Index(label, " @ "); i >= 0 {
				label = label[:i]
			}
			st.violation("panic", label, p.msg, st.model)
			panic(pathEnd{kind: endViolation})
		}
		t.frames = t.frames[:len(t.frames)-1]
		if fr.deferRun && len(t.panics) >= 2 && t.frames[len(t.frames)-1].unw == 1 {
			// the newer panic replaces the one being unwound
			n := len(t.panics)
			t.panics[n-2] = t.panics[n-1]
			t.panics = t.panics[:n-1]
		}
	}
}

func (st *State) fault(a uint64, what string, o *Object, off int) {
	if a < 1<<16 || int64(a) < 0 && int64(a) > -(1<<16) {
		panic(faultPanic{nilDeref})
	}
	st.violation("fault", "out-of-bounds memory "+what, fmt.Sprintf("%s at 0x%x in %s", what, a, st.where()), st.model)
	panic(pathEnd{kind: endViolation, msg: "fault"})
}

// faultPanic is turned into a Go nil-dereference panic by the run loop.
type faultPanic struct{ msg string }

const nilDeref = "invalid memory address or nil pointer dereference"

func (st *State) runDefer(fr *Frame, d deferRec) bool {
	if d.bi != "" {
		st.runDeferBuiltin(fr, d)
		return false
	}
	if d.intr != nil {
		_, ctl := d.intr(st, fr, &callInfo{fn: d.fn, args: d.args, next: fr.pc, dst: -1})
		if ctl == ctlSwitch {
			return true
		}
		if ctl == ctlBlock {
			// push back and retry later
			fr.defers = append(fr.defers, d)
			panic(pathEnd{kind: endUnsupported, msg: "deferred call blocks"})
		}
		return false
	}
	nf := st.pushCall(d.fn, d.args, d.binds, -1)
	nf.deferRun = true
	return true
}

func (st *State) runDeferBuiltin(fr *Frame, d deferRec) {
	switch d.bi {
	case "recover":
		return
	case "print", "println":
		return
	case "close":
		st.closeChan(st.concretize(d.args[0].e, 64))
		return
	case "delete":
		st.mapDelete(d.args[0].e.c, d.args[1])
		return
	}
	panic(pathEnd{kind: endUnsupported, msg: "deferred builtin " + d.bi})
}

func (st *State) pushCall(fn *ssa.Function, args, binds []Val, dst int) *Frame {
	p := st.w.ex.prog
	c := p.code(fn)
	t := st.th()
	if len(t.frames) > 3000 {
		st.violation("panic", "stack overflow (unbounded recursion)", "recursion deeper than 3000 frames in "+fn.String(), st.model)
		panic(pathEnd{kind: endViolation})
	}
	if _, ok := st.w.ex.funcs.Load(fn); !ok {
		st.w.ex.funcs.Store(fn, true)
	}
	fr := newFrame(st, c, args, binds)
	fr.dst = dst
	t.frames = append(t.frames, fr)
	return fr
}

// ---- calls

type callInfo struct {
	fn   *ssa.Function
	args []Val
	next int
	dst  int
	tys  []types.Type
	site ssa.CallInstruction
}

type intrinsic func(st *State, fr *Frame, ci *callInfo) (Val, int)

func argTypes(cm *ssa.CallCommon) []types.Type {
	var out []types.Type
	for _, a := range cm.Args {
		out = append(out, a.Type())
	}
	return out
}

func getArgs(fr *Frame, ops []*operand) []Val {
	out := make([]Val, len(ops))
	for i, o := range ops {
		out[i] = o.get(fr)
	}
	return out
}

func (cc *compiler) call(site ssa.CallInstruction, cm *ssa.CallCommon, dst, next int) insFn {
	if b, ok := cm.Value.(*ssa.Builtin); ok {
		return cc.builtin(b, cm, dst, next)
	}
	ops := cc.ops(cm.Args)
	tys := argTypes(cm)
	if cm.IsInvoke() {
		recv := cc.op(cm.Value)
		m := cm.Method
		return func(st *State, fr *Frame) int {
			iv := recv.get(fr)
			fn, rv, ok := st.resolveInvoke(iv, m)
			if !ok {
				return st.nilPanic()
			}
			args := make([]Val, 0, len(ops)+1)
			args = append(args, rv)
			for _, o := range ops {
				args = append(args, o.get(fr))
			}
			return st.doCall(fr, fn, args, nil, dst, next, nil, site)
		}
	}
	if fn, ok := cm.Value.(*ssa.Function); ok {
		intr := cc.p.intrinsicFor(fn)
		if intr != nil {
			return func(st *State, fr *Frame) int {
				v, ctl := intr(st, fr, &callInfo{fn: fn, args: getArgs(fr, ops), next: next, dst: dst, tys: tys, site: site})
				if ctl != 0 {
					return ctl
				}
				fr.regs[dst] = v
				return next
			}
		}
		return func(st *State, fr *Frame) int {
			fr.pc = next
			st.pushCall(fn, getArgs(fr, ops), nil, dst)
			return ctlSwitch
		}
	}
	fv := cc.op(cm.Value)
	return func(st *State, fr *Frame) int {
		a := st.concretize(fv.e(fr), 64)
		fn, binds, ok := st.resolveFn(a)
		if !ok {
			if a == 0 {
				return st.nilPanic()
			}
			panic(pathEnd{kind: endUnsupported, msg: fmt.Sprintf("call of unknown function value 0x%x", a)})
		}
		return st.doCall(fr, fn, getArgs(fr, ops), binds, dst, next, tys, site)
	}
}

func (st *State) resolveInvoke(iv Val, m *types.Func) (*ssa.Function, Val, bool) {
	tid := st.concretize(iv.agg[0], 64)
	if tid == 0 {
		return nil, Val{}, false
	}
	t := typeByID(tid)
	fn := st.w.ex.prog.lookupMethod(t, m)
	if fn == nil {
		panic(pathEnd{kind: endUnsupported, msg: fmt.Sprintf("no method %s on %v", m.Name(), t)})
	}
	return fn, st.unIface(t, iv.agg[1]), true
}

func (st *State) resolveFn(a uint64) (*ssa.Function, []Val, bool) {
	if fn := fnByAddr(a); fn != nil {
		return fn, nil, true
	}
	o, off := st.obj(a)
	if o == nil || o.fn == nil || off != 0 {
		return nil, nil, false
	}
	fn := o.fn
	binds := make([]Val, len(fn.FreeVars))
	p := 8
	for i, fv := range fn.FreeVars {
		ly := lay(fv.Type())
		binds[i] = st.load(a+uint64(p), ly)
		p += (ly.size + 7) &^ 7
	}
	return fn, binds, true
}

func (st *State) doCall(fr *Frame, fn *ssa.Function, args, binds []Val, dst, next int, tys []types.Type, site ssa.CallInstruction) int {
	if intr := st.w.ex.prog.intrinsicFor(fn); intr != nil {
		v, ctl := intr(st, fr, &callInfo{fn: fn, args: args, next: next, dst: dst, tys: tys, site: site})
		if ctl != 0 {
			return ctl
		}
		if dst >= 0 {
			fr.regs[dst] = v
		}
		return next
	}
	fr.pc = next
	st.pushCall(fn, args, binds, dst)
	return ctlSwitch
}

func (cc *compiler) mkDefer(cm *ssa.CallCommon) func(st *State, fr *Frame) (deferRec, bool) {
	ops := cc.ops(cm.Args)
	if b, ok := cm.Value.(*ssa.Builtin); ok {
		name := b.Name()
		return func(st *State, fr *Frame) (deferRec, bool) {
			return deferRec{bi: name, args: getArgs(fr, ops)}, true
		}
	}
	if cm.IsInvoke() {
		recv := cc.op(cm.Value)
		m := cm.Method
		return func(st *State, fr *Frame) (deferRec, bool) {
			fn, rv, ok := st.resolveInvoke(recv.get(fr), m)
			if !ok {
				return deferRec{}, false
			}
			args := append([]Val{rv}, getArgs(fr, ops)...)
			return deferRec{fn: fn, intr: st.w.ex.prog.intrinsicFor(fn), args: args}, true
		}
	}
	fv := cc.op(cm.Value)
	return func(st *State, fr *Frame) (deferRec, bool) {
		a := st.concretize(fv.e(fr), 64)
		fn, binds, ok := st.resolveFn(a)
		if !ok {
			if a == 0 {
				return deferRec{}, false
			}
			panic(pathEnd{kind: endUnsupported, msg: "defer of unknown function"})
		}
		return deferRec{fn: fn, intr: st.w.ex.prog.intrinsicFor(fn), args: getArgs(fr, ops), binds: binds}, true
	}
}

func (cc *compiler) deferIns(x *ssa.Defer, next int) insFn {
	if x.DeferStack != nil {
		return unsupportedIns("defer in range-over-func body")
	}
	f := cc.mkDefer(&x.Call)
	return func(st *State, fr *Frame) int {
		d, ok := f(st, fr)
		if !ok {
			return st.nilPanic()
		}
		fr.defers = append(fr.defers, d)
		return next
	}
}

func (cc *compiler) goIns(x *ssa.Go, next int) insFn {
	f := cc.mkDefer(&x.Call)
	return func(st *State, fr *Frame) int {
		d, ok := f(st, fr)
		if !ok {
			return st.nilPanic()
		}
		if d.fn == nil || d.intr != nil {
			panic(pathEnd{kind: endUnsupported, msg: "go statement on builtin/intrinsic"})
		}
		st.spawn(d.fn, d.args, d.binds)
		return next
	}
}

func (st *State) spawn(fn *ssa.Function, args, binds []Val) *Thread {
	c := st.w.ex.prog.code(fn)
	st.w.ex.funcs.Store(fn, true)
	fr := newFrame(st, c, args, binds)
	t := &Thread{id: len(st.threads), frames: []*Frame{fr}}
	st.threads = append(st.threads, t)
	return t
}

// ---- run loop and scheduler

func (st *State) run() (end pathEnd) {
	ex := st.w.ex
	for {
		n, flt := st.slice()
		if flt != "" {
			st.rtPanic(flt)
			n = ctlSwitch
		}
		switch n {
		case ctlSwitch:
			t := st.th()
			if len(t.frames) == 0 {
				t.status = thDone
				if t.id == 0 {
					return pathEnd{kind: endDone}
				}
				st.schedule()
				continue
			}
			// a frame that is being unwound and whose deferred call returned
			if t.frames[len(t.frames)-1].unw != 0 {
				st.unwind()
			}
		case ctlBlock:
			st.schedule()
		}
		if atomic.LoadInt32(&ex.stopped) != 0 {
			return pathEnd{kind: endStop}
		}
		if st.steps > ex.maxSteps {
			st.violation("hang", "no termination within the step budget", fmt.Sprintf("%d steps at %s", st.steps, st.where()), st.model)
			return pathEnd{kind: endBudget, msg: st.where()}
		}
	}
}

// slice interprets until control leaves the current frame.
func (st *State) slice() (n int, flt string) {
	defer func() {
		if r := recover(); r != nil {
			if f, ok := r.(faultPanic); ok {
				n, flt = ctlSwitch, f.msg
				return
			}
			panic(r)
		}
	}()
	ex := st.w.ex
	for k := 0; k < 4096; k++ {
		fr := st.top()
		if fr == nil {
			return ctlSwitch, ""
		}
		if fr.unw != 0 {
			return ctlSwitch, ""
		}
		ins := fr.code.ins
		pc := fr.pc
		for {
			fr.pc = pc
			st.steps++
			n := ins[pc](st, fr)
			if n < 0 {
				if n == ctlBlock {
					return n, ""
				}
				break
			}
			pc = n
			if st.steps&0x3fff == 0 && (atomic.LoadInt32(&ex.stopped) != 0 || st.steps > ex.maxSteps) {
				fr.pc = pc
				return ctlSwitch, ""
			}
		}
		if st.steps > ex.maxSteps {
			return ctlSwitch, ""
		}
	}
	return ctlSwitch, ""
}

func (st *State) runnable(t *Thread) bool {
	if t.status == thDone {
		return false
	}
	if t.wait != nil && !t.wait(st) {
		return false
	}
	return true
}

// schedule picks the next runnable thread in round-robin order.
func (st *State) schedule() {
	st.flush()
	st.noNote = true
	defer func() { st.noNote = false }()
	n := len(st.threads)
	for i := 1; i <= n; i++ {
		t := st.threads[(st.cur+i)%n]
		if st.runnable(t) {
			t.wait = nil
			st.cur = t.id
			st.sinceSwitch = 0
			return
		}
	}
	st.violation("deadlock", "all goroutines are blocked", st.where(), st.model)
	panic(pathEnd{kind: endViolation})
}

var _ = token.NoPos
