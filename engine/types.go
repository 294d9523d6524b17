package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

var sizes = types.SizesFor("gc", "amd64")

type leafKind uint8

const (
	lkInt leafKind = iota
	lkBool
	lkFloat
)

type leaf struct {
	off  int
	size uint8 // bytes
	kind leafKind
	sgn  bool
}

func (l leaf) w() uint8 {
	if l.kind == lkBool {
		return 0
	}
	return l.size * 8
}

type layout struct {
	t      types.Type
	size   int
	leaves []leaf
	scalar bool
	zero   Val
}

var layoutCache sync.Map // types.Type -> *layout

// Val is a register value: scalar in e, otherwise flattened leaves in agg.
type Val struct {
	e   E
	agg []E
}

func sv(e E) Val      { return Val{e: e} }
func cv(c uint64) Val { return Val{e: E{c: c}} }
func bv(b bool) Val   { return Val{e: concB(b)} }

func lay(t types.Type) *layout {
	if l, ok := layoutCache.Load(t); ok {
		return l.(*layout)
	}
	l := &layout{t: t, size: int(sizes.Sizeof(t))}
	l.leaves = appendLeaves(nil, t, 0)
	l.scalar = isScalar(t)
	if !l.scalar {
		l.zero = Val{agg: make([]E, len(l.leaves))}
	}
	layoutCache.Store(t, l)
	return l
}

func under(t types.Type) types.Type { return t.Underlying() }

func isScalar(t types.Type) bool {
	switch u := under(t).(type) {
	case *types.Basic:
		return u.Info()&(types.IsString|types.IsComplex) == 0
	case *types.Pointer, *types.Chan, *types.Map, *types.Signature:
		return true
	}
	return false
}

func scalarLeaf(t types.Type) leaf {
	switch u := under(t).(type) {
	case *types.Basic:
		l := leaf{size: uint8(sizes.Sizeof(u))}
		inf := u.Info()
		switch {
		case inf&types.IsBoolean != 0:
			l.kind, l.size = lkBool, 1
		case inf&types.IsFloat != 0:
			l.kind = lkFloat
			if l.size == 0 {
				l.size = 8
			}
		case inf&types.IsInteger != 0:
			l.sgn = inf&types.IsUnsigned == 0
			if u.Kind() == types.UntypedInt || u.Kind() == types.UntypedRune {
				l.size = 8
			}
		default:
			l.size = 8
		}
		return l
	}
	return leaf{size: 8}
}

func appendLeaves(ls []leaf, t types.Type, off int) []leaf {
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return append(ls, leaf{off: off, size: 8}, leaf{off: off + 8, size: 8, sgn: true})
		}
		if u.Info()&types.IsComplex != 0 {
			h := uint8(sizes.Sizeof(u) / 2)
			return append(ls, leaf{off: off, size: h, kind: lkFloat}, leaf{off: off + int(h), size: h, kind: lkFloat})
		}
		l := scalarLeaf(t)
		l.off = off
		return append(ls, l)
	case *types.Slice:
		return append(ls, leaf{off: off, size: 8}, leaf{off: off + 8, size: 8, sgn: true}, leaf{off: off + 16, size: 8, sgn: true})
	case *types.Interface:
		return append(ls, leaf{off: off, size: 8}, leaf{off: off + 8, size: 8})
	case *types.Struct:
		fs := make([]*types.Var, u.NumFields())
		for i := range fs {
			fs[i] = u.Field(i)
		}
		offs := sizes.Offsetsof(fs)
		for i := range fs {
			ls = appendLeaves(ls, fs[i].Type(), off+int(offs[i]))
		}
		return ls
	case *types.Array:
		es := int(sizes.Sizeof(u.Elem()))
		if u.Len() > 100000 {
			panic(pathEnd{kind: endUnsupported, msg: "huge array value"})
		}
		for i := 0; i < int(u.Len()); i++ {
			ls = appendLeaves(ls, u.Elem(), off+i*es)
		}
		return ls
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			ls = appendLeaves(ls, u.At(i).Type(), 0)
		}
		return ls
	default:
		l := scalarLeaf(t)
		l.off = off
		return append(ls, l)
	}
}

func nleaves(t types.Type) int {
	if isScalar(t) {
		return 1
	}
	return len(lay(t).leaves)
}

// fieldRange gives the leaf range of field i in a struct type.
func fieldRange(st *types.Struct, i int) (lo, hi int) {
	for j := 0; j < i; j++ {
		lo += nleaves(st.Field(j).Type())
	}
	return lo, lo + nleaves(st.Field(i).Type())
}

func subVal(v Val, lo, hi int, t types.Type) Val {
	if isScalar(t) {
		return Val{e: v.agg[lo]}
	}
	return Val{agg: v.agg[lo:hi:hi]}
}

func appendVal(agg []E, v Val, t types.Type) []E {
	if isScalar(t) {
		return append(agg, v.e)
	}
	return append(agg, v.agg...)
}

func fieldOff(st *types.Struct, i int) int {
	fs := make([]*types.Var, i+1)
	for j := range fs {
		fs[j] = st.Field(j)
	}
	return int(sizes.Offsetsof(fs)[i])
}

// ---- type ids

var (
	tidMu   sync.RWMutex
	tidMap  typeutil.Map
	tidList = []types.Type{nil}
)

func typeID(t types.Type) uint64 {
	tidMu.Lock()
	defer tidMu.Unlock()
	if v := tidMap.At(t); v != nil {
		return v.(uint64)
	}
	id := uint64(len(tidList))
	tidList = append(tidList, t)
	tidMap.Set(t, id)
	return id
}

func typeByID(id uint64) types.Type {
	tidMu.RLock()
	defer tidMu.RUnlock()
	if id >= uint64(len(tidList)) {
		return nil
	}
	return tidList[id]
}

// ---- constants

type constStrTab struct {
	mu  sync.RWMutex
	idx map[string]int
	obj []*Object
}

var cstrs = constStrTab{idx: map[string]int{}}

func constStr(s string) (ptr uint64) {
	if len(s) == 0 {
		return 0
	}
	cstrs.mu.RLock()
	i, ok := cstrs.idx[s]
	cstrs.mu.RUnlock()
	if ok {
		return constBase + uint64(i)<<objShift
	}
	cstrs.mu.Lock()
	defer cstrs.mu.Unlock()
	if i, ok := cstrs.idx[s]; ok {
		return constBase + uint64(i)<<objShift
	}
	i = len(cstrs.obj)
	cstrs.obj = append(cstrs.obj, &Object{data: []byte(s), ro: true, typ: types.Typ[types.Uint8], n: len(s)})
	cstrs.idx[s] = i
	return constBase + uint64(i)<<objShift
}

func strVal(s string) Val {
	return Val{agg: []E{conc(constStr(s)), conc(uint64(len(s)))}}
}

func zeroVal(t types.Type) Val {
	l := lay(t)
	return l.zero
}

func constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	b, ok := under(t).(*types.Basic)
	if !ok {
		// generic constant of type-parameter type etc.
		panic(fmt.Sprintf("const of type %v", t))
	}
	inf := b.Info()
	switch {
	case inf&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return strVal(constant.StringVal(c.Value))
		}
		i, _ := constant.Int64Val(c.Value)
		return strVal(string(rune(i)))
	case inf&types.IsBoolean != 0:
		return bv(constant.BoolVal(c.Value))
	case inf&types.IsInteger != 0 || b.Kind() == types.UnsafePointer:
		v := constant.ToInt(c.Value)
		w := scalarLeaf(t).w()
		if u, ok := constant.Uint64Val(v); ok {
			return cv(u & mask(w))
		}
		i, _ := constant.Int64Val(v)
		return cv(uint64(i) & mask(w))
	case inf&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		return cv(floatBits(f, scalarLeaf(t).size))
	}
	panic(pathEnd{kind: endUnsupported, msg: "constant of type " + t.String()})
}

func floatBits(f float64, size uint8) uint64 {
	if size == 4 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}

func bitsFloat(c uint64, size uint8) float64 {
	if size == 4 {
		return float64(math.Float32frombits(uint32(c)))
	}
	return math.Float64frombits(c)
}
