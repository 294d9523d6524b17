package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Intrinsics replace functions that have no interpretable body (atomics,
// locks, hashing, formatting) or that belong to the harness API.
//
// A fork re-executes the forking call in the child, so an intrinsic takes all
// its decisions before it writes anything.

const vhPkg = "verifharness/vh"

var intrTab = map[string]intrinsic{}

// bodies redirected to a Go model in the harness support package
var redirects = map[string]string{
	"sort.Slice":       "SortSlice",
	"sort.SliceStable": "SortSlice",
	"fmt.Errorf":       "Errorf",
	"fmt.Sprintf":      "Sprintf",
	"fmt.Sprint":       "Sprint",
	"fmt.Fprintf":      "Fprintf",
	"errors.Is":        "ErrorsIs",

	"(*sync.Pool).Get":           "PoolGet",
	"(*sync.Pool).Put":           "PoolPut",
	"(*sync.Map).Load":           "MapLoad",
	"(*sync.Map).Store":          "MapStore",
	"(*sync.Map).LoadOrStore":    "MapLoadOrStore",
	"(*sync.Map).LoadAndDelete":  "MapLoadAndDelete",
	"(*sync.Map).Delete":         "MapDelete",
	"(*sync.Map).Swap":           "MapSwap",
	"(*sync.Map).CompareAndSwap": "MapCompareAndSwap",
	"(*sync.Map).Range":          "MapRange",
	"(*sync.Map).Clear":          "MapClear",

	"internal/bytealg.IndexByte":                "IndexByte",
	"internal/bytealg.IndexByteString":          "IndexByteString",
	"internal/bytealg.LastIndexByte":            "LastIndexByte",
	"internal/bytealg.LastIndexByteString":      "LastIndexByteString",
	"internal/bytealg.Count":                    "CountByte",
	"internal/bytealg.CountString":              "CountByteString",
	"internal/bytealg.Index":                    "IndexBytes",
	"internal/bytealg.IndexString":              "IndexString",
	"internal/bytealg.Equal":                    "EqualBytes",
	"internal/bytealg.Compare":                  "CompareBytes",
	"internal/bytealg.CompareString":            "CompareString",
	"internal/bytealg.abigen_runtime_cmpstring": "CompareString",
	"strings.Index":                             "IndexString",
	"bytes.Index":                               "IndexBytes",
}

// packages whose functions return zero values and do nothing
var stubPkgs = map[string]bool{
	"fmt": true, "os": true, "os/signal": true, "context": true, "log": true, "syscall": true,
	"runtime": true, "runtime/debug": true, "internal/race": true, "internal/godebug": true, "time": true,
	"internal/synctest": true,
}

// packages that read the runtime's own data
var noModel = map[string]bool{"reflect": true, "internal/reflectlite": true, "internal/abi": true, "unique": true, "weak": true}

// functions on concrete floats
var floatFns = map[string]func(float64) float64{
	"Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Round": math.Round, "RoundToEven": math.RoundToEven,
	"Sqrt": math.Sqrt, "Log": math.Log, "Log2": math.Log2, "Log10": math.Log10, "Exp": math.Exp, "Exp2": math.Exp2, "Abs": math.Abs,
}

func floatIntrinsic(f func(x ...float64) float64) intrinsic {
	return func(st *State, fr *Frame, ci *callInfo) (Val, int) {
		var xs []float64
		for _, a := range ci.args {
			if a.e.n != nil {
				panic(pathEnd{kind: endUnsupported, msg: "symbolic float"})
			}
			xs = append(xs, math.Float64frombits(a.e.c))
		}
		return cv(math.Float64bits(f(xs...))), 0
	}
}

// std packages whose init is interpreted
var initPkgs = map[string]bool{"io": true, "math/bits": true, "unicode/utf8": true, "strings": true, "sort": true, "slices": true, "strconv": true}

var intrCache sync.Map // *ssa.Function -> *intrinsic (nil stored as noIntr)

type noIntr struct{}

func fnKey(fn *ssa.Function) (pkg, key string) {
	f := fn
	if o := fn.Origin(); o != nil {
		f = o
	}
	if f.Pkg == nil {
		if f.Object() != nil && f.Object().Pkg() != nil {
			return f.Object().Pkg().Path(), f.RelString(nil)
		}
		return "", f.RelString(nil)
	}
	return f.Pkg.Pkg.Path(), f.RelString(nil)
}

func (p *Program) intrinsicFor(fn *ssa.Function) intrinsic {
	if v, ok := intrCache.Load(fn); ok {
		if _, none := v.(noIntr); none {
			return nil
		}
		return v.(intrinsic)
	}
	it := p.findIntrinsic(fn)
	if it == nil {
		intrCache.Store(fn, noIntr{})
		return nil
	}
	intrCache.Store(fn, it)
	return it
}

func (p *Program) findIntrinsic(fn *ssa.Function) intrinsic {
	if fn.Synthetic != "" && fn.Name() != "init" && fn.Origin() == nil {
		// wrappers, thunks and bounds: interpret
		return nil
	}
	pkg, key := fnKey(fn)
	if it, ok := intrTab[key]; ok {
		return it
	}
	if p.memhash[pkg+"."+fn.Name()] && fn.Signature.Recv() == nil {
		return intrMemhash
	}
	if pkg == "github.com/cespare/xxhash" {
		switch fn.Name() {
		case "Sum64", "Sum64String":
			return intrXX
		}
	}
	if to, ok := redirects[key]; ok {
		if vp := p.prog.ImportedPackage(vhPkg); vp != nil {
			if tf := vp.Func(to); tf != nil {
				return func(st *State, fr *Frame, ci *callInfo) (Val, int) {
					fr.pc = ci.next
					st.pushCall(tf, ci.args, nil, ci.dst)
					return Val{}, ctlSwitch
				}
			}
		}
	}
	if pkg == "math" && fn.Signature.Recv() == nil {
		if f, ok := floatFns[fn.Name()]; ok {
			return floatIntrinsic(func(x ...float64) float64 { return f(x[0]) })
		}
		if fn.Name() == "Pow" || fn.Name() == "Mod" {
			f := math.Pow
			if fn.Name() == "Mod" {
				f = math.Mod
			}
			return floatIntrinsic(func(x ...float64) float64 { return f(x[0], x[1]) })
		}
	}
	if noModel[pkg] && fn.Name() != "init" && !strings.HasSuffix(fn.Name(), "Escape") {
		return func(st *State, fr *Frame, ci *callInfo) (Val, int) {
			panic(pathEnd{kind: endUnsupported, msg: "no model of " + key})
		}
	}
	if pkg == "sync/atomic" {
		if it := atomicIntrinsic(fn); it != nil {
			return it
		}
	}
	if fn.Name() == "init" && fn.Signature.Recv() == nil && isStd(pkg) && !initPkgs[pkg] {
		return zeroIntr(fn)
	}
	if stubPkgs[pkg] {
		return zeroIntr(fn)
	}
	return nil
}

func zeroIntr(fn *ssa.Function) intrinsic {
	res := fn.Signature.Results()
	var v Val
	switch res.Len() {
	case 0:
	case 1:
		v = zeroVal(res.At(0).Type())
	default:
		v = zeroVal(res)
	}
	return func(st *State, fr *Frame, ci *callInfo) (Val, int) { return v, 0 }
}

// ---- sync/atomic

func ptrArg(st *State, e E) (uint64, bool) {
	a := st.concretize(e, 64)
	return a, a != 0
}

func atomicIntrinsic(fn *ssa.Function) intrinsic {
	n := fn.Name()
	if fn.Signature.Recv() != nil {
		// atomic.Value is modelled; the typed wrappers are interpreted
		rt := fn.Signature.Recv().Type().String()
		if rt == "*sync/atomic.Value" {
			return atomicValue(n)
		}
		return nil
	}
	var w uint8
	switch {
	case strings.HasSuffix(n, "Int32"), strings.HasSuffix(n, "Uint32"):
		w = 32
	case strings.HasSuffix(n, "Int64"), strings.HasSuffix(n, "Uint64"), strings.HasSuffix(n, "Uintptr"), strings.HasSuffix(n, "Pointer"):
		w = 64
	default:
		return nil
	}
	sz := w / 8
	addr := func(st *State, ci *callInfo) (uint64, bool) { return ptrArg(st, ci.args[0].e) }
	switch {
	case strings.HasPrefix(n, "Load"):
		return func(st *State, fr *Frame, ci *callInfo) (Val, int) {
			a, ok := addr(st, ci)
			if !ok {
				return Val{}, st.nilPanic()
			}
			return sv(st.read(a, sz)), 0
		}
	case strings.HasPrefix(n, "Store"):
		return func(st *State, fr *Frame, ci *callInfo) (Val, int) {
			a, ok := addr(st, ci)
			if !ok {
				return Val{}, st.nilPanic()
			}
			st.write(a, sz, ci.args[1].e)
			return Val{}, 0
		}
	case strings.HasPrefix(n, "Add"):
		return func(st *State, fr *Frame, ci *callInfo) (Val, int) {
			a, ok := addr(st, ci)
			if !ok {
				return Val{}, st.nilPanic()
			}
			v := bin(OAdd, w, st.read(a, sz), ci.args[1].e)
			st.write(a, sz, v)
			return sv(v), 0
		}
	case strings.HasPrefix(n, "And"), strings.HasPrefix(n, "Or"):
		op := OAnd
		if n[0] == 'O' {
			op = OOr
		}
		return func(st *State, fr *Frame, ci *callInfo) (Val, int) {
			a, ok := addr(st, ci)
			if !ok {
				return Val{}, st.nilPanic()
			}
			old := st.read(a, sz)
			st.write(a, sz, bin(op, w, old, ci.args[1].e))
			return sv(old), 0
		}
	case strings.HasPrefix(n, "Swap"):
		return func(st *State, fr *Frame, ci *callInfo) (Val, int) {
			a, ok := addr(st, ci)
			if !ok {
				return Val{}, st.nilPanic()
			}
			old := st.read(a, sz)
			st.write(a, sz, ci.args[1].e)
			return sv(old), 0
		}
	case strings.HasPrefix(n, "CompareAndSwap"):
		return func(st *State, fr *Frame, ci *callInfo) (Val, int) {
			a, ok := addr(st, ci)
			if !ok {
				return Val{}, st.nilPanic()
			}
			old := st.read(a, sz)
			if st.decide(cmp(OEq, w, old, ci.args[1].e)) {
				st.write(a, sz, ci.args[2].e)
				return bv(true), 0
			}
			return bv(false), 0
		}
	}
	return nil
}

func strPanic(st *State, s string) int {
	return st.goPanic(st.mkIface(typeID(types.Typ[types.String]), types.Typ[types.String], strVal(s)), s)
}

func atomicValue(n string) intrinsic {
	return func(st *State, fr *Frame, ci *callInfo) (Val, int) {
		a, ok := ptrArg(st, ci.args[0].e)
		if !ok {
			return Val{}, st.nilPanic()
		}
		cur := Val{agg: []E{st.read(a, 8), st.read(a+8, 8)}}
		set := func(v Val) {
			st.write(a, 8, v.agg[0])
			st.write(a+8, 8, v.agg[1])
		}
		ct := st.concretize(cur.agg[0], 64)
		switch n {
		case "Load":
			return cur, 0
		case "Store", "Swap":
			v := ci.args[1]
			nt := st.concretize(v.agg[0], 64)
			if nt == 0 {
				return Val{}, strPanic(st, "sync/atomic: "+strings.ToLower(n)+" of nil value into Value")
			}
			if ct != 0 && ct != nt {
				return Val{}, strPanic(st, "sync/atomic: "+strings.ToLower(n)+" of inconsistently typed value into Value")
			}
			set(v)
			if n == "Swap" {
				return cur, 0
			}
			return Val{}, 0
		case "CompareAndSwap":
			o, v := ci.args[1], ci.args[2]
			ot, nt := st.concretize(o.agg[0], 64), st.concretize(v.agg[0], 64)
			if nt == 0 {
				return Val{}, strPanic(st, "sync/atomic: compare and swap of nil value into Value")
			}
			if ot != 0 && ot != nt {
				return Val{}, strPanic(st, "sync/atomic: compare and swap of inconsistently typed values into Value")
			}
			if ct == 0 {
				if ot != 0 {
					return bv(false), 0
				}
				set(v)
				return bv(true), 0
			}
			if ct != nt {
				return Val{}, strPanic(st, "sync/atomic: compare and swap of inconsistently typed value into Value")
			}
			if ot == 0 {
				return bv(false), 0
			}
			t := typeByID(ct)
			if st.decide(st.eqVal(t, st.unIface(t, cur.agg[1]), st.unIface(t, o.agg[1]))) {
				set(v)
				return bv(true), 0
			}
			return bv(false), 0
		}
		panic(pathEnd{kind: endUnsupported, msg: "atomic.Value." + n})
	}
}

// ---- hashing: uninterpreted functions of the (concrete) content

func (st *State) hashVar(kind string, seed uint64, b []byte) E {
	if seed == 0 {
		for r := st.hashes; r != nil; r = r.next {
			if r.key == string(b) {
				if kind == "mh" {
					return r.mh
				}
				return r.xx
			}
		}
	}
	name := kind + ":" + string(b)
	if seed != 0 {
		name = fmt.Sprintf("%s@%x:%s", kind, seed, b)
	}
	return E{n: mkVar(name, 64)}
}

type hashRec struct {
	key    string
	mh, xx E
	next   *hashRec
}

func intrMemhash(st *State, fr *Frame, ci *callInfo) (Val, int) {
	// memhash(p, seed, len) or strhash(p *string, seed)
	p := st.concretize(ci.args[0].e, 64)
	seed := st.concretize(ci.args[1].e, 64)
	if len(ci.args) < 3 {
		panic(pathEnd{kind: endUnsupported, msg: "hash function shape"})
	}
	n := st.concretize(ci.args[2].e, 64)
	b := st.goString(Val{agg: []E{conc(p), conc(n)}})
	return sv(st.hashVar("mh", seed, []byte(b))), 0
}

func intrXX(st *State, fr *Frame, ci *callInfo) (Val, int) {
	b := st.goString(Val{agg: ci.args[0].agg[:2]})
	return sv(st.hashVar("xx", 0, []byte(b))), 0
}

// ---- locks

func fatalErr(st *State, msg string) {
	st.violation("panic", "fatal error: "+msg, "fatal error: "+msg+" @ "+st.where(), st.model)
	panic(pathEnd{kind: endViolation})
}

func muLock(st *State, fr *Frame, ci *callInfo) (Val, int) {
	a, ok := ptrArg(st, ci.args[0].e)
	if !ok {
		return Val{}, st.nilPanic()
	}
	s := st.concretize(st.read(a, 4), 32)
	if s != 0 {
		t := st.th()
		t.wait = func(st *State) bool { return st.read(a, 4).c == 0 }
		return Val{}, ctlBlock
	}
	st.write(a, 4, conc(1))
	return Val{}, 0
}

func muTryLock(st *State, fr *Frame, ci *callInfo) (Val, int) {
	a, ok := ptrArg(st, ci.args[0].e)
	if !ok {
		return Val{}, st.nilPanic()
	}
	if st.concretize(st.read(a, 4), 32) != 0 {
		return bv(false), 0
	}
	st.write(a, 4, conc(1))
	return bv(true), 0
}

func muUnlock(st *State, fr *Frame, ci *callInfo) (Val, int) {
	a, ok := ptrArg(st, ci.args[0].e)
	if !ok {
		return Val{}, st.nilPanic()
	}
	if st.concretize(st.read(a, 4), 32) == 0 {
		fatalErr(st, "sync: unlock of unlocked mutex")
	}
	st.write(a, 4, conc(0))
	return Val{}, 0
}

const rwReaders, rwWaiting = 16, 4

func init() {
	reg := func(k string, f intrinsic) { intrTab[k] = f }
	reg("(*sync.Mutex).Lock", muLock)
	reg("(*sync.Mutex).TryLock", muTryLock)
	reg("(*sync.Mutex).Unlock", muUnlock)
	defer func() {
		for k, f := range intrTab {
			if strings.HasPrefix(k, "(*sync.Mutex)") || strings.HasPrefix(k, "(*sync.RWMutex)") {
				intrTab[strings.Replace(k, "(*sync.", "(*verifharness/vsched.", 1)] = f
			}
		}
	}()
	reg("(*sync.RWMutex).Lock", func(st *State, fr *Frame, ci *callInfo) (Val, int) {
		a, ok := ptrArg(st, ci.args[0].e)
		if !ok {
			return Val{}, st.nilPanic()
		}
		t := st.th()
		if t.rwWait == a {
			t.rwWait = 0
			st.write(a+rwWaiting, 4, conc(st.read(a+rwWaiting, 4).c-1))
		}
		if st.read(a, 4).c != 0 || st.read(a+rwReaders, 4).c != 0 {
			// a waiting writer keeps new readers out
			t.rwWait = a
			st.write(a+rwWaiting, 4, conc(st.read(a+rwWaiting, 4).c+1))
			t.wait = func(st *State) bool { return st.read(a, 4).c == 0 && st.read(a+rwReaders, 4).c == 0 }
			return Val{}, ctlBlock
		}
		st.write(a, 4, conc(1))
		return Val{}, 0
	})
	reg("(*sync.RWMutex).TryLock", func(st *State, fr *Frame, ci *callInfo) (Val, int) {
		a, ok := ptrArg(st, ci.args[0].e)
		if !ok {
			return Val{}, st.nilPanic()
		}
		if st.read(a, 4).c != 0 || st.read(a+rwReaders, 4).c != 0 {
			return bv(false), 0
		}
		st.write(a, 4, conc(1))
		return bv(true), 0
	})
	reg("(*sync.RWMutex).Unlock", func(st *State, fr *Frame, ci *callInfo) (Val, int) {
		a, ok := ptrArg(st, ci.args[0].e)
		if !ok {
			return Val{}, st.nilPanic()
		}
		if st.read(a, 4).c == 0 {
			fatalErr(st, "sync: Unlock of unlocked RWMutex")
		}
		st.write(a, 4, conc(0))
		return Val{}, 0
	})
	reg("(*sync.RWMutex).RLock", func(st *State, fr *Frame, ci *callInfo) (Val, int) {
		a, ok := ptrArg(st, ci.args[0].e)
		if !ok {
			return Val{}, st.nilPanic()
		}
		if st.read(a, 4).c != 0 || st.read(a+rwWaiting, 4).c != 0 {
			st.th().wait = func(st *State) bool { return st.read(a, 4).c == 0 && st.read(a+rwWaiting, 4).c == 0 }
			return Val{}, ctlBlock
		}
		st.write(a+rwReaders, 4, conc(st.read(a+rwReaders, 4).c+1))
		return Val{}, 0
	})
	reg("(*sync.RWMutex).RUnlock", func(st *State, fr *Frame, ci *callInfo) (Val, int) {
		a, ok := ptrArg(st, ci.args[0].e)
		if !ok {
			return Val{}, st.nilPanic()
		}
		n := st.read(a+rwReaders, 4).c
		if n == 0 {
			fatalErr(st, "sync: RUnlock of unlocked RWMutex")
		}
		st.write(a+rwReaders, 4, conc(n-1))
		return Val{}, 0
	})
	// WaitGroup: a counter in the first 8 bytes
	reg("(*sync.WaitGroup).Add", func(st *State, fr *Frame, ci *callInfo) (Val, int) {
		a, ok := ptrArg(st, ci.args[0].e)
		if !ok {
			return Val{}, st.nilPanic()
		}
		v := int64(st.read(a, 8).c) + int64(st.concretize(ci.args[1].e, 64))
		if v < 0 {
			return Val{}, strPanic(st, "sync: negative WaitGroup counter")
		}
		st.write(a, 8, conc(uint64(v)))
		return Val{}, 0
	})
	reg("(*sync.WaitGroup).Done", func(st *State, fr *Frame, ci *callInfo) (Val, int) {
		a, ok := ptrArg(st, ci.args[0].e)
		if !ok {
			return Val{}, st.nilPanic()
		}
		v := int64(st.read(a, 8).c) - 1
		if v < 0 {
			return Val{}, strPanic(st, "sync: negative WaitGroup counter")
		}
		st.write(a, 8, conc(uint64(v)))
		return Val{}, 0
	})
	reg("(*sync.WaitGroup).Wait", func(st *State, fr *Frame, ci *callInfo) (Val, int) {
		a, ok := ptrArg(st, ci.args[0].e)
		if !ok {
			return Val{}, st.nilPanic()
		}
		if st.read(a, 8).c != 0 {
			st.th().wait = func(st *State) bool { return st.read(a, 8).c == 0 }
			return Val{}, ctlBlock
		}
		return Val{}, 0
	})

	// math/bits
	revN := func(w uint8) intrinsic {
		return func(st *State, fr *Frame, ci *callInfo) (Val, int) { return sv(rev(ci.args[0].e, w)), 0 }
	}
	reg("math/bits.Reverse64", revN(64))
	reg("math/bits.Reverse", revN(64))
	reg("math/bits.Reverse32", revN(32))
	reg("math/bits.Reverse16", revN(16))
	reg("math/bits.Reverse8", revN(8))

	reg("internal/bytealg.MakeNoZero", func(st *State, fr *Frame, ci *callInfo) (Val, int) {
		n := st.concretize(ci.args[0].e, 64)
		a := st.alloc(types.Typ[types.Uint8], int(n))
		return Val{agg: []E{conc(a), conc(n), conc(n)}}, 0
	})
	cpus := func(st *State, fr *Frame, ci *callInfo) (Val, int) { return cv(4), 0 }
	reg("runtime.NumCPU", cpus)
	reg("runtime.GOMAXPROCS", cpus)
	reg("runtime.NumGoroutine", func(st *State, fr *Frame, ci *callInfo) (Val, int) {
		n := 0
		for _, t := range st.threads {
			if t.status != thDone {
				n++
			}
		}
		return cv(uint64(n)), 0
	})
	reg("(*sync.RWMutex).TryRLock", func(st *State, fr *Frame, ci *callInfo) (Val, int) {
		a, ok := ptrArg(st, ci.args[0].e)
		if !ok {
			return Val{}, st.nilPanic()
		}
		if st.read(a, 4).c != 0 || st.read(a+rwWaiting, 4).c != 0 {
			return bv(false), 0
		}
		st.write(a+rwReaders, 4, conc(st.read(a+rwReaders, 4).c+1))
		return bv(true), 0
	})
	// sync.Cond: tickets given out and tickets called
	const cWait, cNotify = 0, 4
	reg("sync.runtime_notifyListCheck", func(st *State, fr *Frame, ci *callInfo) (Val, int) { return Val{}, 0 })
	reg("sync.runtime_notifyListAdd", func(st *State, fr *Frame, ci *callInfo) (Val, int) {
		a := st.concretize(ci.args[0].e, 64)
		n := st.read(a+cWait, 4)
		st.write(a+cWait, 4, conc(n.c+1))
		return sv(n), 0
	})
	reg("sync.runtime_notifyListWait", func(st *State, fr *Frame, ci *callInfo) (Val, int) {
		a, n := st.concretize(ci.args[0].e, 64), st.concretize(ci.args[1].e, 32)
		if st.read(a+cNotify, 4).c <= n {
			st.th().wait = func(st *State) bool { return st.read(a+cNotify, 4).c > n }
			return Val{}, ctlBlock
		}
		return Val{}, 0
	})
	reg("sync.runtime_notifyListNotifyAll", func(st *State, fr *Frame, ci *callInfo) (Val, int) {
		a := st.concretize(ci.args[0].e, 64)
		st.write(a+cNotify, 4, st.read(a+cWait, 4))
		return Val{}, 0
	})
	reg("sync.runtime_notifyListNotifyOne", func(st *State, fr *Frame, ci *callInfo) (Val, int) {
		a := st.concretize(ci.args[0].e, 64)
		if n := st.read(a+cNotify, 4).c; n < st.read(a+cWait, 4).c {
			st.write(a+cNotify, 4, conc(n+1))
		}
		return Val{}, 0
	})
	reg("runtime.Gosched", func(st *State, fr *Frame, ci *callInfo) (Val, int) {
		fr.pc = ci.next
		return Val{}, ctlBlock
	})

	// ---- harness API
	v := func(n string, f intrinsic) { reg(vhPkg+"."+n, f) }
	v("U64", func(st *State, fr *Frame, ci *callInfo) (Val, int) {
		return sv(E{n: st.input(st.goString(ci.args[0]), 64)}), 0
	})
	v("Bool", func(st *State, fr *Frame, ci *callInfo) (Val, int) {
		return sv(E{n: st.input(st.goString(ci.args[0]), 0)}), 0
	})
	v("Byte", func(st *State, fr *Frame, ci *callInfo) (Val, int) {
		return sv(E{n: st.input(st.goString(ci.args[0]), 8)}), 0
	})
	v("Int", func(st *State, fr *Frame, ci *callInfo) (Val, int) {
		n := E{n: st.input(st.goString(ci.args[0]), 64)}
		lo, hi := ci.args[1].e, ci.args[2].e
		st.assume(band(bnot(cmp(OSlt, 64, n, lo)), bnot(cmp(OSlt, 64, hi, n))))
		return sv(n), 0
	})
	v("Choice", func(st *State, fr *Frame, ci *callInfo) (Val, int) {
		name := st.goString(ci.args[0])
		cnt := st.concretize(ci.args[1].e, 64)
		if cnt <= 1 {
			return cv(0), 0
		}
		// the counter is bumped only once the value is fixed
		k := st.names[name]
		n := E{n: inputVar(name, k, 8)}
		st.assume(cmp(OUlt, 8, n, conc(cnt)))
		for i := uint64(0); i < cnt; i++ {
			if i == cnt-1 || st.decide(cmp(OEq, 8, n, conc(i))) {
				st.names[name] = k + 1
				return cv(i), 0
			}
		}
		return cv(0), 0
	})
	v("Param", func(st *State, fr *Frame, ci *callInfo) (Val, int) {
		if n, ok := st.w.ex.params[st.goString(ci.args[0])]; ok {
			return cv(uint64(n)), 0
		}
		return ci.args[1], 0
	})
	v("Concrete", func(st *State, fr *Frame, ci *callInfo) (Val, int) {
		return cv(st.concretize(ci.args[0].e, 64)), 0
	})
	v("Assume", func(st *State, fr *Frame, ci *callInfo) (Val, int) {
		st.assume(ci.args[0].e)
		return Val{}, 0
	})
	v("Assert", func(st *State, fr *Frame, ci *callInfo) (Val, int) {
		st.assert(ci.args[0].e, st.goString(ci.args[1]))
		return Val{}, 0
	})
	v("Reach", func(st *State, fr *Frame, ci *callInfo) (Val, int) {
		l := st.goString(ci.args[0])
		for r := st.reach; r != nil; r = r.next {
			if r.label == l {
				return Val{}, 0
			}
		}
		st.reach = &reachList{l, st.reach}
		return Val{}, 0
	})
	v("SetHash", func(st *State, fr *Frame, ci *callInfo) (Val, int) {
		st.hashes = &hashRec{st.goString(ci.args[0]), ci.args[1].e, ci.args[2].e, st.hashes}
		return Val{}, 0
	})
	v("Native", func(st *State, fr *Frame, ci *callInfo) (Val, int) { return bv(false), 0 })
	v("RunGC", intrRunGC)
	v("Retained", intrRetained)
	v("MaxPreempt", func(st *State, fr *Frame, ci *callInfo) (Val, int) {
		st.maxPre = int(st.concretize(ci.args[0].e, 64))
		return Val{}, 0
	})
	v("spawn", func(st *State, fr *Frame, ci *callInfo) (Val, int) {
		a := st.concretize(ci.args[0].e, 64)
		fn, binds, ok := st.resolveFn(a)
		if !ok {
			return Val{}, st.nilPanic()
		}
		st.spawn(fn, nil, binds)
		return Val{}, 0
	})
	v("parWait", func(st *State, fr *Frame, ci *callInfo) (Val, int) {
		for _, t := range st.threads[1:] {
			if t.status != thDone {
				st.par = true
				if st.dom == nil {
					st.dom = &domain{base: len(st.objs), acc: map[uint64]accMask{}, waiting: map[uint64][]*cand{}, ex: st.w.ex}
				}
				st.th().wait = func(st *State) bool {
					for _, t := range st.threads[1:] {
						if t.status != thDone {
							return false
						}
					}
					return true
				}
				return Val{}, ctlBlock
			}
		}
		st.par = false
		st.flush()
		st.dom, st.cand, st.seg = nil, nil, nil
		st.threads = st.threads[:1:1]
		return Val{}, 0
	})
	v("sliceLen", func(st *State, fr *Frame, ci *callInfo) (Val, int) {
		iv := ci.args[0]
		t := typeByID(st.concretize(iv.agg[0], 64))
		return sv(st.unIface(t, iv.agg[1]).agg[1]), 0
	})
	v("swapElems", func(st *State, fr *Frame, ci *callInfo) (Val, int) {
		iv := ci.args[0]
		t := typeByID(st.concretize(iv.agg[0], 64))
		s := st.unIface(t, iv.agg[1])
		et := under(t).(*types.Slice).Elem()
		es := uint64(sizes.Sizeof(et))
		i, j := st.concretize(ci.args[1].e, 64), st.concretize(ci.args[2].e, 64)
		p := st.concretize(s.agg[0], 64)
		tmp := st.alloc(et, 1)
		st.memmove(tmp, p+i*es, int(es))
		st.memmove(p+i*es, p+j*es, int(es))
		st.memmove(p+j*es, tmp, int(es))
		return Val{}, 0
	})
	reg("verifharness/vsched.Yield", intrYield)
	reg("verifharness/vsched.Pause", func(st *State, fr *Frame, ci *callInfo) (Val, int) {
		fr.pc = ci.next
		return Val{}, ctlBlock
	})
}

func inputVar(name string, k int, w uint8) *Node {
	if k > 0 {
		name = fmt.Sprintf("%s#%d", name, k+1)
	}
	return mkVar(name, w)
}

func (st *State) input(name string, w uint8) *Node {
	k := st.names[name]
	st.names[name] = k + 1
	return inputVar(name, k, w)
}

// intrYield is a scheduling point of the instrumented code.  The position of
// the k-th preemption is the symbolic variable preempt#k (0: never).
func intrYield(st *State, fr *Frame, ci *callInfo) (Val, int) {
	if !st.par {
		return Val{}, 0
	}
	live := 0
	for _, t := range st.threads {
		if t.status != thDone && t.id != 0 {
			live++
		}
	}
	if live < 2 {
		st.flush()
		return Val{}, 0
	}
	st.flush()
	if st.pendSwitch {
		st.pendSwitch = false
		st.yields++
		st.preempts++
		fr.pc = ci.next
		return Val{}, ctlBlock
	}
	if st.sinceSwitch >= 2000 {
		// forced switch: a spinning thread cannot starve the others
		st.yields++
		fr.pc = ci.next
		return Val{}, ctlBlock
	}
	if st.preempts < st.maxPre {
		pv := mkVar(fmt.Sprintf("preempt#%d", st.preempts+1), 32)
		pos := uint64(st.yields + 1)
		ch := st.clone()
		ch.pendSwitch = true
		ch.pc = st.pc.push(cmp(OEq, 32, E{n: pv}, conc(pos)).n, false)
		n := numVars()
		m := make(Model, n)
		for i := 0; i < n; i++ {
			m[i] = st.model.get(uint64(i))
		}
		m[pv.k] = pos
		ch.model = m
		st.cand = &cand{st: ch, tid: st.th().id}
	}
	st.yields++
	st.sinceSwitch++
	return Val{}, 0
}
