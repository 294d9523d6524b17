package main

import (
	"go/token"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// A channel is an object with counters and a ring of messages. An unbuffered
// channel has one place: its sender waits until the message is taken.
const chN, chClosed, chCap, chHead, chTaken, chSent, chBuf = 0, 8, 16, 24, 32, 40, 48

var chanObjType = sync.OnceValue(func() types.Type {
	f := func(n string, t types.Type) *types.Var { return types.NewField(token.NoPos, nil, n, t, false) }
	u := types.Typ[types.Uint64]
	return types.NewStruct([]*types.Var{f("n", u), f("closed", u), f("cap", u), f("head", u), f("taken", u), f("sent", u),
		f("buf", types.Typ[types.UnsafePointer])}, nil)
})

func (cc *compiler) makeChan(x *ssa.MakeChan, dst, next int) insFn {
	et := under(x.Type()).(*types.Chan).Elem()
	size := cc.op(x.Size)
	return func(st *State, fr *Frame) int {
		n := st.concretize(size.e(fr), 64)
		if int64(n) < 0 || n > 1<<16 {
			return st.rtPanic("makechan: size out of range")
		}
		a := st.alloc(chanObjType(), 1)
		m := n
		if m == 0 {
			m = 1
		}
		st.write(a+chCap, 8, conc(n))
		st.write(a+chBuf, 8, conc(st.alloc(et, int(m))))
		fr.regs[dst] = cv(a)
		return next
	}
}

func (st *State) chWord(a, off uint64) uint64 { return st.read(a+off, 8).c }

func (st *State) chSlots(a uint64) uint64 {
	if n := st.chWord(a, chCap); n > 0 {
		return n
	}
	return 1
}

func (st *State) chPut(a uint64, et types.Type, v Val) {
	n, m := st.chWord(a, chN), st.chSlots(a)
	at := (st.chWord(a, chHead) + n) % m
	st.write(a+chN, 8, conc(n+1))
	st.write(a+chSent, 8, conc(st.chWord(a, chSent)+1))
	st.store(st.chWord(a, chBuf)+at*uint64(sizes.Sizeof(et)), lay(et), v)
}

func (st *State) chTake(a uint64, et types.Type) Val {
	n, m, at := st.chWord(a, chN), st.chSlots(a), st.chWord(a, chHead)
	p := st.chWord(a, chBuf) + at*uint64(sizes.Sizeof(et))
	v := st.load(p, lay(et))
	st.store(p, lay(et), zeroVal(et))
	st.write(a+chN, 8, conc(n-1))
	st.write(a+chHead, 8, conc((at+1)%m))
	st.write(a+chTaken, 8, conc(st.chWord(a, chTaken)+1))
	return v
}

func (st *State) closeChan(a uint64) int {
	if a == 0 {
		return st.rtPanic("close of nil channel")
	}
	if st.chWord(a, chClosed) != 0 {
		return st.rtPanic("close of closed channel")
	}
	st.write(a+chClosed, 8, conc(1))
	return 0
}

// canSend and canRecv: would the operation go on at once?
func (st *State) canSend(a uint64) bool {
	if a == 0 {
		return false
	}
	return st.chWord(a, chClosed) != 0 || st.chWord(a, chN) < st.chSlots(a)
}

func (st *State) canRecv(a uint64) bool {
	return a != 0 && (st.chWord(a, chN) > 0 || st.chWord(a, chClosed) != 0)
}

func (cc *compiler) send(x *ssa.Send, next int) insFn {
	ch, v := cc.op(x.Chan), cc.op(x.X)
	et := under(x.Chan.Type()).(*types.Chan).Elem()
	return func(st *State, fr *Frame) int {
		a := st.concretize(ch.e(fr), 64)
		t := st.th()
		if t.chWait != 0 && t.chWait == a { // sent: taken meanwhile?
			seq := t.chSeq
			if st.chWord(a, chTaken) < seq {
				t.wait = func(st *State) bool { return st.chWord(a, chTaken) >= seq }
				return ctlBlock
			}
			t.chWait = 0
			return next
		}
		if !st.canSend(a) {
			t.wait = func(st *State) bool { return st.canSend(a) }
			return ctlBlock
		}
		if st.chWord(a, chClosed) != 0 {
			return st.rtPanic("send on closed channel")
		}
		st.chPut(a, et, v.get(fr))
		if st.chWord(a, chCap) == 0 {
			t.chWait, t.chSeq = a, st.chWord(a, chSent)
			seq := t.chSeq
			t.wait = func(st *State) bool { return st.chWord(a, chTaken) >= seq }
			return ctlBlock
		}
		return next
	}
}

func (cc *compiler) recv(x *ssa.UnOp, dst, next int) insFn {
	ch := cc.op(x.X)
	et := under(x.X.Type()).(*types.Chan).Elem()
	return func(st *State, fr *Frame) int {
		a := st.concretize(ch.e(fr), 64)
		t := st.th()
		if !st.canRecv(a) {
			t.chRecv = a
			t.wait = func(st *State) bool { return st.canRecv(a) }
			return ctlBlock
		}
		t.chRecv = 0
		v, ok := zeroVal(et), false
		if st.chWord(a, chN) > 0 {
			v, ok = st.chTake(a, et), true
		}
		if x.CommaOk {
			v = Val{agg: append(appendVal(nil, v, et), concB(ok))}
		}
		fr.regs[dst] = v
		return next
	}
}

// sel takes the first ready case in the order of the source.
func (cc *compiler) sel(x *ssa.Select, dst, next int) insFn {
	type arm struct {
		send bool
		ch   *operand
		v    *operand
		et   types.Type
	}
	var arms []arm
	for _, s := range x.States {
		a := arm{send: s.Dir == types.SendOnly, ch: cc.op(s.Chan), et: under(s.Chan.Type()).(*types.Chan).Elem()}
		if a.send {
			a.v = cc.op(s.Send)
		}
		arms = append(arms, a)
	}
	return func(st *State, fr *Frame) int {
		chs := make([]uint64, len(arms))
		for i := range arms {
			chs[i] = st.concretize(arms[i].ch.e(fr), 64)
		}
		at := -1
		for i, m := range arms {
			ok := st.canRecv(chs[i])
			if m.send {
				ok = st.canSend(chs[i])
				if ok && !x.Blocking && st.chWord(chs[i], chCap) == 0 && st.chWord(chs[i], chClosed) == 0 {
					ok = false
					for _, t := range st.threads {
						ok = ok || t.chRecv == chs[i]
					}
				}
			}
			if ok {
				at = i
				break
			}
		}
		if at < 0 && x.Blocking {
			st.th().wait = func(st *State) bool {
				for i, m := range arms {
					if m.send && st.canSend(chs[i]) || !m.send && st.canRecv(chs[i]) {
						return true
					}
				}
				return false
			}
			return ctlBlock
		}
		if at >= 0 && arms[at].send && st.chWord(chs[at], chClosed) != 0 {
			return st.rtPanic("send on closed channel")
		}
		r := Val{agg: []E{conc(uint64(int64(at))), concB(false)}}
		for i, m := range arms {
			if m.send {
				if i == at {
					st.chPut(chs[i], m.et, m.v.get(fr))
				}
				continue
			}
			v := zeroVal(m.et)
			if i == at && st.chWord(chs[i], chN) > 0 {
				v = st.chTake(chs[i], m.et)
				r.agg[1] = concB(true)
			}
			r.agg = appendVal(r.agg, v, m.et)
		}
		fr.regs[dst] = r
		return next
	}
}
