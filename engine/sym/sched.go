package sym

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/engine/smt"
)

type opKind uint8

const (
	opNone opKind = iota // runnable
	opLock
	opRLock
	opCond
	opSend
	opRecv
	opSelect
	opWG
	opSleep
	opAtomic
	opQuiesce
	opAwait
)

type selCase struct {
	ch   int32
	send bool
}

type pendOp struct {
	kind   opKind
	p      Ptr
	p2     Ptr
	ticket uint64
	ch     int32
	until  int64
	cases  []selCase
	deflt  bool
}

const ctlYield, ctlFrame, ctlOK = 1, 2, 0

func (st *State) explore() bool { return st.w.run.cfg.Mode == "explore" }

// enter reports whether the thread may perform the visible operation op now; if not, the
// thread yields and the instruction is executed again when the scheduler grants it.
func (st *State) enter(t *Thread, op pendOp) bool {
	if st.grant {
		return true
	}
	if !st.explore() || (st.preempt == 0 && st.timerBudget == 0) {
		if op.kind != opQuiesce && st.opReady(t, &op) {
			st.sched = append(st.sched, int16(t.id))
			st.grant = true
			return true
		}
	}
	t.op = op
	return false
}

func (st *State) slotU(p Ptr) uint64 {
	v := st.loadSlot(p.obj, p.off)
	if v == nil {
		return 0
	}
	t := termOf(v)
	if !t.IsConst() {
		panic(unsupported{"symbolic synchronisation state"})
	}
	return t.Val
}

func (st *State) setSlotU(p Ptr, w uint8, v uint64) { st.storeSlot(p.obj, p.off, smt.Const(w, v)) }

func (st *State) opReady(t *Thread, op *pendOp) bool {
	switch op.kind {
	case opNone, opAtomic:
		return true
	case opLock:
		return st.slotU(op.p) == 0 && (op.p2.obj == 0 || st.slotU(op.p2) == 0)
	case opRLock:
		return st.slotU(op.p) == 0
	case opCond:
		return op.ticket == notified && (op.p2.obj == 0 || st.slotU(op.p2) == 0)
	case opWG:
		return int64(st.slotU(op.p)) == 0
	case opSleep:
		return st.now >= op.until
	case opAwait:
		v := termOf(st.loadSlot(op.p.obj, op.p.off))
		if v.IsConst() {
			return v.Val != 0
		}
		panic(unsupported{"await on a symbolic cell"})
	case opSend:
		return t.handed != nil || st.chanSendReady(t, op.ch)
	case opRecv:
		return t.handed != nil || st.chanRecvReady(t, op.ch)
	case opSelect:
		if t.handed != nil || op.deflt {
			return true
		}
		for _, c := range op.cases {
			if c.send && st.chanSendReady(t, c.ch) || !c.send && st.chanRecvReady(t, c.ch) {
				return true
			}
		}
		return false
	}
	return false
}

// schedule picks the next thread; a non-empty answer ends the path.
func (st *State) schedule() string {
	if st.thr[0].done {
		return "done"
	}
	for {
		cands := make([]int, 0, 8)
		curOK := false
		for i, t := range st.thr {
			if !t.done && t.op.kind != opQuiesce && st.opReady(t, &t.op) {
				cands = append(cands, i)
				if i == st.cur {
					curOK = true
				}
			}
		}
		if len(cands) == 0 {
			for i, t := range st.thr {
				if !t.done && t.op.kind == opQuiesce {
					st.grantTo(i)
					return ""
				}
			}
			if st.fireTimers() {
				continue
			}
			st.cur = 0
			st.violate("deadlock", "blocked forever: "+st.opName(st.thr[0]))
		}
		if !st.explore() || len(cands) == 1 && (st.timerBudget == 0 || len(st.timers) == 0) {
			pick := cands[0]
			if curOK {
				pick = st.cur
			} else {
				for _, c := range cands {
					if c > st.cur {
						pick = c
						break
					}
				}
			}
			st.grantTo(pick)
			return ""
		}
		if curOK && st.preempt == 0 && (st.timerBudget == 0 || len(st.timers) == 0) {
			st.grantTo(st.cur)
			return ""
		}
		if st.seen() {
			return "dup"
		}
		first := cands[0]
		if curOK {
			first = st.cur
		}
		if !curOK || st.preempt > 0 {
			for _, c := range cands {
				if c == first {
					continue
				}
				n := st.fork()
				if curOK {
					n.preempt--
				}
				n.grantTo(c)
				st.w.push(n)
			}
		}
		if st.timerBudget > 0 && len(st.timers) > 0 {
			n := st.fork()
			n.timerBudget--
			n.w = st.w
			n.sched = append(n.sched, -1)
			n.fireTimers()
			st.w.pushSched(n)
		}
		st.grantTo(first)
		return ""
	}
}

func (st *State) grantTo(i int) {
	st.cur = i
	st.sched = append(st.sched, int16(i))
	st.grant = st.thr[i].op.kind != opNone
	st.thr[i].op = pendOp{}
}

func (st *State) opName(t *Thread) string {
	k := [...]string{"", "mutex lock", "rwmutex rlock", "condition wait", "channel send", "channel receive", "select",
		"WaitGroup wait", "sleep", "atomic", "quiesce", "read/await"}[t.op.kind]
	if len(t.frames) == 0 {
		return k
	}
	// innermost repo function
	for i := len(t.frames) - 1; i >= 0; i-- {
		if t.frames[i].fi.inRepo {
			return k + " in " + t.frames[i].fi.fn.Name()
		}
	}
	return k
}

// fireTimers advances virtual time to the earliest timer and fires what is due.
func (st *State) fireTimers() bool {
	if len(st.timers) == 0 {
		return false
	}
	at := st.timers[0].at
	for _, r := range st.timers {
		at = min(at, r.at)
	}
	if at > st.now {
		st.now = at
	}
	if st.now > st.timeLimit {
		st.cur = 0
		st.violate("hang", fmt.Sprintf("still blocked at the virtual time limit: %s", st.opName(st.thr[0])))
	}
	rs := st.timers
	st.timers = nil
	for _, r := range rs {
		if r.at > st.now {
			st.timers = append(st.timers, r)
			continue
		}
		if r.ch != 0 {
			o := st.wobj(r.ch)
			if len(o.ch.buf) < o.ch.cap {
				o.ch.buf = append(o.ch.buf, st.timeValue())
			}
			if r.period > 0 {
				r.at += r.period
				st.timers = append(st.timers, r)
			}
		}
		if r.fn != nil {
			st.spawn(r.fn, nil, "timer")
		}
	}
	return true
}

// ---- channels ----

func (st *State) newChan(n int, el types.Type) int32 {
	return st.alloc(&Object{kind: kChan, site: "chan", ch: &chanData{cap: n, elem: el}})
}

func (st *State) waiting(t *Thread, ch int32, send bool) *Thread {
	for _, o := range st.thr {
		if o == t || o.done || o.handed != nil {
			continue
		}
		switch o.op.kind {
		case opSend:
			if send && o.op.ch == ch {
				return o
			}
		case opRecv:
			if !send && o.op.ch == ch {
				return o
			}
		case opSelect:
			for _, c := range o.op.cases {
				if c.ch == ch && c.send == send {
					return o
				}
			}
		}
	}
	return nil
}

func (st *State) chanSendReady(t *Thread, ch int32) bool {
	if ch == 0 {
		return false
	}
	c := st.obj(ch).ch
	return c.closed || len(c.buf) < c.cap || c.cap == 0 && st.waiting(t, ch, false) != nil
}

func (st *State) chanRecvReady(t *Thread, ch int32) bool {
	if ch == 0 {
		return false
	}
	c := st.obj(ch).ch
	return len(c.buf) > 0 || c.closed || c.cap == 0 && st.waiting(t, ch, true) != nil
}

// handedV marks a rendezvous completed by the partner.
type handedV struct {
	v  Value
	ok bool
	ix int
}

// chanSlot orders the uses of one slot of a buffered channel.
func (st *State) chanSlot(t *Thread, ch int32, slot int) {
	if st.race {
		st.acquire(t, Ptr{ch, int32(2 + slot)})
		st.release(t, Ptr{ch, int32(2 + slot)})
	}
}

func (st *State) chanSend(t *Thread, ch int32, v Value) {
	o := st.wobj(ch)
	if o.ch.closed {
		panic(goPanic{"send on closed channel", false})
	}
	if o.ch.cap > 0 {
		st.chanSlot(t, ch, o.ch.nsend)
		o.ch.nsend = (o.ch.nsend + 1) % o.ch.cap
		o.ch.buf = append(o.ch.buf, v)
		return
	}
	st.release(t, Ptr{ch, 0})
	st.acquire(t, Ptr{ch, 1})
	r := st.waiting(t, ch, false)
	h := handedV{v: v, ok: true}
	for i, c := range r.op.cases {
		if c.ch == ch && !c.send {
			h.ix = i
			break
		}
	}
	r.handed = h
}

func (st *State) chanRecv(t *Thread, ch int32) (Value, bool) {
	o := st.wobj(ch)
	if len(o.ch.buf) > 0 {
		st.chanSlot(t, ch, (o.ch.nsend+o.ch.cap-len(o.ch.buf))%o.ch.cap)
		v := o.ch.buf[0]
		o.ch.buf = append([]Value(nil), o.ch.buf[1:]...)
		return v, true
	}
	st.acquire(t, Ptr{ch, 0})
	if o.ch.closed {
		return zeroValue(o.ch.elem), false
	}
	s := st.waiting(t, ch, true)
	h := handedV{ok: true}
	var v Value
	switch s.op.kind {
	case opSend:
		v = s.sendVal
	case opSelect:
		for i, c := range s.op.cases {
			if c.ch == ch && c.send {
				h.ix = i
				v = s.selVals[i]
				break
			}
		}
	}
	s.handed = h
	return v, true
}

func (st *State) chanClose(t *Thread, c ChanV) {
	if c.obj == 0 {
		panic(goPanic{"close of nil channel", false})
	}
	o := st.wobj(c.obj)
	if o.ch.closed {
		panic(goPanic{"close of closed channel", false})
	}
	st.release(t, Ptr{c.obj, 0})
	o.ch.closed = true
}

func (st *State) execSend(t *Thread, f *Frame, in *inst, x *ssa.Send) bool {
	ch := st.val(f, in.ops[0]).(ChanV).obj
	v := st.val(f, in.ops[1])
	t.sendVal = v
	if !st.enter(t, pendOp{kind: opSend, ch: ch}) {
		return true
	}
	if t.handed != nil {
		t.handed = nil
	} else {
		st.chanSend(t, ch, v)
	}
	f.ip++
	return false
}

func (st *State) execRecv(t *Thread, f *Frame, in *inst, x *ssa.UnOp) bool {
	ch := st.val(f, in.ops[0]).(ChanV).obj
	if !st.enter(t, pendOp{kind: opRecv, ch: ch}) {
		return true
	}
	var v Value
	ok := true
	if t.handed != nil {
		h := t.handed.(handedV)
		v, ok = h.v, h.ok
		t.handed = nil
	} else {
		v, ok = st.chanRecv(t, ch)
	}
	if x.CommaOk {
		f.regs[in.dst] = TupleV{v, smt.Bool(ok)}
	} else {
		f.regs[in.dst] = v
	}
	f.ip++
	return false
}

func (st *State) execSelect(t *Thread, f *Frame, in *inst, x *ssa.Select) bool {
	op := pendOp{kind: opSelect, deflt: !x.Blocking}
	t.selVals = nil
	k := 0
	for _, s := range x.States {
		c := selCase{ch: st.val(f, in.ops[k]).(ChanV).obj, send: s.Dir == types.SendOnly}
		k++
		var v Value
		if s.Send != nil {
			v = st.val(f, in.ops[k])
		}
		k++
		op.cases = append(op.cases, c)
		t.selVals = append(t.selVals, v)
	}
	if !st.enter(t, op) {
		return true
	}
	idx := -1
	var rv Value
	rok := false
	if t.handed != nil {
		h := t.handed.(handedV)
		t.handed = nil
		idx, rv, rok = h.ix, h.v, h.ok
	} else {
		var ready []int
		for i, c := range op.cases {
			if c.send && st.chanSendReady(t, c.ch) || !c.send && st.chanRecvReady(t, c.ch) {
				ready = append(ready, i)
			}
		}
		if len(ready) > 0 {
			if t.selPick >= 0 && t.selPick < len(ready) && t.selForked {
				idx = ready[t.selPick]
			} else {
				idx = ready[0]
				if st.explore() {
					for j := 1; j < len(ready); j++ {
						n := st.fork()
						nt := n.thr[t.id]
						nt.selPick, nt.selForked = j, true
						n.grant = true
						st.w.push(n)
					}
				}
			}
			t.selForked = false
			if len(ready) > 1 {
				st.sched = append(st.sched, int16(-2-idx))
			}
			c := op.cases[idx]
			if c.send {
				st.chanSend(t, c.ch, t.selVals[idx])
			} else {
				rv, rok = st.chanRecv(t, c.ch)
			}
		}
	}
	tv := TupleV{smt.Const(64, uint64(int64(idx))), smt.Bool(rok)}
	for i, s := range x.States {
		if s.Dir == types.SendOnly {
			continue
		}
		if i == idx {
			if rv == nil {
				rv = zeroValue(s.Chan.Type().Underlying().(*types.Chan).Elem())
			}
			tv = append(tv, rv)
		} else {
			tv = append(tv, zeroValue(s.Chan.Type().Underlying().(*types.Chan).Elem()))
		}
	}
	f.regs[in.dst] = tv
	f.ip++
	return false
}
