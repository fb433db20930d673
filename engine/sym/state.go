package sym

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/engine/smt"
)

// Frame is one activation.
type Frame struct {
	fi        *fnInfo
	blk       int32
	ip        int32
	prev      int32
	regs      []Value
	dst       int32 // register of the caller receiving the result; -1 none
	defers    []deferred
	isDefer   bool // this activation runs a deferred call
	panicking bool
	retTo     func(st *State, v Value) // optional continuation instead of dst
}

type deferred struct {
	fn   *FuncV
	args []Value
}

type panicInfo struct {
	val       Value
	msg       string
	recovered bool
	goexit    bool
	prev      *panicInfo
	where     string
}

// Thread is a goroutine.
type Thread struct {
	id           int
	frames       []*Frame
	panic        *panicInfo
	phase        int // progress inside a multi-phase visible operation
	ticket       uint64
	condAt       Ptr // registered with this condition, not waiting yet
	wakeAt       int64
	nd           int // nondet counter
	done         bool
	name         string
	handed       Value // value delivered to a blocked receiver
	sendVal      Value
	selVals      []Value
	selPick      int
	selForked    bool
	vc           []int32
	fresh        bool
	op           pendOp
	resumeUnwind bool
}

// State is one symbolic execution state.
type State struct {
	e           *Engine
	w           *worker
	own         *epoch
	heap        []*chunk
	nobj        int32
	thr         []*Thread
	cur         int
	pc          []*smt.Term
	facts       map[*smt.Term]struct{}
	model       smt.Model
	steps       int64
	sched       []int16 // chosen thread at every scheduling point
	nd          []ndRec
	grant       bool
	preempt     int
	now         int64
	atomic      int
	noPre       int
	covers      map[string]bool
	log         []string
	names       map[string]int
	timerBudget int
	depth       int
	timeLimit   int64
	exitedMain  bool
	race        bool
	ndPeek      bool
	pregrant    bool
	pending     *smt.Term // condition not known to be possible yet
	outs        []outRec
	timers      []timerRec
	sync        map[Ptr][]int32 // release clocks (race mode)
}

type timerRec struct {
	at     int64
	ch     int32
	period int64
	fn     *FuncV
	id     int32 // timer object
}

type ndRec struct {
	Key  string
	Term *smt.Term
}

func (st *State) fork() *State {
	n := *st
	st.own = &epoch{}
	n.own = &epoch{}
	n.heap = append([]*chunk(nil), st.heap...)
	n.thr = make([]*Thread, len(st.thr))
	for i, t := range st.thr {
		n.thr[i] = t.clone()
	}
	n.pc = append(make([]*smt.Term, 0, len(st.pc)+8), st.pc...)
	n.facts = make(map[*smt.Term]struct{}, len(st.facts)+4)
	for k := range st.facts {
		n.facts[k] = struct{}{}
	}
	n.sched = append([]int16(nil), st.sched...)
	n.nd = append([]ndRec(nil), st.nd...)
	n.log = append([]string(nil), st.log...)
	n.outs = append([]outRec(nil), st.outs...)
	n.timers = append([]timerRec(nil), st.timers...)
	if st.sync != nil {
		n.sync = make(map[Ptr][]int32, len(st.sync))
		for k, v := range st.sync {
			n.sync[k] = v
		}
	}
	n.covers = make(map[string]bool, len(st.covers))
	for k := range st.covers {
		n.covers[k] = true
	}
	n.names = make(map[string]int, len(st.names))
	for k, v := range st.names {
		n.names[k] = v
	}
	return &n
}

func (t *Thread) clone() *Thread {
	n := *t
	n.frames = make([]*Frame, len(t.frames))
	for i, f := range t.frames {
		g := *f
		g.regs = append([]Value(nil), f.regs...)
		g.defers = append([]deferred(nil), f.defers...)
		n.frames[i] = &g
	}
	if t.panic != nil {
		p := *t.panic
		n.panic = &p
	}
	n.vc = append([]int32(nil), t.vc...)
	return &n
}

// ---- heap access ----

func (st *State) obj(id int32) *Object {
	return st.heap[id>>chunkBits].o[id&(chunkSize-1)]
}

func (st *State) alloc(o *Object) int32 {
	id := st.nobj
	if id == 0 {
		id = 1
		st.nobj = 1
	}
	st.nobj++
	ci := int(id >> chunkBits)
	for len(st.heap) <= ci {
		st.heap = append(st.heap, &chunk{owner: st.own})
	}
	c := st.heap[ci]
	if c.owner != st.own {
		nc := *c
		nc.owner = st.own
		c = &nc
		st.heap[ci] = c
	}
	o.owner = st.own
	c.o[id&(chunkSize-1)] = o
	return id
}

// wobj returns the object ready for mutation.
func (st *State) wobj(id int32) *Object {
	ci := id >> chunkBits
	c := st.heap[ci]
	o := c.o[id&(chunkSize-1)]
	if o.owner == st.own {
		return o
	}
	if c.owner != st.own {
		nc := *c
		nc.owner = st.own
		c = &nc
		st.heap[ci] = c
	}
	n := *o
	n.owner = st.own
	n.cells = append(make([]Value, 0, len(o.cells)+4), o.cells...)
	n.ents = append([]mapEnt(nil), o.ents...)
	if o.ch != nil {
		ch := *o.ch
		ch.buf = append([]Value(nil), o.ch.buf...)
		ch.vc = append([]int32(nil), o.ch.vc...)
		n.ch = &ch
	}
	if o.shadow != nil {
		n.shadow = append([]shadowCell(nil), o.shadow...)
	}
	c.o[id&(chunkSize-1)] = &n
	return &n
}

func (st *State) allocMem(n int, zero []Value, site string) int32 {
	return st.alloc(&Object{kind: kMem, n: n, zero: zero, site: site})
}

func (st *State) allocType(t types.Type, site string) int32 {
	l := layout(t)
	z := l.zero
	if len(z) != l.n {
		if a, ok := t.Underlying().(*types.Array); ok {
			z = layout(a.Elem()).zero
		} else {
			panic(unsupported{"huge object"})
		}
	}
	return st.allocMem(l.n, z, site)
}

func (st *State) loadSlot(obj, off int32) Value { return st.obj(obj).get(int(off)) }

func (st *State) storeSlot(obj, off int32, v Value) {
	o := st.wobj(obj)
	if o.ro {
		panic(unsupported{"store to read-only object"})
	}
	if int(off) >= o.n {
		panic(fmt.Sprintf("store slot %d out of object %s of %d", off, o.site, o.n))
	}
	o.grow(int(off) + 1)
	o.cells[off] = v
}

// load reads a value of type t at p (p non-nil).
func (st *State) load(p Ptr, t types.Type) Value {
	l := layout(t)
	o := st.obj(p.obj)
	if !l.agg {
		if int(p.off) >= o.n {
			panic(goPanic{"memory access outside of allocated object " + o.site, true})
		}
		return st.pun(o.get(int(p.off)), t)
	}
	r := make(Agg, l.n)
	if int(p.off)+l.n > o.n {
		panic(goPanic{"memory access outside of allocated object " + o.site, true})
	}
	for i := range r {
		r[i] = o.get(int(p.off) + i)
	}
	return r
}

// pun converts between string and []byte when a pointer of the one type addresses the other.
func (st *State) pun(v Value, t types.Type) Value {
	switch x := v.(type) {
	case SliceV:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			if x.n == 0 {
				return emptyStr
			}
			return st.sharedStr(Ptr{x.obj, x.off}, x.n)
		}
	case *StrV:
		if _, ok := t.Underlying().(*types.Slice); ok {
			n := int32(len(x.b))
			if n > 0 && x.src.obj != 0 {
				return SliceV{obj: x.src.obj, off: x.src.off, n: n, c: n, es: 1}
			}
			return st.bytesToSlice(x.b, len(x.b))
		}
	}
	return v
}

func (st *State) store(p Ptr, t types.Type, v Value) {
	l := layout(t)
	if !l.agg {
		if int(p.off) >= st.obj(p.obj).n {
			panic(goPanic{"memory access outside of allocated object " + st.obj(p.obj).site, true})
		}
		st.storeSlot(p.obj, p.off, v)
		return
	}
	if l.n == 0 {
		return
	}
	a := v.(Agg)
	o := st.wobj(p.obj)
	if int(p.off)+l.n > o.n {
		panic(goPanic{"memory access outside of allocated object " + o.site, true})
	}
	o.grow(int(p.off) + l.n)
	copy(o.cells[p.off:], a)
}

// ---- path condition ----

func (st *State) addPC(c *smt.Term) {
	if c == smt.True {
		return
	}
	if c.Op == smt.OpAnd {
		st.addPC(c.A)
		st.addPC(c.B)
		return
	}
	if _, ok := st.facts[c]; ok {
		return
	}
	st.facts[c] = struct{}{}
	st.pc = append(st.pc, c)
}

// slice returns the constraints transitively sharing variables with c.
func (st *State) slice(c *smt.Term) []*smt.Term {
	if len(c.Vars()) == 0 || len(st.pc) == 0 {
		return nil
	}
	w := st.w
	w.gen++
	mark := func(vs []uint32) {
		for _, v := range vs {
			for int(v) >= len(w.mark) {
				w.mark = append(w.mark, 0)
			}
			w.mark[v] = w.gen
		}
	}
	mark(c.Vars())
	var out []*smt.Term
	rest := append(w.tmp[:0], st.pc...)
	for {
		changed := false
		k := rest[:0]
		for _, t := range rest {
			hit := false
			for _, v := range t.Vars() {
				if int(v) < len(w.mark) && w.mark[v] == w.gen {
					hit = true
					break
				}
			}
			if hit {
				out = append(out, t)
				if len(t.Vars()) > 1 {
					mark(t.Vars())
					changed = true
				}
			} else {
				k = append(k, t)
			}
		}
		rest = k
		if !changed {
			break
		}
	}
	w.tmp = rest[:0]
	return out
}

// feasible asks whether pc ∧ c is satisfiable; on Sat it returns a model of all of pc ∧ c.
func (st *State) feasible(c *smt.Term) (smt.Result, smt.Model) { return st.feasibleIn(c, false) }

func (st *State) feasibleIn(c *smt.Term, quick bool) (smt.Result, smt.Model) {
	if c == smt.True {
		return smt.Sat, st.model
	}
	if c == smt.False {
		return smt.Unsat, nil
	}
	if _, ok := st.facts[c]; ok {
		return smt.Sat, st.model
	}
	if _, ok := st.facts[smt.Not(c)]; ok {
		return smt.Unsat, nil
	}
	q := append(st.slice(c), c)
	check := st.w.solver.Check
	if quick {
		check = st.w.solver.CheckQuick
	}
	r, m := check(q)
	if r != smt.Sat {
		return r, nil
	}
	nm := make(smt.Model, len(st.model)+len(m))
	for k, v := range st.model {
		nm[k] = v
	}
	for k, v := range m {
		nm[k] = v
	}
	return r, nm
}

// settle answers the question a state was put off with.
func (st *State) settle() bool {
	c := st.pending
	st.pending = nil
	r, m := st.feasible(c)
	switch r {
	case smt.Unsat:
		return false
	case smt.Unknown:
		st.w.inconclusive("solver gave no answer for a branch condition")
		return false
	}
	st.model = m
	st.addPC(c)
	return true
}

// decide returns the truth of c on this path, forking when both are possible. It must be
// called before the current instruction has had any effect.
func (st *State) decide(c *smt.Term) bool {
	if c.IsConst() {
		return c.Val == 1
	}
	if _, ok := st.facts[c]; ok {
		return true
	}
	nc := smt.Not(c)
	if _, ok := st.facts[nc]; ok {
		return false
	}
	side := smt.Eval(c, st.model) == 1
	other := nc
	mine := c
	if !side {
		other, mine = c, nc
	}
	r, m := st.feasibleIn(other, !st.ndPeek)
	switch r {
	case smt.Unsat:
		st.facts[mine] = struct{}{} // implied
		return side
	case smt.Unknown:
		if st.ndPeek {
			st.w.inconclusive("solver gave no answer for a branch condition")
		} else {
			// a hard question: it is decided after everything else has been explored
			n := st.fork()
			n.pending = other
			st.w.pushHard(n)
		}
		st.addPC(mine)
		return side
	}
	if st.ndPeek {
		panic(unsupported{"fork during peek"})
	}
	n := st.fork()
	n.model = m
	n.addPC(other)
	st.w.push(n)
	st.addPC(mine)
	return side
}

// assume restricts the path to c.
func (st *State) assume(c *smt.Term) {
	if c == smt.True {
		return
	}
	if c == smt.False {
		panic(killPath{"assume"})
	}
	if smt.Eval(c, st.model) == 1 {
		st.addPC(c)
		return
	}
	r, m := st.feasible(c)
	switch r {
	case smt.Unsat:
		panic(killPath{"assume"})
	case smt.Unknown:
		st.w.inconclusive("solver gave no answer for an assumption")
		panic(killPath{"assume unknown"})
	}
	st.model = m
	st.addPC(c)
}

// concretize fixes t to one value on this path, forking over the others.
func (st *State) concretize(t *smt.Term, limit int, what string) uint64 {
	if t.IsConst() {
		return t.Val
	}
	full := t
	t = smt.Narrow(t)
	if lo, hi := st.interval(t); hi-lo < uint64(4*limit) {
		for lo < hi {
			mid := lo + (hi-lo)/2
			if st.decide(smt.Ule(t, smt.Const(t.W, mid))) {
				hi = mid
			} else {
				lo = mid + 1
			}
		}
		st.addPC(smt.Eq(t, smt.Const(t.W, lo)))
		if smt.Eval(full, st.model) != lo {
			panic("concretize: model disagrees")
		}
		return lo
	}
	// earlier forks left constraints t != k
	n := 0
	for _, p := range st.pc {
		if p.Op == smt.OpNot && p.A.Op == smt.OpEq && (p.A.A == t || p.A.B == t) {
			n++
		}
	}
	if n > limit {
		st.w.inconclusive("too many values for " + what)
		panic(killPath{"concretize limit: " + what})
	}
	v := smt.Eval(t, st.model)
	if !st.decide(smt.Eq(t, smt.Const(t.W, v))) {
		panic("concretize: model disagrees")
	}
	return v
}

// interval bounds t by its own bounds and by the comparisons of t with constants on the path.
func (st *State) interval(t *smt.Term) (lo, hi uint64) {
	lo, hi = t.Bounds()
	for _, p := range st.pc {
		neg := p.Op == smt.OpNot
		if neg {
			p = p.A
		}
		if p.Op != smt.OpUlt && p.Op != smt.OpUle {
			continue
		}
		x, y := p.A, p.B
		strict := p.Op == smt.OpUlt
		if neg {
			x, y, strict = y, x, !strict
		}
		// x < y or x <= y
		switch {
		case x == t && y.IsConst():
			b := y.Val
			if strict {
				b--
			}
			hi = min(hi, b)
		case y == t && x.IsConst():
			b := x.Val
			if strict {
				b++
			}
			lo = max(lo, b)
		}
	}
	return lo, hi
}

func (st *State) concInt(v Value, what string) int64 {
	t := termOf(v)
	if t.IsConst() {
		return t.SVal()
	}
	u := st.concretize(t, 400, what)
	return smt.Const(t.W, u).SVal()
}

func (st *State) thread() *Thread { return st.thr[st.cur] }

func (st *State) frame() *Frame {
	t := st.thr[st.cur]
	return t.frames[len(t.frames)-1]
}

func (st *State) where() string {
	t := st.thread()
	s := ""
	for i := len(t.frames) - 1; i >= 0 && i >= len(t.frames)-8; i-- {
		f := t.frames[i]
		pos := ""
		if int(f.blk) < len(f.fi.blocks) && int(f.ip) < len(f.fi.blocks[f.blk].ins) {
			for k := int(f.ip); k >= 0; k-- {
				if p := f.fi.blocks[f.blk].ins[k].ins.Pos(); p.IsValid() {
					pp := f.fi.fn.Prog.Fset.Position(p)
					pos = fmt.Sprintf("%s:%d", shortFile(pp.Filename), pp.Line)
					break
				}
			}
		}
		s += fmt.Sprintf(" < %s(%s)", f.fi.fn.Name(), pos)
	}
	return fmt.Sprintf("goroutine %d%s", t.id, s)
}

func shortFile(s string) string {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == '/' {
			return s[i+1:]
		}
	}
	return s
}

var _ = ssa.BuilderMode(0)
