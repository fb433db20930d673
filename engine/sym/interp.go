package sym

import (
	"fmt"
	"go/token"
	"go/types"
	"os"

	"golang.org/x/tools/go/ssa"

	"verif/engine/smt"
)

// goPanic is thrown by the interpreter for a run-time panic of the program.
type goPanic struct {
	msg     string
	runtime bool
}

type violationStop struct{ v *Violation }
type yieldStop struct{}

func (st *State) violate(kind, msg string) {
	panic(violationStop{&Violation{Kind: kind, Msg: msg, Where: st.where()}})
}

// runState runs st until its path ends.
func (w *worker) runState(st *State) (res result) {
	st.w = w
	finish := func(v *Violation) result {
		v.ND = st.nd
		v.Model = st.model
		v.Sched = append([]int16(nil), st.sched...)
		v.Log = st.log
		v.Outs = st.outs
		return result{why: "violation", viol: v}
	}
	for {
		var out result
		stopped := false
		func() {
			defer func() {
				r := recover()
				switch x := r.(type) {
				case nil:
				case yieldStop:
				case killPath:
					out, stopped = result{why: "killed: " + x.why}, true
				case unsupported:
					out, stopped = result{why: "unsupported: " + x.msg + " @ " + st.where()}, true
				case violationStop:
					out, stopped = finish(x.v), true
				default:
					if os.Getenv("GOSYM_DEBUG") != "" {
						panic(fmt.Sprintf("%v\n at %s", r, st.where()))
					}
					out, stopped = result{why: fmt.Sprintf("unsupported: engine failure: %v @ %s", r, st.where())}, true
				}
			}()
			for {
				if st.pregrant {
					st.pregrant = false
				} else if why := st.schedule(); why != "" {
					out, stopped = result{why: why}, true
					return
				}
				st.runThread()
			}
		}()
		if stopped {
			return out
		}
		if w.run.stop.Load() {
			return result{why: "stopped"}
		}
	}
}

// runThread runs the current thread until it yields or ends.
func (st *State) runThread() {
	for {
		if st.runSome() {
			return
		}
	}
}

// runSome executes instructions; true when the thread stops at a scheduling point or ends.
func (st *State) runSome() (stop bool) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch x := r.(type) {
		case goPanic:
			if st.ndPeek {
				panic(unsupported{"panic while peeking"})
			}
			msg := x.msg
			if x.runtime {
				msg = "runtime error: " + x.msg
			}
			st.startPanic(IfaceV{typ: types.Typ[types.String], val: constStr(msg)}, msg)
			stop = st.thread().done
		case yieldStop:
			stop = true
		default:
			panic(r)
		}
	}()
	t := st.thread()
	if t.resumeUnwind {
		t.resumeUnwind = false
		st.unwind(t)
		if t.done {
			return true
		}
		if t.resumeUnwind {
			return true
		}
	}
	for {
		f := t.frames[len(t.frames)-1]
		if len(t.frames) > 400 {
			st.violate("panic", "stack overflow")
		}
		blk := &f.fi.blocks[f.blk]
		in := &blk.ins[f.ip]
		st.steps++
		if st.steps&63 == 0 && st.w.run.stop.Load() {
			panic(killPath{"stopped"})
		}
		if st.steps > st.w.run.cfg.MaxSteps {
			st.violate("hang", "step limit exceeded (possible endless loop)")
		}
		if st.exec(t, f, in) {
			st.grant = false
			return true
		}
		st.grant = false
		if t.done {
			return true
		}
	}
}

func (st *State) val(f *Frame, o opnd) Value {
	if o.reg >= 0 {
		v := f.regs[o.reg]
		if s, ok := v.(*StrV); ok && s.src.obj != 0 {
			return st.sharedStr(s.src, int32(len(s.b)))
		}
		return v
	}
	return o.val
}

func (st *State) strBytes(s *StrV) []*smt.Term {
	if s.src.obj != 0 {
		return st.sharedStr(s.src, int32(len(s.b))).b
	}
	return s.b
}

// sharedStr is the string made of the n bytes at p as they are now.
func (st *State) sharedStr(p Ptr, n int32) *StrV {
	return &StrV{b: st.sliceBytes(SliceV{obj: p.obj, off: p.off, n: n, c: n, es: 1}), src: p}
}

func (st *State) jump(f *Frame, to int32) {
	from := f.blk
	f.prev = from
	f.blk = to
	f.ip = 0
	b := &f.fi.blocks[to]
	if b.nphi > 0 {
		pi := -1
		for i, p := range b.preds {
			if p == from {
				pi = i
				break
			}
		}
		var tmp [16]Value
		vs := tmp[:0]
		for i := 0; i < b.nphi; i++ {
			vs = append(vs, st.val(f, b.ins[i].ops[pi]))
		}
		for i := 0; i < b.nphi; i++ {
			f.regs[b.ins[i].dst] = vs[i]
		}
		f.ip = int32(b.nphi)
	}
}

func (st *State) exec(t *Thread, f *Frame, in *inst) bool {
	switch x := in.ins.(type) {
	case *ssa.BinOp:
		f.regs[in.dst] = st.binop(x.Op, st.val(f, in.ops[0]), st.val(f, in.ops[1]), x.X.Type(), x.Y.Type())
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			v := st.loadAt(st.val(f, in.ops[0]), in.typ)
			f.regs[in.dst] = v
		case token.ARROW:
			return st.execRecv(t, f, in, x)
		case token.NOT:
			f.regs[in.dst] = smt.Not(termOf(st.val(f, in.ops[0])))
		case token.SUB:
			v := st.val(f, in.ops[0])
			if fl, ok := v.(FloatV); ok {
				f.regs[in.dst] = -fl
			} else {
				f.regs[in.dst] = smt.Neg(termOf(v))
			}
		case token.XOR:
			f.regs[in.dst] = smt.BNot(termOf(st.val(f, in.ops[0])))
		default:
			panic(unsupported{"unop " + x.Op.String()})
		}
	case *ssa.Alloc:
		f.regs[in.dst] = Ptr{obj: st.allocLay(in.lay, x)}
	case *ssa.Store:
		st.storeAt(st.val(f, in.ops[0]), x.Val.Type(), st.val(f, in.ops[1]))
	case *ssa.FieldAddr:
		p := st.val(f, in.ops[0])
		switch q := p.(type) {
		case Ptr:
			if q.obj == 0 {
				panic(goPanic{"invalid memory address or nil pointer dereference", true})
			}
			f.regs[in.dst] = Ptr{q.obj, q.off + int32(in.aux)}
		case SymPtr:
			q.base += int32(in.aux)
			f.regs[in.dst] = q
		default:
			panic(unsupported{fmt.Sprintf("field of %T", p)})
		}
	case *ssa.Field:
		a := st.val(f, in.ops[0]).(Agg)
		if in.lay.agg {
			f.regs[in.dst] = Agg(a[in.aux : in.aux+in.lay.n : in.aux+in.lay.n])
		} else {
			f.regs[in.dst] = a[in.aux]
		}
	case *ssa.IndexAddr:
		f.regs[in.dst] = st.indexAddr(st.val(f, in.ops[0]), st.val(f, in.ops[1]), x.Index.Type(), in.aux, x.X.Type())
	case *ssa.Index:
		f.regs[in.dst] = st.index(st.val(f, in.ops[0]), st.val(f, in.ops[1]), x.X.Type(), x.Index.Type())
	case *ssa.Jump:
		st.jump(f, f.fi.blocks[f.blk].succs[0])
		return false
	case *ssa.If:
		c := termOf(st.val(f, in.ops[0]))
		s := f.fi.blocks[f.blk].succs
		if st.decide(c) {
			st.jump(f, s[0])
		} else {
			st.jump(f, s[1])
		}
		return false
	case *ssa.Return:
		var v Value
		switch len(in.ops) {
		case 0:
		case 1:
			v = st.val(f, in.ops[0])
		default:
			tv := make(TupleV, len(in.ops))
			for i, o := range in.ops {
				tv[i] = st.val(f, o)
			}
			v = tv
		}
		return st.doReturn(t, v)
	case *ssa.Call:
		return st.execCall(t, f, in, x)
	case *ssa.Defer:
		fn, args := st.callTarget(f, in, &x.Call)
		f.defers = append(f.defers, deferred{fn, args})
	case *ssa.RunDefers:
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			// re-executed after the deferred call returns
			return st.call(t, f, d.fn, d.args, -1, true, nil)
		}
	case *ssa.Go:
		fn, args := st.callTarget(f, in, &x.Call)
		if fn == nil {
			panic(goPanic{"go of nil func value", true})
		}
		f.ip++
		nt := st.spawn(fn, args, x.Call.Value.Name())
		if t.vc != nil {
			st.vcFork(t, nt)
		}
		return false
	case *ssa.Panic:
		v := st.val(f, in.ops[0])
		st.startPanic(v, st.panicText(v))
		return t.done
	case *ssa.MakeClosure:
		env := make([]Value, len(in.ops)-1)
		for i := range env {
			env[i] = st.val(f, in.ops[i+1])
		}
		fv := st.val(f, in.ops[0]).(*FuncV)
		f.regs[in.dst] = &FuncV{fn: fv.fn, env: env}
	case *ssa.MakeInterface:
		f.regs[in.dst] = IfaceV{typ: x.X.Type(), val: st.val(f, in.ops[0])}
	case *ssa.ChangeInterface:
		f.regs[in.dst] = st.val(f, in.ops[0])
	case *ssa.ChangeType:
		f.regs[in.dst] = st.val(f, in.ops[0])
	case *ssa.Convert:
		f.regs[in.dst] = st.convert(st.val(f, in.ops[0]), x.X.Type(), x.Type())
	case *ssa.MultiConvert:
		f.regs[in.dst] = st.convert(st.val(f, in.ops[0]), x.X.Type(), x.Type())
	case *ssa.Extract:
		f.regs[in.dst] = st.val(f, in.ops[0]).(TupleV)[x.Index]
	case *ssa.Slice:
		f.regs[in.dst] = st.slice3(f, in, x)
	case *ssa.MakeSlice:
		f.regs[in.dst] = st.makeSlice(st.val(f, in.ops[0]), st.val(f, in.ops[1]), x.Type(), x.Len.Type())
	case *ssa.MakeMap:
		f.regs[in.dst] = MapV{st.alloc(&Object{kind: kMap, site: "map"})}
	case *ssa.MakeChan:
		n := st.concInt(st.val(f, in.ops[0]), "channel capacity")
		if n < 0 {
			panic(goPanic{"makechan: size out of range", true})
		}
		f.regs[in.dst] = ChanV{st.newChan(int(n), x.Type().Underlying().(*types.Chan).Elem())}
	case *ssa.MapUpdate:
		st.mapUpdate(st.val(f, in.ops[0]), st.val(f, in.ops[1]), st.val(f, in.ops[2]))
	case *ssa.Lookup:
		f.regs[in.dst] = st.lookup(st.val(f, in.ops[0]), st.val(f, in.ops[1]), x)
	case *ssa.Range:
		v := st.val(f, in.ops[0])
		o := &Object{kind: kIter, site: "iter"}
		switch s := v.(type) {
		case *StrV:
			o.str = s
		case MapV:
			o.mp = s.obj
			if s.obj != 0 {
				o.ents = append([]mapEnt(nil), st.obj(s.obj).ents...)
			}
		}
		f.regs[in.dst] = IterV{st.alloc(o)}
	case *ssa.Next:
		f.regs[in.dst] = st.next(st.val(f, in.ops[0]).(IterV), x)
	case *ssa.TypeAssert:
		f.regs[in.dst] = st.typeAssert(st.val(f, in.ops[0]).(IfaceV), x)
	case *ssa.Send:
		return st.execSend(t, f, in, x)
	case *ssa.Select:
		return st.execSelect(t, f, in, x)
	case *ssa.SliceToArrayPointer:
		s := st.val(f, in.ops[0]).(SliceV)
		n := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if int64(s.n) < n {
			panic(goPanic{"cannot convert slice to array pointer: length too short", true})
		}
		f.regs[in.dst] = Ptr{s.obj, s.off}
	case *ssa.Phi:
		panic("phi executed")
	default:
		panic(unsupported{fmt.Sprintf("instruction %T", in.ins)})
	}
	f.ip++
	return false
}

func (st *State) allocLay(l *layoutInfo, x *ssa.Alloc) int32 {
	t := x.Type().Underlying().(*types.Pointer).Elem()
	if len(l.zero) != l.n {
		return st.allocType(t, x.Comment)
	}
	return st.allocMem(l.n, l.zero, x.Comment)
}

func nilDeref() { panic(goPanic{"invalid memory address or nil pointer dereference", true}) }

func (st *State) loadAt(p Value, t types.Type) Value {
	switch q := p.(type) {
	case Ptr:
		if q.obj == 0 {
			nilDeref()
		}
		if q.obj < st.e.baseObjs || st.e.baseObjs == 0 {
			if n, ok := st.e.poison[q.obj]; ok {
				panic(unsupported{"read of uninitialised global " + n})
			}
		}
		if st.race {
			st.raceAccess(q, layout(t).n, false)
		}
		return st.load(q, t)
	case SymPtr:
		l := layout(t)
		if st.race {
			st.raceAccess(Ptr{q.obj, q.base}, int(q.stride*q.count), false)
		}
		if l.agg {
			r := make(Agg, l.n)
			for k := range r {
				r[k] = st.symLoad(q, int32(k))
			}
			return r
		}
		return st.symLoad(q, 0)
	}
	panic(unsupported{fmt.Sprintf("load through %T", p)})
}

// symLoad reads slot k of element idx as a selection over all elements.
func (st *State) symLoad(q SymPtr, k int32) Value {
	o := st.obj(q.obj)
	allTerm := true
	for i := int32(0); i < q.count; i++ {
		if _, ok := o.get(int(q.base + i*q.stride + k)).(*smt.Term); !ok {
			allTerm = false
			break
		}
	}
	if !allTerm {
		i := int32(st.concretize(q.idx, 300, "index"))
		return o.get(int(q.base + i*q.stride + k))
	}
	// build a binary decision on the index bits over runs of equal values
	var build func(lo, hi int32) *smt.Term
	build = func(lo, hi int32) *smt.Term {
		first := o.get(int(q.base + lo*q.stride + k)).(*smt.Term)
		same := true
		for i := lo + 1; i < hi; i++ {
			if o.get(int(q.base+i*q.stride+k)).(*smt.Term) != first {
				same = false
				break
			}
		}
		if same {
			return first
		}
		mid := (lo + hi) / 2
		return smt.Ite(smt.Ult(q.idx, smt.Const(q.idx.W, uint64(mid))), build(lo, mid), build(mid, hi))
	}
	return build(0, q.count)
}

func (st *State) storeAt(p Value, t types.Type, v Value) {
	switch q := p.(type) {
	case Ptr:
		if q.obj == 0 {
			nilDeref()
		}
		if st.race {
			st.raceAccess(q, layout(t).n, true)
		}
		st.store(q, t, v)
		return
	case SymPtr:
		if tv, ok := v.(*smt.Term); ok && q.count <= 64 {
			all := true
			o := st.obj(q.obj)
			for i := int32(0); i < q.count && all; i++ {
				_, all = o.get(int(q.base + i*q.stride)).(*smt.Term)
			}
			if all {
				if st.race {
					st.raceAccess(Ptr{q.obj, q.base}, int(q.stride*q.count), true)
				}
				for i := int32(0); i < q.count; i++ {
					old := o.get(int(q.base + i*q.stride)).(*smt.Term)
					st.storeSlot(q.obj, q.base+i*q.stride, smt.Ite(smt.Eq(q.idx, smt.Const(q.idx.W, uint64(i))), tv, old))
				}
				return
			}
		}
		i := int32(st.concretize(q.idx, 300, "store index"))
		st.storeAt(Ptr{q.obj, q.base + i*q.stride}, t, v)
		return
	}
	panic(unsupported{fmt.Sprintf("store through %T", p)})
}

// toIndex normalises an index to 64 bits.
func toIndex(v Value, t types.Type) *smt.Term {
	i := termOf(v)
	if i.W == 64 {
		return i
	}
	_, signed, _ := width(t)
	if signed {
		return smt.SExt(i, 64)
	}
	return smt.ZExt(i, 64)
}

func (st *State) boundsCheck(i *smt.Term, n int, what string) {
	if !st.decide(smt.Ult(i, smt.Const(64, uint64(n)))) {
		panic(goPanic{what, true})
	}
}

func (st *State) indexAddr(x, idx Value, it types.Type, es int, xt types.Type) Value {
	i := toIndex(idx, it)
	var obj, off, n int32
	switch q := x.(type) {
	case SliceV:
		obj, off, n = q.obj, q.off, q.n
	case Ptr:
		if q.obj == 0 {
			nilDeref()
		}
		obj, off = q.obj, q.off
		n = int32(xt.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
	case SymPtr:
		k := int32(st.concretize(q.idx, 300, "outer index"))
		return st.indexAddr(Ptr{q.obj, q.base + k*q.stride}, idx, it, es, xt)
	default:
		panic(unsupported{fmt.Sprintf("index of %T", x)})
	}
	st.boundsCheck(i, int(n), "index out of range")
	if i.IsConst() {
		return Ptr{obj, off + int32(i.Val)*int32(es)}
	}
	if n == 1 {
		return Ptr{obj, off}
	}
	if es != 1 && n > 64 || n > 1024 {
		k := int32(st.concretize(i, 300, "index"))
		return Ptr{obj, off + k*int32(es)}
	}
	return SymPtr{obj: obj, base: off, stride: int32(es), count: n, idx: i}
}

func (st *State) strIndex(s *StrV, i *smt.Term) Value {
	st.boundsCheck(i, len(s.b), "index out of range")
	if i.IsConst() {
		return s.b[i.Val]
	}
	var build func(lo, hi int) *smt.Term
	build = func(lo, hi int) *smt.Term {
		first := s.b[lo]
		same := true
		for k := lo + 1; k < hi; k++ {
			if s.b[k] != first {
				same = false
				break
			}
		}
		if same {
			return first
		}
		mid := (lo + hi) / 2
		return smt.Ite(smt.Ult(i, smt.Const(64, uint64(mid))), build(lo, mid), build(mid, hi))
	}
	return build(0, len(s.b))
}

func (st *State) index(x, idx Value, xt, it types.Type) Value {
	i := toIndex(idx, it)
	switch q := x.(type) {
	case *StrV:
		return st.strIndex(q, i)
	case Agg:
		a := xt.Underlying().(*types.Array)
		el := layout(a.Elem())
		st.boundsCheck(i, int(a.Len()), "index out of range")
		k := int(st.concretize(i, 300, "array index"))
		if el.agg {
			return Agg(q[k*el.n : (k+1)*el.n])
		}
		return q[k*el.n]
	}
	panic(unsupported{fmt.Sprintf("index of %T", x)})
}

func (st *State) lookup(m, k Value, x *ssa.Lookup) Value {
	if s, ok := m.(*StrV); ok {
		return st.strIndex(s, toIndex(k, x.Index.Type()))
	}
	mt := x.X.Type().Underlying().(*types.Map)
	i := st.mapFind(m.(MapV), k)
	var v Value
	if i >= 0 {
		v = st.obj(m.(MapV).obj).ents[i].v
	} else {
		v = zeroValue(mt.Elem())
	}
	if x.CommaOk {
		return TupleV{v, smt.Bool(i >= 0)}
	}
	return v
}

func (st *State) mapFind(m MapV, k Value) int {
	if m.obj == 0 {
		return -1
	}
	if st.race {
		st.raceAccess(Ptr{m.obj, 0}, 1, false)
	}
	for i, e := range st.obj(m.obj).ents {
		if st.decide(st.equal(e.k, k)) {
			return i
		}
	}
	return -1
}

func (st *State) mapUpdate(m, k, v Value) {
	mv := m.(MapV)
	if mv.obj == 0 {
		panic(goPanic{"assignment to entry in nil map", false})
	}
	i := st.mapFind(mv, k)
	if st.race {
		st.raceAccess(Ptr{mv.obj, 0}, 1, true)
	}
	o := st.wobj(mv.obj)
	if i >= 0 {
		o.ents[i].v = v
	} else {
		o.ents = append(o.ents, mapEnt{k, v})
	}
}

func (st *State) mapDelete(m MapV, k Value) {
	i := st.mapFind(m, k)
	if i < 0 {
		return
	}
	o := st.wobj(m.obj)
	o.ents = append(o.ents[:i:i], o.ents[i+1:]...)
}

func (st *State) next(it IterV, x *ssa.Next) Value {
	o := st.obj(it.obj)
	if x.IsString {
		s := o.str
		pos := o.pos
		if pos >= len(s.b) {
			return TupleV{smt.False, smt.Const(64, 0), smt.Const(32, 0)}
		}
		r, n := st.decodeRune(s.b[pos:])
		st.wobj(it.obj).pos = pos + n
		return TupleV{smt.True, smt.Const(64, uint64(pos)), r}
	}
	tt := x.Type().(*types.Tuple)
	zero := func(i int) Value {
		if b, ok := tt.At(i).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
			return nil
		}
		return zeroValue(tt.At(i).Type())
	}
	pos := o.pos
	for pos < len(o.ents) {
		// entries deleted meanwhile are skipped, updated values are seen
		for _, e := range st.obj(o.mp).ents {
			if c := st.equal(e.k, o.ents[pos].k); c == smt.True {
				st.wobj(it.obj).pos = pos + 1
				return TupleV{smt.True, e.k, e.v}
			}
		}
		pos++
	}
	return TupleV{smt.False, zero(1), zero(2)}
}

// decodeRune forks on ASCII and calls on the general case.
func (st *State) decodeRune(b []*smt.Term) (*smt.Term, int) {
	c0 := b[0]
	if st.decide(smt.Ult(c0, smt.Const(8, 0x80))) {
		return smt.ZExt(c0, 32), 1
	}
	bad := smt.Const(32, 0xFFFD)
	in := func(c *smt.Term, lo, hi uint64) bool {
		return st.decide(smt.And(smt.Ule(smt.Const(8, lo), c), smt.Ule(c, smt.Const(8, hi))))
	}
	low := func(c *smt.Term, m uint64) *smt.Term { return smt.ZExt(smt.BAnd(c, smt.Const(8, m)), 32) }
	shl := func(t *smt.Term, n uint64) *smt.Term { return smt.Shl(t, smt.Const(32, n)) }
	if !in(c0, 0xC2, 0xF4) {
		return bad, 1
	}
	if len(b) < 2 {
		return bad, 1
	}
	if in(c0, 0xC2, 0xDF) {
		if !in(b[1], 0x80, 0xBF) {
			return bad, 1
		}
		return smt.BOr(shl(low(c0, 0x1F), 6), low(b[1], 0x3F)), 2
	}
	if in(c0, 0xE0, 0xEF) {
		lo, hi := uint64(0x80), uint64(0xBF)
		if st.decide(smt.Eq(c0, smt.Const(8, 0xE0))) {
			lo = 0xA0
		} else if st.decide(smt.Eq(c0, smt.Const(8, 0xED))) {
			hi = 0x9F
		}
		if !in(b[1], lo, hi) || len(b) < 3 || !in(b[2], 0x80, 0xBF) {
			return bad, 1
		}
		return smt.BOr(shl(low(c0, 0x0F), 12), smt.BOr(shl(low(b[1], 0x3F), 6), low(b[2], 0x3F))), 3
	}
	lo, hi := uint64(0x80), uint64(0xBF)
	if st.decide(smt.Eq(c0, smt.Const(8, 0xF0))) {
		lo = 0x90
	} else if st.decide(smt.Eq(c0, smt.Const(8, 0xF4))) {
		hi = 0x8F
	}
	if !in(b[1], lo, hi) || len(b) < 4 || !in(b[2], 0x80, 0xBF) || !in(b[3], 0x80, 0xBF) {
		return bad, 1
	}
	return smt.BOr(smt.BOr(shl(low(c0, 0x07), 18), shl(low(b[1], 0x3F), 12)), smt.BOr(shl(low(b[2], 0x3F), 6), low(b[3], 0x3F))), 4
}

func (st *State) implements(t types.Type, i *types.Interface) bool {
	return types.Implements(t, i)
}

var implCache = newPairCache()

func (st *State) typeAssert(v IfaceV, x *ssa.TypeAssert) Value {
	ok := false
	var out Value
	if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
		if v.typ != nil {
			ok = implCache.get(typeID(v.typ), typeID(x.AssertedType), func() bool { return st.implements(v.typ, it) })
		}
		out = v
		if !ok {
			out = IfaceV{}
		}
	} else {
		ok = v.typ != nil && typeID(v.typ) == typeID(x.AssertedType)
		if ok {
			out = v.val
		} else {
			out = zeroValue(x.AssertedType)
		}
	}
	if x.CommaOk {
		return TupleV{out, smt.Bool(ok)}
	}
	if !ok {
		s := "nil"
		if v.typ != nil {
			s = v.typ.String()
		}
		panic(goPanic{fmt.Sprintf("interface conversion: interface is %s, not %s", s, x.AssertedType), false})
	}
	return out
}

func (st *State) slice3(f *Frame, in *inst, x *ssa.Slice) Value {
	// operands: X, Low, High, Max — nil ones were compiled as empty constants
	base := st.val(f, in.ops[0])
	get := func(v ssa.Value, k int) *smt.Term {
		if v == nil {
			return nil
		}
		return toIndex(st.val(f, in.ops[k]), v.Type())
	}
	lo, hi, mx := get(x.Low, 1), get(x.High, 2), get(x.Max, 3)
	var s SliceV
	isStr := false
	var str *StrV
	switch q := base.(type) {
	case *StrV:
		isStr = true
		str = q
	case SliceV:
		s = q
	case Ptr:
		if q.obj == 0 {
			nilDeref()
		}
		a := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		s = SliceV{obj: q.obj, off: q.off, n: int32(a.Len()), c: int32(a.Len()), es: int32(layout(a.Elem()).n)}
	default:
		panic(unsupported{fmt.Sprintf("slice of %T", base)})
	}
	n, c := int(s.n), int(s.c)
	if isStr {
		n = len(str.b)
		c = n
	}
	oob := func(t *smt.Term, limit *smt.Term) {
		if !st.decide(smt.Ule(t, limit)) {
			panic(goPanic{"slice bounds out of range", true})
		}
	}
	capT := smt.Const(64, uint64(c))
	if lo == nil {
		lo = smt.Const(64, 0)
	}
	if hi == nil {
		hi = smt.Const(64, uint64(n))
	}
	if mx == nil {
		mx = capT
	} else {
		oob(mx, capT)
	}
	oob(hi, mx)
	oob(lo, hi)
	h := int(st.concretizeLen(hi))
	l := int(st.concretizeLen(lo))
	m := int(st.concretizeLen(mx))
	if isStr {
		if h > l && str.src.obj != 0 {
			return &StrV{b: str.b[l:h:h], src: Ptr{str.src.obj, str.src.off + int32(l)}}
		}
		return &StrV{b: str.b[l:h:h]}
	}
	r := SliceV{obj: s.obj, off: s.off + int32(l)*s.es, n: int32(h - l), c: int32(m - l), es: s.es}
	if r.c == 0 && r.n == 0 {
		// keep the pointer inside the object
		if s.c == 0 {
			r.off = s.off
		}
	}
	return r
}

const maxAlloc = 1 << 30

func (st *State) makeSlice(l, c Value, t types.Type, lt types.Type) Value {
	el := t.Underlying().(*types.Slice).Elem()
	ll := toIndex(l, lt)
	cc := termOf(c)
	if cc.W != 64 {
		cc = smt.SExt(cc, 64)
	}
	lay := layout(el)
	n := int(st.concretizeLen(ll))
	m := n
	if cc != ll {
		m = int(st.concretizeLen(cc))
		if m < n {
			panic(goPanic{"makeslice: cap out of range", true})
		}
	}
	return st.newSlice(n, m, lay)
}

func (st *State) newSlice(n, m int, lay *layoutInfo) SliceV {
	es := lay.n
	z := lay.zero
	if es == 0 {
		return SliceV{obj: st.allocMem(1, []Value{nil}, "makeslice"), n: int32(n), c: int32(m)}
	}
	sz := m * es
	if sz == 0 {
		return SliceV{obj: st.allocMem(0, z, "makeslice"), es: int32(es)}
	}
	return SliceV{obj: st.allocMem(sz, z, "makeslice"), n: int32(n), c: int32(m), es: int32(es)}
}

// concretizeLen picks allocation sizes: every size up to 96, beyond that one
// solver-chosen representative per power of two; absurd sizes are reported.
func (st *State) concretizeLen(t *smt.Term) uint64 {
	if t.IsConst() {
		if t.Val > maxAlloc {
			if int64(t.Val) < 0 || t.Val > 1<<47 {
				panic(goPanic{"makeslice: len out of range", true})
			}
			st.violate("alloc", "absurd allocation requested")
		}
		return t.Val
	}
	k := func(v uint64) *smt.Term { return smt.Const(64, v) }
	if st.decide(smt.Ult(k(1<<47), t)) {
		panic(goPanic{"makeslice: len out of range", true})
	}
	if st.decide(smt.Ult(k(maxAlloc), t)) {
		st.violate("alloc", "absurd allocation requested")
	}
	if st.decide(smt.Ule(t, k(96))) {
		return st.concretize(t, 200, "allocation size")
	}
	for b := uint64(128); ; b *= 2 {
		if b >= maxAlloc || st.decide(smt.Ule(t, k(b))) {
			break
		}
	}
	// one representative of this class
	v := smt.Eval(t, st.model)
	st.addPC(smt.Eq(t, k(v)))
	st.w.run.mu.Lock()
	st.w.run.reps++
	st.w.run.mu.Unlock()
	return v
}

// ---- calls ----

func (st *State) callTarget(f *Frame, in *inst, c *ssa.CallCommon) (*FuncV, []Value) {
	if c.IsInvoke() {
		recv := st.val(f, in.ops[0]).(IfaceV)
		if recv.typ == nil {
			nilDeref()
		}
		m := st.e.method(recv.typ, c.Method)
		if m == nil {
			panic(unsupported{"method " + c.Method.Name() + " of " + recv.typ.String()})
		}
		args := make([]Value, 0, len(in.ops))
		args = append(args, recv.val)
		for _, o := range in.ops[1:] {
			args = append(args, st.val(f, o))
		}
		return &FuncV{fn: st.e.redirect(m)}, args
	}
	args := make([]Value, len(in.ops)-1)
	for i := range args {
		args[i] = st.val(f, in.ops[i+1])
	}
	if in.fn != nil {
		v := st.val(f, in.ops[0])
		if fv, ok := v.(*FuncV); ok && fv != nil && len(fv.env) > 0 {
			return fv, args
		}
		return &FuncV{fn: in.fn}, args
	}
	fv := st.val(f, in.ops[0]).(*FuncV)
	if fv != nil && fv.fn != nil {
		if r := st.e.redirect(fv.fn); r != fv.fn {
			fv = &FuncV{fn: r, env: fv.env}
		}
	}
	return fv, args
}

func (st *State) execCall(t *Thread, f *Frame, in *inst, x *ssa.Call) bool {
	c := &x.Call
	if b, ok := c.Value.(*ssa.Builtin); ok {
		args := make([]Value, len(in.ops)-1)
		for i := range args {
			args[i] = st.val(f, in.ops[i+1])
		}
		v, ended := st.builtin(t, f, b, args, c)
		if ended {
			return true
		}
		if in.dst >= 0 {
			f.regs[in.dst] = v
		}
		f.ip++
		return false
	}
	fn, args := st.callTarget(f, in, c)
	if fn == nil {
		nilDeref()
	}
	return st.call(t, f, fn, args, in.dst, false, nil)
}

// call invokes fn; for intrinsics the result is stored at once, for functions a frame is
// pushed. The caller's ip is advanced, except for deferred calls (isDefer), whose caller
// instruction is executed again.
func (st *State) call(t *Thread, f *Frame, fn *FuncV, args []Value, dst int32, isDefer bool, retTo func(*State, Value)) bool {
	if fn == nil {
		nilDeref()
	}
	if fn.blt != nil {
		v, ended := st.builtin(t, f, fn.blt, args, nil)
		_ = v
		if ended {
			if isDefer && fn.blt.Name() == "close" {
				// the deferred call must be attempted again
				f.defers = append(f.defers, deferred{fn, args})
			}
			return true
		}
		if isDefer {
			st.afterDefer(t, f)
			return t.done
		}
		f.ip++
		return false
	}
	if it := st.e.intrinsicFor(fn.fn); it != nil {
		for i, a := range args {
			if q, ok := a.(SymPtr); ok {
				k := int32(st.concretize(q.idx, 300, "pointer argument"))
				args = append([]Value(nil), args...)
				args[i] = Ptr{q.obj, q.base + k*q.stride}
			}
		}
		v, ctl := it.f(st, t, args)
		switch ctl {
		case ctlYield:
			if isDefer {
				// the deferred call must be attempted again
				f.defers = append(f.defers, deferred{fn, args})
			}
			return true
		case ctlFrame:
			// the intrinsic pushed a frame itself
			nf := t.frames[len(t.frames)-1]
			nf.dst = dst
			nf.isDefer = isDefer
			if !isDefer {
				f.ip++
			}
			return false
		}
		if retTo != nil {
			retTo(st, v)
			return false
		}
		if isDefer {
			st.afterDefer(t, f)
			return t.done
		}
		if dst >= 0 {
			f.regs[dst] = v
		}
		f.ip++
		return false
	}
	if !isDefer && retTo == nil {
		f.ip++
	}
	nf := st.pushFrame(t, fn, args, dst)
	nf.isDefer = isDefer
	nf.retTo = retTo
	return false
}

func (st *State) pushFrame(t *Thread, fn *FuncV, args []Value, dst int32) *Frame {
	if len(fn.fn.Blocks) == 0 {
		panic(unsupported{"call of external function " + fullName(fn.fn)})
	}
	fi := st.e.info(fn.fn)
	if st.w.funcs != nil && !st.w.funcs[fn.fn] {
		st.w.funcs[fn.fn] = true
	}
	nf := &Frame{fi: fi, regs: make([]Value, fi.nregs), dst: dst, prev: -1}
	if len(args) != len(fi.params) {
		panic(fmt.Sprintf("arity mismatch calling %s", fn.fn))
	}
	for i, p := range fi.params {
		nf.regs[p] = args[i]
	}
	for i, p := range fi.free {
		nf.regs[p] = fn.env[i]
	}
	t.frames = append(t.frames, nf)
	return nf
}

func (st *State) spawn(fn *FuncV, args []Value, name string) *Thread {
	t := &Thread{id: len(st.thr), name: name, fresh: true}
	st.thr = append(st.thr, t)
	if fn.blt != nil {
		panic(unsupported{"go of builtin"})
	}
	if name != "init" && st.e.intrinsicFor(fn.fn) != nil {
		panic(unsupported{"go of intrinsic " + fullName(fn.fn)})
	}
	st.pushFrame(t, fn, args, -1)
	if st.race {
		t.vc = make([]int32, t.id+1)
		t.vc[t.id] = 1
	}
	return t
}

// doReturn pops the top frame delivering v.
func (st *State) doReturn(t *Thread, v Value) bool {
	n := len(t.frames)
	f := t.frames[n-1]
	t.frames = t.frames[:n-1]
	if n == 1 {
		t.done = true
		return true
	}
	c := t.frames[n-2]
	if f.retTo != nil {
		f.retTo(st, v)
		return t.done
	}
	if f.isDefer {
		st.afterDefer(t, c)
		return t.done
	}
	if f.dst >= 0 {
		c.regs[f.dst] = v
	}
	return false
}

// afterDefer continues after a deferred call of frame c: RunDefers is simply executed
// again; a panicking frame goes on unwinding.
func (st *State) afterDefer(t *Thread, c *Frame) {
	if c.panicking {
		st.unwind(t)
	}
}

func (st *State) startPanic(v Value, msg string) {
	t := st.thread()
	t.phase = 0
	st.grant = false
	t.panic = &panicInfo{val: v, msg: msg, prev: t.panic, where: st.where()}
	t.frames[len(t.frames)-1].panicking = true
	st.unwind(t)
}

func (st *State) unwind(t *Thread) {
	for {
		if len(t.frames) == 0 {
			panic("unwind of empty stack")
		}
		f := t.frames[len(t.frames)-1]
		f.panicking = true
		if t.panic.recovered {
			// finish remaining deferred calls, then return from f
			if n := len(f.defers); n == 0 {
				t.panic = t.panic.prev
				f.panicking = false
				if f.fi.recov >= 0 {
					f.prev = f.blk
					f.blk = f.fi.recov
					f.ip = 0
					return
				}
				var z Value
				res := f.fi.fn.Signature.Results()
				switch res.Len() {
				case 0:
				case 1:
					z = zeroValue(res.At(0).Type())
				default:
					z = zeroValue(res)
				}
				st.doReturn(t, z)
				return
			}
		}
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			if d.fn == nil {
				nilDeref()
			}
			if st.call(t, f, d.fn, d.args, -1, true, nil) && !t.done {
				t.resumeUnwind = true
			}
			return
		}
		if f.retTo != nil {
			panic(unsupported{"panic through an engine continuation"})
		}
		if len(t.frames) == 1 {
			if t.panic.goexit {
				t.frames = nil
				t.done = true
				return
			}
			st.crash(t)
		}
		t.frames = t.frames[:len(t.frames)-1]
	}
}

func (st *State) crash(t *Thread) {
	panic(violationStop{&Violation{Kind: "panic", Msg: t.panic.msg, Where: t.panic.where}})
}

func (st *State) panicText(v Value) string {
	if i, ok := v.(IfaceV); ok {
		switch x := i.val.(type) {
		case *StrV:
			return "panic: " + goStr(x)
		}
		if i.typ != nil {
			return "panic: value of type " + i.typ.String()
		}
	}
	return "panic"
}
