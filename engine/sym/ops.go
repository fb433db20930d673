package sym

import (
	"fmt"
	"go/token"
	"go/types"
	"sync"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"

	"verif/engine/smt"
)

type pairCache struct{ m sync.Map }

func newPairCache() *pairCache { return &pairCache{} }

func (c *pairCache) get(a, b int, f func() bool) bool {
	k := [2]int{a, b}
	if v, ok := c.m.Load(k); ok {
		return v.(bool)
	}
	v := f()
	c.m.Store(k, v)
	return v
}

func (st *State) binop(op token.Token, a, b Value, xt, yt types.Type) Value {
	switch op {
	case token.EQL:
		return st.equal(a, b)
	case token.NEQ:
		return smt.Not(st.equal(a, b))
	}
	switch x := a.(type) {
	case *StrV:
		y := b.(*StrV)
		switch op {
		case token.ADD:
			r := make([]*smt.Term, 0, len(x.b)+len(y.b))
			return &StrV{b: append(append(r, x.b...), y.b...)}
		case token.LSS:
			return strLess(x.b, y.b)
		case token.GTR:
			return strLess(y.b, x.b)
		case token.LEQ:
			return smt.Not(strLess(y.b, x.b))
		case token.GEQ:
			return smt.Not(strLess(x.b, y.b))
		}
	case FloatV:
		y := b.(FloatV)
		switch op {
		case token.ADD:
			return x + y
		case token.SUB:
			return x - y
		case token.MUL:
			return x * y
		case token.QUO:
			return x / y
		case token.LSS:
			return smt.Bool(x < y)
		case token.LEQ:
			return smt.Bool(x <= y)
		case token.GTR:
			return smt.Bool(x > y)
		case token.GEQ:
			return smt.Bool(x >= y)
		}
	case *smt.Term:
		y := termOf(b)
		w, signed, _ := width(xt)
		if w == 0 && x.W == 0 {
			switch op {
			case token.AND, token.LAND:
				return smt.And(x, y)
			case token.OR, token.LOR:
				return smt.Or(x, y)
			case token.XOR:
				return smt.Not(smt.Eq(x, y))
			}
		}
		switch op {
		case token.ADD:
			return smt.Add(x, y)
		case token.SUB:
			return smt.Sub(x, y)
		case token.MUL:
			return smt.Mul(x, y)
		case token.QUO, token.REM:
			if st.decide(smt.Eq(y, smt.Const(y.W, 0))) {
				panic(goPanic{"integer divide by zero", true})
			}
			switch {
			case op == token.QUO && signed:
				return smt.SDiv(x, y)
			case op == token.QUO:
				return smt.UDiv(x, y)
			case signed:
				return smt.SRem(x, y)
			default:
				return smt.URem(x, y)
			}
		case token.AND:
			return smt.BAnd(x, y)
		case token.OR:
			return smt.BOr(x, y)
		case token.XOR:
			return smt.BXor(x, y)
		case token.AND_NOT:
			return smt.BAnd(x, smt.BNot(y))
		case token.SHL, token.SHR:
			_, ysigned, _ := width(yt)
			if ysigned && st.decide(smt.Slt(y, smt.Const(y.W, 0))) {
				panic(goPanic{"negative shift amount", true})
			}
			return shift(op, x, y, signed)
		case token.LSS:
			if signed {
				return smt.Slt(x, y)
			}
			return smt.Ult(x, y)
		case token.LEQ:
			if signed {
				return smt.Sle(x, y)
			}
			return smt.Ule(x, y)
		case token.GTR:
			if signed {
				return smt.Slt(y, x)
			}
			return smt.Ult(y, x)
		case token.GEQ:
			if signed {
				return smt.Sle(y, x)
			}
			return smt.Ule(y, x)
		}
	}
	panic(unsupported{fmt.Sprintf("binop %s on %T", op, a)})
}

func shift(op token.Token, x, y *smt.Term, signed bool) *smt.Term {
	w := x.W
	var over *smt.Term = smt.False
	var cnt *smt.Term
	switch {
	case y.W == w:
		cnt = y
	case y.W < w:
		cnt = smt.ZExt(y, w)
	default:
		over = smt.Ule(smt.Const(y.W, uint64(w)), y)
		cnt = smt.Trunc(y, w)
	}
	var r, o *smt.Term
	switch {
	case op == token.SHL:
		r, o = smt.Shl(x, cnt), smt.Const(w, 0)
	case signed:
		r, o = smt.AShr(x, cnt), smt.AShr(x, smt.Const(w, uint64(w-1)))
	default:
		r, o = smt.LShr(x, cnt), smt.Const(w, 0)
	}
	return smt.Ite(over, o, r)
}

func strLess(a, b []*smt.Term) *smt.Term {
	r := smt.Bool(len(a) < len(b))
	n := min(len(a), len(b))
	for i := n - 1; i >= 0; i-- {
		r = smt.Or(smt.Ult(a[i], b[i]), smt.And(smt.Eq(a[i], b[i]), r))
	}
	return r
}

func bytesEq(a, b []*smt.Term) *smt.Term {
	if len(a) != len(b) {
		return smt.False
	}
	r := smt.True
	for i := range a {
		r = smt.And(r, smt.Eq(a[i], b[i]))
		if r == smt.False {
			return r
		}
	}
	return r
}

func (st *State) equal(a, b Value) *smt.Term {
	switch x := a.(type) {
	case *smt.Term:
		return smt.Eq(x, termOf(b))
	case *StrV:
		return bytesEq(st.strBytes(x), st.strBytes(b.(*StrV)))
	case Ptr:
		switch y := b.(type) {
		case Ptr:
			return smt.Bool(x == y)
		case SymPtr:
			return st.equal(y, x)
		}
	case SymPtr:
		y, ok := b.(Ptr)
		if ok && y.obj != x.obj {
			return smt.False
		}
		panic(unsupported{"comparison of symbolic pointers"})
	case MapV:
		return smt.Bool(x == b.(MapV))
	case ChanV:
		return smt.Bool(x == b.(ChanV))
	case SliceV:
		// only comparison with nil
		y := b.(SliceV)
		return smt.Bool((x.obj == 0) == (y.obj == 0))
	case *FuncV:
		y := b.(*FuncV)
		return smt.Bool((x == nil) == (y == nil))
	case FloatV:
		return smt.Bool(x == b.(FloatV))
	case Agg:
		y := b.(Agg)
		r := smt.True
		for i := range x {
			r = smt.And(r, st.equal(x[i], y[i]))
		}
		return r
	case IfaceV:
		y, ok := b.(IfaceV)
		if !ok {
			// comparison of an interface with a concrete value
			panic(unsupported{"mixed interface comparison"})
		}
		if x.typ == nil || y.typ == nil {
			return smt.Bool(x.typ == nil && y.typ == nil)
		}
		if typeID(x.typ) != typeID(y.typ) {
			return smt.False
		}
		if !types.Comparable(x.typ) {
			panic(goPanic{"comparing uncomparable type " + x.typ.String(), true})
		}
		return st.equal(x.val, y.val)
	case nil:
		if b == nil {
			return smt.True
		}
	}
	panic(unsupported{fmt.Sprintf("comparison of %T and %T", a, b)})
}

func (st *State) convert(v Value, from, to types.Type) Value {
	fu, tu := from.Underlying(), to.Underlying()
	if tp, ok := tu.(*types.Pointer); ok {
		_ = tp
		return v // from unsafe.Pointer
	}
	if tb, ok := tu.(*types.Basic); ok {
		if tb.Kind() == types.UnsafePointer {
			switch v.(type) {
			case Ptr, SymPtr:
				return v
			}
			panic(unsupported{"conversion to unsafe.Pointer"})
		}
		if w, _, ok := width(to); ok && w > 0 {
			switch x := v.(type) {
			case *smt.Term:
				_, fs, _ := width(from)
				switch {
				case w == x.W:
					return x
				case w < x.W:
					return smt.Trunc(x, w)
				case fs:
					return smt.SExt(x, w)
				default:
					return smt.ZExt(x, w)
				}
			case FloatV:
				return smt.Const(w, uint64(int64(x)))
			case Ptr:
				panic(unsupported{"pointer to integer conversion"})
			}
		}
		if tb.Info()&types.IsString != 0 {
			switch x := v.(type) {
			case *StrV:
				return x
			case SliceV:
				if el, ok := fu.(*types.Slice); ok {
					if w, _, _ := width(el.Elem()); w == 8 {
						return &StrV{b: st.sliceBytes(x)}
					}
				}
				out := &StrV{}
				o := x.obj
				for i := int32(0); i < x.n; i++ {
					r := termOf(st.obj(o).get(int(x.off + i)))
					out.b = append(out.b, st.runeToStr(r, types.Typ[types.Int32]).(*StrV).b...)
				}
				return out
			case *smt.Term:
				return st.runeToStr(x, from)
			}
		}
		if tb.Info()&types.IsFloat != 0 {
			switch x := v.(type) {
			case FloatV:
				return x
			case *smt.Term:
				if x.IsConst() {
					_, s, _ := width(from)
					if s {
						return FloatV(float64(x.SVal()))
					}
					return FloatV(float64(x.Val))
				}
				panic(unsupported{"symbolic integer to float"})
			}
		}
	}
	if ts, ok := tu.(*types.Slice); ok {
		if s, ok := v.(*StrV); ok {
			if w, _, _ := width(ts.Elem()); w == 8 {
				return st.bytesToSlice(s.b, st.roundup(len(s.b)))
			}
			var rs []Value
			for b := s.b; len(b) > 0; {
				r, n := st.decodeRune(b)
				rs = append(rs, r)
				b = b[n:]
			}
			c := st.roundup(len(rs)*4) / 4
			id := st.alloc(&Object{kind: kMem, n: c, zero: []Value{smt.Const(32, 0)}, site: "runes"})
			st.obj(id).cells = rs
			return SliceV{obj: id, n: int32(len(rs)), c: int32(c), es: 1}
		}
		return v
	}
	panic(unsupported{fmt.Sprintf("conversion %s -> %s", from, to)})
}

func (st *State) runeToStr(x *smt.Term, from types.Type) Value {
	_, s, _ := width(from)
	var r *smt.Term
	if x.W < 32 {
		if s {
			r = smt.SExt(x, 32)
		} else {
			r = smt.ZExt(x, 32)
		}
	} else if x.W == 64 {
		if !st.decide(smt.Ult(x, smt.Const(64, 0x110000))) {
			return constStr(string(utf8.RuneError))
		}
		r = smt.Trunc(x, 32)
	} else {
		r = x
	}
	if st.decide(smt.Ult(r, smt.Const(32, 0x80))) {
		return &StrV{b: []*smt.Term{smt.Trunc(r, 8)}}
	}
	if r.IsConst() {
		return constStr(string(rune(r.SVal())))
	}
	if st.decide(smt.Ult(r, smt.Const(32, 0x800))) {
		return &StrV{b: []*smt.Term{
			smt.BOr(smt.Const(8, 0xC0), smt.Trunc(smt.LShr(r, smt.Const(32, 6)), 8)),
			smt.BOr(smt.Const(8, 0x80), smt.BAnd(smt.Const(8, 0x3F), smt.Trunc(r, 8)))}}
	}
	cont := func(n uint64) *smt.Term {
		return smt.BOr(smt.Const(8, 0x80), smt.BAnd(smt.Const(8, 0x3F), smt.Trunc(smt.LShr(r, smt.Const(32, n)), 8)))
	}
	if !st.decide(smt.Ult(r, smt.Const(32, 0x110000))) ||
		st.decide(smt.And(smt.Ule(smt.Const(32, 0xD800), r), smt.Ult(r, smt.Const(32, 0xE000)))) {
		return constStr(string(utf8.RuneError))
	}
	if st.decide(smt.Ult(r, smt.Const(32, 0x10000))) {
		return &StrV{b: []*smt.Term{
			smt.BOr(smt.Const(8, 0xE0), smt.Trunc(smt.LShr(r, smt.Const(32, 12)), 8)), cont(6), cont(0)}}
	}
	return &StrV{b: []*smt.Term{
		smt.BOr(smt.Const(8, 0xF0), smt.Trunc(smt.LShr(r, smt.Const(32, 18)), 8)), cont(12), cont(6), cont(0)}}
}

// sliceBytes reads the content of a byte slice.
func (st *State) sliceBytes(s SliceV) []*smt.Term {
	r := make([]*smt.Term, s.n)
	if s.n == 0 {
		return r
	}
	if st.race {
		st.raceAccess(Ptr{s.obj, s.off}, int(s.n), false)
	}
	o := st.obj(s.obj)
	if int(s.off+s.n) > o.n {
		panic(goPanic{"memory access outside of allocated object " + o.site, true})
	}
	for i := range r {
		r[i] = termOf(o.get(int(s.off) + i))
	}
	return r
}

var byteZero = []Value{smt.Const(8, 0)}

func (st *State) bytesToSlice(b []*smt.Term, c int) SliceV {
	if c < len(b) {
		c = len(b)
	}
	id := st.alloc(&Object{kind: kMem, n: c, zero: byteZero, site: "bytes"})
	o := st.obj(id)
	o.cells = make([]Value, len(b))
	for i, t := range b {
		o.cells[i] = t
	}
	return SliceV{obj: id, n: int32(len(b)), c: int32(c), es: 1}
}

// Go's malloc size classes up to 32 KiB.
var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func (st *State) roundup(n int) int {
	if n > 32768 {
		return (n + 8191) / 8192 * 8192
	}
	for _, c := range sizeClasses {
		if c >= n {
			return c
		}
	}
	return n
}

var stdSizes = types.SizesFor("gc", "amd64")

// growCap is the runtime's growslice capacity.
func (st *State) growCap(oldCap, newLen int, el types.Type) int {
	nc := oldCap
	dbl := nc + nc
	switch {
	case newLen > dbl:
		nc = newLen
	case oldCap < 256:
		nc = dbl
	default:
		for nc < newLen {
			nc += (nc + 3*256) >> 2
		}
	}
	sz := int(stdSizes.Sizeof(el))
	if sz == 0 {
		return newLen
	}
	return st.roundup(nc*sz) / sz
}

func (st *State) appendSlice(s SliceV, vals []Value, el types.Type) SliceV {
	es := layout(el).n
	k := 0
	if es > 0 {
		k = len(vals) / es
	}
	return st.appendN(s, k, vals, el)
}

func (st *State) appendN(s SliceV, k int, vals []Value, el types.Type) SliceV {
	lay := layout(el)
	if k == 0 {
		return s
	}
	n := int(s.n) + k
	if n <= int(s.c) {
		if lay.n > 0 {
			if st.race {
				st.raceAccess(Ptr{s.obj, s.off + s.n*s.es}, len(vals), true)
			}
			o := st.wobj(s.obj)
			at := int(s.off) + int(s.n)*lay.n
			if at+len(vals) > o.n {
				panic(goPanic{"memory access outside of allocated object " + o.site, true})
			}
			o.grow(at + len(vals))
			copy(o.cells[at:], vals)
		}
		s.n = int32(n)
		return s
	}
	c := st.growCap(int(s.c), n, el)
	r := st.newSlice(n, c, lay)
	if lay.n > 0 {
		o := st.obj(r.obj)
		o.cells = make([]Value, n*lay.n)
		if s.n > 0 {
			src := st.obj(s.obj)
			if st.race {
				st.raceAccess(Ptr{s.obj, s.off}, int(s.n)*lay.n, false)
			}
			for i := 0; i < int(s.n)*lay.n; i++ {
				o.cells[i] = src.get(int(s.off) + i)
			}
		}
		copy(o.cells[int(s.n)*lay.n:], vals)
	}
	return r
}

// sliceVals reads all slots of a slice.
func (st *State) sliceVals(s SliceV) []Value {
	m := int(s.n) * int(s.es)
	r := make([]Value, m)
	if m == 0 {
		return r
	}
	if st.race {
		st.raceAccess(Ptr{s.obj, s.off}, m, false)
	}
	o := st.obj(s.obj)
	if int(s.off)+m > o.n {
		panic(goPanic{"memory access outside of allocated object " + o.site, true})
	}
	for i := range r {
		r[i] = o.get(int(s.off) + i)
	}
	return r
}

func (st *State) builtin(t *Thread, f *Frame, b *ssa.Builtin, args []Value, c *ssa.CallCommon) (Value, bool) {
	i64 := func(n int) Value { return smt.Const(64, uint64(n)) }
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case *StrV:
			return i64(len(x.b)), false
		case SliceV:
			return i64(int(x.n)), false
		case MapV:
			if x.obj == 0 {
				return i64(0), false
			}
			return i64(len(st.obj(x.obj).ents)), false
		case ChanV:
			if x.obj == 0 {
				return i64(0), false
			}
			return i64(len(st.obj(x.obj).ch.buf)), false
		case Agg, Ptr:
			at := c.Args[0].Type().Underlying()
			if p, ok := at.(*types.Pointer); ok {
				at = p.Elem().Underlying()
			}
			return i64(int(at.(*types.Array).Len())), false
		}
	case "cap":
		switch x := args[0].(type) {
		case SliceV:
			return i64(int(x.c)), false
		case ChanV:
			if x.obj == 0 {
				return i64(0), false
			}
			return i64(st.obj(x.obj).ch.cap), false
		case Agg, Ptr:
			at := c.Args[0].Type().Underlying()
			if p, ok := at.(*types.Pointer); ok {
				at = p.Elem().Underlying()
			}
			return i64(int(at.(*types.Array).Len())), false
		}
	case "append":
		s := args[0].(SliceV)
		el := b.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Slice).Elem()
		switch y := args[1].(type) {
		case *StrV:
			vals := make([]Value, len(y.b))
			for i, t := range y.b {
				vals[i] = t
			}
			return st.appendSlice(s, vals, el), false
		case SliceV:
			return st.appendN(s, int(y.n), st.sliceVals(y), el), false
		}
	case "copy":
		d := args[0].(SliceV)
		var vals []Value
		var n int
		switch y := args[1].(type) {
		case *StrV:
			n = min(int(d.n), len(y.b))
			for _, t := range y.b[:n] {
				vals = append(vals, t)
			}
		case SliceV:
			n = min(int(d.n), int(y.n))
			y.n = int32(n)
			vals = st.sliceVals(y)
		}
		if n > 0 && len(vals) > 0 {
			if st.race {
				st.raceAccess(Ptr{d.obj, d.off}, len(vals), true)
			}
			o := st.wobj(d.obj)
			if int(d.off)+len(vals) > o.n {
				panic(goPanic{"memory access outside of allocated object " + o.site, true})
			}
			o.grow(int(d.off) + len(vals))
			copy(o.cells[d.off:], vals)
		}
		return i64(n), false
	case "delete":
		st.mapDelete(args[0].(MapV), args[1])
		return nil, false
	case "clear":
		switch x := args[0].(type) {
		case MapV:
			if x.obj != 0 {
				st.wobj(x.obj).ents = nil
			}
		case SliceV:
			o := st.wobj(x.obj)
			m := int(x.n) * int(x.es)
			o.grow(int(x.off) + m)
			for i := 0; i < m; i++ {
				o.cells[int(x.off)+i] = o.zero[(int(x.off)+i)%len(o.zero)]
			}
		}
		return nil, false
	case "close":
		if !st.enter(t, pendOp{kind: opAtomic}) {
			return nil, true
		}
		st.chanClose(t, args[0].(ChanV))
		return nil, false
	case "recover":
		// effective only when called directly by a deferred function of the panicking frame
		n := len(t.frames)
		if t.panic != nil && !t.panic.recovered && !t.panic.goexit && n >= 2 && f.isDefer && t.frames[n-2].panicking {
			t.panic.recovered = true
			if iv, ok := t.panic.val.(IfaceV); ok {
				return iv, false
			}
			return IfaceV{typ: types.Typ[types.String], val: constStr(t.panic.msg)}, false
		}
		return IfaceV{}, false
	case "panic":
		st.startPanic(args[0], st.panicText(args[0]))
		return nil, true
	case "min", "max":
		r := args[0]
		tt := b.Type().(*types.Signature).Params().At(0).Type()
		for _, y := range args[1:] {
			less := st.binop(token.LSS, y, r, tt, tt).(*smt.Term)
			if b.Name() == "max" {
				less = st.binop(token.LSS, r, y, tt, tt).(*smt.Term)
			}
			if rt, ok := r.(*smt.Term); ok {
				r = smt.Ite(less, y.(*smt.Term), rt)
			} else if st.decide(less) {
				r = y
			}
		}
		return r, false
	case "print", "println":
		return nil, false
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p.obj == 0 {
			nilDeref()
		}
		return args[0], false
	case "String": // unsafe.String
		p := args[0].(Ptr)
		n := st.concInt(args[1], "unsafe.String length")
		if n == 0 {
			return emptyStr, false
		}
		if p.obj == 0 {
			panic(goPanic{"unsafe.String: ptr is nil and len is not zero", true})
		}
		return st.sharedStr(p, int32(n)), false
	case "StringData":
		s := args[0].(*StrV)
		if len(s.b) == 0 {
			return Ptr{}, false
		}
		if s.src.obj != 0 {
			return s.src, false
		}
		sl := st.bytesToSlice(s.b, len(s.b))
		return Ptr{sl.obj, 0}, false
	case "Slice": // unsafe.Slice
		p := args[0].(Ptr)
		n := st.concretizeLen(toIndex(args[1], types.Typ[types.Int]))
		el := b.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Pointer).Elem()
		if p.obj == 0 {
			if n == 0 {
				return SliceV{es: int32(layout(el).n)}, false
			}
			panic(goPanic{"unsafe.Slice: ptr is nil and len is not zero", true})
		}
		if int(p.off)+int(n)*layout(el).n > st.obj(p.obj).n {
			panic(goPanic{"checkptr: unsafe.Slice result straddles multiple allocations", true})
		}
		return SliceV{obj: p.obj, off: p.off, n: int32(n), c: int32(n), es: int32(layout(el).n)}, false
	case "SliceData":
		s := args[0].(SliceV)
		return Ptr{s.obj, s.off}, false
	case "Add":
		p := args[0].(Ptr)
		n := st.concInt(args[1], "unsafe.Add")
		if o := st.obj(p.obj); len(o.zero) == 1 {
			if t, ok := o.zero[0].(*smt.Term); ok && t.W == 8 {
				return Ptr{p.obj, p.off + int32(n)}, false
			}
		}
		panic(unsupported{"unsafe.Add"})
	}
	panic(unsupported{"builtin " + b.Name()})
}
