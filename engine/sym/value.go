// Package sym executes go/ssa functions symbolically: values are solver terms, the heap is
// copy-on-write, branches with both sides feasible fork the state, goroutines are scheduled
// explicitly.
package sym

import (
	"fmt"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"

	"verif/engine/smt"
)

// Value is the content of one slot, or an Agg / TupleV in a register.
type Value any

// StrV is a string of concrete length with symbolic bytes. One made with package unsafe
// shares the memory at src.
type StrV struct {
	b   []*smt.Term
	src Ptr
}

// Ptr addresses one slot of an object; obj 0 is nil.
type Ptr struct{ obj, off int32 }

// SymPtr addresses element idx (symbolic, in [0,count)) of a table.
type SymPtr struct {
	obj, base, stride, count int32
	idx                      *smt.Term
}

// SliceV is a slice header; off, n, c count slots*elem handled by the elem size es.
type SliceV struct {
	obj  int32
	off  int32 // slot offset of element 0
	n, c int32 // in elements
	es   int32 // slots per element
}

// IfaceV is an interface value; typ nil means nil interface.
type IfaceV struct {
	typ types.Type
	val Value
}

// FuncV is a function value; nil *FuncV is the nil func.
type FuncV struct {
	fn  *ssa.Function
	env []Value
	blt *ssa.Builtin
}

// MapV and ChanV refer to heap objects; 0 is nil.
type MapV struct{ obj int32 }
type ChanV struct{ obj int32 }

// Agg is a flattened struct or array value in a register.
type Agg []Value

// TupleV holds multiple results.
type TupleV []Value

// FloatV is a concrete floating-point value.
type FloatV float64

// IterV is an iterator over a string or map held in a heap object.
type IterV struct{ obj int32 }

type rtypeV struct{ t types.Type }

// ---- type layout ----

type layoutInfo struct {
	n    int   // slots
	agg  bool  // struct or array
	offs []int // field offsets
	zero []Value
}

var (
	layouts sync.Map // types.Type -> *layoutInfo
	typeMu  sync.Mutex
	typeMap typeutil.Map
	typeIDn int
	typeIDs sync.Map // types.Type -> int
)

// typeID gives identical types the same number.
func typeID(t types.Type) int {
	if v, ok := typeIDs.Load(t); ok {
		return v.(int)
	}
	typeMu.Lock()
	defer typeMu.Unlock()
	v := typeMap.At(t)
	if v == nil {
		typeIDn++
		v = typeIDn
		typeMap.Set(t, v)
	}
	typeIDs.Store(t, v.(int))
	return v.(int)
}

func layout(t types.Type) *layoutInfo {
	if l, ok := layouts.Load(t); ok {
		return l.(*layoutInfo)
	}
	l := computeLayout(t)
	layouts.Store(t, l)
	return l
}

func computeLayout(t types.Type) *layoutInfo {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		l := &layoutInfo{agg: true}
		for i := 0; i < u.NumFields(); i++ {
			fl := layout(u.Field(i).Type())
			l.offs = append(l.offs, l.n)
			l.n += fl.n
			l.zero = append(l.zero, fl.zero...)
		}
		return l
	case *types.Array:
		el := layout(u.Elem())
		n := int(u.Len())
		l := &layoutInfo{agg: true, n: n * el.n}
		if l.n <= 1<<16 {
			for i := 0; i < n; i++ {
				l.zero = append(l.zero, el.zero...)
			}
		}
		return l
	case *types.Tuple:
		return &layoutInfo{n: 1, zero: []Value{nil}}
	}
	return &layoutInfo{n: 1, zero: []Value{zeroScalar(t)}}
}

var emptyStr = &StrV{}

func width(t types.Type) (w uint8, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, true
	case types.Int8:
		return 8, true, true
	case types.Uint8:
		return 8, false, true
	case types.Int16:
		return 16, true, true
	case types.Uint16:
		return 16, false, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint32:
		return 32, false, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func zeroScalar(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, _, ok := width(t); ok {
			if w == 0 {
				return smt.False
			}
			return smt.Const(w, 0)
		}
		switch u.Kind() {
		case types.String, types.UntypedString:
			return emptyStr
		case types.UnsafePointer:
			return Ptr{}
		case types.Float32, types.Float64, types.UntypedFloat:
			return FloatV(0)
		case types.UntypedNil:
			return IfaceV{}
		case types.Complex64, types.Complex128:
			return FloatV(0)
		case types.Invalid:
			return nil
		}
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return SliceV{es: int32(layout(u.Elem()).n)}
	case *types.Interface:
		return IfaceV{}
	case *types.Signature:
		return (*FuncV)(nil)
	case *types.Map:
		return MapV{}
	case *types.Chan:
		return ChanV{}
	case *types.TypeParam:
		return nil
	}
	panic(unsupported{fmt.Sprintf("zero of %s", t)})
}

// zeroValue is the register value of type t's zero.
func zeroValue(t types.Type) Value {
	if tt, ok := t.(*types.Tuple); ok {
		r := make(TupleV, tt.Len())
		for i := range r {
			r[i] = zeroValue(tt.At(i).Type())
		}
		return r
	}
	l := layout(t)
	if l.agg {
		if len(l.zero) != l.n {
			panic(unsupported{"zero of huge array"})
		}
		return Agg(append([]Value(nil), l.zero...))
	}
	return l.zero[0]
}

// ---- heap ----

type epoch struct{ _ byte }

type mapEnt struct {
	k, v Value
}

type chanData struct {
	cap     int
	buf     []Value
	nsend   int // slot of the next buffered send
	closed  bool
	timerAt int64 // >= 0: timer channel firing at that virtual time
	period  int64
	elem    types.Type
	vc      []int32
}

type objKind uint8

const (
	kMem objKind = iota
	kMap
	kChan
	kIter
)

// Object is a heap object: n slots, of which only a prefix is materialised; the rest is
// the repeated zero pattern.
type Object struct {
	owner *epoch
	kind  objKind
	n     int
	cells []Value
	zero  []Value
	site  string
	ro    bool
	ents  []mapEnt
	ch    *chanData
	// iterator
	str *StrV
	pos int
	mp  int32
	// race detection
	shadow []shadowCell
}

func (o *Object) get(i int) Value {
	if i < len(o.cells) {
		return o.cells[i]
	}
	if i >= o.n {
		panic(fmt.Sprintf("slot %d out of object %s of %d", i, o.site, o.n))
	}
	return o.zero[i%len(o.zero)]
}

func (o *Object) grow(n int) {
	for len(o.cells) < n {
		o.cells = append(o.cells, o.zero[len(o.cells)%len(o.zero)])
	}
}

const chunkBits = 7
const chunkSize = 1 << chunkBits

type chunk struct {
	owner *epoch
	o     [chunkSize]*Object
}

type unsupported struct{ msg string }
type killPath struct{ why string }

func termOf(v Value) *smt.Term {
	t, ok := v.(*smt.Term)
	if !ok {
		panic(unsupported{fmt.Sprintf("expected scalar, got %T", v)})
	}
	return t
}

func constStr(s string) *StrV {
	r := &StrV{b: make([]*smt.Term, len(s))}
	for i := 0; i < len(s); i++ {
		r.b[i] = smt.Const(8, uint64(s[i]))
	}
	return r
}

// goStr renders a string for messages; symbolic bytes print as '?'.
func goStr(s *StrV) string {
	var b strings.Builder
	for _, t := range s.b {
		if t.IsConst() {
			b.WriteByte(byte(t.Val))
		} else {
			b.WriteByte('?')
		}
	}
	return b.String()
}

func concreteStr(s *StrV) (string, bool) {
	b := make([]byte, len(s.b))
	for i, t := range s.b {
		if !t.IsConst() {
			return "", false
		}
		b[i] = byte(t.Val)
	}
	return string(b), true
}
