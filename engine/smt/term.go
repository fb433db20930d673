// Package smt holds hash-consed bit-vector terms, their simplifier and evaluator,
// and a driver for SMT-LIB2 solver processes.
package smt

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
)

// Op is a term constructor.
type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot // bool
	OpAnd // bool
	OpOr  // bool
	OpEq
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpIte
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpURem
	OpSDiv
	OpSRem
	OpBAnd
	OpBOr
	OpBXor
	OpBNot
	OpNeg
	OpShl
	OpLShr
	OpAShr
	OpZExt
	OpSExt
	OpExtract // low bits [w-1:0] after shifting right by val
)

// Term is an immutable hash-consed term. W==0 means Bool.
type Term struct {
	Op      Op
	W       uint8
	Val     uint64 // const value, var index, extract low bit
	A, B, C *Term
	ID      uint32
	vars    []uint32 // sorted set of variable indices
	Size    uint32   // dag size estimate (saturating tree size)
	ub      uint64   // cheap unsigned upper bound
	lb      uint64   // cheap unsigned lower bound
}

type key struct {
	op      Op
	w       uint8
	val     uint64
	a, b, c uint32
}

const nShards = 64

type shard struct {
	mu sync.Mutex
	m  map[key]*Term
}

var shards = func() (r [nShards]shard) {
	for i := range r {
		r[i].m = map[key]*Term{}
	}
	return
}()
var nextID atomic.Uint32

var varMu sync.RWMutex
var varNames []string
var varWidths []uint8
var varByName = map[string]*Term{}

func id(t *Term) uint32 {
	if t == nil {
		return 0
	}
	return t.ID
}

func mergeVars(a, b []uint32) []uint32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	if &a[0] == &b[0] && len(a) == len(b) {
		return a
	}
	// subset checks
	if len(a) < len(b) {
		a, b = b, a
	}
	if subset(b, a) {
		return a
	}
	r := make([]uint32, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i] < b[j]:
			r = append(r, a[i])
			i++
		case a[i] > b[j]:
			r = append(r, b[j])
			j++
		default:
			r = append(r, a[i])
			i++
			j++
		}
	}
	r = append(r, a[i:]...)
	r = append(r, b[j:]...)
	return r
}

func subset(x, of []uint32) bool {
	j := 0
	for _, v := range x {
		for j < len(of) && of[j] < v {
			j++
		}
		if j >= len(of) || of[j] != v {
			return false
		}
		j++
	}
	return true
}

func mk(op Op, w uint8, val uint64, a, b, c *Term) *Term {
	k := key{op, w, val, id(a), id(b), id(c)}
	h := uint64(op)*0x9E3779B1 + uint64(w)*31 + val*0x9E3779B97F4A7C15 + uint64(k.a)*0x85EBCA77 + uint64(k.b)*0xC2B2AE3D + uint64(k.c)*0x27D4EB2F
	h ^= h >> 29
	s := &shards[h%nShards]
	s.mu.Lock()
	if t, ok := s.m[k]; ok {
		s.mu.Unlock()
		return t
	}
	t := &Term{Op: op, W: w, Val: val, A: a, B: b, C: c}
	t.ID = nextID.Add(1)
	sz := uint32(1)
	if a != nil {
		t.vars = a.vars
		sz += a.Size
	}
	if b != nil {
		t.vars = mergeVars(t.vars, b.vars)
		sz += b.Size
	}
	if c != nil {
		t.vars = mergeVars(t.vars, c.vars)
		sz += c.Size
	}
	if sz > 1<<28 {
		sz = 1 << 28
	}
	t.Size = sz
	if op == OpVar {
		t.vars = []uint32{uint32(val)}
	}
	t.ub = computeUB(t)
	t.lb = computeLB(t)
	s.m[k] = t
	s.mu.Unlock()
	return t
}

// Vars returns the sorted variable indices of t.
func (t *Term) Vars() []uint32 { return t.vars }

// Mask returns the all-ones value of width w.
func Mask(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}

var True = mk(OpConst, 0, 1, nil, nil, nil)
var False = mk(OpConst, 0, 0, nil, nil, nil)

// Const makes a bit-vector constant.
func Const(w uint8, v uint64) *Term {
	v &= Mask(w)
	if v < smallConsts && w <= 64 {
		if t := small[w][v].Load(); t != nil {
			return t
		}
		t := mk(OpConst, w, v, nil, nil, nil)
		small[w][v].Store(t)
		return t
	}
	return mk(OpConst, w, v, nil, nil, nil)
}

const smallConsts = 4096

var small [65][smallConsts]atomic.Pointer[Term]

// Bool makes a boolean constant.
func Bool(b bool) *Term {
	if b {
		return True
	}
	return False
}

// Var returns the variable of that name (same name, same variable).
func Var(name string, w uint8) *Term {
	varMu.Lock()
	defer varMu.Unlock()
	return varLocked(name, w)
}

func varLocked(name string, w uint8) *Term {
	if t, ok := varByName[name]; ok {
		if t.W != w {
			panic("smt: variable " + name + " redeclared with different width")
		}
		return t
	}
	idx := len(varNames)
	varNames = append(varNames, name)
	varWidths = append(varWidths, w)
	t := mk(OpVar, w, uint64(idx), nil, nil, nil)
	varByName[name] = t
	return t
}

// VarName returns the name of variable index i.
func VarName(i uint32) string {
	varMu.RLock()
	defer varMu.RUnlock()
	return varNames[i]
}

// VarWidth returns the width of variable index i.
func VarWidth(i uint32) uint8 {
	varMu.RLock()
	defer varMu.RUnlock()
	return varWidths[i]
}

func (t *Term) IsConst() bool { return t.Op == OpConst }

// SVal is the constant's value sign-extended.
func (t *Term) SVal() int64 { return sext(t.Val, t.W) }

func sext(v uint64, w uint8) int64 {
	if w >= 64 || w == 0 {
		return int64(v)
	}
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

func Not(a *Term) *Term {
	switch a.Op {
	case OpConst:
		return Bool(a.Val == 0)
	case OpNot:
		return a.A
	case OpUlt:
		return Ule(a.B, a.A)
	case OpUle:
		return Ult(a.B, a.A)
	case OpSlt:
		return Sle(a.B, a.A)
	case OpSle:
		return Slt(a.B, a.A)
	}
	return mk(OpNot, 0, 0, a, nil, nil)
}

func And(a, b *Term) *Term {
	if a.IsConst() {
		if a.Val == 0 {
			return False
		}
		return b
	}
	if b.IsConst() {
		if b.Val == 0 {
			return False
		}
		return a
	}
	if a == b {
		return a
	}
	if isNeg(a, b) {
		return False
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk(OpAnd, 0, 0, a, b, nil)
}

func isNeg(a, b *Term) bool {
	return (a.Op == OpNot && a.A == b) || (b.Op == OpNot && b.A == a)
}

func Or(a, b *Term) *Term {
	if a.IsConst() {
		if a.Val == 1 {
			return True
		}
		return b
	}
	if b.IsConst() {
		if b.Val == 1 {
			return True
		}
		return a
	}
	if a == b {
		return a
	}
	if isNeg(a, b) {
		return True
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk(OpOr, 0, 0, a, b, nil)
}

func Implies(a, b *Term) *Term { return Or(Not(a), b) }

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.W != b.W {
		panic(fmt.Sprintf("smt: Eq width mismatch %d %d", a.W, b.W))
	}
	if a.IsConst() && b.IsConst() {
		return Bool(a.Val == b.Val)
	}
	if a.W > 0 && (a.lb > b.ub || a.ub < b.lb) {
		return False
	}
	if a.W == 0 {
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() {
			if b.Val == 1 {
				return a
			}
			return Not(a)
		}
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		switch a.Op {
		case OpZExt:
			if b.Val > Mask(a.A.W) {
				return False
			}
			return Eq(a.A, Const(a.A.W, b.Val))
		case OpSExt:
			tr := b.Val & Mask(a.A.W)
			if uint64(sext(tr, a.A.W))&Mask(a.W) != b.Val {
				return False
			}
			return Eq(a.A, Const(a.A.W, tr))
		case OpIte:
			if a.B.IsConst() && a.C.IsConst() {
				eb, ec := a.B.Val == b.Val, a.C.Val == b.Val
				switch {
				case eb && ec:
					return True
				case eb:
					return a.A
				case ec:
					return Not(a.A)
				default:
					return False
				}
			}
			if a.B.IsConst() || a.C.IsConst() {
				return Or(And(a.A, Eq(a.B, b)), And(Not(a.A), Eq(a.C, b)))
			}
		case OpAdd:
			if a.B.IsConst() {
				return Eq(a.A, Const(a.W, b.Val-a.B.Val))
			}
		case OpBXor:
			if a.B.IsConst() {
				return Eq(a.A, Const(a.W, b.Val^a.B.Val))
			}
		}
	} else if a.Op == OpZExt && b.Op == OpZExt && a.A.W == b.A.W {
		return Eq(a.A, b.A)
	}
	if d := linDiff(a, b); d != nil {
		switch {
		case d.ahi == 0 && d.bhi == 0:
			return True
		case d.alo > d.bhi || d.ahi < d.blo:
			return False
		}
	}
	if k := narrowTo(a, b); k > 0 {
		return Eq(Trunc(a, k), Trunc(b, k))
	}
	if !b.IsConst() && a.ID > b.ID {
		a, b = b, a
	}
	return mk(OpEq, 0, 0, a, b, nil)
}

// narrowTo is the width, if smaller than theirs, that comparing a and b needs.
func narrowTo(a, b *Term) uint8 {
	if a.W <= 8 {
		return 0
	}
	k := uint8(bits.Len64(max(a.ub, b.ub)))
	if k == 0 {
		k = 1
	}
	if k >= a.W || !narrows(a) || !narrows(b) {
		return 0
	}
	return k
}

// narrows tells whether truncating t gives a smaller term and not an extraction from it.
func narrows(t *Term) bool {
	switch t.Op {
	case OpConst, OpZExt, OpAdd, OpSub, OpMul:
		return true
	case OpShl:
		return t.B.IsConst()
	}
	return false
}

// Narrow is the operand that comparing t with a constant in its range uses.
func Narrow(t *Term) *Term {
	for {
		switch {
		case t.Op == OpZExt:
			t = t.A
			continue
		case t.W > 8 && narrows(t) && uint8(bits.Len64(t.ub)) < t.W && t.ub > 0:
			n := Trunc(t, uint8(bits.Len64(t.ub)))
			if n == t || n.W >= t.W {
				return t
			}
			t = n
			continue
		}
		return t
	}
}

// umax is a cheap upper bound of t as unsigned.
func umax(t *Term) uint64 { return t.ub }

// Bounds is a cheap interval containing t.
func (t *Term) Bounds() (uint64, uint64) { return t.lb, t.ub }

// varMax holds declared maxima of variables (Script asserts them).
var varMax sync.Map // uint32 -> uint64

func computeUB(t *Term) uint64 {
	switch t.Op {
	case OpConst:
		return t.Val
	case OpVar:
		if v, ok := varMax.Load(uint32(t.Val)); ok {
			return v.(uint64)
		}
	case OpZExt:
		return umax(t.A)
	case OpIte:
		return max(umax(t.B), umax(t.C))
	case OpBAnd:
		return min(umax(t.A), umax(t.B))
	case OpURem:
		if t.B.IsConst() && t.B.Val > 0 {
			return min(umax(t.A), t.B.Val-1)
		}
	case OpUDiv:
		if t.B.IsConst() && t.B.Val > 0 {
			return umax(t.A) / t.B.Val
		}
	case OpAdd:
		x, y := umax(t.A), umax(t.B)
		s, c := bits.Add64(x, y, 0)
		if c == 0 && s <= Mask(t.W) {
			return s
		}
		if addWraps(t) {
			return s & Mask(t.W)
		}
	case OpSub:
		if t.A.lb >= t.B.ub {
			return t.A.ub - t.B.lb
		}
	case OpMul:
		x, y := umax(t.A), umax(t.B)
		h, l := bits.Mul64(x, y)
		if h == 0 && l <= Mask(t.W) {
			return l
		}
	case OpShl:
		if t.B.IsConst() && t.B.Val < 64 {
			x := umax(t.A)
			if bits.LeadingZeros64(x) >= int(t.B.Val) && x<<t.B.Val <= Mask(t.W) {
				return x << t.B.Val
			}
		}
	case OpLShr:
		if t.B.IsConst() && t.B.Val < 64 {
			return umax(t.A) >> t.B.Val
		}
	}
	return Mask(t.W)
}

func computeLB(t *Term) uint64 {
	switch t.Op {
	case OpConst:
		return t.Val
	case OpZExt:
		return t.A.lb
	case OpIte:
		return min(t.B.lb, t.C.lb)
	case OpUDiv:
		if t.B.IsConst() && t.B.Val > 0 {
			return t.A.lb / t.B.Val
		}
	case OpAdd:
		s, c := bits.Add64(t.A.ub, t.B.ub, 0)
		if c == 0 && s <= Mask(t.W) {
			return t.A.lb + t.B.lb
		}
		if addWraps(t) {
			return (t.A.lb + t.B.lb) & Mask(t.W)
		}
	case OpSub:
		if t.A.lb >= t.B.ub {
			return t.A.lb - t.B.ub
		}
	case OpMul:
		h, l := bits.Mul64(t.A.ub, t.B.ub)
		if h == 0 && l <= Mask(t.W) {
			return t.A.lb * t.B.lb
		}
	case OpShl:
		if t.B.IsConst() && t.B.Val < 64 && bits.LeadingZeros64(t.A.ub) >= int(t.B.Val) && t.A.ub<<t.B.Val <= Mask(t.W) {
			return t.A.lb << t.B.Val
		}
	case OpLShr:
		if t.B.IsConst() && t.B.Val < 64 {
			return t.A.lb >> t.B.Val
		}
	}
	return 0
}

// addWraps tells whether the sum t exceeds its width for all values of its operands.
func addWraps(t *Term) bool {
	s, c := bits.Add64(t.A.lb, t.B.lb, 0)
	return c != 0 || s > Mask(t.W)
}

type lin struct {
	c uint64
	t *Term // nil: constant 1
}

// linear splits t, if no partial sum wraps, into coefficient*term summands.
func linear(t *Term, k uint64, out []lin, depth int) ([]lin, bool) {
	if depth > 64 {
		return nil, false
	}
	switch t.Op {
	case OpConst:
		if t.Val == 0 {
			return out, true
		}
		h, l := bits.Mul64(t.Val, k)
		return append(out, lin{l, nil}), h == 0
	case OpAdd:
		s, c := bits.Add64(umax(t.A), umax(t.B), 0)
		if c != 0 || s > Mask(t.W) {
			break
		}
		o, ok := linear(t.A, k, out, depth+1)
		if !ok {
			return nil, false
		}
		return linear(t.B, k, o, depth+1)
	case OpMul, OpShl:
		if t.B.IsConst() {
			m := t.B.Val
			if t.Op == OpShl {
				if m > 62 {
					break
				}
				m = 1 << m
			}
			h, l := bits.Mul64(umax(t.A), m)
			if h != 0 || l > Mask(t.W) {
				break
			}
			h, l = bits.Mul64(k, m)
			if h != 0 {
				return nil, false
			}
			return linear(t.A, l, out, depth+1)
		}
	case OpZExt:
		n := len(out)
		o, ok := linear(t.A, k, out, depth+1)
		if !ok {
			return nil, false
		}
		for i := n; i < len(o); i++ {
			if o[i].t != nil {
				o[i].t = ZExt(o[i].t, t.W)
			}
		}
		return o, true
	}
	return append(out, lin{k, t}), true
}

// divLinear rewrites (sum of multiples of k) + small over k; valid because nothing wraps.
func divLinear(a *Term, k uint64) (q, r *Term, ok bool) {
	if a.Op != OpAdd && a.Op != OpMul && a.Op != OpShl && a.Op != OpZExt {
		return nil, nil, false
	}
	ls, ok := linear(a, 1, nil, 0)
	if !ok {
		return nil, nil, false
	}
	q, r = Const(a.W, 0), Const(a.W, 0)
	any := false
	for _, l := range ls {
		t := l.t
		if t == nil {
			t = Const(a.W, 1)
		}
		if l.c%k == 0 {
			q = Add(q, Mul(t, Const(a.W, l.c/k)))
			any = true
			continue
		}
		if l.t == nil {
			q = Add(q, Const(a.W, l.c/k))
			r = Add(r, Const(a.W, l.c%k))
			any = true
			continue
		}
		r = Add(r, Mul(t, Const(a.W, l.c)))
	}
	if !any || umax(r) >= k {
		return nil, nil, false
	}
	// r must not have wrapped either: its summands are part of a non-wrapping sum
	return q, r, true
}

// linRest bounds what is left of a and b after cancelling common summands.
type linRest struct{ alo, ahi, blo, bhi uint64 }

// linDiff compares sums that do not wrap, nil: not applicable.
func linDiff(a, b *Term) *linRest {
	if a.W < 16 || a.IsConst() || b.IsConst() || a.Op != OpAdd && b.Op != OpAdd {
		return nil
	}
	la, ok := linear(a, 1, nil, 0)
	if !ok {
		return nil
	}
	lb, ok := linear(b, 1, nil, 0)
	if !ok || len(la) < 2 && len(lb) < 2 {
		return nil
	}
	type sum struct{ a, b uint64 }
	m := make(map[*Term]sum, len(la)+len(lb))
	for _, l := range la {
		s := m[l.t]
		s.a += l.c
		m[l.t] = s
	}
	for _, l := range lb {
		s := m[l.t]
		s.b += l.c
		m[l.t] = s
	}
	var r linRest
	for t, s := range m {
		lo, hi := uint64(1), uint64(1)
		if t != nil {
			lo, hi = t.lb, t.ub
		}
		// no sum wraps, so neither do these parts of it
		if s.a > s.b {
			r.alo += (s.a - s.b) * lo
			r.ahi += (s.a - s.b) * hi
		} else if s.b > s.a {
			r.blo += (s.b - s.a) * lo
			r.bhi += (s.b - s.a) * hi
		}
	}
	return &r
}

// VarMax is a variable known to be at most hi; the caller must assert that.
func VarMax(name string, w uint8, hi uint64) *Term {
	varMu.Lock()
	defer varMu.Unlock()
	if _, ok := varByName[name]; !ok {
		varMax.Store(uint32(len(varNames)), hi)
	}
	return varLocked(name, w)
}

func Ult(a, b *Term) *Term {
	if a == b {
		return False
	}
	if a.IsConst() && b.IsConst() {
		return Bool(a.Val < b.Val)
	}
	if a.ub < b.lb {
		return True
	}
	if a.lb >= b.ub {
		return False
	}
	if b.IsConst() {
		if b.Val == 0 {
			return False
		}
		if b.Val == 1 {
			return Eq(a, Const(a.W, 0))
		}
		if a.Op == OpZExt && b.Val <= Mask(a.A.W) {
			return Ult(a.A, Const(a.A.W, b.Val))
		}
		if a.Op == OpIte && a.B.IsConst() && a.C.IsConst() {
			return boolIte(a.A, Bool(a.B.Val < b.Val), Bool(a.C.Val < b.Val))
		}
	}
	if a.IsConst() {
		if a.Val == Mask(a.W) {
			return False
		}
		if a.Val >= umax(b) {
			return False
		}
		if b.Op == OpZExt && a.Val <= Mask(b.A.W) {
			return Ult(Const(b.A.W, a.Val), b.A)
		}
		if b.Op == OpIte && b.B.IsConst() && b.C.IsConst() {
			return boolIte(b.A, Bool(a.Val < b.B.Val), Bool(a.Val < b.C.Val))
		}
	}
	if a.Op == OpZExt && b.Op == OpZExt && a.A.W == b.A.W {
		return Ult(a.A, b.A)
	}
	if d := linDiff(a, b); d != nil {
		switch {
		case d.ahi < d.blo:
			return True
		case d.alo >= d.bhi:
			return False
		}
	}
	if k := narrowTo(a, b); k > 0 {
		return Ult(Trunc(a, k), Trunc(b, k))
	}
	return mk(OpUlt, 0, 0, a, b, nil)
}

func boolIte(c, a, b *Term) *Term { return Or(And(c, a), And(Not(c), b)) }

func Ule(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.IsConst() && b.IsConst() {
		return Bool(a.Val <= b.Val)
	}
	if a.ub <= b.lb {
		return True
	}
	if a.lb > b.ub {
		return False
	}
	if b.IsConst() {
		if b.Val == Mask(b.W) || umax(a) <= b.Val {
			return True
		}
		return Ult(a, Const(a.W, b.Val+1))
	}
	if a.IsConst() {
		if a.Val == 0 {
			return True
		}
		if a.Val > umax(b) {
			return False
		}
		return Ult(Const(a.W, a.Val-1), b)
	}
	if a.Op == OpZExt && b.Op == OpZExt && a.A.W == b.A.W {
		return Ule(a.A, b.A)
	}
	if d := linDiff(a, b); d != nil {
		switch {
		case d.ahi <= d.blo:
			return True
		case d.alo > d.bhi:
			return False
		}
	}
	if k := narrowTo(a, b); k > 0 {
		return Ule(Trunc(a, k), Trunc(b, k))
	}
	return mk(OpUle, 0, 0, a, b, nil)
}

func nonNeg(t *Term) bool { return t.W > 0 && umax(t) <= Mask(t.W)>>1 }

func Slt(a, b *Term) *Term {
	if a == b {
		return False
	}
	if a.IsConst() && b.IsConst() {
		return Bool(a.SVal() < b.SVal())
	}
	if nonNeg(a) && nonNeg(b) {
		return Ult(a, b)
	}
	if b.IsConst() && b.SVal() <= 0 && nonNeg(a) {
		return False
	}
	if a.IsConst() && a.SVal() < 0 && nonNeg(b) {
		return True
	}
	if a.Op == OpIte && b.IsConst() && a.B.IsConst() && a.C.IsConst() {
		return boolIte(a.A, Bool(a.B.SVal() < b.SVal()), Bool(a.C.SVal() < b.SVal()))
	}
	return mk(OpSlt, 0, 0, a, b, nil)
}

func Sle(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.IsConst() && b.IsConst() {
		return Bool(a.SVal() <= b.SVal())
	}
	if nonNeg(a) && nonNeg(b) {
		return Ule(a, b)
	}
	if b.IsConst() && b.SVal() < 0 && nonNeg(a) {
		return False
	}
	if a.IsConst() && a.SVal() <= 0 && nonNeg(b) {
		return True
	}
	return mk(OpSle, 0, 0, a, b, nil)
}

func Ite(c, a, b *Term) *Term {
	if c.IsConst() {
		if c.Val == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.W != b.W {
		panic("smt: Ite width mismatch")
	}
	if a.W == 0 {
		return boolIte(c, a, b)
	}
	if c.Op == OpNot {
		return Ite(c.A, b, a)
	}
	if a.Op == OpIte && a.A == c {
		a = a.B
	}
	if b.Op == OpIte && b.A == c {
		b = b.C
	}
	if a == b {
		return a
	}
	return mk(OpIte, a.W, 0, c, a, b)
}

func Add(a, b *Term) *Term {
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		if a.IsConst() {
			return Const(a.W, a.Val+b.Val)
		}
		if b.Val == 0 {
			return a
		}
		if a.Op == OpAdd && a.B.IsConst() {
			return Add(a.A, Const(a.W, a.B.Val+b.Val))
		}
		if a.Op == OpIte && a.B.IsConst() && a.C.IsConst() {
			return Ite(a.A, Const(a.W, a.B.Val+b.Val), Const(a.W, a.C.Val+b.Val))
		}
		return mk(OpAdd, a.W, 0, a, b, nil)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk(OpAdd, a.W, 0, a, b, nil)
}

func Sub(a, b *Term) *Term {
	if a == b {
		return Const(a.W, 0)
	}
	if b.IsConst() {
		return Add(a, Const(b.W, -b.Val))
	}
	if a.Op == OpAdd {
		if a.B == b {
			return a.A
		}
		if a.A == b {
			return a.B
		}
	}
	return mk(OpSub, a.W, 0, a, b, nil)
}

func Mul(a, b *Term) *Term {
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		if a.IsConst() {
			return Const(a.W, a.Val*b.Val)
		}
		switch b.Val {
		case 0:
			return b
		case 1:
			return a
		}
		if b.Val&(b.Val-1) == 0 {
			return Shl(a, Const(a.W, uint64(bits.TrailingZeros64(b.Val))))
		}
		return mk(OpMul, a.W, 0, a, b, nil)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk(OpMul, a.W, 0, a, b, nil)
}

// UDiv: callers guarantee b != 0 (the solver's x/0 convention is never relied on).
func UDiv(a, b *Term) *Term {
	if b.IsConst() && b.Val != 0 {
		if a.IsConst() {
			return Const(a.W, a.Val/b.Val)
		}
		if b.Val == 1 {
			return a
		}
		if umax(a) < b.Val {
			return Const(a.W, 0)
		}
		if b.Val&(b.Val-1) == 0 {
			return LShr(a, Const(a.W, uint64(bits.TrailingZeros64(b.Val))))
		}
		if a.Op == OpZExt && b.Val <= Mask(a.A.W) {
			return ZExt(UDiv(a.A, Const(a.A.W, b.Val)), a.W)
		}
		if q, _, ok := divLinear(a, b.Val); ok {
			return q
		}
	}
	return mk(OpUDiv, a.W, 0, a, b, nil)
}

func URem(a, b *Term) *Term {
	if b.IsConst() && b.Val != 0 {
		if a.IsConst() {
			return Const(a.W, a.Val%b.Val)
		}
		if umax(a) < b.Val {
			return a
		}
		if b.Val&(b.Val-1) == 0 {
			return BAnd(a, Const(a.W, b.Val-1))
		}
		if a.Op == OpZExt && b.Val <= Mask(a.A.W) {
			return ZExt(URem(a.A, Const(a.A.W, b.Val)), a.W)
		}
		if _, r, ok := divLinear(a, b.Val); ok {
			return r
		}
	}
	return mk(OpURem, a.W, 0, a, b, nil)
}

func SDiv(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() && b.Val != 0 {
		if b.SVal() == -1 {
			return Const(a.W, -a.Val)
		}
		return Const(a.W, uint64(a.SVal()/b.SVal()))
	}
	if nonNeg(a) && nonNeg(b) {
		return UDiv(a, b)
	}
	return mk(OpSDiv, a.W, 0, a, b, nil)
}

func SRem(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() && b.Val != 0 {
		if b.SVal() == -1 {
			return Const(a.W, 0)
		}
		return Const(a.W, uint64(a.SVal()%b.SVal()))
	}
	if nonNeg(a) && nonNeg(b) {
		return URem(a, b)
	}
	return mk(OpSRem, a.W, 0, a, b, nil)
}

func BAnd(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		if a.IsConst() {
			return Const(a.W, a.Val&b.Val)
		}
		if b.Val == 0 {
			return b
		}
		if b.Val == Mask(b.W) {
			return a
		}
		if a.Op == OpIte && a.B.IsConst() && a.C.IsConst() {
			return Ite(a.A, Const(a.W, a.B.Val&b.Val), Const(a.W, a.C.Val&b.Val))
		}
		if a.Op == OpZExt && b.Val >= Mask(a.A.W) && b.Val&Mask(a.A.W) == Mask(a.A.W) {
			return a
		}
		if (a.Op == OpIte || a.Op == OpBOr) && a.Size < 4000 {
			if a.Op == OpIte {
				return Ite(a.A, BAnd(a.B, b), BAnd(a.C, b))
			}
			return BOr(BAnd(a.A, b), BAnd(a.B, b))
		}
		return mk(OpBAnd, a.W, 0, a, b, nil)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk(OpBAnd, a.W, 0, a, b, nil)
}

func BOr(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		if a.IsConst() {
			return Const(a.W, a.Val|b.Val)
		}
		if b.Val == 0 {
			return a
		}
		if b.Val == Mask(b.W) {
			return b
		}
		if a.Op == OpIte && a.B.IsConst() && a.C.IsConst() {
			return Ite(a.A, Const(a.W, a.B.Val|b.Val), Const(a.W, a.C.Val|b.Val))
		}
		return mk(OpBOr, a.W, 0, a, b, nil)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk(OpBOr, a.W, 0, a, b, nil)
}

func BXor(a, b *Term) *Term {
	if a == b {
		return Const(a.W, 0)
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		if a.IsConst() {
			return Const(a.W, a.Val^b.Val)
		}
		if b.Val == 0 {
			return a
		}
		return mk(OpBXor, a.W, 0, a, b, nil)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk(OpBXor, a.W, 0, a, b, nil)
}

func BNot(a *Term) *Term {
	if a.IsConst() {
		return Const(a.W, ^a.Val)
	}
	if a.Op == OpBNot {
		return a.A
	}
	return mk(OpBNot, a.W, 0, a, nil, nil)
}

func Neg(a *Term) *Term {
	if a.IsConst() {
		return Const(a.W, -a.Val)
	}
	return mk(OpNeg, a.W, 0, a, nil, nil)
}

// Shl, LShr, AShr take a shift amount of the same width as a; amounts >= width
// give 0 (or sign fill), as SMT-LIB and Go agree.
func Shl(a, s *Term) *Term {
	if s.IsConst() {
		if s.Val == 0 {
			return a
		}
		if s.Val >= uint64(a.W) {
			return Const(a.W, 0)
		}
		if a.IsConst() {
			return Const(a.W, a.Val<<s.Val)
		}
	}
	if a.IsConst() && a.Val == 0 {
		return a
	}
	return mk(OpShl, a.W, 0, a, s, nil)
}

func LShr(a, s *Term) *Term {
	if s.IsConst() {
		if s.Val == 0 {
			return a
		}
		if s.Val >= uint64(a.W) {
			return Const(a.W, 0)
		}
		if a.IsConst() {
			return Const(a.W, a.Val>>s.Val)
		}
		if umax(a)>>s.Val == 0 {
			return Const(a.W, 0)
		}
	}
	if a.IsConst() && a.Val == 0 {
		return a
	}
	return mk(OpLShr, a.W, 0, a, s, nil)
}

func AShr(a, s *Term) *Term {
	if s.IsConst() {
		if s.Val == 0 {
			return a
		}
		if a.IsConst() {
			sh := s.Val
			if sh > 63 {
				sh = 63
			}
			return Const(a.W, uint64(a.SVal()>>sh))
		}
	}
	if nonNeg(a) {
		return LShr(a, s)
	}
	return mk(OpAShr, a.W, 0, a, s, nil)
}

func ZExt(a *Term, w uint8) *Term {
	if a.W == w {
		return a
	}
	if a.W > w {
		panic("smt: ZExt narrows")
	}
	if a.IsConst() {
		return Const(w, a.Val)
	}
	if a.Op == OpZExt {
		return ZExt(a.A, w)
	}
	if a.Op == OpIte && a.B.IsConst() && a.C.IsConst() {
		return Ite(a.A, Const(w, a.B.Val), Const(w, a.C.Val))
	}
	return mk(OpZExt, w, 0, a, nil, nil)
}

func SExt(a *Term, w uint8) *Term {
	if a.W == w {
		return a
	}
	if a.IsConst() {
		return Const(w, uint64(a.SVal()))
	}
	if nonNeg(a) {
		return ZExt(a, w)
	}
	return mk(OpSExt, w, 0, a, nil, nil)
}

// Trunc keeps the low w bits.
func Trunc(a *Term, w uint8) *Term { return Extract(a, 0, w) }

// Extract takes w bits starting at lo.
func Extract(a *Term, lo uint8, w uint8) *Term {
	if lo == 0 && a.W == w {
		return a
	}
	if a.IsConst() {
		return Const(w, a.Val>>lo)
	}
	if lo == 0 {
		switch a.Op {
		case OpZExt, OpSExt:
			if a.A.W == w {
				return a.A
			}
			if a.A.W > w {
				return Extract(a.A, 0, w)
			}
			if a.Op == OpZExt {
				return ZExt(a.A, w)
			}
			return SExt(a.A, w)
		case OpAdd, OpSub, OpMul, OpBAnd, OpBOr, OpBXor:
			x, y := Trunc(a.A, w), Trunc(a.B, w)
			switch a.Op {
			case OpAdd:
				return Add(x, y)
			case OpSub:
				return Sub(x, y)
			case OpMul:
				return Mul(x, y)
			case OpBAnd:
				return BAnd(x, y)
			case OpBOr:
				return BOr(x, y)
			case OpBXor:
				return BXor(x, y)
			}
		case OpShl:
			if a.B.IsConst() && a.B.Val < uint64(w) {
				return Shl(Trunc(a.A, w), Const(w, a.B.Val))
			}
		case OpIte:
			return Ite(a.A, Trunc(a.B, w), Trunc(a.C, w))
		}
	}
	return mk(OpExtract, w, uint64(lo), a, nil, nil)
}

// ---- evaluation ----

// Model maps variable index to value; missing variables are 0.
type Model map[uint32]uint64

// Eval evaluates t under m.
func Eval(t *Term, m Model) uint64 {
	if t.Op == OpConst {
		return t.Val
	}
	if t.Size < 64 {
		return eval(t, m, nil)
	}
	return eval(t, m, map[*Term]uint64{})
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func eval(t *Term, m Model, memo map[*Term]uint64) uint64 {
	switch t.Op {
	case OpConst:
		return t.Val
	case OpVar:
		return m[uint32(t.Val)]
	}
	if memo != nil {
		if v, ok := memo[t]; ok {
			return v
		}
	}
	var r uint64
	switch t.Op {
	case OpIte:
		if eval(t.A, m, memo) == 1 {
			r = eval(t.B, m, memo)
		} else {
			r = eval(t.C, m, memo)
		}
	case OpAnd:
		if eval(t.A, m, memo) == 0 {
			r = 0
		} else {
			r = eval(t.B, m, memo)
		}
	case OpOr:
		if eval(t.A, m, memo) == 1 {
			r = 1
		} else {
			r = eval(t.B, m, memo)
		}
	default:
		a := eval(t.A, m, memo)
		var b uint64
		if t.B != nil {
			b = eval(t.B, m, memo)
		}
		aw := t.A.W
		switch t.Op {
		case OpNot:
			r = a ^ 1
		case OpEq:
			r = b2u(a == b)
		case OpUlt:
			r = b2u(a < b)
		case OpUle:
			r = b2u(a <= b)
		case OpSlt:
			r = b2u(sext(a, aw) < sext(b, aw))
		case OpSle:
			r = b2u(sext(a, aw) <= sext(b, aw))
		case OpAdd:
			r = a + b
		case OpSub:
			r = a - b
		case OpMul:
			r = a * b
		case OpUDiv:
			if b == 0 {
				r = Mask(t.W)
			} else {
				r = a / b
			}
		case OpURem:
			if b == 0 {
				r = a
			} else {
				r = a % b
			}
		case OpSDiv, OpSRem:
			sa, sb := sext(a, aw), sext(b, aw)
			switch {
			case sb == 0 && t.Op == OpSDiv:
				if sa >= 0 {
					r = Mask(t.W)
				} else {
					r = 1
				}
			case sb == 0:
				r = a
			case sb == -1 && t.Op == OpSDiv:
				r = -a
			case sb == -1:
				r = 0
			case t.Op == OpSDiv:
				r = uint64(sa / sb)
			default:
				r = uint64(sa % sb)
			}
		case OpBAnd:
			r = a & b
		case OpBOr:
			r = a | b
		case OpBXor:
			r = a ^ b
		case OpBNot:
			r = ^a
		case OpNeg:
			r = -a
		case OpShl:
			if b >= uint64(t.W) {
				r = 0
			} else {
				r = a << b
			}
		case OpLShr:
			if b >= uint64(t.W) {
				r = 0
			} else {
				r = a >> b
			}
		case OpAShr:
			if b > 63 {
				b = 63
			}
			r = uint64(sext(a, aw) >> b)
		case OpZExt:
			r = a
		case OpSExt:
			r = uint64(sext(a, aw))
		case OpExtract:
			r = a >> t.Val
		default:
			panic("smt: eval op")
		}
		r &= Mask(t.W)
	}
	if memo != nil {
		memo[t] = r
	}
	return r
}

// ---- printing ----

var opNames = map[Op]string{
	OpNot: "not", OpAnd: "and", OpOr: "or", OpEq: "=", OpUlt: "bvult", OpUle: "bvule", OpSlt: "bvslt", OpSle: "bvsle",
	OpIte: "ite", OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUDiv: "bvudiv", OpURem: "bvurem", OpSDiv: "bvsdiv",
	OpSRem: "bvsrem", OpBAnd: "bvand", OpBOr: "bvor", OpBXor: "bvxor", OpBNot: "bvnot", OpNeg: "bvneg",
	OpShl: "bvshl", OpLShr: "bvlshr", OpAShr: "bvashr",
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constStr(t *Term) string {
	if t.W == 0 {
		if t.Val == 1 {
			return "true"
		}
		return "false"
	}
	if t.W%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(t.W/4), t.Val)
	}
	return fmt.Sprintf("#b%0*b", int(t.W), t.Val)
}

func vname(i uint32) string { return fmt.Sprintf("v%d", i) }

// printer emits shared definitions.
type printer struct {
	sb   *strings.Builder
	done map[*Term]string
	refs map[*Term]int
}

func (p *printer) count(t *Term) {
	if t.Op == OpConst || t.Op == OpVar {
		return
	}
	p.refs[t]++
	if p.refs[t] > 1 {
		return
	}
	for _, x := range []*Term{t.A, t.B, t.C} {
		if x != nil {
			p.count(x)
		}
	}
}

func (p *printer) expr(t *Term) string {
	switch t.Op {
	case OpConst:
		return constStr(t)
	case OpVar:
		return vname(uint32(t.Val))
	}
	if n, ok := p.done[t]; ok {
		return n
	}
	var s string
	switch t.Op {
	case OpZExt:
		s = fmt.Sprintf("((_ zero_extend %d) %s)", t.W-t.A.W, p.expr(t.A))
	case OpSExt:
		s = fmt.Sprintf("((_ sign_extend %d) %s)", t.W-t.A.W, p.expr(t.A))
	case OpExtract:
		s = fmt.Sprintf("((_ extract %d %d) %s)", t.Val+uint64(t.W)-1, t.Val, p.expr(t.A))
	default:
		var b strings.Builder
		b.WriteByte('(')
		b.WriteString(opNames[t.Op])
		for _, x := range []*Term{t.A, t.B, t.C} {
			if x != nil {
				b.WriteByte(' ')
				b.WriteString(p.expr(x))
			}
		}
		b.WriteByte(')')
		s = b.String()
	}
	if p.refs[t] > 1 {
		n := fmt.Sprintf("t%d", t.ID)
		fmt.Fprintf(p.sb, "(define-fun %s () %s %s)\n", n, sortName(t.W), s)
		p.done[t] = n
		return n
	}
	return s
}

// Script renders the conjunction of terms as SMT-LIB2 declarations, definitions and assertions.
func Script(ts []*Term) (string, []uint32) {
	var sb strings.Builder
	var vars []uint32
	for _, t := range ts {
		vars = mergeVars(vars, t.vars)
	}
	for _, v := range vars {
		fmt.Fprintf(&sb, "(declare-const %s %s)\n", vname(v), sortName(VarWidth(v)))
		if hi, ok := varMax.Load(v); ok && VarWidth(v) > 0 && hi.(uint64) < Mask(VarWidth(v)) {
			fmt.Fprintf(&sb, "(assert (bvule %s (_ bv%d %d)))\n", vname(v), hi.(uint64), VarWidth(v))
		}
	}
	p := &printer{sb: &sb, done: map[*Term]string{}, refs: map[*Term]int{}}
	for _, t := range ts {
		p.count(t)
	}
	for _, t := range ts {
		e := p.expr(t)
		fmt.Fprintf(&sb, "(assert %s)\n", e)
	}
	return sb.String(), vars
}

// String renders a term for humans.
func (t *Term) String() string {
	if t == nil {
		return "<nil>"
	}
	switch t.Op {
	case OpConst:
		if t.W == 0 {
			return constStr(t)
		}
		return fmt.Sprintf("%d", t.Val)
	case OpVar:
		return VarName(uint32(t.Val))
	}
	if t.Size > 60 {
		return fmt.Sprintf("<term %d size %d>", t.ID, t.Size)
	}
	parts := []string{}
	for _, x := range []*Term{t.A, t.B, t.C} {
		if x != nil {
			parts = append(parts, x.String())
		}
	}
	n := opNames[t.Op]
	switch t.Op {
	case OpZExt:
		n = "zext"
	case OpSExt:
		n = "sext"
	case OpExtract:
		n = fmt.Sprintf("extract%d", t.Val)
	}
	return "(" + n + " " + strings.Join(parts, " ") + ")"
}

// SortTerms orders by ID and removes duplicates.
func SortTerms(ts []*Term) []*Term {
	sort.Slice(ts, func(i, j int) bool { return ts[i].ID < ts[j].ID })
	out := ts[:0]
	for i, t := range ts {
		if i == 0 || t != ts[i-1] {
			out = append(out, t)
		}
	}
	return out
}
