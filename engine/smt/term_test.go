package smt

import (
	"fmt"
	"math/rand"
	"testing"
)

// The simplifying constructors agree with direct evaluation on random terms.

const nm = 6

type tv struct {
	t *Term
	v [nm]uint64
}

type gen struct {
	r    *rand.Rand
	ms   [nm]Model
	vars []tv
}

func (g *gen) leaf(w uint8) tv {
	if g.r.Intn(3) == 0 {
		c := g.r.Uint64()
		if g.r.Intn(2) == 0 {
			c %= 12
		}
		c &= Mask(w)
		x := tv{t: Const(w, c)}
		for i := range x.v {
			x.v[i] = c
		}
		return x
	}
	var c []tv
	for _, x := range g.vars {
		if x.t.W == w {
			c = append(c, x)
		}
	}
	return c[g.r.Intn(len(c))]
}

func sx(v uint64, w uint8) int64 { return int64(v<<(64-w)) >> (64 - w) }

func (g *gen) bv(w uint8, d int) tv {
	if d == 0 {
		return g.leaf(w)
	}
	un := func(f func(*Term) *Term, h func(uint64) uint64, x tv) tv {
		r := tv{t: f(x.t)}
		for i := range r.v {
			r.v[i] = h(x.v[i]) & Mask(w)
		}
		return r
	}
	bin := func(f func(a, b *Term) *Term, h func(a, b uint64) uint64) tv {
		x, y := g.bv(w, d-1), g.bv(w, d-1)
		r := tv{t: f(x.t, y.t)}
		for i := range r.v {
			r.v[i] = h(x.v[i], y.v[i]) & Mask(w)
		}
		return r
	}
	switch g.r.Intn(16) {
	case 0, 1, 2:
		return bin(Add, func(a, b uint64) uint64 { return a + b })
	case 3:
		return bin(Sub, func(a, b uint64) uint64 { return a - b })
	case 4, 5:
		k := []uint64{10, 10, 10, 100, 3, 8}[g.r.Intn(6)] & Mask(w)
		x := g.bv(w, d-1)
		return un(func(t *Term) *Term { return Mul(t, Const(w, k)) }, func(a uint64) uint64 { return a * k }, x)
	case 6:
		return bin(BAnd, func(a, b uint64) uint64 { return a & b })
	case 7:
		return bin(BOr, func(a, b uint64) uint64 { return a | b })
	case 8:
		return bin(BXor, func(a, b uint64) uint64 { return a ^ b })
	case 9:
		k := uint64(g.r.Intn(int(w)))
		x := g.bv(w, d-1)
		return un(func(t *Term) *Term { return Shl(t, Const(w, k)) }, func(a uint64) uint64 { return a << k }, x)
	case 10:
		k := uint64(g.r.Intn(int(w)))
		x := g.bv(w, d-1)
		return un(func(t *Term) *Term { return LShr(t, Const(w, k)) }, func(a uint64) uint64 { return a >> k }, x)
	case 11:
		k := uint64(1 + g.r.Intn(20))
		x := g.bv(w, d-1)
		if g.r.Intn(2) == 0 {
			return un(func(t *Term) *Term { return UDiv(t, Const(w, k)) }, func(a uint64) uint64 { return a / k }, x)
		}
		return un(func(t *Term) *Term { return URem(t, Const(w, k)) }, func(a uint64) uint64 { return a % k }, x)
	case 12, 13:
		if w == 8 {
			x := g.bv(32, d-1)
			return un(func(t *Term) *Term { return Trunc(t, 8) }, func(a uint64) uint64 { return a }, x)
		}
		n := uint8(8)
		if w == 64 && g.r.Intn(2) == 0 {
			n = 32
		}
		x := g.bv(n, d-1)
		if g.r.Intn(3) == 0 {
			return un(func(t *Term) *Term { return SExt(t, w) }, func(a uint64) uint64 { return uint64(sx(a, n)) }, x)
		}
		return un(func(t *Term) *Term { return ZExt(t, w) }, func(a uint64) uint64 { return a }, x)
	case 14:
		c, x, y := g.boolean(d-1), g.bv(w, d-1), g.bv(w, d-1)
		r := tv{t: Ite(c.t, x.t, y.t)}
		for i := range r.v {
			r.v[i] = y.v[i]
			if c.v[i] != 0 {
				r.v[i] = x.v[i]
			}
		}
		return r
	default:
		x := g.bv(w, d-1)
		if g.r.Intn(2) == 0 {
			return un(Neg, func(a uint64) uint64 { return -a }, x)
		}
		return un(BNot, func(a uint64) uint64 { return ^a }, x)
	}
}

func (g *gen) boolean(d int) tv {
	w := []uint8{8, 32, 64}[g.r.Intn(3)]
	if d <= 0 {
		d = 1
	}
	b := func(c bool) uint64 {
		if c {
			return 1
		}
		return 0
	}
	k := g.r.Intn(8)
	if k >= 5 {
		x, y := g.boolean(d-1-g.r.Intn(2)), tv{}
		if d <= 1 {
			k = 7
		} else {
			y = g.boolean(d - 1)
		}
		r := tv{}
		switch k {
		case 5:
			r.t = And(x.t, y.t)
		case 6:
			r.t = Or(x.t, y.t)
		default:
			r.t = Not(x.t)
		}
		for i := range r.v {
			switch k {
			case 5:
				r.v[i] = x.v[i] & y.v[i]
			case 6:
				r.v[i] = x.v[i] | y.v[i]
			default:
				r.v[i] = 1 - x.v[i]
			}
		}
		return r
	}
	x, y := g.bv(w, d-1), g.bv(w, d-1)
	if g.r.Intn(3) == 0 { // related operands
		z := g.bv(w, 1)
		y.t = Add(x.t, z.t)
		for i := range y.v {
			y.v[i] = (x.v[i] + z.v[i]) & Mask(w)
		}
		if g.r.Intn(2) == 0 {
			x, y = y, x
		}
	}
	r := tv{}
	switch k {
	case 0:
		r.t = Eq(x.t, y.t)
	case 1:
		r.t = Ult(x.t, y.t)
	case 2:
		r.t = Ule(x.t, y.t)
	case 3:
		r.t = Slt(x.t, y.t)
	case 4:
		r.t = Sle(x.t, y.t)
	}
	for i := range r.v {
		p, q := x.v[i], y.v[i]
		switch k {
		case 0:
			r.v[i] = b(p == q)
		case 1:
			r.v[i] = b(p < q)
		case 2:
			r.v[i] = b(p <= q)
		case 3:
			r.v[i] = b(sx(p, w) < sx(q, w))
		case 4:
			r.v[i] = b(sx(p, w) <= sx(q, w))
		}
	}
	return r
}

func TestSimplifier(t *testing.T) {
	g := &gen{r: rand.New(rand.NewSource(1))}
	for i := range g.ms {
		g.ms[i] = Model{}
	}
	for _, w := range []uint8{8, 32, 64} {
		for i := 0; i < 6; i++ {
			hi := Mask(w)
			var x tv
			switch i % 3 {
			case 0:
				hi = 9
				x.t = VarMax(fmt.Sprintf("v%d_%d", w, i), w, hi)
			case 1:
				hi = 200
				x.t = VarMax(fmt.Sprintf("v%d_%d", w, i), w, hi)
			default:
				x.t = Var(fmt.Sprintf("v%d_%d", w, i), w)
			}
			for j := range g.ms {
				v := g.r.Uint64() & Mask(w)
				switch g.r.Intn(4) {
				case 0:
					v = hi
				case 1:
					v = 0
				}
				if hi != Mask(w) {
					v %= hi + 1
				}
				g.ms[j][uint32(x.t.Val)] = v
				x.v[j] = v
			}
			g.vars = append(g.vars, x)
		}
	}
	n := 300000
	if testing.Short() {
		n = 20000
	}
	for i := 0; i < n; i++ {
		var x tv
		if i%2 == 0 {
			x = g.boolean(1 + g.r.Intn(5))
		} else {
			x = g.bv([]uint8{8, 32, 64}[g.r.Intn(3)], 1+g.r.Intn(5))
		}
		for j := range g.ms {
			if e := Eval(x.t, g.ms[j]); e != x.v[j] {
				t.Fatalf("term %d: eval %d, direct %d", i, e, x.v[j])
			}
			if x.t.W > 0 {
				if lo, hi := x.t.Bounds(); x.v[j] < lo || x.v[j] > hi {
					t.Fatalf("term %d: %d not in [%d, %d]", i, x.v[j], lo, hi)
				}
			}
		}
	}
}
