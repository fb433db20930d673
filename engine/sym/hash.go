package sym

import (
	"encoding/binary"
	"fmt"
	"hash/maphash"
	"sort"

	"verif/engine/smt"
)

// hasher computes canonical state hashes: heap objects are numbered in traversal order, so
// states that differ only in allocation history coincide.
type hasher struct {
	buf  []byte
	num  map[int32]int32
	todo []int32
}

var hs1, hs2 = maphash.MakeSeed(), maphash.MakeSeed()

func newHasher() *hasher { return &hasher{num: map[int32]int32{}} }

func (h *hasher) u(v uint64) { h.buf = binary.AppendUvarint(h.buf, v) }

func (h *hasher) obj(st *State, id int32) {
	if id == 0 {
		h.u(0)
		return
	}
	if id < st.e.baseObjs && st.obj(id) == st.e.base.obj(id) {
		h.u(1)
		h.u(uint64(id))
		return
	}
	n, ok := h.num[id]
	if !ok {
		n = int32(len(h.num) + 2)
		h.num[id] = n
		h.todo = append(h.todo, id)
	}
	h.u(uint64(n))
}

func (h *hasher) val(st *State, v Value) {
	switch x := v.(type) {
	case nil:
		h.u(1)
	case *smt.Term:
		h.u(2)
		h.u(uint64(x.ID))
	case *StrV:
		h.u(3)
		h.u(uint64(len(x.b)))
		for _, t := range x.b {
			h.u(uint64(t.ID))
		}
		if x.src.obj != 0 {
			h.val(st, x.src)
		}
	case Ptr:
		h.u(4)
		h.obj(st, x.obj)
		h.u(uint64(x.off))
	case SymPtr:
		h.u(5)
		h.obj(st, x.obj)
		h.u(uint64(x.base))
		h.u(uint64(x.stride))
		h.u(uint64(x.count))
		h.u(uint64(x.idx.ID))
	case SliceV:
		h.u(6)
		h.obj(st, x.obj)
		h.u(uint64(x.off))
		h.u(uint64(x.n))
		h.u(uint64(x.c))
	case IfaceV:
		h.u(7)
		if x.typ == nil {
			h.u(0)
		} else {
			h.u(uint64(typeID(x.typ)))
			h.val(st, x.val)
		}
	case *FuncV:
		if x == nil {
			h.u(8)
			return
		}
		h.u(9)
		if x.fn != nil {
			h.u(st.e.info(x.fn).id)
		}
		for _, e := range x.env {
			h.val(st, e)
		}
	case MapV:
		h.u(10)
		h.obj(st, x.obj)
	case ChanV:
		h.u(11)
		h.obj(st, x.obj)
	case Agg:
		h.u(12)
		h.u(uint64(len(x)))
		for _, e := range x {
			h.val(st, e)
		}
	case TupleV:
		h.u(13)
		for _, e := range x {
			h.val(st, e)
		}
	case FloatV:
		h.u(14)
		h.buf = fmt.Appendf(h.buf, "%v", float64(x))
	case IterV:
		h.u(15)
		h.obj(st, x.obj)
	case handedV:
		h.u(16)
		h.val(st, x.v)
		h.u(uint64(x.ix))
	default:
		panic(fmt.Sprintf("hash of %T", v))
	}
}

// seen records the state and reports whether an equal one was already explored.
func (st *State) seen() bool {
	h := st.w.hs
	h.buf = h.buf[:0]
	clear(h.num)
	h.todo = h.todo[:0]
	h.u(uint64(st.cur))
	h.u(uint64(st.preempt))
	h.u(uint64(st.timerBudget))
	for _, t := range st.thr {
		if t.done {
			h.u(0)
			continue
		}
		h.u(uint64(len(t.frames)) + 1)
		h.u(uint64(t.phase))
		h.u(uint64(t.op.kind))
		if t.op.kind == opCond {
			// relative ticket
			h.u(t.op.ticket)
		}
		if t.condAt.obj != 0 {
			h.u(t.ticket)
		}
		if t.op.kind == opSleep {
			h.u(uint64(t.op.until - st.now))
		}
		if t.handed != nil {
			h.val(st, t.handed)
		}
		if t.panic != nil {
			h.u(99)
		}
		for _, f := range t.frames {
			h.u(f.fi.id)
			h.u(uint64(f.blk))
			h.u(uint64(f.ip))
			live := f.fi.live(f.blk, f.ip)
			for _, r := range live {
				h.val(st, f.regs[r])
			}
			for _, d := range f.defers {
				h.val(st, d.fn)
				for _, a := range d.args {
					h.val(st, a)
				}
			}
		}
	}
	for _, r := range st.timers {
		h.u(uint64(r.at - st.now))
		h.obj(st, r.ch)
	}
	h.u(uint64(len(st.nd)))
	for _, n := range st.nd {
		h.u(uint64(n.Term.ID))
	}
	for id := int32(1); id < st.e.baseObjs; id++ {
		if st.heap[id>>chunkBits] == st.e.base.heap[id>>chunkBits] {
			id |= chunkSize - 1
			continue
		}
		if st.obj(id) != st.e.base.obj(id) {
			h.u(uint64(id))
			h.obj(st, id)
		}
	}
	for i := 0; i < len(h.todo); i++ {
		o := st.obj(h.todo[i])
		h.u(uint64(o.kind))
		h.u(uint64(o.n))
		// trailing zero-pattern cells are normalised away
		m := len(o.cells)
		for m > 0 && sameScalar(o.cells[m-1], o.zero[(m-1)%len(o.zero)]) {
			m--
		}
		h.u(uint64(m))
		for _, v := range o.cells[:m] {
			h.val(st, v)
		}
		h.u(uint64(len(o.ents)))
		for _, e := range o.ents {
			h.val(st, e.k)
			h.val(st, e.v)
		}
		if o.ch != nil {
			h.u(uint64(o.ch.cap))
			if o.ch.closed {
				h.u(1)
			}
			for _, v := range o.ch.buf {
				h.val(st, v)
			}
		}
		if o.str != nil {
			h.val(st, o.str)
		}
		h.u(uint64(o.pos))
	}
	ids := make([]int, 0, len(st.pc))
	for _, c := range st.pc {
		ids = append(ids, int(c.ID))
	}
	sort.Ints(ids)
	for _, i := range ids {
		h.u(uint64(i))
	}
	if st.race {
		for _, t := range st.thr {
			for _, c := range t.vc {
				h.u(uint64(c))
			}
		}
	}
	k := [2]uint64{maphash.Bytes(hs1, h.buf), maphash.Bytes(hs2, h.buf)}
	s := &st.w.run.visited[k[0]%64]
	s.mu.Lock()
	defer s.mu.Unlock()
	if _, ok := s.m[k]; ok {
		return true
	}
	s.m[k] = struct{}{}
	return false
}

// live returns the registers that may still be read when execution continues at (blk, ip).
func (fi *fnInfo) live(blk, ip int32) []int32 {
	k := int64(blk)<<32 | int64(ip)
	if v, ok := fi.liveAt.Load(k); ok {
		return v.([]int32)
	}
	fi.liveMu.Lock()
	defer fi.liveMu.Unlock()
	if fi.liveOut == nil {
		fi.computeLive()
	}
	l := append([]bool(nil), fi.liveOut[blk]...)
	b := &fi.blocks[blk]
	for i := len(b.ins) - 1; i >= int(ip); i-- {
		in := &b.ins[i]
		if i < b.nphi {
			break
		}
		if in.dst >= 0 {
			l[in.dst] = false
		}
		for _, o := range in.ops {
			if o.reg >= 0 {
				l[o.reg] = true
			}
		}
	}
	// the result of a call in progress is written later, its operands are dead but harmless
	var r []int32
	for i, x := range l {
		if x {
			r = append(r, int32(i))
		}
	}
	fi.liveAt.Store(k, r)
	return r
}

func (fi *fnInfo) computeLive() {
	n := len(fi.blocks)
	in := make([][]bool, n)
	fi.liveOut = make([][]bool, n)
	for i := range in {
		in[i] = make([]bool, fi.nregs)
		fi.liveOut[i] = make([]bool, fi.nregs)
	}
	for changed := true; changed; {
		changed = false
		for bi := n - 1; bi >= 0; bi-- {
			b := &fi.blocks[bi]
			out := fi.liveOut[bi]
			for _, s := range b.succs {
				sb := &fi.blocks[s]
				for r, x := range in[s] {
					if x && !out[r] {
						out[r] = true
						changed = true
					}
				}
				for pi, p := range sb.preds {
					if int(p) != bi {
						continue
					}
					for k := 0; k < sb.nphi; k++ {
						if o := sb.ins[k].ops[pi]; o.reg >= 0 && !out[o.reg] {
							out[o.reg] = true
							changed = true
						}
					}
				}
			}
			if fi.recov >= 0 {
				for r, x := range in[fi.recov] {
					if x && !out[r] {
						out[r] = true
						changed = true
					}
				}
			}
			l := append([]bool(nil), out...)
			for i := len(b.ins) - 1; i >= 0; i-- {
				q := &b.ins[i]
				if q.dst >= 0 {
					l[q.dst] = false
				}
				if i < b.nphi {
					continue
				}
				for _, o := range q.ops {
					if o.reg >= 0 {
						l[o.reg] = true
					}
				}
			}
			for r, x := range l {
				if x && !in[bi][r] {
					in[bi][r] = true
					changed = true
				}
			}
		}
	}
}

func sameScalar(a, b Value) bool {
	switch x := a.(type) {
	case *smt.Term:
		y, ok := b.(*smt.Term)
		return ok && x == y
	case Ptr:
		y, ok := b.(Ptr)
		return ok && x == y
	case SliceV:
		y, ok := b.(SliceV)
		return ok && x == y
	case *StrV:
		y, ok := b.(*StrV)
		return ok && x == y
	case IfaceV:
		y, ok := b.(IfaceV)
		return ok && x.typ == nil && y.typ == nil
	}
	return false
}
