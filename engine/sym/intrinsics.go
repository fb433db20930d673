package sym

import (
	"fmt"
	"go/types"
	"math/bits"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"

	"verif/engine/smt"
)

type intrinsic struct {
	name string
	f    func(st *State, t *Thread, a []Value) (Value, int)
}

var intrCache sync.Map // *ssa.Function -> *intrinsic (nil allowed)

func (e *Engine) intrinsicFor(f *ssa.Function) *intrinsic {
	if v, ok := intrCache.Load(f); ok {
		return v.(*intrinsic)
	}
	it := e.findIntrinsic(f)
	intrCache.Store(f, it)
	return it
}

func (e *Engine) findIntrinsic(f *ssa.Function) *intrinsic {
	n := fullName(f)
	if fn, ok := intrinsics[n]; ok {
		return &intrinsic{n, fn}
	}
	if f.Pkg != nil && e.isVerif(f.Pkg.Pkg.Path()) {
		if fn, ok := verifIntr[f.Name()]; ok && f.Signature.Recv() == nil && f.Parent() == nil {
			return &intrinsic{n, fn}
		}
	}
	if f.Name() == "init" && f.Synthetic == "package initializer" && f.Pkg != nil {
		// dependencies are initialised separately
		return &intrinsic{n, nop}
	}
	if f.Pkg != nil && f.Pkg.Pkg.Path() == "log" && f.Parent() == nil {
		if f.Signature.Recv() == nil {
			switch f.Name() {
			case "Print", "Println", "Printf":
				return &intrinsic{n, nop}
			}
		}
	}
	return nil
}

func nop(st *State, t *Thread, a []Value) (Value, int) { return nil, ctlOK }

func ptrArg(v Value) Ptr {
	p, ok := v.(Ptr)
	if !ok {
		panic(unsupported{fmt.Sprintf("pointer argument %T", v)})
	}
	if p.obj == 0 {
		nilDeref()
	}
	return p
}

type intrF = func(st *State, t *Thread, a []Value) (Value, int)

var intrinsics map[string]intrF
var verifIntr map[string]intrF

func fieldOff(st *State, pkg, typ, field string) int32 {
	tt := st.e.Pkgs[pkg].Pkg.Scope().Lookup(typ).Type()
	s := tt.Underlying().(*types.Struct)
	l := layout(tt)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == field {
			return int32(l.offs[i])
		}
	}
	panic(unsupported{"no field " + typ + "." + field})
}

func (st *State) unlock(t *Thread, p Ptr) {
	if st.slotU(p) == 0 {
		st.violate("panic", "fatal error: sync: unlock of unlocked mutex")
	}
	st.release(t, p)
	st.setSlotU(p, 32, 0)
}

const notified = ^uint64(0)

// condNotify wakes the longest waiter (or all); the counters restart when nobody waits.
func (st *State) condNotify(nt Ptr, all bool) {
	nf := Ptr{nt.obj, nt.off + 1}
	w, n := st.slotU(nt), st.slotU(nf)
	for n < w {
		for _, t := range st.thr {
			if !t.done && t.op.kind == opCond && t.op.p == nt && t.op.ticket == n {
				t.op.ticket = notified
				t.ticket = notified
			} else if !t.done && t.condAt == nt && t.ticket == n {
				t.ticket = notified
			}
		}
		n++
		if !all {
			break
		}
	}
	if n == w {
		n, w = 0, 0
	}
	st.setSlotU(nt, 32, w)
	st.setSlotU(nf, 32, n)
}

func (st *State) condMutex(p Ptr) Ptr {
	l := st.loadSlot(p.obj, p.off+fieldOff(st, "sync", "Cond", "L")).(IfaceV)
	if l.typ == nil {
		nilDeref()
	}
	if !strings.HasSuffix(l.typ.String(), "sync.Mutex") {
		panic(unsupported{"Cond over " + l.typ.String()})
	}
	return l.val.(Ptr)
}

func c64(v uint64) *smt.Term { return smt.Const(64, v) }

func init() {
	intrinsics = map[string]intrF{
		"(*sync.Mutex).Lock": func(st *State, t *Thread, a []Value) (Value, int) {
			p := ptrArg(a[0])
			if !st.enter(t, pendOp{kind: opLock, p: p}) {
				return nil, ctlYield
			}
			st.acquire(t, p)
			st.setSlotU(p, 32, 1)
			return nil, ctlOK
		},
		"(*sync.Mutex).TryLock": func(st *State, t *Thread, a []Value) (Value, int) {
			p := ptrArg(a[0])
			if !st.enter(t, pendOp{kind: opAtomic, p: p}) {
				return nil, ctlYield
			}
			if st.slotU(p) != 0 {
				return smt.False, ctlOK
			}
			st.acquire(t, p)
			st.setSlotU(p, 32, 1)
			return smt.True, ctlOK
		},
		"(*sync.Mutex).Unlock": func(st *State, t *Thread, a []Value) (Value, int) {
			st.unlock(t, ptrArg(a[0]))
			return nil, ctlOK
		},
		"(*sync.RWMutex).Lock": func(st *State, t *Thread, a []Value) (Value, int) {
			p := ptrArg(a[0])
			r := Ptr{p.obj, p.off + 1}
			if !st.enter(t, pendOp{kind: opLock, p: p, p2: r}) {
				return nil, ctlYield
			}
			st.acquire(t, p)
			st.acquire(t, r)
			st.setSlotU(p, 32, 1)
			return nil, ctlOK
		},
		"(*sync.RWMutex).TryLock": func(st *State, t *Thread, a []Value) (Value, int) {
			p := ptrArg(a[0])
			r := Ptr{p.obj, p.off + 1}
			if !st.enter(t, pendOp{kind: opAtomic, p: p}) {
				return nil, ctlYield
			}
			if st.slotU(p) != 0 || st.slotU(r) != 0 {
				return smt.False, ctlOK
			}
			st.acquire(t, p)
			st.acquire(t, r)
			st.setSlotU(p, 32, 1)
			return smt.True, ctlOK
		},
		"(*sync.RWMutex).TryRLock": func(st *State, t *Thread, a []Value) (Value, int) {
			p := ptrArg(a[0])
			if !st.enter(t, pendOp{kind: opAtomic, p: p}) {
				return nil, ctlYield
			}
			if st.slotU(p) != 0 {
				return smt.False, ctlOK
			}
			st.acquire(t, p)
			r := Ptr{p.obj, p.off + 1}
			st.setSlotU(r, 32, st.slotU(r)+1)
			return smt.True, ctlOK
		},
		"(*sync.RWMutex).Unlock": func(st *State, t *Thread, a []Value) (Value, int) {
			st.unlock(t, ptrArg(a[0]))
			return nil, ctlOK
		},
		"(*sync.RWMutex).RLock": func(st *State, t *Thread, a []Value) (Value, int) {
			p := ptrArg(a[0])
			if !st.enter(t, pendOp{kind: opRLock, p: p}) {
				return nil, ctlYield
			}
			st.acquire(t, p)
			r := Ptr{p.obj, p.off + 1}
			st.setSlotU(r, 32, st.slotU(r)+1)
			return nil, ctlOK
		},
		"(*sync.RWMutex).RUnlock": func(st *State, t *Thread, a []Value) (Value, int) {
			p := ptrArg(a[0])
			r := Ptr{p.obj, p.off + 1}
			if st.slotU(r) == 0 {
				st.violate("panic", "fatal error: sync: RUnlock of unlocked RWMutex")
			}
			st.releaseMerge(t, r)
			st.setSlotU(r, 32, st.slotU(r)-1)
			return nil, ctlOK
		},
		"(*sync.Cond).Signal": func(st *State, t *Thread, a []Value) (Value, int) {
			p := ptrArg(a[0])
			if !st.enter(t, pendOp{kind: opAtomic, p: p}) {
				return nil, ctlYield
			}
			st.condNotify(Ptr{p.obj, p.off + fieldOff(st, "sync", "Cond", "notify")}, false)
			return nil, ctlOK
		},
		"(*sync.Cond).Broadcast": func(st *State, t *Thread, a []Value) (Value, int) {
			p := ptrArg(a[0])
			if !st.enter(t, pendOp{kind: opAtomic, p: p}) {
				return nil, ctlYield
			}
			st.condNotify(Ptr{p.obj, p.off + fieldOff(st, "sync", "Cond", "notify")}, true)
			return nil, ctlOK
		},
		"(*sync.WaitGroup).Add": func(st *State, t *Thread, a []Value) (Value, int) {
			p := ptrArg(a[0])
			d := st.concInt(a[1], "WaitGroup delta")
			if d > 0 && !st.enter(t, pendOp{kind: opAtomic, p: p}) {
				return nil, ctlYield
			}
			st.wgAdd(t, p, d)
			return nil, ctlOK
		},
		"(*sync.WaitGroup).Done": func(st *State, t *Thread, a []Value) (Value, int) {
			st.wgAdd(t, ptrArg(a[0]), -1)
			return nil, ctlOK
		},
		"(*sync.WaitGroup).Wait": func(st *State, t *Thread, a []Value) (Value, int) {
			p := ptrArg(a[0])
			if !st.enter(t, pendOp{kind: opWG, p: p}) {
				return nil, ctlYield
			}
			st.acquire(t, p)
			return nil, ctlOK
		},
		"(*sync.Pool).Get": func(st *State, t *Thread, a []Value) (Value, int) {
			p := ptrArg(a[0])
			lp := Ptr{p.obj, p.off + fieldOff(st, "sync", "Pool", "local")}
			if m, ok := st.loadSlot(lp.obj, lp.off).(MapV); ok && !st.w.run.cfg.NoPoolReuse {
				if n := len(st.obj(m.obj).ents); n > 0 {
					o := st.wobj(m.obj)
					v := o.ents[n-1].v
					o.ents = o.ents[:n-1]
					st.acquire(t, p)
					return v, ctlOK
				}
			}
			fn := st.loadSlot(p.obj, p.off+fieldOff(st, "sync", "Pool", "New")).(*FuncV)
			if fn == nil {
				return IfaceV{}, ctlOK
			}
			st.pushFrame(t, fn, nil, -1)
			return nil, ctlFrame
		},
		"(*sync.Pool).Put": func(st *State, t *Thread, a []Value) (Value, int) {
			p := ptrArg(a[0])
			if a[1].(IfaceV).typ == nil {
				return nil, ctlOK
			}
			lp := Ptr{p.obj, p.off + fieldOff(st, "sync", "Pool", "local")}
			m, ok := st.loadSlot(lp.obj, lp.off).(MapV)
			if !ok {
				m = MapV{st.alloc(&Object{kind: kMap, site: "pool"})}
				st.storeSlot(lp.obj, lp.off, m)
			}
			st.release(t, p)
			o := st.wobj(m.obj)
			o.ents = append(o.ents, mapEnt{nil, a[1]})
			return nil, ctlOK
		},
		"time.Now": func(st *State, t *Thread, a []Value) (Value, int) { return st.timeValue(), ctlOK },
		"time.Since": func(st *State, t *Thread, a []Value) (Value, int) {
			return smt.Sub(c64(uint64(st.now)), termOf(a[0].(Agg)[1])), ctlOK
		},
		"time.Until": func(st *State, t *Thread, a []Value) (Value, int) {
			return smt.Sub(termOf(a[0].(Agg)[1]), c64(uint64(st.now))), ctlOK
		},
		"time.Sleep": func(st *State, t *Thread, a []Value) (Value, int) {
			if t.phase == 0 {
				d := st.concInt(a[0], "sleep duration")
				if d <= 0 {
					return nil, ctlOK
				}
				t.phase = 1
				t.wakeAt = st.now + d
				st.timers = append(st.timers, timerRec{at: t.wakeAt})
				t.op = pendOp{kind: opSleep, until: t.wakeAt}
				return nil, ctlYield
			}
			if !st.enter(t, pendOp{kind: opSleep, until: t.wakeAt}) {
				return nil, ctlYield
			}
			t.phase = 0
			return nil, ctlOK
		},
		"time.After": func(st *State, t *Thread, a []Value) (Value, int) {
			d := st.concInt(a[0], "timer duration")
			return ChanV{st.newTimer(d, 0)}, ctlOK
		},
		"time.Tick": func(st *State, t *Thread, a []Value) (Value, int) {
			d := st.concInt(a[0], "ticker period")
			return ChanV{st.newTimer(d, d)}, ctlOK
		},
		"time.NewTimer": func(st *State, t *Thread, a []Value) (Value, int) {
			d := st.concInt(a[0], "timer duration")
			return st.timerObj("Timer", st.newTimer(d, 0)), ctlOK
		},
		"time.NewTicker": func(st *State, t *Thread, a []Value) (Value, int) {
			d := st.concInt(a[0], "ticker period")
			if d <= 0 {
				panic(goPanic{"non-positive interval for NewTicker", false})
			}
			return st.timerObj("Ticker", st.newTimer(d, d)), ctlOK
		},
		"time.AfterFunc": func(st *State, t *Thread, a []Value) (Value, int) {
			d := st.concInt(a[0], "timer duration")
			c := st.newChan(1, types.Typ[types.Int])
			st.timers = append(st.timers, timerRec{at: st.now + max(d, 0), fn: a[1].(*FuncV), id: c})
			return st.timerObj("Timer", c), ctlOK
		},
		"(*time.Timer).Stop":   timerStop,
		"(*time.Ticker).Stop":  timerStop,
		"(*time.Timer).Reset":  timerReset,
		"(*time.Ticker).Reset": timerReset,

		"internal/abi.NoEscape": func(st *State, t *Thread, a []Value) (Value, int) { return a[0], ctlOK },
		"internal/abi.Escape":   func(st *State, t *Thread, a []Value) (Value, int) { return a[0], ctlOK },
		"runtime.Gosched": func(st *State, t *Thread, a []Value) (Value, int) {
			if !st.enter(t, pendOp{kind: opAtomic}) {
				return nil, ctlYield
			}
			return nil, ctlOK
		},
		"runtime.KeepAlive":          nop,
		"internal/race.Acquire":      nop,
		"internal/race.Release":      nop,
		"internal/race.Disable":      nop,
		"internal/race.Enable":       nop,
		"internal/race.ReleaseMerge": nop,

		"internal/bytealg.IndexByte":       idxByte,
		"internal/bytealg.IndexByteString": idxByte,
		"internal/bytealg.LastIndexByte": func(st *State, t *Thread, a []Value) (Value, int) {
			b := st.bytesOf(a[0])
			for i := len(b) - 1; i >= 0; i-- {
				if st.decide(smt.Eq(b[i], termOf(a[1]))) {
					return c64(uint64(i)), ctlOK
				}
			}
			return c64(^uint64(0)), ctlOK
		},
		"internal/bytealg.Count":       cntByte,
		"internal/bytealg.CountString": cntByte,
		"internal/bytealg.Equal": func(st *State, t *Thread, a []Value) (Value, int) {
			return bytesEq(st.bytesOf(a[0]), st.bytesOf(a[1])), ctlOK
		},
		"bytes.Equal": func(st *State, t *Thread, a []Value) (Value, int) {
			return bytesEq(st.bytesOf(a[0]), st.bytesOf(a[1])), ctlOK
		},
		"bytes.HasPrefix":                hasPrefix,
		"strings.HasPrefix":              hasPrefix,
		"internal/stringslite.HasPrefix": hasPrefix,
		"bytes.HasSuffix":                hasSuffix,
		"strings.HasSuffix":              hasSuffix,
		"internal/stringslite.HasSuffix": hasSuffix,
		"internal/bytealg.Compare":       cmpBytes,
		"internal/bytealg.CompareString": cmpBytes,
		"bytes.Compare":                  cmpBytes,
		"strings.Compare":                cmpBytes,
		"bytes.Index":                    idxSub,
		"strings.Index":                  idxSub,
		"internal/stringslite.Index":     idxSub,
		"internal/bytealg.Index":         idxSub,
		"internal/bytealg.IndexString":   idxSub,
		"bytes.IndexByte":                idxByte,
		"strings.IndexByte":              idxByte,
		"internal/stringslite.IndexByte": idxByte,
		"internal/bytealg.MakeNoZero": func(st *State, t *Thread, a []Value) (Value, int) {
			n := int(st.concretizeLen(termOf(a[0])))
			return st.bytesToSlice(nil, st.roundup(n)).withLen(n), ctlOK
		},
		"strings.Clone":                   func(st *State, t *Thread, a []Value) (Value, int) { return a[0], ctlOK },
		"internal/stringslite.Clone":      func(st *State, t *Thread, a []Value) (Value, int) { return a[0], ctlOK },
		"unicode/utf8.DecodeRuneInString": decRune,
		"unicode/utf8.DecodeRune":         decRune,
		"math/bits.LeadingZeros64":        func(st *State, t *Thread, a []Value) (Value, int) { return bitLen(st, termOf(a[0]), 64, true), ctlOK },
		"math/bits.Len64":                 func(st *State, t *Thread, a []Value) (Value, int) { return bitLen(st, termOf(a[0]), 64, false), ctlOK },
		"math/bits.Len":                   func(st *State, t *Thread, a []Value) (Value, int) { return bitLen(st, termOf(a[0]), 64, false), ctlOK },
		"math/bits.Len32":                 func(st *State, t *Thread, a []Value) (Value, int) { return bitLen(st, termOf(a[0]), 32, false), ctlOK },
		"math/bits.LeadingZeros32":        func(st *State, t *Thread, a []Value) (Value, int) { return bitLen(st, termOf(a[0]), 32, true), ctlOK },
		"math/bits.LeadingZeros":          func(st *State, t *Thread, a []Value) (Value, int) { return bitLen(st, termOf(a[0]), 64, true), ctlOK },
		"os.Exit": func(st *State, t *Thread, a []Value) (Value, int) {
			st.violate("panic", "os.Exit called")
			return nil, ctlOK
		},
		"(*sync/atomic.Value).Load": func(st *State, t *Thread, a []Value) (Value, int) {
			p := ptrArg(a[0])
			if !st.enter(t, pendOp{kind: opAtomic, p: p}) {
				return nil, ctlYield
			}
			st.acquire(t, p)
			return st.loadSlot(p.obj, p.off), ctlOK
		},
		"(*sync/atomic.Value).Swap": func(st *State, t *Thread, a []Value) (Value, int) {
			p := ptrArg(a[0])
			if !st.enter(t, pendOp{kind: opAtomic, p: p}) {
				return nil, ctlYield
			}
			st.acquire(t, p)
			st.release(t, p)
			v := st.loadSlot(p.obj, p.off)
			st.storeSlot(p.obj, p.off, a[1])
			return v, ctlOK
		},
		"(*sync/atomic.Value).CompareAndSwap": func(st *State, t *Thread, a []Value) (Value, int) {
			p := ptrArg(a[0])
			if !st.enter(t, pendOp{kind: opAtomic, p: p}) {
				return nil, ctlYield
			}
			st.acquire(t, p)
			if !st.decide(st.equal(st.loadSlot(p.obj, p.off), a[1])) {
				return smt.False, ctlOK
			}
			st.release(t, p)
			st.storeSlot(p.obj, p.off, a[2])
			return smt.True, ctlOK
		},
		"(*sync/atomic.Value).Store": func(st *State, t *Thread, a []Value) (Value, int) {
			p := ptrArg(a[0])
			if !st.enter(t, pendOp{kind: opAtomic, p: p}) {
				return nil, ctlYield
			}
			st.release(t, p)
			st.storeSlot(p.obj, p.off, a[1])
			return nil, ctlOK
		},
	}
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		w := uint8(64)
		if strings.HasSuffix(ty, "32") {
			w = 32
		}
		intrinsics["sync/atomic.Load"+ty] = func(st *State, t *Thread, a []Value) (Value, int) {
			p := ptrArg(a[0])
			if !st.enter(t, pendOp{kind: opAtomic, p: p}) {
				return nil, ctlYield
			}
			st.acquire(t, p)
			return st.loadSlot(p.obj, p.off), ctlOK
		}
		intrinsics["sync/atomic.Store"+ty] = func(st *State, t *Thread, a []Value) (Value, int) {
			p := ptrArg(a[0])
			if !st.enter(t, pendOp{kind: opAtomic, p: p}) {
				return nil, ctlYield
			}
			st.acquire(t, p)
			st.release(t, p)
			st.storeSlot(p.obj, p.off, a[1])
			return nil, ctlOK
		}
		intrinsics["sync/atomic.Swap"+ty] = func(st *State, t *Thread, a []Value) (Value, int) {
			p := ptrArg(a[0])
			if !st.enter(t, pendOp{kind: opAtomic, p: p}) {
				return nil, ctlYield
			}
			st.acquire(t, p)
			st.release(t, p)
			old := st.loadSlot(p.obj, p.off)
			st.storeSlot(p.obj, p.off, a[1])
			return old, ctlOK
		}
		intrinsics["sync/atomic.CompareAndSwap"+ty] = func(st *State, t *Thread, a []Value) (Value, int) {
			p := ptrArg(a[0])
			if !st.enter(t, pendOp{kind: opAtomic, p: p}) {
				return nil, ctlYield
			}
			if st.decide(st.equal(st.loadSlot(p.obj, p.off), a[1])) {
				st.acquire(t, p)
				st.release(t, p)
				st.storeSlot(p.obj, p.off, a[2])
				return smt.True, ctlOK
			}
			st.acquire(t, p)
			return smt.False, ctlOK
		}
		if ty == "Pointer" {
			continue
		}
		_ = w
		for opn, f := range map[string]func(x, y *smt.Term) (nw, ret *smt.Term){
			"Add": func(x, y *smt.Term) (*smt.Term, *smt.Term) { s := smt.Add(x, y); return s, s },
			"And": func(x, y *smt.Term) (*smt.Term, *smt.Term) { return smt.BAnd(x, y), x },
			"Or":  func(x, y *smt.Term) (*smt.Term, *smt.Term) { return smt.BOr(x, y), x },
		} {
			intrinsics["sync/atomic."+opn+ty] = func(st *State, t *Thread, a []Value) (Value, int) {
				p := ptrArg(a[0])
				if !st.enter(t, pendOp{kind: opAtomic, p: p}) {
					return nil, ctlYield
				}
				st.acquire(t, p)
				st.release(t, p)
				nw, ret := f(termOf(st.loadSlot(p.obj, p.off)), termOf(a[1]))
				st.storeSlot(p.obj, p.off, nw)
				return ret, ctlOK
			}
		}
	}
	verifIntr = map[string]intrF{
		"Byte": func(st *State, t *Thread, a []Value) (Value, int) {
			return st.nondet(a[0], 8, 255), ctlOK
		},
		"ByteMax": func(st *State, t *Thread, a []Value) (Value, int) {
			return st.nondet(a[0], 8, termOf(a[1]).Val), ctlOK
		},
		"U64": func(st *State, t *Thread, a []Value) (Value, int) { return st.nondet(a[0], 64, ^uint64(0)), ctlOK },
		"U32": func(st *State, t *Thread, a []Value) (Value, int) { return st.nondet(a[0], 32, 1<<32-1), ctlOK },
		"Bool": func(st *State, t *Thread, a []Value) (Value, int) {
			return smt.Eq(st.nondet(a[0], 8, 1), smt.Const(8, 1)), ctlOK
		},
		"IntRange": func(st *State, t *Thread, a []Value) (Value, int) {
			lo, hi := termOf(a[1]).SVal(), termOf(a[2]).SVal()
			if hi < lo {
				panic(killPath{"empty range"})
			}
			return smt.Add(st.nondet(a[0], 64, uint64(hi-lo)), c64(uint64(lo))), ctlOK
		},
		"Choice": func(st *State, t *Thread, a []Value) (Value, int) {
			n := termOf(a[1]).SVal()
			if n <= 0 {
				panic(killPath{"empty choice"})
			}
			key := st.ndKey(a[0])
			v := st.ndVar(key, 64, uint64(n-1))
			// enumerate: bounded by n, so no limit
			for i := int64(0); i < n-1; i++ {
				if st.decide(smt.Eq(v, c64(uint64(i)))) {
					st.ndCommit(a[0], key, c64(uint64(i)))
					return c64(uint64(i)), ctlOK
				}
			}
			st.ndCommit(a[0], key, c64(uint64(n-1)))
			return c64(uint64(n - 1)), ctlOK
		},
		"Assume": func(st *State, t *Thread, a []Value) (Value, int) {
			st.assume(termOf(a[0]))
			return nil, ctlOK
		},
		"Assert": func(st *State, t *Thread, a []Value) (Value, int) {
			c := termOf(a[0])
			st.w.run.Asserts.Add(1)
			if c == smt.True {
				return nil, ctlOK
			}
			if !st.decide(c) {
				st.violate("assert", goStr(a[1].(*StrV)))
			}
			return nil, ctlOK
		},
		// fence orders the calls with the same p.
		"fence": func(st *State, t *Thread, a []Value) (Value, int) {
			p := ptrArg(a[0])
			st.acquire(t, p)
			st.release(t, p)
			return nil, ctlOK
		},
		"sliceLen": func(st *State, t *Thread, a []Value) (Value, int) {
			return c64(uint64(a[0].(IfaceV).val.(SliceV).n)), ctlOK
		},
		"sliceSwap": func(st *State, t *Thread, a []Value) (Value, int) {
			x := a[0].(IfaceV)
			et := x.typ.Underlying().(*types.Slice).Elem()
			s := x.val.(SliceV)
			n := int32(layout(et).n)
			at := func(v Value) Ptr {
				return Ptr{s.obj, s.off + n*int32(st.concInt(v, "index"))}
			}
			p, q := at(a[1]), at(a[2])
			v, w := st.loadAt(p, et), st.loadAt(q, et)
			st.storeAt(p, et, w)
			st.storeAt(q, et, v)
			return nil, ctlOK
		},
		"condAdd": func(st *State, t *Thread, a []Value) (Value, int) {
			p := ptrArg(a[0])
			nt := Ptr{p.obj, p.off + fieldOff(st, "sync", "Cond", "notify")}
			if !st.enter(t, pendOp{kind: opAtomic, p: nt}) {
				return nil, ctlYield
			}
			t.ticket = st.slotU(nt)
			t.condAt = nt
			st.setSlotU(nt, 32, t.ticket+1)
			return nil, ctlOK
		},
		"condBlock": func(st *State, t *Thread, a []Value) (Value, int) {
			if !st.enter(t, pendOp{kind: opCond, p: t.condAt, ticket: t.ticket}) {
				return nil, ctlYield
			}
			t.condAt = Ptr{}
			return nil, ctlOK
		},
		"condWait": func(st *State, t *Thread, a []Value) (Value, int) {
			p := ptrArg(a[0])
			m := st.condMutex(p)
			nt := Ptr{p.obj, p.off + fieldOff(st, "sync", "Cond", "notify")}
			if t.phase == 0 {
				// a Signal given without the mutex can come before the registration
				if !st.enter(t, pendOp{kind: opAtomic, p: nt}) {
					return nil, ctlYield
				}
				t.ticket = st.slotU(nt)
				st.setSlotU(nt, 32, t.ticket+1)
				st.unlock(t, m)
				t.phase = 1
				t.op = pendOp{kind: opCond, p: nt, p2: m, ticket: t.ticket}
				return nil, ctlYield
			}
			if !st.enter(t, pendOp{kind: opCond, p: nt, p2: m, ticket: t.ticket}) {
				return nil, ctlYield
			}
			t.phase = 0
			st.acquire(t, m)
			st.setSlotU(m, 32, 1)
			return nil, ctlOK
		},
		"errAssign": func(st *State, t *Thread, a []Value) (Value, int) {
			err, target := a[0].(IfaceV), a[1].(IfaceV)
			pt, ok := target.typ.(*types.Pointer)
			if !ok {
				panic(goPanic{"errors: target must be a non-nil pointer", false})
			}
			p := ptrArg(target.val)
			if it, isI := pt.Elem().Underlying().(*types.Interface); isI {
				if !st.implements(err.typ, it) {
					return smt.False, ctlOK
				}
				st.storeAt(p, pt.Elem(), err)
				return smt.True, ctlOK
			}
			if typeID(err.typ) != typeID(pt.Elem()) {
				return smt.False, ctlOK
			}
			st.storeAt(p, pt.Elem(), err.val)
			return smt.True, ctlOK
		},
		"Fail": func(st *State, t *Thread, a []Value) (Value, int) {
			st.violate("assert", goStr(a[0].(*StrV)))
			return nil, ctlOK
		},
		"Kill": func(st *State, t *Thread, a []Value) (Value, int) { panic(killPath{"harness"}) },
		"Cover": func(st *State, t *Thread, a []Value) (Value, int) {
			st.covers[goStr(a[0].(*StrV))] = true
			return nil, ctlOK
		},
		"OutStr": func(st *State, t *Thread, a []Value) (Value, int) {
			st.outs = append(st.outs, outRec{Key: goStr(a[0].(*StrV)), S: a[1].(*StrV)})
			return nil, ctlOK
		},
		"OutInt": func(st *State, t *Thread, a []Value) (Value, int) {
			st.outs = append(st.outs, outRec{Key: goStr(a[0].(*StrV)), T: termOf(a[1])})
			return nil, ctlOK
		},
		"Block": func(st *State, t *Thread, a []Value) (Value, int) {
			p := ptrArg(a[0])
			if !st.enter(t, pendOp{kind: opAwait, p: p}) {
				return nil, ctlYield
			}
			return nil, ctlOK
		},
		"Yield": func(st *State, t *Thread, a []Value) (Value, int) {
			if !st.enter(t, pendOp{kind: opAtomic}) {
				return nil, ctlYield
			}
			return nil, ctlOK
		},
		"Quiesce": func(st *State, t *Thread, a []Value) (Value, int) {
			if !st.enter(t, pendOp{kind: opQuiesce}) {
				return nil, ctlYield
			}
			return nil, ctlOK
		},
		"Live": func(st *State, t *Thread, a []Value) (Value, int) {
			n := 0
			for _, x := range st.thr {
				if !x.done {
					n++
				}
			}
			return c64(uint64(n)), ctlOK
		},
		"Now":      func(st *State, t *Thread, a []Value) (Value, int) { return c64(uint64(st.now)), ctlOK },
		"Symbolic": func(st *State, t *Thread, a []Value) (Value, int) { return smt.True, ctlOK },
		"Advance": func(st *State, t *Thread, a []Value) (Value, int) {
			st.now += st.concInt(a[0], "advance")
			return nil, ctlOK
		},
		// Fix forks until the value is concrete.
		"Fix": func(st *State, t *Thread, a []Value) (Value, int) {
			x := termOf(a[0])
			return smt.Const(x.W, st.concretize(x, 4000, "Fix")), ctlOK
		},
		// SetSeq sets the scheduling noise off: used around set-up code.
		"Preempt": func(st *State, t *Thread, a []Value) (Value, int) {
			st.preempt = int(st.concInt(a[0], "preempt"))
			return nil, ctlOK
		},
		"Timers": func(st *State, t *Thread, a []Value) (Value, int) {
			st.timerBudget = int(st.concInt(a[0], "timers"))
			return nil, ctlOK
		},
		"SameObject": func(st *State, t *Thread, a []Value) (Value, int) {
			x, y := a[0].(SliceV), a[1].(SliceV)
			if x.obj != y.obj || x.c == 0 || y.c == 0 {
				return smt.False, ctlOK
			}
			return smt.Bool(x.off < y.off+y.c*y.es && y.off < x.off+x.c*x.es), ctlOK
		},
	}
}

func (s SliceV) withLen(n int) SliceV { s.n = int32(n); return s }

func (st *State) wgAdd(t *Thread, p Ptr, d int64) {
	v := int64(st.slotU(p)) + d
	if v < 0 {
		panic(goPanic{"sync: negative WaitGroup counter", false})
	}
	if d < 0 {
		st.releaseMerge(t, p)
	}
	st.setSlotU(p, 64, uint64(v))
}

func (st *State) ndKey(name Value) string {
	n := goStr(name.(*StrV))
	return fmt.Sprintf("%s#%d", n, st.names[n])
}

func (st *State) ndVar(key string, w uint8, hi uint64) *smt.Term {
	v := smt.VarMax(fmt.Sprintf("%s/%d/%d", key, w, hi), w, hi)
	return v
}

func (st *State) ndCommit(name Value, key string, t *smt.Term) {
	st.names[goStr(name.(*StrV))]++
	st.nd = append(st.nd, ndRec{key, t})
	if len(t.Vars()) == 0 {
		return
	}
}

func (st *State) nondet(name Value, w uint8, hi uint64) *smt.Term {
	key := st.ndKey(name)
	if hi == 0 {
		v := smt.Const(w, 0)
		st.ndCommit(name, key, v)
		return v
	}
	v := st.ndVar(key, w, hi)
	st.ndCommit(name, key, v)
	return v
}

// ---- time ----

const wallBase = uint64(1)<<63 | uint64(4_000_000_000)<<30

func (st *State) timeValue() Value {
	w := uint64(1)<<63 | (uint64(4_000_000_000)+uint64(st.now/1e9))<<30 | uint64(st.now%1e9)
	return Agg{c64(w), c64(uint64(st.now)), Ptr{}}
}

func (st *State) newTimer(d, period int64) int32 {
	pk := st.e.Pkgs["time"].Pkg
	c := st.newChan(1, pk.Scope().Lookup("Time").Type())
	st.timers = append(st.timers, timerRec{at: st.now + max(d, 0), ch: c, period: period, id: c})
	return c
}

func (st *State) timerObj(typ string, c int32) Value {
	tt := st.e.Pkgs["time"].Pkg.Scope().Lookup(typ).Type()
	id := st.allocType(tt, typ)
	st.storeSlot(id, fieldOff(st, "time", typ, "C"), ChanV{c})
	return Ptr{obj: id}
}

func (st *State) timerChan(v Value) int32 {
	p := ptrArg(v)
	return st.loadSlot(p.obj, p.off).(ChanV).obj
}

func timerStop(st *State, t *Thread, a []Value) (Value, int) {
	c := st.timerChan(a[0])
	for i, r := range st.timers {
		if r.id == c {
			st.timers = append(st.timers[:i:i], st.timers[i+1:]...)
			return smt.True, ctlOK
		}
	}
	o := st.wobj(c)
	had := len(o.ch.buf) > 0
	o.ch.buf = nil // Go 1.23 semantics: no stale value after Stop
	return smt.Bool(had), ctlOK
}

func timerReset(st *State, t *Thread, a []Value) (Value, int) {
	c := st.timerChan(a[0])
	d := st.concInt(a[1], "timer duration")
	for i, r := range st.timers {
		if r.id == c {
			st.timers[i].at = st.now + max(d, 0)
			if r.period > 0 {
				st.timers[i].period = d
			}
			return smt.True, ctlOK
		}
	}
	st.wobj(c).ch.buf = nil
	st.timers = append(st.timers, timerRec{at: st.now + max(d, 0), ch: c, id: c})
	return smt.False, ctlOK
}

// ---- bytes ----

func (st *State) bytesOf(v Value) []*smt.Term {
	switch x := v.(type) {
	case *StrV:
		return x.b
	case SliceV:
		return st.sliceBytes(x)
	}
	panic(unsupported{fmt.Sprintf("bytes of %T", v)})
}

func idxByte(st *State, t *Thread, a []Value) (Value, int) {
	b := st.bytesOf(a[0])
	c := termOf(a[1])
	for i, x := range b {
		if st.decide(smt.Eq(x, c)) {
			return c64(uint64(i)), ctlOK
		}
	}
	return c64(^uint64(0)), ctlOK
}

func cntByte(st *State, t *Thread, a []Value) (Value, int) {
	n := uint64(0)
	c := termOf(a[1])
	for _, x := range st.bytesOf(a[0]) {
		if st.decide(smt.Eq(x, c)) {
			n++
		}
	}
	return c64(n), ctlOK
}

func hasPrefix(st *State, t *Thread, a []Value) (Value, int) {
	x, y := st.bytesOf(a[0]), st.bytesOf(a[1])
	if len(x) < len(y) {
		return smt.False, ctlOK
	}
	return bytesEq(x[:len(y)], y), ctlOK
}

func hasSuffix(st *State, t *Thread, a []Value) (Value, int) {
	x, y := st.bytesOf(a[0]), st.bytesOf(a[1])
	if len(x) < len(y) {
		return smt.False, ctlOK
	}
	return bytesEq(x[len(x)-len(y):], y), ctlOK
}

func cmpBytes(st *State, t *Thread, a []Value) (Value, int) {
	x, y := st.bytesOf(a[0]), st.bytesOf(a[1])
	return smt.Ite(bytesEq(x, y), c64(0), smt.Ite(strLess(x, y), c64(^uint64(0)), c64(1))), ctlOK
}

func idxSub(st *State, t *Thread, a []Value) (Value, int) {
	x, y := st.bytesOf(a[0]), st.bytesOf(a[1])
	for i := 0; i+len(y) <= len(x); i++ {
		if st.decide(bytesEq(x[i:i+len(y)], y)) {
			return c64(uint64(i)), ctlOK
		}
	}
	return c64(^uint64(0)), ctlOK
}

func decRune(st *State, t *Thread, a []Value) (Value, int) {
	b := st.bytesOf(a[0])
	if len(b) == 0 {
		return TupleV{smt.Const(32, 0xFFFD), c64(0)}, ctlOK
	}
	r, n := st.decodeRune(b)
	return TupleV{r, c64(uint64(n))}, ctlOK
}

// bitLen forks over the possible lengths.
func bitLen(st *State, x *smt.Term, w uint64, leading bool) *smt.Term {
	n := uint64(0)
	if x.IsConst() {
		n = uint64(bits.Len64(x.Val))
	} else {
		lo, hi := uint64(0), w
		for lo < hi {
			mid := (lo + hi) / 2
			if st.decide(smt.Ule(x, smt.Const(x.W, 1<<mid-1))) {
				hi = mid
			} else {
				lo = mid + 1
			}
		}
		n = lo
	}
	if leading {
		n = w - n
	}
	return c64(n)
}
