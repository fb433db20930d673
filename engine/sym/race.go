package sym

import "fmt"

// shadowCell records the last accesses of one slot.
type shadowCell struct {
	wt, wc int32 // last writer thread and its clock; wc 0 = none
	rd     []int32
	wpos   string
}

func vcGet(v []int32, i int) int32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func vcJoin(a, b []int32) []int32 {
	if len(b) == 0 {
		return a
	}
	r := append([]int32(nil), a...)
	for len(r) < len(b) {
		r = append(r, 0)
	}
	for i, x := range b {
		if x > r[i] {
			r[i] = x
		}
	}
	return r
}

func (st *State) vcFork(t, nt *Thread) {
	nt.vc = vcJoin(nt.vc, t.vc)
	t.vc = vcJoin(t.vc, nil)
	st.tick(t)
}

func (st *State) tick(t *Thread) {
	t.vc = append([]int32(nil), t.vc...)
	t.vc[t.id]++
}

func (st *State) acquire(t *Thread, p Ptr) {
	if !st.race {
		return
	}
	t.vc = vcJoin(t.vc, st.sync[p])
}

func (st *State) release(t *Thread, p Ptr) {
	if !st.race {
		return
	}
	st.sync[p] = vcJoin(st.sync[p], t.vc)
	st.tick(t)
}

func (st *State) releaseMerge(t *Thread, p Ptr) { st.release(t, p) }

// raceAccess checks an access of n slots at p against the happens-before order.
func (st *State) raceAccess(p Ptr, n int, write bool) {
	if p.obj == 0 || p.obj < st.e.baseObjs && !write {
		return
	}
	t := st.thread()
	if len(st.thr) == 1 {
		return
	}
	if f := t.frames[len(t.frames)-1]; f.fi.fn.Pkg != nil && st.e.isHarnessFn(f.fi) {
		return
	}
	o := st.wobj(p.obj)
	for len(o.shadow) < int(p.off)+n {
		if len(o.shadow) >= o.n && o.n > 0 {
			break
		}
		o.shadow = append(o.shadow, shadowCell{})
	}
	for i := int(p.off); i < int(p.off)+n && i < len(o.shadow); i++ {
		c := &o.shadow[i]
		if c.wc > 0 && int(c.wt) != t.id && vcGet(t.vc, int(c.wt)) < c.wc {
			st.raceReport(o, c, write)
		}
		if write {
			for r, rc := range c.rd {
				if rc > 0 && r != t.id && vcGet(t.vc, r) < rc {
					st.raceReport(o, c, write)
				}
			}
			c.wt, c.wc, c.rd = int32(t.id), t.vc[t.id], nil
			c.wpos = t.frames[len(t.frames)-1].fi.fn.Name()
		} else {
			if vcGet(c.rd, t.id) != t.vc[t.id] {
				rd := append([]int32(nil), c.rd...)
				for len(rd) <= t.id {
					rd = append(rd, 0)
				}
				rd[t.id] = t.vc[t.id]
				c.rd = rd
			}
		}
	}
}

func (st *State) raceReport(o *Object, c *shadowCell, write bool) {
	k := "read"
	if write {
		k = "write"
	}
	f := st.frame().fi.fn.Name()
	st.violate("race", fmt.Sprintf("data race: unordered %s of %s in %s (last write in %q)", k, o.site, f, c.wpos))
}

// isHarnessFn tells functions of the harness (overlay files) from the code under test.
func (e *Engine) isHarnessFn(fi *fnInfo) bool { return fi.harness }
