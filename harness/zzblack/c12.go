package zzblack

import (
	"github.com/QuangTung97/go-memcache/memcache"
	zz "github.com/QuangTung97/go-memcache/memcache/zzverif"
)

// ZZ_C12 runs every program of steps steps: a pipeline of 1, 2, .. or long batches is
// published, or the server answers 1 to maxAns replies; the order of batches is checked.
func ZZ_C12(steps, long, batch, maxLimit, maxAns, warm int) {
	limit := zz.IntRange("limit", batch, maxLimit)
	w := newWindow(limit)
	cl := newClient(w.s, 1, memcache.WithMaxCommandsPerBatch(batch), memcache.WithWriteLimit(limit))
	var all []issued
	var total []int // batches of a pipeline
	var pub []int   // Writes seen when it was published
	add := func(n int) {
		all = append(all, w.publish(cl, len(total), n*batch, batch)...)
		total = append(total, n)
		pub = append(pub, w.chunks)
		zz.Quiesce()
	}
	if warm > 0 {
		add(warm)
	}
	for i := 0; i < steps; i++ {
		op := zz.Choice("op", long+maxAns)
		if op < long {
			add(op + 1)
			continue
		}
		c := w.last()
		n := op - long + 1
		if len(w.held[c.id]) < n {
			zz.Kill()
		}
		w.release(c, n)
		zz.Quiesce()
	}
	w.drain()
	for _, x := range all {
		r := x.f()
		w.b.check(x.key, r)
		zz.Assert(r.err == nil, "a delayed command fails")
	}
	// every batch exactly once, in order: window.request and this
	n := 0
	for p := range total {
		n += total[p]
		zz.Assert(w.next[p] == total[p]*batch, "a command is not sent")
	}
	zz.Assert(len(w.seq) == n, "a batch is not sent exactly once")
	w.fair(total, pub)
	zz.Cover("complete")
}

// fair checks the order in which batches were sent.
func (w *window) fair(total, pub []int) {
	// turn[p]: position of the last batch of p, -1 before its first
	turn := make([]int, len(total))
	for p := range turn {
		turn[p] = -1
	}
	for i, x := range w.seq {
		if x.batch > 0 {
			for q := range total {
				if q != x.pipe && turn[q] >= 0 && w.seq[turn[q]].batch+1 < total[q] {
					zz.Assert(turn[q] > turn[x.pipe], "a continuing pipeline is passed over")
					zz.Cover("rotation")
				}
			}
		}
		turn[x.pipe] = i
	}
	for p := range total {
		// what was under way when p was published came with the next Write
		firsts, conts := 0, 0
		for i, x := range w.seq {
			if w.chunk[i] <= pub[p]+1 {
				if x.pipe == p {
					break
				}
				continue
			}
			if x.pipe == p {
				if conts > 0 {
					zz.Cover("alternation")
				}
				break
			}
			if x.batch == 0 {
				firsts++
			} else {
				conts++
			}
			zz.Assert(conts <= firsts, "a waiting pipeline is held up by long ones")
		}
	}
}

// ZZ_C12_Mixed publishes pipelines of different sizes. First nlong pipelines of batch+1
// commands wait behind a full window and are answered until only their continuations wait;
// then any program of steps steps follows: publish 1, batch or batch+1 commands, answer 1
// or batch commands, let the following Writes stall or go on.
func ZZ_C12_Mixed(steps, nlong, batch, maxLimit int) {
	limit := zz.IntRange("limit", batch, maxLimit)
	w := newWindow(limit)
	var open uint32 = 1
	w.s.beforeWrite = func(c *fconn, p []byte) { zz.Block(&open) }
	cl := newClient(w.s, 1, memcache.WithMaxCommandsPerBatch(batch), memcache.WithWriteLimit(limit))
	var all []issued
	var total, cmds, pub []int
	add := func(n int) {
		all = append(all, w.publish(cl, len(total), n, batch)...)
		cmds = append(cmds, n)
		total = append(total, (n+batch-1)/batch)
		pub = append(pub, w.chunks)
		zz.Quiesce()
	}
	answer := func(n int) bool {
		c := w.last()
		if len(w.held[c.id]) < n {
			return false
		}
		w.release(c, n)
		zz.Quiesce()
		return true
	}
	if nlong > 0 {
		add(batch)
		open = 0 // all of them arrive during one Write
		add(1)
		for i := 0; i < nlong; i++ {
			add(batch + 1)
		}
		open = 1
		zz.Quiesce()
		for i := 0; ; i++ {
			n := 0
			for p := range total {
				if w.next[p] > 0 {
					n++
				}
			}
			if n == len(total) {
				break
			}
			answer(1)
		}
	}
	for i := 0; i < steps; i++ {
		switch zz.Choice("op", 6) {
		case 0:
			add(1)
		case 1:
			add(batch)
		case 2:
			add(batch + 1)
		case 3:
			if !answer(1) {
				zz.Kill()
			}
		case 4:
			if !answer(batch) {
				zz.Kill()
			}
		case 5:
			if i == steps-1 {
				zz.Kill()
			}
			open ^= 1
			zz.Quiesce()
		}
	}
	open = 1
	w.drain()
	for _, x := range all {
		r := x.f()
		w.b.check(x.key, r)
		zz.Assert(r.err == nil, "a delayed command fails")
	}
	n := 0
	for p := range total {
		n += total[p]
		zz.Assert(w.next[p] == cmds[p], "a command is not sent")
	}
	zz.Assert(len(w.seq) == n, "a batch is not sent exactly once")
	w.fair(total, pub)
	zz.Cover("complete")
}
