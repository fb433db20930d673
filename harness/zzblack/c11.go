package zzblack

import (
	"io"

	"github.com/QuangTung97/go-memcache/memcache"
	zz "github.com/QuangTung97/go-memcache/memcache/zzverif"
)

// cmdInfo is what the harness knows of an issued command.
type cmdInfo struct {
	pipe, index int // position in its pipeline
	batch       int // number of its batch within the pipeline
	size        int // commands in the batch
	first       bool
}

// window is a server that holds its replies back and watches the order of requests.
type window struct {
	s     *server
	b     *book
	limit int
	info  map[string]cmdInfo
	held  map[int][]string // replies not sent yet, by connection
	start map[string]int   // where in the stream of its connection a reply starts
	next  map[int]int      // next index by pipeline
	loose bool             // a connection was broken: commands may be missing
	auto  bool             // reply at once

	seq    []cmdInfo // first request of every batch, in the order received
	chunk  []int     // number of the Write it came with
	chunks int
}

func newWindow(limit int) *window {
	w := &window{s: &server{}, b: newBook(), limit: limit, info: map[string]cmdInfo{}, held: map[int][]string{}, start: map[string]int{}, next: map[int]int{}}
	w.s.onReq = w.request
	w.s.onWrite = func(c *fconn, p []byte) { w.chunks++ }
	return w
}

func (w *window) request(c *fconn, r *request) {
	t := w.b.answer(c, r)
	x, ok := w.info[r.key]
	zz.Assert(ok, "a request nobody issued is sent")
	if w.loose {
		zz.Assert(x.index >= w.next[x.pipe], "commands of a pipeline are sent out of order")
	} else {
		zz.Assert(x.index == w.next[x.pipe], "commands of a pipeline are sent out of order")
	}
	w.next[x.pipe] = x.index + 1
	if x.first {
		w.seq = append(w.seq, x)
		w.chunk = append(w.chunk, w.chunks)
	}
	// commands whose batch has begun to be answered
	answered := 0
	for _, q := range c.reqs {
		y := w.info[q.key]
		if y.first {
			at, ok := w.start[q.key]
			if ok && at < c.consumed() {
				answered += y.size
			}
		}
	}
	if x.size <= w.limit {
		zz.Assert(r.n+1-answered <= w.limit, "more commands are unanswered than the write limit allows")
		zz.Cover("within")
	} else {
		zz.Cover("oversize")
	}
	w.held[c.id] = append(w.held[c.id], t)
	if w.auto {
		w.release(c, 1)
	}
}

// release sends n held replies.
func (w *window) release(c *fconn, n int) {
	h := w.held[c.id]
	for n > 0 && len(h) > 0 {
		done := len(c.reqs) - len(h)
		w.start[c.reqs[done].key] = c.total
		c.sendStr(h[0])
		h = h[1:]
		n--
	}
	w.held[c.id] = h
}

// begin sends the first byte of the next held reply.
func (w *window) begin(c *fconn) bool {
	h := w.held[c.id]
	if len(h) == 0 || len(h[0]) < 3 {
		return false
	}
	done := len(c.reqs) - len(h)
	k := c.reqs[done].key
	if _, ok := w.start[k]; ok {
		return false
	}
	w.start[k] = c.total
	c.sendStr(h[0][:1])
	h[0] = h[0][1:]
	return true
}

func (w *window) last() *fconn { return w.s.conns[len(w.s.conns)-1] }

// publish issues a pipeline of n commands, cut into batches of the given size.
func (w *window) publish(cl *memcache.Client, id, n, batch int) []issued {
	p := cl.Pipeline()
	var cs []issued
	for j := 0; j < n; j++ {
		key := "p" + itoa(id) + "." + itoa(j)
		size := batch
		if j/batch == n/batch {
			size = n % batch
		}
		w.info[key] = cmdInfo{pipe: id, index: j, batch: j / batch, size: size, first: j%batch == 0}
		cs = append(cs, issued{key, kGet, issue(p, kGet, key)})
	}
	p.Execute()
	return cs
}

// drain answers everything until no request comes anymore.
func (w *window) drain() {
	for i := 0; ; i++ {
		zz.Quiesce()
		c := w.last()
		if len(w.held[c.id]) == 0 {
			return
		}
		w.release(c, 1000)
	}
}

// ZZ_C11 runs every program of steps steps: a pipeline of 1 to maxn commands is published,
// the server answers one, all or a part of a reply, the connection breaks.
func ZZ_C11(steps, maxn, batch, maxLimit, breaks int) {
	limit := zz.IntRange("limit", 1, maxLimit)
	w := newWindow(limit)
	cl := newClient(w.s, 1, memcache.WithMaxCommandsPerBatch(batch), memcache.WithWriteLimit(limit))
	var all []issued
	np := 0
	for i := 0; i < steps; i++ {
		op := zz.Choice("op", maxn+3+breaks)
		c := w.last()
		switch {
		case op < maxn:
			all = append(all, w.publish(cl, np, op+1, batch)...)
			np++
		case op == maxn+3:
			w.loose = true
			for k := range c.reqs {
				if k >= len(c.reqs)-len(w.held[c.id]) {
					delete(w.b.want, c.reqs[k].key)
				}
			}
			w.held[c.id] = nil
			c.fail(io.EOF)
		case len(w.held[c.id]) == 0:
			zz.Kill()
		case op == maxn:
			w.release(c, 1)
		case op == maxn+1:
			if len(w.held[c.id]) == 1 {
				zz.Kill()
			}
			w.release(c, 1000)
		default:
			if !w.begin(c) {
				zz.Kill()
			}
		}
		zz.Quiesce()
	}
	w.drain()
	for _, x := range all {
		r := x.f()
		w.b.check(x.key, r)
		if !w.loose {
			zz.Assert(r.err == nil, "a delayed command fails")
		}
	}
	zz.Cover("complete")
}

// ZZ_C11_Race has ng goroutines publishing pipelines of m commands while the server
// answers at once or after the fact.
func ZZ_C11_Race(ng, m, batch, maxLimit, auto, preempt int) {
	limit := zz.IntRange("limit", 1, maxLimit)
	w := newWindow(limit)
	w.s.yield = true
	w.auto = auto == 1
	cl := newClient(w.s, 1, memcache.WithMaxCommandsPerBatch(batch), memcache.WithWriteLimit(limit))
	zz.Quiesce()
	zz.Preempt(preempt)
	cnt := ng
	var done uint32
	for g := 0; g < ng; g++ {
		g := g
		go func() {
			for _, x := range w.publish(cl, g, m, batch) {
				r := x.f()
				zz.Assert(r.err == nil, "a delayed command fails")
				w.b.check(x.key, r)
			}
			cnt--
			if cnt == 0 {
				done = 1
			}
		}()
	}
	if auto == 0 {
		go func() {
			for done == 0 {
				zz.Quiesce()
				c := w.last()
				if len(w.held[c.id]) == 0 && done == 0 {
					zz.Fail("commands are not sent although everything is answered")
				}
				w.release(c, 1+zz.Choice("answers", 2))
			}
		}()
	}
	zz.Block(&done)
	zz.Cover("complete")
}
