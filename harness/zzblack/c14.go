package zzblack

import (
	"time"

	"github.com/QuangTung97/go-memcache/memcache"
	zz "github.com/QuangTung97/go-memcache/memcache/zzverif"
)

// whole watches that batches arrive whole and pipelines in order.
type whole struct {
	b     *book
	batch int
	n     map[string]int // commands of a pipeline
	open  map[int]string // pipeline whose batch is under way, by connection
	next  map[string]int
	on    map[string]int // connection of a pipeline
	loose bool
}

func (w *whole) request(c *fconn, r *request) string {
	if r.key == "" {
		zz.Assert(r.kind == "version" && w.open[c.id] == "", "a batch is interleaved with another request")
		return okReply(r.kind)
	}
	t := w.b.answer(c, r)
	i := len(r.key) - 1
	for r.key[i] != '.' {
		i--
	}
	p, j := r.key[:i], atoi(r.key[i+1:])
	n, ok := w.n[p]
	zz.Assert(ok && j >= 0 && j < n, "a request nobody issued is sent")
	if x := w.open[c.id]; x != "" && !w.loose {
		zz.Assert(x == p, "requests of two batches are interleaved")
	}
	if w.loose {
		zz.Assert(j >= w.next[p], "requests of a pipeline are out of order")
	} else {
		zz.Assert(j == w.next[p], "requests of a pipeline are out of order")
	}
	if k, ok := w.on[p]; ok && !w.loose {
		zz.Assert(k == c.id, "a pipeline moves to another connection")
	}
	w.on[p] = c.id
	w.next[p] = j + 1
	w.open[c.id] = p
	if (j+1)%w.batch == 0 || j+1 == n {
		w.open[c.id] = ""
	}
	return t
}

// ZZ_C14 has ng goroutines, each with np pipelines of m commands, on one client of the given
// connections. mix: 1 the second pipeline starts before the results of the first are asked
// for, 2 commands are issued through MGetFast and released, 4 values are released, 8 a health
// check falls due, 16 one reply breaks the connection.
func ZZ_C14(ng, np, m, batch, conns, limit, mix, preempt int) {
	s := &server{yield: true}
	w := &whole{b: newBook(), batch: batch, n: map[string]int{}, open: map[int]string{}, next: map[string]int{}, on: map[string]int{}}
	w.b.sym = true
	if limit < 0 {
		limit = zz.IntRange("limit", 1, 3)
	}
	bad := -2
	if mix&16 != 0 {
		bad = zz.IntRange("bad reply", 0, ng*np*m-1)
		w.loose = true
	}
	s.onReq = func(c *fconn, r *request) {
		t := w.request(c, r)
		if w.b.count-1 == bad {
			delete(w.b.want, r.key)
			t = "ERROR\r\n"
		}
		c.sendStr(t)
	}
	opts := []memcache.Option{memcache.WithMaxCommandsPerBatch(batch), memcache.WithWriteLimit(limit)}
	if mix&8 != 0 {
		opts = append(opts, memcache.WithHealthCheckDuration(time.Second))
	}
	cl := newClient(s, conns, opts...)
	if mix&8 != 0 {
		zz.Timers(1)
	}
	zz.Quiesce()
	zz.Preempt(preempt)
	for g := 0; g < ng; g++ {
		for i := 0; i < np; i++ {
			w.n["g"+itoa(g)+"."+itoa(i)] = m
		}
	}
	var left uint32 = 1
	cnt := ng
	for g := 0; g < ng; g++ {
		g := g
		go func() {
			var cs, old []issued
			finish := func() {
				for _, x := range old {
					r := x.f()
					w.b.check(x.key, r)
					if r.err != nil && !w.loose {
						zz.Fail("a command fails although nothing broke: " + r.err.Error())
					}
					if mix&4 != 0 {
						memcache.ReleaseGetResponseData(r.data)
					}
				}
				old = nil
			}
			for i := 0; i < np; i++ {
				name := "g" + itoa(g) + "." + itoa(i)
				p := cl.Pipeline()
				cs = nil
				for j := 0; j < m; j++ {
					key := name + "." + itoa(j)
					kind := (g + i + j) % 3
					if mix&2 != 0 && kind == kGet {
						cs = append(cs, issued{key, kGet, fastGet(p, key)})
						continue
					}
					cs = append(cs, issued{key, kind, issue(p, kind, key)})
				}
				p.Execute()
				if mix&1 == 0 {
					old = cs
					finish()
				} else {
					finish()
					old = cs
				}
			}
			finish()
			cnt--
			if cnt == 0 {
				left = 0
			}
		}()
	}
	for left == 1 {
		zz.Quiesce()
		if left == 1 {
			zz.Fail("a command never completes")
		}
	}
	if !w.loose {
		zz.Assert(w.b.count == ng*np*m, "a command was not sent")
	}
	zz.Cover("done")
}

func fastGet(p *memcache.Pipeline, key string) future {
	f, err := p.MGetFast(key, memcache.MGetOptions{})
	zz.Assert(err == nil, "a valid key is rejected")
	return func() res {
		r, err := f.Result()
		memcache.ReleaseMGetResult(f)
		return res{err: err, typ: int(r.Type), data: r.Data, flags: uint64(r.Flags), cas: r.CAS}
	}
}
