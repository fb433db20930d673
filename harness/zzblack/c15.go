package zzblack

import (
	"time"

	"github.com/QuangTung97/go-memcache/memcache"
	zz "github.com/QuangTung97/go-memcache/memcache/zzverif"
)

// ZZ_C15_New: a number of connections that is not positive is rejected, any other is opened.
func ZZ_C15_New(hi int) {
	n := int(zz.U64("n"))
	zz.Assume(n <= hi)
	s := &server{}
	s.onReq = replyOK
	cl, err := memcache.New("srv:1", n, memcache.WithDialFunc(s.dial), memcache.WithDialErrorLogger(func(error) {}))
	if n <= 0 {
		zz.Assert(err != nil && cl == nil, "a number of connections that is not positive is accepted")
		zz.Assert(s.dials == 0, "a rejected client opens a connection")
		zz.Cover("rejected")
		return
	}
	zz.Assert(err == nil && s.dials == n, "the client does not open the requested number of connections")
	for _, x := range s.addrs {
		zz.Assert(x == "srv:1", "the client dials another address")
	}
	zz.Cover("opened")
}

// rota records which connection carries what.
type rota struct {
	s     *server
	pipe  map[string]int // connection of a key
	count []int          // requests in this period, by connection
	vers  []int          // version requests in this period
}

func newRota(n int) *rota {
	r := &rota{s: &server{}, pipe: map[string]int{}, count: make([]int, n), vers: make([]int, n)}
	r.s.onReq = func(c *fconn, q *request) {
		r.count[c.id]++
		if q.key == "" {
			r.vers[c.id]++
		} else {
			r.pipe[q.key] = c.id
		}
		replyOK(c, q)
	}
	return r
}

// ZZ_C15 runs periods health-check periods on n connections, each with up to maxPipes
// pipelines of one to three commands, some pipelines without commands in between; warm
// pipelines run before.
func ZZ_C15(n, periods, maxPipes, warm int) {
	r := newRota(n)
	const d = time.Minute
	cl := newClient(r.s, n, memcache.WithHealthCheckDuration(d), memcache.WithMaxCommandsPerBatch(1))
	k := 0
	run := func(m int) int {
		p := cl.Pipeline()
		var fs []future
		var keys []string
		for j := 0; j < m; j++ {
			key := "k" + itoa(k)
			k++
			keys = append(keys, key)
			fs = append(fs, issue(p, j%3, key))
		}
		p.Execute()
		for j, f := range fs {
			zz.Assert(isOK(j%3, f()), "a command fails")
		}
		for _, key := range keys {
			zz.Assert(r.pipe[key] == r.pipe[keys[0]], "a pipeline uses two connections")
		}
		return r.pipe[keys[0]]
	}
	for i := 0; i < warm; i++ {
		run(1)
	}
	if warm > 0 {
		time.Sleep(d)
		zz.Quiesce()
	}
	for i := 0; i < periods; i++ {
		for j := range r.count {
			r.count[j], r.vers[j] = 0, 0
		}
		np := zz.Choice("pipelines", maxPipes+1)
		var used []int
		idle, size := zz.Choice("idle pipeline", 3), zz.Choice("commands", 3)
		for j := 0; j < np; j++ {
			switch idle {
			case 1:
				cl.Pipeline().Finish()
			case 2:
				q := cl.Pipeline()
				_, err := q.MGet("", memcache.MGetOptions{})()
				zz.Assert(err != nil, "an empty key is accepted")
				q.Execute()
			}
			used = append(used, run(1+(size+j)%3))
		}
		for j, c := range used {
			for x := 1; x < n && j+x < np; x++ {
				zz.Assert(used[j+x] != c, "successive pipelines do not use the connections in rotation")
			}
			if j+n < np {
				zz.Assert(used[j+n] == c, "successive pipelines do not use the connections in rotation")
			}
		}
		time.Sleep(d)
		zz.Quiesce()
		for j := range r.count {
			zz.Assert(r.count[j] > 0, "a connection stays silent for a whole period")
			hit := false
			for _, c := range used {
				hit = hit || c == j
			}
			if hit {
				zz.Assert(r.vers[j] == 0, "a connection the rotation reached is checked as well")
			} else {
				zz.Assert(r.vers[j] == 1, "a connection the rotation did not reach gets not exactly one version request")
				zz.Cover("checked")
			}
		}
		if np >= n {
			zz.Cover("busy")
		}
	}
	zz.Assert(cl.Close() == nil, "Close fails")
	zz.Assert(len(r.s.conns) == n, "the client does not keep the requested number of connections")
	zz.Cover("done")
}

// ZZ_C15_Broken: the connections whose initial dial failed, that break, or that never answer
// do not keep the others from being checked.
func ZZ_C15_Broken(n, periods int) {
	r := newRota(n)
	bad := zz.IntRange("bad connection", 0, n-1)
	how := zz.Choice("how", 4)
	onReq := r.s.onReq
	r.s.timeout = true
	r.s.onReq = func(c *fconn, q *request) {
		if c.id == bad && how == 1 {
			c.fail(errRead)
		}
		if c.id == bad && how == 2 { // never answers: the read times out
			r.count[c.id]++
			return
		}
		if c.id == bad && how == 3 {
			r.count[c.id]++
			c.sendStr("ERROR\r\n")
			return
		}
		if c.id >= n { // a replacement
			r.count[bad]++
			replyOK(c, q)
			return
		}
		onReq(c, q)
	}
	if how == 0 {
		r.s.dialErr = func(k int) error {
			if k == bad {
				return errDial
			}
			return nil
		}
		r.s.onReq = func(c *fconn, q *request) {
			// connections are numbered without the failed one
			r.count[0]++
			replyOK(c, q)
		}
	}
	cl := newClient(r.s, n, memcache.WithHealthCheckDuration(time.Minute))
	for i := 0; i < periods; i++ {
		for _, c := range r.s.conns {
			c.reqs = nil
		}
		time.Sleep(time.Minute + 5*time.Second)
		zz.Quiesce()
		for j, c := range r.s.conns {
			if !c.closed && (j != bad || how == 0) && j < n && i == 0 {
				zz.Assert(how == 0 && j == n-1 || len(c.reqs) == 1, "a healthy connection is not checked exactly once")
			}
		}
	}
	alive := 0
	for _, c := range r.s.conns {
		if !c.closed {
			alive++
		}
	}
	zz.Assert(alive == n, "a broken connection is not found by the health check and replaced")
	zz.Assert(cl.Close() == nil, "Close fails")
	zz.Cover("done")
}

// ZZ_C15_Race has ng goroutines with np pipelines each on n connections.
func ZZ_C15_Race(ng, np, n, preempt int) {
	r := newRota(n)
	r.s.yield = true
	cl := newClient(r.s, n)
	zz.Quiesce()
	zz.Preempt(preempt)
	var left uint32 = 1
	cnt := ng
	for g := 0; g < ng; g++ {
		g := g
		go func() {
			for i := 0; i < np; i++ {
				p := cl.Pipeline()
				a := "a" + itoa(g) + "." + itoa(i)
				b := "b" + itoa(g) + "." + itoa(i)
				x, y := issue(p, kGet, a), issue(p, kDel, b)
				zz.Assert(isOK(kGet, x()) && isOK(kDel, y()), "a command fails")
				z := issue(p, kSet, b)
				c := r.pipe[b]
				zz.Assert(isOK(kSet, z()), "a command fails")
				zz.Assert(r.pipe[a] == c && r.pipe[b] == c, "a pipeline uses two connections")
			}
			cnt--
			if cnt == 0 {
				left = 0
			}
		}()
	}
	for left == 1 {
		zz.Quiesce()
		if left == 1 {
			zz.Fail("a command never completes")
		}
	}
	lo, hi := r.count[0], r.count[0]
	for _, c := range r.count {
		if c < lo {
			lo = c
		}
		if c > hi {
			hi = c
		}
	}
	zz.Assert(hi-lo <= 3, "concurrent pipelines do not use the connections in rotation")
	zz.Cover("done")
}
