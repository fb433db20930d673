package zzblack

import (
	"errors"
	"time"

	"github.com/QuangTung97/go-memcache/memcache"
	zz "github.com/QuangTung97/go-memcache/memcache/zzverif"
)

// atClose checks what must hold the moment Close returns.
func atClose(s *server) {
	zz.Assert(s.dialing == 0, "Close returns while a dial is under way")
	for _, c := range s.conns {
		zz.Assert(c.closed, "Close returns before a connection is closed")
	}
}

// afterClose checks what must hold from the moment Close has returned.
func afterClose(s *server, b *book, cl *memcache.Client, n, batch int) {
	zz.Quiesce()
	zz.Assert(zz.Live() == 1, "a goroutine outlives Close")
	for _, c := range s.conns {
		zz.Assert(c.closed, "a connection outlives Close")
	}
	dials, cnt, w := s.dials, b.count, 0
	for _, c := range s.conns {
		w += c.writes
	}
	p := cl.Pipeline()
	var cs []issued
	for j := 0; j < n; j++ {
		key := "z" + itoa(j)
		cs = append(cs, issued{key, j % 3, issue(p, j%3, key)})
	}
	for _, x := range cs {
		r := x.f()
		zz.Assert(errors.Is(r.err, memcache.ErrConnClosed) && noValue(r), "a command issued after Close does not get the connection-closed error")
	}
	time.Sleep(time.Minute)
	for _, c := range s.conns {
		w -= c.writes
	}
	zz.Assert(s.dials == dials && b.count == cnt && w == 0, "the client dials or writes after Close")
	zz.Assert(zz.Live() == 1, "a goroutine outlives Close")
}

// ZZ_C10 closes the client in any of these situations:
//
//	0 idle, never used     1 idle, used           2 m commands issued, results not asked for
//	3 commands sent, the server silent until it times out
//	4 connection broken, reconnected              5 reconnect dial failed: retry wait
//	6 commands issued on a broken connection      7 in the middle of health checks
//	8 a dial under way, which then fails or not
//	9 commands sent or waiting for the write limit, answered only after Close has begun
func ZZ_C10(conns, m, batch, limit, n int) {
	how := zz.Choice("situation", 10)
	s := &server{timeout: true}
	b := newBook()
	failInit := zz.Choice("initial dial fails", 2)
	broken := false
	s.dialErr = func(i int) error {
		if failInit == 1 && i == 0 || broken {
			return errDial
		}
		return nil
	}
	silent := how == 3
	held := how == 9
	late := func() {
		for _, c := range s.conns {
			t := c.held
			c.held = ""
			if t != "" {
				c.sendStr(t)
			}
		}
	}
	s.onReq = func(c *fconn, r *request) {
		t := b.answer(c, r)
		if silent {
			delete(b.want, r.key)
			return
		}
		if held {
			c.held += t
			return
		}
		c.sendStr(t)
	}
	opts := []memcache.Option{memcache.WithMaxCommandsPerBatch(batch), memcache.WithWriteLimit(limit), memcache.WithRetryDuration(retryWait)}
	if how == 7 {
		opts = append(opts, memcache.WithHealthCheckDuration(time.Second))
	}
	cl := newClient(s, conns, opts...)
	var cs []issued
	var ps []*memcache.Pipeline
	use := func(name string, ask bool) {
		for k := 0; k < conns; k++ {
			p := cl.Pipeline()
			ps = append(ps, p)
			for j := 0; j < m; j++ {
				key := name + itoa(k) + "." + itoa(j)
				x := issued{key, j % 3, issue(p, j%3, key)}
				if ask {
					b.check(key, x.f())
				} else {
					cs = append(cs, x)
				}
			}
		}
	}
	fail := func() {
		for _, c := range s.conns {
			if !c.closed {
				c.fail(errRead)
			}
		}
		use("f", true)
	}
	switch how {
	case 1:
		use("u", true)
	case 2, 3:
		use("i", false)
		for _, p := range ps {
			p.Execute()
		}
	case 4:
		fail()
		zz.Quiesce()
		use("u", true)
	case 5:
		broken = true
		fail()
		zz.Quiesce()
		time.Sleep(time.Duration(zz.Choice("seconds into the wait", 5)) * time.Second)
	case 6:
		broken = true
		fail()
		use("i", false)
		for _, p := range ps {
			p.Execute()
		}
	case 7:
		time.Sleep(time.Duration(zz.Choice("ms", 5)*500) * time.Millisecond)
	case 8:
		s.dialTime = 2 * time.Second
		fail()
		zz.Quiesce()
		time.Sleep(time.Second)
		broken = zz.Choice("the dial fails", 2) == 1
	}
	if how == 9 {
		use("h", false)
		for _, p := range ps {
			p.Execute()
		}
		if zz.Choice("sent before Close", 2) == 1 {
			zz.Quiesce()
		}
		once := zz.Choice("then answered at once", 2) == 1
		go func() {
			time.Sleep(100 * time.Millisecond)
			held = !once
			for k := 0; k <= conns*(m+2); k++ {
				late()
				time.Sleep(time.Millisecond)
			}
			held = false
			late()
		}()
	}
	was := zz.Now()
	dials := s.dials
	zz.Assert(cl.Close() == nil, "Close fails")
	atClose(s)
	if how == 5 {
		zz.Assert(s.dials == dials, "Close cuts the retry wait short and dials")
	}
	max := 3 * time.Second
	if how == 3 && m > limit && limit > 0 {
		max += time.Duration(m) * time.Second // what waits for the limit is sent and times out later
	}
	zz.Assert(zz.Now()-was <= int64(max), "Close takes too long")
	for _, x := range cs {
		r := x.f()
		b.check(x.key, r)
		if (how == 2 || how == 9) && failInit == 0 {
			zz.Assert(r.err == nil, "a command issued before Close is not answered")
		}
	}
	if how == 9 {
		time.Sleep(2 * time.Second) // the goroutine that answers ends
	}
	afterClose(s, b, cl, n, batch)
	if zz.Choice("again", 2) == 1 {
		zz.Assert(cl.Close() == nil, "a second Close fails")
		afterClose(s, b, cl, 0, batch)
	}
	zz.Cover("closed")
}

// ZZ_C10_Race closes the client from nc goroutines while ng goroutines issue a pipeline
// of m commands each, a write, a read or a reconnect dial fails and, if health is 1, a
// health check is due at any moment.
func ZZ_C10_Race(nc, ng, m, nw, nr, nd, health, preempt int) {
	s := &server{yield: true}
	b := newBook()
	s.onReq = b.reply
	f := newFaults(0, nr, nd)
	if nw > 0 {
		f.w, f.wn = zz.IntRange("failing write", 0, nw), nw
	}
	f.install(s)
	var at []int64
	inner := s.dialErr
	s.dialErr = func(n int) error {
		err := inner(n)
		at = append(at, zz.Now())
		if n >= 2 && f.dialFailed(n-1) {
			zz.Assert(at[n]-at[n-1] >= int64(retryWait), "the retry duration is not observed between dials")
		}
		return err
	}
	opts := []memcache.Option{memcache.WithMaxCommandsPerBatch(1), memcache.WithWriteLimit(2), memcache.WithRetryDuration(retryWait)}
	if health == 1 {
		opts = append(opts, memcache.WithHealthCheckDuration(time.Second))
	}
	cl := newClient(s, 1, opts...)
	zz.Quiesce()
	zz.Preempt(preempt)
	zz.Timers(health)
	var done uint32
	cnt := ng + nc
	end := func() {
		cnt--
		if cnt == 0 {
			done = 1
		}
	}
	closed := false
	for g := 0; g < ng; g++ {
		g := g
		go func() {
			late := closed
			p := cl.Pipeline()
			var cs []issued
			for j := 0; j < m; j++ {
				key := "k" + itoa(g) + "." + itoa(j)
				cs = append(cs, issued{key, kGet, issue(p, kGet, key)})
			}
			for _, x := range cs {
				r := x.f()
				b.check(x.key, r)
				if late {
					zz.Assert(errors.Is(r.err, memcache.ErrConnClosed), "a command issued after Close does not get the connection-closed error")
				}
				if r.err != nil {
					zz.Assert(errors.Is(r.err, memcache.ErrConnClosed) || brokenBy(r.err), "a command gets an unrelated error")
				}
			}
			end()
		}()
	}
	for g := 0; g < nc; g++ {
		go func() {
			zz.Assert(cl.Close() == nil, "Close fails")
			closed = true
			atClose(s)
			dials := s.dials
			zz.Quiesce()
			zz.Assert(s.dials == dials, "the client dials after Close has returned")
			for _, c := range s.conns {
				zz.Assert(c.closed, "a connection outlives Close")
			}
			end()
		}()
	}
	zz.Block(&done)
	zz.Preempt(0)
	zz.Timers(0)
	afterClose(s, b, cl, 2, 1)
	zz.Cover("closed")
}
