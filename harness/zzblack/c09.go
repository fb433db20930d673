package zzblack

import (
	"errors"
	"time"

	"github.com/QuangTung97/go-memcache/memcache"
	zz "github.com/QuangTung97/go-memcache/memcache/zzverif"
)

const retryWait = 5 * time.Second

// dialLog records every dial.
type dialLog struct {
	s      *server
	at     []int64
	failed []bool
	logged int // errors given to the dial error logger
}

func (d *dialLog) install(s *server) {
	d.s = s
	inner := s.dialErr
	s.dialErr = func(n int) error {
		for _, c := range s.conns {
			zz.Assert(c.closed, "the client dials although its connection is in use")
		}
		var err error
		if inner != nil {
			err = inner(n)
		}
		d.at = append(d.at, zz.Now())
		d.failed = append(d.failed, err != nil)
		return err
	}
}

func (d *dialLog) option() memcache.Option {
	return memcache.WithDialErrorLogger(func(err error) {
		d.logged++
		zz.Assert(errors.Is(err, errDial), "a wrong dial error is logged")
	})
}

// settled checks the dials made once the client has recovered.
func (d *dialLog) settled() {
	s := d.s
	nf := 0
	for i := range d.at {
		zz.Assert(s.addrs[i] == "srv:1", "another address is dialled")
		if d.failed[i] {
			nf++
		}
		// after a failed initial dial the next one is made on first use
		if i >= 2 && d.failed[i-1] {
			w := d.at[i] - d.at[i-1]
			zz.Assert(w >= int64(retryWait) && w < int64(retryWait)+int64(time.Second), "the retry duration is not observed between dials")
			zz.Cover("retry")
		}
	}
	zz.Assert(d.logged == nf, "a dial error is not logged once")
	for i, c := range s.conns {
		if i+1 < len(s.conns) {
			zz.Assert(c.closed, "a broken connection is not closed")
		} else {
			zz.Assert(!c.closed, "the connection in use is closed")
		}
	}
}

func brokenBy(err error) bool {
	return errors.Is(err, errDial) || errors.Is(err, errRead) || errors.Is(err, errWrite) || errors.Is(err, errTimeout)
}

// ZZ_C09 runs steps pipelines of m commands one after the other with any pause before each;
// any one of the first nw writes and of the first nr reads fails, the server falls silent
// at any one of the first ns requests, any of the first nd dials fail.
func ZZ_C09(steps, m, batch, nw, nr, ns, nd int) {
	s := &server{timeout: true}
	b := newBook()
	f := newFaults(0, nr, nd)
	if nw > 0 {
		f.w, f.wn, f.cut = zz.IntRange("failing write", 0, nw), nw, 5*zz.Choice("some bytes arrive", 2)
	}
	f.install(s)
	silent := -1
	if ns > 0 {
		silent = zz.IntRange("silent from", 0, ns)
	}
	d := &dialLog{}
	d.install(s)
	fired := 0
	s.onReq = func(c *fconn, r *request) {
		t := b.answer(c, r)
		n := b.count - 1
		if n < ns && n == silent {
			c.mute = true
			fired++
		}
		if c.mute {
			delete(b.want, r.key)
			return
		}
		c.sendStr(t)
	}
	cl := newClient(s, 1, memcache.WithMaxCommandsPerBatch(batch), memcache.WithRetryDuration(retryWait), d.option())
	// err is the error the last connection was given up for
	var broke error
	if len(s.conns) == 0 {
		broke = errDial
	}
	for i := 0; i < steps; i++ {
		switch zz.Choice("pause", 4) {
		case 1:
			zz.Quiesce()
		case 2:
			time.Sleep(2 * time.Second)
		case 3:
			time.Sleep(retryWait + time.Millisecond)
		}
		zz.Quiesce()
		up := len(s.conns) > 0 && !s.conns[len(s.conns)-1].closed
		cnt := b.count
		nconn := len(s.conns)
		was := fired
		wr, re := f.wrote, f.readErr
		p := cl.Pipeline()
		var cs []issued
		for j := 0; j < m; j++ {
			key := "k" + itoa(i) + "." + itoa(j)
			cs = append(cs, issued{key, j % 3, issue(p, j%3, key)})
		}
		for _, x := range cs {
			r := x.f()
			b.check(x.key, r)
			if r.err != nil {
				zz.Assert(brokenBy(r.err), "a command on a broken connection gets an unrelated error")
			}
			switch {
			case !up && batch >= m:
				zz.Assert(r.err != nil && (errors.Is(r.err, broke) || errors.Is(r.err, errDial)), "a command issued while disconnected does not get the connection's error")
			case fired == was && f.wrote == wr && f.readErr == re:
				if up {
					zz.Assert(r.err == nil, "a command fails on a working connection")
					zz.Assert(b.conn[x.key] == nconn-1, "a command does not use the newest connection")
				}
			}
			if r.err == nil {
				zz.Cover("value")
			} else {
				zz.Cover("error")
				broke = r.err
			}
		}
		if !up && batch >= m {
			zz.Assert(b.count == cnt, "a command issued while disconnected is sent")
			zz.Cover("disconnected")
		}
	}
	f.wn, f.rn = 0, 0
	silent = -2
	zz.Quiesce()
	time.Sleep(time.Duration(nd+1) * retryWait)
	zz.Quiesce()
	for j := 0; j < 2; j++ {
		p := cl.Pipeline()
		key := "last" + itoa(j)
		r := issue(p, kGet, key)()
		zz.Assert(r.err == nil, "a command fails although dialling works again")
		b.check(key, r)
		zz.Assert(b.conn[key] == len(s.conns)-1, "a command does not use the newest connection")
	}
	zz.Quiesce()
	b.kept(s)
	d.settled()
	n := s.dials
	time.Sleep(20 * retryWait)
	zz.Assert(s.dials == n, "the client dials without a failure")
	zz.OutInt("dials", uint64(n))
}

// ZZ_C09_Race has goroutines issuing a pipeline of m commands each while the connection
// breaks and is replaced.
func ZZ_C09_Race(ng, m, nw, nr, nd, preempt int) {
	s := &server{}
	b := newBook()
	s.onReq = b.reply
	f := newFaults(0, nr, nd)
	if nw > 0 {
		f.w, f.wn = zz.IntRange("failing write", 0, nw), nw
	}
	f.install(s)
	d := &dialLog{}
	d.install(s)
	cl := newClient(s, 1, memcache.WithRetryDuration(retryWait), d.option())
	zz.Quiesce()
	zz.Preempt(preempt)
	cnt := ng
	var done uint32
	for g := 0; g < ng; g++ {
		g := g
		go func() {
			for j := 0; j < m; j++ {
				key := "k" + itoa(g) + "." + itoa(j)
				r := issue(cl.Pipeline(), kGet, key)()
				b.check(key, r)
				if r.err != nil {
					zz.Assert(brokenBy(r.err), "a command on a broken connection gets an unrelated error")
				}
			}
			cnt--
			if cnt == 0 {
				done = 1
			}
		}()
	}
	zz.Block(&done)
	zz.Preempt(0)
	f.wn, f.rn = 0, 0
	zz.Quiesce()
	time.Sleep(time.Duration(nd+1) * retryWait)
	zz.Quiesce()
	r := issue(cl.Pipeline(), kGet, "last")()
	zz.Assert(r.err == nil, "a command fails although dialling works again")
	b.check("last", r)
	zz.Assert(b.conn["last"] == len(s.conns)-1, "a command does not use the newest connection")
	zz.Quiesce()
	b.kept(s)
	d.settled()
	if len(s.conns) > 1 {
		zz.Cover("reconnected")
	}
}

// ZZ_C09_Many has n rounds: the connection breaks in one of three ways (or, at the start, the
// initial dial fails), nd dials fail, a dial succeeds and the next command uses its connection.
func ZZ_C09_Many(n, nd int) {
	s := &server{}
	b := newBook()
	failing := zz.Choice("initial dial fails", 2) * (nd + 1)
	s.dialErr = func(int) error {
		if failing > 0 {
			failing--
			return errDial
		}
		return nil
	}
	d := &dialLog{}
	d.install(s)
	how := zz.Choice("how", 3)
	bad := false
	s.onReq = func(c *fconn, r *request) {
		t := b.answer(c, r)
		if bad {
			bad = false
			delete(b.want, r.key)
			switch how {
			case 0:
				c.fail(errRead)
			case 1:
				c.sendStr("ERROR\r\n")
			}
			return
		}
		c.sendStr(t)
	}
	s.writeErr = func(c *fconn, p []byte) (int, error) {
		if bad && how == 2 {
			bad = false
			return 0, errWrite
		}
		return len(p), nil
	}
	cl := newClient(s, 1, memcache.WithRetryDuration(retryWait), d.option())
	ask := func(name string) res {
		r := issue(cl.Pipeline(), kGet, name)()
		b.check(name, r)
		return r
	}
	for i := 0; i < n; i++ {
		if len(s.conns) > 0 || i > 0 {
			bad = true
			failing = nd
			zz.Assert(ask("b"+itoa(i)).err != nil, "a command on a broken connection succeeds")
			zz.Cover("error")
		} else {
			zz.Assert(errors.Is(ask("i"+itoa(i)).err, errDial), "a command issued while disconnected does not get the connection's error")
		}
		zz.Quiesce()
		for k := 0; k < nd; k++ {
			nc := len(s.conns)
			zz.Assert(ask("w"+itoa(i)+"."+itoa(k)).err != nil && len(s.conns) == nc, "a command issued while disconnected succeeds")
			zz.Cover("error")
			time.Sleep(retryWait)
			zz.Quiesce()
		}
		zz.Assert(ask("g"+itoa(i)).err == nil, "a command fails although a dial has succeeded")
		zz.Cover("value")
	}
	d.settled()
	if nd == 0 {
		zz.Cover("retry")
	}
}

// ZZ_C09_Mid breaks the connection after any number of bytes of a reply with a value of vlen
// bytes, the first of np pipelined ones being complete; the replies that come on the next
// connection, to gets of values of several lengths, are decoded exactly.
func ZZ_C09_Mid(np, vlen int) {
	lens := [...]int{vlen, 0, vlen + 3, 1}
	value := func(i, n int) (string, string) {
		v := string(pattern(n, i))
		return v, "VA " + itoa(n) + " c" + itoa(90+i) + "\r\n" + v + "\r\n"
	}
	_, cutText := value(0, vlen)
	if zz.Choice("kind", 2) == 1 {
		cutText = "SERVER_ERROR out of memory\r\n"
	}
	cut := zz.Choice("cut", len(cutText))
	pieces := zz.Choice("pieces", 2)
	s := &server{}
	if pieces == 1 {
		s.readCut = func(c *fconn, avail int) int { return 1 }
	}
	next := 0
	s.onReq = func(c *fconn, r *request) {
		if c.id > 0 {
			_, t := value(next, lens[next%len(lens)])
			next++
			c.sendStr(t)
			return
		}
		switch n := len(c.reqs); {
		case n < np:
			_, t := value(n, vlen)
			c.sendStr(t)
		case n == np:
			c.sendStr(cutText[:cut])
			c.rdErr = errRead
			c.ready = 1
		}
	}
	cl := newClient(s, 1, memcache.WithRetryDuration(retryWait))
	p := cl.Pipeline()
	fs := make([]future, np)
	for i := range fs {
		fs[i] = issue(p, kGet, "k"+itoa(i))
	}
	for i := range fs {
		zz.Assert(i+1 < np || fs[i]().err != nil, "a command whose reply is cut short succeeds")
	}
	zz.Quiesce()
	for round := 0; round < 3; round++ {
		p := cl.Pipeline()
		for i := range fs {
			fs[i] = issue(p, kGet, "n"+itoa(i))
		}
		for i := range fs {
			k := round*np + i
			v, _ := value(k, lens[k%len(lens)])
			r := fs[i]()
			zz.Assert(r.err == nil && string(r.data) == v && r.cas == uint64(90+k), "a reply on the new connection is not decoded exactly")
			zz.Cover("value")
		}
	}
}
