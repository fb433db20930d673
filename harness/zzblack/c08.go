package zzblack

import (
	"bytes"
	"errors"
	"io"
	"time"

	"github.com/QuangTung97/go-memcache/memcache"
	zz "github.com/QuangTung97/go-memcache/memcache/zzverif"
)

// faults makes the server misbehave at symbolic points: the w-th write, the r-th read and
// any of the first d dials fail.
type faults struct {
	w, r           int // symbolic; the number of the failing operation
	wn, rn         int
	cut            int // bytes of the failing write that arrive
	dial           []bool
	afterData      bool
	writes, reads  int
	wrote, readErr bool
}

func newFaults(nw, nr, nd int) *faults {
	f := &faults{wn: nw, rn: nr}
	f.w = zz.IntRange("failing write", 0, nw)
	f.r = zz.IntRange("failing read", 0, nr)
	if nw > 0 {
		f.cut = zz.IntRange("bytes of the failing write", 0, 60)
	}
	for i := 0; i < nd; i++ {
		f.dial = append(f.dial, zz.Bool("dial fails"))
	}
	return f
}

func (f *faults) dialFailed(n int) bool { return n < len(f.dial) && f.dial[n] }

func (f *faults) install(s *server) {
	s.dialErr = func(n int) error {
		if n < len(f.dial) && f.dial[n] {
			return errDial
		}
		return nil
	}
	s.writeErr = func(c *fconn, b []byte) (int, error) {
		i := f.writes
		f.writes++
		if i < f.wn && i == f.w {
			n := 0
			for n < len(b) && n < f.cut {
				n++
			}
			if n == len(b) {
				zz.Kill() // a complete write is no failure
			}
			f.wrote = true
			return n, errWrite
		}
		return len(b), nil
	}
	s.readErr = func(c *fconn) error {
		i := f.reads
		f.reads++
		if i < f.rn && i == f.r {
			f.readErr = true
			return errRead
		}
		return nil
	}
}

// ZZ_C08_Faults runs steps pipelines of m commands one after the other while a write, a
// read and dials fail; closeAt -1: never closed.
func ZZ_C08_Faults(steps, m, batch, limit, nw, nr, nd int, withClose int) {
	s := &server{}
	b := newBook()
	s.onReq = b.reply
	f := newFaults(nw, nr, nd)
	f.install(s)
	cl := newClient(s, 1, memcache.WithMaxCommandsPerBatch(batch), memcache.WithWriteLimit(limit), memcache.WithRetryDuration(time.Second))
	closeAt := steps
	if withClose == 1 {
		closeAt = zz.Choice("close at", steps+1)
	}
	for i := 0; i < steps; i++ {
		if i == closeAt {
			zz.Assert(cl.Close() == nil, "Close fails")
		}
		p := cl.Pipeline()
		var cs []issued
		for j := 0; j < m; j++ {
			key := "k" + itoa(i) + "." + itoa(j)
			cs = append(cs, issued{key, j % 3, issue(p, j%3, key)})
		}
		if i%2 == 1 {
			p.Finish()
		}
		for _, x := range cs {
			r := x.f()
			b.check(x.key, r)
			if i >= closeAt {
				zz.Assert(errors.Is(r.err, memcache.ErrConnClosed), "a command issued after Close does not get the connection-closed error")
			}
			if r.err == nil {
				zz.Cover("value")
			} else {
				zz.Cover("error")
			}
		}
	}
	zz.Quiesce()
	b.kept(s)
	zz.OutInt("requests", uint64(b.count))
	if f.wrote {
		zz.Cover("write failed")
	}
	if f.readErr {
		zz.Cover("read failed")
	}
}

// ZZ_C08_Window fills the in-flight window: n batches of one command in np pipelines are
// published before the server reacts. end 0: read time-out, 1: read error, 2: EOF,
// 3: every reply, 4: half the replies, then EOF, -1: any of them; limit -1: any from 1 to 9
func ZZ_C08_Window(n, np, limit, end int) {
	if end < 0 {
		end = zz.Choice("end", 5)
	}
	if limit < 0 {
		limit = zz.IntRange("limit", 1, 9)
	}
	done := false
	s := &server{timeout: end == 0}
	b := newBook()
	held := ""
	s.onReq = func(c *fconn, r *request) {
		t := b.answer(c, r)
		if c.id > 0 || done {
			c.sendStr(t)
			return
		}
		if end != 3 && !(end == 4 && b.count <= n/2) {
			delete(b.want, r.key)
			return
		}
		held += t
	}
	cl := newClient(s, 1, memcache.WithMaxCommandsPerBatch(1), memcache.WithWriteLimit(limit))
	var cs []issued
	for k := 0; k < np; k++ {
		p := cl.Pipeline()
		for j := 0; j < n/np; j++ {
			key := "k" + itoa(k) + "." + itoa(j)
			cs = append(cs, issued{key, j % 3, issue(p, j%3, key)})
		}
		p.Execute()
	}
	zz.Quiesce()
	// everything that fits is under way now
	c := s.conns[0]
	for round := 0; ; round++ {
		h := held
		held = ""
		if end == 3 || end == 4 {
			c.sendStr(h)
		}
		if end == 3 && b.count < n {
			if h == "" {
				zz.Fail("commands are not sent although everything is answered")
			}
			zz.Quiesce()
			continue
		}
		if end == 4 && b.count < n/2 {
			zz.Quiesce()
			continue
		}
		break
	}
	done = true
	switch end {
	case 1:
		c.fail(errRead)
	case 2, 4:
		c.fail(io.EOF)
	}
	for _, x := range cs {
		r := x.f()
		b.check(x.key, r)
		zz.Assert(end != 3 || r.err == nil, "an answered command fails")
		if r.err == nil {
			zz.Cover("value")
		} else {
			zz.Cover("error")
		}
	}
	zz.Quiesce()
	r := issue(cl.Pipeline(), kGet, "later")()
	zz.Assert(r.err == nil, "a command fails after the client has reconnected")
	b.check("later", r)
	b.kept(s)
	zz.Cover("later")
}

// ZZ_C08_Closed issues a pipeline of n commands after, or half before, Close.
func ZZ_C08_Closed(n, batch, half int) {
	s := &server{}
	b := newBook()
	s.onReq = b.reply
	cl := newClient(s, 1, memcache.WithMaxCommandsPerBatch(batch))
	p := cl.Pipeline()
	var cs []issued
	for j := 0; j < n; j++ {
		if half == 1 && j == n/2 {
			zz.Assert(cl.Close() == nil, "Close fails")
		}
		key := "k" + itoa(j)
		cs = append(cs, issued{key, j % 3, issue(p, j%3, key)})
	}
	if half == 0 {
		zz.Assert(cl.Close() == nil, "Close fails")
	}
	how := zz.Choice("how", 3)
	switch how {
	case 1:
		p.Finish()
	case 2:
		p.Execute()
	}
	for k := range cs {
		x := cs[k]
		if how == 2 {
			x = cs[len(cs)-1-k]
		}
		r := x.f()
		zz.Assert(errors.Is(r.err, memcache.ErrConnClosed) && noValue(r), "a command issued after Close does not get the connection-closed error")
	}
	zz.Assert(b.count == 0, "a command is sent after Close")
	zz.Cover("closed")
}

// ZZ_C08_Race runs goroutines issuing pipelines of m commands each against a server in a
// goroutine of its own: one of the first nw writes, one of the first nr reads fails, and one
// of the first nbad requests gets an unparsable reply; Close at any time. limit -1: 1 to 3
func ZZ_C08_Race(ng, m, batch, limit, nw, nr, nbad, withClose, preempt int) {
	s := &server{}
	b := newBook()
	if limit < 0 {
		limit = zz.IntRange("limit", 1, 3)
	}
	f := newFaults(0, nr, 0)
	if nw > 0 {
		f.w, f.wn, f.cut = zz.IntRange("failing write", 0, nw), nw, 5*zz.Choice("some bytes arrive", 2)
	}
	f.install(s)
	bad := -1
	if nbad > 0 {
		bad = zz.IntRange("bad reply", 0, nbad)
	}
	s.onReq = func(c *fconn, r *request) {
		t := b.answer(c, r)
		n := b.count - 1
		if n < nbad && n == bad {
			delete(b.want, r.key)
			c.sendStr("ERROR\r\n")
			return
		}
		c.sendStr(t)
	}
	cl := newClient(s, 1, memcache.WithMaxCommandsPerBatch(batch), memcache.WithWriteLimit(limit))
	zz.Quiesce()
	zz.Preempt(preempt)
	var left uint32 = 1
	cnt := ng
	for g := 0; g < ng; g++ {
		g := g
		go func() {
			p := cl.Pipeline()
			var cs []issued
			for j := 0; j < m; j++ {
				key := "k" + itoa(g) + "." + itoa(j)
				cs = append(cs, issued{key, kGet, issue(p, kGet, key)})
			}
			for _, x := range cs {
				b.check(x.key, x.f())
			}
			cnt--
			if cnt == 0 {
				left = 0
			}
		}()
	}
	if withClose == 1 {
		zz.Assert(cl.Close() == nil, "Close fails")
		zz.Cover("closed")
	}
	for left == 1 {
		zz.Quiesce()
		if left == 1 {
			zz.Fail("a command never completes")
		}
	}
	zz.Cover("done")
	b.kept(s)
	if withClose == 1 {
		zz.Quiesce()
		zz.Assert(zz.Live() == 1, "a goroutine outlives Close")
		for _, c := range s.conns {
			zz.Assert(c.closed, "a connection outlives Close")
		}
	}
}

// ZZ_C08_Many issues n pipelines of m gets one after the other on a client of one connection,
// then closes it. Every value is a digit of the number of its pipeline.
func ZZ_C08_Many(n, m, batch, limit int) {
	s := &server{}
	digit := byte('0')
	reply := []byte("VA 1\r\n0\r\n")
	written := 0
	s.onWrite = func(c *fconn, b []byte) {
		begun := (c.consumed() + len(reply) - 1) / len(reply) // replies that have begun to arrive
		defer func() {
			last := (begun%m + batch - 1) / batch * batch
			if last > m {
				last = m
			}
			zz.Assert(batch > limit || written <= limit+begun/m*m+last, "more commands are unanswered than the write limit allows")
		}()
		for range b {
			k := bytes.IndexByte(b, '\n')
			if k < 0 {
				break
			}
			b = b[k+1:]
			reply[6] = digit
			c.send(reply)
			written++
		}
		c.in = c.in[:0]
	}
	off := zz.IntRange("offset", 0, 1)
	cl := newClient(s, 1, memcache.WithMaxCommandsPerBatch(batch), memcache.WithWriteLimit(limit))
	fs := make([]memcache.MGetResult, m)
	var o memcache.MGetOptions
	for i := 0; i < n; i++ {
		digit = '0' + byte((i+off)%10)
		p := cl.Pipeline()
		for j := range fs {
			fs[j], _ = p.MGetFast("k", o)
		}
		p.Execute()
		if i == n-1 {
			zz.Assert(cl.Close() == nil, "Close fails")
		}
		for _, f := range fs {
			r, err := f.Result()
			zz.Assert(err == nil && len(r.Data) == 1 && r.Data[0] == digit, "a command does not get its own reply")
			memcache.ReleaseGetResponseData(r.Data)
			memcache.ReleaseMGetResult(f)
		}
	}
	zz.Cover("done")
}
