package zzblack

import (
	"io"

	"github.com/QuangTung97/go-memcache/memcache"
	zz "github.com/QuangTung97/go-memcache/memcache/zzverif"
)

// badReply lists replies to a command of the kind; the first two are SERVER_ERROR replies.
func badReply(kind, i int) string {
	switch i {
	case 0:
		return "SERVER_ERROR out of memory\r\n"
	case 1:
		return "SERVER_ERROR \r\n"
	case 2:
		return "CLIENT_ERROR bad data\r\n"
	case 3:
		return "ERROR\r\n"
	case 4:
		return "\r\n"
	case 5:
		return "HD\rX"
	case 6:
		return "VA z\r\n"
	case 7:
		return "VA 99999999999999999999\r\n"
	case 8:
		switch kind {
		case kGet:
			return "NS\r\n"
		case kSet:
			return "VA 2\r\nHD\r\n"
		case kDel:
			return "NS\r\n"
		}
		return "HD\r\n"
	case 9:
		return "CLIENT_ERROR\r\n"
	}
	return "VA\r\n"
}

const nBad = 11

var surplus = [...]string{"", "EN\r\n", "VA 1\r\nS\r\nHD\r\nNS\r\n", "HD", "VA 3\r\nab", "HD W c7\r\nEX\r\nEX\r\nHD\r\nEN\r\n", "NF\r\nNF\r\nNF\r\n"}

type issued struct {
	key  string
	kind int
	f    future
}

func issueKeys(p *memcache.Pipeline, kinds []int, name string) []issued {
	var out []issued
	for i, k := range kinds {
		key := name + itoa(i)
		out = append(out, issued{key, k, issue(p, k, key)})
	}
	return out
}

// ZZ_C07 makes the reply to one of several commands an error or unparsable.
//
//	kinds: the commands; batch: commands of a batch; raw > 0: surplus is that many arbitrary
//	bytes; how: 0 one read, 1 byte by byte; mid 1: a second pipeline is in flight
func ZZ_C07(kinds, batch, raw, how, mid int) {
	ks := kindsOf(kinds)
	pos := zz.Choice("pos", len(ks))
	bad := zz.Choice("bad", nBad+2)
	s := &server{}
	if how == 1 {
		s.readCut = func(c *fconn, avail int) int { return 1 }
	}
	var extra []byte
	if bad >= 2 {
		if raw > 0 {
			extra = bytesOf("surplus", raw)
		} else {
			extra = []byte(surplus[zz.Choice("surplus", len(surplus))])
		}
	}
	b := newBook()
	badKey := "a" + itoa(pos)
	var cut bool
	s.onReq = func(c *fconn, r *request) {
		if cut && c.id == 0 {
			b.answer(c, r)
			delete(b.want, r.key)
			return // nothing more comes from this connection
		}
		t := b.answer(c, r)
		if r.key != badKey {
			c.sendStr(t)
			if c.id == 0 && bad >= 2 && r.key == "a"+itoa(len(ks)-1) {
				c.send(extra)
			}
			return
		}
		delete(b.want, r.key)
		switch {
		case bad < nBad:
			c.sendStr(badReply(ks[pos], bad))
			if pos == len(ks)-1 {
				c.send(extra)
			}
		case bad == nBad:
			cut = true
			c.fail(io.EOF)
		default:
			cut = true
			c.sendStr("H")
			c.fail(errRead)
		}
	}
	cl := newClient(s, 1, memcache.WithMaxCommandsPerBatch(batch))
	p1, p2, p3, p4 := cl.Pipeline(), cl.Pipeline(), cl.Pipeline(), cl.Pipeline()
	c1 := issueKeys(p1, ks, "a")
	var c2 []issued
	if mid == 1 {
		p1.Execute()
		c2 = issueKeys(p2, []int{kGet, kSet, kGet}, "b")
		p2.Execute()
	}
	for i, x := range c1 {
		r := x.f()
		if i != pos {
			b.check(x.key, r)
			if bad < 2 || i < pos && (bad < 5 || i/batch < pos/batch) {
				zz.Assert(r.err == nil, "an error reply fails another command")
			}
			continue
		}
		zz.Assert(r.err != nil && noValue(r), "an error reply gives a value")
		_, isSrv := r.err.(memcache.ErrServerError)
		zz.Assert(isSrv == (bad < 2), "wrong kind of error")
		if (bad == 2 || bad == 9) && (len(extra) == 0 || mid == 0) { // else the surplus may break the connection first
			m := "bad data"
			if bad == 9 {
				m = ""
			}
			zz.Assert(isClientErr(r.err, m), "a CLIENT_ERROR reply gives another error")
		}
	}
	// connection state as the caller sees it
	if bad < 2 {
		zz.Assert(!s.conns[0].closed && s.dials == 1, "a SERVER_ERROR reply abandons the connection")
	} else {
		zz.Assert(s.conns[0].closed, "the connection is not abandoned")
	}
	// right away: answered by its own reply or failed
	c3 := issueKeys(p3, []int{kGet, kDel, kSet}, "c")
	if extra == nil || s.conns[0].closed {
		for _, x := range c3 {
			b.check(x.key, x.f())
		}
		for _, x := range c2 {
			r := x.f()
			if len(extra) == 0 {
				b.check(x.key, r)
			}
		}
	}
	zz.Quiesce()
	c4 := issueKeys(p4, []int{kGet, kGet, kSet, kDel, kVer}, "d")
	for i, x := range c4 {
		r := x.f()
		zz.Assert(r.err == nil, "a command fails after the client has reconnected")
		if i < 4 {
			b.check(x.key, r)
		}
	}
	b.kept(s)
	if bad < 2 {
		zz.Cover("kept")
		zz.Assert(!s.conns[0].closed && s.dials == 1, "a SERVER_ERROR reply abandons the connection")
		return
	}
	zz.Cover("abandoned")
	zz.Assert(s.dials == 2, "not exactly one new connection is dialled")
	zz.Assert(!s.conns[1].closed, "the new connection is closed")
	zz.Assert(b.conn["d0"] == 1, "a command is sent on the abandoned connection")
}

// ZZ_C07_Race has two goroutines on one connection; the first command gets a bad reply
// (-1: any) followed by surplus bytes (-1: any of 4).
func ZZ_C07_Race(bad, sur, preempt, n2 int) {
	if bad < 0 {
		bad = 2 + zz.Choice("bad", nBad-2)
	}
	if sur < 0 {
		sur = zz.Choice("surplus", 4)
	}
	s := &server{}
	b := newBook()
	extra := surplus[sur]
	s.onReq = func(c *fconn, r *request) {
		t := b.answer(c, r)
		if r.key != "a0" {
			c.sendStr(t)
			return
		}
		delete(b.want, r.key)
		c.sendStr(badReply(kGet, bad) + extra)
	}
	cl := newClient(s, 1)
	p1, p2, p3 := cl.Pipeline(), cl.Pipeline(), cl.Pipeline()
	zz.Preempt(preempt)
	var done uint32
	go func() {
		p := p2
		for i := 0; i < n2; i++ {
			key := "b" + itoa(i)
			r := issue(p, kGet, key)()
			if extra == "" || b.conn[key] > 0 {
				b.check(key, r)
			}
		}
		done = 1
	}()
	r := issue(p1, kGet, "a0")()
	zz.Assert(r.err != nil && noValue(r), "an error reply gives a value")
	zz.Assert(s.conns[0].closed, "the connection is not abandoned")
	key := "c0"
	r = issue(p3, kGet, key)()
	b.check(key, r)
	zz.Block(&done)
	zz.Quiesce()
	zz.Preempt(0)
	r = issue(cl.Pipeline(), kGet, "d0")()
	zz.Assert(r.err == nil, "a command fails after the client has reconnected")
	b.check("d0", r)
	b.kept(s)
	zz.Assert(s.dials == 2 && !s.conns[1].closed, "not exactly one new connection is dialled")
	zz.Assert(b.conn["d0"] == 1, "a command is sent on the abandoned connection")
	zz.Cover("abandoned")
}
