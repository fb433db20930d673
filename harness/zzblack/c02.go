package zzblack

import (
	"errors"

	"github.com/QuangTung97/go-memcache/memcache"
	zz "github.com/QuangTung97/go-memcache/memcache/zzverif"
)

// ZZ_C02 issues a command with an arbitrary key between two others. The key has n bytes;
// bytes outside [free, free+width) are printable.
func ZZ_C02(kind, n, free, width, batch int) {
	kb := make([]byte, n)
	ok, inv := true, false
	for i := range kb {
		if i >= free && i < free+width {
			kb[i] = zz.Byte("key")
			if kb[i] <= 32 || kb[i] >= 127 {
				inv = true
			}
		} else {
			kb[i] = 'a' + byte(i%26)
		}
	}
	if n == 0 || n > 250 || inv {
		ok = false
	}
	key := string(kb)
	s := &server{}
	s.onReq = func(c *fconn, r *request) {
		// by position: the key under test may be "first" or "last" itself
		last := 1
		if ok {
			last = 2
		}
		switch r.n {
		case 0:
			c.sendStr("VA 3\r\none\r\n")
		case last:
			c.sendStr("VA 3\r\ntwo\r\n")
		default:
			c.sendStr(okReply(r.kind))
		}
	}
	var opts []memcache.Option
	if batch > 0 {
		opts = append(opts, memcache.WithMaxCommandsPerBatch(batch))
	}
	cl := newClient(s, 1, opts...)
	p := cl.Pipeline()
	f1 := doGet(p, "first", memcache.MGetOptions{})
	var f future
	want := ""
	switch kind {
	case kGet:
		f = doGet(p, key, memcache.MGetOptions{})
		want = "mg " + key + " v\r\n"
	case kSet:
		f = doSet(p, key, []byte("val"), memcache.MSetOptions{})
		want = "ms " + key + " 3\r\nval\r\n"
	case kDel:
		f = doDel(p, key, memcache.MDelOptions{})
		want = "md " + key + "\r\n"
	case 3:
		r, err := p.MGetFast(key, memcache.MGetOptions{})
		want = "mg " + key + " v\r\n"
		f = func() res {
			if err != nil {
				return res{err: err}
			}
			x, err := r.Result()
			return res{err: err, typ: int(x.Type), data: x.Data}
		}
		kind = kGet
	}
	f2 := doGet(p, "last", memcache.MGetOptions{})
	order := zz.Choice("order", 2)
	var r res
	if order == 0 {
		r = f()
	}
	r1, r2 := f1(), f2()
	if order == 1 {
		r = f()
	}
	outRes("r", r)
	if ok {
		zz.Cover("accepted")
		zz.Assert(isOK(kind, r), "a command with a valid key is rejected")
	} else {
		want = ""
		zz.Cover("rejected")
		e := errors.Is(r.err, memcache.ErrKeyEmpty) && n == 0 ||
			errors.Is(r.err, memcache.ErrKeyTooLong) && n > 250 ||
			errors.Is(r.err, memcache.ErrInvalidKeyFormat) && inv
		zz.Assert(r.err != nil, "an invalid key is accepted")
		zz.Assert(e, "the error of an invalid key does not match")
		zz.Assert(noValue(r), "a rejected command has a value")
	}
	s.wire(0, "mg first v\r\n"+want+"mg last v\r\n")
	zz.Assert(r1.err == nil && string(r1.data) == "one", "the command before is affected")
	zz.Assert(r2.err == nil && string(r2.data) == "two", "the command after is affected")
	again := f()
	if !ok {
		zz.Assert(again.err != nil, "an invalid key is accepted when asked again")
	}
}

// ZZ_C02_Only issues nothing but a rejected command: nothing may be sent or dialled anew.
func ZZ_C02_Only(kind int) {
	s := &server{onReq: replyOK}
	cl := newClient(s, 1)
	p := cl.Pipeline()
	b := zz.Byte("key")
	zz.Assume(b <= 32 || b >= 127)
	f := issue(p, kind, string([]byte{'a', b}))
	if zz.Choice("exec", 2) == 1 {
		p.Execute()
	}
	r := f()
	p.Finish()
	zz.Quiesce()
	zz.Assert(r.err == memcache.ErrInvalidKeyFormat, "the error of an invalid key does not match")
	s.wire(0, "")
	zz.Cover("rejected")
}
