package zzblack

import (
	"bytes"
	"errors"

	"github.com/QuangTung97/go-memcache/memcache"
	zz "github.com/QuangTung97/go-memcache/memcache/zzverif"
)

// free tells whether byte i of n is arbitrary: all of a short text, three of a long one.
func free(i, n int) bool { return n <= 40 || i == 0 || i == n/2 || i == n-1 }

// lineText is text without CR and LF.
func lineText(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		if !free(i, n) {
			b[i] = byte('!' + i%90)
			continue
		}
		b[i] = zz.Byte(name)
		zz.Assume(b[i] != '\r' && b[i] != '\n')
	}
	return b
}

// getFlags builds a flag list: up to max of W, X, Z and c<number>, each at most once.
func getFlags(max int, want *res) string {
	out := ""
	used := [4]bool{}
	for n := 0; n < max; n++ {
		k := zz.Choice("flag", 5)
		if k == 0 {
			break
		}
		if used[k-1] {
			zz.Kill()
		}
		used[k-1] = true
		switch k {
		case 1:
			out += " W"
			want.flags |= uint64(memcache.MGetFlagW)
		case 2:
			out += " X"
			want.flags |= uint64(memcache.MGetFlagX)
		case 3:
			out += " Z"
			want.flags |= uint64(memcache.MGetFlagZ)
		case 4:
			c, t := number("cas", max64)
			want.cas = c
			out += " c" + t
		}
	}
	return out
}

// anyReply is a well-formed reply to a command of the kind and its expected outcome.
// vlen is the length of a value, flags the maximal number of flags, mlen a message length.
func anyReply(kind, vlen, flags, mlen int) (string, res) {
	var want res
	n := 2
	switch kind {
	case kGet:
		n = 5
	case kSet:
		n = 6
	case kDel:
		n = 5
	case kVer, kFlush:
		n = 3
	}
	k := zz.Choice("reply", n)
	switch k {
	case 0:
		msg := lineText("msg", mlen)
		want.err = memcache.ErrServerError{Message: string(msg)}
		return "SERVER_ERROR " + string(msg) + "\r\n", want
	case 1:
		msg := lineText("msg", mlen)
		want.err = memcache.ErrClientError{Message: string(msg)}
		return "CLIENT_ERROR " + string(msg) + "\r\n", want
	}
	switch kind {
	case kGet:
		switch k {
		case 2:
			want.typ = int(memcache.MGetResponseTypeEN)
			return "EN\r\n", want
		case 3:
			want.typ = int(memcache.MGetResponseTypeHD)
			return "HD" + getFlags(flags, &want) + "\r\n", want
		}
		want.typ = int(memcache.MGetResponseTypeVA)
		want.data = bytesOf("val", vlen)
		return "VA " + itoa(vlen) + getFlags(flags, &want) + "\r\n" + string(want.data) + "\r\n", want
	case kSet:
		st := [...]string{"HD", "NS", "EX", "NF"}
		ty := [...]memcache.MSetResponseType{memcache.MSetResponseTypeHD, memcache.MSetResponseTypeNS, memcache.MSetResponseTypeEX, memcache.MSetResponseTypeNF}
		want.typ = int(ty[k-2])
		return st[k-2] + "\r\n", want
	case kDel:
		st := [...]string{"HD", "NF", "EX"}
		ty := [...]memcache.MDelResponseType{memcache.MDelResponseTypeHD, memcache.MDelResponseTypeNF, memcache.MDelResponseTypeEX}
		want.typ = int(ty[k-2])
		return st[k-2] + "\r\n", want
	case kVer:
		b := make([]byte, vlen)
		for i := range b {
			if !free(i, vlen) {
				b[i] = byte('!' + i%90)
				continue
			}
			b[i] = zz.Byte("ver")
			zz.Assume(b[i] > 32 && b[i] < 127)
		}
		want.ver = string(b)
		pad := zz.Choice("pad", 2)
		if pad == 1 {
			return "VERSION  " + string(b) + " \r\n", want
		}
		return "VERSION " + string(b) + "\r\n", want
	}
	return "OK\r\n", want
}

// ZZ_C03 answers one command of the kind with every well-formed reply, between two gets
// with known values, and compares what the caller receives.
func ZZ_C03(kind, vlen, flags, mlen, batch int) {
	reply, want := anyReply(kind, vlen, flags, mlen)
	late := false
	s := &server{}
	s.onReq = func(c *fconn, r *request) {
		switch r.key {
		case "first":
			c.sendStr("VA 3 c7 W\r\none\r\n")
		case "last":
			c.sendStr("VA 3 Z c9\r\ntwo\r\n")
		case "later":
			c.sendStr("VA " + itoa(10+vlen) + " c88888 W\r\n")
			c.send(bytes.Repeat([]byte{'~'}, 10+vlen))
			c.sendStr("\r\n")
		default:
			if late && r.kind == "version" {
				c.sendStr("VERSION ")
				c.send(bytes.Repeat([]byte{'~'}, 30+mlen+vlen))
				c.sendStr("\r\n")
				break
			}
			c.sendStr(reply)
		}
	}
	cl := newClient(s, 1, memcache.WithMaxCommandsPerBatch(batch))
	p := cl.Pipeline()
	f1 := doGet(p, "first", memcache.MGetOptions{CAS: true})
	f := issue(p, kind, "mid")
	f2 := doGet(p, "last", memcache.MGetOptions{CAS: true})
	r, r1, r2 := f(), f1(), f2()
	if len(r.data) < 100 {
		outRes("r", r)
	}
	zz.Assert(r1.err == nil && string(r1.data) == "one" && r1.cas == 7 && r1.flags == uint64(memcache.MGetFlagW), "the command before gets a wrong reply")
	judge03(r, want)
	if _, bad := want.err.(memcache.ErrClientError); !bad {
		zz.Assert(r2.err == nil && string(r2.data) == "two" && r2.cas == 9 && r2.flags == uint64(memcache.MGetFlagZ), "the command after gets a wrong reply")
	}
	zz.Assert(errors.Is(f().err, memcache.ErrAlreadyGotten), "a result can be gotten twice")
	// what the caller was given stays as it is when later replies arrive
	late = true
	for i := 0; i < 2; i++ {
		p2 := cl.Pipeline()
		g1 := doGet(p2, "later", memcache.MGetOptions{})
		g2 := doVer(p2)
		q1, q2 := g1(), g2()
		if _, bad := want.err.(memcache.ErrClientError); !bad {
			zz.Assert(q1.err == nil && q1.cas == 88888 && q2.err == nil && q2.ver == string(bytes.Repeat([]byte{'~'}, 30+mlen+vlen)), "a later reply is decoded wrongly")
		}
	}
	judge03(r, want)
	if r1.err == nil {
		zz.Assert(string(r1.data) == "one", "a value changes when later replies arrive")
	}
}

func judge03(r, want res) {
	if want.err != nil {
		zz.Cover("error")
		if e, ok := want.err.(memcache.ErrServerError); ok {
			zz.Assert(isServerErr(r.err, e.Message), "a SERVER_ERROR reply does not give its error")
		} else {
			e := want.err.(memcache.ErrClientError)
			zz.Assert(isClientErr(r.err, e.Message), "a CLIENT_ERROR reply does not give its error")
		}
		zz.Assert(noValue(r), "an error reply gives a value")
	} else {
		zz.Cover("value")
		zz.Assert(r.err == nil, "a well-formed reply gives an error")
		zz.Assert(r.typ == want.typ, "wrong reply type")
		zz.Assert(len(r.data) == len(want.data) && string(r.data) == string(want.data), "wrong value bytes")
		zz.Assert(r.flags == want.flags, "wrong flags")
		zz.Assert(r.cas == want.cas, "wrong CAS")
		zz.Assert(r.ver == want.ver, "wrong version text")
	}
}

// ZZ_C03_Value answers a get with a value of n bytes, three of them arbitrary.
func ZZ_C03_Value(n, buf int) {
	v := pattern(n, 5)
	if n > 0 {
		v[n-1] = zz.Byte("last")
		v[n/2] = zz.Byte("mid")
		v[0] = zz.Byte("first")
	}
	s := &server{}
	s.onReq = func(c *fconn, r *request) {
		switch r.key {
		case "a":
			c.sendStr("VA " + itoa(n) + "\r\n")
			c.send(v)
			c.sendStr("\r\n")
		case "b":
			c.sendStr("VA " + itoa(n) + " c5 X\r\n")
			c.send(v)
			c.sendStr("\r\n")
		default:
			c.sendStr("HD c1\r\n")
		}
	}
	var opts []memcache.Option
	if buf > 0 {
		opts = append(opts, memcache.WithBufferSize(buf))
	}
	cl := newClient(s, 1, opts...)
	p := cl.Pipeline()
	fa := doGet(p, "a", memcache.MGetOptions{})
	fb := doGet(p, "b", memcache.MGetOptions{})
	fc := doGet(p, "c", memcache.MGetOptions{})
	ra, rb, rc := fa(), fb(), fc()
	zz.Assert(ra.err == nil && rb.err == nil && rc.err == nil, "a well-formed reply gives an error")
	zz.Assert(len(ra.data) == n && len(rb.data) == n, "wrong value length")
	zz.Assert(string(ra.data) == string(v) && string(rb.data) == string(v), "wrong value bytes")
	zz.Assert(rb.cas == 5 && rb.flags == uint64(memcache.MGetFlagX) && rc.cas == 1 && rc.typ == int(memcache.MGetResponseTypeHD), "wrong attributes")
	zz.Cover("value")
}
