package zzblack

import (
	"io"

	"github.com/QuangTung97/go-memcache/memcache"
	zz "github.com/QuangTung97/go-memcache/memcache/zzverif"
)

var heads = [...]string{"", "VA ", "VA 1", "HD ", "HD c", "VA 0 c", "SERVER_ERROR", "CLIENT_ERROR", "VERSION", "EN", "OK",
	"SERVER_ERROR ", "VA 1844674407370955161", "NF", "VA 2\r\n", "SERVER_ERROR\r\n", "VA 999999", "VA 3 W\r\nab", "HD", "ERROR", "CLIENT_ERROR\r\n", "SER", "V", "VA 0\r\n", "VA 4 c1\r\n\r\n", "HD c1844674407370955161", "VA 0 c1844674407370955161"}
var tails = [...]string{"", "\r\n", "\r\nEN\r\nEN\r\n", "OK\r\n", "\r\nHD\r\n", "EN\r\nVA 1\r\nx\r\n", "\r\n\r\n\r\n", "\r\nOK\r\nVERSION 1\r\n", "VERSION 1\r\n"}

// exchange runs one pipeline of the kinds against a server that sends stream once all the
// requests have arrived and closes.
func exchange(kinds []int, stream []byte, cut func(c *fconn, avail int) int, opts ...memcache.Option) []res {
	return exchangeEnd(kinds, stream, cut, false, opts...)
}

// exchangeEnd is exchange with the end of the connection reported by the last read or, if not
// together, by another one.
func exchangeEnd(kinds []int, stream []byte, cut func(c *fconn, avail int) int, together bool, opts ...memcache.Option) []res {
	s := &server{readCut: cut, together: together}
	s.onReq = func(c *fconn, r *request) {
		if c.id == 0 && len(c.reqs) == len(kinds) {
			c.send(stream)
			c.rdErr = io.EOF
			c.ready = 1
		} else if c.id > 0 {
			zz.Fail("a request was sent again on a later connection")
		}
	}
	cl := newClient(s, 1, opts...)
	p := cl.Pipeline()
	fs := make([]future, len(kinds))
	for i, k := range kinds {
		fs[i] = issue(p, k, "k"+itoa(i))
	}
	out := make([]res, len(kinds))
	for i := range fs {
		out[i] = fs[i]()
	}
	return out
}

// kindsOf decodes a number whose decimal digits are kinds, each plus one.
func kindsOf(n int) []int {
	var out []int
	for _, d := range itoa(n) {
		out = append(out, int(d-'1'))
	}
	return out
}

// segmented compares the outcome of one read with that of another segmentation.
//
//	how 0: one cut at every place; 1: byte by byte; 2: every buffer size up to 9; 3: two cuts;
//	4: cut into pieces of every length up to 9; 5: the last of one or two reads reports the end;
//	6: one cut at every place with empty reads there
func segmented(kinds []int, stream []byte, how int) {
	whole := exchange(kinds, stream, nil)
	var opts []memcache.Option
	var cut func(c *fconn, avail int) int
	x, y := 0, 0
	n := len(stream)
	switch how {
	case 0, 3, 5:
		x = 1 + zz.Choice("cut", n)
		y = n
		if how == 3 {
			y = x + zz.Choice("cut2", n-x+1)
		}
		cut = func(c *fconn, avail int) int {
			pos := n - len(c.out)
			if pos < x {
				return x - pos
			}
			if pos < y {
				return y - pos
			}
			return avail
		}
	case 1:
		cut = func(c *fconn, avail int) int { return 1 }
	case 2:
		x = 1 + zz.Choice("buf", 9)
		opts = append(opts, memcache.WithBufferSize(x))
	case 6:
		x = zz.Choice("cut", n)
		empty := 1 + zz.Choice("empty", 2)
		cut = func(c *fconn, avail int) int {
			pos := n - len(c.out)
			if pos < x {
				return x - pos
			}
			if pos == x && empty > 0 {
				empty--
				return 0
			}
			return avail
		}
	case 4:
		x = 1 + zz.Choice("piece", 9)
		cut = func(c *fconn, avail int) int { return x }
	}
	if how == 5 && len(kinds) > 1 {
		opts = append(opts, memcache.WithMaxCommandsPerBatch(1+zz.Choice("batch", len(kinds))))
	}
	split := exchangeEnd(kinds, stream, cut, how == 5, opts...)
	for i := range kinds {
		outRes("whole", whole[i])
		zz.Assert(eqRes(whole[i], split[i]), "the outcome depends on how the stream is segmented")
		if whole[i].err == nil {
			zz.Cover("value")
		} else {
			zz.Cover("error")
		}
	}
}

// ZZ_C05 compares segmentations of well-formed replies.
func ZZ_C05(kinds, how, vlen, flags, mlen int) {
	var stream []byte
	ks := kindsOf(kinds)
	for _, k := range ks {
		t, _ := anyReplyFixed(k, vlen, flags, mlen)
		stream = append(stream, t...)
	}
	segmented(ks, stream, how)
}

// anyReplyFixed is anyReply with numbers of few digits.
func anyReplyFixed(kind, vlen, flags, mlen int) (string, res) {
	var want res
	if kind == kGet {
		switch zz.Choice("reply", 5) {
		case 0:
			return "EN\r\n", want
		case 1:
			return "HD" + fewFlags(flags) + "\r\n", want
		case 2:
			return "VA " + itoa(vlen) + fewFlags(flags) + "\r\n" + string(bytesOf("val", vlen)) + "\r\n", want
		case 3:
			return "VA 11" + fewFlags(flags) + "\r\nVA 2\r\nxy\r\nE\r\n", want
		}
		return "SERVER_ERROR " + string(lineText("msg", mlen)) + "\r\n", want
	}
	return anyReply(kind, vlen, flags, mlen)
}

func fewFlags(max int) string {
	if max == 0 {
		return ""
	}
	switch zz.Choice("flag", 4) {
	case 0:
		return " c" + string([]byte{'1' + zz.ByteMax("cas", 8), '0' + zz.ByteMax("cas", 9)})
	case 1:
		return " W c" + string([]byte{'1' + zz.ByteMax("cas", 8)})
	case 2:
		return " X Z"
	}
	return ""
}

// ZZ_C05_Raw compares segmentations of a template followed by n arbitrary bytes and a tail.
func ZZ_C05_Raw(kinds, how, head, n, tail int) {
	stream := append([]byte(heads[head]), bytesOf("raw", n)...)
	stream = append(stream, tails[tail]...)
	segmented(kindsOf(kinds), stream, how)
}

// ZZ_C05_Value compares segmentations of a value of n bytes with a small receive buffer.
func ZZ_C05_Value(n, buf int) {
	v := pattern(n, 1)
	v[n-1] = zz.Byte("last")
	v[0] = zz.Byte("first")
	stream := append([]byte("VA "+itoa(n)+" c3\r\n"), v...)
	stream = append(stream, "\r\nHD\r\nVA 2 W\r\nab\r\n"...)
	kinds := []int{kGet, kSet, kGet}
	whole := exchange(kinds, stream, nil, memcache.WithBufferSize(len(stream)+1))
	x := zz.Choice("cut", 12)
	cut := func(c *fconn, avail int) int {
		pos := len(stream) - len(c.out)
		at := [...]int{1, 3, len(itoa(n)) + 3, 9 + n - 3, 9 + n, 9 + n + 1, n, n + 2, n + 10, n + 13, n + 16, len(stream) - 1}[x]
		if pos < at {
			return at - pos
		}
		return avail
	}
	split := exchange(kinds, stream, cut, memcache.WithBufferSize(buf))
	for i := range kinds {
		zz.Assert(whole[i].err == nil, "a well-formed reply gives an error")
		zz.Assert(eqRes(whole[i], split[i]), "the outcome depends on how the stream is segmented")
	}
	zz.Assert(string(whole[0].data) == string(v), "wrong value bytes")
	zz.Cover("value")
}
