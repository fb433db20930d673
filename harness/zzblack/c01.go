package zzblack

import (
	"strings"

	"github.com/QuangTung97/go-memcache/memcache"
	zz "github.com/QuangTung97/go-memcache/memcache/zzverif"
)

func optNum(t, letter string) string {
	if t == "0" {
		return ""
	}
	return " " + letter + t
}

// ZZ_C01_One sends one command with arbitrary option values and compares the bytes.
// vlen is the length of a set's value, whose content is arbitrary; so are the key's bytes.
//
// pad more characters come before the arbitrary ones of the key.
func ZZ_C01_One(kind, vlen, pad int) {
	s := &server{onReq: replyOK}
	cl := newClient(s, 1)
	p := cl.Pipeline()
	kb := bytesOf("key", 2)
	for i := range kb {
		zz.Assume(kb[i] > 32 && kb[i] < 127)
	}
	key := strings.Repeat("k", pad) + string(kb)
	want := ""
	switch kind {
	case 0:
		o := memcache.MGetOptions{}
		want = "mg " + key
		if zz.Choice("cas", 2) == 1 {
			o.CAS = true
			want += " c"
		}
		n, t := number("n", max32)
		o.N = uint32(n)
		want += optNum(t, "N") + " v\r\n"
		doGet(p, key, o)()
	case 1:
		o := memcache.MSetOptions{}
		v := bytesOf("v", vlen)
		cas, ct := number("cas", max64)
		ttl, tt := number("ttl", max32)
		o.CAS, o.TTL = cas, uint32(ttl)
		want = "ms " + key + " " + itoa(vlen) + optNum(ct, "C") + optNum(tt, "T") + "\r\n" + string(v) + "\r\n"
		doSet(p, key, v, o)()
	case 2:
		o := memcache.MDelOptions{}
		cas, ct := number("cas", max64)
		ttl, tt := number("ttl", max32)
		o.CAS, o.TTL = cas, uint32(ttl)
		o.I = zz.Choice("i", 2) == 1
		want = "md " + key + optNum(ct, "C")
		if o.I {
			want += " I" + optNum(tt, "T")
		}
		want += "\r\n"
		doDel(p, key, o)()
	case 3:
		want = "version\r\n"
		doVer(p)()
	case 4:
		want = "flush_all\r\n"
		doFlush(p)()
	}
	s.wire(0, want)
	zz.Cover("sent")
}

// wire compares what connection i received.
func (s *server) wire(i int, want string) {
	got := ""
	if i < len(s.conns) {
		got = string(s.conns[i].in)
	}
	if len(want) < 600 {
		zz.OutStr("wire", got)
	}
	zz.Assert(got == want, "the bytes sent differ from the commands issued")
}

// variant issues one of the command shapes and returns its encoding.
func variant(p *memcache.Pipeline, v int, key string, sym int) (future, string) {
	switch v {
	case 0:
		return doGet(p, key, memcache.MGetOptions{}), "mg " + key + " v\r\n"
	case 1:
		return doGet(p, key, memcache.MGetOptions{CAS: true}), "mg " + key + " c v\r\n"
	case 2:
		return doGet(p, key, memcache.MGetOptions{N: 12, CAS: true}), "mg " + key + " c N12 v\r\n"
	case 3:
		return doGet(p, key, memcache.MGetOptions{N: 300}), "mg " + key + " N300 v\r\n"
	case 4:
		return doSet(p, key, nil, memcache.MSetOptions{}), "ms " + key + " 0\r\n\r\n"
	case 5:
		b := bytesOf("v", sym)
		return doSet(p, key, b, memcache.MSetOptions{CAS: 5}), "ms " + key + " " + itoa(sym) + " C5\r\n" + string(b) + "\r\n"
	case 6:
		return doSet(p, key, []byte("\r\nmg"), memcache.MSetOptions{TTL: 90}), "ms " + key + " 4 T90\r\n\r\nmg\r\n"
	case 7:
		return doSet(p, key, []byte("z"), memcache.MSetOptions{TTL: 1, CAS: 10}), "ms " + key + " 1 C10 T1\r\nz\r\n"
	case 8:
		return doDel(p, key, memcache.MDelOptions{}), "md " + key + "\r\n"
	case 9:
		return doDel(p, key, memcache.MDelOptions{CAS: 77, TTL: 4}), "md " + key + " C77\r\n"
	case 10:
		return doDel(p, key, memcache.MDelOptions{I: true}), "md " + key + " I\r\n"
	case 11:
		return doDel(p, key, memcache.MDelOptions{I: true, TTL: 60, CAS: 1}), "md " + key + " C1 I T60\r\n"
	case 12:
		return doVer(p), "version\r\n"
	}
	return doFlush(p), "flush_all\r\n"
}

const nVariants = 14

// ZZ_C01_Mix sends every sequence of n command shapes, with an optional Execute, Finish or
// result between two of them, cut into batches of the given maximum.
func ZZ_C01_Mix(n, batch int) {
	s := &server{onReq: replyOK}
	cl := newClient(s, 1, memcache.WithMaxCommandsPerBatch(batch))
	p := cl.Pipeline()
	want := ""
	var last future
	for i := 0; i < n; i++ {
		f, w := variant(p, zz.Choice("cmd", nVariants), "k"+itoa(i), 2)
		want += w
		last = f
		if i+1 < n {
			switch zz.Choice("gap", 4) {
			case 1:
				p.Execute()
			case 2:
				p.Finish()
			case 3:
				f()
			}
		}
	}
	if zz.Choice("end", 2) == 0 {
		p.Finish()
	} else {
		last()
	}
	s.wire(0, want)
	zz.Cover("sent")
}

// ZZ_C01_Long sends two long pipelines one after the other, with every key long if keys is 1.
func ZZ_C01_Long(n, batch, buf, keys int) {
	s := &server{onReq: replyOK}
	opts := []memcache.Option{}
	if batch > 0 {
		opts = append(opts, memcache.WithMaxCommandsPerBatch(batch))
	}
	if buf > 0 {
		opts = append(opts, memcache.WithBufferSize(buf))
	}
	cl := newClient(s, 1, opts...)
	want := ""
	long := make([]byte, 250)
	for i := range long {
		long[i] = byte(33 + i%94)
	}
	for round := 0; round < 2; round++ {
		p := cl.Pipeline()
		for i := 0; i < n; i++ {
			key := "k" + itoa(i)
			if i%17 == 3 || keys == 1 {
				key = string(long[:250-i%40])
			}
			k := (i*5 + i/nVariants + round) % (nVariants + 1)
			w := ""
			if k == nVariants {
				v := pattern((i*37)%300, i)
				doSet(p, key, v, memcache.MSetOptions{TTL: uint32(i)})
				w = "ms " + key + " " + itoa(len(v)) + optNum(itoa(i), "T") + "\r\n" + string(v) + "\r\n"
			} else {
				_, w = variant(p, k, key, 1)
			}
			want += w
		}
		p.Finish()
	}
	s.wire(0, want)
	zz.Assert(len(s.conns) == 1, "the connection was abandoned")
	zz.Cover("sent")
}

// ZZ_C01_Value sends values of the length with arbitrary first, middle and last bytes.
func ZZ_C01_Value(n int) {
	s := &server{}
	s.onWrite = func(c *fconn, b []byte) {
		if len(c.in) >= 3 && string(c.in[len(c.in)-3:]) == "#\r\n" {
			c.sendStr("HD\r\nHD\r\nHD\r\n")
		}
	}
	cl := newClient(s, 1)
	p := cl.Pipeline()
	v := pattern(n, 3)
	if n > 0 {
		v[n-1] = zz.Byte("last")
		v[n/2] = zz.Byte("mid")
		v[0] = zz.Byte("first")
	}
	f1 := doSet(p, "a", v, memcache.MSetOptions{})
	f2 := doSet(p, "b", v, memcache.MSetOptions{})
	f3 := doSet(p, "c", []byte("#"), memcache.MSetOptions{})
	r1, r2, r3 := f1(), f2(), f3()
	body := " " + itoa(n) + "\r\n" + string(v) + "\r\n"
	s.wire(0, "ms a"+body+"ms b"+body+"ms c 1\r\n#\r\n")
	zz.Assert(isOK(kSet, r1) && isOK(kSet, r2) && isOK(kSet, r3), "the sets do not succeed")
	zz.Cover("sent")
}
