package zzblack

import (
	"github.com/QuangTung97/go-memcache/memcache"
	zz "github.com/QuangTung97/go-memcache/memcache/zzverif"
)

func hasPrefix(b []byte, s string) bool { return len(b) >= len(s) && string(b[:len(s)]) == s }

// verdict on the first reply of a stream
const (
	doubtful = iota
	legal    // a reply of m bytes that may give the command a value
	refusal  // an error reply of m bytes
	illegal
)

var statusWords = [...][]string{kGet: {"EN", "HD", "VA"}, kSet: {"HD", "NS", "EX", "NF"}, kDel: {"HD", "NF", "EX"}, kVer: {"VERSION"}, kFlush: {"OK"}}

// judge decides whether b starts with a complete legal reply to a command of the kind.
func judge(kind int, b []byte) (verdict, m int) {
	n := -1
	lf := false
	for i := 0; i+1 < len(b); i++ {
		if b[i] == '\r' {
			n = i
			break
		}
		lf = lf || b[i] == '\n'
	}
	if n < 0 || b[n+1] != '\n' {
		return illegal, 0
	}
	if lf {
		return doubtful, 0
	}
	line := b[:n]
	w := 0
	for w < n && line[w] != ' ' {
		w++
	}
	word := line[:w]
	if string(word) == "SERVER_ERROR" || string(word) == "CLIENT_ERROR" {
		return refusal, n + 2
	}
	ok := false
	for _, x := range statusWords[kind] {
		ok = ok || string(word) == x
	}
	if !ok {
		return illegal, 0
	}
	if kind != kGet || string(word) == "EN" {
		return legal, n + 2
	}
	m = n + 2
	i := 2
	if line[0] == 'V' {
		for i < n && line[i] == ' ' {
			i++
		}
		size, d := 0, 0
		for ; i < n && line[i] >= '0' && line[i] <= '9'; i++ {
			if size < 1<<30 {
				size = size*10 + int(line[i]-'0')
			}
			d++
		}
		if d == 0 || i < n && line[i] != ' ' || size > len(b)-m-2 {
			return illegal, 0
		}
		m += int(zz.Fix(uint64(size)))
		if b[m] != '\r' || b[m+1] != '\n' {
			return illegal, 0
		}
		m += 2
	}
	for i < n {
		if line[i] != 'c' {
			i++
			continue
		}
		j := i + 1
		for j < n && line[j] >= '0' && line[j] <= '9' {
			j++
		}
		if j == i+1 || !fits64(line[i+1:j]) {
			return illegal, 0
		}
		i = j
	}
	return legal, m
}

// fits64 tells whether the decimal number is below 2^64.
func fits64(d []byte) bool {
	for len(d) > 0 && d[0] == '0' {
		d = d[1:]
	}
	return len(d) < len(max64) || len(d) == len(max64) && string(d) <= max64
}

// ZZ_C06 answers the commands with a template followed by n arbitrary bytes and a tail.
func ZZ_C06(kinds, head, n, tail, batch int) {
	ks := kindsOf(kinds)
	stream := append([]byte(heads[head]), bytesOf("raw", n)...)
	stream = append(stream, tails[tail]...)
	if batch == 0 {
		batch = 100
	}
	rs := exchange(ks, stream, nil, memcache.WithMaxCommandsPerBatch(batch))
	rest := stream
	for i, k := range ks {
		r := rs[i]
		outRes("r", r)
		if r.err != nil {
			zz.Cover("error")
			zz.Assert(noValue(r), "an error comes with a value")
		} else {
			zz.Cover("value")
			if k == kGet {
				zz.Assert(r.typ >= 1 && r.typ <= 3, "a value of no type")
			}
		}
		if rest == nil {
			continue
		}
		v, m := judge(k, rest)
		if v == illegal || v == refusal {
			zz.Assert(r.err != nil, "a reply that is not legal for the command gives a value")
		}
		if v == doubtful || v == illegal {
			rest = nil
			continue
		}
		if r.err == nil && k == kGet && rest[0] == 'V' {
			l := len(r.data)
			zz.Assert(l+2 <= m && string(r.data) == string(rest[m-2-l:m-2]), "wrong value bytes")
		}
		rest = rest[m:]
	}
}

// ZZ_C06_Later leaves surplus arbitrary bytes after a good reply and issues another pipeline.
func ZZ_C06_Later(kind, n int) {
	s := &server{}
	raw := bytesOf("raw", n)
	s.onReq = func(c *fconn, r *request) {
		c.sendStr(okReply(r.kind))
		if c.id == 0 && len(c.reqs) == 1 {
			c.send(raw)
			c.fail(errRead)
		}
	}
	cl := newClient(s, 1)
	f1 := issue(cl.Pipeline(), kind, "a")
	r1 := f1()
	r2 := issue(cl.Pipeline(), kind, "b")()
	r3 := issue(cl.Pipeline(), kind, "c")()
	zz.Assert(isOK(kind, r1), "a good reply gives an error")
	outRes("r2", r2)
	outRes("r3", r3)
	if r2.err == nil {
		zz.Cover("value")
	} else {
		zz.Cover("error")
	}
}
