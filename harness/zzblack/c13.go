package zzblack

import (
	"io"

	"github.com/QuangTung97/go-memcache/memcache"
	zz "github.com/QuangTung97/go-memcache/memcache/zzverif"
)

// live is a value the caller holds.
type live struct {
	data, want []byte
}

// heapBook is a server that knows the content of every value by its key.
type heapBook struct {
	s     *server
	val   map[string][]byte // content to answer, or expected on the wire
	bad   map[string]int
	held  map[int][]string
	delay bool
	seen  int
}

func newHeapBook() *heapBook {
	h := &heapBook{s: &server{}, val: map[string][]byte{}, bad: map[string]int{}, held: map[int][]string{}}
	h.s.onReq = func(c *fconn, r *request) {
		v, ok := h.val[r.key]
		zz.Assert(ok, "a request nobody issued is sent")
		t := "HD\r\n"
		if r.kind == "ms" {
			h.seen++
			zz.Assert(string(r.val) == string(v), "the bytes sent are not the value at the time of the call")
		} else {
			t = "VA " + itoa(len(v)) + "\r\n" + string(v) + "\r\n"
			switch h.bad[r.key] {
			case 1:
				t = "SERVER_ERROR no\r\n"
			case 2:
				t = "ERROR\r\n"
			case 3:
				t = "??\r\n"
			}
		}
		if h.delay {
			h.held[c.id] = append(h.held[c.id], t)
			return
		}
		c.sendStr(t)
	}
	return h
}

func (h *heapBook) last() *fconn { return h.s.conns[len(h.s.conns)-1] }

func (h *heapBook) answer() {
	zz.Quiesce()
	for {
		c := h.last()
		l := h.held[c.id]
		if len(l) == 0 {
			return
		}
		h.held[c.id] = nil
		for _, t := range l {
			c.sendStr(t)
		}
		zz.Quiesce()
	}
}

// content is n bytes that differ between seeds, the outer ones arbitrary.
func content(n, seed int) []byte {
	b := pattern(n, seed)
	if n > 0 {
		b[0] = zz.Byte("first")
		b[n-1] = zz.Byte("last")
	}
	return b
}

func scribble(b []byte) {
	for i := range b {
		b[i] ^= 0x55
	}
}

func checkLive(ls []live) {
	for i, x := range ls {
		zz.Assert(len(x.data) == len(x.want), "a value has not its own length")
		zz.Assert(string(x.data) == string(x.want), "a value changes while the caller holds it")
		for _, y := range ls[:i] {
			zz.Assert(!zz.SameObject(x.data, y.data), "two values the caller holds share memory")
		}
	}
}

// ZZ_C13_Set changes the caller's buffer at every moment after the call of a set of n bytes.
func ZZ_C13_Set(n, free, batch int) {
	h := newHeapBook()
	cl := newClient(h.s, 1, memcache.WithMaxCommandsPerBatch(batch))
	p := cl.Pipeline()
	buf := make([]byte, n, n+3)
	copy(buf, pattern(n, 1))
	for i := 0; i < free && i < n; i++ {
		buf[i*(n-1)/free] = zz.Byte("v")
	}
	h.val["a"] = append([]byte{}, buf...)
	when := zz.Choice("when", 4)
	if when == 3 {
		h.val["x"] = pattern(5, 3)
		issue2 := doSet(p, "x", h.val["x"], memcache.MSetOptions{})
		defer issue2()
	}
	f := doSet(p, "a", buf, memcache.MSetOptions{})
	if when == 0 || when == 3 {
		scribble(buf[:cap(buf)])
		h.val["b"] = append([]byte{}, buf...)
		g := doSet(p, "b", buf, memcache.MSetOptions{}) // the same buffer again
		scribble(buf)
		defer func() {
			r := g()
			zz.Assert(r.err == nil && r.typ == int(memcache.MSetResponseTypeHD), "the second set fails")
		}()
	}
	p.Execute()
	if when == 1 {
		scribble(buf)
	}
	if when == 2 {
		memcache.ReleaseGetResponseData(buf)
		q := cl.Pipeline()
		h.val["c"] = content(n, 9)
		doSet(q, "c", h.val["c"], memcache.MSetOptions{})
		q.Execute()
	}
	r := f()
	zz.Assert(r.err == nil && r.typ == int(memcache.MSetResponseTypeHD), "the set fails")
	zz.Assert(h.seen >= 1, "nothing was sent")
	zz.Cover("sent")
}

var sizes13 = [][]int{
	{1, 62, 64, 65},
	{0, 63, 100, 128},
	{64, 126, 127, 129},
	{30, 200, 256, 257},
	{1022, 1023, 1024, 1025},
	{1048574, 1048576, 1048577},
	{40, 2500, 4096, 9000},
}

var caps13 = []int{0, 1, 63, 64, 96, 127, 128, 256}

// ZZ_C13 runs every history of steps operations: gets and sets of several sizes, alone or in
// batches, releases of held values, of parts of them and of foreign slices, broken replies
// and broken connections.
func ZZ_C13(steps, set, batch, ops int) {
	h := newHeapBook()
	h.delay = zz.Bool("delay")
	cl := newClient(h.s, 1, memcache.WithMaxCommandsPerBatch(batch), memcache.WithWriteLimit(2))
	sz := sizes13[set]
	var ls []live
	k := 0
	get := func(ns ...int) {
		p := cl.Pipeline()
		var fs []future
		var keys []string
		for i, n := range ns {
			key := "g" + itoa(k)
			k++
			h.val[key] = content(n, k)
			if i == 1 {
				h.bad[key] = zz.Choice("bad", 4)
			}
			keys = append(keys, key)
			fs = append(fs, doGet(p, key, memcache.MGetOptions{}))
		}
		p.Execute()
		h.answer()
		for i, f := range fs {
			r := f()
			if h.bad[keys[i]] == 0 && r.err == nil {
				zz.Assert(r.typ == int(memcache.MGetResponseTypeVA), "a get fails")
				ls = append(ls, live{r.data, h.val[keys[i]]})
			} else {
				zz.Assert(len(r.data) == 0, "an error comes with a value")
				zz.Cover("error")
			}
		}
	}
	setv := func(n int) {
		key := "s" + itoa(k)
		k++
		v := content(n, k)
		h.val[key] = append([]byte{}, v...)
		p := cl.Pipeline()
		f := doSet(p, key, v, memcache.MSetOptions{})
		scribble(v)
		p.Execute()
		_ = f
	}
	for i := 0; i < steps; i++ {
		switch zz.Choice("op", ops) {
		case 0:
			get(sz[zz.Choice("size", len(sz))])
		case 1: // release a held value
			if len(ls) == 0 {
				zz.Kill()
			}
			j := zz.Choice("which", len(ls))
			memcache.ReleaseGetResponseData(ls[j].data)
			ls = append(append([]live{}, ls[:j]...), ls[j+1:]...)
		case 2:
			setv(sz[zz.Choice("size", len(sz))])
		case 3: // release a foreign slice
			c := caps13[zz.Choice("cap", len(caps13))]
			l := 0
			if zz.Bool("full") {
				l = c
			}
			memcache.ReleaseGetResponseData(make([]byte, l, c))
		case 4: // release the rear half of a value's memory, keep the front
			if len(ls) == 0 {
				zz.Kill()
			}
			j := len(ls) - 1
			d := ls[j].data
			c := cap(d)
			if c < 2 {
				zz.Kill()
			}
			memcache.ReleaseGetResponseData(d[:c][c/2:])
			n := len(d)
			if n > c/2 {
				n = c / 2
			}
			ls[j] = live{d[: n : c/2], ls[j].want[:n]}
		case 5:
			get(sz[0], sz[1], sz[2])
		case 6: // a released value that was sliced: its length does not count
			if len(ls) == 0 {
				zz.Kill()
			}
			j := len(ls) - 1
			memcache.ReleaseGetResponseData(ls[j].data[:0])
			ls = ls[:j]
		case 7:
			h.last().fail(io.EOF)
			zz.Quiesce()
		}
		checkLive(ls)
	}
	h.answer()
	get(sz[1])
	get(sz[1])
	setv(sz[0])
	setv(sz[0])
	h.answer()
	checkLive(ls)
	if len(ls) > 2 {
		zz.Cover("held")
	}
}

// ZZ_C13_Broken runs every history of steps operations on connections that break: gets, gets
// whose connection ends after any part of the reply, gets answered by garbage after a good
// value, and releases.
func ZZ_C13_Broken(steps, set, batch int) {
	h := newHeapBook()
	cl := newClient(h.s, 1, memcache.WithMaxCommandsPerBatch(batch))
	sz := sizes13[set]
	var ls []live
	k := 0
	cut := -1
	answer := h.s.onReq
	dead := map[int]bool{}
	h.s.onReq = func(c *fconn, r *request) {
		if dead[c.id] {
			return
		}
		if r.kind == "ms" || cut < 0 {
			answer(c, r)
			return
		}
		v := h.val[r.key]
		head := "VA " + itoa(len(v)) + "\r\n"
		t := head + string(v) + "\r\n"
		at := 0
		switch cut {
		case 1:
			at = len(head) - 1
		case 2:
			at = len(head)
		case 3:
			at = len(head) + len(v)/2
		case 4:
			at = len(head) + len(v)
		case 5:
			at = len(t) - 1
		case 6:
			at = len(t)
		}
		cut = -1
		dead[c.id] = true
		c.sendStr(t[:at])
		c.fail(io.EOF)
	}
	get := func(n, m int) {
		p := cl.Pipeline()
		var fs []future
		var keys []string
		for i := 0; i < m; i++ {
			key := "g" + itoa(k)
			k++
			h.val[key] = pattern(n, k)
			keys = append(keys, key)
			fs = append(fs, doGet(p, key, memcache.MGetOptions{}))
		}
		p.Execute()
		zz.Quiesce()
		for i, f := range fs {
			if r := f(); r.err == nil {
				zz.Assert(r.typ == int(memcache.MGetResponseTypeVA), "a get fails")
				ls = append(ls, live{r.data, h.val[keys[i]]})
			} else {
				zz.Assert(len(r.data) == 0, "an error comes with a value")
				zz.Cover("error")
			}
		}
	}
	for i := 0; i < steps; i++ {
		cut = -1
		switch zz.Choice("op", 4) {
		case 0:
			get(sz[zz.Choice("size", 2)], 1+zz.Choice("more", 2))
		case 1:
			cut = zz.Choice("cut", 7)
			get(sz[zz.Choice("size", 2)], 1+zz.Choice("more", 2))
			zz.Quiesce()
		case 2:
			if len(ls) == 0 {
				zz.Kill()
			}
			memcache.ReleaseGetResponseData(ls[0].data)
			ls = ls[1:]
		case 3:
			key := "g" + itoa(k)
			k++
			h.val[key], h.bad[key] = pattern(sz[0], k), 3
			f := doGet(cl.Pipeline(), key, memcache.MGetOptions{})
			zz.Assert(f().err != nil, "garbage is a value")
			zz.Quiesce()
		}
		checkLive(ls)
	}
	cut = -1
	for i := 0; i < 3; i++ {
		get(sz[i%2], 1)
	}
	p := cl.Pipeline()
	for i := 0; i < 2; i++ {
		key := "s" + itoa(i)
		h.val[key] = pattern(sz[i], 90+i)
		doSet(p, key, h.val[key], memcache.MSetOptions{})
	}
	p.Finish()
	checkLive(ls)
	zz.Cover("held")
}

// ZZ_C13_Sent runs every history of steps operations on a connection whose writes fail: sets
// answered, sets whose write fails after any of several amounts, gets and releases. The
// client's buffer has buf bytes.
func ZZ_C13_Sent(steps, set, m, batch, buf int) {
	h := newHeapBook()
	cl := newClient(h.s, 1, memcache.WithMaxCommandsPerBatch(batch), memcache.WithBufferSize(buf))
	sz := sizes13[set]
	var ls []live
	k := 0
	left := -1 // bytes that still get through
	h.s.writeErr = func(c *fconn, b []byte) (int, error) {
		if left < 0 || left >= len(b) {
			if left >= 0 {
				left -= len(b)
			}
			return len(b), nil
		}
		n := left
		left = -1
		zz.Cover("write fails")
		return n, errWrite
	}
	key := func(n int) string {
		k++
		key := "g" + itoa(k)
		h.val[key] = pattern(n, k)
		return key
	}
	get := func(n int) {
		key := key(n)
		if r := doGet(cl.Pipeline(), key, memcache.MGetOptions{})(); r.err == nil {
			zz.Assert(r.typ == int(memcache.MGetResponseTypeVA), "a get fails")
			ls = append(ls, live{r.data, h.val[key]})
		}
	}
	sets := func(n, m int) {
		p := cl.Pipeline()
		var fs []future
		for i := 0; i < m; i++ {
			key := key(n)
			fs = append(fs, doSet(p, key, h.val[key], memcache.MSetOptions{}))
		}
		for _, f := range fs {
			if r := f(); r.err != nil {
				zz.Assert(noValue(r), "an error comes with a value")
				zz.Cover("set fails")
			}
		}
	}
	for i := 0; i < steps; i++ {
		switch zz.Choice("op", 4) {
		case 0:
			get(sz[zz.Choice("size", 2)])
		case 1:
			sets(sz[zz.Choice("size", 2)], m)
		case 2:
			n := sz[zz.Choice("size", 2)]
			switch zz.Choice("where", 5) {
			case 0:
				left = 0
			case 1:
				left = 9
			case 2:
				left = 15 + n/2
			case 3:
				left = n + 16
			case 4:
				left = 2*n + 22
			}
			sets(n, m)
			left = -1
			zz.Quiesce()
		case 3:
			if len(ls) == 0 {
				zz.Kill()
			}
			memcache.ReleaseGetResponseData(ls[0].data)
			ls = ls[1:]
		}
		checkLive(ls)
	}
	for i := 0; i < 4; i++ {
		get(sz[i/2])
	}
	for i := 0; i < 2; i++ {
		sets(sz[i], 2)
	}
	checkLive(ls)
	if len(ls) > 4 {
		zz.Cover("held")
	}
}

// ZZ_C13_Fast reuses the commands of MGetFast by ReleaseMGetResult.
func ZZ_C13_Fast(rounds, m, batch int) {
	h := newHeapBook()
	cl := newClient(h.s, 1, memcache.WithMaxCommandsPerBatch(batch))
	var ls []live
	k := 0
	for i := 0; i < rounds; i++ {
		p := cl.Pipeline()
		var rs []memcache.MGetResult
		var keys []string
		for j := 0; j < m; j++ {
			key := "g" + itoa(k)
			k++
			h.val[key] = content(60+k%3, k)
			h.bad[key] = zz.Choice("bad", 2)
			r, err := p.MGetFast(key, memcache.MGetOptions{})
			zz.Assert(err == nil, "a valid key is rejected")
			rs = append(rs, r)
			keys = append(keys, key)
		}
		rev := zz.Bool("reverse")
		for j := range rs {
			x := j
			if rev {
				x = m - 1 - j
			}
			v, err := rs[x].Result()
			if h.bad[keys[x]] == 1 {
				zz.Assert(isServerErr(err, "no"), "a failed get does not report its error")
			} else {
				zz.Assert(err == nil && v.Type == memcache.MGetResponseTypeVA, "a get fails")
				ls = append(ls, live{v.Data, h.val[keys[x]]})
			}
			if zz.Bool("again") {
				_, err := rs[x].Result()
				zz.Assert(err == memcache.ErrAlreadyGotten, "a second Result succeeds")
			}
			memcache.ReleaseMGetResult(rs[x])
			if len(ls) > 0 && zz.Bool("release") {
				memcache.ReleaseGetResponseData(ls[0].data)
				ls = ls[1:]
			}
		}
		checkLive(ls)
	}
	zz.Cover("reused")
}
