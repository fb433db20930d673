package zzblack

import (
	"bytes"
	"errors"

	"github.com/QuangTung97/go-memcache/memcache"
	zz "github.com/QuangTung97/go-memcache/memcache/zzverif"
)

// tagged answers each request with a reply that identifies it: want maps the key, or the
// position for requests without key, to the outcome.
type tagged struct {
	s    *server
	n    int
	alts int // how many reply shapes to choose from
	want map[string]res
	pos  []res  // in order of arrival
	pad  string // appended to every value and message
}

func (t *tagged) reply(c *fconn, r *request) {
	t.n++
	tag := uint64(100 + t.n)
	cs := itoa(int(tag))
	ts := cs + t.pad
	var w res
	txt := ""
	k := 0
	if t.alts > 1 {
		k = zz.Choice("alt", t.alts)
	}
	if k == 2 {
		txt = "SERVER_ERROR e" + ts + "\r\n"
		w.err = memcache.ErrServerError{Message: "e" + ts}
	} else {
		switch r.kind {
		case "mg":
			w.cas = tag
			if k == 0 {
				d := "v" + ts
				if t.n%3 == 0 {
					d = ""
				}
				w.typ, w.data = int(memcache.MGetResponseTypeVA), []byte(d)
				txt = "VA " + itoa(len(d)) + " c" + cs + "\r\n" + d + "\r\n"
			} else {
				w.typ = int(memcache.MGetResponseTypeHD)
				txt = "HD c" + cs + "\r\n"
			}
		case "ms":
			st := [...]string{"HD", "NS", "EX", "NF"}
			ty := [...]memcache.MSetResponseType{memcache.MSetResponseTypeHD, memcache.MSetResponseTypeNS, memcache.MSetResponseTypeEX, memcache.MSetResponseTypeNF}
			w.typ, txt = int(ty[(t.n+k)%4]), st[(t.n+k)%4]+"\r\n"
		case "md":
			st := [...]string{"HD", "NF", "EX"}
			ty := [...]memcache.MDelResponseType{memcache.MDelResponseTypeHD, memcache.MDelResponseTypeNF, memcache.MDelResponseTypeEX}
			w.typ, txt = int(ty[(t.n+k)%3]), st[(t.n+k)%3]+"\r\n"
		case "version":
			w.ver = "V" + ts
			txt = "VERSION V" + ts + "\r\n"
		case "flush_all":
			txt = "OK\r\n"
			if t.n%2 == 0 && k == 0 {
				w.err = memcache.ErrServerError{Message: "f" + ts}
				txt = "SERVER_ERROR f" + ts + "\r\n"
			}
		}
	}
	t.pos = append(t.pos, w)
	c.sendStr(txt)
}

// ZZ_C04 issues n commands of every kind, with every gap action, and asks the results in
// every rotation and both directions.
func ZZ_C04(n, batch, alts int) {
	t := &tagged{alts: alts}
	s := &server{onReq: t.reply}
	t.s = s
	cl := newClient(s, 1, memcache.WithMaxCommandsPerBatch(batch))
	p := cl.Pipeline()
	fs := make([]future, n)
	got := make([]res, n)
	have := make([]bool, n)
	for i := 0; i < n; i++ {
		fs[i] = issue(p, zz.Choice("kind", 5), "k"+itoa(i))
		if i+1 < n {
			switch zz.Choice("gap", 4) {
			case 1:
				p.Execute()
			case 2:
				p.Finish()
				zz.Assert(s.answered() == i+1, "Finish returns before every reply was read")
			case 3:
				got[i], have[i] = fs[i](), true
			}
		}
	}
	start, dir := zz.Choice("start", n), zz.Choice("dir", 2)
	for k := 0; k < n; k++ {
		i := (start + k) % n
		if dir == 1 {
			i = (start + n - k) % n
		}
		r := fs[i]()
		if have[i] {
			zz.Assert(errors.Is(r.err, memcache.ErrAlreadyGotten) && noValue(r), "a result can be gotten twice")
			continue
		}
		got[i], have[i] = r, true
	}
	zz.Assert(len(t.pos) == n, "the number of requests differs from the number of commands")
	for i := 0; i < n; i++ {
		zz.Assert(eqRes(got[i], t.pos[i]), "a command does not get its own reply")
		r := fs[i]()
		zz.Assert(errors.Is(r.err, memcache.ErrAlreadyGotten) && noValue(r), "a result can be gotten twice")
	}
	outRes("first", got[0])
	zz.Cover("answered")
}

// answered is the number of requests whose replies have been read completely.
func (s *server) answered() int {
	n := 0
	for _, c := range s.conns {
		if len(c.out) == 0 {
			n += len(c.reqs)
		}
	}
	return n
}

// ZZ_C04_Share runs np pipelines on one connection in one goroutine with n steps chosen
// among issuing, executing, finishing and asking on any of them.
func ZZ_C04_Share(np, n, batch int) {
	t := &tagged{alts: 1}
	s := &server{}
	byKey := map[string]res{}
	s.onReq = func(c *fconn, r *request) {
		t.reply(c, r)
		byKey[r.key] = t.pos[len(t.pos)-1]
	}
	cl := newClient(s, 1, memcache.WithMaxCommandsPerBatch(batch))
	type cmd struct {
		f   future
		key string
		ok  bool
	}
	ps := make([]*memcache.Pipeline, np)
	cs := make([][]*cmd, np)
	for i := range ps {
		ps[i] = cl.Pipeline()
	}
	cnt := 0
	ask := func(c *cmd) {
		r := c.f()
		if c.ok {
			zz.Assert(errors.Is(r.err, memcache.ErrAlreadyGotten) && noValue(r), "a result can be gotten twice")
			return
		}
		c.ok = true
		w, ok := byKey[c.key]
		zz.Assert(ok, "a result arrives for a command never sent")
		zz.Assert(eqRes(r, w), "a command does not get its own reply")
	}
	for i := 0; i < n; i++ {
		k := zz.Choice("pipe", np)
		switch a := zz.Choice("act", 5); a {
		case 0, 1:
			key := "k" + itoa(cnt)
			c := &cmd{key: key}
			if a == 0 {
				c.f = issue(ps[k], kGet, key)
			} else {
				c.f = issue(ps[k], kSet+cnt%2, key)
			}
			cnt++
			cs[k] = append(cs[k], c)
		case 2:
			ps[k].Execute()
		case 3:
			ps[k].Finish()
		case 4:
			if len(cs[k]) == 0 {
				zz.Kill()
			}
			j := zz.Choice("which", len(cs[k]))
			ask(cs[k][j])
		}
	}
	total := 0
	for i := range ps {
		ps[i].Finish()
		total += len(cs[i])
	}
	zz.Assert(len(byKey) == total && t.n == total, "Finish leaves commands unsent, or a command is sent twice")
	for i := range ps {
		for _, c := range cs[i] {
			ask(c)
		}
	}
	zz.Cover("answered")
}

// ZZ_C04_Long checks a long pipeline, its results asked backwards or forwards.
// The values and messages are longer by pad bytes.
func ZZ_C04_Long(n, batch, buf, pad int) {
	t := &tagged{alts: 1, pad: string(bytes.Repeat([]byte("p"), pad))}
	s := &server{onReq: t.reply}
	var opts []memcache.Option
	if batch > 0 {
		opts = append(opts, memcache.WithMaxCommandsPerBatch(batch))
	}
	if buf > 0 {
		opts = append(opts, memcache.WithBufferSize(buf))
	}
	cl := newClient(s, 1, opts...)
	for round := 0; round < 2; round++ {
		p := cl.Pipeline()
		t.pos = nil
		fs := make([]future, n)
		for i := range fs {
			fs[i] = issue(p, (i*3+i/7+round)%5, "k"+itoa(i))
		}
		rev := zz.Choice("rev", 2)
		for k := range fs {
			i := k
			if rev == 1 {
				i = n - 1 - k
			}
			zz.Assert(eqRes(fs[i](), t.pos[i]), "a command does not get its own reply")
		}
	}
	zz.Cover("answered")
}

// ZZ_C04_Break issues np pipelines of m commands in batches of the size on one connection:
// any one of the first nw writes or of the first nr reads fails, any of the first nd dials,
// or the server gives a bad reply to any one of the first nbad requests. The client
// reconnects while the pipelines are in progress.
func ZZ_C04_Break(np, m, batch, limit, nw, nr, nd, nbad, preempt int) {
	s := &server{}
	b := newBook()
	f := newFaults(0, nr, nd)
	if nw > 0 {
		f.w, f.wn, f.cut = zz.IntRange("failing write", 0, nw), nw, 5*zz.Choice("some bytes arrive", 2)
	}
	f.install(s)
	bad := -1
	if nbad > 0 {
		bad = zz.IntRange("bad reply", 0, nbad)
	}
	s.onReq = func(c *fconn, r *request) {
		t := b.answer(c, r)
		n := b.count - 1
		if n < nbad && n == bad {
			delete(b.want, r.key)
			t = "ERROR\r\n"
		}
		c.sendStr(t)
	}
	cl := newClient(s, 1, memcache.WithMaxCommandsPerBatch(batch), memcache.WithWriteLimit(limit), memcache.WithRetryDuration(0))
	zz.Quiesce()
	zz.Preempt(preempt)
	cnt := np
	var done uint32
	for g := 0; g < np; g++ {
		g := g
		go func() {
			p := cl.Pipeline()
			var cs []issued
			for j := 0; j < m; j++ {
				key := "k" + itoa(g) + "." + itoa(j)
				cs = append(cs, issued{key, j % 3, issue(p, j%3, key)})
			}
			for _, x := range cs {
				b.check(x.key, x.f())
			}
			cnt--
			if cnt == 0 {
				done = 1
			}
		}()
	}
	zz.Block(&done)
	zz.Preempt(0)
	zz.Quiesce()
	b.kept(s)
	if len(s.conns) > 1 {
		zz.Cover("reconnected")
	}
	if len(b.lost) > 0 {
		zz.Cover("lost")
	}
}

// ZZ_C04_Clients runs two clients with different batch sizes in one process, with n steps
// chosen among issuing on a new pipeline, finishing the oldest and closing either client.
func ZZ_C04_Clients(b0, b1, per, n int) {
	batch := [2]int{b0, b1}
	type open struct {
		p    *memcache.Pipeline
		keys []string
		fs   []future
		sent bool
	}
	var cl [2]*memcache.Client
	var books [2]*book
	var ps [2][]*open
	var closed [2]bool
	cnt := 0
	for i := range cl {
		b := newBook()
		books[i] = b
		i := i
		cl[i] = newClient(&server{onReq: func(c *fconn, r *request) {
			zz.Assert(r.key[0] == byte('a'+i), "a command is sent by another client")
			b.reply(c, r)
		}}, 1, memcache.WithMaxCommandsPerBatch(batch[i]), memcache.WithWriteLimit(3+2*i))
	}
	finish := func(i int) {
		o := ps[i][0]
		ps[i] = ps[i][1:]
		for j, f := range o.fs {
			r := f()
			if closed[i] && !o.sent {
				zz.Assert(errors.Is(r.err, memcache.ErrConnClosed) && noValue(r), "a command issued after Close gives another result")
				zz.Cover("closed")
				continue
			}
			zz.Assert(r.err == nil, "a command fails although nothing is wrong with its connection")
			books[i].check(o.keys[j], r)
			zz.Cover("answered")
		}
	}
	for s := 0; s < n; s++ {
		i := zz.Choice("client", 2)
		switch zz.Choice("act", 3) {
		case 0:
			o := &open{p: cl[i].Pipeline()}
			for j := 0; j < per; j++ {
				key := string([]byte{byte('a' + i)}) + itoa(cnt)
				cnt++
				o.keys = append(o.keys, key)
				o.fs = append(o.fs, issue(o.p, [...]int{kGet, kDel, kSet}[j%3], key))
			}
			if zz.Choice("execute", 2) == 1 {
				o.p.Execute()
				o.sent = !closed[i]
			}
			ps[i] = append(ps[i], o)
		case 1:
			if len(ps[i]) == 0 {
				zz.Kill()
			}
			finish(i)
		case 2:
			if closed[i] {
				zz.Kill()
			}
			closed[i] = true
			zz.Assert(cl[i].Close() == nil, "Close fails")
		}
	}
	for i := range cl {
		for len(ps[i]) > 0 {
			finish(i)
		}
	}
}
