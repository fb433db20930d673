package zzblack

import (
	"time"

	"github.com/QuangTung97/go-memcache/memcache"
	zz "github.com/QuangTung97/go-memcache/memcache/zzverif"
)

const (
	kGet = iota
	kSet
	kDel
	kVer
	kFlush
)

var kindName = [...]string{"mg", "ms", "md", "version", "flush_all"}

// res is the outcome of a command of any kind.
type res struct {
	err   error
	typ   int
	data  []byte
	flags uint64
	cas   uint64
	ver   string
}

type future func() res

func doGet(p *memcache.Pipeline, key string, o memcache.MGetOptions) future {
	f := p.MGet(key, o)
	return func() res {
		r, err := f()
		return res{err: err, typ: int(r.Type), data: r.Data, flags: uint64(r.Flags), cas: r.CAS}
	}
}

func doSet(p *memcache.Pipeline, key string, v []byte, o memcache.MSetOptions) future {
	f := p.MSet(key, v, o)
	return func() res {
		r, err := f()
		return res{err: err, typ: int(r.Type)}
	}
}

func doDel(p *memcache.Pipeline, key string, o memcache.MDelOptions) future {
	f := p.MDel(key, o)
	return func() res {
		r, err := f()
		return res{err: err, typ: int(r.Type)}
	}
}

func doVer(p *memcache.Pipeline) future {
	f := p.Version()
	return func() res {
		r, err := f()
		return res{err: err, ver: r.Version}
	}
}

func doFlush(p *memcache.Pipeline) future {
	f := p.FlushAll()
	return func() res { return res{err: f()} }
}

// issue adds a plain command of the kind.
func issue(p *memcache.Pipeline, kind int, key string) future {
	switch kind {
	case kGet:
		return doGet(p, key, memcache.MGetOptions{})
	case kSet:
		return doSet(p, key, []byte(key), memcache.MSetOptions{})
	case kDel:
		return doDel(p, key, memcache.MDelOptions{})
	case kVer:
		return doVer(p)
	}
	return doFlush(p)
}

func newClient(s *server, conns int, opts ...memcache.Option) *memcache.Client {
	o := []memcache.Option{memcache.WithDialFunc(s.dial), memcache.WithHealthCheckDuration(1000 * time.Hour),
		memcache.WithDialErrorLogger(func(error) {})}
	c, err := memcache.New("srv:1", conns, append(o, opts...)...)
	if err != nil {
		zz.Fail("New fails")
	}
	return c
}

// replyOK answers every request with a plain success.
func replyOK(c *fconn, r *request) { c.sendStr(okReply(r.kind)) }

func okReply(kind string) string {
	switch kind {
	case "mg":
		return "EN\r\n"
	case "version":
		return "VERSION 1.6\r\n"
	case "flush_all":
		return "OK\r\n"
	}
	return "HD\r\n"
}

// isOK tells whether r is the outcome of okReply.
func isOK(kind int, r res) bool {
	if r.err != nil {
		return false
	}
	switch kind {
	case kGet:
		return r.typ == int(memcache.MGetResponseTypeEN) && len(r.data) == 0
	case kSet:
		return r.typ == int(memcache.MSetResponseTypeHD)
	case kDel:
		return r.typ == int(memcache.MDelResponseTypeHD)
	case kVer:
		return r.ver == "1.6"
	}
	return true
}

func bytesOf(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = zz.Byte(name)
	}
	return b
}

// pattern is concrete content of length n that differs between seeds.
func pattern(n, seed int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + seed*13 + i>>8)
	}
	return b
}

func eqRes(a, b res) bool {
	if (a.err == nil) != (b.err == nil) {
		return false
	}
	if a.err != nil && a.err.Error() != b.err.Error() {
		return false
	}
	return a.typ == b.typ && a.flags == b.flags && a.cas == b.cas && a.ver == b.ver && string(a.data) == string(b.data)
}

func outRes(k string, r res) {
	if r.err != nil {
		zz.OutStr(k+".err", r.err.Error())
	}
	zz.OutInt(k+".typ", uint64(r.typ))
	zz.OutInt(k+".flags", r.flags)
	zz.OutInt(k+".cas", r.cas)
	zz.OutStr(k+".data", string(r.data))
	zz.OutStr(k+".ver", r.ver)
}

func noValue(r res) bool {
	return r.typ == 0 && len(r.data) == 0 && r.flags == 0 && r.cas == 0 && r.ver == ""
}

func isServerErr(err error, msg string) bool {
	e, ok := err.(memcache.ErrServerError)
	return ok && e.Message == msg
}

func isClientErr(err error, msg string) bool {
	e, ok := err.(memcache.ErrClientError)
	return ok && e.Message == msg
}
