package zzblack

import (
	"github.com/QuangTung97/go-memcache/memcache"
	zz "github.com/QuangTung97/go-memcache/memcache/zzverif"
)

// book answers every request with a reply of its own and remembers it; commands are
// identified by their keys, which are unique.
type book struct {
	want  map[string]res // outcome of the reply sent
	conn  map[string]int // connection that carried the request
	count int            // requests received
	line  string         // last reply
	sym   bool           // values end with an arbitrary byte
	lost  []int          // connections that carried commands that failed
}

func newBook() *book { return &book{want: map[string]res{}, conn: map[string]int{}} }

// answer records r and returns its reply.
func (b *book) answer(c *fconn, r *request) string {
	b.count++
	if r.key == "" {
		return okReply(r.kind)
	}
	if _, ok := b.conn[r.key]; ok {
		zz.Fail("a command is sent twice")
	}
	b.conn[r.key] = c.id
	var w res
	var t string
	n := len(b.want) + c.id
	switch r.kind {
	case "mg":
		v := r.key + "/" + itoa(c.id)
		if b.sym {
			v += string([]byte{zz.Byte("value")})
		}
		if n%3 == 2 {
			t, w = "HD W c9\r\n", res{typ: int(memcache.MGetResponseTypeHD), flags: uint64(memcache.MGetFlagW), cas: 9}
		} else {
			t = "VA " + itoa(len(v)) + " c" + itoa(n+1) + "\r\n" + v + "\r\n"
			w = res{typ: int(memcache.MGetResponseTypeVA), cas: uint64(n + 1), data: []byte(v)}
		}
	case "ms":
		k := n % 4
		t = [...]string{"HD\r\n", "NS\r\n", "EX\r\n", "NF\r\n"}[k]
		w = res{typ: int(memcache.MSetResponseTypeHD) + k}
	case "md":
		k := n % 3
		t = [...]string{"HD\r\n", "NF\r\n", "EX\r\n"}[k]
		w = res{typ: int(memcache.MDelResponseTypeHD) + k}
	}
	b.want[r.key] = w
	return t
}

func (b *book) reply(c *fconn, r *request) { c.sendStr(b.answer(c, r)) }

// check states that a successful result is the reply to its own command.
func (b *book) check(key string, r res) {
	if r.err != nil {
		zz.Assert(noValue(r), "an error comes with a value")
		if _, ok := b.want[key]; ok {
			b.lost = append(b.lost, b.conn[key])
		}
		return
	}
	w, ok := b.want[key]
	zz.Assert(ok, "a command that was never answered succeeds")
	zz.Assert(eqRes(r, w), "a command does not get its own reply")
}

// kept states, once everything has settled and before Close, that a command that was
// answered has failed only when its connection was given up.
func (b *book) kept(s *server) {
	for _, id := range b.lost {
		zz.Assert(s.conns[id].closed, "a command that was answered on a connection still in use fails")
	}
}
