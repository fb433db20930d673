package zzblack

import (
	"io"
	"net"
	"time"

	"github.com/QuangTung97/go-memcache/memcache"
	"github.com/QuangTung97/go-memcache/memcache/netconn"
	zz "github.com/QuangTung97/go-memcache/memcache/zzverif"
)

func authMsg(user, pass string) string {
	return "set memcached_auth 0 0 " + itoa(len(user)+1+len(pass)) + "\r\n" + user + " " + pass + "\r\n"
}

const stored = "STORED\r\n"

// ZZ_C16 makes one authenticated dial: nu and np bytes of the user name and the password are
// arbitrary (after pu and pp concrete ones); the server answers STORED with na arbitrary bytes
// from position at on, followed by surplus bytes, cut into reads by cut (3: the last read reports the end as well, 4: an empty read); any failure: dial,
// write (after any number of bytes), read (after any number of bytes), EOF likewise.
func ZZ_C16(nu, np, pu, pp, at, na, cut int) {
	user := string(append(pattern(pu, 1), bytesOf("user", nu)...))
	pass := string(append(pattern(pp, 2), bytesOf("pass", np)...))
	zz.OutStr("user", user)
	zz.OutStr("pass", pass)
	s := &server{together: cut == 3}
	ans := []byte(stored)
	for i := 0; i < na; i++ {
		x := zz.Byte("answer")
		if at+i < len(ans) {
			ans[at+i] = x
		} else {
			ans = append(ans, x)
		}
	}
	ok := len(ans) >= len(stored) && string(ans[:len(stored)]) == stored
	how := zz.Choice("failure", 5)
	k := 0
	switch how {
	case 1:
		s.dialErr = func(int) error { return errDial }
	case 2: // write fails
		k = zz.IntRange("written", 0, len(authMsg(user, pass)))
		s.writeErr = func(c *fconn, b []byte) (int, error) {
			n := k
			if n > len(b) {
				n = len(b)
			}
			return n, errWrite
		}
	case 3, 4: // read fails after k bytes
		k = zz.IntRange("received", 0, len(stored)-1)
		if k >= len(ans) {
			zz.Kill()
		}
		ans = ans[:k]
		ok = false
	}
	switch cut {
	case 1: // byte by byte
		s.readCut = func(c *fconn, avail int) int { return 1 }
	case 2, 3: // one cut anywhere
		m := zz.IntRange("first read", 1, len(stored))
		s.readCut = func(c *fconn, avail int) int {
			if c.consumed() < m {
				return m - c.consumed()
			}
			return avail
		}
	case 4: // a read without data anywhere
		m := zz.IntRange("read before", 0, len(stored)-1)
		empty := true
		s.readCut = func(c *fconn, avail int) int {
			if c.consumed() < m {
				return m - c.consumed()
			}
			if c.consumed() == m && empty {
				empty = false
				return 0
			}
			return avail
		}
	}
	s.onWrite = func(c *fconn, b []byte) {
		if len(c.in) < len(authMsg(user, pass)) || c.total > 0 {
			return
		}
		c.send(ans)
		switch how {
		case 3:
			c.fail(errRead)
		case 4:
			c.fail(io.EOF)
		default:
			if len(ans) < len(stored) || cut == 3 {
				c.fail(io.EOF)
			}
		}
	}
	var seen []string
	dial := func(network, addr string, timeout time.Duration) (net.Conn, error) {
		seen = append(seen, network+" "+addr)
		zz.Assert(timeout == 3*time.Second, "the connect timeout is changed")
		return s.dial(network, addr, timeout)
	}
	auth, err := netconn.NewPasswordAuth(user, pass)
	zz.Assert(err == nil, "NewPasswordAuth fails")
	nc, err := auth.GetDialFunc(dial)("tcp", "host:7", 3*time.Second)
	zz.Assert(len(seen) == 1 && seen[0] == "tcp host:7", "the dial function is not called exactly once as asked")
	if how == 1 {
		zz.Assert(err == errDial && nc == nil, "the dial error is not passed through")
		zz.Cover("dial")
		return
	}
	c := s.conns[0]
	if how == 2 {
		zz.Assert(err == errWrite && nc == nil && c.closed, "a failed write does not close the connection with its error")
		zz.Cover("write")
		return
	}
	zz.Assert(string(c.in) == authMsg(user, pass), "the first bytes on the connection are not the authentication request")
	if ok {
		zz.Assert(err == nil && nc == net.Conn(c), "the connection is refused although the server answered STORED")
		zz.Assert(!c.closed, "an accepted connection is closed")
		zz.Assert(c.consumed() == len(stored), "more or less than the answer is consumed")
		zz.Cover("accepted")
		return
	}
	zz.Assert(err != nil && nc == nil, "the connection is used although the server did not answer STORED")
	zz.Assert(c.closed, "a refused connection is left open")
	zz.Assert(string(c.in) == authMsg(user, pass), "bytes are sent after a wrong answer")
	switch {
	case how == 3:
		zz.Assert(err == errRead, "the read error is not returned")
		zz.Cover("read")
	case how == 4 || len(ans) < len(stored):
		zz.Assert(err != netconn.ErrInvalidUsernamePassword || k > 0, "the read error is not returned")
		zz.Cover("short")
	default:
		zz.Assert(err == netconn.ErrInvalidUsernamePassword, "a wrong answer is not reported as invalid credentials")
		zz.Cover("refused")
	}
}

// ZZ_C16_Client runs a client whose connections authenticate; any of the first connections
// is refused or broken during the handshake, and the connection in use breaks.
func ZZ_C16_Client(conns, steps int) {
	s := &server{}
	auth, _ := netconn.NewPasswordAuth("u", "p w")
	msg := authMsg("u", "p w")
	b := newBook()
	refuse := map[int]int{}
	acc := map[int]bool{}
	s.onWrite = func(c *fconn, p []byte) {
		if acc[c.id] {
			return
		}
		n := len(c.in)
		if n > len(msg) {
			n = len(msg)
		}
		zz.Assert(string(c.in[:n]) == msg[:n] && len(c.in) <= len(msg), "the first bytes on a connection are not the authentication request")
		if n < len(msg) {
			return
		}
		how, ok := refuse[c.id]
		if !ok {
			how = zz.Choice("refuse", 4)
			refuse[c.id] = how
		}
		switch how {
		case 0:
			acc[c.id] = true
			c.parsed = len(msg)
			c.sendStr(stored)
		case 1:
			c.sendStr("CLIENT_ERROR authentication failure\r\n")
		case 2:
			c.sendStr("STO")
			c.fail(io.EOF)
		case 3:
			c.fail(errRead)
		}
	}
	s.onReq = func(c *fconn, r *request) {
		zz.Assert(acc[c.id], "a command is sent on a connection that is not authenticated")
		b.reply(c, r)
	}
	parse := s.onReq
	s.onReq = nil
	s.writeErr = func(c *fconn, p []byte) (int, error) {
		s.onReq = nil
		if acc[c.id] {
			s.onReq = parse
		}
		return len(p), nil
	}
	logged := 0
	cl := newClient(s, conns, memcache.WithDialFunc(auth.GetDialFunc(s.dial)), memcache.WithRetryDuration(40*time.Second),
		memcache.WithDialErrorLogger(func(err error) {
			zz.Assert(err != nil, "no error is logged")
			logged++
		}))
	good := 0
	for i := 0; i < steps; i++ {
		if zz.Bool("break") {
			for _, c := range s.conns {
				if !c.closed {
					c.fail(errRead)
				}
			}
		}
		time.Sleep(time.Minute)
		p := cl.Pipeline()
		key := "k" + itoa(i)
		f := issue(p, i%3, key)
		r := f()
		b.check(key, r)
		if r.err == nil {
			good++
			zz.Cover("value")
		} else {
			zz.Cover("error")
		}
	}
	for _, c := range s.conns {
		if !acc[c.id] {
			zz.Assert(c.closed, "a refused connection is left open")
			zz.Cover("refused")
		}
	}
	zz.Assert(cl.Close() == nil, "Close fails")
	for _, c := range s.conns {
		zz.Assert(c.closed, "a connection outlives Close")
	}
	refused := 0
	for _, h := range refuse {
		if h != 0 {
			refused++
		}
	}
	zz.Assert(logged == refused, "not every failed dial is reported once")
}

// ZZ_C16_Mute has a server that stops talking at any point of the handshake: the dial ends.
func ZZ_C16_Mute() {
	s := &server{timeout: true}
	k := zz.IntRange("answered", 0, len(stored)-1)
	s.onWrite = func(c *fconn, b []byte) {
		if k > 0 {
			c.send([]byte(stored)[:k])
		}
	}
	auth, _ := netconn.NewPasswordAuth("user", "password")
	t := zz.Now()
	nc, err := auth.GetDialFunc(s.dial)("tcp", "host:7", 5*time.Second)
	zz.Assert(err != nil && nc == nil, "the connection is used although the server did not answer")
	zz.Assert(s.conns[0].closed, "the connection is left open")
	zz.Assert(zz.Now()-t <= int64(6*time.Second), "the handshake is not bounded by the connect timeout")
	zz.Cover("ended")
}
