package zzblack

import (
	"errors"
	"net"
	"time"

	zz "github.com/QuangTung97/go-memcache/memcache/zzverif"
)

var (
	errDial    = errors.New("fake: dial error")
	errRead    = errors.New("fake: read error")
	errWrite   = errors.New("fake: write error")
	errClosed  = errors.New("fake: use of closed connection")
	errTimeout = errors.New("fake: i/o timeout")
)

// server is the passive peer: its logic runs inside Dial, Write and Read of the fake
// connections, atomically between two scheduling points.
type server struct {
	conns    []*fconn
	dials    int           // dial attempts
	dialing  int           // dial attempts under way
	dialTime time.Duration // what a dial takes
	addrs    []string

	dialErr  func(n int) error          // n counts attempts from 0
	onDial   func(c *fconn)             // a connection was opened
	onWrite  func(c *fconn, b []byte)   // bytes arrived (already appended to c.in)
	onReq    func(c *fconn, r *request) // a complete request arrived
	writeErr func(c *fconn, b []byte) (int, error)
	readCut  func(c *fconn, avail int) int // how many of the available bytes one Read returns
	readErr  func(c *fconn) error          // fails a Read that has data
	yield    bool                          // Read and Write are scheduling points of their own
	together bool                          // the error comes with the last bytes
	timeout  bool                          // a Read with nothing to read fails at its deadline

	beforeRead  func(c *fconn, p []byte)
	afterRead   func(c *fconn)
	beforeWrite func(c *fconn, p []byte)
	setErr      func(c *fconn, op string) error // fails a Set...Deadline call
	stall       func(c *fconn) bool             // a Write makes no progress until its deadline
}

type fconn struct {
	srv    *server
	id     int
	in     []byte // everything the client wrote
	parsed int
	out    []byte // bytes not read yet
	ready  uint32 // not zero: Read can return
	rdErr  error  // given once out is used up
	closed bool
	closes int
	opened int // dial attempt that opened it
	total  int // bytes sent to the client
	mute   bool
	reqs   []*request
	eofs   int
	held   string // replies not sent yet

	readDl, writeDl time.Time
	reads, writes   int
	reading         bool   // a Read is pending
	wready          uint32 // a stalled Write can return
}

func (s *server) dial(network, addr string, timeout time.Duration) (net.Conn, error) {
	n := s.dials
	s.dials++
	s.addrs = append(s.addrs, addr)
	s.dialing++
	defer func() { s.dialing-- }()
	if s.yield {
		zz.Yield()
	}
	if s.dialTime > 0 {
		time.Sleep(s.dialTime)
	}
	if s.dialErr != nil {
		if err := s.dialErr(n); err != nil {
			return nil, err
		}
	}
	c := &fconn{srv: s, id: len(s.conns), opened: n}
	s.conns = append(s.conns, c)
	if s.onDial != nil {
		s.onDial(c)
	}
	return c, nil
}

// send makes bytes available to the client.
func (c *fconn) send(b []byte) {
	c.out = append(c.out, b...)
	c.total += len(b)
	c.ready = 1
}

func (c *fconn) sendStr(s string) {
	c.out = append(c.out, s...)
	c.total += len(s)
	c.ready = 1
}

// consumed is the number of bytes the client has read.
func (c *fconn) consumed() int { return c.total - len(c.out) }

// fail makes Read return err once everything sent has been read.
func (c *fconn) fail(err error) {
	c.rdErr = err
	c.ready = 1
}

func (c *fconn) Read(p []byte) (int, error) {
	c.reads++
	if c.srv.beforeRead != nil {
		c.srv.beforeRead(c, p)
	}
	if c.srv.timeout && c.ready == 0 && !c.closed && !c.readDl.IsZero() {
		c.armTimeout()
	}
	c.reading = true
	zz.Block(&c.ready)
	c.reading = false
	if c.srv.afterRead != nil {
		c.srv.afterRead(c)
	}
	if c.closed {
		return 0, errClosed
	}
	if len(c.out) == 0 {
		if c.rdErr != nil {
			c.eofs++
			return 0, c.rdErr
		}
		zz.Fail("harness: nothing to read")
	}
	if c.srv.readErr != nil && len(c.out) > 0 {
		if err := c.srv.readErr(c); err != nil {
			c.out = nil
			c.rdErr = err
			return 0, err
		}
	}
	n := len(c.out)
	if n > len(p) {
		n = len(p)
	}
	if c.srv.readCut != nil {
		if k := c.srv.readCut(c, n); k < n {
			n = k
		}
	}
	copy(p, c.out[:n])
	c.out = c.out[n:]
	if len(c.out) == 0 && c.rdErr == nil {
		c.ready = 0
	}
	if len(c.out) == 0 && c.rdErr != nil && c.srv.together {
		return n, c.rdErr
	}
	return n, nil
}

func (c *fconn) armTimeout() {
	r := c.reads
	d := time.Until(c.readDl)
	time.AfterFunc(d, func() {
		if c.reading && c.ready == 0 && c.reads == r && !c.closed {
			c.rdErr = errTimeout
			c.ready = 1
		}
	})
}

func (c *fconn) Write(p []byte) (int, error) {
	c.writes++
	if c.srv.yield {
		zz.Yield()
	}
	if c.closed {
		return 0, errClosed
	}
	if c.srv.beforeWrite != nil {
		c.srv.beforeWrite(c, p)
	}
	if c.srv.stall != nil && c.srv.stall(c) {
		c.wready = 0
		time.AfterFunc(time.Until(c.writeDl), func() { c.wready = 1 })
		zz.Block(&c.wready)
		if c.closed {
			return 0, errClosed
		}
		return 0, errTimeout
	}
	n := len(p)
	var err error
	if c.srv.writeErr != nil {
		n, err = c.srv.writeErr(c, p)
	}
	c.in = append(c.in, p[:n]...)
	if c.srv.onWrite != nil {
		c.srv.onWrite(c, p[:n])
	}
	if c.srv.onReq != nil {
		c.parse()
	}
	return n, err
}

func (c *fconn) Close() error {
	c.closed = true
	c.closes++
	c.ready = 1
	c.wready = 1
	return nil
}

func (c *fconn) LocalAddr() net.Addr  { return nil }
func (c *fconn) RemoteAddr() net.Addr { return nil }

func (c *fconn) setFails(op string) error {
	if c.srv.setErr != nil {
		return c.srv.setErr(c, op)
	}
	return nil
}

func (c *fconn) SetDeadline(t time.Time) error {
	if err := c.setFails("both"); err != nil {
		return err
	}
	c.readDl, c.writeDl = t, t
	return nil
}

func (c *fconn) SetReadDeadline(t time.Time) error {
	if err := c.setFails("read"); err != nil {
		return err
	}
	c.readDl = t
	return nil
}

func (c *fconn) SetWriteDeadline(t time.Time) error {
	if err := c.setFails("write"); err != nil {
		return err
	}
	c.writeDl = t
	return nil
}

// request is one parsed client request.
type request struct {
	n    int    // position on its connection
	kind string // mg ms md version flush_all
	line string
	key  string
	val  []byte
	c    *fconn
}

// parse cuts complete requests off c.in. The harness only issues keys and options whose
// bytes are concrete up to the first space after the key.
func (c *fconn) parse() {
	for {
		b := c.in[c.parsed:]
		e := -1
		for i := 0; i+1 < len(b); i++ {
			if b[i] == '\r' && b[i+1] == '\n' {
				e = i
				break
			}
		}
		if e < 0 {
			return
		}
		line := string(b[:e])
		r := &request{n: len(c.reqs), line: line, c: c}
		f := fields(line)
		if len(f) == 0 {
			zz.Fail("an empty request line was sent")
		}
		r.kind = f[0]
		if len(f) > 1 {
			r.key = f[1]
		}
		used := e + 2
		if r.kind == "ms" {
			if len(f) < 3 {
				zz.Fail("a malformed ms request was sent")
			}
			n := atoi(f[2])
			if n < 0 {
				zz.Fail("a malformed ms request was sent")
			}
			if len(b) < used+n+2 {
				return
			}
			r.val = append([]byte{}, b[used:used+n]...)
			if b[used+n] != '\r' || b[used+n+1] != '\n' {
				zz.Fail("a value block is not terminated")
			}
			used += n + 2
		}
		c.parsed += used
		c.reqs = append(c.reqs, r)
		c.srv.onReq(c, r)
	}
}

func fields(s string) []string {
	var out []string
	i := 0
	for j := 0; j <= len(s); j++ {
		if j == len(s) || s[j] == ' ' {
			if j > i {
				out = append(out, s[i:j])
			}
			i = j + 1
		}
	}
	return out
}

func atoi(s string) int {
	if s == "" || len(s) > 9 {
		return -1
	}
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return -1
		}
		n = n*10 + int(s[i]-'0')
	}
	return n
}

func itoa(n int) string {
	if n < 10 {
		return string([]byte{byte('0' + n)})
	}
	return itoa(n/10) + string([]byte{byte('0' + n%10)})
}

// number is a symbolic number of at most 64 bits together with its canonical decimal text.
func number(name string, maxTxt string) (uint64, string) {
	l := zz.Choice(name+".len", len(maxTxt)+1) // 0: the number zero
	if l == 0 {
		return 0, "0"
	}
	d := make([]byte, l)
	if l < len(maxTxt) {
		for i := range d {
			if i == 0 {
				d[i] = 1 + zz.ByteMax(name, 8)
			} else {
				d[i] = zz.ByteMax(name, 9)
			}
		}
	} else {
		// same length as the maximum: equal up to position k, below it there, then free
		k := zz.Choice(name+".cut", l+1)
		for i := range d {
			m := maxTxt[i] - '0'
			switch {
			case i < k:
				d[i] = m
			case i == k:
				if m == 0 || i == 0 && m == 1 {
					zz.Kill()
				}
				if i == 0 {
					d[i] = 1 + zz.ByteMax(name, m-2)
				} else {
					d[i] = zz.ByteMax(name, m-1)
				}
			default:
				d[i] = zz.ByteMax(name, 9)
			}
		}
	}
	var n uint64
	t := make([]byte, l)
	for i := range d {
		n = n*10 + uint64(d[i])
		t[i] = '0' + d[i]
	}
	return n, string(t)
}

const (
	max64 = "18446744073709551615"
	max32 = "4294967295"
)
