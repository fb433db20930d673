package zzblack

import (
	"errors"
	"net"
	"time"

	"github.com/QuangTung97/go-memcache/memcache"
	"github.com/QuangTung97/go-memcache/memcache/netconn"
	"github.com/QuangTung97/go-memcache/memcache/stats"
	zz "github.com/QuangTung97/go-memcache/memcache/zzverif"
)

var errSet = errors.New("fake: cannot set deadline")

// underDeadline makes s check that every Read and Write has the deadline now + rt or now + wt.
func underDeadline(s *server, rt, wt time.Duration) {
	at := map[int]time.Time{}
	s.beforeRead = func(c *fconn, p []byte) {
		zz.Assert(c.readDl.Equal(time.Now().Add(rt)), "a read does not have the deadline now + read timeout")
		at[c.id] = c.readDl
	}
	s.afterRead = func(c *fconn) {
		zz.Assert(c.readDl.Equal(at[c.id]), "the deadline of a pending read is moved")
		zz.Advance(tick)
	}
	s.beforeWrite = func(c *fconn, p []byte) {
		zz.Assert(c.writeDl.Equal(time.Now().Add(wt)), "a write does not have the deadline now + write timeout")
		zz.Advance(tick)
	}
}

// tick is the time an operation takes at least.
const tick = 3

// slack bounds the ticks between two moments of interest.
const slack = 1000

// timeouts gives the durations and their options, 0 stands for the default.
func timeouts(rt, wt int) (time.Duration, time.Duration, []netconn.Option) {
	r, w := time.Second, time.Second
	var o []netconn.Option
	if rt > 0 {
		r = time.Duration(rt) * time.Millisecond
		o = append(o, netconn.WithReadTimeout(r))
	}
	if wt > 0 {
		w = time.Duration(wt) * time.Millisecond
		o = append(o, netconn.WithWriteTimeout(w))
	}
	return r, w, o
}

// ZZ_C17 runs pipelines of m commands under read and write timeouts of rt and wt ms; replies
// arrive in pieces with pauses; any one of the first nf calls that set a deadline fails, or any
// one of the first nf writes makes no progress, or the server is silent from any one of the
// first nf requests on.
func ZZ_C17(rt, wt, conns, steps, m, buf, nf int) {
	r, w, o := timeouts(rt, wt)
	s := &server{timeout: true}
	underDeadline(s, r, w)
	b := newBook()
	fault := zz.Choice("fault", 5)
	at := -1
	if fault > 0 {
		at = zz.IntRange("at", 0, nf-1)
	}
	var hit *fconn
	hitAt := int64(0)
	var want error
	n := 0
	late := map[int]string{}
	count := func(c *fconn, err error) bool {
		n++
		if hit == nil && n-1 == at {
			hit, hitAt, want = c, zz.Now(), err
			return true
		}
		return false
	}
	switch fault {
	case 1, 2:
		op := [...]string{"", "read", "write"}[fault]
		s.setErr = func(c *fconn, o string) error {
			if (o == op || o == "both") && count(c, errSet) {
				return errSet
			}
			return nil
		}
	case 3:
		s.stall = func(c *fconn) bool { return count(c, errTimeout) }
	}
	s.onReq = func(c *fconn, q *request) {
		if fault == 4 && (hit == c || count(c, errTimeout)) {
			return
		}
		a := b.answer(c, q)
		switch {
		case late[c.id] != "":
			late[c.id] += a
		case len(a) > 8 && zz.Bool("pieces"):
			c.sendStr(a[:5])
			late[c.id] = a[5:]
			time.AfterFunc(r-1, func() {
				c.sendStr(late[c.id])
				late[c.id] = ""
			})
		default:
			c.sendStr(a)
		}
	}
	if buf > 0 {
		o = append(o, netconn.WithBufferSize(buf))
	}
	cl := newClient(s, conns, memcache.WithNetConnOptions(o...), memcache.WithRetryDuration(time.Second))
	for i := 0; i < steps; i++ {
		if zz.Bool("pause") {
			time.Sleep(3*r + time.Millisecond)
		}
		before := hit
		p := cl.Pipeline()
		var fs []future
		for j := 0; j < m; j++ {
			fs = append(fs, issue(p, j%3, "key"+itoa(i*m+j)))
		}
		bad := false
		for j, f := range fs {
			x := f()
			b.check("key"+itoa(i*m+j), x)
			if x.err != nil {
				zz.Assert(hit != nil && before == nil, "a command fails although every operation was in time")
				zz.Assert(errors.Is(x.err, want), "the failure of the operation is not the error of the command")
				bad = true
			}
		}
		if hit != nil && before == nil {
			zz.Assert(bad, "a failed operation is not reported")
			zz.Quiesce()
			zz.Assert(hit.closed, "a connection is kept after a failed operation")
			switch fault {
			case 3:
				zz.Assert(zz.Now() >= hitAt+int64(w)-slack && zz.Now() <= hitAt+int64(w)+slack, "a stuck write is not given up at its timeout")
				zz.Cover("stuck write")
			case 4:
				zz.Assert(zz.Now() <= hitAt+int64(m)*int64(r)+slack, "a silent server is waited for longer than the read timeout")
				zz.Cover("silent")
			default:
				zz.Assert(zz.Now() < hitAt+int64(m)*int64(r)+int64(w)+slack, "a failed operation is waited for")
				zz.Cover("set")
			}
		}
		p.Finish()
	}
	zz.Assert(cl.Close() == nil, "Close fails")
	for _, c := range s.conns {
		zz.Assert(c.closed, "a connection outlives Close")
	}
	zz.Cover("done")
}

// ZZ_C17_Options gives any subset of the options in one of several orders.
func ZZ_C17_Options(lo, hi int) {
	mask := lo + zz.Choice("options", hi-lo)
	with := func(i int) bool { return mask>>i&1 == 1 }
	r, w, retry, size, limit, batch, health := time.Second, time.Second, 10*time.Second, 16*1024, 500, 100, 15*time.Second
	logged, logged2 := 0, 0
	first, second := &server{}, &server{}
	s := first
	opts := []memcache.Option{
		memcache.WithDialFunc(first.dial),
		memcache.WithDialErrorLogger(func(err error) { logged++ }),
	}
	var o []memcache.Option
	if with(0) {
		retry = 3 * time.Second
		o = append(o, memcache.WithRetryDuration(retry))
	}
	if with(1) {
		size = 64
		o = append(o, memcache.WithBufferSize(size))
	}
	if with(2) {
		o = append(o, memcache.WithDialErrorLogger(func(err error) {
			zz.Assert(err == errDial, "a wrong dial error is logged")
			logged2++
		}))
	}
	if with(3) {
		limit = 4
		o = append(o, memcache.WithWriteLimit(limit))
	}
	if with(4) {
		batch = 2
		o = append(o, memcache.WithMaxCommandsPerBatch(batch))
	}
	if with(5) {
		health = 21 * time.Second
		o = append(o, memcache.WithHealthCheckDuration(health))
	}
	if with(6) {
		r = 2 * time.Second
		o = append(o, memcache.WithNetConnOptions(netconn.WithReadTimeout(r)))
	}
	if with(7) {
		w = 7 * time.Second
		o = append(o, memcache.WithNetConnOptions(netconn.WithWriteTimeout(w)))
	}
	if with(8) {
		s = second
		o = append(o, memcache.WithDialFunc(second.dial))
	}
	if with(9) {
		o = append(o, memcache.WithTCPKeepAliveDuration(time.Minute))
	}
	if zz.Bool("reverse") {
		for i, j := 0, len(o)-1; i < j; i, j = i+1, j-1 {
			o[i], o[j] = o[j], o[i]
		}
	}
	underDeadline(s, r, w)
	s.dialErr = func(n int) error {
		if n < 2 {
			return errDial
		}
		return nil
	}
	maxRead := 0
	br := s.beforeRead
	s.beforeRead = func(c *fconn, p []byte) {
		br(c, p)
		if len(p) > maxRead {
			maxRead = len(p)
		}
	}
	var chunks []int
	bw := s.beforeWrite
	s.beforeWrite = func(c *fconn, p []byte) {
		bw(c, p)
		chunks = append(chunks, len(p))
	}
	hold := true
	var held []*request
	versions := 0
	s.onReq = func(c *fconn, q *request) {
		if q.kind == "version" {
			versions++
		}
		if hold {
			held = append(held, q)
			return
		}
		replyOK(c, q)
	}
	cl, err := memcache.New("host:9", 1, append(opts, o...)...)
	zz.Assert(err == nil, "New fails")
	fails := func() int {
		if with(2) {
			zz.Assert(logged == 0, "a replaced error logger is used")
			return logged2
		}
		return logged
	}
	zz.Quiesce()
	zz.Assert(s.dials == 1 && fails() == 1, "a failed dial is not logged once")
	p := cl.Pipeline()
	x := issue(p, kGet, "k")()
	p.Finish()
	zz.Assert(errors.Is(x.err, errDial), "the dial error is not the error of the command")
	zz.Quiesce()
	zz.Assert(s.dials == 2 && fails() == 2, "a failed dial is not logged once")
	time.Sleep(retry - 1)
	zz.Quiesce()
	zz.Assert(s.dials == 2, "the retry duration is not observed")
	time.Sleep(1)
	zz.Quiesce()
	zz.Assert(s.dials == 3 && fails() == 2, "there is no dial after the retry duration")
	for _, a := range s.addrs {
		zz.Assert(a == "host:9", "another address is dialled")
	}

	// five commands, unanswered for now
	const cmds = 5
	p = cl.Pipeline()
	var fs []future
	for j := 0; j < cmds; j++ {
		fs = append(fs, issue(p, kGet, "0123456789012345678"+itoa(j)))
	}
	p.Execute()
	zz.Quiesce()
	sent := cmds
	if batch < cmds && limit < cmds {
		sent = limit / batch * batch
	}
	zz.Assert(len(held) == sent, "the write limit and the batch size are not observed")
	total := 0
	for _, k := range chunks {
		total += k
		zz.Assert(k <= size || batch > 2, "a write is larger than the send buffer")
	}
	zz.Assert(total <= size || batch > 2 || chunks[0] == size, "the send buffer does not have the configured size")
	time.Sleep(r / 2)
	hold = false
	for _, q := range held {
		replyOK(q.c, q)
	}
	for _, f := range fs {
		zz.Assert(isOK(kGet, f()), "a command fails")
	}
	p.Finish()
	zz.Assert(maxRead == size, "the receive buffer does not have the configured size")

	// the connection is idle after the first period
	zz.Assert(zz.Now() < int64(health), "harness: first health period is over")
	time.Sleep(2*health - time.Duration(zz.Now()) - 1)
	zz.Quiesce()
	zz.Assert(versions == 0, "a health check is sent early")
	time.Sleep(1)
	zz.Quiesce()
	zz.Assert(versions == 1, "no health check is sent after the period")
	zz.Assert(cl.Close() == nil, "Close fails")
	if with(8) {
		zz.Assert(first.dials == 0, "a replaced dial function is used")
	}
	zz.Cover("done")
}

// ZZ_C17_Limits sends a pipeline of n commands under the limit and batch size, 0 stands for
// the default.
func ZZ_C17_Limits(limit, batch, n int) {
	s := &server{}
	s.onReq = func(c *fconn, q *request) {}
	var o []memcache.Option
	l, b := 500, 100
	if limit > 0 {
		l = limit
		o = append(o, memcache.WithWriteLimit(l))
	}
	if batch > 0 {
		b = batch
		o = append(o, memcache.WithMaxCommandsPerBatch(b))
	}
	if zz.Bool("reverse") && len(o) == 2 {
		o[0], o[1] = o[1], o[0]
	}
	cl := newClient(s, 1, o...)
	p := cl.Pipeline()
	for j := 0; j < n; j++ {
		issue(p, kGet, "k"+itoa(j))
	}
	p.Execute()
	zz.Quiesce()
	sent := l / b * b
	if sent == 0 {
		sent = b
	}
	if sent > n {
		sent = n
	}
	zz.Assert(len(s.conns[0].reqs) == sent, "the write limit and the batch size are not observed")
	zz.Cover("done")
}

// ZZ_C17_Conn makes any sequence of steps writes, flushes, reads and pauses on a NetConn whose
// writer has a buffer of n bytes; the writes to the connection fail from any byte up to k on.
func ZZ_C17_Conn(steps, n, k, rt, wt int) {
	r, w, o := timeouts(rt, wt)
	s := &server{}
	underDeadline(s, r, w)
	dial := func(network, addr string, timeout time.Duration) (net.Conn, error) {
		zz.Assert(network == "tcp" && addr == "h:2" && timeout == 10*time.Second, "the dial function does not get network, address and connect timeout")
		return s.dial(network, addr, timeout)
	}
	o = append(o, netconn.WithBufferSize(n), netconn.WithDialFunc(dial))
	limit := -1
	if k > 0 && zz.Bool("failing") {
		limit = zz.IntRange("capacity", 0, k)
	}
	failed := false
	s.writeErr = func(c *fconn, p []byte) (int, error) {
		if limit < 0 || len(c.in)+len(p) <= limit {
			return len(p), nil
		}
		failed = true
		return limit - len(c.in), errWrite
	}
	nc, err := netconn.DialNewConn("h:2", o...)
	zz.Assert(err == nil, "DialNewConn fails")
	c := s.conns[0]
	sizes := [...]int{1, n - 1, n, n + 1, 2*n + 3}
	var want []byte
	reported := false
	in := 0
	for i := 0; i < steps; i++ {
		switch op := zz.Choice("op", len(sizes)+3); op {
		case len(sizes): // flush
			err := nc.Writer.Flush()
			zz.Assert((err != nil) == failed, "a failed write is not reported by the flush")
			if err == nil {
				zz.Assert(string(c.in) == string(want), "the flush does not hand over everything written")
				zz.Cover("flushed")
			} else {
				zz.Assert(err == errWrite, "the write error is not the error of the flush")
				zz.Cover("failed")
				reported = true
			}
		case len(sizes) + 1: // read
			got := pattern(1+i%3, i)
			c.send(got)
			p := make([]byte, 4)
			m, err := nc.Reader.Read(p)
			zz.Assert(err == nil && string(p[:m]) == string(got), "a read does not give what was received")
			in++
		case len(sizes) + 2:
			time.Sleep(r + 1)
		default:
			p := pattern(sizes[op], i)
			m, err := nc.Writer.Write(p)
			zz.Assert(!reported || err != nil, "a write succeeds after a failed flush")
			if err == nil {
				zz.Assert(m == len(p), "a write is incomplete without an error")
			} else {
				zz.Assert(failed && err == errWrite, "the write error is not reported")
				reported = true
			}
			want = append(want, p...)
			zz.Assert(len(c.in) <= len(want) && string(c.in) == string(want[:len(c.in)]), "other bytes are sent than were written")
		}
	}
	zz.Assert(!c.closed, "the connection is closed by itself")
	zz.Assert(nc.Closer.Close() == nil && c.closed, "Close does not close the connection")
	zz.Cover("done")
}

// ZZ_C17_Set has the first call that sets the given deadline fail.
func ZZ_C17_Set() {
	s := &server{}
	op := [...]string{"read", "write"}[zz.Choice("op", 2)]
	s.setErr = func(c *fconn, o string) error {
		if o == op {
			return errSet
		}
		return nil
	}
	nc, err := netconn.DialNewConn("h:2", netconn.WithDialFunc(s.dial))
	zz.Assert(err == nil, "DialNewConn fails")
	c := s.conns[0]
	if op == "read" {
		c.sendStr("abc")
		n, err := nc.Reader.Read(make([]byte, 3))
		zz.Assert(n == 0 && err == errSet, "a failure to set the read deadline is not reported")
		zz.Assert(c.consumed() == 0, "a read is made without a deadline")
		zz.Cover("read")
		return
	}
	_, err = nc.Writer.Write([]byte("abc"))
	if err == nil {
		err = nc.Writer.Flush()
	}
	zz.Assert(err == errSet, "a failure to set the write deadline is not reported")
	zz.Assert(len(c.in) == 0, "a write is made without a deadline")
	zz.Cover("write")
}

// ZZ_C17_Auth checks that the handshake has deadlines, and that a connection whose deadlines
// cannot be set is not used.
func ZZ_C17_Auth(rt, wt int) {
	r, w, o := timeouts(rt, wt)
	s := &server{}
	ready := false
	underDeadline(s, r, w)
	br, bw := s.beforeRead, s.beforeWrite
	ar := s.afterRead
	bound := func(t time.Time) {
		zz.Assert(!t.IsZero() && !t.After(time.Now().Add(10*time.Second)), "the handshake is not bounded by the connect timeout")
	}
	s.beforeRead = func(c *fconn, p []byte) {
		if !ready {
			bound(c.readDl)
			return
		}
		br(c, p)
	}
	s.afterRead = func(c *fconn) {
		if ready {
			ar(c)
		}
	}
	s.beforeWrite = func(c *fconn, p []byte) {
		if !ready {
			bound(c.writeDl)
			return
		}
		bw(c, p)
	}
	sent := false
	s.onWrite = func(c *fconn, p []byte) {
		if !sent {
			c.sendStr(stored)
			sent = true
		}
	}
	at, n := zz.IntRange("set fails", 0, 4), 0
	failed := false
	s.setErr = func(c *fconn, o string) error {
		n++
		if n == at {
			failed = true
			return errSet
		}
		return nil
	}
	auth, _ := netconn.NewPasswordAuth("user", "password")
	nc, err := netconn.DialNewConn("h:2", append(o, netconn.WithDialFunc(auth.GetDialFunc(s.dial)))...)
	c := s.conns[0]
	if failed {
		zz.Assert(err == errSet, "a failure to set a deadline is not reported")
		zz.Assert(c.closed, "a failed dial leaves its connection open")
		zz.Cover("failed")
		return
	}
	zz.Assert(err == nil && !c.closed, "DialNewConn fails")
	ready = true
	s.setErr = nil
	zz.Advance(int64(time.Minute))
	_, err = nc.Writer.Write([]byte("xyz"))
	zz.Assert(err == nil && nc.Writer.Flush() == nil, "a write fails")
	c.sendStr("abc")
	k, err := nc.Reader.Read(make([]byte, 4))
	zz.Assert(k == 3 && err == nil, "a read fails")
	zz.Cover("done")
}

// ZZ_C17_TCP dials a TCP connection with any keep-alive period up to the given number of
// seconds, possibly closed by the time its keep-alive is set.
func ZZ_C17_TCP(kind, secs int) {
	tc := zz.NewTCP()
	gone := kind == 2
	if gone {
		_ = tc.Close()
	}
	var o []netconn.Option
	d := 30 * time.Second
	if kind > 0 {
		d = time.Duration(zz.IntRange("seconds", 1, secs)) * time.Second
		o = append(o, netconn.WithTCPKeepAliveDuration(d))
	}
	o = append(o, netconn.WithDialFunc(func(network, addr string, timeout time.Duration) (net.Conn, error) {
		return tc, nil
	}))
	nc, err := netconn.DialNewConn("h:1", o...)
	if err != nil {
		zz.Assert(gone || d > 32767*time.Second, "DialNewConn fails")
		zz.Assert(zz.TCPClosed(tc), "a failed dial leaves its connection open")
		zz.Cover("failed")
		return
	}
	zz.Assert(!gone && d <= 32767*time.Second, "a failure to set the keep-alive is not reported")
	zz.Assert(!zz.TCPClosed(tc), "the connection is closed")
	zz.Assert(zz.KeepAliveIs(tc, d), "the keep-alive does not have the configured period")
	zz.Assert(nc.Closer.Close() == nil && zz.TCPClosed(tc), "Close does not close the connection")
	zz.Cover("set")
}

// ZZ_C17_Fail has a dial that fails: every operation gives its error.
func ZZ_C17_Fail() {
	s := &server{dialErr: func(int) error { return errDial }}
	_, err := netconn.DialNewConn("h:2", netconn.WithDialFunc(s.dial))
	zz.Assert(err == errDial, "the dial error is not returned")
	nc := netconn.ErrorNetConn(err)
	_, err = nc.Writer.Write([]byte("a"))
	if err == nil {
		err = nc.Writer.Flush()
	}
	zz.Assert(err == errDial, "a write on a failed connection does not give its error")
	n, err := nc.Reader.Read(make([]byte, 2))
	zz.Assert(n == 0 && err == errDial, "a read on a failed connection does not give its error")
	zz.Assert(nc.Closer.Close() == nil, "a failed connection cannot be closed")
	zz.Cover("done")
}

// ZZ_C17_Stats gives any subset of the options of the statistics client in either order; its
// dial may fail.
func ZZ_C17_Stats(rt, wt int) {
	r, w, o := timeouts(rt, wt)
	s := &server{}
	underDeadline(s, r, w)
	s.onWrite = func(c *fconn, p []byte) {
		c.sendStr("STAT pid 4\r\n")
		time.AfterFunc(r-1, func() { c.sendStr("END\r\n") })
	}
	var logged []error
	log := zz.Bool("fails")
	if log {
		s.dialErr = func(int) error { return errDial }
	}
	var opts []stats.Option
	opts = append(opts, stats.WithErrorLogger(func(err error) { logged = append(logged, err) }),
		stats.WithNetConnOptions(append(o, netconn.WithDialFunc(s.dial))...))
	if zz.Bool("reverse") {
		opts[0], opts[1] = opts[1], opts[0]
	}
	cl := stats.New("h:5", opts...)
	zz.Assert(len(s.addrs) == 1 && s.addrs[0] == "h:5", "the address is not dialled once")
	for i := 0; i < 2; i++ {
		g, err := cl.GetGeneralStats()
		if log {
			zz.Assert(len(logged) == 1 && logged[0] == errDial, "a failed dial is not logged once")
			zz.Assert(err == errDial && g == stats.GeneralStats{}, "a query without a connection does not give the dial error")
		} else {
			zz.Assert(len(logged) == 0, "an error is logged without a failure")
			zz.Assert(err == nil && g.PID == 4, "a query fails")
		}
		zz.Advance(int64(5 * time.Second))
	}
	zz.Assert(cl.Close() == nil, "Close fails")
	zz.Cover("done")
}
