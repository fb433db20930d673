package memcache

import (
	"net"
	"sync/atomic"
	"time"

	"github.com/QuangTung97/go-memcache/memcache/zzverif"
)

// zzPeer answers every write with one version reply.
type zzPeer struct {
	id    int
	n     int // requests
	ready uint32
}

func (c *zzPeer) Read(p []byte) (int, error) {
	zzverif.Block(&c.ready)
	c.ready = 0
	return copy(p, "VERSION 1\r\n"), nil
}

func (c *zzPeer) Write(p []byte) (int, error) {
	c.n++
	c.ready = 1
	return len(p), nil
}
func (c *zzPeer) Close() error                     { return nil }
func (c *zzPeer) LocalAddr() net.Addr              { return nil }
func (c *zzPeer) RemoteAddr() net.Addr             { return nil }
func (c *zzPeer) SetDeadline(time.Time) error      { return nil }
func (c *zzPeer) SetReadDeadline(time.Time) error  { return nil }
func (c *zzPeer) SetWriteDeadline(time.Time) error { return nil }

// zzSet stores v in an integer of whatever type the rotation uses.
func zzSet(p any, v uint64) {
	switch p := p.(type) {
	case *atomic.Uint64:
		p.Store(v)
	case *atomic.Int64:
		p.Store(int64(v))
	case *atomic.Uint32:
		p.Store(uint32(v))
	case *atomic.Int32:
		p.Store(int32(v))
	case *uint64:
		*p = v
	case *int64:
		*p = int64(v)
	case *int:
		*p = int(v)
	case *uint:
		*p = uint(v)
	case *uint32:
		*p = uint32(v)
	case *int32:
		*p = int32(v)
	default:
		zzverif.Kill()
	}
}

// ZZ_Next starts from an arbitrary position of the rotation (below 2^63, or within span of
// 2^bits; each by itself when span is negative): k pipelines and one health check on n connections.
func ZZ_Next(n, maxK, bits, span int) {
	var peers []*zzPeer
	dial := func(network, addr string, d time.Duration) (net.Conn, error) {
		c := &zzPeer{id: len(peers)}
		peers = append(peers, c)
		return c, nil
	}
	cl, err := New("srv:1", n, WithDialFunc(dial), WithHealthCheckDuration(1000*time.Hour))
	zzverif.Assert(err == nil, "New fails")
	seq := zzverif.U64("sequence")
	zzverif.Assume(seq < 1<<63)
	if bits > 0 {
		if span < 0 { // every position by itself
			seq = 1<<uint(bits) - uint64(-span/2) + uint64(zzverif.Choice("offset", -span+1))
		} else {
			seq = 1<<uint(bits) - uint64(span/2) + uint64(zzverif.IntRange("offset", 0, span))
		}
	}
	zzSet(&cl.next, seq)
	zzSet(&cl.health.prevSequence, seq)
	k := zzverif.Choice("pipelines", maxK+1)
	last := -1
	for i := 0; i < k; i++ {
		var before [16]int
		for j, c := range peers {
			before[j] = c.n
		}
		_, err := cl.Pipeline().Version()()
		zzverif.Assert(err == nil, "a command fails")
		at := -1
		for j, c := range peers {
			if c.n != before[j] {
				zzverif.Assert(at < 0 && c.n == before[j]+1, "a command is sent twice")
				at = j
			}
		}
		zzverif.Assert(at >= 0, "a command is not sent")
		zzverif.Assert(last < 0 || at == (last+1)%n, "successive pipelines do not use the connections in rotation")
		last = at
	}
	cl.health.runSingleLoop()
	total := 0
	for _, c := range peers {
		zzverif.Assert(c.n > 0, "a connection stays silent for a whole period")
		total += c.n
	}
	if k >= n {
		zzverif.Assert(total == k, "a health check is made although the rotation reached every connection")
	} else {
		zzverif.Assert(total == n, "a connection the rotation reached is checked as well")
	}
	zzverif.Cover("done")
}
