package zzverif

import (
	"errors"
	"net"
	"time"
	"unsafe"
)

// TCP model: setting the keep-alive fails iff the connection is closed, or the period is
// longer than the 32767 s Linux allows.

var tcp struct {
	c      *net.TCPConn
	closed bool
	on     bool
	period time.Duration
}

var errTCPClosed = errors.New("use of closed network connection")
var errTCPInval = errors.New("invalid argument")

// NewTCP is an open TCP connection.
func NewTCP() *net.TCPConn {
	tcp.c = new(net.TCPConn)
	return tcp.c
}

// TCPClosed tells whether the connection is closed.
func TCPClosed(c *net.TCPConn) bool { return tcp.closed }

// KeepAliveIs tells whether keep-alive is on with period d.
func KeepAliveIs(c *net.TCPConn, d time.Duration) bool { return tcp.on && tcp.period == d }

func X_TCPSetKeepAlive(c *net.TCPConn, on bool) error {
	if tcp.closed {
		return errTCPClosed
	}
	tcp.on = on
	return nil
}

func X_TCPSetKeepAlivePeriod(c *net.TCPConn, d time.Duration) error {
	if tcp.closed {
		return errTCPClosed
	}
	if d > 32767*time.Second {
		return errTCPInval
	}
	tcp.period = d
	return nil
}

func X_TCPSetNoDelay(c *net.TCPConn, on bool) error {
	if tcp.closed {
		return errTCPClosed
	}
	return nil
}

func X_ConnClose(p unsafe.Pointer) error {
	if tcp.closed {
		return errTCPClosed
	}
	tcp.closed = true
	return nil
}

// X_DialTimeout: there is no network.
func X_DialTimeout(network, addr string, d time.Duration) (net.Conn, error) {
	return nil, errNoNetwork
}

var errNoNetwork = errors.New("no network")
