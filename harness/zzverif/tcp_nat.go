package zzverif

import (
	"net"
	"syscall"
	"time"
)

// NewTCP is an open TCP connection.
func NewTCP() *net.TCPConn {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	go func() {
		c, err := l.Accept()
		if err != nil {
			panic(err)
		}
		_, _ = c.Read(make([]byte, 1))
		_ = c.Close()
	}()
	c, err := net.Dial("tcp", l.Addr().String())
	if err != nil {
		panic(err)
	}
	_ = l.Close()
	return c.(*net.TCPConn)
}

func sockopt(c *net.TCPConn, level, opt int) (v int, err error) {
	raw, err := c.SyscallConn()
	if err != nil {
		return 0, err
	}
	err2 := raw.Control(func(fd uintptr) { v, err = syscall.GetsockoptInt(int(fd), level, opt) })
	if err2 != nil {
		err = err2
	}
	return v, err
}

// TCPClosed tells whether the connection is closed.
func TCPClosed(c *net.TCPConn) bool {
	_, err := sockopt(c, syscall.SOL_SOCKET, syscall.SO_KEEPALIVE)
	return err != nil
}

// KeepAliveIs tells whether keep-alive is on with period d.
func KeepAliveIs(c *net.TCPConn, d time.Duration) bool {
	on, err := sockopt(c, syscall.SOL_SOCKET, syscall.SO_KEEPALIVE)
	if err != nil || on == 0 {
		return false
	}
	v, err := sockopt(c, syscall.IPPROTO_TCP, syscall.TCP_KEEPIDLE)
	return err == nil && v == int((d+time.Second-1)/time.Second)
}
