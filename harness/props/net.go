package props

import (
	"net"
	"strconv"
	"syscall"
	"time"
)

// fullBacklog makes a listening port on which a connect hangs because its queue is full.
func fullBacklog() (int, func(), error) {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	if err != nil {
		return 0, nil, err
	}
	if err := syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}}); err != nil {
		return 0, nil, err
	}
	if err := syscall.Listen(fd, 0); err != nil {
		return 0, nil, err
	}
	sa, err := syscall.Getsockname(fd)
	if err != nil {
		return 0, nil, err
	}
	port := sa.(*syscall.SockaddrInet4).Port
	var held []net.Conn
	for i := 0; i < 3; i++ {
		c, err := net.DialTimeout("tcp", net.JoinHostPort("127.0.0.1", strconv.Itoa(port)), 300*time.Millisecond)
		if err != nil {
			break // full
		}
		held = append(held, c)
	}
	return port, func() {
		for _, c := range held {
			c.Close()
		}
		_ = syscall.Close(fd)
	}, nil
}

// refusing is a port of 127.0.0.1 that belongs to this process but does not listen.
var refusing = func() int {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	if err != nil {
		return 1
	}
	if err := syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}}); err != nil {
		return 1
	}
	sa, err := syscall.Getsockname(fd)
	if err != nil {
		return 1
	}
	return sa.(*syscall.SockaddrInet4).Port
}()

// closedPort is a port at which connections are refused.
func closedPort() int { return refusing }

// deadListener is at the closed port.
type deadListener struct{}

func (deadListener) Accept() (net.Conn, error) { return nil, net.ErrClosed }
func (deadListener) Close() error              { return nil }
func (deadListener) Addr() net.Addr {
	return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: closedPort()}
}
