// Package vnet stands in for net: listening and dialing is answered by the
// harness, nothing reaches the network.
package vnet

import (
	"context"
	"errors"
	"io"
	"net"
	"os"
	"syscall"
	"time"
)

type (
	Addr          = net.Addr
	Conn          = net.Conn
	Listener      = net.Listener
	Error         = net.Error
	OpError       = net.OpError
	AddrError     = net.AddrError
	IP            = net.IP
	IPNet         = net.IPNet
	TCPAddr       = net.TCPAddr
	UDPAddr       = net.UDPAddr
	Resolver      = net.Resolver
	UnknownNetworkError = net.UnknownNetworkError
)

var ErrClosed = net.ErrClosed

func JoinHostPort(h, p string) string                     { return net.JoinHostPort(h, p) }
func SplitHostPort(s string) (string, string, error)      { return net.SplitHostPort(s) }
func ParseIP(s string) IP                                 { return net.ParseIP(s) }
func ResolveTCPAddr(network, a string) (*TCPAddr, error) {
	return &TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1, Zone: a}, nil
}

// Link is one end of a connection as the harness provides it.
type Link interface {
	io.ReadWriter
	Close() error
	Local() string
	Remote() string
}

// Hooks of the harness.
var (
	ListenHook func(addr string) (func() (Link, error), func() error, error)
	DialHook   func(addr string) (Link, error)
)

type name string

func (n name) Network() string { return "tcp" }
func (n name) String() string  { return string(n) }

// TCPConn is a connection.
type TCPConn struct{ l Link }

func Wrap(l Link) *TCPConn { return &TCPConn{l} }

func (c *TCPConn) Read(p []byte) (int, error)         { return c.l.Read(p) }
func (c *TCPConn) Write(p []byte) (int, error)        { return c.l.Write(p) }
func (c *TCPConn) Close() error                       { return c.l.Close() }
func (c *TCPConn) CloseRead() error                   { return nil }
func (c *TCPConn) CloseWrite() error                  { return nil }
func (c *TCPConn) LocalAddr() Addr                    { return name(c.l.Local()) }
func (c *TCPConn) RemoteAddr() Addr                   { return name(c.l.Remote()) }
func (c *TCPConn) SetDeadline(t time.Time) error      { return nil }
func (c *TCPConn) SetReadDeadline(t time.Time) error  { return nil }
func (c *TCPConn) SetWriteDeadline(t time.Time) error { return nil }
func (c *TCPConn) SetWriteBuffer(n int) error         { return nil }
func (c *TCPConn) SetReadBuffer(n int) error          { return nil }
func (c *TCPConn) SetNoDelay(b bool) error            { return nil }
func (c *TCPConn) SetKeepAlive(b bool) error          { return nil }
func (c *TCPConn) SetLinger(n int) error              { return nil }
func (c *TCPConn) SetKeepAlivePeriod(d time.Duration) error { return nil }
func (c *TCPConn) SyscallConn() (syscall.RawConn, error) { return raw{}, nil }
func (c *TCPConn) File() (*os.File, error)            { return nil, errors.New("no file") }

type raw struct{}

func (raw) Control(f func(fd uintptr)) error           { return nil }
func (raw) Read(f func(fd uintptr) (done bool)) error  { return nil }
func (raw) Write(f func(fd uintptr) (done bool)) error { return nil }

// TCPListener hands out what the harness has connect.
type TCPListener struct {
	addr   string
	accept func() (Link, error)
	close  func() error
}

func (l *TCPListener) Accept() (Conn, error) {
	c, err := l.AcceptTCP()
	if err != nil {
		return nil, err
	}
	return c, nil
}
func (l *TCPListener) AcceptTCP() (*TCPConn, error) {
	c, err := l.accept()
	if err != nil {
		return nil, err
	}
	return &TCPConn{c}, nil
}
func (l *TCPListener) Close() error { return l.close() }
func (l *TCPListener) Addr() Addr   { return name(l.addr) }

type ListenConfig struct {
	Control   func(network, address string, c syscall.RawConn) error
	KeepAlive time.Duration
}

func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {
	if lc.Control != nil {
		if err := lc.Control(network, address, raw{}); err != nil {
			return nil, err
		}
	}
	return Listen(network, address)
}

func Listen(network, address string) (Listener, error) {
	a, c, err := ListenHook(address)
	if err != nil {
		return nil, err
	}
	return &TCPListener{address, a, c}, nil
}

func ListenTCP(network string, a *TCPAddr) (*TCPListener, error) {
	l, err := Listen(network, a.Zone)
	if err != nil {
		return nil, err
	}
	return l.(*TCPListener), nil
}

type Dialer struct {
	Timeout        time.Duration
	Deadline       time.Time
	LocalAddr      Addr
	FallbackDelay  time.Duration
	KeepAlive      time.Duration
	Cancel         <-chan struct{}
	Control        func(network, address string, c syscall.RawConn) error
	ControlContext func(ctx context.Context, network, address string, c syscall.RawConn) error
}

func (d *Dialer) Dial(network, address string) (Conn, error) {
	return d.DialContext(context.Background(), network, address)
}

func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {
	if d.ControlContext != nil {
		if err := d.ControlContext(ctx, network, address, raw{}); err != nil {
			return nil, err
		}
	} else if d.Control != nil {
		if err := d.Control(network, address, raw{}); err != nil {
			return nil, err
		}
	}
	l, err := DialHook(address)
	if err != nil {
		return nil, &OpError{Op: "dial", Net: network, Err: err}
	}
	return &TCPConn{l}, nil
}

func Dial(network, address string) (Conn, error) { return (&Dialer{}).Dial(network, address) }
func DialTimeout(network, address string, d time.Duration) (Conn, error) {
	return Dial(network, address)
}
func DialTCP(network string, l, r *TCPAddr) (*TCPConn, error) {
	c, err := Dial(network, r.Zone)
	if err != nil {
		return nil, err
	}
	return c.(*TCPConn), nil
}
