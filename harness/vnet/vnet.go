// Package vnet is imported in place of net by the client: connections are opened by the driver.
package vnet

import (
	"context"
	"errors"
	"net"
	"time"
)

type (
	Addr      = net.Addr
	Conn      = net.Conn
	Error     = net.Error
	IP        = net.IP
	Listener  = net.Listener
	OpError   = net.OpError
	TCPAddr   = net.TCPAddr
	TCPConn   = net.TCPConn
	DNSError  = net.DNSError
	AddrError = net.AddrError
)

var ErrClosed = net.ErrClosed

// OnDial opens a connection to addr.
var OnDial = func(addr string) (net.Conn, error) { return nil, errors.New("nobody listens") }

func Dial(network, addr string) (net.Conn, error) { return OnDial(addr) }
func DialTimeout(network, addr string, d time.Duration) (net.Conn, error) {
	return OnDial(addr)
}

type Dialer struct {
	Timeout         time.Duration
	Deadline        time.Time
	LocalAddr       net.Addr
	FallbackDelay   time.Duration
	KeepAlive       time.Duration
	KeepAliveConfig net.KeepAliveConfig
	Cancel          <-chan struct{}
}

func (d *Dialer) Dial(network, addr string) (net.Conn, error) { return OnDial(addr) }
func (d *Dialer) DialContext(ctx context.Context, network, addr string) (net.Conn, error) {
	return OnDial(addr)
}

func JoinHostPort(h, p string) string                  { return net.JoinHostPort(h, p) }
func SplitHostPort(a string) (string, string, error)   { return net.SplitHostPort(a) }
func ParseIP(s string) net.IP                          { return net.ParseIP(s) }
func ResolveTCPAddr(n, a string) (*net.TCPAddr, error) { return net.ResolveTCPAddr(n, a) }
func Pipe() (net.Conn, net.Conn)                       { return net.Pipe() }
