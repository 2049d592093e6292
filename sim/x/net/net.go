// Package net stands in for the standard package: listeners exist only inside
// the simulation.
package net

import (
	"context"
	"errors"
	real "net"
	"strings"

	"verif.local/sim/dst"
)

// Listeners of the run by port; the owner is the process that listens.
var bound = map[string]*simListener{}
var ep uint32

func table() map[string]*simListener {
	if ep != dst.Epoch() {
		ep, bound = dst.Epoch(), map[string]*simListener{}
	}
	return bound
}

// Port is the port part of an address.
func Port(addr string) string { return addr[strings.LastIndexByte(addr, ':')+1:] }

type simListener struct {
	port   string
	g      *dst.Group
	closed dst.Cell
}

type simAddr string

func (a simAddr) Network() string { return "tcp" }
func (a simAddr) String() string  { return "127.0.0.1:" + string(a) }

func (l *simListener) Accept() (real.Conn, error) {
	l.closed.Wait("accept")
	return nil, errors.New("use of closed network connection")
}
func (l *simListener) Close() error {
	dst.Y(0)
	if dst.Unwinding() {
		return nil
	}
	if table()[l.port] == l {
		delete(table(), l.port)
	}
	l.closed.Set()
	return nil
}
func (l *simListener) Addr() real.Addr { return simAddr(l.port) }

// Listen claims a port for the calling process.
func Listen(network, addr string) (real.Listener, error) {
	dst.Y(0)
	p := Port(addr)
	if l := table()[p]; l != nil && (l.g == nil || !l.g.Dead) {
		return nil, &real.OpError{Op: "listen", Net: network, Err: errors.New("bind: address already in use")}
	}
	l := &simListener{port: p, g: dst.CurrentGroup()}
	table()[p] = l
	return l, nil
}

// Owner is the live process listening on the port.
func Owner(port string) *dst.Group {
	if l := table()[port]; l != nil && l.g != nil && !l.g.Dead {
		return l.g
	}
	return nil
}

// ListenAs claims a port for the given process.
func ListenAs(g *dst.Group, port string) { table()[port] = &simListener{port: port, g: g} }

var errNoNet = errors.New("no network")

func Dial(network, addr string) (real.Conn, error) {
	return nil, &real.OpError{Op: "dial", Net: network, Err: errNoNet}
}

// ListenConfig is net.ListenConfig.
type ListenConfig struct{ real.ListenConfig }

func (lc *ListenConfig) Listen(_ context.Context, network, addr string) (real.Listener, error) {
	return Listen(network, addr)
}
