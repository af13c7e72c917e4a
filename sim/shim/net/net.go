// Package net dials simulated servers.
package net

import (
	"context"
	"io"
	real "net"
	"time"

	"verif.sim/simworld"
)

// Conn is a simulated connection.
type Conn interface {
	io.ReadWriteCloser
}

// Dial dials.
func Dial(network, addr string) (Conn, error) {
	if simworld.W == nil || simworld.W.Dial == nil {
		panic("net: Dial outside a simulated network")
	}
	return simworld.W.Dial(network, addr)
}

// DialTimeout dials.
func DialTimeout(network, addr string, d time.Duration) (Conn, error) { return Dial(network, addr) }

// Dialer dials.
type Dialer struct {
	Timeout   time.Duration
	Deadline  time.Time
	KeepAlive time.Duration
	LocalAddr real.Addr
}

// Dial dials.
func (d *Dialer) Dial(network, addr string) (Conn, error) { return Dial(network, addr) }

// DialContext dials.
func (d *Dialer) DialContext(ctx context.Context, network, addr string) (Conn, error) {
	return Dial(network, addr)
}

// Listen is not simulated.
func Listen(network, addr string) (real.Listener, error) { panic("net: Listen is not simulated") }
