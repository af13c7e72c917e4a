package scen

import (
	"errors"
	"fmt"
	"io"
	"time"

	"verif.sim/simrt"
)

// half is one direction of a simulated stream.
type half struct {
	buf    []byte
	limit  int  // bytes in flight before a writer blocks; 0: rendezvous
	eof    bool // writer side closed
	reset  error
	rclose bool // reader side closed
	passed int  // bytes taken by the reader
	put    int  // bytes accepted from the writer
}

// Conn is a simulated stream connection; the client end implements
// io.ReadWriteCloser.
type Conn struct {
	t        *T
	id       int
	c2s, s2c half
	closed   bool // by the client
	closes   int
	sclosed  bool // by the server
	chunk    int  // largest fragment
	slow     time.Duration

	// fault plan: -1 = never
	wErrAt  int  // client write fails after this many bytes
	rErrAt  int  // client read fails after this many bytes
	eofAt   int  // stream ends after this many bytes from the server
	wOnce   bool // the write error is reported after all bytes went out, once
	wFired  bool
	Faulty  bool
	faultAt string
	raw     []byte // everything the server received
	writers int
	readers int
}

var errReset = errors.New("connection reset by peer")
var errWrite = errors.New("simulated write error")
var errRead = errors.New("simulated read error")

func (c *Conn) fault(kind string) {
	if !c.Faulty {
		c.t.Logf("conn%d fault %s", c.id, kind)
	}
	c.Faulty = true
	c.faultAt = kind
	c.t.Count("fault:" + kind)
}

// Read is the client reading.
func (c *Conn) Read(b []byte) (int, error) {
	simrt.Yield()
	defer simrt.IORead()
	if len(b) == 0 {
		return 0, nil
	}
	h := &c.s2c
	for {
		if c.closed {
			return 0, io.ErrClosedPipe
		}
		if c.rErrAt >= 0 && h.passed >= c.rErrAt {
			c.fault("conn-read-error")
			c.c2s.reset = errReset
			return 0, errRead
		}
		if h.reset != nil {
			return 0, h.reset
		}
		n := len(h.buf)
		if c.eofAt >= 0 && h.passed+n > c.eofAt {
			n = c.eofAt - h.passed
		}
		if n > 0 {
			if n > len(b) {
				n = len(b)
			}
			if c.chunk > 0 && n > c.chunk {
				n = 1 + c.t.Choose(c.chunk)
			}
			if c.rErrAt >= 0 && h.passed+n > c.rErrAt {
				n = c.rErrAt - h.passed
				if n == 0 {
					continue
				}
			}
			copy(b, h.buf[:n])
			h.buf = h.buf[n:]
			h.passed += n
			simrt.Yield()
			return n, nil
		}
		if c.eofAt >= 0 && h.passed >= c.eofAt {
			c.fault("conn-eof")
			c.c2s.reset = errReset
			return 0, io.EOF
		}
		if h.eof {
			return 0, io.EOF
		}
		c.readers++
		simrt.WaitIO("network read", func() bool {
			return len(h.buf) > 0 || h.eof || h.reset != nil || c.closed || c.rErrAt >= 0 && h.passed >= c.rErrAt
		})
		c.readers--
	}
}

// Write is the client writing; it is fragmented and may block.
func (c *Conn) Write(b []byte) (int, error) {
	simrt.Yield()
	simrt.IOWrote()
	h := &c.c2s
	done := 0
	for done < len(b) {
		if c.closed {
			return done, io.ErrClosedPipe
		}
		if c.wErrAt >= 0 && h.put >= c.wErrAt && !c.wOnce {
			c.wFired = true
			c.fault("conn-write-error")
			return done, errWrite
		}
		if h.reset != nil || h.rclose {
			return done, errReset
		}
		n := len(b) - done
		if c.chunk > 0 && n > c.chunk {
			n = 1 + c.t.Choose(c.chunk)
		}
		if c.wErrAt >= 0 && h.put+n > c.wErrAt && !c.wOnce {
			n = c.wErrAt - h.put
			if n == 0 {
				continue
			}
		}
		lim := h.limit
		if lim == 0 {
			lim = 64
		}
		if room := lim - len(h.buf); n > room {
			n = room
		}
		if n <= 0 {
			simrt.WaitIO("network write", func() bool { return len(h.buf) < lim || h.reset != nil || h.rclose || c.closed })
			continue
		}
		h.buf = append(h.buf, b[done:done+n]...)
		h.put += n
		done += n
		if c.chunk > 0 && c.t.Choose(3) == 2 {
			simrt.Park()
		} else {
			simrt.Yield()
		}
	}
	if h.limit == 0 {
		// rendezvous: wait until the peer has taken all of it
		simrt.WaitIO("network write", func() bool { return len(h.buf) == 0 || h.reset != nil || h.rclose || c.closed })
	}
	if c.wOnce && c.wErrAt >= 0 && h.put >= c.wErrAt {
		// the bytes went out, yet the write is reported as failed
		c.wErrAt = -1
		c.wFired = true
		c.fault("conn-late-write-error")
		return done, errWrite
	}
	return done, nil
}

// Close is the client closing.
func (c *Conn) Close() error {
	simrt.Yield()
	c.closes++
	if c.closed {
		return io.ErrClosedPipe
	}
	c.closed = true
	c.c2s.eof = true
	c.s2c.rclose = true
	c.t.Logf("conn%d closed by client", c.id)
	return nil
}

// srvRead reads at the server; nil at the end of the stream.
func (c *Conn) srvRead() []byte {
	h := &c.c2s
	simrt.WaitIO("server read", func() bool { return len(h.buf) > 0 || h.eof || h.reset != nil || c.sclosed })
	if c.sclosed || h.reset != nil || len(h.buf) == 0 {
		return nil
	}
	b := h.buf
	h.buf = nil
	h.passed += len(b)
	c.raw = append(c.raw, b...)
	return b
}

// srvWrite writes at the server; false if the connection is gone.
func (c *Conn) srvWrite(b []byte) bool {
	h := &c.s2c
	for len(b) > 0 {
		lim := h.limit
		if lim == 0 {
			lim = 64
		}
		simrt.WaitIO("server write", func() bool { return len(h.buf) < lim || h.rclose || c.sclosed || h.reset != nil })
		if h.rclose || c.sclosed || h.reset != nil {
			return false
		}
		n := lim - len(h.buf)
		if n > len(b) {
			n = len(b)
		}
		h.buf = append(h.buf, b[:n]...)
		b = b[n:]
		simrt.Yield()
	}
	return true
}

// srvClose closes from the server side.
func (c *Conn) srvClose(reset bool) {
	if c.sclosed {
		return
	}
	c.sclosed = true
	c.t.Logf("conn%d closed by server reset=%v", c.id, reset)
	if reset {
		c.s2c.reset = errReset
	}
	c.s2c.eof = true
	c.c2s.reset = errReset
}

func (c *Conn) String() string { return fmt.Sprintf("conn%d", c.id) }
