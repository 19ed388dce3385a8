package sim

import (
	"errors"
	"net"
	"os"
	"time"

	"verif/harness/wire"
)

// ErrForever is returned by a read that could never return: no deadline, no more bytes.
var ErrForever = errors.New("read would block forever")

// TConn is a connection in virtual time (for use inside a testing/synctest bubble, by one goroutine): every byte has an
// arrival time, and a read sleeps until bytes are there or its deadline passes, exactly as a net.Conn does.
type TConn struct {
	in       []tbyte
	Consumed int
	LastRead time.Time // when the last byte was consumed
	rdl, wdl time.Time
	Closed   bool
	Outs     []TOut
	raw      []byte
	Bad      error
	WDelay   time.Duration // time a write takes
	Forever  int
	CloseErr error       // what Close returns
	Deadline []time.Time // deadlines seen at each read that found nothing
}

type tbyte struct {
	b  byte
	at time.Time
}

// TOut is a packet the client wrote.
type TOut struct {
	P  *wire.Packet
	At time.Time
}

// Add schedules bytes to arrive at a time (never earlier than those before them).
func (c *TConn) Add(at time.Time, b ...byte) {
	if n := len(c.in); n > 0 && c.in[n-1].at.After(at) {
		at = c.in[n-1].at
	}
	for _, x := range b {
		c.in = append(c.in, tbyte{x, at})
	}
}

// Left is the number of bytes not yet consumed.
func (c *TConn) Left() int { return len(c.in) }

func expired(d time.Time) bool { return !d.IsZero() && !time.Now().Before(d) }

func (c *TConn) Read(b []byte) (int, error) {
	if c.Closed {
		return 0, net.ErrClosed
	}
	if len(b) == 0 {
		return 0, nil
	}
	for {
		if expired(c.rdl) {
			return 0, timeoutErr(c.Consumed)
		}
		now := time.Now()
		if len(c.in) > 0 && !c.in[0].at.After(now) {
			n := 0
			for n < len(b) && n < len(c.in) && !c.in[n].at.After(now) {
				b[n] = c.in[n].b
				n++
			}
			c.in = c.in[n:]
			c.Consumed += n
			c.LastRead = now
			return n, nil
		}
		var until time.Time
		if len(c.in) > 0 {
			until = c.in[0].at
		}
		if !c.rdl.IsZero() && (until.IsZero() || c.rdl.Before(until)) {
			until = c.rdl
		}
		if until.IsZero() {
			c.Forever++
			return 0, ErrForever
		}
		time.Sleep(time.Until(until))
	}
}

func (c *TConn) Write(b []byte) (int, error) {
	if c.Closed {
		return 0, net.ErrClosed
	}
	if expired(c.wdl) {
		return 0, os.ErrDeadlineExceeded
	}
	if c.WDelay > 0 {
		d := c.WDelay
		if !c.wdl.IsZero() && time.Until(c.wdl) < d {
			d = time.Until(c.wdl)
		}
		time.Sleep(d)
		if expired(c.wdl) {
			return 0, os.ErrDeadlineExceeded
		}
	}
	c.raw = append(c.raw, b...)
	for c.Bad == nil && len(c.raw) > 0 {
		h, body, n, err := wire.Frame(c.raw)
		if err == wire.ErrShort {
			break
		}
		var p *wire.Packet
		if err == nil {
			p, err = wire.Decode(h, body, true)
		}
		if err != nil {
			c.Bad = err
			break
		}
		c.raw = c.raw[n:]
		c.Outs = append(c.Outs, TOut{p, time.Now()})
	}
	return len(b), nil
}

// StreamErr reports a malformed or incomplete client stream.
func (c *TConn) StreamErr() error {
	if c.Bad == nil && len(c.raw) > 0 {
		return errors.New("incomplete packet")
	}
	return c.Bad
}

func (c *TConn) Close() error {
	if c.Closed {
		return net.ErrClosed
	}
	c.Closed = true
	return c.CloseErr
}

func (c *TConn) SetDeadline(t time.Time) error {
	if c.Closed {
		return net.ErrClosed
	}
	c.rdl, c.wdl = t, t
	return nil
}
func (c *TConn) SetReadDeadline(t time.Time) error {
	if c.Closed {
		return net.ErrClosed
	}
	c.rdl = t
	return nil
}
func (c *TConn) SetWriteDeadline(t time.Time) error {
	if c.Closed {
		return net.ErrClosed
	}
	c.wdl = t
	return nil
}
func (c *TConn) LocalAddr() net.Addr  { return addr{} }
func (c *TConn) RemoteAddr() net.Addr { return addr{} }
