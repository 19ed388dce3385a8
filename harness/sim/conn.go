// Package sim holds the instrumented connection, storage and scheduler the client under test runs against.
package sim

import (
	"fmt"
	"io"
	"net"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"verif/harness/wire"
)

// Out is one packet the client wrote.
type Out struct {
	P        *wire.Packet
	Seq      int
	Deadline time.Time // write deadline in force when its last byte was written
	Start    time.Time // write deadline in force when its first byte was written
	AfterEnd bool      // written after Close
}

// Conn is the client's end of a simulated connection. Time is logical: a read that finds nothing to read "waits until
// its deadline", i.e. returns os.ErrDeadlineExceeded at once if one is set and blocks if not.
type Conn struct {
	mu   sync.Mutex
	cond *sync.Cond

	in       []byte
	eof      error // returned once in is drained (io.EOF or a fault)
	closed   bool
	Closes   int
	Seq      int
	rdl, wdl time.Time

	raw       []byte // unparsed tail of the client's bytes
	rawStart  time.Time
	Total     int // bytes written
	Outs      []Out
	BadBytes  error // first stream or packet error in what the client wrote
	Rejected  int   // writes attempted after Close
	Reads     int
	IdleReads int
	EOFReads  int
	InBytes   int // bytes consumed by the client
	fed       int // bytes ever fed
	marks     []mark

	// Behaviour, set before use.
	Frag      func(avail, want int) int // bytes handed out per read
	SplitW    func(n int) int           // >0: split each write after that many bytes, yielding in between
	OnPacket  func(p *wire.Packet)      // called for each packet written, with the connection locked
	OnIdle    func() bool               // called when a read finds nothing, with the connection locked; true: retry
	OnRead    func(n int)               // called after n bytes were consumed, locked
	Hook      func(point string)        // called on entry of every call, unlocked
	Fault     func(point string) error  // error to return from a call, unlocked
	WFault    func(n int) (int, error)  // bytes to accept of a write before failing with the error (nil: no fault), unlocked
	HoldReads bool                      // block instead of returning ErrDeadlineExceeded
	MaxEOF    int                       // panic with SpinPanic when this many reads hit EOF
	TailErr   bool                      // the last bytes come together with the error that ends the stream

	log    []string
	logCap int
}

type mark struct {
	at int
	f  func()
}

// SendMark sends a packet and calls f, with the connection locked, once the client has consumed its last byte.
func (c *Conn) SendMark(p *wire.Packet, f func()) {
	c.mu.Lock()
	c.SendMarkLocked(p, f)
	c.mu.Unlock()
}

func (c *Conn) SendMarkLocked(p *wire.Packet, f func()) {
	c.Logf("server sends %v", p)
	b := p.Encode()
	c.marks = append(c.marks, mark{c.fed + len(b), f})
	c.FeedLocked(b)
}

// SpinPanic is thrown into a caller that keeps reading from an exhausted connection.
type SpinPanic struct{ N int }

func (s SpinPanic) String() string { return fmt.Sprintf("%d reads after the end of the stream", s.N) }

func NewConn() *Conn {
	c := &Conn{logCap: 400}
	c.cond = sync.NewCond(&c.mu)
	return c
}

func (c *Conn) Lock()   { c.mu.Lock() }
func (c *Conn) Unlock() { c.mu.Unlock() }

// Logf appends to the event log (connection locked).
func (c *Conn) Logf(f string, a ...any) {
	c.Seq++
	if len(c.log) >= c.logCap {
		copy(c.log, c.log[1:])
		c.log = c.log[:len(c.log)-1]
	}
	c.log = append(c.log, fmt.Sprintf("%d ", c.Seq)+fmt.Sprintf(f, a...))
}

// Log returns a copy of the last events.
func (c *Conn) Log() []string {
	// A violation may be reported by a hook that runs with the connection locked.
	for i := 0; i < 100000; i++ {
		if c.mu.TryLock() {
			defer c.mu.Unlock()
			break
		}
		runtime.Gosched()
	}
	return append([]string(nil), c.log...)
}

// Feed makes bytes available to the client.
func (c *Conn) Feed(b []byte) {
	c.mu.Lock()
	c.FeedLocked(b)
	c.mu.Unlock()
}

func (c *Conn) FeedLocked(b []byte) {
	c.in = append(c.in, b...)
	c.fed += len(b)
	c.cond.Broadcast()
}

// Send encodes and feeds a packet.
func (c *Conn) Send(p *wire.Packet) {
	c.mu.Lock()
	c.SendLocked(p)
	c.mu.Unlock()
}

func (c *Conn) SendLocked(p *wire.Packet) {
	c.Logf("server sends %v", p)
	c.FeedLocked(p.Encode())
}

// End makes reads return err once the fed bytes are drained.
func (c *Conn) End(err error) {
	c.mu.Lock()
	c.EndLocked(err)
	c.mu.Unlock()
}

func (c *Conn) EndLocked(err error) {
	if c.eof == nil {
		c.eof = err
		c.Logf("server side ends: %v", err)
	}
	c.cond.Broadcast()
}

// Pending is the number of fed bytes not yet consumed.
func (c *Conn) Pending() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.in)
}

func (c *Conn) Closed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closed
}

// Packets returns what the client wrote so far.
func (c *Conn) Packets() []Out {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]Out(nil), c.Outs...)
}

// NumOut is the number of packets written so far.
func (c *Conn) NumOut() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.Outs)
}

// Bytes is the number of bytes written so far.
func (c *Conn) Bytes() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.Total
}

// StreamErr reports a malformed client stream, or an incomplete packet at its end if final.
func (c *Conn) StreamErr(final bool) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.BadBytes != nil {
		return c.BadBytes
	}
	if final && len(c.raw) > 0 {
		return fmt.Errorf("incomplete packet at the end of the client's stream: % x", c.raw)
	}
	return nil
}

func (c *Conn) enter(point string) error {
	if c.Hook != nil {
		c.Hook(point)
	}
	if c.Fault != nil {
		if err := c.Fault(point); err != nil {
			c.mu.Lock()
			c.Logf("fault: %s -> %v", point, err)
			c.mu.Unlock()
			return err
		}
	}
	return nil
}

func (c *Conn) Read(b []byte) (int, error) {
	if err := c.enter("Read"); err != nil {
		return 0, err
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	c.Reads++
	for {
		if c.closed {
			return 0, net.ErrClosed
		}
		if len(b) == 0 {
			return 0, nil
		}
		if len(c.in) > 0 {
			break
		}
		if c.OnIdle != nil && c.OnIdle() {
			continue
		}
		if c.eof != nil {
			c.EOFReads++
			if c.MaxEOF > 0 && c.EOFReads > c.MaxEOF {
				panic(SpinPanic{c.EOFReads})
			}
			return 0, c.eof
		}
		if !c.rdl.IsZero() && !c.HoldReads {
			c.IdleReads++
			n := c.IdleReads
			c.mu.Unlock()
			runtime.Gosched()
			c.mu.Lock()
			return 0, timeoutErr(n)
		}
		c.cond.Wait()
	}
	n := len(b)
	if n > len(c.in) {
		n = len(c.in)
	}
	if c.Frag != nil && len(c.in) < 40000 { // megabytes one by one take minutes
		if k := c.Frag(len(c.in), len(b)); k > 0 && k < n {
			n = k
		}
	}
	intoBuffer(b, c.in[:n])
	c.in = c.in[n:]
	c.InBytes += n
	BytesRead.Add(int64(n))
	for len(c.marks) > 0 && c.marks[0].at <= c.InBytes {
		f := c.marks[0].f
		c.marks = c.marks[1:]
		f()
	}
	if c.OnRead != nil {
		c.OnRead(n)
	}
	if c.TailErr && len(c.in) == 0 && c.eof != nil {
		return n, c.eof
	}
	return n, nil
}

// BytesRead counts what all connections delivered: a case that still reads is not stuck.
var BytesRead atomic.Int64

// intoBuffer and fromBuffer are the accesses to the buffers of the code under test. The race detector counts them as its own.
//
//go:noinline
func intoBuffer(b, from []byte) { copy(b, from) }

//go:noinline
func fromBuffer(b []byte) []byte {
	c := make([]byte, len(b))
	copy(c, b)
	return c
}

func (c *Conn) Write(b []byte) (int, error) {
	if err := c.enter("Write"); err != nil {
		return 0, err
	}
	if c.WFault != nil {
		if k, err := c.WFault(len(b)); err != nil {
			c.mu.Lock()
			c.Logf("fault: write of %d bytes fails after %d: %v", len(b), k, err)
			c.mu.Unlock()
			if k > 0 {
				if e := c.accept(b[:k]); e != nil {
					return 0, e
				}
			}
			return k, err
		}
	}
	if c.SplitW != nil {
		done := 0
		for done < len(b) {
			k := c.SplitW(len(b) - done)
			if k <= 0 || k > len(b)-done {
				k = len(b) - done
			}
			if err := c.accept(b[done : done+k]); err != nil {
				return done, err
			}
			done += k
			if done < len(b) {
				c.enterYield()
			}
		}
		return len(b), nil
	}
	if err := c.accept(b); err != nil {
		return 0, err
	}
	return len(b), nil
}

func (c *Conn) enterYield() {
	if c.Hook != nil {
		c.Hook("MidWrite")
	}
	for i := 0; i < 3; i++ {
		runtime.Gosched()
	}
}

func (c *Conn) accept(b []byte) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		c.Rejected++
		c.Logf("write of %d bytes after Close", len(b))
		return net.ErrClosed
	}
	c.Total += len(b)
	if len(c.raw) == 0 {
		c.rawStart = c.wdl
	}
	c.raw = append(c.raw, fromBuffer(b)...)
	for c.BadBytes == nil && len(c.raw) > 0 {
		h, body, n, err := wire.Frame(c.raw)
		if err == wire.ErrShort {
			break
		}
		var p *wire.Packet
		if err == nil {
			p, err = wire.Decode(h, body, true)
		}
		if err != nil {
			k := n
			if k == 0 || k > len(c.raw) {
				k = len(c.raw)
			}
			c.BadBytes = fmt.Errorf("client wrote a bad packet: %v (%s % x)", err, wire.TypeNames[h>>4], clip(c.raw[:k]))
			c.Logf("%v", c.BadBytes)
			break
		}
		c.raw = c.raw[n:]
		c.Logf("client writes %v", p)
		c.Outs = append(c.Outs, Out{P: p, Seq: c.Seq, Deadline: c.wdl, Start: c.rawStart})
		if c.OnPacket != nil {
			c.OnPacket(p)
		}
		c.rawStart = c.wdl
	}
	if len(c.raw) == 0 {
		c.raw = nil
	}
	return nil
}

func clip(b []byte) []byte {
	if len(b) > 48 {
		return b[:48]
	}
	return b
}

func (c *Conn) Close() error {
	err := c.enter("Close")
	c.mu.Lock()
	defer c.mu.Unlock()
	c.Closes++
	if c.closed {
		return net.ErrClosed
	}
	// A connection that reports an error from Close is gone all the same.
	c.closed = true
	c.Logf("client closes the connection")
	c.cond.Broadcast()
	return err
}

func (c *Conn) set(point string, f func()) error {
	if err := c.enter(point); err != nil {
		return err
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return net.ErrClosed
	}
	f()
	c.cond.Broadcast()
	return nil
}

func (c *Conn) SetDeadline(t time.Time) error {
	return c.set("SetDeadline", func() { c.rdl, c.wdl = t, t })
}
func (c *Conn) SetReadDeadline(t time.Time) error {
	return c.set("SetDeadline", func() { c.rdl = t })
}
func (c *Conn) SetWriteDeadline(t time.Time) error {
	return c.set("SetDeadline", func() { c.wdl = t })
}

// DeadlinesLocked returns the read and write deadline (connection locked).
func (c *Conn) DeadlinesLocked() (r, w time.Time) { return c.rdl, c.wdl }

// timeoutErr is what a net.Conn returns at its deadline: the error itself or, as those of package net do, wrapped.
func timeoutErr(n int) error {
	if n%2 == 0 {
		return os.ErrDeadlineExceeded
	}
	return &net.OpError{Op: "read", Net: "tcp", Err: os.ErrDeadlineExceeded}
}

type addr struct{}

func (addr) Network() string { return "sim" }
func (addr) String() string  { return "sim" }

func (c *Conn) LocalAddr() net.Addr  { return addr{} }
func (c *Conn) RemoteAddr() net.Addr { return addr{} }

var _ net.Conn = (*Conn)(nil)
var _ = io.EOF
