package checks

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"os"
	"syscall"
	"time"

	"github.com/waj334/tinygo-mqtt/mqtt"
	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	"github.com/waj334/tinygo-mqtt/mqtt/packets/primitives"
	"github.com/waj334/tinygo-mqtt/mqtt/storage"
	"verif/harness/sim"
	"verif/harness/wire"
)

var errInjected = errors.New("injected fault")

// writeFailures are errors of a write (or a storage, or Close) that failed, for whatever reason.
var writeFailures = []error{
	errInjected, errInjected, errInjected, os.ErrDeadlineExceeded, &net.OpError{Op: "write", Net: "tcp", Err: os.ErrDeadlineExceeded}, context.DeadlineExceeded,
	net.ErrClosed, io.ErrShortWrite, syscall.EPIPE, &net.OpError{Op: "write", Net: "tcp", Err: os.NewSyscallError("write", syscall.ECONNRESET)}, io.EOF,
}

func anyErr(r *rand.Rand) error { return writeFailures[r.IntN(len(writeFailures))] }

// Sess is a client with its simulated connection.
type Sess struct {
	C     *mqtt.Client
	Conn  *sim.Conn
	Store *sim.Store
}

// Opt configures a session's handshake.
type Opt struct {
	Store    storage.Storage
	Sim      *sim.Store
	Connect  *packets.Connect
	Connack  *wire.Packet
	Rng      func() uint32
	OwnRng   bool
	Frag     func(int, int) int
	Prepare  func(s *Sess)
	NoConn   bool
	KA       uint16
	RecvMax  uint16 // server's Receive Maximum, 0: absent
	ClntMax  uint16 // client's Receive Maximum, 0: absent
	Events   int
	Expiry   uint32
	SrvProps []wire.Prop
}

func ctxBG() context.Context { return context.Background() }

func seqRng(start uint32) func() uint32 {
	// A private counter; called under the client's locks only.
	n := start
	return func() uint32 { n++; return n }
}

// NewSess builds a client and, unless told otherwise, completes the handshake.
func NewSess(o Opt) (*Sess, error) {
	s := &Sess{Conn: sim.NewConn()}
	s.Conn.Frag = o.Frag
	s.C = mqtt.NewClient(s.Conn)
	if o.Sim != nil {
		s.Store = o.Sim
		s.Store.Conn = s.Conn
		s.C.SetStorage(o.Sim)
	} else if o.Store != nil {
		s.C.SetStorage(o.Store)
	}
	if o.OwnRng {
		// The generator of the client itself.
	} else if o.Rng != nil {
		s.C.SetRngFn(o.Rng)
	} else {
		s.C.SetRngFn(seqRng(0))
	}
	if o.Prepare != nil {
		o.Prepare(s)
	}
	if o.NoConn {
		return s, nil
	}
	return s, s.Handshake(o)
}

// Handshake performs Connect against a queued CONNACK.
func (s *Sess) Handshake(o Opt) error {
	cp := o.Connect
	if cp == nil {
		ka := o.KA
		if ka == 0 {
			ka = 3600
		}
		cp = &packets.Connect{Version: packets.MQTT5, ClientId: "c", KeepAlive: primitives.PrimitiveUint16(ka),
			ReceiveMaximum: primitives.PrimitiveUint16(o.ClntMax), SessionExpiryInterval: primitives.PrimitiveUint32(o.Expiry)}
	}
	ack := o.Connack
	if ack == nil {
		ack = &wire.Packet{Type: wire.CONNACK, Props: append([]wire.Prop(nil), o.SrvProps...)}
		if o.RecvMax > 0 {
			ack.Props = append(ack.Props, wire.Prop{ID: 0x21, N: uint32(o.RecvMax)})
		}
	}
	s.Conn.Send(ack)
	return s.C.Connect(sim.NewCtx(sim.Far), cp)
}

// Poll performs one Poll; idle reports that nothing was received.
func (s *Sess) Poll() (idle bool, err error) {
	s.Conn.Lock()
	before := s.Conn.InBytes
	s.Conn.Unlock()
	err = s.C.Poll(sim.PollCtx())
	s.Conn.Lock()
	idle = s.Conn.InBytes == before
	s.Conn.Unlock()
	return
}

// PollAll polls until the connection is idle.
func (s *Sess) PollAll() error {
	for {
		idle, err := s.Poll()
		if err != nil || idle {
			return err
		}
	}
}

// Run performs an operation on its own goroutine while polling until it returns.
func (s *Sess) Run(name string, f func() error) (*sim.Op, error) {
	op := sim.Go(name, f)
	err := sim.Drive(s.Poll, op)
	return op, err
}

// AutoAck makes the broker answer SUBSCRIBE/UNSUBSCRIBE/PINGREQ and complete QoS exchanges at once.
func (s *Sess) AutoAck() {
	s.Conn.OnPacket = func(p *wire.Packet) { autoAck(s.Conn, p) }
}

func autoAck(c *sim.Conn, p *wire.Packet) {
	switch p.Type {
	case wire.PUBLISH:
		switch p.QoS() {
		case 1:
			c.SendLocked(&wire.Packet{Type: wire.PUBACK, ID: p.ID, Short: 2})
		case 2:
			c.SendLocked(&wire.Packet{Type: wire.PUBREC, ID: p.ID, Short: 2})
		}
	case wire.PUBREC:
		c.SendLocked(&wire.Packet{Type: wire.PUBREL, ID: p.ID, Short: 2})
	case wire.PUBREL:
		c.SendLocked(&wire.Packet{Type: wire.PUBCOMP, ID: p.ID, Short: 2})
	case wire.SUBSCRIBE:
		a := &wire.Packet{Type: wire.SUBACK, ID: p.ID}
		for _, q := range p.Subs {
			a.Codes = append(a.Codes, q.Opt&3)
		}
		c.SendLocked(a)
	case wire.UNSUBSCRIBE:
		c.SendLocked(&wire.Packet{Type: wire.UNSUBACK, ID: p.ID, Codes: make([]byte, len(p.Subs))})
	case wire.PINGREQ:
		c.SendLocked(&wire.Packet{Type: wire.PINGRESP})
	}
}

// Drain returns the events waiting in a channel, and whether it is closed.
func drain(ch mqtt.EventChannel) (ev []*mqtt.Event, closed bool) {
	for {
		select {
		case e, ok := <-ch.C:
			if !ok {
				return ev, true
			}
			ev = append(ev, e)
		default:
			return ev, false
		}
	}
}

// topicOf builds a subscription entry.
func topicOf(filter string, qos int, ch *mqtt.EventChannel) mqtt.Topic {
	t := mqtt.Topic{}
	t.SetFilter(filter)
	t.SetQoS(packets.QoS(qos))
	if ch != nil {
		t.SetEventChannel(*ch)
	}
	return t
}

// pub builds a message to publish.
func pub(qos int, topic string, payload []byte) *packets.Publish {
	return &packets.Publish{QoS: packets.QoS(qos), Topic: ps(topic), Payload: payload}
}

// stuckErr extracts a proof of being stuck.
func stuckErr(err error) *sim.Stuck {
	var s *sim.Stuck
	if errors.As(err, &s) {
		return s
	}
	return nil
}

func b2s(b []byte) string {
	if len(b) > 40 {
		return fmt.Sprintf("%q..(%d)", b[:24], len(b))
	}
	return fmt.Sprintf("%q", b)
}

var _ = io.EOF
var _ = rand.IntN
var _ = time.Now
