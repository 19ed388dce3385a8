package checks

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"os"
	"strings"
	"testing"
	"time"

	"github.com/waj334/tinygo-mqtt/mqtt"
	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	"verif/harness/sim"
	"verif/harness/wire"
)

// refuses calls every operation of a client that is not connected.
func (k *Ck) refuses(s *Sess, why string) {
	if s.C.IsConnected() {
		k.Fail("connected after "+why, "IsConnected is true after %s", why)
		return
	}
	before := s.Conn.Bytes()
	ch := s.C.CreateEventChannel(4)
	ops := []struct {
		name string
		f    func(ctx context.Context) error
	}{
		{"Poll", func(ctx context.Context) error { return s.C.Poll(ctx) }},
		{"Publish QoS 0", func(ctx context.Context) error { return s.C.Publish(ctx, pub(0, "t", nil)) }},
		{"Publish QoS 1", func(ctx context.Context) error { return s.C.Publish(ctx, pub(1, "t", nil)) }},
		{"Publish QoS 2", func(ctx context.Context) error { return s.C.Publish(ctx, pub(2, "t", nil)) }},
		{"Subscribe", func(ctx context.Context) error { return s.C.Subscribe(ctx, []mqtt.Topic{topicOf("f", 1, &ch)}) }},
		{"Unsubscribe", func(ctx context.Context) error { return s.C.Unsubscribe(ctx, []string{"f"}) }},
		{"KeepAlive", func(ctx context.Context) error { return s.C.KeepAlive() }},
		{"Disconnect", func(ctx context.Context) error { return s.C.Disconnect(ctx, false) }},
		{"DisconnectWithSessionExpiry", func(ctx context.Context) error { return s.C.DisconnectWithSessionExpiry(ctx, true, 5) }},
	}
	for i := 0; i < 2*len(ops); i++ {
		o := ops[i/2]
		ctx := sim.NewCtx([]time.Time{sim.Far, {}, time.Now().Add(-time.Hour)}[i%3])
		if i%2 == 1 {
			ctx.End([]error{context.Canceled, context.DeadlineExceeded}[i/2%2])
			o.name += " with a context that is done"
		}
		op := sim.Go(o.name, func() error { return o.f(ctx) })
		if err := sim.Await(op); err != nil {
			k.Fail(o.name+" does not return after "+why, "%v", err)
			return
		}
		if op.Panic != "" {
			k.Fail("panic", "%s panics after %s: %s", o.name, why, op.Panic)
			return
		}
		if !errors.Is(op.Err, mqtt.ErrClientNotConnected) {
			k.Fail(o.name+" after "+why, "%s returned %v after %s, want ErrClientNotConnected", o.name, op.Err, why)
		}
		k.Count("operations refused", 1)
	}
	if s.Conn.Bytes() != before {
		k.Fail("bytes written after "+why, "%d bytes were written while not connected", s.Conn.Bytes()-before)
	}
}

func TestC10(t *testing.T) {
	k := Start(t, "C10", "Connect against every reason code, random well-formed, malformed and truncated CONNACKs, every other packet type, and a "+
		"fault at every call on the connection; result, state, event, keep alive and later operations compared with the reference decoder's verdict")
	connect := func(r *rand.Rand) *packets.Connect {
		cp := &packets.Connect{Version: packets.MQTT5, ClientId: "c", CleanSession: r.IntN(2) == 0}
		cp.KeepAlive = u16(num(r, 65535))
		if r.IntN(8) == 0 {
			cp.KeepAlive = 0
		}
		cp.ReceiveMaximum = u16(num(r, 65535))
		return cp
	}
	// run feeds a stream and judges Connect by the reference decoder.
	run := func(i int, r *rand.Rand, stream []byte, end error, desc string) {
		s, _ := NewSess(Opt{NoConn: true, Frag: frag(r)})
		k.Log(s.Conn.Log)
		s.Conn.MaxEOF = 50
		s.Conn.TailErr = r.IntN(3) == 0
		ev := s.C.CreateEventChannel(10)
		ctx := context.Context(sim.NewCtx(sim.Far))
		if i%2 == 0 {
			ctx = context.Background()
		}
		cp := connect(r)
		if r.IntN(3) == 0 {
			k.refuses(s, "no Connect yet")
		}
		s.Conn.Feed(stream)
		s.Conn.End(end)
		k.Distinct(stream, fmt.Sprint(end))
		h, body, n, err := wire.Frame(stream)
		var p *wire.Packet
		if err == nil {
			p, err = wire.Decode(h, body, false)
		}
		var soft *wire.Protocol
		if err == nil || errors.As(err, &soft) && strings.HasPrefix(soft.Msg, "reason code") && p.Type == wire.CONNACK {
			// What counts of a reason code is whether it is 0x80 or more, known or not.
			err, soft = nil, nil
		}
		either := errors.As(err, &soft)
		accept := err == nil && p.Type == wire.CONNACK && p.Reason < 0x80
		refuse := err == nil && p.Type == wire.CONNACK && p.Reason >= 0x80
		var got error
		op := sim.Go("Connect", func() error { return s.C.Connect(ctx, cp) })
		if e := sim.Await(op); e != nil {
			k.Fail("Connect does not return", "%s: %v", desc, e)
			return
		}
		if op.Panic != "" {
			k.Fail("panic", "%s: %s", desc, op.Panic)
			return
		}
		got = op.Err
		up := s.C.IsConnected()
		if (got == nil) != up {
			k.Fail("state contradicts result", "%s: Connect returned %v but IsConnected is %v", desc, got, up)
			return
		}
		if o := s.Conn.Packets(); len(o) != 1 || o[0].P.Type != wire.CONNECT {
			k.Fail("not one CONNECT", "%s: Connect wrote %s", desc, outList(o))
			return
		}
		switch {
		case either:
			k.Count("protocol errors of either outcome", 1)
		case accept:
			if got != nil {
				k.Fail("accepting CONNACK refused", "%s: Connect returned %v on %v", desc, got, p)
				return
			}
			ka := uint32(cp.KeepAlive)
			if q, ok := p.Prop(0x13); ok {
				ka = q.N
				k.Count("server keep alive", 1)
			}
			if d := s.C.KeepAliveInterval(); d != time.Duration(ka)*time.Second {
				k.Fail("wrong keep alive", "CONNECT %d, CONNACK %v: KeepAliveInterval is %v", cp.KeepAlive, p, d)
			}
			es, closed := drain(ev)
			if closed || len(es) != 1 || int(es[0].PacketType) != wire.CONNACK {
				k.Fail("CONNACK event", "%d events after Connect", len(es))
			} else if d := diffServer(es[0].Data, p); d != "" {
				k.Fail("CONNACK event", "%v was signalled %s", p, d)
			}
			if left := s.Conn.Pending(); left != len(stream)-n {
				k.Fail("CONNACK consumed inexactly", "%d bytes follow the CONNACK, %d are left", len(stream)-n, left)
			}
			if s.Conn.Closed() {
				k.Fail("closed after success", "the connection is closed")
			}
			k.Count("accepted", 1)
			// The connection ends, one way or the other.
			if s.Conn.Pending() == 0 && i%4 != 3 {
				why := "the end of the stream"
				if i%4 == 0 || errors.Is(end, os.ErrDeadlineExceeded) {
					// Silence is not the end of the stream.
					why = "Disconnect"
					s.C.Disconnect(sim.NewCtx(sim.Far), false)
				} else {
					s.C.Poll(sim.PollCtx())
				}
				k.refuses(s, why)
			}
		case refuse:
			var rc mqtt.ReasonCode
			if !errors.As(got, &rc) || byte(rc) != p.Reason {
				k.Fail("wrong refusal", "Connect returned %v on %v", got, p)
			}
			if !s.Conn.Closed() {
				k.Fail("left open after a refusal", "the connection is open after %v", p)
			}
			k.Count("refused", 1)
		default:
			if got == nil {
				k.Fail("connected without CONNACK", "%s: Connect returned nil although %v", desc, err)
				return
			}
			k.Count("failed", 1)
		}
		if got != nil {
			if es, _ := drain(ev); len(es) != 0 {
				k.Fail("event of a failed Connect", "%d events after Connect returned %v", len(es), got)
			}
			k.refuses(s, "a failed Connect")
		}
	}
	k.Cases("codes", 256*4, func(i int, r *rand.Rand) {
		p := &wire.Packet{Type: wire.CONNACK, Reason: byte(i), Session: byte(i >> 8 & 1)}
		if p.Reason >= 0x80 {
			p.Session = 0
		}
		if i >= 512 {
			p.Props = serverProps(r, wire.CONNACK, 40)
		}
		run(i, r, p.Encode(), io.EOF, p.String())
	})
	k.Cases("good", k.N(40000, 100000), func(i int, r *rand.Rand) {
		p := serverPacket(r, wire.CONNACK, 60)
		if i%2 == 0 {
			p.Reason = 0
		}
		if i%3 == 0 {
			p.Props = append(without(p.Props, func(q wire.Prop) bool { return q.ID == 0x13 }), wire.Prop{ID: 0x13, N: num(r, 65535) * uint32(r.IntN(4)) / 3})
		}
		b := p.Encode()
		for j, lim := 0, r.IntN(3); j < lim; j++ {
			b = append(b, serverPacket(r, wire.PUBLISH, 20).Encode()...)
		}
		run(i, r, b, io.EOF, p.String())
	})
	k.Cases("other", k.N(16000, 40000), func(i int, r *rand.Rand) {
		p := serverPacket(r, serverTypes[1+i%(len(serverTypes)-1)], 40)
		b := p.Encode()
		if r.IntN(2) == 0 {
			b = append(b, (&wire.Packet{Type: wire.CONNACK}).Encode()...)
		}
		run(i, r, b, io.EOF, p.String())
	})
	k.Cases("bad", k.N(60000, 160000), func(i int, r *rand.Rand) {
		p := serverPacket(r, wire.CONNACK, 30)
		if i%2 == 0 {
			p.Reason = 0
		}
		b := mangle(r, p.Encode())
		run(i, r, b, append([]error{io.EOF, os.ErrDeadlineExceeded}, readFailures...)[r.IntN(2+len(readFailures))], fmt.Sprintf("% x", head(b)))
	})
	k.Cases("cut", 200, func(i int, r *rand.Rand) {
		p := &wire.Packet{Type: wire.CONNACK, Props: []wire.Prop{{ID: 0x21, N: 7}, {ID: 0x12, S: "id"}, {ID: 0x26, S: "k", V: "v"}}}
		b := p.Encode()
		run(i, r, b[:i%len(b)], []error{io.EOF, errInjected, os.ErrDeadlineExceeded}[i%3], fmt.Sprintf("CONNACK cut after %d bytes", i%len(b)))
	})
	// A fault at every call on the connection during Connect.
	k.Cases("fault", 40*3, func(i int, r *rand.Rand) {
		s, _ := NewSess(Opt{NoConn: true, Frag: func(int, int) int { return 1 }})
		k.Log(s.Conn.Log)
		ev := s.C.CreateEventChannel(10)
		s.Conn.Send(&wire.Packet{Type: wire.CONNACK, Props: []wire.Prop{{ID: 0x21, N: 7}, {ID: 0x1F, S: "hello"}}})
		at, n := i/3, 0
		hit := ""
		s.Conn.Fault = func(p string) error {
			n++
			if n-1 == at && p != "Close" {
				hit = p
				return []error{io.EOF, errInjected, os.ErrDeadlineExceeded}[i%3]
			}
			return nil
		}
		op := sim.Go("Connect", func() error { return s.C.Connect(sim.NewCtx(sim.Far), connect(r)) })
		if e := sim.Await(op); e != nil || op.Panic != "" {
			k.Fail("Connect does not return", "fault at call %d: %v %s", at, e, op.Panic)
			return
		}
		if hit == "" {
			if op.Err != nil {
				k.Fail("accepting CONNACK refused", "Connect returned %v without fault", op.Err)
			}
			return
		}
		s.Conn.Fault = nil
		k.Count("faults in Connect", 1)
		k.Distinct("fault", i)
		if op.Err == nil {
			k.Fail("failure ignored", "%s failed (call %d) but Connect returned nil", hit, at)
			return
		}
		if es, _ := drain(ev); len(es) != 0 {
			k.Fail("event of a failed Connect", "%d events after Connect returned %v", len(es), op.Err)
		}
		k.refuses(s, "a failed Connect")
	})
	// Whoever is told of the CONNACK finds the client connected.
	k.Cases("order", k.N(400, 4000), func(i int, r *rand.Rand) {
		s, _ := NewSess(Opt{NoConn: true})
		k.Log(s.Conn.Log)
		done := make(chan string, 8)
		for j := 0; j < 8; j++ {
			ev := s.C.CreateEventChannel(1)
			go func() {
				<-ev.C
				up, ka := s.C.IsConnected(), s.C.KeepAliveInterval()
				if !up || ka != 77*time.Second {
					done <- fmt.Sprintf("IsConnected returned %v and KeepAliveInterval %v", up, ka)
					return
				}
				done <- ""
			}()
		}
		s.Conn.Send(&wire.Packet{Type: wire.CONNACK, Props: []wire.Prop{{ID: 0x13, N: 77}}})
		op := sim.Go("Connect", func() error { return s.C.Connect(sim.NewCtx(sim.Far), connect(r)) })
		if e := sim.Await(op); e != nil || op.Err != nil {
			k.Fail("accepting CONNACK refused", "Connect returned %v %v", op.Err, e)
			return
		}
		for j := 0; j < 8; j++ {
			if msg := <-done; msg != "" {
				k.Fail("CONNACK event before the client is connected", "after the CONNACK event (keep alive 77), %s", msg)
			}
			k.Count("consumers of the CONNACK event", 1)
		}
		k.Distinct("order", i)
	})
	// Nothing was received before the deadline.
	k.Cases("silence", 8, func(i int, r *rand.Rand) {
		s, _ := NewSess(Opt{NoConn: true})
		if err := s.C.Connect(sim.NewCtx(sim.Far), connect(r)); err == nil {
			k.Fail("connected without CONNACK", "Connect returned nil without CONNACK")
		}
		k.refuses(s, "a Connect without answer")
	})
	k.End()
}
