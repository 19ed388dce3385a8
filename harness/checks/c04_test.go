package checks

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"testing"

	"github.com/waj334/tinygo-mqtt/mqtt"
	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	"verif/harness/sim"
	"verif/harness/wire"
)

// mangle damages the encoding of a packet.
func mangle(r *rand.Rand, b []byte) []byte {
	b = append([]byte(nil), b...)
	for k, n := 0, 1+r.IntN(2); k < n && len(b) > 0; k++ {
		switch r.IntN(12) {
		case 0: // flip a bit
			b[r.IntN(len(b))] ^= 1 << r.IntN(8)
		case 1: // overwrite a byte
			b[r.IntN(len(b))] = byte(r.Uint32())
		case 2: // wrong Remaining Length, body unchanged
			v, m, err := wire.ReadVar(b[1:])
			if err == nil {
				d := int(v) + []int{-3, -2, -1, 1, 2, 3, 7, 128, -int(v)}[r.IntN(9)]
				if d >= 0 {
					b = append(wire.Var([]byte{b[0]}, uint32(d)), b[1+m:]...)
				}
			}
		case 3: // bytes removed, Remaining Length adjusted: internal structure overruns
			v, m, err := wire.ReadVar(b[1:])
			if v = min(v, uint32(max(0, len(b)-1-m))); err == nil && v > 0 {
				cut := 1 + r.IntN(min(int(v), 6))
				at := r.IntN(int(v) - cut + 1)
				body := append(append([]byte(nil), b[1+m:1+m+at]...), b[1+m+at+cut:]...)
				b = append(wire.Var([]byte{b[0]}, uint32(len(body))), body...)
			}
		case 4: // bytes added at the end, Remaining Length adjusted
			_, m, err := wire.ReadVar(b[1:])
			if err == nil {
				body := append(append([]byte(nil), b[1+m:]...), bin(r, 1+r.IntN(4))...)
				b = append(wire.Var([]byte{b[0]}, uint32(len(body))), body...)
			}
		case 5: // body cut short, Remaining Length adjusted
			v, m, err := wire.ReadVar(b[1:])
			if v = min(v, uint32(max(0, len(b)-1-m))); err == nil && v > 0 {
				body := b[1+m : 1+m+r.IntN(int(v))]
				b = append(wire.Var([]byte{b[0]}, uint32(len(body))), body...)
			}
		case 6: // over-long Remaining Length
			_, m, err := wire.ReadVar(b[1:])
			if err == nil {
				b = append(append([]byte{b[0]}, bytes.Repeat([]byte{0x80 | b[1]}, 4+r.IntN(3))...), b[1+m-1:]...)
			}
		case 7: // another packet type
			b[0] = byte(r.IntN(16))<<4 | b[0]&15
		case 8: // a byte of the first few changed: lengths live there
			b[r.IntN(min(len(b), 12))] = []byte{0, 1, 2, 0x7f, 0x80, 0xff}[r.IntN(6)]
		case 9: // truncated
			b = b[:r.IntN(len(b))]
		case 10: // a length field nudged by one
			i := r.IntN(len(b))
			b[i] += byte(1 - 2*r.IntN(2))
		case 11: // forbidden flags
			b[0] ^= byte(1 + r.IntN(15))
		}
	}
	return b
}

func TestC04(t *testing.T) {
	c := Start(t, "C04", "streams of server packets with damaged, truncated, spliced, random and unknown ones before and after the handshake, each byte string classified by an independent structural validator; distinct by stream")
	defer c.End()

	run := func(i int, r *rand.Rand, stream []byte, end error) {
		s, _ := NewSess(Opt{NoConn: true, Frag: frag(r)})
		c.Log(s.Conn.Log)
		s.Conn.MaxEOF = 50
		ch := s.C.CreateEventChannel(400)
		s.Conn.Feed(stream)
		s.Conn.End(end)
		c.Distinct(stream)
		cp := &packets.Connect{Version: packets.MQTT5, ClientId: "c", KeepAlive: 60000, TopicAliasMaximum: 65535}
		connected := false
		rest := stream
		desc := func() string { return fmt.Sprintf("stream % x, at offset %d", head(stream), len(stream)-len(rest)) }
		for k := 0; ; k++ {
			// What comes next, by the book?
			h, body, n, ferr := wire.Frame(rest)
			var p *wire.Packet
			class := "good"
			var why error
			switch {
			case ferr != nil:
				class, why = "broken", ferr
			default:
				p, why = wire.Decode(h, body, false)
				var mf *wire.Malformed
				if errors.As(why, &mf) {
					class = "broken"
				} else if why != nil {
					class = "either"
				}
			}
			if class == "either" && p.Type == wire.PUBLISH && (p.QoS() == 3 || p.QoS() > 0 && p.ID == 0) {
				class = "broken"
			}
			if class != "broken" {
				if connected && p.Type == wire.CONNACK || !connected && p.Type != wire.CONNACK {
					class, why = "broken", fmt.Errorf("unexpected %s", wire.TypeNames[p.Type])
				}
			}
			outs := s.Conn.NumOut()
			evs, _ := drain(ch)
			if len(evs) != 0 {
				c.Fail("stray event", "event %T before its packet; %s", evs[0].Data, desc())
				return
			}
			var err error
			wasIn := s.Conn.InBytes
			if !connected {
				err = s.C.Connect(sim.NewCtx(sim.Far), cp)
			} else {
				err = s.C.Poll(sim.PollCtx())
			}
			evs, _ = drain(ch)
			c.Count("packets "+class, 1)
			switch class {
			case "broken":
				c.Distinct("why", why)
				if err == nil {
					c.Fail("accepted", "bytes that are no packet (%v) were accepted: event %v; %s", why, len(evs) > 0, desc())
					return
				}
				if len(evs) != 0 && evs[0].PacketType != packets.DISCONNECT {
					c.Fail("delivered", "a broken packet (%v) was delivered as %T; %s", why, evs[0].Data, desc())
					return
				}
				for _, o := range s.Conn.Packets()[outs:] {
					if o.P.Type != wire.DISCONNECT && o.P.Type != wire.CONNECT {
						c.Fail("answered", "a broken packet (%v) was answered with %v; %s", why, o.P, desc())
						return
					}
				}
				c.over(s, connected, desc, why)
				return
			case "either":
				if err != nil {
					return
				}
				if !connected {
					if p.Reason >= 0x80 {
						return
					}
				}
			case "good":
				if !connected && p.Reason >= 0x80 {
					if rc, ok := err.(mqtt.ReasonCode); !ok || byte(rc) != p.Reason {
						c.Fail("refusal", "Connect returned %v for %v", err, p)
					}
					c.over(s, connected, desc, err)
					return
				}
				if err != nil && p.Type != wire.DISCONNECT {
					c.Fail("refused", "%v is well-formed but was refused: %v; %s", p, err, desc())
					return
				}
				if len(evs) > 1 {
					c.Fail("events", "%v gave %d events; %s", p, len(evs), desc())
					return
				}
				if len(evs) == 1 {
					if d := diffServer(evs[0].Data, p); d != "" {
						c.Fail("content", "%v: %s; %s", p, d, desc())
						return
					}
				}
			}
			if got := s.Conn.InBytes - wasIn; got != n {
				c.Fail("consumption", "%v: %d bytes consumed of %d; %s", p, got, n, desc())
				return
			}
			connected = true
			rest = rest[n:]
			if p.Type == wire.DISCONNECT {
				c.over(s, true, desc, errors.New("DISCONNECT"))
				return
			}
		}
	}
	good := func(r *rand.Rand, typ int) []byte {
		w := serverPacket(r, typ, []int{10, 30, 200}[r.IntN(3)])
		if len(w.Payload) > 1000 {
			w.Payload = w.Payload[:1000]
		}
		return w.Encode()
	}
	connack := func(r *rand.Rand) []byte {
		w := serverPacket(r, wire.CONNACK, 20)
		w.Reason = 0
		return w.Encode()
	}
	ends := []error{io.EOF, io.EOF, io.ErrUnexpectedEOF, errInjected}
	c.Cases("mangled handshake", c.N(60000, 300000), func(i int, r *rand.Rand) {
		var b []byte
		switch r.IntN(6) {
		case 0:
			b = bin(r, r.IntN(40))
		case 1:
			b = good(r, serverTypes[r.IntN(len(serverTypes))])
		case 2: // a legal type byte, then anything
			b = append([]byte{0x20, byte(r.IntN(30))}, bin(r, r.IntN(40))...)
		default:
			b = mangle(r, good(r, wire.CONNACK))
		}
		if r.IntN(3) == 0 {
			b = append(b, good(r, wire.PUBLISH)...)
		}
		run(i, r, b, ends[r.IntN(4)])
	})
	c.Cases("mangled session", c.N(200000, 900000), func(i int, r *rand.Rand) {
		b := connack(r)
		for k, n := 0, r.IntN(3); k < n; k++ {
			b = append(b, good(r, serverTypes[1+r.IntN(8)])...)
		}
		typ := serverTypes[1+r.IntN(len(serverTypes)-1)]
		switch r.IntN(8) {
		case 0:
			b = append(b, bin(r, r.IntN(60))...)
		case 1: // right type, random body of the right length
			body := bin(r, r.IntN(20))
			b = append(b, byte(typ<<4), byte(len(body)))
			b = append(b, body...)
		case 2: // a client packet, or the reserved type
			bad := []int{0, wire.CONNECT, wire.SUBSCRIBE, wire.UNSUBSCRIBE, wire.PINGREQ, wire.CONNACK}[r.IntN(6)]
			x := good(r, wire.SUBACK)
			x[0] = byte(bad<<4) | byte(r.IntN(16))
			if bad == wire.CONNACK {
				x = connack(r)
			}
			b = append(b, x...)
		case 3: // unknown or misplaced property
			w := &wire.Packet{Type: typ, ID: 9, Topic: "t", Codes: []byte{0}}
			if typ == wire.PINGRESP {
				w.Type = wire.PUBLISH
			}
			x := w.Encode()
			if w.Type == wire.SUBACK || w.Type == wire.UNSUBACK || w.Type == wire.PUBLISH {
				// byte after the variable header is the property length
			}
			prop := append([]byte{byte(r.Uint32())}, bin(r, r.IntN(6))...)
			at := map[int]int{wire.PUBLISH: 3, wire.SUBACK: 2, wire.UNSUBACK: 2, wire.PUBACK: 3, wire.PUBREC: 3, wire.PUBREL: 3, wire.PUBCOMP: 3, wire.DISCONNECT: 1, wire.AUTH: 1}[w.Type]
			body := append(append([]byte(nil), x[2:2+at]...), byte(len(prop)))
			body = append(append(body, prop...), x[min(len(x), 2+at+1):]...)
			b = append(b, append([]byte{x[0], byte(len(body))}, body...)...)
		default:
			b = append(b, mangle(r, good(r, typ))...)
		}
		for k, n := 0, r.IntN(3); k < n; k++ {
			b = append(b, good(r, serverTypes[1+r.IntN(8)])...)
		}
		run(i, r, b, ends[r.IntN(4)])
		if i < 4 {
			c.Sample("% x", head(b))
		}
	})
	// Every property identifier in every packet type, with well-formed values of each kind, alone and between allowed
	// properties.
	kinds := []int{wire.KByte, wire.KU16, wire.KU32, wire.KVar, wire.KStr, wire.KPair}
	c.Cases("properties", len(serverTypes)*256*c.N(2, 6), func(i int, r *rand.Rand) {
		id, typ := byte(i), serverTypes[i/256%len(serverTypes)]
		if typ == wire.PINGRESP {
			return
		}
		ks := kinds
		if k, ok := wire.PropKind(id); ok {
			ks = []int{k}
		}
		for _, k := range ks {
			w := &wire.Packet{Type: typ, ID: 9, Topic: "t", Codes: []byte{0}, Payload: []byte("x")}
			if typ == wire.PUBLISH {
				w.Flags = byte(r.IntN(3) << 1)
			}
			if typ == wire.PUBREL {
				w.Flags = 2
			}
			one := wire.RawProp(id, k, wire.Prop{N: 1, S: text(r, 3), V: text(r, 2)})
			var pre, post []byte
			if r.IntN(2) == 0 {
				pre = wire.RawProp(0x26, wire.KPair, wire.Prop{S: "a", V: "b"})
			}
			if r.IntN(2) == 0 {
				post = wire.RawProp(0x26, wire.KPair, wire.Prop{S: "c", V: "d"})
			}
			w.Raw = append(append(pre, one...), post...)
			x := w.Encode()
			var b []byte
			if typ != wire.CONNACK {
				b = connack(r)
			}
			b = append(append(b, x...), 0x30, 4, 0, 1, 't', 0)
			run(9, r, b, io.EOF)
			c.Count("properties in packets", 1)
		}
	})
	// PUBLISH with every combination of flags, with and without a packet identifier.
	c.Cases("publish flags", 64, func(i int, r *rand.Rand) {
		w := &wire.Packet{Type: wire.PUBLISH, Flags: byte(i & 15), Topic: "t", Payload: []byte("xyz")}
		if i&16 != 0 {
			w.ID = uint16(1 + r.IntN(65535))
		}
		x := w.Encode()
		if i&32 != 0 {
			w.Topic, w.Props = "", []wire.Prop{{ID: 0x23, N: 4}}
			x = w.Encode()
		}
		run(9, r, append(append(connack(r), x...), 0x30, 4, 0, 1, 't', 0), io.EOF)
	})
	// A packet that ends in the middle of one of its fields, its Remaining Length saying so: for each property of each
	// packet type, and straight through the decoders, whose reader ends early.
	type field struct {
		typ int
		id  byte
	}
	var fields []field
	for _, typ := range serverTypes {
		if typ == wire.PINGRESP {
			continue
		}
		fields = append(fields, field{typ, 0})
		for _, id := range wire.PropsFor(typ) {
			fields = append(fields, field{typ, id})
		}
	}
	c.Cases("ends in a field", len(fields)*c.N(3, 12), func(i int, r *rand.Rand) {
		f := fields[i%len(fields)]
		w := &wire.Packet{Type: f.typ, ID: 9, Topic: "topic", Codes: []byte{0}}
		switch f.typ {
		case wire.PUBLISH:
			w.Flags = byte(r.IntN(3) << 1)
			w.Payload = bin(r, r.IntN(6))
		case wire.PUBREL:
			w.Flags = 2
		}
		if f.typ != wire.CONNACK && f.typ != wire.PUBLISH && f.typ != wire.SUBACK && f.typ != wire.UNSUBACK {
			w.Reason = reason(r, f.typ)
		}
		if f.id != 0 {
			k, _ := wire.PropKind(f.id)
			v := wire.Prop{N: 1, S: strNZ(r, 5), V: strNZ(r, 4)}
			w.Raw = wire.RawProp(f.id, k, v)
			if r.IntN(2) == 0 && f.id != 0x26 && f.id != 0x0b {
				w.Raw = append(wire.RawProp(0x26, wire.KPair, wire.Prop{S: "a", V: "b"}), w.Raw...)
			}
		}
		x := w.Encode()
		_, body, _, err := wire.Frame(x)
		if err != nil {
			panic(err)
		}
		var pre []byte
		if f.typ != wire.CONNACK {
			pre = connack(r)
		}
		for k := 0; k < len(x)-len(body); k++ {
			var h packets.FixedHeader
			if _, err := h.ReadFrom(newSlow(r, append([]byte(nil), x[:k]...))); err == nil {
				c.Fail("short header accepted", "the first %d bytes of % x are accepted as a fixed header", k, x)
				return
			}
		}
		for k := 0; k < len(body); k++ {
			b := append(append([]byte(nil), pre...), x[0])
			b = append(wire.Var(b, uint32(k)), body[:k]...)
			if r.IntN(2) == 0 {
				b = append(b, 0x30, 4, 0, 1, 't', 0)
			}
			run(9, r, b, io.EOF)
			c.Count("packets ending in a field", 1)
			// The decoder alone, with a reader that ends.
			rd := newSlow(r, append(append([]byte(nil), x[:len(x)-len(body)]...), body[:k]...))
			var h packets.FixedHeader
			if _, err := h.ReadFrom(rd); err != nil {
				c.Fail("fixed header", "% x: %v", x, err)
				return
			}
			if _, err := newDecoder(h).ReadFrom(rd); err == nil {
				c.Fail("short read accepted", "%s: the decoder accepts the first %d of the %d bytes of its body: % x", wire.TypeNames[f.typ], k, len(body), x)
				return
			}
			c.Count("short reads", 1)
		}
	})
	// Every truncation of one packet of each kind and every single-byte change in its first bytes.
	c.Cases("every cut", len(serverTypes)*c.N(24, 120), func(i int, r *rand.Rand) {
		typ := serverTypes[i%len(serverTypes)]
		w := serverPacket(r, typ, 8)
		if len(w.Payload) > 10 {
			w.Payload = w.Payload[:10]
		}
		x := w.Encode()
		pre := connack(r)
		if typ == wire.CONNACK {
			pre = nil
		}
		for k := 0; k <= len(x); k++ {
			run(9, r, append(append([]byte(nil), pre...), x[:k]...), ends[k%4])
		}
		for k := 0; k < min(len(x), 24); k++ {
			for _, v := range []byte{0, 1, 2, 3, 0x26, 0x7f, 0x80, 0xff, x[k] + 1, x[k] - 1} {
				y := append([]byte(nil), x...)
				y[k] = v
				y = append(y, 0x30, 4, 0, 1, 't', 0)
				run(9, r, append(append([]byte(nil), pre...), y...), io.EOF)
			}
		}
	})
}

// over checks that the session is finished: closed, reported as not connected, and deaf.
func (c *Ck) over(s *Sess, was bool, desc func() string, why error) {
	if !s.Conn.Closed() {
		c.Fail("left open", "the connection is left open after %v; %s", why, desc())
		return
	}
	if s.C.IsConnected() {
		c.Fail("still connected", "IsConnected is true after %v; %s", why, desc())
		return
	}
	s.Conn.Lock()
	reads, total := s.Conn.Reads, s.Conn.Total
	s.Conn.Unlock()
	for k := 0; k < 2; k++ {
		if err := s.C.Poll(sim.PollCtx()); !errors.Is(err, mqtt.ErrClientNotConnected) {
			c.Fail("poll afterwards", "Poll after %v returns %v; %s", why, err, desc())
			return
		}
	}
	s.Conn.Lock()
	defer s.Conn.Unlock()
	if s.Conn.Reads != reads || s.Conn.Total != total || s.Conn.Rejected != 0 {
		c.Fail("traffic afterwards", "the client keeps using the connection after %v; %s", why, desc())
	}
}
