package checks

import (
	"bytes"
	"fmt"
	"io"
	"math/rand/v2"
	"reflect"
	"testing"

	"github.com/waj334/tinygo-mqtt/mqtt"
	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	"github.com/waj334/tinygo-mqtt/mqtt/packets/primitives"
	"verif/harness/sim"
	"verif/harness/wire"
)

func ackView(typ int, a *packets.Puback) *wire.Packet {
	p := &wire.Packet{Type: typ, ID: uint16(a.PacketIdentifier), Reason: byte(a.ReasonCode)}
	nzs(&p.Props, 0x1F, a.ReasonString)
	p.Props = append(p.Props, pairs(a.UserProperties)...)
	return p
}

// payloadFormat finds the payload format indicator of a decoded PUBLISH, whatever its field is called.
func payloadFormat(p *packets.Publish) (uint32, bool) {
	v := reflect.ValueOf(p).Elem()
	for _, n := range []string{"PayloadFormat", "PayloadFormatIndicator"} {
		if f := v.FieldByName(n); f.IsValid() {
			switch f.Kind() {
			case reflect.Uint8, reflect.Uint16, reflect.Uint32:
				return uint32(f.Uint()), true
			case reflect.Bool:
				if f.Bool() {
					return 1, true
				}
				return 0, true
			}
		}
	}
	return 0, false
}

func setPayloadFormat(p *packets.Publish, n uint8) {
	v := reflect.ValueOf(p).Elem()
	for _, name := range []string{"PayloadFormat", "PayloadFormatIndicator"} {
		if f := v.FieldByName(name); f.IsValid() {
			if f.Kind() == reflect.Bool {
				f.SetBool(n != 0)
			} else {
				f.SetUint(uint64(n))
			}
		}
	}
}

// view turns a decoded packet into the reference representation (absent and zero properties are the same thing).
func view(data any) *wire.Packet {
	switch v := data.(type) {
	case *packets.Connack:
		p := &wire.Packet{Type: wire.CONNACK, Reason: byte(v.ReasonCode)}
		if v.SessionPresent {
			p.Session = 1
		}
		nz32(&p.Props, 0x11, uint32(v.SessionExpiryInterval))
		nz32(&p.Props, 0x21, uint32(v.ReceiveMaximum))
		nz32(&p.Props, 0x24, uint32(v.MaximumQoS))
		nz32(&p.Props, 0x25, uint32(v.RetainAvailable))
		nz32(&p.Props, 0x27, uint32(v.MaximumPacketSize))
		nzs(&p.Props, 0x12, v.ClientId)
		nz32(&p.Props, 0x22, uint32(v.TopicAliasMaximum))
		nzs(&p.Props, 0x1F, v.ReasonString)
		p.Props = append(p.Props, pairs(v.UserProperties)...)
		nz32(&p.Props, 0x28, uint32(v.WildcardSubscriptions))
		nz32(&p.Props, 0x29, uint32(v.SubscriptionIdentifiers))
		nz32(&p.Props, 0x2A, uint32(v.SharedSubscriptions))
		nz32(&p.Props, 0x13, uint32(v.ServerKeepAlive))
		nzs(&p.Props, 0x1A, v.ResponseInformation)
		nzs(&p.Props, 0x1C, v.ServerReference)
		nzs(&p.Props, 0x15, v.AuthenticationMethod)
		nzs(&p.Props, 0x16, v.AuthenticationData)
		return p
	case *packets.Publish:
		p := &wire.Packet{Type: wire.PUBLISH, Topic: string(v.Topic), ID: uint16(v.PacketIdentifier), Payload: v.Payload, Props: publishProps(v)}
		p.Flags = byte(v.QoS) << 1
		if v.Retain {
			p.Flags |= 1
		}
		if v.Duplicate {
			p.Flags |= 8
		}
		if _, ok := payloadFormat(v); !ok {
			p.Props = append(p.Props, wire.Prop{ID: 0x01, N: 99})
		}
		return p
	case *packets.Puback:
		return ackView(wire.PUBACK, v)
	case *packets.Pubrec:
		return ackView(wire.PUBREC, &v.Puback)
	case *packets.Pubrel:
		return ackView(wire.PUBREL, &v.Puback)
	case *packets.Pubcomp:
		return ackView(wire.PUBCOMP, &v.Puback)
	case *packets.Suback:
		p := &wire.Packet{Type: wire.SUBACK, ID: uint16(v.PacketIdentifier), Codes: v.ReasonCodes}
		nzs(&p.Props, 0x1F, v.ReasonString)
		p.Props = append(p.Props, pairs(v.UserProperties)...)
		return p
	case *packets.Unsuback:
		p := &wire.Packet{Type: wire.UNSUBACK, ID: uint16(v.PacketIdentifier), Codes: v.ReasonCodes}
		nzs(&p.Props, 0x1F, v.ReasonString)
		p.Props = append(p.Props, pairs(v.UserProperties)...)
		return p
	case *packets.Disconnect:
		p := &wire.Packet{Type: wire.DISCONNECT, Reason: byte(v.ReasonCode)}
		nz32(&p.Props, 0x11, uint32(v.SessionExpiryInterval))
		nzs(&p.Props, 0x1F, v.ReasonString)
		nzs(&p.Props, 0x1C, v.ServerReference)
		p.Props = append(p.Props, pairs(v.UserProperties)...)
		return p
	case *packets.Auth:
		p := &wire.Packet{Type: wire.AUTH, Reason: byte(v.AuthenticateReasonCode)}
		nzs(&p.Props, 0x15, v.AuthenticationMethod)
		nzs(&p.Props, 0x16, v.AuthenticationData)
		nzs(&p.Props, 0x1F, v.ReasonString)
		p.Props = append(p.Props, pairs(v.UserProperties)...)
		return p
	}
	return nil
}

func significant(l []wire.Prop) []wire.Prop {
	return without(l, func(p wire.Prop) bool { return p.ID != 0x26 && p.N == 0 && p.S == "" })
}

// diffServer compares a decoded packet with what the server sent.
func diffServer(data any, want *wire.Packet) string {
	got := view(data)
	if got == nil {
		return fmt.Sprintf("decoded as %T", data)
	}
	if got.Type != want.Type {
		return fmt.Sprintf("decoded as %s", wire.TypeNames[got.Type])
	}
	if want.Type == wire.PUBLISH && want.QoS() == 0 {
		got.ID = 0
	}
	if got.Reason != want.Reason || got.ID != want.ID || got.Topic != want.Topic || got.Session != want.Session {
		return fmt.Sprintf("decoded as %v", got)
	}
	if want.Type == wire.PUBLISH && got.Flags != want.Flags {
		return fmt.Sprintf("flags %x", got.Flags)
	}
	if !bytes.Equal(got.Payload, want.Payload) {
		return fmt.Sprintf("payload %s", b2s(got.Payload))
	}
	if !bytes.Equal(got.Codes, want.Codes) {
		return fmt.Sprintf("reason codes % x", got.Codes)
	}
	g, w := significant(got.Props), significant(want.Props)
	// The names of user properties are the keys of a map: of the values of a repeated name any one will do.
	w = oneOfEach(w, g)
	// Of repeated subscription identifiers any one will do.
	ids := 0
	for _, q := range w {
		if q.ID == 0x0B {
			ids++
		}
	}
	if ids > 1 {
		var keep []wire.Prop
		for _, q := range w {
			if q.ID != 0x0B {
				keep = append(keep, q)
			}
		}
		ok := false
		for _, q := range w {
			if q.ID == 0x0B && wire.SameProps(g, append(append([]wire.Prop(nil), keep...), q)) {
				ok = true
			}
		}
		if !ok {
			return fmt.Sprintf("properties %v", got.Props)
		}
		return ""
	}
	if !wire.SameProps(g, w) {
		return fmt.Sprintf("properties %v", got.Props)
	}
	return ""
}

// newDecoder returns the decoder for a packet type with its header set.
func newDecoder(h packets.FixedHeader) io.ReaderFrom {
	switch int(h.GetType()) {
	case wire.CONNACK:
		return &packets.Connack{Header: h}
	case wire.PUBLISH:
		return &packets.Publish{Header: h}
	case wire.PUBACK:
		return &packets.Puback{Header: h}
	case wire.PUBREC:
		p := &packets.Pubrec{}
		p.Header = h
		return p
	case wire.PUBREL:
		p := &packets.Pubrel{}
		p.Header = h
		return p
	case wire.PUBCOMP:
		p := &packets.Pubcomp{}
		p.Header = h
		return p
	case wire.SUBACK:
		return &packets.Suback{Header: h}
	case wire.UNSUBACK:
		return &packets.Unsuback{Header: h}
	case wire.DISCONNECT:
		return &packets.Disconnect{Header: h}
	case wire.AUTH:
		return &packets.Auth{Header: h}
	}
	return nil
}

func multiSubID(r *rand.Rand, p *wire.Packet) {
	if p.Type == wire.PUBLISH && r.IntN(6) == 0 {
		for k := 0; k <= r.IntN(3); k++ {
			p.Props = append(p.Props, wire.Prop{ID: 0x0B, N: varnum(r)})
		}
	}
}

var serverTypes = []int{wire.CONNACK, wire.PUBLISH, wire.PUBACK, wire.PUBREC, wire.PUBREL, wire.PUBCOMP, wire.SUBACK, wire.UNSUBACK,
	wire.DISCONNECT, wire.AUTH, wire.PINGRESP}

func TestC03(t *testing.T) {
	c := Start(t, "C03", "random well-formed server packets of every type and short form, decoded directly and through Connect and Poll over fragmenting, byte-wise, data-with-EOF and empty-read readers; distinct by packet bytes")
	defer c.End()

	for _, typ := range serverTypes {
		var earlier io.ReaderFrom
		var was *wire.Packet
		c.Cases("decode "+wire.TypeNames[typ], c.N(8000, 25000), func(i int, r *rand.Rand) {
			w := serverPacket(r, typ, maxLen(r))
			multiSubID(r, w)
			b := w.Encode()
			tail := bin(r, r.IntN(5))
			rd := newSlow(r, append(append([]byte(nil), b...), tail...))
			var h packets.FixedHeader
			n, err := h.ReadFrom(rd)
			if hl := 1 + lenLen(b); err != nil || n != int64(hl) || rd.n != hl || int(h.Remaining) != len(b)-hl || int(h.GetType()) != typ || byte(h.GetFlags()) != w.Flags|b[0]&15 {
				c.Fail("fixed header", "header of %v: % x: count %d consumed %d remaining %d type %d flags %x %v", w, b[:hl], n, rd.n, h.Remaining, h.GetType(), h.GetFlags(), err)
				return
			}
			c.Count("decoded "+wire.TypeNames[typ], 1)
			c.Distinct(b)
			if typ == wire.PINGRESP {
				return
			}
			d := newDecoder(h)
			rd.n = 0
			n, err = d.ReadFrom(rd)
			name := wire.TypeNames[typ]
			if err != nil {
				c.Fail(name+" refused", "%v (reader mode %d) is refused: %v: % x", w, rd.mode, err, head(b))
				return
			}
			if rd.n != int(h.Remaining) {
				c.Fail(name+" consumption", "%v: %d bytes consumed of %d: % x", w, rd.n, h.Remaining, head(b))
				return
			}
			if n != int64(rd.n) {
				c.Fail(name+" count", "%v: ReadFrom reports %d bytes, consumed %d: % x", w, n, rd.n, head(b))
			}
			if df := diffServer(d, w); df != "" {
				c.Fail(name+" content", "%v: %s: % x", w, df, head(b))
			}
			// What was decoded before stays as it was.
			if earlier != nil {
				if df := diffServer(earlier, was); df != "" {
					c.Fail(name+" content changed later", "%v, after another packet was decoded: %s", was, df)
				}
			}
			earlier, was = d, w
			if i < 1 {
				c.Sample("%v", w)
			}
			// PUBLISH also reads its own header.
			if typ == wire.PUBLISH {
				p := &packets.Publish{}
				rd := newSlow(r, append(append([]byte(nil), b...), tail...))
				n, err := p.ReadFrom(rd)
				if err != nil || n != int64(len(b)) || rd.n != len(b) {
					c.Fail("PUBLISH standalone", "%v read with its header: count %d consumed %d of %d, %v: % x", w, n, rd.n, len(b), err, head(b))
					return
				}
				if df := diffServer(p, w); df != "" {
					c.Fail("PUBLISH standalone", "%v read with its header: %s", w, df)
				}
			}
		})
	}
	// Whole streams through Connect and Poll.
	c.Cases("stream", c.N(8000, 25000), func(i int, r *rand.Rand) {
		max := maxLen(r)
		s, _ := NewSess(Opt{NoConn: true, Frag: frag(r)})
		c.Log(s.Conn.Log)
		if r.IntN(5) == 0 {
			empty := false
			f := s.Conn.Frag
			_ = f
			s.Conn.Frag = func(avail, want int) int { empty = !empty; return 1 + r.IntN(4) }
		}
		ch := s.C.CreateEventChannel(64)
		var ack *wire.Packet
		for ack == nil || ack.Reason >= 0x80 {
			ack = serverPacket(r, wire.CONNACK, max)
		}
		var sent []*wire.Packet
		used := map[uint16]bool{}
		n := 1 + r.IntN(20)
		var stream []byte
		for k := 0; k < n; k++ {
			typ := serverTypes[1+r.IntN(len(serverTypes)-1)]
			if typ == wire.DISCONNECT && k != n-1 {
				typ = wire.PUBLISH
			}
			w := serverPacket(r, typ, max)
			if w.ID != 0 {
				for used[w.ID] {
					w.ID++
					if w.ID == 0 {
						w.ID = 1
					}
				}
				used[w.ID] = true
			}
			multiSubID(r, w)
			sent = append(sent, w)
			stream = append(stream, w.Encode()...)
			c.Distinct(w.Encode())
		}
		cp := func() *packets.Connect {
			return &packets.Connect{Version: packets.MQTT5, ClientId: "c", KeepAlive: 60000, TopicAliasMaximum: 65535}
		}
		early := r.IntN(2) == 0
		var err error
		if early {
			// The packets are already in the same segment as the CONNACK.
			s.Conn.Feed(append(ack.Encode(), stream...))
			err = s.C.Connect(sim.NewCtx(sim.Far), cp())
		} else {
			err = s.Handshake(Opt{Connack: ack, Connect: cp()})
			s.Conn.Feed(stream)
		}
		if err != nil {
			c.Fail("stream CONNACK", "Connect answered with %v: %v", ack, err)
			return
		}
		var evs []*mqtt.Event
		take := func() {
			e, _ := drain(ch)
			evs = append(evs, e...)
		}
		for k := range sent {
			take()
			if len(evs) > 0 && k == 0 {
				if d := diffServer(evs[0].Data, ack); d != "" {
					c.Fail("stream CONNACK", "%v: %s", ack, d)
				}
			}
			before := len(evs)
			idle, err := s.Poll()
			take()
			w := sent[k]
			last := w.Type == wire.DISCONNECT
			if (err != nil && !last) || idle {
				c.Fail("stream", "Poll for packet %d %v: idle %v, err %v", k, w, idle, err)
				return
			}
			if w.Type == wire.PINGRESP {
				if len(evs) != before {
					c.Fail("stream", "PINGRESP signalled as %T", evs[before].Data)
				}
				continue
			}
			if len(evs) != before+1 {
				c.Fail("stream", "packet %d %v gave %d events", k, w, len(evs)-before)
				return
			}
			if d := diffServer(evs[before].Data, w); d != "" || evs[before].PacketType != packets.PacketType(w.Type) {
				c.Fail("stream content", "packet %d %v: event type %v: %s", k, w, evs[before].PacketType, d)
				return
			}
			c.Count("packets through Poll", 1)
		}
		// What was delivered stays as it was.
		k := 0
		for _, w := range append([]*wire.Packet{ack}, sent...) {
			if w.Type == wire.PINGRESP || k >= len(evs) {
				continue
			}
			if d := diffServer(evs[k].Data, w); d != "" {
				c.Fail("stream content changed later", "%v, after later packets: %s", w, d)
				return
			}
			k++
		}
		if p := s.Conn.Pending(); p != 0 {
			c.Fail("stream", "%d bytes left unread", p)
		}
		if i < 1 {
			c.SampleLog(s.Conn.Log())
		}
	})
	_ = primitives.PrimitiveByte(0)
}

// oneOfEach removes the repetitions of user property names, and keeps the value that got has.
func oneOfEach(want, got []wire.Prop) (out []wire.Prop) {
	n := map[string]int{}
	for _, p := range want {
		if p.ID == 0x26 {
			n[p.S]++
		}
	}
	done := map[string]bool{}
	for _, p := range want {
		if p.ID != 0x26 || n[p.S] == 1 {
			out = append(out, p)
			continue
		}
		if done[p.S] {
			continue
		}
		done[p.S] = true
		for _, q := range want {
			for _, g := range got {
				if q.ID == 0x26 && g.ID == 0x26 && q.S == p.S && g.S == q.S && g.V == q.V {
					p = q
				}
			}
		}
		out = append(out, p)
	}
	return
}
