package checks

import (
	"bytes"
	"fmt"
	"io"
	"math/rand/v2"
	"strings"
	"testing"
	"unicode/utf8"

	"github.com/waj334/tinygo-mqtt/mqtt"
	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	"github.com/waj334/tinygo-mqtt/mqtt/packets/primitives"
	"verif/harness/sim"
	"verif/harness/wire"
)

type u16 = primitives.PrimitiveUint16
type u32 = primitives.PrimitiveUint32
type u8 = primitives.PrimitiveByte

func maybe(r *rand.Rand, f func()) {
	if r.IntN(3) == 0 {
		f()
	}
}

func genConnect(r *rand.Rand, max int) *packets.Connect {
	c := &packets.Connect{Version: packets.MQTT5, CleanSession: r.IntN(2) == 0, KeepAlive: u16(r.IntN(65536)), ClientId: ps(str(r, max))}
	maybe(r, func() { c.Username = ps(strNZ(r, max)) })
	maybe(r, func() { c.Password = ps(strNZ(r, max)) })
	maybe(r, func() { c.RequestResponseInformation = 1 })
	maybe(r, func() { c.RequestProblemInformation = 1 })
	maybe(r, func() { c.ReceiveMaximum = u16(num(r, 65535)) })
	maybe(r, func() { c.TopicAliasMaximum = u16(num(r, 65535)) })
	maybe(r, func() { c.SessionExpiryInterval = u32(num(r, 1<<32-1)) })
	maybe(r, func() { c.MaximumPacketSize = u32(num(r, 1<<32-1)) })
	c.UserProperties = userProps(r, max)
	maybe(r, func() {
		c.AuthenticationMethod = ps(strNZ(r, max))
		maybe(r, func() { c.AuthenticationData = ps(string(bin(r, size(r, max)))) })
	})
	if r.IntN(2) == 0 {
		c.Will = ps(strNZ(r, max))
		c.WillTopic = ps(strNZ(r, max))
		c.WillRetain = r.IntN(2) == 0
		c.WillQos = packets.QoS(r.IntN(3))
		maybe(r, func() { c.WillDelayInterval = u32(num(r, 1<<32-1)) })
		maybe(r, func() { c.WillMessageExpiryInterval = u32(num(r, 1<<32-1)) })
		maybe(r, func() { c.WillContentType = ps(strNZ(r, max)) })
		maybe(r, func() { c.WillResponseTopic = ps(strNZ(r, max)) })
		maybe(r, func() { c.WillCorrelationData = ps(string(bin(r, 1+size(r, max-1)))) })
		c.WillUserProperties = userProps(r, max)
	}
	return c
}

func nz32(l *[]wire.Prop, id byte, v uint32) {
	if v != 0 {
		*l = append(*l, wire.Prop{ID: id, N: v})
	}
}

func nzs(l *[]wire.Prop, id byte, s primitives.PrimitiveString) {
	if s != "" {
		*l = append(*l, wire.Prop{ID: id, S: string(s)})
	}
}

func without(l []wire.Prop, f func(p wire.Prop) bool) (o []wire.Prop) {
	for _, p := range l {
		if !f(p) {
			o = append(o, p)
		}
	}
	return
}

func diffConnect(c *packets.Connect, p *wire.Packet) string {
	if p.Type != wire.CONNECT {
		return "not a CONNECT"
	}
	if p.Version != byte(c.Version) || p.KeepAlive != uint16(c.KeepAlive) || p.ClientID != string(c.ClientId) {
		return fmt.Sprintf("version %d keep alive %d client %q", p.Version, p.KeepAlive, p.ClientID)
	}
	var fl byte
	if c.CleanSession {
		fl |= 2
	}
	if c.Username != "" {
		fl |= 0x80
	}
	if c.Password != "" {
		fl |= 0x40
	}
	if c.Will != "" {
		fl |= 4 | byte(c.WillQos)<<3
		if c.WillRetain {
			fl |= 0x20
		}
	}
	if fl != p.ConnectFlags {
		return fmt.Sprintf("flags %02x want %02x", p.ConnectFlags, fl)
	}
	if p.Username != string(c.Username) || p.Password != string(c.Password) {
		return "credentials differ"
	}
	var e []wire.Prop
	nz32(&e, 0x11, uint32(c.SessionExpiryInterval))
	nz32(&e, 0x21, uint32(c.ReceiveMaximum))
	nz32(&e, 0x27, uint32(c.MaximumPacketSize))
	nz32(&e, 0x22, uint32(c.TopicAliasMaximum))
	nz32(&e, 0x19, uint32(c.RequestResponseInformation))
	nz32(&e, 0x17, uint32(c.RequestProblemInformation))
	nzs(&e, 0x15, c.AuthenticationMethod)
	nzs(&e, 0x16, c.AuthenticationData)
	e = append(e, pairs(c.UserProperties)...)
	got := without(p.Props, func(q wire.Prop) bool { return q.ID == 0x16 && q.S == "" })
	if !wire.SameProps(e, got) {
		return fmt.Sprintf("properties %v want %v", p.Props, e)
	}
	if c.Will != "" {
		if p.WillTopic != string(c.WillTopic) || p.WillPayload != string(c.Will) {
			return "will topic or payload differ"
		}
		e = nil
		nz32(&e, 0x18, uint32(c.WillDelayInterval))
		nz32(&e, 0x02, uint32(c.WillMessageExpiryInterval))
		nzs(&e, 0x03, c.WillContentType)
		nzs(&e, 0x08, c.WillResponseTopic)
		nzs(&e, 0x09, c.WillCorrelationData)
		e = append(e, pairs(c.WillUserProperties)...)
		got := without(p.WillProps, func(q wire.Prop) bool { return q.ID == 0x01 && q.N == 0 })
		if !wire.SameProps(e, got) {
			return fmt.Sprintf("will properties %v want %v", p.WillProps, e)
		}
	}
	return ""
}

func genPublish(r *rand.Rand, max int) *packets.Publish {
	p := &packets.Publish{QoS: packets.QoS(r.IntN(3)), Retain: r.IntN(2) == 0, Topic: ps(strNZ(r, max)), Payload: bin(r, size(r, 70000))}
	if p.QoS > 0 {
		p.PacketIdentifier = u16(num(r, 65535))
		p.Duplicate = r.IntN(3) == 0
	}
	if r.IntN(12) == 0 {
		p.Payload = bin(r, []int{2097100 + r.IntN(60), 2097152, 16384 - r.IntN(40), 16384, 128 - r.IntN(30), 128}[r.IntN(6)])
	}
	maybe(r, func() { p.MessageExpiryInterval = u32(num(r, 1<<32-1)) })
	maybe(r, func() {
		p.TopicAlias = u16(num(r, 65535))
		maybe(r, func() { p.Topic = "" })
	})
	maybe(r, func() { p.ResponseTopic = ps(strNZ(r, max)) })
	maybe(r, func() { p.CorrelationData = ps(string(bin(r, 1+size(r, max-1)))) })
	maybe(r, func() { p.SubscriptionIdentifier = primitives.VariableByteInt(varnum(r)) })
	maybe(r, func() { p.ContentType = ps(strNZ(r, max)) })
	p.UserProperties = userProps(r, max)
	if utf8.Valid(p.Payload) && r.IntN(2) == 0 || r.IntN(4) == 0 {
		p.Payload = []byte(text(r, size(r, 3000)))
		setPayloadFormat(p, 1)
	}
	return p
}

func publishProps(p *packets.Publish) (e []wire.Prop) {
	n, _ := payloadFormat(p)
	nz32(&e, 0x01, n)
	nz32(&e, 0x02, uint32(p.MessageExpiryInterval))
	nz32(&e, 0x23, uint32(p.TopicAlias))
	nzs(&e, 0x08, p.ResponseTopic)
	nzs(&e, 0x09, p.CorrelationData)
	nz32(&e, 0x0B, uint32(p.SubscriptionIdentifier))
	nzs(&e, 0x03, p.ContentType)
	return append(e, pairs(p.UserProperties)...)
}

func diffPublish(p *packets.Publish, q *wire.Packet) string {
	if q.Type != wire.PUBLISH {
		return "not a PUBLISH"
	}
	if q.QoS() != int(p.QoS) || q.Retain() != p.Retain || q.Dup() != p.Duplicate {
		return fmt.Sprintf("flags %x want qos %d retain %v dup %v", q.Flags, p.QoS, p.Retain, p.Duplicate)
	}
	if q.Topic != string(p.Topic) {
		return fmt.Sprintf("topic %q want %q", q.Topic, p.Topic)
	}
	if p.QoS > 0 && q.ID != uint16(p.PacketIdentifier) {
		return fmt.Sprintf("packet identifier %d want %d", q.ID, p.PacketIdentifier)
	}
	if !bytes.Equal(q.Payload, p.Payload) {
		return fmt.Sprintf("payload %s want %s", b2s(q.Payload), b2s(p.Payload))
	}
	got := without(q.Props, func(q wire.Prop) bool { return q.ID == 0x01 && q.N == 0 })
	if e := publishProps(p); !wire.SameProps(e, got) {
		return fmt.Sprintf("properties %v want %v", q.Props, e)
	}
	return ""
}

type topicSpec struct {
	filter string
	opt    byte
}

func genTopics(r *rand.Rand, max int) (ts []packets.Topic, specs []topicSpec) {
	n := 1 + r.IntN(4)
	if r.IntN(10) == 0 {
		n = 1 + r.IntN(40)
	}
	for i := 0; i < n; i++ {
		f := strNZ(r, max)
		var t packets.Topic
		qos, rap, rh, nl := r.IntN(3), r.IntN(2) == 0, r.IntN(3), r.IntN(2) == 0
		t.SetFilter(f)
		t.SetQoS(packets.QoS(qos))
		t.SetRetainAsPublished(rap)
		t.SetRetainHandling(packets.RetainHandlingOption(rh))
		o := byte(qos) | byte(rh)<<4
		if rap {
			o |= 8
		}
		if nl && len(f) >= 6 && !strings.HasPrefix(f, "$share") {
			t.SetNoLocal(true)
			o |= 4
		}
		ts = append(ts, t)
		specs = append(specs, topicSpec{f, o})
	}
	return
}

func diffSubs(specs []topicSpec, subs []wire.Sub, opts bool) string {
	if len(specs) != len(subs) {
		return fmt.Sprintf("%d filters want %d", len(subs), len(specs))
	}
	for i := range specs {
		if specs[i].filter != subs[i].Filter {
			return fmt.Sprintf("filter %d is %q want %q", i, subs[i].Filter, specs[i].filter)
		}
		if opts && specs[i].opt != subs[i].Opt {
			return fmt.Sprintf("options %d are %02x want %02x", i, subs[i].Opt, specs[i].opt)
		}
	}
	return ""
}

// decodeOne checks that b is exactly one well-formed client packet.
func decodeOne(b []byte) (*wire.Packet, error) {
	h, body, n, err := wire.Frame(b)
	if err != nil {
		return nil, fmt.Errorf("framing: %v (%d bytes, remaining length wants %d)", err, len(b), n)
	}
	if n != len(b) {
		return nil, fmt.Errorf("%d bytes after the end of the packet", len(b)-n)
	}
	return wire.Decode(h, body, true)
}

// encode runs an encoder and checks the count.
func (c *Ck) encode(kind string, w io.WriterTo) (*wire.Packet, []byte) {
	var buf bytes.Buffer
	n, err := w.WriteTo(&buf)
	if err == nil {
		c.failing(kind, w, buf.Bytes())
		var again bytes.Buffer
		if _, err := w.WriteTo(&again); err != nil || again.Len() != buf.Len() { // the user properties may come in another order
			c.Fail(kind+" encoded again", "%s: the second encoding of the same value differs: %v: % x, then % x", kind, err, head(buf.Bytes()), head(again.Bytes()))
		}
	}
	if err != nil {
		c.Fail(kind+" refused", "%s: encoder fails for a representable value: %v", kind, err)
		return nil, nil
	}
	if n != int64(buf.Len()) {
		c.Fail(kind+" count", "%s: encoder reports %d bytes, wrote %d (% x)", kind, n, buf.Len(), head(buf.Bytes()))
	}
	p, err := decodeOne(buf.Bytes())
	if err != nil {
		c.Fail(kind+" malformed", "%s: encoded packet is not well-formed MQTT 5: %v: % x", kind, err, head(buf.Bytes()))
		return nil, buf.Bytes()
	}
	c.Count("encoded "+kind, 1)
	c.Count("bytes", buf.Len())
	c.Count(fmt.Sprintf("remaining length of %d bytes", lenLen(buf.Bytes())), 1)
	c.Distinct(buf.Bytes())
	return p, buf.Bytes()
}

// moveCursor reads some of the payload, as an application does that has filled it through the same value: what is sent
// is the payload, not the rest of it.
func moveCursor(r *rand.Rand, v *packets.Publish) {
	if r.IntN(2) == 0 {
		v.Read(make([]byte, r.IntN(len(v.Payload)+2)))
	}
}

// callWriter fails at one of the calls of Write, or from that call on.
type callWriter struct {
	at, calls int
	part      bool
	once      bool
}

func (f *callWriter) Write(b []byte) (int, error) {
	f.calls++
	if f.calls-1 == f.at || f.calls-1 > f.at && !f.once {
		if f.part {
			return len(b) / 2, errInjected
		}
		return 0, errInjected
	}
	return len(b), nil
}

// failing checks that a failure of the writer, at any of the calls the encoder makes, is reported.
func (c *Ck) failing(kind string, w io.WriterTo, seed []byte) {
	cw := &callWriter{at: -1, once: true}
	if _, err := w.WriteTo(cw); err != nil || cw.calls == 0 {
		return
	}
	h := len(seed) + 3*int(seed[len(seed)-1]) + 5*int(seed[len(seed)/2])
	for _, once := range []bool{true, false} {
		f := &callWriter{at: h % cw.calls, once: once, part: h/2%2 == 0}
		if _, err := w.WriteTo(f); err == nil {
			c.Fail(kind+" write failure", "%s: the encoder returns no error although the writer failed at call %d of %d (% x)", kind, f.at+1, cw.calls, head(seed))
		}
		h += 7
	}
	c.Count("writer failures", 2)
}

func lenLen(b []byte) int {
	_, n, _ := wire.ReadVar(b[1:])
	return n
}

func head(b []byte) []byte {
	if len(b) > 80 {
		return b[:80]
	}
	return b
}

func maxLen(r *rand.Rand) int { return []int{16, 40, 140, 140, 600, 65535}[r.IntN(6)] }

func TestC01(t *testing.T) {
	c := Start(t, "C01", "random packet values of every client packet type with sizes concentrated on the length-field boundaries, encoded directly and through the client API; distinct by encoded bytes")
	defer c.End()
	n := c.N(6000, 60000)

	c.Cases("connect", n, func(i int, r *rand.Rand) {
		v := genConnect(r, maxLen(r))
		p, b := c.encode("CONNECT", v)
		if p == nil {
			return
		}
		if d := diffConnect(v, p); d != "" {
			c.Fail("CONNECT content", "CONNECT decodes differently: %s: % x", d, head(b))
		}
		if i < 2 {
			c.Sample("%v", p)
		}
	})
	c.Cases("publish", n, func(i int, r *rand.Rand) {
		v := genPublish(r, maxLen(r))
		if r.IntN(4) == 0 { // passed on after it was received
			q := serverPacket(r, wire.PUBLISH, maxLen(r))
			v = &packets.Publish{}
			if n, err := v.ReadFrom(bytes.NewReader(q.Encode())); err != nil || v.Topic == "" && v.TopicAlias == 0 {
				return
			} else if n > 0 {
				c.Count("received PUBLISH encoded", 1)
			}
		}
		for k := 0; k < 2; k++ {
			moveCursor(r, v)
			p, b := c.encode("PUBLISH", v)
			if p == nil {
				return
			}
			if d := diffPublish(v, p); d != "" {
				c.Fail("PUBLISH content", "PUBLISH decodes differently: %s: % x", d, head(b))
			}
			// Encode the same object again after changing it: nothing may stick.
			v.QoS = packets.QoS(r.IntN(3))
			v.Retain = !v.Retain
			v.Duplicate = v.QoS > 0 && r.IntN(2) == 0
			if v.PacketIdentifier == 0 {
				v.PacketIdentifier = u16(num(r, 65535))
			}
			v.Payload = bin(r, size(r, 300))
			setPayloadFormat(v, 0)
			if r.IntN(3) == 0 {
				v.Payload = []byte(text(r, size(r, 300)))
				setPayloadFormat(v, 1)
			}
			v.Reset()
			if v.Topic == "" && v.TopicAlias == 0 {
				v.Topic = "t"
			}
		}
	})
	c.Cases("acks", n, func(i int, r *rand.Rand) {
		max := maxLen(r)
		typ := wire.PUBACK + r.IntN(4)
		var w io.WriterTo
		var a *packets.Puback
		switch typ {
		case wire.PUBACK:
			a = &packets.Puback{}
			w = a
		case wire.PUBREC:
			v := &packets.Pubrec{}
			w, a = v, &v.Puback
		case wire.PUBREL:
			v := &packets.Pubrel{}
			w, a = v, &v.Puback
		case wire.PUBCOMP:
			v := &packets.Pubcomp{}
			w, a = v, &v.Puback
		}
		for k := 0; k < 3; k++ { // the same object with other contents: nothing may stick
			a.PacketIdentifier, a.ReasonCode, a.ReasonString = u16(num(r, 65535)), u8(reason(r, typ)), ""
			maybe(r, func() { a.ReasonString = ps(strNZ(r, max)) })
			a.UserProperties = userProps(r, max)
			p, b := c.encode(wire.TypeNames[typ], w)
			if p == nil {
				return
			}
			var e []wire.Prop
			nzs(&e, 0x1F, a.ReasonString)
			e = append(e, pairs(a.UserProperties)...)
			if p.Type != typ || p.ID != uint16(a.PacketIdentifier) || p.Reason != byte(a.ReasonCode) || !wire.SameProps(e, p.Props) {
				c.Fail("ack content", "%s decodes as %v, want id %d rc %02x %v: % x", wire.TypeNames[typ], p, a.PacketIdentifier, a.ReasonCode, e, head(b))
			}
		}
	})
	c.Cases("subscribe", n, func(i int, r *rand.Rand) {
		max := maxLen(r)
		ts, specs := genTopics(r, max)
		if r.IntN(2) == 0 {
			v := &packets.Subscribe{}
			if r.IntN(2) == 0 {
				v.PacketIdentifier, v.UserProperties, v.SubscriptionIdentifier = 9, userProps(r, max), 300
				v.Topics, _ = genTopics(r, max)
				c.encode("SUBSCRIBE", v)
			}
			v.PacketIdentifier, v.Topics, v.UserProperties, v.SubscriptionIdentifier = u16(num(r, 65535)), ts, userProps(r, max), 0
			maybe(r, func() { v.SubscriptionIdentifier = primitives.VariableByteInt(varnum(r)) })
			p, b := c.encode("SUBSCRIBE", v)
			if p == nil {
				return
			}
			var e []wire.Prop
			nz32(&e, 0x0B, uint32(v.SubscriptionIdentifier))
			e = append(e, pairs(v.UserProperties)...)
			d := diffSubs(specs, p.Subs, true)
			if d != "" || p.Type != wire.SUBSCRIBE || p.ID != uint16(v.PacketIdentifier) || !wire.SameProps(e, p.Props) {
				c.Fail("SUBSCRIBE content", "SUBSCRIBE decodes as %v (%s), want id %d %v: % x", p, d, v.PacketIdentifier, e, head(b))
			}
			return
		}
		v := &packets.Unsubscribe{}
		if r.IntN(2) == 0 {
			v.PacketIdentifier, v.UserProperties = 9, userProps(r, max)
			v.Topics, _ = genTopics(r, max)
			c.encode("UNSUBSCRIBE", v)
		}
		v.PacketIdentifier, v.Topics, v.UserProperties = u16(num(r, 65535)), ts, userProps(r, max)
		p, b := c.encode("UNSUBSCRIBE", v)
		if p == nil {
			return
		}
		d := diffSubs(specs, p.Subs, false)
		if d != "" || p.Type != wire.UNSUBSCRIBE || p.ID != uint16(v.PacketIdentifier) || !wire.SameProps(pairs(v.UserProperties), p.Props) {
			c.Fail("UNSUBSCRIBE content", "UNSUBSCRIBE decodes as %v (%s), want id %d: % x", p, d, v.PacketIdentifier, head(b))
		}
	})
	c.Cases("disconnect", n, func(i int, r *rand.Rand) {
		max := maxLen(r)
		if r.IntN(2) == 0 {
			v := &packets.Disconnect{}
			if r.IntN(2) == 0 {
				v.ReasonCode, v.SessionExpiryInterval, v.ReasonString, v.ServerReference = 4, u32(r.IntN(3)), ps(strNZ(r, max)), ps(str(r, max))
				v.UserProperties = userProps(r, max)
				c.encode("DISCONNECT", v)
			}
			v.ReasonCode, v.UserProperties = u8([]byte{0, 4, 0x80, 0x81, 0x93, 0x95}[r.IntN(6)]), userProps(r, max)
			v.SessionExpiryInterval, v.ReasonString, v.ServerReference = 0, "", ""
			maybe(r, func() { v.SessionExpiryInterval = u32(num(r, 1<<32-1)) })
			maybe(r, func() { v.ReasonString = ps(strNZ(r, max)) })
			maybe(r, func() { v.ServerReference = ps(strNZ(r, max)) })
			p, b := c.encode("DISCONNECT", v)
			if p == nil {
				return
			}
			var e []wire.Prop
			nz32(&e, 0x11, uint32(v.SessionExpiryInterval))
			nzs(&e, 0x1F, v.ReasonString)
			nzs(&e, 0x1C, v.ServerReference)
			e = append(e, pairs(v.UserProperties)...)
			if p.Type != wire.DISCONNECT || p.Reason != byte(v.ReasonCode) || !wire.SameProps(e, p.Props) {
				c.Fail("DISCONNECT content", "DISCONNECT decodes as %v, want rc %02x %v: % x", p, v.ReasonCode, e, head(b))
			}
			return
		}
		v := &packets.Auth{}
		if r.IntN(2) == 0 {
			v.AuthenticateReasonCode, v.AuthenticationMethod, v.AuthenticationData, v.ReasonString = 0x18, "m", ps(strNZ(r, max)), ps(strNZ(r, max))
			c.encode("AUTH", v)
		}
		v.AuthenticateReasonCode, v.UserProperties = u8([]byte{0, 0x18, 0x19}[r.IntN(3)]), userProps(r, max)
		v.AuthenticationMethod, v.AuthenticationData, v.ReasonString = "", "", ""
		if r.IntN(4) != 0 {
			v.AuthenticationMethod = ps(strNZ(r, max))
			maybe(r, func() { v.AuthenticationData = ps(string(bin(r, 1+size(r, max-1)))) })
		}
		maybe(r, func() { v.ReasonString = ps(strNZ(r, max)) })
		p, b := c.encode("AUTH", v)
		if p == nil {
			return
		}
		var e []wire.Prop
		nzs(&e, 0x15, v.AuthenticationMethod)
		nzs(&e, 0x16, v.AuthenticationData)
		nzs(&e, 0x1F, v.ReasonString)
		e = append(e, pairs(v.UserProperties)...)
		got := without(p.Props, func(q wire.Prop) bool { return q.ID == 0x16 && q.S == "" })
		if p.Type != wire.AUTH || p.Reason != byte(v.AuthenticateReasonCode) || !wire.SameProps(e, got) {
			c.Fail("AUTH content", "AUTH decodes as %v, want rc %02x %v: % x", p, v.AuthenticateReasonCode, e, head(b))
		}
	})
	c.Cases("header", 15, func(i int, r *rand.Rand) {
		for typ := 1; typ <= 15; typ++ {
			for fl := 0; fl < 16; fl++ {
				h := &packets.FixedHeader{}
				h.SetFlags(u8(r.IntN(256)))
				h.SetType(packets.PacketType(r.IntN(16)))
				h.SetType(packets.PacketType(typ))
				h.SetFlags(u8(fl))
				h.Remaining = primitives.VariableByteInt(varnum(r))
				var buf bytes.Buffer
				n, err := h.WriteTo(&buf)
				want := wire.Var([]byte{byte(typ<<4 | fl)}, uint32(h.Remaining))
				if err != nil || n != int64(len(want)) || !bytes.Equal(want, buf.Bytes()) || h.GetType() != packets.PacketType(typ) || h.GetFlags() != u8(fl) {
					c.Fail("fixed header", "fixed header type %d flags %x remaining %d: % x count %d err %v", typ, fl, h.Remaining, buf.Bytes(), n, err)
				}
				c.Count("fixed headers", 1)
			}
		}
	})
	// The same through the API: what the client writes is what the caller asked for.
	c.Cases("api", c.N(400, 4000), func(i int, r *rand.Rand) {
		max := maxLen(r)
		cp := genConnect(r, max)
		cp.KeepAlive = u16(1000 + r.IntN(60000))
		s, err := NewSess(Opt{Connect: cp, Rng: func() uint32 { return r.Uint32() }, Frag: frag(r), Prepare: func(s *Sess) {
			c.Log(s.Conn.Log)
			s.AutoAck()
		}})
		if err == nil && s.Conn.StreamErr(true) == nil {
			if d := diffConnect(cp, s.Conn.Packets()[0].P); d != "" {
				c.Fail("CONNECT content", "client's CONNECT differs: %s", d)
			}
		}
		if err != nil || s.Conn.StreamErr(true) != nil {
			c.Fail("api", "Connect: %v, stream: %v", err, s.Conn.StreamErr(true))
			return
		}
		for k := 0; k < 8; k++ {
			before := s.Conn.NumOut()
			var diff func(p *wire.Packet) string
			var f func() error
			name := ""
			switch r.IntN(5) {
			case 0, 1:
				v := genPublish(r, max)
				v.Duplicate = false
				if r.IntN(2) == 0 {
					v.PacketIdentifier = 0
				}
				moveCursor(r, v)
				name, f = "Publish", func() error { return s.C.Publish(sim.NewCtx(sim.Far), v) }
				diff = func(p *wire.Packet) string { return diffPublish(v, p) }
			case 2:
				ts, specs := genTopics(r, max)
				var mt []mqtt.Topic
				for _, t := range ts {
					mt = append(mt, mqtt.Topic{Topic: t})
				}
				name, f = "Subscribe", func() error { return s.C.Subscribe(sim.NewCtx(sim.Far), mt) }
				diff = func(p *wire.Packet) string {
					if p.Type != wire.SUBSCRIBE || p.ID == 0 {
						return "no SUBSCRIBE"
					}
					return diffSubs(specs, p.Subs, true)
				}
			case 3:
				var fs []string
				var specs []topicSpec
				for j := 0; j <= r.IntN(4); j++ {
					fs = append(fs, strNZ(r, max))
					specs = append(specs, topicSpec{filter: fs[j]})
				}
				name, f = "Unsubscribe", func() error { return s.C.Unsubscribe(sim.NewCtx(sim.Far), fs) }
				diff = func(p *wire.Packet) string {
					if p.Type != wire.UNSUBSCRIBE || p.ID == 0 {
						return "no UNSUBSCRIBE"
					}
					return diffSubs(specs, p.Subs, false)
				}
			case 4:
				name, f = "KeepAlive", s.C.KeepAlive
				diff = func(p *wire.Packet) string {
					if p.Type != wire.PINGREQ {
						return "no PINGREQ"
					}
					return ""
				}
			}
			op, err := s.Run(name, f)
			if err != nil || op.Err != nil || op.Panic != "" || s.Conn.StreamErr(true) != nil {
				c.Fail("api", "%s: %v / poll %v / %s / stream %v", name, op.Err, err, op.Panic, s.Conn.StreamErr(true))
				return
			}
			if err := s.PollAll(); err != nil {
				c.Fail("api", "Poll after %s: %v", name, err)
				return
			}
			outs := s.Conn.Packets()[before:]
			if len(outs) == 0 {
				c.Fail("api content", "%s wrote nothing", name)
				return
			}
			if d := diff(outs[0].P); d != "" {
				c.Fail("api content", "%s: %s (wrote %v)", name, d, outs[0].P)
				return
			}
			c.Count("api "+name, 1)
		}
		if i < 2 {
			c.SampleLog(s.Conn.Log())
		}
	})
}
