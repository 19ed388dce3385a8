package checks

import (
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"strings"
	"testing"

	"github.com/waj334/tinygo-mqtt/mqtt"
	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	"github.com/waj334/tinygo-mqtt/mqtt/packets/primitives"
	"verif/harness/sim"
	"verif/harness/wire"
)

// spoil makes one field of a valid packet unrepresentable and names it.
type spoil struct {
	name string
	f    func(big primitives.PrimitiveString)
}

func bigUser(m *primitives.PrimitiveStringMap, r *rand.Rand, key bool, big primitives.PrimitiveString) {
	n := primitives.PrimitiveStringMap{}
	for k, v := range *m {
		n[k] = v
	}
	if key {
		n[big] = "v"
	} else {
		n["k"] = big
	}
	*m = n
}

// badQoS returns a QoS above 2, which has no place in any flag field.
func badQoS(r *rand.Rand) packets.QoS {
	return packets.QoS([]int{3, 4, 5, 6, 7, 8, 12, 16, 64, 128, 129, 130, 254, 255, 3 + r.IntN(253)}[r.IntN(15)])
}

// badTopic is a topic with a QoS or retain handling above 2; the other options are set before and after.
func badTopic(r *rand.Rand, filter string) (t packets.Topic, what string) {
	other := func() {
		for k, lim := 0, r.IntN(4); k < lim; k++ {
			switch r.IntN(3) {
			case 0:
				t.SetNoLocal(r.IntN(2) == 0)
			case 1:
				t.SetRetainAsPublished(r.IntN(2) == 0)
			case 2:
				t.SetFilter(filter)
			}
		}
	}
	t.SetFilter(filter)
	if r.IntN(2) == 0 {
		other()
		t.SetRetainHandling(packets.RetainHandlingOption(r.IntN(3)))
		t.SetQoS(badQoS(r))
		other()
		return t, "QoS"
	}
	other()
	t.SetQoS(packets.QoS(r.IntN(3)))
	t.SetRetainHandling(packets.RetainHandlingOption(badQoS(r)))
	other()
	return t, "retain handling"
}

func spoilConnect(c *packets.Connect, r *rand.Rand) []spoil {
	will := func() {
		if c.Will == "" {
			c.Will = "w"
		}
		if c.WillTopic == "" {
			c.WillTopic = "wt"
		}
	}
	type S = primitives.PrimitiveString
	return []spoil{
		{"client id", func(b S) { c.ClientId = b }},
		{"user name", func(b S) { c.Username = b }},
		{"password", func(b S) { c.Password = b }},
		{"will", func(b S) { will(); c.Will = b }},
		{"will topic", func(b S) { will(); c.WillTopic = b }},
		{"will content type", func(b S) { will(); c.WillContentType = b }},
		{"will response topic", func(b S) { will(); c.WillResponseTopic = b }},
		{"will correlation data", func(b S) { will(); c.WillCorrelationData = b }},
		{"will user property name", func(b S) { will(); bigUser(&c.WillUserProperties, r, true, b) }},
		{"will user property value", func(b S) { will(); bigUser(&c.WillUserProperties, r, false, b) }},
		{"user property name", func(b S) { bigUser(&c.UserProperties, r, true, b) }},
		{"user property value", func(b S) { bigUser(&c.UserProperties, r, false, b) }},
		{"authentication method", func(b S) { c.AuthenticationMethod = b }},
		{"authentication data", func(b S) { c.AuthenticationMethod, c.AuthenticationData = "m", b }},
		{"will QoS", func(b S) { will(); c.WillQos = badQoS(r) }},
	}
}

func spoilPublish(p *packets.Publish, r *rand.Rand) []spoil {
	type S = primitives.PrimitiveString
	return []spoil{
		{"topic", func(b S) { p.Topic = b }},
		{"response topic", func(b S) { p.ResponseTopic = b }},
		{"correlation data", func(b S) { p.CorrelationData = b }},
		{"content type", func(b S) { p.ContentType = b }},
		{"user property name", func(b S) { bigUser(&p.UserProperties, r, true, b) }},
		{"user property value", func(b S) { bigUser(&p.UserProperties, r, false, b) }},
		{"subscription identifier", func(b S) {
			p.SubscriptionIdentifier = primitives.VariableByteInt(268435456 + r.Uint32N(1000)*r.Uint32N(1000))
		}},
		{"QoS", func(b S) { p.QoS = badQoS(r) }},
		{"no topic and no alias", func(b S) { p.Topic, p.TopicAlias = "", 0 }},
	}
}

// bulk gives fields that come early in the encoding a large value that is still valid, so that an encoder which writes
// in pieces would already have written some before it meets the spoilt field.
func bulk(r *rand.Rand, v any) {
	if r.IntN(2) == 0 {
		return
	}
	big := ps(text(r, []int{300, 1100, 4097, 8200, 20000, 65535}[r.IntN(6)]))
	switch v := v.(type) {
	case *packets.Connect:
		if r.IntN(2) == 0 {
			v.ClientId = big
		} else {
			bigUser(&v.UserProperties, r, false, big)
		}
	case *packets.Publish:
		if r.IntN(2) == 0 {
			v.Topic = big
		} else {
			v.ResponseTopic = big
		}
	}
}

func bigStr(r *rand.Rand) primitives.PrimitiveString {
	n := []int{65536, 65537, 65538, 65536 + 127, 70000, 131071, 131072, 131073, 131080}[r.IntN(9)]
	// The limit is one of bytes.
	c := []string{"x", "x", "\x00", "é", "日", "\xff"}[r.IntN(6)]
	return ps(strings.Repeat(c, n/len(c)+1)[:n])
}

func (c *Ck) refused(kind, field string, w io.WriterTo) {
	cw := &countWriter{}
	if n, err := w.WriteTo(cw); err == nil {
		c.Fail("encoder accepts "+kind+" "+field, "%s with an unrepresentable %s encodes to %d bytes (count %d) without an error", kind, field, cw.n, n)
	}
	c.Count("encoder refusals", 1)
	c.Distinct("enc", kind, field)
}

func TestC02(t *testing.T) {
	c := Start(t, "C02", "valid packets with one field made unrepresentable, for every field of every packet, through the encoders and the API; distinct by packet kind, field and client state")
	defer c.End()

	reps := c.N(12, 120)
	// Direct encoders, every field.
	c.Cases("encoders", reps, func(i int, r *rand.Rand) {
		max := 40
		nc := len(spoilConnect(&packets.Connect{}, r))
		for k := 0; k < nc; k++ {
			v := genConnect(r, max)
			bulk(r, v)
			s := spoilConnect(v, r)[k]
			s.f(bigStr(r))
			c.refused("CONNECT", s.name, v)
		}
		np := len(spoilPublish(&packets.Publish{}, r))
		for k := 0; k < np; k++ {
			v := genPublish(r, max)
			bulk(r, v)
			s := spoilPublish(v, r)[k]
			s.f(bigStr(r))
			c.refused("PUBLISH", s.name, v)
		}
		for k := 0; k < 12; k++ {
			a := packets.Puback{PacketIdentifier: 5, ReasonCode: u8(r.IntN(2) * 0x80)}
			f := []string{"reason string", "user property name", "user property value"}[k/4]
			switch k / 4 {
			case 0:
				a.ReasonString = bigStr(r)
			case 1:
				bigUser(&a.UserProperties, r, true, bigStr(r))
			case 2:
				bigUser(&a.UserProperties, r, false, bigStr(r))
			}
			switch k % 4 {
			case 0:
				c.refused("PUBACK", f, &a)
			case 1:
				c.refused("PUBREC", f, &packets.Pubrec{Puback: a})
			case 2:
				c.refused("PUBREL", f, &packets.Pubrel{Puback: a})
			case 3:
				c.refused("PUBCOMP", f, &packets.Pubcomp{Puback: a})
			}
		}
		topics := func(big int) (ts []packets.Topic) {
			for j := 0; j < 3; j++ {
				var t packets.Topic
				if j == big {
					t.SetFilter(string(bigStr(r)))
				} else if r.IntN(3) == 0 {
					t.SetFilter(text(r, []int{4097, 9000, 65535}[r.IntN(3)]))
				} else {
					t.SetFilter(strNZ(r, max))
				}
				ts = append(ts, t)
			}
			return
		}
		for j := 0; j < 3; j++ {
			c.refused("SUBSCRIBE", fmt.Sprintf("filter %d", j), &packets.Subscribe{PacketIdentifier: 1, Topics: topics(j)})
			c.refused("UNSUBSCRIBE", fmt.Sprintf("filter %d", j), &packets.Unsubscribe{PacketIdentifier: 1, Topics: topics(j)})
			ts := topics(-1)
			var what string
			ts[j], what = badTopic(r, str(r, max))
			c.refused("SUBSCRIBE", fmt.Sprintf("%s of topic %d", what, j), &packets.Subscribe{PacketIdentifier: 1, Topics: ts})
		}
		c.refused("SUBSCRIBE", "no topics", &packets.Subscribe{PacketIdentifier: 1})
		c.refused("UNSUBSCRIBE", "no topics", &packets.Unsubscribe{PacketIdentifier: 1})
		for _, l := range [][]packets.Topic{{}, make([]packets.Topic, 0, 4), topics(-1)[:0]} {
			c.refused("SUBSCRIBE", "empty topics", &packets.Subscribe{PacketIdentifier: 1, Topics: l})
			c.refused("UNSUBSCRIBE", "empty topics", &packets.Unsubscribe{PacketIdentifier: 1, Topics: l})
		}
		for _, key := range []bool{true, false} {
			f := fmt.Sprintf("user property (name %v)", key)
			s := &packets.Subscribe{PacketIdentifier: 1, Topics: topics(-1)}
			bigUser(&s.UserProperties, r, key, bigStr(r))
			c.refused("SUBSCRIBE", f, s)
			u := &packets.Unsubscribe{PacketIdentifier: 1, Topics: topics(-1)}
			bigUser(&u.UserProperties, r, key, bigStr(r))
			c.refused("UNSUBSCRIBE", f, u)
			d := &packets.Disconnect{}
			bigUser(&d.UserProperties, r, key, bigStr(r))
			c.refused("DISCONNECT", f, d)
			a := &packets.Auth{}
			bigUser(&a.UserProperties, r, key, bigStr(r))
			c.refused("AUTH", f, a)
		}
		c.refused("SUBSCRIBE", "subscription identifier", &packets.Subscribe{PacketIdentifier: 1, Topics: topics(-1), SubscriptionIdentifier: primitives.VariableByteInt(268435456 + r.Uint32N(1<<31))})
		c.refused("DISCONNECT", "reason string", &packets.Disconnect{ReasonString: bigStr(r)})
		c.refused("DISCONNECT", "server reference", &packets.Disconnect{ServerReference: bigStr(r)})
		c.refused("AUTH", "method", &packets.Auth{AuthenticationMethod: bigStr(r), AuthenticationData: "d"})
		c.refused("AUTH", "data", &packets.Auth{AuthenticationMethod: "m", AuthenticationData: bigStr(r)})
		c.refused("AUTH", "reason string", &packets.Auth{AuthenticationMethod: "m", ReasonString: bigStr(r)})
	})
	// A packet whose total length exceeds what Remaining Length can carry.
	c.Cases("huge", 3, func(i int, r *rand.Rand) {
		switch i {
		case 0:
			// Exactly one byte too long; one byte less must be accepted.
			p := &packets.Publish{Topic: "t", Payload: make([]byte, 268435455-3-1+1)}
			c.refused("PUBLISH", "payload", p)
			p.Payload = p.Payload[:len(p.Payload)-1]
			cw := &countWriter{}
			if n, err := p.WriteTo(cw); err != nil || cw.n != 268435455+5 || n != cw.n {
				c.Fail("largest packet", "the largest PUBLISH is refused or miscounted: %d, wrote %d, %v", n, cw.n, err)
			}
		case 1:
			f := strings.Repeat("f", 65535)
			var ts []packets.Topic
			for j := 0; j < 4097; j++ {
				var t packets.Topic
				t.SetFilter(f)
				ts = append(ts, t)
			}
			c.refused("SUBSCRIBE", "total length", &packets.Subscribe{PacketIdentifier: 1, Topics: ts})
			c.refused("UNSUBSCRIBE", "total length", &packets.Unsubscribe{PacketIdentifier: 1, Topics: ts})
		case 2:
			s, err := NewSess(Opt{Prepare: func(s *Sess) { s.AutoAck() }})
			if err != nil {
				c.Fail("api", "%v", err)
				return
			}
			before := s.Conn.Bytes()
			op, err := s.Run("Publish", func() error {
				return s.C.Publish(sim.NewCtx(sim.Far), &packets.Publish{Topic: "t", Payload: make([]byte, 268435452)})
			})
			if err != nil || op.Err == nil || s.Conn.Bytes() != before {
				c.Fail("api refusal", "a PUBLISH of 256 MiB: %v %v, %d bytes written", op.Err, err, s.Conn.Bytes()-before)
			}
		}
	})
	// Through the API: nothing written, nothing consumed.
	c.Cases("api", c.N(3600, 9000), func(i int, r *rand.Rand) {
		store := sim.NewStore(nil)
		// The generator always proposes the same identifier: one leaked by a refused call would show as a different
		// identifier of the next packet.
		const draw = 7
		id := refIDs(draw, 1)[0]
		o := Opt{Rng: func() uint32 { return draw }, RecvMax: 1, Prepare: func(s *Sess) { c.Log(s.Conn.Log); s.AutoAck() }}
		withStore := r.IntN(3) != 0
		if withStore {
			o.Sim = store
		}
		o.NoConn = true
		s, _ := NewSess(o)

		// Connect itself may be refused first; the connection must then still be usable.
		if r.IntN(2) == 0 {
			v := genConnect(r, 40)
			bulk(r, v)
			sp := spoilConnect(v, r)
			k := r.IntN(len(sp))
			sp[k].f(bigStr(r))
			err := s.C.Connect(sim.NewCtx(sim.Far), v)
			if err == nil || s.Conn.Bytes() != 0 || s.C.IsConnected() {
				c.Fail("api refusal", "Connect with an unrepresentable %s: err %v, %d bytes written, connected %v", sp[k].name, err, s.Conn.Bytes(), s.C.IsConnected())
				return
			}
			if s.Conn.Closed() {
				c.Fail("state after refusal", "Connect with an unrepresentable %s closed the connection", sp[k].name)
				return
			}
			c.Count("refused Connect", 1)
			c.Distinct("api CONNECT", sp[k].name)
		}
		if err := s.Handshake(o); err != nil {
			c.Fail("state after refusal", "a valid Connect after a refused one: %v", err)
			return
		}
		for k := 0; k < 4; k++ {
			before := s.Conn.Bytes()
			kind, field := "", ""
			var f func() error
			switch r.IntN(6) {
			case 0, 1, 2:
				v := genPublish(r, 40)
				if r.IntN(4) != 0 {
					v.QoS = packets.QoS(1 + r.IntN(2))
				}
				v.PacketIdentifier = 0
				v.Duplicate = false
				bulk(r, v)
				sp := spoilPublish(v, r)
				j := r.IntN(len(sp))
				sp[j].f(bigStr(r))
				kind, field = fmt.Sprintf("Publish QoS %d", v.QoS), sp[j].name
				f = func() error { return s.C.Publish(sim.NewCtx(sim.Far), v) }
			case 3:
				kind = "Subscribe"
				var ts []mqtt.Topic
				if r.IntN(2) == 0 {
					ts = []mqtt.Topic{}
				}
				n := r.IntN(4)
				for j := 0; j < n; j++ {
					ts = append(ts, topicOf(text(r, []int{1, 9, 5000}[r.IntN(3)]), 0, nil))
				}
				if n > 0 {
					j := r.IntN(n)
					if r.IntN(3) == 0 {
						ts[j].Topic, field = badTopic(r, text(r, 9))
						field += fmt.Sprintf(" of topic %d of %d", j, n)
					} else {
						field = fmt.Sprintf("filter %d of %d", j, n)
						ts[j] = topicOf(string(bigStr(r)), 0, nil)
					}
				} else {
					field = "topics"
				}
				f = func() error { return s.C.Subscribe(sim.NewCtx(sim.Far), ts) }
			case 4:
				kind = "Unsubscribe"
				var ts []string
				if r.IntN(2) == 0 {
					ts = []string{}
				}
				n := r.IntN(4)
				for j := 0; j < n; j++ {
					ts = append(ts, text(r, []int{1, 9, 5000}[r.IntN(3)]))
				}
				if n > 0 {
					j := r.IntN(n)
					field = fmt.Sprintf("filter %d of %d", j, n)
					ts[j] = string(bigStr(r))
				} else {
					field = "topics"
				}
				f = func() error { return s.C.Unsubscribe(sim.NewCtx(sim.Far), ts) }
			default:
				// A second Connect on the live session is not among the statements; publish an empty topic instead.
				v := &packets.Publish{QoS: packets.QoS(r.IntN(3)), Payload: []byte("x")}
				kind, field = fmt.Sprintf("Publish QoS %d", v.QoS), "topic (empty)"
				f = func() error { return s.C.Publish(sim.NewCtx(sim.Far), v) }
			}
			op, err := s.Run(kind, f)
			what := kind + " with unrepresentable " + field
			if st := stuckErr(err); st != nil {
				c.Fail("stuck", "%s: %v", what, st)
				return
			}
			if err != nil || op.Panic != "" || op.Err == nil {
				c.Fail("api refusal", "%s: returned %v %s (poll %v)", what, op.Err, op.Panic, err)
				return
			}
			if n := s.Conn.Bytes() - before; n != 0 || s.Conn.StreamErr(true) != nil {
				c.Fail("bytes written", "%s: refused (%v), but %d bytes were written", what, op.Err, n)
				return
			}
			if ids := store.IDs(); withStore && len(ids) != 0 {
				c.Fail("storage after refusal", "%s: storage holds %v", what, ids)
				return
			}
			if !s.C.IsConnected() || s.Conn.Closed() {
				c.Fail("state after refusal", "%s: connected %v, closed %v", what, s.C.IsConnected(), s.Conn.Closed())
				return
			}
			c.Count("api refusals", 1)
			c.Distinct("api", kind, field, withStore)
			// Valid calls work, get the only identifier on offer, and are not short of quota.
			for _, valid := range []int{r.IntN(4), r.IntN(4), r.IntN(4)} {
				n0 := s.Conn.NumOut()
				var g func() error
				switch valid {
				case 0, 1:
					g = func() error { return s.C.Publish(sim.NewCtx(sim.Far), pub(1+valid, "t", []byte("x"))) }
				case 2:
					g = func() error { return s.C.Subscribe(sim.NewCtx(sim.Far), []mqtt.Topic{topicOf("a", 1, nil)}) }
				case 3:
					g = func() error { return s.C.Unsubscribe(sim.NewCtx(sim.Far), []string{"b"}) }
				}
				op, err := s.Run("valid call", g)
				if st := stuckErr(err); st != nil {
					c.Fail("valid call blocked", "valid call %d after %s: %v", valid, what, st)
					return
				}
				if err != nil || op.Err != nil || op.Panic != "" {
					c.Fail("valid call fails", "valid call %d after %s: %v %s (poll %v)", valid, what, op.Err, op.Panic, err)
					return
				}
				if err := s.PollAll(); err != nil {
					c.Fail("valid call fails", "Poll after %s: %v", what, err)
					return
				}
				if got := s.Conn.Packets()[n0].P.ID; got != id {
					c.Fail("identifier leaked", "valid call %d after %s got identifier %d although %d is free", valid, what, got, id)
					return
				}
				if ids := store.IDs(); withStore && len(ids) != 0 {
					c.Fail("storage", "storage holds %v after completed exchanges", ids)
					return
				}
			}
		}
		if i < 2 {
			c.SampleLog(s.Conn.Log())
		}
	})
	// The refused packet itself, repaired, can be published although other publishes took place in between.
	ids := refIDs(7, 2)
	c.Cases("retry", c.N(1500, 9000), func(i int, r *rand.Rand) {
		s, err := NewSess(Opt{Rng: func() uint32 { return 7 }, RecvMax: 2})
		if err != nil {
			c.Fail("api", "%v", err)
			return
		}
		c.Log(s.Conn.Log)
		good := pub(1+r.IntN(2), "t", []byte("x"))
		v := pub(int(good.QoS), "t", []byte("x"))
		sp := spoilPublish(v, r)
		k := r.IntN(len(sp))
		sp[k].f(bigStr(r))
		if op, err := s.Run("refused", func() error { return s.C.Publish(sim.NewCtx(sim.Far), v) }); err != nil || op.Err == nil {
			c.Fail("api refusal", "Publish with unrepresentable %s: %v (poll %v)", sp[k].name, op.Err, err)
			return
		}
		for j, p := range []*packets.Publish{good, v} {
			if j == 1 {
				v.Topic, v.ResponseTopic, v.CorrelationData, v.ContentType = "u", "", "", ""
				v.UserProperties, v.SubscriptionIdentifier, v.TopicAlias = nil, 0, 0
				v.QoS = good.QoS
			}
			n0 := s.Conn.NumOut()
			op, err := s.Run("valid", func() error { return s.C.Publish(sim.NewCtx(sim.Far), p) })
			if err != nil || op.Err != nil || op.Panic != "" {
				c.Fail("valid call fails", "publish %d after a refused one (%s): %v %s (poll %v)", j, sp[k].name, op.Err, op.Panic, err)
				return
			}
			if o := s.Conn.Packets(); len(o) != n0+1 || o[n0].P.ID != ids[j] && (j == 0 || o[n0].P.ID == 0 || o[n0].P.ID == ids[0]) {
				c.Fail("identifier leaked", "publish %d after a refused one (%s) was sent as %v", j, sp[k].name, o[len(o)-1].P)
				return
			}
		}
		c.Count("refused publishes repaired", 1)
		c.Distinct("retry", sp[k].name, v.QoS)
	})
	_ = errors.Is
	_ = wire.PUBLISH
}

// refIDs are the identifiers the first publishes of a client get whose generator always returns n.
func refIDs(n uint32, count int) (ids []uint16) {
	s, err := NewSess(Opt{Rng: func() uint32 { return n }})
	if err != nil {
		return make([]uint16, count)
	}
	for range count {
		op := sim.Go("Publish", func() error { return s.C.Publish(sim.NewCtx(sim.Far), pub(1, "t", nil)) })
		sim.Settle(op)
		id, _ := lastID(s)
		ids = append(ids, id)
	}
	s.Conn.End(errInjected)
	s.Poll()
	return
}
