package checks

import (
	"errors"
	"fmt"
	"math/rand/v2"
	"testing"

	"github.com/waj334/tinygo-mqtt/mqtt"
	"verif/harness/sim"
	"verif/harness/wire"
)

// A server that keeps its own exact account of the client's receive quota, stays within it for a random while and then
// oversteps it by one.
func TestC14(t *testing.T) {
	k := Start(t, "C14", "random traffic of a server that fills the client's Receive Maximum exactly, for long, releases in any order, and "+
		"finally exceeds it by one; Poll's results and the client's packets, events and state compared with the server's own account")
	k.Cases("world", k.N(16000, 160000), func(i int, r *rand.Rand) { c14Case(k, r, []int{1, 1, 2, 3, 5, 10}[r.IntN(6)], 20+r.IntN(200)) })
	k.Cases("long", k.N(16, 64), func(i int, r *rand.Rand) { c14Long(k, r, i) })
	k.Cases("large", k.N(4, 16), func(i int, r *rand.Rand) { c14Large(k, r, i) })
	k.End()
}

func c14Case(k *Ck, r *rand.Rand, crm, steps int) {
	var st *sim.Store
	if r.IntN(2) == 0 {
		st = sim.NewStore(nil)
	}
	// Messages that an earlier connection of the session left unreleased. They do not count until they are sent again.
	prev := map[uint16]bool{}
	trace := ""
	o := Opt{ClntMax: uint16(crm), RecvMax: uint16([]int{0, 1, 2, 7, 100}[r.IntN(5)]), Sim: st, Frag: frag(r)}
	if st != nil && r.IntN(2) == 0 {
		s, err := NewSess(o)
		if err != nil {
			return
		}
		for n := 1 + r.IntN(crm); len(prev) < n; {
			id := uint16(1 + r.IntN(crm*3+3))
			prev[id] = true
			s.Conn.Send(&wire.Packet{Type: wire.PUBLISH, Topic: "a", Flags: 4, ID: id})
		}
		if s.PollAll() != nil {
			return
		}
		s.Conn.End(errInjected)
		s.Poll()
		o.Connack = &wire.Packet{Type: wire.CONNACK, Session: 1}
		trace = fmt.Sprintf("%d left;", len(prev))
	}
	var ev mqtt.EventChannel
	o.Prepare = func(s *Sess) { ev = s.C.CreateEventChannel(1000) }
	s, err := NewSess(o)
	if err != nil {
		return
	}
	k.Log(s.Conn.Log)
	drain(ev)
	open := map[uint16]bool{} // unreleased QoS 2
	lost := map[uint16]bool{} // never acknowledged, as writing the acknowledgement or the storage failed
	free := func() uint16 {
		for {
			id := uint16(1 + r.IntN(crm*3+3))
			if !open[id] && !prev[id] && !lost[id] {
				return id
			}
		}
	}
	bias, faulty := r.IntN(3), r.IntN(3) == 0
	for i := 0; i < steps; i++ {
		n := len(open) + len(lost)
		var p *wire.Packet
		if faulty && n < crm && r.IntN(15) == 0 {
			p = &wire.Packet{Type: wire.PUBLISH, Topic: "a", Flags: byte(2 + 2*r.IntN(2)), ID: free()}
			point, hit, bad := "Write", false, anyErr(r)
			if st != nil && p.Flags == 4 && r.IntN(2) == 0 {
				point = []string{"Store", "Get"}[r.IntN(2)]
			}
			fault := func(at string) error {
				if at != point || hit {
					return nil
				}
				hit = true
				return bad
			}
			s.Conn.Fault = fault
			if st != nil {
				st.Fault = fault
			}
			trace += fmt.Sprintf("%v, failing %s;", p, point)
			s.Conn.Send(p)
			err := s.PollAll()
			s.Conn.Fault = nil
			if st != nil {
				st.Fault = nil
			}
			if s.Conn.Closed() || err != nil && s.PollAll() != nil {
				return // the session is over
			}
			switch {
			case hit:
				lost[p.ID] = true
				k.Count("messages whose acknowledgement failed", 1)
			case p.Flags == 4:
				open[p.ID] = true
			}
			continue
		}
		x := r.IntN(12)
		switch {
		case x < 2:
			p = &wire.Packet{Type: wire.PUBLISH, Topic: "a"}
		case x < 4 && n < crm:
			p = &wire.Packet{Type: wire.PUBLISH, Topic: "a", Flags: 2 | byte(r.IntN(3)/2)<<3, ID: free()}
		case x < 8-bias && n < crm:
			p = &wire.Packet{Type: wire.PUBLISH, Topic: "a", Flags: 4 | byte(r.IntN(3)/2)<<3, ID: free()}
			if id, ok := randKey(r, prev); ok && r.IntN(2) == 0 {
				delete(prev, id)
				p.ID, p.Flags = id, 12
				k.Count("messages of an earlier connection sent again", 1)
			}
			open[p.ID] = true
		case x == 11 && len(prev) > 0 && r.IntN(2) == 0:
			id, _ := randKey(r, prev)
			delete(prev, id)
			p = ackPkt(r, wire.PUBREL, id, 0)
			k.Count("messages of an earlier connection released", 1)
		case x == 8 && len(open) > 0:
			// The same message again. It is counted already, so it is within the limit even if the quota is exhausted.
			if n >= crm {
				k.Count("repeats at exhausted quota", 1)
			}
			id, _ := randKey(r, open)
			p = &wire.Packet{Type: wire.PUBLISH, Topic: "a", Flags: 12, ID: id}
		case x == 9:
			p = ackPkt(r, wire.PUBREL, free(), 0)
		case x == 10:
			p = []*wire.Packet{{Type: wire.PUBACK, ID: free(), Short: 2}, {Type: wire.PUBCOMP, ID: free(), Short: 2}, {Type: wire.PINGRESP}}[r.IntN(3)]
		default:
			id, ok := randKey(r, open)
			if !ok {
				continue
			}
			p = ackPkt(r, wire.PUBREL, id, 0)
			delete(open, id)
		}
		trace += p.String() + ";"
		k.Max("unreleased", len(open))
		s.Conn.Send(p)
		if err := s.PollAll(); err != nil {
			k.Fail("disconnected within the Receive Maximum", "%d of %d unreleased, then the server sends %v: Poll returned %v", n, crm, p, err)
			return
		}
		k.Count("packets within the limit", 1)
	}
	if !s.C.IsConnected() || s.Conn.Closed() {
		k.Fail("disconnected within the Receive Maximum", "the connection was closed")
		return
	}
	// Fill up, with free packets in between.
	for len(open)+len(lost) < crm {
		p := &wire.Packet{Type: wire.PUBLISH, Topic: "a", Flags: 4, ID: free()}
		open[p.ID] = true
		s.Conn.Send(p)
		s.Conn.Send([]*wire.Packet{{Type: wire.PUBLISH, Topic: "a"}, ackPkt(r, wire.PUBREL, free(), 0)}[r.IntN(2)])
		if err := s.PollAll(); err != nil {
			k.Fail("disconnected within the Receive Maximum", "%d of %d unreleased: Poll returned %v on %v", len(open), crm, err, p)
			return
		}
	}
	drain(ev)
	outs := s.Conn.NumOut()
	over := &wire.Packet{Type: wire.PUBLISH, Topic: "over", Flags: byte(2 + 2*r.IntN(2)), ID: free(), Payload: []byte("x")}
	k.Distinct(crm, trace, over.Flags)
	s.Conn.Send(over)
	if r.IntN(2) == 0 {
		s.Conn.Send(&wire.Packet{Type: wire.PUBLISH, Topic: "after", Flags: 0})
	}
	if r.IntN(5) == 0 {
		k.exceededDead(s, ev, outs, []string{"Write", "Close"}[r.IntN(2)])
		return
	}
	k.exceeded(s, ev, over, outs, s.PollAll())
	k.Sample("CRM %d: %s then %v", crm, first(trace, 200), over)
}

// exceededDead is exceeded over a connection on which the DISCONNECT cannot be written or closing fails.
func (k *Ck) exceededDead(s *Sess, ev mqtt.EventChannel, outs int, point string) {
	hit, bad := false, writeFailures[outs%len(writeFailures)]
	s.Conn.Fault = func(at string) error {
		if at != point {
			return nil
		}
		hit = true
		return bad
	}
	_, err := s.Poll()
	s.Conn.Fault = nil
	if err == nil {
		k.Fail("excess not reported", "Poll returned nil on a PUBLISH over the Receive Maximum (%s failing: %v)", point, hit)
		return
	}
	for _, o := range s.Conn.Packets()[outs:] {
		if o.P.Type != wire.DISCONNECT || o.P.Reason != 0x93 {
			k.Fail("excess acknowledged", "on a PUBLISH over the Receive Maximum (%s failing: %v) the client wrote %v", point, hit, o.P)
		}
	}
	if !s.Conn.Closed() || s.C.IsConnected() {
		k.Fail("left connected", "after a PUBLISH over the Receive Maximum (%s failing: %v) closed is %v and IsConnected %v", point, hit, s.Conn.Closed(), s.C.IsConnected())
	}
	es, _ := drain(ev)
	for _, e := range es {
		if int(e.PacketType) == wire.PUBLISH {
			k.Fail("excess signalled", "the PUBLISH over the Receive Maximum was signalled")
		}
	}
	if err := s.C.Poll(sim.PollCtx()); err == nil {
		k.Fail("left connected", "Poll returned nil after the Receive Maximum was exceeded")
	}
	k.Count("limits exceeded over a failing connection", 1)
}

// exceeded checks the reaction to the first PUBLISH over the limit.
func (k *Ck) exceeded(s *Sess, ev mqtt.EventChannel, over *wire.Packet, outs int, err error) {
	var rc mqtt.ReasonCode
	if !errors.As(err, &rc) || rc != 0x93 {
		k.Fail("excess not reported", "Poll returned %v on a PUBLISH over the Receive Maximum, want reason code 0x93", err)
		return
	}
	got := s.Conn.Packets()[outs:]
	if len(got) != 1 || got[0].P.Type != wire.DISCONNECT || got[0].P.Reason != 0x93 {
		k.Fail("no DISCONNECT 0x93", "on a PUBLISH over the Receive Maximum the client wrote %s", outList(got))
		return
	}
	if !s.Conn.Closed() {
		k.Fail("left open", "the connection is open after the Receive Maximum was exceeded")
	}
	if s.C.IsConnected() {
		k.Fail("left connected", "IsConnected is true after the Receive Maximum was exceeded")
	}
	es, _ := drain(ev)
	for _, e := range es {
		if int(e.PacketType) == wire.PUBLISH {
			k.Fail("excess signalled", "the PUBLISH over the Receive Maximum was signalled")
		}
	}
	if err := s.C.Poll(sim.PollCtx()); err == nil {
		k.Fail("left connected", "Poll returned nil after the Receive Maximum was exceeded")
	}
	k.Count("limits exceeded", 1)
}

func outList(o []sim.Out) string {
	s := ""
	for _, x := range o {
		s += fmt.Sprintf("%v; ", x.P)
	}
	return s
}

// c14Long sends far more publishes than any counter holds while staying within the limit.
func c14Long(k *Ck, r *rand.Rand, i int) {
	crm := []int{1, 2, 100, 65535}[i%4]
	rm := uint16(crm)
	if crm == 65535 && i%8 < 4 {
		rm = 0
	}
	s, err := NewSess(Opt{ClntMax: rm, RecvMax: uint16([]int{0, 3}[i&1])})
	if err != nil {
		return
	}
	id := uint16(0)
	for n := 0; n < 70000; n++ {
		id++
		if id == 0 {
			id = 1
		}
		switch {
		case i%3 == 0 || n%7 == 0:
			s.Conn.Feed((&wire.Packet{Type: wire.PUBLISH, Topic: "a", Flags: 2, ID: id}).Encode())
		case i%3 == 1:
			s.Conn.Feed((&wire.Packet{Type: wire.PUBLISH, Topic: "a", Flags: 4, ID: id}).Encode())
			s.Conn.Feed((&wire.Packet{Type: wire.PUBREL, ID: id, Short: 2}).Encode())
		default:
			s.Conn.Feed((&wire.Packet{Type: wire.PUBLISH, Topic: "a"}).Encode())
		}
		if err := s.PollAll(); err != nil {
			k.Fail("disconnected within the Receive Maximum", "packet %d of finished exchanges (limit %d): Poll returned %v", n, crm, err)
			return
		}
		k.Beat()
	}
	k.Count("packets within the limit", 70000)
	k.Distinct("long", i)
}

// c14Large fills the default limit.
func c14Large(k *Ck, r *rand.Rand, i int) {
	var ev mqtt.EventChannel
	s, err := NewSess(Opt{ClntMax: []uint16{0, 65534}[i&1], RecvMax: uint16([]int{0, 5, 65535}[r.IntN(3)]), Prepare: func(s *Sess) { ev = s.C.CreateEventChannel(1) }})
	if err != nil {
		return
	}
	k.Log(s.Conn.Log)
	limit := 65535
	if i&1 == 1 {
		limit = 65534
	}
	for id := 1; id <= limit; id++ {
		s.Conn.Feed((&wire.Packet{Type: wire.PUBLISH, Topic: "a", Flags: 4, ID: uint16(id)}).Encode())
		if err := s.PollAll(); err != nil {
			k.Fail("disconnected within the Receive Maximum", "%d of %d unreleased: Poll returned %v", id, limit, err)
			return
		}
		k.Beat()
	}
	drain(ev)
	k.Max("unreleased", limit)
	if i&1 == 0 {
		// All identifiers are taken by QoS 2; only QoS 1 can exceed the limit.
		outs := s.Conn.NumOut()
		over := &wire.Packet{Type: wire.PUBLISH, Topic: "over", Flags: 2, ID: 77}
		s.Conn.Send(over)
		k.exceeded(s, ev, over, outs, s.PollAll())
		return
	}
	outs := s.Conn.NumOut()
	over := &wire.Packet{Type: wire.PUBLISH, Topic: "over", Flags: 4, ID: 65535}
	s.Conn.Send(over)
	k.exceeded(s, ev, over, outs, s.PollAll())
}
