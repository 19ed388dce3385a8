package checks

import (
	"fmt"
	"io"
	"math/rand/v2"
	"sort"
	"strings"

	"github.com/waj334/tinygo-mqtt/mqtt"
	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	"github.com/waj334/tinygo-mqtt/mqtt/packets/primitives"
	"verif/harness/sim"
	"verif/harness/wire"
)

// Incoming and outgoing packet identifiers are independent of each other (MQTT 5 section 2.2.1), but a storage.Storage
// has one entry per identifier. While an outgoing message occupies it, there is no room for the record of an incoming
// one. These are the recorded findings; everything else about coinciding identifiers is judged by the histories.
const (
	sigShared15 = "no record of an incoming QoS 2 message while an outgoing message occupies its identifier"
	sigShared11 = "repeat signalled after a reconnect when an outgoing message occupied the identifier in the storage"
	sigStale11  = "new message suppressed by the record of a session discarded two connections before"
)

func c11Direct(k *Ck) {
	c11Discarded(k)
	k.Cases("shared identifier", 24, func(i int, r *rand.Rand) {
		qos, rec, id := 1+i%2, i/2%2 == 1, uint16(1)
		st := sim.NewStore(nil)
		s, err := NewSess(Opt{Sim: st})
		if err != nil {
			k.Fail("C10", "%v", err)
			return
		}
		k.Log(s.Conn.Log)
		ev := s.C.CreateEventChannel(8)
		if err := s.C.Publish(sim.NewCtx(sim.Far), pub(qos, "out", nil)); err != nil {
			k.Fail("Publish failed", "%v", err)
			return
		}
		if qos == 2 && rec {
			s.Conn.Send(&wire.Packet{Type: wire.PUBREC, ID: id, Short: 2})
			s.PollAll()
			drain(ev)
		}
		in := &wire.Packet{Type: wire.PUBLISH, Topic: "in", Flags: 4, ID: id, Payload: []byte("m")}
		s.Conn.Send(in)
		s.PollAll()
		got, _ := drain(ev)
		if len(got) != 1 {
			k.Fail("coinciding identifier: not signalled once", "a QoS 2 PUBLISH with the identifier of an outgoing message was signalled %d times", len(got))
		}
		// A repeat over the same connection.
		in.Flags |= 8
		s.Conn.Send(in)
		s.PollAll()
		if got, _ = drain(ev); len(got) != 0 {
			k.Fail("coinciding identifier: repeat signalled", "a repeated QoS 2 PUBLISH with the identifier of an outgoing message was signalled again")
		}
		// The connection is lost, the server resumes the session and repeats the message.
		s.Conn.End(io.EOF)
		s.PollAll()
		s2, err := NewSess(Opt{Sim: st, Connack: &wire.Packet{Type: wire.CONNACK, Session: 1}})
		if err != nil {
			k.Fail("reconnect", "%v", err)
			return
		}
		ev = s2.C.CreateEventChannel(8)
		s2.Conn.Send(in)
		s2.PollAll()
		got, _ = drain(ev)
		k.Count("coinciding identifiers across connections", 1)
		if len(got) != 0 {
			k.Fail(sigShared11, "PUBLISH %d signalled once over each of two connections (outgoing QoS %d message, PUBREC received: %v)", id, qos, rec)
		}
	})
}

// c11Discarded: a session the server has discarded leaves a record behind. In the new session, and when that is resumed
// later, the identifier denotes new messages.
func c11Discarded(k *Ck) {
	k.Cases("discarded session", 8, func(i int, r *rand.Rand) {
		st := sim.NewStore(nil)
		id := uint16(1 + r.IntN(65535))
		in := &wire.Packet{Type: wire.PUBLISH, Topic: "in", Flags: 4, ID: id, Payload: []byte("m")}
		for conn, session := range []byte{0, 0, 1} {
			s, err := NewSess(Opt{Sim: st, Connack: &wire.Packet{Type: wire.CONNACK, Session: session}})
			if err != nil {
				k.Fail("reconnect", "%v", err)
				return
			}
			k.Log(s.Conn.Log)
			ev := s.C.CreateEventChannel(8)
			if conn != 1 || i%2 == 0 {
				s.Conn.Send(in)
				s.PollAll()
				if got, _ := drain(ev); len(got) != 1 {
					sig := "new message of a new session not signalled"
					if conn == 2 {
						sig = sigStale11
					}
					k.Fail(sig, "PUBLISH %d, a new message over connection %d, was signalled %d times", id, conn+1, len(got))
					return
				}
				if conn == 1 {
					s.Conn.Send(ackPkt(r, wire.PUBREL, id, 0))
					s.PollAll()
				}
				k.Count("messages after a discarded session", 1)
			}
			s.Conn.End(io.EOF)
			s.PollAll()
		}
		k.Distinct("discarded", id)
	})
}

func c15Direct(k *Ck) {
	k.Cases("shared identifier", 4, func(i int, r *rand.Rand) {
		st := sim.NewStore(nil)
		s, err := NewSess(Opt{Sim: st})
		if err != nil {
			k.Fail("C10", "%v", err)
			return
		}
		k.Log(s.Conn.Log)
		if err := s.C.Publish(sim.NewCtx(sim.Far), pub(1+i%2, "out", nil)); err != nil {
			k.Fail("Publish failed", "%v", err)
			return
		}
		s.Conn.Send(&wire.Packet{Type: wire.PUBLISH, Topic: "in", Flags: 4, ID: 1})
		s.PollAll()
		// The outgoing message is acknowledged, the incoming one not released yet.
		if i%2 == 0 {
			s.Conn.Send(&wire.Packet{Type: wire.PUBACK, ID: 1, Short: 2})
		} else {
			s.Conn.Send(&wire.Packet{Type: wire.PUBREC, ID: 1, Short: 2})
			s.Conn.Send(&wire.Packet{Type: wire.PUBCOMP, ID: 1, Short: 2})
		}
		s.PollAll()
		k.Count("coinciding identifiers", 1)
		if !st.Has(1) {
			k.Fail(sigShared15, "the incoming QoS 2 PUBLISH 1 was acknowledged and is not released, and storage holds %v", st)
		}
	})
	k.Cases("fault", k.N(24000, 240000), func(i int, r *rand.Rand) { c15Fault(k, r, i) })
	k.Cases("storage", k.N(12000, 120000), func(i int, r *rand.Rand) { c15Storage(k, r) })
}

// c15Storage: the storage fails while a packet from the server is handled. The Poll that met the failure says so, no
// acknowledgement promises what the storage does not hold, and what the server repeats over the next connection of the
// session completes every exchange, every message signalled once.
func c15Storage(k *Ck, r *rand.Rand) {
	st := sim.NewStore(nil)
	type exch struct {
		id        uint16
		out       bool
		qos       int
		stage     int // how far the server is: 0 nothing, 1 PUBLISH, 2 its PUBREC/PUBREL
		signalled int
		lost      bool // a removal failed: the entry may stay
		gone      bool // replacing the entry failed half-way
		stalled   bool // nothing more over this connection
		done      bool
	}
	var (
		all   []*exch
		s     *Sess
		ev    mqtt.EventChannel
		fault string
		fired bool
		trace []string
		bad   bool
	)
	fail := func(sig, f string, a ...any) {
		bad = true
		k.Fail(sig, "%s; steps %v", fmt.Sprintf(f, a...), trace)
	}
	st.Fault = func(op string) error {
		if op == fault && !fired {
			fired = true
			return anyErr(r)
		}
		return nil
	}
	recorded := func(id uint16) bool {
		_, ok := st.Snapshot()[id].(*packets.Pubrec)
		return ok
	}
	prepare := func(x *Sess) {
		s = x
		ev = x.C.CreateEventChannel(50)
		x.Conn.OnPacket = func(p *wire.Packet) {
			switch p.Type {
			case wire.PUBREC:
				if !recorded(p.ID) {
					fail("acknowledged without a record", "PUBREC %d is written while storage holds %v", p.ID, st)
				}
			case wire.PUBCOMP:
				if recorded(p.ID) {
					fail("completed with the record in place", "PUBCOMP %d is written while storage holds %v", p.ID, st)
				}
			}
		}
	}
	if _, err := NewSess(Opt{Sim: st, Prepare: prepare, RecvMax: 9}); err != nil {
		return
	}
	k.Log(s.Conn.Log)
	// step delivers one packet to one Poll and returns the packets written in response.
	step := func(e *exch, p *wire.Packet, op string) []*wire.Packet {
		drain(ev)
		n := s.Conn.NumOut()
		fault, fired = op, false
		s.Conn.Send(p)
		_, err := s.Poll()
		fault = ""
		var wrote []*wire.Packet
		for _, o := range s.Conn.Packets()[n:] {
			wrote = append(wrote, o.P)
		}
		trace = append(trace, fmt.Sprintf("%v (%s fails: %v) -> %v", p, op, fired, err))
		if fired {
			k.Count("storage failures in "+wire.TypeNames[p.Type], 1)
			if err == nil {
				fail("storage failure hidden: "+wire.TypeNames[p.Type], "%s failed while %v was handled and Poll returned nil", op, p)
			}
		} else if err != nil {
			fail("Poll fails: "+wire.TypeNames[p.Type], "Poll returned %v", err)
		}
		es, _ := drain(ev)
		hits := 0
		for _, x := range es {
			if int(x.PacketType) == p.Type {
				hits++
			}
		}
		switch {
		case hits != len(es) || hits > 1:
			fail("events", "%d events, %d of them %s", len(es), hits, wire.TypeNames[p.Type])
		case p.Type == wire.PUBLISH:
			e.signalled += hits
			if e.signalled > 1 || e.signalled == 0 && !fired {
				fail("not signalled once", "PUBLISH %d was signalled %d times", p.ID, e.signalled)
			}
		case hits != 1:
			fail("acknowledgement not signalled", "%v was signalled %d times", p, hits)
		}
		return wrote
	}
	has := func(ps []*wire.Packet, typ int) bool { return len(ps) == 1 && ps[0].Type == typ }
	pick := func() string { return []string{"", "Get", "Store", "Drop", "Get", "Store", "Drop"}[r.IntN(7)] }
	advance := func(e *exch, op string) {
		if e.out {
			switch {
			case e.qos == 1:
				step(e, ackPkt(r, wire.PUBACK, e.id, pubCode(r, 2)), op)
				e.lost, e.done = e.lost || fired, true
			case e.stage == 1 && r.IntN(4) == 0:
				step(e, ackPkt(r, wire.PUBREC, e.id, 0x87), op)
				e.lost, e.done = e.lost || fired, true
			case e.stage == 1:
				w := step(e, ackPkt(r, wire.PUBREC, e.id, 0), op)
				e.stalled = fired
				e.gone = e.gone || fired && op == "Store"
				if !e.gone && !fired && !has(w, wire.PUBREL) {
					fail("no PUBREL", "the answer to PUBREC %d is %v", e.id, w)
				}
				if !e.gone && !st.Has(e.id) {
					fail("entry lost", "storage holds %v after PUBREC %d", st, e.id)
				}
				if has(w, wire.PUBREL) {
					e.stage = 2
				} else if e.gone && !fired {
					e.done = true // unknown to the client, who need not answer
				}
			default:
				step(e, ackPkt(r, wire.PUBCOMP, e.id, 0), op)
				e.lost, e.done = e.lost || fired, true
			}
			if e.done && !e.lost && st.Has(e.id) {
				fail("entry left", "storage holds %v after %d was acknowledged", st, e.id)
			}
			return
		}
		if e.stage < 2 {
			w := step(e, &wire.Packet{Type: wire.PUBLISH, Topic: "in", Flags: byte(4 + 8*min(e.stage, 1)), ID: e.id}, op)
			e.stage = 1
			if has(w, wire.PUBREC) {
				e.stage = 2
			} else if !fired {
				fail("no PUBREC", "the answer to PUBLISH %d is %v", e.id, w)
			}
			return
		}
		w := step(e, ackPkt(r, wire.PUBREL, e.id, 0), op)
		if has(w, wire.PUBCOMP) {
			e.done = true
		} else if e.stalled = fired; !fired {
			fail("no PUBCOMP", "the answer to PUBREL %d is %v", e.id, w)
		}
	}
	for n, lim := 0, 3+r.IntN(12); n < lim && !bad; n++ {
		if len(all) == 0 || r.IntN(3) == 0 && len(all) < 7 {
			e := &exch{out: r.IntN(2) == 0, qos: 2}
			if e.out {
				e.qos, e.stage = 1+r.IntN(2), 1
				p := pub(e.qos, "out", nil)
				p.PacketIdentifier = primitives.PrimitiveUint16(len(all) + 1)
				if err := s.C.Publish(sim.NewCtx(sim.Far), p); err != nil {
					fail("Publish failed", "%v", err)
					return
				}
				e.id = uint16(p.PacketIdentifier)
			} else {
				e.id = uint16(500 + len(all))
			}
			all = append(all, e)
			if e.out {
				continue
			}
		}
		e := all[r.IntN(len(all))]
		if e.done || e.stalled || !e.out && e.stage == 1 || !s.C.IsConnected() {
			continue // over the same connection the server does not repeat anything
		}
		advance(e, pick())
	}
	// The application gives the connection up; the server resumes the session over another one and repeats.
	s.Conn.End(io.EOF)
	s.PollAll()
	if bad {
		return
	}
	if _, err := NewSess(Opt{Sim: st, Prepare: prepare, RecvMax: 9, Connack: &wire.Packet{Type: wire.CONNACK, Session: 1}}); err != nil {
		fail("reconnect failed", "%v", err)
		return
	}
	k.Log(s.Conn.Log)
	trace = append(trace, "reconnected")
	for _, e := range all {
		for j := 0; j < 3 && !e.done && !bad; j++ {
			advance(e, "")
		}
		if bad {
			return
		}
		if !e.done {
			fail("exchange never ends", "identifier %d", e.id)
			return
		}
		if !e.out && e.signalled != 1 {
			fail("not signalled once", "PUBLISH %d was signalled %d times", e.id, e.signalled)
			return
		}
		if !e.lost && st.Has(e.id) {
			fail("entry left", "storage holds %v after %d was completed", st, e.id)
			return
		}
	}
	k.Count("sessions with storage failures completed", 1)
	k.Distinct("storage", strings.Join(trace, ";"))
	if r.IntN(3000) == 0 {
		k.Sample("%s", strings.Join(trace, "; "))
	}
}

// c15Exch is an outgoing message.
type c15Exch struct {
	p                  *packets.Publish
	qos                int
	attempted, rec     bool // Write was called for it; its PUBREC was consumed
	sent, rel, finis   bool // it reached the server; the PUBREL did; the final acknowledgement was consumed
	payload            string
	failing, delivered bool
}

// c15Fault runs a fixed conversation in which the k-th call to the connection or to the storage fails in one of several
// ways, then resumes over a second connection, and checks the storage after every step and at every write.
func c15Fault(k *Ck, r *rand.Rand, i int) {
	st := sim.NewStore(nil)
	var (
		s     *Sess
		outs  []*c15Exch
		cur   *c15Exch
		inRec = map[uint16]bool{} // acknowledged by PUBREC, not released
		inPub = map[uint16]bool{} // received, not released
		calls int
		fired = -1
		where string
		stuck bool
		armed bool
	)
	at, mode := i%120, i/120%4
	bad, bad1 := false, anyErr(r)
	fail := func(sig, f string, a ...any) {
		bad = true
		k.Fail(sig, "fault mode %d in call %d (%s): %s", mode, at, where, fmt.Sprintf(f, a...))
	}
	byID := func(id uint16) *c15Exch {
		for _, e := range outs {
			if e.attempted && !e.finis && uint16(e.p.PacketIdentifier) == id {
				return e
			}
		}
		return nil
	}
	inject := func(point string) error {
		n := calls
		calls++
		if point == "Read" && mode == 1 || point == "Write" && mode > 0 {
			// Handled by the other hooks.
			calls--
			return nil
		}
		if n == at && fired < 0 {
			fired, where = n, point
			if point == "Read" || mode == 3 {
				stuck = true
			}
			if point == "Read" {
				return errInjected
			}
			return bad1
		}
		return nil
	}
	storageFault := func(op string) error {
		// Losing storage calls in the middle of an exchange is the storage's affair; failing to store a new message is not.
		if op != "Store" || cur == nil || cur.attempted {
			return nil
		}
		n := calls
		calls++
		if n == at && fired < 0 {
			fired, where = n, "Store"
			return errInjected
		}
		return nil
	}
	st.Fault = storageFault
	prepare := func(x *Sess) {
		s = x
		x.Conn.Hook = func(point string) {
			if point != "Write" || cur == nil || s != x {
				return
			}
			cur.attempted = true
			if !st.Has(uint16(cur.p.PacketIdentifier)) {
				fail("written before it is stored", "PUBLISH %d (QoS %d) is written while storage holds %v", uint16(cur.p.PacketIdentifier), cur.qos, st)
			}
		}
		x.Conn.WFault = func(n int) (int, error) {
			if mode == 0 || !armed {
				return 0, nil
			}
			c := calls
			calls++
			if stuck && fired >= 0 && mode == 3 {
				return 0, bad1 // the connection is dead from then on
			}
			if c == at && fired < 0 {
				fired, where = c, "Write"
				stuck = true
				switch mode {
				case 1:
					return 1, bad1
				case 2:
					return n - 1, bad1
				}
				return 0, bad1
			}
			return n, nil
		}
		x.Conn.OnPacket = func(p *wire.Packet) {
			switch p.Type {
			case wire.PUBLISH:
				if cur != nil {
					cur.sent = true
				}
			case wire.PUBREC:
				inRec[p.ID] = true
				if e := byID(p.ID); e == nil && !st.Has(p.ID) {
					fail("acknowledged without a record", "PUBREC %d is written while storage holds %v", p.ID, st)
				}
			case wire.PUBREL:
				if e := byID(p.ID); e != nil {
					e.rel = true
				}
			}
		}
	}
	s1, err := NewSess(Opt{Sim: st, Prepare: prepare})
	_ = s1
	if err != nil {
		fail("Connect failed", "%v", err)
		return
	}
	s.Conn.Lock()
	s.Conn.Fault = inject
	s.Conn.Unlock()
	armed = true
	k.Log(s.Conn.Log)
	ctx := sim.NewCtx(sim.Far)
	var trace []string
	check := func(step string) {
		if bad {
			return
		}
		got := st.Snapshot()
		var diff []string
		for id, x := range got {
			e := byID(id)
			switch v := x.(type) {
			case *packets.Publish:
				if e == nil || e.rec || string(v.Payload) != e.payload {
					if e == nil && c15Untouched(outs, id, v) {
						continue // a call that failed before anything was written
					}
					diff = append(diff, fmt.Sprintf("%d is PUBLISH %q", id, v.Payload))
				}
			case *packets.Pubrec:
				if !(e != nil && e.rec) && !inRec[id] && !inPub[id] {
					diff = append(diff, fmt.Sprintf("%d is a PUBREC", id))
				}
			}
		}
		for _, e := range outs {
			id := uint16(e.p.PacketIdentifier)
			if e.attempted && !e.finis {
				if _, ok := got[id]; !ok {
					diff = append(diff, fmt.Sprintf("%d (PUBLISH %q, PUBREC received: %v) is missing", id, e.payload, e.rec))
				}
			}
		}
		for id := range inRec {
			if _, ok := got[id]; !ok {
				diff = append(diff, fmt.Sprintf("%d (acknowledged incoming message) is missing", id))
			}
		}
		if len(diff) > 0 {
			sort.Strings(diff)
			fail("storage after a fault: "+strings.SplitN(diff[0], " ", 2)[1][:4], "after %s: %s; steps %v", step, strings.Join(diff, "; "), trace)
		}
		k.Count("storage states compared", 1)
	}
	poll := func() {
		for j := 0; j < 4; j++ {
			idle, err := s.Poll()
			if idle || err != nil {
				return
			}
		}
	}
	publish := func(qos int, failing bool, id uint16) {
		e := &c15Exch{qos: qos, payload: fmt.Sprintf("m%d", len(outs)), failing: failing}
		e.p = pub(qos, "t", []byte(e.payload))
		e.p.PacketIdentifier = primitives.PrimitiveUint16(id)
		outs = append(outs, e)
		cur = e
		err := s.C.Publish(ctx, e.p)
		cur = nil
		if where == "Store" && fired == calls-1 && e.attempted {
			fail("written although storing failed", "Publish returned %v", err)
		}
		if err == nil && !e.sent {
			fail("Publish reports success without writing", "QoS %d", qos)
		}
		trace = append(trace, fmt.Sprintf("publish %d id %d: %v", qos, uint16(e.p.PacketIdentifier), err))
	}
	ack := func(n int) {
		if n >= len(outs) {
			return
		}
		e := outs[n]
		id := uint16(e.p.PacketIdentifier)
		if !e.sent || e.finis {
			return
		}
		switch {
		case e.qos == 1:
			s.Conn.SendMark(&wire.Packet{Type: wire.PUBACK, ID: id, Short: 2}, func() { e.finis = true })
		case e.failing:
			s.Conn.SendMark(&wire.Packet{Type: wire.PUBREC, ID: id, Reason: pubCode(r, 1), Short: 1}, func() { e.finis = true })
		case !e.rel:
			s.Conn.SendMark(&wire.Packet{Type: wire.PUBREC, ID: id, Short: 2}, func() { e.rec = true })
		default:
			s.Conn.SendMark(&wire.Packet{Type: wire.PUBCOMP, ID: id, Short: 2}, func() { e.finis = true })
		}
		trace = append(trace, fmt.Sprintf("ack %d", id))
		poll()
	}
	incoming := func(qos int, id uint16) {
		s.Conn.SendMark(&wire.Packet{Type: wire.PUBLISH, Topic: "in", Flags: byte(qos) << 1, ID: id}, func() {
			if qos == 2 {
				inPub[id] = true
			}
		})
		trace = append(trace, fmt.Sprintf("in %d id %d", qos, id))
		poll()
	}
	release := func(id uint16) {
		if !inRec[id] {
			return
		}
		s.Conn.SendMark(&wire.Packet{Type: wire.PUBREL, ID: id, Short: 2}, func() { delete(inRec, id); delete(inPub, id) })
		trace = append(trace, fmt.Sprintf("release %d", id))
		poll()
	}
	// Incoming identifiers that coincide with outgoing ones only for QoS 1 here: see the findings above.
	script := []func(){
		func() { publish(1, false, 0) }, func() { publish(2, false, 0) }, func() { incoming(2, 900) }, func() { publish(2, true, 0) },
		func() { incoming(1, 1) }, func() { incoming(1, 2) }, func() { ack(1) }, func() { ack(0) }, func() { publish(1, false, 700) }, func() { ack(2) },
		func() { incoming(2, 901) }, func() { release(900) }, func() { publish(2, false, 0) }, func() { ack(1) }, func() { incoming(2, 900) }, func() { ack(4) },
		func() { release(901) }, func() { ack(3) }, func() { publish(1, false, 0) }, func() { incoming(0, 0) }, func() { ack(4) }, func() { release(900) }, func() { ack(5) },
	}
	if v := i / 480; v > 0 { // local reorderings of the conversation
		for n := 0; n < 1+v%8; n++ {
			j := r.IntN(len(script) - 1)
			script[j], script[j+1] = script[j+1], script[j]
		}
	}
	for n, f := range script {
		f()
		check(fmt.Sprintf("step %d", n))
		if bad {
			return
		}
		if !s.C.IsConnected() || fired >= 0 && r.IntN(3) == 0 {
			break
		}
	}
	k.Distinct(at, mode, strings.Join(trace, ";"))
	if fired >= 0 {
		k.Count("faults in "+where, 1)
	} else {
		k.Count("conversations without fault", 1)
	}
	// The connection is lost and the session resumed over another one.
	s.Conn.End(io.EOF)
	s.PollAll()
	check("the loss of the connection")
	mode, at, stuck, fired = 0, -1, false, 0
	st.Fault = nil
	next := uint32(40)
	if _, err := NewSess(Opt{Sim: st, Prepare: prepare, Connack: &wire.Packet{Type: wire.CONNACK, Session: 1}, Rng: seqRng(next)}); err != nil {
		fail("reconnect failed", "%v", err)
		return
	}
	k.Log(s.Conn.Log)
	check("the reconnection")
	for n := range outs {
		for j := 0; j < 2 && !outs[n].finis; j++ {
			ack(n)
			check("an acknowledgement over the second connection")
		}
	}
	var ids []int
	for id := range inPub {
		ids = append(ids, int(id))
	}
	sort.Ints(ids)
	for _, id := range ids {
		// The server repeats what was not acknowledged, then releases.
		if !inRec[uint16(id)] {
			incoming(2, uint16(id))
		}
		release(uint16(id))
		check("a release over the second connection")
	}
	if bad {
		return
	}
	for id, x := range st.Snapshot() {
		e := byID(id)
		if e != nil && e.attempted && !e.sent {
			continue // the server never got it
		}
		if p, ok := x.(*packets.Publish); ok && c15Untouched(outs, id, p) {
			continue
		}
		fail("left in the storage", "%d (%T) is left after everything was acknowledged and released; steps %v", id, x, trace)
	}
	k.Count("sessions resumed", 1)
	k.Max("calls before the fault", calls)
}

// c15Untouched reports whether a stored packet belongs to a call that wrote nothing.
func c15Untouched(outs []*c15Exch, id uint16, p *packets.Publish) bool {
	for _, e := range outs {
		if !e.attempted && (e.p == p || e.payload == string(p.Payload)) {
			return true
		}
	}
	return false
}
