package checks

import (
	"context"
	"fmt"
	"math/rand/v2"
	"testing"
	"testing/synctest"
	"time"

	"github.com/waj334/tinygo-mqtt/mqtt"
	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	"github.com/waj334/tinygo-mqtt/mqtt/packets/primitives"
	"verif/harness/sim"
	"verif/harness/wire"
)

func TestC06(t *testing.T) {
	k := Start(t, "C06", "virtual time: for every packet kind, the pause before each single byte (and before the acknowledgement) crossed with the "+
		"position of the Poll deadline inside it, plus random schedules of pauses and deadlines over packet sequences; consumption, results, "+
		"events and acknowledgements compared with delivery in one piece")
	type pos struct {
		p    *wire.Packet
		j    int
		d    time.Duration
		kind int
	}
	var grid []pos
	for _, p := range c06Kinds() {
		n := len(p.Encode())
		for j := 0; j <= n; j++ {
			for _, d := range []time.Duration{time.Millisecond, 7 * time.Second, 29900 * time.Millisecond} {
				for kind := 0; kind < 6; kind++ {
					grid = append(grid, pos{p, j, d, kind})
				}
			}
		}
	}
	k.Cases("grid", len(grid), func(i int, r *rand.Rand) { c06Grid(k, grid[i].p, grid[i].j, grid[i].d, grid[i].kind) })
	// The rest of a packet does not arrive within the allowance.
	var gaps []pos
	for _, p := range c06Kinds() {
		for j := 1; j < len(p.Encode()); j++ {
			for _, d := range []time.Duration{31 * time.Second, 2 * time.Minute, time.Hour, never} {
				for kind := 0; kind < 3; kind++ {
					gaps = append(gaps, pos{p, j, d, kind})
				}
			}
		}
	}
	k.Cases("late", len(gaps), func(i int, r *rand.Rand) { c06Late(k, gaps[i].p, gaps[i].j, gaps[i].d, gaps[i].kind) })
	k.Cases("random", k.N(60000, 200000), func(i int, r *rand.Rand) { c06Random(k, r) })
	k.End()
}

func c06Kinds() []*wire.Packet {
	up := []wire.Prop{{ID: 0x26, S: "k", V: "v"}}
	rs := []wire.Prop{{ID: 0x1F, S: "why"}}
	long := make([]byte, 130) // two bytes of Remaining Length
	for i := range long {
		long[i] = byte(i)
	}
	return []*wire.Packet{
		{Type: wire.PUBLISH, Topic: "a/b", Payload: []byte("xyz")},
		{Type: wire.PUBLISH, Topic: "a/b", Flags: 2, ID: 5, Payload: []byte("xyz"), Props: up},
		{Type: wire.PUBLISH, Topic: "a", Flags: 4, ID: 6, Payload: []byte{1, 2}},
		{Type: wire.PUBLISH, Topic: "a", Flags: 2, ID: 7, Payload: long},
		{Type: wire.PUBACK, ID: 9, Short: 2},
		{Type: wire.PUBACK, ID: 9, Reason: 0x10, Props: rs},
		{Type: wire.PUBREC, ID: 9, Reason: 0x80, Short: 1},
		{Type: wire.PUBREL, ID: 9, Short: 2},
		{Type: wire.PUBREL, ID: 9, Reason: 0x92, Props: up},
		{Type: wire.PUBCOMP, ID: 9, Short: 1},
		{Type: wire.SUBACK, ID: 9, Codes: []byte{0, 1, 2}},
		{Type: wire.UNSUBACK, ID: 9, Codes: []byte{0, 0x11}, Props: rs},
		{Type: wire.PINGRESP},
		{Type: wire.AUTH, Reason: 0x18, Props: []wire.Prop{{ID: 0x15, S: "m"}, {ID: 0x16, S: "data"}}},
		{Type: wire.DISCONNECT, Reason: 0x8B, Props: rs},
		{Type: wire.DISCONNECT, Short: 2},
	}
}

// tclient is a connected client in virtual time.
type tclient struct {
	k   *Ck
	c   *mqtt.Client
	n   *sim.TConn
	ev  mqtt.EventChannel
	log []string
}

func (t *tclient) logf(f string, a ...any) {
	t.log = append(t.log, fmt.Sprintf("%v ", time.Since(t0))+fmt.Sprintf(f, a...))
}

var t0 = time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC)

func newTClient(k *Ck, ka uint16, delay time.Duration, props ...wire.Prop) (*tclient, error) {
	t := &tclient{k: k, n: &sim.TConn{}}
	t.c = mqtt.NewClient(t.n)
	t.c.SetRngFn(seqRng(100))
	t.ev = t.c.CreateEventChannel(200)
	t.n.Add(time.Now().Add(delay), (&wire.Packet{Type: wire.CONNACK, Props: props}).Encode()...)
	k.Log(func() []string { return t.log })
	err := t.c.Connect(context.Background(), &packets.Connect{Version: packets.MQTT5, ClientId: "c", KeepAlive: primitives.PrimitiveUint16(ka)})
	drain(t.ev)
	t.n.Outs = nil
	return t, err
}

// poll performs one Poll and checks what it may have consumed: nothing, or exactly next.
func (t *tclient) poll(deadline time.Time, next int) (got bool, ok bool) {
	before := t.n.Consumed
	start := time.Now()
	err := t.c.Poll(sim.NewCtx(deadline))
	took := t.n.Consumed - before
	t.logf("Poll started at %v with deadline %v: consumed %d, returned %v", start.Sub(t0), deadline.Sub(t0), took, err)
	t.k.Count("polls", 1)
	switch {
	case err != nil:
		t.k.Fail("Poll fails", "Poll (deadline %v after its start) returned %v after consuming %d of a packet of %d bytes", deadline.Sub(start), err, took, next)
		return false, false
	case took == 0:
		t.k.Count("polls without a packet", 1)
		if end := time.Now(); !deadline.IsZero() && end.After(deadline) && end.After(start) {
			t.k.Fail("Poll oversleeps", "Poll returned %v after its deadline with nothing consumed", end.Sub(deadline))
			return false, false
		}
		return false, true
	case took != next:
		t.k.Fail("packet lost or torn", "Poll consumed %d bytes, the next packet has %d", took, next)
		return false, false
	}
	return true, true
}

type tevent struct {
	typ  int
	data any
}

func (t *tclient) result() (ev []tevent, outs []*wire.Packet) {
	es, _ := drain(t.ev)
	for _, e := range es {
		ev = append(ev, tevent{int(e.PacketType), e.Data})
	}
	for _, o := range t.n.Outs {
		outs = append(outs, o.P)
	}
	return
}

// compare checks events and written packets against those of the reference run.
func (t *tclient) compare(ps []*wire.Packet, refOuts []*wire.Packet, refEv []tevent) {
	ev, outs := t.result()
	if e := t.n.StreamErr(); e != nil {
		t.k.Fail("broken stream", "%v", e)
	}
	if fmt.Sprint(outs) != fmt.Sprint(refOuts) {
		t.k.Fail("reactions differ", "packets %v: the client wrote %v, but %v when they arrive in one piece", ps, outs, refOuts)
	}
	if len(ev) != len(refEv) {
		t.k.Fail("events differ", "packets %v: %d events, but %d when they arrive in one piece", ps, len(ev), len(refEv))
		return
	}
	j := 0
	for i := range ev {
		for j < len(ps) && (ps[j].Type != ev[i].typ || diffServer(ev[i].data, ps[j]) != "") {
			j++
		}
		if j == len(ps) {
			t.k.Fail("events differ", "event %d, %v, is none of the packets left of %v", i, view(ev[i].data), ps)
			return
		}
		j++
		t.k.Count("events compared", 1)
	}
}

// reference delivers every packet in one piece.
func c06Reference(k *Ck, ps []*wire.Packet) (outs []*wire.Packet, ev []tevent, ok bool) {
	t, err := newTClient(k, 0, 0)
	if err != nil {
		k.Fail("Connect fails", "%v", err)
		return
	}
	for _, p := range ps {
		e := p.Encode()
		t.n.Add(time.Now(), e...)
		if got, fine := t.poll(time.Now().Add(time.Hour), len(e)); !fine || !got {
			if fine {
				k.Fail("packet ignored", "%v was not consumed", p)
			}
			return
		}
	}
	ev, outs = t.result()
	return outs, ev, true
}

// c06Grid pauses for d before byte j (j == length: before the acknowledgement is written) with the Poll deadline in that
// pause.
func c06Grid(k *Ck, p *wire.Packet, j int, d time.Duration, kind int) {
	e := p.Encode()
	ps := []*wire.Packet{p}
	if p.Type != wire.DISCONNECT {
		ps = append(ps, &wire.Packet{Type: wire.PUBLISH, Topic: "next", Flags: 2, ID: 77, Payload: []byte("p")})
	}
	synctest.Test(k.T, func(*testing.T) {
		if pn := sim.Catch(func() {
			outs, ev, ok := c06Reference(k, ps)
			if !ok {
				return
			}
			t, err := newTClient(k, 0, 0)
			if err != nil {
				return
			}
			base := time.Now().Add(5 * time.Second)
			late := base.Add(d)
			if j == len(e) {
				t.n.WDelay = d
				t.n.Add(base, e...)
			} else {
				t.n.Add(base, e[:j]...)
				t.n.Add(late, e[j:]...)
			}
			for _, q := range ps[1:] {
				t.n.Add(late, q.Encode()...)
			}
			dl := []time.Time{base, base.Add(1), base.Add(d / 2), late.Add(-1), late, {}}[kind]
			got := false
			for n := 0; !got && n < 4; n++ {
				var fine bool
				if got, fine = t.poll(dl, len(e)); !fine {
					return
				}
				dl = time.Now().Add(time.Minute)
			}
			if !got {
				k.Fail("packet ignored", "%v was not consumed by four Polls", p)
				return
			}
			t.n.WDelay = 0
			for _, q := range ps[1:] {
				if got, fine := t.poll(time.Now().Add(time.Minute), len(q.Encode())); !fine {
					return
				} else if !got {
					k.Fail("packet ignored", "%v was not consumed", q)
					return
				}
			}
			t.compare(ps, outs, ev)
			k.Count("pause and deadline positions", 1)
			k.Distinct("grid", p.String(), j, d, kind)
		}); pn != "" {
			k.Fail("panic", "%s", pn)
		}
	})
}

func c06Random(k *Ck, r *rand.Rand) {
	var ps []*wire.Packet
	n := 1 + r.IntN(8)
	for len(ps) < n {
		typ := []int{wire.PUBLISH, wire.PUBLISH, wire.PUBLISH, wire.PUBACK, wire.PUBREC, wire.PUBREL, wire.PUBCOMP, wire.SUBACK, wire.UNSUBACK,
			wire.PINGRESP, wire.AUTH}[r.IntN(11)]
		p := serverPacket(r, typ, 20)
		if typ == wire.PUBLISH && len(p.Payload) > 300 {
			p.Payload = p.Payload[:300]
		}
		if len(p.Encode()) < 900 {
			ps = append(ps, p)
		}
	}
	if r.IntN(6) == 0 {
		ps = append(ps, &wire.Packet{Type: wire.DISCONNECT, Short: 2})
	}
	synctest.Test(k.T, func(*testing.T) {
		if pn := sim.Catch(func() {
			outs, ev, ok := c06Reference(k, ps)
			if !ok {
				return
			}
			t, err := newTClient(k, 0, 0)
			if err != nil {
				return
			}
			at := time.Now()
			var first []time.Time
			for _, p := range ps {
				at = at.Add([]time.Duration{0, 0, time.Millisecond, 3 * time.Second, 200 * time.Second}[r.IntN(5)])
				e := p.Encode()
				room := 29 * time.Second
				cuts := map[int]time.Duration{}
				for c := r.IntN(4); c > 0; c-- {
					d := []time.Duration{1, time.Millisecond, time.Second, 9 * time.Second, 28 * time.Second}[r.IntN(5)]
					if d < room {
						room -= d
						cuts[r.IntN(len(e))] += d
					}
				}
				for i, b := range e {
					at = at.Add(cuts[i])
					if i == 0 {
						first = append(first, at)
					}
					t.n.Add(at, b)
				}
			}
			for i := 0; i < len(ps); {
				if r.IntN(10) == 0 { // the deadlines of other calls have no effect on Poll
					switch r.IntN(2) {
					case 0:
						if err := t.c.KeepAlive(); err != nil {
							k.Fail("KeepAlive fails", "%v", err)
							return
						}
					case 1:
						if err := t.c.Publish(sim.NewCtx(time.Now().Add(time.Duration(1+r.IntN(1e9)))), pub(0, "o", nil)); err != nil {
							k.Fail("Publish fails", "%v", err)
							return
						}
					}
					t.n.Outs = t.n.Outs[:len(t.n.Outs)-1]
				}
				next := len(ps[i].Encode())
				var dl time.Time
				switch r.IntN(6) {
				case 0: // no deadline
				case 1:
					dl = time.Now().Add(-time.Duration(r.IntN(2)) * time.Second)
				case 2:
					dl = first[i].Add(time.Duration(r.IntN(3) - 1))
				case 3:
					dl = time.Now().Add(time.Duration(1 + r.IntN(1e9)))
				default:
					dl = time.Now().Add(time.Duration(r.IntN(60)) * time.Second / 2)
				}
				t.n.WDelay = 0
				if r.IntN(3) == 0 {
					t.n.WDelay = time.Duration(r.IntN(9e8))
				}
				got, fine := t.poll(dl, next)
				if !fine {
					return
				}
				if got {
					i++
				}
				t.n.WDelay = 0
			}
			t.compare(ps, outs, ev)
			k.Count("packets delivered piecemeal", len(ps))
			k.Distinct("random", fmt.Sprint(t.log))
			if r.IntN(500) == 0 {
				k.SampleLog(t.log)
			}
		}); pn != "" {
			k.Fail("panic", "%s", pn)
		}
	})
}

// never is the pause of a packet whose rest does not arrive at all.
const never = time.Duration(-1)

// c06Late pauses before byte j for longer than a Poll waits for it. The Poll may wait all the same, or fail; it may not
// report that there was nothing, and what arrives later may not be taken for packets.
func c06Late(k *Ck, p *wire.Packet, j int, d time.Duration, kind int) {
	e := p.Encode()
	next := &wire.Packet{Type: wire.PUBLISH, Topic: "next", Flags: 2, ID: 77, Payload: []byte("p")}
	synctest.Test(k.T, func(*testing.T) {
		if pn := sim.Catch(func() {
			t, err := newTClient(k, 0, 0)
			if err != nil {
				return
			}
			base := time.Now().Add(5 * time.Second)
			t.n.Add(base, e[:j]...)
			if d != never {
				t.n.Add(base.Add(d), e[j:]...)
				t.n.Add(base.Add(d), next.Encode()...)
			}
			dl := []time.Time{base, base.Add(1), base.Add(10 * time.Second)}[kind]
			for {
				before := t.n.Consumed
				start := time.Now()
				err := t.c.Poll(sim.NewCtx(dl))
				took := t.n.Consumed - before
				t.logf("Poll with deadline %v after its start: consumed %d, returned %v", dl.Sub(start), took, err)
				if t.n.Forever > 0 {
					k.Fail("Poll never returns", "%v ends before byte %d: a Poll with a deadline (%v after its start) reads without one", p, j, dl.Sub(start))
					return
				}
				if err == nil && took == 0 {
					dl = time.Now().Add(time.Minute)
					continue
				}
				if err == nil && took == len(e) {
					k.Count("packets waited for", 1)
					return
				}
				if err == nil {
					k.Fail("packet lost or torn", "%v paused for %v before byte %d: Poll consumed %d of %d bytes and returned nil", p, d, j, took, len(e))
					return
				}
				break
			}
			if t.c.IsConnected() || !t.n.Closed {
				k.Fail("torn packet survived", "%v paused for %v before byte %d: after the failing Poll, connected %v, closed %v", p, d, j, t.c.IsConnected(), t.n.Closed)
				return
			}
			time.Sleep(2 * time.Hour)
			if err := t.c.Poll(sim.NewCtx(time.Now().Add(time.Minute))); err == nil {
				k.Fail("torn packet survived", "%v paused for %v before byte %d: a Poll succeeds after the one that failed", p, d, j)
				return
			}
			evs, _ := t.result()
			for _, x := range evs {
				if x.typ == wire.PUBLISH || x.typ == p.Type && p.Type != wire.DISCONNECT {
					k.Fail("torn packet survived", "%v paused for %v before byte %d: event %v", p, d, j, view(x.data))
					return
				}
			}
			k.Count("pauses beyond the allowance", 1)
			k.Distinct("late", p.String(), j, d, kind)
		}); pn != "" {
			k.Fail("panic", "%s", pn)
		}
	})
}
