package checks

import (
	"fmt"
	"math/rand/v2"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"

	"github.com/waj334/tinygo-mqtt/mqtt"
	"verif/harness/sim"
	"verif/harness/wire"
)

func TestC18(t *testing.T) {
	k := Start(t, "C18", "histories with several Subscribe and Unsubscribe calls in flight, answered in any order, partly, wrongly and with every "+
		"mix of reason codes; results compared per call and the bindings probed by publishing to every filter after each acknowledgement; "+
		"plus concurrent callers whose expected result is written in their filters")
	k.Cases("world", k.N(12000, 120000), func(i int, r *rand.Rand) {
		p := Profile{SRM: 65535, CRM: 65535, UseStore: r.IntN(2) == 0, Steps: 10 + r.IntN(60), Frag: r.IntN(2) == 0, Rng: rngs, MaxWait: 2,
			W: map[string]int{"sub": 6, "unsub": 5, "deliver": 12, "suback": 10, "badcount": 1, "wrongkind": 1, "noise": 1, "in1": 1, "pub1": 1, "pub2": 1, "ack": 2, "cancel": 1}}
		newWorld(k, r, p).run()
	})
	k.Cases("bind", k.N(12000, 120000), func(i int, r *rand.Rand) { c18Bind(k, r) })
	k.Cases("stress", k.N(1600, 16000), func(i int, r *rand.Rand) { c18Stress(k, r) })
	k.Cases("crowd", k.N(48, 480), func(i int, r *rand.Rand) { crowdSub(k, r) })
	k.Cases("empty", k.N(16, 80), func(i int, r *rand.Rand) { emptyAck(k, r, i) })
	k.End()
}

type bindCall struct {
	op    *sim.Op
	unsub bool
	f     []string
	ch    []int        // index of the channel, -1: none
	fs    []string     // the slice passed to Unsubscribe
	ts    []mqtt.Topic // the slice passed to Subscribe
	id    uint16
}

func c18Bind(k *Ck, r *rand.Rand) {
	var m *mon
	s, err := NewSess(Opt{Rng: rngs(r), Frag: frag(r), Prepare: func(s *Sess) {
		m = newMon(s.Conn, nil, 65535)
		s.Conn.OnPacket = m.wrote
	}})
	if err != nil {
		return
	}
	k.Log(s.Conn.Log)
	nch := 1 + r.IntN(4)
	chans := make([]mqtt.EventChannel, nch)
	bound := map[string]int{}
	var anchors []mqtt.Topic
	for i := range chans {
		chans[i] = s.C.CreateEventChannel(800)
		f := fmt.Sprintf("anchor/%d", i)
		anchors = append(anchors, topicOf(f, 0, &chans[i]))
		bound[f] = i
	}
	op := sim.Go("Subscribe", func() error { return s.C.Subscribe(sim.NewCtx(sim.Far), anchors) })
	sim.Settle(op)
	id, ok := lastID(s)
	if !ok {
		return
	}
	m.send(&wire.Packet{Type: wire.SUBACK, ID: id, Codes: make([]byte, nch)})
	if sim.Drive(s.Poll, op) != nil || op.Err != nil {
		return
	}
	universe := []string{"a", "b", "c/d", "e", "f/g/h", "$s"}
	big := r.IntN(12) == 0
	if big {
		for j := []int{40, 150, 300, 700}[r.IntN(4)] + r.IntN(50); j > 0; j-- {
			universe = append(universe, fmt.Sprintf("u/%d", j))
		}
	}
	var calls, over []*bindCall
	trace := ""
	start := func() {
		c := &bindCall{unsub: r.IntN(5) < 2}
		// The caller tries again with the very slice of a call that has returned.
		var again *bindCall
		if len(over) > 0 && r.IntN(3) == 0 {
			again = over[r.IntN(len(over))]
			c.unsub = again.unsub
			k.Count("slices passed again", 1)
		}
		perm := r.Perm(len(universe))
		n := 1 + r.IntN(4)
		if big && r.IntN(2) == 0 {
			n = 1 + r.IntN(len(universe))
			if r.IntN(2) == 0 {
				n = len(universe)
			}
			k.Max("topics in a call", n)
		}
		for j := 0; j < n; j++ {
			f := universe[perm[j]]
			// Calls in flight on the same filter only race with the broker's answers, in the order these arrive.
			c.f = append(c.f, f)
			c.ch = append(c.ch, r.IntN(nch))
		}
		if r.IntN(5) == 0 { // the same filter again
			j := r.IntN(len(c.f))
			c.f, c.ch = append(c.f, c.f[j]), append(c.ch, c.ch[j])
			k.Count("calls naming a filter twice", 1)
		}
		fs := slices.Clone(c.f)
		if again != nil {
			c.f, c.ch, fs = again.f, again.ch, again.fs
		}
		c.fs = fs
		n = s.Conn.NumOut()
		if c.unsub {
			c.op = sim.Go("Unsubscribe", func() error { return s.C.Unsubscribe(sim.NewCtx(sim.Far), fs) })
		} else {
			var ts []mqtt.Topic
			if again != nil {
				ts = again.ts
			} else {
				for j, f := range c.f {
					ts = append(ts, topicOf(f, r.IntN(3), &chans[c.ch[j]]))
				}
			}
			c.ts = ts
			c.op = sim.Go("Subscribe", func() error { return s.C.Subscribe(sim.NewCtx(sim.Far), ts) })
		}
		sim.Settle(c.op)
		if s.Conn.NumOut() != n+1 {
			k.Fail("nothing sent", "%s wrote %d packets: %v %s", c.op.Name, s.Conn.NumOut()-n, c.op.Err, c.op.Panic)
			return
		}
		c.id, _ = lastID(s)
		var sent []string
		o := s.Conn.Packets()
		for _, q := range o[len(o)-1].P.Subs {
			sent = append(sent, q.Filter)
		}
		if strings.Join(sent, "\n") != strings.Join(c.f, "\n") {
			k.Fail(c.op.Name+" asks for other filters", "the filters are %q, %v was sent", c.f, o[len(o)-1].P)
			return
		}
		trace += fmt.Sprint(c.unsub, c.f, c.ch, ";")
		calls = append(calls, c)
	}
	for step, lim := 0, 4+r.IntN(14); step < lim; step++ {
		if len(calls) == 0 || len(calls) < 4 && r.IntN(2) == 0 {
			before := len(calls)
			start()
			if len(calls) == before {
				return
			}
			continue
		}
		i := r.IntN(len(calls))
		c := calls[i]
		calls = append(calls[:i], calls[i+1:]...)
		ack := &wire.Packet{Type: wire.SUBACK, ID: c.id}
		if c.unsub {
			ack.Type = wire.UNSUBACK
		}
		for j, f := range c.f {
			code := byte(0)
			if r.IntN(3) == 0 {
				code = subFail[r.IntN(len(subFail))]
			} else if c.unsub {
				code = []byte{0, 0, 0x11, byte(r.IntN(0x80))}[r.IntN(4)]
				delete(bound, f)
			} else {
				code = byte(r.IntN(3))
				if r.IntN(8) == 0 {
					code = byte(r.IntN(0x80)) // not a failure, whatever it says
				}
				bound[f] = c.ch[j]
			}
			ack.Codes = append(ack.Codes, code)
		}
		trace += fmt.Sprintf("%v;", ack)
		m.send(ack)
		// The publishes follow the acknowledgement immediately.
		want := make([][]string, nch)
		var probe []string
		probe = append(probe, universe...)
		for f := range bound {
			if strings.HasPrefix(f, "anchor") {
				probe = append(probe, f)
			}
		}
		sort.Strings(probe)
		for _, f := range probe {
			s.Conn.Send(&wire.Packet{Type: wire.PUBLISH, Topic: f, Payload: []byte("p")})
			if ch, ok := bound[f]; ok {
				want[ch] = append(want[ch], f)
			}
		}
		if err := s.PollAll(); err != nil {
			k.Fail("Poll fails", "Poll returned %v after %v", err, ack)
			return
		}
		if err := sim.Await(c.op); err != nil {
			k.Fail(c.op.Name+" misses its acknowledgement", "%v was received but %v", ack, err)
			return
		}
		if msg := wantCodes(ack.Codes, c.op.Err); msg != "" || c.op.Panic != "" {
			k.Fail(c.op.Name+" returns the wrong result", "%v: returned %v %s, want %s", ack, c.op.Err, c.op.Panic, msg)
			return
		}
		for j := range chans {
			ev, closed := drain(chans[j])
			var got []string
			for _, e := range ev {
				if v := view(e.Data); v != nil {
					got = append(got, v.Topic)
				}
			}
			if closed || strings.Join(got, ",") != strings.Join(want[j], ",") {
				k.Fail("wrong bindings after "+wire.TypeNames[ack.Type], "after %v for %v (channels %v), channel %d received %v of the topics %v, want %v (closed: %v)",
					ack, c.f, c.ch, j, got, probe, want[j], closed)
				return
			}
			k.Count("binding probes", len(probe))
		}
		k.Count("acknowledgements applied", 1)
		over = append(over, c)
	}
	k.monFail(s, m)
	k.Distinct("bind", trace)
	s.Conn.End(errInjected)
	s.Poll()
}

func lastID(s *Sess) (uint16, bool) {
	o := s.Conn.Packets()
	if len(o) == 0 {
		return 0, false
	}
	return o[len(o)-1].P.ID, o[len(o)-1].P.ID != 0
}

// c18Stress: the filters say how the broker will answer.
func c18Stress(k *Ck, r *rand.Rand) {
	var m *mon
	rr := rand.New(rand.NewPCG(r.Uint64(), 3))
	var todo []*wire.Packet
	eager := r.IntN(3)
	s, err := NewSess(Opt{Rng: rngs(r), Prepare: func(s *Sess) {
		m = newMon(s.Conn, nil, 65535)
		s.Conn.OnPacket = func(p *wire.Packet) {
			m.wrote(p)
			if p.Type != wire.SUBSCRIBE && p.Type != wire.UNSUBSCRIBE {
				return
			}
			a := &wire.Packet{Type: p.Type + 1, ID: p.ID}
			for _, q := range p.Subs {
				v, _ := strconv.ParseUint(q.Filter[strings.LastIndex(q.Filter, "/")+1:], 16, 8)
				a.Codes = append(a.Codes, byte(v))
			}
			if rr.IntN(3) < eager {
				m.sendLocked(a)
			} else {
				todo = append(todo, a)
			}
		}
		s.Conn.OnIdle = func() bool {
			if len(todo) == 0 {
				return false
			}
			for n := 1 + rr.IntN(3); n > 0 && len(todo) > 0; n-- {
				i := rr.IntN(len(todo))
				p := todo[i]
				todo = append(todo[:i], todo[i+1:]...)
				m.sendLocked(p)
			}
			return true
		}
	}})
	if err != nil {
		return
	}
	k.Log(s.Conn.Log)
	var ops []*sim.Op
	var mu sync.Mutex
	n := 0
	bad := ""
	for g, lim := 0, 2+r.IntN(5); g < lim; g++ {
		seed := r.Uint64()
		ops = append(ops, sim.Go(fmt.Sprintf("caller %d", g), func() error {
			q := rand.New(rand.NewPCG(seed, 4))
			for j, lim := 0, 1+q.IntN(6); j < lim; j++ {
				var fs []string
				var codes []byte
				for x, lim := 0, 1+q.IntN(3); x < lim; x++ {
					c := byte(0)
					if q.IntN(3) == 0 {
						c = subFail[q.IntN(len(subFail))]
					}
					codes = append(codes, c)
					fs = append(fs, fmt.Sprintf("g%d/%d/%d/%x", g, j, x, c))
				}
				var err error
				if q.IntN(2) == 0 {
					err = s.C.Unsubscribe(sim.NewCtx(sim.Far), fs)
				} else {
					var ts []mqtt.Topic
					for _, f := range fs {
						ts = append(ts, topicOf(f, 0, nil))
					}
					err = s.C.Subscribe(sim.NewCtx(sim.Far), ts)
				}
				mu.Lock()
				n++
				if msg := wantCodes(codes, err); msg != "" && bad == "" {
					bad = fmt.Sprintf("call for %v returned %v, want %s", fs, err, msg)
				}
				mu.Unlock()
			}
			return nil
		}))
	}
	err = sim.Drive(s.Poll, ops...)
	if k.monFail(s, m) {
		return
	}
	if st := stuckErr(err); st != nil {
		k.Fail("call misses its acknowledgement", "everything was answered, but %v", st)
		return
	}
	if err != nil {
		k.Fail("Poll fails", "Poll returned %v", err)
		return
	}
	for _, o := range ops {
		if o.Panic != "" {
			k.Fail("panic", "%s", o.Panic)
		}
	}
	if bad != "" {
		k.Fail("wrong result", "%s", bad)
	}
	k.Count("concurrent calls answered", n)
	k.Distinct("stress", fmt.Sprint(s.Conn.Log()))
}
