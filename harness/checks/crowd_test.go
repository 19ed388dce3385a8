package checks

import (
	"fmt"
	"math/rand/v2"
	"slices"
	"sort"
	"sync"

	"github.com/waj334/tinygo-mqtt/mqtt"
	"verif/harness/sim"
	"verif/harness/wire"
)

// crowdSize picks how many exchanges are unfinished at the same time.
func crowdSize(k *Ck, r *rand.Rand, max int) int {
	n := []int{60, 130, 300, 700, 1100, 1500, 2100, 4200}[r.IntN(8)]
	if k.N(0, 1) == 1 && r.IntN(3) == 0 {
		n = []int{9000, 17000, 33000, 65000}[r.IntN(4)]
	}
	return min(n+r.IntN(n/10), max)
}

// crowdIn: thousands of incoming QoS 2 messages are unreleased at the same time, and survive a lost connection.
func crowdIn(k *Ck, r *rand.Rand) {
	n := crowdSize(k, r, 60000)
	var st *sim.Store
	if r.IntN(3) > 0 {
		st = sim.NewStore(nil)
	}
	var s *Sess
	var ev mqtt.EventChannel
	connect := func(session byte) bool {
		var err error
		s, err = NewSess(Opt{Sim: st, Connack: &wire.Packet{Type: wire.CONNACK, Session: session}})
		if err != nil {
			k.Fail("connect", "%v", err)
			return false
		}
		k.Log(s.Conn.Log)
		ev = s.C.CreateEventChannel(600)
		return true
	}
	if !connect(0) {
		return
	}
	ids := r.Perm(65535)[:n]
	for i := range ids {
		ids[i]++
	}
	open := map[uint16]bool{}
	// step feeds packets and compares the events and reactions.
	step := func(in []*wire.Packet) bool {
		for len(in) > 0 {
			batch := in[:min(len(in), 500)]
			in = in[len(batch):]
			outs := s.Conn.NumOut()
			var wantEv, wantOut []string
			for _, p := range batch {
				s.Conn.Send(p)
				if p.Type == wire.PUBLISH {
					if !open[p.ID] {
						wantEv = append(wantEv, fmt.Sprint("PUBLISH ", p.ID, " ", string(p.Payload)))
					}
					open[p.ID] = true
					wantOut = append(wantOut, fmt.Sprint("PUBREC ", p.ID))
				} else {
					delete(open, p.ID)
					wantEv = append(wantEv, fmt.Sprint("PUBREL ", p.ID, " "))
					wantOut = append(wantOut, fmt.Sprint("PUBCOMP ", p.ID))
				}
			}
			if err := s.PollAll(); err != nil {
				k.Fail("crowd: Poll fails", "with %d unreleased messages Poll returned %v", len(open), err)
				return false
			}
			var gotEv, gotOut []string
			evs, _ := drain(ev)
			for _, e := range evs {
				if v := view(e.Data); v != nil {
					gotEv = append(gotEv, fmt.Sprint(wire.TypeNames[v.Type], " ", v.ID, " ", string(v.Payload)))
				}
			}
			for _, o := range s.Conn.Packets()[outs:] {
				gotOut = append(gotOut, fmt.Sprint(wire.TypeNames[o.P.Type], " ", o.P.ID))
			}
			if d := firstDiff(gotEv, wantEv); d != "" {
				k.Fail("crowd: wrong event", "with %d unreleased messages: %s", len(open), d)
				return false
			}
			if d := firstDiff(gotOut, wantOut); d != "" {
				k.Fail("crowd: wrong reaction", "with %d unreleased messages: %s", len(open), d)
				return false
			}
			k.Beat()
		}
		if st != nil && len(st.IDs()) != len(open) {
			k.Fail("crowd: wrong records", "%d messages are unreleased, %d records are stored", len(open), len(st.IDs()))
			return false
		}
		return true
	}
	msg := func(id int, round string, dup bool) *wire.Packet {
		p := &wire.Packet{Type: wire.PUBLISH, Flags: 4, Topic: "in", ID: uint16(id), Payload: []byte(round)}
		if dup {
			p.Flags |= 8
		}
		return p
	}
	rel := func(id int) *wire.Packet { return &wire.Packet{Type: wire.PUBREL, Flags: 2, ID: uint16(id), Short: 2} }
	var a, b, c, d []*wire.Packet
	for _, id := range ids {
		a = append(a, msg(id, "first", false))
	}
	for j := 0; j < 200; j++ {
		b = append(b, msg(ids[r.IntN(n)], "first", true))
	}
	half := n/2 + r.IntN(n/2)
	for _, id := range ids[:half] {
		c = append(c, rel(id))
	}
	for j := 0; j < 200; j++ {
		d = append(d, msg(ids[r.IntN(n)], "second", r.IntN(2) == 0))
	}
	if !step(a) || !step(b) || !step(c) || !step(d) {
		return
	}
	k.Max("unreleased messages", n)
	if st != nil {
		s.Conn.End(errInjected)
		s.PollAll()
		if !connect(1) {
			return
		}
		var e []*wire.Packet
		for j := 0; j < 300; j++ {
			e = append(e, msg(ids[r.IntN(n)], "third", true))
		}
		if !step(e) {
			return
		}
		k.Count("crowds resumed", 1)
	}
	var f, g []*wire.Packet
	var left []int
	for id := range open {
		left = append(left, int(id))
	}
	sort.Ints(left)
	r.Shuffle(len(left), func(i, j int) { left[i], left[j] = left[j], left[i] })
	for _, id := range left {
		f = append(f, rel(id))
	}
	for j := 0; j < 100; j++ {
		g = append(g, msg(ids[r.IntN(n)], "fourth", false))
	}
	if step(f) && step(g) {
		k.Count("crowds of incoming messages", 1)
		k.Distinct("crowd in", ids[:10], n, st != nil)
	}
}

// firstDiff describes the first difference of two sequences.
func firstDiff(got, want []string) string {
	for i := range max(len(got), len(want)) {
		switch {
		case i >= len(got):
			return fmt.Sprintf("%d of %d seen, %q is missing", len(got), len(want), want[i])
		case i >= len(want):
			return fmt.Sprintf("%q after all of %d", got[i], len(want))
		case got[i] != want[i]:
			return fmt.Sprintf("number %d of %d is %q, want %q", i, len(want), got[i], want[i])
		}
	}
	return ""
}

// crowdOut: thousands of outgoing messages are unacknowledged at the same time; the acknowledgements come in any order.
func crowdOut(k *Ck, r *rand.Rand) {
	n := crowdSize(k, r, 60000)
	var st *sim.Store
	if r.IntN(3) > 0 {
		st = sim.NewStore(nil)
	}
	s, err := NewSess(Opt{Sim: st, RecvMax: uint16([]int{n, 0}[r.IntN(2)]), Rng: rngs(r)})
	if err != nil {
		k.Fail("connect", "%v", err)
		return
	}
	k.Log(s.Conn.Log)
	ev := s.C.CreateEventChannel(600)
	type ex struct{ qos, state int }
	open := map[uint16]*ex{}
	publish := func(j int) bool {
		qos := 1 + r.IntN(2)
		if err := s.C.Publish(sim.NewCtx(sim.Far), pub(qos, "out", []byte(fmt.Sprint(j)))); err != nil {
			k.Fail("crowd: Publish fails", "with %d unacknowledged messages Publish returned %v", len(open), err)
			return false
		}
		id, _ := lastID(s)
		if id == 0 || open[id] != nil {
			k.Fail("crowd: identifier in use", "with %d unacknowledged messages identifier %d was chosen", len(open), id)
			return false
		}
		open[id] = &ex{qos: qos}
		if j%500 == 0 {
			k.Beat()
		}
		return true
	}
	for j := 0; j < n; j++ {
		if !publish(j) {
			return
		}
	}
	if s.Conn.NumOut() != n+1 {
		k.Fail("crowd: packets", "%d Publish calls wrote %d packets", n, s.Conn.NumOut()-1)
		return
	}
	k.Max("unacknowledged messages", n)
	refill := min(n, 200)
	for len(open) > 0 {
		var ids []int
		for id := range open {
			ids = append(ids, int(id))
		}
		sort.Ints(ids)
		r.Shuffle(len(ids), func(i, j int) { ids[i], ids[j] = ids[j], ids[i] })
		for len(ids) > 0 {
			batch := ids[:min(len(ids), 400)]
			ids = ids[len(batch):]
			outs := s.Conn.NumOut()
			var wantEv, wantOut []string
			for _, id := range batch {
				e := open[uint16(id)]
				p := &wire.Packet{Type: wire.PUBACK, ID: uint16(id), Short: 2}
				switch {
				case e.qos == 1:
					delete(open, p.ID)
				case e.state == 0 && r.IntN(8) == 0:
					p.Type, p.Reason, p.Short = wire.PUBREC, pubCode(r, 1), 0
					delete(open, p.ID)
				case e.state == 0:
					p.Type = wire.PUBREC
					e.state = 1
					wantOut = append(wantOut, fmt.Sprint("PUBREL ", p.ID))
				default:
					p.Type = wire.PUBCOMP
					delete(open, p.ID)
				}
				wantEv = append(wantEv, fmt.Sprint(wire.TypeNames[p.Type], " ", p.ID))
				s.Conn.Send(p)
			}
			if err := s.PollAll(); err != nil {
				k.Fail("crowd: Poll fails", "with %d unacknowledged messages Poll returned %v", len(open), err)
				return
			}
			var gotEv, gotOut []string
			evs, _ := drain(ev)
			for _, e := range evs {
				if v := view(e.Data); v != nil {
					gotEv = append(gotEv, fmt.Sprint(wire.TypeNames[v.Type], " ", v.ID))
				}
			}
			for _, o := range s.Conn.Packets()[outs:] {
				gotOut = append(gotOut, fmt.Sprint(wire.TypeNames[o.P.Type], " ", o.P.ID))
			}
			if d := firstDiff(gotEv, wantEv); d != "" {
				k.Fail("crowd: wrong event", "%s", d)
				return
			}
			if d := firstDiff(gotOut, wantOut); d != "" {
				k.Fail("crowd: wrong reaction", "%s", d)
				return
			}
			if st != nil {
				var want []int
				for id := range open {
					want = append(want, int(id))
				}
				sort.Ints(want)
				if got := st.IDs(); !slices.Equal(got, want) {
					k.Fail("crowd: wrong entries", "%d messages are unacknowledged, %d are stored", len(want), len(got))
					return
				}
			}
			k.Beat()
		}
		for ; refill > 0 && len(open) < n; refill-- {
			if !publish(refill) {
				return
			}
		}
	}
	k.Count("crowds of outgoing messages", 1)
	k.Distinct("crowd out", n, st != nil, r.Uint64())
}

// crowdSub: hundreds of calls to Subscribe and Unsubscribe wait at the same time; the broker answers when all have asked.
func crowdSub(k *Ck, r *rand.Rand) {
	n := []int{40, 70, 140, 280, 520}[r.IntN(5)]
	n += r.IntN(n / 4)
	rr := rand.New(rand.NewPCG(r.Uint64(), 3))
	var asked []*wire.Packet
	answered := false
	want := make([]byte, n)
	s, err := NewSess(Opt{Rng: rngs(r), Prepare: func(s *Sess) {
		s.Conn.OnPacket = func(p *wire.Packet) {
			if p.Type == wire.SUBSCRIBE || p.Type == wire.UNSUBSCRIBE {
				asked = append(asked, p)
			}
		}
		s.Conn.OnIdle = func() bool {
			if len(asked) < n || answered {
				return false
			}
			answered = true
			rr.Shuffle(len(asked), func(i, j int) { asked[i], asked[j] = asked[j], asked[i] })
			for _, p := range asked {
				var j int
				fmt.Sscanf(p.Subs[0].Filter, "crowd/%d", &j)
				s.Conn.SendLocked(&wire.Packet{Type: p.Type + 1, ID: p.ID, Codes: []byte{want[j]}})
			}
			return true
		}
	}})
	if err != nil {
		k.Fail("connect", "%v", err)
		return
	}
	k.Log(s.Conn.Log)
	var ops []*sim.Op
	var mu sync.Mutex
	bad := ""
	for j := 0; j < n; j++ {
		if r.IntN(3) == 0 {
			want[j] = subFail[r.IntN(len(subFail))]
		}
		unsub := r.IntN(2) == 0
		ops = append(ops, sim.Go(fmt.Sprint("caller ", j), func() error {
			f := fmt.Sprint("crowd/", j)
			var err error
			if unsub {
				err = s.C.Unsubscribe(sim.NewCtx(sim.Far), []string{f})
			} else {
				err = s.C.Subscribe(sim.NewCtx(sim.Far), []mqtt.Topic{topicOf(f, 0, nil)})
			}
			if msg := wantCodes(want[j:j+1], err); msg != "" {
				mu.Lock()
				bad = fmt.Sprintf("the call for %s returned %v, want %s", f, err, msg)
				mu.Unlock()
			}
			return nil
		}))
	}
	err = sim.Drive(s.Poll, ops...)
	if st := stuckErr(err); st != nil {
		k.Fail("crowd: call misses its acknowledgement", "%d calls in flight, %d asked, all answered: %v, but %v", n, len(asked), answered, st)
		return
	}
	if err != nil {
		k.Fail("Poll fails", "Poll returned %v", err)
		return
	}
	seen := map[uint16]bool{}
	for _, p := range asked {
		if p.ID == 0 || seen[p.ID] {
			k.Fail("crowd: identifier in use", "%d calls in flight, identifier %d was chosen twice", n, p.ID)
			return
		}
		seen[p.ID] = true
	}
	if bad != "" {
		k.Fail("crowd: wrong result", "%s", bad)
		return
	}
	k.Max("calls in flight", n)
	k.Count("crowds of calls", 1)
	k.Distinct("crowd sub", n, r.Uint64())
}

// emptyAck: an acknowledgement without any reason code ends the call with an error, if not the connection.
func emptyAck(k *Ck, r *rand.Rand, i int) {
	s, err := NewSess(Opt{Rng: rngs(r)})
	if err != nil {
		k.Fail("connect", "%v", err)
		return
	}
	k.Log(s.Conn.Log)
	n := 1 + r.IntN(3)
	var op *sim.Op
	typ := wire.SUBACK
	if i%2 == 0 {
		var ts []mqtt.Topic
		for j := 0; j < n; j++ {
			ts = append(ts, topicOf(fmt.Sprint("t", j), 0, nil))
		}
		op = sim.Go("Subscribe", func() error { return s.C.Subscribe(sim.NewCtx(sim.Far), ts) })
	} else {
		typ = wire.UNSUBACK
		fs := []string{"a", "b", "c"}[:n]
		op = sim.Go("Unsubscribe", func() error { return s.C.Unsubscribe(sim.NewCtx(sim.Far), fs) })
	}
	sim.Settle(op)
	id, _ := lastID(s)
	p := &wire.Packet{Type: typ, ID: id}
	if r.IntN(2) == 0 {
		p.Props = []wire.Prop{{ID: 0x1F, S: "reason"}}
	}
	s.Conn.Send(p)
	perr := s.PollAll()
	if err := sim.Await(op); err != nil {
		k.Fail("call hangs on an empty acknowledgement", "%v was received (Poll returned %v), but %v", p, perr, err)
		return
	}
	if op.Err == nil || op.Panic != "" {
		k.Fail("accepts a wrong number of reason codes", "%s for %d filters returned %v %s on %v", op.Name, n, op.Err, op.Panic, p)
		return
	}
	k.Count("empty acknowledgements", 1)
	k.Distinct("empty", i)
}
