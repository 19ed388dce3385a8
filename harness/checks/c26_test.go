package checks

import (
	"context"
	"fmt"
	"math/rand/v2"
	"os"
	"sync"
	"testing"
	"time"

	"github.com/waj334/tinygo-mqtt/mqtt"
	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	"verif/harness/sim"
	"verif/harness/wire"
)

func TestC26(t *testing.T) {
	k := Start(t, "C26", "concurrent calls with distinct deadlines, the I/O deadline recorded at the first and last byte of every packet; histories in which "+
		"contexts end while calls wait, late acknowledgements arrive while others wait, and contexts end at the moment the acknowledgement is read")
	k.Cases("world", k.N(12000, 120000), func(i int, r *rand.Rand) {
		p := Profile{SRM: []int{1, 1, 2, 3}[r.IntN(4)], CRM: 65535, UseStore: r.IntN(3) == 0, Steps: 10 + r.IntN(50), MaxWait: 5, Rng: rngs, Frag: r.IntN(2) == 0,
			W: map[string]int{"pub1": 8, "pub2": 6, "sub": 5, "unsub": 4, "deliver": 8, "ack": 6, "suback": 6, "cancel": 12}}
		newWorld(k, r, p).run()
	})
	k.Cases("deadlines", k.N(3000, 30000), func(i int, r *rand.Rand) { c26Deadlines(k, r) })
	k.Cases("late", k.N(8000, 80000), func(i int, r *rand.Rand) { c26Late(k, r) })
	k.Cases("race", k.N(3000, 30000), func(i int, r *rand.Rand) { c26Race(k, r) })
	k.Cases("slices", k.N(3000, 30000), func(i int, r *rand.Rand) { c26Slices(k, r) })
	k.Cases("refused", k.N(4000, 40000), func(i int, r *rand.Rand) { c26Refused(k, r, i) })
	k.End()
}

// c26Slices: a caller whose context has ended uses its slice for something else. When the acknowledgement arrives after all,
// the filters that are in the slice by then are not concerned.
func c26Slices(k *Ck, r *rand.Rand) {
	var general, bound mqtt.EventChannel
	s, err := NewSess(Opt{Prepare: func(s *Sess) { general, bound = s.C.CreateEventChannel(9), s.C.CreateEventChannel(9) }})
	if err != nil {
		return
	}
	k.Log(s.Conn.Log)
	s.AutoAck()
	if op, err := s.Run("Subscribe", func() error { return s.C.Subscribe(sim.NewCtx(sim.Far), []mqtt.Topic{topicOf("bound", 0, &bound)}) }); err != nil || op.Err != nil {
		return
	}
	s.Conn.Lock()
	s.Conn.OnPacket = nil
	s.Conn.Unlock()
	n := 1 + r.IntN(3)
	sub := r.IntN(2) == 0
	topics, filters := make([]mqtt.Topic, n), make([]string, n)
	for i := range topics {
		filters[i] = fmt.Sprintf("old%d", i)
		topics[i] = topicOf(filters[i], 0, nil)
	}
	ctx := sim.NewCtx(sim.Far)
	typ, op := wire.SUBACK, (*sim.Op)(nil)
	if sub {
		op = sim.Go("Subscribe", func() error { return s.C.Subscribe(ctx, topics) })
	} else {
		typ = wire.UNSUBACK
		op = sim.Go("Unsubscribe", func() error { return s.C.Unsubscribe(ctx, filters) })
	}
	sim.Settle(op)
	id, ok := lastID(s)
	if op.Done() || !ok {
		return
	}
	ctx.End(context.Canceled)
	if sim.Await(op) != nil || op.Err == nil {
		return // the other cases
	}
	j := r.IntN(n)
	topics[j] = topicOf("new", 0, &general)
	filters[j] = "bound"
	s.Conn.Send(&wire.Packet{Type: typ, ID: id, Codes: make([]byte, n)})
	drain(general)
	if err := s.PollAll(); err != nil {
		k.Fail("acknowledgement breaks Poll", "Poll returned %v", err)
		return
	}
	for _, x := range []struct {
		topic        string
		nGen, nBound int
	}{{"bound", 1, 1}, {"other", 1, 0}, {"new", 1, 0}} {
		drain(general)
		drain(bound)
		s.Conn.Send(&wire.Packet{Type: wire.PUBLISH, Topic: x.topic})
		if s.PollAll() != nil {
			return
		}
		g, gc := drain(general)
		b, bc := drain(bound)
		if len(g) != x.nGen || len(b) != x.nBound || gc || bc {
			k.Fail("late acknowledgement applied to a reused slice", "after a late %s for an abandoned call whose slice was used again, PUBLISH %q was signalled %d times on the general channel (closed: %v) and %d times "+
				"on the one bound to \"bound\" (closed: %v)", wire.TypeNames[typ], x.topic, len(g), gc, len(b), bc)
			return
		}
	}
	k.Count("slices reused", 1)
	k.Distinct("slices", s.Conn.Log())
}

// c26Refused: the connection refuses to set a deadline. Nothing may be written under another one, and the caller is told.
func c26Refused(k *Ck, r *rand.Rand, i int) {
	var st *sim.Store
	if r.IntN(3) == 0 {
		st = sim.NewStore(nil)
	}
	s, err := NewSess(Opt{NoConn: true, Sim: st, Expiry: 5})
	if err != nil {
		return
	}
	k.Log(s.Conn.Log)
	ctx := func() *sim.Ctx { return sim.NewCtx([]time.Time{{}, sim.Far}[r.IntN(2)]) }
	armed, fired := false, false
	s.Conn.Fault = func(p string) error {
		if armed && p == "SetDeadline" {
			armed, fired = false, true
			return anyErr(r)
		}
		return nil
	}
	s.Conn.OnPacket = func(p *wire.Packet) { autoAck(s.Conn, p) }
	// try performs the operation with the fault, then, if it should work again, without.
	try := func(name string, f func(ctx *sim.Ctx) error) bool {
		for _, fault := range []bool{true, false} {
			if !fault && (s.Conn.Closed() || name == "Disconnect" && r.IntN(2) == 0) {
				return true
			}
			armed, fired = fault, false
			before, conn := s.Conn.Bytes(), s.C.IsConnected()
			c := ctx()
			op := sim.Go(name, func() error { return f(c) })
			var e error
			if name == "Connect" || name == "Disconnect" {
				e = sim.Await(op)
			} else {
				// Whoever polls is not the one the fault is for.
				sim.Settle(op)
				armed = false
				e = sim.Drive(s.Poll, op)
			}
			armed = false
			if e != nil {
				k.Fail("stuck: "+name, "%s (SetDeadline failed: %v): %v", name, fired, e)
				return false
			}
			if op.Panic != "" {
				k.Fail("panic", "%s: %s", name, op.Panic)
				return false
			}
			n := s.Conn.Bytes() - before
			if fired {
				k.Count("refused deadlines", 1)
				if op.Err == nil {
					k.Fail("refused deadline hidden: "+name, "SetDeadline failed and %s returned nil (%d bytes written)", name, n)
					return false
				}
				if n != 0 {
					k.Fail("written under another deadline: "+name, "SetDeadline failed and %s wrote %d bytes", name, n)
					return false
				}
				if s.C.IsConnected() && s.Conn.Closed() || s.C.IsConnected() && !conn {
					k.Fail("connected", "after a refused deadline in %s IsConnected is true (connected before: %v, closed: %v)", name, conn, s.Conn.Closed())
					return false
				}
				continue
			}
			if op.Err != nil {
				k.Fail("call fails after a refused deadline: "+name, "%s returned %v", name, op.Err)
				return false
			}
			if n == 0 {
				k.Fail("success without packet: "+name, "%s returned nil and wrote nothing", name)
				return false
			}
		}
		return true
	}
	ok := try("Connect", func(ctx *sim.Ctx) error {
		if !fired && !armed {
			s.Conn.Send(&wire.Packet{Type: wire.CONNACK, Props: []wire.Prop{{ID: 0x21, N: 2}}})
		}
		return s.C.Connect(ctx, &packets.Connect{Version: packets.MQTT5, ClientId: "c", KeepAlive: 3600, SessionExpiryInterval: 5})
	})
	if !ok || !s.C.IsConnected() {
		return
	}
	trace := ""
	for j, lim := 0, 1+r.IntN(6); j < lim; j++ {
		n := r.IntN(6)
		trace += fmt.Sprint(n)
		name := fmt.Sprintf("t%d", j)
		switch n {
		case 0, 1, 2:
			ok = try("Publish", func(ctx *sim.Ctx) error { return s.C.Publish(ctx, pub(n, name, []byte("x"))) })
		case 3:
			ok = try("Subscribe", func(ctx *sim.Ctx) error { return s.C.Subscribe(ctx, []mqtt.Topic{topicOf(name, 1, nil)}) })
		case 4:
			ok = try("Unsubscribe", func(ctx *sim.Ctx) error { return s.C.Unsubscribe(ctx, []string{name}) })
		case 5:
			ok = try("KeepAlive", func(ctx *sim.Ctx) error { return s.C.KeepAlive() })
		}
		if !ok || s.Conn.Closed() {
			return
		}
	}
	if s.PollAll() != nil {
		return // C06
	}
	if r.IntN(2) == 0 {
		s.Conn.Lock()
		s.Conn.OnPacket = nil
		s.Conn.Unlock()
		k.probe(s, 2)
		return
	}
	try("Disconnect", func(ctx *sim.Ctx) error { return s.C.Disconnect(ctx, r.IntN(2) == 0) })
	k.Distinct("refused", trace, s.Conn.Log())
}

func sameTime(a, b time.Time) bool { return a.IsZero() && b.IsZero() || a.Equal(b) }

// c26Deadlines gives each call a deadline of its own and compares it with the one in force while its packet is written.
func c26Deadlines(k *Ck, r *rand.Rand) {
	srm := 1 + r.IntN(2)
	var mu sync.Mutex
	want := map[string]time.Time{}
	n := 0
	var used []*sim.Ctx
	again := r.IntN(2) == 0 // contexts are used for several calls
	mk := func(key string) (ctx *sim.Ctx) {
		mu.Lock()
		defer mu.Unlock()
		n++
		if again && len(used) > 0 && r.IntN(2) == 0 {
			old := used[len(used)-1-r.IntN(min(3, len(used)))]
			want[key] = old.DL()
			if r.IntN(2) == 0 {
				return sim.NewCtx(old.DL())
			}
			return old
		}
		defer func() { used = append(used, ctx) }()
		var dl time.Time
		if r.IntN(5) > 0 {
			dl = sim.Far.Add(time.Duration(n) * time.Minute)
		}
		want[key] = dl
		return sim.NewCtx(dl)
	}
	s, err := NewSess(Opt{NoConn: true, RecvMax: uint16(srm)})
	if err != nil {
		return
	}
	k.Log(s.Conn.Log)
	// CONNECT, and the wait for its answer.
	cctx := mk("CONNECT")
	s.Conn.Send(&wire.Packet{Type: wire.CONNACK, Props: []wire.Prop{{ID: 0x21, N: uint32(srm)}}})
	badRead := ""
	s.Conn.OnRead = func(int) {
		if d, _ := s.Conn.DeadlinesLocked(); !sameTime(d, cctx.DL()) {
			badRead = fmt.Sprintf("the answer to CONNECT was read under deadline %v, the context's is %v", d, cctx.DL())
		}
	}
	if err := s.C.Connect(cctx, &packets.Connect{Version: packets.MQTT5, ClientId: "c"}); err != nil {
		return
	}
	if badRead != "" {
		k.Fail("wrong deadline: CONNECT", "%s", badRead)
		return
	}
	s.Conn.OnRead = nil
	rr := rand.New(rand.NewPCG(r.Uint64(), 3))
	s.Conn.OnPacket = func(p *wire.Packet) { autoAck(s.Conn, p) }
	if r.IntN(2) == 0 {
		s.Conn.SplitW = func(n int) int { mu.Lock(); defer mu.Unlock(); return 1 + rr.IntN(n) }
	}
	if r.IntN(2) == 0 { // every SetDeadline is a point where others can run
		s.Conn.Hook = func(string) { sim.Yield(2) }
	}
	var ops []*sim.Op
	for g, lim := 0, 1+r.IntN(5); g < lim; g++ {
		kinds := make([]int, 1+r.IntN(4))
		for j := range kinds {
			kinds[j] = r.IntN(6)
		}
		ops = append(ops, sim.Go(fmt.Sprintf("caller %d", g), func() error {
			for j, kind := range kinds {
				name := fmt.Sprintf("%d/%d", g, j)
				var err error
				switch kind {
				case 0, 1, 2:
					err = s.C.Publish(mk("P"+name), pub(kind, name, nil))
				case 3:
					err = s.C.Subscribe(mk("S"+name), []mqtt.Topic{topicOf(name, 0, nil)})
				case 4:
					err = s.C.Unsubscribe(mk("U"+name), []string{name})
				case 5:
					err = s.C.KeepAlive()
				}
				if err != nil {
					return fmt.Errorf("%s: %w", name, err)
				}
			}
			return nil
		}))
	}
	if err := sim.Drive(s.Poll, ops...); err != nil {
		return // C13, C21
	}
	for _, o := range ops {
		if o.Err != nil || o.Panic != "" {
			k.Fail("call fails", "%s: %v %s", o.Name, o.Err, o.Panic)
			return
		}
	}
	s.Conn.Hook = nil
	op := sim.Go("Disconnect", func() error { return s.C.Disconnect(mk("DISCONNECT"), r.IntN(2) == 0) })
	if sim.Await(op) != nil || op.Err != nil {
		return
	}
	for _, o := range s.Conn.Packets() {
		key := ""
		switch o.P.Type {
		case wire.CONNECT:
			key = "CONNECT"
		case wire.DISCONNECT:
			key = "DISCONNECT"
		case wire.PUBLISH:
			key = "P" + o.P.Topic
		case wire.SUBSCRIBE:
			key = "S" + o.P.Subs[0].Filter
		case wire.UNSUBSCRIBE:
			key = "U" + o.P.Subs[0].Filter
		default:
			continue
		}
		w, ok := want[key]
		if !ok {
			k.Fail("packet nobody asked for", "%v", o.P)
			continue
		}
		if !sameTime(o.Start, w) || !sameTime(o.Deadline, w) {
			k.Fail("wrong deadline: "+wire.TypeNames[o.P.Type], "%v was written under deadlines %v (first byte) and %v (last byte), its context's is %v", o.P, o.Start, o.Deadline, w)
		}
		k.Count("deadlines compared", 1)
	}
	k.Distinct("deadlines", s.Conn.Log())
}

type lateCall struct {
	name string
	op   *sim.Op
	ctx  *sim.Ctx
	typ  int // acknowledgement it waits for; 0: quota
	id   uint16
	code byte
	gone bool // its context was ended
}

// c26Late ends the contexts of waiting calls and delivers the acknowledgements of abandoned calls while others wait.
func c26Late(k *Ck, r *rand.Rand) {
	srm := 1 + r.IntN(2)
	st := sim.NewStore(nil)
	var o Opt
	o.RecvMax = uint16(srm)
	if r.IntN(2) == 0 {
		o.Sim = st
	}
	o.Rng = rngs(r)
	var m *mon
	var ev mqtt.EventChannel
	o.Prepare = func(s *Sess) {
		m = newMon(s.Conn, o.Sim, srm)
		s.Conn.OnPacket = m.wrote
		ev = s.C.CreateEventChannel(500)
	}
	s, err := NewSess(o)
	if err != nil {
		return
	}
	k.Log(s.Conn.Log)
	// The quota is used up, so that every further Publish waits.
	for i := 0; i < srm; i++ {
		op := sim.Go("Publish", func() error { return s.C.Publish(sim.NewCtx(sim.Far), pub(1, "held", nil)) })
		if sim.Await(op) != nil || op.Err != nil {
			return
		}
	}
	var calls []*lateCall
	trace := ""
	start := func() bool {
		c := &lateCall{ctx: sim.NewCtx([]time.Time{{}, sim.Far}[r.IntN(2)]), code: []byte{0, 0, 0x80, 0x87}[r.IntN(4)]}
		before := s.Conn.NumOut()
		switch r.IntN(3) {
		case 0:
			q := 1 + r.IntN(2)
			c.name = "Publish"
			c.op = sim.Go(c.name, func() error { return s.C.Publish(c.ctx, pub(q, "waiting", nil)) })
		case 1:
			c.name, c.typ = "Subscribe", wire.SUBACK
			c.op = sim.Go(c.name, func() error { return s.C.Subscribe(c.ctx, []mqtt.Topic{topicOf("f", 0, nil)}) })
		case 2:
			c.name, c.typ = "Unsubscribe", wire.UNSUBACK
			c.op = sim.Go(c.name, func() error { return s.C.Unsubscribe(c.ctx, []string{"f"}) })
		}
		trace += "start " + c.name + ";"
		sim.Settle(c.op)
		if c.op.Done() || (s.Conn.NumOut() != before) != (c.typ != 0) {
			return false // not what this case is about
		}
		if c.typ != 0 {
			c.id, _ = lastID(s)
			trace += fmt.Sprintf("id %d;", c.id)
		}
		calls = append(calls, c)
		return true
	}
	check := func(why string, may *lateCall) bool {
		var ops []*sim.Op
		for _, c := range calls {
			ops = append(ops, c.op)
		}
		sim.Settle(ops...)
		for _, c := range calls {
			if c.op.Done() && !c.gone && c != may {
				k.Fail("another call is disturbed by "+why, "%s (id %d) returned %v when %s: %s", c.name, c.id, c.op.Err, why, trace)
				return false
			}
		}
		return true
	}
	for step, lim := 0, 4+r.IntN(16); step < lim; step++ {
		if len(calls) == 0 || r.IntN(3) == 0 && len(calls) < 6 {
			if !start() {
				return
			}
			continue
		}
		i := r.IntN(len(calls))
		c := calls[i]
		switch {
		case !c.gone && (c.typ == 0 || r.IntN(2) == 0): // its context ends
			out := s.Conn.Bytes()
			c.gone = true
			e := []error{context.Canceled, context.DeadlineExceeded}[r.IntN(2)]
			trace += fmt.Sprintf("context of %s %d ends;", c.name, c.id)
			c.ctx.End(e)
			if err := sim.Await(c.op); err != nil {
				k.Fail(c.name+" ignores its context", "%v", err)
				return
			}
			if c.op.Panic != "" {
				k.Fail("panic", "%s", c.op.Panic)
				return
			}
			if c.op.Err == nil {
				k.Fail(c.name+" succeeds when its context ends", "%s returned nil: %s", c.name, trace)
				return
			}
			if n := s.Conn.Bytes(); n != out {
				k.Fail("written after the context was done", "%s wrote %d bytes after its context was done", c.name, n-out)
				return
			}
			if !check("the context of another call ends", nil) {
				return
			}
			k.Count("contexts ended during a wait", 1)
			if c.typ == 0 {
				calls = append(calls[:i], calls[i+1:]...)
			}
		case c.typ == 0:
		default: // its acknowledgement arrives, in time or late
			calls = append(calls[:i], calls[i+1:]...)
			drain(ev)
			trace += fmt.Sprintf("%s %d arrives (abandoned: %v);", wire.TypeNames[c.typ], c.id, c.gone)
			s.Conn.Send(&wire.Packet{Type: c.typ, ID: c.id, Codes: []byte{c.code}})
			if err := s.PollAll(); err != nil {
				k.Fail("acknowledgement breaks Poll", "Poll returned %v: %s", err, trace)
				return
			}
			if c.gone {
				k.Count("late acknowledgements", 1)
				if !check("a late acknowledgement", nil) {
					return
				}
				if es, _ := drain(ev); len(es) != 1 || int(es[0].PacketType) != c.typ {
					k.Fail("late acknowledgement not signalled", "%d events for a late %s", len(es), wire.TypeNames[c.typ])
				}
			} else {
				if err := sim.Await(c.op); err != nil {
					k.Fail(c.name+" misses its acknowledgement", "%v: %s", err, trace)
					return
				}
				if d := wantCodes([]byte{c.code}, c.op.Err); d != "" {
					k.Fail(c.name+" returns the wrong result", "code %#x, returned %v: %s", c.code, c.op.Err, trace)
					return
				}
				if !check("an acknowledgement", nil) {
					return
				}
			}
		}
	}
	// Everything else is acknowledged; the client must be as good as new.
	for _, c := range calls {
		c.ctx.End(context.Canceled)
	}
	var ops []*sim.Op
	for _, c := range calls {
		ops = append(ops, c.op)
	}
	if err := sim.Await(ops...); err != nil {
		k.Fail("call ignores its context", "%v", err)
		return
	}
	for _, c := range calls {
		if c.typ != 0 {
			s.Conn.Send(&wire.Packet{Type: c.typ, ID: c.id, Codes: []byte{0}})
		}
	}
	for _, p := range s.Conn.Packets() {
		if p.P.Type == wire.PUBLISH {
			s.Conn.Send(&wire.Packet{Type: wire.PUBACK, ID: p.P.ID, Short: 2})
		}
	}
	if err := s.PollAll(); err != nil {
		k.Fail("acknowledgement breaks Poll", "Poll returned %v: %s", err, trace)
		return
	}
	if o.Sim != nil && len(st.IDs()) > 0 {
		k.Fail("storage left behind", "entries %v are left: %s", st.IDs(), trace)
	}
	if s.Conn.Closed() || !s.C.IsConnected() {
		k.Fail("not usable", "the client is not connected any more: %s", trace)
		return
	}
	k.probe(s, srm)
	k.Distinct("late", trace)
	if r.IntN(2000) == 0 {
		k.Sample("%s", trace)
	}
}

// c26Race ends contexts at the very moment the awaited packet is read or written.
func c26Race(k *Ck, r *rand.Rand) {
	s, err := NewSess(Opt{RecvMax: 1, Rng: rngs(r)})
	if err != nil {
		return
	}
	k.Log(s.Conn.Log)
	// Each call's context is ended by the hook when the n-th connection call happens.
	var mu sync.Mutex
	var live []*sim.Ctx
	countdown := 0
	s.Conn.Hook = func(string) {
		mu.Lock()
		countdown--
		var c *sim.Ctx
		if countdown <= 0 && len(live) > 0 {
			countdown = r.IntN(6)
			i := r.IntN(len(live))
			c = live[i]
			live = append(live[:i], live[i+1:]...)
		}
		mu.Unlock()
		if c != nil {
			c.End(os.ErrDeadlineExceeded)
		}
		sim.Yield(1)
	}
	mk := func() *sim.Ctx {
		c := sim.NewCtx(sim.Far)
		mu.Lock()
		live = append(live, c)
		mu.Unlock()
		return c
	}
	acked := map[string]bool{}
	s.Conn.OnPacket = func(p *wire.Packet) {
		switch p.Type {
		case wire.SUBSCRIBE:
			s.Conn.SendMarkLocked(&wire.Packet{Type: wire.SUBACK, ID: p.ID, Codes: []byte{0}}, func() { acked["S"+p.Subs[0].Filter] = true })
		case wire.UNSUBSCRIBE:
			s.Conn.SendMarkLocked(&wire.Packet{Type: wire.UNSUBACK, ID: p.ID, Codes: []byte{0}}, func() { acked["U"+p.Subs[0].Filter] = true })
		default:
			autoAck(s.Conn, p)
		}
	}
	type res struct {
		key string
		err error
	}
	var rmu sync.Mutex
	var results []res
	var ops []*sim.Op
	for g, lim := 0, 2+r.IntN(4); g < lim; g++ {
		kinds := make([]int, 1+r.IntN(5))
		for j := range kinds {
			kinds[j] = 1 + r.IntN(4)
		}
		ops = append(ops, sim.Go(fmt.Sprintf("caller %d", g), func() error {
			for j, kind := range kinds {
				name := fmt.Sprintf("%d/%d", g, j)
				key := "P" + name
				var err error
				switch kind {
				case 1, 2:
					err = s.C.Publish(mk(), pub(kind, name, nil))
				case 3:
					key = "S" + name
					err = s.C.Subscribe(mk(), []mqtt.Topic{topicOf(name, 0, nil)})
				case 4:
					key = "U" + name
					err = s.C.Unsubscribe(mk(), []string{name})
				}
				rmu.Lock()
				results = append(results, res{key, err})
				rmu.Unlock()
			}
			return nil
		}))
	}
	if err := sim.Drive(s.Poll, ops...); err != nil {
		if stuckErr(err) != nil {
			k.Fail("stuck", "%v", err)
		}
		return
	}
	for _, o := range ops {
		if o.Panic != "" {
			k.Fail("panic", "%s", o.Panic)
			return
		}
	}
	mu.Lock()
	live = nil
	mu.Unlock()
	if err := s.PollAll(); err != nil {
		k.Fail("Poll fails", "%v", err)
		return
	}
	wrote := map[string]int{}
	for _, o := range s.Conn.Packets() {
		switch o.P.Type {
		case wire.PUBLISH:
			wrote["P"+o.P.Topic]++
		case wire.SUBSCRIBE:
			wrote["S"+o.P.Subs[0].Filter]++
		case wire.UNSUBSCRIBE:
			wrote["U"+o.P.Subs[0].Filter]++
		}
	}
	for _, x := range results {
		switch {
		case x.err == nil && wrote[x.key] != 1:
			k.Fail("success without packet", "%s returned nil, its packet was written %d times", x.key, wrote[x.key])
		case x.err != nil && x.key[0] == 'P' && wrote[x.key] != 0:
			k.Fail("error although published", "%s returned %v but its PUBLISH was written", x.key, x.err)
		case x.err == nil && x.key[0] != 'P' && !acked[x.key]:
			k.Fail("success without acknowledgement", "%s returned nil before its acknowledgement", x.key)
		}
		if x.err != nil {
			k.Count("contexts ended in a race", 1)
		}
	}
	s.Conn.Hook = nil
	s.Conn.Lock()
	s.Conn.OnPacket = nil
	s.Conn.Unlock()
	if !s.C.IsConnected() {
		k.Fail("not usable", "the client is not connected any more")
		return
	}
	k.probe(s, 1)
	k.Distinct("race", s.Conn.Log())
}
