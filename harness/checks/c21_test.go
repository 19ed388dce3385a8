package checks

import (
	"context"
	"fmt"
	"io"
	"math/rand/v2"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/waj334/tinygo-mqtt/mqtt"
	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	"verif/harness/sim"
	"verif/harness/wire"
)

func TestC21(t *testing.T) {
	k := Start(t, "C21", "every pair of operations, the first stopped at each of its calls to the connection, storage or generator while the second starts; "+
		"a fault injected into each such call; and random histories with failing writes and cut connections. Being stuck is proved by a "+
		"stop-the-world snapshot with Poll idle; afterwards the client is queried, disconnected and closed")
	x, y := c21Ops(), c21Ops()
	points := []string{"SetDeadline", "Read", "Write", "MidWrite", "Close", "Store", "Get", "Drop", "rng", "ctx.Err", "ctx.Done", "ctx.Deadline", "ctx end"}
	n := len(x) * len(points) * len(y)
	k.Cases("pair", n*k.N(1, 3), func(i int, r *rand.Rand) {
		nth := 1 + i/n
		i %= n
		c21Pair(k, r, i%len(x), points[i/len(x)%len(points)], nth, i/len(x)/len(points), false)
	})
	points = points[:9]
	f := len(x) * len(points) * 4
	k.Cases("fault", f*k.N(6, 60), func(i int, r *rand.Rand) {
		c21Pair(k, r, i%len(x), points[i/len(x)%len(points)], 1+i/len(x)/len(points)%4, r.IntN(len(y)), true)
	})
	k.Cases("world", k.N(8000, 80000), func(i int, r *rand.Rand) {
		p := Profile{SRM: 1 + r.IntN(3), CRM: []int{1, 65535}[r.IntN(2)], UseStore: r.IntN(2) == 0, Steps: 10 + r.IntN(50), MaxWait: 4, Frag: r.IntN(2) == 0, Rng: rngs,
			W: map[string]int{"pub0": 1, "pub1": 5, "pub2": 5, "sub": 3, "unsub": 2, "deliver": 12, "ack": 8, "suback": 4, "noise": 2, "in1": 1, "in2": 2, "rel": 2,
				"ping": 1, "cancel": 3, "cut": 3, "failwrite": 5, "ackleft": 1}}
		newWorld(k, r, p).run()
	})
	k.Cases("expired", k.N(16, 160), func(i int, r *rand.Rand) { c21Expired(k, r, i) })
	k.Cases("full", 48*k.N(1, 4), func(i int, r *rand.Rand) { c21Full(k, r, i) })
	k.Cases("storm", k.N(2400, 24000), func(i int, r *rand.Rand) { c21Storm(k, r) })
	k.End()
}

// c21Op is an operation with what has to happen before it.
type c21Op struct {
	name string
	poll bool // it is a Poll
	prep func(e *c21Env)
	f    func(e *c21Env) error
}

type c21Env struct {
	s     *Sess
	extra []*sim.Op // calls started by prep
	ch    mqtt.EventChannel
	r     *rand.Rand
	mu    sync.Mutex
	ctxs  []*sim.Ctx // of the calls made since it was cleared
	hook  func(point string)
}

func (e *c21Env) far() context.Context {
	c := sim.NewCtx(sim.Far)
	c.Hook = e.hook
	e.mu.Lock()
	defer e.mu.Unlock()
	e.ctxs = append(e.ctxs, c)
	return c
}

// do runs a call to its end without polling.
func (e *c21Env) do(name string, f func() error) *sim.Op {
	op := sim.Go(name, f)
	sim.Settle(op)
	e.extra = append(e.extra, op)
	return op
}

func c21Ops() []c21Op {
	long := strings.Repeat("x", 70000)
	poll := func(name string, prep func(e *c21Env)) c21Op {
		return c21Op{"Poll " + name, true, prep, func(e *c21Env) error { return e.s.C.Poll(sim.PollCtx()) }}
	}
	send := func(p *wire.Packet) func(e *c21Env) {
		return func(e *c21Env) { e.s.Conn.Send(p) }
	}
	publish := func(q int) func(e *c21Env) {
		return func(e *c21Env) { e.do("Publish", func() error { return e.s.C.Publish(e.far(), pub(q, "prep", nil)) }) }
	}
	ops := []c21Op{
		{"Publish QoS 0", false, nil, func(e *c21Env) error { return e.s.C.Publish(e.far(), pub(0, "t", nil)) }},
		{"Publish QoS 1", false, nil, func(e *c21Env) error { return e.s.C.Publish(e.far(), pub(1, "t", nil)) }},
		{"Publish QoS 2", false, nil, func(e *c21Env) error { return e.s.C.Publish(e.far(), pub(2, "t", nil)) }},
		{"waiting Publish", false, publish(2), func(e *c21Env) error { return e.s.C.Publish(e.far(), pub(1, "t", nil)) }},
		{"invalid Publish", false, nil, func(e *c21Env) error { return e.s.C.Publish(e.far(), pub(1, "", nil)) }},
		{"done Publish", false, nil, func(e *c21Env) error {
			ctx := sim.NewCtx(sim.Far)
			ctx.End(context.Canceled)
			return e.s.C.Publish(ctx, pub(1, "t", nil))
		}},
		{"Subscribe", false, nil, func(e *c21Env) error { return e.s.C.Subscribe(e.far(), []mqtt.Topic{topicOf("f", 1, &e.ch)}) }},
		{"invalid Subscribe", false, nil, func(e *c21Env) error { return e.s.C.Subscribe(e.far(), []mqtt.Topic{topicOf(long, 1, nil)}) }},
		{"Unsubscribe", false, nil, func(e *c21Env) error { return e.s.C.Unsubscribe(e.far(), []string{"f", "g"}) }},
		{"invalid Unsubscribe", false, nil, func(e *c21Env) error { return e.s.C.Unsubscribe(e.far(), []string{long}) }},
		{"KeepAlive", false, nil, func(e *c21Env) error { return e.s.C.KeepAlive() }},
		{"Disconnect", false, nil, func(e *c21Env) error { return e.s.C.Disconnect(e.far(), true) }},
		{"Disconnect twice", false, nil, func(e *c21Env) error { e.s.C.Disconnect(e.far(), true); return e.s.C.Disconnect(e.far(), false) }},
		{"IsConnected", false, nil, func(e *c21Env) error { e.s.C.IsConnected(); e.s.C.KeepAliveInterval(); return nil }},
		{"event channels", false, nil, func(e *c21Env) error {
			c := e.s.C.CreateEventChannel(1)
			e.s.C.CloseEventChannel(c)
			e.s.C.CloseEventChannel(c)
			e.s.C.CloseEventChannel(e.ch)
			return nil
		}},
		{"SetStorage", false, nil, func(e *c21Env) error { e.s.C.SetStorage(e.s.Store); e.s.C.SetRngFn(seqRng(7)); return nil }},
		poll("idle", nil),
		poll("PUBLISH 0", send(&wire.Packet{Type: wire.PUBLISH, Topic: "f"})),
		poll("PUBLISH 1", send(&wire.Packet{Type: wire.PUBLISH, Topic: "f", Flags: 2, ID: 500})),
		poll("PUBLISH 2", send(&wire.Packet{Type: wire.PUBLISH, Topic: "f", Flags: 4, ID: 500})),
		poll("PUBLISH beyond the maximum", func(e *c21Env) {
			e.s.Conn.Send(&wire.Packet{Type: wire.PUBLISH, Topic: "f", Flags: 4, ID: 500})
			e.s.Conn.Send(&wire.Packet{Type: wire.PUBLISH, Topic: "f", Flags: 4, ID: 501})
			e.s.Conn.Send(&wire.Packet{Type: wire.PUBLISH, Topic: "f", Flags: 4, ID: 502})
			e.s.Poll()
			e.s.Poll()
		}),
		poll("PUBACK", publish(1)),
		poll("PUBREC", publish(2)),
		poll("PUBCOMP", func(e *c21Env) { publish(2)(e); e.s.Poll() }),
		poll("failing PUBREC", func(e *c21Env) {
			e.s.Conn.Lock()
			e.s.Conn.OnPacket = func(p *wire.Packet) {
				if p.Type == wire.PUBLISH && p.QoS() == 2 {
					e.s.Conn.SendLocked(&wire.Packet{Type: wire.PUBREC, ID: p.ID, Reason: 0x97, Short: 1})
					return
				}
				autoAck(e.s.Conn, p)
			}
			e.s.Conn.Unlock()
			publish(2)(e)
		}),
		poll("PUBREL", func(e *c21Env) {
			e.s.Conn.Send(&wire.Packet{Type: wire.PUBLISH, Topic: "f", Flags: 4, ID: 500})
			e.s.Poll()
		}),
		poll("unknown acknowledgements", func(e *c21Env) {
			for _, typ := range []int{wire.PUBREL, wire.PUBACK, wire.PUBCOMP, wire.PUBREC} {
				e.s.Conn.Send(&wire.Packet{Type: typ, ID: 600, Short: 2})
			}
			e.s.Conn.Send(&wire.Packet{Type: wire.SUBACK, ID: 601, Codes: []byte{0}})
			e.s.PollAll()
		}),
		poll("SUBACK", func(e *c21Env) {
			e.do("Subscribe", func() error { return e.s.C.Subscribe(e.far(), []mqtt.Topic{topicOf("f", 1, &e.ch)}) })
		}),
		poll("UNSUBACK", func(e *c21Env) {
			e.do("Unsubscribe", func() error { return e.s.C.Unsubscribe(e.far(), []string{"f"}) })
		}),
		poll("UNSUBACK of a bound channel", func(e *c21Env) {
			op := e.do("Subscribe", func() error { return e.s.C.Subscribe(e.far(), []mqtt.Topic{topicOf("f", 1, &e.ch)}) })
			sim.Drive(e.s.Poll, op)
			e.do("Unsubscribe", func() error { return e.s.C.Unsubscribe(e.far(), []string{"f"}) })
		}),
		poll("SUBACK of the wrong size", func(e *c21Env) {
			e.s.Conn.Lock()
			e.s.Conn.OnPacket = func(p *wire.Packet) {
				if p.Type == wire.SUBSCRIBE {
					e.s.Conn.SendLocked(&wire.Packet{Type: wire.SUBACK, ID: p.ID, Codes: []byte{0, 0, 0}})
					return
				}
				autoAck(e.s.Conn, p)
			}
			e.s.Conn.Unlock()
			e.do("Subscribe", func() error { return e.s.C.Subscribe(e.far(), []mqtt.Topic{topicOf("f", 1, &e.ch)}) })
		}),
		poll("PINGRESP", send(&wire.Packet{Type: wire.PINGRESP})),
		poll("AUTH", send(&wire.Packet{Type: wire.AUTH, Reason: 0x18})),
		poll("DISCONNECT", send(&wire.Packet{Type: wire.DISCONNECT, Reason: 0x8B, Short: 1})),
		poll("garbage", func(e *c21Env) { e.s.Conn.Feed([]byte{0x40, 1, 7}) }),
		poll("unexpected", func(e *c21Env) { e.s.Conn.Feed([]byte{0xC0, 0}) }),
		poll("end of stream", func(e *c21Env) { e.s.Conn.End(io.EOF) }),
		poll("cut packet", func(e *c21Env) { e.s.Conn.Feed([]byte{0x30, 9, 0, 1}); e.s.Conn.End(io.ErrUnexpectedEOF) }),
	}
	return append(ops, c21Op{"Connect", false, nil, nil})
}

// c21Pair runs operation xi, stopped at its nth call of a point (or failing there), with operation yi started meanwhile.
func c21Pair(k *Ck, r *rand.Rand, xi int, point string, nth int, yi int, fault bool) {
	if f := c21Prepare(k, r, xi, point, nth, yi, fault, 0); f != nil {
		f()
	}
}

// c21Expired is c21Pair for many clients whose server has been silent for longer than the keep-alive timeout allows.
func c21Expired(k *Ck, r *rand.Rand, i int) {
	n := len(c21Ops())
	var runs []func()
	for j := 0; j < 4*n; j++ {
		fault := r.IntN(3) == 0
		point := []string{"Close", "Write", "SetDeadline", "Read", "Store", "Get", "Drop", "rng"}[max(0, r.IntN(12)-4)]
		if f := c21Prepare(k, r, j%n, point, 1+r.IntN(2), r.IntN(n), fault, 1); f != nil {
			runs = append(runs, f)
		}
	}
	time.Sleep(2100 * time.Millisecond) // no verdict depends on it: a Poll too early just finds nothing
	for _, f := range runs {
		f()
		k.Count("pairs after the keep-alive timeout", 1)
	}
}

// c21Prepare brings a client into the state in which the pair is to run.
func c21Prepare(k *Ck, r *rand.Rand, xi int, point string, nth int, yi int, fault bool, ka uint16) func() {
	ops := c21Ops()
	x, y := ops[xi], ops[yi]
	if x.poll && y.poll || y.name == "Connect" {
		return nil
	}
	e := &c21Env{r: r}
	st := sim.NewStore(nil)
	var mu sync.Mutex
	armed := false
	n := nth
	hit := false
	ending := point == "ctx end" && !fault // the context ends, and the call is stopped as it notices
	if ending {
		point = "ctx.Err"
	}
	gate, reached := make(chan struct{}), make(chan struct{})
	at := func(p string) (stop bool) {
		mu.Lock()
		defer mu.Unlock()
		if !armed || p != point {
			return false
		}
		if n--; n == 0 {
			armed, hit = false, true
			return true
		}
		return false
	}
	hook := func(p string) {
		if !fault && at(p) {
			close(reached)
			<-gate
		}
	}
	bad := anyErr(r)
	flt := func(p string) error {
		if fault && at(p) {
			if p == "Read" {
				return errInjected
			}
			return bad
		}
		return nil
	}
	st.Hook, st.Fault = hook, flt
	cnt := uint32(10)
	var cm sync.Mutex
	opt := Opt{RecvMax: 1, ClntMax: 2, Sim: st, Expiry: 9, KA: ka, Rng: func() uint32 {
		hook("rng")
		cm.Lock()
		defer cm.Unlock()
		cnt++
		return cnt
	}, NoConn: x.name == "Connect", Prepare: func(s *Sess) {
		s.Conn.OnPacket = func(p *wire.Packet) { autoAck(s.Conn, p) }
		e.ch = s.C.CreateEventChannel(1)
		e.s = s
	}}
	s, err := NewSess(opt)
	if err != nil {
		return nil
	}
	k.Log(s.Conn.Log)
	if x.name == "Connect" {
		x.f = func(e *c21Env) error {
			return s.C.Connect(e.far(), &packets.Connect{Version: packets.MQTT5, ClientId: "c", ReceiveMaximum: 2})
		}
		s.Conn.Send(&wire.Packet{Type: wire.CONNACK, Props: []wire.Prop{{ID: 0x21, N: 1}}})
	} else if x.prep != nil {
		x.prep(e)
	}
	if y.prep != nil && x.name != "Connect" {
		y.prep(e)
	}
	partial := point == "MidWrite"
	s.Conn.Hook = hook
	s.Conn.Fault = flt
	if partial {
		if fault {
			s.Conn.WFault = func(n int) (int, error) {
				if n > 1 && at("MidWrite") {
					return 1 + r.IntN(n-1), bad
				}
				return 0, nil
			}
		} else {
			s.Conn.SplitW = func(n int) int { return (n + 1) / 2 }
		}
	}
	return func() {
		k.Log(s.Conn.Log)
		e.mu.Lock()
		e.ctxs = nil
		e.hook = hook
		e.mu.Unlock()
		mu.Lock()
		armed = !ending
		mu.Unlock()
		what := fmt.Sprintf("%s stopped at %s %d, %s meanwhile", x.name, point, nth, y.name)
		if fault {
			what = fmt.Sprintf("%s with %s %d failing, %s meanwhile", x.name, point, nth, y.name)
		}
		opX := sim.Go(x.name, func() error { return x.f(e) })
		if !fault {
			sim.Settle(opX)
			if ending && !opX.Done() {
				mu.Lock()
				armed = true
				mu.Unlock()
				e.mu.Lock()
				for _, c := range e.ctxs {
					c.End(context.Canceled)
				}
				e.mu.Unlock()
				what += " as its context ends"
				sim.Settle(opX)
			}
			select {
			case <-reached:
				k.Count("stopped at "+point, 1)
			default:
				mu.Lock()
				armed = false
				mu.Unlock()
			}
		} else if r.IntN(2) == 0 {
			sim.Settle(opX)
		}
		opY := sim.Go(y.name, func() error { return y.f(e) })
		if !fault {
			sim.Settle(opX, opY)
			close(gate)
		}
		all := append([]*sim.Op{opX, opY}, e.extra...)
		stuck := func(err error, when string) bool {
			if err == nil {
				return false
			}
			k.Fail("stuck: "+x.name+" / "+point, "%s: %s: %v", what, when, err)
			return true
		}
		// One Poll at a time.
		var polls []*sim.Op
		if x.poll {
			polls = append(polls, opX)
		}
		if y.poll {
			polls = append(polls, opY)
		}
		if stuck(sim.Await(polls...), "Poll") {
			return
		}
		err = sim.Drive(func() (bool, error) { idle, err := s.Poll(); return idle || err != nil, nil }, all...)
		if err != nil && hit && fault {
			// The fault may have cost a packet, so that the server does not answer. It must then be possible to end it.
			k.Count("calls left waiting by a fault", 1)
		} else if stuck(err, "with Poll being called") {
			return
		}
		mu.Lock()
		armed = false
		mu.Unlock()
		for _, o := range all {
			if o.Done() && o.Panic != "" {
				k.Fail("panic: "+x.name+" / "+point, "%s: %s panicked: %s", what, o.Name, o.Panic)
				return
			}
		}
		// The client can still be queried, disconnected and closed.
		after := []*sim.Op{
			sim.Go("IsConnected", func() error { s.C.IsConnected(); s.C.KeepAliveInterval(); return nil }),
			sim.Go("event channel", func() error { s.C.CloseEventChannel(s.C.CreateEventChannel(1)); return nil }),
			sim.Go("SetStorage", func() error { s.C.SetStorage(st); s.C.SetRngFn(seqRng(1)); return nil }),
		}
		if stuck(sim.Await(after...), "afterwards") {
			return
		}
		if r.IntN(2) == 0 {
			d := sim.Go("Disconnect", func() error { return s.C.Disconnect(e.far(), false) })
			if stuck(sim.Await(d), "disconnecting afterwards") {
				return
			}
		}
		s.Conn.End(io.EOF)
		pl := sim.Go("Poll", func() error {
			for i := 0; i < 100 && s.C.IsConnected(); i++ {
				if err := s.C.Poll(sim.PollCtx()); err != nil && !s.C.IsConnected() {
					return err
				}
			}
			return nil
		})
		if stuck(sim.Await(pl), "polling to the end") || stuck(sim.Await(all...), "after the connection ended") {
			return
		}
		if hit {
			k.Count("interrupted at "+point, 1)
			k.Distinct("pair", fault, what, s.Conn.Log())
		}
		k.Count("pairs", 1)
	}
}

// c21Storm lets everything run at once with random pauses and faults at every call.
func c21Storm(k *Ck, r *rand.Rand) {
	ops := c21Ops()
	st := sim.NewStore(nil)
	var mu sync.Mutex
	rr := rand.New(rand.NewPCG(r.Uint64(), 8))
	rate := []int{0, 0, 30, 200}[r.IntN(4)]
	faults := 0
	on := false
	hook := func(string) {
		mu.Lock()
		n := rr.IntN(4)
		mu.Unlock()
		sim.Yield(n)
	}
	flt := func(string) error {
		mu.Lock()
		defer mu.Unlock()
		if on && rate > 0 && rr.IntN(rate) == 0 {
			faults++
			return errInjected
		}
		return nil
	}
	e := &c21Env{r: r}
	st.Hook, st.Fault = hook, flt
	s, err := NewSess(Opt{RecvMax: uint16(1 + r.IntN(2)), ClntMax: 2, Sim: st, Prepare: func(s *Sess) {
		s.Conn.OnPacket = func(p *wire.Packet) { autoAck(s.Conn, p) }
		s.Conn.Hook, s.Conn.Fault = hook, flt
		e.ch = s.C.CreateEventChannel(1)
		e.s = s
	}})
	if err != nil {
		return
	}
	k.Log(s.Conn.Log)
	if r.IntN(2) == 0 {
		s.Conn.SplitW = func(n int) int { mu.Lock(); defer mu.Unlock(); return 1 + rr.IntN(n) }
	}
	mu.Lock()
	on = true
	mu.Unlock()
	var all []*sim.Op
	for g, lim := 0, 2+r.IntN(7); g < lim; g++ {
		seq := make([]c21Op, 1+r.IntN(6))
		for j := range seq {
			for {
				seq[j] = ops[r.IntN(len(ops))]
				if !seq[j].poll && seq[j].f != nil && (!strings.HasPrefix(seq[j].name, "Disconnect") || r.IntN(20) == 0) {
					break
				}
			}
		}
		all = append(all, sim.Go(fmt.Sprintf("caller %d", g), func() error {
			for _, o := range seq {
				o.f(e)
			}
			return nil
		}))
	}
	n := 0
	err = sim.Drive(func() (bool, error) {
		if n++; n < 40 && r.IntN(3) == 0 {
			s.Conn.Lock()
			q := r.IntN(3)
			p := &wire.Packet{Type: wire.PUBLISH, Topic: "f", Flags: byte(q << 1)}
			if q > 0 {
				p.ID = uint16(30000 + n)
			}
			s.Conn.SendLocked(p)
			s.Conn.Unlock()
		}
		idle, err := s.Poll()
		return idle || err != nil, nil
	}, all...)
	mu.Lock()
	fired := faults
	on = false
	mu.Unlock()
	if err != nil && fired == 0 {
		k.Fail("stuck: storm", "%v", err)
		return
	}
	if err != nil {
		k.Count("calls left waiting by a fault", 1)
	}
	d := sim.Go("Disconnect", func() error { s.C.IsConnected(); return s.C.Disconnect(e.far(), false) })
	if err := sim.Await(d); err != nil {
		k.Fail("stuck: storm", "Disconnect after %d faults: %v", fired, err)
		return
	}
	if err := sim.Await(all...); err != nil {
		k.Fail("stuck: storm", "after Disconnect (%d faults): %v", fired, err)
		return
	}
	for _, o := range all {
		if o.Panic != "" {
			k.Fail("panic: storm", "%s", o.Panic)
			return
		}
	}
	k.Count("storms", 1)
	k.Count("faults in storms", fired)
	k.Distinct("storm", s.Conn.Log())
}

// c21Full lets calls fail because there is no packet identifier left.
func c21Full(k *Ck, r *rand.Rand, i int) {
	st := sim.NewStore(nil)
	s, err := NewSess(Opt{Sim: st, RecvMax: uint16(1 + r.IntN(2)), Rng: seqRng(uint32(r.IntN(65536)))})
	if err != nil {
		return
	}
	k.Log(s.Conn.Log)
	s.Conn.Lock()
	s.Conn.OnPacket = func(p *wire.Packet) { autoAck(s.Conn, p) }
	s.Conn.Unlock()
	for id := 1; id < 65536; id++ {
		st.Preset(uint16(id), pub(1, "old", nil))
	}
	ctx := func() context.Context { return sim.NewCtx(sim.Far) }
	calls := []func() error{
		func() error { return s.C.Publish(ctx(), pub(1, "t", nil)) },
		func() error { return s.C.Publish(ctx(), pub(2, "t", nil)) },
		func() error { return s.C.Subscribe(ctx(), []mqtt.Topic{topicOf("f", 1, nil)}) },
		func() error { return s.C.Unsubscribe(ctx(), []string{"f"}) },
	}
	names := []string{"Publish QoS 1", "Publish QoS 2", "Subscribe", "Unsubscribe"}
	run := func(name string, f func() error) *sim.Op {
		op := sim.Go(name, f)
		if e := sim.Drive(func() (bool, error) { idle, err := s.Poll(); return idle || err != nil, nil }, op); e != nil || op.Panic != "" {
			k.Fail("stuck: "+name+" / no identifier left", "%s: %v %s", name, e, op.Panic)
			return nil
		}
		return op
	}
	x := i % 4
	op := run(names[x], calls[x])
	if op == nil {
		return
	}
	if op.Err == nil {
		k.Fail("succeeds without an identifier", "%s returned nil although every packet identifier is in use", names[x])
		return
	}
	k.Count("calls without an identifier left", 1)
	// One is free again.
	st.Unset(uint16(1 + r.IntN(65535)))
	for _, y := range []int{i / 4 % 4, x} {
		op := run(names[y]+" after that", calls[y])
		if op == nil {
			return
		}
		if op.Err != nil {
			k.Fail("unusable after running out of identifiers", "%s returned %v", names[y], op.Err)
			return
		}
		s.PollAll()
	}
	if run("IsConnected", func() error { s.C.IsConnected(); s.C.KeepAliveInterval(); return nil }) == nil {
		return
	}
	if i/16%3 == 0 {
		if op := run("KeepAlive", func() error { return s.C.KeepAlive() }); op == nil {
			return
		}
	}
	if op := run("Disconnect", func() error { return s.C.Disconnect(ctx(), false) }); op != nil && op.Err != nil {
		k.Fail("unusable after running out of identifiers", "Disconnect returned %v", op.Err)
	}
	k.Distinct("full", i)
}
