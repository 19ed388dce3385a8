package checks

import (
	"context"
	"fmt"
	"math/rand/v2"
	"sync"
	"testing"

	"verif/harness/sim"
	"verif/harness/wire"
)

func TestC13(t *testing.T) {
	k := Start(t, "C13", "random histories of publishes, acknowledgements, refusals, cancellations and failing writes in small steps, and "+
		"concurrent publishers against a broker that acknowledges late; unacknowledged packets are counted on the wire as each is written, "+
		"waiting callers are found by stop-the-world snapshots")
	k.Cases("world", k.N(16000, 160000), func(i int, r *rand.Rand) {
		p := Profile{SRM: []int{1, 1, 2, 3, 5}[r.IntN(5)], CRM: 65535, UseStore: r.IntN(2) == 0, Steps: 10 + r.IntN(60), MaxWait: 4,
			Frag: r.IntN(2) == 0, Rng: rngs,
			W: map[string]int{"pub0": 1, "pub1": 8, "pub2": 8, "deliver": 14, "ack": 12, "noise": 4, "in1": 1, "in2": 1, "rel": 1, "ping": 1,
				"cancel": 3, "sub": 1, "suback": 1, "cut": 1, "failwrite": 2, "ackleft": 1}}
		newWorld(k, r, p).run()
	})
	k.Cases("stress", k.N(1200, 12000), func(i int, r *rand.Rand) { c13Stress(k, r) })
	k.Cases("fail", k.N(1200, 12000), func(i int, r *rand.Rand) { c13Fail(k, r) })
	k.Cases("ackfault", k.N(2400, 24000), func(i int, r *rand.Rand) { c13AckFault(k, r) })
	k.Cases("crowd", k.N(16, 96), func(i int, r *rand.Rand) { crowdOut(k, r) })
	k.Cases("default", k.N(2, 8), func(i int, r *rand.Rand) { c13Default(k, r, i) })
	k.End()
}

// lateBroker answers exchanges only when the client is idle, in random order.
type lateBroker struct {
	m    *mon
	r    *rand.Rand
	todo []*wire.Packet
	hold bool
}

func (b *lateBroker) attach(c *sim.Conn) {
	c.OnPacket = func(p *wire.Packet) {
		b.m.wrote(p)
		switch p.Type {
		case wire.PUBLISH:
			if p.QoS() == 1 {
				b.todo = append(b.todo, ackPkt(b.r, wire.PUBACK, p.ID, pubCode(b.r, 4)))
			} else if p.QoS() == 2 {
				b.todo = append(b.todo, ackPkt(b.r, wire.PUBREC, p.ID, pubCode(b.r, 4)))
			}
		case wire.PUBREL:
			b.todo = append(b.todo, ackPkt(b.r, wire.PUBCOMP, p.ID, 0))
		case wire.SUBSCRIBE:
			b.todo = append(b.todo, &wire.Packet{Type: wire.SUBACK, ID: p.ID, Codes: make([]byte, len(p.Subs))})
		case wire.UNSUBSCRIBE:
			b.todo = append(b.todo, &wire.Packet{Type: wire.UNSUBACK, ID: p.ID, Codes: make([]byte, len(p.Subs))})
		}
	}
	c.OnIdle = func() bool {
		if len(b.todo) == 0 || b.hold {
			return false
		}
		for n := 1 + b.r.IntN(3); n > 0 && len(b.todo) > 0; n-- {
			i := b.r.IntN(len(b.todo))
			p := b.todo[i]
			b.todo = append(b.todo[:i], b.todo[i+1:]...)
			b.m.sendLocked(p)
		}
		return true
	}
}

// monFail reports what the online monitor found.
func (k *Ck) monFail(s *Sess, m *mon) bool {
	s.Conn.Lock()
	bad := m.bad
	m.bad = nil
	s.Conn.Unlock()
	if err := s.Conn.StreamErr(false); err != nil && (k.ID == "C23" || k.ID == "C01") {
		k.Fail("malformed stream", "%v", err)
		return true
	}
	hit := false
	for _, b := range bad {
		hit = true
		if contains(b.props, k.ID) {
			k.Fail(b.sig, "%s", b.msg)
		}
	}
	return hit
}

func contains(props, id string) bool {
	for i := 0; i+3 <= len(props); i++ {
		if props[i:i+3] == id {
			return true
		}
	}
	return false
}

func c13Stress(k *Ck, r *rand.Rand) {
	srm := []int{1, 1, 2, 3, 7}[r.IntN(5)]
	var st *sim.Store
	if r.IntN(2) == 0 {
		st = sim.NewStore(nil)
	}
	var m *mon
	b := &lateBroker{r: rand.New(rand.NewPCG(r.Uint64(), 1))}
	s, err := NewSess(Opt{RecvMax: uint16(srm), Sim: st, Prepare: func(s *Sess) {
		m = newMon(s.Conn, st, srm)
		b.m = m
		b.attach(s.Conn)
	}})
	if err != nil {
		return
	}
	k.Log(s.Conn.Log)
	workers := 2 + r.IntN(5)
	var ops []*sim.Op
	var ctxs []*sim.Ctx
	var mu sync.Mutex
	ok, cancelled := 0, 0
	for g := 0; g < workers; g++ {
		seed := r.Uint64()
		n := 1 + r.IntN(8)
		ctx := sim.NewCtx(sim.Far)
		willCancel := r.IntN(5) == 0
		if willCancel {
			ctxs = append(ctxs, ctx)
		}
		ops = append(ops, sim.Go(fmt.Sprintf("publisher %d", g), func() error {
			q := rand.New(rand.NewPCG(seed, 2))
			for j := 0; j < n; j++ {
				err := s.C.Publish(ctx, pub(q.IntN(3), "t", []byte(fmt.Sprintf("%d.%d", g, j))))
				mu.Lock()
				if err == nil {
					ok++
				} else {
					cancelled++
				}
				mu.Unlock()
				if err != nil && !willCancel {
					return err
				}
				if err != nil {
					return nil
				}
			}
			return nil
		}))
	}
	polls := 0
	err = sim.Drive(func() (bool, error) {
		polls++
		if polls == 6 {
			for _, c := range ctxs {
				c.End(context.Canceled)
			}
		}
		return s.Poll()
	}, ops...)
	if k.monFail(s, m) {
		return
	}
	if st := stuckErr(err); st != nil {
		s.Conn.Lock()
		out := len(m.out)
		s.Conn.Unlock()
		k.Fail("waiter stuck", "%d of %d publishes are unacknowledged and the broker has acknowledged everything, but: %v", out, srm, st)
		return
	}
	if err != nil {
		k.Fail("valid traffic fails", "Poll returned %v", err)
		return
	}
	for _, o := range ops {
		if o.Panic != "" || o.Err != nil {
			k.Fail("valid Publish fails", "%s: %v %s", o.Name, o.Err, o.Panic)
			return
		}
	}
	// Bring everything to rest, then the whole quota must be there.
	if err := s.PollAll(); err != nil {
		k.Fail("valid traffic fails", "Poll returned %v", err)
		return
	}
	s.Conn.Lock()
	b.hold = true
	rest := len(m.out)
	s.Conn.Unlock()
	if rest != 0 {
		return // the stream was cut short by another defect
	}
	k.probe(s, srm)
	k.monFail(s, m)
	k.Count("stress publishes", ok)
	k.Count("stress cancelled", cancelled)
	k.Max("unacknowledged", m.maxQ)
	k.Distinct("stress", fmt.Sprint(s.Conn.Log()))
}

// probe checks that exactly srm publishes can be sent without acknowledgement.
func (k *Ck) probe(s *Sess, srm int) {
	ctx := sim.NewCtx(sim.Far)
	var ops []*sim.Op
	for i := 0; i <= srm; i++ {
		q := 1 + i%2
		ops = append(ops, sim.Go("probe", func() error { return s.C.Publish(ctx, pub(q, "probe", []byte{byte(i)})) }))
	}
	sim.Settle(ops...)
	n := 0
	for _, o := range ops {
		if o.Done() && o.Err == nil {
			n++
		}
	}
	if n < srm {
		k.Fail("quota lost", "everything was acknowledged, but only %d of %d publishes can be sent", n, srm)
	} else if n > srm {
		k.Fail("quota exceeded", "%d publishes were sent without acknowledgement, the Receive Maximum is %d", n, srm)
	}
	ctx.End(context.Canceled)
	if err := sim.Await(ops...); err != nil {
		if k.ID == "C26" {
			k.Fail("Publish ignores its context", "%v", err)
		}
	}
	k.Count("full quota probed", 1)
}

// c13Fail lets publishes fail in every way and checks that no quota is lost.
func c13Fail(k *Ck, r *rand.Rand) {
	srm := 1 + r.IntN(3)
	st := sim.NewStore(nil)
	var m *mon
	b := &lateBroker{r: rand.New(rand.NewPCG(r.Uint64(), 1))}
	s, err := NewSess(Opt{RecvMax: uint16(srm), Sim: st, Rng: seqRng(uint32(r.IntN(3))), Prepare: func(s *Sess) {
		m = newMon(s.Conn, nil, srm)
		b.m = m
		b.attach(s.Conn)
	}})
	if err != nil {
		return
	}
	k.Log(s.Conn.Log)
	point, bad := "", anyErr(r)
	s.Conn.Fault = func(p string) error {
		if p == point {
			return bad
		}
		return nil
	}
	st.Fault = s.Conn.Fault
	n := 1 + r.IntN(8)
	for i := 0; i < n; i++ {
		p := pub(1+r.IntN(2), "t", []byte{byte(i)})
		ctx := sim.NewCtx(sim.Far)
		kind := r.IntN(8)
		fails := true
		switch kind {
		case 0:
			point = "Write"
		case 1:
			point = "SetDeadline"
		case 2:
			point = "Store"
		case 3:
			point = "Get"
			fails = false // nothing says the storage must be asked
		case 4:
			p.ContentType = ps(string(make([]byte, 70000)))
		case 5:
			p.Topic = ""
		case 6:
			ctx.End(context.Canceled)
		default:
			fails = false
		}
		op, err := s.Run("Publish", func() error { return s.C.Publish(ctx, p) })
		point = ""
		if err != nil {
			if stuckErr(err) != nil {
				k.Fail("waiter stuck", "publish %d of kind %d: %v", i, kind, err)
			}
			return
		}
		if fails && op.Err == nil {
			k.Count("faults without effect", 1)
		}
		if op.Err != nil {
			k.Count("failed publishes", 1)
		}
	}
	if err := s.PollAll(); err != nil {
		k.Fail("valid traffic fails", "Poll returned %v", err)
		return
	}
	if k.monFail(s, m) {
		return
	}
	s.Conn.Lock()
	b.hold = true
	rest := len(m.out)
	s.Conn.Unlock()
	if rest == 0 {
		k.probe(s, srm)
	}
	k.monFail(s, m)
	k.Distinct("fail", fmt.Sprint(s.Conn.Log()))
}

// c13AckFault lets the storage fail while acknowledgements are processed: the server has freed the quota all the same.
func c13AckFault(k *Ck, r *rand.Rand) {
	srm := 1 + r.IntN(3)
	st := sim.NewStore(nil)
	var m *mon
	s, err := NewSess(Opt{RecvMax: uint16(srm), Sim: st, Prepare: func(s *Sess) {
		m = newMon(s.Conn, nil, srm)
		s.Conn.OnPacket = m.wrote
	}})
	if err != nil {
		return
	}
	k.Log(s.Conn.Log)
	fail, n := false, 0
	st.Fault = func(p string) error {
		if fail && r.IntN(2) == 0 {
			n++
			return anyErr(r)
		}
		return nil
	}
	for i, lim := 0, 1+r.IntN(8); i < lim; i++ {
		q := 1 + r.IntN(2)
		op, err := s.Run("Publish", func() error { return s.C.Publish(sim.NewCtx(sim.Far), pub(q, "t", []byte{byte(i)})) })
		if st := stuckErr(err); st != nil {
			k.Fail("waiter stuck", "everything was acknowledged, but: %v", st)
			return
		}
		if op.Err != nil {
			return
		}
		o := s.Conn.Packets()
		id := o[len(o)-1].P.ID
		poll := func(p *wire.Packet) bool {
			m.send(p)
			before := n
			fail = true
			err := s.PollAll()
			fail = false
			return err != nil && n == before || !s.C.IsConnected()
		}
		switch {
		case q == 1:
			if poll(ackPkt(r, wire.PUBACK, id, pubCode(r, 2))) {
				return
			}
		case r.IntN(2) == 0:
			if poll(ackPkt(r, wire.PUBREC, id, pubCode(r, 1))) {
				return
			}
		default:
			m.send(ackPkt(r, wire.PUBREC, id, 0))
			if s.PollAll() != nil || poll(ackPkt(r, wire.PUBCOMP, id, 0)) {
				return
			}
		}
		if err := s.PollAll(); err != nil {
			return
		}
	}
	if !k.monFail(s, m) {
		k.Count("storage faults in acknowledgements", n)
		k.probe(s, srm)
	}
	k.monFail(s, m)
	k.Distinct("ackfault", fmt.Sprint(s.Conn.Log()))
}

// c13Default: without a Receive Maximum in the CONNACK the limit is 65535, and no call waits below it.
func c13Default(k *Ck, r *rand.Rand, i int) {
	var m *mon
	rm := uint16(0)
	if i%2 == 1 {
		rm = 65535
	}
	n := uint32(0)
	s, err := NewSess(Opt{RecvMax: rm, ClntMax: uint16(1 + r.IntN(10)), Rng: func() uint32 { n++; return n }, Prepare: func(s *Sess) {
		m = newMon(s.Conn, nil, 65535)
		s.Conn.OnPacket = m.wrote
	}})
	if err != nil {
		return
	}
	bulk := sim.Go("65535 publishes", func() error {
		for i := 0; i < 65535; i++ {
			if err := s.C.Publish(sim.NewCtx(sim.Far), pub(1+i&1, "t", nil)); err != nil {
				return err
			}
			k.Beat()
		}
		return nil
	})
	if err := sim.Await(bulk); err != nil {
		k.Fail("waits although quota is free", "a Publish waits after %d of 65535: %v", len(m.out), err)
		return
	}
	if bulk.Err != nil {
		if k.monFail(s, m) {
			return
		}
		k.Fail("valid Publish fails", "publish %d of 65535 fails: %v", len(m.out)+1, bulk.Err)
		return
	}
	ctx := sim.NewCtx(sim.Far)
	over := sim.Go("publish 65536", func() error { return s.C.Publish(ctx, pub(1, "t", nil)) })
	zero := sim.Go("QoS 0", func() error { return s.C.Publish(ctx, pub(0, "t", nil)) })
	if err := sim.Await(zero); err != nil {
		k.Fail("QoS 0 publish held back", "%v", err)
		return
	}
	sim.Settle(over)
	if over.Done() && over.Err == nil {
		k.Fail("quota exceeded", "publish 65536 was sent without any acknowledgement")
		return
	}
	m.send(&wire.Packet{Type: wire.PUBACK, ID: firstQoS1(m), Short: 2})
	if over.Done() {
		return // refused for lack of identifiers: nothing to wait for
	}
	if err := sim.Drive(s.Poll, over); err != nil {
		k.Fail("waiter stuck", "%v", err)
		return
	}
	if over.Err != nil {
		k.Fail("valid Publish fails", "the 65536th publish returned %v after one was acknowledged", over.Err)
	}
	k.monFail(s, m)
	k.Count("default quota filled", 1)
	k.Max("unacknowledged", m.maxQ)
}

func firstQoS1(m *mon) uint16 {
	m.conn.Lock()
	defer m.conn.Unlock()
	for id, e := range m.out {
		if e.qos == 1 {
			return id
		}
	}
	return 0
}
