package checks

import (
	"context"
	"fmt"
	"math/rand/v2"
	"sync/atomic"

	"github.com/waj334/tinygo-mqtt/mqtt"
	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	"verif/harness/sim"
	"verif/harness/wire"
)

// c17Own leaves the choice of identifiers to the client's own generator.
func c17Own(k *Ck, r *rand.Rand) {
	var m *mon
	s, err := NewSess(Opt{OwnRng: true, Prepare: func(s *Sess) {
		m = newMon(s.Conn, nil, 65535)
		s.Conn.OnPacket = m.wrote
	}})
	if err != nil {
		return
	}
	k.Log(s.Conn.Log)
	n := 20 + r.IntN(700)
	ctx := sim.NewCtx(sim.Far)
	var ops []*sim.Op
	for j := 0; j < n; j++ {
		var op *sim.Op
		switch kind := r.IntN(20); kind {
		case 0:
			op = sim.Go("Subscribe", func() error { return s.C.Subscribe(ctx, []mqtt.Topic{topicOf("f", 0, nil)}) })
		case 1:
			op = sim.Go("Unsubscribe", func() error { return s.C.Unsubscribe(ctx, []string{"f"}) })
		default:
			op = sim.Go("Publish", func() error { return s.C.Publish(ctx, pub(1+kind%2, "t", nil)) })
		}
		sim.Settle(op)
		if op.Panic != "" {
			k.Fail("panic", "%s: %s", op.Name, op.Panic)
			return
		}
		if op.Done() && op.Err != nil {
			k.Fail("no identifier", "%s fails with %d exchanges in progress: %v", op.Name, j, op.Err)
			return
		}
		ops = append(ops, op)
	}
	k.monFail(s, m)
	k.Count("identifiers of the client's own generator", n)
	ctx.End(context.Canceled)
	sim.Await(ops...)
}

// c17Direct fills the whole identifier space.
func c17Direct(k *Ck) {
	k.Cases("own generator", k.N(200, 2000), func(i int, r *rand.Rand) { c17Own(k, r) })
	k.Cases("exhaust", k.N(8, 32), func(i int, r *rand.Rand) {
		var m *mon
		n := uint32(r.IntN(1000))
		var st *sim.Store
		if i%2 == 0 {
			st = sim.NewStore(nil)
		}
		next := func() uint32 { n++; return n }
		s, err := NewSess(Opt{Sim: st, Rng: func() uint32 { return next() }, Prepare: func(s *Sess) {
			m = newMon(s.Conn, nil, 65535)
			s.Conn.OnPacket = m.wrote
		}})
		if err != nil {
			return
		}
		k.Log(s.Conn.Log)
		fill := 65535 - r.IntN(3)
		bulk := sim.Go("fill", func() error {
			for j := 0; j < fill; j++ {
				if err := s.C.Publish(sim.NewCtx(sim.Far), pub(1+j%2, "t", nil)); err != nil {
					return err
				}
				k.Beat()
			}
			return nil
		})
		if sim.Await(bulk) != nil {
			return
		}
		next = r.Uint32
		if k.monFail(s, m) {
			return
		}
		if bulk.Err != nil {
			k.Fail("free identifiers not found", "publish %d fails although identifiers are free: %v", len(m.out)+1, bulk.Err)
			return
		}
		// Free a few identifiers: exactly these can be used again.
		freed := map[uint16]bool{}
		for j, lim := 0, 1+r.IntN(4); j < lim; j++ {
			id := uint16(1 + r.IntN(65535))
			s.Conn.Lock()
			e := m.out[id]
			s.Conn.Unlock()
			if e == nil || freed[id] {
				continue
			}
			freed[id] = true
			switch {
			case e.qos == 1:
				m.send(ackPkt(r, wire.PUBACK, id, pubCode(r, 3)))
			case r.IntN(2) == 0:
				m.send(ackPkt(r, wire.PUBREC, id, pubCode(r, 1)))
			default:
				m.send(ackPkt(r, wire.PUBREC, id, 0))
				m.send(ackPkt(r, wire.PUBCOMP, id, []byte{0, 0x92}[r.IntN(2)]))
			}
		}
		if err := s.PollAll(); err != nil {
			return
		}
		total := 65535 - fill + len(freed)
		ctx := sim.NewCtx(sim.Far)
		var ops []*sim.Op
		before := s.Conn.NumOut()
		for j := 0; j < total; j++ {
			var op *sim.Op
			switch r.IntN(3) {
			case 0:
				op = sim.Go("Publish", func() error { return s.C.Publish(ctx, pub(1+r.IntN(2), "t", nil)) })
			case 1:
				op = sim.Go("Subscribe", func() error { return s.C.Subscribe(ctx, []mqtt.Topic{topicOf("f", 0, nil)}) })
			default:
				op = sim.Go("Unsubscribe", func() error { return s.C.Unsubscribe(ctx, []string{"f"}) })
			}
			sim.Settle(op)
			ops = append(ops, op)
			if op.Done() && op.Err != nil {
				k.Fail("free identifiers not found", "%s fails although %d identifiers are free: %v", op.Name, total-j, op.Err)
			}
		}
		if k.monFail(s, m) {
			return
		}
		if s.Conn.NumOut() != before+total {
			k.Fail("free identifiers not found", "%d of %d packets were written", s.Conn.NumOut()-before, total)
		}
		// Nothing is free now: whatever the call does, no identifier may be used twice.
		over := sim.Go("Unsubscribe", func() error { return s.C.Unsubscribe(ctx, []string{"g"}) })
		sim.Settle(over)
		k.monFail(s, m)
		k.Count("identifier space filled", 1)
		k.Count("identifiers checked", m.ids)
		k.Distinct("exhaust", i, n)
		ctx.End(errInjected)
		s.Conn.End(errInjected)
		s.Poll()
	})
	// Many callers meet while the first of them is held up, and their generator has the same number for all of them.
	k.Cases("crowd", k.N(3000, 30000), func(i int, r *rand.Rand) { c17Crowd(k, r) })
	// One or two identifiers are free, and become free again with every way an exchange can end.
	k.Cases("single", k.N(1600, 16000), func(i int, r *rand.Rand) { c17Single(k, i, r) })
	// Acknowledgements of the wrong kind do not release an identifier, and neither does giving up.
	k.Cases("abandon", k.N(4000, 20000), func(i int, r *rand.Rand) {
		var m *mon
		base := uint32(1 + r.IntN(5))
		s, err := NewSess(Opt{Rng: func() uint32 { return base }, Prepare: func(s *Sess) {
			m = newMon(s.Conn, nil, 65535)
			s.Conn.OnPacket = m.wrote
		}})
		if err != nil {
			return
		}
		k.Log(s.Conn.Log)
		var ops []*sim.Op
		for j, lim := 0, 3+r.IntN(8); j < lim; j++ {
			ctx := sim.NewCtx(sim.Far)
			var op *sim.Op
			switch r.IntN(4) {
			case 0:
				op = sim.Go("Publish", func() error { return s.C.Publish(ctx, pub(1+r.IntN(2), "t", nil)) })
			case 1:
				op = sim.Go("Unsubscribe", func() error { return s.C.Unsubscribe(ctx, []string{"f"}) })
			default:
				op = sim.Go("Subscribe", func() error { return s.C.Subscribe(ctx, []mqtt.Topic{topicOf("f", 0, nil)}) })
			}
			sim.Settle(op)
			if r.IntN(2) == 0 {
				ctx.End(errInjected)
				if sim.Await(op) != nil {
					return
				}
			}
			ops = append(ops, op)
			if r.IntN(3) == 0 {
				id := uint16(1 + r.IntN(10))
				p := []*wire.Packet{{Type: wire.SUBACK, ID: id, Codes: []byte{0}}, {Type: wire.UNSUBACK, ID: id, Codes: []byte{0}},
					{Type: wire.PUBACK, ID: id, Short: 2}, {Type: wire.PUBREC, ID: id, Reason: 0x80, Short: 1}, {Type: wire.PUBCOMP, ID: id, Short: 2}}[r.IntN(5)]
				m.sendExact(p)
				if s.PollAll() != nil {
					return
				}
			}
		}
		if k.monFail(s, m) {
			return
		}
		k.Count("identifiers checked", m.ids)
		k.Distinct("abandon", len(ops), s.Conn.Log())
		s.Conn.End(errInjected)
		s.Poll()
	})
}

// sendExact is send, except that a SUBACK only releases the identifier of a SUBSCRIBE and an UNSUBACK that of an
// UNSUBSCRIBE.
func (m *mon) sendExact(p *wire.Packet) {
	m.conn.Lock()
	kind := 0
	for _, o := range m.conn.Outs {
		if o.P.ID == p.ID && (o.P.Type == wire.SUBSCRIBE || o.P.Type == wire.UNSUBSCRIBE) {
			kind = o.P.Type
		}
	}
	m.conn.Unlock()
	if p.Type == wire.SUBACK && kind == wire.UNSUBSCRIBE || p.Type == wire.UNSUBACK && kind == wire.SUBSCRIBE {
		m.conn.Send(p)
		return
	}
	m.send(p)
}

type simStore = sim.Store

// crowdedStore is a storage that holds an entry for every identifier except a few.
type crowdedStore struct {
	*simStore
	free map[uint16]bool
	old  *packets.Publish
}

func (c *crowdedStore) Get(id uint16) (any, error) {
	if !c.free[id] && id != 0 {
		return c.old, nil
	}
	return c.simStore.Get(id)
}

func c17Single(k *Ck, i int, r *rand.Rand) {
	var m *mon
	free := []uint16{uint16(1 + r.IntN(65535))}
	switch r.IntN(6) {
	case 0:
		free[0] = 1
	case 1:
		free[0] = 65535
	case 2:
		free = append(free, free[0]%65535+1)
	}
	st := &crowdedStore{simStore: sim.NewStore(nil), free: map[uint16]bool{}, old: pub(1, "old", nil)}
	for _, f := range free {
		st.free[f] = true
	}
	s, err := NewSess(Opt{Store: st, Rng: func() uint32 {
		switch r.IntN(8) {
		case 0:
			return 0
		case 1:
			return uint32(free[0]) - 1
		case 2, 3:
			return uint32(free[0]) + 1
		case 4:
			return uint32(free[0])
		case 5:
			return 65535
		}
		return r.Uint32()
	}, Prepare: func(s *Sess) {
		m = newMon(s.Conn, nil, 65535)
		s.Conn.OnPacket = m.wrote
	}})
	if err != nil {
		return
	}
	st.simStore.Conn = s.Conn
	k.Log(s.Conn.Log)
	var tr []int
	for j := 0; j < 6; j++ {
		// All free identifiers are used ...
		type use struct {
			op   *sim.Op
			ctx  *sim.Ctx
			kind int
			id   uint16
		}
		var uses []*use
		for range free {
			u := &use{ctx: sim.NewCtx(sim.Far), kind: r.IntN(4)}
			before := s.Conn.NumOut()
			switch u.kind {
			case 0, 1:
				u.op = sim.Go("Publish", func() error { return s.C.Publish(u.ctx, pub(1+u.kind, "t", nil)) })
			case 2:
				u.op = sim.Go("Subscribe", func() error { return s.C.Subscribe(u.ctx, []mqtt.Topic{topicOf("f", 0, nil)}) })
			default:
				u.op = sim.Go("Unsubscribe", func() error { return s.C.Unsubscribe(u.ctx, []string{"f"}) })
			}
			sim.Settle(u.op)
			if u.op.Panic != "" {
				k.Fail("panic", "%s: %s", u.op.Name, u.op.Panic)
				return
			}
			if s.Conn.NumOut() != before+1 {
				k.Fail("free identifiers not found", "round %d: only %v of all identifiers can be used, %d of them are in use, and %s does not find another: %v", j, free, len(uses), u.op.Name, u.op.Err)
				return
			}
			u.id = s.Conn.Packets()[before].P.ID
			if !st.free[u.id] {
				k.Fail("identifier of a stored PUBLISH reused", "round %d: %s uses identifier %d, the storage has a message for all but %v", j, u.op.Name, u.id, free)
				return
			}
			uses = append(uses, u)
		}
		// ... nothing more can be sent ...
		if r.IntN(2) == 0 {
			ctx := sim.NewCtx(sim.Far)
			over := sim.Go("Unsubscribe", func() error { return s.C.Unsubscribe(ctx, []string{"g"}) })
			sim.Settle(over)
			ctx.End(errInjected)
			if sim.Await(over) != nil {
				return
			}
		}
		if k.monFail(s, m) {
			return
		}
		// ... and each exchange ends.
		for _, u := range uses {
			way := r.IntN(4)
			tr = append(tr, u.kind*4+way)
			switch u.kind {
			case 0:
				m.send(ackPkt(r, wire.PUBACK, u.id, []byte{0, 0x10, 0x80, pubCode(r, 1)}[way]))
			case 1:
				if way < 2 {
					m.send(ackPkt(r, wire.PUBREC, u.id, []byte{0x80, pubCode(r, 1)}[way]))
				} else {
					m.send(ackPkt(r, wire.PUBREC, u.id, []byte{0, 0x10}[way-2]))
					m.send(ackPkt(r, wire.PUBCOMP, u.id, []byte{0, 0x92}[r.IntN(2)]))
				}
			default:
				p := &wire.Packet{Type: wire.SUBACK, ID: u.id, Codes: []byte{[]byte{0, 0x80, 0, 0}[way]}}
				if u.kind == 3 {
					p.Type = wire.UNSUBACK
				}
				if way == 3 {
					p.Codes = make([]byte, 2) // for another number of topics
				}
				if way >= 2 && r.IntN(2) == 0 {
					u.ctx.End(errInjected) // the answer comes late
					if sim.Await(u.op) != nil {
						return
					}
				}
				m.send(p)
			}
		}
		if err := s.PollAll(); err != nil {
			return
		}
		for _, u := range uses {
			if sim.Await(u.op) != nil {
				return
			}
		}
		k.Count("last identifiers reused", len(uses))
	}
	k.Count("identifiers checked", m.ids)
	k.Distinct("single", free, tr)
	s.Conn.End(errInjected)
	s.Poll()
}

// c17Crowd holds up one call in the middle and starts others meanwhile: each of them finds its own free identifier.
func c17Crowd(k *Ck, r *rand.Rand) {
	var m *mon
	var st *sim.Store
	if r.IntN(2) == 0 {
		st = sim.NewStore(nil)
	}
	srm := []int{2, 4, 65535}[r.IntN(3)]
	base, span, n := uint32(1+r.IntN(5)), uint32(1+r.IntN(2)), uint32(0)
	s, err := NewSess(Opt{Sim: st, RecvMax: uint16(srm), Rng: func() uint32 { n++; return base + n%span }, Prepare: func(s *Sess) {
		m = newMon(s.Conn, st, srm)
		s.Conn.OnPacket = m.wrote
	}})
	if err != nil {
		return
	}
	k.Log(s.Conn.Log)
	at := []string{"Write", "SetDeadline", "Store", "Get"}[r.IntN(4)]
	if st == nil {
		at = []string{"Write", "SetDeadline"}[r.IntN(2)]
	}
	gate := make(chan struct{})
	var held atomic.Bool
	hook := func(p string) {
		if p == at && held.CompareAndSwap(false, true) {
			<-gate
		}
	}
	s.Conn.Hook = hook
	if st != nil {
		st.Hook = hook
	}
	ctx := sim.NewCtx(sim.Far)
	var ops, pubs []*sim.Op
	for j, lim := 0, 2+r.IntN(6); j < lim; j++ {
		kind := r.IntN(5)
		if j == 0 {
			kind = 0
		}
		var op *sim.Op
		switch kind {
		case 0, 1, 2:
			p := pub(1+r.IntN(2), "t", []byte{byte(j)})
			op = sim.Go("Publish", func() error { return s.C.Publish(ctx, p) })
			pubs = append(pubs, op)
		case 3:
			op = sim.Go("Subscribe", func() error { return s.C.Subscribe(ctx, []mqtt.Topic{topicOf("f", 0, nil)}) })
		default:
			op = sim.Go("Unsubscribe", func() error { return s.C.Unsubscribe(ctx, []string{"f"}) })
		}
		ops = append(ops, op)
		sim.Settle(ops...)
	}
	if held.Load() {
		k.Count("crowds behind a held "+at, 1)
	}
	close(gate)
	// The server acknowledges in any order until all are through.
	for round := 0; round < 200; round++ {
		sim.Settle(ops...)
		if k.monFail(s, m) {
			return
		}
		var waiting []*sim.Op
		for _, op := range ops {
			if !op.Done() {
				waiting = append(waiting, op)
			} else if op.Err != nil || op.Panic != "" {
				k.Fail("valid call fails", "%s returned %v %s although identifiers are free", op.Name, op.Err, op.Panic)
				return
			}
		}
		if len(waiting) == 0 {
			break
		}
		s.Conn.Lock()
		e := randExch(r, m.out)
		id, ok := randKey(r, m.ctl)
		typ := m.ctl[id]
		s.Conn.Unlock()
		switch {
		case ok && (e == nil || r.IntN(2) == 0):
			m.send(&wire.Packet{Type: typ, ID: id, Codes: []byte{0}})
		case e == nil:
			k.Fail("stuck", "%d calls wait although everything was acknowledged", len(waiting))
			return
		case e.qos == 1:
			m.send(ackPkt(r, wire.PUBACK, e.id, 0))
		case !e.rec:
			m.send(ackPkt(r, wire.PUBREC, e.id, 0))
		default:
			m.send(ackPkt(r, wire.PUBCOMP, e.id, 0))
		}
		if err := s.PollAll(); err != nil {
			k.Fail("Poll fails", "%v", err)
			return
		}
	}
	k.Count("identifiers checked", m.ids)
	k.Distinct("crowd", fmt.Sprint(s.Conn.Log()))
	ctx.End(errInjected)
	s.Conn.End(errInjected)
	s.Poll()
}
