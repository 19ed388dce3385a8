package checks

import (
	"fmt"
	"math/rand/v2"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/waj334/tinygo-mqtt/mqtt"
	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	"verif/harness/sim"
	"verif/harness/wire"
)

// chModel is the model of one event channel: a bounded queue that is general until Subscribe binds it.
type chModel struct {
	ch      mqtt.EventChannel
	cap     int
	q       []*wire.Packet
	open    bool
	general bool
	missed  int
	idx     int
}

func (c *chModel) offer(p *wire.Packet) bool {
	if len(c.q) >= c.cap {
		c.missed++
		return false
	}
	c.q = append(c.q, p)
	return true
}

// chWorld drives one client's event channels against a model.
type chWorld struct {
	k     *Ck
	r     *rand.Rand
	s     *Sess
	m     *mon
	ch    []*chModel
	bind  map[string]*chModel
	trace []string
	n     int
	crm   int // the client's Receive Maximum
	held  int // incoming publishes that count against it
	ended bool
}

var chFilters = []string{"a", "a/b", "+/b", "#", "a/#", "+", "$s/x", "a/+", "+/+", "none"}
var chTopics = []string{"a", "a/b", "c/b", "$s/x", "x/y/z", "/b", "a/b/c", "none"}

func (w *chWorld) fail(props, sig, f string, a ...any) {
	if !w.ended && contains(props, w.k.ID) {
		w.k.Fail(sig, f+"\nhistory: "+strings.Join(w.trace, "; "), a...)
	}
	w.ended = true
}

func (w *chWorld) tr(f string, a ...any) { w.trace = append(w.trace, fmt.Sprintf(f, a...)) }

func (w *chWorld) create() {
	n := []int{-1, 0, 1, 1, 2, 3, 8, 50}[w.r.IntN(8)]
	c := &chModel{ch: w.s.C.CreateEventChannel(n), cap: max(1, n), open: true, general: true, idx: len(w.ch)}
	w.ch = append(w.ch, c)
	w.tr("create ch%d cap %d", c.idx, n)
}

// consume takes up to n events from a channel and compares them.
func (w *chWorld) consume(c *chModel, n int) {
	for i := 0; i < n && !w.ended; i++ {
		select {
		case e, ok := <-c.ch.C:
			if !ok {
				if c.open {
					w.fail("C09 C08", "open channel closed", "ch%d was closed", c.idx)
				} else if len(c.q) > 0 {
					w.fail("C08", "buffered event lost", "ch%d was closed with %v not delivered", c.idx, c.q)
				}
				return
			}
			if len(c.q) == 0 {
				props := "C08"
				if !c.open {
					props = "C08 C09"
				}
				w.fail(props, "event nobody sent to this channel", "ch%d (open %v, general %v) received %v unexpectedly", c.idx, c.open, c.general, view(e.Data))
				return
			}
			want := c.q[0]
			c.q = c.q[1:]
			if int(e.PacketType) != want.Type {
				w.fail("C08", "wrong event", "ch%d received type %d (%v), want %v", c.idx, e.PacketType, view(e.Data), want)
			} else if d := diffServer(e.Data, want); d != "" {
				w.fail("C08", "wrong event", "ch%d received %v, want %v: %s", c.idx, view(e.Data), want, d)
			}
			w.k.Count("events compared", 1)
		default:
			if len(c.q) > 0 {
				w.fail("C08 C09", "event missing", "ch%d (open %v, general %v) did not receive %v", c.idx, c.open, c.general, c.q[0])
			}
			return
		}
	}
}

// offerAll is the model of signalling.
func (w *chWorld) offerAll(p *wire.Packet) {
	if p.Type == wire.PINGRESP {
		return
	}
	done := map[*chModel]bool{}
	if p.Type == wire.PUBLISH {
		for f, c := range w.bind {
			if c.open && !done[c] && wire.Match(p.Topic, f) {
				done[c] = true
				c.offer(p)
			}
		}
	}
	for _, c := range w.ch {
		if c.open && c.general {
			if !c.offer(p) {
				w.k.Count("events missed by a full channel", 1)
			}
		}
	}
	if len(done) > 0 {
		w.k.Count("publishes routed to bound channels", 1)
	}
}

func (w *chWorld) feed(n int) {
	for i := 0; i < n; i++ {
		w.n++
		var p *wire.Packet
		switch w.r.IntN(10) {
		case 0:
			p = serverPacket(w.r, []int{wire.PUBACK, wire.PUBCOMP, wire.AUTH, wire.PINGRESP, wire.PINGRESP}[w.r.IntN(5)], 20)
		case 1:
			p = ackPkt(w.r, []int{wire.PUBACK, wire.PUBREC, wire.PUBREL, wire.PUBCOMP}[w.r.IntN(4)], uint16(30000+w.r.IntN(3)), 0)
		case 2:
			p = &wire.Packet{Type: []int{wire.SUBACK, wire.UNSUBACK}[w.r.IntN(2)], ID: uint16(30000), Codes: []byte{0}}
		default:
			p = &wire.Packet{Type: wire.PUBLISH, Topic: chTopics[w.r.IntN(len(chTopics))], Payload: []byte(fmt.Sprint(w.n))}
			if w.r.IntN(3) == 0 && w.held < w.crm {
				p.Flags, p.ID = 2|byte(w.r.IntN(3)/2)<<3, uint16(1+w.r.IntN(100))
			} else if w.r.IntN(4) == 0 && w.held < w.crm {
				p.Flags, p.ID = 4|byte(w.r.IntN(3)/2)<<3, uint16(40000+w.n%20000)
				w.held++
			}
			p.Flags |= byte(w.r.IntN(2))
		}
		w.tr("server %v", p)
		w.s.Conn.Send(p)
		w.offerAll(p)
		w.k.Count("packets signalled", 1)
		if w.r.IntN(16) == 0 {
			// The answer to this packet cannot be written, which does not undo that it was received.
			if !w.poll() {
				return
			}
			w.failWrite()
			return
		}
		if w.r.IntN(4) == 0 && !w.poll() {
			return
		}
	}
	w.poll()
}

// failWrite sends one more packet, the answer to which cannot be written.
func (w *chWorld) failWrite() {
	w.n++
	p := &wire.Packet{Type: wire.PUBLISH, Topic: chTopics[w.r.IntN(len(chTopics))], Payload: []byte(fmt.Sprint(w.n))}
	switch k := w.r.IntN(5); {
	case k < 2 && w.held < w.crm:
		p.Flags, p.ID = byte(2+2*k), uint16(20000+w.n%10000)
		w.held++
	case k < 4:
		p = ackPkt(w.r, wire.PUBREL, uint16(30000+w.r.IntN(3)), 0)
	default:
		p = ackPkt(w.r, wire.PUBREC, uint16(30000+w.r.IntN(3)), 0)
	}
	w.tr("server %v, answer cannot be written", p)
	n, e := 0, anyErr(w.r)
	w.s.Conn.WFault = func(l int) (int, error) {
		n++
		if w.r.IntN(2) == 0 {
			return w.r.IntN(l), e
		}
		return 0, e
	}
	w.s.Conn.Send(p)
	err := w.s.PollAll()
	w.s.Conn.WFault = nil
	w.offerAll(p)
	if n > 0 {
		w.k.Count("packets whose answer could not be written", 1)
	}
	if !w.s.C.IsConnected() {
		for _, c := range w.ch {
			w.consume(c, 1000)
		}
		w.ended = true
	} else if err != nil && n == 0 {
		w.fail("C08", "Poll fails", "Poll returned %v", err)
	}
}

func (w *chWorld) poll() bool {
	var err error
	if pan := sim.Catch(func() { err = w.s.PollAll() }); pan != "" {
		w.fail("C08 C09", "panic", "Poll panics: %s", pan)
		return false
	}
	if err != nil {
		w.fail("C08", "Poll fails", "Poll returned %v", err)
		return false
	}
	return true
}

func (w *chWorld) pickOpen() *chModel {
	var o []*chModel
	for _, c := range w.ch {
		if c.open {
			o = append(o, c)
		}
	}
	if len(o) == 0 {
		return nil
	}
	return o[w.r.IntN(len(o))]
}

func (w *chWorld) subscribe() {
	c := w.pickOpen()
	if c == nil {
		return
	}
	var ts []mqtt.Topic
	var cs []*chModel
	var fs []string
	n := 1 + w.r.IntN(3)
	perm := w.r.Perm(len(chFilters))
	for i := 0; i < n; i++ {
		d := c
		if w.r.IntN(4) == 0 {
			d = w.pickOpen()
		}
		f := chFilters[perm[i]]
		if w.r.IntN(5) == 0 && w.bind[f] == nil {
			for _, x := range w.ch {
				if !x.open {
					d = x
				}
			}
		}
		if !d.open {
			ts = append(ts, topicOf(f, 0, &d.ch))
			w.k.Count("subscribed with a closed channel", 1)
		} else if w.r.IntN(5) == 0 {
			d = nil
			ts = append(ts, topicOf(f, 0, nil))
		} else {
			// Whether the acknowledgement that binds a channel is still offered to it is left open: make room for it.
			w.consume(d, 1000)
			ts = append(ts, topicOf(f, 0, &d.ch))
		}
		cs, fs = append(cs, d), append(fs, f)
	}
	op := sim.Go("Subscribe", func() error { return w.s.C.Subscribe(sim.NewCtx(sim.Far), ts) })
	sim.Settle(op)
	id, ok := lastID(w.s)
	if !ok || op.Done() {
		w.fail("C18", "Subscribe", "Subscribe returned %v %s", op.Err, op.Panic)
		return
	}
	// A channel may be closed before its acknowledgement arrives. What becomes of another channel's binding to the same
	// filter is left open.
	if x := cs[w.r.IntN(len(cs))]; x != nil && x.open && w.r.IntN(6) == 0 {
		alone := true
		for i, f := range fs {
			if cs[i] == x && w.bind[f] != nil && w.bind[f] != x {
				alone = false
			}
		}
		if alone {
			w.closeCh(x)
			if w.ended {
				return
			}
			w.k.Count("channels closed while Subscribe waits", 1)
		}
	}
	ack := &wire.Packet{Type: wire.SUBACK, ID: id}
	binding := map[*chModel]bool{}
	for i := range fs {
		code := byte(0)
		if w.r.IntN(4) == 0 {
			code = 0x87
		} else if cs[i] != nil && cs[i].open {
			w.bind[fs[i]] = cs[i]
			if cs[i].general {
				binding[cs[i]] = true
			}
			cs[i].general = false
		}
		ack.Codes = append(ack.Codes, code)
	}
	w.tr("subscribe %v -> %v: % x", fs, chIdx(cs), ack.Codes)
	w.s.Conn.Send(ack)
	w.offerAll(ack)
	var err error
	if pan := sim.Catch(func() { err = sim.Drive(w.s.Poll, op) }); pan != "" || op.Panic != "" {
		w.fail("C09 C18", "panic", "Subscribe to %v: panic %s%s", fs, pan, op.Panic)
		return
	}
	if err != nil {
		w.fail("C18", "Subscribe", "Subscribe does not return")
		return
	}
	for c := range binding {
		ev, closed := drain(c.ch)
		if closed {
			w.fail("C09 C08", "open channel closed", "ch%d was closed by Subscribe", c.idx)
		}
		if len(ev) > 1 || len(ev) == 1 && int(ev[0].PacketType) != wire.SUBACK {
			w.fail("C08", "event nobody sent to this channel", "ch%d received %d events while it was bound", c.idx, len(ev))
		}
	}
}

func chIdx(cs []*chModel) string {
	s := ""
	for _, c := range cs {
		if c == nil {
			s += "none,"
		} else {
			s += fmt.Sprintf("ch%d,", c.idx)
		}
	}
	return s
}

func (w *chWorld) unsubscribe() {
	var fs []string
	for i, lim := 0, 1+w.r.IntN(4); i < lim; i++ {
		if len(w.bind) > 0 && w.r.IntN(4) > 0 {
			var keys []string
			for _, f := range chFilters {
				if w.bind[f] != nil {
					keys = append(keys, f)
				}
			}
			fs = append(fs, keys[w.r.IntN(len(keys))])
		} else {
			fs = append(fs, chFilters[w.r.IntN(len(chFilters))])
		}
	}
	op := sim.Go("Unsubscribe", func() error { return w.s.C.Unsubscribe(sim.NewCtx(sim.Far), fs) })
	sim.Settle(op)
	id, ok := lastID(w.s)
	if !ok || op.Done() {
		w.fail("C18", "Unsubscribe", "Unsubscribe returned %v %s", op.Err, op.Panic)
		return
	}
	ack := &wire.Packet{Type: wire.UNSUBACK, ID: id}
	closedNow := []*chModel{}
	for _, f := range fs {
		code := []byte{0, 0, 0, 0x11, 0x83}[w.r.IntN(5)]
		ack.Codes = append(ack.Codes, code)
		if code >= 0x80 {
			continue
		}
		c := w.bind[f]
		delete(w.bind, f)
		if c == nil {
			continue
		}
		last := true
		for _, d := range w.bind {
			if d == c {
				last = false
			}
		}
		if last {
			closedNow = append(closedNow, c)
			c.open = false
		}
	}
	w.tr("unsubscribe %v: % x", fs, ack.Codes)
	w.s.Conn.Send(ack)
	w.offerAll(ack)
	var err error
	pan := sim.Catch(func() { err = sim.Drive(w.s.Poll, op) })
	if pan != "" || op.Panic != "" {
		w.fail("C09", "panic", "Unsubscribe of %v: panic %s%s", fs, pan, op.Panic)
		return
	}
	if err != nil {
		w.fail("C09 C18", "Unsubscribe", "Unsubscribe of %v: %v", fs, err)
		return
	}
	for _, c := range closedNow {
		w.checkClosed(c, "Unsubscribe of its last filter")
	}
}

func (w *chWorld) checkClosed(c *chModel, why string) {
	w.consume(c, 1000)
	if w.ended {
		return
	}
	if _, closed := drain(c.ch); !closed {
		w.fail("C09", "channel not closed", "ch%d is not closed after %s", c.idx, why)
	}
	select {
	case <-c.ch.Done:
	default:
		w.fail("C09", "Done has not fired", "ch%d: Done has not fired after %s", c.idx, why)
	}
	w.k.Count("channels closed", 1)
}

func (w *chWorld) close() {
	if len(w.ch) == 0 {
		return
	}
	c := w.ch[w.r.IntN(len(w.ch))]
	if w.r.IntN(3) > 0 {
		if d := w.pickOpen(); d != nil {
			c = d
		}
	}
	w.closeCh(c)
}

func (w *chWorld) closeCh(c *chModel) {
	w.tr("close ch%d (open %v)", c.idx, c.open)
	if p := sim.Catch(func() { w.s.C.CloseEventChannel(c.ch) }); p != "" {
		w.fail("C09", "panic", "closing ch%d (open: %v) panics: %s", c.idx, c.open, p)
		return
	}
	if !c.open {
		w.k.Count("channels closed again", 1)
		return
	}
	c.open = false
	for f, d := range w.bind {
		if d == c {
			delete(w.bind, f)
		}
	}
	w.checkClosed(c, "CloseEventChannel")
}

func chRun(k *Ck, r *rand.Rand, closes int) {
	w := &chWorld{k: k, r: r, bind: map[string]*chModel{}}
	s, err := NewSess(Opt{Rng: seqRng(uint32(r.IntN(1000))), Frag: frag(r), NoConn: true})
	if err != nil {
		return
	}
	w.s = s
	k.Log(s.Conn.Log)
	for i, lim := 0, 1+r.IntN(3); i < lim; i++ {
		w.create()
	}
	ack := &wire.Packet{Type: wire.CONNACK}
	w.crm = 65535
	o := Opt{Connack: ack}
	if r.IntN(3) == 0 {
		w.crm = 1 + r.IntN(12)
		o.ClntMax = uint16(w.crm)
	}
	if err := s.Handshake(o); err != nil {
		return
	}
	w.offerAll(ack)
	for i, lim := 0, 10+r.IntN(50); i < lim && !w.ended; i++ {
		switch x := r.IntN(20 + closes); {
		case x < 2 && len(w.ch) < 10:
			w.create()
		case x < 6:
			w.subscribe()
		case x < 8:
			if len(w.bind) > 0 || r.IntN(4) == 0 {
				w.unsubscribe()
			}
		case x < 14:
			w.feed(1 + r.IntN(4))
		case x < 20:
			if len(w.ch) > 0 {
				w.consume(w.ch[r.IntN(len(w.ch))], 1+r.IntN(6))
			}
		default:
			w.close()
		}
	}
	if !w.ended {
		// The end: the client's own DISCONNECT or the server's.
		if o.ClntMax > 0 && r.IntN(2) == 0 {
			// The server exceeds the Receive Maximum: the client says so and that is signalled too.
			for ; w.held < w.crm; w.held++ {
				w.n++
				p := &wire.Packet{Type: wire.PUBLISH, Flags: 4, ID: uint16(40000 + w.n%20000), Topic: "none", Payload: []byte(fmt.Sprint(w.n))}
				w.tr("server %v", p)
				s.Conn.Send(p)
				w.offerAll(p)
			}
			if w.poll() {
				p := &wire.Packet{Type: wire.PUBLISH, Flags: 2, ID: 39999, Topic: "a"}
				w.tr("server %v, one too many", p)
				s.Conn.Send(p)
				s.Poll()
				w.offerAll(&wire.Packet{Type: wire.DISCONNECT, Reason: 0x93})
				k.Count("Receive Maximum exceeded", 1)
			}
		} else if r.IntN(2) == 0 {
			w.tr("disconnect")
			if s.C.Disconnect(sim.NewCtx(sim.Far), false) == nil {
				w.offerAll(&wire.Packet{Type: wire.DISCONNECT})
			}
		} else {
			p := &wire.Packet{Type: wire.DISCONNECT, Reason: 0x8B, Short: 1}
			w.tr("server %v", p)
			s.Conn.Send(p)
			s.Poll()
			w.offerAll(p)
		}
	}
	for _, c := range w.ch {
		w.consume(c, 1000)
	}
	k.Distinct(strings.Join(w.trace, ";"))
	k.SampleLog(w.trace)
}

func TestC08(t *testing.T) {
	k := Start(t, "C08", "random histories of creating, binding, unbinding, closing, filling and emptying event channels under traffic of every "+
		"packet type; each channel compared event by event with a bounded queue; plus untouched channels that must see the exact stream while "+
		"other goroutines create, bind and close channels")
	k.Cases("world", k.N(30000, 300000), func(i int, r *rand.Rand) { chRun(k, r, 1) })
	k.Cases("churn", k.N(800, 8000), func(i int, r *rand.Rand) { chChurn(k, r) })
	k.Cases("storage", k.N(2000, 20000), func(i int, r *rand.Rand) { chStorage(k, r) })
	k.Cases("many", k.N(40, 400), func(i int, r *rand.Rand) { chMany(k, r) })
	k.Cases("generations", k.N(16, 48), func(i int, r *rand.Rand) { chGenerations(k, r, i) })
	caps := []int{2, 7, 16, 64, 100, 127, 128, 255, 256, 257, 500, 1000, 1024, 1025, 2000, 4096, 5000}
	k.Cases("capacity", len(caps), func(i int, r *rand.Rand) { chCapacity(k, r, caps[i]) })
	k.End()
}

func TestC09(t *testing.T) {
	k := Start(t, "C09", "random histories heavy in closing and unsubscribing, repeated closes included; closed channels must be closed, silent and "+
		"done, all others compared event by event with the model; plus closing from several goroutines at once under traffic")
	k.Cases("world", k.N(30000, 300000), func(i int, r *rand.Rand) { chRun(k, r, 8) })
	k.Cases("churn", k.N(800, 8000), func(i int, r *rand.Rand) { chChurn(k, r) })
	k.Cases("generations", k.N(16, 48), func(i int, r *rand.Rand) { chGenerations(k, r, i) })
	k.End()
}

// chGenerations creates and closes channels by the thousands, as a client that runs for long does, while some stay.
func chGenerations(k *Ck, r *rand.Rand, i int) {
	s, err := NewSess(Opt{Prepare: func(s *Sess) { s.AutoAck() }})
	if err != nil {
		k.Fail("setup", "%v", err)
		return
	}
	type entry struct {
		ch     mqtt.EventChannel
		filter string
		born   int
	}
	var kept []entry
	total := []int{300, 1100, 33000, 66000}[i%4] + r.IntN(300)
	keep := func(n int) bool {
		e := entry{ch: s.C.CreateEventChannel(4), born: n}
		if len(kept)%3 == 1 {
			e.filter = fmt.Sprintf("g/%d", n)
			op, err := s.Run("Subscribe", func() error { return s.C.Subscribe(sim.NewCtx(sim.Far), []mqtt.Topic{topicOf(e.filter, 0, &e.ch)}) })
			if err != nil || op.Err != nil {
				k.Fail("setup", "Subscribe: %v %v", op.Err, err)
				return false
			}
		}
		kept = append(kept, e)
		return true
	}
	for n := 0; n < total; n++ {
		if n < 4 || n == total-1 || r.IntN(total) < 12 {
			if !keep(n) {
				return
			}
			continue
		}
		s.C.CloseEventChannel(s.C.CreateEventChannel(1))
	}
	for _, e := range kept {
		drain(e.ch)
	}
	check := func(what string, closed map[int]bool) bool {
		to := kept[r.IntN(len(kept))]
		p := &wire.Packet{Type: wire.PUBLISH, Topic: "g/none", Payload: []byte(what)}
		if to.filter != "" {
			p.Topic = to.filter
		}
		s.Conn.Send(p)
		if err := s.PollAll(); err != nil {
			k.Fail("Poll fails", "%v", err)
			return false
		}
		for j, e := range kept {
			got, shut := pubPayloads(e.ch)
			want := 1
			if closed[j] || e.filter != "" && e.filter != p.Topic {
				want = 0
			}
			if len(got) != want || shut != closed[j] {
				k.Fail("wrong events after many channels", "%s: of %d channels created, the one created as number %d (filter %q) saw %q (closed %v) for a PUBLISH to %q, want %d events (closed %v)",
					what, total, e.born, e.filter, got, shut, p.Topic, want, closed[j])
				return false
			}
			k.Count("events compared", 1)
		}
		return true
	}
	if !check("before closing", nil) {
		return
	}
	closed := map[int]bool{}
	for n := 0; n < 3; n++ {
		j := r.IntN(len(kept))
		s.C.CloseEventChannel(kept[j].ch)
		closed[j] = true
		if !check("after closing one", closed) {
			return
		}
	}
	k.Max("channels created on one client", total)
	k.Distinct("generations", total, len(kept))
}

// chChurn polls through a stream of packets while other goroutines create, bind, unbind and close channels of their own.
func chChurn(k *Ck, r *rand.Rand) {
	var gen mqtt.EventChannel
	s, err := NewSess(Opt{Prepare: func(s *Sess) {
		s.Conn.OnPacket = func(p *wire.Packet) { autoAck(s.Conn, p) }
		gen = s.C.CreateEventChannel(4000)
	}})
	if err != nil {
		return
	}
	k.Log(s.Conn.Log)
	bound := s.C.CreateEventChannel(4000)
	op, err := s.Run("Subscribe", func() error {
		return s.C.Subscribe(sim.NewCtx(sim.Far), []mqtt.Topic{topicOf("keep/#", 0, &bound), topicOf("keep/+", 0, &bound)})
	})
	if err != nil || op.Err != nil {
		return
	}
	drain(gen)
	drain(bound)
	npk := 60 + r.IntN(100)
	var want, wantB []string
	for i := 0; i < npk; i++ {
		p := &wire.Packet{Type: wire.PUBLISH, Topic: []string{"keep/x", "churn/1", "other", "churn/2"}[r.IntN(4)], Payload: []byte(fmt.Sprint(i))}
		want = append(want, fmt.Sprint(i))
		if p.Topic == "keep/x" {
			wantB = append(wantB, fmt.Sprint(i))
		}
		s.Conn.Send(p)
	}
	var stop atomic.Bool
	var mu sync.Mutex
	problem := ""
	sig := ""
	prob := func(sg, f string, a ...any) {
		mu.Lock()
		if problem == "" {
			sig, problem = sg, fmt.Sprintf(f, a...)
		}
		mu.Unlock()
	}
	var ops []*sim.Op
	var closedN atomic.Int64
	for g, lim := 0, 2+r.IntN(2); g < lim; g++ {
		seed := r.Uint64()
		ops = append(ops, sim.Go(fmt.Sprintf("churn %d", g), func() error {
			q := rand.New(rand.NewPCG(seed, 5))
			for i := 0; i < 40 && (!stop.Load() || i < 3); i++ {
				ch := s.C.CreateEventChannel(1 + q.IntN(4))
				if q.IntN(2) == 0 {
					for j, lim := 0, q.IntN(4); j < lim; j++ {
						runtime.Gosched()
					}
				}
				f := []string{"churn/1", "churn/2", "churn/#"}[q.IntN(3)]
				mode := q.IntN(4)
				if mode < 2 {
					if err := s.C.Subscribe(sim.NewCtx(sim.Far), []mqtt.Topic{topicOf(f, 0, &ch)}); err != nil {
						return err
					}
				}
				if mode == 0 {
					if err := s.C.Unsubscribe(sim.NewCtx(sim.Far), []string{f}); err != nil {
						return err
					}
				}
				// Close it, from two goroutines at times.
				if q.IntN(3) == 0 {
					o := sim.Go("close", func() error { s.C.CloseEventChannel(ch); return nil })
					s.C.CloseEventChannel(ch)
					<-ch.Done
					o.Wait()
					if o.Panic != "" {
						prob("panic", "closing from two goroutines panics: %s", o.Panic)
					}
				} else {
					s.C.CloseEventChannel(ch)
				}
				if _, closed := drain(ch); !closed {
					prob("channel not closed", "a closed channel's C is open")
				}
				select {
				case <-ch.Done:
				default:
					prob("Done has not fired", "a closed channel's Done has not fired")
				}
				closedN.Add(1)
			}
			return nil
		}))
	}
	pan := ""
	err = sim.Drive(func() (idle bool, err error) {
		pan = sim.Catch(func() { idle, err = s.Poll() })
		if pan != "" {
			return false, fmt.Errorf("panic")
		}
		if s.Conn.Pending() == 0 {
			stop.Store(true)
		}
		return
	}, ops...)
	if pan != "" {
		if k.ID == "C09" {
			k.Fail("panic", "Poll panics while channels are closed: %s", pan)
		}
		return
	}
	for _, o := range ops {
		if o.Done() && o.Panic != "" {
			prob("panic", "%s", o.Panic)
		}
	}
	if problem != "" {
		if k.ID == "C09" {
			k.Fail(sig, "%s", problem)
		}
		return
	}
	if stuckErr(err) != nil {
		if k.ID == "C09" {
			k.Fail("stuck", "%v", err)
		}
		return
	}
	if err != nil || s.PollAll() != nil {
		return
	}
	k.Count("channels closed under traffic", int(closedN.Load()))
	gp, gc := pubPayloads(gen)
	bp, bc := pubPayloads(bound)
	if gc || bc {
		k.Fail("untouched channel closed", "a channel nobody closed was closed (general %v, bound %v)", gc, bc)
	}
	if strings.Join(gp, ",") != strings.Join(want, ",") {
		k.Fail("untouched general channel disturbed", "the general channel saw publishes %v, want %v", gp, want)
	}
	if strings.Join(bp, ",") != strings.Join(wantB, ",") {
		k.Fail("untouched bound channel disturbed", "the bound channel saw publishes %v, want %v", bp, wantB)
	}
	k.Count("events compared under churn", len(gp)+len(bp))
	k.Distinct("churn", fmt.Sprint(s.Conn.Log()))
}

func pubPayloads(ch mqtt.EventChannel) (out []string, closed bool) {
	ev, closed := drain(ch)
	for _, e := range ev {
		if int(e.PacketType) == wire.PUBLISH {
			out = append(out, string(view(e.Data).Payload))
		}
	}
	return out, closed
}

// chCapacity fills a general and a bound channel of n events: both hold exactly the first n, and take further events
// after some were consumed.
func chCapacity(k *Ck, r *rand.Rand, n int) {
	s, err := NewSess(Opt{Prepare: func(s *Sess) { s.AutoAck() }})
	if err != nil {
		k.Fail("setup", "%v", err)
		return
	}
	k.Log(s.Conn.Log)
	bound := s.C.CreateEventChannel(n)
	if op, err := s.Run("Subscribe", func() error {
		return s.C.Subscribe(sim.NewCtx(sim.Far), []mqtt.Topic{topicOf("c/#", 0, &bound)})
	}); err != nil || op.Err != nil {
		k.Fail("setup", "Subscribe: %v %v", op.Err, err)
		return
	}
	general := s.C.CreateEventChannel(n)
	chs := []mqtt.EventChannel{general, bound}
	var want [2][]string
	sent := 0
	send := func(m int) bool {
		for ; m > 0; m-- {
			sent++
			pl := fmt.Sprint(sent)
			s.Conn.Feed((&wire.Packet{Type: wire.PUBLISH, Topic: "c/x", Payload: []byte(pl)}).Encode())
			for c := range chs {
				if len(want[c]) < n {
					want[c] = append(want[c], pl)
				}
			}
		}
		if err := s.PollAll(); err != nil {
			k.Fail("Poll fails", "%v", err)
			return false
		}
		return true
	}
	take := func(m int) bool {
		for c, ch := range chs {
			for x := 0; x < m; x++ {
				var got string
				select {
				case e := <-ch.C:
					if p, ok := e.Data.(*packets.Publish); ok {
						got = string(p.Payload)
					}
				default:
					got = "nothing"
				}
				exp := "nothing"
				if len(want[c]) > 0 {
					exp, want[c] = want[c][0], want[c][1:]
				}
				if got != exp {
					k.Fail("capacity", "channel of %d events (%v), %d publishes: read %s, want %s", n, []string{"general", "bound"}[c], sent, got, exp)
					return false
				}
				k.Count("events compared", 1)
			}
		}
		return true
	}
	if !send(n+1+r.IntN(5)) || !take(1+r.IntN(n)) || !send(n+r.IntN(3)) || !take(n+1) {
		return
	}
	k.Distinct("capacity", n)
}

// chMany has hundreds of channels, bound and general, some closed again, and publishes that many of the filters match:
// every channel gets exactly its own.
func chMany(k *Ck, r *rand.Rand) {
	s, err := NewSess(Opt{Prepare: func(s *Sess) { s.AutoAck() }})
	if err != nil {
		k.Fail("setup", "%v", err)
		return
	}
	k.Log(s.Conn.Log)
	type entry struct {
		ch      mqtt.EventChannel
		filters []string
		closed  bool
		want    []string
	}
	const topics = 8
	filter := func() string {
		t := r.IntN(topics)
		switch r.IntN(5) {
		case 0:
			return "#"
		case 1:
			return fmt.Sprintf("many/%d", t)
		case 2:
			return "many/+"
		case 3:
			return fmt.Sprintf("+/%d", t)
		}
		return fmt.Sprintf("many/%d/#", t)
	}
	var es []*entry
	owner := map[string]*entry{}
	n := 20 + r.IntN(200)
	for i := 0; i < n; i++ {
		e := &entry{ch: s.C.CreateEventChannel(64)}
		es = append(es, e)
		if r.IntN(4) == 0 {
			continue // stays general
		}
		var ts []mqtt.Topic
		for j, lim := 0, 1+r.IntN(3); j < lim; j++ {
			f := filter()
			if r.IntN(2) == 0 {
				f = fmt.Sprintf("own%d/%d", i, j) // nothing matches this one
			}
			if owner[f] != nil {
				continue
			}
			owner[f] = e
			e.filters = append(e.filters, f)
			ts = append(ts, topicOf(f, 0, &e.ch))
		}
		if len(ts) == 0 {
			continue
		}
		if op, err := s.Run("Subscribe", func() error { return s.C.Subscribe(sim.NewCtx(sim.Far), ts) }); err != nil || op.Err != nil {
			k.Fail("setup", "Subscribe: %v %v", op.Err, err)
			return
		}
	}
	for _, e := range es {
		drain(e.ch)
		if r.IntN(5) == 0 {
			s.C.CloseEventChannel(e.ch)
			e.closed = true
		}
	}
	for i := 0; i < 12; i++ {
		p := &wire.Packet{Type: wire.PUBLISH, Topic: fmt.Sprintf("many/%d", r.IntN(topics)), Payload: []byte(fmt.Sprint(i))}
		if r.IntN(8) == 0 {
			p.Topic = "other"
		}
		s.Conn.Send(p)
		for _, e := range es {
			hit := len(e.filters) == 0
			for _, f := range e.filters {
				hit = hit || wire.Match(p.Topic, f)
			}
			if hit && !e.closed {
				e.want = append(e.want, string(p.Payload))
			}
		}
	}
	if err := s.PollAll(); err != nil {
		k.Fail("Poll fails", "%v", err)
		return
	}
	for i, e := range es {
		got, closed := pubPayloads(e.ch)
		if closed != e.closed || strings.Join(got, ",") != strings.Join(e.want, ",") {
			k.Fail("wrong events among many channels", "channel %d of %d (filters %q, closed %v) saw publishes %v (closed %v), want %v", i, n, e.filters, e.closed, got, closed, e.want)
			return
		}
		k.Count("events compared", len(got))
	}
	k.Max("channels of one client", n)
	k.Distinct("many", fmt.Sprint(s.Conn.Log()))
}

// chStorage has a storage that fails while acknowledgements are processed, which does not undo that they were received.
func chStorage(k *Ck, r *rand.Rand) {
	st := sim.NewStore(nil)
	s, err := NewSess(Opt{Sim: st})
	if err != nil {
		k.Fail("setup", "%v", err)
		return
	}
	k.Log(s.Conn.Log)
	ch := s.C.CreateEventChannel(100)
	// Unfinished exchanges in both directions.
	type ex struct {
		id  uint16
		qos int
		rec bool
	}
	var out []*ex
	for i, lim := 0, 2+r.IntN(4); i < lim; i++ {
		p := pub(1+r.IntN(2), "t", []byte(fmt.Sprint(i)))
		if err := s.C.Publish(sim.NewCtx(sim.Far), p); err != nil {
			return
		}
		out = append(out, &ex{id: uint16(p.PacketIdentifier), qos: int(p.QoS)})
	}
	var in []uint16
	for i, lim := 0, 1+r.IntN(3); i < lim; i++ {
		in = append(in, uint16(1000+i))
		s.Conn.Send(&wire.Packet{Type: wire.PUBLISH, Flags: 4, ID: in[i], Topic: "in"})
	}
	if s.PollAll() != nil {
		return
	}
	drain(ch)
	for step := 0; step < 12; step++ {
		var p *wire.Packet
		if x := r.IntN(len(out) + len(in)); x >= len(out) {
			p = ackPkt(r, wire.PUBREL, in[x-len(out)], 0)
		} else if e := out[x]; e.qos == 1 {
			p = ackPkt(r, wire.PUBACK, e.id, 0)
		} else if !e.rec {
			e.rec = true
			p = ackPkt(r, wire.PUBREC, e.id, []byte{0, 0, 0x80}[r.IntN(3)])
		} else {
			p = ackPkt(r, wire.PUBCOMP, e.id, 0)
		}
		at, n, bad := 1+r.IntN(3), 0, anyErr(r)
		st.Fault = func(string) error {
			if n++; n == at {
				return bad
			}
			return nil
		}
		s.Conn.Send(p)
		err := s.PollAll()
		failed := n >= at
		st.Fault = nil
		if failed {
			k.Count("acknowledgements received while the storage fails", 1)
		} else if err != nil {
			k.Fail("Poll fails", "Poll returned %v on %v", err, p)
			return
		}
		if !s.C.IsConnected() {
			return
		}
		ev, closed := drain(ch)
		if closed || len(ev) != 1 || int(ev[0].PacketType) != p.Type || diffServer(ev[0].Data, p) != "" {
			var got []string
			for _, e := range ev {
				got = append(got, fmt.Sprint(view(e.Data)))
			}
			k.Fail("event missing", "%v was received (storage call failed: %v, Poll returned %v); the channel saw %v", p, failed, err, got)
			return
		}
		k.Count("events compared", 1)
	}
	k.Distinct("storage", fmt.Sprint(s.Conn.Log()))
}
