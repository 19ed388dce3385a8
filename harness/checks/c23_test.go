package checks

import (
	"context"
	"fmt"
	"io"
	"math/rand/v2"
	"sync"
	"testing"

	"github.com/waj334/tinygo-mqtt/mqtt"
	"verif/harness/sim"
	"verif/harness/wire"
)

func TestC23(t *testing.T) {
	k := Start(t, "C23", "many goroutines calling everything over a connection that writes in pieces and yields in between, with incoming traffic of all "+
		"QoS levels; the byte stream decoded online, per-goroutine order and acknowledgement order compared; and the same with a write failing "+
		"after part of a packet")
	k.Cases("stress", k.N(10000, 40000), func(i int, r *rand.Rand) { c23Stress(k, r) })
	k.Cases("fault", k.N(18000, 60000), func(i int, r *rand.Rand) { c23Fault(k, r) })
	k.Cases("step", k.N(8000, 24000), func(i int, r *rand.Rand) { c23Step(k, r, i) })
	k.End()
}

// reactBroker answers at once and notes which acknowledgement each packet it sends calls for.
type reactBroker struct {
	c    *sim.Conn
	want []string
	in   map[uint16]bool // incoming identifiers in use
	fin  map[uint16]bool // outgoing QoS 2 in progress
}

func newReact(c *sim.Conn) *reactBroker {
	return &reactBroker{c: c, in: map[uint16]bool{}, fin: map[uint16]bool{}}
}

// send feeds a packet (connection locked).
func (b *reactBroker) send(p *wire.Packet) {
	c := func() {}
	switch {
	case p.Type == wire.PUBLISH && p.QoS() == 1:
		c = func() { b.want = append(b.want, reaction(wire.PUBACK, p.ID)) }
	case p.Type == wire.PUBLISH && p.QoS() == 2:
		c = func() { b.want = append(b.want, reaction(wire.PUBREC, p.ID)) }
	case p.Type == wire.PUBREL:
		c = func() { b.want = append(b.want, reaction(wire.PUBCOMP, p.ID)) }
	case p.Type == wire.PUBREC && p.Reason < 0x80:
		c = func() { b.want = append(b.want, reaction(wire.PUBREL, p.ID)) }
	}
	b.c.SendMarkLocked(p, c)
}

func (b *reactBroker) wrote(p *wire.Packet) {
	switch p.Type {
	case wire.PUBLISH:
		switch p.QoS() {
		case 1:
			b.send(&wire.Packet{Type: wire.PUBACK, ID: p.ID, Short: 2})
		case 2:
			b.send(&wire.Packet{Type: wire.PUBREC, ID: p.ID, Short: 2})
		}
	case wire.PUBREC:
		b.send(&wire.Packet{Type: wire.PUBREL, ID: p.ID, Short: 2})
	case wire.PUBREL:
		b.send(&wire.Packet{Type: wire.PUBCOMP, ID: p.ID, Short: 2})
	case wire.SUBSCRIBE:
		b.send(&wire.Packet{Type: wire.SUBACK, ID: p.ID, Codes: make([]byte, len(p.Subs))})
	case wire.UNSUBSCRIBE:
		b.send(&wire.Packet{Type: wire.UNSUBACK, ID: p.ID, Codes: make([]byte, len(p.Subs))})
	case wire.PINGREQ:
		b.send(&wire.Packet{Type: wire.PINGRESP})
	}
}

// acksOf lists the acknowledgements the client wrote.
func acksOf(outs []sim.Out) (r []string) {
	for _, o := range outs {
		switch o.P.Type {
		case wire.PUBACK, wire.PUBREC, wire.PUBCOMP, wire.PUBREL:
			r = append(r, reaction(o.P.Type, o.P.ID))
		}
	}
	return
}

// bigSize is the size of a payload that does not fit any buffer one might think of.
func bigSize(r *rand.Rand) int {
	return []int{1460, 1500, 2048, 4096, 4097, 8192, 16384, 20000, 32768, 65535, 65536, 70000}[r.IntN(12)] + r.IntN(200) - 100
}

// callers starts goroutines that call everything; each PUBLISH names its goroutine and number in its topic.
func c23Callers(k *Ck, r *rand.Rand, s *Sess, oks *[][]string) (ops []*sim.Op) {
	var mu sync.Mutex
	n := 2 + r.IntN(6)
	*oks = make([][]string, n)
	for g := 0; g < n; g++ {
		kinds := make([]int, 2+r.IntN(8))
		for j := range kinds {
			kinds[j] = r.IntN(10)
		}
		payload := bin(r, size(r, 400))
		if r.IntN(6) == 0 {
			payload = make([]byte, bigSize(r))
		}
		ops = append(ops, sim.Go(fmt.Sprintf("caller %d", g), func() error {
			for j, kind := range kinds {
				ctx := sim.NewCtx(sim.Far)
				name := fmt.Sprintf("g%d/%d", g, j)
				var err error
				key := ""
				switch kind {
				case 0, 1, 2, 3, 4, 5:
					err = s.C.Publish(ctx, pub(kind%3, name, payload))
					key = fmt.Sprintf("%d %s", kind%3, name)
				case 6:
					err = s.C.Subscribe(ctx, []mqtt.Topic{topicOf(name, 1, nil)})
					key = "S " + name
				case 7:
					err = s.C.Unsubscribe(ctx, []string{name})
					key = "U " + name
				case 8:
					err = s.C.KeepAlive()
					key = "ping"
				case 9:
					s.C.IsConnected()
					ch := s.C.CreateEventChannel(1)
					s.C.CloseEventChannel(ch)
				}
				if err != nil {
					return err
				}
				if key != "" {
					mu.Lock()
					(*oks)[g] = append((*oks)[g], key)
					mu.Unlock()
				}
			}
			return nil
		}))
	}
	return
}

func c23Setup(r *rand.Rand) (*Sess, *reactBroker) {
	var b *reactBroker
	rr := rand.New(rand.NewPCG(r.Uint64(), 5))
	var mu sync.Mutex
	s, err := NewSess(Opt{RecvMax: uint16([]int{1, 2, 5, 0}[r.IntN(4)]), Frag: frag(r)})
	if err != nil {
		return nil, nil
	}
	b = newReact(s.Conn)
	in := r.IntN(20)
	s.Conn.Lock()
	s.Conn.OnPacket = b.wrote
	s.Conn.OnIdle = func() bool {
		// One more packet from the server whenever the client has nothing to read.
		if in == 0 {
			return false
		}
		in--
		q := rr.IntN(3)
		p := &wire.Packet{Type: wire.PUBLISH, Topic: "in", Flags: byte(q << 1), Payload: []byte("data")}
		if q > 0 {
			p.ID = uint16(40000 + in)
		}
		for n := rr.IntN(2); n >= 0; n-- {
			b.send(p)
			if p.QoS() == 1 {
				break
			}
		}
		return true
	}
	mode := r.IntN(3)
	s.Conn.SplitW = func(n int) int {
		mu.Lock()
		defer mu.Unlock()
		switch mode {
		case 0:
			return 1 + n/40
		case 1:
			return 1 + rr.IntN(n)
		}
		return n
	}
	s.Conn.Unlock()
	return s, b
}

func c23Order(k *Ck, outs []sim.Out, oks [][]string) {
	last := map[string]int{}
	wrote := map[string]int{}
	for _, o := range outs {
		var g, j int
		switch o.P.Type {
		case wire.PUBLISH:
			if _, err := fmt.Sscanf(o.P.Topic, "g%d/%d", &g, &j); err != nil {
				k.Fail("PUBLISH nobody asked for", "%v", o.P)
				continue
			}
			key := fmt.Sprintf("%d q%d", g, o.P.QoS())
			if p, ok := last[key]; ok && p >= j {
				k.Fail("publishes out of order", "goroutine %d published message %d after message %d, both with QoS %d", g, j, p, o.P.QoS())
			}
			last[key] = j
			wrote[fmt.Sprintf("%d %s", o.P.QoS(), o.P.Topic)]++
		case wire.SUBSCRIBE:
			wrote["S "+o.P.Subs[0].Filter]++
		case wire.UNSUBSCRIBE:
			wrote["U "+o.P.Subs[0].Filter]++
		case wire.PINGREQ:
			wrote["ping"]++
		}
	}
	pings := 0
	for _, l := range oks {
		for _, key := range l {
			if key == "ping" {
				pings++
			} else if wrote[key] != 1 {
				k.Fail("packet lost or doubled", "the packet of %q was written %d times", key, wrote[key])
			}
		}
	}
	if pings > wrote["ping"] {
		k.Fail("packet lost or doubled", "%d calls to KeepAlive, %d PINGREQ", pings, wrote["ping"])
	}
}

func c23Stress(k *Ck, r *rand.Rand) {
	s, b := c23Setup(r)
	if s == nil {
		return
	}
	k.Log(s.Conn.Log)
	var oks [][]string
	ops := c23Callers(k, r, s, &oks)
	quit := r.IntN(3) == 0
	if quit {
		n := r.IntN(30)
		ops = append(ops, sim.Go("Disconnect", func() error { sim.Yield(n * 10); return s.C.Disconnect(sim.NewCtx(sim.Far), false) }))
	}
	err := sim.Drive(func() (bool, error) {
		idle, err := s.Poll()
		return idle || err != nil, nil
	}, ops...)
	if err != nil {
		return // C21
	}
	for _, o := range ops {
		if o.Panic != "" {
			return
		}
	}
	if !quit {
		if s.PollAll() != nil {
			return
		}
	}
	if err := s.Conn.StreamErr(true); err != nil {
		k.Fail("broken stream", "%v", err)
		return
	}
	outs := s.Conn.Packets()
	c23Order(k, outs, oks)
	k.c23Acks(s, b, quit)
	k.Count("packets in order", len(outs))
	k.Distinct("stress", s.Conn.Log())
	if r.IntN(800) == 0 {
		k.SampleLog(s.Conn.Log())
	}
}

// c23Acks compares the acknowledgements with the packets they answer; a connection that ended may leave the last out.
func (k *Ck) c23Acks(s *Sess, b *reactBroker, ended bool) {
	got := acksOf(s.Conn.Packets())
	s.Conn.Lock()
	want := append([]string(nil), b.want...)
	s.Conn.Unlock()
	for i, g := range got {
		if i >= len(want) || want[i] != g {
			w := "none"
			if i < len(want) {
				w = want[i]
			}
			k.Fail("acknowledgements out of order", "acknowledgement %d is %s, the packets received call for %s", i, g, w)
			return
		}
	}
	if !ended && len(got) != len(want) {
		k.Fail("acknowledgement missing", "%d acknowledgements for %d packets; the first missing is %s", len(got), len(want), want[len(got)])
	}
	k.Count("acknowledgements in order", len(got))
}

// c23Fault lets one write fail after none or part of its bytes: after a part nothing may follow.
func c23Fault(k *Ck, r *rand.Rand) {
	s, b := c23Setup(r)
	if s == nil {
		return
	}
	k.Log(s.Conn.Log)
	var mu sync.Mutex
	at := 1 + r.IntN(25)
	partial, fired := -1, false
	var after, limit int
	none := r.IntN(4) == 0
	s.Conn.WFault = func(n int) (int, error) {
		mu.Lock()
		defer mu.Unlock()
		if fired {
			if partial > 0 {
				after++
			}
			return 0, nil
		}
		if at--; at > 0 {
			return 0, nil
		}
		fired = true
		partial = 0
		if !none && n > 1 {
			partial = 1 + r.IntN(n-1)
			if r.IntN(3) == 0 {
				partial = 1
			}
		}
		limit = s.Conn.Bytes() + partial
		return partial, io.ErrShortWrite
	}
	var oks [][]string
	ops := c23Callers(k, r, s, &oks)
	err := sim.Drive(func() (bool, error) {
		idle, err := s.Poll()
		return idle || err != nil, nil
	}, ops...)
	if err != nil && stuckErr(err) != nil {
		// A write that failed whole can leave an exchange unanswered; the server would notice. Ending the connection
		// must release everybody (C19, C21).
		s.Conn.End(io.EOF)
		s.PollAll()
		if sim.Await(ops...) != nil {
			return
		}
	}
	for _, o := range ops {
		if o.Panic != "" {
			return
		}
	}
	mu.Lock()
	defer mu.Unlock()
	if !fired {
		return
	}
	if partial > 0 {
		if n := s.Conn.Bytes(); n > limit {
			k.Fail("bytes after a broken packet", "%d bytes were written after a write that had failed after %d bytes of a packet", n-limit, partial)
			return
		}
		if s.C.IsConnected() || !s.Conn.Closed() {
			k.Fail("goes on after a broken packet", "the client stays connected although only %d bytes of a packet were written", partial)
		}
		k.Count("writes failed in the middle", 1)
	} else {
		if err := s.Conn.StreamErr(true); err != nil {
			k.Fail("broken stream", "%v", err)
		}
		k.Count("writes failed whole", 1)
	}
	c23Order(k, s.Conn.Packets(), oks)
	_ = b
	k.Distinct("fault", s.Conn.Log())
}

// c23Step stops a call in the middle of writing its packet and starts another one.
func c23Step(k *Ck, r *rand.Rand, i int) {
	s, err := NewSess(Opt{})
	if err != nil {
		return
	}
	k.Log(s.Conn.Log)
	b := newReact(s.Conn)
	s.Conn.OnPacket = b.wrote
	s.Conn.SplitW = func(n int) int { return 1 + r.IntN(n) }
	type call struct {
		name string
		f    func() error
	}
	payload := []byte("payload")
	if r.IntN(2) == 0 {
		payload = make([]byte, bigSize(r))
	}
	mk := func(n int, tag string) call {
		ctx := sim.NewCtx(sim.Far)
		switch n {
		case 0, 1, 2:
			return call{fmt.Sprintf("Publish QoS %d", n), func() error { return s.C.Publish(ctx, pub(n, tag, payload)) }}
		case 3:
			return call{"Subscribe", func() error { return s.C.Subscribe(ctx, []mqtt.Topic{topicOf(tag, 1, nil)}) }}
		case 4:
			return call{"Unsubscribe", func() error { return s.C.Unsubscribe(ctx, []string{tag}) }}
		case 5:
			return call{"KeepAlive", func() error { return s.C.KeepAlive() }}
		case 6:
			return call{"Disconnect", func() error { return s.C.Disconnect(context.Background(), false) }}
		case 7: // an acknowledgement by Poll
			return call{"Poll PUBLISH 1", func() error {
				s.Conn.Lock()
				b.send(&wire.Packet{Type: wire.PUBLISH, Topic: "x", Flags: 2, ID: 9})
				s.Conn.Unlock()
				return s.C.Poll(ctx)
			}}
		case 8:
			return call{"Poll PUBREL", func() error {
				s.Conn.Lock()
				b.send(&wire.Packet{Type: wire.PUBREL, ID: 9})
				s.Conn.Unlock()
				return s.C.Poll(ctx)
			}}
		}
		return call{"Poll PUBLISH 2", func() error {
			s.Conn.Lock()
			b.send(&wire.Packet{Type: wire.PUBLISH, Topic: "x", Flags: 4, ID: 9})
			s.Conn.Unlock()
			return s.C.Poll(ctx)
		}}
	}
	x, y := mk(i%10, "first"), mk(i/10%10, "second")
	if x.name[:4] == "Poll" && y.name[:4] == "Poll" {
		return // Poll runs on one goroutine
	}
	nth := 1 + r.IntN(4)
	gate, reached := make(chan struct{}), make(chan struct{})
	var mu sync.Mutex
	armed := true
	s.Conn.Hook = func(p string) {
		if p != "MidWrite" {
			return
		}
		mu.Lock()
		stop := false
		if armed {
			if nth--; nth == 0 {
				armed, stop = false, true
			}
		}
		mu.Unlock()
		if stop {
			close(reached)
			<-gate
		}
	}
	opX := sim.Go(x.name, x.f)
	sim.Settle(opX)
	mu.Lock()
	armed = false
	mu.Unlock()
	select {
	case <-reached:
		k.Count("stopped in the middle of a packet", 1)
	default:
	}
	opY := sim.Go(y.name, y.f)
	sim.Settle(opX, opY)
	close(gate)
	pollFn := func() (bool, error) { idle, err := s.Poll(); return idle || err != nil, nil }
	if x.name[:4] == "Poll" || y.name[:4] == "Poll" { // let it finish first: one Poll at a time
		if sim.Await(map[bool]*sim.Op{true: opX, false: opY}[x.name[:4] == "Poll"]) != nil {
			return
		}
	}
	if sim.Drive(pollFn, opX, opY) != nil {
		return
	}
	if err := s.Conn.StreamErr(true); err != nil {
		k.Fail("broken stream", "%s stopped in the middle of its packet while %s runs: %v", x.name, y.name, err)
		return
	}
	if x.name != "Disconnect" && y.name != "Disconnect" {
		s.PollAll()
		k.c23Acks(s, b, false)
	}
	k.Distinct("step", x.name, y.name, s.Conn.Log())
}
