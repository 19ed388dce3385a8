package checks

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"

	"github.com/waj334/tinygo-mqtt/mqtt"
	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	"verif/harness/sim"
	"verif/harness/wire"
)

func TestC19(t *testing.T) {
	k := Start(t, "C19", "every way a connection ends (Disconnect with every option, server DISCONNECT, end of stream and read failure at every byte, "+
		"malformed data) in random client states, alone and racing with every other operation; the wire, the events, the state and every "+
		"result compared")
	k.Cases("options", k.N(8000, 20000), func(i int, r *rand.Rand) { c19Options(k, r, i) })
	k.Cases("ends", k.N(32000, 80000), func(i int, r *rand.Rand) { c19Ends(k, r) })
	k.Cases("race", k.N(10000, 24000), func(i int, r *rand.Rand) { c19Race(k, r) })
	k.Cases("step", k.N(8000, 20000), func(i int, r *rand.Rand) { c19Step(k, r, i) })
	k.Cases("order", k.N(400, 4000), func(i int, r *rand.Rand) { c19Order(k, r, i) })
	k.End()
}

// c19Order: whoever is told of a DISCONNECT finds the client disconnected.
func c19Order(k *Ck, r *rand.Rand, i int) {
	s, err := NewSess(Opt{})
	if err != nil {
		return
	}
	k.Log(s.Conn.Log)
	done := make(chan bool, 8)
	for j := 0; j < 8; j++ {
		ev := s.C.CreateEventChannel(1)
		go func() {
			<-ev.C
			done <- s.C.IsConnected()
		}()
	}
	op := sim.Go("end", func() error {
		if i%2 == 0 {
			return s.C.Disconnect(sim.NewCtx(sim.Far), i%4 == 0)
		}
		s.Conn.Send(&wire.Packet{Type: wire.DISCONNECT, Short: 2})
		_, err := s.Poll()
		return err
	})
	if e := sim.Await(op); e != nil || op.Err != nil {
		k.Fail("setup", "returned %v %v", op.Err, e)
		return
	}
	for j := 0; j < 8; j++ {
		if <-done {
			k.Fail("DISCONNECT event before the client is disconnected", "after the DISCONNECT event (by the client: %v) IsConnected returned true", i%2 == 0)
		}
		k.Count("consumers of the DISCONNECT event", 1)
	}
	k.Distinct("order", i)
}

// checkDisconnect checks the DISCONNECT packet of the client.
func (k *Ck) checkDisconnect(p *wire.Packet, will bool, announced uint32, expiry int) {
	rc := byte(0)
	if will {
		rc = 4
	}
	if p.Reason != rc {
		k.Fail("wrong DISCONNECT reason", "publishWill %v: the client wrote %v", will, p)
	}
	q, ok := p.Prop(0x11)
	want := announced != 0 && expiry != 0
	if ok != want || ok && q.N != uint32(expiry) {
		k.Fail("wrong DISCONNECT session expiry", "CONNECT announced %d, Disconnect asked for %d: the client wrote %v", announced, expiry, p)
	}
	for _, q := range p.Props {
		if q.ID != 0x11 {
			k.Fail("wrong DISCONNECT properties", "the client wrote %v", p)
		}
	}
}

func c19Options(k *Ck, r *rand.Rand, i int) {
	announced := []uint32{0, 1, 60, 0xFFFFFFFF, 0x100, 0x10000, 0x7FFFFF00, 0x80000000, uint32(r.Uint64()), uint32(1+r.IntN(65535)) << 16}[i%10]
	expiry := []int{0, 1, 7, 86400, 0x7FFFFFFF, 0xFFFFFFFF, 0x100, 0x10000, 0x80000000, int(r.Uint32())}[i/10%10]
	will := i/100%2 == 0
	var ev mqtt.EventChannel
	s, err := NewSess(Opt{Expiry: announced, Prepare: func(s *Sess) { ev = s.C.CreateEventChannel(10) }})
	if err != nil {
		return
	}
	k.Log(s.Conn.Log)
	drain(ev)
	if !s.C.IsConnected() {
		k.Fail("not connected", "IsConnected is false after Connect")
		return
	}
	ctx := context.Context(sim.NewCtx(sim.Far))
	if r.IntN(2) == 0 {
		ctx = context.Background()
	}
	op := sim.Go("Disconnect", func() error {
		if expiry == 0 && r.IntN(2) == 0 {
			return s.C.Disconnect(ctx, will)
		}
		return s.C.DisconnectWithSessionExpiry(ctx, will, expiry)
	})
	if e := sim.Await(op); e != nil || op.Err != nil || op.Panic != "" {
		k.Fail("Disconnect fails", "Disconnect of a connected client: %v %v %s", e, op.Err, op.Panic)
		return
	}
	o := s.Conn.Packets()[1:]
	if len(o) != 1 || o[0].P.Type != wire.DISCONNECT {
		k.Fail("not one DISCONNECT", "Disconnect wrote %s", outList(o))
		return
	}
	k.checkDisconnect(o[0].P, will, announced, expiry)
	if !s.Conn.Closed() {
		k.Fail("left open", "the connection is open after Disconnect")
	}
	es, _ := drain(ev)
	if len(es) != 1 || int(es[0].PacketType) != wire.DISCONNECT {
		k.Fail("DISCONNECT event", "%d events after Disconnect", len(es))
	} else if d := diffServer(es[0].Data, o[0].P); d != "" {
		k.Fail("DISCONNECT event", "%v was signalled %s", o[0].P, d)
	}
	k.refuses(s, "Disconnect")
	k.Count("disconnects", 1)
	k.Distinct("options", announced, expiry, will)
}

// busy brings a client into a random state: exchanges in every phase, calls waiting for quota and acknowledgements.
type busy struct {
	s    *Sess
	ops  []*sim.Op
	ctx  []*sim.Ctx
	st   *sim.Store
	ev   mqtt.EventChannel
	desc string
}

func (b *busy) start(name string, f func(ctx context.Context) error) *sim.Op {
	ctx := sim.NewCtx(sim.Far)
	op := sim.Go(name, func() error { return f(ctx) })
	sim.Settle(op)
	b.ops = append(b.ops, op)
	b.ctx = append(b.ctx, ctx)
	b.desc += name + ";"
	return op
}

func newBusy(k *Ck, r *rand.Rand, srm int) *busy {
	b := &busy{}
	if r.IntN(2) == 0 {
		b.st = sim.NewStore(nil)
	}
	s, err := NewSess(Opt{RecvMax: uint16(srm), Sim: b.st, Frag: frag(r), Expiry: uint32(r.IntN(2) * 100), Prepare: func(s *Sess) {
		b.ev = s.C.CreateEventChannel(1000)
	}})
	if err != nil {
		return nil
	}
	b.s = s
	k.Log(s.Conn.Log)
	for j, lim := 0, r.IntN(6); j < lim; j++ {
		switch r.IntN(6) {
		case 0:
			b.start("Subscribe", func(ctx context.Context) error { return s.C.Subscribe(ctx, []mqtt.Topic{topicOf("f", 1, nil)}) })
		case 1:
			b.start("Unsubscribe", func(ctx context.Context) error { return s.C.Unsubscribe(ctx, []string{"f"}) })
		case 2, 3:
			q := 1 + r.IntN(2)
			b.start(fmt.Sprintf("Publish QoS %d", q), func(ctx context.Context) error { return s.C.Publish(ctx, pub(q, "t", nil)) })
		case 4:
			s.Conn.Send(&wire.Packet{Type: wire.PUBLISH, Topic: "a", Flags: 4, ID: uint16(50000 + j)})
			b.desc += "in2;"
			s.PollAll()
		case 5:
			s.Conn.Send(&wire.Packet{Type: wire.PUBREC, ID: uint16(1 + r.IntN(3)), Short: 2})
			b.desc += "rec;"
			s.PollAll()
		}
	}
	if !s.C.IsConnected() {
		return nil
	}
	drain(b.ev)
	return b
}

// pendingOps are the calls that still wait.
func (b *busy) pendingOps() (r []*sim.Op) {
	for _, o := range b.ops {
		if !o.Done() {
			r = append(r, o)
		}
	}
	return
}

// readFailures are errors of a connection that has failed. None of them is a deadline that has passed.
var readFailures = []error{
	errInjected, io.ErrUnexpectedEOF, net.ErrClosed, io.ErrClosedPipe, io.ErrNoProgress, syscall.ECONNRESET, syscall.EPIPE, syscall.ETIMEDOUT,
	&net.OpError{Op: "read", Net: "tcp", Err: os.NewSyscallError("read", syscall.ECONNRESET)},
	&net.OpError{Op: "read", Net: "tcp", Err: os.NewSyscallError("read", syscall.ETIMEDOUT)},
	&net.OpError{Op: "read", Net: "tcp", Err: net.ErrClosed},
	fmt.Errorf("tls: %w", io.EOF), io.EOF,
}

func c19Ends(k *Ck, r *rand.Rand) {
	b := newBusy(k, r, 1+r.IntN(3))
	if b == nil {
		return
	}
	s := b.s
	pend := b.pendingOps()
	outs := s.Conn.NumOut()
	kind := r.IntN(6)
	var op *sim.Op
	wantDisc := 0
	name := ""
	s.Conn.TailErr = r.IntN(3) == 0
	closeFails := r.IntN(4) == 0
	if closeFails {
		bad := anyErr(r)
		s.Conn.Fault = func(point string) error {
			if point == "Close" {
				return bad
			}
			return nil
		}
	}
	switch kind {
	case 0:
		name = "Disconnect"
		op = sim.Go(name, func() error { return s.C.Disconnect(sim.NewCtx(sim.Far), r.IntN(2) == 0) })
		wantDisc = 1
	case 1:
		name = "a DISCONNECT from the server"
		s.Conn.Send(serverPacket(r, wire.DISCONNECT, 20))
		if r.IntN(2) == 0 { // nothing after it counts
			s.Conn.Send(&wire.Packet{Type: wire.PUBLISH, Topic: "late", Flags: 2, ID: 9})
		}
	case 2:
		name = "the end of the stream"
		s.Conn.End(io.EOF)
	case 3:
		name = "the end of the stream within a packet"
		e := serverPacket(r, []int{wire.PUBLISH, wire.PUBACK, wire.SUBACK, wire.DISCONNECT}[r.IntN(4)], 20).Encode()
		s.Conn.Feed(e[:r.IntN(len(e))])
		s.Conn.End(io.EOF)
	case 4:
		name = "a read failure"
		e := serverPacket(r, []int{wire.PUBLISH, wire.PUBACK, wire.SUBACK, wire.AUTH}[r.IntN(4)], 20).Encode()
		s.Conn.Feed(e[:r.IntN(len(e))])
		s.Conn.End(readFailures[r.IntN(len(readFailures))])
	case 5:
		name = "a packet a server may not send"
		s.Conn.Feed([][]byte{{0x00, 0}, {0x10, 0}, {0x80, 2, 0, 1}, {0xC0, 0}, {0x20, 3, 0, 0, 0}}[r.IntN(5)])
	}
	if op == nil {
		op = sim.Go("Poll", func() error { return s.C.Poll(sim.PollCtx()) })
	}
	if e := sim.Await(op); e != nil || op.Panic != "" {
		k.Fail("does not return: "+name, "%s: %v %s", name, e, op.Panic)
		return
	}
	switch {
	case kind == 0 && op.Err != nil && !closeFails:
		k.Fail("Disconnect fails", "Disconnect of a connected client returned %v (state %s)", op.Err, b.desc)
		return
	case kind >= 2 && op.Err == nil:
		k.Fail("not reported: "+name, "Poll returned nil on %s", name)
		return
	}
	if !s.Conn.Closed() {
		k.Fail("left open after "+name, "the connection is open after %s (state %s)", name, b.desc)
	}
	if s.C.IsConnected() {
		k.Fail("connected after "+name, "IsConnected is true after %s", name)
		return
	}
	if e := sim.Await(pend...); e != nil {
		k.Fail("calls wait on after "+name, "after %s: %v", name, e)
		return
	}
	for _, o := range pend {
		if o.Err == nil {
			k.Fail("success after "+name, "%s returned nil after %s", o.Name, name)
		}
	}
	got := s.Conn.Packets()[outs:]
	if len(got) != wantDisc || wantDisc == 1 && got[0].P.Type != wire.DISCONNECT {
		k.Fail("packets after "+name, "after %s the client wrote %s", name, outList(got))
	}
	es, _ := drain(b.ev)
	nd := 0
	for _, e := range es {
		if int(e.PacketType) == wire.DISCONNECT {
			nd++
		} else {
			k.Fail("event after "+name, "after %s the event %v was signalled", name, view(e.Data))
		}
	}
	if closeFails {
		k.Count("Close reporting an error", 1)
	}
	if (kind == 0 && !closeFails || kind == 1) && nd != 1 || nd > 1 || kind > 1 && nd != 0 {
		k.Fail("DISCONNECT events after "+name, "%s was signalled %d times", name, nd)
	}
	k.refuses(s, name)
	k.Count("ended by "+name, 1)
	k.Count("waiting calls ended", len(pend))
	k.Distinct("ends", kind, b.desc, s.Conn.Log())
}

// c19Race lets callers loop until the connection is gone, and ends it under them.
func c19Race(k *Ck, r *rand.Rand) {
	var ev mqtt.EventChannel
	split := r.IntN(2) == 0
	s, err := NewSess(Opt{RecvMax: uint16(1 + r.IntN(3)), Prepare: func(s *Sess) {
		s.Conn.OnPacket = func(p *wire.Packet) { autoAck(s.Conn, p) }
		ev = s.C.CreateEventChannel(2000)
	}})
	if err != nil {
		return
	}
	k.Log(s.Conn.Log)
	if split {
		rr := rand.New(rand.NewPCG(r.Uint64(), 9))
		var mu sync.Mutex
		s.Conn.SplitW = func(n int) int { mu.Lock(); defer mu.Unlock(); return 1 + rr.IntN(n) }
	}
	var oks [16]atomic.Int64
	var ops []*sim.Op
	// IsConnected is sampled by everybody: it may change once, and only after the end has begun.
	var begun, over, down atomic.Bool
	var lie atomic.Pointer[string]
	sample := func() {
		ov, dn := over.Load(), down.Load()
		up := s.C.IsConnected()
		msg := ""
		if up && (ov || dn) {
			msg = "true after the connection had ended"
		}
		if !up && !begun.Load() {
			msg = "false before anything ended the connection"
		}
		if !up {
			down.Store(true)
		}
		if msg != "" {
			lie.Store(&msg)
		}
	}
	ready := make(chan struct{})
	loop := func(name string, typ int, f func() error) {
		ops = append(ops, sim.Go(name, func() error {
			<-ready
			for i := 0; i < 400; i++ {
				err := f()
				sample()
				if err != nil {
					return err
				}
				oks[typ].Add(1)
				runtime.Gosched()
			}
			return nil
		}))
	}
	far := func() context.Context { return sim.NewCtx(sim.Far) }
	for g, lim := 0, 1+r.IntN(3); g < lim; g++ {
		q := r.IntN(3)
		loop("Publish", wire.PUBLISH, func() error { return s.C.Publish(far(), pub(q, "t", nil)) })
	}
	if r.IntN(2) == 0 {
		loop("Subscribe", wire.SUBSCRIBE, func() error { return s.C.Subscribe(far(), []mqtt.Topic{topicOf("f", 0, nil)}) })
	}
	if r.IntN(2) == 0 {
		loop("Unsubscribe", wire.UNSUBSCRIBE, func() error { return s.C.Unsubscribe(far(), []string{"f"}) })
	}
	if r.IntN(2) == 0 {
		loop("KeepAlive", wire.PINGREQ, func() error { return s.C.KeepAlive() })
	}
	at := 1 + r.IntN(1+r.IntN(80))
	kind := r.IntN(3)
	will := r.IntN(2) == 0
	// The end begins while the client writes its at-th packet, or when the callers have finished.
	gate := make(chan struct{})
	end := func() { // connection locked
		if begun.Swap(true) {
			return
		}
		switch kind {
		case 0:
			close(gate)
		case 1:
			s.Conn.SendLocked(&wire.Packet{Type: wire.DISCONNECT, Reason: 0x8B, Short: 1})
		case 2:
			s.Conn.EndLocked(io.EOF)
		}
	}
	var ends []*sim.Op
	if kind == 0 {
		for g, lim := 0, 1+r.IntN(2); g < lim; g++ {
			ends = append(ends, sim.Go("Disconnect", func() error {
				<-gate
				err := s.C.Disconnect(far(), will)
				if err == nil {
					over.Store(true)
				}
				return err
			}))
		}
	}
	written := 0
	s.Conn.Lock()
	s.Conn.OnPacket = func(p *wire.Packet) {
		autoAck(s.Conn, p)
		if written++; written == at {
			end()
		}
	}
	s.Conn.Unlock()
	close(ready)
	polls := 0
	err = sim.Drive(func() (bool, error) {
		if polls++; polls > 3000 || allDone(ops) {
			s.Conn.Lock()
			end()
			s.Conn.Unlock()
		}
		idle, err := s.Poll()
		if err != nil {
			over.Store(true)
		}
		sample()
		return idle || err != nil, nil
	}, append(append([]*sim.Op(nil), ops...), ends...)...)
	for err == nil && s.C.IsConnected() {
		// Everybody returned before the end was polled.
		s.Conn.Lock()
		end()
		s.Conn.Unlock()
		if e := sim.Await(ends...); e != nil {
			err = e
		}
		s.Poll()
	}
	if stuckErr(err) != nil {
		k.Fail("calls wait on after the end", "%v", err)
		return
	}
	if m := lie.Load(); m != nil {
		k.Fail("IsConnected lies", "IsConnected was %s", *m)
	}
	for _, o := range append(append([]*sim.Op(nil), ops...), ends...) {
		if o.Panic != "" {
			k.Fail("panic", "%s: %s", o.Name, o.Panic)
			return
		}
	}
	if !s.Conn.Closed() || s.C.IsConnected() {
		k.Fail("not ended", "closed %v, connected %v", s.Conn.Closed(), s.C.IsConnected())
	}
	if e := s.Conn.StreamErr(true); e != nil {
		k.Fail("broken stream", "%v", e)
	}
	outs := s.Conn.Packets()
	counts := [16]int64{}
	for i, o := range outs {
		counts[o.P.Type]++
		if o.P.Type == wire.DISCONNECT && i != len(outs)-1 {
			k.Fail("packets after DISCONNECT", "after DISCONNECT the client wrote %s", outList(outs[i+1:]))
		}
	}
	good := 0
	for _, e := range ends {
		if e.Err == nil {
			good++
		} else if !errors.Is(e.Err, mqtt.ErrClientNotConnected) {
			k.Fail("Disconnect fails", "Disconnect returned %v", e.Err)
		}
	}
	if kind == 0 && (good != 1 || counts[wire.DISCONNECT] != 1) {
		k.Fail("not one DISCONNECT", "%d calls to Disconnect succeeded, %d DISCONNECT packets were written", good, counts[wire.DISCONNECT])
	}
	for _, typ := range []int{wire.PUBLISH, wire.SUBSCRIBE, wire.UNSUBSCRIBE, wire.PINGREQ} {
		if n := oks[typ].Load(); n > counts[typ] {
			k.Fail("success without packet", "%d calls succeeded but %d %s packets were written", n, counts[typ], wire.TypeNames[typ])
		}
		k.Count("calls before the end", int(oks[typ].Load()))
	}
	es, _ := drain(ev)
	nd := 0
	for i, e := range es {
		if int(e.PacketType) == wire.DISCONNECT {
			nd++
			if i != len(es)-1 {
				k.Fail("event after DISCONNECT", "event %v after the DISCONNECT event", view(es[i+1].Data))
			}
		}
	}
	if len(es) < 2000 && (kind < 2 && nd != 1 || kind == 2 && nd != 0) {
		k.Fail("DISCONNECT events", "the end (kind %d) was signalled %d times", kind, nd)
	}
	k.refuses(s, "the end")
	k.Count("racing calls ended", len(ops))
	k.Distinct("race", s.Conn.Log())
}

// c19Step stops one operation at one of its calls on the connection, lets the connection end meanwhile, and resumes it.
func c19Step(k *Ck, r *rand.Rand, i int) {
	s, err := NewSess(Opt{Expiry: 5, Prepare: func(s *Sess) { s.Conn.OnPacket = func(p *wire.Packet) { autoAck(s.Conn, p) } }})
	if err != nil {
		return
	}
	k.Log(s.Conn.Log)
	name, f := pickOp(s, r.IntN(6), r.IntN(3))
	point := []string{"SetDeadline", "Write", "MidWrite"}[r.IntN(3)]
	if point == "MidWrite" {
		s.Conn.SplitW = func(n int) int { return 1 }
	}
	gate, reached := make(chan struct{}), make(chan struct{})
	var armed, once atomic.Bool
	armed.Store(true)
	s.Conn.Hook = func(p string) {
		if p == point && armed.Load() && once.CompareAndSwap(false, true) {
			close(reached)
			<-gate
		}
	}
	op := sim.Go(name, f)
	sim.Settle(op)
	select {
	case <-reached:
	default:
		armed.Store(false)
	}
	disc := sim.Go("Disconnect", func() error { return s.C.Disconnect(sim.NewCtx(sim.Far), true) })
	sim.Settle(op, disc)
	close(gate)
	if e := sim.Drive(func() (bool, error) { s.Poll(); return true, nil }, op, disc); e != nil {
		k.Fail("stuck", "%s stopped at %s while Disconnect runs: %v", name, point, e)
		return
	}
	if op.Panic != "" || disc.Panic != "" {
		k.Fail("panic", "%s%s", op.Panic, disc.Panic)
		return
	}
	outs := s.Conn.Packets()[1:]
	for j, o := range outs {
		if o.P.Type == wire.DISCONNECT && j != len(outs)-1 {
			k.Fail("packets after DISCONNECT", "%s stopped at %s: after DISCONNECT the client wrote %s", name, point, outList(outs[j+1:]))
		}
	}
	if disc.Err != nil {
		k.Fail("Disconnect fails", "Disconnect returned %v while %s was stopped at %s", disc.Err, name, point)
	}
	if op.Err == nil && len(outs) < 2 && name != "Poll" {
		k.Fail("success without packet", "%s returned nil but the client wrote %s", name, outList(outs))
	}
	if e := s.Conn.StreamErr(true); e != nil {
		k.Fail("broken stream", "%v", e)
	}
	k.refuses(s, "Disconnect")
	k.Count("stopped at "+point, 1)
	k.Distinct("step", name, point, s.Conn.Log())
}

// pickOp returns one operation.
func pickOp(s *Sess, n, qos int) (string, func() error) {
	ctx := sim.NewCtx(sim.Far)
	switch n {
	case 0:
		return "Poll", func() error { return s.C.Poll(ctx) }
	case 1:
		return "Subscribe", func() error { return s.C.Subscribe(ctx, []mqtt.Topic{topicOf("f", 1, nil)}) }
	case 2:
		return "Unsubscribe", func() error { return s.C.Unsubscribe(ctx, []string{"f"}) }
	case 3:
		return "KeepAlive", func() error { return s.C.KeepAlive() }
	}
	return fmt.Sprintf("Publish QoS %d", qos), func() error { return s.C.Publish(ctx, pub(qos, "t", []byte("payload"))) }
}

var _ = packets.MQTT5

func allDone(ops []*sim.Op) bool {
	for _, o := range ops {
		if !o.Done() {
			return false
		}
	}
	return true
}
