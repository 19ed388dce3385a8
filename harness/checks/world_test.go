package checks

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"sort"
	"strings"

	"github.com/waj334/tinygo-mqtt/mqtt"
	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	"github.com/waj334/tinygo-mqtt/mqtt/packets/primitives"
	"verif/harness/sim"
	"verif/harness/wire"
)

// finding is a violation noticed by an online monitor.
type finding struct{ props, sig, msg string }

// mon is the online monitor of the wire: it runs inside the connection, under its lock, so it sees every packet and
// every consumed acknowledgement at the exact moment it happens, and is as precise with concurrent callers as without.
type mon struct {
	conn  *sim.Conn
	store *sim.Store
	srm   int
	out   map[uint16]*exch // publishes written on this connection, unfinished
	left  map[uint16]*exch // unfinished publishes of earlier connections, in storage
	ctl   map[uint16]int   // SUBSCRIBE/UNSUBSCRIBE identifiers in use, with the type of their acknowledgement
	bad   []finding
	maxQ  int
	ids   int
}

type exch struct {
	id      uint16
	qos     int
	rec     bool // PUBREC received
	payload string
	lost    bool // its write failed
}

func newMon(c *sim.Conn, st *sim.Store, srm int) *mon {
	return &mon{conn: c, store: st, srm: srm, out: map[uint16]*exch{}, left: map[uint16]*exch{}, ctl: map[uint16]int{}}
}

func (m *mon) fail(props, sig, f string, a ...any) {
	m.conn.Logf("VIOLATION "+f, a...)
	m.bad = append(m.bad, finding{props, sig, fmt.Sprintf(f, a...)})
}

func (m *mon) id(p *wire.Packet) {
	m.ids++
	what := wire.TypeNames[p.Type]
	if p.ID == 0 {
		m.fail("C17", "zero identifier", "%v has packet identifier 0", p)
		return
	}
	if m.out[p.ID] != nil {
		m.fail("C17", "identifier of an unacknowledged PUBLISH reused", "%s uses identifier %d of an unacknowledged PUBLISH", what, p.ID)
	} else if m.ctl[p.ID] != 0 {
		m.fail("C17", "identifier of a pending SUBSCRIBE or UNSUBSCRIBE reused", "%s uses identifier %d of a pending SUBSCRIBE or UNSUBSCRIBE", what, p.ID)
	} else if m.left[p.ID] != nil {
		m.fail("C17", "identifier of a stored PUBLISH reused", "%s uses identifier %d of an unfinished PUBLISH of an earlier connection", what, p.ID)
	}
}

// wrote observes a packet the client wrote (connection locked).
func (m *mon) wrote(p *wire.Packet) {
	switch p.Type {
	case wire.PUBLISH:
		if p.QoS() == 0 {
			return
		}
		m.id(p)
		m.out[p.ID] = &exch{id: p.ID, qos: p.QoS(), payload: string(p.Payload)}
		if n := len(m.out); n > m.maxQ {
			m.maxQ = n
		}
		if len(m.out) > m.srm {
			m.fail("C13", "quota exceeded", "%d PUBLISH packets with QoS>0 unacknowledged, the Receive Maximum is %d", len(m.out), m.srm)
		}
		if m.store != nil && !m.store.Has(p.ID) {
			m.fail("C15", "published before stored", "%v was written while it is not in the storage", p)
		}
	case wire.SUBSCRIBE, wire.UNSUBSCRIBE:
		m.id(p)
		m.ctl[p.ID] = p.Type + 1
	case wire.PUBREC:
		if m.store != nil && !m.store.Has(p.ID) {
			m.fail("C15", "acknowledged before recorded", "%v was written while there is no record in the storage", p)
		}
	}
}

// consumed returns what happens in the model when the client has read a packet (connection locked).
func (m *mon) consumed(p *wire.Packet) func() {
	return func() {
		e, l := m.out[p.ID], m.left[p.ID]
		switch p.Type {
		case wire.PUBACK:
			if e != nil && e.qos == 1 {
				delete(m.out, p.ID)
			}
			if l != nil && l.qos == 1 {
				delete(m.left, p.ID)
			}
		case wire.PUBREC:
			if e != nil && e.qos == 2 {
				e.rec = true
				if p.Reason >= 0x80 {
					delete(m.out, p.ID)
				}
			}
			if l != nil && l.qos == 2 {
				l.rec = true
				if p.Reason >= 0x80 {
					delete(m.left, p.ID)
				}
			}
		case wire.PUBCOMP:
			if e != nil && e.qos == 2 {
				delete(m.out, p.ID)
			}
			if l != nil && l.qos == 2 {
				delete(m.left, p.ID)
			}
		case wire.SUBACK, wire.UNSUBACK:
			if m.ctl[p.ID] == p.Type {
				delete(m.ctl, p.ID)
			}
		}
	}
}

// send feeds a packet and lets the monitor see its consumption.
func (m *mon) send(p *wire.Packet) { m.conn.SendMark(p, m.consumed(p)) }

func (m *mon) sendLocked(p *wire.Packet) { m.conn.SendMarkLocked(p, m.consumed(p)) }

// ---- the world: one client, a model broker and every caller under the harness's control ----

type pubOp struct {
	op        *sim.Op
	ctx       *sim.Ctx
	pub       *packets.Publish
	want      *wire.Packet
	written   bool
	cancelled bool
	collected bool
	chosen    uint16 // packet identifier set by the caller
	lenient   bool   // the chosen identifier is or may be in use
}

type subOp struct {
	op        *sim.Op
	ctx       *sim.Ctx
	unsub     bool
	filters   []string
	id        uint16
	written   bool
	answered  bool
	codes     []byte
	cancelled bool
}

// Profile weighs the actions of a world.
type Profile struct {
	SRM, CRM     int // Receive Maximum of server and client
	UseStore     bool
	MemStore     bool
	Rng          func(r *rand.Rand) func() uint32
	W            map[string]int
	Steps        int
	MaxWait      int
	Frag         bool
	SessionReuse bool
}

type World struct {
	k  *Ck
	r  *rand.Rand
	p  Profile
	s  *Sess
	m  *mon
	st *sim.Store

	ev      mqtt.EventChannel
	pubs    []*pubOp
	subs    []*subOp
	in2     map[uint16]string // unreleased incoming QoS 2, by identifier
	conn2   map[uint16]bool   // those received on this connection
	rec     map[uint16]bool   // those that must have a record in storage
	stale   map[uint16]string // entries of a session the server has discarded: they may stay in the storage
	probing bool              // at the end: publishes leave the choice of the identifier to the client
	fresh   bool              // the server reported no session on this connection
	seen    int
	acks    []string
	other   []string
	nmsg    int
	ended   bool
	foreign bool // ended by what breaks another property
	trace   []string
	conns   int
	inIDs   []uint16
	resend  *wire.Packet
	lost    []uint16 // identifiers of publishes on this connection that could not be written
	q1      int      // QoS 1 publishes sent and not yet known to be acknowledged
}

// fail reports a violation if it belongs to the running check and ends the case in any event, because the model is no
// longer in step.
func (w *World) fail(props, sig, f string, a ...any) {
	if !strings.Contains(props, w.k.ID) {
		// Another property's. The history ends with this step, whose other observations still count.
		w.foreign = true
		return
	}
	if !w.ended {
		w.k.Fail(sig, f, a...)
	}
	w.ended = true
}

func (w *World) over() bool { return w.ended || w.foreign }

func newWorld(k *Ck, r *rand.Rand, p Profile) *World {
	w := &World{k: k, r: r, p: p, in2: map[uint16]string{}, conn2: map[uint16]bool{}, rec: map[uint16]bool{}, stale: map[uint16]string{}, fresh: true}
	if p.UseStore {
		w.st = sim.NewStore(nil)
	}
	w.connect(0)
	return w
}

func (w *World) connect(session byte) {
	o := Opt{RecvMax: uint16(w.p.SRM), ClntMax: uint16(w.p.CRM), Sim: w.st}
	if w.p.SRM == 65535 && w.r.IntN(2) == 0 {
		o.RecvMax = 0
	}
	if w.p.Frag {
		o.Frag = frag(w.r)
	}
	if w.p.Rng != nil {
		o.Rng = w.p.Rng(w.r)
	}
	old := w.m
	o.Connack = &wire.Packet{Type: wire.CONNACK, Session: session}
	if o.RecvMax > 0 {
		o.Connack.Props = []wire.Prop{{ID: 0x21, N: uint32(o.RecvMax)}}
	}
	if w.r.IntN(2) == 0 {
		// What else the server says about itself changes nothing here.
		for _, p := range serverProps(w.r, wire.CONNACK, 8) {
			switch p.ID {
			case 0x21, 0x13, 0x27: // Receive Maximum, Server Keep Alive, Maximum Packet Size
			default:
				o.Connack.Props = append(o.Connack.Props, p)
			}
		}
		w.r.Shuffle(len(o.Connack.Props), func(i, j int) {
			o.Connack.Props[i], o.Connack.Props[j] = o.Connack.Props[j], o.Connack.Props[i]
		})
	}
	o.Prepare = func(s *Sess) {
		w.s = s
		w.m = newMon(s.Conn, w.st, w.p.SRM)
		if old != nil && w.st != nil {
			w.m.left = old.left
			for id, e := range old.out {
				w.m.left[id] = e
			}
		}
		s.Conn.OnPacket = w.m.wrote
		w.ev = s.C.CreateEventChannel(4096)
	}
	w.seen = 0
	w.acks, w.other, w.lost = nil, nil, nil
	w.conn2 = map[uint16]bool{}
	w.conns++
	s, err := NewSess(o)
	if err != nil {
		w.fail("C10", "accepting CONNACK refused", "Connect returned %v on an accepting CONNACK", err)
		return
	}
	w.k.Log(s.Conn.Log)
	w.sync()
	drain(w.ev)
	w.other = nil
}

// sync brings the model up to date with what the client wrote and which calls returned.
func (w *World) sync() {
	outs := w.s.Conn.Packets()
	for _, o := range outs[w.seen:] {
		p := o.P
		switch p.Type {
		case wire.PUBLISH:
			var op *pubOp
			for _, q := range w.pubs {
				if string(q.want.Payload) == string(p.Payload) && q.want.Topic == p.Topic {
					op = q
				}
			}
			if op == nil {
				w.fail("C12", "PUBLISH nobody asked for", "the client wrote %v, which no caller published", p)
				continue
			}
			if op.written {
				w.fail("C12", "published twice", "%v was written twice for one call", p)
			}
			if op.cancelled {
				w.fail("C26", "written after the context was done", "%v was written although its context is done", p)
			}
			op.written = true
			q := *op.want
			q.ID = p.ID
			if op.chosen != 0 && p.QoS() > 0 && p.ID != op.chosen {
				w.fail("C12 C17", "chosen identifier replaced", "the client wrote %v although the caller chose identifier %d", p, op.chosen)
			}
			if p.Flags != q.Flags || !wire.SameProps(p.Props, q.Props) || (p.QoS() == 0) != (p.ID == 0) {
				w.fail("C12", "PUBLISH differs from the caller's", "the client wrote %v for %v", p, op.want)
			}
			w.k.Count("PUBLISH written", 1)
		case wire.SUBSCRIBE, wire.UNSUBSCRIBE:
			var op *subOp
			for _, q := range w.subs {
				if q.unsub == (p.Type == wire.UNSUBSCRIBE) && !q.written && sameFilters(q.filters, p.Subs) {
					op = q
				}
			}
			if op == nil {
				w.fail("C18 C23", "SUBSCRIBE nobody asked for", "the client wrote %v, which no caller asked for", p)
				continue
			}
			op.written, op.id = true, p.ID
			w.k.Count(wire.TypeNames[p.Type]+" written", 1)
		case wire.PUBACK, wire.PUBREC, wire.PUBREL, wire.PUBCOMP:
			a := reaction(p.Type, p.ID)
			if p.Reason == 0x92 {
				a += " 0x92"
			}
			w.acks = append(w.acks, a)
			if bad := badReason(p); bad {
				w.fail("C11 C12", "wrong reason code sent", "the client wrote %v", p)
			}
		case wire.CONNECT:
		default:
			w.other = append(w.other, p.String())
		}
	}
	w.seen = len(outs)
	if err := w.s.Conn.StreamErr(false); err != nil {
		w.fail("C01 C11 C12 C23", "malformed stream", "%v", err)
	}
	w.s.Conn.Lock()
	bad := w.m.bad
	w.m.bad = nil
	w.s.Conn.Unlock()
	for _, b := range bad {
		w.fail(b.props, b.sig, "%s", b.msg)
	}
}

// badReason reports an acknowledgement with a reason code that it cannot have, or that refuses a valid message. The code
// for an unknown identifier is left to the model of the exchanges.
func badReason(p *wire.Packet) bool {
	switch p.Type {
	case wire.PUBACK, wire.PUBREC:
		return p.Reason != 0 && p.Reason != 0x10
	case wire.PUBREL, wire.PUBCOMP:
		return p.Reason != 0 && p.Reason != 0x92
	}
	return false
}

func sameFilters(f []string, s []wire.Sub) bool {
	if len(f) != len(s) {
		return false
	}
	for i := range f {
		if f[i] != s[i].Filter {
			return false
		}
	}
	return true
}

// settle waits for all callers to return or block, then checks what each of them did.
func (w *World) settle() {
	var ops []*sim.Op
	for _, p := range w.pubs {
		if !p.collected {
			ops = append(ops, p.op)
		}
	}
	for _, s := range w.subs {
		ops = append(ops, s.op)
	}
	sim.Settle(ops...)
	w.sync()
	if w.ended {
		return
	}
	w.s.Conn.Lock()
	free := w.m.srm - len(w.m.out)
	w.s.Conn.Unlock()
	var keep []*pubOp
	for _, p := range w.pubs {
		if !p.op.Done() {
			keep = append(keep, p)
			p.lenient = p.lenient || p.chosen != 0
			if p.cancelled {
				w.fail("C26", "Publish ignores its context", "Publish still waits although its context is done")
			} else if p.written {
				w.fail("C21 C13", "Publish does not return", "Publish wrote its packet but does not return")
			} else if p.pub.QoS == 0 {
				w.fail("C13 C21", "QoS 0 publish held back", "Publish of QoS 0 does not return; %d of %d quota in use", w.m.srm-free, w.m.srm)
			} else if free > 0 {
				w.fail("C13", "waits although quota is free", "Publish waits although only %d of %d publishes are unacknowledged", w.m.srm-free, w.m.srm)
			}
			w.k.Count("Publish found waiting for quota", 1)
			continue
		}
		if p.op.Panic != "" {
			w.fail(w.k.ID, "panic", "Publish panicked: %s", p.op.Panic)
		}
		switch {
		case p.op.Err == nil && !p.written:
			w.fail("C12", "nothing written", "Publish returned nil but wrote nothing")
		case p.op.Err != nil && p.written:
			w.fail("C12", "error although published", "Publish returned %v although it wrote the PUBLISH", p.op.Err)
		case p.op.Err != nil && !p.cancelled && p.lenient:
			w.k.Count("publishes refused for a chosen identifier in use", 1)
		case p.op.Err != nil && !p.cancelled:
			w.fail("C12 C13 C17", "valid Publish fails", "Publish returned %v", p.op.Err)
		}
		p.collected = true
	}
	w.pubs = keep
	var ks []*subOp
	for _, s := range w.subs {
		name := "Subscribe"
		if s.unsub {
			name = "Unsubscribe"
		}
		if !s.op.Done() {
			if s.answered {
				w.fail("C18", name+" misses its acknowledgement", "%s does not return although its acknowledgement (id %d, codes % x) was received", name, s.id, s.codes)
			}
			if s.cancelled {
				w.fail("C26", name+" ignores its context", "%s still waits although its context is done", name)
			}
			if !s.written {
				w.fail("C18 C21 C13", name+" does not send", "%s waits without having written its packet", name)
			}
			ks = append(ks, s)
			continue
		}
		if s.op.Panic != "" {
			w.fail(w.k.ID, "panic", "%s panicked: %s", name, s.op.Panic)
		}
		switch {
		case !s.answered && s.cancelled:
			if s.op.Err == nil {
				w.fail("C26 C18", name+" succeeds without acknowledgement", "%s returned nil without acknowledgement", name)
			}
			// The identifier stays in use until the acknowledgement arrives; remember it for late answers.
			if s.written {
				ks = append(ks, s)
			}
			continue
		case !s.answered:
			w.fail("C18", name+" returns without its acknowledgement", "%s (id %d) returned %v without its acknowledgement", name, s.id, s.op.Err)
		case len(s.codes) != len(s.filters):
			if s.op.Err == nil {
				w.fail("C18", name+" accepts a wrong number of reason codes", "%s returned nil on %d reason codes for %d filters", name, len(s.codes), len(s.filters))
			}
		default:
			if !s.cancelled {
				if msg := wantCodes(s.codes, s.op.Err); msg != "" {
					w.fail("C18", name+" returns the wrong result", "%s with codes % x returned %v, want %s", name, s.codes, s.op.Err, msg)
				}
			}
		}
	}
	w.subs = ks
	w.checkStore()
}

// wantCodes compares an acknowledged call's result with its reason codes.
func wantCodes(codes []byte, err error) string {
	for _, c := range codes {
		if c >= 0x80 {
			var rc mqtt.ReasonCode
			if !errors.As(err, &rc) || byte(rc) != c {
				return fmt.Sprintf("reason code %#x", c)
			}
			return ""
		}
	}
	if err != nil {
		return "nil"
	}
	return ""
}

// checkStore compares the storage with the set of unfinished exchanges.
func (w *World) checkStore() {
	if w.st == nil || w.ended {
		return
	}
	got := w.st.Snapshot()
	w.s.Conn.Lock()
	defer w.s.Conn.Unlock()
	want := map[uint16]string{}
	for id := range w.rec {
		want[id] = "record"
	}
	for _, m := range []map[uint16]*exch{w.m.left, w.m.out} {
		for id, e := range m {
			want[id] = "publish " + e.payload
			if e.rec {
				want[id] = "pubrec"
			}
		}
	}
	var diff []string
	for id, x := range want {
		g, ok := got[id]
		if !ok {
			diff = append(diff, fmt.Sprintf("%d (%s) is missing", id, x))
			continue
		}
		switch v := g.(type) {
		case *packets.Publish:
			if x != "publish "+string(v.Payload) || uint16(v.PacketIdentifier) != id {
				diff = append(diff, fmt.Sprintf("%d is a PUBLISH %s, want %s", id, v.Payload, x))
			}
		case *packets.Pubrec:
			if x != "pubrec" && x != "record" || uint16(v.PacketIdentifier) != id {
				diff = append(diff, fmt.Sprintf("%d is a PUBREC record, want %s", id, x))
			}
		default:
			if strings.HasPrefix(x, "publish") {
				diff = append(diff, fmt.Sprintf("%d is a %T, want %s", id, g, x))
			}
		}
	}
	for id, g := range got {
		if _, ok := want[id]; !ok && w.stale[id] == "" {
			diff = append(diff, fmt.Sprintf("%d (%T) does not belong to any unfinished exchange", id, g))
		}
	}
	if len(diff) > 0 {
		sort.Strings(diff)
		kind := strings.SplitN(diff[0], " ", 2)[1]
		w.s.Conn.Unlock()
		w.fail("C15", "storage: "+firstWords(kind), "storage is wrong: %s", strings.Join(diff, "; "))
		w.s.Conn.Lock()
	}
	w.k.Count("storage states compared", 1)
	w.k.Max("stored", len(want))
}

func firstWords(s string) string {
	switch {
	case strings.Contains(s, "missing"):
		return "entry missing"
	case strings.Contains(s, "does not belong"):
		return "entry left behind"
	}
	return "wrong entry"
}

// ---- actions ----

func (w *World) msg() string {
	w.nmsg++
	return fmt.Sprintf("m%d.%d", w.conns, w.nmsg)
}

func (w *World) publish(qos int) {
	pl := w.msg()
	p := &packets.Publish{QoS: packets.QoS(qos), Topic: ps([]string{"t", "a/b", "$x/y", "/"}[w.r.IntN(4)]), Payload: []byte(pl), Retain: w.r.IntN(4) == 0}
	want := &wire.Packet{Type: wire.PUBLISH, Flags: byte(qos) << 1, Topic: string(p.Topic), Payload: []byte(pl)}
	if p.Retain {
		want.Flags |= 1
	}
	if qos > 0 && w.r.IntN(5) == 0 {
		p.Duplicate = true
		want.Flags |= 8
	}
	if w.r.IntN(4) == 0 {
		p.UserProperties = primitives.PrimitiveStringMap{"k": ps(pl)}
		want.Props = append(want.Props, wire.Prop{ID: 0x26, S: "k", V: pl})
	}
	if w.r.IntN(6) == 0 {
		p.MessageExpiryInterval = primitives.PrimitiveUint32(1 + w.r.Uint32N(1<<31))
		want.Props = append(want.Props, wire.Prop{ID: 0x02, N: uint32(p.MessageExpiryInterval)})
	}
	if w.r.IntN(4) == 0 {
		p.ContentType = "x/y"
		want.Props = append(want.Props, wire.Prop{ID: 0x03, S: "x/y"})
	}
	if w.r.IntN(6) == 0 {
		p.Read(make([]byte, w.r.IntN(len(pl)+2))) // the payload was looked at before
	}
	ctx := sim.NewCtx(sim.Far)
	o := &pubOp{ctx: ctx, pub: p, want: want}
	if w.r.IntN(8) == 0 && (qos == 0 || !w.probing) {
		p.PacketIdentifier = primitives.PrimitiveUint16(w.inID())
		if qos > 0 {
			id := p.PacketIdentifier.Value()
			w.s.Conn.Lock()
			o.chosen = id
			o.lenient = w.m.out[id] != nil || w.m.ctl[id] != 0 || w.m.left[id] != nil || w.rec[id] || w.stale[id] != ""
			w.s.Conn.Unlock()
			w.k.Count("publishes with a chosen identifier", 1)
		}
	}
	s := w.s
	w.tracef("publish q%d %s", qos, pl)
	w.pubs = append(w.pubs, o)
	o.op = sim.Go("Publish "+pl, func() error { return s.C.Publish(ctx, p) })
	w.settle()
}

func (w *World) tracef(f string, a ...any) { w.trace = append(w.trace, fmt.Sprintf(f, a...)) }

func (w *World) subscribe(unsub bool) {
	n := 1 + w.r.IntN(3)
	var fs []string
	for i := 0; i < n; i++ {
		w.nmsg++
		fs = append(fs, fmt.Sprintf("f%d/%d", w.nmsg, i))
	}
	if w.r.IntN(6) == 0 { // the same filter again
		fs = append(fs, fs[w.r.IntN(n)])
		w.k.Count("calls naming a filter twice", 1)
	}
	ctx := sim.NewCtx(sim.Far)
	o := &subOp{ctx: ctx, unsub: unsub, filters: fs}
	s := w.s
	w.tracef("subscribe %v %v", unsub, fs)
	w.subs = append(w.subs, o)
	if unsub {
		o.op = sim.Go("Unsubscribe", func() error { return s.C.Unsubscribe(ctx, fs) })
	} else {
		var ts []mqtt.Topic
		for _, f := range fs {
			ts = append(ts, topicOf(f, w.r.IntN(3), nil))
		}
		o.op = sim.Go("Subscribe", func() error { return s.C.Subscribe(ctx, ts) })
	}
	w.settle()
}

func (w *World) cancel() {
	var c []func()
	for _, p := range w.pubs {
		p := p
		if !p.cancelled {
			c = append(c, func() { p.cancelled = true; p.ctx.End(ctxErrs[w.r.IntN(2)]) })
		}
	}
	for _, s := range w.subs {
		s := s
		if !s.cancelled && !s.answered {
			c = append(c, func() { s.cancelled = true; s.ctx.End(ctxErrs[w.r.IntN(2)]) })
		}
	}
	if len(c) > 0 {
		w.tracef("cancel")
		c[w.r.IntN(len(c))]()
		w.k.Count("waiting calls cancelled", 1)
		w.settle()
	}
}

// ackPkt builds an acknowledgement in one of its short forms.
// The reason codes with which a server may refuse a PUBLISH and a filter.
var pubFail = []byte{0x80, 0x83, 0x87, 0x90, 0x91, 0x97, 0x99}
var subFail = []byte{0x80, 0x83, 0x87, 0x8F, 0x91, 0x97, 0x9E, 0xA1, 0xA2}

// pubCode is a reason code for a PUBACK or PUBREC, one in n of which fails.
func pubCode(r *rand.Rand, n int) byte {
	if r.IntN(n) == 0 {
		return pubFail[r.IntN(len(pubFail))]
	}
	return []byte{0, 0, 0x10}[r.IntN(3)]
}

func ackPkt(r *rand.Rand, typ int, id uint16, rc byte) *wire.Packet {
	p := &wire.Packet{Type: typ, ID: id, Reason: rc}
	switch r.IntN(4) {
	case 0:
		p.Props = []wire.Prop{{ID: 0x1F, S: "why"}}
	case 1:
		p.Short = 1
	case 2:
		if rc == 0 {
			p.Short = 2
		} else {
			p.Short = 1
		}
	}
	return p
}

// reaction is the acknowledgement a packet from the server calls for.
func reaction(typ int, id uint16) string { return fmt.Sprintf("%s %d", wire.TypeNames[typ], id) }

// pick chooses what the server sends next.
func (w *World) pick() *wire.Packet {
	r := w.r
	if p := w.resend; p != nil {
		w.resend = nil
		return p
	}
	for try := 0; try < 20; try++ {
		switch w.choose("ack", "ackleft", "in0", "in1", "in2", "dup2", "rel", "relunknown", "noise", "suback") {
		case "ack":
			w.s.Conn.Lock()
			e := randExch(r, w.m.out)
			w.s.Conn.Unlock()
			if e == nil {
				continue
			}
			return w.ackFor(e)
		case "ackleft":
			w.s.Conn.Lock()
			e := randExch(r, w.m.left)
			w.s.Conn.Unlock()
			if e == nil {
				continue
			}
			w.k.Count("acknowledgements of messages not sent on this connection", 1)
			return w.ackFor(e)
		case "in0":
			return &wire.Packet{Type: wire.PUBLISH, Flags: byte(r.IntN(2)), Topic: "in/0", Payload: []byte(w.msg())}
		case "in1":
			if len(w.conn2)+w.q1 >= w.p.CRM {
				continue
			}
			return &wire.Packet{Type: wire.PUBLISH, Flags: 2 | byte(r.IntN(2)) | byte(r.IntN(2))<<3, ID: w.inID(), Topic: "in/1", Payload: []byte(w.msg())}
		case "in2":
			id := w.inID()
			if _, used := w.in2[id]; used || len(w.conn2)+w.q1 >= w.p.CRM {
				continue
			}
			if w.stale[id] == "publish" || w.stale[id] == "record" && !w.fresh {
				continue // see the known findings
			}
			// DUP says nothing about what this client received before.
			return &wire.Packet{Type: wire.PUBLISH, Flags: 4 | byte(r.IntN(2)) | byte(r.IntN(3)/2)<<3, ID: id, Topic: "in/2", Payload: []byte(w.msg())}
		case "dup2":
			id, ok := randKey(r, w.in2)
			if !ok || !w.conn2[id] && len(w.conn2)+w.q1 >= w.p.CRM {
				continue
			}
			if len(w.conn2)+w.q1 >= w.p.CRM {
				w.k.Count("repeats at exhausted quota", 1)
			}
			return &wire.Packet{Type: wire.PUBLISH, Flags: 4 | byte(r.IntN(2)) | byte(min(r.IntN(5), 1))<<3, ID: id, Topic: "in/2", Payload: []byte(w.in2[id])}
		case "rel":
			id, ok := randKey(r, w.in2)
			if !ok {
				continue
			}
			return ackPkt(r, wire.PUBREL, id, 0)
		case "relunknown":
			id := w.inID()
			if _, ok := w.in2[id]; ok {
				continue
			}
			return ackPkt(r, wire.PUBREL, id, []byte{0, 0x92}[r.IntN(2)])
		case "noise":
			// Acknowledgements nothing waits for: unknown identifiers and wrong kinds.
			id := w.inID()
			w.s.Conn.Lock()
			e := w.m.out[id]
			if r.IntN(2) == 0 {
				if x := randExch(r, w.m.out); x != nil {
					e, id = x, x.id
				}
			}
			if len(w.lost) > 0 && r.IntN(2) == 0 {
				id = w.lost[r.IntN(len(w.lost))]
				e = w.m.out[id]
			}
			l := w.m.left[id]
			w.s.Conn.Unlock()
			typ := []int{wire.PUBACK, wire.PUBCOMP, wire.PUBREC}[r.IntN(3)]
			qos := 0
			if e != nil {
				qos = e.qos
			} else if l != nil {
				qos = l.qos
			}
			if qos == 1 && typ == wire.PUBACK || qos == 2 && typ != wire.PUBACK {
				continue
			}
			return ackPkt(r, typ, id, 0)
		case "suback":
			if len(w.subs) == 0 {
				continue
			}
			s := w.subs[r.IntN(len(w.subs))]
			if s.answered || !s.written {
				continue
			}
			return w.ackSub(s)
		}
	}
	return nil
}

func (w *World) ackFor(e *exch) *wire.Packet {
	r := w.r
	switch {
	case e.qos == 1:
		return ackPkt(r, wire.PUBACK, e.id, pubCode(r, 3))
	case !e.rec:
		return ackPkt(r, wire.PUBREC, e.id, pubCode(r, 2))
	case r.IntN(5) == 0:
		return ackPkt(r, wire.PUBREC, e.id, []byte{0, 0x10}[r.IntN(2)])
	}
	return ackPkt(r, wire.PUBCOMP, e.id, []byte{0, 0, 0, 0x92}[r.IntN(4)])
}

func (w *World) ackSub(s *subOp) *wire.Packet {
	r := w.r
	p := &wire.Packet{Type: wire.SUBACK, ID: s.id}
	if s.unsub {
		p.Type = wire.UNSUBACK
	}
	n := len(s.filters)
	switch {
	case w.p.W["badcount"] > 0 && r.IntN(8) == 0:
		n += []int{-1, 1, 2}[r.IntN(3)]
		if n == 0 {
			n = 2 + len(s.filters)
		}
	case w.p.W["wrongkind"] > 0 && r.IntN(8) == 0:
		p.Type = wire.SUBACK + wire.UNSUBACK - p.Type
	case w.p.W["wrongkind"] > 0 && r.IntN(10) == 0:
		p.ID ^= uint16(1 + r.IntN(65535))
		for _, q := range w.subs {
			if q.written && q.id == p.ID {
				p.ID = s.id
			}
		}
	}
	for i := 0; i < n; i++ {
		c := byte(0)
		if r.IntN(4) == 0 {
			c = subFail[r.IntN(len(subFail))]
		} else if p.Type == wire.SUBACK {
			c = byte(r.IntN(3))
		} else if r.IntN(4) == 0 {
			c = 0x11
		}
		p.Codes = append(p.Codes, c)
	}
	if r.IntN(4) == 0 {
		p.Props = []wire.Prop{{ID: 0x1F, S: "r"}}
	}
	return p
}

func (w *World) inID() uint16 {
	// A small range, overlapping what the client picks, or identifiers far apart that have many bits in common.
	if len(w.inIDs) == 0 {
		for i := 0; i < 8; i++ {
			w.inIDs = append(w.inIDs, uint16(1+i))
		}
		if w.r.IntN(4) == 0 {
			b := uint16(w.r.Uint32())
			for i := range w.inIDs {
				w.inIDs[i] = max(1, []uint16{b, ^b, b ^ 0x8000, b ^ 0xff00, b ^ 0xff, b>>8 | b<<8, b + 1, b ^ 1<<w.r.IntN(16)}[i])
			}
		}
	}
	return w.inIDs[w.r.IntN(len(w.inIDs))]
}

func randExch(r *rand.Rand, m map[uint16]*exch) *exch {
	var ids []int
	for id := range m {
		ids = append(ids, int(id))
	}
	if len(ids) == 0 {
		return nil
	}
	sort.Ints(ids)
	return m[uint16(ids[r.IntN(len(ids))])]
}

func randKey[V any](r *rand.Rand, m map[uint16]V) (uint16, bool) {
	var ids []int
	for id := range m {
		ids = append(ids, int(id))
	}
	if len(ids) == 0 {
		return 0, false
	}
	sort.Ints(ids)
	return uint16(ids[r.IntN(len(ids))]), true
}

func (w *World) choose(names ...string) string {
	total := 0
	for _, n := range names {
		total += w.p.W[n]
	}
	if total == 0 {
		return ""
	}
	x := w.r.IntN(total)
	for _, n := range names {
		if x -= w.p.W[n]; x < 0 {
			return n
		}
	}
	return ""
}

// deliver lets the server send packets, polls until all are consumed and checks the reactions. Each packet is chosen
// after the model has accounted for the one before.
func (w *World) deliver(n int) { w.deliverF(n, false) }

func (w *World) deliverF(n int, fault bool) {
	if fault && len(w.pubs) > 0 {
		return // the write that fails could be that of a publish which was waiting
	}
	w.q1 = 0
	var sent []*wire.Packet
	var wantAcks []string
	var wantEv []*wire.Packet
	opt := map[int]bool{}     // positions of wantAcks that are optional
	unknown := map[int]bool{} // positions of wantAcks for unknown identifiers
	for i := 0; i < n; i++ {
		p := w.pick()
		if p == nil {
			break
		}
		sent = append(sent, p)
		w.tracef("server %v", p)
		w.k.Count("server "+wire.TypeNames[p.Type], 1)
		event := true
		switch p.Type {
		case wire.PUBLISH:
			switch p.QoS() {
			case 1:
				w.q1++
				wantAcks = append(wantAcks, reaction(wire.PUBACK, p.ID))
			case 2:
				wantAcks = append(wantAcks, reaction(wire.PUBREC, p.ID))
				if _, dup := w.in2[p.ID]; dup {
					event = false
					w.k.Count("duplicate QoS 2 publishes", 1)
					if !w.conn2[p.ID] {
						w.k.Count("duplicates across connections", 1)
					}
				} else {
					w.in2[p.ID] = string(p.Payload)
				}
				w.s.Conn.Lock()
				clash := w.m.out[p.ID] != nil || w.m.left[p.ID] != nil
				w.s.Conn.Unlock()
				if w.st != nil && !clash {
					w.rec[p.ID] = true
					if w.stale[p.ID] != "" {
						delete(w.stale, p.ID)
						w.k.Count("messages with the identifier of a discarded session's record", 1)
					}
				} else if clash {
					w.k.Count("identifier used in both directions", 1)
				}
				w.conn2[p.ID] = true
			}
		case wire.PUBREL:
			if _, ok := w.in2[p.ID]; !ok {
				unknown[len(wantAcks)] = true
			}
			wantAcks = append(wantAcks, reaction(wire.PUBCOMP, p.ID))
			delete(w.in2, p.ID)
			delete(w.conn2, p.ID)
			delete(w.rec, p.ID)
		case wire.PUBREC:
			w.s.Conn.Lock()
			e := w.m.out[p.ID]
			l := w.m.left[p.ID]
			w.s.Conn.Unlock()
			if p.Reason < 0x80 {
				if !(e != nil && e.qos == 2 || l != nil && l.qos == 2) {
					opt[len(wantAcks)] = true
				}
				wantAcks = append(wantAcks, reaction(wire.PUBREL, p.ID))
			}
		case wire.SUBACK, wire.UNSUBACK:
			for _, s := range w.subs {
				if s.written && s.id == p.ID && s.unsub == (p.Type == wire.UNSUBACK) && !s.answered {
					s.answered, s.codes = true, p.Codes
				}
			}
		}
		if event {
			wantEv = append(wantEv, p)
		}
		w.m.sendWorld(p)
		if p.Type == wire.PUBACK || p.Type == wire.PUBREC || p.Type == wire.PUBCOMP || p.Type == wire.SUBACK || p.Type == wire.UNSUBACK ||
			w.r.IntN(2) == 0 {
			break // let the client react before the model picks what depends on it
		}
	}
	if len(sent) == 0 {
		return
	}
	faulted, k, bad := 0, 0, anyErr(w.r)
	if fault {
		s := w.s
		s.Conn.WFault = func(n int) (int, error) {
			faulted++
			if k = w.r.IntN(2) * w.r.IntN(n); w.r.IntN(4) == 0 {
				k = 1
			}
			return k, bad
		}
	}
	err := w.s.PollAll()
	w.s.Conn.WFault = nil
	if faulted > 0 {
		// The acknowledgement could not be written. The packet was received all the same.
		w.tracef("its acknowledgement cannot be written")
		w.k.Count("acknowledgements that could not be written", 1)
		w.sync()
		if err == nil {
			w.fail("C11 C12", "failed acknowledgement not reported", "the answer to %v could not be written, but Poll returned nil", sent)
		}
		if k > 0 && (!w.s.Conn.Closed() || w.s.C.IsConnected()) {
			w.fail("C11 C12 C15", "partial packet left on an open connection", "%d bytes of the answer to %v were written, but the connection stays open", k, sent)
		}
		if faulted > 1 || len(w.acks) > 0 || len(w.other) > 0 {
			w.fail("C11 C12", "unexpected packet", "after a failed answer to %v the client tried %d writes and wrote %v %v", sent, faulted, w.acks, w.other)
		}
		w.checkEvents(sent, wantEv)
		if w.over() {
			return
		}
		p := sent[0]
		if k > 0 || w.s.Conn.Closed() || !w.s.C.IsConnected() || p.Type == wire.PUBLISH && p.QoS() != 2 || w.r.IntN(3) == 0 {
			w.cut()
			return
		}
		// The connection goes on, and so does the server: the packet again.
		q := *p
		if q.Type == wire.PUBLISH {
			q.Flags |= 8 * byte(w.r.IntN(2))
		}
		w.k.Count("packets repeated after their answer could not be written", 1)
		w.resend = &q
		w.deliver(1)
		return
	}
	if err != nil {
		w.fail("C11 C12 C13 C14 C15 C17 C18", "Poll fails on valid packets", "Poll returned %v after %v", err, sent)
		return
	}
	w.settle()
	if w.ended {
		return
	}
	if !matchAcks(w.acks, wantAcks, opt, unknown) {
		props := "C11"
		for _, p := range sent {
			if p.Type == wire.PUBREC || p.Type == wire.PUBACK || p.Type == wire.PUBCOMP {
				props = "C11 C12"
			}
		}
		w.fail(props, "wrong reaction to "+wire.TypeNames[sent[0].Type], "the server sent %v; the client answered %v, want %v", sent, w.acks, wantAcks)
	}
	w.k.Count("reactions checked", len(wantAcks))
	w.acks = nil
	if len(w.other) > 0 {
		w.fail("C12 C11 C14", "unexpected packet", "after %v the client wrote %v", sent, w.other)
	}
	w.checkEvents(sent, wantEv)
}

// checkEvents compares what was signalled with what was received.
func (w *World) checkEvents(sent, wantEv []*wire.Packet) {
	ev, closed := drain(w.ev)
	if closed {
		w.fail("C09 C08", "channel closed", "the event channel was closed")
		return
	}
	for i := 0; i < len(ev) || i < len(wantEv); i++ {
		switch {
		case i >= len(ev):
			w.fail(evProps(wantEv[i]), "event missing", "%v was not signalled (sent %v)", wantEv[i], sent)
		case i >= len(wantEv):
			w.fail("C08 C11 C12", "event signalled twice", "unexpected event %v (sent %v)", view(ev[i].Data), sent)
		case int(ev[i].PacketType) != wantEv[i].Type:
			w.fail(evProps(wantEv[i]), "wrong event", "%v was signalled as type %d", wantEv[i], ev[i].PacketType)
		default:
			if d := diffServer(ev[i].Data, wantEv[i]); d != "" {
				w.fail(evProps(wantEv[i]), "wrong event", "%v was signalled %s", wantEv[i], d)
			}
		}
	}
	w.k.Count("events compared", len(wantEv))
}

func evProps(p *wire.Packet) string {
	if p.Type == wire.PUBLISH || p.Type == wire.PUBREL {
		return "C08 C11"
	}
	return "C08 C12"
}

// matchAcks compares acknowledgements in order; optional ones may be absent, and those in reaction to unknown identifiers
// may say so.
func matchAcks(got, want []string, opt, unknown map[int]bool) bool {
	i := 0
	for j, x := range want {
		if i < len(got) && (got[i] == x || (opt[j] || unknown[j]) && got[i] == x+" 0x92") {
			i++
		} else if !opt[j] {
			return false
		}
	}
	return i == len(got)
}

func (m *mon) sendWorld(p *wire.Packet) { m.send(p) }

// cut ends the connection and starts over with a new client on the same storage.
func (w *World) cut() { w.cutTo(false) }

// cutTo does that, with a server that may have discarded the session.
func (w *World) cutTo(fresh bool) {
	w.tracef("cut %v", fresh)
	w.k.Count("connections cut", 1)
	w.s.Conn.End([]error{io.EOF, errInjected}[w.r.IntN(2)])
	if _, err := w.s.Poll(); err == nil {
		w.fail("C19", "end of stream not reported", "Poll returned nil at the end of the stream")
		return
	}
	if w.s.C.IsConnected() {
		w.fail("C19", "connected after the stream ended", "IsConnected is true after the stream ended")
		return
	}
	var ops []*sim.Op
	for _, p := range w.pubs {
		ops = append(ops, p.op)
	}
	for _, s := range w.subs {
		ops = append(ops, s.op)
	}
	if err := sim.Await(ops...); err != nil {
		w.fail("C21 C19", "calls stuck after the connection ended", "%v", err)
		return
	}
	for _, o := range ops {
		if o.Err == nil {
			w.fail("C19", "success after the connection ended", "%s returned nil after the connection ended", o.Name)
		}
	}
	w.sync()
	w.pubs, w.subs = nil, nil
	w.checkStore()
	if w.over() {
		return
	}
	session := byte(0)
	w.fresh = fresh || w.st == nil
	if !w.fresh {
		session = 1
	} else {
		w.in2 = map[uint16]string{}
	}
	if fresh && w.st != nil {
		w.k.Count("sessions discarded by the server", 1)
		w.s.Conn.Lock()
		for _, m := range []map[uint16]*exch{w.m.left, w.m.out} {
			for id := range m {
				w.stale[id] = "publish"
				delete(m, id)
			}
		}
		w.s.Conn.Unlock()
		for id := range w.rec {
			w.stale[id] = "record"
			delete(w.rec, id)
		}
	}
	for id := range w.in2 {
		if !w.rec[id] {
			delete(w.in2, id) // identifier used in both directions: see the known findings
		}
	}
	w.connect(session)
}

// failWrite makes a QoS>0 publish fail at a chosen byte.
func (w *World) failWrite() {
	w.s.Conn.Lock()
	full := len(w.m.out) >= w.m.srm
	w.s.Conn.Unlock()
	if full {
		return
	}
	w.tracef("write failure")
	s := w.s
	p := pub(1+w.r.IntN(2), "t", []byte(w.msg()))
	on, bad := true, anyErr(w.r)
	s.Conn.Fault = func(point string) error {
		if on && point == "Write" {
			return bad
		}
		return nil
	}
	before := s.Conn.Bytes()
	op := sim.Go("Publish (write fails)", func() error { return s.C.Publish(sim.NewCtx(sim.Far), p) })
	err := sim.Await(op)
	on = false
	if err != nil {
		w.fail("C13 C21", "stuck after a write failure", "%v", err)
		return
	}
	if op.Err == nil {
		w.fail("C12", "write failure not reported", "Publish returned nil although the write failed")
		return
	}
	if s.Conn.Bytes() != before {
		w.fail("C12", "bytes after a write failure", "bytes were written after the write failed")
		return
	}
	w.k.Count("publishes whose write failed", 1)
	if id := uint16(p.PacketIdentifier); id != 0 && w.st == nil {
		w.lost = append(w.lost, id)
		if w.r.IntN(3) == 0 { // the caller tries again
			w.again(p)
		}
	} else if id != 0 {
		s.Conn.Lock()
		w.m.left[id] = &exch{id: id, qos: int(p.QoS), payload: string(p.Payload), lost: true}
		s.Conn.Unlock()
	}
	w.settle()
}

// again publishes a packet again that could not be written, and is not in any storage.
func (w *World) again(p *packets.Publish) {
	o := &pubOp{ctx: sim.NewCtx(sim.Far), pub: p, chosen: uint16(p.PacketIdentifier)}
	o.want = &wire.Packet{Type: wire.PUBLISH, Flags: byte(p.QoS) << 1, Topic: string(p.Topic), Payload: p.Payload}
	w.s.Conn.Lock()
	o.lenient = w.m.out[o.chosen] != nil || w.m.ctl[o.chosen] != 0
	w.s.Conn.Unlock()
	w.tracef("publish %s again", p.Payload)
	w.k.Count("publishes repeated after their write failed", 1)
	s := w.s
	w.pubs = append(w.pubs, o)
	o.op = sim.Go("Publish again", func() error { return s.C.Publish(o.ctx, p) })
	w.settle()
}

// step performs one random action.
func (w *World) step() {
	switch w.choose("pub0", "pub1", "pub2", "sub", "unsub", "cancel", "deliver", "cut", "failwrite", "ping", "failack", "newsession") {
	case "pub0":
		w.publish(0)
	case "pub1":
		if len(w.pubs) < w.p.MaxWait {
			w.publish(1)
		}
	case "pub2":
		if len(w.pubs) < w.p.MaxWait {
			w.publish(2)
		}
	case "sub":
		if len(w.subs) < 6 {
			w.subscribe(false)
		}
	case "unsub":
		if len(w.subs) < 6 {
			w.subscribe(true)
		}
	case "cancel":
		w.cancel()
	case "deliver":
		w.deliver(1 + w.r.IntN(4))
	case "cut":
		w.cut()
	case "newsession":
		w.cutTo(true)
	case "failack":
		w.deliverF(1, true)
	case "failwrite":
		w.failWrite()
	case "ping":
		w.ping()
	}
}

func (w *World) ping() {
	s := w.s
	op := sim.Go("KeepAlive", func() error { return s.C.KeepAlive() })
	if err := sim.Await(op); err != nil {
		w.fail("C13 C21", "KeepAlive held back", "%v", err)
		return
	}
	w.sync()
	if op.Err != nil || len(w.other) != 1 || w.other[0] != "PINGREQ" {
		w.fail("C20 C13", "KeepAlive", "KeepAlive returned %v and wrote %v", op.Err, w.other)
	}
	w.other = nil
}

// finish lets the broker complete every exchange and checks that everything comes to rest.
func (w *World) finish() {
	save := w.p.W
	w.p.W = map[string]int{"ack": 4, "rel": 2, "suback": 2}
	for i := 0; i < 4000 && !w.over(); i++ {
		w.s.Conn.Lock()
		n := len(w.m.out)
		w.s.Conn.Unlock()
		var waiting int
		for _, s := range w.subs {
			if !s.answered {
				waiting++
			}
		}
		if n == 0 && len(w.in2) == 0 && waiting == 0 && len(w.pubs) == 0 {
			break
		}
		w.deliver(1)
	}
	w.p.W = save
	if w.over() {
		return
	}
	// Acknowledgements of messages of earlier connections can still arrive.
	for len(w.m.left) > 0 && !w.over() && w.st != nil {
		w.s.Conn.Lock()
		e := randExch(w.r, w.m.left)
		w.s.Conn.Unlock()
		p := ackPkt(w.r, wire.PUBACK, e.id, 0)
		if e.qos == 2 {
			p = ackPkt(w.r, wire.PUBREC, e.id, 0x80)
			if e.rec {
				p.Type, p.Reason = wire.PUBCOMP, 0
			}
			if p.Short == 2 && p.Reason != 0 {
				p.Short = 1
			}
		}
		w.m.send(p)
		if err := w.s.PollAll(); err != nil {
			w.fail("C15", "late acknowledgement refused", "Poll returned %v on %v", err, p)
			return
		}
		w.settle()
	}
	drain(w.ev)
	w.acks = nil
	if w.over() {
		return
	}
	left := 0
	if w.st != nil {
		for _, id := range w.st.IDs() {
			if w.stale[uint16(id)] == "" {
				left++
			}
		}
	}
	if left != 0 {
		w.fail("C15", "storage: entry left behind", "all exchanges are finished but the storage holds %v", w.st.IDs())
	}
	w.k.Count("worlds brought to rest", 1)
	w.quotaProbe()
}

// quotaProbe checks that the whole quota, and no more, is available once every exchange is finished.
func (w *World) quotaProbe() {
	if w.p.SRM > 64 || w.over() {
		return
	}
	w.probing = true
	for i := 0; i <= w.p.SRM && !w.over(); i++ {
		w.publish(1 + w.r.IntN(2))
	}
	if w.over() {
		return
	}
	if len(w.pubs) != 1 {
		w.fail("C13", "quota at rest", "after everything was acknowledged %d of %d publishes were sent at once, the Receive Maximum is %d", w.p.SRM+1-len(w.pubs), w.p.SRM+1, w.p.SRM)
	}
	w.k.Count("full quota probed", 1)
}

func (w *World) run() {
	for i := 0; i < w.p.Steps && !w.over(); i++ {
		w.step()
		w.k.Beat()
	}
	if !w.over() {
		w.finish()
	}
	w.k.Max("publishes unacknowledged", w.m.maxQ)
	w.k.Count("identifiers checked", w.m.ids)
	w.k.Distinct(strings.Join(w.trace, ";"))
	if len(w.trace) > 0 {
		w.k.SampleLog(w.trace)
	}
	// Release whatever still waits.
	if w.s != nil {
		w.s.Conn.End(io.EOF)
		w.s.Poll()
	}
	for _, p := range w.pubs {
		p.ctx.End(context.Canceled)
	}
	for _, s := range w.subs {
		s.ctx.End(context.Canceled)
	}
}

var _ = primitives.PrimitiveUint16(0)

var ctxErrs = []error{context.Canceled, context.DeadlineExceeded}
