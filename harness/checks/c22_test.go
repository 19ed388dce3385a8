package checks

import (
	"context"
	"fmt"
	"io"
	"math/rand/v2"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/waj334/tinygo-mqtt/mqtt"
	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	"github.com/waj334/tinygo-mqtt/mqtt/packets/primitives"
	"github.com/waj334/tinygo-mqtt/mqtt/storage/memory"
	"verif/harness/sim"
	"verif/harness/wire"
)

func TestC22(t *testing.T) {
	k := Start(t, "C22", "race detector: every exported operation of the client running on several goroutines at once, during Connect, in the connected state "+
		"with traffic in both directions, and while the connection ends, with memory storage, replaced storages and generators, and consumers of "+
		"all events; and memory storage alone. Every pair of operations is run against each other")
	names := c22Names()
	n := len(names)
	k.Cases("pair", n*n*k.N(4, 20), func(i int, r *rand.Rand) { c22Run(k, r, []int{i % n, i / n % n, i % n, i / n % n}, 12) })
	k.Cases("storm", k.N(2000, 20000), func(i int, r *rand.Rand) {
		var ops []int
		for g, lim := 0, 3+r.IntN(8); g < lim; g++ {
			ops = append(ops, r.IntN(n))
		}
		c22Run(k, r, ops, 10)
	})
	k.Cases("connect", k.N(3000, 20000), func(i int, r *rand.Rand) { c22Connect(k, r, i) })
	k.Cases("clients", k.N(1500, 10000), func(i int, r *rand.Rand) { c22Clients(k, r) })
	k.Cases("memory", k.N(800, 4000), func(i int, r *rand.Rand) { c22Memory(k, r) })
	k.End()
}

// c22Env is what the operations share. Everything of the harness they touch is synchronised on its own.
type c22Env struct {
	s    *Sess
	mu   sync.Mutex
	ch   []mqtt.EventChannel
	seq  atomic.Int64
	ack  *wire.Packet
	disc atomic.Int64 // Disconnect is held back until then

	shared []mqtt.EventChannel // closed by several goroutines, which nothing else orders
}

// share creates channels that are bound to filters or general.
func (e *c22Env) share(c *mqtt.Client) {
	for j := 0; j < 13; j++ {
		e.shared = append(e.shared, c.CreateEventChannel(1))
	}
}

func (e *c22Env) far() context.Context { return sim.NewCtx(sim.Far) }

func c22Names() []string {
	return []string{"Publish 0", "Publish 1", "Publish 2", "Publish with properties", "Publish with identifier", "Subscribe", "Subscribe with channel", "Unsubscribe",
		"KeepAlive", "IsConnected", "KeepAliveInterval", "channel", "close others", "SetStorage", "SetRngFn", "cancelled", "Disconnect", "invalid", "close shared"}
}

func (e *c22Env) do(op, i int) error {
	c := e.s.C
	switch c22Names()[op] {
	case "Publish 0", "Publish 1", "Publish 2":
		return c.Publish(e.far(), pub(op, "t", []byte("payload")))
	case "Publish with properties":
		p := pub(1, "f/x", []byte("payload"))
		p.ContentType, p.CorrelationData = "x", "y"
		return c.Publish(e.far(), p)
	case "Publish with identifier":
		p := pub(1+i%2, "t", nil)
		p.PacketIdentifier = primitives.PrimitiveUint16(20000 + e.seq.Add(1))
		return c.Publish(e.far(), p)
	case "Subscribe":
		if len(e.shared) > 0 && i%2 == 0 {
			return c.Subscribe(e.far(), []mqtt.Topic{topicOf("f/+", 1, &e.shared[i/2%len(e.shared)]), topicOf("f/+", 0, nil)})
		}
		return c.Subscribe(e.far(), []mqtt.Topic{topicOf("f/+", 1, nil)})
	case "Subscribe with channel":
		e.mu.Lock()
		ch := c.CreateEventChannel(2)
		e.ch = append(e.ch, ch)
		e.mu.Unlock()
		return c.Subscribe(e.far(), []mqtt.Topic{topicOf("f/+", 1, &ch), topicOf("in", 0, &ch)})
	case "Unsubscribe":
		return c.Unsubscribe(e.far(), []string{"f/+", "in"})
	case "KeepAlive":
		return c.KeepAlive()
	case "IsConnected":
		for j := 0; j < 10; j++ {
			c.IsConnected()
		}
	case "KeepAliveInterval":
		for j := 0; j < 10; j++ {
			c.KeepAliveInterval()
		}
	case "channel":
		ch := c.CreateEventChannel(1 + i%3)
		select {
		case ev, ok := <-ch.C:
			if ok {
				view(ev.Data)
			}
		default:
		}
		c.CloseEventChannel(ch)
	case "close others":
		e.mu.Lock()
		var ch mqtt.EventChannel
		if len(e.ch) > 0 {
			ch = e.ch[len(e.ch)-1]
		}
		e.mu.Unlock()
		c.CloseEventChannel(ch)
	case "SetStorage":
		c.SetStorage(memory.NewStorage())
	case "SetRngFn":
		c.SetRngFn(seqRng(uint32(i * 1000)))
	case "cancelled":
		ctx := sim.NewCtx(sim.Far)
		op := make(chan error, 1)
		go func() { op <- c.Subscribe(ctx, []mqtt.Topic{topicOf("g", 1, nil)}) }()
		ctx.End(context.Canceled)
		<-op
	case "Disconnect":
		if e.disc.Add(-1) < 0 {
			return c.Disconnect(e.far(), i%2 == 0)
		}
	case "close shared":
		if len(e.shared) > 0 {
			c.CloseEventChannel(e.shared[i%len(e.shared)])
		}
	case "invalid":
		c.Publish(e.far(), pub(1, "", nil))
		c.Subscribe(e.far(), nil)
	}
	return nil
}

// consume reads every event completely until its channel is closed or the case is over.
func (e *c22Env) consume(ch mqtt.EventChannel, quit chan struct{}, wg *sync.WaitGroup) {
	defer wg.Done()
	for {
		select {
		case ev, ok := <-ch.C:
			if !ok {
				return
			}
			view(ev.Data)
		case <-quit:
			return
		}
	}
}

func c22Run(k *Ck, r *rand.Rand, ops []int, reps int) {
	e := &c22Env{}
	e.disc.Store(int64(r.IntN(30)))
	var ev mqtt.EventChannel
	s, err := NewSess(Opt{RecvMax: uint16([]int{1, 3, 0}[r.IntN(3)]), Store: memory.NewStorage(), Expiry: 5, Frag: frag(r), Prepare: func(s *Sess) {
		s.Conn.OnPacket = func(p *wire.Packet) { autoAck(s.Conn, p) }
		ev = s.C.CreateEventChannel(20)
		e.s = s
		e.share(s.C)
	}})
	if err != nil {
		return
	}
	quit := make(chan struct{})
	var wg sync.WaitGroup
	wg.Add(1)
	go e.consume(ev, quit, &wg)
	in := r.IntN(25)
	rr := rand.New(rand.NewPCG(r.Uint64(), 2))
	s.Conn.Lock()
	s.Conn.OnIdle = func() bool { // under the lock of the connection
		if in == 0 {
			return false
		}
		in--
		q := rr.IntN(4)
		if q == 3 { // an acknowledgement nobody waits for
			s.Conn.SendLocked([]*wire.Packet{{Type: wire.PUBACK, ID: uint16(50000 + in)}, {Type: wire.PUBREC, ID: uint16(50000 + in)},
				{Type: wire.PUBREL, ID: uint16(50000 + in)}, {Type: wire.PUBCOMP, ID: uint16(50000 + in)}, {Type: wire.SUBACK, ID: uint16(50000 + in), Codes: []byte{0}},
				{Type: wire.UNSUBACK, ID: uint16(50000 + in), Codes: []byte{0}}, {Type: wire.AUTH, Reason: 0x18}, {Type: wire.PINGRESP}}[rr.IntN(8)])
			return true
		}
		p := &wire.Packet{Type: wire.PUBLISH, Topic: "in", Flags: byte(q << 1), Payload: []byte("data")}
		if q > 0 {
			p.ID = uint16(40000 + in)
		}
		s.Conn.SendLocked(p)
		return true
	}
	s.Conn.Unlock()
	start := make(chan struct{})
	var calls []*sim.Op
	for g, op := range ops {
		calls = append(calls, sim.Go(c22Names()[op], func() error {
			<-start
			for i := 0; i < reps; i++ {
				e.do(op, g+i)
			}
			return nil
		}))
	}
	close(start)
	// Replacing the storage loses exchanges; what still waits then is released by the end of the connection.
	sim.Drive(func() (bool, error) { idle, err := s.Poll(); return idle || err != nil, nil }, calls...)
	s.Conn.End(io.EOF)
	s.PollAll()
	if err := sim.Await(calls...); err != nil {
		return // C21
	}
	close(quit)
	wg.Wait()
	for _, c := range calls {
		if c.Panic != "" {
			return
		}
	}
	k.Count("calls", len(ops)*reps)
	k.Count("packets", s.Conn.NumOut())
	k.Distinct("run", fmt.Sprint(ops), s.Conn.Log())
}

// c22Connect runs other operations while Connect is in progress.
func c22Connect(k *Ck, r *rand.Rand, i int) {
	names := c22Names()
	e := &c22Env{}
	var ev mqtt.EventChannel
	s, err := NewSess(Opt{NoConn: true, Store: memory.NewStorage(), Prepare: func(s *Sess) {
		s.Conn.OnPacket = func(p *wire.Packet) { autoAck(s.Conn, p) }
		ev = s.C.CreateEventChannel(20)
		e.s = s
		e.share(s.C)
	}})
	if err != nil {
		return
	}
	e.disc.Store(int64(r.IntN(30)))
	quit := make(chan struct{})
	var wg sync.WaitGroup
	wg.Add(1)
	go e.consume(ev, quit, &wg)
	ack := &wire.Packet{Type: wire.CONNACK, Props: []wire.Prop{{ID: 0x21, N: 2}, {ID: 0x13, N: 30}}}
	if r.IntN(6) == 0 {
		ack.Reason = 0x87
	}
	s.Conn.Send(ack)
	start := make(chan struct{})
	calls := []*sim.Op{sim.Go("Connect", func() error {
		<-start
		sim.Yield(i % 7)
		return s.C.Connect(e.far(), &packets.Connect{Version: packets.MQTT5, ClientId: "c", KeepAlive: 10, SessionExpiryInterval: 3})
	})}
	for g, lim := 0, 1+r.IntN(4); g < lim; g++ {
		op := (i + g*7) % len(names)
		reps := 1 + r.IntN(20)
		calls = append(calls, sim.Go(names[op], func() error {
			<-start
			for j := 0; j < reps; j++ {
				e.do(op, g+j)
			}
			return nil
		}))
	}
	close(start)
	sim.Drive(func() (bool, error) { idle, err := s.Poll(); return idle || err != nil, nil }, calls...)
	s.Conn.End(io.EOF)
	s.PollAll()
	if sim.Await(calls...) != nil {
		return
	}
	close(quit)
	wg.Wait()
	k.Count("operations during Connect", len(calls)-1)
	k.Distinct("connect", i%len(names), s.Conn.Log())
}

// c22Clients runs several clients of one process at the same time. They share nothing.
func c22Clients(k *Ck, r *rand.Rand) {
	n := len(c22Names())
	var all []*sim.Op
	var ss []*Sess
	quit := make(chan struct{})
	var wg sync.WaitGroup
	for c, lim := 0, 2+r.IntN(2); c < lim; c++ {
		e := &c22Env{}
		e.disc.Store(1 << 30)
		var ev mqtt.EventChannel
		s, err := NewSess(Opt{NoConn: true, Store: memory.NewStorage(), Frag: frag(r), Prepare: func(s *Sess) {
			s.Conn.OnPacket = func(p *wire.Packet) { autoAck(s.Conn, p) }
			ev = s.C.CreateEventChannel(20)
			e.s = s
			e.share(s.C)
		}})
		if err != nil {
			return
		}
		ss = append(ss, s)
		wg.Add(1)
		go e.consume(ev, quit, &wg)
		in := []*wire.Packet{{Type: wire.CONNACK, Props: []wire.Prop{{ID: 0x21, N: 200}, {ID: 0x1F, S: "hello"}}}}
		for j := 0; j < 10; j++ {
			p := serverPacket(r, []int{wire.PUBLISH, wire.PUBLISH, wire.SUBACK, wire.UNSUBACK, wire.PUBREL, wire.AUTH, wire.PUBACK}[r.IntN(7)], 20)
			if p.Type == wire.PUBLISH && p.QoS() > 0 {
				p.ID = uint16(50000 + j)
			}
			in = append(in, p)
		}
		ops := []int{r.IntN(n), r.IntN(n), r.IntN(3)}
		all = append(all, sim.Go("client", func() error {
			s.Conn.Send(in[0])
			if err := s.C.Connect(e.far(), &packets.Connect{Version: packets.MQTT5, ClientId: "c", KeepAlive: 100,
				Username: "u", Will: "w", WillTopic: "t", UserProperties: primitives.PrimitiveStringMap{"a": "b"}}); err != nil {
				return err
			}
			var calls []*sim.Op
			for _, op := range ops {
				calls = append(calls, sim.Go(c22Names()[op], func() error {
					for j := 0; j < 6; j++ {
						e.do(op, j)
					}
					return nil
				}))
			}
			for j, left := 0, 400; left > 0; left-- {
				if left%8 == 0 && j+1 < len(in) {
					j++
					s.Conn.Send(in[j])
				}
				s.Poll()
				done := j+1 == len(in)
				for _, c := range calls {
					done = done && c.Done()
				}
				if done {
					break
				}
				sim.Yield(3)
			}
			s.C.Disconnect(e.far(), true)
			return nil
		}))
	}
	if sim.Await(all...) != nil {
		return
	}
	close(quit)
	wg.Wait()
	for _, s := range ss {
		k.Count("packets of clients side by side", s.Conn.NumOut())
	}
	k.Distinct("clients", ss[0].Conn.Log())
}

func c22Memory(k *Ck, r *rand.Rand) {
	st := memory.NewStorage()
	var ops []*sim.Op
	start := make(chan struct{})
	for g, lim := 0, 2+r.IntN(6); g < lim; g++ {
		seed := r.Uint64()
		ops = append(ops, sim.Go("storage", func() error {
			rr := rand.New(rand.NewPCG(seed, 1))
			<-start
			for i := 0; i < 60; i++ {
				id := uint16(rr.IntN(5))
				switch rr.IntN(3) {
				case 0:
					st.Store(id, &stPacket{i})
				case 1:
					if p, err := st.Get(id); err == nil {
						_ = p.(*stPacket).n
					}
				case 2:
					st.Drop(id)
				}
			}
			return nil
		}))
	}
	close(start)
	sim.Await(ops...)
	k.Count("storage calls", 60*len(ops))
	k.Distinct("memory", r.Uint64())
}
