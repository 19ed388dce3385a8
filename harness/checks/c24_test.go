package checks

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"strings"
	"testing"

	"github.com/waj334/tinygo-mqtt/mqtt"
	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	"verif/harness/sim"
	"verif/harness/wire"
)

func TestC24(t *testing.T) {
	c := Start(t, "C24", "random sequences of option setters (any order, repeated) on filters of every length including shared ones, encoded directly and sent by Subscribe, against a model holding the last value of each option; distinct by call sequence")
	defer c.End()

	filters := []string{"", "a", "ab", "$", "$s", "$sh", "$sha", "$shar", "$share", "$share/", "$share/g/t", "$share/g/#", "$shared", "$shared/x",
		"$shareX/g/t", "share/g/t", "/$share/g/t", "$SYS/x", "#", "+", "a/b/c/d/e/f", "x$share/", "$Share/g/t"}

	type model struct {
		f          string
		qos, rh    byte
		nl, rap    bool
		trace      []string
		haveFilter bool
	}
	want := func(m *model) (opt, mask byte) {
		opt, mask = m.qos|m.rh<<4, 0xff
		if m.rap {
			opt |= 8
		}
		if m.nl && !strings.HasPrefix(m.f, "$share/") {
			opt |= 4
		}
		if m.f == "$share" {
			mask &^= 4 // neither a shared subscription nor a useful filter
		}
		return
	}
	step := func(r *rand.Rand, tp *packets.Topic, m *model) {
		switch r.IntN(5) {
		case 0:
			m.f = filters[r.IntN(len(filters))]
			if r.IntN(3) == 0 {
				m.f = str(r, 40)
			}
			m.trace = append(m.trace, fmt.Sprintf("SetFilter(%q)", m.f))
			tp.SetFilter(m.f)
		case 1:
			m.qos = byte(r.IntN(3))
			m.trace = append(m.trace, fmt.Sprintf("SetQoS(%d)", m.qos))
			tp.SetQoS(packets.QoS(m.qos))
		case 2:
			m.nl = r.IntN(3) != 0
			m.trace = append(m.trace, fmt.Sprintf("SetNoLocal(%v)", m.nl))
			tp.SetNoLocal(m.nl)
		case 3:
			m.rap = r.IntN(2) == 0
			m.trace = append(m.trace, fmt.Sprintf("SetRetainAsPublished(%v)", m.rap))
			tp.SetRetainAsPublished(m.rap)
		case 4:
			m.rh = byte(r.IntN(3))
			m.trace = append(m.trace, fmt.Sprintf("SetRetainHandling(%d)", m.rh))
			tp.SetRetainHandling(packets.RetainHandlingOption(m.rh))
		}
	}
	check := func(tp *packets.Topic, m *model, opt byte, how string) {
		w, mask := want(m)
		if opt&mask != w&mask {
			c.Fail("option byte", "%s: option byte %08b, want %08b after %s", how, opt, w, strings.Join(m.trace, " "))
		}
		c.Count("option bytes checked", 1)
		if strings.HasPrefix(m.f, "$share/") && m.nl {
			c.Count("no local masked on shared filter", 1)
		}
	}
	encode := func(m *model, tp *packets.Topic) {
		if tp.Filter() != m.f {
			c.Fail("filter", "Filter() = %q after %v", tp.Filter(), m.trace)
		}
		var buf bytes.Buffer
		s := &packets.Subscribe{PacketIdentifier: 1, Topics: []packets.Topic{*tp}}
		if _, err := s.WriteTo(&buf); err != nil {
			c.Fail("encode", "SUBSCRIBE for %v: %v", m.trace, err)
			return
		}
		h, body, _, err := wire.Frame(buf.Bytes())
		if err != nil {
			c.Fail("encode", "SUBSCRIBE for %v: %v", m.trace, err)
			return
		}
		p, err := wire.Decode(h, body, true)
		if p == nil || len(p.Subs) != 1 || p.Subs[0].Filter != m.f {
			c.Fail("encode", "SUBSCRIBE for %v: %v %v", m.trace, p, err)
			return
		}
		check(tp, m, p.Subs[0].Opt, "encoded")
		*tp = s.Topics[0] // what is set next is set on the topic that was sent
	}
	// Exhaustive: every sequence of up to 4 setters over a reduced alphabet that starts from nothing.
	type setter struct {
		name string
		f    func(tp *packets.Topic, m *model)
	}
	var alpha []setter
	for _, f := range []string{"a", "$share/g/t", "$shareX/g/t", ""} {
		alpha = append(alpha, setter{"SetFilter(" + f + ")", func(tp *packets.Topic, m *model) { m.f = f; tp.SetFilter(f) }})
	}
	for _, b := range []bool{true, false} {
		alpha = append(alpha, setter{fmt.Sprintf("SetNoLocal(%v)", b), func(tp *packets.Topic, m *model) { m.nl = b; tp.SetNoLocal(b) }})
		alpha = append(alpha, setter{fmt.Sprintf("SetRetainAsPublished(%v)", b), func(tp *packets.Topic, m *model) { m.rap = b; tp.SetRetainAsPublished(b) }})
	}
	for q := byte(0); q < 3; q++ {
		alpha = append(alpha, setter{fmt.Sprintf("SetQoS(%d)", q), func(tp *packets.Topic, m *model) { m.qos = q; tp.SetQoS(packets.QoS(q)) }})
		alpha = append(alpha, setter{fmt.Sprintf("SetRetainHandling(%d)", q), func(tp *packets.Topic, m *model) {
			m.rh = q
			tp.SetRetainHandling(packets.RetainHandlingOption(q))
		}})
	}
	depth := c.N(4, 5)
	c.Cases("every sequence", len(alpha)*len(alpha), func(i int, r *rand.Rand) {
		var rec func(tp packets.Topic, m model, d int)
		rec = func(tp packets.Topic, m model, d int) {
			encode(&m, &tp)
			if d == 0 {
				return
			}
			for _, s := range alpha {
				tp2, m2 := tp, m
				m2.trace = append(append([]string(nil), m.trace...), s.name)
				s.f(&tp2, &m2)
				rec(tp2, m2, d-1)
			}
		}
		var tp packets.Topic
		var m model
		for _, s := range []setter{alpha[i%len(alpha)], alpha[i/len(alpha)]} {
			m.trace = append(m.trace, s.name)
			s.f(&tp, &m)
		}
		c.Distinct("exhaustive", i)
		rec(tp, m, depth-2)
	})
	c.Cases("random", c.N(100000, 200000), func(i int, r *rand.Rand) {
		var tp packets.Topic
		m := &model{}
		for k, n := 0, 1+r.IntN(12); k < n; k++ {
			step(r, &tp, m)
			if r.IntN(3) == 0 {
				encode(m, &tp)
			}
		}
		encode(m, &tp)
		c.Distinct(strings.Join(m.trace, " "))
		if i < 3 {
			c.Sample("%s", strings.Join(m.trace, " "))
		}
	})
	c.Cases("api", c.N(1000, 10000), func(i int, r *rand.Rand) {
		s, err := NewSess(Opt{Prepare: func(s *Sess) { c.Log(s.Conn.Log); s.AutoAck() }})
		if err != nil {
			c.Fail("api", "Connect: %v", err)
			return
		}
		var ts []mqtt.Topic
		var ms []*model
		for k, n := 0, 1+r.IntN(5); k < n; k++ {
			m := &model{}
			tp := mqtt.Topic{}
			for j := 0; j < 8; j++ {
				step(r, &tp.Topic, m)
			}
			if m.f == "" {
				m.f = "f"
				tp.SetFilter(m.f)
			}
			ts = append(ts, tp)
			ms = append(ms, m)
		}
		for round := 0; round < 2; round++ {
			op, err := s.Run("Subscribe", func() error { return s.C.Subscribe(sim.NewCtx(sim.Far), ts) })
			if err != nil || op.Err != nil {
				c.Fail("api", "Subscribe: %v %v %s", op.Err, err, op.Panic)
				return
			}
			outs := s.Conn.Packets()
			p := outs[len(outs)-1].P
			if p.Type != wire.SUBSCRIBE || len(p.Subs) != len(ts) {
				c.Fail("api", "Subscribe wrote %v", p)
				return
			}
			for k, m := range ms {
				if p.Subs[k].Filter != m.f {
					c.Fail("api", "Subscribe wrote the filter %q after %s", p.Subs[k].Filter, strings.Join(m.trace, " "))
				}
				check(&ts[k].Topic, m, p.Subs[k].Opt, "Subscribe")
				// The same topics again, with some other options.
				m.trace = append(m.trace, "Subscribe")
				for j := r.IntN(3); j > 0; j-- {
					step(r, &ts[k].Topic, m)
				}
				if m.f == "" {
					m.f = "f"
					ts[k].SetFilter(m.f)
				}
			}
		}
	})
}
