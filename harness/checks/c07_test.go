package checks

import (
	"fmt"
	"math/rand/v2"
	"strings"
	"testing"

	"github.com/waj334/tinygo-mqtt/mqtt"
	"verif/harness/sim"
	"verif/harness/wire"
)

// words lists every string over the alphabet of 1 to n letters.
func words(alphabet string, n int) (out []string) {
	level := []string{""}
	for i := 0; i < n; i++ {
		var next []string
		for _, w := range level {
			for _, c := range alphabet {
				next = append(next, w+string(c))
			}
		}
		out = append(out, next...)
		level = next
	}
	return
}

// router is a client with one channel per filter.
type router struct {
	s  *Sess
	f  []string
	ch []mqtt.EventChannel
}

func newRouter(filters []string) (*router, error) {
	s, err := NewSess(Opt{Prepare: func(s *Sess) { s.Conn.OnPacket = func(p *wire.Packet) { autoAck(s.Conn, p) } }})
	if err != nil {
		return nil, err
	}
	r := &router{s: s, f: filters}
	for len(r.ch) < len(filters) {
		var ts []mqtt.Topic
		for i := 0; i < 500 && len(r.ch) < len(filters); i++ {
			ch := s.C.CreateEventChannel(2)
			ts = append(ts, topicOf(filters[len(r.ch)], 0, &ch))
			r.ch = append(r.ch, ch)
		}
		op, err := s.Run("Subscribe", func() error { return s.C.Subscribe(sim.NewCtx(sim.Far), ts) })
		if err != nil {
			return nil, err
		}
		if op.Err != nil || op.Panic != "" {
			return nil, fmt.Errorf("%v %s", op.Err, op.Panic)
		}
	}
	return r, nil
}

// route publishes to a topic and compares where it arrives with the reference matcher.
func (r *router) route(k *Ck, topic string) {
	r.s.Conn.Send(&wire.Packet{Type: wire.PUBLISH, Topic: topic})
	var err error
	if p := sim.Catch(func() { err = r.s.PollAll() }); p != "" {
		k.Fail("panic", "matching topic %q panics: %s", topic, p)
		return
	}
	if err != nil {
		k.Fail("publish refused", "a PUBLISH to %q makes Poll return %v", topic, err)
		return
	}
	hits := 0
	for i, f := range r.f {
		n := 0
		for more := true; more; {
			select {
			case _, ok := <-r.ch[i].C:
				if !ok {
					more = false
				} else {
					n++
				}
			default:
				more = false
			}
		}
		want := 0
		if wire.Match(topic, f) {
			want = 1
			hits++
		}
		if n != want {
			if want == 1 && n == 0 {
				k.Fail("no match: "+shape(f), "topic %q is not routed to filter %q, which matches it", topic, f)
			} else if n > 1 {
				continue // duplicates are C08's
			} else {
				k.Fail("false match: "+shape(f), "topic %q is routed to filter %q, which does not match it", topic, f)
			}
		}
	}
	k.Count("pairs compared", len(r.f))
	k.Count("matching pairs", hits)
}

// shape names the kind of a filter.
func shape(f string) string {
	s := ""
	for _, c := range []string{"#", "+", "/", "$"} {
		if strings.Contains(f, c) {
			s += c
		}
	}
	if s == "" {
		return "literal"
	}
	return s
}

func TestC07(t *testing.T) {
	k := Start(t, "C07", "every topic name against every topic filter up to a length over the letters that matter (a b / + # $), and random longer "+
		"ones, as PUBLISH packets through Poll with one bound channel per filter, compared with a reference matcher working on split levels")
	// Shared subscription filters ($share/...) cannot be formed with these letters.
	filters := words("ab/+#$", k.N(4, 5))
	topics := words("ab/$", k.N(5, 6))
	const chunk = 300
	n := (len(filters) + chunk - 1) / chunk
	tn := k.N(4, 16)
	k.Cases("exhaustive", n*tn, func(i int, r *rand.Rand) {
		fs := filters[i%n*chunk : min(len(filters), (i%n+1)*chunk)]
		rt, err := newRouter(fs)
		if err != nil {
			return
		}
		for j := i / n; j < len(topics); j += tn {
			rt.route(k, topics[j])
			if j&63 == 0 {
				k.Beat()
			}
		}
		k.Distinct("exhaustive", i)
		k.Sample("filters %q.. against topics %q..", fs[:3], topics[i/n])
	})
	k.Cases("random", k.N(8000, 16000), func(i int, r *rand.Rand) {
		lv := func(wild bool) string {
			switch x := r.IntN(10); {
			case wild && x < 2:
				return "+"
			case wild && x == 2 && r.IntN(3) == 0:
				return "#"
			case wild && x == 3 && r.IntN(4) == 0:
				return []string{"a+", "+a", "#a", "a#", "++", "##", "+#"}[r.IntN(7)]
			case x == 4:
				return ""
			case x == 5:
				return "$SYS"
			case x == 6:
				return text(r, 1+r.IntN(20))
			case x == 7:
				// Letters whose bytes or code points resemble the special ones in their low bits, and other cases of
				// the plain ones.
				l := []string{"\u00af", "\u00e3", "\u00eb", "\u00e4", "\uff0b", "\uff03", "\uff0f", "\u012b", "\u0123", "\u012f", "\U0001f600",
					"A", "B", "Sport", "a ", " ", "\t", "*", "?", "%2f", "\\", "."}
				w := l[r.IntN(len(l))]
				if r.IntN(2) == 0 {
					w += l[r.IntN(len(l))]
				}
				return w
			case x == 8 && r.IntN(20) == 0:
				return strings.Repeat("x", []int{127, 128, 255, 256, 1000, 4000}[r.IntN(6)])
			}
			return []string{"a", "b", "aa", "ab", "sport", "tennis", "player1"}[r.IntN(7)]
		}
		clean := func(s string) string { // text() may produce wildcard letters
			return strings.Map(func(c rune) rune {
				if c == '+' || c == '#' {
					return 'p'
				}
				return c
			}, s)
		}
		var topics []string
		for j := 0; j < 20; j++ {
			var l []string
			n := 1 + r.IntN(8)
			if r.IntN(100) == 0 {
				n = []int{31, 32, 33, 64, 127, 128, 129, 255, 256, 257, 1000}[r.IntN(11)]
			}
			for x := 0; x < n; x++ {
				l = append(l, clean(lv(false)))
			}
			if s := strings.Join(l, "/"); s != "" {
				topics = append(topics, s)
			}
		}
		seen := map[string]bool{}
		var filters []string
		add := func(f string) {
			if f != "" && !seen[f] && !strings.HasPrefix(f, "$share/") {
				seen[f] = true
				filters = append(filters, f)
			}
		}
		for j := 0; j < 60; j++ {
			if r.IntN(3) == 0 {
				var l []string
				for x, lim := 0, 1+r.IntN(8); x < lim; x++ {
					l = append(l, lv(true))
				}
				add(strings.Join(l, "/"))
				continue
			}
			// Derive a filter from a topic so that matches and near misses are common.
			l := strings.Split(topics[r.IntN(len(topics))], "/")
			l = append([]string(nil), l...)
			for x := range l {
				if r.IntN(4) == 0 {
					l[x] = "+"
				}
			}
			switch r.IntN(6) {
			case 0:
				l = append(l, "#")
			case 1:
				l[len(l)-1] = "#"
			case 2:
				l = append(l[:r.IntN(len(l))], "#")
			case 3:
				l = append(l, lv(true))
			case 4:
				if len(l) > 1 {
					l = l[:len(l)-1]
				}
			}
			add(strings.Join(l, "/"))
		}
		if len(filters) == 0 || len(topics) == 0 {
			return
		}
		rt, err := newRouter(filters)
		if err != nil {
			return
		}
		for _, tp := range topics {
			rt.route(k, tp)
		}
		k.Distinct("random", topics, filters)
	})
	k.End()
}
