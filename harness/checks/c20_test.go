package checks

import (
	"context"
	"fmt"
	"math/rand/v2"
	"testing"
	"testing/synctest"
	"time"

	"github.com/waj334/tinygo-mqtt/mqtt"
	"verif/harness/sim"
	"verif/harness/wire"
)

func TestC20(t *testing.T) {
	k := Start(t, "C20", "virtual time: random keep-alive intervals (CONNECT, server override, zero), PINGRESP and other traffic, KeepAlive calls, and "+
		"Polls started before, exactly at and one nanosecond after twice the interval; every verdict and every byte compared with the rule")
	k.Cases("timeline", k.N(150000, 400000), func(i int, r *rand.Rand) { c20Timeline(k, r, i) })
	k.Cases("ping", k.N(20000, 65536), func(i int, r *rand.Rand) { c20Ping(k, r, i) })
	k.End()
}

var keepAlives = []int{0, 1, 2, 3, 5, 10, 30, 60, 127, 128, 255, 256, 300, 600, 1092, 3600, 9000, 18725, 32767, 32768, 40000, 65534, 65535}

// c20Setup connects with random intervals and returns the effective one.
func c20Setup(k *Ck, r *rand.Rand, i int) (t *tclient, ka int, lo, hi time.Time, ok bool) {
	client := keepAlives[i%len(keepAlives)]
	ka = client
	var props []wire.Prop
	if r.IntN(2) == 0 {
		ka = keepAlives[i/len(keepAlives)%len(keepAlives)]
		props = append(props, wire.Prop{ID: 0x13, N: uint32(ka)})
	}
	if r.IntN(3) == 0 {
		props = append(props, wire.Prop{ID: 0x21, N: uint32(1 + r.IntN(65535))})
	}
	delay := []time.Duration{0, time.Second, 40 * time.Second, 24 * time.Hour}[r.IntN(4)]
	time.Sleep(time.Duration(r.IntN(3)) * time.Second)
	lo = time.Now().Add(delay)
	t, err := newTClient(k, uint16(client), delay, props...)
	hi = time.Now()
	if err != nil {
		k.Fail("Connect fails", "%v", err)
		return
	}
	t.logf("Connect with keep-alive %d, server %v", client, props)
	if d := t.c.KeepAliveInterval(); d != time.Duration(ka)*time.Second {
		k.Fail("wrong interval", "KeepAliveInterval is %v, negotiated %ds (CONNECT %d)", d, ka, client)
		return
	}
	return t, ka, lo, hi, true
}

func c20Timeline(k *Ck, r *rand.Rand, i int) {
	synctest.Test(k.T, func(*testing.T) {
		if pn := sim.Catch(func() {
			// lo..hi is when the last of Connect and PINGRESP happened.
			t, ka, lo, hi, ok := c20Setup(k, r, i)
			if !ok {
				return
			}
			if r.IntN(8) == 0 {
				t.n.CloseErr = errInjected
			}
			two := 2 * time.Duration(ka) * time.Second
			for step, lim := 0, 3+r.IntN(20); step < lim; step++ {
				outs := len(t.n.Outs)
				switch r.IntN(8) {
				case 0: // time passes
					time.Sleep(time.Duration(r.Int64N(int64(two)/2 + 1)))
					continue
				case 1:
					if err := t.c.KeepAlive(); err != nil {
						k.Fail("KeepAlive fails", "keep-alive %d: %v", ka, err)
						return
					}
					t.logf("KeepAlive")
					if len(t.n.Outs) != outs+1 || t.n.Outs[outs].P.Type != wire.PINGREQ {
						k.Fail("not one PINGREQ", "keep-alive %d: KeepAlive wrote %v", ka, t.n.Outs[outs:])
						return
					}
					continue
				case 2: // other traffic proves nothing about the server's answer to a ping, and fires nothing either
					p := &wire.Packet{Type: wire.PUBLISH, Topic: "t", Flags: byte(2 * r.IntN(3)), ID: uint16(1 + step)}
					if p.Flags == 0 {
						p.ID = 0
					}
					if r.IntN(2) == 0 {
						kind := r.IntN(6)
						if t.n.Left() > 0 && kind < 2 {
							kind = 2 // the earlier publish may be unacknowledged yet
						}
						switch kind {
						case 0, 1:
							if err := t.c.Publish(sim.NewCtx(time.Time{}), pub(1, "t", nil)); err != nil {
								k.Fail("Publish fails", "keep-alive %d: %v", ka, err)
								return
							}
							p = ackPkt(r, wire.PUBACK, t.n.Outs[len(t.n.Outs)-1].P.ID, pubCode(r, 2))
						case 2:
							p = ackPkt(r, wire.PUBREC, uint16(1+step), pubCode(r, 2))
						case 3:
							p = ackPkt(r, wire.PUBCOMP, uint16(1+step), 0)
						case 4:
							p = ackPkt(r, wire.PUBREL, uint16(1+step), 0)
						case 5:
							p = []*wire.Packet{{Type: wire.SUBACK, ID: 7, Codes: []byte{0}}, {Type: wire.UNSUBACK, ID: 7, Codes: []byte{0}},
								{Type: wire.AUTH, Reason: 0x18, Props: []wire.Prop{{ID: 0x15, S: "m"}}}}[r.IntN(3)]
						}
						k.Count("other packets", 1)
					}
					t.n.Add(time.Now(), p.Encode()...)
				case 3, 4: // a PINGRESP arrives now or later
					t.n.Add(time.Now().Add([]time.Duration{0, 0, time.Second, two / 2, two}[r.IntN(5)]), 0xD0, 0)
					t.logf("server sends PINGRESP")
				case 5: // poll exactly at the edge
					e := []time.Time{lo.Add(two), lo.Add(two).Add(-1), hi.Add(two).Add(1), hi.Add(two).Add(time.Second)}[r.IntN(4)]
					if d := time.Until(e); d > 0 && ka > 0 {
						time.Sleep(d)
					}
				}
				start := time.Now()
				dl := start.Add(time.Duration(r.IntN(4)) * time.Second)
				if r.IntN(6) == 0 {
					dl = start.Add(two + time.Second) // a Poll during which the interval passes
				}
				left := t.n.Left()
				ctx := sim.NewCtx(dl)
				if ka > 0 && start.After(hi.Add(two)) {
					switch r.IntN(5) { // whatever the context, the timeout is due
					case 0:
						ctx = sim.NewCtx(time.Time{})
					case 1:
						ctx.End(context.Canceled)
					case 2:
						ctx = sim.NewCtx(start.Add(-time.Second))
						ctx.End(context.DeadlineExceeded)
					}
				}
				err := t.c.Poll(ctx)
				end := time.Now()
				t.logf("Poll started at %v (%v after the last sign): %v", start.Sub(t0), start.Sub(hi), err)
				k.Count("polls", 1)
				must := ka > 0 && start.After(hi.Add(two))
				mustNot := ka == 0 || !start.After(lo.Add(two))
				due := isReason(err, 0x8D)
				if err != nil && err == t.n.CloseErr && t.n.Closed {
					due = true // told that closing failed instead
					k.Count("timeouts with a failing Close", 1)
				}
				switch {
				case must && !due:
					k.Fail("timeout missed", "keep-alive %d: a Poll started %v after the last sign of the server returned %v", ka, start.Sub(hi), err)
					return
				case mustNot && due:
					k.Fail("early timeout", "keep-alive %d: a Poll started %v after the last sign of the server returned a keep-alive timeout", ka, start.Sub(lo))
					return
				}
				if due {
					k.Count("timeouts", 1)
					if !t.n.Closed {
						k.Fail("left open", "the connection is open after the keep-alive timeout")
					}
					if t.c.IsConnected() {
						k.Fail("still connected", "IsConnected is true after the keep-alive timeout")
					}
					if left != t.n.Left() {
						k.Fail("data consumed", "the Poll that timed out consumed %d bytes", left-t.n.Left())
					}
					for _, o := range t.n.Outs {
						if o.P.Type == wire.DISCONNECT || o.P.Type == wire.CONNECT {
							k.Fail("unexpected packet", "the client wrote %v", o.P)
						}
					}
					k.tRefuses(t)
					k.Distinct("timeline", fmt.Sprint(t.log))
					return
				}
				if err != nil {
					k.Fail("Poll fails", "keep-alive %d: Poll returned %v", ka, err)
					return
				}
				// Only a PINGRESP is a sign of life.
				if took := left - t.n.Left(); took == 2 {
					lo, hi = t.n.LastRead, end
					k.Count("PINGRESP received", 1)
				}
			}
			k.Count("timelines without timeout", 1)
			k.Distinct("timeline", fmt.Sprint(t.log))
			if r.IntN(1500) == 0 {
				k.SampleLog(t.log)
			}
		}); pn != "" {
			k.Fail("panic", "%s", pn)
		}
	})
}

// isReason reports whether the error is this reason code.
func isReason(err error, code byte) bool {
	rc, ok := err.(mqtt.ReasonCode)
	return ok && byte(rc) == code
}

// tRefuses checks that every operation reports that the client is not connected.
func (k *Ck) tRefuses(t *tclient) {
	ctx := context.Background()
	outs := len(t.n.Outs)
	for name, f := range map[string]func() error{
		"Poll":        func() error { return t.c.Poll(ctx) },
		"KeepAlive":   func() error { return t.c.KeepAlive() },
		"Publish":     func() error { return t.c.Publish(ctx, pub(1, "t", nil)) },
		"Publish 0":   func() error { return t.c.Publish(ctx, pub(0, "t", nil)) },
		"Subscribe":   func() error { return t.c.Subscribe(ctx, []mqtt.Topic{topicOf("f", 0, nil)}) },
		"Unsubscribe": func() error { return t.c.Unsubscribe(ctx, []string{"f"}) },
		"Disconnect":  func() error { return t.c.Disconnect(ctx, false) },
	} {
		if err := f(); err == nil {
			k.Fail("operation after timeout", "%s returned nil after the keep-alive timeout", name)
		}
	}
	if len(t.n.Outs) != outs {
		k.Fail("operation after timeout", "the client wrote %v after the keep-alive timeout", t.n.Outs[outs:])
	}
}

// c20Ping counts the PINGREQs of KeepAlive calls at any moment of the interval.
func c20Ping(k *Ck, r *rand.Rand, i int) {
	synctest.Test(k.T, func(*testing.T) {
		if pn := sim.Catch(func() {
			t, ka, _, _, ok := c20Setup(k, r, i)
			if !ok {
				return
			}
			n := 1 + r.IntN(6)
			for j := 0; j < n; j++ {
				if r.IntN(2) == 0 {
					time.Sleep(time.Duration(r.Int64N(int64(3*time.Duration(ka)*time.Second) + 1)))
				}
				if r.IntN(3) == 0 { // the deadline of an earlier call has passed
					t.c.Publish(sim.NewCtx(time.Now().Add(time.Second)), pub(0, "t", nil))
					time.Sleep(2 * time.Second)
					t.n.Outs = t.n.Outs[:len(t.n.Outs)-1]
				}
				if err := t.c.KeepAlive(); err != nil {
					k.Fail("KeepAlive fails", "keep-alive %d: call %d: %v", ka, j, err)
					return
				}
				if len(t.n.Outs) != j+1 || t.n.Outs[j].P.Type != wire.PINGREQ {
					k.Fail("not one PINGREQ", "keep-alive %d: after %d calls the client had written %v", ka, j+1, t.n.Outs)
					return
				}
			}
			if e := t.n.StreamErr(); e != nil {
				k.Fail("broken stream", "%v", e)
			}
			if !t.c.IsConnected() {
				k.Fail("disconnected", "KeepAlive left the client disconnected")
			}
			if ka > 0 && r.IntN(2) == 0 { // the connection takes no more bytes
				t.n.WDelay = 10 * 65536 * time.Second
				start := time.Now()
				err := t.c.KeepAlive()
				if took := time.Since(start); took > 2*time.Duration(ka)*time.Second || err == nil {
					k.Fail("KeepAlive outlasts the timeout", "keep-alive %d: KeepAlive on a connection that takes no bytes returned %v after %v", ka, err, took)
				}
				k.Count("blocked pings", 1)
			}
			k.Count("pings", n)
			k.Distinct("ping", ka, n, fmt.Sprint(t.log))
		}); pn != "" {
			k.Fail("panic", "%s", pn)
		}
	})
}
