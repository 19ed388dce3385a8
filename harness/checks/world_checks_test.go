package checks

import (
	"math/rand/v2"
	"testing"
)

func TestC11(t *testing.T) {
	k := Start(t, "C11", "random histories of incoming QoS 0, 1 and 2 publishes, repeats, releases of known and unknown identifiers, with "+
		"concurrent outgoing traffic, cut connections and shared storage; reactions and events compared with the model after every step")
	k.Cases("world", k.N(24000, 200000), func(i int, r *rand.Rand) {
		p := Profile{SRM: []int{2, 8, 65535}[r.IntN(3)], CRM: []int{1, 2, 4, 65535}[r.IntN(4)], UseStore: r.IntN(3) > 0, Steps: 10 + r.IntN(60),
			MaxWait: 2, Frag: r.IntN(2) == 0, Rng: rngs,
			W: map[string]int{"deliver": 20, "in0": 3, "in1": 4, "in2": 7, "dup2": 5, "rel": 5, "relunknown": 2, "ack": 4, "noise": 1, "cut": 2, "failack": 2, "newsession": 1}}
		if r.IntN(2) == 0 { // traffic in both directions with coinciding identifiers
			p.W["pub1"], p.W["pub2"], p.W["sub"], p.W["suback"] = 1, 2, 1, 2
		}
		newWorld(k, r, p).run()
	})
	c11Direct(k)
	k.Cases("crowd", k.N(32, 160), func(i int, r *rand.Rand) { crowdIn(k, r) })
	k.End()
}

func TestC15(t *testing.T) {
	k := Start(t, "C15", "random histories with a monitored storage, cut connections and failing writes at any step; the storage is compared "+
		"with the set of unfinished exchanges after every step, and each PUBLISH with the storage at the moment it is written")
	k.Cases("world", k.N(20000, 200000), func(i int, r *rand.Rand) {
		p := Profile{SRM: []int{1, 2, 4, 65535}[r.IntN(4)], CRM: []int{2, 65535}[r.IntN(2)], UseStore: true, Steps: 10 + r.IntN(70),
			MaxWait: 2, Frag: r.IntN(2) == 0, Rng: rngs,
			W: map[string]int{"pub0": 1, "pub1": 4, "pub2": 6, "deliver": 18, "ack": 8, "noise": 2, "in0": 1, "in1": 2, "in2": 4, "dup2": 2, "rel": 4, "relunknown": 2,
				"cut": 2, "failwrite": 2, "ackleft": 2, "failack": 2, "newsession": r.IntN(2), "cancel": 1, "sub": 1, "suback": 1}}
		newWorld(k, r, p).run()
	})
	c15Direct(k)
	k.Cases("crowd", k.N(16, 96), func(i int, r *rand.Rand) { crowdOut(k, r) })
	k.Cases("crowd in", k.N(16, 96), func(i int, r *rand.Rand) { crowdIn(k, r) })
	k.End()
}

func TestC17(t *testing.T) {
	k := Start(t, "C17", "random histories of publishes, subscribes and unsubscribes with hostile packet identifier generators, abandoned calls, "+
		"failing writes and earlier connections' storage; every identifier is checked against all unfinished exchanges as it is written")
	k.Cases("world", k.N(16000, 160000), func(i int, r *rand.Rand) {
		p := Profile{SRM: []int{4, 8, 65535}[r.IntN(3)], CRM: 65535, UseStore: r.IntN(3) > 0, Steps: 10 + r.IntN(60), MaxWait: 3, Rng: rngs,
			W: map[string]int{"pub1": 6, "pub2": 6, "sub": 4, "unsub": 4, "deliver": 12, "ack": 8, "suback": 6, "in2": 2, "rel": 2, "cancel": 3, "cut": 1, "failwrite": 2, "ackleft": 1, "failack": 1,
				"wrongkind": 1, "badcount": 1}}
		newWorld(k, r, p).run()
	})
	c17Direct(k)
	k.Cases("crowd of messages", k.N(16, 96), func(i int, r *rand.Rand) { crowdOut(k, r) })
	k.Cases("crowd of calls", k.N(48, 480), func(i int, r *rand.Rand) { crowdSub(k, r) })
	k.End()
}
