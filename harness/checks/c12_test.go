package checks

import (
	"math/rand/v2"
	"testing"
)

// rngs are random generators a client may be configured with, hostile ones included.
func rngs(r *rand.Rand) func() uint32 {
	switch r.IntN(7) {
	case 0:
		return func() uint32 { return 0 }
	case 1:
		n := uint32(1 + r.IntN(8))
		return func() uint32 { return n }
	case 2:
		n := uint32(r.IntN(10))
		return func() uint32 { n++; return n }
	case 3:
		n := uint32(r.IntN(4))
		return func() uint32 { n++; return n << 16 }
	case 4:
		n := uint32(0)
		return func() uint32 { n = (n + 1) % 5; return 65533 + n }
	case 5:
		n := uint64(r.Uint64())
		return func() uint32 { n = n*6364136223846793005 + 1; return uint32(n>>33) & 7 }
	}
	n := uint64(r.Uint64())
	return func() uint32 { n = n*6364136223846793005 + 1; return uint32(n >> 33) }
}

func TestC12(t *testing.T) {
	k := Start(t, "C12", "random histories of Publish calls of all QoS against a broker that acknowledges, refuses, repeats and "+
		"misdirects in any order, on a simulated connection; every packet the client writes is matched to one call or one received packet")
	k.Cases("world", k.N(12000, 40000), func(i int, r *rand.Rand) {
		p := Profile{SRM: []int{1, 2, 3, 8, 65535}[r.IntN(5)], CRM: 65535, UseStore: r.IntN(2) == 0, Steps: 10 + r.IntN(60), MaxWait: 4,
			Frag: r.IntN(2) == 0, Rng: rngs,
			W: map[string]int{"pub0": 2, "pub1": 4, "pub2": 8, "deliver": 16, "ack": 12, "noise": 3, "in0": 1, "in1": 1, "in2": 2, "rel": 2, "relunknown": 1, "ping": 1, "cancel": 1, "failack": r.IntN(2), "failwrite": r.IntN(2), "ackleft": 1, "cut": r.IntN(2)}}
		newWorld(k, r, p).run()
	})
	k.Cases("crowd", k.N(16, 96), func(i int, r *rand.Rand) { crowdOut(k, r) })
	k.End()
}
