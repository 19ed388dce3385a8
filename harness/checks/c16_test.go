package checks

import (
	"errors"
	"fmt"
	"math/rand/v2"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/waj334/tinygo-mqtt/mqtt/storage"
	"github.com/waj334/tinygo-mqtt/mqtt/storage/memory"
)

type stIn struct {
	op  int // 0 store, 1 get, 2 drop
	id  uint16
	val int // packet number, for store
}

type stOut struct {
	err int // 0 nil, 1 duplicate, 2 no entry, 3 anything else
	val int // packet number, for get
}

type stPacket struct{ n int }

// stored is the packet of a number: every 7th is nil, every 11th a value.
func stored(n int) any {
	switch {
	case n%7 == 3:
		return nil
	case n%11 == 5:
		return stPacket{n}
	}
	return &stPacket{n}
}

const stNil = -7

// stVal is what Get tells of the packet of a number.
func stVal(n int) int {
	if stored(n) == nil {
		return stNil
	}
	return n
}

// stModel is a map, one partition per identifier: 0 stands for no entry.
var stModel = porcupine.Model{
	Partition: func(h []porcupine.Operation) [][]porcupine.Operation {
		m := map[uint16][]porcupine.Operation{}
		for _, o := range h {
			id := o.Input.(stIn).id
			m[id] = append(m[id], o)
		}
		var r [][]porcupine.Operation
		for _, p := range m {
			r = append(r, p)
		}
		return r
	},
	Init: func() any { return 0 },
	Step: func(st, in, out any) (bool, any) {
		s, i, o := st.(int), in.(stIn), out.(stOut)
		switch i.op {
		case 0:
			if s != 0 {
				return o.err == 1, s
			}
			return o.err == 0, i.val
		case 1:
			if s == 0 {
				return o.err == 2, s
			}
			return o.err == 0 && o.val == stVal(s), s
		}
		if s == 0 {
			return o.err == 2, s
		}
		return o.err == 0, 0
	},
	DescribeOperation: func(in, out any) string { return fmt.Sprintf("%+v -> %+v", in, out) },
}

func stDo(s *memory.Storage, in stIn) (out stOut) {
	code := func(err error) int {
		switch {
		case err == nil:
			return 0
		case errors.Is(err, storage.ErrDuplicateEntry):
			return 1
		case errors.Is(err, storage.ErrNoEntry):
			return 2
		}
		return 3
	}
	switch in.op {
	case 0:
		out.err = code(s.Store(in.id, stored(in.val)))
	case 1:
		p, err := s.Get(in.id)
		out.err = code(err)
		if err == nil {
			switch q := p.(type) {
			case *stPacket:
				out.val = q.n
			case stPacket:
				out.val = q.n
			case nil:
				out.val = stNil
			default:
				out.val = -1
			}
		}
	default:
		out.err = code(s.Drop(in.id))
	}
	return
}

func TestC16(t *testing.T) {
	k := Start(t, "C16", "random sequential histories of Store, Get and Drop against a map, and concurrent histories recorded with a logical clock "+
		"and decided by porcupine, in a build with the race detector")
	k.Cases("sequential", k.N(1200, 12000), func(i int, r *rand.Rand) {
		s := memory.NewStorage()
		m := map[uint16]int{}
		space := []int{2, 4, 16, 65536}[r.IntN(4)]
		trace := ""
		for j := 0; j < 300; j++ {
			in := stIn{r.IntN(3), uint16(r.IntN(space)), j + 1}
			if space > 16 && in.op > 0 && r.IntN(4) > 0 && len(m) > 0 {
				in.id, _ = randKey(r, m)
			}
			out := stDo(s, in)
			want := stOut{}
			switch in.op {
			case 0:
				if _, ok := m[in.id]; ok {
					want.err = 1
				} else {
					m[in.id] = in.val
				}
			case 1:
				if v, ok := m[in.id]; ok {
					want.val = stVal(v)
				} else {
					want.err = 2
				}
			default:
				if _, ok := m[in.id]; ok {
					delete(m, in.id)
				} else {
					want.err = 2
				}
			}
			trace += fmt.Sprint(in, ";")
			if out != want {
				k.Fail([]string{"Store", "Get", "Drop"}[in.op]+" of a sequential history", "operation %d %+v returned %+v, want %+v", j, in, out, want)
				return
			}
			// The whole content must be as the model says.
			if j%10 == 0 {
				for id, v := range m {
					if o := stDo(s, stIn{1, id, 0}); o.err != 0 || o.val != stVal(v) {
						k.Fail("content", "after operation %d %+v, Get(%d) returned %+v, want %d", j, in, id, o, v)
						return
					}
				}
			}
		}
		k.Count("sequential operations", 300)
		k.Distinct("seq", trace)
	})
	// The map grows to thousands of identifiers, and shrinks again (the storage scans a list: all 65536 would take an hour).
	k.Cases("large", k.N(12, 60), func(i int, r *rand.Rand) {
		s := memory.NewStorage()
		m := map[uint16]int{}
		size := []int{300, 600, 1100, 3000, 5000, 9000}[i%6]
		ids := r.Perm(65536)[:size]
		n := 0
		do := func(in stIn, want stOut) bool {
			n++
			if n%1000 == 0 {
				k.Beat()
			}
			if out := stDo(s, in); out != want {
				k.Fail([]string{"Store", "Get", "Drop"}[in.op]+" in a large storage", "with %d entries, %+v returned %+v, want %+v", len(m), in, out, want)
				return false
			}
			return true
		}
		sweep := func() bool {
			for _, id := range ids {
				want := stOut{err: 2}
				if v, ok := m[uint16(id)]; ok {
					want = stOut{val: stVal(v)}
				}
				if !do(stIn{1, uint16(id), 0}, want) {
					return false
				}
			}
			return true
		}
		for j, id := range ids {
			if !do(stIn{0, uint16(id), j + 1}, stOut{}) {
				return
			}
			m[uint16(id)] = j + 1
			// Neighbours are still there.
			for l := 0; l < 3; l++ {
				o := r.IntN(j + 1)
				if l == 0 {
					o = 0
				}
				in, want := stIn{1, uint16(ids[o]), 0}, stOut{val: stVal(o + 1)}
				if l == 1 {
					in, want = stIn{0, uint16(ids[o]), 70000}, stOut{err: 1}
				}
				if !do(in, want) {
					return
				}
			}
		}
		if !sweep() {
			return
		}
		for _, j := range r.Perm(size) {
			id := uint16(ids[j])
			if r.IntN(4) == 0 {
				continue
			}
			if !do(stIn{2, id, 0}, stOut{}) {
				return
			}
			delete(m, id)
			if !do(stIn{2, id, 0}, stOut{err: 2}) {
				return
			}
			if r.IntN(3) == 0 {
				if !do(stIn{0, id, j + 100}, stOut{}) {
					return
				}
				m[id] = j + 100
			}
		}
		sweep()
		k.Count("operations on large maps", n)
		k.Max("entries", size)
		k.Distinct("large", ids[0], size)
	})
	k.Cases("concurrent", k.N(4000, 40000), func(i int, r *rand.Rand) {
		s := memory.NewStorage()
		ids := 1 + r.IntN(3)
		for j, lim := 0, r.IntN(40); j < lim; j++ { // bystanders make the scans longer
			s.Store(uint16(1000+j), &stPacket{j})
		}
		var clock atomic.Int64
		var mu sync.Mutex
		var hist []porcupine.Operation
		var wg sync.WaitGroup
		var start sync.WaitGroup
		start.Add(1)
		n := 2 + r.IntN(5)
		for g := 0; g < n; g++ {
			wg.Add(1)
			seed := r.Uint64()
			go func() {
				defer wg.Done()
				q := rand.New(rand.NewPCG(seed, 1))
				var mine []porcupine.Operation
				start.Wait()
				for j := 0; j < 8; j++ {
					in := stIn{q.IntN(3), uint16(1 + q.IntN(ids)), g*100 + j + 1}
					c := clock.Add(1)
					out := stDo(s, in)
					mine = append(mine, porcupine.Operation{ClientId: g, Input: in, Output: out, Call: c, Return: clock.Add(1)})
				}
				mu.Lock()
				hist = append(hist, mine...)
				mu.Unlock()
			}()
		}
		start.Done()
		wg.Wait()
		switch porcupine.CheckOperationsTimeout(stModel, hist, 60*time.Second) {
		case porcupine.Illegal:
			k.Fail("not linearizable", "history without a linearization: %+v", hist)
		case porcupine.Unknown:
			k.Count("undecided histories", 1)
		}
		k.Count("concurrent operations", len(hist))
		over := 0
		for a := range hist {
			for b := range hist {
				if a < b && hist[a].Call < hist[b].Return && hist[b].Call < hist[a].Return {
					over++
				}
			}
		}
		k.Count("overlapping pairs", over)
		k.Distinct("conc", fmt.Sprintf("%v", hist))
		k.Sample("%d goroutines, %d operations, %d overlapping pairs", n, len(hist), over)
	})
	k.End()
}
