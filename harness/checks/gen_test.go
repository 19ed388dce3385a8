package checks

import (
	"fmt"
	"math/rand/v2"
	"sort"

	"github.com/waj334/tinygo-mqtt/mqtt/packets/primitives"
	"verif/harness/wire"
)

const letters = "abcdefghijklmnopqrstuvwxyz0123456789-_ /éß漢"

var runes = []rune(letters)

// text returns a valid UTF-8 string of about n bytes (at most n).
func text(r *rand.Rand, n int) string {
	b := make([]byte, 0, n)
	for len(b) < n {
		s := string(runes[r.IntN(len(runes))])
		if len(b)+len(s) > n {
			s = "x"
		}
		b = append(b, s...)
	}
	return string(b)
}

func bin(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.Uint32())
	}
	return b
}

// size picks a length with weight on the interesting boundaries.
func size(r *rand.Rand, max int) int {
	var n int
	switch r.IntN(12) {
	case 0, 1:
		n = 0
	case 2, 3, 4, 5:
		n = 1 + r.IntN(12)
	case 6, 7:
		n = 1 + r.IntN(60)
	case 8:
		n = 100 + r.IntN(60)
	case 9:
		n = 120 + r.IntN(16)
	case 10:
		n = 200 + r.IntN(400)
	default:
		n = []int{1, 126, 127, 128, 129, 255, 256, 16383, 16384, 16370, 65535, 65534, 1000}[r.IntN(13)]
	}
	if n > max {
		n = max
	}
	return n
}

func str(r *rand.Rand, max int) string { return text(r, size(r, max)) }

func strNZ(r *rand.Rand, max int) string {
	if s := str(r, max); s != "" {
		return s
	}
	return text(r, 1+r.IntN(8))
}

func ps(s string) primitives.PrimitiveString { return primitives.PrimitiveString(s) }

func num(r *rand.Rand, max uint32) uint32 {
	switch r.IntN(6) {
	case 0:
		return 1
	case 1:
		return max
	case 2:
		return 1 + r.Uint32N(255)%max
	case 3:
		return 1 + r.Uint32N(65535)%max
	}
	return 1 + r.Uint32N(max)
}

func varnum(r *rand.Rand) uint32 {
	c := []uint32{1, 127, 128, 16383, 16384, 2097151, 2097152, 268435455}
	if r.IntN(2) == 0 {
		return c[r.IntN(len(c))]
	}
	return 1 + r.Uint32N(268435455)
}

// userProps returns user properties with distinct names.
func userProps(r *rand.Rand, max int) primitives.PrimitiveStringMap {
	if r.IntN(2) == 0 {
		return nil
	}
	m := primitives.PrimitiveStringMap{}
	for i, n := 0, 1+r.IntN(4); i < n; i++ {
		m[ps(fmt.Sprintf("%d%s", i, str(r, max-1)))] = ps(str(r, max))
	}
	if r.IntN(6) == 0 {
		m[""] = ps(str(r, max))
	}
	return m
}

func pairs(m primitives.PrimitiveStringMap) (out []wire.Prop) {
	for k, v := range m {
		out = append(out, wire.Prop{ID: 0x26, S: string(k), V: string(v)})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].S < out[j].S })
	return
}

// serverProps builds a random legal property list for a server packet.
func serverProps(r *rand.Rand, typ int, max int) (out []wire.Prop) {
	if r.IntN(3) == 0 {
		return nil
	}
	for _, id := range wire.PropsFor(typ) {
		if r.IntN(3) != 0 {
			continue
		}
		k, _ := wire.PropKind(id)
		p := wire.Prop{ID: id}
		switch k {
		case wire.KByte:
			p.N = uint32(r.IntN(2))
		case wire.KU16:
			p.N = num(r, 65535)
		case wire.KU32:
			p.N = num(r, 1<<32-1)
		case wire.KVar:
			p.N = varnum(r)
		case wire.KStr:
			p.S = str(r, max)
			if (id == 0x09 || id == 0x16) && r.IntN(2) == 0 {
				// Binary data, which need not be UTF-8
				p.S = string(bin(r, size(r, max)))
			}
		case wire.KPair:
			for i, n := 0, r.IntN(3); i < n; i++ {
				out = append(out, wire.Prop{ID: id, S: fmt.Sprintf("%d%s", i, str(r, max-1)), V: str(r, max)})
			}
			p.S, p.V = "k"+str(r, max-1), str(r, max)
		}
		out = append(out, p)
	}
	r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return
}

// reason picks a reason code defined for the packet type, often 0.
func reason(r *rand.Rand, typ int) byte {
	if r.IntN(3) == 0 {
		return 0
	}
	l := wire.Reasons[typ]
	return l[r.IntN(len(l))]
}

// serverPacket builds a random well-formed packet a server may send.
func serverPacket(r *rand.Rand, typ int, max int) *wire.Packet {
	p := &wire.Packet{Type: typ}
	switch typ {
	case wire.CONNACK:
		p.Session = byte(r.IntN(2))
		if r.IntN(2) == 0 {
			p.Reason = reason(r, typ)
		}
		p.Props = serverProps(r, typ, max)
	case wire.PUBLISH:
		q := r.IntN(3)
		p.Flags = byte(q<<1) | byte(r.IntN(2))
		if q > 0 {
			p.ID = uint16(num(r, 65535))
			if r.IntN(4) == 0 {
				p.Flags |= 8
			}
		}
		p.Topic = strNZ(r, max)
		p.Props = serverProps(r, typ, max)
		p.Payload = bin(r, size(r, 70000))
		if r.IntN(20) == 0 {
			p.Payload = bin(r, []int{2097100, 2097152, 16384, 16300, 127, 128}[r.IntN(6)])
		}
	case wire.PUBACK, wire.PUBREC, wire.PUBREL, wire.PUBCOMP:
		p.ID = uint16(num(r, 65535))
		p.Short = r.IntN(3)
		if p.Short < 2 {
			p.Reason = reason(r, typ)
		}
		if p.Short == 0 {
			p.Props = serverProps(r, typ, max)
		}
	case wire.SUBACK, wire.UNSUBACK:
		p.ID = uint16(num(r, 65535))
		p.Props = serverProps(r, typ, max)
		n := 1 + r.IntN(5)
		if r.IntN(10) == 0 {
			n = 1 + size(r, 300)
		}
		for i := 0; i < n; i++ {
			p.Codes = append(p.Codes, reason(r, typ))
		}
	case wire.DISCONNECT, wire.AUTH:
		p.Short = r.IntN(3)
		if typ == wire.AUTH {
			if p.Short < 2 {
				p.Reason = reason(r, typ)
			}
		} else if p.Short < 2 {
			p.Reason = reason(r, typ)
		}
		if p.Short == 0 {
			p.Props = serverProps(r, typ, max)
		}
	case wire.PINGRESP:
	}
	return p
}

// frag returns a random fragmentation policy.
func frag(r *rand.Rand) func(avail, want int) int {
	switch r.IntN(5) {
	case 0:
		return nil
	case 1:
		return func(int, int) int { return 1 }
	case 2:
		k := 1 + r.IntN(7)
		return func(int, int) int { return k }
	case 3:
		return func(avail, want int) int { return 1 + r.IntN(max(1, want)) }
	}
	return func(avail, want int) int { return 1 + r.IntN(3) }
}
