package checks

import (
	"bytes"
	"errors"
	"io"
	"math/rand/v2"
	"testing"

	"github.com/waj334/tinygo-mqtt/mqtt/packets/primitives"
	"verif/harness/wire"
)

// slowReader hands out a byte stream in an adversarial but legal way.
type slowReader struct {
	b    []byte
	r    *rand.Rand
	mode int
	n    int
	zero bool
}

func (s *slowReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if len(s.b) == 0 {
		return 0, io.EOF
	}
	n := min(len(p), len(s.b))
	var err error
	switch s.mode {
	case 1:
		n = 1
	case 2:
		n = 1 + s.r.IntN(n)
	case 3: // data together with EOF
		if n == len(s.b) {
			err = io.EOF
		}
	case 4: // empty reads in between
		if !s.zero {
			s.zero = true
			return 0, nil
		}
		s.zero = false
		n = 1 + s.r.IntN(n)
	}
	copy(p, s.b[:n])
	s.b = s.b[n:]
	s.n += n
	return n, err
}

func newSlow(r *rand.Rand, b []byte) *slowReader {
	return &slowReader{b: append([]byte(nil), b...), r: r, mode: r.IntN(5)}
}

// chunkWriter accepts everything but counts calls.
type countWriter struct{ n int64 }

func (c *countWriter) Write(p []byte) (int, error) { c.n += int64(len(p)); return len(p), nil }

var errWriter = errors.New("writer failed")

// failWriter fails after k bytes.
type failWriter struct{ k, n int }

func (f *failWriter) Write(p []byte) (int, error) {
	if f.n+len(p) > f.k {
		n := f.k - f.n
		f.n = f.k
		return n, errWriter
	}
	f.n += len(p)
	return len(p), nil
}

// prim checks one primitive value in every way.
func (c *Ck) prim(kind string, r *rand.Rand, v primitives.Primitive, fresh func() (primitives.Primitive, func() bool), enc []byte) {
	var buf bytes.Buffer
	n, err := v.WriteTo(&buf)
	if err != nil || n != int64(len(enc)) || !bytes.Equal(buf.Bytes(), enc) {
		c.Fail(kind+" write", "%s WriteTo: % x, count %d, %v; want % x", kind, head(buf.Bytes()), n, err, head(enc))
	}
	if l := v.Length(false); int64(l) != int64(len(enc)) {
		c.Fail(kind+" length", "%s Length(false) = %d, wrote %d", kind, l, len(enc))
	}
	id := byte(r.Uint32())
	buf.Reset()
	n, err = v.WriteToAsProperty(id, &buf)
	if err != nil || n != int64(len(enc)+1) || !bytes.Equal(buf.Bytes(), append([]byte{id}, enc...)) {
		c.Fail(kind+" property", "%s WriteToAsProperty(%02x): % x, count %d, %v; want %02x % x", kind, id, head(buf.Bytes()), n, err, id, head(enc))
	}
	if l := v.Length(true); int64(l) != int64(len(enc)+1) {
		c.Fail(kind+" length", "%s Length(true) = %d, wrote %d", kind, l, len(enc)+1)
	}
	for k := 0; k < 3; k++ {
		w, same := fresh()
		extra := bin(r, r.IntN(4))
		rd := newSlow(r, append(append([]byte(nil), enc...), extra...))
		n, err = w.ReadFrom(rd)
		if err != nil || n != int64(len(enc)) || rd.n != len(enc) || !same() {
			c.Fail(kind+" read", "%s ReadFrom (reader mode %d): count %d, consumed %d of %d, equal %v, %v", kind, rd.mode, n, rd.n, len(enc), same(), err)
		}
		c.Count("values read back", 1)
	}
	// A truncated encoding is an error, never a shorter value.
	if len(enc) > 0 {
		w, _ := fresh()
		rd := newSlow(r, enc[:r.IntN(len(enc))])
		if _, err = w.ReadFrom(rd); err == nil {
			c.Fail(kind+" truncated", "%s ReadFrom of %d of %d bytes succeeded", kind, rd.n, len(enc))
		}
		c.Count("truncated reads", 1)
		fw := &failWriter{k: r.IntN(len(enc))}
		if _, err = v.WriteTo(fw); err == nil {
			c.Fail(kind+" failing writer", "%s WriteTo reports success on a writer that failed", kind)
		}
		fw = &failWriter{k: r.IntN(len(enc) + 1)}
		if _, err = v.WriteToAsProperty(id, fw); err == nil {
			c.Fail(kind+" failing writer", "%s WriteToAsProperty reports success on a writer that failed", kind)
		}
		cw := &callWriter{at: 0, once: true}
		if _, err = v.WriteToAsProperty(id, cw); err == nil {
			c.Fail(kind+" failing writer", "%s WriteToAsProperty reports success on a writer that failed once", kind)
		}
	}
	c.Count(kind, 1)
}

func TestC05(t *testing.T) {
	c := Start(t, "C05", "every byte and uint16 value, boundary and random uint32, string and variable byte integers (thorough: every representable one), over adversarial readers; distinct by kind and encoding")
	defer c.End()

	c.Cases("byte", 256, func(i int, r *rand.Rand) {
		v := primitives.PrimitiveByte(i)
		c.prim("byte", r, &v, func() (primitives.Primitive, func() bool) {
			w := primitives.PrimitiveByte(^i)
			return &w, func() bool { return w == v && w.Value() == byte(i) && w.Bool() == (i != 0) }
		}, []byte{byte(i)})
		c.Distinct("b", i)
	})
	c.Cases("uint16", 1<<16, func(i int, r *rand.Rand) {
		v := primitives.PrimitiveUint16(i)
		c.prim("uint16", r, &v, func() (primitives.Primitive, func() bool) {
			w := primitives.PrimitiveUint16(^i)
			return &w, func() bool { return w == v && w.Value() == uint16(i) }
		}, wire.U16(nil, uint16(i)))
		c.Distinct("u16", i)
	})
	c.Cases("uint32", c.N(100000, 400000), func(i int, r *rand.Rand) {
		x := r.Uint32() >> (r.Uint32() % 32)
		if i < 64 {
			x = 1<<(i/2) - uint32(i%2)
		}
		v := primitives.PrimitiveUint32(x)
		c.prim("uint32", r, &v, func() (primitives.Primitive, func() bool) {
			w := primitives.PrimitiveUint32(^x)
			return &w, func() bool { return w == v && w.Value() == x }
		}, wire.U32(nil, x))
		c.Distinct("u32", x)
	})
	c.Cases("string", c.N(30000, 60000), func(i int, r *rand.Rand) {
		var s string
		switch {
		case i < 600:
			s = text(r, i)
		case r.IntN(40) == 0:
			s = string(bin(r, 65500+r.IntN(36)))
		default:
			s = string(bin(r, size(r, 65535)))
		}
		v := primitives.PrimitiveString(s)
		c.prim("string", r, &v, func() (primitives.Primitive, func() bool) {
			w := primitives.PrimitiveString("old content")
			return &w, func() bool { return w == v && w.String() == s }
		}, wire.Str(nil, s))
		c.Distinct("s", s)
	})
	c.Cases("long string", c.N(200, 400), func(i int, r *rand.Rand) {
		n := 65536 + r.IntN(70000)
		if i == 0 {
			n = 65536
		}
		if i == 1 {
			n = 131072
		}
		v := primitives.PrimitiveString(text(r, n))
		if k, err := v.WriteTo(io.Discard); err == nil {
			c.Fail("string too long", "string of %d bytes written as %d bytes without an error", n, k)
		}
		if k, err := v.WriteToAsProperty(0x1f, io.Discard); err == nil {
			c.Fail("string too long", "string of %d bytes written as a property of %d bytes without an error", n, k)
		}
		c.Count("refused strings", 1)
		c.Distinct("long", n)
	})
	vbi := func(r *rand.Rand, x uint32) {
		v := primitives.VariableByteInt(x)
		c.prim("varint", r, &v, func() (primitives.Primitive, func() bool) {
			w := primitives.VariableByteInt(12345)
			return &w, func() bool { return w == v }
		}, wire.Var(nil, x))
	}
	c.Cases("varint", c.N(4096, 4096), func(i int, r *rand.Rand) {
		// Every value up to 2^18, then samples around the boundaries and everywhere.
		for k := 0; k < 64; k++ {
			vbi(r, uint32(i*64+k))
		}
		for _, b := range []int{127, 16383, 2097151, 268435455} {
			if x := b - 64 + r.IntN(128); x <= 268435455 {
				vbi(r, uint32(x))
				c.Distinct("v", x)
			}
		}
		x := r.Uint32N(268435456)
		vbi(r, x)
		c.Distinct("v", x)
		// Values too large are refused.
		y := primitives.VariableByteInt(268435456 + r.Uint32N(4026531840))
		if i == 0 {
			y = 268435456
		}
		var buf bytes.Buffer
		if n, err := y.WriteTo(&buf); err == nil {
			c.Fail("varint too large", "%d written as % x, count %d, without an error", uint32(y), buf.Bytes(), n)
		}
		if n, err := y.WriteToAsProperty(0x0b, &buf); err == nil {
			c.Fail("varint too large", "%d written as a property, count %d, without an error", uint32(y), n)
		}
		c.Count("refused varints written", 2)
	})
	if c.Tier == "thorough" {
		c.Cases("every varint", 1<<16, func(i int, r *rand.Rand) {
			var buf bytes.Buffer
			rd := bytes.NewReader(nil)
			for k := 0; k < 4096; k++ {
				x := uint32(i*4096 + k)
				v := primitives.VariableByteInt(x)
				buf.Reset()
				n, err := v.WriteTo(&buf)
				enc := wire.Var(nil, x)
				if err != nil || n != int64(len(enc)) || int64(v.Length(false)) != n || !bytes.Equal(enc, buf.Bytes()) {
					c.Fail("varint write", "%d: % x count %d %v", x, buf.Bytes(), n, err)
				}
				rd.Reset(enc)
				var w primitives.VariableByteInt
				if n, err := w.ReadFrom(rd); err != nil || n != int64(len(enc)) || w != v || rd.Len() != 0 {
					c.Fail("varint read", "% x: %d count %d %v", enc, uint32(w), n, err)
				}
			}
			c.Count("varints, exhaustive", 4096)
		})
	}
	c.Cases("varint bytes", c.N(200000, 400000), func(i int, r *rand.Rand) {
		// Arbitrary byte sequences, most of them with continuation bits.
		b := bin(r, 1+r.IntN(8))
		for k := range b {
			if r.IntN(4) != 0 {
				b[k] |= 0x80
			}
		}
		if i%7 == 0 {
			b = append(bytes.Repeat([]byte{byte(0x80 | i)}, 1+i%9), byte(i))
		}
		var w primitives.VariableByteInt
		rd := newSlow(r, b)
		n, err := w.ReadFrom(rd)
		x, k, rerr := wire.ReadVar(b)
		switch {
		case rerr == nil:
			if err == nil && (uint32(w) != x || n != int64(k) || rd.n != k) {
				c.Fail("varint read", "% x read as %d, count %d, consumed %d; want %d from %d bytes", b, uint32(w), n, rd.n, x, k)
			}
			if err != nil && bytes.Equal(wire.Var(nil, x), b[:k]) {
				c.Fail("varint read", "% x refused: %v", b[:k], err)
			}
			c.Count("varint sequences accepted", 1)
		default:
			if err == nil {
				c.Fail("varint too long", "% x accepted as %d, count %d", b, uint32(w), n)
			}
			if rd.n > 4 {
				c.Fail("varint consumes", "% x: %d bytes consumed before it was refused", b, rd.n)
			}
			c.Count("varint sequences refused", 1)
		}
		c.Distinct("vb", b)
		if i < 3 {
			c.Sample("bytes % x -> %d, %v", b, uint32(w), err)
		}
	})
}
