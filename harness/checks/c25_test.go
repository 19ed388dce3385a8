package checks

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"testing"

	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	"verif/harness/wire"
)

func TestC25(t *testing.T) {
	c := Start(t, "C25", "random mixes of Read, Write, Reset, encoding and io helpers on payloads of every small size, built locally or decoded from the wire, against a cursor model; distinct by operation trace")
	defer c.End()
	var seq uint64
	run := func(i int, r *rand.Rand, size, steps int) {
		model := bin(r, size)
		p := &packets.Publish{Topic: "t", Payload: append([]byte(nil), model...)}
		if r.IntN(3) == 0 && size > 0 {
			// The same cursor on a decoded message.
			w := &wire.Packet{Type: wire.PUBLISH, Topic: "t", Payload: model}
			b := w.Encode()
			p = &packets.Publish{}
			rd := bytes.NewReader(b)
			if _, err := p.Header.ReadFrom(rd); err != nil {
				c.Fail("decode", "%v", err)
				return
			}
			if _, err := p.ReadFrom(rd); err != nil || !bytes.Equal(p.Payload, model) {
				c.Fail("decode", "payload %s want %s: %v", b2s(p.Payload), b2s(model), err)
				return
			}
		}
		pos := 0
		var trace []string
		bad := func(sig, f string, a ...any) {
			if len(trace) > 20 {
				trace = trace[len(trace)-20:]
			}
			c.Fail(sig, "%s; payload size %d, trace %v", fmt.Sprintf(f, a...), size, trace)
		}
		for k := 0; k < steps; k++ {
			switch op := r.IntN(10); {
			case op < 4: // Read
				n := r.IntN(size + 3)
				if r.IntN(3) == 0 {
					n = r.IntN(4)
				}
				buf := bytes.Repeat([]byte{0xEE}, n)
				got, err := p.Read(buf)
				exp := min(n, size-pos)
				trace = append(trace, fmt.Sprintf("Read(%d)=%d,%v", n, got, err))
				if got != exp || !bytes.Equal(buf[:exp], model[pos:pos+exp]) {
					bad("read", "Read(%d) at %d returned %d bytes %s, want %d", n, pos, got, b2s(buf[:max(0, got)]), exp)
					return
				}
				for _, b := range buf[exp:] {
					if b != 0xEE {
						bad("read", "Read(%d) touched bytes beyond the count", n)
						return
					}
				}
				if pos < size && errors.Is(err, io.EOF) && exp != size-pos {
					bad("eof", "Read(%d) at %d of %d returned io.EOF with bytes remaining", n, pos, size)
				}
				if err != nil && !errors.Is(err, io.EOF) {
					bad("read", "Read: %v", err)
				}
				if pos == size && n > 0 && !errors.Is(err, io.EOF) {
					bad("eof", "Read(%d) at the end returned %d, %v", n, got, err)
				}
				pos += exp
			case op < 7: // Write
				n := r.IntN(size + 3)
				if r.IntN(3) == 0 {
					n = r.IntN(4)
				}
				buf := bin(r, n)
				cp := append([]byte(nil), buf...)
				got, err := p.Write(buf)
				exp := min(n, size-pos)
				trace = append(trace, fmt.Sprintf("Write(%d)=%d,%v", n, got, err))
				if got != exp {
					bad("write", "Write(%d) at %d of %d reported %d, want %d", n, pos, size, got, exp)
					return
				}
				if exp < n && err == nil {
					bad("short write", "Write(%d) at %d of %d stored %d without an error", n, pos, size, exp)
				}
				if exp == n && n > 0 && err != nil {
					bad("write", "Write(%d) at %d of %d: %v", n, pos, size, err)
				}
				if !bytes.Equal(buf, cp) {
					bad("write", "Write changed its argument")
				}
				copy(model[pos:], buf[:exp])
				pos += exp
			case op < 8:
				p.Reset()
				trace = append(trace, "Reset")
				pos = 0
			case op < 9: // io.ReadAll drains exactly the rest
				rest, err := io.ReadAll(p)
				trace = append(trace, fmt.Sprintf("ReadAll=%d,%v", len(rest), err))
				if err != nil || !bytes.Equal(rest, model[pos:]) {
					bad("read all", "ReadAll at %d returned %d bytes, %v; want %d", pos, len(rest), err, size-pos)
					return
				}
				pos = size
			default: // encoding does not depend on or move the cursor
				q, _, err := encodeQuiet(p)
				trace = append(trace, "encode")
				if err != nil || !bytes.Equal(q.Payload, model) {
					bad("encode", "encoded payload differs: %v", err)
					return
				}
			}
			if !bytes.Equal(p.Payload, model) {
				bad("payload", "payload is %s, want %s", b2s(p.Payload), b2s(model))
				return
			}
			c.Count("operations", 1)
		}
		seq++
		c.Distinct(size, fmt.Sprint(trace))
		if i < 3 {
			c.Sample("size %d: %v", size, trace)
		}
	}
	c.Cases("small", c.N(150000, 600000), func(i int, r *rand.Rand) { run(i, r, i%12, 4+r.IntN(16)) })
	c.Cases("large", c.N(5000, 20000), func(i int, r *rand.Rand) { run(i+100, r, size(r, 70000), 4+r.IntN(30)) })
}

func encodeQuiet(w io.WriterTo) (*wire.Packet, []byte, error) {
	var buf bytes.Buffer
	if _, err := w.WriteTo(&buf); err != nil {
		return nil, nil, err
	}
	p, err := decodeOne(buf.Bytes())
	if err != nil {
		return &wire.Packet{}, buf.Bytes(), err
	}
	return p, buf.Bytes(), nil
}
