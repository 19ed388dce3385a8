// Package wire is an MQTT 5 codec written from the specification, independent of the code under test. It is the oracle
// for everything that crosses the connection: strict for what the client sends, and able to produce (and to classify)
// everything a server may send.
package wire

import (
	"errors"
	"fmt"
	"sort"
	"strings"
	"unicode/utf8"
)

// Control packet types.
const (
	CONNECT = iota + 1
	CONNACK
	PUBLISH
	PUBACK
	PUBREC
	PUBREL
	PUBCOMP
	SUBSCRIBE
	SUBACK
	UNSUBSCRIBE
	UNSUBACK
	PINGREQ
	PINGRESP
	DISCONNECT
	AUTH
)

var TypeNames = [16]string{"RESERVED", "CONNECT", "CONNACK", "PUBLISH", "PUBACK", "PUBREC", "PUBREL", "PUBCOMP", "SUBSCRIBE",
	"SUBACK", "UNSUBSCRIBE", "UNSUBACK", "PINGREQ", "PINGRESP", "DISCONNECT", "AUTH"}

// Kinds of property values (section 2.2.2.2).
const (
	KByte = iota
	KU16
	KU32
	KVar
	KStr // strings and binary data have the same shape
	KPair
)

const WILL = 16 // pseudo packet type: the will properties

type propInfo struct {
	kind int
	in   uint32 // bit mask of packet types
}

func in(types ...int) (m uint32) {
	for _, t := range types {
		m |= 1 << uint(t)
	}
	return
}

// Props is table 2-4 of the specification.
var Props = map[byte]propInfo{
	0x01: {KByte, in(PUBLISH, WILL)},
	0x02: {KU32, in(PUBLISH, WILL)},
	0x03: {KStr, in(PUBLISH, WILL)},
	0x08: {KStr, in(PUBLISH, WILL)},
	0x09: {KStr, in(PUBLISH, WILL)},
	0x0B: {KVar, in(PUBLISH, SUBSCRIBE)},
	0x11: {KU32, in(CONNECT, CONNACK, DISCONNECT)},
	0x12: {KStr, in(CONNACK)},
	0x13: {KU16, in(CONNACK)},
	0x15: {KStr, in(CONNECT, CONNACK, AUTH)},
	0x16: {KStr, in(CONNECT, CONNACK, AUTH)},
	0x17: {KByte, in(CONNECT)},
	0x18: {KU32, in(WILL)},
	0x19: {KByte, in(CONNECT)},
	0x1A: {KStr, in(CONNACK)},
	0x1C: {KStr, in(CONNACK, DISCONNECT)},
	0x1F: {KStr, in(CONNACK, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBACK, UNSUBACK, DISCONNECT, AUTH)},
	0x21: {KU16, in(CONNECT, CONNACK)},
	0x22: {KU16, in(CONNECT, CONNACK)},
	0x23: {KU16, in(PUBLISH)},
	0x24: {KByte, in(CONNACK)},
	0x25: {KByte, in(CONNACK)},
	0x26: {KPair, in(CONNECT, CONNACK, PUBLISH, WILL, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBSCRIBE, SUBACK, UNSUBSCRIBE, UNSUBACK, DISCONNECT, AUTH)},
	0x27: {KU32, in(CONNECT, CONNACK)},
	0x28: {KByte, in(CONNACK)},
	0x29: {KByte, in(CONNACK)},
	0x2A: {KByte, in(CONNACK)},
}

// PropKind reports the value kind of a property identifier.
func PropKind(id byte) (kind int, ok bool) { p, ok := Props[id]; return p.kind, ok }

// PropAllowed reports whether a property may appear in a packet type (or WILL).
func PropAllowed(id byte, typ int) bool { p, ok := Props[id]; return ok && p.in&(1<<uint(typ)) != 0 }

// PropsFor lists the properties of a packet type in ascending order.
func PropsFor(typ int) (r []byte) {
	for id, p := range Props {
		if p.in&(1<<uint(typ)) != 0 {
			r = append(r, id)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return
}

// Prop is one property.
type Prop struct {
	ID byte
	N  uint32
	S  string
	V  string // value of a user property, S is its name
}

func (p Prop) String() string {
	switch k, _ := PropKind(p.ID); k {
	case KStr:
		return fmt.Sprintf("%02x=%s", p.ID, short(p.S))
	case KPair:
		return fmt.Sprintf("%02x=%s:%s", p.ID, short(p.S), short(p.V))
	}
	return fmt.Sprintf("%02x=%d", p.ID, p.N)
}

func short(s string) string {
	if len(s) > 24 {
		return fmt.Sprintf("%q..(%d)", s[:12], len(s))
	}
	return fmt.Sprintf("%q", s)
}

// Sub is one entry of a SUBSCRIBE or UNSUBSCRIBE payload.
type Sub struct {
	Filter string
	Opt    byte
}

// Packet is any control packet.
type Packet struct {
	Type    int
	Flags   byte
	ID      uint16
	Topic   string
	Payload []byte
	Reason  byte
	Short   int // 0: full form; 1: no property length; 2: neither reason code nor property length
	Session byte
	Props   []Prop
	Raw     []byte // property bytes to encode instead of Props
	Codes   []byte
	Subs    []Sub

	// CONNECT
	Proto        string
	Version      byte
	ConnectFlags byte
	KeepAlive    uint16
	ClientID     string
	WillProps    []Prop
	WillTopic    string
	WillPayload  string
	Username     string
	Password     string
}

func (p *Packet) QoS() int     { return int(p.Flags>>1) & 3 }
func (p *Packet) Dup() bool    { return p.Flags&8 != 0 }
func (p *Packet) Retain() bool { return p.Flags&1 != 0 }

// Prop returns the first property with the identifier.
func (p *Packet) Prop(id byte) (Prop, bool) {
	for _, q := range p.Props {
		if q.ID == id {
			return q, true
		}
	}
	return Prop{}, false
}

func (p *Packet) String() string {
	if p == nil {
		return "<nil>"
	}
	var b strings.Builder
	b.WriteString(TypeNames[p.Type&15])
	switch p.Type {
	case CONNECT:
		fmt.Fprintf(&b, " id=%s ka=%d flags=%02x", short(p.ClientID), p.KeepAlive, p.ConnectFlags)
	case CONNACK:
		fmt.Fprintf(&b, " rc=%02x sp=%d", p.Reason, p.Session)
	case PUBLISH:
		fmt.Fprintf(&b, " q%d id=%d t=%s p=%s f=%x", p.QoS(), p.ID, short(p.Topic), short(string(p.Payload)), p.Flags)
	case PUBACK, PUBREC, PUBREL, PUBCOMP:
		fmt.Fprintf(&b, " id=%d rc=%02x", p.ID, p.Reason)
	case SUBSCRIBE, UNSUBSCRIBE:
		fmt.Fprintf(&b, " id=%d", p.ID)
		for i, s := range p.Subs {
			if i == 4 {
				fmt.Fprintf(&b, " ..%d", len(p.Subs))
				break
			}
			fmt.Fprintf(&b, " %s/%02x", short(s.Filter), s.Opt)
		}
	case SUBACK, UNSUBACK:
		c := p.Codes
		if len(c) > 8 {
			c = c[:8]
		}
		fmt.Fprintf(&b, " id=%d codes=%x", p.ID, c)
	case DISCONNECT, AUTH:
		fmt.Fprintf(&b, " rc=%02x", p.Reason)
	}
	for i, q := range p.Props {
		if i == 4 {
			fmt.Fprintf(&b, " ..%d props", len(p.Props))
			break
		}
		fmt.Fprintf(&b, " %v", q)
	}
	return b.String()
}

// ---- encoding ----

func U16(b []byte, v uint16) []byte { return append(b, byte(v>>8), byte(v)) }
func U32(b []byte, v uint32) []byte { return append(b, byte(v>>24), byte(v>>16), byte(v>>8), byte(v)) }
func Str(b []byte, s string) []byte { return append(U16(b, uint16(len(s))), s...) }

// Var appends the minimal variable byte integer encoding.
func Var(b []byte, v uint32) []byte {
	for {
		d := byte(v & 0x7f)
		v >>= 7
		if v != 0 {
			b = append(b, d|0x80)
		} else {
			return append(b, d)
		}
	}
}

// VarLen is the encoded length of a variable byte integer.
func VarLen(v uint32) int { return len(Var(nil, v)) }

// RawProp encodes one property as if values of its identifier had the kind.
func RawProp(id byte, kind int, p Prop) []byte {
	body := []byte{id}
	switch kind {
	case KByte:
		body = append(body, byte(p.N))
	case KU16:
		body = U16(body, uint16(p.N))
	case KU32:
		body = U32(body, p.N)
	case KVar:
		body = Var(body, p.N)
	case KStr:
		body = Str(body, p.S)
	case KPair:
		body = Str(Str(body, p.S), p.V)
	}
	return body
}

func EncodeProps(props []Prop) []byte {
	var body []byte
	for _, p := range props {
		k, ok := PropKind(p.ID)
		if !ok {
			panic("unknown property")
		}
		body = append(body, RawProp(p.ID, k, p)...)
	}
	return append(Var(nil, uint32(len(body))), body...)
}

func (p *Packet) props() []byte {
	if p.Raw != nil {
		return append(Var(nil, uint32(len(p.Raw))), p.Raw...)
	}
	return EncodeProps(p.Props)
}

// Body encodes everything after the fixed header.
func (p *Packet) Body() (b []byte) {
	switch p.Type {
	case CONNACK:
		b = append(b, p.Session, p.Reason)
		b = append(b, p.props()...)
	case PUBLISH:
		b = Str(b, p.Topic)
		if p.QoS() > 0 {
			b = U16(b, p.ID)
		}
		b = append(b, p.props()...)
		b = append(b, p.Payload...)
	case PUBACK, PUBREC, PUBREL, PUBCOMP:
		b = U16(b, p.ID)
		if p.Short == 2 {
			break
		}
		b = append(b, p.Reason)
		if p.Short == 1 {
			break
		}
		b = append(b, p.props()...)
	case SUBACK, UNSUBACK:
		b = U16(b, p.ID)
		b = append(b, p.props()...)
		b = append(b, p.Codes...)
	case DISCONNECT, AUTH:
		if p.Short == 2 {
			break
		}
		b = append(b, p.Reason)
		if p.Short == 1 {
			break
		}
		b = append(b, p.props()...)
	case PINGRESP, PINGREQ:
	case SUBSCRIBE:
		b = U16(b, p.ID)
		b = append(b, p.props()...)
		for _, s := range p.Subs {
			b = append(Str(b, s.Filter), s.Opt)
		}
	case UNSUBSCRIBE:
		b = U16(b, p.ID)
		b = append(b, p.props()...)
		for _, s := range p.Subs {
			b = Str(b, s.Filter)
		}
	default:
		panic("wire: cannot encode " + TypeNames[p.Type])
	}
	return
}

// Encode returns the whole packet. Reserved flags of PUBREL, SUBSCRIBE and UNSUBSCRIBE are filled in.
func (p *Packet) Encode() []byte {
	body := p.Body()
	fl := p.Flags
	if p.Type == PUBREL || p.Type == SUBSCRIBE || p.Type == UNSUBSCRIBE {
		fl = 2
	}
	b := Var([]byte{byte(p.Type)<<4 | fl}, uint32(len(body)))
	return append(b, body...)
}

// ---- decoding ----

var ErrShort = errors.New("need more bytes")

// Malformed is returned for structurally broken packets: lengths that do not fit, unknown property identifiers,
// over-long variable byte integers, trailing bytes.
type Malformed struct{ Msg string }

func (m *Malformed) Error() string { return "malformed: " + m.Msg }

// Protocol is returned for packets whose structure is sound but whose values break a rule of the specification.
type Protocol struct{ Msg string }

func (m *Protocol) Error() string { return "protocol error: " + m.Msg }

func bad(f string, a ...any) error   { return &Malformed{fmt.Sprintf(f, a...)} }
func proto(f string, a ...any) error { return &Protocol{fmt.Sprintf(f, a...)} }

// ReadVar decodes a variable byte integer at the start of b.
func ReadVar(b []byte) (v uint32, n int, err error) {
	for n < 4 {
		if n >= len(b) {
			return 0, n, ErrShort
		}
		c := b[n]
		v |= uint32(c&0x7f) << (7 * uint(n))
		n++
		if c&0x80 == 0 {
			return v, n, nil
		}
	}
	return 0, n, bad("variable byte integer longer than 4 bytes")
}

// Frame splits one packet off the front of b. ErrShort: b holds only a prefix of a packet.
func Frame(b []byte) (hdr byte, body []byte, total int, err error) {
	if len(b) == 0 {
		return 0, nil, 0, ErrShort
	}
	l, n, err := ReadVar(b[1:])
	if err != nil {
		return b[0], nil, 0, err
	}
	total = 1 + n + int(l)
	if len(b) < total {
		return b[0], nil, total, ErrShort
	}
	return b[0], b[1+n : total], total, nil
}

type rd struct {
	b    []byte
	soft error // first protocol error
}

func (r *rd) protoErr(f string, a ...any) {
	if r.soft == nil {
		r.soft = proto(f, a...)
	}
}

func (r *rd) u8() (byte, error) {
	if len(r.b) < 1 {
		return 0, bad("truncated byte")
	}
	v := r.b[0]
	r.b = r.b[1:]
	return v, nil
}

func (r *rd) u16() (uint16, error) {
	if len(r.b) < 2 {
		return 0, bad("truncated 16-bit integer")
	}
	v := uint16(r.b[0])<<8 | uint16(r.b[1])
	r.b = r.b[2:]
	return v, nil
}

func (r *rd) u32() (uint32, error) {
	if len(r.b) < 4 {
		return 0, bad("truncated 32-bit integer")
	}
	v := uint32(r.b[0])<<24 | uint32(r.b[1])<<16 | uint32(r.b[2])<<8 | uint32(r.b[3])
	r.b = r.b[4:]
	return v, nil
}

func (r *rd) vbi() (uint32, error) {
	v, n, err := ReadVar(r.b)
	if err == ErrShort {
		return 0, bad("truncated variable byte integer")
	}
	if err != nil {
		return 0, err
	}
	if n != VarLen(v) {
		r.protoErr("variable byte integer not minimal")
	}
	r.b = r.b[n:]
	return v, nil
}

func (r *rd) str() (string, error) {
	l, err := r.u16()
	if err != nil {
		return "", err
	}
	if len(r.b) < int(l) {
		return "", bad("string of %d bytes exceeds the packet", l)
	}
	s := string(r.b[:l])
	r.b = r.b[l:]
	return s, nil
}

// utf8 notes strings a strict receiver may refuse.
func (r *rd) utf8(s string) {
	if !utf8.ValidString(s) || strings.ContainsRune(s, 0) {
		r.protoErr("string is not valid UTF-8 or contains U+0000")
	}
}

// Reasons lists the reason codes MQTT 5 defines for each packet type.
var Reasons = map[int]string{
	CONNACK:    "\x00\x80\x81\x82\x83\x84\x85\x86\x87\x88\x89\x8A\x8C\x90\x95\x97\x99\x9A\x9B\x9C\x9D\x9F",
	PUBACK:     "\x00\x10\x80\x83\x87\x90\x91\x97\x99",
	PUBREC:     "\x00\x10\x80\x83\x87\x90\x91\x97\x99",
	PUBREL:     "\x00\x92",
	PUBCOMP:    "\x00\x92",
	SUBACK:     "\x00\x01\x02\x80\x83\x87\x8F\x91\x97\x9E\xA1\xA2",
	UNSUBACK:   "\x00\x11\x80\x83\x87\x8F\x91",
	DISCONNECT: "\x00\x04\x80\x81\x82\x83\x87\x89\x8B\x8D\x8E\x8F\x90\x93\x94\x95\x96\x97\x98\x99\x9A\x9B\x9C\x9D\x9E\x9F\xA0\xA1\xA2",
	AUTH:       "\x00\x18\x19",
}

func (r *rd) props(typ int) (out []Prop, err error) {
	l, err := r.vbi()
	if err != nil {
		return nil, err
	}
	if int(l) > len(r.b) {
		return nil, bad("property length %d exceeds the packet (%d left)", l, len(r.b))
	}
	q := &rd{b: r.b[:l]}
	r.b = r.b[l:]
	seen := map[byte]bool{}
	for len(q.b) > 0 {
		id, _ := q.u8()
		info, ok := Props[id]
		if !ok {
			return nil, bad("unknown property %#02x", id)
		}
		if info.in&(1<<uint(typ)) == 0 {
			return nil, bad("property %#02x not allowed in packet type %d", id, typ)
		}
		p := Prop{ID: id}
		switch info.kind {
		case KByte:
			var v byte
			v, err = q.u8()
			p.N = uint32(v)
			if v > 1 {
				r.protoErr("property %#02x has value %d", id, v)
			}
		case KU16:
			var v uint16
			v, err = q.u16()
			p.N = uint32(v)
		case KU32:
			p.N, err = q.u32()
		case KVar:
			p.N, err = q.vbi()
		case KStr:
			p.S, err = q.str()
		case KPair:
			if p.S, err = q.str(); err == nil {
				p.V, err = q.str()
			}
		}
		if err != nil {
			return nil, err
		}
		if info.kind == KStr && id != 0x09 && id != 0x16 {
			r.utf8(p.S)
		}
		if info.kind == KPair {
			r.utf8(p.S)
			r.utf8(p.V)
		}
		if seen[id] && id != 0x26 && !(id == 0x0B && typ == PUBLISH) {
			r.protoErr("property %#02x repeated", id)
		}
		seen[id] = true
		switch id {
		case 0x21, 0x23, 0x0B, 0x27:
			if p.N == 0 {
				r.protoErr("property %#02x must not be 0", id)
			}
		}
		out = append(out, p)
	}
	if q.soft != nil && r.soft == nil {
		r.soft = q.soft
	}
	return out, nil
}

// Decode parses one framed packet. fromClient selects which packet types are legal. The error is a *Malformed or a
// *Protocol; with a *Protocol error the packet is still returned.
func Decode(hdr byte, body []byte, fromClient bool) (*Packet, error) {
	p := &Packet{Type: int(hdr >> 4), Flags: hdr & 15}
	r := &rd{b: body}
	var err error

	okType := false
	switch p.Type {
	case CONNECT, SUBSCRIBE, UNSUBSCRIBE, PINGREQ:
		okType = fromClient
	case CONNACK, SUBACK, UNSUBACK, PINGRESP:
		okType = !fromClient
	case PUBLISH, PUBACK, PUBREC, PUBREL, PUBCOMP, DISCONNECT, AUTH:
		okType = true
	}
	if !okType {
		return p, bad("packet type %s not allowed here", TypeNames[p.Type])
	}
	want := byte(0)
	if p.Type == PUBREL || p.Type == SUBSCRIBE || p.Type == UNSUBSCRIBE {
		want = 2
	}
	if p.Type != PUBLISH && p.Flags != want {
		r.protoErr("flags %x of %s", p.Flags, TypeNames[p.Type])
	}

	var v byte
	switch p.Type {
	case CONNECT:
		if p.Proto, err = r.str(); err != nil {
			return p, err
		}
		if p.Proto != "MQTT" {
			r.protoErr("protocol name %q", p.Proto)
		}
		if p.Version, err = r.u8(); err != nil {
			return p, err
		}
		if p.ConnectFlags, err = r.u8(); err != nil {
			return p, err
		}
		if p.ConnectFlags&1 != 0 {
			r.protoErr("reserved connect flag set")
		}
		if p.KeepAlive, err = r.u16(); err != nil {
			return p, err
		}
		if p.Props, err = r.props(CONNECT); err != nil {
			return p, err
		}
		if p.ClientID, err = r.str(); err != nil {
			return p, err
		}
		if p.ConnectFlags&4 != 0 {
			if p.WillProps, err = r.props(WILL); err != nil {
				return p, err
			}
			if p.WillTopic, err = r.str(); err != nil {
				return p, err
			}
			if p.WillPayload, err = r.str(); err != nil {
				return p, err
			}
			if p.ConnectFlags>>3&3 == 3 {
				r.protoErr("will QoS 3")
			}
		} else if p.ConnectFlags&0x38 != 0 {
			r.protoErr("will flags without will")
		}
		if p.ConnectFlags&0x80 != 0 {
			if p.Username, err = r.str(); err != nil {
				return p, err
			}
		}
		if p.ConnectFlags&0x40 != 0 {
			if p.Password, err = r.str(); err != nil {
				return p, err
			}
		}
	case CONNACK:
		if p.Session, err = r.u8(); err != nil {
			return p, err
		}
		if p.Session > 1 {
			r.protoErr("connack flags %x", p.Session)
		}
		if p.Reason, err = r.u8(); err != nil {
			return p, err
		}
		if len(r.b) == 0 {
			r.protoErr("connack without property length")
			p.Short = 1
			break
		}
		if p.Props, err = r.props(CONNACK); err != nil {
			return p, err
		}
	case PUBLISH:
		if p.QoS() == 3 {
			r.protoErr("QoS 3")
		}
		if p.QoS() == 0 && p.Dup() {
			r.protoErr("DUP with QoS 0")
		}
		if p.Topic, err = r.str(); err != nil {
			return p, err
		}
		if p.QoS() > 0 {
			if p.ID, err = r.u16(); err != nil {
				return p, err
			}
			if p.ID == 0 {
				r.protoErr("packet identifier 0")
			}
		}
		if p.Props, err = r.props(PUBLISH); err != nil {
			return p, err
		}
		if _, alias := p.Prop(0x23); p.Topic == "" && !alias {
			r.protoErr("no topic and no alias")
		}
		p.Payload = append([]byte(nil), r.b...)
		r.b = nil
	case PUBACK, PUBREC, PUBREL, PUBCOMP:
		if p.ID, err = r.u16(); err != nil {
			return p, err
		}
		if p.ID == 0 {
			r.protoErr("packet identifier 0")
		}
		if len(r.b) == 0 {
			p.Short = 2
			break
		}
		if p.Reason, err = r.u8(); err != nil {
			return p, err
		}
		if len(r.b) == 0 {
			p.Short = 1
			break
		}
		if p.Props, err = r.props(p.Type); err != nil {
			return p, err
		}
	case SUBACK, UNSUBACK:
		if p.ID, err = r.u16(); err != nil {
			return p, err
		}
		if p.ID == 0 {
			r.protoErr("packet identifier 0")
		}
		if p.Props, err = r.props(p.Type); err != nil {
			return p, err
		}
		if len(r.b) == 0 {
			return p, bad("no reason codes")
		}
		p.Codes = append([]byte(nil), r.b...)
		r.b = nil
	case SUBSCRIBE, UNSUBSCRIBE:
		if p.ID, err = r.u16(); err != nil {
			return p, err
		}
		if p.ID == 0 {
			r.protoErr("packet identifier 0")
		}
		if p.Props, err = r.props(p.Type); err != nil {
			return p, err
		}
		if len(r.b) == 0 {
			return p, bad("no topic filters")
		}
		for len(r.b) > 0 {
			var s Sub
			if s.Filter, err = r.str(); err != nil {
				return p, err
			}
			if p.Type == SUBSCRIBE {
				if s.Opt, err = r.u8(); err != nil {
					return p, err
				}
				if s.Opt&0xC0 != 0 || s.Opt&3 == 3 || s.Opt>>4&3 == 3 {
					r.protoErr("subscription options %02x", s.Opt)
				}
				if s.Opt&4 != 0 && strings.HasPrefix(s.Filter, "$share/") {
					r.protoErr("no local on shared subscription")
				}
			}
			p.Subs = append(p.Subs, s)
		}
	case PINGREQ, PINGRESP:
	case DISCONNECT, AUTH:
		if len(r.b) == 0 {
			p.Short = 2
			break
		}
		if v, err = r.u8(); err != nil {
			return p, err
		}
		p.Reason = v
		if len(r.b) == 0 {
			p.Short = 1
			break
		}
		if p.Props, err = r.props(p.Type); err != nil {
			return p, err
		}
	}
	if err != nil {
		return p, err
	}
	if len(r.b) != 0 {
		return p, bad("%d trailing bytes", len(r.b))
	}
	if p.Type == PUBLISH {
		r.utf8(p.Topic)
		if strings.ContainsAny(p.Topic, "#+") {
			r.protoErr("wildcard in topic name")
		}
	}
	if l, ok := Reasons[p.Type]; ok {
		for _, c := range append([]byte{p.Reason}, p.Codes...) {
			if strings.IndexByte(l, c) < 0 {
				r.protoErr("reason code %#02x", c)
			}
		}
	}
	if r.soft != nil {
		return p, r.soft
	}
	return p, nil
}

// SplitClient parses a byte stream written by a client into packets; rest is the incomplete tail.
func SplitClient(b []byte) (pk []*Packet, rest []byte, err error) {
	for len(b) > 0 {
		h, body, n, e := Frame(b)
		if e == ErrShort {
			return pk, b, nil
		}
		if e != nil {
			return pk, b, e
		}
		p, e := Decode(h, body, true)
		if e != nil {
			return pk, b, fmt.Errorf("%w in % x", e, clip(b[:n]))
		}
		pk = append(pk, p)
		b = b[n:]
	}
	return pk, nil, nil
}

func clip(b []byte) []byte {
	if len(b) > 64 {
		return b[:64]
	}
	return b
}

// SameProps compares two property lists as multisets.
func SameProps(a, b []Prop) bool {
	if len(a) != len(b) {
		return false
	}
	key := func(l []Prop) []string {
		var r []string
		for _, p := range l {
			r = append(r, fmt.Sprintf("%02x|%d|%d|%s|%s", p.ID, p.N, len(p.S), p.S, p.V))
		}
		sort.Strings(r)
		return r
	}
	x, y := key(a), key(b)
	for i := range x {
		if x[i] != y[i] {
			return false
		}
	}
	return true
}

// Match is the reference topic matcher (section 4.7), by levels.
func Match(topic, filter string) bool {
	if filter == "" || topic == "" {
		return false
	}
	f := strings.Split(filter, "/")
	t := strings.Split(topic, "/")
	for i, l := range f {
		if strings.ContainsAny(l, "#+") && len(l) != 1 {
			return false
		}
		if l == "#" && i != len(f)-1 {
			return false
		}
	}
	if topic[0] == '$' && (f[0] == "#" || f[0] == "+") {
		return false
	}
	for i, l := range f {
		if l == "#" {
			return true
		}
		if i >= len(t) {
			return false
		}
		if l != "+" && l != t[i] {
			return false
		}
	}
	return len(f) == len(t)
}
