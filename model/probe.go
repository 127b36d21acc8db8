package model

import (
	"errors"
	"fmt"
	"reflect"

	bin "github.com/gagliardetto/binary"

	"verif.local/dst/vs"
)

// User codecs. Each holds one number; what it writes is a function of that
// number and the session's encoding, using a different part of the session's
// API per mode, including calls back into Encode and Decode.
type (
	ProbeV struct{ V uint32 } // value receiver
	ProbeP struct{ V uint32 } // pointer receivers, used behind pointers
	ProbeI uint32             // unsigned kind
	ProbeN int64              // signed kind
	ProbeS string             // string kind
	ProbeB []byte             // slice kind
	ProbeA [2]uint16          // array kind
)

var probeTypes = []reflect.Type{
	reflect.TypeOf(ProbeV{}), reflect.TypeOf(ProbeN(0)), reflect.TypeOf(ProbeS("")),
	reflect.TypeOf(ProbeB(nil)), reflect.TypeOf(ProbeA{}), reflect.TypeOf(ProbeI(0)), reflect.TypeOf(ProbeP{}),
}

func isProbe(t reflect.Type) bool {
	for _, p := range probeTypes {
		if p == t {
			return true
		}
	}
	return false
}

func be4(v uint32) []byte { return []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)} }

func probeKeyString(v uint32) string {
	if v == 0 {
		return ""
	}
	return string(be4(v))
}

func un4(b []byte) uint32 {
	if len(b) < 4 {
		return 0
	}
	return uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
}

func probeToGo(v uint32, rv reflect.Value) {
	switch rv.Kind() {
	case reflect.Struct:
		rv.Field(0).SetUint(uint64(v))
	case reflect.Uint32:
		rv.SetUint(uint64(v))
	case reflect.Int64:
		rv.SetInt(int64(v))
	case reflect.String:
		rv.SetString(probeKeyString(v))
	case reflect.Slice:
		if v == 0 {
			rv.Set(reflect.Zero(rv.Type()))
		} else {
			rv.SetBytes(be4(v))
		}
	case reflect.Array:
		rv.Index(0).SetUint(uint64(v >> 16))
		rv.Index(1).SetUint(uint64(v & 0xffff))
	}
}

func probeFromGo(rv reflect.Value) uint32 {
	switch rv.Kind() {
	case reflect.Struct:
		return uint32(rv.Field(0).Uint())
	case reflect.Uint32:
		return uint32(rv.Uint())
	case reflect.Int64:
		return uint32(rv.Int())
	case reflect.String:
		return un4([]byte(rv.String()))
	case reflect.Slice:
		return un4(rv.Bytes())
	case reflect.Array:
		return uint32(rv.Index(0).Uint())<<16 | uint32(rv.Index(1).Uint())
	}
	return 0
}

// ProbeCtx is the simulator's side of the user codecs of one simulated thread.
type ProbeCtx struct {
	Calls  []Call
	FailAt int // index of the call that fails, -1 none
	Stage  int // 0 at once, 1 after its first transfer, 2 after its last
	Panic  bool
	Err    error
	Fired  bool
	OnEnc  func(e *bin.Encoder)
	OnDec  func(d *bin.Decoder)
	Depth  int
}

// Call is one recorded codec call.
type Call struct {
	V   uint32
	Pos int
	E   *bin.Encoder
	D   *bin.Decoder
}

// ErrProbe is returned by a codec that reads something it cannot have written.
var ErrProbe = errors.New("codec: not my bytes")

// CodecPanic is the value a codec panics with.
type CodecPanic struct{ Err error }

func ctx() *ProbeCtx {
	c, _ := vs.Local().(*ProbeCtx)
	return c
}

func (c *ProbeCtx) stage(call, st int) error {
	if c == nil || c.FailAt != call || c.Stage != st {
		return nil
	}
	c.Fired = true
	if c.Panic {
		panic(CodecPanic{c.Err})
	}
	return c.Err
}

type probeInner struct {
	A uint16 `bin:"big"`
	B string
	C []uint8
	D bin.Int64 `bin:"big"`
	E *uint8    `bin:"optional"`
}

const probeModes = 8

func innerOf(v uint32) probeInner {
	in := probeInner{A: uint16(v >> 3), B: fmt.Sprint(v % 977), C: be4(v)[:v%5], D: bin.Int64(int64(v)*7919 - 5)}
	if v&64 != 0 {
		x := uint8(v >> 9)
		in.E = &x
	}
	return in
}

func payload(v uint32) []byte {
	n := int(v>>8) % 7
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(v>>uint(i)) ^ byte(i*29)
	}
	return b
}

var innerSchema = SchemaOf(reflect.TypeOf(probeInner{}))

func innerWire(v uint32, e Enc) []byte {
	iv := FromGo(innerSchema, reflect.ValueOf(innerOf(v)))
	b, _ := Bytes(innerSchema, &iv, e)
	return b
}

func nestedV(v uint32) uint32 { return (v >> 16) / probeModes * probeModes } // mode 0

func ownEnc(v uint32) Enc { return Enc(v >> 5 % 3) }

// own and unown encode and decode with sessions of the codec's own.
func own(v uint32) ([]byte, error) {
	switch ownEnc(v) {
	case Bin:
		return bin.MarshalBin(innerOf(v))
	case Borsh:
		return bin.MarshalBorsh(innerOf(v))
	}
	return bin.MarshalCompactU16(innerOf(v))
}

func unown(v uint32, b []byte) (in probeInner, err error) {
	switch ownEnc(v) {
	case Bin:
		err = bin.UnmarshalBin(&in, b)
	case Borsh:
		err = bin.UnmarshalBorsh(&in, b)
	default:
		err = bin.UnmarshalCompactU16(&in, b)
	}
	return
}

func ownCount(v uint32) (uint64, error) {
	switch ownEnc(v) {
	case Bin:
		return bin.BinByteCount(innerOf(v))
	case Borsh:
		return bin.BorshByteCount(innerOf(v))
	}
	return bin.CompactU16ByteCount(innerOf(v))
}

func sameInner(a, b probeInner) bool {
	return a.A == b.A && a.B == b.B && string(a.C) == string(b.C) && a.D == b.D &&
		(a.E == nil) == (b.E == nil) && (a.E == nil || *a.E == *b.E)
}

func libNum(v uint32) uint64 { return uint64(v)*0x9e3779b97f4a7c15 + 3 }

// ProbeWire is what a codec writes for v; big is the byte order of the field it is in.
func ProbeWire(v uint32, e Enc, big bool) []byte {
	b := be4(v)
	switch v % probeModes {
	case 1:
		b = append(b, innerWire(v, e)...)
	case 2:
		b = append(b, payload(v+1)...)
		b, _ = AppLen(b, e, len(payload(v)))
		b = append(b, payload(v)...)
	case 3:
		s := fmt.Sprint("s", v%1009)
		b, _ = AppLen(b, e, len(s))
		b = append(b, s...)
		b = append(b, byte(v>>4&1))
	case 4:
		b = append(b, ProbeWire(nestedV(v), e, false)...)
		b = append(b, byte(v>>8))
	case 5:
		b = AppUvarint(b, uint64(v))
		b = AppU(b, uint64(v)*0x10001, 8, true)
	case 6:
		// a library codec called directly after a nested record takes the
		// order of the enclosing field
		b = append(b, innerWire(v, e)...)
		b = AppU(b, libNum(v), 8, big)
	case 7:
		// a record of a session of its own, of any encoding
		x := innerWire(v, ownEnc(v))
		b, _ = AppLen(b, e, len(x))
		b = append(b, x...)
	}
	return b
}

func probeCalls(v uint32, e Enc) []ProbeAt {
	out := []ProbeAt{{v, 0}}
	if v%probeModes == 4 {
		out = append(out, ProbeAt{nestedV(v), 4})
	}
	return out
}

func encOf(e *bin.Encoder) Enc {
	if n := b2i(e.IsBin()) + b2i(e.IsBorsh()) + b2i(e.IsCompactU16()); n != 1 {
		panic(fmt.Sprintf("the encoder handed to a codec claims %d encodings", n))
	}
	if e.IsBorsh() {
		return Borsh
	}
	if e.IsCompactU16() {
		return Compact
	}
	return Bin
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func decOf(d *bin.Decoder) Enc {
	if n := b2i(d.IsBin()) + b2i(d.IsBorsh()) + b2i(d.IsCompactU16()); n != 1 {
		panic(fmt.Sprintf("the decoder handed to a codec claims %d encodings", n))
	}
	if d.IsBorsh() {
		return Borsh
	}
	if d.IsCompactU16() {
		return Compact
	}
	return Bin
}

func marshalProbe(v uint32, e *bin.Encoder) (err error) {
	c := ctx()
	me := -1
	if c != nil {
		me = len(c.Calls)
		c.Calls = append(c.Calls, Call{V: v, Pos: e.Written(), E: e})
		if c.OnEnc != nil {
			c.OnEnc(e)
		}
	}
	vs.Yield()
	if err := c.stage(me, 0); err != nil {
		return err
	}
	_ = encOf(e)
	if err := e.WriteUint32(v, bin.BE); err != nil {
		return err
	}
	if err := c.stage(me, 1); err != nil {
		return err
	}
	switch v % probeModes {
	case 1:
		err = e.Encode(innerOf(v))
	case 2:
		if _, err = e.Write(payload(v + 1)); err == nil {
			err = e.WriteBytes(payload(v), true)
		}
	case 3:
		if err = e.WriteString(fmt.Sprint("s", v%1009)); err == nil {
			err = e.WriteBool(v>>4&1 == 1)
		}
	case 4:
		if err = e.Encode(ProbeI(nestedV(v))); err == nil {
			err = e.WriteByte(byte(v >> 8))
		}
	case 5:
		if err = e.WriteUVarInt(int(v)); err == nil {
			err = e.WriteUint64(uint64(v)*0x10001, bin.BE)
		}
	case 6:
		if err = e.Encode(innerOf(v)); err == nil {
			err = bin.Uint64(libNum(v)).MarshalWithEncoder(e)
		}
	case 7:
		var b []byte
		var n uint64
		if b, err = own(v); err == nil {
			if n, err = ownCount(v); err == nil && n != uint64(len(b)) {
				err = fmt.Errorf("codec: its own record has %d bytes, counted as %d", len(b), n)
			}
		}
		if err == nil {
			err = e.WriteBytes(b, true)
		}
	}
	if err != nil {
		return err
	}
	vs.Yield()
	if c != nil && c.OnEnc != nil {
		c.OnEnc(e)
	}
	return c.stage(me, 2)
}

func unmarshalProbe(d *bin.Decoder) (v uint32, err error) {
	c := ctx()
	me := -1
	if c != nil {
		me = len(c.Calls)
		call := Call{Pos: int(d.Position()), D: d}
		if p, err := d.Peek(4); err == nil {
			call.V = un4(p)
		}
		c.Calls = append(c.Calls, call)
		if c.OnDec != nil {
			c.OnDec(d)
		}
	}
	vs.Yield()
	if err := c.stage(me, 0); err != nil {
		return 0, err
	}
	p, err := d.Peek(4)
	if err != nil {
		return 0, err
	}
	w := ProbeWire(un4(p), decOf(d), false)
	if p, err = d.Peek(len(w)); err != nil {
		return 0, err
	}
	if string(p) != string(w) && string(p) != string(ProbeWire(un4(p), decOf(d), true)) {
		return 0, ErrProbe
	}
	start := int(d.Position())
	if v, err = d.ReadUint32(bin.BE); err != nil {
		return 0, err
	}
	if err := c.stage(me, 1); err != nil {
		return 0, err
	}
	ok := true
	switch v % probeModes {
	case 1:
		var in probeInner
		if err = d.Decode(&in); err == nil {
			ok = sameInner(in, innerOf(v))
		}
	case 2:
		b := make([]byte, len(payload(v+1)))
		if _, err = d.Read(b); err == nil {
			var x []byte
			x, err = d.ReadByteSlice()
			ok = string(b) == string(payload(v+1)) && string(x) == string(payload(v))
		}
	case 3:
		var s string
		if s, err = d.ReadString(); err == nil {
			var t bool
			t, err = d.ReadBool()
			ok = s == fmt.Sprint("s", v%1009) && t == (v>>4&1 == 1)
		}
	case 4:
		var n ProbeI
		if err = d.Decode(&n); err == nil {
			var x byte
			x, err = d.ReadByte()
			ok = uint32(n) == nestedV(v) && x == byte(v>>8)
		}
	case 5:
		var n, m uint64
		if n, err = d.ReadUvarint64(); err == nil {
			m, err = d.ReadUint64(bin.BE)
			ok = n == uint64(v) && m == uint64(v)*0x10001
		}
	case 6:
		var in probeInner
		if err = d.Decode(&in); err == nil {
			var n bin.Uint64
			err = n.UnmarshalWithDecoder(d)
			ok = in.A == innerOf(v).A && uint64(n) == libNum(v)
		}
	case 7:
		var b []byte
		if b, err = d.ReadByteSlice(); err == nil {
			var in probeInner
			in, err = unown(v, b)
			ok = sameInner(in, innerOf(v))
		}
	}
	if err != nil {
		return 0, err
	}
	vs.Yield()
	if !ok || int(d.Position()) != start+len(w) {
		return 0, fmt.Errorf("codec: read something else than the bytes in front of it (codec %#x)", v)
	}
	return v, c.stage(me, 2)
}

func (p ProbeV) MarshalWithEncoder(e *bin.Encoder) error { return marshalProbe(p.V, e) }
func (p *ProbeV) UnmarshalWithDecoder(d *bin.Decoder) (err error) {
	p.V, err = unmarshalProbe(d)
	return
}
func (p *ProbeP) MarshalWithEncoder(e *bin.Encoder) error { return marshalProbe(p.V, e) }
func (p *ProbeP) UnmarshalWithDecoder(d *bin.Decoder) (err error) {
	p.V, err = unmarshalProbe(d)
	return
}
func (p ProbeI) MarshalWithEncoder(e *bin.Encoder) error { return marshalProbe(uint32(p), e) }
func (p *ProbeI) UnmarshalWithDecoder(d *bin.Decoder) error {
	v, err := unmarshalProbe(d)
	*p = ProbeI(v)
	return err
}
func (p ProbeN) MarshalWithEncoder(e *bin.Encoder) error { return marshalProbe(uint32(p), e) }
func (p *ProbeN) UnmarshalWithDecoder(d *bin.Decoder) error {
	v, err := unmarshalProbe(d)
	*p = ProbeN(v)
	return err
}
func (p ProbeS) MarshalWithEncoder(e *bin.Encoder) error { return marshalProbe(un4([]byte(p)), e) }
func (p *ProbeS) UnmarshalWithDecoder(d *bin.Decoder) error {
	v, err := unmarshalProbe(d)
	*p = ProbeS(probeKeyString(v))
	return err
}
func (p ProbeB) MarshalWithEncoder(e *bin.Encoder) error { return marshalProbe(un4(p), e) }
func (p *ProbeB) UnmarshalWithDecoder(d *bin.Decoder) error {
	v, err := unmarshalProbe(d)
	*p = nil
	if v != 0 {
		*p = be4(v)
	}
	return err
}
func (p ProbeA) MarshalWithEncoder(e *bin.Encoder) error {
	return marshalProbe(uint32(p[0])<<16|uint32(p[1]), e)
}
func (p *ProbeA) UnmarshalWithDecoder(d *bin.Decoder) error {
	v, err := unmarshalProbe(d)
	*p = ProbeA{uint16(v >> 16), uint16(v)}
	return err
}
