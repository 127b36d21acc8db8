package props

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"reflect"
	"runtime"
	"sync"
	"syscall"

	bin "github.com/gagliardetto/binary"

	"verif.local/dst/model"
)

func init() {
	register(&Prop{ID: "C06", Title: "Decoder cursor", Run: runC06,
		Rule: "one run is a history of up to 60 reads, peeks, skips, discards, seeks, resets, encoding switches and whole-record reads on one decoder over buffers that end anywhere (some are the front part of a larger array), each compared with a reference cursor. " +
			"Non-trivial: a read met the end of the data, an argument was out of range or the content was malformed. Distinct: different sequence of operations and outcomes.",
		Real: "Decoder: every exported method", Stub: "the byte source behind the buffer, user codecs", Quick: 2500000, Thor: 40000000})
}

// outcome of a reference operation
const (
	refOK   = iota // the value is there
	refLack        // not enough data: nothing moves
	refBad         // refused: the position stays within [before, len]
	refMay         // either refused or the value
)

type got06 struct {
	u, hi uint64
	b     string
}

func (g got06) String() string {
	if g.b != "" {
		return fmt.Sprintf("%q", clip(g.b, 60))
	}
	return fmt.Sprintf("%#x/%#x", g.u, g.hi)
}

type cur06 struct {
	b   []byte
	pos int
	e   model.Enc
}

func (c *cur06) rest() []byte { return c.b[c.pos:] }

type arg06 struct {
	n   int
	u   uint
	big bool
	buf []byte
}

type op06 struct {
	name string
	n    int // 1: takes a count, 2: takes an unsigned position or count
	do   func(d *bin.Decoder, a *arg06) (got06, error)
	ref  func(c *cur06, a *arg06) (g got06, size int, st int)
}

func fixed(n int, conv func(b []byte, big bool) got06) func(c *cur06, a *arg06) (got06, int, int) {
	return func(c *cur06, a *arg06) (got06, int, int) {
		if len(c.rest()) < n {
			return got06{}, 0, refLack
		}
		return conv(c.rest()[:n], a.big), n, refOK
	}
}

func unsignedN(n int) func(b []byte, big bool) got06 {
	return func(b []byte, big bool) got06 { return got06{u: model.GetU(b, n, big)} }
}

func signedN(n int) func(b []byte, big bool) got06 {
	return func(b []byte, big bool) got06 {
		sh := uint(64 - 8*n)
		return got06{u: uint64(int64(model.GetU(b, n, big)<<sh) >> sh)}
	}
}

func wide(b []byte, big bool) got06 {
	if big {
		return got06{hi: model.GetU(b[:8], 8, true), u: model.GetU(b[8:], 8, true)}
	}
	return got06{u: model.GetU(b[:8], 8, false), hi: model.GetU(b[8:], 8, false)}
}

// uv reads an unsigned varint.
func uv(b []byte) (v uint64, size, st int) {
	for i := 0; ; i++ {
		if i > 9 {
			return 0, 0, refBad
		}
		if i >= len(b) {
			return 0, 0, refLack
		}
		if i == 9 && b[i] > 1 {
			return 0, 0, refBad
		}
		v |= uint64(b[i]&0x7f) << uint(7*i)
		if b[i] < 0x80 {
			if b[i] == 0 && i > 0 {
				return v, i + 1, refMay
			}
			return v, i + 1, refOK
		}
	}
}

func uvRef(max uint64) func(c *cur06, a *arg06) (got06, int, int) {
	return func(c *cur06, a *arg06) (got06, int, int) {
		v, n, st := uv(c.rest())
		if (st == refOK || st == refMay) && v > max {
			return got06{}, 0, refBad
		}
		return got06{u: v}, n, st
	}
}

func svRef(min, max int64) func(c *cur06, a *arg06) (got06, int, int) {
	return func(c *cur06, a *arg06) (got06, int, int) {
		u, n, st := uv(c.rest())
		v := int64(u >> 1)
		if u&1 == 1 {
			v = ^v
		}
		if (st == refOK || st == refMay) && (v < min || v > max) {
			return got06{}, 0, refBad
		}
		return got06{u: uint64(v)}, n, st
	}
}

func compactRef(c *cur06, a *arg06) (got06, int, int) {
	v, n, need, ok := model.CompactU16(c.rest())
	if !ok {
		if need >= len(c.rest()) && need < 3 && (need == 0 || c.rest()[need-1] >= 0x80) {
			return got06{}, 0, refLack
		}
		return got06{}, 0, refBad
	}
	return got06{u: uint64(v)}, n, refOK
}

func lengthRef(c *cur06, a *arg06) (g got06, n, st int) {
	switch c.e {
	case model.Bin:
		g, n, st = uvRef(math.MaxInt32)(c, a)
	case model.Compact:
		g, n, st = compactRef(c, a)
	default:
		g, n, st = fixed(4, unsignedN(4))(c, &arg06{})
		if st == refOK && g.u > math.MaxInt32 {
			st = refBad
		}
	}
	return
}

func stringRef(fix func([]byte) []byte) func(c *cur06, a *arg06) (got06, int, int) {
	return func(c *cur06, a *arg06) (got06, int, int) {
		g, n, st := lengthRef(c, a)
		if st == refBad || st == refLack {
			return got06{}, 0, refBad
		}
		l := int(g.u)
		if l > len(c.rest())-n {
			return got06{}, 0, refBad
		}
		return got06{b: string(fix(c.rest()[n : n+l]))}, n + l, st
	}
}

func same(b []byte) []byte { return b }

func nRef(c *cur06, a *arg06) (got06, int, int) {
	if a.n < 0 || a.n > len(c.rest()) {
		return got06{}, 0, refLack
	}
	return got06{b: string(c.rest()[:a.n])}, a.n, refOK
}

func peekRef(c *cur06, a *arg06) (got06, int, int) {
	g, _, st := nRef(c, a)
	return g, 0, st
}

func ordOf(a *arg06) interface {
	Uint16([]byte) uint16
	Uint32([]byte) uint32
	Uint64([]byte) uint64
	PutUint16([]byte, uint16)
	PutUint32([]byte, uint32)
	PutUint64([]byte, uint64)
	String() string
} {
	if a.big {
		return bin.BE
	}
	return bin.LE
}

func boolU(v bool, err error) (got06, error) { return got06{u: b2u(v)}, err }
func bytesG(b []byte, err error) (got06, error) {
	if err != nil {
		return got06{}, err
	}
	return got06{b: string(b)}, nil
}

// flag is a byte that is zero or one; a decoder may refuse others.
func flag(n int, strict bool) func(c *cur06, a *arg06) (got06, int, int) {
	return func(c *cur06, a *arg06) (got06, int, int) {
		if len(c.rest()) < n {
			return got06{}, 0, refLack
		}
		v := model.GetU(c.rest(), n, false)
		switch {
		case v <= 1:
			return got06{u: v}, n, refOK
		case strict:
			return got06{}, 0, refBad
		}
		return got06{u: 1}, n, refMay
	}
}

func floatRef(n int) func(c *cur06, a *arg06) (got06, int, int) {
	return func(c *cur06, a *arg06) (got06, int, int) {
		if len(c.rest()) < n {
			return got06{}, 0, refLack
		}
		u := model.GetU(c.rest(), n, a.big)
		nan := false
		if n == 4 {
			f := math.Float32frombits(uint32(u))
			nan = f != f
		} else {
			f := math.Float64frombits(u)
			nan = f != f
		}
		if nan {
			if c.e == model.Borsh {
				return got06{}, 0, refBad
			}
			return got06{b: "NaN"}, n, refOK
		}
		return got06{u: u}, n, refOK
	}
}

var ops06 []*op06

func init() {
	add := func(name string, n int, do func(d *bin.Decoder, a *arg06) (got06, error), ref func(c *cur06, a *arg06) (got06, int, int)) {
		ops06 = append(ops06, &op06{name, n, do, ref})
	}
	add("ReadByte", 0, func(d *bin.Decoder, a *arg06) (got06, error) { v, err := d.ReadByte(); return got06{u: uint64(v)}, err }, fixed(1, unsignedN(1)))
	add("ReadUint8", 0, func(d *bin.Decoder, a *arg06) (got06, error) {
		v, err := d.ReadUint8()
		return got06{u: uint64(v)}, err
	}, fixed(1, unsignedN(1)))
	add("ReadInt8", 0, func(d *bin.Decoder, a *arg06) (got06, error) {
		v, err := d.ReadInt8()
		return got06{u: uint64(int64(v))}, err
	}, fixed(1, signedN(1)))
	add("ReadUint16", 0, func(d *bin.Decoder, a *arg06) (got06, error) {
		v, err := d.ReadUint16(ordOf(a))
		return got06{u: uint64(v)}, err
	}, fixed(2, unsignedN(2)))
	add("ReadInt16", 0, func(d *bin.Decoder, a *arg06) (got06, error) {
		v, err := d.ReadInt16(ordOf(a))
		return got06{u: uint64(int64(v))}, err
	}, fixed(2, signedN(2)))
	add("ReadUint32", 0, func(d *bin.Decoder, a *arg06) (got06, error) {
		v, err := d.ReadUint32(ordOf(a))
		return got06{u: uint64(v)}, err
	}, fixed(4, unsignedN(4)))
	add("ReadInt32", 0, func(d *bin.Decoder, a *arg06) (got06, error) {
		v, err := d.ReadInt32(ordOf(a))
		return got06{u: uint64(int64(v))}, err
	}, fixed(4, signedN(4)))
	add("ReadUint64", 0, func(d *bin.Decoder, a *arg06) (got06, error) {
		v, err := d.ReadUint64(ordOf(a))
		return got06{u: v}, err
	}, fixed(8, unsignedN(8)))
	add("ReadInt64", 0, func(d *bin.Decoder, a *arg06) (got06, error) {
		v, err := d.ReadInt64(ordOf(a))
		return got06{u: uint64(v)}, err
	}, fixed(8, signedN(8)))
	add("ReadUint128", 0, func(d *bin.Decoder, a *arg06) (got06, error) {
		v, err := d.ReadUint128(ordOf(a))
		return got06{u: v.Lo, hi: v.Hi}, err
	}, fixed(16, wide))
	add("ReadInt128", 0, func(d *bin.Decoder, a *arg06) (got06, error) {
		v, err := d.ReadInt128(ordOf(a))
		return got06{u: v.Lo, hi: v.Hi}, err
	}, fixed(16, wide))
	add("ReadFloat128", 0, func(d *bin.Decoder, a *arg06) (got06, error) {
		v, err := d.ReadFloat128(ordOf(a))
		return got06{u: v.Lo, hi: v.Hi}, err
	}, fixed(16, wide))
	add("ReadFloat32", 0, func(d *bin.Decoder, a *arg06) (got06, error) {
		v, err := d.ReadFloat32(ordOf(a))
		if v != v {
			return got06{b: "NaN"}, err
		}
		return got06{u: uint64(math.Float32bits(v))}, err
	}, floatRef(4))
	add("ReadFloat64", 0, func(d *bin.Decoder, a *arg06) (got06, error) {
		v, err := d.ReadFloat64(ordOf(a))
		if v != v {
			return got06{b: "NaN"}, err
		}
		return got06{u: math.Float64bits(v)}, err
	}, floatRef(8))
	add("ReadBool", 0, func(d *bin.Decoder, a *arg06) (got06, error) { return boolU(d.ReadBool()) }, flag(1, false))
	add("ReadOption", 0, func(d *bin.Decoder, a *arg06) (got06, error) { return boolU(d.ReadOption()) }, flag(1, false))
	add("ReadCOption", 0, func(d *bin.Decoder, a *arg06) (got06, error) { return boolU(d.ReadCOption()) }, flag(4, true))
	add("ReadUvarint64", 0, func(d *bin.Decoder, a *arg06) (got06, error) { v, err := d.ReadUvarint64(); return got06{u: v}, err }, uvRef(math.MaxUint64))
	add("ReadUvarint32", 0, func(d *bin.Decoder, a *arg06) (got06, error) {
		v, err := d.ReadUvarint32()
		return got06{u: uint64(v)}, err
	}, uvRef(math.MaxUint32))
	add("ReadUvarint16", 0, func(d *bin.Decoder, a *arg06) (got06, error) {
		v, err := d.ReadUvarint16()
		return got06{u: uint64(v)}, err
	}, uvRef(math.MaxUint16))
	add("ReadVarint64", 0, func(d *bin.Decoder, a *arg06) (got06, error) {
		v, err := d.ReadVarint64()
		return got06{u: uint64(v)}, err
	}, svRef(math.MinInt64, math.MaxInt64))
	add("ReadVarint32", 0, func(d *bin.Decoder, a *arg06) (got06, error) {
		v, err := d.ReadVarint32()
		return got06{u: uint64(int64(v))}, err
	}, svRef(math.MinInt32, math.MaxInt32))
	add("ReadVarint16", 0, func(d *bin.Decoder, a *arg06) (got06, error) {
		v, err := d.ReadVarint16()
		return got06{u: uint64(int64(v))}, err
	}, svRef(math.MinInt16, math.MaxInt16))
	add("ReadCompactU16", 0, func(d *bin.Decoder, a *arg06) (got06, error) {
		v, err := d.ReadCompactU16()
		return got06{u: uint64(v)}, err
	}, compactRef)
	add("ReadCompactU16Length", 0, func(d *bin.Decoder, a *arg06) (got06, error) {
		v, err := d.ReadCompactU16Length()
		return got06{u: uint64(v)}, err
	}, compactRef)
	add("ReadLength", 0, func(d *bin.Decoder, a *arg06) (got06, error) {
		v, err := d.ReadLength()
		return got06{u: uint64(v)}, err
	}, lengthRef)
	add("ReadByteSlice", 0, func(d *bin.Decoder, a *arg06) (got06, error) { return bytesG(d.ReadByteSlice()) }, stringRef(same))
	add("ReadString", 0, func(d *bin.Decoder, a *arg06) (got06, error) { v, err := d.ReadString(); return bytesG([]byte(v), err) }, stringRef(same))
	add("SafeReadUTF8String", 0, func(d *bin.Decoder, a *arg06) (got06, error) {
		v, err := d.SafeReadUTF8String()
		return bytesG([]byte(v), err)
	}, stringRef(model.SafeFix))
	add("ReadRustString", 0, func(d *bin.Decoder, a *arg06) (got06, error) {
		v, err := d.ReadRustString()
		return bytesG([]byte(v), err)
	}, func(c *cur06, a *arg06) (got06, int, int) {
		if len(c.rest()) < 8 {
			return got06{}, 0, refBad
		}
		l := model.GetU(c.rest(), 8, false)
		if l > uint64(len(c.rest())-8) {
			return got06{}, 0, refBad
		}
		return got06{b: string(c.rest()[8 : 8+l])}, 8 + int(l), refOK
	})
	add("ReadNBytes", 1, func(d *bin.Decoder, a *arg06) (got06, error) { return bytesG(d.ReadNBytes(a.n)) }, nRef)
	add("ReadBytes", 1, func(d *bin.Decoder, a *arg06) (got06, error) { return bytesG(d.ReadBytes(a.n)) }, nRef)
	add("Read", 3, func(d *bin.Decoder, a *arg06) (got06, error) {
		n, err := d.Read(a.buf)
		if err != nil {
			return got06{u: uint64(n)}, err
		}
		if n != len(a.buf) {
			return got06{b: fmt.Sprintf("only %d of %d bytes", n, len(a.buf))}, nil
		}
		return got06{b: string(a.buf)}, nil
	}, nRef)
	add("Discard", 1, func(d *bin.Decoder, a *arg06) (got06, error) { return got06{}, d.Discard(a.n) }, func(c *cur06, a *arg06) (got06, int, int) {
		if a.n < 0 || a.n > len(c.rest()) {
			return got06{}, 0, refLack
		}
		return got06{}, a.n, refOK
	})
	add("SkipBytes", 2, func(d *bin.Decoder, a *arg06) (got06, error) { return got06{}, d.SkipBytes(a.u) }, func(c *cur06, a *arg06) (got06, int, int) {
		if a.u > uint(len(c.rest())) {
			return got06{}, 0, refLack
		}
		return got06{}, int(a.u), refOK
	})
	add("SetPosition", 2, func(d *bin.Decoder, a *arg06) (got06, error) { return got06{}, d.SetPosition(a.u) }, func(c *cur06, a *arg06) (got06, int, int) {
		if a.u > uint(len(c.b)) {
			return got06{}, 0, refLack
		}
		if a.u == uint(len(c.b)) {
			return got06{}, int(a.u) - c.pos, refMay
		}
		return got06{}, int(a.u) - c.pos, refOK
	})
	add("Peek", 1, func(d *bin.Decoder, a *arg06) (got06, error) { return bytesG(d.Peek(a.n)) }, peekRef)
	add("PeekDiscriminator", 0, func(d *bin.Decoder, a *arg06) (got06, error) {
		v, err := d.PeekDiscriminator()
		return bytesG(v[:], err)
	}, func(c *cur06, a *arg06) (got06, int, int) {
		g, _, st := nRef(c, &arg06{n: 8})
		return g, 0, st
	})
	wideOrd := func(a *arg06) binary.ByteOrder {
		if a.big {
			return bin.BE
		}
		return nil
	}
	add("Uint128.UnmarshalWithDecoder", 0, func(d *bin.Decoder, a *arg06) (got06, error) {
		v := bin.Uint128{Endianness: wideOrd(a)}
		err := v.UnmarshalWithDecoder(d)
		return got06{u: v.Lo, hi: v.Hi}, err
	}, fixed(16, wide))
	add("Int128.UnmarshalWithDecoder", 0, func(d *bin.Decoder, a *arg06) (got06, error) {
		v := bin.Int128{Endianness: wideOrd(a)}
		err := v.UnmarshalWithDecoder(d)
		return got06{u: v.Lo, hi: v.Hi}, err
	}, fixed(16, wide))
	add("Float128.UnmarshalWithDecoder", 0, func(d *bin.Decoder, a *arg06) (got06, error) {
		v := bin.Float128{Endianness: wideOrd(a)}
		err := v.UnmarshalWithDecoder(d)
		return got06{u: v.Lo, hi: v.Hi}, err
	}, fixed(16, wide))
	le := func(ref func(c *cur06, a *arg06) (got06, int, int)) func(c *cur06, a *arg06) (got06, int, int) {
		return func(c *cur06, a *arg06) (got06, int, int) { return ref(c, &arg06{}) }
	}
	add("Uint64.UnmarshalWithDecoder", 0, func(d *bin.Decoder, a *arg06) (got06, error) {
		var v bin.Uint64
		err := v.UnmarshalWithDecoder(d)
		return got06{u: uint64(v)}, err
	}, le(fixed(8, unsignedN(8))))
	add("Int64.UnmarshalWithDecoder", 0, func(d *bin.Decoder, a *arg06) (got06, error) {
		var v bin.Int64
		err := v.UnmarshalWithDecoder(d)
		return got06{u: uint64(v)}, err
	}, le(fixed(8, unsignedN(8))))
	add("JSONFloat64.UnmarshalWithDecoder", 0, func(d *bin.Decoder, a *arg06) (got06, error) {
		var v bin.JSONFloat64
		err := v.UnmarshalWithDecoder(d)
		if v != v {
			return got06{b: "NaN"}, err
		}
		return got06{u: math.Float64bits(float64(v))}, err
	}, le(floatRef(8)))
	add("Bool.UnmarshalWithDecoder", 0, func(d *bin.Decoder, a *arg06) (got06, error) {
		var v bin.Bool
		err := v.UnmarshalWithDecoder(d)
		return boolU(bool(v), err)
	}, flag(1, false))
	add("Varint16.UnmarshalWithDecoder", 0, func(d *bin.Decoder, a *arg06) (got06, error) {
		var v bin.Varint16
		err := v.UnmarshalWithDecoder(d)
		return got06{u: uint64(int64(v))}, err
	}, svRef(math.MinInt16, math.MaxInt16))
	add("Varint32.UnmarshalWithDecoder", 0, func(d *bin.Decoder, a *arg06) (got06, error) {
		var v bin.Varint32
		err := v.UnmarshalWithDecoder(d)
		return got06{u: uint64(int64(v))}, err
	}, svRef(math.MinInt32, math.MaxInt32))
	add("Varuint16.UnmarshalWithDecoder", 0, func(d *bin.Decoder, a *arg06) (got06, error) {
		var v bin.Varuint16
		err := v.UnmarshalWithDecoder(d)
		return got06{u: uint64(v)}, err
	}, uvRef(math.MaxUint16))
	add("Varuint32.UnmarshalWithDecoder", 0, func(d *bin.Decoder, a *arg06) (got06, error) {
		var v bin.Varuint32
		err := v.UnmarshalWithDecoder(d)
		return got06{u: uint64(v)}, err
	}, uvRef(math.MaxUint32))
	add("SafeString.UnmarshalWithDecoder", 0, func(d *bin.Decoder, a *arg06) (got06, error) {
		var v bin.SafeString
		err := v.UnmarshalWithDecoder(d)
		return bytesG([]byte(v), err)
	}, stringRef(model.SafeFix))
	add("HexBytes.UnmarshalWithDecoder", 0, func(d *bin.Decoder, a *arg06) (got06, error) {
		var v bin.HexBytes
		err := v.UnmarshalWithDecoder(d)
		return bytesG([]byte(v), err)
	}, stringRef(same))
	tid := func(c *cur06, a *arg06) (got06, int, int) { return nRef(c, &arg06{n: 8}) }
	for i, o := range ops06 {
		if o.n == 2 || o.name == "Discard" {
			cursor06 = append(cursor06, i)
		}
	}
	add("ReadTypeID", 0, func(d *bin.Decoder, a *arg06) (got06, error) { v, err := d.ReadTypeID(); return bytesG(v[:], err) }, tid)
	add("ReadDiscriminator", 0, func(d *bin.Decoder, a *arg06) (got06, error) {
		v, err := d.ReadDiscriminator()
		return bytesG(v[:], err)
	}, tid)
}

var extreme = []int{-1, math.MinInt64, math.MaxInt64, math.MaxInt64 - 1, math.MaxInt32, math.MaxInt32 + 1, math.MaxUint32, -2, math.MinInt32, 1 << 62, -1 << 62, math.MaxInt64 - 7}

// buf06 draws the content of a buffer: pieces that reads can find.
func buf06(r *R, e model.Enc, cfgs *[3]*model.Cfg) (b []byte, recs []*Rec) {
	s := r.S
	for k := s.N(7); k > 0; k-- {
		switch s.W(4, 3, 2, 2, 1, 2) {
		case 0: // an encoded primitive
			o := GenOp(s, e, false)
			x, _ := o.Want(e)
			if len(x) < 2000 {
				b = append(b, x...)
			}
		case 1:
			f := make([]byte, s.N(20))
			s.Bulk().Fill(f)
			b = append(b, f...)
		case 2:
			b = append(b, hostile[s.N(len(hostile))]...)
		case 3: // a whole record
			if cfgs[e] == nil {
				cfgs[e] = model.GenCfg(s, e)
			}
			c := GenRec(r, e, cfgs[e], false)
			x, _ := c.Bytes()
			if len(x) < 5000 {
				b = append(b, x...)
				recs = append(recs, c)
			}
		case 4:
			b = append(b, make([]byte, s.N(20))...)
		default:
			b = append(b, byte(s.N(4)))
		}
	}
	if s.P(3) && len(b) > 0 {
		b = b[:s.N(len(b))]
	}
	// the buffer may be the front part of a larger array
	if s.Bool() {
		big := make([]byte, len(b)+24)
		s.Bulk().Fill(big)
		copy(big, b)
		b = big[:len(b)]
	}
	return
}

// A buffer of several gigabytes, all zero except around the places where
// 31- and 32-bit offsets end. Only the pages that are touched use memory.
var huge06 = sync.OnceValue(func() []byte {
	// not for a decoder that keeps a copy of its input
	small := make([]byte, 4<<20)
	var m [2]runtime.MemStats
	runtime.ReadMemStats(&m[0])
	d := bin.NewBinDecoder(small)
	d.Reset(small)
	runtime.ReadMemStats(&m[1])
	if m[1].TotalAlloc-m[0].TotalAlloc > 2<<20 {
		return nil
	}
	var lim syscall.Rlimit
	if syscall.Getrlimit(syscall.RLIMIT_AS, &lim) == nil && lim.Cur != math.MaxUint64 {
		lim.Cur += 5 << 30
		_ = syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	b, err := syscall.Mmap(-1, 0, 4<<30+8192, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE|syscall.MAP_NORESERVE)
	if err != nil {
		return nil
	}
	x := uint64(0x9e3779b97f4a7c15)
	for _, at := range []int{0, 1<<31 - 64, 1<<32 - 64, len(b) - 128} {
		for i := 0; i < 128; i++ {
			x = x*6364136223846793005 + 1442695040888963407
			b[at+i] = byte(x >> 56)
			if i%3 == 0 {
				b[at+i] &= 0x7f
			}
		}
	}
	return b
})

// runHuge06 moves a cursor across the offsets that need more than 31 and 32 bits.
func runHuge06(r *R) {
	s := r.S
	b := huge06()
	if b == nil {
		return
	}
	c := &cur06{e: GenEnc(r), b: b}
	if s.P(3) {
		c.b = b[:[]int{1<<31 - 1, 1 << 31, 1<<31 + 5, 1<<32 - 1, 1 << 32, 1<<32 + 7}[s.N(6)]]
	}
	d := newDecoder(c.e, c.b)
	r.Fault("buffer beyond 31-bit offsets")
	r.Logf("%s decoder over %d bytes", c.e, len(c.b))
	near := func() int {
		p := []int{1 << 31, 1 << 32, len(c.b), len(c.b) / 2, 0}[s.N(5)] - 40 + s.N(60)
		return max(0, min(p, len(c.b)))
	}
	for i := 2 + s.N(20); i > 0; i-- {
		k := s.N(len(ops06))
		if s.P(3) {
			k = cursor06[s.N(len(cursor06))]
		}
		if long06[ops06[k].name] {
			continue // could denote gigabytes
		}
		a := &arg06{big: s.Bool()}
		switch ops06[k].n {
		case 1:
			a.n = s.N(40)
			if ops06[k].name == "Discard" && s.Bool() {
				a.n = max(0, near()-c.pos)
				if a.n > math.MaxInt32 {
					a.n = math.MaxInt32
				}
			}
		case 2:
			a.u = uint(near())
			if ops06[k].name == "SkipBytes" {
				a.u = uint(max(0, int(a.u)-c.pos))
			}
		case 3:
			a.n = s.N(40)
			a.buf = make([]byte, a.n)
		}
		do06(r, d, c, k, a)
		check06(r, d, c, "")
	}
}

var cursor06 []int

var long06 = map[string]bool{"ReadByteSlice": true, "ReadString": true, "SafeReadUTF8String": true, "ReadRustString": true,
	"SafeString.UnmarshalWithDecoder": true, "HexBytes.UnmarshalWithDecoder": true}

func runC06(r *R) {
	s := r.S
	if !r.task && s.P(200) {
		runHuge06(r)
		return
	}
	var cfgs [3]*model.Cfg
	c := &cur06{e: GenEnc(r)}
	var recs []*Rec
	c.b, recs = buf06(r, c.e, &cfgs)
	keep := append([]byte(nil), c.b[:cap(c.b)]...)
	var d *bin.Decoder
	if s.P(4) {
		d = bin.NewDecoderWithEncoding(c.b, c.e.Lib())
	} else {
		d = newDecoder(c.e, c.b)
	}
	r.Logf("%s decoder over %d bytes %x (capacity %d)", c.e, len(c.b), clip(string(c.b), 200), cap(c.b))
	n := 1 + s.N(12)
	if s.P(3) {
		n += s.N(50)
	}
	intact := func() {
		if !bytes.Equal(c.b[:cap(c.b)], keep) {
			r.Fail("input-modified", "reading changed the input buffer")
		}
	}
	for i := 0; i < n; i++ {
		switch s.W(12, 1, 1, 2) {
		case 1:
			intact()
			c.b, recs = buf06(r, c.e, &cfgs)
			keep = append([]byte(nil), c.b[:cap(c.b)]...)
			c.pos = 0
			r.Logf("Reset to %d bytes %x", len(c.b), clip(string(c.b), 200))
			r.Fault("reset in mid-history")
			r.Call("Reset", 0, func() { d.Reset(c.b) })
			r.Shape(901)
		case 2:
			c.e = GenEnc(r)
			r.Logf("SetEncoding %s", c.e)
			d.SetEncoding(c.e.Lib())
			if d.IsBin() != (c.e == model.Bin) || d.IsBorsh() != (c.e == model.Borsh) || d.IsCompactU16() != (c.e == model.Compact) {
				r.Fail("encoding", "after SetEncoding(%s): IsBin %v, IsBorsh %v, IsCompactU16 %v", c.e, d.IsBin(), d.IsBorsh(), d.IsCompactU16())
			}
			r.Shape(902)
		case 3:
			if s.P(6) {
				target06(r, d, c)
			} else {
				decode06(r, d, c, recs, &cfgs)
			}
		default:
			step06(r, d, c)
		}
		check06(r, d, c, "")
	}
	intact()
}

func check06(r *R, d *bin.Decoder, c *cur06, what string) {
	p, rem, l, has := d.Position(), d.Remaining(), d.Len(), d.HasRemaining()
	if p != uint(c.pos) {
		r.Fail("position", "%safter this operation the position is %d, expected %d (buffer of %d)", what, p, c.pos, len(c.b))
	}
	if l != len(c.b) || rem != len(c.b)-c.pos || has != (rem > 0) {
		r.Fail("queries", "%sposition %d of %d: Len %d, Remaining %d, HasRemaining %v", what, p, len(c.b), l, rem, has)
	}
	r.Ev(uint64(p))
}

func step06(r *R, d *bin.Decoder, c *cur06) {
	s := r.S
	k := s.N(len(ops06))
	op := ops06[k]
	a := &arg06{big: s.Bool()}
	switch op.n {
	case 1:
		a.n = s.N(len(c.rest()) + 3)
		if s.P(5) {
			a.n = extreme[s.N(len(extreme))]
			r.Fault("extreme argument")
		}
		if s.P(8) {
			a.n = len(c.rest())
		}
	case 2:
		a.u = uint(s.N(len(c.b) + 3))
		if s.P(5) {
			a.u = uint(extreme[s.N(len(extreme))])
			r.Fault("extreme argument")
		}
		if s.P(6) {
			// wraps around to an offset near the current position
			a.u = uint(s.N(len(c.b)+1)) - uint(c.pos)
		}
	case 3:
		a.n = s.N(len(c.rest()) + 3)
		a.buf = make([]byte, a.n)
	}
	do06(r, d, c, k, a)
}

// do06 performs one operation and compares it with the reference.
func do06(r *R, d *bin.Decoder, c *cur06, k int, a *arg06) {
	op := ops06[k]
	g, size, st := op.ref(c, a)
	before := c.pos
	var v got06
	var err error
	r.Logf("%s n=%d u=%d big=%v at %d of %d", op.name, a.n, a.u, a.big, c.pos, len(c.b))
	r.Call(op.name, 1_000_000+uint64(min(len(c.b), 1<<20))*100, func() { v, err = op.do(d, a) })
	r.Logf("  -> %v, %v, position %d", v, err, d.Position())
	r.Shape(uint64(k), uint64(st))
	r.Ev(b2u(err == nil), v.u, v.hi, hs(v.b))
	if st == refMay {
		if err != nil {
			st = refBad
		} else {
			st = refOK
		}
	}
	switch st {
	case refOK:
		if err != nil {
			r.Fail("refused", "%s(n=%d u=%d) at %d of %d bytes returned %q, expected %v", op.name, a.n, a.u, before, len(c.b), err, g)
		}
		if v != g {
			r.Fail("wrong-value", "%s(n=%d big=%v) at %d of %d bytes returned %v, the bytes denote %v", op.name, a.n, a.big, before, len(c.b), v, g)
		}
		c.pos += size
	case refLack:
		r.Fault("data ends inside a read")
		if err == nil {
			r.Fail("accepted", "%s(n=%d u=%d) at %d of %d bytes returned %v without an error", op.name, a.n, a.u, before, len(c.b), v)
		}
		if op.n == 3 && v.u != 0 {
			r.Fail("read-count", "Read of %d bytes at %d of %d failed (%v) but reported %d bytes as read", a.n, before, len(c.b), err, int(v.u))
		}
		if d.Position() != uint(before) {
			r.Fail("moved", "%s(n=%d u=%d) failed at %d of %d bytes for lack of data and moved the position to %d", op.name, a.n, a.u, before, len(c.b), d.Position())
		}
	case refBad:
		r.Fault("malformed content")
		if err == nil {
			r.Fail("accepted", "%s at %d of %d bytes returned %v without an error; the bytes hold no such value", op.name, before, len(c.b), v)
		}
		adopt06(r, d, c, op.name, err)
	}
}

// adopt06 takes over the position after a failed read of something longer.
func adopt06(r *R, d *bin.Decoder, c *cur06, what string, err error) {
	p := d.Position()
	if p < uint(c.pos) || p > uint(len(c.b)) {
		r.Fail("moved", "%s failed (%v) at %d and left the position at %d of %d", what, err, c.pos, p, len(c.b))
	}
	c.pos = int(p)
}

// decode06 reads a whole record.
func decode06(r *R, d *bin.Decoder, c *cur06, recs []*Rec, cfgs *[3]*model.Cfg) {
	s := r.S
	var sc *model.Schema
	if len(recs) > 0 && recs[0].E == c.e && !s.P(4) {
		sc = recs[s.N(len(recs))].S
	} else {
		if cfgs[c.e] == nil {
			cfgs[c.e] = model.GenCfg(s, c.e)
		}
		sc = model.GenTop(s, cfgs[c.e])
	}
	md := &model.Dec{B: c.b, Pos: c.pos, E: c.e}
	want, ok := md.Decode(sc)
	got := reflect.New(sc.T)
	var err error
	r.Logf("Decode as %s %s at %d of %d", c.e, clip(sc.String(), 400), c.pos, len(c.b))
	target := got.Interface()
	if s.P(8) {
		// behind an interface
		var i interface{} = target
		target = &i
	}
	r.Call("Decode", budget(sc, len(c.b)), func() { err = d.Decode(target) })
	r.Logf("  -> %v, position %d", err, d.Position())
	r.Shape(903, b2u(ok), b2u(err == nil))
	r.Ev(b2u(err == nil))
	if err != nil {
		if ok && !md.Lenient && !md.Dup {
			r.Fail("refused", "Decode at %d of %d bytes returned %q, but the bytes hold the value %s of %s", c.pos, len(c.b), err, model.Show(sc, &want), clip(sc.String(), 400))
		}
		r.Fault("record cut or malformed")
		adopt06(r, d, c, "Decode", err)
		return
	}
	v := model.FromGo(sc, got.Elem())
	if !ok {
		r.Fail("accepted", "Decode at %d of %d bytes gave %s; the bytes hold no such value", c.pos, len(c.b), model.Show(sc, &v))
	}
	if !md.NaNKey {
		if df := model.Diff(sc, &want, &v, true); df != "" {
			r.Fail("wrong-value", "Decode at %d: %s; type %s", c.pos, df, clip(sc.String(), 400))
		}
	}
	c.pos = md.Pos
}

type int06 struct{ A int }

// target06 decodes into something that cannot be decoded into.
func target06(r *R, d *bin.Decoder, c *cur06) {
	k := r.S.N(17)
	v := []interface{}{nil, byte(1), "text", []byte{1, 2}, [2]uint16{}, map[string]uint8{}, int06{}, (*uint32)(nil), (*int06)(nil), (*[]byte)(nil),
		new(int), new(uint), new(chan int), new(func()), new(complex128), new(uintptr), nil}[k]
	if k == 16 {
		// an interface that holds its own address: nothing to decode into, but no reason to hang
		var x interface{}
		x = &x
		r.Call("Decode(self-referential interface)", 1_000_000, func() { _ = d.Decode(x) })
		adopt06(r, d, c, "Decode", nil)
		return
	}
	r.Fault("invalid decode target")
	r.Shape(904, uint64(k))
	r.Logf("Decode into an invalid target %T at %d of %d", v, c.pos, len(c.b))
	var err error
	r.Call(fmt.Sprintf("Decode(%T)", v), 1_000_000, func() { err = d.Decode(v) })
	if err == nil {
		r.Fail("invalid-target", "Decode into %T returned no error", v)
	}
}
