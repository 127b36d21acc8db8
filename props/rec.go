package props

import (
	"encoding/binary"
	"fmt"
	"math"
	"reflect"

	bin "github.com/gagliardetto/binary"

	"verif.local/dst/model"
)

// Rec is one encoding call: a value passed to Encode, or one of the encoder's
// Write methods.
type Rec struct {
	E    model.Enc
	S    *model.Schema
	V    model.Val
	Go   reflect.Value
	Ptr  bool // pass a pointer
	Op   *Op
	segs []model.Seg
	norm *model.Val
}

func (c *Rec) String() string {
	if c.Op != nil {
		return fmt.Sprintf("%s.%s", c.E, c.Op)
	}
	p := ""
	if c.Ptr {
		p = "&"
	}
	return fmt.Sprintf("%s.Encode(%s%s of %s)", c.E, p, model.Show(c.S, &c.V), clip(c.S.String(), 900))
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// GenRec draws an encoding call.
func GenRec(r *R, e model.Enc, cfg *model.Cfg, ops bool) *Rec {
	c := &Rec{E: e}
	if r.huge > 0 {
		// once in a while, one record of a run is huge
		h := r.S.P(r.huge)
		r.huge = 0
		if h {
			r.Hit("huge record")
			if ops && r.S.P(6) {
				c.Op = GenOp(r.S, e, false)
				if c.Op.B != nil {
					c.Op.B = make([]byte, model.HugeLen(r.S, e))
					r.S.Bulk().Fill(c.Op.B)
				}
				r.Shape(uint64(e), hs(c.Op.Name), uint64(len(c.Op.B)))
				return c
			}
			c.S, c.V = model.GenHuge(r.S, e)
			c.Go = model.Go(c.S, &c.V)
			c.Ptr = r.S.Bool()
			r.Shape(uint64(e), shapeOf(c.S, 0), uint64(len(c.V.B)+len(c.V.Elems)))
			return c
		}
	}
	if ops && r.S.P(4) {
		c.Op = GenOp(r.S, e, cfg.NaN)
		r.Shape(uint64(e), hs(c.Op.Name))
		return c
	}
	c.S = model.GenTop(r.S, cfg)
	c.V = model.GenVal(r.S, cfg, c.S)
	c.Go = model.Go(c.S, &c.V)
	c.Ptr = c.S.K != model.KPtr && r.S.Bool()
	r.Shape(uint64(e), shapeOf(c.S, 0))
	return c
}

func shapeOf(s *model.Schema, depth int) uint64 {
	h := uint64(s.K) + 1
	f := func(x uint64) { h = (h ^ x) * prime; h ^= h >> 33 }
	if depth > 4 {
		return h
	}
	if s.Elem != nil {
		f(shapeOf(s.Elem, depth+1))
	}
	if s.Key != nil {
		f(shapeOf(s.Key, depth+1))
	}
	for i := range s.Fields {
		x := &s.Fields[i]
		f(shapeOf(x.S, depth+1))
		f(b2u(x.Big) | b2u(x.Opt)<<1 | b2u(x.COpt)<<2 | b2u(x.Skip)<<3 | b2u(x.Ext)<<4 | b2u(x.SizeOf >= 0)<<5)
	}
	return h
}

// GenEnc draws an encoding.
func GenEnc(r *R) model.Enc { return model.Enc(r.S.N(3)) }

// Segs is the reference encoding.
func (c *Rec) Segs() []model.Seg {
	if c.segs == nil {
		if c.Op != nil {
			b, ok := c.Op.Want(c.E)
			c.segs = []model.Seg{{B: b}}
			if !ok {
				c.segs = []model.Seg{{B: b}, {Stop: true}}
			}
		} else {
			c.segs = model.Segs(c.S, &c.V, c.E)
		}
		if c.segs == nil {
			c.segs = []model.Seg{}
		}
	}
	return c.segs
}

// Bytes is the canonical reference encoding.
func (c *Rec) Bytes() ([]byte, bool) {
	if c.Op != nil {
		return c.Op.Want(c.E)
	}
	return model.Bytes(c.S, &c.V, c.E)
}

// Arg is what is passed to Encode.
func (c *Rec) Arg() interface{} {
	if c.Ptr {
		return c.Go.Addr().Interface()
	}
	return c.Go.Interface()
}

// Write performs the call.
func (c *Rec) Write(e *bin.Encoder) error {
	if c.Op != nil {
		return c.Op.Do(e)
	}
	return e.Encode(c.Arg())
}

// Norm is the value a reader gets.
func (c *Rec) Norm() *model.Val {
	if c.norm == nil {
		n := model.Norm(c.S, &c.V, c.E)
		c.norm = &n
	}
	return c.norm
}

// Read performs the matching read; diff tells how the result differs.
func (c *Rec) Read(d *bin.Decoder) (diff string, err error) {
	if c.Op != nil {
		return c.Op.Read(d)
	}
	p := reflect.New(c.S.T)
	if err = d.Decode(p.Interface()); err != nil {
		return "", err
	}
	return c.Check(p.Elem()), nil
}

// Check compares a decoded value.
func (c *Rec) Check(rv reflect.Value) string {
	got := model.FromGo(c.S, rv)
	return model.Diff(c.S, c.Norm(), &got, true)
}

// Budget is a generous bound on the statements needed to process n bytes.
func (c *Rec) Budget(n int) uint64 {
	if c.Op != nil {
		return 1_000_000 + 200*uint64(n)
	}
	return budget(c.S, n)
}

func budget(s *model.Schema, n int) uint64 {
	return 2_000_000 + 600*uint64(s.Weight())*uint64(n+4)
}

func newEncoder(e model.Enc, w interface {
	Write([]byte) (int, error)
}) *bin.Encoder {
	switch e {
	case model.Bin:
		return bin.NewBinEncoder(w)
	case model.Compact:
		return bin.NewCompactU16Encoder(w)
	}
	return bin.NewBorshEncoder(w)
}

func newDecoder(e model.Enc, b []byte) *bin.Decoder {
	switch e {
	case model.Bin:
		return bin.NewBinDecoder(b)
	case model.Compact:
		return bin.NewCompactU16Decoder(b)
	}
	return bin.NewBorshDecoder(b)
}

func marshal(e model.Enc, v interface{}) ([]byte, error) {
	switch e {
	case model.Bin:
		return bin.MarshalBin(v)
	case model.Compact:
		return bin.MarshalCompactU16(v)
	}
	return bin.MarshalBorsh(v)
}

func unmarshal(e model.Enc, v interface{}, b []byte) error {
	switch e {
	case model.Bin:
		return bin.UnmarshalBin(v, b)
	case model.Compact:
		return bin.UnmarshalCompactU16(v, b)
	}
	return bin.UnmarshalBorsh(v, b)
}

func byteCount(e model.Enc, v interface{}) (uint64, error) {
	switch e {
	case model.Bin:
		return bin.BinByteCount(v)
	case model.Compact:
		return bin.CompactU16ByteCount(v)
	}
	return bin.BorshByteCount(v)
}

func mustByteCount(e model.Enc, v interface{}) uint64 {
	switch e {
	case model.Bin:
		return bin.MustBinByteCount(v)
	case model.Compact:
		return bin.MustCompactU16ByteCount(v)
	}
	return bin.MustBorshByteCount(v)
}

// Op is a call of one of the encoder's Write methods with its matching read.
type Op struct {
	Name string
	U    uint64
	Hi   uint64
	B    []byte
	Big  bool
	k    int
}

func (o *Op) String() string {
	if o.B != nil {
		return fmt.Sprintf("%s(%d bytes %x)", o.Name, len(o.B), clip(string(o.B), 24))
	}
	return fmt.Sprintf("%s(%#x %#x big=%v)", o.Name, o.U, o.Hi, o.Big)
}

var opNames = []string{"WriteByte", "WriteBytes", "WriteBytes+len", "Write", "WriteLength", "WriteUVarInt", "WriteVarInt",
	"WriteOption", "WriteCOption", "WriteBool", "WriteUint8", "WriteInt8", "WriteUint16", "WriteInt16", "WriteUint32",
	"WriteInt32", "WriteUint64", "WriteInt64", "WriteUint128", "WriteInt128", "WriteFloat32", "WriteFloat64",
	"WriteString", "WriteRustString", "WriteCompactU16", "WriteCompactU16Length", "Uint64.MarshalWithEncoder", "Int64.MarshalWithEncoder", "JSONFloat64.MarshalWithEncoder",
	"Uint128.MarshalWithEncoder", "Int128.MarshalWithEncoder", "Float128.MarshalWithEncoder", "Bool.MarshalWithEncoder", "Varint16.MarshalWithEncoder",
	"Varuint16.MarshalWithEncoder", "Varint32.MarshalWithEncoder", "Varuint32.MarshalWithEncoder", "SafeString.MarshalWithEncoder", "HexBytes.MarshalWithEncoder"}

// GenOp draws a call; bad allows arguments that cannot be encoded.
func GenOp(s *model.Src, e model.Enc, bad bool) *Op {
	o := &Op{k: s.N(len(opNames))}
	o.Name = opNames[o.k]
	o.Big = s.Bool()
	num := func() uint64 { return model.GenU(s) }
	switch o.k {
	case 1, 2, 3, 22, 23, 37, 38:
		n := s.N(40)
		if s.P(12) {
			n = []int{127, 128, 300, 16384, 65535, 70000}[s.N(6)]
		}
		if o.k == 2 || o.k == 22 || o.k >= 37 {
			if e == model.Compact && n > 65535 && !bad {
				n = 65535
			}
		}
		o.B = make([]byte, n)
		s.Bulk().Fill(o.B)
	case 4:
		o.U = num() & 0x7fffffff
		if e == model.Compact && !bad {
			o.U &= 0xffff
		}
	case 24, 25:
		o.U = num() & 0xffff
		if bad && s.Bool() {
			o.U = num()
		}
	case 28:
		o.U = math.Float64bits(float64(int32(num())) / 8)
	case 7, 8, 9, 32:
		o.U = uint64(s.N(2))
	case 18, 19, 29, 30, 31:
		o.U, o.Hi = num(), num()
	case 20:
		o.U = uint64(uint32(num()))
		if f := math.Float32frombits(uint32(o.U)); f != f {
			o.U |= 0x00400000
			if e == model.Borsh && !bad {
				o.U = 0x40490fdb
			}
		}
	case 21:
		o.U = num()
		if f := math.Float64frombits(o.U); f != f {
			o.U |= 0x0008000000000000
			if e == model.Borsh && !bad {
				o.U = 0x400921fb54442d18
			}
		}
	default:
		o.U = num()
	}
	return o
}

func (o *Op) order() binary.ByteOrder {
	if o.Big {
		return bin.BE
	}
	return bin.LE
}

// Do performs the call.
func (o *Op) Do(e *bin.Encoder) error {
	ord := o.order()
	switch o.k {
	case 0:
		return e.WriteByte(byte(o.U))
	case 1:
		return e.WriteBytes(o.B, false)
	case 2:
		return e.WriteBytes(o.B, true)
	case 3:
		n, err := e.Write(o.B)
		if err == nil && n != len(o.B) {
			return fmt.Errorf("Write returned %d for %d bytes without an error", n, len(o.B))
		}
		return err
	case 4:
		return e.WriteLength(int(o.U))
	case 5:
		return e.WriteUVarInt(int(o.U))
	case 6:
		return e.WriteVarInt(int(o.U))
	case 7:
		return e.WriteOption(o.U != 0)
	case 8:
		return e.WriteCOption(o.U != 0)
	case 9:
		return e.WriteBool(o.U != 0)
	case 10:
		return e.WriteUint8(uint8(o.U))
	case 11:
		return e.WriteInt8(int8(o.U))
	case 12:
		return e.WriteUint16(uint16(o.U), ord)
	case 13:
		return e.WriteInt16(int16(o.U), ord)
	case 14:
		return e.WriteUint32(uint32(o.U), ord)
	case 15:
		return e.WriteInt32(int32(o.U), ord)
	case 16:
		return e.WriteUint64(o.U, ord)
	case 17:
		return e.WriteInt64(int64(o.U), ord)
	case 18:
		return e.WriteUint128(bin.Uint128{Lo: o.U, Hi: o.Hi}, ord)
	case 19:
		return e.WriteInt128(bin.Int128{Lo: o.U, Hi: o.Hi}, ord)
	case 20:
		return e.WriteFloat32(math.Float32frombits(uint32(o.U)), ord)
	case 21:
		return e.WriteFloat64(math.Float64frombits(o.U), ord)
	case 22:
		return e.WriteString(string(o.B))
	case 23:
		return e.WriteRustString(string(o.B))
	case 24:
		return e.WriteCompactU16(int(o.U))
	case 26:
		return bin.Uint64(o.U).MarshalWithEncoder(e)
	case 27:
		return bin.Int64(o.U).MarshalWithEncoder(e)
	case 28:
		return bin.JSONFloat64(math.Float64frombits(o.U)).MarshalWithEncoder(e)
	case 29:
		return bin.Uint128(o.wide()).MarshalWithEncoder(e)
	case 30:
		return bin.Int128(o.wide()).MarshalWithEncoder(e)
	case 31:
		return bin.Float128(o.wide()).MarshalWithEncoder(e)
	case 32:
		return bin.Bool(o.U != 0).MarshalWithEncoder(e)
	case 33:
		return bin.Varint16(o.U).MarshalWithEncoder(e)
	case 34:
		return bin.Varuint16(o.U).MarshalWithEncoder(e)
	case 35:
		return bin.Varint32(o.U).MarshalWithEncoder(e)
	case 36:
		return bin.Varuint32(o.U).MarshalWithEncoder(e)
	case 37:
		return bin.SafeString(o.B).MarshalWithEncoder(e)
	case 38:
		return bin.HexBytes(o.B).MarshalWithEncoder(e)
	default:
		return e.WriteCompactU16Length(int(o.U))
	}
}

// wide is the value of a 128-bit type; outside of any field its own byte order counts.
func (o *Op) wide() bin.Uint128 {
	v := bin.Uint128{Lo: o.U, Hi: o.Hi}
	if o.Big {
		v.Endianness = bin.BE
	} else if o.U&1 == 1 {
		v.Endianness = bin.LE
	}
	return v
}

// Want is the reference encoding; ok is false if there is none.
func (o *Op) Want(e model.Enc) (b []byte, ok bool) {
	switch o.k {
	case 33:
		return model.AppVarint(nil, int64(int16(o.U))), true
	case 34:
		return model.AppUvarint(nil, uint64(uint16(o.U))), true
	case 35:
		return model.AppVarint(nil, int64(int32(o.U))), true
	case 36:
		return model.AppUvarint(nil, uint64(uint32(o.U))), true
	case 0, 7, 9, 10, 11, 32:
		return []byte{byte(o.U)}, true
	case 1, 3:
		return o.B, true
	case 2, 22, 37, 38:
		b, ok = model.AppLen(nil, e, len(o.B))
		if ok {
			b = append(b, o.B...)
		}
		return b, ok
	case 4:
		return model.AppLen(nil, e, int(o.U))
	case 5:
		return model.AppUvarint(nil, o.U), true
	case 6:
		return model.AppVarint(nil, int64(o.U)), true
	case 8:
		return model.AppU(nil, o.U, 4, false), true
	case 26, 27, 28:
		return model.AppU(nil, o.U, 8, false), true
	case 12, 13:
		return model.AppU(nil, o.U, 2, o.Big), true
	case 14, 15:
		return model.AppU(nil, o.U, 4, o.Big), true
	case 20:
		if f := math.Float32frombits(uint32(o.U)); f != f && e == model.Borsh {
			return nil, false
		}
		return model.AppU(nil, o.U, 4, o.Big), true
	case 16, 17:
		return model.AppU(nil, o.U, 8, o.Big), true
	case 21:
		if f := math.Float64frombits(o.U); f != f && e == model.Borsh {
			return nil, false
		}
		return model.AppU(nil, o.U, 8, o.Big), true
	case 18, 19, 29, 30, 31:
		if o.Big {
			return model.AppU(model.AppU(nil, o.Hi, 8, true), o.U, 8, true), true
		}
		return model.AppU(model.AppU(nil, o.U, 8, false), o.Hi, 8, false), true
	case 23:
		return append(model.AppU(nil, uint64(len(o.B)), 8, false), o.B...), true
	default:
		if o.U > 0xffff {
			return nil, false
		}
		return model.AppCompact(nil, int(o.U)), true
	}
}

// Read performs the matching read.
func (o *Op) Read(d *bin.Decoder) (diff string, err error) {
	ord := o.order()
	var got interface{}
	var want interface{}
	switch o.k {
	case 0:
		want = byte(o.U)
		got, err = d.ReadByte()
	case 1, 3:
		var b []byte
		b, err = d.ReadNBytes(len(o.B))
		got, want = string(b), string(o.B)
	case 2:
		var b []byte
		b, err = d.ReadByteSlice()
		got, want = string(b), string(o.B)
	case 4:
		want = int(o.U)
		got, err = d.ReadLength()
	case 5:
		want = o.U
		got, err = d.ReadUvarint64()
	case 6:
		want = int64(o.U)
		got, err = d.ReadVarint64()
	case 7:
		want = o.U != 0
		got, err = d.ReadOption()
	case 8:
		want = o.U != 0
		got, err = d.ReadCOption()
	case 9:
		want = o.U != 0
		got, err = d.ReadBool()
	case 10:
		want = uint8(o.U)
		got, err = d.ReadUint8()
	case 11:
		want = int8(o.U)
		got, err = d.ReadInt8()
	case 12:
		want = uint16(o.U)
		got, err = d.ReadUint16(ord)
	case 13:
		want = int16(o.U)
		got, err = d.ReadInt16(ord)
	case 14:
		want = uint32(o.U)
		got, err = d.ReadUint32(ord)
	case 15:
		want = int32(o.U)
		got, err = d.ReadInt32(ord)
	case 16:
		want = o.U
		got, err = d.ReadUint64(ord)
	case 17:
		want = int64(o.U)
		got, err = d.ReadInt64(ord)
	case 18:
		want = bin.Uint128{Lo: o.U, Hi: o.Hi}
		got, err = plain128(d.ReadUint128(ord))
	case 19:
		var v bin.Int128
		v, err = d.ReadInt128(ord)
		got, want = [2]uint64{v.Lo, v.Hi}, [2]uint64{o.U, o.Hi}
		if err == nil {
			got, want = got.([2]uint64), want.([2]uint64)
		}
	case 20:
		var f float32
		f, err = d.ReadFloat32(ord)
		got, want = math.Float32bits(f), uint32(o.U)
	case 21:
		var f float64
		f, err = d.ReadFloat64(ord)
		got, want = math.Float64bits(f), o.U
	case 22:
		want = string(o.B)
		got, err = d.ReadString()
	case 23:
		want = string(o.B)
		got, err = d.ReadRustString()
	case 24:
		want = int(o.U)
		got, err = d.ReadCompactU16()
	case 26:
		var v bin.Uint64
		err = v.UnmarshalWithDecoder(d)
		got, want = uint64(v), o.U
	case 27:
		var v bin.Int64
		err = v.UnmarshalWithDecoder(d)
		got, want = int64(v), int64(o.U)
	case 28:
		var v bin.JSONFloat64
		err = v.UnmarshalWithDecoder(d)
		got, want = math.Float64bits(float64(v)), o.U
	case 29:
		v := bin.Uint128{Endianness: o.wide().Endianness}
		err = v.UnmarshalWithDecoder(d)
		got, want = [2]uint64{v.Lo, v.Hi}, [2]uint64{o.U, o.Hi}
	case 30:
		v := bin.Int128{Endianness: o.wide().Endianness}
		err = v.UnmarshalWithDecoder(d)
		got, want = [2]uint64{v.Lo, v.Hi}, [2]uint64{o.U, o.Hi}
	case 31:
		v := bin.Float128{Endianness: o.wide().Endianness}
		err = v.UnmarshalWithDecoder(d)
		got, want = [2]uint64{v.Lo, v.Hi}, [2]uint64{o.U, o.Hi}
	case 32:
		var v bin.Bool
		err = v.UnmarshalWithDecoder(d)
		got, want = bool(v), o.U != 0
	case 33:
		var v bin.Varint16
		err = v.UnmarshalWithDecoder(d)
		got, want = int16(v), int16(o.U)
	case 34:
		var v bin.Varuint16
		err = v.UnmarshalWithDecoder(d)
		got, want = uint16(v), uint16(o.U)
	case 35:
		var v bin.Varint32
		err = v.UnmarshalWithDecoder(d)
		got, want = int32(v), int32(o.U)
	case 36:
		var v bin.Varuint32
		err = v.UnmarshalWithDecoder(d)
		got, want = uint32(v), uint32(o.U)
	case 37:
		var v bin.SafeString
		err = v.UnmarshalWithDecoder(d)
		got, want = string(v), string(model.SafeFix(o.B))
	case 38:
		var v bin.HexBytes
		err = v.UnmarshalWithDecoder(d)
		got, want = string(v), string(o.B)
	default:
		want = int(o.U)
		got, err = d.ReadCompactU16Length()
	}
	if err != nil {
		return "", err
	}
	if o.k == 18 {
		w := want.(bin.Uint128)
		want = [2]uint64{w.Lo, w.Hi}
	}
	if got != want {
		return fmt.Sprintf("%s: want %v, got %v", o.Name, clip(fmt.Sprint(want), 80), clip(fmt.Sprint(got), 80)), nil
	}
	return "", nil
}

func plain128(v bin.Uint128, err error) ([2]uint64, error) { return [2]uint64{v.Lo, v.Hi}, err }

// ---- simulated writer ----

// Dev is a simulated device behind an io.Writer. The bytes it keeps are copied
// when a write returns, after other threads had the chance to run.
type Dev struct {
	r       *R
	Data    []byte
	Total   int // bytes ever accepted
	Writes  int
	FailPos int // fail when Total would pass this many bytes (-1: never)
	FailNth int // fail at this write (-1: never)
	Accept  int // how many bytes the failing write accepts: 0 none, 1 up to FailPos or half, 2 all
	Sticky  bool
	ErrKind int // which kind of error
	OnWrite func(p []byte)
	Discard bool // count the bytes without keeping them

	dead  bool
	Err   error // the error of the failed write of this call
	After int   // writes issued after a failure within one call
	nerr  int
}

func newDev(r *R) *Dev { return &Dev{r: r, FailPos: -1, FailNth: -1} }

// arm plans a fault for the next call, or none.
func (d *Dev) arm(s *model.Src, span int) {
	d.FailPos, d.FailNth = -1, -1
	switch s.W(2, 3) {
	case 0:
		d.FailNth = d.Writes + s.N(1+min(span, 12))
	default:
		d.FailPos = d.Total + s.N(1+span)
	}
	d.Accept = s.N(3)
	d.Sticky = s.P(4)
	d.ErrKind = s.N(errKinds)
}

// begin starts a call.
func (d *Dev) begin() { d.Err, d.After = nil, 0 }

func (d *Dev) disarm() { d.FailPos, d.FailNth, d.Sticky, d.dead = -1, -1, false, false }

func (d *Dev) Write(p []byte) (int, error) {
	if d.Err != nil {
		d.After++
	}
	n := len(p)
	fail := false
	switch {
	case d.dead:
		fail, n = true, 0
	case d.FailNth >= 0 && d.Writes == d.FailNth:
		fail = true
		n = []int{0, n / 2, n}[d.Accept]
	case d.FailPos >= 0 && d.Total+n > d.FailPos:
		fail = true
		switch d.Accept {
		case 0:
			n = 0
		case 1:
			n = d.FailPos - d.Total
			if n < 0 {
				n = 0
			}
		}
	}
	d.Writes++
	if d.OnWrite != nil {
		d.OnWrite(p)
	}
	if !d.Discard {
		d.Data = append(d.Data, p[:n]...)
	}
	d.Total += n
	if !fail {
		return n, nil
	}
	switch {
	case d.dead:
		d.r.Fault("write error: device stays failed")
	case n == 0:
		d.r.Fault("write error: nothing accepted")
	case n < len(p):
		d.r.Fault("write error: torn, part accepted")
	default:
		d.r.Fault("write error: all accepted")
	}
	d.nerr++
	err := mkErr(d.ErrKind, d.nerr)
	if d.Err == nil {
		d.Err = err
	}
	d.FailPos, d.FailNth = -1, -1
	if d.Sticky {
		d.dead = true
	}
	return n, err
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
