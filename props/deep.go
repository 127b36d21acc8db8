package props

import (
	"bytes"
	"reflect"

	bin "github.com/gagliardetto/binary"

	"verif.local/dst/model"
)

// Values nested very deep, through every kind of nesting the formats have.
type (
	deepSlice []deepSlice
	deepMap   map[uint8]deepMap
	deepPtrs  []*deepPtrs
	deepOpt   struct {
		V    uint8
		Next *deepOpt `bin:"optional"`
	}
	deepCOpt struct {
		Next *deepCOpt `bin:"coption"`
		V    uint8
	}
	deepArr struct {
		Next *[1]deepArr `bin:"optional"`
	}
	deepEnum struct {
		Tag  bin.BorshEnum `borsh_enum:"true"`
		Leaf uint8
		Next *deepEnum
	}
	deepMix struct {
		Next []map[uint8]*deepMix
	}
	// a user codec that calls back into its session
	deepCodec struct{ Next *deepCodec }
	// one that does so for a struct holding another
	deepWrap  struct{ Next []deepInner }
	deepInner struct{ W *deepWrap }
)

func (c deepCodec) MarshalWithEncoder(e *bin.Encoder) error {
	if err := e.WriteBool(c.Next != nil); err != nil || c.Next == nil {
		return err
	}
	return e.Encode(c.Next)
}

func (c *deepCodec) UnmarshalWithDecoder(d *bin.Decoder) error {
	ok, err := d.ReadBool()
	if err != nil || !ok {
		return err
	}
	c.Next = new(deepCodec)
	return d.Decode(c.Next)
}

func (c deepInner) MarshalWithEncoder(e *bin.Encoder) error { return e.Encode(c.W) }
func (c *deepInner) UnmarshalWithDecoder(d *bin.Decoder) error {
	c.W = new(deepWrap)
	return d.Decode(c.W)
}

// deepKind is one way of nesting. A value of n nodes is n times open and then
// last, then n times shut. Counting every value inside another as a level, it has per*n+base levels;
// counting only the nodes, n.
type deepKind struct {
	name       string
	t          reflect.Type
	per, base  int
	open, last func(e model.Enc) []byte
	shut       []byte
	borsh      bool
}

func length(n int) func(model.Enc) []byte {
	return func(e model.Enc) []byte { b, _ := model.AppLen(nil, e, n); return b }
}

func raw(b ...byte) func(model.Enc) []byte { return func(model.Enc) []byte { return b } }

// optFlag is an option's.
func optFlag(v byte) func(model.Enc) []byte {
	return func(e model.Enc) []byte {
		if e == model.Bin {
			return []byte{v, 0, 0, 0}
		}
		return []byte{v}
	}
}

func cat(fs ...func(model.Enc) []byte) func(model.Enc) []byte {
	return func(e model.Enc) (b []byte) {
		for _, f := range fs {
			b = append(b, f(e)...)
		}
		return
	}
}

var deepKinds = []deepKind{
	{"slices", reflect.TypeOf(deepSlice{}), 1, 1, length(1), length(0), nil, false},
	{"maps", reflect.TypeOf(deepMap{}), 1, 1, cat(length(1), raw(9)), length(0), nil, false},
	{"slices of pointers", reflect.TypeOf(deepPtrs{}), 1, 1, length(1), length(0), nil, false},
	{"optional pointers", reflect.TypeOf(deepOpt{}), 1, 2, cat(raw(7), optFlag(1)), cat(raw(7), optFlag(0)), nil, false},
	{"optional arrays", reflect.TypeOf(deepArr{}), 2, 2, optFlag(1), optFlag(0), nil, false},
	{"trees", reflect.TypeOf(model.FxTree{}), 2, 2, cat(raw(5, 0), length(1)), cat(raw(5, 0), length(0)), nil, false},
	{"codecs", reflect.TypeOf(deepCodec{}), 1, 1, raw(1), raw(0), nil, false},
	{"codecs in structs", reflect.TypeOf(deepWrap{}), 3, 2, length(1), length(0), nil, false},
	{"structs, slices and maps", reflect.TypeOf(deepMix{}), 3, 2, cat(length(1), length(1), raw(3)), length(0), nil, false},
	{"enums", reflect.TypeOf(deepEnum{}), 1, 2, raw(1), raw(0, 8), nil, true},
	{"c-optional pointers", reflect.TypeOf(deepCOpt{}), 1, 2, raw(1, 0, 0, 0), raw(0, 0, 0, 0, 4), []byte{4}, true},
}

func genDeep(r *R) (model.Enc, *deepKind) {
	e := GenEnc(r)
	n := len(deepKinds)
	if e != model.Borsh {
		n -= 2
	}
	return e, &deepKinds[r.S.N(n)]
}

func (k *deepKind) bytes(e model.Enc, n int) []byte {
	b := bytes.Repeat(k.open(e), n)
	b = append(b, k.last(e)...)
	return append(b, bytes.Repeat(k.shut, n)...)
}

const maxLevels = 10000

// deepTaken: values of at most 10,000 levels, however they are counted, are read and written.
func deepTaken(r *R) {
	s := r.S
	e, k := genDeep(r)
	n := (maxLevels - k.base) / k.per
	switch s.N(3) {
	case 0:
		n -= s.N(3)
	case 1:
		n -= s.N(n / 2)
	case 2:
	}
	b := k.bytes(e, n)
	v := reflect.New(k.t)
	r.Logf("decode %d nested %s (%s, %d bytes)", n, k.name, e, len(b))
	r.Shape(4711, uint64(e), uint64(k.per), uint64(len(k.name)), uint64(n))
	var err error
	d := newDecoder(e, b)
	r.Call("Decode of a deeply nested value", 100_000_000, func() { err = d.Decode(v.Interface()) })
	if err != nil || d.Remaining() != 0 {
		r.Fail("deep", "%d nested %s (at most %d levels) are not read back: %s, %d of %d bytes left (%s)", n, k.name, n*k.per+k.base, errText(err), d.Remaining(), len(b), e)
	}
	dev := newDev(r)
	enc := newEncoder(e, dev)
	r.Call("Encode of a deeply nested value", 100_000_000, func() { err = enc.Encode(v.Interface()) })
	if err != nil || !bytes.Equal(dev.Data, b) {
		r.Fail("deep", "%d nested %s are not written as they were read: %s, %d bytes instead of %d (%s)", n, k.name, errText(err), len(dev.Data), len(b), e)
	}
}

// deepRefused: input of more than 10,000 levels, however they are counted, is refused.
func deepRefused(r *R) {
	s := r.S
	e, k := genDeep(r)
	n := maxLevels + 1
	switch s.N(3) {
	case 0:
		n += s.N(10000)
	case 1:
		n = 2*maxLevels + s.N(50)
	}
	b := k.bytes(e, n)
	if s.P(3) {
		b = b[:len(b)-s.N(20)]
	}
	r.Fault("input nested beyond the limit")
	r.Logf("decode %d nested %s (%s, %d bytes)", n, k.name, e, len(b))
	r.Shape(4712, uint64(e), uint64(k.per), uint64(len(k.name)), uint64(n))
	var err error
	v := reflect.New(k.t)
	d := newDecoder(e, b)
	r.Call("Decode of a deeply nested value", 200_000_000, func() { err = d.Decode(v.Interface()) })
	if err == nil {
		r.Fail("deep", "%d nested %s were not refused (%s)", n, k.name, e)
	}
	if p := d.Position(); p > uint(len(b)) {
		r.Fail("position", "after refusing %d nested %s the position is %d in a buffer of %d", n, k.name, p, len(b))
	}
}

func errText(err error) string {
	if err == nil {
		return "no error"
	}
	t := err.Error()
	if len(t) > 300 {
		t = t[:100] + " ... " + t[len(t)-200:]
	}
	return t
}
