package model

import (
	"fmt"
	"math"
	"reflect"
	"strings"

	bin "github.com/gagliardetto/binary"
)

// Cfg steers generation.
type Cfg struct {
	E        Enc
	Depth    int
	Probes   bool // user codecs
	ProbeTop bool // favour them
	Ext      bool // extension fields at the end of the top struct
	Enums    bool
	Maps     bool
	MapTop   bool // favour maps
	Big      bool // long strings and slices
	Prefix   string
	NaN      bool // NaN floats in Borsh (not encodable) and over-long lengths in compact
	NoRaw    bool
}

// GenCfg draws a generation profile.
func GenCfg(s *Src, e Enc) *Cfg {
	return &Cfg{E: e, Depth: 1 + s.N(3), Probes: s.N(3) == 0, Ext: s.P(4), Enums: true, Maps: true, Big: s.P(12), Prefix: "F"}
}

func scalar(s *Src, k Kind, named bool) *Schema {
	i := 0
	if named {
		i = 1
	}
	return (&Schema{K: k, T: scalarT[k][i]}).fin()
}

func lib(k Kind) *Schema { return (&Schema{K: k, T: libT[k]}).fin() }

func probe(i int) *Schema { return (&Schema{K: KProbe, T: probeTypes[i]}).fin() }

func SliceOf(el *Schema) *Schema {
	return (&Schema{K: KSlice, Elem: el, T: reflect.SliceOf(el.T)}).fin()
}

func ArrayOf(n int, el *Schema) *Schema {
	return (&Schema{K: KArr, Len: n, Elem: el, T: reflect.ArrayOf(n, el.T)}).fin()
}

func PtrTo(el *Schema) *Schema { return (&Schema{K: KPtr, Elem: el, T: reflect.PtrTo(el.T)}).fin() }

func MapOf(k, el *Schema) *Schema {
	return (&Schema{K: KMap, Key: k, Elem: el, T: reflect.MapOf(k.T, el.T)}).fin()
}

// GenTop draws the schema of a record.
func GenTop(s *Src, c *Cfg) *Schema {
	if c.MapTop && s.N(3) != 0 {
		if s.P(4) {
			return genPlain(s, c)
		}
		return genMap(s, c, c.Depth)
	}
	switch s.W(10, 2, 2, 1, 1) {
	case 0:
		return genStruct(s, c, c.Depth, true)
	case 1:
		return genSchema(s, c, c.Depth)
	case 2:
		fs := fixtures(c.E)
		return fs[s.N(len(fs))]
	case 4:
		return genPlain(s, c)
	default:
		if c.E == Borsh && c.Enums {
			return genEnum(s, c, c.Depth)
		}
		return genMap(s, c, c.Depth)
	}
}

func genLeaf(s *Src, c *Cfg) *Schema {
	if c.Probes && s.N(4) == 1 || c.ProbeTop && s.N(2) == 1 {
		return probe(s.N(6))
	}
	switch s.W(6, 5) {
	case 0:
		return scalar(s, Kind(s.N(int(KStr)+1)), s.P(4))
	default:
		return lib(KLBool + Kind(s.N(int(KF128-KLBool)+1)))
	}
}

// genPlain draws one of the plain types that code is most likely to treat
// separately: unnamed, built from predeclared types only.
func genPlain(s *Src, c *Cfg) *Schema {
	el := func() *Schema {
		return scalar(s, []Kind{KU8, KStr, KU64, KI64, KU32, KU16, KBool, KF64, KI32, KI8, KI16, KF32}[s.W(4, 4, 3, 2, 2, 2, 2, 2, 1, 1, 1, 1)], false)
	}
	key := func() *Schema {
		return scalar(s, []Kind{KStr, KU8, KU64, KI64, KU16, KU32, KI32}[s.W(4, 3, 2, 2, 1, 1, 1)], false)
	}
	n := 7
	if !c.Maps {
		n = 4
	}
	switch s.N(n) {
	case 0:
		return SliceOf(el())
	case 1:
		return SliceOf(SliceOf(el()))
	case 2:
		return ArrayOf([]int{32, 8, 64, 1, 20, 128, 256, 300}[s.W(5, 5, 5, 5, 2, 1, 1, 1)], el())
	case 3:
		return SliceOf(ArrayOf([]int{32, 8, 64, 4}[s.N(4)], el()))
	case 4:
		return MapOf(key(), el())
	case 5:
		return MapOf(key(), SliceOf(el()))
	default:
		return MapOf(key(), MapOf(key(), el()))
	}
}

func genSchema(s *Src, c *Cfg, depth int) *Schema {
	if depth <= 0 {
		return genLeaf(s, c)
	}
	switch s.W(6, 3, 5, 3, 4, 2, 2, 3) {
	case 0:
		return genLeaf(s, c)
	case 1:
		el := genSchema(s, c, depth-1)
		n := []int{0, 1, 2, 3, 4, 8, 17, 32}[s.N(8)]
		return ArrayOf(n, el)
	case 2:
		return SliceOf(nonEmpty(genSchema(s, c, depth-1)))
	case 3:
		if !c.Maps {
			return genLeaf(s, c)
		}
		return genMap(s, c, depth)
	case 4:
		return genStruct(s, c, depth-1, false)
	case 5:
		return genPtr(s, c, depth)
	case 7:
		return genPlain(s, c)
	default:
		if c.E == Borsh && c.Enums {
			return genEnum(s, c, depth-1)
		}
		return genLeaf(s, c)
	}
}

// nonEmpty avoids elements without any bytes, whose count the format does not bound.
func nonEmpty(x *Schema) *Schema {
	if x.min == 0 {
		return scalar(nil, KU8, false)
	}
	return x
}

func genPtr(s *Src, c *Cfg, depth int) *Schema {
	if c.Probes && s.P(4) {
		return PtrTo(probe(6))
	}
	el := genSchema(s, c, depth-1)
	if el.K == KPtr {
		el = el.Elem
	}
	return PtrTo(el)
}

func genKey(s *Src, c *Cfg, depth int) *Schema {
	if c.Probes && s.P(5) {
		return probe([]int{1, 2, 5}[s.N(3)])
	}
	n := 5
	if c.E == Borsh {
		n = 3 // keys must have an order
	}
	switch s.N(n) {
	case 0:
		return scalar(s, []Kind{KU8, KU16, KU32, KU64, KI8, KI16, KI32, KI64, KF32, KF64}[s.N(10)], s.P(3))
	case 1:
		return scalar(s, KStr, s.P(4))
	case 2:
		return lib([]Kind{KLI64, KLU64, KVI16, KVU16, KVI32, KVU32, KSafe, KJF64}[s.N(8)])
	case 3:
		return ArrayOf(1+s.N(3), scalar(s, []Kind{KU8, KU16, KI16, KStr, KI64}[s.N(5)], s.P(4)))
	default:
		if s.Bool() {
			return scalar(s, KBool, s.Bool())
		}
		return structType([]Field{
			{Name: c.Prefix + "0", S: scalar(s, KU16, false), SizeOf: -1, Sized: -1},
			{Name: c.Prefix + "1", S: scalar(s, KStr, false), SizeOf: -1, Sized: -1},
		}, KStruct)
	}
}

func genMap(s *Src, c *Cfg, depth int) *Schema {
	k := genKey(s, c, depth)
	v := genSchema(s, c, depth-1)
	if k.min == 0 {
		v = nonEmpty(v)
	}
	return MapOf(k, v)
}

func structType(fs []Field, k Kind) *Schema {
	sf := make([]reflect.StructField, len(fs))
	for i := range fs {
		f := &fs[i]
		sf[i] = reflect.StructField{Name: f.Name, Type: f.S.T, Tag: reflect.StructTag(f.Tag)}
		if f.Unexp {
			sf[i].PkgPath = "verif.local/dst/model"
		}
	}
	return (&Schema{K: k, Fields: fs, T: reflect.StructOf(sf)}).fin()
}

func genEnum(s *Src, c *Cfg, depth int) *Schema {
	n := 1 + s.N(4)
	fs := []Field{{Name: c.Prefix + "Tag", S: scalar(nil, KU8, false), SizeOf: -1, Sized: -1,
		Tag: []string{`borsh_enum:"true"`, `bin:"enum"`}[s.N(2)]}}
	fs[0].S = &Schema{K: KU8, T: enumTagT, min: 1}
	cc := *c
	cc.Ext = false
	for i := 0; i < n; i++ {
		var x *Schema
		switch s.W(2, 3, 2, 2, 2) {
		case 0:
			x = lib(KEmpty)
		case 1:
			x = genLeaf(s, &cc)
		case 2:
			x = genStruct(s, &cc, depth-1, false)
		case 3:
			x = genPtr(s, &cc, depth)
		default:
			x = genSchema(s, &cc, depth-1)
		}
		fs = append(fs, Field{Name: fmt.Sprintf("%sV%d", c.Prefix, i), S: x, SizeOf: -1, Sized: -1})
	}
	return structType(fs, KEnum)
}

func genStruct(s *Src, c *Cfg, depth int, top bool) *Schema {
	n := s.N(6)
	if top {
		n++
		if s.P(60) {
			n = []int{16, 17, 33, 65, 70}[s.N(5)]
			depth = 1
		}
	}
	var fs []Field
	cc := *c
	cc.Ext = false
	add := func(f Field) int {
		f.Name = fmt.Sprintf("%s%d", c.Prefix, len(fs))
		fs = append(fs, f)
		return len(fs) - 1
	}
	blank := Field{SizeOf: -1, Sized: -1}
	for i := 0; i < n; i++ {
		f := blank
		switch s.W(12, 3, 1, 1) {
		case 0, 1:
			f.S = genSchema(s, &cc, depth-1)
			switch s.W(5, 2, 3, 1, 1) {
			case 1:
				f.Big = true
				f.Tag = "big"
			case 2:
				f.Opt = true
				f.Tag = []string{"optional", "option"}[s.N(2)]
				if s.Bool() && f.S.K != KPtr && f.S.K != KEnum {
					f.S = PtrTo(f.S)
				}
				if s.P(3) {
					f.Big = true
					f.Tag += " big"
				}
			case 3:
				f.Tag = "little"
			case 4:
				if c.E == Borsh {
					f.COpt = true
					f.Tag = "coption"
					if s.Bool() && f.S.K != KPtr && f.S.K != KEnum {
						f.S = PtrTo(f.S)
					}
					if s.P(3) {
						f.Big = true
						f.Tag = "big coption"
					}
				}
			}
			add(f)
		case 2: // count field and the slice it counts
			cf := blank
			switch s.N(3) {
			case 0:
				cf.S = scalar(s, []Kind{KU8, KU16, KU32, KU64, KI8, KI16, KI32, KI64}[s.N(8)], s.P(4))
			case 1:
				cf.S = lib([]Kind{KVU16, KVU32, KVI16, KVI32, KLI64, KLU64}[s.N(6)])
			default:
				cf.S = scalar(s, KU16, false)
			}
			if s.P(3) {
				cf.Big = true
				cf.Tag = "big "
			}
			between := s.P(3)
			ci := add(cf)
			if between {
				f := blank
				f.S = genLeaf(s, &cc)
				add(f)
			}
			sf := blank
			sf.S = SliceOf(nonEmpty(genSchema(s, &cc, depth-1)))
			sf.Sized = ci
			switch s.N(6) {
			case 4:
				sf.Opt = true
				sf.Tag = "optional"
			case 5:
				sf.S = PtrTo(sf.S)
			}
			si := add(sf)
			fs[ci].SizeOf = si
			fs[ci].Tag += "sizeof=" + fs[si].Name
		default: // not transmitted
			f.Skip = true
			switch s.N(4) {
			case 0:
				f.Tag = "skip"
			case 1:
				f.Tag = "-"
			case 2:
				f.Tag = "!borsh_skip"
			default:
				f.Unexp = true
			}
			f.S = genLeaf(s, &cc)
			i := add(f)
			if f.Unexp {
				fs[i].Name = strings.ToLower(fs[i].Name)
			}
		}
	}
	if top && c.Ext {
		for i := s.N(3); i >= 0; i-- {
			f := blank
			f.S = nonEmpty(genSchema(s, &cc, depth-1)) // no bytes left means absent
			f.Ext = true
			f.Tag = "binary_extension"
			if s.P(3) {
				f.Opt = true
				f.Tag += " optional"
			}
			add(f)
		}
	}
	for i := range fs {
		switch {
		case fs[i].Tag == "!borsh_skip":
			fs[i].Tag = `borsh_skip:"true"`
		case fs[i].Tag != "":
			fs[i].Tag = `bin:"` + fs[i].Tag + `"`
		}
	}
	return structType(fs, KStruct)
}

// hand-written types: named structs, embedding, recursion, pointers, user codecs
type (
	FxLeaf struct {
		A uint16 `bin:"big"`
		B string
	}
	FxEmbed struct {
		FxLeaf
		C []FxLeaf
		D map[string]*FxLeaf
	}
	FxNode struct {
		V    uint8
		Next *FxNode `bin:"optional"`
	}
	FxTree struct {
		V    uint16
		Kids []FxTree
	}
	FxMeta struct {
		Key   [32]byte
		Bump  uint8
		Names []string
		Amt   bin.Uint128 `bin:"big"`
		Sig   [64]uint8   `json:"sig"`
		Opt   *bin.Int64  `bin:"optional big"`
		hid   uint32
		Flag  bin.Bool
		Price bin.JSONFloat64
		Tail  bin.HexBytes
	}
	FxAny struct {
		A uint32
		X interface{}
		B uint32
	}
	FxPtrEmbed struct {
		*FxLeaf
		C uint8
	}
	FxBytes []byte
	FxU16s  []uint16
	FxBools []bool
	FxHash  [32]byte
	FxDict  map[FxHash]FxBytes
	FxNamed struct {
		A FxBytes
		B FxU16s
		C FxBools
		D FxHash
		E map[NU8]FxBytes
		F []FxBytes
		G *FxHash `bin:"optional"`
		H [2]FxBytes
		I []FxHash
		J []NU16
		K [3]NU64 `bin:"big"`
		L []NBool
		M []NStr
	}
	FxSlice []FxLeaf
	FxMap   map[NStr]NU16
	FxArr   [3]NI32
	FxByte  [5]NU8
	FxSized struct {
		N  bin.Varuint32 `bin:"sizeof=Xs"`
		Xs []uint64
		M  int8 `bin:"sizeof=Ys"`
		Z  *uint16
		Ys []*FxLeaf
	}
	FxPtrs struct {
		A *uint64 `bin:"big"`
		B *string
		C *[]uint16
		D *[2]int16
		E *FxLeaf
		F *bin.Uint128 `bin:"big"`
		G *bin.Varint32
		H *map[string]uint8
	}
	FxEnum struct {
		Tag bin.BorshEnum `borsh_enum:"true"`
		A   bin.EmptyVariant
		B   FxLeaf
		C   *FxLeaf
		D   uint32
		E   string
		F   []uint16
		G   bin.Varint32
		H   map[string]uint8
		I   [3]uint8
		J   *uint16
		K   ProbeV
		L   *ProbeP
		M   bin.Uint128
		N   *bin.EmptyVariant
		O   *bool
		P   *FxUnit
	}
	FxUnit  struct{}
	FxEnums struct {
		A  FxEnum
		B  *FxEnum `bin:"optional"`
		Cs []FxEnum
		T  bin.BorshEnum
	}
	// a discriminant that is not tagged as one, and a tag on something else
	FxBareEnum struct {
		T bin.BorshEnum
		A uint32
		B string
	}
	FxOddEnum struct {
		T uint8 `borsh_enum:"true"`
		A uint32
		B []uint16
	}
	FxCOpt struct {
		A *uint32     `bin:"coption"`
		B uint16      `bin:"coption"`
		C *FxLeaf     `bin:"coption"`
		D bin.Int64   `bin:"coption big"`
		E *bin.Uint64 `bin:"optional big"`
		F uint8
	}
	FxCodecs struct {
		A ProbeV
		B *ProbeP
		C []ProbeV
		D map[ProbeS]ProbeN
		E *ProbeB `bin:"optional"`
		F ProbeA
		G []*ProbeP
		H [2]ProbeN
		I *ProbeV
	}
)

var fixtureT = []reflect.Type{
	reflect.TypeOf(FxLeaf{}), reflect.TypeOf(FxEmbed{}), reflect.TypeOf(FxNode{}), reflect.TypeOf(FxTree{}),
	reflect.TypeOf(FxMeta{}), reflect.TypeOf(FxAny{}), reflect.TypeOf(FxSlice{}), reflect.TypeOf(FxMap{}),
	reflect.TypeOf(FxArr{}), reflect.TypeOf(FxByte{}), reflect.TypeOf(FxSized{}), reflect.TypeOf(FxPtrs{}), reflect.TypeOf(FxCodecs{}),
	reflect.TypeOf(FxBareEnum{}), reflect.TypeOf(FxOddEnum{}), reflect.TypeOf(FxPtrEmbed{}), reflect.TypeOf(FxNamed{}), reflect.TypeOf(FxBytes{}),
	dupA(), dupB(),
}

// not for Borsh: keys without an order
var fixturePlainT = []reflect.Type{reflect.TypeOf(FxDict{})}

var fixtureBorshT = []reflect.Type{reflect.TypeOf(FxEnum{}), reflect.TypeOf(FxEnums{}), reflect.TypeOf(FxCOpt{}), wideEnumT()}

// two types of one name
func dupA() reflect.Type {
	type FxDup struct {
		A uint16
		B string `bin:"optional"`
		C uint64 `bin:"big"`
		D []uint16
	}
	return reflect.TypeOf(FxDup{})
}

func dupB() reflect.Type {
	type FxDup struct {
		A uint16 `bin:"big"`
		B string
		C uint64 `bin:"-"`
		D []uint16
		E bin.Uint64 `bin:"big"`
	}
	return reflect.TypeOf(FxDup{})
}

// wideEnumT has a variant for every discriminant.
func wideEnumT() reflect.Type {
	fs := []reflect.StructField{{Name: "Tag", Type: enumTagT, Tag: `borsh_enum:"true"`}}
	ts := []reflect.Type{reflect.TypeOf(uint8(0)), reflect.TypeOf(""), reflect.TypeOf(FxLeaf{}), reflect.TypeOf(uint64(0)), reflect.TypeOf([]uint16{}), libT[KEmpty], reflect.TypeOf(&FxLeaf{})}
	for i := 0; i < 256; i++ {
		fs = append(fs, reflect.StructField{Name: fmt.Sprintf("V%d", i), Type: ts[i%len(ts)]})
	}
	return reflect.StructOf(fs)
}

var fxAll, fxBorsh []*Schema

func init() {
	for _, t := range fixtureT {
		fxAll = append(fxAll, SchemaOf(t))
	}
	fxBorsh = append(fxBorsh, fxAll...)
	for _, t := range fixturePlainT {
		fxAll = append(fxAll, SchemaOf(t))
	}
	for _, t := range fixtureBorshT {
		fxBorsh = append(fxBorsh, SchemaOf(t))
	}
}

func fixtures(e Enc) []*Schema {
	if e == Borsh {
		return fxBorsh
	}
	return fxAll
}

// ---- values ----

var edge = []uint64{0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff,
	0x100000000, 0x7fffffffffffffff, 0x8000000000000000, 0xffffffffffffffff, 0x3fff, 0x4000, 0x1fffff, 0x200000, 0xfffffff, 0x10000000,
	0xfffffffffffff, 0x80ffffff00000000, 0xffffffffffffff80, 0xffffffffffff8000, 0xffffffff80000000}

// GenU draws a number, often at a boundary.
func GenU(s *Src) uint64 { return genU(s) }

func genU(s *Src) uint64 {
	switch s.W(3, 4, 3, 2) {
	case 0:
		return uint64(s.N(5))
	case 1:
		return edge[s.N(len(edge))]
	case 2:
		return s.U64()
	default:
		return s.U64() >> uint(s.N(64))
	}
}

func genLen(s *Src, c *Cfg, cheap bool) int {
	if c.Big && cheap && s.P(4) {
		opts := []int{127, 128, 129, 255, 256, 257, 300, 16383, 16384, 32767, 32768, 65535, 65536, 70000,
			511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8191, 8192, 10000}
		n := opts[s.N(len(opts))]
		if s.P(6) {
			n = s.N(6000)
		}
		if c.E == Compact && !c.NaN && n > 65535 {
			n = 65535
		}
		return n
	}
	if c.Big && s.P(6) {
		return []int{127, 128, 130, 255, 256, 63, 64, 65, 100, 511, 513, 1023, 1024, 1025, 4097}[s.W(4, 4, 4, 4, 4, 2, 2, 2, 2, 1, 1, 1, 1, 1, 1)]
	}
	switch s.W(8, 2, 1) {
	case 0:
		return s.N(4)
	case 1:
		return s.N(9)
	default:
		return s.N(40)
	}
}

func genBytes(s *Src, n int) []byte {
	b := make([]byte, n)
	if n == 0 {
		return b
	}
	switch s.N(3) {
	case 0:
		r := s.Bulk()
		for i := range b {
			b[i] = 'a' + byte(r.Next()%26)
		}
	case 1:
		s.Bulk().Fill(b)
	default:
		x := byte(s.N(256))
		for i := range b {
			b[i] = x
		}
	}
	return b
}

func genText(s *Src, n int) []byte {
	b := genBytes(s, n)
	if s.P(4) {
		t := []string{"é", "世界", "\U0001F600", "a\x00b", "\uFFFD"}[s.N(5)]
		if len(t) <= n {
			copy(b, t)
		}
	}
	return b
}

// GenVal draws a value. The budget bounds the number of nodes.
func GenVal(s *Src, c *Cfg, sc *Schema) Val {
	g := &gen{s: s, c: c, left: 400}
	if c.Big {
		g.left = 3000
	}
	return g.val(sc, 0, false)
}

type gen struct {
	s    *Src
	c    *Cfg
	left int
}

// len draws a length; long ones use up the budget.
func (g *gen) len(cheap bool) int {
	n := genLen(g.s, g.c, cheap)
	if n > 40 {
		if g.left < 100 {
			return n % 8
		}
		if cheap {
			g.left -= n / 64
		}
	}
	return n
}

func (g *gen) num(k Kind) uint64 {
	u := genU(g.s)
	switch k {
	case KU8:
		return u & 0xff
	case KU16, KVU16:
		return u & 0xffff
	case KU32, KVU32:
		return u & 0xffffffff
	case KI8:
		return sext(u, 1)
	case KI16, KVI16:
		return sext(u, 2)
	case KI32, KVI32:
		return sext(u, 4)
	}
	return u
}

func (g *gen) f32(key bool) uint64 {
	s := g.s
	var b uint32
	switch s.N(4) {
	case 0:
		b = math.Float32bits(float32(s.N(7) - 3))
	case 1:
		b = []uint32{0, 1 << 31, 0x7f800000, 0xff800000, 1, 0x80000001, 0x7f7fffff, 0x3f800001}[s.N(8)]
	default:
		b = uint32(s.U64())
	}
	if g.c.NaN && !key && s.P(4) {
		b = 0x7fc00001
	}
	f := math.Float32frombits(b)
	if f != f {
		if g.c.E == Borsh && !g.c.NaN || key {
			b = 0x40490fdb
		} else {
			b |= 0x00400000 // quiet
		}
	}
	if key && b == 1<<31 {
		b = 0
	}
	return uint64(b)
}

func (g *gen) f64(key bool) uint64 {
	s := g.s
	var b uint64
	switch s.N(4) {
	case 0:
		b = math.Float64bits(float64(s.N(7) - 3))
	case 1:
		b = []uint64{0, 1 << 63, 0x7ff0000000000000, 0xfff0000000000000, 1, 1<<63 | 1, 0x7fefffffffffffff, 0x3ff0000000000001}[s.N(8)]
	default:
		b = s.U64()
	}
	if g.c.NaN && !key && s.P(4) {
		b = 0x7ff8000000000001
	}
	f := math.Float64frombits(b)
	if f != f {
		if g.c.E == Borsh && !g.c.NaN || key {
			b = 0x400921fb54442d18
		} else {
			b |= 0x0008000000000000
		}
	}
	if key && b == 1<<63 {
		b = 0
	}
	return b
}

// near draws a key that shares most of its bytes with another.
func (g *gen) near(sc *Schema, o *Val) (v Val) {
	s := g.s
	v = *o
	switch sc.K {
	case KStr:
		b := append([]byte(nil), o.B...)
		if len(b) > 5000 {
			b = b[:5000]
		}
		if len(b) < 100 && s.P(3) {
			for n := 1 + s.N(70); n > 0; n-- {
				b = append(b, 'p')
			}
		}
		switch s.N(4) {
		case 0:
			b = append(b, genBytes(s, 1+s.N(4))...)
		case 1:
			b = b[:s.N(len(b)+1)]
		case 2:
			if len(b) > 0 {
				i := s.N(len(b))
				if s.Bool() {
					i = len(b) - 1
				}
				b[i] = byte(s.N(256))
			}
		default:
			b = append(b[:s.N(len(b)+1)], genBytes(s, s.N(20))...)
		}
		v.B = b
	case KU8, KU16, KU32, KU64, KI8, KI16, KI32, KI64:
		u := o.U
		if s.Bool() {
			u ^= 1 << uint(s.N(64))
		} else {
			u += uint64(s.N(5)) - 2
		}
		switch sc.K {
		case KU8:
			u &= 0xff
		case KU16:
			u &= 0xffff
		case KU32:
			u &= 0xffffffff
		case KI8:
			u = sext(u, 1)
		case KI16:
			u = sext(u, 2)
		case KI32:
			u = sext(u, 4)
		}
		v.U = u
	}
	return
}

func (g *gen) val(sc *Schema, depth int, key bool) (v Val) {
	s := g.s
	g.left--
	switch sc.K {
	case KBool, KLBool:
		v.U = uint64(s.N(2))
	case KF32:
		v.U = g.f32(key)
	case KF64, KJF64:
		v.U = g.f64(key)
	case KStr, KSafe:
		if sc.K == KSafe && key {
			v.B = []byte(fmt.Sprintf("k%d", s.N(1000)))
			return
		}
		v.B = genText(s, g.len(true))
	case KHex:
		if s.P(6) {
			v.Nil = true
			return
		}
		v.B = genBytes(s, g.len(true))
	case KU128, KI128, KF128:
		v.U, v.Hi = genU(s), genU(s)
	case KProbe:
		v.U = uint64(s.N(48))
		if s.Bool() {
			v.U = s.U64() & 0xffffffff
		}
	case KArr:
		v.Elems = make([]Val, sc.Len)
		for i := range v.Elems {
			v.Elems[i] = g.val(sc.Elem, depth+1, key)
		}
	case KSlice:
		n := g.len(sc.Elem.rawElem() > 0)
		return g.slice(sc, n, depth)
	case KMap:
		if s.P(6) {
			v.Nil = true
			return
		}
		n := g.len(false)
		if g.c.MapTop && n < 2 {
			n = 2 + s.N(5)
		}
		if g.left < 0 {
			n = 0
		} else if n > g.left {
			n = g.left
		}
		seen := map[string]bool{}
		for i := 0; i < n; i++ {
			k := g.val(sc.Key, depth+1, true)
			if len(v.Keys) > 0 && s.P(3) {
				k = g.near(sc.Key, &v.Keys[s.N(len(v.Keys))])
			}
			ks := keyString(sc.Key, &k)
			if seen[ks] {
				continue
			}
			seen[ks] = true
			v.Keys = append(v.Keys, k)
			v.Elems = append(v.Elems, g.val(sc.Elem, depth+1, false))
		}
	case KStruct:
		v.Elems = make([]Val, len(sc.Fields))
		for i := range sc.Fields {
			f := &sc.Fields[i]
			if f.S.K == KAny || f.Unexp {
				continue
			}
			if f.SizeOf >= 0 {
				lim := 200
				switch f.S.K {
				case KI8:
					lim = 127
				}
				n := g.len(false)
				if n > lim {
					n = lim
				}
				if g.left < n {
					n = 0
				}
				t := &sc.Fields[f.SizeOf]
				v.Elems[i].U = uint64(n)
				switch {
				case t.S.K == KPtr && n == 0 && g.c.E == Borsh && s.Bool():
					v.Elems[f.SizeOf] = Val{Nil: true} // stands for the empty slice
				case t.S.K == KPtr:
					in := g.slice(t.S.Elem, n, depth)
					v.Elems[f.SizeOf] = Val{Elems: []Val{in}}
				case t.Opt && n == 0 && s.Bool():
					v.Elems[f.SizeOf] = Val{Nil: true}
				default:
					v.Elems[f.SizeOf] = g.slice(t.S, n, depth)
				}
				continue
			}
			if f.Sized >= 0 {
				continue
			}
			if f.S.K == KPtr {
				optional := f.Opt || f.COpt && g.c.E == Borsh
				if optional && (s.N(3) == 0 || depth > 12 || g.left < 0) {
					v.Elems[i].Nil = true
					continue
				}
				// required pointers: nil stands for the zero value in Borsh only
				if !optional && g.c.E == Borsh && s.P(5) && nilEncodes(f.S.Elem) {
					v.Elems[i].Nil = true
					continue
				}
				v.Elems[i].Elems = []Val{g.val(f.S.Elem, depth+1, false)}
				continue
			}
			if (f.Opt || f.COpt) && s.N(3) == 0 {
				v.Elems[i] = Zero(f.S)
				continue
			}
			v.Elems[i] = g.val(f.S, depth+1, key)
		}
	case KEnum:
		n := len(sc.Fields) - 1
		v.U = uint64(s.N(n))
		if n > 128 && s.Bool() {
			v.U = uint64(128 + s.N(n-128))
		}
		if g.c.NaN && n < 250 && s.P(6) {
			// no such variant
			v.U = uint64(n + s.N(3))
			if s.P(3) {
				v.U = 255
			}
			v.Elems = []Val{{Nil: true}}
			return
		}
		if x := sc.Fields[v.U+1].S; x.K == KPtr && (x.Elem.T.Size() == 0 && s.Bool() || g.c.NaN && s.P(4)) {
			v.Elems = []Val{{Nil: true}}
			return
		}
		v.Elems = []Val{g.val(sc.Fields[v.U+1].S, depth+1, false)}
	case KPtr:
		v.Elems = []Val{g.val(sc.Elem, depth+1, false)}
	case KEmpty, KAny:
	default:
		v.U = g.num(sc.K)
	}
	return
}

// nilEncodes: a required nil pointer is written as the zero value unless the
// pointed-to type has a codec of its own.
func nilEncodes(s *Schema) bool {
	switch s.K {
	case KStruct, KArr:
		// the zero value must itself be encodable
		for i := range s.Fields {
			f := &s.Fields[i]
			if !f.Skip && f.S.K == KPtr && !f.Opt && !f.COpt && !nilEncodes(f.S.Elem) {
				return false
			}
			if !f.Skip && f.S.K == KEnum {
				return false
			}
			if !f.Skip && (f.S.K == KStruct || f.S.K == KArr) && !nilEncodes(f.S) {
				return false
			}
		}
		if s.K == KArr && s.Len > 0 {
			if s.Elem.K == KPtr {
				return nilEncodes(s.Elem.Elem)
			}
			return s.Elem.K < KProbe && s.Elem.K <= KStr
		}
		return true
	}
	return s.K <= KStr || s.K == KSlice || s.K == KMap
}

func (g *gen) slice(sc *Schema, n, depth int) (v Val) {
	s := g.s
	if sc.Elem.K == KU8 {
		if n == 0 && s.P(3) {
			v.Nil = true
			return
		}
		v.B = genBytes(s, n)
		return
	}
	if sc.Elem.rawElem() > 0 && n > 20 {
		r := s.Bulk()
		v.Elems = make([]Val, n)
		bits := uint(8 * sc.Elem.rawElem())
		for i := range v.Elems {
			v.Elems[i].U = r.Next() >> (64 - bits)
		}
		return
	}
	if sc.Elem.rawElem() == 0 {
		if g.left <= 0 || depth > 12 {
			n = min0(n)
		} else if n > g.left {
			n = g.left
		}
	}
	if n == 0 && s.P(3) {
		v.Nil = true
		return
	}
	v.Elems = make([]Val, n)
	if n > 60 && sc.Elem.K != KMap {
		// repeat a few elements
		base := make([]Val, 8)
		saved := g.left
		g.left = saved * 8 / n
		for i := range base {
			base[i] = g.val(sc.Elem, depth+1, false)
		}
		g.left = saved - n
		for i := range v.Elems {
			v.Elems[i] = base[i%8]
		}
		return
	}
	for i := range v.Elems {
		v.Elems[i] = g.val(sc.Elem, depth+1, false)
	}
	return
}

func min0(n int) int {
	if n < 0 {
		return n
	}
	return 0
}
