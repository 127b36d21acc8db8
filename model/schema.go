// Package model is an independent description of the wire formats: schemas and
// values, the Go types and values that correspond to them, a reference encoder,
// an incremental matcher and a reference decoder. It shares no code with the
// library; it only names the library's exported types.
package model

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"

	bin "github.com/gagliardetto/binary"
)

// Enc selects the encoding.
type Enc int

const (
	Bin Enc = iota
	Compact
	Borsh
)

func (e Enc) String() string { return [...]string{"Bin", "CompactU16", "Borsh"}[e] }

// Lib is the library's name for the encoding.
func (e Enc) Lib() bin.Encoding {
	return [...]bin.Encoding{bin.EncodingBin, bin.EncodingCompactU16, bin.EncodingBorsh}[e]
}

type Kind uint8

const (
	KU8 Kind = iota
	KU16
	KU32
	KU64
	KI8
	KI16
	KI32
	KI64
	KBool
	KF32
	KF64
	KStr
	// library types
	KLBool
	KSafe
	KHex
	KVI16
	KVU16
	KVU32
	KVI32
	KJF64
	KLI64
	KLU64
	KU128
	KI128
	KF128
	// user codecs
	KProbe
	// composites
	KArr
	KSlice
	KMap
	KStruct
	KPtr
	KEnum
	KEmpty
	KAny
	kinds
)

var kindNames = [...]string{"u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "bool", "f32", "f64", "string",
	"Bool", "SafeString", "HexBytes", "Varint16", "Varuint16", "Varuint32", "Varint32", "JSONFloat64", "Int64", "Uint64",
	"Uint128", "Int128", "Float128", "codec", "array", "slice", "map", "struct", "ptr", "enum", "EmptyVariant", "any"}

func (k Kind) String() string { return kindNames[k] }

// Schema describes a type.
type Schema struct {
	K      Kind
	T      reflect.Type
	Len    int
	Elem   *Schema
	Key    *Schema
	Fields []Field
	min    int // minimal encoded size, -1 unknown
	hasMap bool
	probes bool
	ext    bool
}

// Field of a struct (or a variant of an enum; then Fields[0] is the tag field).
type Field struct {
	Name   string
	S      *Schema
	Tag    string
	Big    bool
	Opt    bool
	COpt   bool
	Skip   bool // not transmitted: skip tag or unexported
	Unexp  bool
	Ext    bool
	SizeOf int // index of the slice this field counts, or -1
	Sized  int // index of the field that counts this slice, or -1
}

// Val is a value of some schema.
type Val struct {
	U     uint64 // number or bits; enum tag
	Hi    uint64
	B     []byte // string and raw bytes
	Elems []Val
	Keys  []Val
	Nil   bool // nil slice, map or pointer
}

// named Go types without methods
type (
	NU8   uint8
	NU16  uint16
	NU32  uint32
	NU64  uint64
	NI8   int8
	NI16  int16
	NI32  int32
	NI64  int64
	NBool bool
	NF32  float32
	NF64  float64
	NStr  string
)

var scalarT = [...][2]reflect.Type{
	KU8:   {reflect.TypeOf(uint8(0)), reflect.TypeOf(NU8(0))},
	KU16:  {reflect.TypeOf(uint16(0)), reflect.TypeOf(NU16(0))},
	KU32:  {reflect.TypeOf(uint32(0)), reflect.TypeOf(NU32(0))},
	KU64:  {reflect.TypeOf(uint64(0)), reflect.TypeOf(NU64(0))},
	KI8:   {reflect.TypeOf(int8(0)), reflect.TypeOf(NI8(0))},
	KI16:  {reflect.TypeOf(int16(0)), reflect.TypeOf(NI16(0))},
	KI32:  {reflect.TypeOf(int32(0)), reflect.TypeOf(NI32(0))},
	KI64:  {reflect.TypeOf(int64(0)), reflect.TypeOf(NI64(0))},
	KBool: {reflect.TypeOf(false), reflect.TypeOf(NBool(false))},
	KF32:  {reflect.TypeOf(float32(0)), reflect.TypeOf(NF32(0))},
	KF64:  {reflect.TypeOf(float64(0)), reflect.TypeOf(NF64(0))},
	KStr:  {reflect.TypeOf(""), reflect.TypeOf(NStr(""))},
}

var libT = map[Kind]reflect.Type{
	KLBool: reflect.TypeOf(bin.Bool(false)),
	KSafe:  reflect.TypeOf(bin.SafeString("")),
	KHex:   reflect.TypeOf(bin.HexBytes(nil)),
	KVI16:  reflect.TypeOf(bin.Varint16(0)),
	KVU16:  reflect.TypeOf(bin.Varuint16(0)),
	KVU32:  reflect.TypeOf(bin.Varuint32(0)),
	KVI32:  reflect.TypeOf(bin.Varint32(0)),
	KJF64:  reflect.TypeOf(bin.JSONFloat64(0)),
	KLI64:  reflect.TypeOf(bin.Int64(0)),
	KLU64:  reflect.TypeOf(bin.Uint64(0)),
	KU128:  reflect.TypeOf(bin.Uint128{}),
	KI128:  reflect.TypeOf(bin.Int128{}),
	KF128:  reflect.TypeOf(bin.Float128{}),
	KEmpty: reflect.TypeOf(bin.EmptyVariant{}),
}

var (
	libK     = libKinds()
	anyT     = reflect.TypeOf((*interface{})(nil)).Elem()
	enumTagT = reflect.TypeOf(bin.BorshEnum(0))
	u8T      = reflect.TypeOf(uint8(0))
)

func libKinds() map[reflect.Type]Kind {
	m := map[reflect.Type]Kind{}
	for k, t := range libT {
		m[t] = k
	}
	return m
}

var byKind = map[reflect.Kind]Kind{
	reflect.Uint8: KU8, reflect.Uint16: KU16, reflect.Uint32: KU32, reflect.Uint64: KU64,
	reflect.Int8: KI8, reflect.Int16: KI16, reflect.Int32: KI32, reflect.Int64: KI64,
	reflect.Bool: KBool, reflect.Float32: KF32, reflect.Float64: KF64, reflect.String: KStr,
}

// SchemaOf builds the schema of a Go type.
func SchemaOf(t reflect.Type) *Schema { return schemaOf(t, map[reflect.Type]*Schema{}) }

func schemaOf(t reflect.Type, seen map[reflect.Type]*Schema) *Schema {
	if s := seen[t]; s != nil {
		return s
	}
	s := &Schema{T: t, min: -1}
	seen[t] = s
	if k, ok := libK[t]; ok {
		s.K = k
		return s.fin()
	}
	if isProbe(t) {
		s.K = KProbe
		return s.fin()
	}
	if k, ok := byKind[t.Kind()]; ok {
		s.K = k
		return s.fin()
	}
	switch t.Kind() {
	case reflect.Interface:
		s.K = KAny
	case reflect.Array:
		s.K, s.Len, s.Elem = KArr, t.Len(), schemaOf(t.Elem(), seen)
	case reflect.Slice:
		s.K, s.Elem = KSlice, schemaOf(t.Elem(), seen)
	case reflect.Map:
		s.K, s.Key, s.Elem = KMap, schemaOf(t.Key(), seen), schemaOf(t.Elem(), seen)
	case reflect.Ptr:
		s.K, s.Elem = KPtr, schemaOf(t.Elem(), seen)
	case reflect.Struct:
		s.K = KStruct
		idx := map[string]int{}
		for i := 0; i < t.NumField(); i++ {
			idx[t.Field(i).Name] = i
		}
		s.Fields = make([]Field, t.NumField())
		for i := range s.Fields {
			s.Fields[i].SizeOf, s.Fields[i].Sized = -1, -1
		}
		for i := range s.Fields {
			sf := t.Field(i)
			f := &s.Fields[i]
			f.Name, f.Tag = sf.Name, string(sf.Tag)
			f.S = schemaOf(sf.Type, seen)
			if sf.PkgPath != "" {
				f.Skip, f.Unexp = true, true
			}
			for _, w := range strings.Fields(sf.Tag.Get("bin")) {
				switch {
				case w == "big":
					f.Big = true
				case w == "optional" || w == "option":
					f.Opt = true
				case w == "coption":
					f.COpt = true
				case w == "skip" || w == "-":
					f.Skip = true
				case w == "binary_extension":
					f.Ext = true
				case strings.HasPrefix(w, "sizeof="):
					j := idx[w[7:]]
					f.SizeOf = j
					s.Fields[j].Sized = i
				case w == "enum" && i == 0 && sf.Type == enumTagT:
					s.K = KEnum
				}
			}
			if strings.TrimSpace(sf.Tag.Get("borsh_skip")) == "true" {
				f.Skip = true
			}
			if i == 0 && strings.TrimSpace(sf.Tag.Get("borsh_enum")) == "true" && sf.Type == enumTagT {
				s.K = KEnum
			}
		}
	default:
		panic(fmt.Sprintf("model: no schema for %v", t))
	}
	return s.fin()
}

// fin computes derived facts (of a recursive type, only what is known so far).
func (s *Schema) fin() *Schema {
	s.min = 0
	sub := func(x *Schema) {
		if x == nil {
			return
		}
		s.hasMap = s.hasMap || x.hasMap
		s.probes = s.probes || x.probes
		s.ext = s.ext || x.ext
	}
	sub(s.Elem)
	sub(s.Key)
	for i := range s.Fields {
		if !s.Fields[i].Skip {
			sub(s.Fields[i].S)
			s.ext = s.ext || s.Fields[i].Ext
		}
	}
	switch s.K {
	case KU8, KI8, KBool, KLBool, KVI16, KVU16, KVU32, KVI32, KStr, KSafe, KHex, KSlice, KEnum:
		s.min = 1
	case KMap:
		s.min = 1
		s.hasMap = true
	case KU16, KI16:
		s.min = 2
	case KU32, KI32, KF32, KProbe:
		s.min = 4
		s.probes = s.probes || s.K == KProbe
	case KU64, KI64, KF64, KJF64, KLI64, KLU64:
		s.min = 8
	case KU128, KI128, KF128:
		s.min = 16
	case KArr:
		s.min = s.Len * s.Elem.min
	case KPtr:
		s.min = s.Elem.min
	case KStruct:
		for i := range s.Fields {
			f := &s.Fields[i]
			if f.Skip || f.Ext {
				continue
			}
			if f.Opt || f.COpt {
				s.min++
			} else if f.Sized < 0 {
				s.min += f.S.min
			}
		}
	}
	return s
}

// MinSize is a lower bound on the encoded size.
func (s *Schema) MinSize() int { return s.min }

// Weight is roughly the number of nodes of a value with one element per slice and map.
func (s *Schema) Weight() int { return s.weight(0) }

func (s *Schema) weight(depth int) int {
	if depth > 8 {
		return 1
	}
	w := 1
	switch s.K {
	case KArr:
		w += s.Len * s.Elem.weight(depth+1)
	case KSlice, KPtr:
		w += s.Elem.weight(depth + 1)
	case KMap:
		w += s.Key.weight(depth+1) + s.Elem.weight(depth+1)
	case KStruct, KEnum:
		for i := range s.Fields {
			w += s.Fields[i].S.weight(depth + 1)
		}
	}
	return w
}

// Bulk is the size of the largest Go object held by one element, pointer or map entry.
func (s *Schema) Bulk() int { return s.bulk(0) }

func (s *Schema) bulk(depth int) int {
	m := int(s.T.Size())
	up := func(x *Schema) {
		if x != nil && depth < 8 {
			if b := x.bulk(depth + 1); b > m {
				m = b
			}
		}
	}
	up(s.Elem)
	up(s.Key)
	for i := range s.Fields {
		up(s.Fields[i].S)
	}
	return m
}

// HasMap, HasProbe and HasExt tell whether such a node occurs in the schema.
func (s *Schema) HasMap() bool   { return s.hasMap }
func (s *Schema) HasProbe() bool { return s.probes }
func (s *Schema) HasExt() bool   { return s.ext }

// rawElem tells whether elements of arrays and slices of s are written as raw
// little-endian numbers whatever codec their type has.
func (s *Schema) rawElem() (size int) {
	switch s.T.Kind() {
	case reflect.Uint8:
		return 1
	case reflect.Uint16:
		return 2
	case reflect.Uint32:
		return 4
	case reflect.Uint64:
		return 8
	}
	return 0
}

// RawBytes tells whether s decodes to a slice that may share the input's memory.
func (s *Schema) RawBytes() bool {
	return s.K == KHex || s.K == KSlice && s.Elem.T == u8T
}

func (s *Schema) String() string { return s.str(map[*Schema]bool{}) }

func (s *Schema) str(seen map[*Schema]bool) string {
	if seen[s] {
		return "..."
	}
	n := ""
	if s.T.PkgPath() == "verif.local/dst/model" {
		n = s.T.Name()
	}
	switch s.K {
	case KArr:
		return fmt.Sprintf("[%d]%s", s.Len, s.Elem.str(seen))
	case KSlice:
		return "[]" + s.Elem.str(seen)
	case KMap:
		return "map[" + s.Key.str(seen) + "]" + s.Elem.str(seen)
	case KPtr:
		return "*" + s.Elem.str(seen)
	case KStruct, KEnum:
		seen[s] = true
		defer delete(seen, s)
		var b strings.Builder
		b.WriteString(s.K.String() + n + "{")
		for i, f := range s.Fields {
			if i > 0 {
				b.WriteString("; ")
			}
			b.WriteString(f.Name + " " + f.S.str(seen))
			if f.Tag != "" {
				b.WriteString(" `" + f.Tag + "`")
			}
		}
		return b.String() + "}"
	}
	if n != "" {
		return n
	}
	return s.K.String()
}

// ToGo sets rv (settable, of type s.T) to the value.
func ToGo(s *Schema, v *Val, rv reflect.Value) {
	switch s.K {
	case KU8, KU16, KU32, KU64, KVU16, KVU32, KLU64:
		rv.SetUint(v.U)
	case KI8, KI16, KI32, KI64, KVI16, KVI32, KLI64:
		rv.SetInt(int64(v.U))
	case KBool, KLBool:
		rv.SetBool(v.U != 0)
	case KF32:
		rv.SetFloat(float64(math.Float32frombits(uint32(v.U))))
	case KF64, KJF64:
		rv.SetFloat(math.Float64frombits(v.U))
	case KStr, KSafe:
		rv.SetString(string(v.B))
	case KHex:
		if v.Nil {
			rv.Set(reflect.Zero(s.T))
		} else {
			rv.SetBytes(append(make([]byte, 0, len(v.B)), v.B...))
		}
	case KU128:
		rv.Set(reflect.ValueOf(bin.Uint128{Lo: v.U, Hi: v.Hi}))
	case KI128:
		rv.Set(reflect.ValueOf(bin.Int128{Lo: v.U, Hi: v.Hi}))
	case KF128:
		rv.Set(reflect.ValueOf(bin.Float128{Lo: v.U, Hi: v.Hi}))
	case KProbe:
		probeToGo(uint32(v.U), rv)
	case KArr:
		for i := 0; i < s.Len; i++ {
			ToGo(s.Elem, &v.Elems[i], rv.Index(i))
		}
	case KSlice:
		if v.Nil {
			rv.Set(reflect.Zero(s.T))
			return
		}
		if s.Elem.K == KU8 {
			sl := reflect.MakeSlice(s.T, len(v.B), len(v.B))
			if s.Elem.T == u8T {
				reflect.Copy(sl, reflect.ValueOf(v.B))
			} else {
				for i, b := range v.B {
					sl.Index(i).SetUint(uint64(b))
				}
			}
			rv.Set(sl)
			return
		}
		sl := reflect.MakeSlice(s.T, len(v.Elems), len(v.Elems))
		for i := range v.Elems {
			ToGo(s.Elem, &v.Elems[i], sl.Index(i))
		}
		rv.Set(sl)
	case KMap:
		if v.Nil {
			rv.Set(reflect.Zero(s.T))
			return
		}
		m := reflect.MakeMap(s.T)
		put := func(i int) {
			k := reflect.New(s.Key.T).Elem()
			e := reflect.New(s.Elem.T).Elem()
			ToGo(s.Key, &v.Keys[i], k)
			ToGo(s.Elem, &v.Elems[i], e)
			m.SetMapIndex(k, e)
		}
		if history != nil && len(v.Keys) > 0 {
			buildMap(s, v, m, put)
		} else {
			for i := range v.Keys {
				put(i)
			}
		}
		rv.Set(m)
	case KStruct:
		for i := range s.Fields {
			if s.Fields[i].Unexp {
				continue
			}
			ToGo(s.Fields[i].S, &v.Elems[i], rv.Field(i))
		}
	case KEnum:
		rv.Field(0).SetUint(v.U)
		if int(v.U)+1 >= len(s.Fields) {
			return
		}
		ToGo(s.Fields[v.U+1].S, &v.Elems[0], rv.Field(int(v.U)+1))
	case KPtr:
		if v.Nil {
			rv.Set(reflect.Zero(s.T))
			return
		}
		p := reflect.New(s.Elem.T)
		ToGo(s.Elem, &v.Elems[0], p.Elem())
		rv.Set(p)
	case KEmpty, KAny:
	}
}

// history, when set, makes ToGo build maps through insertions, overwrites and
// deletions in an order of its own.
var history *Rng

// GoHist is Go with every map built through a drawn history.
func GoHist(s *Schema, v *Val, h *Rng) reflect.Value {
	history = h
	defer func() { history = nil }()
	return Go(s, v)
}

func buildMap(s *Schema, v *Val, m reflect.Value, put func(i int)) {
	n := len(v.Keys)
	idx := make([]int, n)
	for i := range idx {
		idx[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := history.N(i + 1)
		idx[i], idx[j] = idx[j], idx[i]
	}
	key := func(i int) reflect.Value {
		k := reflect.New(s.Key.T).Elem()
		ToGo(s.Key, &v.Keys[i], k)
		return k
	}
	for _, i := range idx {
		if history.N(3) == 0 { // a value that is overwritten later
			m.SetMapIndex(key(i), reflect.Zero(s.Elem.T))
			if history.N(2) == 0 {
				m.SetMapIndex(key(i), reflect.Value{})
			}
		}
		put(i)
		if j := idx[history.N(n)]; history.N(4) == 0 {
			m.SetMapIndex(key(j), reflect.Value{})
		}
	}
	// whatever was deleted comes back
	for _, i := range idx {
		put(i)
	}
}

// Go returns the value as a Go value of type s.T.
func Go(s *Schema, v *Val) reflect.Value {
	rv := reflect.New(s.T).Elem()
	ToGo(s, v, rv)
	return rv
}

// FromGo reads a Go value back.
func FromGo(s *Schema, rv reflect.Value) Val {
	var v Val
	switch s.K {
	case KU8, KU16, KU32, KU64, KVU16, KVU32, KLU64:
		v.U = rv.Uint()
	case KI8, KI16, KI32, KI64, KVI16, KVI32, KLI64:
		v.U = uint64(rv.Int())
	case KBool, KLBool:
		if rv.Bool() {
			v.U = 1
		}
	case KF32:
		v.U = uint64(math.Float32bits(float32(rv.Float())))
	case KF64, KJF64:
		v.U = math.Float64bits(rv.Float())
	case KStr, KSafe:
		v.B = []byte(rv.String())
	case KHex:
		v.Nil = rv.IsNil()
		v.B = append([]byte(nil), rv.Bytes()...)
	case KU128, KI128, KF128:
		v.U, v.Hi = rv.Field(0).Uint(), rv.Field(1).Uint()
	case KProbe:
		v.U = uint64(probeFromGo(rv))
	case KArr:
		v.Elems = make([]Val, s.Len)
		for i := range v.Elems {
			v.Elems[i] = FromGo(s.Elem, rv.Index(i))
		}
	case KSlice:
		v.Nil = rv.IsNil()
		if s.Elem.K == KU8 {
			v.B = make([]byte, rv.Len())
			if s.Elem.T == u8T {
				copy(v.B, rv.Bytes())
			} else {
				for i := range v.B {
					v.B[i] = byte(rv.Index(i).Uint())
				}
			}
			return v
		}
		v.Elems = make([]Val, rv.Len())
		for i := range v.Elems {
			v.Elems[i] = FromGo(s.Elem, rv.Index(i))
		}
	case KMap:
		v.Nil = rv.IsNil()
		it := rv.MapRange()
		for it.Next() {
			v.Keys = append(v.Keys, FromGo(s.Key, it.Key()))
			v.Elems = append(v.Elems, FromGo(s.Elem, it.Value()))
		}
		sort.Sort(byKey{s.Key, &v})
	case KStruct:
		v.Elems = make([]Val, len(s.Fields))
		for i := range s.Fields {
			if s.Fields[i].Unexp || s.Fields[i].S.K == KAny {
				continue
			}
			v.Elems[i] = FromGo(s.Fields[i].S, rv.Field(i))
		}
	case KEnum:
		v.U = rv.Field(0).Uint()
		v.Elems = make([]Val, 1)
		if int(v.U)+1 < len(s.Fields) {
			v.Elems[0] = FromGo(s.Fields[v.U+1].S, rv.Field(int(v.U)+1))
		}
	case KPtr:
		if rv.IsNil() {
			v.Nil = true
			return v
		}
		v.Elems = []Val{FromGo(s.Elem, rv.Elem())}
	}
	return v
}

type byKey struct {
	k *Schema
	v *Val
}

func (b byKey) Len() int { return len(b.v.Keys) }
func (b byKey) Less(i, j int) bool {
	return keyString(b.k, &b.v.Keys[i]) < keyString(b.k, &b.v.Keys[j])
}
func (b byKey) Swap(i, j int) {
	b.v.Keys[i], b.v.Keys[j] = b.v.Keys[j], b.v.Keys[i]
	b.v.Elems[i], b.v.Elems[j] = b.v.Elems[j], b.v.Elems[i]
}

// Zero returns the value of a Go zero value.
func Zero(s *Schema) Val { return FromGo(s, reflect.New(s.T).Elem()) }

// IsZero is Go's notion of a zero value.
func IsZero(s *Schema, v *Val) bool {
	switch s.K {
	case KSlice, KMap, KPtr, KHex:
		return v.Nil
	case KStr, KSafe:
		return len(v.B) == 0
	case KStruct, KArr, KEnum, KF32, KF64, KJF64:
		return Go(s, v).IsZero()
	}
	return v.U == 0 && v.Hi == 0
}

// Diff describes how got differs from want in the transmitted parts ("" if equal).
// Nil and empty slices and maps are the same. If keepRaw is false, raw byte
// slices are ignored.
func Diff(s *Schema, want, got *Val, raw bool) string { return diff(s, want, got, raw, "") }

func diff(s *Schema, a, b *Val, raw bool, path string) string {
	num := func() string {
		if a.U != b.U || a.Hi != b.Hi {
			return fmt.Sprintf("%s: want %s, got %s", path, Show(s, a), Show(s, b))
		}
		return ""
	}
	switch s.K {
	case KF32:
		x, y := math.Float32frombits(uint32(a.U)), math.Float32frombits(uint32(b.U))
		if x != x && y != y {
			return ""
		}
		return num()
	case KStr, KSafe, KHex:
		if !raw && s.K == KHex {
			return ""
		}
		if string(a.B) != string(b.B) {
			return fmt.Sprintf("%s: want %s, got %s", path, Show(s, a), Show(s, b))
		}
	case KSlice:
		if s.Elem.K == KU8 {
			if !raw && s.RawBytes() {
				return ""
			}
			if string(a.B) != string(b.B) {
				return fmt.Sprintf("%s: want %s, got %s", path, Show(s, a), Show(s, b))
			}
			return ""
		}
		fallthrough
	case KArr:
		if len(a.Elems) != len(b.Elems) {
			return fmt.Sprintf("%s: want %d elements, got %d", path, len(a.Elems), len(b.Elems))
		}
		for i := range a.Elems {
			if d := diff(s.Elem, &a.Elems[i], &b.Elems[i], raw, fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
	case KMap:
		if len(a.Keys) != len(b.Keys) {
			return fmt.Sprintf("%s: want %d map entries, got %d", path, len(a.Keys), len(b.Keys))
		}
		idx := make(map[string]int, len(b.Keys))
		for i := range b.Keys {
			idx[keyString(s.Key, &b.Keys[i])] = i
		}
		for i := range a.Keys {
			j, ok := idx[keyString(s.Key, &a.Keys[i])]
			if !ok {
				return fmt.Sprintf("%s: map key %s is missing", path, Show(s.Key, &a.Keys[i]))
			}
			if d := diff(s.Elem, &a.Elems[i], &b.Elems[j], raw, path+"["+Show(s.Key, &a.Keys[i])+"]"); d != "" {
				return d
			}
		}
	case KStruct:
		for i := range s.Fields {
			if s.Fields[i].Skip {
				continue
			}
			if d := diff(s.Fields[i].S, &a.Elems[i], &b.Elems[i], raw, path+"."+s.Fields[i].Name); d != "" {
				return d
			}
		}
	case KEnum:
		if a.U != b.U {
			return fmt.Sprintf("%s: want enum variant %d, got %d", path, a.U, b.U)
		}
		return diff(s.Fields[a.U+1].S, &a.Elems[0], &b.Elems[0], raw, fmt.Sprintf("%s.variant%d", path, a.U))
	case KPtr:
		if a.Nil != b.Nil {
			return fmt.Sprintf("%s: want nil pointer %v, got nil pointer %v", path, a.Nil, b.Nil)
		}
		if !a.Nil {
			return diff(s.Elem, &a.Elems[0], &b.Elems[0], raw, path+".*")
		}
	case KEmpty, KAny:
	default:
		return num()
	}
	return ""
}

// keyString identifies a map key.
func keyString(s *Schema, v *Val) string {
	switch s.K {
	case KStr, KSafe, KHex:
		return string(v.B)
	case KArr, KStruct:
		var b strings.Builder
		for i := range v.Elems {
			x := s.Elem
			if s.K == KStruct {
				if s.Fields[i].Skip {
					continue
				}
				x = s.Fields[i].S
			}
			k := keyString(x, &v.Elems[i])
			fmt.Fprintf(&b, "%d:%s,", len(k), k)
		}
		return b.String()
	case KF32:
		if v.U == 1<<31 {
			return "\x00\x00\x00\x00\x00\x00\x00\x00"
		}
	case KF64, KJF64:
		if v.U == 1<<63 {
			return "\x00\x00\x00\x00\x00\x00\x00\x00"
		}
	case KU128, KI128, KF128:
		return fmt.Sprintf("%x,%x", v.Hi, v.U)
	}
	var b [8]byte
	for i := range b {
		b[i] = byte(v.U >> (8 * i))
	}
	return string(b[:])
}

// Show renders a value for traces.
func Show(s *Schema, v *Val) string {
	var b strings.Builder
	show(&b, s, v)
	return b.String()
}

func show(b *strings.Builder, s *Schema, v *Val) {
	if b.Len() > 600 {
		if !strings.HasSuffix(b.String(), "...") {
			b.WriteString("...")
		}
		return
	}
	list := func(n int, f func(i int)) {
		for i := 0; i < n; i++ {
			if i > 0 {
				b.WriteString(" ")
			}
			if i == 12 && n > 14 {
				fmt.Fprintf(b, "...(%d)", n)
				break
			}
			f(i)
		}
	}
	switch s.K {
	case KI8, KI16, KI32, KI64, KVI16, KVI32, KLI64:
		fmt.Fprintf(b, "%d", int64(v.U))
	case KF32:
		fmt.Fprintf(b, "%v(%08x)", math.Float32frombits(uint32(v.U)), v.U)
	case KF64, KJF64:
		fmt.Fprintf(b, "%v(%016x)", math.Float64frombits(v.U), v.U)
	case KBool, KLBool:
		fmt.Fprintf(b, "%v", v.U != 0)
	case KStr, KSafe:
		if len(v.B) > 40 {
			fmt.Fprintf(b, "%q...(%d bytes)", v.B[:24], len(v.B))
		} else {
			fmt.Fprintf(b, "%q", v.B)
		}
	case KHex:
		bytesStr(b, v)
	case KU128, KI128, KF128:
		fmt.Fprintf(b, "0x%x_%016x", v.Hi, v.U)
	case KProbe:
		fmt.Fprintf(b, "codec(%#x)", v.U)
	case KSlice:
		if v.Nil {
			b.WriteString("nil")
			return
		}
		if s.Elem.K == KU8 {
			bytesStr(b, v)
			return
		}
		fallthrough
	case KArr:
		b.WriteString("[")
		list(len(v.Elems), func(i int) { show(b, s.Elem, &v.Elems[i]) })
		b.WriteString("]")
	case KMap:
		b.WriteString("map[")
		list(len(v.Keys), func(i int) { show(b, s.Key, &v.Keys[i]); b.WriteString(":"); show(b, s.Elem, &v.Elems[i]) })
		b.WriteString("]")
	case KStruct:
		b.WriteString("{")
		list(len(v.Elems), func(i int) {
			if s.Fields[i].Skip {
				b.WriteString("_")
			} else {
				show(b, s.Fields[i].S, &v.Elems[i])
			}
		})
		b.WriteString("}")
	case KEnum:
		fmt.Fprintf(b, "#%d(", v.U)
		if int(v.U)+1 < len(s.Fields) {
			show(b, s.Fields[v.U+1].S, &v.Elems[0])
		}
		b.WriteString(")")
	case KPtr:
		if v.Nil {
			b.WriteString("nil")
		} else {
			b.WriteString("&")
			show(b, s.Elem, &v.Elems[0])
		}
	case KEmpty:
		b.WriteString("empty")
	case KAny:
		b.WriteString("any")
	default:
		fmt.Fprintf(b, "%d", v.U)
	}
}

func bytesStr(b *strings.Builder, v *Val) {
	if v.Nil {
		b.WriteString("nil")
	} else if len(v.B) > 24 {
		fmt.Fprintf(b, "%x...(%d bytes)", v.B[:16], len(v.B))
	} else {
		fmt.Fprintf(b, "hex:%x", v.B)
	}
}
