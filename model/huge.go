package model

// Values far larger than the ordinary ones: long strings and byte slices, and
// slices, maps and arrays of many elements.

var (
	hugeLens   = []int{1<<16 - 1, 1 << 16, 1<<16 + 1, 100000, 1 << 17, 1<<18 + 1, 1 << 19, 1000000, 1<<20 - 1, 1 << 20, 1<<20 + 1, 1500000, 1<<21 + 1}
	hugeCounts = []int{4096, 8193, 10000, 16384, 20000, 32767, 32768, 32769, 40000, 65535, 65536, 65537, 65537, 70000, 70001}
)

func hugeLen(s *Src, e Enc) int {
	if e == Compact {
		return []int{65535, 65535, 65534, 50000, 32768, 40000 + s.N(25000)}[s.N(6)]
	}
	if s.Bool() {
		return hugeLens[s.N(len(hugeLens))]
	}
	n := 1<<16 + int(s.U64()%(1<<20))
	return n
}

func hugeCount(s *Src, e Enc) int {
	n := hugeCounts[s.N(len(hugeCounts))]
	if s.P(3) {
		n = 4096 + s.N(96000)
	}
	if e == Compact && n > 65535 {
		n = 65535
	}
	return n
}

// HugeLen draws a length whose prefix fits the encoding.
func HugeLen(s *Src, e Enc) int { return hugeLen(s, e) }

// GenHuge draws such a value.
func GenHuge(s *Src, e Enc) (*Schema, Val) {
	leaf := func(ks ...Kind) *Schema { return scalar(s, ks[s.N(len(ks))], s.P(4)) }
	field := func(name string, x *Schema) Field { return Field{Name: name, S: x, SizeOf: -1, Sized: -1} }
	g := &gen{s: s, c: &Cfg{E: e, Prefix: "F"}, left: 100}
	few := func(x *Schema, n int) (v Val) { // n elements, seven different ones repeated
		var base [7]Val
		for i := range base {
			base[i] = g.val(x, 3, false)
		}
		v.Elems = make([]Val, n)
		for i := range v.Elems {
			v.Elems[i] = base[i%7]
		}
		return
	}
	switch s.W(3, 3, 1, 4, 2, 3, 3, 3, 3, 2, 3) {
	case 0:
		return leaf(KStr), Val{B: genBytes(s, hugeLen(s, e))}
	case 1:
		return SliceOf(leaf(KU8)), Val{B: genBytes(s, hugeLen(s, e))}
	case 2:
		return lib([]Kind{KHex, KSafe}[s.N(2)]), Val{B: genBytes(s, hugeLen(s, e))[:]}.ascii()
	case 3:
		x := SliceOf(leaf(KU16, KU32, KU64))
		return x, g.slice(x, hugeCount(s, e), 3)
	case 4:
		// many short strings
		x := SliceOf(leaf(KStr))
		return x, few(x.Elem, hugeCount(s, e))
	case 5:
		// a few long ones
		x := SliceOf([]*Schema{SliceOf(leaf(KU8)), leaf(KStr)}[s.N(2)])
		v := Val{Elems: make([]Val, 2+s.N(4))}
		for i := range v.Elems {
			v.Elems[i].B = genBytes(s, hugeLen(s, e)/4*(1+s.N(4)))
		}
		return x, v
	case 6:
		x := SliceOf(structType([]Field{field("A", leaf(KU8, KBool)), field("B", leaf(KU32, KI64)), field("C", leaf(KStr))}, KStruct))
		return x, few(x.Elem, hugeCount(s, e)/4)
	case 7:
		// entries in ascending order of their keys
		n := hugeCount(s, e)
		if e != Borsh {
			n = 1500 + n%1500
		}
		x := MapOf(leaf(KU32, KU64, KI64), leaf(KU8, KU16, KBool))
		r := s.Bulk()
		step := r.Next()%1000 + 1
		var v Val
		for i := 0; i < n; i++ {
			v.Keys = append(v.Keys, Val{U: uint64(i) * step})
			v.Elems = append(v.Elems, Val{U: uint64(i) & 1})
		}
		return x, v
	case 8:
		x := SliceOf(leaf(KBool, KI8, KI16, KI32, KI64, KF32, KF64))
		return x, few(x.Elem, hugeCount(s, e))
	case 9:
		x := ArrayOf([]int{4096, 65536, 70000}[s.N(3)], leaf(KU8, KU16, KU32, KU64))
		v := g.slice(SliceOf(scalar(nil, KU16, false)), x.Len, 3)
		if x.Elem.K == KU8 {
			for i := range v.Elems {
				v.Elems[i].U &= 0xff
			}
		}
		return x, v
	default:
		opt := field("D", PtrTo(SliceOf(leaf(KU8))))
		opt.Opt, opt.Tag = true, `bin:"optional"`
		x := structType([]Field{field("A", leaf(KU8)), field("B", leaf(KStr)), field("C", leaf(KU32)), opt, field("E", leaf(KU16))}, KStruct)
		return x, Val{Elems: []Val{{U: 7}, {B: genBytes(s, hugeLen(s, e))}, {U: 0x01020304}, {Elems: []Val{{B: genBytes(s, hugeLen(s, e))}}}, {U: 0x0506}}}
	}
}

// ascii makes the bytes valid text.
func (v Val) ascii() Val {
	for i := range v.B {
		v.B[i] &= 0x7f
	}
	return v
}
