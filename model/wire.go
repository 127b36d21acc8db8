package model

import (
	"math"
	"reflect"
	"sort"
	"unicode/utf8"
)

// ---- primitive wire forms ----

func appU(b []byte, v uint64, n int, big bool) []byte {
	for i := 0; i < n; i++ {
		sh := 8 * i
		if big {
			sh = 8 * (n - 1 - i)
		}
		b = append(b, byte(v>>uint(sh)))
	}
	return b
}

func getU(b []byte, n int, big bool) uint64 {
	var v uint64
	for i := 0; i < n; i++ {
		sh := 8 * i
		if big {
			sh = 8 * (n - 1 - i)
		}
		v |= uint64(b[i]) << uint(sh)
	}
	return v
}

func appUvarint(b []byte, v uint64) []byte {
	for v >= 0x80 {
		b = append(b, byte(v)|0x80)
		v >>= 7
	}
	return append(b, byte(v))
}

func zigzag(v int64) uint64 {
	u := uint64(v) << 1
	if v < 0 {
		u = ^u
	}
	return u
}

func unzigzag(u uint64) int64 {
	if u&1 != 0 {
		return int64(^(u >> 1))
	}
	return int64(u >> 1)
}

// AppCompact appends a compact-u16.
func AppCompact(b []byte, v int) []byte {
	for v >= 0x80 {
		b = append(b, byte(v&0x7f)|0x80)
		v >>= 7
	}
	return append(b, byte(v))
}

// AppUvarint, AppVarint and AppU are the primitive wire forms.
func AppUvarint(b []byte, v uint64) []byte            { return appUvarint(b, v) }
func AppVarint(b []byte, v int64) []byte              { return appUvarint(b, zigzag(v)) }
func AppU(b []byte, v uint64, n int, big bool) []byte { return appU(b, v, n, big) }
func GetU(b []byte, n int, big bool) uint64           { return getU(b, n, big) }

// AppLen appends a length prefix; ok is false if it cannot be represented.
func AppLen(b []byte, e Enc, n int) (out []byte, ok bool) {
	switch e {
	case Bin:
		return appUvarint(b, uint64(n)), true
	case Compact:
		if n > 0xffff || n < 0 {
			return b, false
		}
		return AppCompact(b, n), true
	}
	return appU(b, uint64(n), 4, false), true
}

// ---- reference encoder ----

// Seg is a piece of an encoding: bytes, then (optionally) a group of entries
// that may appear in any order, or the end of what can be encoded.
type Seg struct {
	B       []byte
	Entries [][]Seg
	Stop    bool
}

type encw struct {
	e    Enc
	segs []Seg
	cur  []byte
	stop bool
}

func (w *encw) flush() {
	if len(w.cur) > 0 {
		w.segs = append(w.segs, Seg{B: w.cur})
		w.cur = nil
	}
}

func (w *encw) halt() {
	if !w.stop {
		w.flush()
		w.segs = append(w.segs, Seg{Stop: true})
		w.stop = true
	}
}

// Segs is the reference encoding of a value.
func Segs(s *Schema, v *Val, e Enc) []Seg {
	w := &encw{e: e}
	w.val(s, v, false, false)
	w.flush()
	return w.segs
}

// Bytes is the canonical encoding (map entries in the order given by the value,
// or sorted in Borsh); ok is false if the value is not encodable.
func Bytes(s *Schema, v *Val, e Enc) (out []byte, ok bool) {
	var fl func(segs []Seg) bool
	fl = func(segs []Seg) bool {
		for i := range segs {
			if segs[i].Stop {
				return false
			}
			out = append(out, segs[i].B...)
			for _, en := range segs[i].Entries {
				if !fl(en) {
					return false
				}
			}
		}
		return true
	}
	ok = fl(Segs(s, v, e))
	return out, ok
}

func isNaN(s *Schema, v *Val) bool {
	switch s.K {
	case KF32:
		f := math.Float32frombits(uint32(v.U))
		return f != f
	case KF64, KJF64:
		f := math.Float64frombits(v.U)
		return f != f
	}
	return false
}

// val writes a value. big is the byte order of the enclosing field; sized says
// that the length of a slice is held elsewhere.
func (w *encw) val(s *Schema, v *Val, big, sized bool) {
	if w.stop {
		return
	}
	plainBig := big && w.e != Borsh
	switch s.K {
	case KU8, KI8, KBool, KLBool:
		w.cur = append(w.cur, byte(v.U))
	case KU16, KI16:
		w.cur = appU(w.cur, v.U, 2, plainBig)
	case KU32, KI32:
		w.cur = appU(w.cur, v.U, 4, plainBig)
	case KU64, KI64:
		w.cur = appU(w.cur, v.U, 8, plainBig)
	case KF32:
		if w.e == Borsh && isNaN(s, v) {
			w.halt()
			return
		}
		w.cur = appU(w.cur, v.U, 4, plainBig)
	case KF64, KJF64:
		if w.e == Borsh && isNaN(s, v) {
			w.halt()
			return
		}
		if s.K == KJF64 {
			plainBig = big
		}
		w.cur = appU(w.cur, v.U, 8, plainBig)
	case KLI64, KLU64:
		w.cur = appU(w.cur, v.U, 8, big)
	case KU128, KI128, KF128:
		if big {
			w.cur = appU(appU(w.cur, v.Hi, 8, true), v.U, 8, true)
		} else {
			w.cur = appU(appU(w.cur, v.U, 8, false), v.Hi, 8, false)
		}
	case KVI16, KVI32:
		w.cur = appUvarint(w.cur, zigzag(int64(v.U)))
	case KVU16, KVU32:
		w.cur = appUvarint(w.cur, v.U)
	case KStr:
		if w.e == Bin {
			w.cur = appU(w.cur, uint64(len(v.B)), 8, false)
		} else if !w.length(len(v.B)) {
			return
		}
		w.cur = append(w.cur, v.B...)
	case KSafe, KHex:
		if !w.length(len(v.B)) {
			return
		}
		w.cur = append(w.cur, v.B...)
	case KProbe:
		w.cur = append(w.cur, ProbeWire(uint32(v.U), w.e, big)...)
	case KArr:
		w.elems(s.Elem, v.Elems)
	case KSlice:
		if s.Elem.K == KU8 {
			if !sized && !w.length(len(v.B)) {
				return
			}
			w.cur = append(w.cur, v.B...)
			return
		}
		if !sized && !w.length(len(v.Elems)) {
			return
		}
		w.elems(s.Elem, v.Elems)
	case KMap:
		if !w.length(len(v.Keys)) {
			return
		}
		if w.e == Borsh {
			ord := make([]int, len(v.Keys))
			for i := range ord {
				ord[i] = i
			}
			sort.SliceStable(ord, func(i, j int) bool { return keyLess(s.Key, &v.Keys[ord[i]], &v.Keys[ord[j]]) })
			for _, i := range ord {
				w.val(s.Key, &v.Keys[i], false, false)
				w.val(s.Elem, &v.Elems[i], false, false)
			}
			return
		}
		if len(v.Keys) == 1 {
			w.val(s.Key, &v.Keys[0], false, false)
			w.val(s.Elem, &v.Elems[0], false, false)
			return
		}
		w.flush()
		g := Seg{}
		stopped := false
		for i := range v.Keys {
			sub := &encw{e: w.e}
			sub.val(s.Key, &v.Keys[i], false, false)
			sub.val(s.Elem, &v.Elems[i], false, false)
			sub.flush()
			g.Entries = append(g.Entries, sub.segs)
			stopped = stopped || sub.stop
		}
		w.segs = append(w.segs, g)
		if stopped {
			w.halt()
		}
	case KStruct:
		for i := range s.Fields {
			f := &s.Fields[i]
			if f.Skip {
				continue
			}
			if f.Opt || f.COpt && w.e == Borsh {
				n := 1
				if f.COpt || w.e == Bin {
					n = 4
				}
				if IsZero(f.S, &v.Elems[i]) {
					w.cur = appU(w.cur, 0, n, false)
					continue
				}
				w.cur = appU(w.cur, 1, n, false)
			}
			w.val(f.S, &v.Elems[i], f.Big, f.Sized >= 0)
			if w.stop {
				return
			}
		}
	case KEnum:
		w.cur = append(w.cur, byte(v.U))
		if int(v.U)+1 >= len(s.Fields) {
			w.halt()
			return
		}
		if x := s.Fields[v.U+1].S; x.K == KPtr && v.Elems[0].Nil {
			if x.Elem.T.Size() > 0 {
				w.halt()
			}
			return
		}
		w.val(s.Fields[v.U+1].S, &v.Elems[0], false, false)
	case KPtr:
		if v.Nil {
			if s.Elem.K == KEmpty {
				return
			}
			z := Zero(s.Elem)
			w.val(s.Elem, &z, big, sized)
			return
		}
		w.val(s.Elem, &v.Elems[0], big, sized)
	case KEmpty, KAny:
	}
}

func (w *encw) length(n int) bool {
	var ok bool
	w.cur, ok = AppLen(w.cur, w.e, n)
	if !ok {
		w.halt()
	}
	return ok
}

func (w *encw) elems(s *Schema, es []Val) {
	if n := s.rawElem(); n > 0 {
		for i := range es {
			w.cur = appU(w.cur, es[i].U, n, false)
		}
		return
	}
	for i := range es {
		w.val(s, &es[i], false, false)
		if w.stop {
			return
		}
	}
}

// keyLess is the order of map entries in Borsh.
func keyLess(s *Schema, a, b *Val) bool {
	switch s.T.Kind() {
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return int64(a.U) < int64(b.U)
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return a.U < b.U
	case reflect.Float32:
		return math.Float32frombits(uint32(a.U)) < math.Float32frombits(uint32(b.U))
	case reflect.Float64:
		return math.Float64frombits(a.U) < math.Float64frombits(b.U)
	case reflect.String:
		if s.K == KProbe {
			return probeKeyString(uint32(a.U)) < probeKeyString(uint32(b.U))
		}
		return string(a.B) < string(b.B)
	}
	return false
}

// ---- matching ----

type MatchResult int

const (
	Bad     MatchResult = iota
	Partial             // the bytes are a strict prefix
	Full                // the bytes are the whole encoding
)

// Match compares bytes with an encoding; at is where they stop agreeing.
func Match(segs []Seg, b []byte) (r MatchResult, at int) {
	n, st := match(segs, b)
	switch st {
	case 0:
		if n == len(b) {
			return Full, n
		}
		return Bad, n
	case 1:
		return Partial, n
	}
	return Bad, n
}

// match returns the bytes consumed and 0 (all segments matched), 1 (ran out of
// bytes, or at the end of what is encodable with no bytes left), 2 (mismatch).
func match(segs []Seg, b []byte) (int, int) {
	pos := 0
	for i := range segs {
		s := &segs[i]
		if s.Stop {
			if pos == len(b) {
				return pos, 1
			}
			return pos, 2
		}
		if len(s.B) > 0 {
			n := len(s.B)
			r := b[pos:]
			if len(r) < n {
				if string(r) == string(s.B[:len(r)]) {
					return len(b), 1
				}
				return pos + common(r, s.B), 2
			}
			if string(r[:n]) != string(s.B) {
				return pos + common(r, s.B), 2
			}
			pos += n
		}
		if len(s.Entries) > 0 {
			left := make([]int, len(s.Entries))
			for j := range left {
				left[j] = j
			}
			for len(left) > 0 {
				best, bestAt, bestSt := -1, pos, 2
				for k, j := range left {
					n, st := match(s.Entries[j], b[pos:])
					if st == 0 {
						best, bestAt, bestSt = k, pos+n, 0
						break
					}
					if st == 1 {
						best, bestAt, bestSt = k, pos+n, 1
						continue
					}
					if bestSt == 2 && pos+n > bestAt {
						bestAt = pos + n
					}
				}
				if bestSt != 0 {
					return bestAt, bestSt
				}
				left = append(left[:best], left[best+1:]...)
				pos = bestAt
			}
		}
	}
	return pos, 0
}

func common(a, b []byte) int {
	n := 0
	for n < len(a) && n < len(b) && a[n] == b[n] {
		n++
	}
	return n
}

// Norm is the value a decoder yields for an encoded value.
func Norm(s *Schema, v *Val, e Enc) Val {
	out := *v
	switch s.K {
	case KSafe:
		out.B = SafeFix(v.B)
	case KHex:
		out.Nil = false
	case KArr, KSlice:
		out.Nil = false
		if s.K == KSlice && s.Elem.K == KU8 {
			return out
		}
		out.Elems = make([]Val, len(v.Elems))
		for i := range v.Elems {
			out.Elems[i] = Norm(s.Elem, &v.Elems[i], e)
		}
	case KMap:
		out.Nil = false
		out.Keys = make([]Val, len(v.Keys))
		out.Elems = make([]Val, len(v.Elems))
		for i := range v.Keys {
			out.Keys[i] = Norm(s.Key, &v.Keys[i], e)
			out.Elems[i] = Norm(s.Elem, &v.Elems[i], e)
		}
	case KStruct:
		out.Elems = make([]Val, len(v.Elems))
		for i := range s.Fields {
			f := &s.Fields[i]
			if f.Skip {
				continue
			}
			if (f.Opt || f.COpt && e == Borsh) && IsZero(f.S, &v.Elems[i]) {
				out.Elems[i] = Zero(f.S)
				continue
			}
			out.Elems[i] = Norm(f.S, &v.Elems[i], e)
		}
	case KEnum:
		out.Elems = []Val{Norm(s.Fields[v.U+1].S, &v.Elems[0], e)}
	case KPtr:
		out.Nil = false
		if v.Nil {
			z := Zero(s.Elem)
			out.Elems = []Val{Norm(s.Elem, &z, e)}
		} else {
			out.Elems = []Val{Norm(s.Elem, &v.Elems[0], e)}
		}
	}
	return out
}

// SafeFix replaces each undecodable byte by U+FFFD.
func SafeFix(b []byte) []byte {
	out := make([]byte, 0, len(b))
	for i := 0; i < len(b); {
		r, n := utf8.DecodeRune(b[i:])
		if r == utf8.RuneError {
			out = append(out, "\uFFFD"...)
		} else {
			out = append(out, b[i:i+n]...)
		}
		i += n
	}
	return out
}

// ---- reference decoder ----

// ProbeAt is a user-codec call: which value, and where in the stream.
type ProbeAt struct {
	V   uint32
	Pos int
}

// Dec reads a value from bytes.
type Dec struct {
	B       []byte
	Pos     int
	E       Enc
	Lenient bool // some byte had a non-canonical form that a decoder may refuse
	Dup     bool // a map repeated a key
	NaNKey  bool // a map has a NaN key, which cannot be looked up
	Probes  []ProbeAt
	bad     bool
	depth   int
}

// Decode reads one value at d.Pos; ok is false if the bytes hold no such value.
func (d *Dec) Decode(s *Schema) (v Val, ok bool) {
	d.bad, d.depth = false, 0
	v = d.val(s, false, -1)
	return v, !d.bad
}

func (d *Dec) take(n int) []byte {
	if d.bad || n < 0 || n > len(d.B)-d.Pos {
		d.bad = true
		return nil
	}
	b := d.B[d.Pos : d.Pos+n]
	d.Pos += n
	return b
}

func (d *Dec) u(n int, big bool) uint64 {
	b := d.take(n)
	if b == nil {
		return 0
	}
	return getU(b, n, big)
}

func (d *Dec) uvarint() uint64 {
	var v uint64
	for i := 0; ; i++ {
		b := d.take(1)
		if b == nil {
			return 0
		}
		if i == 9 && b[0] > 1 || i > 9 {
			d.bad = true
			return 0
		}
		v |= uint64(b[0]&0x7f) << uint(7*i)
		if b[0] < 0x80 {
			if b[0] == 0 && i > 0 {
				d.Lenient = true
			}
			return v
		}
	}
}

// CompactU16 reads a compact-u16 from b; ok is false if it is cut, aliased,
// overlong or out of range. need is the number of bytes after which the
// outcome is certain.
func CompactU16(b []byte) (v, size, need int, ok bool) {
	for i := 0; i < 3; i++ {
		if i >= len(b) {
			return 0, 0, i, false
		}
		x := b[i]
		if x == 0 && i > 0 {
			return 0, 0, i + 1, false
		}
		if i == 2 && x > 3 {
			return 0, 0, 3, false
		}
		v |= int(x&0x7f) << uint(7*i)
		if x < 0x80 {
			return v, i + 1, i + 1, true
		}
	}
	return 0, 0, 3, false
}

func (d *Dec) length() int {
	if d.bad {
		return 0
	}
	switch d.E {
	case Bin:
		v := d.uvarint()
		if v > 0x7fffffff {
			d.bad = true
			return 0
		}
		return int(v)
	case Compact:
		v, n, _, ok := CompactU16(d.B[d.Pos:])
		if !ok {
			d.bad = true
			return 0
		}
		d.Pos += n
		return v
	}
	return int(d.u(4, false))
}

func (d *Dec) boolean() uint64 {
	v := d.u(1, false)
	if v > 1 {
		d.Lenient = true
		v = 1
	}
	return v
}

func sext(v uint64, n int) uint64 {
	sh := uint(64 - 8*n)
	return uint64(int64(v<<sh) >> sh)
}

func (d *Dec) val(s *Schema, big bool, sized int) (v Val) {
	if d.bad {
		return
	}
	// Values nested deeper than 10,000 levels are refused. How levels are
	// counted is up to the decoder: one or two per level here.
	if d.depth++; d.depth > 8000 {
		d.Lenient = true
		if d.depth > 30000 {
			d.bad = true
			d.depth--
			return
		}
	}
	defer func() { d.depth-- }()
	plainBig := big && d.E != Borsh
	switch s.K {
	case KU8:
		v.U = d.u(1, false)
	case KI8:
		v.U = sext(d.u(1, false), 1)
	case KBool, KLBool:
		v.U = d.boolean()
	case KU16:
		v.U = d.u(2, plainBig)
	case KI16:
		v.U = sext(d.u(2, plainBig), 2)
	case KU32:
		v.U = d.u(4, plainBig)
	case KI32:
		v.U = sext(d.u(4, plainBig), 4)
	case KU64, KI64:
		v.U = d.u(8, plainBig)
	case KLI64, KLU64:
		v.U = d.u(8, big)
	case KF32:
		v.U = d.u(4, plainBig)
		if d.E == Borsh && isNaN(s, &v) {
			d.bad = true
		}
	case KF64, KJF64:
		if s.K == KJF64 {
			plainBig = big
		}
		v.U = d.u(8, plainBig)
		if d.E == Borsh && isNaN(s, &v) {
			d.bad = true
		}
	case KU128, KI128, KF128:
		a, b := d.u(8, big), d.u(8, big)
		if big {
			v.Hi, v.U = a, b
		} else {
			v.U, v.Hi = a, b
		}
	case KVI16, KVI32:
		n := unzigzag(d.uvarint())
		lim := int64(1) << 15
		if s.K == KVI32 {
			lim = 1 << 31
		}
		if n < -lim || n >= lim {
			d.bad = true
		}
		v.U = uint64(n)
	case KVU16, KVU32:
		v.U = d.uvarint()
		lim := uint64(1) << 16
		if s.K == KVU32 {
			lim = 1 << 32
		}
		if v.U >= lim {
			d.bad = true
		}
	case KStr:
		if d.E == Bin {
			n := d.u(8, false)
			if n > 0x7fffffff {
				d.bad = true
				return
			}
			v.B = d.take(int(n))
		} else {
			v.B = d.take(d.length())
		}
	case KSafe:
		v.B = SafeFix(d.take(d.length()))
	case KHex:
		v.B = d.take(d.length())
	case KProbe:
		at := d.Pos
		id := uint32(d.u(4, true))
		if d.bad {
			d.Pos = at
			return
		}
		w := ProbeWire(id, d.E, big)
		d.Pos = at
		for _, p := range probeCalls(id, d.E) {
			d.Probes = append(d.Probes, ProbeAt{p.V, at + p.Pos})
		}
		if string(d.take(len(w))) != string(w) {
			d.bad = true
		}
		v.U = uint64(id)
	case KArr:
		v.Elems = d.elems(s.Elem, s.Len)
	case KSlice:
		n := sized
		if n < 0 {
			n = d.length()
		}
		if d.bad || n > len(d.B)-d.Pos {
			d.bad = true
			return
		}
		if s.Elem.K == KU8 {
			v.B = d.take(n)
			return
		}
		v.Elems = d.elems(s.Elem, n)
	case KMap:
		n := d.length()
		if d.bad || n > len(d.B)-d.Pos {
			d.bad = true
			return
		}
		idx := map[string]int{}
		for i := 0; i < n && !d.bad; i++ {
			k := d.val(s.Key, false, -1)
			x := d.val(s.Elem, false, -1)
			if d.bad {
				return
			}
			if isNaN(s.Key, &k) {
				d.NaNKey = true
			}
			ks := keyString(s.Key, &k)
			if j, ok := idx[ks]; ok {
				d.Dup = true
				v.Elems[j] = x
				continue
			}
			idx[ks] = len(v.Keys)
			v.Keys = append(v.Keys, k)
			v.Elems = append(v.Elems, x)
		}
	case KStruct:
		v.Elems = make([]Val, len(s.Fields))
		sizes := map[int]int{}
		for i := range s.Fields {
			f := &s.Fields[i]
			if f.Skip {
				continue
			}
			if f.Ext && d.Pos >= len(d.B) {
				v.Elems[i] = Zero(f.S)
				continue
			}
			if f.Opt || f.COpt && d.E == Borsh {
				n := 1
				if f.COpt || d.E == Bin {
					n = 4
				}
				flag := d.u(n, false)
				if d.bad {
					return
				}
				if flag == 0 {
					v.Elems[i] = Zero(f.S)
					if f.SizeOf >= 0 {
						sizes[f.SizeOf] = 0
					}
					continue
				}
				if flag > 1 {
					if f.COpt {
						d.bad = true
						return
					}
					d.Lenient = true
				}
			}
			n := -1
			if f.Sized >= 0 {
				n = sizes[i]
			}
			v.Elems[i] = d.val(f.S, f.Big, n)
			if d.bad {
				return
			}
			if f.SizeOf >= 0 {
				u := v.Elems[i].U
				if u > math.MaxInt32 { // negative or absurd: may be refused at once
					d.Lenient = true
					u = math.MaxInt32
				}
				sizes[f.SizeOf] = int(u)
			}
		}
	case KEnum:
		v.U = d.u(1, false)
		if d.bad || int(v.U)+1 >= len(s.Fields) {
			d.bad = true
			return
		}
		v.Elems = []Val{d.val(s.Fields[v.U+1].S, false, -1)}
	case KPtr:
		v.Elems = []Val{d.val(s.Elem, big, sized)}
	}
	return
}

func (d *Dec) elems(s *Schema, n int) []Val {
	if n*s.min > len(d.B)-d.Pos && s.rawElem() == 0 && !s.ext {
		d.bad = true
		return nil
	}
	raw := s.rawElem()
	if raw > 0 && n*raw > len(d.B)-d.Pos {
		d.bad = true
		return nil
	}
	out := make([]Val, n)
	for i := range out {
		if raw > 0 {
			out[i].U = d.u(raw, false)
		} else {
			out[i] = d.val(s, false, -1)
		}
		if d.bad {
			return nil
		}
	}
	return out
}
