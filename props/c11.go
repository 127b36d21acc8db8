package props

import (
	"crypto/sha256"
	"errors"
	"fmt"
	"math"
	"reflect"

	bin "github.com/gagliardetto/binary"

	"verif.local/dst/model"
	"verif.local/dst/vs"
)

func init() {
	register(&Prop{ID: "C11", Title: "Variant dispatch", Run: runC11,
		Rule: "one run registers up to eight (sometimes 300) types under one of the five identifier encodings and has one to three simulated threads, sharing the definition, read streams of up to eight variants each, intact, damaged in identifier or payload, cut or with unregistered identifiers, under a seeded schedule; every read is compared with the reference lookup and decoding. " +
			"Non-trivial: a fault fired or threads interleaved. Distinct: different type set, identifier encoding, damage and interleaving.",
		Real: "VariantDefinition, BaseVariant, TypeID conversions, Sighash, Decoder", Stub: "the bytes' source, user codecs, goroutine scheduling", Quick: 300000, Thor: 4500000})
}

// Sched draws a schedule of preemptions for about n statements.
func (r *R) Sched(n int) []vs.Step {
	s := r.S
	k := s.N(12)
	if s.P(3) {
		k += s.N(60)
	}
	out := make([]vs.Step, 0, k+1)
	out = append(out, vs.Step{Pick: uint32(s.N(8))})
	style := s.N(4)
	for i := 0; i < k; i++ {
		g := 0
		switch style {
		case 0:
			g = s.N(8)
		case 1:
			g = s.N(60)
		case 2:
			g = s.N(400)
		default:
			g = s.N(1 + n/(k+1)*2)
		}
		out = append(out, vs.Step{Gap: uint32(g), Pick: uint32(s.N(8))})
	}
	return out
}

type vtype struct {
	name string
	sc   *model.Schema
	ptr  bool
}

type vdef struct {
	e     model.Enc
	k     bin.TypeIDEncoding
	types []vtype
	def   *bin.VariantDefinition
}

func (v *vdef) wire(i int) []byte {
	switch v.k {
	case bin.Uvarint32TypeIDEncoding:
		return model.AppUvarint(nil, uint64(i))
	case bin.Uint32TypeIDEncoding:
		return model.AppU(nil, uint64(i), 4, false)
	case bin.Uint8TypeIDEncoding:
		return []byte{byte(i)}
	case bin.AnchorTypeIDEncoding:
		h := sha256.Sum256([]byte("global:" + v.types[i].name))
		return h[:8]
	}
	return nil
}

// id reads an identifier: the type's index, or why there is none.
func (v *vdef) id(b []byte) (i, size, st int) {
	switch v.k {
	case bin.Uvarint32TypeIDEncoding:
		u, n, st := uv(b)
		if st == refLack || st == refBad || u > math.MaxUint32 || u >= uint64(len(v.types)) {
			return 0, 0, refBad
		}
		return int(u), n, st
	case bin.Uint32TypeIDEncoding:
		if len(b) < 4 {
			return 0, 0, refBad
		}
		u := model.GetU(b, 4, false)
		if u >= uint64(len(v.types)) {
			return 0, 0, refBad
		}
		return int(u), 4, refOK
	case bin.Uint8TypeIDEncoding:
		if len(b) < 1 || int(b[0]) >= len(v.types) {
			return 0, 0, refBad
		}
		return int(b[0]), 1, refOK
	case bin.AnchorTypeIDEncoding:
		if len(b) < 8 {
			return 0, 0, refBad
		}
		for i := range v.types {
			if string(v.wire(i)) == string(b[:8]) {
				return i, 8, refOK
			}
		}
		return 0, 0, refBad
	}
	return 0, 0, refOK
}

var vnames = []string{"transfer", "transfer_checked", "Transfer", "initialize", "a", "init_account", "", "über"}

func genDef(r *R) *vdef {
	s := r.S
	v := &vdef{e: GenEnc(r), k: bin.TypeIDEncoding(s.N(5))}
	n := 1 + s.N(8)
	wide := s.P(6) && v.k != bin.NoTypeIDEncoding
	if wide {
		n = []int{127, 128, 129, 130, 200, 255, 256, 300}[s.N(8)]
		if v.k == bin.Uint8TypeIDEncoding && n > 256 {
			n = 256
		}
		if s.P(150) && (v.k == bin.Uvarint32TypeIDEncoding || v.k == bin.Uint32TypeIDEncoding) {
			r.Hit("more types than 14 or 16 bits can number")
			n = []int{16384, 16385, 32769, 65536, 65537, 70000}[s.N(6)]
		}
	}
	if v.k == bin.NoTypeIDEncoding {
		n = 1
	}
	cfg := model.GenCfg(s, v.e)
	var pool []*model.Schema
	for len(pool) < min(n, 8) {
		sc := model.GenTop(s, cfg)
		if sc.K == model.KPtr || sc.K == model.KAny {
			continue
		}
		pool = append(pool, sc)
	}
	if s.P(4) {
		// a payload without any bytes
		pool[s.N(len(pool))] = model.SchemaOf(reflect.TypeOf(struct{}{}))
	}
	ptrs := s.N(3)
	var reg []bin.VariantType
	for i := 0; i < n; i++ {
		t := vtype{name: fmt.Sprintf("t%d", i), sc: pool[i%len(pool)], ptr: ptrs == 0 || ptrs == 1 && i%2 == 0}
		if i < len(vnames) && n <= 8 {
			t.name = vnames[i]
		}
		v.types = append(v.types, t)
		z := reflect.New(t.sc.T)
		var x interface{} = z.Elem().Interface()
		if t.ptr {
			x = z.Interface()
			if i%3 == 0 {
				x = reflect.Zero(z.Type()).Interface()
			}
		}
		reg = append(reg, bin.VariantType{Name: t.name, Type: x})
	}
	r.Call("NewVariantDefinition", 50_000_000, func() { v.def = bin.NewVariantDefinition(v.k, reg) })
	r.Shape(uint64(v.k), uint64(v.e), uint64(n), shapeOf(pool[0], 0))
	// the definition keeps its own record of the types
	for i := range reg {
		reg[i] = bin.VariantType{Name: "gone", Type: 0}
	}
	return v
}

// vread is one reader's input.
type vread struct {
	b      []byte
	starts []int
	order  []int // where to go on after a failure
	fresh  bool
}

func (v *vdef) stream(r *R) *vread {
	s := r.S
	x := &vread{fresh: s.Bool()}
	cfg := model.GenCfg(s, v.e)
	n := 1 + s.N(8)
	for i := 0; i < n; i++ {
		x.starts = append(x.starts, len(x.b))
		k := s.N(len(v.types))
		if len(v.types) > 8 && s.Bool() {
			k = []int{0, 126, 127, 128, 129, 254, 255, 256}[s.N(8)]
			if len(v.types) > 300 {
				k = []int{0, 255, 256, 16383, 16384, 32767, 32768, 65535, 65536, 69999}[s.N(10)]
			}
			if k >= len(v.types) {
				k = len(v.types) - 1
			}
		}
		id := v.wire(k)
		switch s.W(10, 2, 1) {
		case 1: // an identifier nobody registered
			r.Fault("unregistered identifier")
			switch v.k {
			case bin.Uvarint32TypeIDEncoding:
				id = model.AppUvarint(nil, []uint64{uint64(len(v.types)), 1 << 32, 1<<32 + uint64(k), 1 << 63, math.MaxUint32, 1<<35 + 1, 0x80, 1 << 20}[s.N(8)])
			case bin.Uint32TypeIDEncoding:
				id = model.AppU(nil, []uint64{uint64(len(v.types)), 1<<31 + uint64(k), 1<<24 + uint64(k), uint64(len(v.types)+255)&^255 + uint64(k), math.MaxUint32, 1<<16 + uint64(k)}[s.N(6)], 4, s.Bool())
			case bin.Uint8TypeIDEncoding:
				id = []byte{byte(len(v.types))}
			case bin.AnchorTypeIDEncoding:
				id = append([]byte(nil), id...)
				id[s.N(8)] ^= 1 << uint(s.N(8))
			}
		case 2: // an overlong identifier
			if v.k == bin.Uvarint32TypeIDEncoding {
				r.Fault("overlong identifier")
				id = append([]byte(nil), id...)
				for j := s.N(4); j >= 0 && len(id) < 9; j-- {
					id[len(id)-1] |= 0x80
					id = append(id, 0)
				}
			}
		}
		x.b = append(x.b, id...)
		sc := v.types[k].sc
		val := model.GenVal(s, cfg, sc)
		b, ok := model.Bytes(sc, &val, v.e)
		if !ok {
			panic("model: not encodable")
		}
		x.b = append(x.b, b...)
	}
	if s.P(3) {
		x.b = damage(r, x.b, nil)
	} else if s.P(3) {
		// the data ends inside an identifier, or just before one
		if at := x.starts[s.N(n)] + s.N(8); at < len(x.b) {
			r.Fault("cut identifier")
			x.b = x.b[:at:at]
		}
	}
	for i := 0; i < n+2; i++ {
		x.order = append(x.order, s.N(n))
	}
	return x
}

func runC11(r *R) {
	s := r.S
	v := genDef(r)
	r.Logf("definition: identifiers %d, %s, %d types", v.k, v.e, len(v.types))
	for i, t := range v.types {
		if i < 8 {
			r.Logf("  %q ptr=%v %s", t.name, t.ptr, clip(t.sc.String(), 300))
		}
		w := v.wire(i)
		var id bin.TypeID
		r.Call("TypeID", 1_000_000, func() { id = v.def.TypeID(t.name) })
		var want bin.TypeID
		copy(want[:], w)
		if id != want {
			r.Fail("type-id", "type %d %q: the definition's identifier is %x, expected %x", i, t.name, id, want)
		}
	}
	nt := 1
	if s.Bool() && !r.task {
		nt = 2 + s.N(2)
	}
	var rs []*vread
	total := 0
	for i := 0; i < nt; i++ {
		x := v.stream(r)
		rs = append(rs, x)
		total += len(x.b)
	}
	weight := 0
	for _, t := range v.types[:min(8, len(v.types))] {
		if w := t.sc.Weight(); w > weight {
			weight = w
		}
	}
	bud := 20_000_000 + 4000*uint64(weight)*uint64(total+64)
	if nt == 1 {
		r.Call("UnmarshalBinaryVariant", bud, func() { v.read(r, rs[0], 0) })
		return
	}
	var fns []func()
	for i := range rs {
		i := i
		fns = append(fns, func() { v.read(r, rs[i], i) })
	}
	sc := r.Sched(200 * nt * 8)
	vs.Budget(bud)
	ts := vs.Run(fns, nil, sc)
	vs.Budget(1 << 40)
	for i, t := range ts {
		if t.Panic != nil {
			r.blame(fmt.Sprintf("reader %d", i), t.Panic, string(t.Stack))
		}
	}
}

// read consumes one stream.
func (v *vdef) read(r *R, x *vread, who int) {
	d := newDecoder(v.e, x.b)
	var bv bin.BaseVariant
	type kept struct {
		impl interface{}
		sc   *model.Schema
		want model.Val
		at   int
	}
	var all []kept
	n := 0
	for step := 0; step < len(x.starts)+3; step++ {
		at := int(d.Position())
		k, idn, st := v.id(x.b[at:])
		var want model.Val
		var md *model.Dec
		if st != refBad {
			md = &model.Dec{B: x.b, Pos: at + idn, E: v.e}
			var ok bool
			if want, ok = md.Decode(v.types[k].sc); !ok {
				st = refBad
			} else if md.Lenient || md.Dup {
				st = refMay
			}
		}
		if x.fresh {
			bv = bin.BaseVariant{}
		}
		err := bv.UnmarshalBinaryVariant(d, v.def)
		vs.Quiet(func() {
			r.Logf("reader %d at %d of %d %x: %v, type id %x, position %d", who, at, len(x.b), clip(string(x.b[at:]), 10), err, bv.TypeID, d.Position())
			r.Ev(b2u(err == nil), uint64(d.Position()))
		})
		if err != nil {
			if st == refOK {
				r.Fail("refused", "reader %d: reading the variant at %d (type %d %q) returned %q", who, at, k, v.types[k].name, err)
			}
			if p := d.Position(); p > uint(len(x.b)) || p < uint(at) {
				r.Fail("position", "reader %d: a failed read at %d left the position at %d of %d", who, at, p, len(x.b))
			}
			// go on at the start of some message
			to := x.starts[x.order[n%len(x.order)]]
			n++
			if d.SetPosition(uint(to)) != nil {
				break
			}
			continue
		}
		if st == refBad {
			r.Fail("accepted", "reader %d: the bytes at %d (%x) hold no registered variant, but reading gave type id %x and %T", who, at, clip(string(x.b[at:]), 24), bv.TypeID, bv.Impl)
		}
		t := v.types[k]
		var id bin.TypeID
		copy(id[:], v.wire(k))
		gid, gname, gimpl := bv.Obtain(v.def)
		if bv.TypeID != id || gid != id {
			r.Fail("type-id", "reader %d: the variant at %d has identifier %x, recorded %x, obtained %x", who, at, id, bv.TypeID, gid)
		}
		if gname != t.name {
			r.Fail("name", "reader %d: the variant at %d is %q, obtained name %q", who, at, t.name, gname)
		}
		wt := t.sc.T
		if t.ptr {
			wt = reflect.PtrTo(wt)
		}
		if gt := reflect.TypeOf(gimpl); gt != wt {
			r.Fail("wrong-type", "reader %d: the variant at %d was registered as %v, decoded as %v", who, at, wt, gt)
		}
		if p := d.Position(); p != uint(md.Pos) {
			r.Fail("consumed", "reader %d: the variant at %d ends at %d, reading stopped at %d", who, at, md.Pos, p)
		}
		if md.NaNKey {
			continue
		}
		all = append(all, kept{gimpl, t.sc, want, at})
		if step%4 == 3 {
			// what is assigned is what is obtained
			var w bin.BaseVariant
			w.Assign(gid, gimpl)
			aid, aname, aimpl := w.Obtain(v.def)
			if aid != gid || aname != t.name || reflect.TypeOf(aimpl) != wt || t.ptr && reflect.ValueOf(aimpl).Pointer() != reflect.ValueOf(gimpl).Pointer() {
				r.Fail("assign", "a variant assigned %x and a %v gives back %x %q and a %T", gid, wt, aid, aname, aimpl)
			}
		}
	}
	// earlier payloads are not disturbed by later reads
	vs.Quiet(func() {
		for _, y := range all {
			rv := reflect.ValueOf(y.impl)
			if rv.Kind() == reflect.Ptr && rv.Type() != y.sc.T {
				rv = rv.Elem()
			}
			got := model.FromGo(y.sc, rv)
			if df := model.Diff(y.sc, &y.want, &got, true); df != "" {
				r.Fail("wrong-data", "reader %d: payload of the variant at %d: %s; type %s", who, y.at, df, clip(y.sc.String(), 300))
			}
		}
	})
}

// viaVariant decodes one payload as the only variant of a definition.
func viaVariant(d *bin.Decoder, out reflect.Value) error {
	def := bin.NewVariantDefinition(bin.NoTypeIDEncoding, []bin.VariantType{{Name: "x", Type: out.Elem().Interface()}})
	var bv bin.BaseVariant
	if err := bv.UnmarshalBinaryVariant(d, def); err != nil {
		return err
	}
	if reflect.TypeOf(bv.Impl) != out.Type().Elem() {
		return errors.New("wrong type")
	}
	out.Elem().Set(reflect.ValueOf(bv.Impl))
	return nil
}
