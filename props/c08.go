package props

import (
	"bytes"
	"reflect"

	"verif.local/dst/model"
	"verif.local/dst/vs"
)

func init() {
	register(&Prop{ID: "C08", Title: "Map order", Run: runC08,
		Rule: "one run encodes one value holding maps at any depth up to six times: each time every map is rebuilt through its own history of insertions, overwrites and deletions and the runtime's key enumeration is replaced by a drawn order (ascending, descending or random), with a failing writer in between; every result is compared with the reference encoding and decoded. " +
			"Non-trivial: the enumeration order was changed. Distinct: different value shape, encoding, order modes and faults.",
		Real: "the three encoders and decoders, byte-count helpers", Stub: "map key enumeration (redirected at build time), io.Writer, user codecs", Quick: 200000, Thor: 5000000, Huge: 300})
}

func runC08(r *R) {
	s := r.S
	e := []model.Enc{model.Borsh, model.Bin, model.Compact, model.Borsh}[s.N(4)]
	cfg := model.GenCfg(s, e)
	cfg.MapTop = true
	c := GenRec(r, e, cfg, false)
	want, ok := c.Bytes()
	if !ok {
		panic("model: not encodable: " + c.String())
	}
	if !c.S.HasMap() {
		r.Hit("value without a map")
	}
	n := 2 + s.N(5)
	for i := 0; i < n; i++ {
		mode, seed := uint64(s.N(3)), uint64(s.N(1<<16))
		vs.MapOrder(mode, seed)
		r.Shape(mode)
		if mode > 0 && c.S.HasMap() {
			r.Fault([]string{"", "keys enumerated in descending order", "keys enumerated in random order"}[mode])
		}
		rv := model.GoHist(c.S, &c.V, s.Bulk())
		var arg interface{}
		if c.Ptr {
			arg = rv.Addr().Interface()
		} else {
			arg = rv.Interface()
		}
		if i := loose(r, c, rv); i != nil {
			arg = i
		}
		var got []byte
		var err error
		cut := false
		how := s.W(3, 3, 2)
		switch how {
		case 0:
			r.Call("Marshal", c.Budget(len(want)), func() { got, err = marshal(e, arg) })
		case 1:
			var b bytes.Buffer
			r.Call("Encode", c.Budget(len(want)), func() { err = newEncoder(e, &b).Encode(arg) })
			got = b.Bytes()
		default:
			d := newDev(r)
			d.arm(s, len(want))
			r.Call("Encode", c.Budget(len(want)), func() { err = anyEncoder(r, e, d).Encode(arg) })
			got = d.Data
			cut = d.Err != nil
		}
		r.Logf("order mode %d seed %d, how %d: %s -> %x, %v", mode, seed, how, c, clip(string(got), 100), err)
		r.EvB(got)
		m, at := model.Match(c.Segs(), got)
		if e == model.Borsh && m != model.Bad && !bytes.Equal(got, want[:min(len(got), len(want))]) {
			panic("model: two Borsh encodings")
		}
		if m == model.Bad {
			r.Fail("wrong-bytes", "%v under enumeration mode %d gave %x, expected %x (or another order of the same entries); they differ at byte %d", c, mode, clip(string(got), 200), clip(string(want), 200), at)
		}
		if cut {
			continue
		}
		if err != nil {
			r.Fail("refused", "%v under enumeration mode %d returned %q", c, mode, err)
		}
		if m != model.Full || len(got) != len(want) {
			r.Fail("wrong-bytes", "%v under enumeration mode %d gave %d bytes, expected %d", c, mode, len(got), len(want))
		}
		if s.P(3) {
			var k uint64
			r.Call("ByteCount", c.Budget(len(want)), func() { k, err = byteCount(e, arg) })
			if err != nil || k != uint64(len(want)) {
				r.Fail("byte-count", "%v under enumeration mode %d: the byte count is %d (%v), the encoding has %d bytes", c, mode, k, err, len(want))
			}
		}
		out := reflect.New(c.S.T)
		d := newDecoder(e, got)
		r.Call("Decode", c.Budget(len(want)), func() { err = d.Decode(out.Interface()) })
		if err != nil {
			r.Fail("unreadable", "%v under enumeration mode %d: decoding %x returned %q", c, mode, clip(string(got), 200), err)
		}
		if df := c.Check(out.Elem()); df != "" {
			r.Fail("read-back", "%v under enumeration mode %d: %s", c, mode, df)
		}
		if d.Remaining() != 0 {
			r.Fail("read-back", "%v: %d bytes left after decoding", c, d.Remaining())
		}
		// the map itself is not changed by encoding it
		after := model.FromGo(c.S, rv)
		if df := model.Diff(c.S, &c.V, &after, true); df != "" {
			r.Fail("value-changed", "%v: encoding changed the value: %s", c, df)
		}
	}
}

// loose gives a map as one with keys, and sometimes values, of interface
// type: the same entries, so the same encoding.
func loose(r *R, c *Rec, rv reflect.Value) interface{} {
	s := r.S
	if c.S.K != model.KMap || !s.P(4) {
		return nil
	}
	switch rv.Type().Key().Kind() {
	case reflect.Bool, reflect.Array, reflect.Struct:
		return nil
	}
	et := rv.Type().Elem()
	if s.P(3) && et.Kind() != reflect.Ptr && et.Kind() != reflect.Interface {
		et = anyType
	}
	m := reflect.MakeMap(reflect.MapOf(anyType, et))
	for _, k := range rv.MapKeys() {
		m.SetMapIndex(k, rv.MapIndex(k))
	}
	r.Hit("map with interface keys")
	r.Shape(77)
	if c.Ptr {
		p := reflect.New(m.Type())
		p.Elem().Set(m)
		return p.Interface()
	}
	return m.Interface()
}

var anyType = reflect.TypeOf((*interface{})(nil)).Elem()
