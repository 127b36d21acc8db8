package props

import (
	"reflect"
	"runtime"
	"runtime/metrics"

	bin "github.com/gagliardetto/binary"

	"verif.local/dst/model"
)

func init() {
	register(&Prop{ID: "C04", Title: "Torn records", Run: runC04,
		Rule: "one run stores up to 3 complete records and one that was cut by a crash or an interrupted delivery, at every byte if it is short and at drawn and boundary bytes otherwise, with stale bytes of the lost part behind the end of the buffer or not; " +
			"readers use one decoder, a fresh one, the helpers or a target filled before. Non-trivial: a cut happened. Distinct: different shapes, encodings and kinds of reader.",
		Real: "Decoder and every codec of the library", Stub: "storage (cut), user codecs", Quick: 240000, Thor: 5000000, Huge: 300})
	register(&Prop{ID: "C05", Title: "Damaged input", Run: runC05,
		Rule: "one run damages the encoding of a record up to 6 times (bit flips, overwrites, drops, insertions, moved blocks, hostile lengths and tags, cuts, foreign records) and decodes it, up to 6 attempts; " +
			"non-trivial: the bytes were changed. Distinct: different shapes, encodings and damages.",
		Real: "Decoder and every codec of the library", Stub: "storage (damage), user codecs", Quick: 1000000, Thor: 18000000, Huge: 1500})
}

func runC04(r *R) {
	s := r.S
	var cfgs [3]*model.Cfg
	get := func(e model.Enc) *model.Cfg {
		if cfgs[e] == nil {
			cfgs[e] = model.GenCfg(s, e)
		}
		return cfgs[e]
	}
	var before []*Rec
	var pre []byte
	huge := r.huge
	r.huge = 0
	for i := s.N(3); i > 0; i-- {
		e := GenEnc(r)
		c := GenRec(r, e, get(e), true)
		b, ok := c.Bytes()
		if !ok {
			panic("model: not encodable: " + c.String())
		}
		before = append(before, c)
		pre = append(pre, b...)
	}
	r.huge = huge
	e := GenEnc(r)
	c := GenRec(r, e, get(e), true)
	full, ok := c.Bytes()
	if !ok {
		panic("model: not encodable: " + c.String())
	}
	if len(full) == 0 {
		return
	}
	r.Logf("%d bytes of earlier records, then %v: %x", len(pre), c, clip(string(full), 120))
	var cuts []int
	if len(full) <= 24 {
		for k := range full {
			cuts = append(cuts, k)
		}
	} else {
		cuts = append(cuts, len(full)-1, 0)
		for i := 0; i < 10; i++ {
			cuts = append(cuts, s.N(len(full)))
		}
	}
	var old reflect.Value
	mode := s.N(5)
	if mode == 3 && c.Op == nil {
		old = reflect.New(c.S.T)
	}
	for _, k := range cuts {
		all := append(append([]byte(nil), pre...), full...)
		buf := all[:len(pre)+k]
		stale := s.Bool()
		if !stale {
			buf = append(make([]byte, 0, len(buf)), buf...)
		}
		r.Fault("record cut")
		r.Logf("cut after %d of %d bytes (stale bytes behind: %v, reader %d)", k, len(full), stale, mode)
		d := newDecoder(model.Bin, buf)
		if mode == 1 {
			d = bin.NewDecoderWithEncoding(nil, e.Lib())
			d.Reset(buf)
		}
		for _, b := range before {
			d.SetEncoding(b.E.Lib())
			var diff string
			var err error
			r.Call("reading "+b.String(), b.Budget(len(all)), func() { diff, err = b.Read(d) })
			if err != nil || diff != "" {
				r.Fail("earlier-record", "a complete record before the torn one is not read back: %v: %v %s", b, err, diff)
			}
		}
		d.SetEncoding(e.Lib())
		md := &model.Dec{B: buf, Pos: len(pre), E: e}
		var want model.Val
		wantOK := false
		if c.Op == nil {
			want, wantOK = md.Decode(c.S)
			if wantOK && !c.S.HasExt() {
				panic("model: a strict prefix decodes: " + c.String())
			}
		}
		var err error
		var diff string
		var got reflect.Value
		pos := -1
		r.Call("reading the torn "+c.String(), c.Budget(len(all)), func() {
			switch {
			case c.Op != nil:
				diff, err = c.Op.Read(d)
				pos = int(d.Position())
			case mode == 2:
				got = reflect.New(c.S.T)
				err = unmarshal(e, got.Interface(), buf[len(pre):])
			case mode == 3:
				got = old
				err = d.Decode(got.Interface())
				pos = int(d.Position())
			default:
				got = reflect.New(c.S.T)
				err = d.Decode(got.Interface())
				pos = int(d.Position())
			}
		})
		r.Ev(uint64(k), b2u(err == nil))
		if pos >= 0 && (pos < len(pre) || pos > len(buf)) {
			r.Fail("position", "after the torn read the position is %d, the data ends at %d", pos, len(buf))
		}
		if wantOK {
			r.Hit("cut at the start of an extension field")
			if err != nil {
				r.Fail("extension", "the record is cut exactly at an extension field, but reading it fails: %v: %v", err, c)
			}
			if mode != 3 {
				v := model.FromGo(c.S, got.Elem())
				if df := model.Diff(c.S, &want, &v, true); df != "" {
					r.Fail("extension", "cut at an extension field: %s: %v", df, c)
				}
			}
			continue
		}
		if err == nil {
			what := diff
			if c.Op == nil {
				v := model.FromGo(c.S, got.Elem())
				what = "value " + model.Show(c.S, &v)
			}
			r.Fail("torn-accepted", "only %d of the %d bytes are there, but reading the record succeeds (%s): %v", k, len(full), what, c)
		}
	}
}

// ---- C05 ----

var hostile = [][]byte{
	{0xff, 0xff, 0xff, 0xff}, {0xff, 0xff, 0xff, 0x7f}, {0, 0, 0, 0x80}, {0xff, 0xff, 0, 0}, {0, 0, 1, 0}, {0, 0, 0, 1},
	{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, {0, 0, 0, 0, 0, 0, 0, 0x80}, {0xff, 0xff, 0xff, 0x7f, 0, 0, 0, 0}, {0, 0, 0, 0, 1, 0, 0, 0},
	{0xff, 0xff, 0xff, 0xff, 0x07}, {0x80, 0x80, 0x80, 0x80, 0x08}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01},
	{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f}, {0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80},
	{0xff, 0xff, 0x03}, {0xff, 0xff, 0x04}, {0x80, 0x80, 0x00}, {0x80, 0x00}, {0xff, 0xff, 0xff}, {0x80, 0x80, 0x80, 0x01}, {0x80, 0x80, 0x04},
	{0, 0, 0xc0, 0x7f}, {0, 0, 0, 0, 0, 0, 0xf8, 0x7f}, {2}, {0xff}, {0x80}, {2, 0, 0, 0}, {0, 1, 0, 0}, {0xfe, 0xff, 0xff, 0xff},
}

// damage changes bytes; kinds are counted as faults.
func damage(r *R, b []byte, other []byte) []byte {
	s := r.S
	b = append([]byte(nil), b...)
	n := len(b)
	at := func() int { return s.N(len(b) + 1) }
	seg := func() (int, int) {
		if len(b) == 0 {
			return 0, 0
		}
		i := s.N(len(b))
		l := 1 + s.N(min(8, len(b)-i))
		if s.P(5) {
			l = 1 + s.N(len(b)-i)
		}
		return i, i + l
	}
	switch s.N(11) {
	case 0:
		if n > 0 {
			i := s.N(n)
			b[i] ^= 1 << uint(s.N(8))
		}
		r.Fault("bit flip")
	case 1:
		if n > 0 {
			b[s.N(n)] = []byte{0, 1, 2, 0x7f, 0x80, 0xff, 3, 0x81}[s.N(8)]
		}
		r.Fault("byte overwritten")
	case 2:
		h := hostile[s.N(len(hostile))]
		i := at()
		copy(b[i:], h)
		r.Fault("hostile length or tag")
	case 3:
		h := hostile[s.N(len(hostile))]
		i := at()
		b = append(append(append([]byte(nil), b[:i]...), h...), b[i:]...)
		r.Fault("hostile length or tag inserted")
	case 4:
		i, j := seg()
		b = append(append([]byte(nil), b[:i]...), b[j:]...)
		r.Fault("bytes dropped")
	case 5:
		i := at()
		f := make([]byte, 1+s.N(12))
		s.Bulk().Fill(f)
		b = append(append(append([]byte(nil), b[:i]...), f...), b[i:]...)
		r.Fault("bytes inserted")
	case 6:
		i, j := seg()
		x := append([]byte(nil), b[i:j]...)
		k := at()
		b = append(append(append([]byte(nil), b[:k]...), x...), b[k:]...)
		r.Fault("bytes duplicated")
	case 7:
		i, j := seg()
		for k := i; k < j; k++ {
			b[k] = 0
		}
		r.Fault("bytes zeroed")
	case 8:
		b = b[:at()]
		r.Fault("cut")
	case 9:
		k := 0
		if len(other) > 0 {
			k = s.N(len(other))
		}
		i := at()
		b = append(b[:i:i], other[k:]...)
		r.Fault("misplaced bytes of another record")
	default:
		f := make([]byte, s.N(40))
		s.Bulk().Fill(f)
		b = f
		r.Fault("garbage")
	}
	return b
}

var allocSample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

func allocated() uint64 {
	metrics.Read(allocSample)
	return allocSample[0].Value.Uint64()
}

func runC05(r *R) {
	s := r.S
	if s.P(500) {
		deepRefused(r)
		return
	}
	e := GenEnc(r)
	cfg := model.GenCfg(s, e)
	c := GenRec(r, e, cfg, false)
	full, ok := c.Bytes()
	if !ok {
		panic("model: not encodable: " + c.String())
	}
	var other []byte
	if s.P(3) {
		e2 := GenEnc(r)
		o := GenRec(r, e2, model.GenCfg(s, e2), false)
		other, _ = o.Bytes()
	}
	n := 1 + s.N(6)
	for i := 0; i < n; i++ {
		b := full
		for k := s.N(3); k >= 0; k-- {
			b = damage(r, b, other)
		}
		pre := 0
		if s.P(4) {
			// position somewhere inside a larger buffer
			pre = 1 + s.N(9)
			b = append(make([]byte, pre), b...)
		}
		r.Logf("decode %x (%d bytes, position %d) as %s %s", clip(string(b), 200), len(b), pre, e, clip(c.S.String(), 600))
		decodeDamaged(r, e, c.S, b, pre, s.N(3))
	}
}

// decodeDamaged decodes bytes of unknown content and judges the outcome.
func decodeDamaged(r *R, e model.Enc, sc *model.Schema, b []byte, pre, mode int) {
	md := &model.Dec{B: b, Pos: pre, E: e}
	want, wantOK := md.Decode(sc)
	if wantOK {
		r.Hit("damaged bytes still denote a value")
	}
	keep := string(b)
	got := reflect.New(sc.T)
	var err error
	pos := -1
	var a0, a1 uint64
	if mode == 2 && pre > 0 {
		mode = 0
	}
	r.Call("decoding damaged bytes", budget(sc, len(b)), func() {
		switch mode {
		case 2:
			a0 = allocated()
			err = unmarshal(e, got.Interface(), b)
			a1 = allocated()
		default:
			d := newDecoder(e, b)
			if mode == 1 {
				d = bin.NewDecoderWithEncoding(nil, e.Lib())
				d.Reset(b)
			}
			if pre > 0 {
				if err = d.SkipBytes(uint(pre)); err != nil {
					r.Fail("skip", "skipping %d of %d bytes failed: %v", pre, len(b), err)
				}
			}
			a0 = allocated()
			err = d.Decode(got.Interface())
			a1 = allocated()
			pos = int(d.Position())
		}
	})
	if string(b) != keep {
		r.Fail("input-modified", "decoding changed the input bytes")
	}
	// the counter jumps when a collection happens to flush it, so measure again
	limit := uint64(256<<10) + 64*uint64(len(b)+1)*uint64(sc.Bulk()+64)
	for i := 0; i < 4 && a1-a0 > limit; i++ {
		r.Call("decoding damaged bytes", budget(sc, len(b)), func() {
			d := newDecoder(e, b)
			d.SkipBytes(uint(pre))
			t := reflect.New(sc.T)
			runtime.GC()
			a0 = allocated()
			d.Decode(t.Interface())
			a1 = allocated()
		})
	}
	if a1-a0 > limit {
		r.Fail("over-allocation", "decoding %d bytes allocated more than %d bytes (error %s); type %s", len(b), limit, errText(err), clip(sc.String(), 600))
	}
	r.Ev(b2u(err == nil))
	if pos >= 0 && (pos < pre || pos > len(b)) {
		r.Fail("position", "after decoding (error %v) the position is %d, it began at %d in a buffer of %d", err, pos, pre, len(b))
	}
	if err != nil {
		r.Logf("  -> %s", errText(err))
		return
	}
	r.Hit("damaged bytes accepted")
	v := model.FromGo(sc, got.Elem())
	if !wantOK {
		r.Fail("accepted", "these bytes hold no such value, but decoding gave %s; bytes %x; type %s", model.Show(sc, &v), clip(keep, 200), clip(sc.String(), 600))
	}
	if pos >= 0 && pos != md.Pos {
		r.Fail("consumed", "the value has %d bytes, decoding consumed %d; bytes %x; type %s", md.Pos-pre, pos-pre, clip(keep, 200), clip(sc.String(), 600))
	}
	if md.NaNKey {
		return
	}
	if df := model.Diff(sc, &want, &v, true); df != "" {
		r.Fail("wrong-data", "%s; bytes %x; type %s", df, clip(keep, 200), clip(sc.String(), 600))
	}
}
