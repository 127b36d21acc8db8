package props

import (
	"bytes"
	"errors"
	"reflect"

	bin "github.com/gagliardetto/binary"

	"verif.local/dst/model"
	"verif.local/dst/vs"
)

func init() {
	register(&Prop{ID: "C09", Title: "Reuse", Run: runC09,
		Rule: "one run sends up to 12 records of two or three types through one long-lived encoder per encoding, one decoder, one input buffer and one target variable per type, while the writer, the codecs (by error or panic) and the delivered bytes fail; whenever a record goes through unharmed, its bytes and the decoded value must be those of new encoders, decoders and variables, and values decoded earlier must survive the buffer being overwritten. " +
			"Non-trivial: a fault fired. Distinct: different sequence of record shapes, encodings and faults.",
		Real: "Encoder, Decoder, all codecs of the library", Stub: "io.Writer, delivery of bytes, user codecs", Quick: 130000, Thor: 4000000})
}

// codecFault makes one drawn codec call of the next operation fail.
func codecFault(r *R, n int) *model.ProbeCtx {
	c := &model.ProbeCtx{FailAt: -1}
	if n > 0 && r.S.P(4) {
		c.FailAt = r.S.N(n)
		c.Stage = r.S.N(3)
		c.Panic = r.S.Bool()
		c.Err = genErr(r.S)
	}
	return c
}

// guarded runs f; a panic of a user codec is its caller's business, any other is the library's.
func (r *R) guarded(what string, budget uint64, ctx *model.ProbeCtx, f func() error) (err error) {
	vs.SetMainLocal(ctx)
	pv, st := r.try(budget, func() { err = f() })
	vs.SetMainLocal(nil)
	if pv != nil {
		if cp, ok := pv.(model.CodecPanic); ok && ctx.Panic && cp.Err == ctx.Err {
			r.Fault("codec panics")
			return ctx.Err
		}
		r.blame(what, pv, st)
	}
	if ctx.Fired {
		if ctx.Panic {
			r.Fail("swallowed", "%s: the panic of a user codec did not reach the caller (error %v)", what, err)
		}
		r.Fault("codec fails")
		if err == nil {
			r.Fail("swallowed", "%s: a user codec failed, the call returned no error", what)
		}
	}
	return err
}

type held struct {
	sc   *model.Schema
	want *model.Val
	rv   reflect.Value
	s    string // for a plain read
	ws   string
	what string
}

// chain is a message of n nested values.
func chain(e model.Enc, n int) []byte {
	one := map[model.Enc][]byte{model.Bin: {7, 0, 1}, model.Compact: {7, 0, 1}, model.Borsh: {7, 0, 1, 0, 0, 0}}[e]
	b := bytes.Repeat(one, n)
	b[len(b)-len(one)+2] = 0
	return b
}

var nestLimit [3]int

// deep09 works at the nesting limit, wherever that is: a decoder that refused or
// gave up on deep messages must still take the deepest one a new decoder takes.
func deep09(r *R) {
	s := r.S
	e := GenEnc(r)
	ok := func(d *bin.Decoder, n int) bool {
		var t model.FxTree
		d.Reset(chain(e, n))
		return d.Decode(&t) == nil
	}
	if nestLimit[e] == 0 {
		vs.Quiet(func() {
			nestLimit[e] = -1
			defer func() { _ = recover() }()
			lo, hi := 100, 20000 // taken, refused
			if ok(bin.NewDecoderWithEncoding(nil, e.Lib()), hi) || !ok(bin.NewDecoderWithEncoding(nil, e.Lib()), lo) {
				return
			}
			for hi-lo > 1 {
				if m := (lo + hi) / 2; ok(bin.NewDecoderWithEncoding(nil, e.Lib()), m) {
					lo = m
				} else {
					hi = m
				}
			}
			nestLimit[e] = lo
		})
	}
	lim := nestLimit[e]
	if lim < 0 {
		return
	}
	d := bin.NewDecoderWithEncoding(nil, e.Lib())
	var t model.FxTree
	for i := 1 + s.N(3); i > 0; i-- {
		b := chain(e, lim+1+s.N(3))
		switch s.N(3) {
		case 0:
			b = b[:s.N(len(b))]
			r.Fault("deep message cut")
		case 1:
			b = b[:len(b)-1-s.N(5)]
			r.Fault("deep message cut")
		default:
			r.Fault("message beyond the nesting limit")
		}
		d.Reset(b)
		var err error
		r.Call("Decode of a deep message", 40_000_000, func() { err = d.Decode(&t) })
		if err == nil {
			r.Fail("deep", "a %s decoder took %d bytes of a message cut or nested beyond what a new decoder takes", e, len(b))
		}
	}
	r.Shape(909, uint64(e))
	d.Reset(chain(e, lim))
	var err error
	r.Call("Decode of a deep message", 40_000_000, func() { err = d.Decode(&t) })
	if err != nil || d.Remaining() != 0 {
		r.Fail("deep", "after refusing deep messages, a %s decoder returned %v (%d bytes left) for %d nested values, which a new decoder takes", e, err, d.Remaining(), lim)
	}
}

func runC09(r *R) {
	s := r.S
	if s.P(500) {
		deep09(r)
		return
	}
	var cfgs [3]*model.Cfg
	var encs [3]*bin.Encoder
	dev := newDev(r)
	getEnc := func(e model.Enc) *bin.Encoder {
		if encs[e] == nil {
			encs[e] = anyEncoder(r, e, dev)
		}
		return encs[e]
	}
	// the types in use, each with its long-lived target
	type kind struct {
		e      model.Enc
		sc     *model.Schema
		target reflect.Value
		used   bool
	}
	var kinds []*kind
	for i := 1 + s.N(3); i > 0; i-- {
		e := GenEnc(r)
		if cfgs[e] == nil {
			cfgs[e] = model.GenCfg(s, e)
			cfgs[e].NaN = s.P(6)
			if s.P(3) {
				cfgs[e].Probes, cfgs[e].ProbeTop = true, true
			}
		}
		sc := model.GenTop(s, cfgs[e])
		kinds = append(kinds, &kind{e: e, sc: sc, target: reflect.New(sc.T)})
	}
	dec := bin.NewDecoderWithEncoding(nil, kinds[0].e.Lib())
	decE := kinds[0].e
	arena := make([]byte, 0, 4096)
	var olds []held
	checkOld := func() {
		for _, h := range olds {
			if h.sc == nil {
				if h.s != h.ws {
					r.Fail("overwritten", "%s: the string %q turned into %q when the input buffer was overwritten", h.what, h.ws, h.s)
				}
				continue
			}
			got := model.FromGo(h.sc, h.rv)
			if df := model.Diff(h.sc, h.want, &got, false); df != "" {
				r.Fail("overwritten", "%s: a value decoded earlier changed when the input buffer was overwritten: %s; type %s", h.what, df, clip(h.sc.String(), 400))
			}
		}
		if len(olds) > 6 {
			olds = olds[len(olds)-6:]
		}
	}
	rounds := 1 + s.N(6)
	if s.P(4) {
		rounds += s.N(6)
	}
	for i := 0; i < rounds; i++ {
		// write one to three records of one encoding
		k0 := kinds[s.N(len(kinds))]
		e := k0.e
		enc := getEnc(e)
		type msg struct {
			c          *Rec
			k          *kind
			start, end int
			probes     int
		}
		var ms []msg
		dev.Data = dev.Data[:0]
		for j := 1 + s.N(3); j > 0; j-- {
			k := k0
			if x := kinds[s.N(len(kinds))]; x.e == e {
				k = x
			}
			c := &Rec{E: e}
			if s.P(5) {
				c.Op = GenOp(s, e, cfgs[e].NaN)
				k = nil
			} else {
				c.S = k.sc
				c.V = model.GenVal(s, cfgs[e], c.S)
				c.Go = model.Go(c.S, &c.V)
				c.Ptr = c.S.K != model.KPtr && s.Bool()
				r.Shape(uint64(e), shapeOf(c.S, 0))
			}
			want, ok := c.Bytes()
			probes := 0
			if ok && c.Op == nil && c.S.HasProbe() {
				md := &model.Dec{B: want, E: e}
				md.Decode(c.S)
				probes = len(md.Probes)
			}
			ctx := codecFault(r, probes)
			if dev.dead {
				dev.disarm()
			}
			dev.begin()
			if s.P(4) {
				dev.arm(s, len(want))
			}
			start := len(dev.Data)
			err := r.guarded(c.String(), c.Budget(c.size()), ctx, func() error { return c.Write(enc) })
			got := dev.Data[start:]
			r.Logf("%v -> %d bytes, %v", c, len(got), err)
			r.Ev(b2u(err == nil), uint64(len(got)))
			r.EvB(got)
			if m, at := model.Match(c.Segs(), got); m == model.Bad {
				r.Fail("wrong-bytes", "%v on a reused encoder wrote %x; a new one writes %x (differs at byte %d)", c, clip(string(got), 120), clip(string(want), 120), at)
			} else if err == nil && (!ok || m != model.Full) {
				r.Fail("wrong-bytes", "%v on a reused encoder wrote only %x without an error; a new one writes %x", c, clip(string(got), 120), clip(string(want), 120))
			}
			if ok && c.Op == nil {
				now := model.FromGo(c.S, c.Go)
				if df := model.Diff(c.S, &c.V, &now, true); df != "" {
					r.Fail("argument-modified", "%v changed the value it was given: %s; type %s", c, df, clip(c.S.String(), 300))
				}
			}
			if err != nil {
				if ok && dev.Err == nil && !ctx.Fired {
					r.Fail("refused", "%v on a reused encoder returned %q; nothing failed", c, err)
				}
				if !ok {
					r.Fault("unencodable value")
				}
				dev.Data = dev.Data[:start]
				continue
			}
			ms = append(ms, msg{c, k, start, len(dev.Data), probes})
		}
		if len(ms) == 0 {
			continue
		}
		// deliver into the input buffer, over the previous message
		data := append([]byte(nil), dev.Data...)
		hurt := -1
		if s.P(3) {
			hurt = s.N(len(ms))
			m := ms[hurt]
			if s.Bool() || hurt < len(ms)-1 {
				// damage that keeps the length
				if m.end > m.start {
					at := m.start + s.N(m.end-m.start)
					copy(data[at:m.end], hostile[s.N(len(hostile))])
				}
				r.Fault("delivered damaged")
			} else {
				data = data[:m.start+s.N(m.end-m.start+1)]
				if s.P(4) {
					data = data[:m.start] // nothing of it arrived
				}
				r.Fault("delivered cut")
			}
		}
		full := arena[:cap(arena)]
		for j := range full {
			full[j] ^= 0x5a
		}
		arena = append(arena[:0], data...)
		checkOld()
		if decE != e {
			dec.SetEncoding(e.Lib())
			decE = e
		}
		r.Call("Reset", 0, func() { dec.Reset(arena) })
		n := len(ms)
		seq := make([]int, 0, n+2)
		for j := 0; j < n; j++ {
			seq = append(seq, j)
		}
		for j := s.N(3); j > 0; j-- { // read some again
			seq = append(seq, s.N(n))
		}
		for _, j := range seq {
			m := ms[j]
			var err error
			if m.start > len(arena) {
				continue // nothing left of it
			}
			r.Call("SetPosition", 0, func() {
				switch {
				case m.start < len(arena):
					err = dec.SetPosition(uint(m.start))
				case len(arena) == 0:
					dec.Reset(arena)
				default: // the end is reached by skipping
					if err = dec.SetPosition(0); err == nil {
						err = dec.SkipBytes(uint(m.start))
					}
				}
			})
			if err != nil {
				r.Fail("seek", "SetPosition(%d) in %d bytes: %v", m.start, len(arena), err)
			}
			if m.start == len(arena) {
				r.Hit("read from an empty rest")
			}
			readOne09(r, dec, e, m.c, m.start, m.end, m.probes, arena, hurt == j, func() (t reflect.Value, own bool) {
				if m.k == nil {
					return reflect.Value{}, false
				}
				if s.N(3) == 0 {
					return reflect.New(m.c.S.T), true
				}
				if m.k.used {
					r.Hit("decoded into a used target")
				}
				m.k.used = true
				return m.k.target, false
			}, &olds)
		}
	}
	for j := range arena {
		arena[j] ^= 0xff
	}
	checkOld()
}

func readOne09(r *R, dec *bin.Decoder, e model.Enc, c *Rec, start, end, probes int, arena []byte, hurt bool, target func() (reflect.Value, bool), olds *[]held) {
	s := r.S
	what := c.String()
	if c.Op != nil {
		var df string
		var err error
		r.Call(what, 1_000_000+200*uint64(len(arena)), func() { df, err = c.Op.Read(dec) })
		r.Logf("read %s at %d: %q %v", what, start, df, err)
		r.Ev(b2u(err == nil), hs(df))
		if !hurt {
			if err != nil || df != "" {
				r.Fail("read-back", "%s read from a reused decoder: %v %s", what, err, df)
			}
			if dec.Position() != uint(end) {
				r.Fail("position", "%s read from a reused decoder ended at %d, expected %d", what, dec.Position(), end)
			}
			return
		}
		// the same read on a new decoder
		d2 := newDecoder(e, append([]byte(nil), arena...))
		d2.SkipBytes(uint(start))
		df2, err2 := c.Op.Read(d2)
		if df != df2 || (err == nil) != (err2 == nil) || dec.Position() != d2.Position() {
			r.Fail("read-back", "%s: a reused decoder gave %q, %v at %d, a new one %q, %v at %d", what, df, err, dec.Position(), df2, err2, d2.Position())
		}
		return
	}
	t, own := target()
	fresh := t.Elem().IsZero()
	if s.P(5) && c.S.K == model.KStruct {
		// a failed read first
		ctx := codecFault(r, probes)
		if ctx.FailAt >= 0 {
			err := r.guarded("Decode", c.Budget(len(arena)), ctx, func() error { return dec.Decode(t.Interface()) })
			r.Logf("decode %s with codec call %d failing: %v", what, ctx.FailAt, err)
			if start < len(arena) {
				err = dec.SetPosition(uint(start))
			} else {
				dec.Reset(arena)
				err = dec.SkipBytes(uint(start))
			}
			if err != nil {
				r.Fail("seek", "SetPosition(%d): %v", start, err)
			}
			fresh = false
		}
	}
	var err error
	r.Call("Decode "+what, c.Budget(len(arena)), func() { err = dec.Decode(t.Interface()) })
	r.Logf("decode %s at %d, target new %v, damaged %v: %v, position %d", what, start, fresh, hurt, err, dec.Position())
	r.Ev(b2u(err == nil), uint64(dec.Position()))
	got := model.FromGo(c.S, t.Elem())
	if !hurt {
		if err != nil {
			r.Fail("unreadable", "%s on a reused decoder: %v", what, err)
		}
		if dec.Position() != uint(end) {
			r.Fail("position", "%s read from a reused decoder ended at %d, expected %d", what, dec.Position(), end)
		}
		if df := model.Diff(c.S, c.Norm(), &got, true); df != "" {
			how := "a used target"
			if fresh {
				how = "a new target"
			}
			r.Fail("left-over", "%s read by a reused decoder into %s: %s", what, how, df)
		}
		if own {
			*olds = append(*olds, held{sc: c.S, want: c.Norm(), rv: t.Elem(), what: what})
		}
		return
	}
	// damaged: a new decoder and target decide
	d2 := newDecoder(e, append([]byte(nil), arena...))
	var err2 error
	t2 := reflect.New(c.S.T)
	r.Call("Decode "+what, c.Budget(len(arena)), func() {
		d2.SkipBytes(uint(start))
		err2 = d2.Decode(t2.Interface())
	})
	if (err == nil) != (err2 == nil) || dec.Position() != d2.Position() {
		r.Fail("read-back", "damaged %s: a reused decoder gave %v at %d, a new one %v at %d", what, err, dec.Position(), err2, d2.Position())
	}
	if err != nil {
		if err.Error() != err2.Error() && !errors.Is(err, model.ErrProbe) {
			r.Fail("read-back", "damaged %s: a reused decoder returned %q, a new one %q", what, err, err2)
		}
		return
	}
	if c.S.HasExt() && !fresh {
		return
	}
	md := &model.Dec{B: arena, Pos: start, E: e}
	md.Decode(c.S)
	if md.NaNKey {
		return
	}
	want := model.FromGo(c.S, t2.Elem())
	if df := model.Diff(c.S, &want, &got, true); df != "" {
		r.Fail("left-over", "damaged %s: a reused decoder and target differ from new ones: %s", what, df)
	}
}
