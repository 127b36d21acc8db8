package props

import (
	"errors"
	"reflect"

	bin "github.com/gagliardetto/binary"

	"verif.local/dst/model"
	"verif.local/dst/vs"
)

func init() {
	register(&Prop{ID: "C12", Title: "User codecs", Run: runC12,
		Rule: "one run encodes and decodes a record full of user codecs (behind pointers, optionals, arrays, slices, map keys and values, enums, codecs calling back) at some offset in a session: once cleanly, then up to four more times with one drawn codec call failing before, between or after its transfers, the writer failing inside one, or the input cut; the recorded calls, offsets, bytes and errors are compared with the reference. " +
			"Non-trivial: a fault fired. Distinct: different record shape, encoding and fault placement.",
		Real: "the three encoders and decoders with every field tag", Stub: "user codecs, io.Writer", Quick: 800000, Thor: 14000000})
}

func callsOf(cs []model.Call) []model.ProbeAt {
	out := make([]model.ProbeAt, len(cs))
	for i, c := range cs {
		out[i] = model.ProbeAt{V: c.V, Pos: c.Pos}
	}
	return out
}

func sameCalls(a, b []model.ProbeAt) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func runC12(r *R) {
	s := r.S
	e := GenEnc(r)
	cfg := model.GenCfg(s, e)
	cfg.Probes, cfg.ProbeTop = true, true
	var c *Rec
	for i := 0; i < 4; i++ {
		c = GenRec(r, e, cfg, false)
		if c.S.HasProbe() {
			break
		}
	}
	size := c.size()
	pre := 0
	if s.Bool() {
		pre = s.N(9)
	}
	mode, seed := uint64(s.N(3)), uint64(s.N(1<<16))
	prefix := make([]byte, pre)
	s.Bulk().Fill(prefix)

	// encode cleanly
	encode := func(ctx *model.ProbeCtx, dev *Dev, how int) (enc *bin.Encoder, err error) {
		vs.MapOrder(mode, seed)
		vs.SetMainLocal(nil)
		enc = newEncoder(e, dev)
		if err := enc.WriteBytes(prefix, false); err != nil {
			panic(err)
		}
		dev.Data = dev.Data[:0]
		vs.SetMainLocal(ctx)
		dev.begin()
		r.Call(c.String(), c.Budget(size), func() { err = enc.Encode(c.Arg()) })
		vs.SetMainLocal(nil)
		return
	}
	dev := newDev(r)
	ctx := &model.ProbeCtx{FailAt: -1}
	steps := vs.Steps()
	enc, err := encode(ctx, dev, 0)
	wild := vs.Steps() == steps && c.S.HasMap() && e != model.Borsh // map order not under control
	r.Logf("%v at offset %d: %d codec calls, %v", c, pre, len(ctx.Calls), err)
	if err != nil {
		r.Fail("refused", "%v returned %q", c, err)
	}
	full := append([]byte(nil), dev.Data...)
	if m, at := model.Match(c.Segs(), full); m != model.Full {
		r.Fail("wrong-bytes", "%v gave %x, wrong from byte %d", c, clip(string(full), 200), at)
	}
	buf := append(append([]byte(nil), prefix...), full...)
	md := &model.Dec{B: buf, Pos: pre, E: e}
	if _, ok := md.Decode(c.S); !ok {
		panic("model: cannot decode what it matched: " + c.String())
	}
	want := md.Probes
	if len(want) > 0 {
		r.Hit("record with codecs")
	}
	r.Shape(uint64(len(want)))
	checkE := func(ctx *model.ProbeCtx, enc *bin.Encoder) {
		for _, x := range ctx.Calls {
			if x.E != enc {
				r.Fail("other-session", "%v: a codec was called on another encoder than the session's", c)
			}
		}
	}
	checkE(ctx, enc)
	if got := callsOf(ctx.Calls); !sameCalls(got, want) {
		r.Fail("calls", "%v: codecs were called as %x (value, offset), the record has them as %x", c, got, want)
	}

	// encode with a failure
	for k := s.N(3); k > 0 && len(want) > 0; k-- {
		dev := newDev(r)
		ctx := &model.ProbeCtx{FailAt: s.N(len(want)), Stage: s.N(3), Err: genErr(s)}
		torn := s.P(4)
		if torn {
			ctx.FailAt = -1
			// the writer fails inside this codec's own writes
			w := want[s.N(len(want))]
			dev.FailPos = w.Pos + s.N(len(model.ProbeWire(w.V, e, false)))
			dev.Accept = s.N(3)
			dev.ErrKind = s.N(errKinds)
			if dev.FailPos < pre {
				dev.FailPos = pre
			}
		}
		enc, err := encode(ctx, dev, 0)
		got := callsOf(ctx.Calls)
		r.Logf("again, call %d fails at stage %d or the writer at byte %d: calls %x, %d bytes, %v", ctx.FailAt, ctx.Stage, dev.FailPos, got, len(dev.Data), err)
		r.Ev(b2u(err == nil), uint64(len(dev.Data)), uint64(len(got)))
		checkE(ctx, enc)
		if wild {
			continue
		}
		if torn {
			if dev.Err == nil {
				r.Hit("writer fault not reached")
				continue
			}
			if err == nil || !errors.Is(err, dev.Err) {
				r.Fail("swallowed", "%v: the writer failed inside a codec with %q, the call returned %v", c, dev.Err, err)
			}
			if dev.After > 0 {
				r.Fail("write-after-error", "%v: %d writes after the writer failed inside a codec", c, dev.After)
			}
			if len(got) > len(want) || !sameCalls(got, want[:len(got)]) {
				r.Fail("calls", "%v: codecs were called as %x, the record has them as %x", c, got, want)
			}
			continue
		}
		if !ctx.Fired {
			r.Fail("calls", "%v: codec call %d of %d did not happen", c, ctx.FailAt, len(want))
		}
		r.Fault([]string{"codec fails before writing", "codec fails between writes", "codec fails after writing"}[ctx.Stage])
		if err == nil {
			r.Fail("swallowed", "%v: codec call %d failed at stage %d, the call returned no error", c, ctx.FailAt, ctx.Stage)
		}
		if !errors.Is(err, ctx.Err) {
			r.Fail("error-replaced", "%v: codec call %d failed with %q, the call's error does not carry it: %q", c, ctx.FailAt, ctx.Err, err)
		}
		w := want[ctx.FailAt]
		n := ctx.FailAt + 1
		end := w.Pos - pre
		switch ctx.Stage {
		case 1:
			end += 4
		case 2:
			end += len(model.ProbeWire(w.V, e, false))
			for n < len(want) && want[n].Pos < w.Pos+len(model.ProbeWire(w.V, e, false)) {
				n++ // calls inside this one
			}
		}
		if !sameCalls(got, want[:n]) {
			r.Fail("calls", "%v: with codec call %d failing, codecs were called as %x, expected %x", c, ctx.FailAt, got, want[:n])
		}
		if string(dev.Data) != string(full[:end]) {
			r.Fail("wrong-bytes", "%v: with codec call %d failing at stage %d, %x was written, expected %x", c, ctx.FailAt, ctx.Stage, clip(string(dev.Data), 200), clip(string(full[:end]), 200))
		}
		if enc.Written() != pre+end {
			r.Fail("written", "%v: with codec call %d failing, Written is %d, expected %d", c, ctx.FailAt, enc.Written(), pre+end)
		}
	}

	// decode
	for k := 1 + s.N(3); k > 0; k-- {
		ctx := &model.ProbeCtx{FailAt: -1, Stage: s.N(3), Err: genErr(s)}
		b := buf
		cut := false
		switch {
		case len(want) > 0 && s.N(3) > 0:
			ctx.FailAt = s.N(len(want))
		case s.P(3) && len(full) > 0:
			b = buf[:pre+s.N(len(full))]
			cut = true
		}
		out := reflect.New(c.S.T)
		d := newDecoder(e, b)
		var err error
		variant := c.S.K == model.KStruct && s.P(5)
		r.Call("Decode", c.Budget(len(b)), func() {
			if err = d.SkipBytes(uint(pre)); err != nil {
				return
			}
			vs.SetMainLocal(ctx)
			if variant {
				err = viaVariant(d, out)
			} else {
				err = d.Decode(out.Interface())
			}
		})
		vs.SetMainLocal(nil)
		got := callsOf(ctx.Calls)
		r.Logf("decode %d of %d bytes, call %d fails at stage %d: calls %x, %v, position %d", len(b), len(buf), ctx.FailAt, ctx.Stage, got, err, d.Position())
		r.Ev(b2u(err == nil), uint64(len(got)), uint64(d.Position()))
		for _, x := range ctx.Calls {
			if x.D != d {
				r.Fail("other-session", "%v: a codec was called on another decoder than the session's", c)
			}
		}
		switch {
		case cut:
			r.Fault("input cut")
			n := len(got)
			if n > len(want) {
				r.Fail("calls", "%v: decoding a part made %d codec calls, the whole has %d", c, n, len(want))
			}
			for i := range got {
				if got[i].Pos != want[i].Pos || i < n-1 && got[i] != want[i] {
					r.Fail("calls", "%v: decoding the first %d bytes called codecs as %x, the record has them as %x", c, len(b), got, want)
				}
			}
		case ctx.FailAt >= 0:
			if !ctx.Fired {
				r.Fail("calls", "%v: decoding: codec call %d of %d did not happen (%v)", c, ctx.FailAt, len(want), err)
			}
			r.Fault([]string{"codec fails before reading", "codec fails between reads", "codec fails after reading"}[ctx.Stage])
			if err == nil {
				r.Fail("swallowed", "%v: decoding: codec call %d failed at stage %d, Decode returned no error", c, ctx.FailAt, ctx.Stage)
			}
			if !errors.Is(err, ctx.Err) {
				r.Fail("error-replaced", "%v: decoding: codec call %d failed with %q, Decode's error does not carry it: %q", c, ctx.FailAt, ctx.Err, err)
			}
			w := want[ctx.FailAt]
			n := ctx.FailAt + 1
			if ctx.Stage == 2 {
				for n < len(want) && want[n].Pos < w.Pos+len(model.ProbeWire(w.V, e, false)) {
					n++
				}
			}
			if !sameCalls(got, want[:n]) {
				r.Fail("calls", "%v: decoding with codec call %d failing, codecs were called as %x, expected %x", c, ctx.FailAt, got, want[:n])
			}
		default:
			if err != nil {
				r.Fail("unreadable", "%v: decoding returned %q", c, err)
			}
			if !sameCalls(got, want) {
				r.Fail("calls", "%v: decoding called codecs as %x, the record has them as %x", c, got, want)
			}
			if df := c.Check(out.Elem()); df != "" {
				r.Fail("read-back", "%v: %s", c, df)
			}
		}
	}

	// the helpers call each codec once too
	if s.P(3) {
		ctx := &model.ProbeCtx{FailAt: -1, Err: genErr(s)}
		if len(want) > 0 && s.Bool() {
			ctx.FailAt = s.N(len(want))
		}
		how := s.N(3)
		var err error
		vs.MapOrder(mode, seed)
		vs.SetMainLocal(ctx)
		r.Call("helper", c.Budget(len(buf)), func() {
			switch how {
			case 0:
				_, err = marshal(e, c.Arg())
			case 1:
				_, err = byteCount(e, c.Arg())
			default:
				err = unmarshal(e, reflect.New(c.S.T).Interface(), full)
			}
		})
		vs.SetMainLocal(nil)
		name := []string{"Marshal", "ByteCount", "Unmarshal"}[how]
		n := len(want)
		if ctx.FailAt >= 0 {
			n = ctx.FailAt + 1
			r.Fault("codec fails in a helper")
			if err == nil || !errors.Is(err, ctx.Err) {
				r.Fail("error-replaced", "%v: %s: codec call %d failed with %q, the helper returned %v", c, name, ctx.FailAt, ctx.Err, err)
			}
		} else if err != nil {
			r.Fail("refused", "%v: %s returned %q", c, name, err)
		}
		if len(ctx.Calls) != n {
			r.Fail("calls", "%v: %s made %d codec calls, expected %d", c, name, len(ctx.Calls), n)
		}
	}
}
