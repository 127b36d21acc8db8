package props

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/big"
	"reflect"
	"strings"

	bin "github.com/gagliardetto/binary"

	"verif.local/dst/model"
	"verif.local/dst/vs"
)

func init() {
	register(&Prop{ID: "C07", Title: "Concurrent sessions", Run: runC07, Race: true,
		Rule: "one run has two to four simulated threads execute drawn programs of up to six acts each (encode sessions on failing or panicking writers, decoding of shared and damaged bytes, helpers, variant reads through a shared definition, streams, recorders, names, hashes, numbers and JSON) under a seeded schedule that preempts at any statement of the library and inside every write and codec; " +
			"results are compared with the reference and with a run alone, and the race detector, which does not see the simulator's hand-offs, watches every access. " +
			"Non-trivial: threads interleaved or a fault fired. Distinct: different programs, faults and interleaving.",
		Real: "the whole package, under the race detector", Stub: "goroutine scheduling, package sync's waiting, io.Writer, io.ByteReader, user codecs", Quick: 40000, Thor: 800000})
}

// act is one thing a simulated thread does. run touches only what belongs to
// the thread, and what threads may share: values, input bytes, definitions.
type act struct {
	what  string
	run   func(t *thread)
	check func(r *R)
	pv    interface{}
	st    string
	okPv  func(pv interface{}) bool
	sub   *R
}

type thread struct {
	ctx  *model.ProbeCtx
	acts []*act
}

func (t *thread) exec() {
	for _, a := range t.acts {
		*t.ctx = model.ProbeCtx{FailAt: -1}
		a.pv, a.st = a.sub.tryInTask(func() { a.run(t) })
	}
}

func (r *R) tryInTask(f func()) (pv interface{}, st string) {
	defer func() {
		if x := recover(); x != nil {
			pv, st = x, stackOf()
		}
	}()
	f()
	return nil, ""
}

// sub is a thread's private recorder.
func (r *R) sub() *R {
	return &R{S: r.S, Trace: r.Trace, St: NewStats(), ev: 14695981039346656037, shape: 14695981039346656037, Tier: r.Tier}
}

func (r *R) merge(x *R) {
	for k, n := range x.St.Faults {
		r.St.Faults[k] += n
	}
	for k, n := range x.St.Probes {
		r.St.Probes[k] += n
	}
	r.Ev(x.ev)
	r.Shape(x.shape)
	r.Hot = r.Hot || x.Hot
	r.Log = append(r.Log, x.Log...)
}

// c07 is what the threads of a run share.
type c07 struct {
	r    *R
	recs []*Rec
	encB [][]byte // their encodings, decoded by several threads
	defs []*vdef
	name string
}

func runC07(r *R) {
	s := r.S
	w := &c07{r: r}
	w.name = "F"
	if s.Bool() {
		w.name = fmt.Sprintf("F%x_", s.N(1<<20)) // types nobody has seen before
	}
	var cfgs [3]*model.Cfg
	cfg := func(e model.Enc) *model.Cfg {
		if cfgs[e] == nil {
			cfgs[e] = model.GenCfg(s, e)
			cfgs[e].Prefix = w.name
			cfgs[e].Big = cfgs[e].Big && s.P(4)
			if cfgs[e].Depth > 2 {
				cfgs[e].Depth = 2
			}
		}
		return cfgs[e]
	}
	newRec := func() *Rec {
		e := GenEnc(r)
		c := GenRec(r, e, cfg(e), false)
		c.prepare()
		return c
	}
	for i := 1 + s.N(2); i > 0; i-- {
		c := newRec()
		w.recs = append(w.recs, c)
		b, _ := c.Bytes()
		w.encB = append(w.encB, append([]byte(nil), b...))
	}
	nt := 2 + s.N(3)
	focus := s.N(15) // half of the runs: everybody does the same kind of thing
	weight := 0
	var ts []*thread
	for i := 0; i < nt; i++ {
		t := &thread{ctx: &model.ProbeCtx{FailAt: -1}}
		for k := 1 + s.N(3); k > 0; k-- {
			kind := s.N(10)
			if focus < 10 && s.P(2) {
				kind = focus
			}
			var a *act
			sub := r.sub()
			switch kind {
			case 0, 1:
				a = w.actEncode(sub, newRec)
			case 2, 3:
				a = w.actDecode(sub, newRec)
			case 4:
				a = w.actHelper(sub, newRec)
			case 5:
				a = w.actVariant(sub)
			case 6:
				a = w.actOps(sub)
			case 7:
				a = w.actStream(sub)
			case 8:
				a = w.actPure(sub)
			default:
				a = w.actScenario(sub)
			}
			a.sub = sub
			r.Shape(uint64(kind))
			t.acts = append(t.acts, a)
			weight++
		}
		ts = append(ts, t)
	}
	sc := r.Sched(1200 * weight)
	var fns []func()
	var locals []interface{}
	for i, t := range ts {
		t := t
		fns = append(fns, t.exec)
		locals = append(locals, t.ctx)
		for _, a := range t.acts {
			r.Logf("thread %d: %s", i, a.what)
		}
	}
	shared := make([]string, len(w.encB))
	for i := range w.encB {
		shared[i] = string(w.encB[i])
	}
	vs.Budget(400_000_000)
	done := vs.Run(fns, locals, sc)
	if r.Trace {
		for _, x := range vs.Trace() {
			r.Log = append(r.Log, fmt.Sprintf("  step %d: thread %d stops at site %d, thread %d goes on", x.Step, x.From, x.Site, x.To))
		}
	}
	vs.Budget(1 << 40)
	for i, t := range done {
		if t.Panic != nil {
			r.blame(fmt.Sprintf("thread %d", i), t.Panic, string(t.Stack))
		}
	}
	for i, t := range ts {
		for _, a := range t.acts {
			r.merge(a.sub)
			if a.sub.Viol != nil {
				r.Fail(a.sub.Viol.Class, "thread %d, %s: %s", i, a.what, a.sub.Viol.Msg)
			}
			if a.pv != nil && (a.okPv == nil || !a.okPv(a.pv)) {
				r.blame(fmt.Sprintf("thread %d, %s,", i, a.what), a.pv, a.st)
			}
			a.check(r)
		}
	}
	for i := range w.encB {
		if string(w.encB[i]) != shared[i] {
			r.Fail("input-modified", "the input bytes shared by the threads were changed")
		}
	}
	for _, c := range w.recs {
		after := model.FromGo(c.S, c.Go)
		if df := model.Diff(c.S, &c.V, &after, true); df != "" {
			r.Fail("value-changed", "%v: the value shared by the threads was changed: %s", c, df)
		}
	}
}

// prepare computes everything that is computed on demand.
func (c *Rec) prepare() {
	c.Segs()
	c.Bytes()
	if c.Op == nil {
		c.Norm()
	}
}

func (w *c07) pick(newRec func() *Rec) (*Rec, []byte, bool) {
	s := w.r.S
	if s.N(3) < 2 {
		k := s.N(len(w.recs))
		return w.recs[k], w.encB[k], true
	}
	c := newRec()
	b, _ := c.Bytes()
	return c, append([]byte(nil), b...), false
}

// WriterPanic is what a simulated writer panics with.
type WriterPanic struct{ N int }

func (w *c07) actEncode(sub *R, newRec func() *Rec) *act {
	s := w.r.S
	c, b, sh := w.pick(newRec)
	cs := []*Rec{c}
	for s.P(3) && len(cs) < 3 {
		if s.Bool() {
			cs = append(cs, c)
			continue
		}
		o := &Rec{E: c.E, Op: GenOp(s, c.E, false)}
		o.prepare()
		cs = append(cs, o)
	}
	dev := newDev(sub)
	switch s.W(6, 3, 1) {
	case 1:
		dev.arm(s, len(b))
	}
	panicAt := -1
	if s.P(8) {
		panicAt = s.N(6)
	}
	pf := codecFault(w.r, 6)
	if !c.S.HasProbe() {
		pf.FailAt = -1
	}
	style := s.N(2)
	slow := []int{0, 0, 1, 1 + s.N(4)}[s.N(4)]
	changed := -1
	dev.OnWrite = func(p []byte) {
		if dev.Writes-1 == panicAt {
			sub.Fault("writer panics")
			panic(WriterPanic{panicAt})
		}
		keep := append(make([]byte, 0, len(p)), p...)
		if slow > 0 && dev.Writes%slow == 0 {
			vs.Wait()
		}
		for k := 0; k < 4; k++ {
			vs.Yield()
		}
		if !bytes.Equal(keep, p) && changed < 0 {
			changed = dev.Writes - 1
		}
	}
	type step struct {
		from, to int
		err, fe  error
		written  int
		done     bool
		fired    bool
		werr     error
		after    int
	}
	steps := make([]step, len(cs))
	a := &act{what: fmt.Sprintf("encode %v (%d records, shared %v; write fault at byte %d or write %d, writer panics at write %d, codec call %d fails)", c, len(cs), sh, dev.FailPos, dev.FailNth, panicAt, pf.FailAt)}
	a.run = func(t *thread) {
		var enc *bin.Encoder
		if style == 0 {
			enc = newEncoder(c.E, dev)
		} else {
			enc = bin.NewEncoderWithEncoding(dev, c.E.Lib())
		}
		*t.ctx = *pf
		t.ctx.OnEnc = func(*bin.Encoder) { vs.Yield() }
		for i, x := range cs {
			st := &steps[i]
			st.from = len(dev.Data)
			st.done = true
			dev.begin()
			func() {
				defer func() {
					st.to = len(dev.Data)
					st.fired, st.fe = t.ctx.Fired, t.ctx.Err
					st.werr, st.after = dev.Err, dev.After
				}()
				st.err = x.Write(enc)
				st.written = enc.Written()
			}()
			if st.err != nil {
				_ = st.err.Error()
				break
			}
		}
	}
	a.okPv = func(pv interface{}) bool {
		switch p := pv.(type) {
		case WriterPanic:
			return p.N == panicAt
		case model.CodecPanic:
			return pf.Panic && p.Err == pf.Err
		}
		return false
	}
	a.check = func(r *R) {
		if changed >= 0 {
			r.Fail("buffer-reused", "%s: the bytes handed to write %d changed before the write returned", a.what, changed)
		}
		for i, x := range cs {
			st := &steps[i]
			if !st.done {
				break
			}
			got := dev.Data[st.from:st.to]
			r.EvB(got)
			r.Ev(b2u(st.err == nil))
			m, at := model.Match(x.Segs(), got)
			if m == model.Bad {
				r.Fail("wrong-bytes", "%s: record %d %v gave %x, wrong from byte %d", a.what, i, x, clip(string(got), 200), at)
			}
			if a.pv != nil {
				if p, ok := a.pv.(model.CodecPanic); ok && p.Err == pf.Err {
					r.Fault("codec panics")
				}
				continue
			}
			switch {
			case st.werr != nil:
				if st.err == nil || !errors.Is(st.err, st.werr) {
					r.Fail("swallowed", "%s: the writer failed with %q, the call returned %v", a.what, st.werr, st.err)
				}
				if st.after > 0 {
					r.Fail("write-after-error", "%s: %d writes after the writer had failed", a.what, st.after)
				}
			case st.fired:
				r.Fault("codec fails")
				if st.err == nil || !errors.Is(st.err, st.fe) {
					r.Fail("swallowed", "%s: a codec failed with %q, the call returned %v", a.what, st.fe, st.err)
				}
			case st.err != nil:
				r.Fail("refused", "%s: record %d %v returned %q", a.what, i, x, st.err)
			case m != model.Full:
				r.Fail("incomplete", "%s: record %d %v gave only %d bytes", a.what, i, x, len(got))
			}
			if st.written != 0 && st.written != st.to {
				r.Fail("written", "%s: after record %d Written is %d, the writer accepted %d bytes", a.what, i, st.written, st.to)
			}
		}
	}
	return a
}

func (w *c07) actDecode(sub *R, newRec func() *Rec) *act {
	s := w.r.S
	c, b, sh := w.pick(newRec)
	if s.P(4) {
		b = damage(w.r, append([]byte(nil), b...), nil)
		sh = false
	}
	md := &model.Dec{B: b, E: c.E}
	want, ok := md.Decode(c.S)
	pf := codecFault(w.r, 6)
	if !c.S.HasProbe() {
		pf.FailAt = -1
	}
	how := s.N(4)
	if how == 3 && (c.S.K == model.KPtr || c.S.K == model.KAny) {
		how = 0
	}
	reps := 1 + s.N(2)
	outs := make([]reflect.Value, reps)
	for i := range outs {
		outs[i] = reflect.New(c.S.T)
	}
	var err error
	fired := false
	pos := -1
	n := 0
	a := &act{what: fmt.Sprintf("decode %d bytes %x as %s (how %d, shared %v, codec call %d fails)", len(b), clip(string(b), 40), clip(c.S.String(), 300), how, sh, pf.FailAt)}
	a.run = func(t *thread) {
		for n = 0; n < reps; n++ {
			*t.ctx = *pf
			t.ctx.OnDec = func(*bin.Decoder) { vs.Yield() }
			func() {
				defer func() { fired = t.ctx.Fired }()
				switch how {
				case 0:
					d := newDecoder(c.E, b)
					err = d.Decode(outs[n].Interface())
					pos = int(d.Position())
				case 1:
					d := bin.NewDecoderWithEncoding(nil, c.E.Lib())
					d.Reset(b)
					err = d.Decode(outs[n].Interface())
					pos = int(d.Position())
				case 2:
					err = unmarshal(c.E, outs[n].Interface(), b)
				default:
					d := newDecoder(c.E, b)
					err = viaVariant(d, outs[n])
					pos = int(d.Position())
				}
			}()
			if err != nil {
				_ = err.Error()
				n++
				break
			}
		}
	}
	a.okPv = func(pv interface{}) bool {
		p, ok := pv.(model.CodecPanic)
		return ok && pf.Panic && p.Err == pf.Err
	}
	a.check = func(r *R) {
		r.Ev(b2u(err == nil), uint64(pos))
		if a.pv != nil {
			r.Fault("codec panics")
			return
		}
		if fired {
			r.Fault("codec fails")
			if err == nil || !errors.Is(err, pf.Err) {
				r.Fail("swallowed", "%s: a codec failed with %q, the call returned %v", a.what, pf.Err, err)
			}
			return
		}
		if err != nil {
			if ok && !md.Lenient && !md.Dup {
				r.Fail("refused", "%s returned %q", a.what, err)
			}
			return
		}
		if !ok && !md.Lenient {
			r.Fail("accepted", "%s: the bytes denote no value, decoding returned one", a.what)
		}
		if !ok || md.NaNKey {
			return
		}
		if pos >= 0 && pos != md.Pos {
			r.Fail("consumed", "%s: stopped at %d, expected %d", a.what, pos, md.Pos)
		}
		for _, o := range outs[:n] {
			got := model.FromGo(c.S, o.Elem())
			if df := model.Diff(c.S, &want, &got, true); df != "" {
				r.Fail("wrong-data", "%s: %s", a.what, df)
			}
		}
	}
	return a
}

func (w *c07) actHelper(sub *R, newRec func() *Rec) *act {
	s := w.r.S
	c, b, sh := w.pick(newRec)
	how := s.N(3)
	if c.Op == nil && s.P(3) {
		how = 3
	}
	pf := codecFault(w.r, 6)
	if !c.S.HasProbe() {
		pf.FailAt = -1
	}
	var n uint64
	var out []byte
	var err error
	var got reflect.Value
	fired := false
	a := &act{what: fmt.Sprintf("%s of %v (shared %v; codec call %d fails)", []string{"Marshal", "ByteCount", "MustByteCount", "Unmarshal"}[how], c, sh, pf.FailAt)}
	a.run = func(t *thread) {
		*t.ctx = *pf
		t.ctx.OnEnc = func(*bin.Encoder) { vs.Yield() }
		defer func() { fired = t.ctx.Fired }()
		switch how {
		case 0:
			out, err = marshal(c.E, c.Arg())
		case 1:
			n, err = byteCount(c.E, c.Arg())
		case 2:
			n = mustByteCount(c.E, c.Arg())
		default:
			got = reflect.New(c.S.T)
			err = unmarshal(c.E, got.Interface(), b)
		}
	}
	a.okPv = func(pv interface{}) bool {
		if p, ok := pv.(model.CodecPanic); ok {
			return pf.Panic && p.Err == pf.Err
		}
		if e, ok := pv.(error); ok && how == 2 && fired {
			return errors.Is(e, pf.Err)
		}
		return false
	}
	a.check = func(r *R) {
		if a.pv != nil {
			return
		}
		if fired {
			r.Fault("codec fails in a helper")
			if !errors.Is(err, pf.Err) {
				r.Fail("lost-error", "%s returned %v, a user codec failed with %v", a.what, err, pf.Err)
			}
			return
		}
		if err != nil {
			r.Fail("refused", "%s returned %q", a.what, err)
		}
		switch how {
		case 0:
			r.EvB(out)
			if m, at := model.Match(c.Segs(), out); m != model.Full {
				r.Fail("wrong-bytes", "%s gave %x, wrong from byte %d", a.what, clip(string(out), 200), at)
			}
		case 3:
			v := model.FromGo(c.S, got.Elem())
			if df := model.Diff(c.S, c.Norm(), &v, true); df != "" {
				r.Fail("wrong-data", "%s: %s", a.what, df)
			}
		default:
			if n != uint64(len(b)) {
				r.Fail("byte-count", "%s is %d, the encoding has %d bytes", a.what, n, len(b))
			}
		}
	}
	return a
}

func (w *c07) actVariant(sub *R) *act {
	s := w.r.S
	if len(w.defs) == 0 || s.P(4) {
		w.defs = append(w.defs, genDef(w.r))
	}
	v := w.defs[s.N(len(w.defs))]
	x := v.stream(w.r)
	redef := s.P(3)
	var fresh []bin.VariantType
	if redef {
		for _, t := range v.types {
			fresh = append(fresh, bin.VariantType{Name: t.name, Type: reflect.New(t.sc.T).Interface()})
		}
	}
	names := []int{s.N(len(v.types)), s.N(len(v.types))}
	var ids [2]bin.TypeID
	a := &act{what: fmt.Sprintf("read variants (%d bytes, %d types, identifiers %d, %s) and look up %d and %d", len(x.b), len(v.types), v.k, v.e, names[0], names[1])}
	a.run = func(t *thread) {
		def := v.def
		ids[0] = def.TypeID(v.types[names[0]].name)
		v.read(sub, x, 0)
		if redef {
			def = bin.NewVariantDefinition(v.k, fresh)
		}
		ids[1] = def.TypeID(v.types[names[1]].name)
	}
	a.check = func(r *R) {
		for i := range ids {
			var want bin.TypeID
			copy(want[:], v.wire(names[i]))
			if ids[i] != want {
				r.Fail("type-id", "%s: the identifier of %q is %x, expected %x", a.what, v.types[names[i]].name, ids[i], want)
			}
		}
	}
	return a
}

func (w *c07) actOps(sub *R) *act {
	s := w.r.S
	e := GenEnc(w.r)
	var ops []*Op
	var want []byte
	for k := 1 + s.N(8); k > 0; k-- {
		o := GenOp(s, e, false)
		b, _ := o.Want(e)
		if len(b) > 400 {
			continue
		}
		ops = append(ops, o)
		want = append(want, b...)
	}
	rec := s.P(3)
	var got []byte
	var err error
	var diff, str string
	a := &act{what: fmt.Sprintf("write %v and read it back (%s)", ops, e)}
	a.run = func(t *thread) {
		buf := new(bytes.Buffer)
		var wr io.Writer = buf
		wbw := (*bin.WriteByWrite)(nil)
		if rec {
			wbw = bin.NewWriteByWrite("r")
			wr = wbw
		}
		enc := newEncoder(e, wr)
		for _, o := range ops {
			if err = o.Do(enc); err != nil {
				return
			}
		}
		if rec {
			got, str = wbw.Bytes(), wbw.String()
		} else {
			got = buf.Bytes()
		}
		d := newDecoder(e, got)
		for _, o := range ops {
			if diff, err = o.Read(d); err != nil || diff != "" {
				return
			}
		}
	}
	a.check = func(r *R) {
		if err != nil {
			r.Fail("refused", "%s returned %q", a.what, err)
		}
		if !bytes.Equal(got, want) {
			r.Fail("wrong-bytes", "%s wrote %x, expected %x", a.what, clip(string(got), 200), clip(string(want), 200))
		}
		if diff != "" {
			r.Fail("wrong-data", "%s: %s", a.what, diff)
		}
		if rec && !strings.HasPrefix(str, "r:\n") {
			r.Fail("string", "%s: the recorder reads %q", a.what, clip(str, 200))
		}
	}
	return a
}

func (w *c07) actStream(sub *R) *act {
	s := w.r.S
	var want []int
	var b []byte
	for k := 1 + s.N(8); k > 0; k-- {
		v := genCompact(s)
		want = append(want, v)
		b = model.AppCompact(b, v)
	}
	failAt := -1
	if s.P(3) {
		failAt = s.N(len(b))
	}
	st := &stream{r: sub, b: b, fail: failAt, err: &SimErr{7}}
	var buf []byte
	var got, got2 []int
	var err, err2 error
	a := &act{what: fmt.Sprintf("compact lengths %v, the stream fails before byte %d", want, failAt)}
	a.run = func(t *thread) {
		for _, v := range want {
			if err = bin.EncodeCompactU16Length(&buf, v); err != nil {
				return
			}
		}
		p := b
		for range want {
			v, n, e := bin.DecodeCompactU16(p)
			if e != nil {
				err = e
				return
			}
			got2 = append(got2, v)
			p = p[n:]
		}
		for range want {
			v, e := bin.DecodeCompactU16LengthFromByteReader(st)
			if e != nil {
				err2 = e
				return
			}
			got = append(got, v)
		}
	}
	a.check = func(r *R) {
		if err != nil {
			r.Fail("refused", "%s: %v", a.what, err)
		}
		if !bytes.Equal(buf, b) {
			r.Fail("wrong-bytes", "%s gave %x, expected %x", a.what, buf, b)
		}
		if !reflect.DeepEqual(got2, want) {
			r.Fail("wrong-data", "%s: read %v", a.what, got2)
		}
		if failAt < 0 {
			if err2 != nil || !reflect.DeepEqual(got, want) {
				r.Fail("wrong-data", "%s: read %v from the stream, %v", a.what, got, err2)
			}
			return
		}
		if err2 == nil || !errors.Is(err2, st.err) {
			r.Fail("swallowed", "%s: the call returned %v", a.what, err2)
		}
		for i := range got {
			if got[i] != want[i] {
				r.Fail("wrong-data", "%s: read %v from the stream", a.what, got)
			}
		}
	}
	return a
}

var words = []string{"foo", "bar", "init", "transfer", "token", "account", "create", "mint", "swap", "xyz"}

// pure is a call whose result depends on its argument alone.
type pure struct {
	what string
	f    func() string
	want string
	any  bool // compare with the same call made alone
}

func hexOf(b []byte, err error) string {
	if err != nil {
		return "error " + err.Error()
	}
	return string(b)
}

func (w *c07) genPure() *pure {
	s := w.r.S
	u, v := model.GenU(s), model.GenU(s)
	var ws []string
	for k := 1 + s.N(3); k > 0; k-- {
		ws = append(ws, words[s.N(len(words))])
	}
	snake := strings.Join(ws, "_")
	pascal := ""
	for _, x := range ws {
		pascal += strings.ToUpper(x[:1]) + x[1:]
	}
	odd := []string{"", "ÜberÄnderung", "HTTPServer2Go", "a1B2c3", "__x__", "fooBarBAZ", "with space and-dash", "ßtraße_ſ", "Foo123Bar", "\xff\xfe"}[s.N(10)]
	n128 := func() *big.Int {
		x := new(big.Int).SetUint64(v)
		x.Lsh(x, 64)
		return x.Or(x, new(big.Int).SetUint64(u))
	}
	s128 := func() *big.Int {
		x := n128()
		if v>>63 == 1 {
			x.Sub(x, new(big.Int).Lsh(big.NewInt(1), 128))
		}
		return x
	}
	raw := model.AppU(model.AppU(nil, u, 8, false), v, 8, false)[:s.N(17)]
	sum := func(x string) []byte { h := sha256.Sum256([]byte(x)); return h[:8] }
	switch s.N(28) {
	case 0:
		return &pure{what: "ToPascalCase(" + snake + ")", f: func() string { return bin.ToPascalCase(snake) }, want: pascal}
	case 1:
		return &pure{what: "ToSnakeForSighash(" + pascal + ")", f: func() string { return bin.ToSnakeForSighash(pascal) }, want: snake}
	case 2:
		return &pure{what: "ToRustSnakeCase(" + pascal + ")", f: func() string { return bin.ToRustSnakeCase(pascal) }, want: snake}
	case 3:
		return &pure{what: fmt.Sprintf("ToPascalCase(%q)", odd), f: func() string { return bin.ToPascalCase(odd) }, any: true}
	case 4:
		return &pure{what: fmt.Sprintf("ToSnakeForSighash(%q)", odd), f: func() string { return bin.ToSnakeForSighash(odd) }, any: true}
	case 5:
		return &pure{what: fmt.Sprintf("ToRustSnakeCase(%q)", odd), f: func() string { return bin.ToRustSnakeCase(odd) }, any: true}
	case 6:
		return &pure{what: "Sighash(" + snake + ")", f: func() string { return hex.EncodeToString(bin.Sighash("state", snake)) }, want: hex.EncodeToString(sum("state:" + snake))}
	case 7:
		return &pure{what: "SighashTypeID(" + snake + ")", f: func() string { x := bin.SighashTypeID("global", snake); return hex.EncodeToString(x[:]) }, want: hex.EncodeToString(sum("global:" + snake))}
	case 8:
		return &pure{what: "SighashInstruction(" + snake + ")", f: func() string { return hex.EncodeToString(bin.SighashInstruction(snake)) }, any: true}
	case 9:
		return &pure{what: "SighashAccount(" + pascal + ")", f: func() string { return hex.EncodeToString(bin.SighashAccount(pascal)) }, any: true}
	case 10:
		return &pure{what: fmt.Sprintf("FormatByteSlice(%x)", raw), f: func() string { return bin.FormatByteSlice(raw) }, any: true}
	case 11:
		var d [8]byte
		copy(d[:], raw)
		return &pure{what: fmt.Sprintf("FormatDiscriminator(%x)", d), f: func() string { return bin.FormatDiscriminator(d) }, any: true}
	case 12:
		return &pure{what: fmt.Sprintf("Uint128(%x %x)", v, u), f: func() string {
			x := bin.Uint128{Lo: u, Hi: v}
			return x.String() + x.DecimalString() + x.BigInt().String()
		}, want: strings.Repeat(n128().String(), 3)}
	case 13:
		return &pure{what: fmt.Sprintf("Int128(%x %x)", v, u), f: func() string {
			x := bin.Int128{Lo: u, Hi: v}
			return x.String() + x.DecimalString() + x.BigInt().String()
		}, want: strings.Repeat(s128().String(), 3)}
	case 14:
		dec := n128().String()
		j := []byte(`"` + dec + `"`)
		return &pure{what: "Uint128 JSON " + dec, f: func() string {
			var x bin.Uint128
			if err := json.Unmarshal(j, &x); err != nil {
				return err.Error()
			}
			return hexOf(json.Marshal(x))
		}, want: `"` + dec + `"`}
	case 15:
		return &pure{what: fmt.Sprintf("128-bit JSON (%x %x)", v, u), f: func() string {
			return hexOf(json.Marshal([]interface{}{bin.Uint128{Lo: u, Hi: v}, bin.Int128{Lo: u, Hi: v}, bin.Float128{Lo: u, Hi: v}}))
		}, any: true}
	case 24:
		x := &bin.Uint128{}
		if s.Bool() {
			x = bin.NewUint128BigEndian()
		} else if s.Bool() {
			x = bin.NewUint128LittleEndian()
		}
		x.Lo, x.Hi = u, v
		return &pure{what: fmt.Sprintf("Uint128 bytes (%x %x)", v, u), f: func() string {
			return fmt.Sprintf("%x %s", x.Bytes(), x.HexString())
		}, any: true}
	case 25:
		id := bin.TypeIDFromBytes(raw)
		return &pure{what: fmt.Sprintf("TypeID accessors of %x", id), f: func() string {
			return fmt.Sprint(id.Bytes(), id.Uint32(), id.Uint8(), id.Equal(raw), id.Uvarint32(), bin.TypeIDFromSighash(sum(snake)))
		}, any: true}
	case 26:
		dec := s128().String()
		j := []byte(`"` + dec + `"`)
		return &pure{what: "Int128 JSON " + dec, f: func() string {
			var x bin.Int128
			if err := json.Unmarshal(j, &x); err != nil {
				return err.Error()
			}
			return fmt.Sprint(x.Lo, x.Hi) + hexOf(json.Marshal(x))
		}, any: true}
	case 27:
		return &pure{what: fmt.Sprintf("encoding names and IsByteSlice %x", raw), f: func() string {
			return fmt.Sprint(bin.EncodingBin, bin.EncodingBorsh, bin.EncodingCompactU16, bin.EncodingBin.IsBin(), bin.EncodingBorsh.IsBorsh(), bin.IsByteSlice(raw), bin.IsByteSlice(&u), bin.IsByteSlice("x"))
		}, any: true}
	case 16:
		j := []byte(fmt.Sprintf("%q", fmt.Sprint(int64(u))))
		return &pure{what: "Int64 JSON " + string(j), f: func() string {
			var x bin.Int64
			if err := json.Unmarshal(j, &x); err != nil {
				return err.Error()
			}
			return fmt.Sprint(int64(x)) + hexOf(json.Marshal(x))
		}, any: true}
	case 17:
		j := []byte(fmt.Sprintf("%q", fmt.Sprint(u)))
		return &pure{what: "Uint64 JSON " + string(j), f: func() string {
			var x bin.Uint64
			if err := json.Unmarshal(j, &x); err != nil {
				return err.Error()
			}
			return fmt.Sprint(uint64(x)) + hexOf(json.Marshal(x))
		}, any: true}
	case 18:
		fv := float64(int32(u)) / 16
		j := []byte(fmt.Sprint(fv))
		return &pure{what: "JSONFloat64 " + string(j), f: func() string {
			var x bin.JSONFloat64
			if err := json.Unmarshal(j, &x); err != nil {
				return err.Error()
			}
			return fmt.Sprint(math.Float64bits(float64(x)))
		}, want: fmt.Sprint(math.Float64bits(fv))}
	case 19:
		j := []byte(`"` + hex.EncodeToString(raw) + `"`)
		return &pure{what: "HexBytes JSON " + string(j), f: func() string {
			var x bin.HexBytes
			if err := json.Unmarshal(j, &x); err != nil {
				return err.Error()
			}
			return x.String() + hexOf(json.Marshal(x))
		}, want: hex.EncodeToString(raw) + string(j)}
	case 20:
		j := []byte([]string{"true", "false", "0", "1", "2", `"x"`}[s.N(6)])
		return &pure{what: "Bool JSON " + string(j), f: func() string {
			var x bin.Bool
			if err := json.Unmarshal(j, &x); err != nil {
				return err.Error()
			}
			return fmt.Sprint(bool(x))
		}, any: true}
	case 21:
		return &pure{what: fmt.Sprintf("TypeID(%x)", uint32(u)), f: func() string {
			return fmt.Sprint(bin.TypeIDFromUint32(uint32(u), bin.BE), bin.Uint32FromTypeID(bin.TypeIDFromUint32(uint32(u), bin.LE), bin.LE),
				bin.Uvarint32FromTypeID(bin.TypeIDFromUvarint32(uint32(u))), bin.Uint8FromTypeID(bin.TypeIDFromUint8(uint8(u))))
		}, any: true}
	case 22:
		bad := []byte(`"x` + fmt.Sprint(u) + `"`)
		return &pure{what: "refused JSON " + string(bad), f: func() string {
			var a bin.Uint128
			var b bin.Uint64
			var c bin.HexBytes
			return fmt.Sprint(json.Unmarshal(bad, &a), json.Unmarshal(bad, &b), json.Unmarshal(bad, &c))
		}, any: true}
	default:
		x := fmt.Sprintf("0x%x", u)
		return &pure{what: "Uint128 from " + x, f: func() string {
			var a bin.Uint128
			err := json.Unmarshal([]byte(`"`+x+`"`), &a)
			return fmt.Sprint(err, a.Lo, a.Hi, a.HexString())
		}, any: true}
	}
}

func (w *c07) actPure(sub *R) *act {
	s := w.r.S
	var ps []*pure
	for k := 1 + s.N(5); k > 0; k-- {
		ps = append(ps, w.genPure())
	}
	got := make([]string, len(ps))
	a := &act{what: "call"}
	for _, p := range ps {
		a.what += " " + p.what
	}
	a.run = func(t *thread) {
		for i, p := range ps {
			got[i] = p.f()
		}
	}
	a.check = func(r *R) {
		for i, p := range ps {
			r.Ev(hs(got[i]))
			var alone string
			r.Call(p.what, 0, func() { alone = p.f() })
			if got[i] != alone {
				r.Fail("differs", "%s gave %q among other threads, %q alone", p.what, clip(got[i], 200), clip(alone, 200))
			}
			if !p.any && got[i] != p.want {
				r.Fail("wrong-data", "%s gave %q, expected %q", p.what, clip(got[i], 200), clip(p.want, 200))
			}
		}
	}
	return a
}

var scenarios = []string{"C06", "C09", "C02", "C13", "C10", "C01", "C11", "C03", "C04"}

// actScenario is a whole run of another property's scenario.
func (w *c07) actScenario(sub *R) *act {
	s := w.r.S
	p := Get(scenarios[s.N(len(scenarios))])
	seed := s.U64()
	sub.S = model.NewSrc(seed)
	sub.task = true
	a := &act{what: fmt.Sprintf("run %d of the scenario of %s", seed, p.ID)}
	a.run = func(t *thread) { p.Run(sub) }
	a.check = func(r *R) {}
	return a
}
