package props

import (
	"errors"
	"fmt"

	bin "github.com/gagliardetto/binary"

	"verif.local/dst/model"
	"verif.local/dst/vs"
)

func init() {
	register(&Prop{ID: "C02", Title: "Failing writer", Run: runC02,
		Rule: "one run is a history of up to 10 encoding calls by up to three encoders on one simulated writer that fails at a drawn byte or write with none, part or all of the write accepted, once or for good; " +
			"values may be unencodable. Non-trivial: a write failed. Distinct: different sequence of value shapes, encodings and faults.",
		Real: "Encoder with every Write method and codec of the library", Stub: "io.Writer, user codecs", Quick: 600000, Thor: 12000000, Huge: 800})
	register(&Prop{ID: "C03", Title: "Written counts", Run: runC03,
		Rule: "one run is a history of up to 10 encoding calls, byte-count calls and user-codec callbacks by up to three encoders on one simulated writer that fails and tears writes; the count is compared after every call and inside every codec. " +
			"Non-trivial: a write failed. Distinct: different sequence of value shapes, encodings and faults.",
		Real: "Encoder, byte-count helpers, every codec of the library", Stub: "io.Writer, user codecs", Quick: 400000, Thor: 9000000, Huge: 600})
}

// session is one encoder on a shared device.
type session struct {
	e   model.Enc
	enc *bin.Encoder
	acc int // bytes the device accepted from it
}

func anyEncoder(r *R, e model.Enc, d *Dev) *bin.Encoder {
	if r.S.P(3) {
		return bin.NewEncoderWithEncoding(d, e.Lib())
	}
	return newEncoder(e, d)
}

func runC02(r *R) {
	s := r.S
	dev := newDev(r)
	nEnc := 1 + s.N(3)
	bad := s.P(3)
	faulty := !s.P(6)
	var ss []*session
	var cfgs [3]*model.Cfg
	for i := 0; i < nEnc; i++ {
		e := GenEnc(r)
		ss = append(ss, &session{e: e, enc: anyEncoder(r, e, dev)})
		if cfgs[e] == nil {
			cfgs[e] = model.GenCfg(s, e)
			cfgs[e].NaN = bad
			if bad && s.P(3) {
				cfgs[e].Big = true
			}
		}
	}
	n := 1 + s.N(5)
	if s.P(4) {
		n += s.N(6)
	}
	for i := 0; i < n; i++ {
		x := ss[s.N(nEnc)]
		if bad && s.P(8) {
			refuse02(r, dev, x)
			continue
		}
		c := GenRec(r, x.e, cfgs[x.e], true)
		armWrite(r, dev, c, faulty)
		writeC02(r, dev, x, c)
	}
}

type int02 struct {
	A uint8
	B int
}

// refuse02 encodes a value of a type that no format has an encoding for.
func refuse02(r *R, dev *Dev, x *session) {
	k := r.S.N(12)
	v := []interface{}{int(1), uint(1), make(chan int), func() {}, complex(1, 2), uintptr(3), int02{1, 2}, &int02{1, 2}, []int{1, 2}, [2]uint{1, 2},
		map[string]int{"a": 1}, map[uint8]chan int{1: nil}}[k]
	if k == 11 {
		v = map[uint8]chan int{1: make(chan int)}
	}
	dev.disarm()
	start := len(dev.Data)
	dev.begin()
	r.Hit("type without an encoding")
	r.Shape(77, uint64(k), uint64(x.e))
	r.Logf("%s.Encode(%T)", x.e, v)
	var err error
	r.Call(fmt.Sprintf("%s.Encode(%T)", x.e, v), 1_000_000, func() { err = x.enc.Encode(v) })
	got := dev.Data[start:]
	x.acc += len(got)
	if err == nil {
		r.Fail("unencodable", "%s.Encode of a %T, which has no encoding, returned no error after writing %x", x.e, v, got)
	}
	if k < 6 && len(got) > 0 {
		r.Fail("unencodable", "%s.Encode of a %T, which has no encoding, wrote %x", x.e, v, got)
	}
}

// armWrite plans a write fault for the next call or none.
func armWrite(r *R, dev *Dev, c *Rec, faulty bool) {
	size := 64
	if b, ok := c.Bytes(); ok {
		size = len(b)
	}
	if dev.dead && !r.S.P(3) {
		return // still dead
	}
	dev.disarm()
	if faulty && r.S.N(3) != 0 {
		dev.arm(r.S, size)
	}
}

func writeC02(r *R, dev *Dev, x *session, c *Rec) {
	start := len(dev.Data)
	dev.begin()
	var err error
	r.Logf("%v (write %d, %d bytes so far; fails at byte %d or write %d, accept mode %d, dead %v)", c, dev.Writes, dev.Total, dev.FailPos, dev.FailNth, dev.Accept, dev.dead)
	r.Call(c.String(), c.Budget(c.size()), func() { err = c.Write(x.enc) })
	got := dev.Data[start:]
	x.acc += len(got)
	r.Logf("  -> %v, %d bytes accepted", err, len(got))
	r.Ev(b2u(err == nil), uint64(len(got)))
	r.EvB(got)
	_, encodable := c.Bytes()
	m, at := model.Match(c.Segs(), got)
	if m == model.Bad {
		want, _ := c.Bytes()
		r.Fail("not-a-prefix", "%v: the accepted bytes %x are not a prefix of the encoding %x (they differ at byte %d)", c, clip(string(got), 120), clip(string(want), 120), at)
	}
	if dev.Err != nil {
		if err == nil {
			r.Fail("swallowed", "%v: the writer failed with %q but the call returned no error", c, dev.Err)
		}
		if !errors.Is(err, dev.Err) {
			r.Fail("error-replaced", "%v: the writer failed with %q but the call's error does not carry it: %q", c, dev.Err, err)
		}
		if dev.After > 0 {
			r.Fail("write-after-error", "%v: %d more writes were issued after the writer had failed", c, dev.After)
		}
		return
	}
	if !encodable {
		r.Hit("unencodable value")
		if err == nil {
			r.Fail("unencodable", "%v: the format has no encoding for this, but the call returned no error", c)
		}
		return
	}
	if err != nil {
		r.Fail("refused", "%v: no write failed, but the call returned %q", c, err)
	}
	if m != model.Full {
		r.Fail("incomplete", "%v: the call returned no error after writing only %d bytes", c, len(got))
	}
}

func (c *Rec) size() int {
	if b, ok := c.Bytes(); ok {
		return len(b)
	}
	return 4096
}

func scribble(p []byte) {
	for i := range p {
		p[i] ^= 0xa5
	}
}

// ---- C03 ----

var zeros = make([]byte, 4<<20)

func runC03(r *R) {
	s := r.S
	dev := newDev(r)
	nEnc := 1 + s.N(3)
	bad := s.P(4)
	faulty := !s.P(4)
	var ss []*session
	var cfgs [3]*model.Cfg
	for i := 0; i < nEnc; i++ {
		e := GenEnc(r)
		if s.P(4) {
			// an encoder joining later starts from zero
			_, _ = dev.Write([]byte{1, 2, 3})
		}
		ss = append(ss, &session{e: e, enc: anyEncoder(r, e, dev)})
		if cfgs[e] == nil {
			cfgs[e] = model.GenCfg(s, e)
			cfgs[e].NaN = bad
			if bad && s.P(3) {
				cfgs[e].Big = true
			}
			cfgs[e].Probes = cfgs[e].Probes || s.P(3)
		}
	}
	check := func(x *session, when string, want int) {
		if got := x.enc.Written(); got != want {
			r.Fail("written", "%s: Written() is %d, but the writer accepted %d bytes", when, got, want)
		}
	}
	for _, x := range ss {
		check(x, "a new encoder", 0)
	}
	n := 1 + s.N(5)
	if s.P(4) {
		n += s.N(6)
	}
	if s.P(30) {
		// a long history: the count is past 16, 31 or 32 bits
		x := ss[s.N(nEnc)]
		k := []int{1, 1, 1, 1, 1, 512, 1024}[s.N(7)]
		if k > 1 && (r.task || !s.P(50)) {
			k = 1
		}
		b := zeros[:(4<<20)-s.N(20)]
		if k == 1 {
			b = zeros[:65530+s.N(10)]
		}
		if s.Bool() {
			k++
		}
		dev.FailPos, dev.FailNth, dev.Discard = -1, -1, true
		r.Logf("%d raw writes of %d bytes", k, len(b))
		r.Shape(77, uint64(k))
		for ; k > 0; k-- {
			r.Call("Write", 10_000_000, func() {
				if s.Bool() {
					_, _ = x.enc.Write(b)
				} else {
					_ = x.enc.WriteBytes(b, false)
				}
			})
			x.acc += len(b)
			check(x, "a long history of raw writes", x.acc)
		}
		dev.Discard = false
	}
	for i := 0; i < n; i++ {
		x := ss[s.N(nEnc)]
		c := GenRec(r, x.e, cfgs[x.e], true)
		if s.P(3) && c.Op == nil {
			countC03(r, c)
			continue
		}
		armWrite(r, dev, c, faulty)
		base := dev.Total
		dev.begin()
		p := &model.ProbeCtx{FailAt: -1, OnEnc: func(e *bin.Encoder) {
			r.Hit("count checked inside a codec")
			check(&session{enc: e}, "inside a codec of "+c.String(), x.acc+dev.Total-base)
		}}
		if s.P(4) && c.S != nil && c.S.HasProbe() {
			p.FailAt, p.Stage, p.Err = s.N(3), s.N(3), genErr(s)
		}
		vs.SetMainLocal(p)
		var err error
		var nret int
		r.Logf("%v (%d bytes so far; fails at byte %d or write %d, accept mode %d)", c, dev.Total, dev.FailPos, dev.FailNth, dev.Accept)
		raw := c.Op != nil && c.Op.Name == "Write"
		r.Call(c.String(), c.Budget(c.size()), func() {
			if raw {
				nret, err = x.enc.Write(c.Op.B)
				return
			}
			err = c.Write(x.enc)
		})
		vs.SetMainLocal(nil)
		x.acc += dev.Total - base
		r.Logf("  -> %v, %d bytes accepted, Written %d", err, dev.Total-base, x.enc.Written())
		r.Ev(b2u(err == nil), uint64(x.acc), uint64(x.enc.Written()))
		if p.Fired {
			r.Fault("codec error")
		}
		check(x, fmt.Sprintf("after %v (error %v)", c, err), x.acc)
		if raw && nret != dev.Total-base {
			r.Fail("write-count", "%v returned %d, but the writer accepted %d bytes (error %v)", c, nret, dev.Total-base, err)
		}
		for _, y := range ss {
			check(y, "another encoder on the same writer", y.acc)
		}
	}
}

// countC03 compares the byte-count helpers with what an encoder writes.
func countC03(r *R, c *Rec) {
	s := r.S
	p := func() *model.ProbeCtx { return &model.ProbeCtx{FailAt: -1} }
	failAt, stage := -1, 0
	if s.P(4) && c.S.HasProbe() {
		failAt, stage = s.N(3), s.N(3)
		cerr := genErr(s)
		p = func() *model.ProbeCtx {
			return &model.ProbeCtx{FailAt: failAt, Stage: stage, Err: cerr}
		}
	}
	ref := newDev(r)
	vs.SetMainLocal(p())
	var werr, cerr error
	var n uint64
	r.Call(c.String(), c.Budget(c.size()), func() { werr = newEncoder(c.E, ref).Encode(c.Arg()) })
	ctx := p()
	vs.SetMainLocal(ctx)
	r.Call("byte count of "+c.String(), c.Budget(c.size()), func() { n, cerr = byteCount(c.E, c.Arg()) })
	r.Logf("byte count of %v: %d, %v", c, n, cerr)
	if ctx.Fired {
		r.Fault("codec error")
	}
	r.Ev(n, b2u(cerr == nil))
	_, encodable := c.Bytes()
	if encodable && failAt < 0 && (cerr != nil || n != uint64(c.size())) {
		r.Fail("byte-count", "byte count of %v is %d (error %v), its encoding has %d bytes", c, n, cerr, c.size())
	}
	if (werr == nil) != (cerr == nil) {
		r.Fail("byte-count-error", "byte count of %v: error %v, but encoding it gives %v", c, cerr, werr)
	}
	if werr == nil && n != uint64(ref.Total) {
		r.Fail("byte-count", "byte count of %v is %d, an encoder writes %d bytes", c, n, ref.Total)
	}
	vs.SetMainLocal(p())
	var m uint64
	pv, st := r.try(c.Budget(c.size()), func() { m = mustByteCount(c.E, c.Arg()) })
	vs.SetMainLocal(nil)
	switch {
	case werr == nil && pv != nil:
		r.blame("must byte count of "+c.String(), pv, st)
	case werr == nil && m != n:
		r.Fail("must-byte-count", "the panicking byte count of %v is %d instead of %d", c, m, n)
	case werr != nil && pv == nil:
		r.Fail("must-byte-count", "the panicking byte count of %v returned %d although encoding fails with %v", c, m, werr)
	}
}
