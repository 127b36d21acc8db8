package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"strconv"
	"strings"

	bin "github.com/gagliardetto/binary"

	"verif.local/dst/model"
)

func init() {
	register(&Prop{ID: "C10", Title: "Compact-u16 stream lengths", Run: runC10,
		Rule: "one run writes a sequence of up to 16 compact-u16 lengths and payloads through the library's writers (some refused, some through a failing writer), may damage it, and reads it back from a simulated byte stream that ends, fails or stalls before a drawn byte, comparing every step with the slice reader, the decoder and a reference. " +
			"Non-trivial: a fault fired. Distinct: different sequence of length sizes, refusals and faults.",
		Real: "EncodeCompactU16Length, WriteCompactU16, WriteLength, DecodeCompactU16, Decoder.ReadCompactU16, DecodeCompactU16LengthFromByteReader", Stub: "io.Writer, io.ByteReader", Quick: 3000000, Thor: 60000000})
	register(&Prop{ID: "C13", Title: "Write recorder", Run: runC13,
		Rule: "one run is a history of up to 30 writes (in some runs thousands, or of up to 140,000 bytes) to recorders (directly from reused buffers, or by an encoder), overwrites of the buffers written from and of the bytes returned, and reads of the record, compared with a model. " +
			"Non-trivial: a buffer that had been written from or returned was overwritten. Distinct: different sequence of operations.",
		Real: "WriteByWrite, FormatByteSlice, Encoder", Stub: "the callers' buffers", Quick: 1600000, Thor: 50000000})
}

// stream is a simulated byte source.
type stream struct {
	r     *R
	b     []byte
	pos   int
	calls int
	fail  int // fail before this byte (-1: only at the end)
	err   error
	after int
	stall int // reads that fail before the stream works again (0: for good)
	fired error
	ended bool
}

func (s *stream) ReadByte() (byte, error) {
	s.calls++
	if s.fired != nil {
		s.after++
	}
	if s.fail >= 0 && s.pos >= s.fail {
		if s.stall > 0 {
			s.stall--
			if s.stall == 0 {
				s.fail = -1
			}
			s.r.Fault("stream stalls")
		} else {
			s.r.Fault("stream fails")
		}
		s.fired = s.err
		return 0xee, s.err
	}
	if s.pos >= len(s.b) {
		s.r.Fault("stream ends")
		s.fired, s.ended = io.EOF, true
		return 0, io.EOF
	}
	c := s.b[s.pos]
	s.pos++
	return c, nil
}

var compactEdge = []int{0, 1, 0x7e, 0x7f, 0x80, 0x81, 0xff, 0x100, 0x3ffe, 0x3fff, 0x4000, 0x4001, 0x7fff, 0x8000, 0xfffe, 0xffff, 0x3f80, 0x2000}
var compactOut = []int{0x10000, 0x10001, 0x1ffff, -1, -2, -128, math.MinInt64, math.MaxInt64, 0x200000, 0x1fffff, 1 << 32, 1<<32 + 5, 1 << 62, -65536, 0x7fffffff, -1 << 31}

func genCompact(s *model.Src) int {
	switch s.W(3, 2, 2, 2) {
	case 0:
		return compactEdge[s.N(len(compactEdge))]
	case 1:
		return s.N(200)
	case 2:
		return s.N(0x10000)
	}
	return s.N(0x4100)
}

func runC10(r *R) {
	s := r.S
	var out []byte
	n := 1 + s.N(6)
	if s.P(3) {
		n += s.N(10)
	}
	dev := newDev(r)
	enc := bin.NewCompactU16Encoder(dev)
	if s.P(4) {
		enc = newEncoder(GenEnc(r), dev)
	}
	comp := bin.NewCompactU16Encoder(dev)
	for i := 0; i < n; i++ {
		v := genCompact(s)
		bad := s.P(5)
		if bad {
			v = compactOut[s.N(len(compactOut))]
		}
		k := s.N(6)
		if k >= 4 && !s.P(3) {
			k = s.N(4)
		}
		dev.begin()
		if dev.dead && s.Bool() {
			dev.disarm()
		}
		if s.P(6) && k > 0 {
			dev.arm(s, 4)
		}
		start := len(dev.Data)
		var err error
		var what string
		want := model.AppCompact(nil, v&0xffff)
		over := bad
		r.Call("writing a length", 20_000_000, func() {
			switch k {
			case 0:
				what = fmt.Sprintf("EncodeCompactU16Length(%d)", v)
				buf := dev.Data
				err = bin.EncodeCompactU16Length(&buf, v)
				dev.Data = buf
				if len(buf) < start || len(buf)-start <= 3 {
					dev.Total += len(buf) - start
				}
			case 1:
				what = fmt.Sprintf("WriteCompactU16(%d)", v)
				err = enc.WriteCompactU16(v)
			case 2:
				what = fmt.Sprintf("WriteCompactU16Length(%d)", v)
				err = enc.WriteCompactU16Length(v)
			case 3:
				what = fmt.Sprintf("WriteLength(%d)", v)
				err = comp.WriteLength(v)
			case 4:
				l := s.N(300)
				if bad {
					l = 0x10000 + s.N(3)
				}
				what = fmt.Sprintf("WriteBytes(%d bytes, true)", l)
				p := make([]byte, l)
				s.Bulk().Fill(p)
				want = append(model.AppCompact(nil, l&0xffff), p...)
				err = comp.WriteBytes(p, true)
			default:
				l := s.N(300)
				if bad {
					l = 0x10000 + s.N(3)
				}
				what = fmt.Sprintf("Encode(%d uint16)", l)
				p := make([]uint16, l)
				want = model.AppCompact(nil, l&0xffff)
				for i := range p {
					p[i] = uint16(i * 31)
					want = model.AppU(want, uint64(p[i]), 2, false)
				}
				err = comp.Encode(p)
			}
		})
		got := dev.Data[start:]
		r.Logf("%s -> %x, %v", what, clip(string(got), 20), err)
		r.Ev(b2u(err == nil), uint64(len(got)))
		r.Shape(uint64(k), b2u(over), uint64(min(len(want), 4)))
		switch {
		case over:
			r.Fault("unrepresentable length")
			if err == nil {
				r.Fail("accepted", "%s wrote %x without an error; the length has no compact-u16 form", what, clip(string(got), 20))
			}
			if len(got) != 0 {
				r.Fail("written", "%s was refused (%v) after writing %x", what, err, clip(string(got), 20))
			}
		case dev.Err != nil && k > 0:
			if err == nil || !errors.Is(err, dev.Err) {
				r.Fail("swallowed", "%s: the writer failed with %q, the call returned %v", what, dev.Err, err)
			}
			if !bytes.HasPrefix(want, got) {
				r.Fail("wrong-bytes", "%s: accepted %x, not a prefix of %x", what, got, want)
			}
			// the writer rolls back
			dev.Data = dev.Data[:start]
		case err != nil:
			r.Fail("refused", "%s returned %q", what, err)
		case !bytes.Equal(got, want):
			r.Fail("wrong-bytes", "%s wrote %x, expected %x", what, clip(string(got), 20), clip(string(want), 20))
		}
		if s.P(3) { // a payload in between
			p := make([]byte, s.N(6))
			s.Bulk().Fill(p)
			dev.Data = append(dev.Data, p...)
		}
	}
	out = append([]byte(nil), dev.Data...)
	if s.Bool() {
		for k := s.N(3); k >= 0; k-- {
			switch s.N(4) {
			case 0:
				out = damage(r, out, nil)
			case 1:
				i := s.N(len(out) + 1)
				h := []byte{byte(s.N(256)) | 0x80, byte(s.N(256)) | byte(s.N(2))<<7, []byte{0, 1, 2, 3, 4, 5, 0x80, 0x83, 0xff}[s.N(9)]}
				out = append(append(append([]byte(nil), out[:i]...), h...), out[i:]...)
				r.Fault("hostile length or tag inserted")
			case 2:
				i := s.N(len(out) + 1)
				out = append(append(append([]byte(nil), out[:i]...), 0x80, 0), out[i:]...)
				r.Fault("hostile length or tag inserted")
			default:
				if len(out) > 0 {
					out[s.N(len(out))] ^= 1 << uint(s.N(8))
				}
				r.Fault("bit flip")
			}
		}
	}
	read10(r, out)
}

// read10 reads lengths wherever they are, with all three readers.
func read10(r *R, b []byte) {
	s := r.S
	st := &stream{r: r, b: b, fail: -1}
	if s.Bool() {
		st.fail = s.N(len(b) + 1)
		st.err = genErr(s)
		if s.P(3) {
			st.stall = 1 + s.N(3)
		}
	}
	viaDec := s.P(4)
	for i := 0; i < 24; i++ {
		at := st.pos
		v, size, need, ok := model.CompactU16(b[at:])
		// what the stream will do
		cut := -1
		if st.fail >= at && st.fail < at+need || st.fail >= at && !ok && st.fail < at+need {
			cut = st.fail
		}
		st.fired, st.ended, st.after, st.calls = nil, false, 0, 0
		var got int
		var err error
		r.Call("DecodeCompactU16LengthFromByteReader", 1_000_000, func() { got, err = bin.DecodeCompactU16LengthFromByteReader(st) })
		r.Logf("stream at %d %x: %d, %v after %d ReadByte calls (fails before %d)", at, clip(string(b[at:]), 4), got, err, st.calls, cut)
		r.Ev(b2u(err == nil), uint64(got), uint64(st.calls))
		if st.after > 0 {
			r.Fail("read-after-error", "after the stream failed, %d more bytes were requested", st.after)
		}
		agree10(r, b, at, viaDec)
		if cut >= 0 {
			agree10(r, b[:cut:cut], at, viaDec)
		}
		if st.fired != nil {
			if err == nil {
				r.Fail("swallowed", "the stream failed with %q inside a length, the call returned %d without an error", st.fired, got)
			}
			if !errors.Is(err, st.fired) {
				r.Fail("error-replaced", "the stream failed with %q, the call returned %q", st.fired, err)
			}
			if st.ended && need < len(b)-at || ok && cut < 0 && st.pos-at >= size {
				r.Fail("overread", "the length at %d takes %d bytes, the call asked for one more", at, size)
			}
			if st.fail >= 0 && st.stall == 0 || st.pos >= len(b) {
				// dead: nothing more to read
				break
			}
			// the caller resumes after a stall
			continue
		}
		if !ok {
			if err == nil {
				r.Fail("accepted", "%x is not a compact-u16 length, the stream reader returned %d", clip(string(b[at:]), 4), got)
			}
			if st.calls > need {
				r.Fail("overread", "%x is refused after %d bytes, the stream reader asked for %d", clip(string(b[at:]), 4), need, st.calls)
			}
		} else {
			if err != nil {
				r.Fail("refused", "the stream reader refused %x: %v; it denotes %d", clip(string(b[at:]), 4), err, v)
			}
			if got != v {
				r.Fail("wrong-value", "the stream reader read %d from %x, it denotes %d", got, clip(string(b[at:]), 4), v)
			}
			if st.calls != size || st.pos != at+size {
				r.Fail("overread", "the length %x has %d bytes, the stream reader asked for %d", clip(string(b[at:]), 4), size, st.calls)
			}
		}
		// go on: over the payload, or anywhere
		switch s.N(4) {
		case 0:
			st.pos = s.N(len(b) + 1)
		case 1:
			if ok && v < len(b)-st.pos {
				st.pos += v
			}
		case 2:
			if !ok {
				st.pos = s.N(len(b) + 1)
			}
		}
	}
}

// agree10 reads the length at an offset with the slice reader and a decoder.
func agree10(r *R, b []byte, at int, viaDec bool) {
	v, size, _, ok := model.CompactU16(b[at:])
	var sv, sn int
	var serr error
	cp := b[at:]
	if r.S.Bool() {
		cp = append([]byte(nil), cp...)
	}
	r.Call("DecodeCompactU16", 1_000_000, func() { sv, sn, serr = bin.DecodeCompactU16(cp) })
	if (serr == nil) != ok || ok && (sv != v || sn != size) {
		r.Fail("slice-reader", "DecodeCompactU16(%x) returned %d, %d, %v; expected %d, %d (valid %v)", clip(string(cp), 4), sv, sn, serr, v, size, ok)
	}
	var dv int
	var derr error
	d := newDecoder(GenEnc(r), b)
	r.Call("ReadCompactU16", 1_000_000, func() {
		if derr = d.SkipBytes(uint(at)); derr != nil {
			return
		}
		if viaDec {
			// the decoder is a byte stream itself
			dv, derr = bin.DecodeCompactU16LengthFromByteReader(d)
		} else {
			dv, derr = d.ReadCompactU16()
		}
	})
	if (derr == nil) != ok || ok && (dv != v || d.Position() != uint(at+size)) {
		r.Fail("decoder", "the decoder at %d on %x returned %d, %v and moved to %d; expected %d and %d (valid %v)", at, clip(string(b[at:]), 4), dv, derr, d.Position(), v, at+size, ok)
	}
	if !ok && !viaDec && (d.Position() < uint(at) || d.Position() > uint(len(b))) {
		r.Fail("decoder", "a refused length moved the decoder from %d to %d", at, d.Position())
	}
}

// ---- C13 ----

type writerFunc func(p []byte) (int, error)

func (f writerFunc) Write(p []byte) (int, error) { return f(p) }

func runC13(r *R) {
	s := r.S
	type rec struct {
		w    *bin.WriteByWrite
		name string
		log  [][]byte
	}
	var recs []*rec
	for i := 1 + s.N(2); i > 0; i-- {
		name := []string{"", "x", "name"}[s.N(3)]
		recs = append(recs, &rec{w: bin.NewWriteByWrite(name), name: name})
	}
	size := 64 + s.N(64)
	big := s.P(200)
	if big {
		size = []int{300, 600, 1100, 2100, 4200, 9000, 33000, 70000, 140000}[s.N(9)]
	}
	arena := make([]byte, size)
	s.Bulk().Fill(arena)
	var returned [][]byte
	var encs []*bin.Encoder
	for _, x := range recs {
		x := x
		encs = append(encs, newEncoder(GenEnc(r), writerFunc(func(p []byte) (int, error) {
			x.log = append(x.log, append([]byte(nil), p...))
			return x.w.Write(p)
		})))
	}
	check := func(x *rec) {
		var b []byte
		var str string
		r.Call("Bytes and String", 0, func() { b, str = x.w.Bytes(), x.w.String() })
		want := bytes.Join(x.log, nil)
		r.EvB(b)
		if !bytes.Equal(b, want) {
			r.Fail("bytes", "Bytes returned %x after the %d writes %s", clip(string(b), 100), len(x.log), clip(fmt.Sprintf("%x", x.log), 400))
		}
		var ws strings.Builder
		if x.name != "" {
			ws.WriteString(x.name + ":\n")
		}
		for i, p := range x.log {
			fmt.Fprintf(&ws, "- %d: {", i)
			for j, c := range p {
				if j > 0 {
					ws.WriteString(", ")
				}
				ws.WriteString(strconv.Itoa(int(c)))
			}
			fmt.Fprintf(&ws, "}(len=%d)\n", len(p))
		}
		if str != ws.String() {
			r.Fail("string", "String returned %q after the %d writes %s", clip(str, 200), len(x.log), clip(fmt.Sprintf("%x", x.log), 400))
		}
		returned = append(returned, b)
	}
	n := 1 + s.N(12)
	if s.P(4) {
		n += s.N(20)
	}
	if s.P(150) {
		// a long history of small writes first
		m := 1 + s.N(80)
		if s.P(4) {
			m += s.N(3000)
		}
		for i := 0; i < m; i++ {
			x := recs[i%len(recs)]
			p := arena[i%len(arena) : min(i%len(arena)+i%3, len(arena))]
			x.log = append(x.log, append([]byte(nil), p...))
			r.Call("Write", 0, func() { x.w.Write(p) })
		}
		scribble(arena)
		r.Logf("%d small writes", m)
		r.Shape(77, uint64(m))
	}
	maxW := 20
	if big {
		maxW = len(arena)
	}
	for i := 0; i < n; i++ {
		k := s.N(len(recs))
		x := recs[k]
		op := s.W(5, 3, 2, 2, 2)
		r.Shape(uint64(op), uint64(k))
		switch op {
		case 0: // write from the shared buffer
			a := s.N(len(arena))
			l := s.N(min(maxW, len(arena)-a) + 1)
			p := arena[a : a+l]
			keep := append([]byte(nil), p...)
			var m int
			var err error
			r.Call("Write", 0, func() { m, err = x.w.Write(p) })
			r.Logf("Write(%x) -> %d, %v", clip(string(p), 60), m, err)
			if m != l || err != nil {
				r.Fail("write", "Write of %d bytes returned %d, %v", l, m, err)
			}
			if !bytes.Equal(p, keep) {
				r.Fail("buffer-modified", "Write changed its argument")
			}
			x.log = append(x.log, keep)
		case 1: // the buffer is reused
			s.Bulk().Fill(arena)
			r.Fault("written buffer overwritten")
			r.Logf("buffer overwritten")
		case 2: // an encoder writes raw bytes: one write
			a := s.N(len(arena))
			l := 1 + s.N(min(maxW, len(arena)-a))
			if l > len(arena)-a {
				l = len(arena) - a
			}
			p := arena[a : a+l]
			var err error
			r.Call("WriteBytes", 0, func() { err = encs[k].WriteBytes(p, false) })
			r.Logf("encoder writes %x", clip(string(p), 60))
			if err != nil {
				r.Fail("write", "WriteBytes returned %v", err)
			}
		case 3:
			if len(returned) > 0 {
				scribble(returned[s.N(len(returned))])
				r.Fault("returned bytes overwritten")
			}
		default:
			check(x)
		}
	}
	for _, x := range recs {
		check(x)
		var v bin.WriteByWrite = *x.w // a copy reads the same
		if v.String() != x.w.String() {
			r.Fail("string", "a copy of the recorder reads differently")
		}
	}
}
