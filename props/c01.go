package props

import (
	"fmt"
	"reflect"

	bin "github.com/gagliardetto/binary"

	"verif.local/dst/model"
	"verif.local/dst/vs"
)

func init() {
	register(&Prop{ID: "C01", Title: "Acknowledged records read back after any crash", Run: runC01,
		Rule: "one run is a history of up to 14 appends, syncs, crashes, restarts, scans and tail polls on a simulated log device shared by encoders of all three encodings; " +
			"non-trivial: a write fault, crash, rollback or incomplete tail read happened. Distinct: different sequence of record shapes, encodings, operations and faults.",
		Real: "Encoder, Decoder and every codec of the library, the user codecs' calls back into it", Stub: "log device (accept, sync, tear, roll back), tail reader, user codecs",
		Quick: 350000, Thor: 6000000, Huge: 400})
}

type acked struct {
	c          *Rec
	start, end int
}

type queued struct {
	b []byte
	s string
	c *Rec
}

type logSim struct {
	r      *R
	dev    *Dev
	synced int
	encs   [3]*bin.Encoder
	acks   []acked
	cur    *Rec // record being appended
	curAt  int

	tailing bool
	tailAt  int // next record the tail reader wants
	tailPos int
	tailDec *bin.Decoder
	inPoll  bool
	polled  int // cost of polls during writes so far

	queue []queued // encodings returned by the helpers and kept as they are
}

func runC01(r *R) {
	s := r.S
	if s.P(700) {
		deepTaken(r)
		return
	}
	l := &logSim{r: r, dev: newDev(r)}
	var cfgs [3]*model.Cfg
	for i := range cfgs {
		cfgs[i] = model.GenCfg(s, model.Enc(i))
	}
	nEnc := 1 + s.N(3)
	e0 := s.N(3)
	faults := s.Bool()
	crashes := s.Bool()
	l.tailing = s.P(3)
	useOps := s.Bool()
	nops := 1 + s.N(6)
	if s.P(4) {
		nops += s.N(8)
	}
	l.dev.OnWrite = func(p []byte) {
		if l.tailing && !l.inPoll && vsQuiet() && l.polled < 1<<17 {
			l.polled += 200 + len(l.dev.Data) - l.tailPos
			l.poll("during a write")
		}
	}
	for i := 0; i < nops; i++ {
		w := []int{8, 2, 0, 1, 0}
		if crashes {
			w[2] = 2
		}
		if l.tailing {
			w[4] = 2
		}
		switch s.W(w...) {
		case 0:
			e := model.Enc((e0 + s.N(nEnc)) % 3)
			c := GenRec(r, e, cfgs[e], useOps)
			if c.S != nil && c.S.HasExt() && i < nops-1 {
				// a record with absent extension fields may only end the data;
				// the encoder always writes them, so reading on is safe
				r.Hit("extension record inside a stream")
			}
			l.append(c, faults)
		case 1:
			l.synced = len(l.dev.Data)
			r.Logf("sync at %d", l.synced)
		case 2:
			l.crash()
		case 3:
			l.scan()
		case 4:
			l.poll("between records")
		}
	}
	l.dev.disarm()
	l.scan()
	if l.tailing {
		for k := 0; l.tailAt < len(l.acks); k++ {
			before := l.tailAt
			l.poll("at the end")
			if l.tailAt == before {
				r.Fail("tail-stuck", "the tail reader makes no progress at record %d", before)
			}
		}
	}
}

func vsQuiet() bool { return !vs.InTasks() }

func (l *logSim) enc(e model.Enc) *bin.Encoder {
	if l.encs[e] == nil {
		l.encs[e] = newEncoder(e, l.dev)
	}
	return l.encs[e]
}

// append writes a record; a failed one is rolled back and maybe retried.
func (l *logSim) append(c *Rec, faults bool) {
	r, s := l.r, l.r.S
	size := 64
	if b, ok := c.Bytes(); ok {
		size = len(b)
	}
	helper := c.Op == nil && s.P(6)
	for try := 0; ; try++ {
		start := len(l.dev.Data)
		l.cur, l.curAt = c, start
		armed := faults && try < 3 && s.N(2) == 1
		if armed {
			l.dev.arm(s, size)
			l.dev.Sticky = false
		} else {
			l.dev.disarm()
		}
		l.dev.begin()
		var err error
		r.Logf("append #%d at %d (try %d, fault planned %v): %v", len(l.acks), start, try, armed, c)
		r.Call(c.String(), c.Budget(size), func() {
			if helper {
				var b []byte
				if b, err = marshal(c.E, c.Arg()); err == nil {
					l.queue = append(l.queue, queued{b, string(b), c})
					_, err = l.dev.Write(b)
				}
				return
			}
			err = c.Write(l.enc(c.E))
		})
		l.cur = nil
		r.Ev(b2u(err == nil), uint64(len(l.dev.Data)))
		if err == nil {
			l.acks = append(l.acks, acked{c, start, len(l.dev.Data)})
			r.Logf("  acknowledged, %d bytes", len(l.dev.Data)-start)
			return
		}
		r.Logf("  failed: %v; roll back to %d", err, start)
		l.dev.Data = l.dev.Data[:start]
		if l.synced > start {
			l.synced = start
		}
		if l.tailDec != nil && l.tailPos > start {
			l.tailPos = start // cannot happen: only acknowledged records are consumed
		}
		r.Hit("rollback")
		if l.dev.Err == nil {
			r.Fail("refused", "the record was refused although no write failed: %v: %v", err, c)
		}
		if s.P(3) {
			l.encs[c.E] = nil // retry with a new encoder
		}
		if s.P(3) {
			r.Logf("  given up")
			r.Hit("record given up")
			return
		}
	}
}

// crash tears the unsynced tail at any byte and restarts.
func (l *logSim) crash() {
	r := l.r
	n := len(l.dev.Data)
	keep := l.synced + r.S.N(n-l.synced+1)
	r.Fault("crash")
	if keep < n {
		r.Hit("crash lost a suffix")
	}
	r.Logf("crash: %d of %d bytes survive (synced %d)", keep, n, l.synced)
	l.dev.Data = append([]byte(nil), l.dev.Data[:keep]...)
	k := 0
	for k < len(l.acks) && l.acks[k].end <= keep {
		k++
	}
	l.acks = l.acks[:k]
	end := 0
	if k > 0 {
		end = l.acks[k-1].end
	}
	l.encs = [3]*bin.Encoder{}
	// recovery: every complete record is still there
	l.scan()
	if end < keep {
		r.Hit("torn record dropped at recovery")
	}
	l.dev.Data = l.dev.Data[:end]
	l.synced = end
	if l.tailAt > k {
		l.tailAt, l.tailPos, l.tailDec = k, end, nil
	} else {
		l.tailDec = nil
	}
}

// scan reads all acknowledged records with a new decoder.
func (l *logSim) scan() {
	r := l.r
	mode := r.S.N(3)
	data := l.dev.Data
	d := newDecoder(model.Bin, data)
	for i := range l.acks {
		a := &l.acks[i]
		var diff string
		var err error
		what := fmt.Sprintf("reading record %d at %d", i, a.start)
		switch {
		case mode == 1 && a.c.Op == nil:
			// one record at a time, through the helper
			r.Call(what, a.c.Budget(a.end-a.start), func() {
				p := reflect.New(a.c.S.T)
				if err = unmarshal(a.c.E, p.Interface(), data[a.start:a.end:a.end]); err == nil {
					diff = a.c.Check(p.Elem())
				}
			})
		case mode == 2:
			d2 := newDecoder(a.c.E, data)
			r.Call(what, a.c.Budget(a.end-a.start), func() {
				if err = d2.SkipBytes(uint(a.start)); err == nil {
					diff, err = a.c.Read(d2)
				}
			})
			if err == nil && int(d2.Position()) != a.end {
				r.Fail("position", "%s (%v) ended at %d, the next record starts at %d", what, a.c, d2.Position(), a.end)
			}
		default:
			d.SetEncoding(a.c.E.Lib())
			if mode == 1 {
				r.Call(what, 0, func() { err = d.SkipBytes(uint(a.start) - d.Position()) })
			}
			if err == nil {
				r.Call(what, a.c.Budget(a.end-a.start), func() { diff, err = a.c.Read(d) })
			}
			if err == nil && int(d.Position()) != a.end {
				r.Fail("position", "%s (%v) ended at %d, the next record starts at %d", what, a.c, d.Position(), a.end)
			}
		}
		if err != nil {
			r.Fail("lost", "%s (%v; bytes %x) failed: %v", what, a.c, clip(string(data[a.start:a.end]), 80), err)
		}
		if diff != "" {
			r.Fail("changed", "%s (%v; bytes %x): %s", what, a.c, clip(string(data[a.start:a.end]), 80), diff)
		}
	}
	for i, q := range l.queue {
		if string(q.b) != q.s {
			r.Fail("changed", "the bytes that marshalling %v returned (%d helper calls ago) have changed from %x to %x", q.c, len(l.queue)-i, clip(q.s, 80), clip(string(q.b), 80))
		}
	}
	r.Ev(uint64(len(l.acks)))
}

// poll lets the tail reader try its next record on what is stored right now.
func (l *logSim) poll(when string) {
	r := l.r
	var c *Rec
	complete := false
	end := 0
	switch {
	case l.tailAt < len(l.acks):
		c, end, complete = l.acks[l.tailAt].c, l.acks[l.tailAt].end, true
	case l.cur != nil && l.tailAt == len(l.acks):
		c = l.cur
		if c.S != nil && c.S.HasExt() {
			return
		}
	default:
		return
	}
	l.inPoll = true
	saved := vs.Local()
	vs.SetMainLocal(nil)
	defer func() { l.inPoll = false; vs.SetMainLocal(saved) }()
	snap := append([]byte(nil), l.dev.Data...)
	if l.tailDec == nil {
		l.tailDec = newDecoder(c.E, snap)
	} else {
		l.tailDec.Reset(snap)
	}
	d := l.tailDec
	d.SetEncoding(c.E.Lib())
	var err error
	var diff string
	pv, st := r.tryNested(c.Budget(len(snap)), func() {
		if err = d.SkipBytes(uint(l.tailPos)); err == nil {
			diff, err = c.Read(d)
		}
	})
	if pv != nil {
		r.blame("tail reader polling "+when+" on "+c.String(), pv, st)
	}
	if err != nil {
		if complete {
			r.Fail("tail-lost", "tail reader polling %s: record %d (%v) is complete but reading it failed: %v", when, l.tailAt, c, err)
		}
		r.Fault("tail read of an incomplete record")
		return
	}
	if !complete {
		// everything may have arrived although the append has not returned yet
		if b, _ := model.Match(c.Segs(), snap[l.tailPos:]); b != model.Full {
			r.Fail("tail-early", "tail reader polling %s got a record from %d of its bytes: %v", when, len(snap)-l.tailPos, c)
		}
		return
	}
	if diff != "" {
		r.Fail("tail-changed", "tail reader polling %s: record %d: %s", when, l.tailAt, diff)
	}
	if int(d.Position()) != end {
		r.Fail("position", "tail reader: record %d (%v) ended at %d instead of %d", l.tailAt, c, d.Position(), end)
	}
	l.tailAt++
	l.tailPos = end
	r.Hit("tail read")
}
