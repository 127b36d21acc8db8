// Package props holds one simulated scenario per property: a workload driven
// through the library's public API, the faults it meets, and the oracle.
package props

import (
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"runtime/debug"
	"strings"
	"syscall"

	bin "github.com/gagliardetto/binary"

	"verif.local/dst/model"
	"verif.local/dst/vs"
)

// Violation is a broken property.
type Violation struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

// Stats accumulates over the runs of a worker.
type Stats struct {
	Faults map[string]int64 `json:"faults"`
	Probes map[string]int64 `json:"probes"`
}

func NewStats() *Stats { return &Stats{map[string]int64{}, map[string]int64{}} }

// R is one simulated run.
type R struct {
	S     *model.Src
	Trace bool
	Log   []string
	St    *Stats
	Viol  *Violation
	ev    uint64 // everything observed
	shape uint64 // what kind of run it was
	Hot   bool   // a fault fired or threads interleaved
	Tier  string
	huge  int  // one run in so many has a huge record
	task  bool // runs inside a simulated thread: budgets are the run's
}

// Prop is a property's scenario.
type Prop struct {
	ID    string
	Title string
	Run   func(r *R)
	Race  bool
	Rule  string // what a run is and what makes it non-trivial
	Real  string
	Stub  string
	Quick int // runs
	Thor  int
	Huge  int // one run in so many has a huge record (0: none)
}

// All lists the claimed properties.
var All []*Prop

func register(p *Prop) { All = append(All, p) }

// Get finds a property.
func Get(id string) *Prop {
	for _, p := range All {
		if p.ID == id {
			return p
		}
	}
	return nil
}

type stop struct{}

// Fail records a violation and ends the run.
func (r *R) Fail(class, format string, a ...interface{}) {
	r.Note(class, format, a...)
	panic(stop{})
}

// Note records a violation; the first one counts.
func (r *R) Note(class, format string, a ...interface{}) {
	if r.Viol == nil {
		vs.Quiet(func() { r.Viol = &Violation{class, fmt.Sprintf(format, a...)} })
		r.Logf("VIOLATION [%s] %s", class, r.Viol.Msg)
	}
}

// Logf writes to the trace; it never draws choices.
func (r *R) Logf(format string, a ...interface{}) {
	if r.Trace {
		vs.Quiet(func() { r.Log = append(r.Log, fmt.Sprintf(format, a...)) })
	}
}

// Fault counts a fault that fired.
func (r *R) Fault(kind string) {
	r.St.Faults[kind]++
	r.Hot = true
	r.Shape(hs(kind))
}

// Hit counts a rare condition that was reached.
func (r *R) Hit(name string) { r.St.Probes[name]++ }

const prime = 1099511628211

// Ev folds an observation into the run's event hash.
func (r *R) Ev(xs ...uint64) {
	for _, x := range xs {
		r.ev = (r.ev ^ x) * prime
		r.ev ^= r.ev >> 29
	}
}

// EvB folds bytes.
func (r *R) EvB(b []byte) {
	h := fnv.New64a()
	h.Write(b)
	r.Ev(uint64(len(b)), h.Sum64())
}

// Shape folds a structural fact into the run's shape.
func (r *R) Shape(xs ...uint64) {
	for _, x := range xs {
		r.shape = (r.shape ^ x) * prime
		r.shape ^= r.shape >> 31
	}
}

func hs(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// Result of a run.
type Result struct {
	Viol   *Violation
	Ev     uint64
	Shape  uint64
	Hot    bool
	Steps  uint64
	Switch int
	Rec    []uint64
	Log    []string
}

// HarnessErr is a failure of the harness itself.
type HarnessErr struct {
	V     interface{}
	Stack string
}

// Exec executes one run from a source of choices.
func Exec(p *Prop, s *model.Src, st *Stats, trace bool, tier string) (res *Result, herr *HarnessErr) {
	r := &R{S: s, St: st, Trace: trace, ev: 14695981039346656037, shape: 14695981039346656037, Tier: tier, huge: p.Huge}
	vs.SetMainLocal(nil)
	mode := uint64(0)
	seed := uint64(0)
	if s.N(2) == 1 {
		mode = uint64(1 + s.N(2))
		seed = uint64(s.N(1 << 20))
	}
	vs.Begin(1<<40, mode, seed)
	func() {
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(stop); ok {
					return
				}
				if r.Viol != nil {
					return
				}
				herr = &HarnessErr{x, string(debug.Stack())}
			}
		}()
		p.Run(r)
	}()
	n, h := vs.Switches()
	r.Ev(vs.Steps(), h)
	r.Shape(h)
	vs.SetMainLocal(nil)
	return &Result{r.Viol, r.ev, r.shape, r.Hot || n > 0, vs.Steps(), n, s.Rec, r.Log}, herr
}

// Call runs library code: a panic or a run that does not end is a violation.
func (r *R) Call(what string, budget uint64, f func()) {
	pv, st := r.try(budget, f)
	if pv == nil {
		return
	}
	r.blame(what, pv, st)
}

func (r *R) blame(what string, pv interface{}, st string) {
	if _, ok := pv.(stop); ok {
		panic(stop{})
	}
	if r.task {
		panic(pv)
	}
	switch x := pv.(type) {
	case vs.LimitErr:
		r.Fail("hang", "%s does not end: %v", what, x)
	case vs.DeadlockErr:
		r.Fail("deadlock", "%s blocks forever", what)
	}
	r.Fail("panic", "%s panicked: %v\n%s", what, pv, trimStack(st))
}

// try runs f and returns what it panicked with.
func (r *R) try(budget uint64, f func()) (pv interface{}, st string) {
	if r.task {
		return r.tryInTask(f)
	}
	if budget == 0 {
		budget = 50_000_000
	}
	vs.Budget(budget)
	defer vs.Budget(1 << 40)
	defer func() {
		if x := recover(); x != nil {
			pv, st = x, string(debug.Stack())
		}
	}()
	f()
	return nil, ""
}

// tryNested runs f inside another library call.
func (r *R) tryNested(budget uint64, f func()) (pv interface{}, st string) {
	if r.task {
		return r.tryInTask(f)
	}
	left := vs.Left()
	vs.Budget(budget)
	defer func() { vs.Budget(left) }()
	defer func() {
		if x := recover(); x != nil {
			pv, st = x, string(debug.Stack())
		}
	}()
	f()
	return nil, ""
}

func stackOf() string { return string(debug.Stack()) }

// trimStack keeps the library's frames.
func trimStack(st string) string {
	lines := strings.Split(st, "\n")
	var out []string
	for i := 0; i+1 < len(lines); i++ {
		if strings.Contains(lines[i], "gagliardetto/binary.") {
			fn := lines[i]
			if k := strings.LastIndex(fn, "("); k > 0 {
				fn = fn[:k]
			}
			loc := strings.TrimSpace(lines[i+1])
			if k := strings.Index(loc, " +0x"); k > 0 {
				loc = loc[:k]
			}
			out = append(out, "  at "+fn[strings.LastIndex(fn, "/")+1:]+" "+loc)
			if len(out) >= 8 {
				break
			}
		}
	}
	if len(out) == 0 {
		return st
	}
	return strings.Join(out, "\n")
}

// SimErr is an injected error.
type SimErr struct{ N int }

func (e *SimErr) Error() string { return fmt.Sprintf("injected fault %d", e.N) }

// tempErr is an injected error that claims to be worth retrying.
type tempErr struct{ n int }

func (e *tempErr) Error() string   { return fmt.Sprintf("injected temporary fault %d", e.n) }
func (e *tempErr) Temporary() bool { return true }
func (e *tempErr) Timeout() bool   { return true }

// wrapErr is an injected error around a well-known one.
type wrapErr struct {
	n   int
	err error
}

func (e *wrapErr) Error() string { return fmt.Sprintf("injected fault %d: %v", e.n, e.err) }
func (e *wrapErr) Unwrap() error { return e.err }

var wellKnown = []error{io.EOF, io.ErrUnexpectedEOF, io.ErrShortWrite, io.ErrShortBuffer, io.ErrNoProgress, io.ErrClosedPipe,
	os.ErrDeadlineExceeded, syscall.EINTR, syscall.EAGAIN, syscall.ENOSPC, bin.ErrVarIntBufferSize}

const errKinds = 40

// mkErr makes an injected error: mostly one of its own, sometimes one that
// code may be tempted to treat specially.
func mkErr(kind, n int) error {
	switch k := kind - (errKinds - 3 - len(wellKnown)); {
	case k < 0:
		return &SimErr{n}
	case k < len(wellKnown):
		return wellKnown[k]
	case k == len(wellKnown):
		return &tempErr{n}
	default:
		return &wrapErr{n, wellKnown[n%len(wellKnown)]}
	}
}

func genErr(s *model.Src) error { return mkErr(s.N(errKinds), s.N(1<<10)) }

var debugOn = os.Getenv("DST_DEBUG") != ""
