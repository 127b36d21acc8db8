// Package vs is the simulator runtime that instrumented library code calls
// into: a step counter with a budget, a seeded cooperative scheduler over real
// goroutines of which exactly one runs at a time, a seam for map enumeration
// order, and blocking for the sync shim.
package vs

import (
	"fmt"
	"runtime/debug"
	gosync "sync"
)

// MaxSites bounds the number of instrumented statements.
const MaxSites = 1 << 14

var (
	steps  uint64           // statements executed since Begin
	next   uint64 = 1 << 62 // step at which slow() has to look at something
	limit  uint64 = 1 << 62 // step budget
	cov    [MaxSites]uint8
	covNew int

	sched   []Step
	schedI  int
	preempt uint64 // step of the next planned preemption, 0 = none
	cur     *Task
	tasks   []*Task
	inTasks bool
	mainCh  chan struct{}
	hash    uint64
	nSwitch int
	blocks  int // consecutive Block calls without a step in between
	blockAt uint64

	swBuf [256]Switch
	swN   int

	permMode uint64
	permRng  uint64
)

// Step of a schedule: after Gap statements, switch to the Pick-th other runnable task.
type Step struct {
	Gap  uint32
	Pick uint32
}

// Switch is a recorded hand-off between threads.
type Switch struct {
	From, To int
	Site     uint32
	Step     uint64
}

// Trace returns the first hand-offs of the last Run.
//
//go:norace
func Trace() []Switch { return swBuf[:swN] }

// Task is one simulated caller thread.
type Task struct {
	ID    int
	fn    func()
	wake  chan struct{}
	done  bool
	Local interface{}
	Panic interface{}
	Stack []byte
	Steps uint64
}

// LimitErr is the panic value raised when a run exceeds its step budget.
type LimitErr struct{ Steps uint64 }

func (l LimitErr) Error() string {
	return fmt.Sprintf("step budget of %d statements exceeded", l.Steps)
}

// DeadlockErr is the panic value raised when no task can proceed.
type DeadlockErr struct{}

func (DeadlockErr) Error() string { return "all simulated threads are blocked" }

// Begin starts a run: resets counters, sets the step budget and map order.
//
//go:norace
func Begin(budget uint64, mapMode, mapSeed uint64) {
	steps, limit = 0, budget
	next = budget
	preempt = 0
	hash = 14695981039346656037
	nSwitch = 0
	permMode, permRng = mapMode, mapSeed*0x9E3779B97F4A7C15+0x1234567
}

// Budget sets a new budget counted from now.
//
//go:norace
func Budget(n uint64) {
	limit = steps + n
	renext()
}

// Left is what remains of the budget.
//
//go:norace
func Left() uint64 { return limit - steps }

//go:norace
func Steps() uint64 { return steps }

// Quiet runs harness code that may call into the library (formatting its
// errors, say) without counting its steps or switching threads.
func Quiet(f func()) {
	s, n := hold()
	defer release(s, n)
	f()
}

//go:norace
func hold() (uint64, uint64) {
	s, n := steps, next
	next = ^uint64(0)
	return s, n
}

//go:norace
func release(s, n uint64) { steps, next = s, n }

//go:norace
func Switches() (int, uint64) { return nSwitch, hash }

//go:norace
func renext() {
	next = limit
	if preempt != 0 && preempt < next {
		next = preempt
	}
}

// Y is the yield point placed before every statement.
//
//go:norace
func Y(site uint32) {
	steps++
	cov[site&(MaxSites-1)] = 1
	if steps >= next {
		slow(site)
	}
}

// Coverage returns which sites ran.
func Coverage() []byte { return cov[:] }

//go:norace
func slow(site uint32) {
	if steps >= limit {
		s := limit
		limit = ^uint64(0)
		if inTasks {
			limit = steps + 2_000_000 // the other threads get to end
		}
		renext()
		panic(LimitErr{s})
	}
	if preempt != 0 && steps >= preempt {
		if !inTasks {
			preempt = 0
			renext()
			return
		}
		p := sched[schedI].Pick
		schedI++
		arm()
		t := pickOther(p)
		if t != nil {
			switchTo(t, site)
		}
	}
}

//go:norace
func arm() {
	if schedI < len(sched) {
		preempt = steps + 1 + uint64(sched[schedI].Gap)
	} else {
		preempt = 0
	}
	renext()
}

//go:norace
func pickOther(p uint32) *Task {
	n := 0
	for _, t := range tasks {
		if !t.done && t != cur {
			n++
		}
	}
	if n == 0 {
		return nil
	}
	k := int(p) % n
	for _, t := range tasks {
		if !t.done && t != cur {
			if k == 0 {
				return t
			}
			k--
		}
	}
	return nil
}

//go:norace
func note(from, to int, site uint32) {
	nSwitch++
	hash = (hash ^ uint64(site)) * 1099511628211
	hash = (hash ^ uint64(to)) * 1099511628211
	if swN < len(swBuf) {
		swBuf[swN] = Switch{from, to, site, steps}
		swN++
	}
}

//go:norace
func switchTo(t *Task, site uint32) {
	me := cur
	note(me.ID, t.ID, site)
	raceOff()
	cur = t
	t.wake <- struct{}{}
	<-me.wake
	raceOn()
}

// Yield is an explicit scheduling point of the harness (simulated I/O).
//
//go:norace
func Yield() { Y(0) }

// Wait is simulated I/O latency: another thread goes on, this one later.
//
//go:norace
func Wait() {
	if !inTasks {
		return
	}
	steps++
	n := len(tasks)
	for i := 1; i < n; i++ {
		t := tasks[(cur.ID+i)%n]
		if !t.done {
			switchTo(t, 0)
			return
		}
	}
}

// Block is called by the sync shim when a lock is not available.
//
//go:norace
func Block() {
	if !inTasks {
		panic(DeadlockErr{})
	}
	if blockAt == steps {
		blocks++
	} else {
		blocks, blockAt = 0, steps
	}
	if blocks > 4*len(tasks)+8 {
		panic(DeadlockErr{})
	}
	// round robin, so that every other task gets its turn
	n := len(tasks)
	for i := 1; i < n; i++ {
		t := tasks[(cur.ID+i)%n]
		if !t.done {
			switchTo(t, 1)
			return
		}
	}
	panic(DeadlockErr{})
}

// Local returns the running task's local value (or the main one).
//
//go:norace
func Local() interface{} {
	if cur != nil {
		return cur.Local
	}
	return mainLocal
}

var mainLocal interface{}

// SetMainLocal sets the running task's local value (or the main one).
//
//go:norace
func SetMainLocal(v interface{}) {
	if cur != nil {
		cur.Local = v
		return
	}
	mainLocal = v
}

// InTasks tells whether simulated threads are running.
//
//go:norace
func InTasks() bool { return inTasks }

//go:norace
func CurID() int {
	if cur == nil {
		return -1
	}
	return cur.ID
}

// Run executes the functions as simulated threads under the given schedule and
// returns when all have finished.
func Run(fns []func(), locals []interface{}, sc []Step) []*Task {
	ts := make([]*Task, len(fns))
	for i := range fns {
		ts[i] = &Task{ID: i, fn: fns[i], wake: make(chan struct{}, 1)}
		if locals != nil {
			ts[i].Local = locals[i]
		}
	}
	var wg gosync.WaitGroup
	wg.Add(len(ts))
	start(ts, sc)
	for _, t := range ts {
		go runTask(t, &wg)
	}
	kick()
	wg.Wait()
	stop()
	return ts
}

//go:norace
func start(ts []*Task, sc []Step) {
	tasks, sched, schedI = ts, sc, 0
	mainCh = make(chan struct{}, 1)
	inTasks = true
	swN = 0
	blocks, blockAt = 0, 0
	cur = ts[0]
	// the first entry's pick chooses who starts
	if len(sc) > 0 {
		cur = ts[int(sc[0].Pick)%len(ts)]
		schedI = 1
	}
	arm()
}

//go:norace
func kick() {
	raceOff()
	cur.wake <- struct{}{}
	<-mainCh
	raceOn()
}

//go:norace
func stop() {
	inTasks = false
	cur, tasks, sched = nil, nil, nil
	preempt = 0
	renext()
}

func runTask(t *Task, wg *gosync.WaitGroup) {
	defer wg.Done()
	await(t)
	func() {
		defer func() {
			if r := recover(); r != nil {
				t.Panic = r
				t.Stack = debug.Stack()
			}
		}()
		t.fn()
	}()
	finish(t)
}

//go:norace
func await(t *Task) {
	raceOff()
	<-t.wake
	raceOn()
}

//go:norace
func finish(t *Task) {
	t.done = true
	var p uint32
	if schedI < len(sched) {
		p = sched[schedI].Pick
		schedI++
		arm()
	}
	n := pickOther(p)
	raceOff()
	if n == nil {
		mainCh <- struct{}{}
	} else {
		note(t.ID, n.ID, 2)
		cur = n
		n.wake <- struct{}{}
	}
	raceOn()
}
