package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"verif.local/dst/props"
)

// crashClass is the class of a run that ends the whole process.
const crashClass = "crash"

// sub executes a replay file in a fresh process.
func sub(rp *Replay, dir string, timeout time.Duration) (*Outcome, string, error) {
	f, err := os.CreateTemp(dir, "try*.json")
	if err != nil {
		return nil, "", err
	}
	f.Close()
	defer os.Remove(f.Name())
	save(f.Name(), rp)
	cmd := exec.Command(os.Args[0], "exec", f.Name())
	log := filepath.Join(dir, "subrace")
	cmd.Env = append(os.Environ(), "GORACE=log_path="+log+" exitcode=0 history_size=3", "GOTRACEBACK=all")
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	if err := cmd.Start(); err != nil {
		return nil, "", err
	}
	pid := cmd.Process.Pid
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err = <-done:
	case <-time.After(timeout):
		cmd.Process.Kill()
		<-done
		return nil, "", fmt.Errorf("no result within %v", timeout)
	}
	rf := fmt.Sprintf("%s.%d", log, pid)
	rep, _ := os.ReadFile(rf)
	os.Remove(rf)
	if err != nil {
		if v := crashOf(se.String()); v != nil {
			return &Outcome{Violation: v}, "", nil
		}
		return nil, "", fmt.Errorf("%v: %s", err, clipEnd(se.String(), 2000))
	}
	var out Outcome
	if err := json.Unmarshal(so.Bytes(), &out); err != nil {
		return nil, "", err
	}
	return &out, string(rep), nil
}

// crashOf recognises a process ended by the library: out of memory, stack
// overflow or a fatal runtime error with the library on the stack.
func crashOf(stderr string) *props.Violation {
	i := strings.Index(stderr, "fatal error: ")
	if i < 0 || !strings.Contains(stderr, "gagliardetto/binary.") {
		return nil
	}
	line := stderr[i:]
	if k := strings.IndexByte(line, '\n'); k > 0 {
		line = line[:k]
	}
	at := ""
	for _, l := range strings.Split(stderr, "\n") {
		if strings.HasPrefix(l, "github.com/gagliardetto/binary.") {
			at = l
			break
		}
	}
	if k := strings.Index(at, "("); k > 0 && !strings.HasPrefix(at[k:], "(*") {
		at = at[:k]
	} else if k := strings.LastIndex(at, "("); k > 0 {
		at = at[:k]
	}
	return &props.Violation{Class: crashClass, Msg: "the process died: " + line + " in " + strings.TrimPrefix(at, "github.com/gagliardetto/")}
}

func clipEnd(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func trim(c []uint64) []uint64 {
	for len(c) > 0 && c[len(c)-1] == 0 {
		c = c[:len(c)-1]
	}
	return c
}

func cp(c []uint64) []uint64 { return append([]uint64(nil), c...) }

// shrinkChoices minimises choices while test keeps reporting the same violation.
// test returns the normalised choices actually used, or nil.
func shrinkChoices(c []uint64, until time.Time, test func([]uint64) []uint64) []uint64 {
	best := trim(cp(c))
	try := func(x []uint64) bool {
		if time.Now().After(until) {
			return false
		}
		got := test(x)
		if got == nil {
			return false
		}
		got = trim(cp(got))
		if !simpler(got, best) {
			if x2 := trim(cp(x)); simpler(x2, best) {
				best = x2
				return true
			}
			return false
		}
		best = got
		return true
	}
	for time.Now().Before(until) {
		before := cp(best)
		// cut the tail
		for n := len(best) / 2; n >= 1; n /= 2 {
			for len(best) > n && try(cp(best[:len(best)-n])) {
			}
		}
		// delete and zero spans
		for n := len(best) / 2; n >= 1; n /= 2 {
			for i := 0; i+n <= len(best); {
				x := append(cp(best[:i]), best[i+n:]...)
				if try(x) {
					continue
				}
				z := cp(best)
				nz := false
				for k := i; k < i+n; k++ {
					nz = nz || z[k] != 0
					z[k] = 0
				}
				if nz && try(z) {
					i += n
					continue
				}
				i += n
				if time.Now().After(until) {
					return best
				}
			}
		}
		// lower values
		for i := 0; i < len(best); i++ {
			for best[i] > 0 {
				v := best[i]
				ok := false
				for _, w := range []uint64{0, v / 2, v - 1} {
					if w >= v {
						continue
					}
					x := cp(best)
					x[i] = w
					if try(x) {
						ok = true
						break
					}
				}
				if !ok || i >= len(best) || best[i] >= v {
					break
				}
			}
		}
		if len(before) == len(best) {
			same := true
			for i := range best {
				same = same && best[i] == before[i]
			}
			if same {
				break
			}
		}
	}
	return best
}

func simpler(a, b []uint64) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

// shrinkCmd: dst shrink FILE SECONDS — in-process minimisation of the last run.
func shrinkCmd(args []string) {
	rp := load(args[0])
	var secs float64
	fmt.Sscan(args[1], &secs)
	until := time.Now().Add(time.Duration(secs * float64(time.Second)))
	p := props.Get(rp.Property)
	last := &rp.Runs[len(rp.Runs)-1]
	st := props.NewStats()
	s := last.src(rp)
	res, herr := props.Exec(p, s, st, false, rp.Tier)
	if herr != nil || res.Viol == nil || res.Viol.Class != rp.Violation.Class {
		os.Exit(0) // not reproducible here: leave the file as it is
	}
	best := shrinkChoices(res.Rec, until, func(c []uint64) []uint64 {
		res, herr := props.Exec(p, (&RunSpec{Choices: c}).src(rp), st, false, rp.Tier)
		if herr == nil && res.Viol != nil && res.Viol.Class == rp.Violation.Class {
			return res.Rec
		}
		return nil
	})
	last.Index, last.Choices = nil, best
	save(args[0], rp)
}

// minimise turns a failing run into a replay file that a fresh process reproduces.
func minimise(rp *Replay, from int, dir string, secs float64) *Replay {
	want := rp.Violation.Class
	ok := func(x *Replay) *Outcome {
		o, rep, err := sub(x, dir, 120*time.Second)
		if err != nil || o.Violation == nil || o.Violation.Class != want {
			return nil
		}
		if rep != "" {
			x.Race = rep
		}
		return o
	}
	single := &Replay{Property: rp.Property, Tier: rp.Tier, Seed: rp.Seed, Run: rp.Run, Violation: rp.Violation,
		Runs: []RunSpec{{Index: &rp.Run}}}
	o := ok(single)
	if o == nil && want == "race" {
		// the report of a race is suppressed in some schedules of the detector's own memory: retry
		for k := 0; k < 5 && o == nil; k++ {
			o = ok(single)
		}
	}
	if o != nil {
		best := single
		if o.Choices == nil && want == crashClass {
			return finish(best, o, dir)
		}
		if want == "race" {
			until := time.Now().Add(time.Duration(secs * float64(time.Second)))
			c := shrinkChoices(o.Choices, until, func(c []uint64) []uint64 {
				x := *single
				x.Runs = []RunSpec{{Choices: c}}
				if y := ok(&x); y != nil {
					return y.Choices
				}
				return nil
			})
			x := *single
			x.Runs = []RunSpec{{Choices: c}}
			if y := ok(&x); y != nil {
				return finish(&x, y, dir)
			}
			return finish(single, o, dir)
		}
		// in-process minimisation in a helper process
		x := *single
		x.Runs = []RunSpec{{Choices: o.Choices}}
		f := filepath.Join(dir, "shrink.json")
		save(f, &x)
		cmd := exec.Command(os.Args[0], "shrink", f, fmt.Sprint(secs))
		cmd.Env = os.Environ()
		if cmd.Run() == nil {
			y := load(f)
			if p := ok(y); p != nil {
				return finish(y, p, dir)
			}
		}
		return finish(best, o, dir)
	}
	// the violation needs what earlier runs left behind in the process
	var idx []int
	for i := from; i <= rp.Run; i++ {
		idx = append(idx, i)
	}
	mk := func(is []int) *Replay {
		x := *single
		x.Runs = nil
		for k := range is {
			v := is[k]
			x.Runs = append(x.Runs, RunSpec{Index: &v})
		}
		x.Note = "the violation needs state that earlier runs left in the process"
		return &x
	}
	o = ok(mk(idx))
	if o == nil {
		return nil
	}
	until := time.Now().Add(time.Duration(secs * float64(time.Second)))
	for n := len(idx) / 2; n >= 1; n /= 2 {
		for i := 0; i+n < len(idx) && time.Now().Before(until); {
			t := append(append([]int{}, idx[:i]...), idx[i+n:]...)
			if y := ok(mk(t)); y != nil {
				idx, o = t, y
			} else {
				i += n
			}
		}
	}
	return finish(mk(idx), o, dir)
}

func finish(rp *Replay, o *Outcome, dir string) *Replay {
	rp.Violation = o.Violation
	rp.Trace = o.Trace
	return rp
}

func replayCmd(file string) {
	rp := load(file)
	dir, err := os.MkdirTemp("", "dstreplay")
	if err != nil {
		die(2, "%v", err)
	}
	defer os.RemoveAll(dir)
	o, rep, err := sub(rp, dir, 300*time.Second)
	if err != nil {
		os.RemoveAll(dir)
		die(2, "%v", err)
	}
	for _, l := range o.Trace {
		fmt.Println("  " + l)
	}
	if rep != "" {
		fmt.Println(rep)
	}
	if o.Violation != nil {
		fmt.Printf("[%s] %s\n", o.Violation.Class, o.Violation.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, file)
		os.RemoveAll(dir)
		os.Exit(1)
	}
	fmt.Println("no violation: the replayed run holds on this tree")
}
