// Command dst runs the simulator.
//
//	dst drive  -prop C01 -tier quick -seed 1 ...   many runs in worker processes; writes evidence and replay files
//	dst work   ...                                  one chunk of runs
//	dst exec   FILE                                 executes a replay file's runs and prints the outcome
//	dst shrink FILE                                 minimises a replay file in place
//	dst replay FILE                                 executes and explains a replay file
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"syscall"

	"verif.local/dst/model"
	"verif.local/dst/props"
	"verif.local/dst/vs"
)

// Replay is the file that reproduces a violation.
type Replay struct {
	Property  string           `json:"property"`
	Tier      string           `json:"tier"`
	Seed      uint64           `json:"seed"`
	Run       int              `json:"run"`
	Runs      []RunSpec        `json:"runs"`
	Violation *props.Violation `json:"violation"`
	Race      string           `json:"race_report,omitempty"`
	Trace     []string         `json:"trace"`
	Note      string           `json:"note,omitempty"`
}

// RunSpec is one run: its recorded choices, or its index under the seed.
type RunSpec struct {
	Index   *int     `json:"index,omitempty"`
	Choices []uint64 `json:"choices,omitempty"`
}

// Outcome of executing a replay file.
type Outcome struct {
	Violation *props.Violation `json:"violation"`
	Trace     []string         `json:"trace,omitempty"`
	Ev        uint64           `json:"ev"`
	Choices   []uint64         `json:"choices"`
}

func seedOf(prop string, seed uint64, run int) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(prop); i++ {
		h = (h ^ uint64(prop[i])) * 1099511628211
	}
	return model.Mix(model.Mix(seed, h), uint64(run)+1)
}

func die(code int, format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "dst: "+format+"\n", a...)
	os.Exit(code)
}

func main() {
	if len(os.Args) < 2 {
		die(2, "usage: dst drive|work|exec|shrink|replay")
	}
	args := os.Args[2:]
	switch os.Args[1] {
	case "drive":
		drive(args)
	case "work":
		limits()
		work(args)
	case "exec":
		limits()
		execCmd(args[0])
	case "shrink":
		limits()
		shrinkCmd(args)
	case "replay":
		replayCmd(args[0])
	default:
		die(2, "unknown command %q", os.Args[1])
	}
}

// limits bounds what a misbehaving library can take from the machine.
func limits() {
	runtime.GOMAXPROCS(1)
	debug.SetMaxStack(96 << 20)
	debug.SetGCPercent(200)
	if !vs.RaceBuild {
		lim := syscall.Rlimit{Cur: 5 << 30, Max: 10 << 30} // C06 raises it for a mapping of its own
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
}

func load(file string) *Replay {
	b, err := os.ReadFile(file)
	if err != nil {
		die(2, "%v", err)
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		die(2, "%s: %v", file, err)
	}
	return &rp
}

func save(file string, v interface{}) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		die(2, "%v", err)
	}
	tmp := file + ".tmp"
	if err := os.WriteFile(tmp, append(b, '\n'), 0o644); err != nil {
		die(2, "%v", err)
	}
	if err := os.Rename(tmp, file); err != nil {
		die(2, "%v", err)
	}
}

func (sp *RunSpec) src(rp *Replay) *model.Src {
	if sp.Index != nil {
		return model.NewSrc(seedOf(rp.Property, rp.Seed, *sp.Index))
	}
	return model.ReplaySrc(sp.Choices)
}

// execRuns executes all runs of a replay file in this process; the last one counts.
func execRuns(rp *Replay, trace bool) *Outcome {
	p := props.Get(rp.Property)
	if p == nil {
		die(2, "unknown property %q", rp.Property)
	}
	st := props.NewStats()
	out := &Outcome{}
	for i := range rp.Runs {
		last := i == len(rp.Runs)-1
		races := vs.RaceErrors()
		res, herr := props.Exec(p, rp.Runs[i].src(rp), st, trace && last, rp.Tier)
		if herr != nil {
			die(3, "harness failure: %v\n%s", herr.V, herr.Stack)
		}
		if last {
			out.Violation, out.Trace, out.Ev, out.Choices = res.Viol, res.Log, res.Ev, res.Rec
			if out.Violation == nil && vs.RaceErrors() > races {
				out.Violation = raceViolation()
			}
		}
	}
	return out
}

func execCmd(file string) {
	out := execRuns(load(file), true)
	b, _ := json.Marshal(out)
	os.Stdout.Write(b)
}
