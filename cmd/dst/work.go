package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/pprof"
	"sort"
	"strings"
	"time"

	"verif.local/dst/model"
	"verif.local/dst/props"
	"verif.local/dst/vs"
)

// WorkOut is what a worker reports.
type WorkOut struct {
	From, To   int
	Done       int
	Stats      *props.Stats
	Steps      uint64
	Switches   uint64
	Hot        int
	Rechecked  int
	Diverged   int
	Divergence string
	Cov        []byte
	Samples    []string
	Viol       *props.Violation
	ViolRun    int
	Harness    string
	Ms         int64
}

func work(args []string) {
	fs := flag.NewFlagSet("work", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	from := fs.Int("from", 0, "")
	to := fs.Int("to", 0, "")
	dir := fs.String("dir", "", "")
	deadline := fs.Int64("deadline", 0, "unix milliseconds")
	fs.Parse(args)
	p := props.Get(*prop)
	if p == nil {
		die(2, "unknown property %q", *prop)
	}
	base := filepath.Join(*dir, fmt.Sprintf("w%d", *from))
	prog, err := os.Create(base + ".progress")
	if err != nil {
		die(2, "%v", err)
	}
	out := &WorkOut{From: *from, To: *to, Stats: props.NewStats(), ViolRun: -1}
	shapes := map[uint64]struct{}{}
	var pb [8]byte
	if f := os.Getenv("DST_CPU"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
	}
	start := time.Now()
	for i := *from; i < *to; i++ {
		if *deadline > 0 && i&15 == 0 && time.Now().UnixMilli() > *deadline {
			break
		}
		binary.LittleEndian.PutUint64(pb[:], uint64(i)+1)
		prog.WriteAt(pb[:], 0)
		races := vs.RaceErrors()
		sample := i == *from && len(out.Samples) < 2
		t0 := time.Now()
		res, herr := props.Exec(p, model.NewSrc(seedOf(*prop, *seed, i)), out.Stats, sample, *tier)
		if d := time.Since(t0); d > time.Second && os.Getenv("DST_SLOW") != "" {
			fmt.Fprintf(os.Stderr, "slow run %d: %v, %d steps\n", i, d, res.Steps)
		}
		if herr != nil {
			out.Harness = fmt.Sprintf("run %d: %v\n%s", i, herr.V, herr.Stack)
			break
		}
		out.Done++
		out.Steps += res.Steps
		out.Switches += uint64(res.Switch)
		if res.Hot {
			out.Hot++
			shapes[res.Shape] = struct{}{}
		}
		if sample {
			lg := res.Log
			if len(lg) > 14 {
				lg = append(append([]string{}, lg[:14]...), "...")
			}
			for k := range lg {
				if len(lg[k]) > 400 {
					lg[k] = lg[k][:400] + "..."
				}
			}
			out.Samples = append(out.Samples, fmt.Sprintf("run %d: %s", i, strings.Join(lg, " | ")))
		}
		if res.Viol == nil && vs.RaceErrors() > races {
			res.Viol = raceViolation()
		}
		if res.Viol != nil && os.Getenv("DST_SURVEY") != "" {
			fmt.Printf("run %d [%s] %s\n", i, res.Viol.Class, res.Viol.Msg)
			continue
		}
		if res.Viol != nil {
			out.Viol, out.ViolRun = res.Viol, i
			break
		}
		if i%61 == 0 {
			out.Rechecked++
			again, _ := props.Exec(p, model.ReplaySrc(res.Rec), props.NewStats(), true, *tier)
			if again.Ev != res.Ev {
				out.Diverged++
				out.Divergence = fmt.Sprintf("run %d", i)
			}
		}
	}
	if os.Getenv("DST_CPU") != "" {
		pprof.StopCPUProfile()
	}
	if f := os.Getenv("DST_HEAP"); f != "" {
		runtime.GC()
		w, _ := os.Create(f)
		pprof.WriteHeapProfile(w)
		w.Close()
	}
	out.Ms = time.Since(start).Milliseconds()
	out.Cov = append([]byte(nil), vs.Coverage()...)
	hb := make([]byte, 0, 8*len(shapes))
	for h := range shapes {
		hb = binary.LittleEndian.AppendUint64(hb, h)
	}
	if err := os.WriteFile(base+".shapes", hb, 0o644); err != nil {
		die(2, "%v", err)
	}
	b, err := json.Marshal(out)
	if err != nil {
		die(2, "%v", err)
	}
	if err := os.WriteFile(base+".json", b, 0o644); err != nil {
		die(2, "%v", err)
	}
}

// raceViolation reads the race detector's report of this process. Races whose
// stacks do not touch the library are the harness's own and end in an error.
func raceViolation() *props.Violation {
	rep := raceReport()
	if !strings.Contains(rep, "gagliardetto/binary") {
		die(3, "data race outside the library:\n%s", rep)
	}
	return &props.Violation{Class: "race", Msg: "data race between simulated threads: " + raceSummary(rep)}
}

func raceReport() string {
	for _, kv := range strings.Fields(os.Getenv("GORACE")) {
		if strings.HasPrefix(kv, "log_path=") {
			f := fmt.Sprintf("%s.%d", kv[len("log_path="):], os.Getpid())
			b, _ := os.ReadFile(f)
			return string(b)
		}
	}
	return ""
}

// raceSummary names the two accesses.
func raceSummary(rep string) string {
	var out []string
	lines := strings.Split(rep, "\n")
	for i, l := range lines {
		t := strings.TrimSpace(l)
		low := strings.ToLower(t)
		if strings.HasPrefix(low, "write at") || strings.HasPrefix(low, "read at") || strings.HasPrefix(low, "previous") || strings.HasPrefix(low, "atomic") {
			what := strings.Fields(t)
			s := what[0]
			if strings.HasPrefix(low, "previous") && len(what) > 1 {
				s += " " + what[1]
			}
			for j := i + 1; j+1 < len(lines) && strings.TrimSpace(lines[j]) != ""; j += 2 {
				if strings.Contains(lines[j], "gagliardetto/binary") {
					loc := strings.TrimSpace(lines[j+1])
					if k := strings.Index(loc, " +0x"); k > 0 {
						loc = loc[:k]
					}
					s += " in " + strings.TrimSpace(lines[j]) + " (" + filepath.Base(loc) + ")"
					break
				}
			}
			out = append(out, s)
			if len(out) == 2 {
				break
			}
		}
	}
	return strings.Join(out, "; ")
}

func sortedKeys(m map[string]int64) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
