package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"time"

	"verif.local/dst/props"
	"verif.local/dst/vs"
)

type siteFile struct {
	Sites []struct {
		ID   int    `json:"id"`
		File string `json:"file"`
		Line int    `json:"line"`
		Func string `json:"func"`
	} `json:"sites"`
	Notes []string `json:"notes"`
}

func drive(args []string) {
	fs := flag.NewFlagSet("drive", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	sites := fs.String("sites", "", "")
	evidence := fs.String("evidence", "", "")
	outDir := fs.String("out", "", "")
	findings := fs.String("findings", "", "")
	note := fs.String("note", "", "")
	cap := fs.Int("cap", 0, "seconds")
	runs := fs.Int("runs", 0, "")
	workers := fs.Int("workers", 8, "")
	fs.Parse(args)
	p := props.Get(*prop)
	if p == nil {
		die(2, "unknown property %q", *prop)
	}
	total := p.Quick
	limit := 150
	if *tier == "thorough" {
		total, limit = p.Thor, 780
	}
	if *runs > 0 {
		total = *runs
	}
	if *cap > 0 {
		limit = *cap
	}
	start := time.Now()
	deadline := start.Add(time.Duration(limit) * time.Second)
	dir, err := os.MkdirTemp("", "dstrun")
	if err != nil {
		die(2, "%v", err)
	}
	exit := func(code int) {
		os.RemoveAll(dir)
		os.Exit(code)
	}
	chunk := total / (*workers * 8)
	if chunk < 200 {
		chunk = 200
	}
	if chunk > 3000 {
		chunk = 3000
	}
	type job struct{ from, to int }
	jobs := make(chan job, total/chunk+2)
	for i := 0; i < total; i += chunk {
		t := i + chunk
		if t > total {
			t = total
		}
		jobs <- job{i, t}
	}
	close(jobs)

	var mu sync.Mutex
	var outs []*WorkOut
	shapes := map[uint64]struct{}{}
	var viol *WorkOut
	var trouble string
	stop := make(chan struct{})
	var once sync.Once
	halt := func() { once.Do(func() { close(stop) }) }
	var wg sync.WaitGroup
	for w := 0; w < *workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range jobs {
				select {
				case <-stop:
					return
				default:
				}
				if time.Now().After(deadline) {
					return
				}
				o, se, err := runWorker(*prop, *tier, *seed, j.from, j.to, dir, deadline, stop)
				mu.Lock()
				switch {
				case err == errStopped:
				case o != nil && o.Harness != "":
					trouble = "harness failure: " + o.Harness
					halt()
				case o != nil:
					outs = append(outs, o)
					hb, _ := os.ReadFile(filepath.Join(dir, fmt.Sprintf("w%d.shapes", j.from)))
					for k := 0; k+8 <= len(hb); k += 8 {
						shapes[binary.LittleEndian.Uint64(hb[k:])] = struct{}{}
					}
					if o.Viol != nil && (viol == nil || o.ViolRun < viol.ViolRun) {
						viol = o
						halt()
					}
				default:
					// the worker died
					run := progress(dir, j.from)
					v := crashOf(se)
					if v != nil && run >= 0 {
						if viol == nil {
							viol = &WorkOut{From: j.from, Viol: v, ViolRun: run}
						}
					} else if trouble == "" {
						trouble = fmt.Sprintf("worker %d-%d failed at run %d: %v\n%s", j.from, j.to, run, err, clipEnd(se, 4000))
					}
					halt()
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	wall := time.Since(start).Seconds()

	// merge
	st := props.NewStats()
	cov := make([]byte, vs.MaxSites)
	done, hot, rechecked, diverged := 0, 0, 0, 0
	var steps, switches uint64
	var samples []string
	divergence := ""
	for _, o := range outs {
		done += o.Done
		hot += o.Hot
		rechecked += o.Rechecked
		diverged += o.Diverged
		if o.Divergence != "" {
			divergence = o.Divergence
		}
		steps += o.Steps
		switches += o.Switches
		for k, v := range o.Stats.Faults {
			st.Faults[k] += v
		}
		for k, v := range o.Stats.Probes {
			st.Probes[k] += v
		}
		for i, c := range o.Cov {
			cov[i] |= c
		}
		if len(samples) < 3 {
			samples = append(samples, o.Samples...)
		}
	}
	if done == 0 && viol == nil {
		fmt.Fprintln(os.Stderr, trouble)
		exit(2)
	}

	code := 0
	nviol := 0
	if viol != nil {
		rp := &Replay{Property: *prop, Tier: *tier, Seed: *seed, Run: viol.ViolRun, Violation: viol.Viol}
		secs := 12.0
		if *tier == "thorough" {
			secs = 45
		}
		m := minimise(rp, viol.From, dir, secs)
		if m == nil {
			fmt.Fprintf(os.Stderr, "dst: run %d reported [%s] %s, but a fresh process does not reproduce it\n", viol.ViolRun, viol.Viol.Class, viol.Viol.Msg)
			exit(2)
		}
		known := matchFinding(*findings, *prop, m)
		if known != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, known)
		} else {
			os.MkdirAll(*outDir, 0o755)
			file := filepath.Join(*outDir, fmt.Sprintf("%s-seed%d-run%d.json", *prop, *seed, m.Run))
			save(file, m)
			fmt.Printf("property %s broken: [%s] %s\n", *prop, m.Violation.Class, m.Violation.Msg)
			fmt.Printf("seed %d, run %d, %d recorded choices after minimisation; trace:\n", *seed, m.Run, len(m.Runs[len(m.Runs)-1].Choices))
			for i, l := range m.Trace {
				if i > 60 {
					fmt.Println("  ...")
					break
				}
				fmt.Println("  " + clipEnd(l, 1500))
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, file)
			code = 1
			nviol = 1
		}
	} else if trouble != "" {
		fmt.Fprintln(os.Stderr, trouble)
		exit(2)
	}

	cover, covered, nsites, notes := coverage(*sites, cov)
	faults := map[string]int64{}
	for _, k := range sortedKeys(st.Faults) {
		faults[k] = st.Faults[k]
	}
	ev := map[string]interface{}{
		"property": *prop, "tier": *tier, "seed": *seed, "level": "exploration", "wall_s": round(wall), "violations": nviol,
		"assumptions": []string{
			"the reference model in /verif/model describes the wire formats correctly",
			"the overlay inserts calls and redirects map enumeration and package sync; it changes no other behaviour",
			"only the shapes, values, faults and schedules that the seeded runs reached were judged",
		},
		"coverage": map[string]interface{}{
			"evaluations": done, "distinct_nontrivial": len(shapes), "rule": p.Rule, "samples": samples,
			"runs_planned":           total,
			"runs_with_faults":       hot,
			"runs_per_hour":          int64(float64(done) / wall * 3600),
			"seeds":                  []uint64{*seed},
			"simulated_time":         map[string]interface{}{"unit": "library statements executed", "total": steps},
			"context_switches":       switches,
			"faults_fired":           faults,
			"probes":                 st.Probes,
			"library_statements":     nsites,
			"statements_reached":     covered,
			"functions_not_reached":  cover,
			"determinism_rechecks":   rechecked,
			"determinism_mismatches": diverged,
			"determinism_note":       divergence,
			"real_code":              p.Real,
			"stubs":                  p.Stub,
			"workers":                *workers,
			"build":                  *note,
			"race_detector":          vs.RaceBuild,
			"instrumentation_notes":  notes,
			"go":                     runtime.Version(),
			"capped":                 done < total && viol == nil,
		},
	}
	if *evidence != "" {
		os.MkdirAll(filepath.Dir(*evidence), 0o755)
		save(*evidence, ev)
	}
	fmt.Printf("%s %s: %d runs in %.1fs (%d with faults, %d distinct), %d statements simulated, %d/%d library statements reached, violations %d\n",
		*prop, *tier, done, wall, hot, len(shapes), steps, covered, nsites, nviol)
	exit(code)
}

func round(x float64) float64 { return float64(int(x*100)) / 100 }

var errStopped = fmt.Errorf("stopped")

func progress(dir string, from int) int {
	b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("w%d.progress", from)))
	if err != nil || len(b) < 8 {
		return -1
	}
	return int(binary.LittleEndian.Uint64(b)) - 1
}

func runWorker(prop, tier string, seed uint64, from, to int, dir string, deadline time.Time, stop chan struct{}) (*WorkOut, string, error) {
	cmd := exec.Command(os.Args[0], "work", "-prop", prop, "-tier", tier, "-seed", fmt.Sprint(seed),
		"-from", fmt.Sprint(from), "-to", fmt.Sprint(to), "-dir", dir, "-deadline", fmt.Sprint(deadline.UnixMilli()))
	cmd.Env = append(os.Environ(), "GORACE=log_path="+filepath.Join(dir, "race")+" exitcode=0 history_size=3", "GOTRACEBACK=all")
	var se strings.Builder
	cmd.Stderr = &limited{&se, 1 << 20}
	if err := cmd.Start(); err != nil {
		return nil, "", err
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	last, lastAt := -2, time.Now()
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case err := <-done:
			b, rerr := os.ReadFile(filepath.Join(dir, fmt.Sprintf("w%d.json", from)))
			if rerr == nil && err == nil {
				var o WorkOut
				if jerr := json.Unmarshal(b, &o); jerr == nil {
					return &o, se.String(), nil
				}
			}
			if err == nil {
				err = rerr
			}
			return nil, se.String(), err
		case <-stop:
			cmd.Process.Kill()
			<-done
			return nil, "", errStopped
		case <-tick.C:
			if pr := progress(dir, from); pr != last {
				last, lastAt = pr, time.Now()
			} else if time.Since(lastAt) > 90*time.Second {
				cmd.Process.Kill()
				<-done
				return nil, "", fmt.Errorf("run %d makes no progress for 90 s of real time", pr)
			}
		}
	}
}

type limited struct {
	b *strings.Builder
	n int
}

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < l.n {
		l.b.Write(p)
	}
	return len(p), nil
}

// coverage lists library functions no run reached.
func coverage(file string, cov []byte) (missing []string, covered, n int, notes []string) {
	missing = []string{}
	b, err := os.ReadFile(file)
	if err != nil {
		return
	}
	var sf siteFile
	if json.Unmarshal(b, &sf) != nil {
		return
	}
	fn := map[string]bool{}
	var order []string
	for _, s := range sf.Sites {
		if s.Line == 0 {
			continue
		}
		n++
		k := s.File + ":" + s.Func
		if _, ok := fn[k]; !ok {
			order = append(order, k)
		}
		hit := s.ID < len(cov) && cov[s.ID] != 0
		fn[k] = fn[k] || hit
		if hit {
			covered++
		}
	}
	for _, k := range order {
		if !fn[k] {
			missing = append(missing, k)
		}
	}
	return missing, covered, n, sf.Notes
}

// Finding is a listed known defect, identified by what fails.
type Finding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // known or fixed
	Class    string `json:"class"`
	Match    string `json:"match"`
	What     string `json:"what"`
}

func matchFinding(file, prop string, rp *Replay) string {
	b, err := os.ReadFile(file)
	if err != nil {
		return ""
	}
	var fs []Finding
	if json.Unmarshal(b, &fs) != nil {
		return ""
	}
	for _, f := range fs {
		if f.Status == "known" && f.Property == prop && f.Class == rp.Violation.Class && f.Match != "" && strings.Contains(rp.Violation.Msg, f.Match) {
			return f.What
		}
	}
	return ""
}
