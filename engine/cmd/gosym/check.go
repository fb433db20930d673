package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/engine/smt"
	"verif/engine/sym"
)

// Job is one bounded symbolic exploration of one harness function.
type Job struct {
	Pkg, Func string
	Args      []int64
	Mode      string // det (default), seq, explore
	Preempt   int
	Timers    int
	Race      bool
	Timeout   int   // seconds
	Steps     int64 // instructions of one path
	NoReuse   bool
	Covers    []string // reachability witnesses this run must produce
	Wit       int      // completed paths replayed natively
	Bound     string   // what the run quantifies over
}

// Check is what decides one property.
type Check struct {
	ID       string
	Quick    []Job
	Thorough []Job // in addition to Quick
}

func (j *Job) label() string {
	s := j.Pkg + "." + j.Func
	var a []string
	for _, x := range j.Args {
		a = append(a, strconv.FormatInt(x, 10))
	}
	s += "(" + strings.Join(a, ",") + ")"
	m := j.Mode
	if m == "" {
		m = "det"
	}
	s += " " + m
	if j.Preempt > 0 {
		s += fmt.Sprintf(" preemptions<=%d", j.Preempt)
	}
	if j.Timers > 0 {
		s += fmt.Sprintf(" early-timers<=%d", j.Timers)
	}
	if j.Race {
		s += " race"
	}
	return s
}

func (j *Job) config(left time.Duration, workers int) sym.Config {
	c := sym.Config{Pkg: modPath + "/memcache", Func: j.Func, Args: j.Args, Mode: j.Mode, Preempt: j.Preempt,
		TimerBudget: j.Timers, Race: j.Race, Workers: workers, MaxSteps: j.Steps, MaxViol: 8, Witness: j.Wit, NoPoolReuse: j.NoReuse}
	if j.Pkg != "memcache" {
		c.Pkg += "/" + j.Pkg
	}
	if c.Mode == "" {
		c.Mode = "det"
	}
	if c.MaxSteps == 0 {
		c.MaxSteps = 40_000_000
	}
	if c.Witness == 0 {
		c.Witness = 2
	}
	t := time.Duration(j.Timeout) * time.Second
	if t == 0 {
		t = 120 * time.Second
	}
	if t > left {
		t = left
	}
	c.Timeout = t
	return c
}

var reErrFile = regexp.MustCompile(`/(zz_[a-z0-9_]+\.go|[a-z0-9_]+\.go):\d+`)

// loadRobust drops harness files of the internal packages that no longer compile.
func loadRobust(verif, repo string) (*sym.Engine, map[string]bool, error) {
	drop := map[string]bool{}
	for {
		e, err := loadEngine(verif, repo, drop)
		if err == nil {
			return e, drop, nil
		}
		n := len(drop)
		for _, m := range reErrFile.FindAllStringSubmatch(err.Error(), -1) {
			if strings.HasPrefix(m[1], "zz_") {
				drop[m[1]] = true
			}
		}
		if len(drop) == n {
			return nil, drop, err
		}
	}
}

type knownFinding struct {
	Property string `json:"property"`
	Harness  string `json:"harness"` // function name
	Args     string `json:"args"`    // "" or comma separated
	Msg      string `json:"msg"`     // substring of the violation
	What     string `json:"what"`
}

type knownFile struct {
	Known []knownFinding `json:"known"`
	Fixed []string       `json:"fixed"`
}

func loadKnown(verif string) (k knownFile) {
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.json"))
	if err != nil {
		return
	}
	_ = json.Unmarshal(b, &k)
	return
}

func argStr(a []int64) string {
	var s []string
	for _, x := range a {
		s = append(s, strconv.FormatInt(x, 10))
	}
	return strings.Join(s, ",")
}

func cmdCheck(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	tier := fs.String("tier", os.Getenv("VERIF_TIER"), "")
	only := fs.String("only", "", "only jobs whose label contains this")
	budget := fs.Duration("budget", 0, "")
	noev := fs.Bool("noevidence", false, "")
	id := args[0]
	_ = fs.Parse(args[1:])
	if *tier == "" {
		*tier = "quick"
	}
	var chk *Check
	for i := range checks {
		if checks[i].ID == id {
			chk = &checks[i]
		}
	}
	if chk == nil {
		fmt.Println("no check for", id)
		os.Exit(2)
	}
	jobs := append([]Job(nil), chk.Quick...)
	total := 600 * time.Second
	if *tier == "thorough" {
		jobs = append(jobs, chk.Thorough...)
		total = 5 * time.Hour
	}
	if *budget > 0 {
		total = *budget
	}
	start := time.Now()
	e, drop, err := loadRobust(*verif, *repo)
	if err != nil {
		fmt.Println("cannot load:", err)
		os.Exit(2)
	}
	if *tier == "quick" {
		smt.CrossCheck = 200
	} else {
		smt.CrossCheck = 20
	}
	work := filepath.Join(*verif, "work", fmt.Sprintf("%s-%d", id, os.Getpid()))
	if err := os.MkdirAll(work, 0o755); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	defer os.RemoveAll(work)
	rp := newReplayer(e, *verif, *repo, work, drop)
	// the replay program builds while the exploration runs
	go func() { _, _ = rp.build(false) }()
	known := loadKnown(*verif)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))

	var runs []map[string]any
	var samples []any
	incon := map[string]int{}
	for d := range drop {
		incon["harness file dropped, it no longer compiles: "+d]++
	}
	funcs := map[string]bool{}
	var paths, steps, forks, asserts, dups, validated, mismatched, killed int64
	complete := true
	violations := 0
	knownHit := map[int]string{}
	confirmedPath := ""
	nviol := 0
	for i := range jobs {
		j := &jobs[i]
		if *only != "" && !strings.Contains(j.label(), *only) {
			continue
		}
		left := total - time.Since(start)
		if left < 5*time.Second {
			incon["time budget used up before "+j.label()]++
			complete = false
			continue
		}
		q0, s0 := smt.Stats.Queries.Load(), smt.Stats.Nanos.Load()
		if *only == "" && i+1 < len(jobs) && left > time.Minute {
			left /= 2 // whatever a change makes of one run, the others get their time
		}
		cfg := j.config(left, runtime.NumCPU())
		if len(known.Known) == 0 {
			cfg.Grace = 20 * time.Second
		}
		r := e.Explore(cfg)
		paths += r.Paths.Load()
		steps += r.Steps.Load()
		forks += r.Forks.Load()
		asserts += r.Asserts.Load()
		dups += r.Dups.Load()
		killed += r.Killed.Load()
		if !r.Complete {
			complete = false
		}
		for k, n := range r.Inconcl {
			incon[j.label()+": "+k] += n
		}
		for _, c := range j.Covers {
			if r.Covers[c] == 0 && len(r.Viols) == 0 {
				incon[j.label()+": vacuous, never reached: "+c]++
				complete = false
			}
		}
		if r.Paths.Load() == 0 && len(r.Viols) == 0 {
			incon[j.label()+": no path completes"]++
			complete = false
		}
		for f := range r.Funcs {
			if p := f.Pkg; p != nil && strings.HasPrefix(p.Pkg.Path(), modPath) && !strings.Contains(p.Pkg.Path(), "/zz") && !strings.HasPrefix(f.Name(), "ZZ_") {
				pos := e.Fset.Position(f.Pos())
				if !strings.HasPrefix(filepath.Base(pos.Filename), "zz") {
					funcs[f.RelString(nil)] = true
				}
			}
		}
		fmt.Printf("%-70s paths=%d dups=%d forks=%d steps=%d asserts=%d queries=%d solver=%.1fs %.1fs complete=%v\n", j.label(), r.Paths.Load(),
			r.Dups.Load(), r.Forks.Load(), r.Steps.Load(), r.Asserts.Load(), smt.Stats.Queries.Load()-q0, float64(smt.Stats.Nanos.Load()-s0)/1e9, r.Elapsed.Seconds(), r.Complete)
		rec := map[string]any{"run": j.label(), "bound": j.Bound, "paths": r.Paths.Load(), "states_merged": r.Dups.Load(), "instructions": r.Steps.Load(),
			"assertions": r.Asserts.Load(), "queries": smt.Stats.Queries.Load() - q0, "exhausted": r.Complete,
			"solver_s": float64(smt.Stats.Nanos.Load()-s0) / 1e9, "wall_s": r.Elapsed.Seconds(), "covers": r.Covers}
		runs = append(runs, rec)
		for _, v := range r.Viols {
			nviol++
			kf := -1
			for n, k := range known.Known {
				if k.Property == id && k.Harness == j.Func && (k.Args == "" || k.Args == argStr(j.Args)) && strings.Contains(v.Msg, k.Msg) {
					kf = n
				}
			}
			nd := sym.NDValues(v.ND, v.Model)
			to := 20 * time.Second
			o, wf, err := rp.run(&cfg, nd, v.Sched, v.Kind == "race", to)
			if err != nil {
				incon[j.label()+": violation not replayed: "+v.Msg+": "+err.Error()]++
				fmt.Println("unconfirmed:", v.Kind, v.Msg, err)
				continue
			}
			if !confirms(v, o) && v.Kind == "race" {
				for k := 0; k < 4 && !confirms(v, o); k++ {
					o, wf, _ = rp.run(&cfg, nd, v.Sched, true, to)
				}
			}
			if !confirms(v, o) {
				incon[fmt.Sprintf("%s: counterexample did not reproduce natively: %s: %s (native: %q %q diverged=%v)", j.label(), v.Kind, v.Msg, o.Kind, o.Viol, o.Diverged)]++
				fmt.Println("unconfirmed:", v.Kind, v.Msg, "at", v.Where, "native:", o.Kind, o.Viol, "diverged", o.Diverged)
				continue
			}
			if kf >= 0 {
				knownHit[kf] = v.Msg
				continue
			}
			violations++
			dst := filepath.Join(*verif, "work", "replay", fmt.Sprintf("%s-%d.json", id, violations))
			_ = os.MkdirAll(filepath.Dir(dst), 0o755)
			writeReplay(dst, wf, id, j, v, o)
			fmt.Printf("  %s: %s\n  at %s\n  inputs %v\n  native run: %s %s\n", v.Kind, v.Msg, v.Where, nd, o.Kind, o.Viol)
			if confirmedPath == "" {
				confirmedPath = dst
			}
		}
		if len(r.Viols) == 0 {
			for _, w := range r.Witn {
				nd := sym.NDValues(w.ND, w.Model)
				o, _, err := rp.run(&cfg, nd, w.Sched, false, 30*time.Second)
				if err != nil {
					incon["replay program does not build: "+err.Error()]++
					break
				}
				if o.Done && sameOuts(w, o) {
					validated++
				} else {
					mismatched++
					incon[j.label()+": native run of a completed path differs from the engine"]++
					fmt.Println("witness mismatch:", j.label(), nd, o.Kind, o.Viol, "diverged", o.Diverged, "done", o.Done)
				}
				if len(samples) < 12 {
					samples = append(samples, map[string]any{"run": j.label(), "inputs": nd, "outputs": sym.OutValues(w.Outs, w.Model), "reached": w.Cov, "schedule_length": len(w.Sched)})
				}
			}
		}
		if confirmedPath != "" && os.Getenv("GOSYM_ALL") == "" {
			break
		}
	}
	var fl []string
	for f := range funcs {
		fl = append(fl, strings.ReplaceAll(f, modPath+"/", ""))
	}
	sort.Strings(fl)
	var inc []string
	for k, n := range incon {
		inc = append(inc, fmt.Sprintf("%s (x%d)", k, n))
	}
	sort.Strings(inc)
	ev := map[string]any{
		"property": id, "tier": *tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states": paths + forks, "transitions": steps, "traces_validated_against_impl": validated,
			"samples": samples, "exhaustive": complete && len(inc) == 0,
			"paths": paths, "merged_states": dups, "abandoned_paths": killed, "forks": forks, "assertions_checked": asserts,
			"queries": smt.Stats.Queries.Load(), "queries_sat": smt.Stats.Sat.Load(), "queries_unsat": smt.Stats.Unsat.Load(),
			"queries_unknown": smt.Stats.Unknown.Load(), "query_cache_hits": smt.Stats.CacheHits.Load(), "solver_s": float64(smt.Stats.Nanos.Load()) / 1e9,
			"functions_encoded": fl, "runs": runs, "inconclusive": inc, "native_mismatches": mismatched, "outside_bounds": outside[id],
		},
		"assumptions": assumptions, "wall_s": time.Since(start).Seconds(), "violations": violations,
	}
	if !*noev {
		_ = os.MkdirAll(filepath.Join(*verif, "evidence"), 0o755)
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(filepath.Join(*verif, "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
			fmt.Println(err)
		}
	}
	for _, s := range inc {
		fmt.Println("inconclusive:", s)
	}
	for n, m := range knownHit {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", id, known.Known[n].What, m)
	}
	fmt.Printf("%s: %d runs, %d paths, %d queries, %d natively validated, %.1fs\n", id, len(runs), paths, smt.Stats.Queries.Load(), validated, time.Since(start).Seconds())
	if confirmedPath != "" {
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, confirmedPath)
		os.RemoveAll(work)
		os.Exit(1)
	}
}

func writeReplay(dst, wf, id string, j *Job, v *sym.Violation, o *Outcome) {
	b, _ := os.ReadFile(wf)
	var w map[string]any
	_ = json.Unmarshal(b, &w)
	txt := o.Text
	if len(txt) > 20000 {
		txt = txt[:20000]
	}
	out := map[string]any{"property": id, "run": j.label(), "kind": v.Kind, "violation": v.Msg, "where": v.Where, "witness": w,
		"native":  map[string]any{"kind": o.Kind, "violation": o.Viol, "output": txt},
		"outputs": sym.OutValues(v.Outs, v.Model), "how": "gosym replay " + dst}
	ob, _ := json.MarshalIndent(out, "", " ")
	_ = os.WriteFile(dst, append(ob, '\n'), 0o644)
}

// cmdReplay runs a recorded counterexample against the code in the repository.
func cmdReplay(args []string) {
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	var d struct {
		Kind    string
		Witness struct {
			Func      string
			Args      []int64
			ND        map[string]uint64
			Sched     []int16
			TimeLimit int64 `json:"time_limit"`
		}
	}
	if err := json.Unmarshal(b, &d); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	e, drop, err := loadRobust("/verif", "/repo")
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	dir, _ := os.MkdirTemp("", "gosym")
	defer os.RemoveAll(dir)
	rp := newReplayer(e, "/verif", "/repo", dir, drop)
	k := strings.LastIndex(d.Witness.Func, ".")
	o, _, err := rp.run(&sym.Config{Pkg: d.Witness.Func[:k], Func: d.Witness.Func[k+1:], Args: d.Witness.Args, TimeLimit: d.Witness.TimeLimit},
		d.Witness.ND, d.Witness.Sched, d.Kind == "race", 30*time.Second)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	fmt.Println(o.Text)
	fmt.Println("native outcome:", o.Kind, o.Viol)
}

func cmdList() {
	for _, c := range checks {
		fmt.Println(c.ID)
		for _, j := range c.Quick {
			fmt.Println("  quick   ", j.label())
		}
		for _, j := range c.Thorough {
			fmt.Println("  thorough", j.label())
		}
	}
}
