// Command gosym decides properties of a Go module by symbolic execution.
package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/engine/smt"
	"verif/engine/sym"
)

func main() {
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(12 << 30)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gosym run|check ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run":
		cmdRun(os.Args[2:])
	case "check":
		cmdCheck(os.Args[2:])
	case "replay":
		cmdReplay(os.Args[2:])
	case "list":
		cmdList()
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

func loadEngine(verif, repo string, drop map[string]bool) (*sym.Engine, error) {
	ov, err := harnessOverlay(verif, repo, false, drop)
	if err != nil {
		return nil, err
	}
	src, err := readOverlay(ov)
	if err != nil {
		return nil, err
	}
	return sym.Load(repo, src, []string{"./memcache/...", "./memcache/zzverif", "./memcache/zzblack"}, modPath)
}

func cmdRun(args []string) {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	pkg := fs.String("pkg", "memcache", "")
	fn := fs.String("func", "", "")
	mode := fs.String("mode", "seq", "")
	av := fs.String("args", "", "")
	pre := fs.Int("preempt", 0, "")
	tmr := fs.Int("timers", 0, "")
	race := fs.Bool("race", false, "")
	workers := fs.Int("j", 8, "")
	to := fs.Duration("timeout", 5*time.Minute, "")
	mv := fs.Int("maxviol", 6, "")
	wn := fs.Int("wit", 3, "")
	prof := fs.String("prof", "", "")
	rep := fs.Bool("replay", false, "")
	verb := fs.Bool("v", false, "")
	steps := fs.Int64("steps", 0, "")
	_ = fs.Parse(args)
	t0 := time.Now()
	e, err := loadEngine(*verif, *repo, nil)
	if err != nil {
		fmt.Println("LOAD:", err)
		os.Exit(2)
	}
	fmt.Printf("loaded in %.1fs\n", time.Since(t0).Seconds())
	if *prof != "" {
		f, _ := os.Create(*prof)
		_ = pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	cfg := sym.Config{Pkg: modPath + "/memcache", Func: *fn, Mode: *mode, Preempt: *pre, TimerBudget: *tmr, Race: *race,
		Workers: *workers, Timeout: *to, MaxViol: *mv, Witness: *wn, MaxSteps: *steps}
	if *pkg != "memcache" {
		cfg.Pkg += "/" + *pkg
	}
	if *av != "" {
		for _, s := range strings.Split(*av, ",") {
			n, _ := strconv.ParseInt(s, 10, 64)
			cfg.Args = append(cfg.Args, n)
		}
	}
	r := e.Explore(cfg)
	printRun(r)
	if *rep {
		dir, _ := os.MkdirTemp("", "gosym")
		defer os.RemoveAll(dir)
		rp := newReplayer(e, *verif, *repo, dir, nil)
		for _, v := range r.Viols {
			o, _, err := rp.run(&cfg, sym.NDValues(v.ND, v.Model), v.Sched, v.Kind == "race", 20*time.Second)
			if err != nil {
				fmt.Println("replay:", err)
				break
			}
			fmt.Printf("replay of %q: confirmed=%v kind=%s viol=%s diverged=%v\n", v.Msg, confirms(v, o), o.Kind, o.Viol, o.Diverged)
			if *verb {
				fmt.Println(o.Text)
			}
		}
		for _, w := range r.Witn {
			o, _, err := rp.run(&cfg, sym.NDValues(w.ND, w.Model), w.Sched, false, 20*time.Second)
			if err != nil {
				fmt.Println("replay:", err)
				break
			}
			fmt.Printf("witness replay: same=%v kind=%s diverged=%v done=%v\n", sameOuts(w, o), o.Kind, o.Diverged, o.Done)
			if *verb {
				fmt.Println(o.Text)
			}
		}
	}
}

func sameOuts(w *sym.Witness, o *Outcome) bool {
	a := sym.OutValues(w.Outs, w.Model)
	if len(a) != len(o.Outs) {
		return false
	}
	for i := range a {
		if a[i] != o.Outs[i] {
			return false
		}
	}
	return true
}

func printRun(r *sym.Run) {
	fmt.Printf("paths=%d killed=%d dups=%d unsup=%d forks=%d steps=%d asserts=%d complete=%v time=%.1fs\n",
		r.Paths.Load(), r.Killed.Load(), r.Dups.Load(), r.Unsup.Load(), r.Forks.Load(), r.Steps.Load(), r.Asserts.Load(), r.Complete, r.Elapsed.Seconds())
	fmt.Printf("queries=%d sat=%d unsat=%d unknown=%d cachehits=%d fallbacks=%d solver=%.1fs\n",
		smt.Stats.Queries.Load(), smt.Stats.Sat.Load(), smt.Stats.Unsat.Load(), smt.Stats.Unknown.Load(), smt.Stats.CacheHits.Load(),
		smt.Stats.Fallbacks.Load(), float64(smt.Stats.Nanos.Load())/1e9)
	for k, n := range r.Inconcl {
		fmt.Printf("inconclusive x%d: %s\n", n, k)
	}
	var cs []string
	for c, n := range r.Covers {
		cs = append(cs, fmt.Sprintf("%s:%d", c, n))
	}
	sort.Strings(cs)
	fmt.Println("covers:", cs)
	for _, v := range r.Viols {
		fmt.Printf("VIOLATION %s: %s\n  at %s\n  nd=%v\n  sched=%v\n  outs=%v\n", v.Kind, v.Msg, v.Where, sym.NDValues(v.ND, v.Model), v.Sched, sym.OutValues(v.Outs, v.Model))
	}
	for _, w := range r.Witn {
		fmt.Printf("witness nd=%v outs=%v cov=%v\n", sym.NDValues(w.ND, w.Model), sym.OutValues(w.Outs, w.Model), w.Cov)
	}
}
