package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif/engine/sym"
)

// Replayer builds and runs the native program that follows a recorded witness.
type Replayer struct {
	repo, verif, dir string
	e                *sym.Engine
	drop             map[string]bool
	mu               sync.Mutex
	bins             map[bool]string
	errs             map[bool]error
	seq              int
}

func newReplayer(e *sym.Engine, verif, repo, dir string, drop map[string]bool) *Replayer {
	return &Replayer{repo: repo, verif: verif, dir: dir, e: e, drop: drop, bins: map[bool]string{}, errs: map[bool]error{}}
}

func goEnv() []string {
	return append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOWORK=off")
}

// build compiles the replay program (once per race setting).
func (r *Replayer) build(race bool) (string, error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if b, ok := r.bins[race]; ok {
		return b, r.errs[race]
	}
	b, err := r.build1(race)
	r.bins[race], r.errs[race] = b, err
	return b, err
}

func (r *Replayer) build1(race bool) (string, error) {
	src := filepath.Join(r.dir, "replay")
	if err := os.MkdirAll(src, 0o755); err != nil {
		return "", err
	}
	symOv, err := harnessOverlay(r.verif, r.repo, false, r.drop)
	if err != nil {
		return "", err
	}
	ov, err := harnessOverlay(r.verif, r.repo, true, r.drop)
	if err != nil {
		return "", err
	}
	rw, err := rewriteAll(r.e.Loaded, symOv, src)
	if err != nil {
		return "", err
	}
	for k, v := range rw {
		ov[k] = v
	}
	for _, d := range []string{"zsync", "zatomic", "zztime"} {
		fs, _ := filepath.Glob(filepath.Join(r.verif, "harness/zzverif", d, "*.go"))
		for _, f := range fs {
			ov[filepath.Join(r.repo, "memcache/zzverif", d, filepath.Base(f))] = f
		}
	}
	mainSrc, err := r.mainSource()
	if err != nil {
		return "", err
	}
	mf := filepath.Join(src, "main.go")
	if err := os.WriteFile(mf, []byte(mainSrc), 0o644); err != nil {
		return "", err
	}
	ov[filepath.Join(r.repo, "memcache/zzreplay/main.go")] = mf
	j, _ := json.Marshal(map[string]any{"Replace": ov})
	of := filepath.Join(src, "overlay.json")
	if err := os.WriteFile(of, j, 0o644); err != nil {
		return "", err
	}
	bin := filepath.Join(src, "zzreplay.bin")
	args := []string{"build", "-gcflags=" + modPath + "/...=-d=checkptr", "-overlay", of, "-o", bin}
	if race {
		bin = filepath.Join(src, "zzreplay.race.bin")
		args = []string{"build", "-race", "-overlay", of, "-o", bin}
	}
	args = append(args, "./memcache/zzreplay")
	cmd := exec.Command("go", args...)
	cmd.Dir = r.repo
	cmd.Env = goEnv()
	if race {
		cmd.Env = append(cmd.Env, "CGO_ENABLED=1")
	}
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("replay build: %v: %s", err, out)
	}
	return bin, nil
}

func (r *Replayer) mainSource() (string, error) {
	var imp, tab strings.Builder
	var paths []string
	for p := range r.e.Pkgs {
		if strings.HasPrefix(p, modPath+"/") && !strings.Contains(p, "/zzverif") {
			paths = append(paths, p)
		}
	}
	sort.Strings(paths)
	for i, p := range paths {
		sc := r.e.Pkgs[p].Pkg.Scope()
		used := false
		for _, n := range sc.Names() {
			f, ok := sc.Lookup(n).(*types.Func)
			if !ok || !strings.HasPrefix(n, "ZZ_") {
				continue
			}
			used = true
			sig := f.Type().(*types.Signature)
			var as []string
			for k := 0; k < sig.Params().Len(); k++ {
				as = append(as, fmt.Sprintf("arg(a, %d)", k))
			}
			fmt.Fprintf(&tab, "\t%q: func(a []int) { p%d.%s(%s) },\n", p+"."+n, i, n, strings.Join(as, ", "))
		}
		if used {
			fmt.Fprintf(&imp, "\tp%d %q\n", i, p)
		}
	}
	return `package main

import (
	"os"
	"strconv"

	"` + modPath + `/memcache/zzverif"
` + imp.String() + `)

func arg(a []int, i int) int {
	if i < len(a) {
		return a[i]
	}
	return 0
}

var table = map[string]func([]int){
` + tab.String() + `}

func main() {
	var a []int
	for _, s := range os.Args[2:] {
		n, _ := strconv.Atoi(s)
		a = append(a, n)
	}
	f := table[os.Args[1]]
	zzverif.Main(func() { f(a) })
}
`, nil
}

// Outcome of one native run.
type Outcome struct {
	Viol     string // violation text or ""
	Kind     string // assert, panic, hang, alloc, race, "" (clean), assume
	Outs     []string
	Covers   []string
	Diverged bool
	Text     string
	Done     bool
}

var reAlloc = regexp.MustCompile(`ZZ-ALLOC: (\d+)`)

// run replays one witness.
func (r *Replayer) run(cfg *sym.Config, nd map[string]uint64, sched []int16, race bool, timeout time.Duration) (*Outcome, string, error) {
	bin, err := r.build(race)
	if err != nil {
		return nil, "", err
	}
	r.mu.Lock()
	r.seq++
	wf := filepath.Join(r.dir, fmt.Sprintf("wit%d.json", r.seq))
	r.mu.Unlock()
	sc := make([]int, len(sched))
	for i, s := range sched {
		sc[i] = int(s)
	}
	b, _ := json.Marshal(map[string]any{"func": cfg.Pkg + "." + cfg.Func, "args": cfg.Args, "nd": nd, "sched": sc, "time_limit": cfg.TimeLimit})
	if err := os.WriteFile(wf, b, 0o644); err != nil {
		return nil, "", err
	}
	args := []string{cfg.Pkg + "." + cfg.Func}
	for _, a := range cfg.Args {
		args = append(args, fmt.Sprint(a))
	}
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	var cmd *exec.Cmd
	if race {
		cmd = exec.CommandContext(ctx, bin, args...)
	} else {
		cmd = exec.CommandContext(ctx, "/bin/sh", append([]string{"-c", `ulimit -v 12000000; exec "$0" "$@"`, bin}, args...)...)
	}
	cmd.Env = append(os.Environ(), "ZZ_WITNESS="+wf, "GORACE=halt_on_error=0", "GOTRACEBACK=single")
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	_ = cmd.Run()
	o := &Outcome{Text: buf.String()}
	timedOut := ctx.Err() != nil
	for _, l := range strings.Split(o.Text, "\n") {
		switch {
		case strings.HasPrefix(l, "ZZ-VIOLATION: "):
			o.Kind, o.Viol = "assert", strings.TrimPrefix(l, "ZZ-VIOLATION: ")
		case strings.HasPrefix(l, "ZZ-OUT: "):
			o.Outs = append(o.Outs, strings.TrimPrefix(l, "ZZ-OUT: "))
		case strings.HasPrefix(l, "ZZ-COVER: "):
			o.Covers = append(o.Covers, strings.TrimPrefix(l, "ZZ-COVER: "))
		case strings.HasPrefix(l, "ZZ-ASSUME-FAILED"):
			o.Kind = "assume"
		case strings.HasPrefix(l, "ZZ-DIVERGED: true"), strings.HasPrefix(l, "ZZ-DONE diverged=true"):
			o.Diverged = true
		case strings.HasPrefix(l, "panic: "), strings.HasPrefix(l, "fatal error: "):
			if o.Kind == "" {
				o.Kind, o.Viol = "panic", l
			}
		}
		if strings.HasPrefix(l, "ZZ-DONE") {
			o.Done = true
		}
	}
	if o.Kind == "assert" && (strings.HasPrefix(o.Viol, "blocked forever") || strings.HasPrefix(o.Viol, "still blocked")) {
		o.Kind = "hang"
	}
	if o.Kind == "" && timedOut {
		o.Kind, o.Viol = "hang", "no end within the replay time limit"
	}
	if o.Kind == "" {
		if m := reAlloc.FindStringSubmatch(o.Text); m != nil {
			var n uint64
			fmt.Sscan(m[1], &n)
			if n > 120<<20 {
				o.Kind, o.Viol = "alloc", fmt.Sprintf("%d bytes allocated", n)
			}
		}
	}
	if race && o.Kind == "" {
		if s := repoRace(o.Text); s != "" {
			o.Kind, o.Viol = "race", s
		}
	}
	return o, wf, nil
}

// repoRace finds a race report whose two accesses are both in the code under test.
func repoRace(txt string) string {
	parts := strings.Split(txt, "WARNING: DATA RACE")
	for _, p := range parts[1:] {
		if i := strings.Index(p, "=================="); i >= 0 {
			p = p[:i]
		}
		ls := strings.Split(p, "\n")
		hits := 0
		var fns []string
		for i, l := range ls {
			if (strings.HasPrefix(l, "Read at") || strings.HasPrefix(l, "Write at") || strings.HasPrefix(l, "Previous ") || strings.HasPrefix(l, "Atomic ")) && i+2 < len(ls) {
				// the first frame outside the runtime and the standard library decides
				for j := i + 1; j+1 < len(ls) && strings.TrimSpace(ls[j]) != ""; j += 2 {
					fn, file := strings.TrimSpace(ls[j]), strings.TrimSpace(ls[j+1])
					if !strings.Contains(fn, modPath) {
						continue
					}
					if strings.Contains(file, "/zz") {
						break
					}
					hits++
					fns = append(fns, fn)
					break
				}
			}
		}
		if hits >= 2 {
			return strings.Join(fns, " vs ")
		}
	}
	return ""
}

// confirms says whether a native outcome reproduces a violation.
func confirms(v *sym.Violation, o *Outcome) bool {
	switch v.Kind {
	case "assert":
		return o.Kind == "assert" && o.Viol == v.Msg || o.Kind == "panic" || o.Kind == "hang"
	case "panic":
		return o.Kind == "panic" || o.Kind == "assert"
	case "deadlock", "hang":
		return o.Kind == "hang"
	case "alloc":
		return o.Kind == "alloc" || o.Kind == "panic"
	case "race":
		return o.Kind == "race"
	}
	return false
}
