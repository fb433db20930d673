package sym

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"

	"verif/engine/smt"
)

// Engine holds the loaded program.
type Engine struct {
	Prog     *ssa.Program
	Fset     *token.FileSet
	Pkgs     map[string]*ssa.Package
	Mod      string // module path of the code under test
	Verif    string // import path suffix of the harness runtime
	gobj     map[*ssa.Global]int32
	poison   map[int32]string
	base     *State
	initSet  map[string]bool
	redir    map[*ssa.Function]*ssa.Function
	redirMu  sync.RWMutex
	methMu   sync.RWMutex
	meths    sync.Map // methKey -> *ssa.Function
	cur      *Run
	baseObjs int32
	vpkg     *ssa.Package
	Loaded   []*packages.Package
}

type methKey struct {
	t int
	n string
	p *types.Package
}

// initPkgs are the packages whose initialisers run before a harness.
var initPkgs = []string{"io", "unicode/utf8", "unicode", "strconv", "math/bits", "strings", "bytes",
	"bufio", "net/url", "slices", "maps", "path", "sort"}

// Load builds SSA for the module in dir with the overlay files.
func Load(dir string, overlay map[string][]byte, patterns []string, mod string) (*Engine, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     dir,
		Fset:    fset,
		Overlay: overlay,
		Env:     append(os.Environ(), "CGO_ENABLED=0", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOWORK=off"),
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 10 {
			errs = errs[:10]
		}
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	var loaded []*packages.Package
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if p.PkgPath == mod || strings.HasPrefix(p.PkgPath, mod+"/") {
			loaded = append(loaded, p)
		}
	})
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	e := &Engine{Prog: prog, Fset: fset, Pkgs: map[string]*ssa.Package{}, Mod: mod,
		gobj: map[*ssa.Global]int32{}, poison: map[int32]string{},
		redir:   map[*ssa.Function]*ssa.Function{},
		initSet: map[string]bool{}, Loaded: loaded}
	for _, p := range initPkgs {
		e.initSet[p] = true
	}
	for _, p := range prog.AllPackages() {
		e.Pkgs[p.Pkg.Path()] = p
		if e.isVerif(p.Pkg.Path()) {
			e.vpkg = p
		}
		if e.isRepo(p.Pkg.Path()) {
			e.initSet[p.Pkg.Path()] = true
		}
	}
	fnInfos = sync.Map{}
	return e, e.initBase()
}

func (e *Engine) isRepo(path string) bool {
	return path == e.Mod || strings.HasPrefix(path, e.Mod+"/")
}

func (e *Engine) isVerif(path string) bool { return strings.HasSuffix(path, "/zzverif") }

func (e *Engine) globalPtr(g *ssa.Global) Value {
	id, ok := e.gobj[g]
	if !ok {
		panic(unsupported{"unknown global " + g.String()})
	}
	return Ptr{obj: id}
}

// initBase allocates all globals and runs the initialisers of the whitelisted packages.
func (e *Engine) initBase() (err error) {
	st := &State{e: e, own: &epoch{}, facts: map[*smt.Term]struct{}{}, model: smt.Model{},
		covers: map[string]bool{}, names: map[string]int{}}
	e.base = st
	paths := make([]string, 0, len(e.Pkgs))
	for p := range e.Pkgs {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, pth := range paths {
		p := e.Pkgs[pth]
		names := make([]string, 0, len(p.Members))
		for n := range p.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			g, ok := p.Members[n].(*ssa.Global)
			if !ok {
				continue
			}
			id := e.allocGlobal(st, g)
			e.gobj[g] = id
			if !e.initSet[pth] {
				e.poison[id] = g.String()
			}
		}
	}
	run := &Run{e: e, cfg: Config{Mode: "seq", MaxSteps: 50_000_000}}
	e.cur = run
	w := &worker{run: run, solver: smt.NewSolver(20000)}
	defer w.solver.Close()
	for _, pth := range e.initOrder() {
		fn := e.Pkgs[pth].Func("init")
		if fn == nil {
			continue
		}
		if lenientPkgs[pth] {
			st.steps, st.w = 0, w
			st.initLenient(fn)
			continue
		}
		st.thr = nil
		st.steps = 0
		st.w = w
		st.spawn(&FuncV{fn: fn}, nil, "init")
		st.cur = 0
		res := w.runState(st)
		if res.viol != nil {
			return fmt.Errorf("init of %s: %s at %s", pth, res.viol.Msg, res.viol.Where)
		}
		if res.why != "done" {
			return fmt.Errorf("init of %s: %s", pth, res.why)
		}
	}
	st.thr = nil
	st.sched = nil
	e.baseObjs = st.nobj
	return nil
}

// lenientPkgs are initialised as far as the engine can: variables whose initialiser it
// cannot execute stay unreadable.
var lenientPkgs = map[string]bool{"os": true, "io/fs": true, "internal/oserror": true, "internal/poll": true,
	"net": true, "syscall": true, "context": true, "internal/strconv": true, "internal/cpu": true, "errors": true, "internal/godebug": true, "time": true, "net/netip": true}

// initLenient executes the straight-line part of a package initialiser, skipping what
// depends on something unsupported.
func (st *State) initLenient(fn *ssa.Function) {
	bad := map[ssa.Value]bool{}
	st.thr = nil
	st.spawn(&FuncV{fn: fn}, nil, "init")
	st.cur = 0
	t := st.thr[0]
	top := t.frames[0]
	clean := true
	if g, ok := fn.Pkg.Members["init$guard"].(*ssa.Global); ok {
		delete(st.e.poison, st.e.gobj[g])
	}
	step := func() (ok bool) {
		defer func() {
			if r := recover(); r != nil {
				if os.Getenv("GOSYM_INIT") != "" {
					fmt.Fprintln(os.Stderr, "init:", fn, r, st.where())
				}
				ok = false
			}
		}()
		for {
			f := t.frames[len(t.frames)-1]
			blk := &f.fi.blocks[f.blk]
			in := &blk.ins[f.ip]
			st.steps++
			if st.steps > 2_000_000 {
				return false
			}
			if st.exec(t, f, in) || t.done {
				return t.done
			}
			st.grant = false
			if len(t.frames) == 1 {
				return true
			}
		}
	}
	for n := 0; !t.done && n < 100000; n++ {
		f := t.frames[0]
		in := &f.fi.blocks[f.blk].ins[f.ip]
		skip := false
		for _, op := range in.ins.Operands(nil) {
			if *op != nil && bad[*op] {
				skip = true
			}
		}
		blk, ip := f.blk, f.ip
		if !skip && step() {
			if x, ok := in.ins.(*ssa.Store); ok {
				if g, ok := x.Addr.(*ssa.Global); ok {
					delete(st.e.poison, st.e.gobj[g])
				}
			}
			continue
		}
		clean = false
		if _, ok := in.ins.(*ssa.If); ok {
			break
		}
		if _, ok := in.ins.(*ssa.Jump); ok {
			break
		}
		if v, ok := in.ins.(ssa.Value); ok {
			bad[v] = true
		}
		t.frames = append(t.frames[:0], top)
		t.done = false
		f = t.frames[0]
		f.blk, f.ip = blk, ip+1
	}
	if clean {
		for _, m := range fn.Pkg.Members {
			if g, ok := m.(*ssa.Global); ok {
				delete(st.e.poison, st.e.gobj[g])
			}
		}
	}
}

func (e *Engine) allocGlobal(st *State, g *ssa.Global) (id int32) {
	t := g.Type().Underlying().(*types.Pointer).Elem()
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsupported); !ok {
				panic(r)
			}
			id = st.allocMem(1, []Value{nil}, g.String())
			e.poison[id] = g.String()
		}
	}()
	return st.allocType(t, g.String())
}

func (e *Engine) initOrder() []string {
	var out []string
	seen := map[string]bool{}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if seen[p.Path()] {
			return
		}
		seen[p.Path()] = true
		im := append([]*types.Package(nil), p.Imports()...)
		sort.Slice(im, func(i, j int) bool { return im[i].Path() < im[j].Path() })
		for _, i := range im {
			visit(i)
		}
		if e.initSet[p.Path()] || lenientPkgs[p.Path()] {
			out = append(out, p.Path())
		}
	}
	var paths []string
	for p := range e.Pkgs {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		visit(e.Pkgs[p].Pkg)
	}
	return out
}

// method finds the implementation of an interface method on a dynamic type.
func (e *Engine) method(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{typeID(t), m.Name(), nil}
	if !m.Exported() {
		k.p = m.Pkg()
	}
	if f, ok := e.meths.Load(k); ok {
		return f.(*ssa.Function)
	}
	e.methMu.Lock()
	defer e.methMu.Unlock()
	f := e.Prog.LookupMethod(t, m.Pkg(), m.Name())
	e.meths.Store(k, f)
	return f
}

// redirect maps functions whose source cannot be executed (reflection) to equivalents in
// the harness runtime.
func (e *Engine) redirect(f *ssa.Function) *ssa.Function {
	n, ok := redirects[fullName(f)]
	if !ok {
		return f
	}
	if e.vpkg != nil {
		if r := e.vpkg.Func(n); r != nil {
			return r
		}
	}
	return f
}

var redirects = map[string]string{
	"errors.Is":                         "X_ErrorsIs",
	"errors.As":                         "X_ErrorsAs",
	"strconv.AppendUint":                "X_AppendUint",
	"strconv.AppendInt":                 "X_AppendInt",
	"strconv.FormatUint":                "X_FormatUint",
	"strconv.FormatInt":                 "X_FormatInt",
	"strconv.Itoa":                      "X_Itoa",
	"fmt.Sprintln":                      "X_Sprintln",
	"fmt.Fprintln":                      "X_Fprintln",
	"fmt.Appendf":                       "X_Appendf",
	"(*sync.Cond).Wait":                 "X_CondWait",
	"sort.Slice":                        "X_SortSlice",
	"sort.SliceStable":                  "X_SortSlice",
	"(*sync.Map).Load":                  "X_MapLoad",
	"(*sync.Map).Store":                 "X_MapStore",
	"(*sync.Map).LoadOrStore":           "X_MapLoadOrStore",
	"(*sync.Map).LoadAndDelete":         "X_MapLoadAndDelete",
	"(*sync.Map).Delete":                "X_MapDelete",
	"(*sync.Map).Range":                 "X_MapRange",
	"(*sync.Map).Swap":                  "X_MapSwap",
	"(*sync.Map).CompareAndSwap":        "X_MapCompareAndSwap",
	"fmt.Sprintf":                       "X_Sprintf",
	"fmt.Errorf":                        "X_Errorf",
	"fmt.Fprintf":                       "X_Fprintf",
	"fmt.Sprint":                        "X_Sprint",
	"fmt.Fprint":                        "X_Fprint",
	"(*net.TCPConn).SetKeepAlive":       "X_TCPSetKeepAlive",
	"(*net.TCPConn).SetKeepAlivePeriod": "X_TCPSetKeepAlivePeriod",
	"(*net.TCPConn).SetNoDelay":         "X_TCPSetNoDelay",
	"(*net.conn).Close":                 "X_ConnClose",
	"(*net.conn).Read":                  "X_ConnRead",
	"(*net.conn).Write":                 "X_ConnWrite",
	"(*net.conn).SetReadDeadline":       "X_ConnSetReadDeadline",
	"(*net.conn).SetWriteDeadline":      "X_ConnSetWriteDeadline",
	"(*net.conn).SetDeadline":           "X_ConnSetDeadline",
	"net.DialTimeout":                   "X_DialTimeout",
}

func fullName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		return o.String()
	}
	return f.String()
}

// ---- runs ----

// Config selects what one run explores.
type Config struct {
	Name        string
	Pkg, Func   string
	Args        []int64
	Mode        string // seq: fork on data only; det: one schedule; explore: all schedules within Preempt
	Preempt     int
	MaxSteps    int64
	MaxPaths    int64
	Timeout     time.Duration
	TimeLimit   int64 // virtual ns
	Race        bool
	Workers     int
	MaxViol     int
	Grace       time.Duration // how long to go on after the first violation (0: no limit)
	TimerBudget int
	NoPoolReuse bool
	Witness     int // completed paths to keep for differential replay
}

// Violation is a counterexample.
type Violation struct {
	Kind  string // assert, panic, deadlock, hang, race, alloc
	Msg   string
	Where string
	ND    []ndRec
	Model smt.Model
	Sched []int16
	Log   []string
	Outs  []outRec
}

type outRec struct {
	Key string
	T   *smt.Term
	S   *StrV
}

// Key identifies the violation site.
func (v *Violation) Key() string { return v.Kind + "|" + v.Msg }

// Witness is a completed path kept for differential replay.
type Witness struct {
	ND    []ndRec
	Model smt.Model
	Sched []int16
	Outs  []outRec
	Cov   []string
}

// Run is one exploration.
type Run struct {
	e         *Engine
	cfg       Config
	mu        sync.Mutex
	cond      *sync.Cond
	stack     []*State
	hard      []*State // put off: whether they are reachable is hard to tell
	idle      int
	stop      atomic.Bool
	abandoned bool // with mu: a worker was left behind, results are final
	done      bool

	Asserts                                  atomic.Int64
	Paths, Killed, Unsup, Dups, Steps, Forks atomic.Int64
	Inconcl                                  map[string]int
	Viols                                    []*Violation
	violSeen                                 map[string]int
	Covers                                   map[string]int
	Funcs                                    map[*ssa.Function]bool
	Witn                                     []*Witness
	visited                                  []visitShard
	Elapsed                                  time.Duration
	Complete                                 bool
	reps                                     int
	start                                    time.Time
}

type visitShard struct {
	mu sync.Mutex
	m  map[[2]uint64]struct{}
}

type worker struct {
	run    *Run
	solver *smt.Solver
	gen    uint32
	mark   []uint32
	tmp    []*smt.Term
	funcs  map[*ssa.Function]bool
	hs     *hasher
	local  int
}

func (w *worker) inconclusive(why string) {
	w.run.mu.Lock()
	if w.run.abandoned {
		w.run.mu.Unlock()
		return
	}
	if w.run.Inconcl == nil {
		w.run.Inconcl = map[string]int{}
	}
	w.run.Inconcl[why]++
	w.run.mu.Unlock()
}

// push queues a state that resumes its current instruction.
func (w *worker) push(st *State) {
	st.pregrant = true
	w.pushSched(st)
}

func (w *worker) pushSched(st *State) {
	r := w.run
	r.Forks.Add(1)
	r.mu.Lock()
	r.stack = append(r.stack, st)
	if r.cond != nil {
		r.cond.Signal()
	}
	r.mu.Unlock()
}

// pushHard puts off a state until nothing else is left.
func (w *worker) pushHard(st *State) {
	st.pregrant = true
	r := w.run
	r.mu.Lock()
	r.hard = append(r.hard, st)
	if r.cond != nil {
		r.cond.Signal()
	}
	r.mu.Unlock()
}

type result struct {
	why  string
	viol *Violation
}

// Explore runs the harness exhaustively within the configuration's bounds.
func (e *Engine) Explore(cfg Config) *Run {
	if cfg.Workers == 0 {
		cfg.Workers = 8
	}
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 3_000_000
	}
	if cfg.TimeLimit == 0 {
		cfg.TimeLimit = int64(10 * time.Minute)
	}
	if cfg.MaxViol == 0 {
		cfg.MaxViol = 6
	}
	r := &Run{e: e, cfg: cfg, Inconcl: map[string]int{}, violSeen: map[string]int{},
		Covers: map[string]int{}, Funcs: map[*ssa.Function]bool{}, start: time.Now(),
		visited: make([]visitShard, 64)}
	for i := range r.visited {
		r.visited[i].m = map[[2]uint64]struct{}{}
	}
	r.cond = sync.NewCond(&r.mu)
	e.cur = r
	pk := e.Pkgs[cfg.Pkg]
	if pk == nil {
		r.Inconcl["no package "+cfg.Pkg] = 1
		return r
	}
	fn := pk.Func(cfg.Func)
	if fn == nil {
		r.Inconcl["no function "+cfg.Func] = 1
		return r
	}
	st := e.base.fork()
	st.model = smt.Model{}
	st.preempt = cfg.Preempt
	st.timeLimit = cfg.TimeLimit
	st.race = cfg.Race
	st.timerBudget = cfg.TimerBudget
	if cfg.Race {
		st.sync = map[Ptr][]int32{}
	}
	var args []Value
	for i, p := range fn.Params {
		w, _, _ := width(p.Type())
		v := int64(0)
		if i < len(cfg.Args) {
			v = cfg.Args[i]
		}
		if w == 0 {
			args = append(args, smt.Bool(v != 0))
		} else {
			args = append(args, smt.Const(w, uint64(v)))
		}
	}
	st.spawn(&FuncV{fn: fn}, args, "main")
	st.cur = 0
	r.stack = append(r.stack, st)
	var wg sync.WaitGroup
	if cfg.Timeout > 0 {
		tm := time.AfterFunc(cfg.Timeout, func() {
			r.stop.Store(true)
			r.mu.Lock()
			r.cond.Broadcast()
			r.mu.Unlock()
		})
		defer tm.Stop()
	}
	for i := 0; i < cfg.Workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := &worker{run: r, solver: smt.NewSolver(15000), funcs: map[*ssa.Function]bool{}, hs: newHasher()}
			defer w.solver.Close()
			w.loop()
			r.mu.Lock()
			if !r.abandoned {
				for f := range w.funcs {
					r.Funcs[f] = true
				}
			}
			r.mu.Unlock()
		}()
	}
	done := make(chan struct{})
	go func() {
		wg.Wait()
		close(done)
	}()
	if cfg.Timeout > 0 {
		// a worker that does not notice the end of its time is left behind
		tm := time.NewTimer(cfg.Timeout + 40*time.Second)
		select {
		case <-done:
		case <-tm.C:
			r.mu.Lock()
			defer r.mu.Unlock()
			r.abandoned = true
			r.Inconcl["a worker did not stop in time"]++
		}
		tm.Stop()
	} else {
		<-done
	}
	r.Elapsed = time.Since(r.start)
	r.Complete = len(r.stack) == 0 && len(r.hard) == 0 && !r.stop.Load()
	if !r.Complete && len(r.Viols) < cfg.MaxViol {
		r.Inconcl["exploration stopped at its time or path limit"]++
	}
	return r
}

func (w *worker) loop() {
	r := w.run
	for {
		r.mu.Lock()
		for len(r.stack) == 0 && len(r.hard) == 0 && !r.done && !r.stop.Load() {
			r.idle++
			if r.idle == r.cfg.Workers {
				r.done = true
				r.cond.Broadcast()
				break
			}
			r.cond.Wait()
			r.idle--
		}
		if r.done || r.stop.Load() {
			r.mu.Unlock()
			return
		}
		from := &r.stack
		if len(r.stack) == 0 {
			from = &r.hard
		}
		st := (*from)[len(*from)-1]
		(*from)[len(*from)-1] = nil
		*from = (*from)[:len(*from)-1]
		r.mu.Unlock()
		if st.pending != nil {
			st.w = w
			if !st.settle() {
				continue
			}
			r.Forks.Add(1)
		}
		res := w.runState(st)
		r.Steps.Add(st.steps)
		switch {
		case res.viol != nil:
			w.report(res.viol)
		case res.why == "done":
			n := r.Paths.Add(1)
			r.mu.Lock()
			if r.abandoned {
				r.mu.Unlock()
				return
			}
			for c := range st.covers {
				r.Covers[c]++
			}
			if r.cfg.Witness > 0 {
				x := &Witness{ND: st.nd, Model: st.model, Sched: st.sched, Outs: st.outs}
				for c := range st.covers {
					x.Cov = append(x.Cov, c)
				}
				if len(r.Witn) < r.cfg.Witness {
					r.Witn = append(r.Witn, x)
				} else if h := uint64(n) * 0x9E3779B97F4A7C15 >> 20 % uint64(n); h < uint64(r.cfg.Witness) {
					r.Witn[h] = x
				}
			}
			r.mu.Unlock()
			if r.cfg.MaxPaths > 0 && n >= r.cfg.MaxPaths {
				r.stop.Store(true)
			}
		case res.why == "dup":
			r.Dups.Add(1)
		case strings.HasPrefix(res.why, "unsupported"):
			r.Unsup.Add(1)
			w.inconclusive(res.why)
		default:
			r.Killed.Add(1)
		}
	}
}

func (w *worker) report(v *Violation) {
	r := w.run
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.abandoned || r.violSeen[v.Key()] >= 3 {
		return
	}
	r.violSeen[v.Key()]++
	r.Viols = append(r.Viols, v)
	stop := func() {
		r.stop.Store(true)
		r.cond.Broadcast()
	}
	if len(r.Viols) >= r.cfg.MaxViol {
		stop()
	}
	if len(r.Viols) == 1 && r.cfg.Grace > 0 {
		// a defect often makes the remaining queries hard as well
		time.AfterFunc(r.cfg.Grace, func() {
			r.mu.Lock()
			stop()
			r.mu.Unlock()
		})
	}
}

// NDValues renders the nondet choices of a counterexample.
func NDValues(nd []ndRec, m smt.Model) map[string]uint64 {
	out := map[string]uint64{}
	for _, n := range nd {
		out[n.Key] = smt.Eval(n.Term, m)
	}
	return out
}

// OutValues renders recorded outputs under a model.
func OutValues(outs []outRec, m smt.Model) []string {
	var r []string
	for _, o := range outs {
		if o.S != nil {
			b := make([]byte, len(o.S.b))
			for i, t := range o.S.b {
				b[i] = byte(smt.Eval(t, m))
			}
			r = append(r, fmt.Sprintf("%s=%q", o.Key, b))
		} else {
			r = append(r, fmt.Sprintf("%s=%d", o.Key, smt.Eval(o.T, m)))
		}
	}
	return r
}
