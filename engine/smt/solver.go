package smt

import (
	"bufio"
	"encoding/binary"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Result of a query.
type Result int

const (
	Unknown Result = iota
	Sat
	Unsat
)

// Stats of all solving.
type StatsT struct {
	Queries, Sat, Unsat, Unknown, CacheHits, Fallbacks atomic.Int64
	Nanos                                              atomic.Int64
}

// Stats is process-wide.
var Stats StatsT

// CrossCheck, when > 0, re-asks every n-th query to a second solver and panics on disagreement.
var CrossCheck int64

type cached struct {
	r     Result
	m     Model
	quick bool // only a short attempt was made
}

const cacheShards = 64

var caches [cacheShards]struct {
	mu sync.RWMutex
	m  map[string]cached
}

func init() {
	for i := range caches {
		caches[i].m = map[string]cached{}
	}
}

// Solver drives one solver process.
type Solver struct {
	cmdline  []string
	cmd      *exec.Cmd
	in       io.WriteCloser
	out      *bufio.Reader
	n        int
	TimeoutM int
	cur      int // time-out set in the process
}

// quickMs bounds a first attempt at a query.
const quickMs = 500

// NewSolver returns a lazily started z3 process.
var slowLog = os.Getenv("GOSYM_SLOW") != ""

func NewSolver(timeoutMs int) *Solver {
	return &Solver{cmdline: []string{"z3", "-in", "-smt2"}, TimeoutM: timeoutMs}
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.cmdline[0], s.cmdline[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.in, s.out, s.n = in, bufio.NewReaderSize(out, 1<<16), 0
	s.cur = 0
	_, err = fmt.Fprintf(in, "(set-option :print-success false)\n")
	return err
}

// Close ends the process.
func (s *Solver) Close() {
	if s.cmd != nil {
		_ = s.in.Close()
		_ = s.cmd.Process.Kill()
		_ = s.cmd.Wait()
		s.cmd = nil
	}
}

func cacheKey(ts []*Term) string {
	b := make([]byte, 4*len(ts))
	for i, t := range ts {
		binary.LittleEndian.PutUint32(b[4*i:], t.ID)
	}
	return string(b)
}

// Check decides the conjunction of ts.
func (s *Solver) Check(ts []*Term) (Result, Model) { return s.check(ts, false) }

// CheckQuick is Check with a short time limit.
func (s *Solver) CheckQuick(ts []*Term) (Result, Model) { return s.check(ts, true) }

func (s *Solver) check(ts []*Term, quick bool) (Result, Model) {
	ts = SortTerms(append([]*Term(nil), ts...))
	out := ts[:0]
	for _, t := range ts {
		if t == False {
			return Unsat, nil
		}
		if t != True {
			out = append(out, t)
		}
	}
	ts = out
	if len(ts) == 0 {
		return Sat, Model{}
	}
	k := cacheKey(ts)
	c := &caches[(uint32(len(k))*31+uint32(k[0])+uint32(k[len(k)-4])*7)%cacheShards]
	c.mu.RLock()
	r, ok := c.m[k]
	c.mu.RUnlock()
	if ok && (r.r != Unknown || quick || !r.quick) {
		Stats.CacheHits.Add(1)
		return r.r, r.m
	}
	res, m := s.raw(ts, quick)
	c.mu.Lock()
	c.m[k] = cached{res, m, quick}
	c.mu.Unlock()
	return res, m
}

func (s *Solver) raw(ts []*Term, quick bool) (Result, Model) {
	t0 := time.Now()
	script, vars := Script(ts)
	ms := s.TimeoutM
	if quick {
		ms = min(ms, quickMs)
	}
	res, m, err := s.ask(script, vars, ms)
	if err != nil {
		s.Close()
		res, m, err = s.ask(script, vars, ms)
		if err != nil {
			s.Close()
			res = Unknown
		}
	}
	if res == Unknown && !quick {
		Stats.Fallbacks.Add(1)
		res, m = portfolio(script, vars)
	}
	n := Stats.Queries.Add(1)
	Stats.Nanos.Add(int64(time.Since(t0)))
	if slowLog && time.Since(t0) > 500*time.Millisecond {
		fmt.Fprintf(os.Stderr, "slow query (%v, %v):\n", time.Since(t0), res)
		for _, t := range ts {
			fmt.Fprintln(os.Stderr, "   ", t)
		}
	}
	switch res {
	case Sat:
		Stats.Sat.Add(1)
		// the model is validated by evaluation: a wrong model is a solver or encoding bug
		for _, t := range ts {
			if Eval(t, m) != 1 {
				panic("smt: model does not satisfy " + t.String())
			}
		}
	case Unsat:
		Stats.Unsat.Add(1)
	default:
		if !quick {
			Stats.Unknown.Add(1)
		}
	}
	if CrossCheck > 0 && n%CrossCheck == 0 && res != Unknown {
		r2 := oneShot([]string{"cvc5", "--lang=smt2", "--tlimit=20000"}, "(set-logic QF_BV)\n"+script+"(check-sat)\n")
		if r2 != Unknown && r2 != res {
			panic("smt: solvers disagree on\n" + script)
		}
	}
	return res, m
}

func (s *Solver) ask(script string, vars []uint32, ms int) (Result, Model, error) {
	if s.cmd != nil && s.n > 4000 {
		s.Close()
	}
	if s.cmd == nil {
		if err := s.start(); err != nil {
			return Unknown, nil, err
		}
	}
	s.n++
	var sb strings.Builder
	if ms != s.cur {
		fmt.Fprintf(&sb, "(set-option :timeout %d)\n", ms)
		s.cur = ms
	}
	sb.WriteString("(push)\n")
	sb.WriteString(script)
	sb.WriteString("(check-sat)\n")
	if _, err := io.WriteString(s.in, sb.String()); err != nil {
		return Unknown, nil, err
	}
	proc, late := s.cmd.Process, atomic.Bool{}
	guard := time.AfterFunc(time.Duration(2*ms)*time.Millisecond+10*time.Second, func() {
		late.Store(true)
		_ = proc.Kill()
	})
	line, err := s.out.ReadString('\n')
	guard.Stop()
	if late.Load() { // the solver ignored its time limit
		s.Close()
		return Unknown, nil, nil
	}
	if err != nil {
		return Unknown, nil, err
	}
	line = strings.TrimSpace(line)
	switch line {
	case "unsat":
		_, err := io.WriteString(s.in, "(pop)\n")
		return Unsat, nil, err
	case "unknown", "timeout":
		_, err := io.WriteString(s.in, "(pop)\n")
		return Unknown, nil, err
	case "sat":
	default:
		return Unknown, nil, fmt.Errorf("solver said %q", line)
	}
	m := Model{}
	if len(vars) > 0 {
		sb.Reset()
		sb.WriteString("(get-value (")
		for _, v := range vars {
			sb.WriteString(vname(v))
			sb.WriteByte(' ')
		}
		sb.WriteString("))\n(pop)\n")
		if _, err := io.WriteString(s.in, sb.String()); err != nil {
			return Unknown, nil, err
		}
		txt, err := s.readSexp()
		if err != nil {
			return Unknown, nil, err
		}
		if err := parseModel(txt, m); err != nil {
			return Unknown, nil, err
		}
	} else if _, err := io.WriteString(s.in, "(pop)\n"); err != nil {
		return Unknown, nil, err
	}
	return Sat, m, nil
}

func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	for {
		line, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		sb.WriteString(line)
		depth += strings.Count(line, "(") - strings.Count(line, ")")
		if depth <= 0 && strings.TrimSpace(sb.String()) != "" {
			return sb.String(), nil
		}
	}
}

func parseModel(txt string, m Model) error {
	f := strings.FieldsFunc(txt, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' || r == '\t' || r == '\r' })
	for i := 0; i+1 < len(f); i += 2 {
		if f[i] == "error" || f[i][0] != 'v' {
			return fmt.Errorf("bad model %q", txt)
		}
		n, err := strconv.Atoi(f[i][1:])
		if err != nil {
			return err
		}
		v := f[i+1]
		switch {
		case v == "true":
			m[uint32(n)] = 1
		case v == "false":
			m[uint32(n)] = 0
		case strings.HasPrefix(v, "#x"):
			u, err := strconv.ParseUint(v[2:], 16, 64)
			if err != nil {
				return err
			}
			m[uint32(n)] = u
		case strings.HasPrefix(v, "#b"):
			u, err := strconv.ParseUint(v[2:], 2, 64)
			if err != nil {
				return err
			}
			m[uint32(n)] = u
		default:
			return fmt.Errorf("bad value %q", v)
		}
	}
	return nil
}

func oneShot(cmdline []string, script string) Result {
	cmd := exec.Command(cmdline[0], cmdline[1:]...)
	cmd.Stdin = strings.NewReader(script)
	out, _ := cmd.Output()
	s := strings.TrimSpace(string(out))
	switch {
	case strings.HasPrefix(s, "unsat"):
		return Unsat
	case strings.HasPrefix(s, "sat"):
		return Sat
	}
	return Unknown
}

// portfolio asks other solvers and configurations when the incremental one gives up.
func portfolio(script string, vars []uint32) (Result, Model) {
	type ans struct {
		r Result
		m Model
	}
	cmds := [][]string{
		{"z3-new", "-in", "-smt2", "-T:60"},
		{"cvc5", "--lang=smt2", "--produce-models", "--tlimit=60000", "--solve-bv-as-int=sum"},
		{"cvc5", "--lang=smt2", "--produce-models", "--tlimit=60000"},
	}
	ch := make(chan ans, len(cmds))
	var sb strings.Builder
	for _, v := range vars {
		sb.WriteString(vname(v) + " ")
	}
	full := "(set-option :produce-models true)\n(set-logic QF_BV)\n" + script + "(check-sat)\n(get-value (" + sb.String() + "))\n"
	procs := make([]*exec.Cmd, len(cmds))
	for i, c := range cmds {
		cmd := exec.Command(c[0], c[1:]...)
		procs[i] = cmd
		cmd.Stdin = strings.NewReader(full)
		go func() {
			out, _ := cmd.Output()
			s := strings.TrimSpace(string(out))
			switch {
			case strings.HasPrefix(s, "unsat"):
				ch <- ans{Unsat, nil}
				return
			case strings.HasPrefix(s, "sat"):
				m := Model{}
				if parseModel(s[3:], m) == nil {
					ch <- ans{Sat, m}
					return
				}
			}
			ch <- ans{Unknown, nil}
		}()
	}
	var best ans
	for range cmds {
		a := <-ch
		if a.r != Unknown {
			best = a
			break
		}
	}
	for _, p := range procs {
		if p.Process != nil {
			_ = p.Process.Kill()
		}
	}
	return best.r, best.m
}
