package main

// One z3 process per worker, fed over a pipe, plus a verdict cache shared by
// all workers (keyed by structural hashes of the sliced constraint set).

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Verdict uint8

const (
	VUnknown Verdict = iota
	VSat
	VUnsat
)

type cacheEnt struct {
	v     Verdict
	model map[string]uint64
}

type SharedCache struct {
	mu sync.RWMutex
	m  map[[2]uint64]*cacheEnt
}

type Stats struct {
	queries    int64 // feasibility / assertion questions put to the solver layer
	solverRuns int64 // check-sat calls actually sent to z3
	cacheHits  int64
	sat        int64
	unsat      int64
	unknown    int64
	solverNS   int64
	xcheck     int64 // queries repeated with the second solver
	xdisagree  int64
	oneshot    int64
	byteSat    int64 // branch feasibility decided by the domain of one byte
	byteUnsat  int64
}

// noByteDom sends every question to the solver
var noByteDom = os.Getenv("VERIF_NOBYTEDOM") != ""

var stats Stats

type Solver struct {
	ts     *Terms
	cmd    *exec.Cmd
	in     io.WriteCloser
	w      *bufio.Writer
	r      *bufio.Reader
	def    map[int32]bool
	shared *SharedCache
	path   string
	args   []string
	ndef   int
	errs   int
}

func newSolver(ts *Terms, sc *SharedCache) *Solver {
	s := &Solver{ts: ts, shared: sc, path: "z3-new", args: []string{"-in", "-smt2"}}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.path, s.args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in, s.w, s.r = in, bufio.NewWriterSize(in, 1<<16), bufio.NewReaderSize(out, 1<<16)
	s.def = map[int32]bool{}
	s.ndef = 0
	fmt.Fprintf(s.w, "(set-option :print-success false)\n(set-option :rlimit 20000000)\n(set-logic QF_BV)\n")
}

func (s *Solver) stop() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) define(t *Term) {
	if t.op == OConst || s.def[t.id] {
		return
	}
	// iterative post-order
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if s.def[f.t.id] || f.t.op == OConst {
			st = st[:len(st)-1]
			continue
		}
		if f.t.op == OVar {
			fmt.Fprintf(s.w, "(declare-const %s %s)\n", s.ts.ref(f.t), sortName(f.t.w))
			s.def[f.t.id] = true
			st = st[:len(st)-1]
			continue
		}
		kids := [...]*Term{f.t.a, f.t.b, f.t.d}
		if f.i < 3 {
			k := kids[f.i]
			f.i++
			if k != nil && k.op != OConst && !s.def[k.id] {
				st = append(st, fr{k, 0})
			}
			continue
		}
		fmt.Fprintf(s.w, "(define-fun %s () %s %s)\n", s.ts.ref(f.t), sortName(f.t.w), s.ts.body(f.t))
		s.def[f.t.id] = true
		s.ndef++
		st = st[:len(st)-1]
	}
}

func (s *Solver) line() (string, error) {
	l, err := s.r.ReadString('\n')
	return strings.TrimSpace(l), err
}

// collectVars gathers the variables of a set of terms.
func (ts *Terms) collectVars(tt []*Term) []*Term {
	seen := map[int32]bool{}
	var out []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || t.vs == 0 || seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.op == OVar {
			out = append(out, t)
			return
		}
		rec(t.a)
		rec(t.b)
		rec(t.d)
	}
	for _, t := range tt {
		rec(t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].c < out[j].c })
	return out
}

// Check decides satisfiability of the conjunction; on sat the model covers
// every variable of the constraints.
func (s *Solver) Check(cs []*Term) (Verdict, map[string]uint64) {
	atomic.AddInt64(&stats.queries, 1)
	var h [2]uint64
	for _, c := range cs { // order independent
		h[0] += mix(c.h1, 0xabcdef)
		h[1] ^= mix(c.h2, 0x13579b) * 3
	}
	h[1] += uint64(len(cs))
	s.shared.mu.RLock()
	e := s.shared.m[h]
	s.shared.mu.RUnlock()
	if e != nil {
		atomic.AddInt64(&stats.cacheHits, 1)
		return e.v, e.model
	}
	v, m := s.run(cs)
	if v != VUnknown {
		s.shared.mu.Lock()
		s.shared.m[h] = &cacheEnt{v, m}
		s.shared.mu.Unlock()
	}
	return v, m
}

func (s *Solver) run(cs []*Term) (Verdict, map[string]uint64) {
	t0 := time.Now()
	defer func() { atomic.AddInt64(&stats.solverNS, int64(time.Since(t0))) }()
	n := atomic.AddInt64(&stats.solverRuns, 1)
	if s.ndef > 60000 {
		s.stop()
		s.start()
	}
	for _, c := range cs {
		s.define(c)
	}
	fmt.Fprintf(s.w, "(push 1)\n")
	for _, c := range cs {
		fmt.Fprintf(s.w, "(assert %s)\n", s.ts.ref(c))
	}
	fmt.Fprintf(s.w, "(check-sat)\n")
	if err := s.w.Flush(); err != nil {
		return s.fail("write: " + err.Error())
	}
	l, err := s.line()
	if err != nil {
		return s.fail("read: " + err.Error())
	}
	switch l {
	case "unsat":
		atomic.AddInt64(&stats.unsat, 1)
		fmt.Fprintf(s.w, "(pop 1)\n")
		if xcheckEvery > 0 && n%int64(xcheckEvery) == 0 {
			s.cross(cs, VUnsat)
		}
		return VUnsat, nil
	case "sat":
		atomic.AddInt64(&stats.sat, 1)
		vars := s.ts.collectVars(cs)
		m := map[string]uint64{}
		if len(vars) > 0 {
			var sb strings.Builder
			sb.WriteString("(get-value (")
			for _, v := range vars {
				sb.WriteString(s.ts.ref(v) + " ")
			}
			sb.WriteString("))\n(pop 1)\n")
			s.w.WriteString(sb.String())
			if err := s.w.Flush(); err != nil {
				return s.fail("write: " + err.Error())
			}
			txt := ""
			depth := 0
			for {
				l, err := s.r.ReadString('\n')
				if err != nil {
					return s.fail("read model: " + err.Error())
				}
				txt += l
				depth += strings.Count(l, "(") - strings.Count(l, ")")
				if depth <= 0 {
					break
				}
			}
			if strings.Contains(txt, "error") {
				return s.fail(txt)
			}
			f := strings.FieldsFunc(txt, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' })
			if len(f) != 2*len(vars) {
				return s.fail("model: " + txt)
			}
			for i, v := range vars {
				x, ok := parseSMT(f[2*i+1])
				if !ok {
					return s.fail("model value: " + txt)
				}
				m[s.ts.vars[v.c].name] = x
			}
		} else {
			fmt.Fprintf(s.w, "(pop 1)\n")
		}
		if xcheckEvery > 0 && n%int64(xcheckEvery) == 0 {
			s.cross(cs, VSat)
		}
		return VSat, m
	case "unknown":
		fmt.Fprintf(s.w, "(pop 1)\n")
		v, m := s.oneShot(cs)
		switch v {
		case VSat:
			atomic.AddInt64(&stats.sat, 1)
		case VUnsat:
			atomic.AddInt64(&stats.unsat, 1)
		default:
			atomic.AddInt64(&stats.unknown, 1)
		}
		return v, m
	}
	return s.fail("answer: " + l)
}

// oneShot decides a query the incremental solver gave up on with a fresh
// process, which applies z3's full preprocessing for bit-vectors.
func (s *Solver) oneShot(cs []*Term) (Verdict, map[string]uint64) {
	atomic.AddInt64(&stats.oneshot, 1)
	t := &Solver{ts: s.ts, def: map[int32]bool{}}
	var b bytes.Buffer
	t.w = bufio.NewWriter(&b)
	fmt.Fprintf(t.w, "(set-logic QF_BV)\n")
	for _, c := range cs {
		t.define(c)
	}
	for _, c := range cs {
		fmt.Fprintf(t.w, "(assert %s)\n", s.ts.ref(c))
	}
	fmt.Fprintf(t.w, "(check-sat)\n")
	vars := s.ts.collectVars(cs)
	if len(vars) > 0 {
		fmt.Fprintf(t.w, "(get-value (")
		for _, v := range vars {
			fmt.Fprintf(t.w, "%s ", s.ts.ref(v))
		}
		fmt.Fprintf(t.w, "))\n")
	}
	t.w.Flush()
	cmd := exec.Command(s.path, "-T:20", "-smt2", "-in")
	cmd.Stdin = &b
	out, _ := cmd.Output()
	txt := string(out)
	switch {
	case strings.HasPrefix(txt, "unsat"):
		return VUnsat, nil
	case strings.HasPrefix(txt, "sat"):
		m := map[string]uint64{}
		f := strings.FieldsFunc(txt[3:], func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' })
		if len(f) != 2*len(vars) {
			return VUnknown, nil
		}
		for i, v := range vars {
			x, ok := parseSMT(f[2*i+1])
			if !ok {
				return VUnknown, nil
			}
			m[s.ts.vars[v.c].name] = x
		}
		return VSat, m
	}
	return VUnknown, nil
}

func (s *Solver) fail(msg string) (Verdict, map[string]uint64) {
	s.errs++
	fmt.Fprintln(os.Stderr, "solver trouble:", msg)
	atomic.AddInt64(&stats.unknown, 1)
	s.stop()
	s.start()
	return VUnknown, nil
}

func parseSMT(x string) (uint64, bool) {
	switch {
	case x == "true":
		return 1, true
	case x == "false":
		return 0, true
	case strings.HasPrefix(x, "#x"):
		v, err := strconv.ParseUint(x[2:], 16, 64)
		return v, err == nil
	case strings.HasPrefix(x, "#b"):
		v, err := strconv.ParseUint(x[2:], 2, 64)
		return v, err == nil
	}
	return 0, false
}

var xcheckEvery = 0

// cross repeats one query with cvc5 and records disagreement.
func (s *Solver) cross(cs []*Term, v Verdict) {
	atomic.AddInt64(&stats.xcheck, 1)
	var sb strings.Builder
	sb.WriteString("(set-option :rlimit 20000000)\n(set-logic QF_BV)\n")
	done := map[int32]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || t.op == OConst || done[t.id] {
			return
		}
		done[t.id] = true
		rec(t.a)
		rec(t.b)
		rec(t.d)
		if t.op == OVar {
			fmt.Fprintf(&sb, "(declare-const %s %s)\n", s.ts.ref(t), sortName(t.w))
		} else {
			fmt.Fprintf(&sb, "(define-fun %s () %s %s)\n", s.ts.ref(t), sortName(t.w), s.ts.body(t))
		}
	}
	for _, c := range cs {
		rec(c)
		fmt.Fprintf(&sb, "(assert %s)\n", s.ts.ref(c))
	}
	sb.WriteString("(check-sat)\n")
	cmd := exec.Command("cvc5", "--lang", "smt2", "--tlimit=10000")
	cmd.Stdin = strings.NewReader(sb.String())
	out, err := cmd.Output()
	res := strings.TrimSpace(string(out))
	if err != nil || (res != "sat" && res != "unsat") {
		return
	}
	if (res == "sat") != (v == VSat) {
		atomic.AddInt64(&stats.xdisagree, 1)
		fmt.Fprintln(os.Stderr, "SOLVER DISAGREEMENT on:\n"+sb.String())
	}
}

func (ts *Terms) str(t *Term, d int) string {
	if t == nil {
		return ""
	}
	switch t.op {
	case OConst:
		return fmt.Sprint(t.c)
	case OVar:
		return ts.vars[t.c].name
	}
	if d == 0 {
		return "..."
	}
	return "(" + opNames[t.op] + " " + ts.str(t.a, d-1) + " " + ts.str(t.b, d-1) + " " + ts.str(t.d, d-1) + ")"
}
