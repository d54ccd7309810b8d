package main

import (
	"sync/atomic"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"sync"
	"time"

	"go/types"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type dec struct {
	k      uint16
	forced bool
	val    uint64
}

type Task struct {
	h      *Harness
	prefix []dec
	model  map[string]uint64
}

type ObsRec struct{ K, V string }

type Sample struct {
	H    string            `json:"h"`
	Vars map[string]uint64 `json:"vars"`
	Obs  []string          `json:"obs"`
	End  string            `json:"end"`
}

type Candidate struct {
	H    string            `json:"h"`
	Vars map[string]uint64 `json:"vars"`
	Msg  string            `json:"msg"`
	Kind string            `json:"kind"`
}

type Harness struct {
	name  string
	fn    *ssa.Function
	tasks []*Task

	paths, complete, assumed, limit, unsupp, unknown int64
	decisions, forks                                 int64
	asserts                                          int64
	steps                                            int64
	reach                                            map[string]int64
	unsupMsgs                                        map[string]int64
	known                                            map[string]int64
	cands                                            []Candidate
	candSeen                                         map[string]int
	samples                                          []Sample
	stopped                                          bool
	incomplete                                       bool
	running                                          int
	secs                                             float64
	nvars                                            int
}

type Explorer struct {
	mu       sync.Mutex
	cond     *sync.Cond
	hs       []*Harness
	rr       int
	deadline time.Time
	perH     time.Duration
	maxSteps int64
	maxCand  int
	sampleN  int
	touched  map[string]bool
	prog     *ssa.Program
	pkgs     *loaded
	cache    *SharedCache
	verbose  bool
	noSpec   bool
}

const (
	endAssume = iota
	endSteps
	endDepth
	endUnknown
	endFail
	endKnown
	endDeadline
)

type pathEnd struct {
	kind int
	msg  string
}

type Worker struct {
	iso *iso
	ex      *Explorer
	id      int
	prog    *ssa.Program
	ts      *Terms
	sol     *Solver
	funcs   map[*ssa.Function]*cfunc
	globals map[*ssa.Global]*V
	tmap    typeutil.Map
	touched map[string]bool

	bdom  [][4]uint64 // per variable, the byte values excluded by pc[:bdomN]
	bdomN int

	undo    []undoEnt
	mapUndo []mapSave
	epoch   int
	initDone bool

	arena    []V
	arenaPos int
	depth    int
	steps    int64
	maxSteps int64

	spec      bool
	speculate bool
	mapOrder  bool
	rtErrTI   *TypeInfo

	// current path
	task    *Task
	h       *Harness
	di      int
	decs    []dec
	pc      []*Term
	model   []uint64
	pmodel  map[string]uint64
	obs     []ObsRec
	obsV    []obsEnt
	inner map[string]string
	choices map[string]uint64
	pools   map[*V]poolSt
	onces   map[*V]bool
	initOnces map[*V]bool
	initing *ssa.Package
	initSkip map[string]string
	sched   *sched
	files   map[string]V
}

type obsEnt struct {
	k string
	v V
	t types.Type
}

func newWorker(ex *Explorer, id int) *Worker {
	w := &Worker{ex: ex, id: id, prog: ex.prog, ts: newTerms(), funcs: map[*ssa.Function]*cfunc{},
		globals: map[*ssa.Global]*V{}, touched: map[string]bool{}, epoch: 0, initSkip: map[string]string{}}
	w.tmap.SetHasher(typeutil.MakeHasher())
	w.sol = newSolver(w.ts, ex.cache)
	w.speculate = !ex.noSpec
	w.maxSteps = 2000000000
	w.choices = map[string]uint64{}
	w.inner = map[string]string{}
	w.pools = map[*V]poolSt{}
	w.onces = map[*V]bool{}
	w.iso = nil
	w.initOnces = map[*V]bool{}
	if rp := ex.prog.ImportedPackage("runtime"); rp != nil {
		if o := rp.Pkg.Scope().Lookup("errorString"); o != nil {
			w.rtErrTI = w.typeInfo(o.Type())
		}
	}
	w.runInit(ex.pkgs.harness)
	w.initDone = true
	w.maxSteps = ex.maxSteps
	return w
}

// truth turns a boolean value into a concrete decision.
func (w *Worker) truth(v V) bool {
	if t, ok := v.p.(*Term); ok {
		return w.branch(t)
	}
	return v.n != 0
}

func (w *Worker) branch(c *Term) bool {
	if c.op == OConst {
		return c.c == 1
	}
	return w.choose([]*Term{c, w.ts.Not(c)}) == 0
}

func (w *Worker) slice4(c *Term) []*Term {
	m := c.vs
	out := []*Term{c}
	used := make([]bool, len(w.pc))
	for changed := true; changed; {
		changed = false
		for i, p := range w.pc {
			if !used[i] && p.vs&m != 0 {
				used[i] = true
				out = append(out, p)
				if p.vs&^m != 0 {
					m |= p.vs
					changed = true
				}
			}
		}
	}
	return out
}

func (w *Worker) evalB(c *Term) bool { return w.ts.eval(c, w.model) == 1 }

// sat checks PC ∧ c; on sat it returns the full model.
func (w *Worker) sat(c *Term) (Verdict, map[string]uint64) { return w.satBy(c, true) }

func (w *Worker) satBy(c *Term, bytes bool) (Verdict, map[string]uint64) {
	if c.isFalse() {
		return VUnsat, nil
	}
	v, m := VUnknown, map[string]uint64(nil)
	if bytes {
		v, m = w.byteSat(c)
	}
	if v == VUnknown {
		v, m = w.sol.Check(w.slice4(c))
	}
	if v != VSat {
		return v, nil
	}
	full := make(map[string]uint64, len(w.ts.vars))
	for i, vi := range w.ts.vars {
		if i < len(w.model) && w.model[i] != 0 {
			full[vi.name] = w.model[i]
		}
	}
	for k, x := range w.pmodel { // variables not created yet on this worker
		if _, ok := w.ts.byNam[k]; !ok {
			full[k] = x
		}
	}
	for k, x := range m {
		full[k] = x
	}
	return VSat, full
}

// byteDomain is the set of values that the constraints about nothing but the
// 8-bit variable v leave it.
func (w *Worker) byteDomain(v int32) *[4]uint64 {
	for int(v) >= len(w.bdom) {
		w.bdom = append(w.bdom, [4]uint64{})
	}
	// constraints are only ever added on a path
	for ; w.bdomN < len(w.pc); w.bdomN++ {
		p := w.pc[w.bdomN]
		if p.sv < 0 || w.ts.vars[p.sv].w != 8 {
			continue
		}
		for int(p.sv) >= len(w.bdom) {
			w.bdom = append(w.bdom, [4]uint64{})
		}
		x := w.ts.byteDom(p)
		for i := range x {
			w.bdom[p.sv][i] |= ^x[i]
		}
	}
	return &w.bdom[v] // complement
}

// quick evaluates c over the domains of single bytes: 1 true, 0 false, 2 can't tell.
func (w *Worker) quick(c *Term, fuel *int) int {
	*fuel--
	if *fuel < 0 {
		return 2
	}
	switch {
	case c.op == OConst:
		return int(c.c)
	case c.sv >= 0:
		if w.ts.vars[c.sv].w != 8 {
			return 2
		}
		no, d := w.byteDomain(c.sv), w.ts.byteDom(c)
		all, any := true, false
		for i := range d {
			x := ^no[i]
			if d[i]&x != 0 {
				any = true
			}
			if ^d[i]&x != 0 {
				all = false
			}
		}
		if !any {
			return 0
		}
		if all {
			return 1
		}
		return 2
	case c.op == ONot:
		if r := w.quick(c.a, fuel); r < 2 {
			return 1 - r
		}
	case c.op == OAnd:
		a := w.quick(c.a, fuel)
		if a == 0 {
			return 0
		}
		b := w.quick(c.b, fuel)
		if b == 0 {
			return 0
		}
		if a == 1 && b == 1 {
			return 1
		}
	case c.op == OOr:
		a := w.quick(c.a, fuel)
		if a == 1 {
			return 1
		}
		b := w.quick(c.b, fuel)
		if b == 1 {
			return 1
		}
		if a == 0 && b == 0 {
			return 0
		}
	}
	return 2
}

// byteSat decides PC ∧ c where the domains of single bytes are enough to:
// when they make c false, or when c is about a single byte and the constraints
// that share it are about that byte alone (unknown otherwise).
func (w *Worker) byteSat(c *Term) (Verdict, map[string]uint64) {
	if noByteDom {
		return VUnknown, nil
	}
	fuel := 200
	if w.quick(c, &fuel) == 0 {
		atomic.AddInt64(&stats.byteUnsat, 1)
		return VUnsat, nil
	}
	if c.sv < 0 || w.ts.vars[c.sv].w != 8 {
		return VUnknown, nil
	}
	// does one of the values left extend the current model?
	no, d := w.byteDomain(c.sv), w.ts.byteDom(c)
	if int(c.sv) >= len(w.model) {
		return VUnknown, nil
	}
	var shared []*Term
	for _, p := range w.pc {
		if p.sv == -2 && p.vs&c.vs != 0 {
			shared = append(shared, p)
		}
	}
	old, tries := w.model[c.sv], 0
	found := -1
	for v := 0; v < 256 && found < 0 && tries < 40; v++ {
		if d[v>>6]&^no[v>>6]>>uint(v&63)&1 == 0 {
			continue
		}
		tries++
		w.model[c.sv] = uint64(v)
		w.ts.newEval()
		ok := true
		for _, p := range shared {
			if !w.evalB(p) {
				ok = false
				break
			}
		}
		if ok {
			found = v
		}
	}
	w.model[c.sv] = old
	w.ts.newEval()
	if found < 0 {
		return VUnknown, nil
	}
	atomic.AddInt64(&stats.byteSat, 1)
	return VSat, map[string]uint64{w.ts.vars[c.sv].name: uint64(found)}
}

func (w *Worker) setModel(m map[string]uint64) {
	w.ts.newEval()
	w.pmodel = m
	if cap(w.model) < len(w.ts.vars) {
		w.model = make([]uint64, len(w.ts.vars), 2*len(w.ts.vars)+16)
	}
	w.model = w.model[:len(w.ts.vars)]
	for i := range w.model {
		w.model[i] = m[w.ts.vars[i].name]
	}
}

// variable is the input of that name. Harnesses share a worker's variables, so
// the width is part of the internal name: inner says which one a path means.
func (w *Worker) variable(name string, width uint8) *Term {
	in := name
	if width != 8 {
		in = name + "\x01" + strconv.Itoa(int(width))
	}
	if u, ok := w.inner[name]; ok && u != in {
		panic("variable redeclared with another width: " + name)
	}
	w.inner[name] = in
	name = in
	n := len(w.ts.vars)
	t := w.ts.Var(name, width)
	if len(w.ts.vars) > n || int(t.c) >= len(w.model) {
		for len(w.model) < len(w.ts.vars) {
			i := len(w.model)
			w.model = append(w.model, w.pmodel[w.ts.vars[i].name]&mask(w.ts.vars[i].w))
		}
		w.ts.newEval()
	}
	return t
}

func (w *Worker) addPC(c *Term) {
	if !c.isTrue() {
		w.pc = append(w.pc, c)
	}
}

func (w *Worker) fork(d dec, m map[string]uint64) {
	p := make([]dec, len(w.decs)+1)
	copy(p, w.decs)
	p[len(w.decs)] = d
	w.ex.push(&Task{h: w.h, prefix: p, model: m})
}

// choose picks one of mutually exclusive, exhaustive conditions and queues the
// other feasible ones.
func (w *Worker) choose(conds []*Term) int {
	if w.spec {
		panic(specFail{})
	}
	if !w.initDone {
		panic(unsupported{"symbolic decision during init"})
	}
	if w.di < len(w.task.prefix) {
		d := w.task.prefix[w.di]
		w.di++
		w.decs = append(w.decs, d)
		if int(d.k) >= len(conds) {
			panic(fmt.Sprintf("replay diverged: choice %d of %d", d.k, len(conds)))
		}
		if !d.forced {
			w.addPC(conds[d.k])
		}
		return int(d.k)
	}
	w.ts.newEval()
	pick := -1
	for i, c := range conds {
		if w.evalB(c) {
			pick = i
			break
		}
	}
	if pick < 0 {
		panic("choose: conditions not exhaustive under the model")
	}
	others := 0
	unknown := false
	for i, c := range conds {
		if i == pick {
			continue
		}
		v, m := w.sat(c)
		switch v {
		case VSat:
			others++
			w.fork(dec{k: uint16(i)}, m)
		case VUnknown:
			unknown = true
		}
	}
	if unknown {
		w.ex.mu.Lock()
		w.h.unknown++
		w.ex.mu.Unlock()
	}
	d := dec{k: uint16(pick), forced: others == 0 && !unknown}
	w.decs = append(w.decs, d)
	if !d.forced {
		w.addPC(conds[pick])
	}
	return pick
}

// pick is an unconstrained nondeterministic choice.
func (w *Worker) pick(n int) int {
	if w.spec {
		panic(specFail{})
	}
	if n <= 1 {
		return 0
	}
	if w.di < len(w.task.prefix) {
		d := w.task.prefix[w.di]
		w.di++
		w.decs = append(w.decs, d)
		return int(d.k)
	}
	m := w.modelMap()
	for i := n - 1; i >= 1; i-- {
		w.fork(dec{k: uint16(i)}, m)
	}
	w.decs = append(w.decs, dec{k: 0})
	return 0
}

func (w *Worker) modelMap() map[string]uint64 {
	full := make(map[string]uint64, len(w.ts.vars))
	for i, vi := range w.ts.vars {
		if i < len(w.model) && w.model[i] != 0 {
			full[vi.name] = w.model[i]
		}
	}
	for k, x := range w.pmodel {
		if _, ok := w.ts.byNam[k]; !ok {
			full[k] = x
		}
	}
	return full
}

// concTerm makes a symbolic integer concrete by case split on its values.
func (w *Worker) concTerm(t *Term) uint64 {
	if t.op == OConst {
		return t.c
	}
	if w.spec {
		panic(specFail{})
	}
	for n := 0; ; n++ {
		if n > 300 {
			unsup("too many values for one integer")
		}
		if w.di < len(w.task.prefix) {
			d := w.task.prefix[w.di]
			w.di++
			w.decs = append(w.decs, d)
			e := w.ts.Eq(t, w.ts.Const(d.val, t.w))
			if d.k == 0 {
				if !d.forced {
					w.addPC(e)
				}
				return d.val
			}
			w.addPC(w.ts.Not(e))
			continue
		}
		w.ts.newEval()
		v := w.ts.eval(t, w.model)
		e := w.ts.Eq(t, w.ts.Const(v, t.w))
		ne := w.ts.Not(e)
		r, m := w.sat(ne)
		d := dec{k: 0, val: v}
		if r == VSat {
			w.fork(dec{k: 1, val: v}, m)
		} else if r == VUnsat {
			d.forced = true
		} else {
			w.ex.mu.Lock()
			w.h.unknown++
			w.ex.mu.Unlock()
		}
		w.decs = append(w.decs, d)
		if !d.forced {
			w.addPC(e)
		}
		return v
	}
}

func (w *Worker) concInt(v V) int {
	if t, ok := v.p.(*Term); ok {
		return int(sext64(w.concTerm(t), t.w))
	}
	return int(int64(v.n))
}

func (w *Worker) assume(c *Term) {
	if c.isTrue() {
		return
	}
	if c.isFalse() {
		panic(pathEnd{kind: endAssume})
	}
	if w.spec {
		panic(specFail{})
	}
	w.ts.newEval()
	if w.evalB(c) {
		w.addPC(c)
		return
	}
	v, m := w.sat(c)
	switch v {
	case VUnsat:
		panic(pathEnd{kind: endAssume})
	case VUnknown:
		panic(pathEnd{kind: endUnknown})
	}
	w.setModel(m)
	w.addPC(c)
}

func (w *Worker) assert(c *Term, msg string) {
	if c.isTrue() {
		if w.di >= len(w.task.prefix) {
			w.h.count(w, &w.h.asserts)
		}
		return
	}
	if w.di < len(w.task.prefix) {
		// already decided by the path this one forked from
		d := w.task.prefix[w.di]
		w.di++
		w.decs = append(w.decs, d)
		if !d.forced {
			w.addPC(c)
		}
		return
	}
	w.h.count(w, &w.h.asserts)
	// that an assertion holds is always for the solver to say
	v, m := w.satBy(w.ts.Not(c), false)
	d := dec{k: 0, forced: v == VUnsat}
	switch v {
	case VSat:
		w.candidate("assert", msg, m)
		if c.isFalse() {
			panic(pathEnd{kind: endFail})
		}
	case VUnknown:
		w.ex.mu.Lock()
		w.h.unknown++
		w.ex.mu.Unlock()
	}
	w.decs = append(w.decs, d)
	if !d.forced {
		w.assume(c)
	}
}

func (h *Harness) count(w *Worker, p *int64) {
	w.ex.mu.Lock()
	*p++
	w.ex.mu.Unlock()
}

func (w *Worker) assignment(m map[string]uint64) map[string]uint64 {
	out := map[string]uint64{}
	for k, in := range w.inner {
		if v := m[in]; v != 0 {
			out[k] = v
		}
	}
	for k, v := range w.choices {
		out[k] = v
	}
	return out
}

func (w *Worker) candidate(kind, msg string, m map[string]uint64) {
	if m == nil {
		m = w.modelMap()
	}
	w.ex.mu.Lock()
	defer w.ex.mu.Unlock()
	key := kind + ":" + msg
	w.h.candSeen[key]++
	if w.h.candSeen[key] <= 3 {
		w.h.cands = append(w.h.cands, Candidate{H: w.h.name, Vars: w.assignment(m), Msg: msg, Kind: kind})
	}
	n := 0
	for _, c := range w.h.candSeen {
		n += c
	}
	if n >= w.ex.maxCand {
		w.h.stopped = true
	}
	if *first && kind != "unsupported" {
		for _, h := range w.ex.hs {
			h.stopped = true
		}
	}
}

// runPath executes one path of a harness.
func (w *Worker) runPath(t *Task) {
	w.task, w.h = t, t.h
	w.di = 0
	w.decs = w.decs[:0]
	w.pc = w.pc[:0]; w.bdom, w.bdomN = w.bdom[:0], 0
	w.obsV = w.obsV[:0]
	w.choices = map[string]uint64{}
	w.inner = map[string]string{}
	w.pools = map[*V]poolSt{}
	w.onces = map[*V]bool{}
	w.files = nil
	w.epoch++
	w.steps = 0
	w.depth = 0
	w.spec = false
	w.mapOrder = true
	w.arenaPos = 0
	w.sched = nil
	w.setModel(t.model)
	end := ""
	t0 := time.Now()
	func() {
		defer func() {
			e := recover()
			if e == nil {
				return
			}
			switch x := e.(type) {
			case pathEnd:
				switch x.kind {
				case endAssume:
					end = "assume"
				case endSteps:
					end = "limit"
					w.candidate("hang", "step limit reached (possible unbounded loop)", nil)
				case endDepth:
					end = "limit"
					w.candidate("overflow", "call depth limit reached (possible unbounded recursion)", nil)
				case endUnknown:
					end = "unknown"
				case endFail:
					end = "fail"
				case endKnown:
					end = "known"
				case endDeadline:
					end = "deadline"
				}
			case unsupported:
				end = "unsupported"
				w.ex.mu.Lock()
				w.h.unsupMsgs[x.msg]++
				w.ex.mu.Unlock()
			case *targetPanic:
				end = "panic"
				msg := x.msg
				if msg == "" {
					msg = w.panicStr(x.v)
				}
				w.candidate("panic", "panic: "+msg, nil)
			default:
				end = "unsupported"
				st := string(debug.Stack())
				msg := fmt.Sprintf("engine: %v", e)
				w.ex.mu.Lock()
				if w.h.unsupMsgs[msg] == 0 && w.ex.verbose {
					fmt.Fprintf(os.Stderr, "%s: %s\n%s\n", w.h.name, msg, st)
				}
				w.h.unsupMsgs[msg]++
				w.ex.mu.Unlock()
			}
		}()
		w.call(w.fnOf(t.h.fn), nil, nil, nil)
		end = "ok"
	}()
	if w.sched != nil {
		w.sched.killAll()
	}
	w.spec = false
	var smp *Sample
	if end == "ok" {
		w.ts.newEval()
		w.ex.mu.Lock()
		n := len(w.h.samples)
		take := n < w.ex.sampleN && (n < w.ex.sampleN/2 || w.h.complete%17 == 0)
		w.ex.mu.Unlock()
		if take {
			smp = &Sample{H: w.h.name, Vars: w.assignment(w.modelMap()), End: "ok"}
			for _, o := range w.obsV {
				smp.Obs = append(smp.Obs, o.k+"="+w.evalObs(o))
			}
		}
	}
	// undo
	for i := len(w.mapUndo) - 1; i >= 0; i-- {
		*w.mapUndo[i].m = w.mapUndo[i].old
	}
	w.mapUndo = w.mapUndo[:0]
	w.rollback()
	ex := w.ex
	ex.mu.Lock()
	h := w.h
	h.paths++
	h.steps += w.steps
	h.decisions += int64(len(w.decs))
	h.secs += time.Since(t0).Seconds()
	if nv := len(w.ts.vars); nv > h.nvars {
		h.nvars = nv
	}
	switch end {
	case "ok":
		h.complete++
		if smp != nil {
			h.samples = append(h.samples, *smp)
		}
	case "assume":
		h.assumed++
	case "limit", "deadline":
		h.limit++
	case "unsupported":
		h.unsupp++
	}
	ex.mu.Unlock()
	if len(w.ts.tab) > 3000000 {
		w.resetTerms()
	}
}

// resetTerms drops the term table when it has grown too large. The heap is
// concrete between paths, so no live term survives.
func (w *Worker) resetTerms() {
	w.sol.stop()
	w.ts = newTerms()
	w.sol = newSolver(w.ts, w.ex.cache)
	w.model = nil
	w.pc = nil; w.bdom, w.bdomN = w.bdom[:0], 0
	w.arena = nil
	w.arenaPos = 0
	for _, cf := range w.funcs {
		_ = cf
	}
}

func (w *Worker) evalObs(o obsEnt) string {
	if wd, sg, ok := scalarInfo(o.t); ok {
		n := o.v.n
		if t, is := o.v.p.(*Term); is {
			n = w.ts.eval(t, w.model)
		}
		if sg {
			return fmt.Sprint(sext64(n, wd))
		}
		return fmt.Sprint(n)
	}
	return w.evalStr(o.v)
}

func (w *Worker) panicStr(v V) string {
	i, _ := v.p.(*Iface)
	if i == nil {
		return "nil"
	}
	if isString(i.ti.t) {
		w.ts.newEval()
		return w.evalStr(i.v)
	}
	var s string
	func() {
		defer func() {
			if e := recover(); e != nil {
				s = i.ti.t.String()
			}
		}()
		if f := w.prog.LookupMethod(i.ti.t, nil, "Error"); f != nil {
			w.ts.newEval()
			s = w.evalStr(w.callFn(f, i.v))
			return
		}
		s = i.ti.t.String()
	}()
	return s
}

// ---- scheduling --------------------------------------------------------------

func (ex *Explorer) push(t *Task) {
	ex.mu.Lock()
	t.h.tasks = append(t.h.tasks, t)
	t.h.forks++
	ex.mu.Unlock()
	ex.cond.Signal()
}

func (ex *Explorer) pop() *Task {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	for {
		over := time.Now().After(ex.deadline)
		busy := false
		var best *Harness
		for k := range ex.hs {
			h := ex.hs[(ex.rr+k)%len(ex.hs)]
			if h.running > 0 {
				busy = true
			}
			if len(h.tasks) > 0 && (over || h.stopped || (ex.perH > 0 && h.secs > ex.perH.Seconds()*8)) {
				if !h.stopped {
					h.incomplete = true
				}
				h.tasks = nil
			}
			if len(h.tasks) > 0 && (best == nil || h.running < best.running) {
				best = h
			}
		}
		if best != nil {
			ex.rr++
			n := len(best.tasks) - 1
			t := best.tasks[n]
			best.tasks = best.tasks[:n]
			best.running++
			return t
		}
		if !busy {
			ex.cond.Broadcast()
			return nil
		}
		ex.cond.Wait()
	}
}

func (ex *Explorer) done(t *Task) {
	ex.mu.Lock()
	t.h.running--
	ex.mu.Unlock()
	ex.cond.Broadcast()
}

func (ex *Explorer) run(nw int) {
	ex.cond = sync.NewCond(&ex.mu)
	for i := len(ex.hs) - 1; i >= 0; i-- {
		h := ex.hs[i]
		h.tasks = []*Task{{h: h}}
	}
	var wg sync.WaitGroup
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			w := newWorker(ex, i)
			if ex.verbose && i == 0 {
				fmt.Fprintf(os.Stderr, "worker init done, %d init steps\n", w.steps)
				var ks []string
				for k, v := range w.initSkip {
					ks = append(ks, k+": "+v)
				}
				sort.Strings(ks)
				for _, k := range ks {
					fmt.Fprintln(os.Stderr, "  init skipped:", k)
				}
			}
			for {
				t := ex.pop()
				if t == nil {
					break
				}
				w.runPath(t)
				ex.done(t)
			}
			w.sol.stop()
			ex.mu.Lock()
			for k := range w.touched {
				ex.touched[k] = true
			}
			ex.mu.Unlock()
		}(i)
	}
	wg.Wait()
}
