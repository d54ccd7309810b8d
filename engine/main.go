package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type loaded struct {
	harness *ssa.Package
	docs    map[string]string
	reach   map[string][]string
	models  bool // there are functions that stand for library functions
}

var (
	repo    = flag.String("repo", "/repo", "repository root")
	verif   = flag.String("verif", "/verif", "verification root")
	build   = flag.String("build", "", "build directory (scratch)")
	prop    = flag.String("prop", "", "property id")
	hpkg    = flag.String("pkg", "", "harness package directory (below harness/); default by property")
	only    = flag.String("only", "", "comma separated substrings of harness names")
	tier    = flag.String("tier", "", "quick or thorough")
	jobs    = flag.Int("j", runtime.NumCPU(), "workers")
	budget  = flag.Duration("budget", 0, "exploration time")
	verbose = flag.Bool("v", false, "verbose")
	nospec  = flag.Bool("nospec", false, "no speculative merging")
	xcheck  = flag.Int("xcheck", 0, "cross-check every n-th query with cvc5")
	listF   = flag.Bool("list", false, "list harnesses")
	first   = flag.Bool("first", false, "stop at the first candidate")
	noNat   = flag.Bool("nonative", false, "skip native replay")
	cpuprof = flag.String("cpuprofile", "", "")
	maxStep = flag.Int64("maxsteps", 6000000, "instruction bound per path")
	replayF = flag.String("replay", "", "replay one recorded violation natively")
)

// overlay maps the harness tree (and generated tables) into the module.
func overlay(pkgs []string) (map[string]string, error) {
	m := map[string]string{}
	root := filepath.Join(*verif, "harness")
	for _, p := range append([]string{"sym"}, pkgs...) {
		fs, _ := filepath.Glob(filepath.Join(root, p, "*.go"))
		for _, f := range fs {
			m[filepath.Join(*repo, "zz_verif", p, filepath.Base(f))] = f
		}
		// the source of a command, as a package: harness/<p>/source.txt names its directory
		if b, err := ioutil.ReadFile(filepath.Join(root, p, "source.txt")); err == nil {
			dir := filepath.Join(*repo, strings.TrimSpace(string(b)))
			srcs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
			for _, f := range srcs {
				if strings.HasSuffix(f, "_test.go") {
					continue
				}
				src, err := ioutil.ReadFile(f)
				if err != nil {
					return nil, err
				}
				src = regexp.MustCompile(`(?m)^package main\b`).ReplaceAll(src, []byte("package "+p))
				cp := filepath.Join(*build, p+"_src_"+filepath.Base(f))
				if err := ioutil.WriteFile(cp, src, 0o644); err != nil {
					return nil, err
				}
				m[filepath.Join(*repo, "zz_verif", p, "src_"+filepath.Base(f))] = cp
			}
		}
		// in-package files: harness/<p>/inpkg/<dir>/x.go -> /repo/<dir>/x.go
		base := filepath.Join(root, p, "inpkg")
		filepath.Walk(base, func(path string, fi os.FileInfo, err error) error {
			if err == nil && !fi.IsDir() && strings.HasSuffix(path, ".go") {
				rel, _ := filepath.Rel(base, path)
				m[filepath.Join(*repo, rel)] = path
			}
			return nil
		})
	}
	return m, nil
}

func goEnv() []string {
	env := os.Environ()
	out := env[:0:0]
	for _, e := range env {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GO111MODULE=") || strings.HasPrefix(e, "PWD=") {
			continue
		}
		out = append(out, e)
	}
	return append(out, "GOFLAGS=-mod=mod -modfile="+filepath.Join(*build, "helium.mod"), "GOPROXY=off", "GOWORK=off", "CGO_ENABLED=0", "GOTOOLCHAIN=local")
}

func prepBuild() error {
	if err := os.MkdirAll(*build, 0o755); err != nil {
		return err
	}
	b, err := ioutil.ReadFile(filepath.Join(*repo, "go.mod"))
	if err != nil {
		return err
	}
	if err := ioutil.WriteFile(filepath.Join(*build, "helium.mod"), b, 0o644); err != nil {
		return err
	}
	s, err := ioutil.ReadFile(filepath.Join(*verif, "harness", "helium.sum"))
	if err != nil {
		return err
	}
	return ioutil.WriteFile(filepath.Join(*build, "helium.sum"), s, 0o644)
}

func load(pkg string) (*ssa.Program, *loaded, []*ssa.Function, error) {
	ov, err := overlay([]string{pkg})
	if err != nil {
		return nil, nil, nil, err
	}
	content := map[string][]byte{}
	for k, f := range ov {
		b, err := ioutil.ReadFile(f)
		if err != nil {
			return nil, nil, nil, err
		}
		content[k] = b
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: *repo, Env: goEnv(), Overlay: content,
	}
	ps, err := packages.Load(cfg, "./zz_verif/"+pkg)
	if err != nil {
		return nil, nil, nil, err
	}
	bad := ""
	for _, p := range ps {
		for _, e := range p.Errors {
			bad += e.Error() + "\n"
		}
	}
	if bad != "" || len(ps) != 1 {
		return nil, nil, nil, fmt.Errorf("loading harness package: %s", bad)
	}
	prog, sp := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	l := &loaded{harness: sp[0], docs: map[string]string{}, reach: map[string][]string{}}
	for _, f := range ps[0].Syntax {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil {
				continue
			}
			l.docs[fd.Name.Name] = strings.TrimSpace(fd.Doc.Text())
			ast.Inspect(fd, func(n ast.Node) bool {
				if c, ok := n.(*ast.CallExpr); ok {
					if se, ok := c.Fun.(*ast.SelectorExpr); ok && se.Sel.Name == "Reach" && len(c.Args) == 1 {
						if bl, ok := c.Args[0].(*ast.BasicLit); ok {
							l.reach[fd.Name.Name] = append(l.reach[fd.Name.Name], strings.Trim(bl.Value, `"`))
						}
					}
				}
				return true
			})
		}
	}
	var fns []*ssa.Function
	for name, m := range sp[0].Members {
		f, ok := m.(*ssa.Function)
		if ok && strings.HasPrefix(name, "Model_") {
			l.models = true
		}
		if !ok || !isHarness(name) || f.Signature.Params().Len() != 0 {
			continue
		}
		fns = append(fns, f)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].Name() < fns[j].Name() })
	return prog, l, fns, nil
}

func isHarness(n string) bool {
	return len(n) > 4 && n[0] == 'P' && n[1] >= '0' && n[1] <= '9' && n[2] >= '0' && n[2] <= '9' && n[3] == '_'
}

// buildRunner compiles the harnesses natively against the current tree.
func buildRunner(pkg string, names []string) (string, error) {
	ov, err := overlay([]string{pkg})
	if err != nil {
		return "", err
	}
	var sb strings.Builder
	sb.WriteString("package " + pkg + "\n\nvar Table = map[string]func(){\n")
	for _, n := range names {
		fmt.Fprintf(&sb, "\t%q: %s,\n", n, n)
	}
	sb.WriteString("}\n")
	tab := filepath.Join(*build, pkg+"_table.go")
	if err := ioutil.WriteFile(tab, []byte(sb.String()), 0o644); err != nil {
		return "", err
	}
	ov[filepath.Join(*repo, "zz_verif", pkg, "zz_table.go")] = tab
	tmpl, err := ioutil.ReadFile(filepath.Join(*verif, "harness", "run", "main.go.txt"))
	if err != nil {
		return "", err
	}
	mainF := filepath.Join(*build, pkg+"_main.go")
	src := strings.Replace(string(tmpl), "HPKG", pkg, -1)
	if err := ioutil.WriteFile(mainF, []byte(src), 0o644); err != nil {
		return "", err
	}
	ov[filepath.Join(*repo, "zz_verif", "run_"+pkg, "main.go")] = mainF
	b, _ := json.Marshal(map[string]interface{}{"Replace": ov})
	ovf := filepath.Join(*build, pkg+"_overlay.json")
	if err := ioutil.WriteFile(ovf, b, 0o644); err != nil {
		return "", err
	}
	bin := filepath.Join(*build, "run_"+pkg)
	if raceMode {
		bin += "_race"
	}
	cmd := exec.Command("go", "build", "-overlay", ovf, "-o", bin, "./zz_verif/run_"+pkg)
	cmd.Dir = *repo
	cmd.Env = goEnv()
	if raceMode {
		cmd.Args = append(cmd.Args[:2:2], append([]string{"-race"}, cmd.Args[2:]...)...)
		cmd.Env = append(cmd.Env, "CGO_ENABLED=1")
	}
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("building native runner: %v\n%s", err, out)
	}
	if b, err := ioutil.ReadFile(filepath.Join(*verif, "harness", pkg, "source.txt")); err == nil {
		real := filepath.Join(*build, "real_"+pkg)
		cmd := exec.Command("go", "build", "-o", real, "./"+strings.TrimSpace(string(b)))
		cmd.Dir = *repo
		cmd.Env = goEnv()
		if out, err := cmd.CombinedOutput(); err != nil {
			return "", fmt.Errorf("building %s: %v\n%s", b, err, out)
		}
		os.Setenv("VERIF_REAL", real)
	}
	return bin, nil
}

// raceProps are about goroutines: their harnesses run natively under the race detector.
func raceProp(name string) bool { return strings.HasPrefix(name, "P29") || strings.HasPrefix(name, "P30") }

var raceMode bool

type natReq struct {
	H      string            `json:"h"`
	Vars   map[string]uint64 `json:"vars"`
	Repeat int               `json:"repeat"`
}
type natRes struct {
	Status string   `json:"status"` // ok, assert, panic, assume, timeout, crash
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
	Reach  []string `json:"reach"`
	Notes  []string `json:"notes"`
}

// native runs requests one after another, restarting the process after a
// crash or timeout.
func native(bin string, reqs []natReq) ([]natRes, error) {
	res := make([]natRes, 0, len(reqs))
	for len(res) < len(reqs) {
		var in bytes.Buffer
		for _, r := range reqs[len(res):] {
			b, _ := json.Marshal(r)
			in.Write(b)
			in.WriteByte('\n')
		}
		cmd := exec.Command("bash", "-c", "ulimit -v 16000000; exec "+bin)
		if strings.HasSuffix(bin, "_race") {
			cmd = exec.Command(bin) // the race detector reserves much address space
		}
		cmd.Stdin = &in
		cmd.Env = append(os.Environ(), "VERIF_TIER="+*tier, "GORACE=halt_on_error=1 exitcode=66")
		var serr tailBuf
		cmd.Stderr = &serr
		out, err := cmd.StdoutPipe()
		if err != nil {
			return nil, err
		}
		if err := cmd.Start(); err != nil {
			return nil, err
		}
		sc := bufio.NewScanner(out)
		sc.Buffer(make([]byte, 1<<20), 1<<26)
		for sc.Scan() {
			var r natRes
			if json.Unmarshal(sc.Bytes(), &r) == nil && r.Status != "" {
				res = append(res, r)
			}
		}
		cmd.Wait()
		code := cmd.ProcessState.ExitCode()
		if len(res) < len(reqs) && code != 3 {
			// died without answering the current request
			st := "crash"
			msg := serr.head()
			if strings.Contains(msg, "stack overflow") || strings.Contains(msg, "goroutine stack exceeds") {
				msg = "stack overflow (unbounded recursion)"
			}
			if strings.Contains(msg, "out of memory") {
				msg = "out of memory"
			}
			res = append(res, natRes{Status: st, Msg: msg})
		}
	}
	return res, nil
}

type tailBuf struct{ b []byte }

func (t *tailBuf) Write(p []byte) (int, error) {
	if len(t.b) < 1<<16 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}
func (t *tailBuf) head() string {
	s := string(t.b)
	if len(s) > 600 {
		s = s[:600]
	}
	return s
}

type violation struct {
	Candidate
	Native natRes
}

func fail(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(2)
}

func main() {
	flag.Parse()
	debug.SetGCPercent(200)
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	if *build == "" {
		*build = filepath.Join(*verif, ".build")
	}
	if err := prepBuild(); err != nil {
		fail("%v", err)
	}
	pkg := *hpkg
	if pkg == "" {
		pkg = "h"
		if _, err := os.Stat(filepath.Join(*verif, "harness", "h"+strings.ToLower(*prop))); err == nil {
			pkg = "h" + strings.ToLower(*prop)
		}
	}
	if *replayF != "" {
		replay(*replayF)
		return
	}
	raceMode = raceProp(*prop)
	t0 := time.Now()
	prog, l, fns, err := load(pkg)
	if err != nil {
		fail("%v", err)
	}
	tLoad := time.Since(t0)
	var names []string
	for _, f := range fns {
		names = append(names, f.Name())
	}
	type bres struct {
		bin string
		err error
	}
	bch := make(chan bres, 1)
	if !*noNat {
		go func() {
			bin, err := buildRunner(pkg, names)
			bch <- bres{bin, err}
		}()
	}
	xcheckEvery = *xcheck
	if raceProp(*prop) {
		*maxStep *= 2 // everything is done twice
	}
	if *tier == "thorough" && *xcheck == 0 {
		xcheckEvery = 200
	}
	ex := &Explorer{prog: prog, pkgs: l, cache: &SharedCache{m: map[[2]uint64]*cacheEnt{}}, maxSteps: *maxStep, maxCand: 12,
		touched: map[string]bool{}, verbose: *verbose, noSpec: *nospec, sampleN: 12}
	if *tier == "thorough" {
		ex.sampleN = 40
	}
	for _, f := range fns {
		if *prop != "" && !strings.HasPrefix(f.Name(), *prop+"_") {
			continue
		}
		if strings.HasSuffix(f.Name(), "_thorough") && *tier != "thorough" {
			continue
		}
		if *only != "" {
			ok := false
			for _, s := range strings.Split(*only, ",") {
				ok = ok || strings.Contains(f.Name(), s)
			}
			if !ok {
				continue
			}
		}
		if *listF {
			fmt.Println(f.Name(), "-", strings.Replace(l.docs[f.Name()], "\n", " ", -1))
			continue
		}
		ex.hs = append(ex.hs, &Harness{name: f.Name(), fn: f, reach: map[string]int64{}, unsupMsgs: map[string]int64{}, known: map[string]int64{}, candSeen: map[string]int{}})
	}
	if *listF {
		return
	}
	if len(ex.hs) == 0 {
		fail("no harness for %q", *prop)
	}
	b := *budget
	if b == 0 {
		b = 300 * time.Second
		if *tier == "thorough" {
			b = 780 * time.Second
		}
	}
	ex.deadline = time.Now().Add(b)
	thoroughTier = *tier == "thorough"
	if *cpuprof != "" {
		startProfile(*cpuprof)
	}
	t1 := time.Now()
	ex.run(*jobs)
	stopProfile()
	tExp := time.Since(t1)
	if *verbose {
		fmt.Fprintf(os.Stderr, "load %.1fs explore %.1fs queries %d solver %d cache %d sat %d unsat %d unknown %d solver %.1fs\n",
			tLoad.Seconds(), tExp.Seconds(), stats.queries, stats.solverRuns, stats.cacheHits, stats.sat, stats.unsat, stats.unknown, float64(stats.solverNS)/1e9)
	}
	for _, h := range ex.hs {
		if *verbose {
			fmt.Fprintf(os.Stderr, "%-40s paths %d ok %d assumed %d limit %d unsup %d unknown %d forks %d dec %d asserts %d steps/path %d %.1fs cands %d incomplete %v known %v\n", h.name,
				h.paths, h.complete, h.assumed, h.limit, h.unsupp, h.unknown, h.forks, h.decisions, h.asserts, h.steps/max64(1, h.paths), h.secs, len(h.cands), h.incomplete, h.known)
			for m, n := range h.unsupMsgs {
				fmt.Fprintf(os.Stderr, "    unsupported x%d: %s\n", n, m)
			}
			for m, n := range h.candSeen {
				fmt.Fprintf(os.Stderr, "    candidate x%d: %s\n", n, m)
			}
		}
	}
	// native replay
	var viols []violation
	type mismatch struct {
		H, What string
		Vars    map[string]uint64
	}
	var mism []mismatch
	var unrep []violation
	validated := 0
	if !*noNat {
		br := <-bch
		if br.err != nil {
			fail("%v", br.err)
		}
		var reqs []natReq
		var cands []Candidate
		var smps []Sample
		for _, h := range ex.hs {
			for _, c := range h.cands {
				rep := 1
				if c.Kind == "assert" || c.Kind == "panic" {
					rep = 40
				}
				if c.Kind == "deadlock" || c.Kind == "sched" {
					rep = 300
				}
				reqs = append(reqs, natReq{c.H, c.Vars, rep})
				cands = append(cands, c)
			}
		}
		for _, h := range ex.hs {
			for _, s := range h.samples {
				reqs = append(reqs, natReq{s.H, s.Vars, 1})
				smps = append(smps, s)
			}
		}
		res, err := native(br.bin, reqs)
		if err != nil {
			fail("%v", err)
		}
		seen := map[string]bool{}
		retry := time.Now().Add(90 * time.Second)
		for i, c := range cands {
			r := res[i]
			// a race may show only once in a process, and not each time
			for k := 0; raceMode && r.Status == "ok" && c.Kind == "assert" && k < 25 && len(viols) == 0 && time.Now().Before(retry); k++ {
				again, err := native(br.bin, []natReq{{c.H, c.Vars, 2}})
				if err != nil {
					fail("%v", err)
				}
				r = again[0]
			}
			v := violation{c, r}
			switch r.Status {
			case "assert", "panic", "crash", "timeout":
				k := c.H + r.Status + r.Msg
				if !seen[k] {
					seen[k] = true
					viols = append(viols, v)
				}
			default:
				if c.Kind != "unsupported" {
					unrep = append(unrep, v)
				}
			}
		}
		for i, s := range smps {
			r := res[len(cands)+i]
			switch {
			case r.Status == "ok":
				if strings.Join(r.Obs, "\x00") == strings.Join(s.Obs, "\x00") {
					validated++
				} else {
					mism = append(mism, mismatch{s.H, fmt.Sprintf("observations differ: engine %q native %q", s.Obs, r.Obs), s.Vars})
				}
			case r.Status == "assume":
				mism = append(mism, mismatch{s.H, "native assume failed", s.Vars})
			default:
				viols = append(viols, violation{Candidate{H: s.H, Vars: s.Vars, Msg: r.Msg, Kind: "sample"}, r})
			}
		}
	}
	for _, m := range mism {
		fmt.Fprintf(os.Stderr, "MODEL MISMATCH %s %s vars=%v\n", m.H, m.What, m.Vars)
	}
	for _, u := range unrep {
		fmt.Fprintf(os.Stderr, "not reproduced: %s %s: %s (native %s %s %q) vars=%v\n", u.H, u.Kind, u.Msg, u.Native.Status, u.Native.Msg, u.Native.Notes, u.Vars)
	}
	// evidence
	var states, trans, asserts, forks int64
	hinfo := []map[string]interface{}{}
	exhaustive := true
	var samples []interface{}
	var smpAll []Sample
	for _, h := range ex.hs {
		states += h.paths
		trans += h.decisions
		asserts += h.asserts
		forks += h.forks
		if h.incomplete || h.unsupp > 0 || h.unknown > 0 || h.limit > 0 {
			exhaustive = false
		}
		var unreached []string
		for _, r := range l.reach[h.name] {
			if h.reach[r] == 0 {
				unreached = append(unreached, r)
				fmt.Fprintf(os.Stderr, "vacuity: %s never reached %q\n", h.name, r)
			}
		}
		if h.complete == 0 {
			fmt.Fprintf(os.Stderr, "vacuity: %s has no completed path\n", h.name)
		}
		hinfo = append(hinfo, map[string]interface{}{
			"harness": h.name, "bounds": l.docs[h.name], "paths": h.paths, "completed": h.complete, "assumption_pruned": h.assumed,
			"step_or_depth_limited": h.limit, "unsupported": h.unsupp, "unsupported_reasons": h.unsupMsgs, "solver_unknown": h.unknown,
			"assertions_checked": h.asserts, "worker_seconds": round2(h.secs), "exploration_complete": !h.incomplete, "reached": h.reach, "never_reached": unreached,
		})
		for i, s := range h.samples {
			if i < 2 {
				smpAll = append(smpAll, s)
			}
		}
	}
	for _, s := range smpAll {
		if len(samples) < 30 {
			samples = append(samples, s)
		}
	}
	if len(samples) == 0 {
		samples = append(samples, "no completed path was sampled")
	}
	var fnsT []string
	for k := range ex.touched {
		if strings.Contains(k, "lestrrat") && !strings.Contains(k, "zz_verif") {
			fnsT = append(fnsT, k)
		}
	}
	sort.Strings(fnsT)
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	ev := map[string]interface{}{
		"property": *prop, "tier": *tier, "seed": seed, "level": "model_checking", "wall_s": round2(time.Since(t0).Seconds()), "violations": len(viols),
		"coverage": map[string]interface{}{
			"states": states, "transitions": trans, "traces_validated_against_impl": validated, "samples": samples, "exhaustive": exhaustive,
			"explanation":       "states = symbolic paths executed (each stands for every input that satisfies its path condition); transitions = decisions taken on them; traces_validated_against_impl = paths whose model was re-run on the natively compiled code with equal observations",
			"assertions":        asserts,
			"functions_encoded": fnsT, "harnesses": hinfo,
			"queries": stats.queries, "solver_calls": stats.solverRuns, "answered_by_cache": stats.cacheHits, "branches_decided_by_byte_domain": stats.byteSat + stats.byteUnsat, "sat": stats.sat, "unsat": stats.unsat,
			"solver_unknown": stats.unknown, "solver_seconds": round2(float64(stats.solverNS) / 1e9), "decided_by_fresh_process": stats.oneshot, "cross_checked_with_cvc5": stats.xcheck, "cross_check_disagreements": stats.xdisagree,
			"load_seconds": round2(tLoad.Seconds()), "explore_seconds": round2(tExp.Seconds()),
			"counterexamples_not_reproduced_natively": len(unrep), "model_mismatches": len(mism),
		},
		"assumptions": []string{
			"bounds: each harness's documented symbolic holes; documents outside those templates are not covered",
			"Go memory model for a single goroutine (except where a property is about schedules); 64-bit little-endian; no allocation failure",
			"library functions modelled rather than interpreted: unicode class tables, utf8, internal/bytealg, fmt verbs, sync.Pool (deterministic reuse), runtime.Callers",
			fmt.Sprintf("per-path instruction bound %d and call-depth bound %d; a path that exceeds one is replayed natively and reported only if it hangs or overflows there", *maxStep, maxDepth),
		},
	}
	os.MkdirAll(filepath.Join(*verif, "evidence"), 0o755)
	jb, _ := json.MarshalIndent(ev, "", " ")
	if err := ioutil.WriteFile(filepath.Join(*verif, "evidence", *prop+".json"), append(jb, '\n'), 0o644); err != nil {
		fail("%v", err)
	}
	for _, h := range ex.hs {
		for id, n := range h.known {
			fmt.Printf("KNOWN-FINDING: property=%s %s (%d paths in %s)\n", *prop, id, n, h.name)
		}
	}
	if len(viols) > 0 {
		rdir := filepath.Join(*verif, "evidence", "replay")
		os.MkdirAll(rdir, 0o755)
		for i, v := range viols {
			f := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", *prop, i))
			jb, _ := json.MarshalIndent(map[string]interface{}{"property": *prop, "package": pkg, "harness": v.H, "vars": v.Vars, "kind": v.Kind, "message": v.Msg,
				"native_status": v.Native.Status, "native_message": v.Native.Msg, "native_notes": v.Native.Notes, "tier": *tier,
				"replay_with": "bash /verif/check.sh " + *prop + " " + *tier + " -replay " + f}, "", " ")
			ioutil.WriteFile(f, append(jb, '\n'), 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, f)
			fmt.Printf("  %s: %s [%s] notes=%q vars=%v\n", v.H, v.Native.Msg, v.Native.Status, v.Native.Notes, v.Vars)
		}
		os.Exit(1)
	}
	fmt.Printf("OK property=%s harnesses=%d paths=%d asserts=%d validated=%d exhaustive=%v wall=%.1fs\n", *prop, len(ex.hs), states, asserts, validated, exhaustive, time.Since(t0).Seconds())
}

var thoroughTier bool

func round2(f float64) float64 { return float64(int64(f*100)) / 100 }
func max64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

func replay(f string) {
	b, err := ioutil.ReadFile(f)
	if err != nil {
		fail("%v", err)
	}
	var r struct {
		Package string            `json:"package"`
		Harness string            `json:"harness"`
		Vars    map[string]uint64 `json:"vars"`
		Tier    string            `json:"tier"`
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fail("%v", err)
	}
	*tier = r.Tier
	raceMode = raceProp(r.Harness)
	_, _, fns, err := load(r.Package)
	if err != nil {
		fail("%v", err)
	}
	var names []string
	for _, f := range fns {
		names = append(names, f.Name())
	}
	bin, err := buildRunner(r.Package, names)
	if err != nil {
		fail("%v", err)
	}
	res, err := native(bin, []natReq{{r.Harness, r.Vars, 40}})
	if err != nil {
		fail("%v", err)
	}
	jb, _ := json.MarshalIndent(res[0], "", " ")
	fmt.Println(string(jb))
	switch res[0].Status {
	case "ok", "assume":
		return
	}
	os.Exit(1)
}
