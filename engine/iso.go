package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// iso is the state of sym.Isolated: memory that other goroutines can see too.
type iso struct {
	shared map[any]bool // cells, byte arrays and maps
	pooled map[any]bool // those of values lying in a pool, which anyone may take out
	held   int          // locks held
}

const sharedWrite = "memory that others may use at the same time is written without synchronisation"
const pooledUse = "memory is used after it was put into a pool, from which others may have taken it"

// reach collects the memory that can be reached from v.
func reach(set map[any]bool, v V) {
	switch x := v.p.(type) {
	case *Struct:
		for i := range x.f {
			reachCell(set, &x.f[i])
		}
	case *Arr:
		if set[x] {
			return
		}
		set[x] = true
		for i := range x.v {
			reachCell(set, &x.v[i])
		}
	case *ByteArr:
		set[x] = true
	case *V:
		reachCell(set, x)
	case *BPtr:
		set[x.b] = true
	case *Slice:
		if x.b != nil {
			set[x.b] = true
		} else if x.a != nil {
			reach(set, V{p: x.a})
		}
	case *Iface:
		reach(set, x.v)
	case *Closure:
		for _, f := range x.free {
			reach(set, f)
		}
	case *Map:
		if set[x] {
			return
		}
		set[x] = true
		for _, e := range x.ents {
			reach(set, e.k)
			reach(set, e.v)
		}
	}
}

func reachCell(set map[any]bool, p *V) {
	if p == nil || set[p] {
		return
	}
	set[p] = true
	reach(set, *p)
}

// moduleGlobals is the memory behind the package variables of the code under test.
func (w *Worker) moduleGlobals() map[any]bool {
	set := map[any]bool{}
	for _, pkg := range w.prog.AllPackages() {
		path := pkg.Pkg.Path()
		if !strings.HasPrefix(path, "github.com/lestrrat-go/helium") || strings.Contains(path, "zz_verif") {
			continue
		}
		for _, m := range pkg.Members {
			if g, ok := m.(*ssa.Global); ok {
				reachCell(set, w.global(g))
			}
		}
	}
	return set
}

// isolatedIn runs the function twice: what the first run makes known to others is shared in the second.
func isolatedIn(w *Worker, fr *frame, a []V) V {
	if w.spec {
		panic(specFail{})
	}
	for run := 0; run < 2; run++ {
		st := &iso{shared: w.moduleGlobals(), pooled: map[any]bool{}}
		if s, _ := a[1].p.(*Slice); s != nil {
			for i := 0; i < s.len; i++ {
				reach(st.shared, s.a.v[s.off+i])
			}
		}
		for _, p := range w.pools {
			// what is in a pool already
			if p.has {
				reach(st.pooled, p.priv)
			}
			for _, v := range p.shared {
				reach(st.pooled, v)
			}
		}
		for c := range st.shared {
			delete(st.pooled, c)
		}
		w.iso = st
		w.callV(a[0], nil)
		w.iso = nil
		w.assert(w.ts.Bool(true), sharedWrite)
	}
	return V{}
}

func (w *Worker) isoWrite(c any) {
	if w.iso.shared[c] && w.iso.held == 0 {
		w.iso = nil
		w.assert(w.ts.fls, sharedWrite)
	}
	if w.iso.pooled[c] {
		w.iso = nil
		w.assert(w.ts.fls, pooledUse)
	}
}

func (w *Worker) isoRead(c any) {
	if w.iso.pooled[c] {
		w.iso = nil
		w.assert(w.ts.fls, pooledUse)
	}
}

func (w *Worker) isoPut(v V) {
	set := map[any]bool{}
	reach(set, v)
	for c := range set {
		if !w.iso.shared[c] {
			w.iso.pooled[c] = true
		}
	}
}

func (w *Worker) isoGet(v V) {
	set := map[any]bool{}
	reach(set, v)
	for c := range set {
		delete(w.iso.pooled, c)
	}
}

// locked runs f as something that synchronises by itself.
func (w *Worker) locked(f func() V) V {
	if st := w.iso; st != nil {
		st.held++
		defer func() { st.held-- }()
	}
	return f()
}

// isoWrap makes an intrinsic one that synchronises by itself.
func isoWrap(f intrinsic) intrinsic {
	return func(w *Worker, fr *frame, a []V) V { return w.locked(func() V { return f(w, fr, a) }) }
}
