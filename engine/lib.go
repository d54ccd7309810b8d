package main

// Library functions that reach into the runtime (reflection, internal hash tables)
// and are given models here so that ordinary code using them stays encodable.

import (
	"go/types"
	"strings"
)

var anyType = types.Universe.Lookup("any").Type()

func syncMapOf(w *Worker, recv V, create bool) *Map {
	p, _ := recv.p.(*V)
	if p == nil {
		w.nilDeref()
	}
	s, ok := p.p.(*Struct)
	if !ok {
		unsup("sync.Map shape")
	}
	if m, ok := s.f[0].p.(*Map); ok {
		return m
	}
	if !create {
		return nil
	}
	m := &Map{idx: map[any]int{}, epoch: w.epoch}
	w.logV(&s.f[0])
	s.f[0] = V{p: m}
	return m
}

func (w *Worker) syncMapGet(m *Map, k V) (V, bool) {
	if i := w.mapFind(m, k, anyType); i >= 0 {
		return m.ents[i].v, true
	}
	return V{}, false
}

// sliceSorter gives length and swap function of the slice held in an interface.
func sliceSorter(w *Worker, v V) (int, V) {
	it, _ := v.p.(*Iface)
	if it == nil {
		unsup("sort of a nil interface")
	}
	s, ok := it.v.p.(*Slice)
	if !ok {
		if it.v.p == nil {
			return 0, V{}
		}
		unsup("sort of %T", it.v.p)
	}
	swap := &Closure{nat: func(w *Worker, a []V) V {
		i, j := w.concInt(a[0]), w.concInt(a[1])
		if i < 0 || j < 0 || i >= s.len || j >= s.len {
			panic(&targetPanic{msg: "reflect: slice index out of range"})
		}
		if s.b != nil {
			x, y := s.b.get(s.off+i), s.b.get(s.off+j)
			w.setByte(s.b, s.off+i, y)
			w.setByte(s.b, s.off+j, x)
			return V{}
		}
		x, y := copyV(s.a.v[s.off+i]), copyV(s.a.v[s.off+j])
		w.store(&s.a.v[s.off+i], y)
		w.store(&s.a.v[s.off+j], x)
		return V{}
	}}
	return s.len, V{p: swap}
}

func sortSlice(fn string) intrinsic {
	return func(w *Worker, fr *frame, a []V) V {
		n, swap := sliceSorter(w, a[0])
		if n < 2 {
			return V{}
		}
		pkg := w.prog.ImportedPackage("sort")
		f := pkg.Func(fn)
		if f == nil {
			unsup("sort.%s", fn)
		}
		ls := V{p: &Struct{f: []V{a[1], swap}}}
		args := []V{ls, vInt(0), vInt(n)}
		if fn == "stable_func" {
			args = []V{ls, vInt(n)}
		} else if len(f.Params) == 4 {
			l := 0
			for x := n; x > 0; x >>= 1 {
				l++
			}
			args = append(args, vInt(l))
		}
		return w.call(w.fnOf(f), args, nil, nil)
	}
}

func init() {
	add := func(name string, f intrinsic) {
		if strings.HasPrefix(name, "(*sync") && name != "(*sync.Map).Range" {
			f = isoWrap(f)
		}
		intrinsics[name] = f
	}
	add("sort.Slice", sortSlice("pdqsort_func"))
	add("sort.SliceStable", sortSlice("stable_func"))
	add("sort.SliceIsSorted", func(w *Worker, fr *frame, a []V) V {
		n, _ := sliceSorter(w, a[0])
		for i := n - 1; i > 0; i-- {
			if w.truth(w.callV(a[1], []V{vInt(i), vInt(i - 1)})) {
				return vBool(false)
			}
		}
		return vBool(true)
	})
	add("(*sync.Map).Load", func(w *Worker, fr *frame, a []V) V {
		v, ok := w.syncMapGet(syncMapOf(w, a[0], false), a[1])
		return tuple(v, vBool(ok))
	})
	add("(*sync.Map).Store", func(w *Worker, fr *frame, a []V) V {
		w.mapSet(syncMapOf(w, a[0], true), a[1], a[2], anyType)
		return V{}
	})
	add("(*sync.Map).LoadOrStore", func(w *Worker, fr *frame, a []V) V {
		m := syncMapOf(w, a[0], true)
		if v, ok := w.syncMapGet(m, a[1]); ok {
			return tuple(v, vBool(true))
		}
		w.mapSet(m, a[1], a[2], anyType)
		return tuple(a[2], vBool(false))
	})
	add("(*sync.Map).LoadAndDelete", func(w *Worker, fr *frame, a []V) V {
		m := syncMapOf(w, a[0], true)
		v, ok := w.syncMapGet(m, a[1])
		w.mapDel(m, a[1], anyType)
		return tuple(v, vBool(ok))
	})
	add("(*sync.Map).Delete", func(w *Worker, fr *frame, a []V) V {
		w.mapDel(syncMapOf(w, a[0], true), a[1], anyType)
		return V{}
	})
	add("(*sync.Map).Swap", func(w *Worker, fr *frame, a []V) V {
		m := syncMapOf(w, a[0], true)
		v, ok := w.syncMapGet(m, a[1])
		w.mapSet(m, a[1], a[2], anyType)
		return tuple(v, vBool(ok))
	})
	add("(*sync.Map).CompareAndSwap", func(w *Worker, fr *frame, a []V) V {
		m := syncMapOf(w, a[0], true)
		v, ok := w.syncMapGet(m, a[1])
		if !ok || !w.truth(w.eqV(v, a[2], anyType)) {
			return vBool(false)
		}
		w.mapSet(m, a[1], a[3], anyType)
		return vBool(true)
	})
	add("(*sync.Map).CompareAndDelete", func(w *Worker, fr *frame, a []V) V {
		m := syncMapOf(w, a[0], true)
		v, ok := w.syncMapGet(m, a[1])
		if !ok || !w.truth(w.eqV(v, a[2], anyType)) {
			return vBool(false)
		}
		w.mapDel(m, a[1], anyType)
		return vBool(true)
	})
	add("(*sync.Map).Range", func(w *Worker, fr *frame, a []V) V {
		m := syncMapOf(w, a[0], false)
		if m == nil {
			return V{}
		}
		for _, e := range append([]mapEnt(nil), m.ents...) {
			if e.dead {
				continue
			}
			if !w.truth(w.callV(a[1], []V{e.k, e.v})) {
				break
			}
		}
		return V{}
	})
	add("(*sync.Map).Clear", func(w *Worker, fr *frame, a []V) V {
		m := syncMapOf(w, a[0], true)
		for _, e := range append([]mapEnt(nil), m.ents...) {
			if !e.dead {
				w.mapDel(m, e.k, anyType)
			}
		}
		return V{}
	})
	// atomic.Value holds an interface in its only field.
	av := func(w *Worker, r V) *V {
		p, _ := r.p.(*V)
		if p == nil {
			w.nilDeref()
		}
		s, ok := p.p.(*Struct)
		if !ok {
			unsup("atomic.Value shape")
		}
		return &s.f[0]
	}
	nonNil := func(v V) {
		if v.p == nil {
			panic(&targetPanic{msg: "sync/atomic: store of nil value into Value"})
		}
	}
	add("(*sync/atomic.Value).Load", func(w *Worker, fr *frame, a []V) V { return *av(w, a[0]) })
	add("(*sync/atomic.Value).Store", func(w *Worker, fr *frame, a []V) V {
		nonNil(a[1])
		c := av(w, a[0])
		w.logV(c)
		*c = a[1]
		return V{}
	})
	add("(*sync/atomic.Value).Swap", func(w *Worker, fr *frame, a []V) V {
		nonNil(a[1])
		c := av(w, a[0])
		o := *c
		w.logV(c)
		*c = a[1]
		return o
	})
	add("(*sync/atomic.Value).CompareAndSwap", func(w *Worker, fr *frame, a []V) V {
		nonNil(a[2])
		c := av(w, a[0])
		if !w.truth(w.eqV(*c, a[1], anyType)) {
			return vBool(false)
		}
		w.logV(c)
		*c = a[2]
		return vBool(true)
	})
	add("reflect.DeepEqual", func(w *Worker, fr *frame, a []V) V {
		return fromTerm(w.deepEq(a[0], a[1], anyType, 0))
	})
}

// deepEq models reflect.DeepEqual on values of static type t.
func (w *Worker) deepEq(a, b V, t types.Type, depth int) *Term {
	if depth > 200 {
		unsup("deep comparison of a deep value")
	}
	ts := w.ts
	switch u := t.Underlying().(type) {
	case *types.Interface:
		x, _ := a.p.(*Iface)
		y, _ := b.p.(*Iface)
		if x == nil || y == nil {
			return ts.Bool(x == nil && y == nil)
		}
		if x.ti != y.ti {
			return ts.fls
		}
		return w.deepEq(x.v, y.v, x.ti.t, depth+1)
	case *types.Pointer:
		if ptrEq(a.p, b.p) {
			return ts.tru
		}
		if a.p == nil || b.p == nil {
			return ts.fls
		}
		x, ok1 := a.p.(*V)
		y, ok2 := b.p.(*V)
		if !ok1 || !ok2 {
			unsup("deep comparison through %T", a.p)
		}
		return w.deepEq(*x, *y, u.Elem(), depth+1)
	case *types.Struct:
		x, y := a.p.(*Struct), b.p.(*Struct)
		r := ts.tru
		for i := range x.f {
			r = ts.And(r, w.deepEq(x.f[i], y.f[i], u.Field(i).Type(), depth+1))
		}
		return r
	case *types.Array:
		r := ts.tru
		for i := 0; i < int(u.Len()); i++ {
			r = ts.And(r, w.deepEq(arrAt(a, i), arrAt(b, i), u.Elem(), depth+1))
		}
		return r
	case *types.Slice:
		x, _ := a.p.(*Slice)
		y, _ := b.p.(*Slice)
		if x == nil || y == nil {
			return ts.Bool(x == nil && y == nil)
		}
		if x.len != y.len {
			return ts.fls
		}
		at := func(s *Slice, i int) V {
			if s.b != nil {
				return s.b.get(s.off + i)
			}
			return s.a.v[s.off+i]
		}
		r := ts.tru
		for i := 0; i < x.len; i++ {
			r = ts.And(r, w.deepEq(at(x, i), at(y, i), u.Elem(), depth+1))
		}
		return r
	case *types.Map:
		x, _ := a.p.(*Map)
		y, _ := b.p.(*Map)
		if x == nil || y == nil {
			return ts.Bool(x == nil && y == nil)
		}
		if x.live != y.live {
			return ts.fls
		}
		r := ts.tru
		for _, e := range x.ents {
			if e.dead {
				continue
			}
			i := w.mapFind(y, e.k, u.Key())
			if i < 0 {
				return ts.fls
			}
			r = ts.And(r, w.deepEq(e.v, y.ents[i].v, u.Elem(), depth+1))
		}
		return r
	case *types.Signature:
		return ts.Bool(a.p == nil && b.p == nil)
	}
	return w.term(w.eqV(a, b, t), 0)
}
