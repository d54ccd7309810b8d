package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// V is a run-time value of the interpreted program.
//
//	scalars        n (zero-extended raw bits), or p = *Term when symbolic
//	string         p = nil (""), string, or *SymStr
//	struct, tuple  p = *Struct        array  p = *Arr or *ByteArr
//	slice          p = nil or *Slice  map    p = nil or *Map
//	pointer        p = nil, *V, *BPtr or *SymPtr
//	interface      p = nil or *Iface  func   p = nil, *Closure
//	chan           p = nil or *Chan
type V struct {
	n uint64
	p any
}

type SymStr struct {
	b []byte
	t []*Term
}

type Struct struct{ f []V }
type Arr struct{ v []V }
type ByteArr struct {
	b []byte
	t []*Term // nil when fully concrete
}
type Slice struct {
	a             *Arr
	b             *ByteArr
	off, len, cap int
}
type BPtr struct {
	b *ByteArr
	i int
}
type SymPtr struct {
	a    *Arr
	b    *ByteArr
	off  int
	n    int
	idx  *Term // < n, unsigned
	path []int
}
type Iface struct {
	ti *TypeInfo
	v  V
}
type Closure struct {
	fn   *ssa.Function
	free []V
	bi   *ssa.Builtin
	nat  func(w *Worker, args []V) V
}
type mapEnt struct {
	k, v V
	dead bool
}
type Map struct {
	ents  []mapEnt
	idx   map[any]int
	sym   bool // some key is symbolic
	live  int
	epoch int
}
type mapIter struct {
	m    *Map
	left []int
	big  bool // one of two orders
	rev  bool
}
type strIter struct {
	s   V
	pos int
}

type TypeInfo struct {
	t     types.Type
	id    int
	meth  map[string]*ssa.Function
	impl  map[int]bool
	under types.Type
}

type targetPanic struct {
	v   V
	msg string // for run-time errors
}

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

func isByteElem(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8 || b.Kind() == types.Byte)
}

// scalarInfo returns the width (0 = bool) of integer-like types.
func scalarInfo(t types.Type) (w uint8, signed bool, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int64, types.Int, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func zeroV(t types.Type) V {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s := &Struct{f: make([]V, u.NumFields())}
		for i := range s.f {
			s.f[i] = zeroV(u.Field(i).Type())
		}
		return V{p: s}
	case *types.Array:
		n := int(u.Len())
		if isByteElem(u.Elem()) {
			return V{p: &ByteArr{b: make([]byte, n)}}
		}
		a := &Arr{v: make([]V, n)}
		if isAgg(u.Elem()) {
			for i := range a.v {
				a.v[i] = zeroV(u.Elem())
			}
		}
		return V{p: a}
	case *types.Tuple:
		s := &Struct{f: make([]V, u.Len())}
		for i := range s.f {
			s.f[i] = zeroV(u.At(i).Type())
		}
		return V{p: s}
	}
	return V{}
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

// copyV clones aggregates (structs and arrays held by value).
func copyV(v V) V {
	switch p := v.p.(type) {
	case *Struct:
		s := &Struct{f: make([]V, len(p.f))}
		for i := range p.f {
			s.f[i] = copyV(p.f[i])
		}
		return V{p: s}
	case *Arr:
		a := &Arr{v: make([]V, len(p.v))}
		for i := range p.v {
			a.v[i] = copyV(p.v[i])
		}
		return V{p: a}
	case *ByteArr:
		b := &ByteArr{b: append([]byte(nil), p.b...)}
		if p.t != nil {
			b.t = append([]*Term(nil), p.t...)
		}
		return V{p: b}
	}
	return v
}

// ---- undo log -------------------------------------------------------------

type undoEnt struct {
	p  *V
	v  V
	ba *ByteArr
	i  int
	b  []byte
	t  []*Term
}

func (w *Worker) logV(p *V) {
	if w.iso != nil {
		w.isoWrite(p)
	}
	if w.initDone {
		w.undo = append(w.undo, undoEnt{p: p, v: *p})
	}
}

func (w *Worker) logB(ba *ByteArr, i, n int) {
	if !w.initDone || n == 0 {
		return
	}
	if w.iso != nil {
		w.isoWrite(ba)
	}
	e := undoEnt{ba: ba, i: i, b: append([]byte(nil), ba.b[i:i+n]...)}
	if ba.t != nil {
		e.t = append([]*Term(nil), ba.t[i:i+n]...)
	}
	w.undo = append(w.undo, e)
}

func (w *Worker) rollback() {
	for i := len(w.undo) - 1; i >= 0; i-- {
		e := &w.undo[i]
		if e.p != nil {
			*e.p = e.v
		} else {
			copy(e.ba.b[e.i:], e.b)
			if e.t != nil {
				copy(e.ba.t[e.i:], e.t)
			} else if e.ba.t != nil {
				for k := range e.b {
					e.ba.t[e.i+k] = nil
				}
			}
		}
		*e = undoEnt{}
	}
	w.undo = w.undo[:0]
}

// store writes v into the cell, in place for aggregates.
func (w *Worker) store(p *V, v V) {
	switch d := p.p.(type) {
	case *Struct:
		s, ok := v.p.(*Struct)
		if !ok {
			unsup("store: struct shape mismatch")
		}
		if d == s {
			return
		}
		for i := range d.f {
			w.store(&d.f[i], s.f[i])
		}
		return
	case *Arr:
		s, ok := v.p.(*Arr)
		if !ok {
			unsup("store: array shape mismatch")
		}
		if d == s {
			return
		}
		for i := range d.v {
			w.store(&d.v[i], s.v[i])
		}
		return
	case *ByteArr:
		s, ok := v.p.(*ByteArr)
		if !ok {
			unsup("store: byte array shape mismatch")
		}
		w.copyBytes(d, 0, s, 0, len(d.b))
		return
	}
	w.logV(p)
	*p = v
}

func (w *Worker) copyBytes(d *ByteArr, di int, s *ByteArr, si, n int) {
	if n == 0 {
		return
	}
	w.logB(d, di, n)
	copy(d.b[di:di+n], s.b[si:si+n])
	if s.t != nil {
		if d.t == nil {
			d.t = make([]*Term, len(d.b))
		}
		copy(d.t[di:di+n], s.t[si:si+n])
	} else if d.t != nil {
		for i := 0; i < n; i++ {
			d.t[di+i] = nil
		}
	}
}

func (a *ByteArr) get(i int) V {
	if a.t != nil && a.t[i] != nil {
		return V{p: a.t[i]}
	}
	return V{n: uint64(a.b[i])}
}

func (w *Worker) setByte(a *ByteArr, i int, v V) {
	w.logB(a, i, 1)
	if t, ok := v.p.(*Term); ok {
		if a.t == nil {
			a.t = make([]*Term, len(a.b))
		}
		a.t[i] = t
		a.b[i] = 0
		return
	}
	a.b[i] = byte(v.n)
	if a.t != nil {
		a.t[i] = nil
	}
}

// ---- terms <-> values -------------------------------------------------------

func (w *Worker) term(v V, width uint8) *Term {
	if t, ok := v.p.(*Term); ok {
		return t
	}
	return w.ts.Const(v.n, width)
}

func fromTerm(t *Term) V {
	if t.op == OConst {
		return V{n: t.c}
	}
	return V{p: t}
}

func isSym(v V) bool { _, ok := v.p.(*Term); return ok }

func vInt(i int) V   { return V{n: uint64(i)} }
func vBool(b bool) V { return V{n: b2u(b)} }
func vStr(s string) V {
	if s == "" {
		return V{}
	}
	return V{p: s}
}

// ---- strings ---------------------------------------------------------------

func strLen(v V) int {
	switch s := v.p.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	panic(unsupported{fmt.Sprintf("strLen of %T", v.p)})
}

func strAt(v V, i int) V {
	switch s := v.p.(type) {
	case string:
		return V{n: uint64(s[i])}
	case *SymStr:
		if s.t[i] != nil {
			return V{p: s.t[i]}
		}
		return V{n: uint64(s.b[i])}
	}
	panic(unsupported{"strAt"})
}

// concrete reports the Go string when no byte is symbolic.
func concrete(v V) (string, bool) {
	switch s := v.p.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	}
	return "", false
}

func mkStr(b []byte, t []*Term) V {
	if len(b) == 0 {
		return V{}
	}
	for _, x := range t {
		if x != nil {
			return V{p: &SymStr{b: b, t: t}}
		}
	}
	return V{p: string(b)}
}

func substr(v V, i, j int) V {
	switch s := v.p.(type) {
	case nil:
		return V{}
	case string:
		return vStr(s[i:j])
	case *SymStr:
		return mkStr(s.b[i:j:j], s.t[i:j:j])
	}
	panic(unsupported{"substr"})
}

func concat(a, b V) V {
	if strLen(a) == 0 {
		return b
	}
	if strLen(b) == 0 {
		return a
	}
	x, ok1 := a.p.(string)
	y, ok2 := b.p.(string)
	if ok1 && ok2 {
		return V{p: x + y}
	}
	n := strLen(a) + strLen(b)
	bb := make([]byte, 0, n)
	tt := make([]*Term, 0, n)
	for _, s := range [...]V{a, b} {
		switch q := s.p.(type) {
		case string:
			bb = append(bb, q...)
			for range []byte(q) {
				tt = append(tt, nil)
			}
		case *SymStr:
			bb = append(bb, q.b...)
			tt = append(tt, q.t...)
		}
	}
	return mkStr(bb, tt)
}

func bytesOf(v V) *ByteArr {
	switch s := v.p.(type) {
	case nil:
		return &ByteArr{}
	case string:
		return &ByteArr{b: []byte(s)}
	case *SymStr:
		return &ByteArr{b: append([]byte(nil), s.b...), t: append([]*Term(nil), s.t...)}
	}
	panic(unsupported{"bytesOf"})
}

func strOfBytes(sl *Slice) V {
	if sl == nil || sl.len == 0 {
		return V{}
	}
	if sl.b == nil {
		unsup("string of non-byte slice")
	}
	b := append([]byte(nil), sl.b.b[sl.off:sl.off+sl.len]...)
	if sl.b.t == nil {
		return V{p: string(b)}
	}
	return mkStr(b, append([]*Term(nil), sl.b.t[sl.off:sl.off+sl.len]...))
}

func (w *Worker) eqStr(a, b V) V {
	n := strLen(a)
	if n != strLen(b) {
		return vBool(false)
	}
	x, ok1 := concrete(a)
	y, ok2 := concrete(b)
	if ok1 && ok2 {
		return vBool(x == y)
	}
	r := w.ts.tru
	for i := 0; i < n; i++ {
		p, q := strAt(a, i), strAt(b, i)
		if p.p == nil && q.p == nil {
			if p.n != q.n {
				return vBool(false)
			}
			continue
		}
		e := w.ts.Eq(w.term(p, 8), w.term(q, 8))
		if e.isFalse() {
			return vBool(false)
		}
		r = w.ts.And(r, e)
	}
	return fromTerm(r)
}

// ltStr is a < b, lexicographically.
func (w *Worker) ltStr(a, b V) V {
	x, ok1 := concrete(a)
	y, ok2 := concrete(b)
	if ok1 && ok2 {
		return vBool(x < y)
	}
	na, nb := strLen(a), strLen(b)
	n := na
	if nb < n {
		n = nb
	}
	r := w.ts.Bool(na < nb)
	for i := n - 1; i >= 0; i-- {
		p, q := w.term(strAt(a, i), 8), w.term(strAt(b, i), 8)
		r = w.ts.Or(w.ts.Ult(p, q), w.ts.And(w.ts.Eq(p, q), r))
	}
	return fromTerm(r)
}

// evalStr renders a string under the model.
func (w *Worker) evalStr(v V) string {
	switch s := v.p.(type) {
	case nil:
		return ""
	case string:
		return s
	case *SymStr:
		b := append([]byte(nil), s.b...)
		for i, t := range s.t {
			if t != nil {
				b[i] = byte(w.ts.eval(t, w.model))
			}
		}
		return string(b)
	}
	return fmt.Sprintf("<%T>", v.p)
}

func (w *Worker) typeInfo(t types.Type) *TypeInfo {
	if x := w.tmap.At(t); x != nil {
		return x.(*TypeInfo)
	}
	ti := &TypeInfo{t: t, id: w.tmap.Len(), meth: map[string]*ssa.Function{}, impl: map[int]bool{}, under: t.Underlying()}
	w.tmap.Set(t, ti)
	return ti
}

func (w *Worker) method(ti *TypeInfo, m *types.Func) *ssa.Function {
	id := m.Id()
	if f, ok := ti.meth[id]; ok {
		return f
	}
	f := w.prog.LookupMethod(ti.t, m.Pkg(), m.Name())
	ti.meth[id] = f
	return f
}

func (w *Worker) implements(ti *TypeInfo, it *types.Interface, itKey *TypeInfo) bool {
	if r, ok := ti.impl[itKey.id]; ok {
		return r
	}
	r := types.Implements(ti.t, it)
	ti.impl[itKey.id] = r
	return r
}

// ---- equality of arbitrary values --------------------------------------------

func (w *Worker) eqV(a, b V, t types.Type) V {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return w.eqStr(a, b)
		}
		if a.p == nil && b.p == nil {
			if u.Info()&types.IsFloat != 0 {
				return vBool(f64(a.n) == f64(b.n))
			}
			return vBool(a.n == b.n)
		}
		if u.Kind() == types.UnsafePointer {
			return vBool(ptrEq(a.p, b.p))
		}
		wd, _, ok := scalarInfo(t)
		if !ok {
			unsup("eq on %s", t)
		}
		return fromTerm(w.ts.Eq(w.term(a, wd), w.term(b, wd)))
	case *types.Interface:
		x, _ := a.p.(*Iface)
		y, _ := b.p.(*Iface)
		if x == nil || y == nil {
			return vBool(x == nil && y == nil)
		}
		if x.ti != y.ti {
			return vBool(false)
		}
		if !types.Comparable(x.ti.t) {
			w.rtPanic("comparing uncomparable type " + x.ti.t.String())
		}
		return w.eqV(x.v, y.v, x.ti.t)
	case *types.Struct:
		x, y := a.p.(*Struct), b.p.(*Struct)
		r := w.ts.tru
		for i := range x.f {
			if u.Field(i).Name() == "_" {
				continue
			}
			r = w.ts.And(r, w.term(w.eqV(x.f[i], y.f[i], u.Field(i).Type()), 0))
		}
		return fromTerm(r)
	case *types.Array:
		r := w.ts.tru
		for i := 0; i < int(u.Len()); i++ {
			r = w.ts.And(r, w.term(w.eqV(arrAt(a, i), arrAt(b, i), u.Elem()), 0))
		}
		return fromTerm(r)
	case *types.Pointer, *types.Chan, *types.Map, *types.Signature, *types.Slice:
		return vBool(ptrEq(a.p, b.p))
	}
	unsup("eq on %s", t)
	return V{}
}

func arrAt(a V, i int) V {
	switch p := a.p.(type) {
	case *Arr:
		return p.v[i]
	case *ByteArr:
		return p.get(i)
	}
	panic(unsupported{"arrAt"})
}

func ptrEq(a, b any) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	if x, ok := a.(*BPtr); ok {
		y, ok := b.(*BPtr)
		return ok && x.b == y.b && x.i == y.i
	}
	if _, ok := a.(*SymPtr); ok {
		unsup("comparison of symbolic pointers")
	}
	return a == b
}

// ---- maps ------------------------------------------------------------------

type ifaceKey struct {
	ti *TypeInfo
	k  any
}

// mapKey gives a comparable Go key; ok=false when part of the key is symbolic.
func (w *Worker) mapKey(k V, t types.Type) (any, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			s, ok := concrete(k)
			return s, ok
		}
		if isSym(k) {
			return nil, false
		}
		if k.p != nil {
			return k.p, true
		}
		return k.n, true
	case *types.Interface:
		x, _ := k.p.(*Iface)
		if x == nil {
			return nil, true
		}
		if !types.Comparable(x.ti.t) {
			w.rtPanic("hash of unhashable type " + x.ti.t.String())
		}
		kk, ok := w.mapKey(x.v, x.ti.t)
		return ifaceKey{x.ti, kk}, ok
	case *types.Struct:
		s := k.p.(*Struct)
		var sb strings.Builder
		for i := range s.f {
			kk, ok := w.mapKey(s.f[i], u.Field(i).Type())
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T:%v|", kk, kk)
		}
		return sb.String(), true
	case *types.Array:
		var sb strings.Builder
		for i := 0; i < int(u.Len()); i++ {
			kk, ok := w.mapKey(arrAt(k, i), u.Elem())
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%v|", kk)
		}
		return sb.String(), true
	}
	return k.p, true
}

func (w *Worker) mapFind(m *Map, k V, kt types.Type) int {
	if m == nil || m.live == 0 {
		// still hash (unhashable keys panic)
		w.mapKey(k, kt)
		return -1
	}
	key, ok := w.mapKey(k, kt)
	if ok && !m.sym {
		if i, ok := m.idx[key]; ok {
			return i
		}
		return -1
	}
	for i := range m.ents {
		e := &m.ents[i]
		if e.dead {
			continue
		}
		if w.truth(w.eqV(e.k, k, kt)) {
			return i
		}
	}
	return -1
}

func (w *Worker) mapOwn(m *Map) {
	if w.iso != nil {
		w.isoWrite(m)
	}
	if !w.initDone || m.epoch == w.epoch {
		return
	}
	// first write on this path to a map made before it: save a full copy
	old := *m
	cp := *m
	cp.ents = append([]mapEnt(nil), m.ents...)
	cp.idx = make(map[any]int, len(m.idx))
	for k, v := range m.idx {
		cp.idx[k] = v
	}
	cp.epoch = w.epoch
	*m = cp
	w.mapUndo = append(w.mapUndo, mapSave{m, old})
}

type mapSave struct {
	m   *Map
	old Map
}

func (w *Worker) mapSet(m *Map, k, v V, kt types.Type) {
	w.mapOwn(m)
	if i := w.mapFind(m, k, kt); i >= 0 {
		m.ents[i].v = v
		return
	}
	key, ok := w.mapKey(k, kt)
	if ok {
		m.idx[key] = len(m.ents)
	} else {
		m.sym = true
	}
	m.ents = append(m.ents, mapEnt{k: k, v: v})
	m.live++
}

func (w *Worker) mapDel(m *Map, k V, kt types.Type) {
	if m == nil {
		return
	}
	w.mapOwn(m)
	i := w.mapFind(m, k, kt)
	if i < 0 {
		return
	}
	if key, ok := w.mapKey(m.ents[i].k, kt); ok {
		delete(m.idx, key)
	}
	m.ents[i].dead = true
	m.ents[i].v = V{}
	m.live--
}
