package main

// Hash-consed bit-vector terms. Width 0 is the Bool sort; all other widths are
// bit-vector sorts. Every worker owns its own table, so no locking is needed.

import (
	"fmt"
	"math/bits"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot // bool
	OAnd // bool
	OOr  // bool
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OIte
	OAdd
	OSub
	OMul
	OBand
	OBor
	OBxor
	OBnot
	ONeg
	OShl
	OLshr
	OAshr
	OUdiv
	OUrem
	OSdiv
	OSrem
	OZext
	OSext
	OExtract // low bits only: (_ extract w-1 0)
)

var opNames = [...]string{"const", "var", "not", "and", "or", "=", "bvult", "bvule", "bvslt", "bvsle", "ite",
	"bvadd", "bvsub", "bvmul", "bvand", "bvor", "bvxor", "bvnot", "bvneg", "bvshl", "bvlshr", "bvashr",
	"bvudiv", "bvurem", "bvsdiv", "bvsrem", "zext", "sext", "extract"}

type Term struct {
	op      Op
	w       uint8
	id      int32
	c       uint64 // constant value / variable number
	a, b, d *Term
	lo, hi  uint64 // unsigned interval
	vs      uint64 // variables, as a bloom mask (var number mod 64)
	h1, h2  uint64 // structural hash, identical across workers
	sv      int32  // the only variable in it, or -1 (none), -2 (several)
	dom     *[4]uint64 // values of that 8-bit variable that make it true
	// evaluation memo
	evGen uint32
	evVal uint64
}

type termKey struct {
	op      Op
	w       uint8
	c       uint64
	a, b, d *Term
}

type VarInfo struct {
	name string
	w    uint8
	t    *Term
}

type Terms struct {
	tab   map[termKey]*Term
	n     int32
	vars  []VarInfo
	byNam map[string]int
	gen   uint32
	tru   *Term
	fls   *Term
}

func newTerms() *Terms {
	ts := &Terms{tab: map[termKey]*Term{}, byNam: map[string]int{}}
	ts.tru = ts.mk(OConst, 0, 1, nil, nil, nil)
	ts.fls = ts.mk(OConst, 0, 0, nil, nil, nil)
	return ts
}

func mask(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext64(v uint64, w uint8) int64 {
	if w >= 64 || w == 0 {
		return int64(v)
	}
	s := 64 - w
	return int64(v<<s) >> s
}

func mix(h, x uint64) uint64 {
	h ^= x
	hi, lo := bits.Mul64(h, 0x9E3779B97F4A7C15)
	return hi ^ lo ^ (h << 7)
}

func hashName(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

func (ts *Terms) mk(op Op, w uint8, c uint64, a, b, d *Term) *Term {
	k := termKey{op, w, c, a, b, d}
	if t, ok := ts.tab[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, c: c, a: a, b: b, d: d, id: ts.n, sv: -1}
	ts.n++
	h1, h2 := uint64(op)*0x100000001b3+uint64(w)+1, uint64(op)*0x9E3779B97F4A7C15+uint64(w)*77+5
	hc := c
	if op == OVar {
		hc = hashName(ts.vars[c].name)
		t.vs = 1 << (c & 63)
		t.sv = int32(c)
	}
	h1, h2 = mix(h1, hc+0x1234567), mix(h2, hc^0xfeedfacecafebeef)
	for i, x := range [...]*Term{a, b, d} {
		if x != nil {
			h1, h2 = mix(h1, x.h1+uint64(i)*0x51ed27), mix(h2, x.h2^uint64(i+1)*0x7f4a7c15)
			t.vs |= x.vs
			if x.sv != -1 && x.sv != t.sv {
				if t.sv == -1 {
					t.sv = x.sv
				} else {
					t.sv = -2
				}
			}
		}
	}
	t.h1, t.h2 = h1, h2
	t.lo, t.hi = ts.interval(t)
	ts.tab[k] = t
	return t
}

func (ts *Terms) interval(t *Term) (uint64, uint64) {
	m := mask(t.w)
	switch t.op {
	case OConst:
		return t.c, t.c
	case OVar:
		return 0, m
	case OIte:
		lo, hi := t.b.lo, t.b.hi
		if t.d.lo < lo {
			lo = t.d.lo
		}
		if t.d.hi > hi {
			hi = t.d.hi
		}
		return lo, hi
	case OZext:
		return t.a.lo, t.a.hi
	case OExtract:
		if t.a.hi <= m {
			return t.a.lo, t.a.hi
		}
	case OAdd:
		s, c := bits.Add64(t.a.hi, t.b.hi, 0)
		if c == 0 && s <= m {
			return t.a.lo + t.b.lo, s
		}
		// x + const with guaranteed wrap (subtraction of a constant)
		if t.b.op == OConst {
			neg := (-t.b.c) & m
			if t.a.lo >= neg {
				return t.a.lo - neg, t.a.hi - neg
			}
		}
	case OSub:
		if t.a.lo >= t.b.hi {
			return t.a.lo - t.b.hi, t.a.hi - t.b.lo
		}
	case OMul:
		h, l := bits.Mul64(t.a.hi, t.b.hi)
		if h == 0 && l <= m {
			return t.a.lo * t.b.lo, l
		}
	case OBand:
		hi := t.a.hi
		if t.b.hi < hi {
			hi = t.b.hi
		}
		return 0, hi
	case OBor, OBxor:
		n := bits.Len64(t.a.hi | t.b.hi)
		return 0, mask(uint8(n)) & m
	case OLshr:
		if t.b.op == OConst && t.b.c < 64 {
			return t.a.lo >> t.b.c, t.a.hi >> t.b.c
		}
		return 0, t.a.hi
	case OShl:
		if t.b.op == OConst && t.b.c < 64 && bits.Len64(t.a.hi)+int(t.b.c) <= int(t.w) {
			return t.a.lo << t.b.c, t.a.hi << t.b.c
		}
	case OUdiv:
		if t.b.op == OConst && t.b.c != 0 {
			return t.a.lo / t.b.c, t.a.hi / t.b.c
		}
	case OUrem:
		if t.b.op == OConst && t.b.c != 0 {
			hi := t.b.c - 1
			if t.a.hi < hi {
				hi = t.a.hi
			}
			return 0, hi
		}
	}
	return 0, m
}

func (ts *Terms) Const(v uint64, w uint8) *Term { return ts.mk(OConst, w, v&mask(w), nil, nil, nil) }
func (ts *Terms) Bool(b bool) *Term {
	if b {
		return ts.tru
	}
	return ts.fls
}

// Var returns the variable of that name, creating it if needed.
func (ts *Terms) Var(name string, w uint8) *Term {
	if i, ok := ts.byNam[name]; ok {
		if ts.vars[i].w != w {
			panic("variable redeclared with another width: " + name)
		}
		return ts.vars[i].t
	}
	i := len(ts.vars)
	ts.vars = append(ts.vars, VarInfo{name: name, w: w})
	ts.byNam[name] = i
	t := ts.mk(OVar, w, uint64(i), nil, nil, nil)
	ts.vars[i].t = t
	return t
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.w == 0 && t.c == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.w == 0 && t.c == 0 }

func (ts *Terms) Not(a *Term) *Term {
	switch a.op {
	case OConst:
		return ts.Bool(a.c == 0)
	case ONot:
		return a.a
	}
	return ts.mk(ONot, 0, 0, a, nil, nil)
}

func (ts *Terms) And(a, b *Term) *Term {
	if a.isFalse() || b.isFalse() {
		return ts.fls
	}
	if a.isTrue() {
		return b
	}
	if b.isTrue() || a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return ts.fls
	}
	// x==c1 && x==c2 (c1 != c2)
	if a.op == OEq && b.op == OEq && a.a == b.a && a.b.isConst() && b.b.isConst() && a.b != b.b {
		return ts.fls
	}
	// x==c && !(x==d)  with c!=d  -> x==c
	if a.op == OEq && a.b.isConst() && b.op == ONot && b.a.op == OEq && b.a.a == a.a && b.a.b.isConst() && b.a.b != a.b {
		return a
	}
	if b.op == OEq && b.b.isConst() && a.op == ONot && a.a.op == OEq && a.a.a == b.a && a.a.b.isConst() && a.a.b != b.b {
		return b
	}
	// absorption with one level
	if a.op == OAnd && (a.a == b || a.b == b) {
		return a
	}
	if b.op == OAnd && (b.a == a || b.b == a) {
		return b
	}
	return ts.mk(OAnd, 0, 0, a, b, nil)
}

func (ts *Terms) Or(a, b *Term) *Term {
	if a.isTrue() || b.isTrue() {
		return ts.tru
	}
	if a.isFalse() {
		return b
	}
	if b.isFalse() || a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return ts.tru
	}
	if a.op == OOr && (a.a == b || a.b == b) {
		return a
	}
	if b.op == OOr && (b.a == a || b.b == a) {
		return b
	}
	// c || (!c && x) -> c || x
	if b.op == OAnd {
		if b.a.op == ONot && b.a.a == a {
			return ts.Or(a, b.b)
		}
		if b.b.op == ONot && b.b.a == a {
			return ts.Or(a, b.a)
		}
		if a.op == ONot && b.a == a.a {
			return ts.Or(a, b.b)
		}
		if a.op == ONot && b.b == a.a {
			return ts.Or(a, b.a)
		}
	}
	// (c && x) || (!c && x) -> x
	if a.op == OAnd && b.op == OAnd {
		if a.b == b.b && ts.Not(a.a) == b.a {
			return a.b
		}
		if a.a == b.a && ts.Not(a.b) == b.b {
			return a.a
		}
	}
	return ts.mk(OOr, 0, 0, a, b, nil)
}

func (ts *Terms) Eq(a, b *Term) *Term {
	if a == b {
		return ts.tru
	}
	if a.isConst() && b.isConst() {
		return ts.Bool(a.c == b.c)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.w == 0 {
		if b.isConst() {
			if b.c == 1 {
				return a
			}
			return ts.Not(a)
		}
		if ts.Not(a) == b {
			return ts.fls
		}
		if a.h1 > b.h1 {
			a, b = b, a
		}
		return ts.mk(OEq, 0, 0, a, b, nil)
	}
	if a.hi < b.lo || b.hi < a.lo {
		return ts.fls
	}
	if b.isConst() {
		switch a.op {
		case OZext:
			return ts.Eq(a.a, ts.Const(b.c, a.a.w))
		case OSext:
			n := b.c & mask(a.a.w)
			if uint64(sext64(n, a.a.w))&mask(a.w) != b.c {
				return ts.fls
			}
			return ts.Eq(a.a, ts.Const(n, a.a.w))
		case OIte:
			if a.b.isConst() || a.d.isConst() {
				return ts.Ite(a.a, ts.Eq(a.b, b), ts.Eq(a.d, b))
			}
		case OAdd:
			if a.b.isConst() {
				return ts.Eq(a.a, ts.Const(b.c-a.b.c, a.w))
			}
		case OSub:
			if a.a.isConst() {
				return ts.Eq(a.b, ts.Const(a.a.c-b.c, a.w))
			}
		case OBxor:
			if a.b.isConst() {
				return ts.Eq(a.a, ts.Const(b.c^a.b.c, a.w))
			}
		}
	} else if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return ts.Eq(a.a, b.a)
	}
	if !b.isConst() && a.h1 > b.h1 {
		a, b = b, a
	}
	return ts.mk(OEq, 0, 0, a, b, nil)
}

func (ts *Terms) Ult(a, b *Term) *Term {
	if a == b {
		return ts.fls
	}
	if a.hi < b.lo {
		return ts.tru
	}
	if a.lo >= b.hi {
		return ts.fls
	}
	if b.isConst() {
		if a.op == OZext {
			if b.c > mask(a.a.w) {
				return ts.tru
			}
			return ts.Ult(a.a, ts.Const(b.c, a.a.w))
		}
		if b.c == 1 {
			return ts.Eq(a, ts.Const(0, a.w))
		}
	}
	if a.isConst() && b.op == OZext {
		if a.c >= mask(b.a.w) {
			return ts.fls
		}
		return ts.Ult(ts.Const(a.c, b.a.w), b.a)
	}
	if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return ts.Ult(a.a, b.a)
	}
	return ts.mk(OUlt, 0, 0, a, b, nil)
}
func (ts *Terms) Ule(a, b *Term) *Term { return ts.Not(ts.Ult(b, a)) }

func (ts *Terms) Slt(a, b *Term) *Term {
	if a == b {
		return ts.fls
	}
	if a.isConst() && b.isConst() {
		return ts.Bool(sext64(a.c, a.w) < sext64(b.c, b.w))
	}
	half := uint64(1) << (a.w - 1)
	if a.hi < half && b.hi < half {
		return ts.Ult(a, b)
	}
	if a.lo >= half && b.hi < half {
		return ts.tru
	}
	if b.lo >= half && a.hi < half {
		return ts.fls
	}
	if a.op == OSext && b.op == OSext && a.a.w == b.a.w {
		return ts.Slt(a.a, b.a)
	}
	return ts.mk(OSlt, 0, 0, a, b, nil)
}
func (ts *Terms) Sle(a, b *Term) *Term { return ts.Not(ts.Slt(b, a)) }

func (ts *Terms) Ite(c, a, b *Term) *Term {
	if c.isTrue() {
		return a
	}
	if c.isFalse() {
		return b
	}
	if a == b {
		return a
	}
	if c.op == ONot {
		return ts.Ite(c.a, b, a)
	}
	if a.w == 0 {
		if a.isTrue() {
			return ts.Or(c, b)
		}
		if a.isFalse() {
			return ts.And(ts.Not(c), b)
		}
		if b.isTrue() {
			return ts.Or(ts.Not(c), a)
		}
		if b.isFalse() {
			return ts.And(c, a)
		}
	}
	if a.op == OIte && a.a == c {
		a = a.b
	}
	if b.op == OIte && b.a == c {
		b = b.d
	}
	if a == b {
		return a
	}
	// ite(c, a, ite(d, a, e)) -> ite(c||d, a, e)
	if b.op == OIte && b.b == a {
		return ts.Ite(ts.Or(c, b.a), a, b.d)
	}
	return ts.mk(OIte, a.w, 0, c, a, b)
}

func (ts *Terms) bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() {
		if v, ok := evalBin(op, a.c, b.c, w); ok {
			return ts.Const(v, w)
		}
	}
	switch op {
	case OAdd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.c == 0 {
				return a
			}
			if a.op == OAdd && a.b.isConst() {
				return ts.bin(OAdd, a.a, ts.Const(a.b.c+b.c, w))
			}
			if a.op == OIte && a.b.isConst() && a.d.isConst() {
				return ts.Ite(a.a, ts.bin(op, a.b, b), ts.bin(op, a.d, b))
			}
		} else if a.h1 > b.h1 {
			a, b = b, a
		}
	case OSub:
		if a == b {
			return ts.Const(0, w)
		}
		if b.isConst() {
			return ts.bin(OAdd, a, ts.Const(-b.c, w))
		}
	case OMul:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.c == 0 {
				return b
			}
			if b.c == 1 {
				return a
			}
		}
	case OBand:
		if a.isConst() {
			a, b = b, a
		}
		if a == b {
			return a
		}
		if b.isConst() {
			if b.c == 0 {
				return b
			}
			if b.c == mask(w) {
				return a
			}
			// low mask that covers the range
			if b.c&(b.c+1) == 0 && a.hi <= b.c {
				return a
			}
			if a.op == OBand && a.b.isConst() {
				return ts.bin(OBand, a.a, ts.Const(a.b.c&b.c, w))
			}
		}
	case OBor, OBxor:
		if a.isConst() {
			a, b = b, a
		}
		if a == b {
			if op == OBor {
				return a
			}
			return ts.Const(0, w)
		}
		if b.isConst() && b.c == 0 {
			return a
		}
	case OShl, OLshr, OAshr:
		if b.isConst() && b.c == 0 {
			return a
		}
		if op == OAshr && a.hi < uint64(1)<<(w-1) {
			return ts.bin(OLshr, a, b)
		}
		if op == OLshr && b.isConst() && b.c < 64 && a.hi>>b.c == 0 {
			return ts.Const(0, w)
		}
	case OUdiv:
		if b.isConst() && b.c == 1 {
			return a
		}
	}
	return ts.mk(op, w, 0, a, b, nil)
}

func evalBin(op Op, a, b uint64, w uint8) (uint64, bool) {
	m := mask(w)
	switch op {
	case OAdd:
		return (a + b) & m, true
	case OSub:
		return (a - b) & m, true
	case OMul:
		return (a * b) & m, true
	case OBand:
		return a & b, true
	case OBor:
		return a | b, true
	case OBxor:
		return a ^ b, true
	case OShl:
		if b >= uint64(w) {
			return 0, true
		}
		return (a << b) & m, true
	case OLshr:
		if b >= uint64(w) {
			return 0, true
		}
		return a >> b, true
	case OAshr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sext64(a, w)>>b) & m, true
	case OUdiv:
		if b == 0 {
			return m, true
		}
		return a / b, true
	case OUrem:
		if b == 0 {
			return a, true
		}
		return a % b, true
	case OSdiv:
		if b == 0 {
			if sext64(a, w) < 0 {
				return 1, true
			}
			return m, true
		}
		if sext64(b, w) == -1 {
			return (-a) & m, true
		}
		return uint64(sext64(a, w)/sext64(b, w)) & m, true
	case OSrem:
		if b == 0 {
			return a, true
		}
		if sext64(b, w) == -1 {
			return 0, true
		}
		return uint64(sext64(a, w)%sext64(b, w)) & m, true
	}
	return 0, false
}

func (ts *Terms) BNot(a *Term) *Term {
	if a.isConst() {
		return ts.Const(^a.c, a.w)
	}
	if a.op == OBnot {
		return a.a
	}
	return ts.mk(OBnot, a.w, 0, a, nil, nil)
}
func (ts *Terms) Neg(a *Term) *Term {
	if a.isConst() {
		return ts.Const(-a.c, a.w)
	}
	return ts.mk(ONeg, a.w, 0, a, nil, nil)
}

func (ts *Terms) Zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return ts.Const(a.c, w)
	}
	if a.op == OZext {
		return ts.Zext(a.a, w)
	}
	if a.op == OIte && a.b.isConst() && a.d.isConst() {
		return ts.Ite(a.a, ts.Zext(a.b, w), ts.Zext(a.d, w))
	}
	return ts.mk(OZext, w, 0, a, nil, nil)
}

func (ts *Terms) Sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return ts.Const(uint64(sext64(a.c, a.w)), w)
	}
	if a.hi < uint64(1)<<(a.w-1) {
		return ts.Zext(a, w)
	}
	return ts.mk(OSext, w, 0, a, nil, nil)
}

func (ts *Terms) Trunc(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return ts.Const(a.c, w)
	}
	switch a.op {
	case OZext, OSext:
		if a.a.w == w {
			return a.a
		}
		if a.a.w > w {
			return ts.Trunc(a.a, w)
		}
		if a.op == OZext {
			return ts.Zext(a.a, w)
		}
		return ts.Sext(a.a, w)
	case OIte:
		return ts.Ite(a.a, ts.Trunc(a.b, w), ts.Trunc(a.d, w))
	case OAdd, OSub, OMul, OBand, OBor, OBxor:
		if a.a.op == OZext || a.b.op == OZext || a.b.isConst() {
			return ts.bin(a.op, ts.Trunc(a.a, w), ts.Trunc(a.b, w))
		}
	}
	return ts.mk(OExtract, w, 0, a, nil, nil)
}

// Resize converts between integer widths (signed source extends by sign).
func (ts *Terms) Resize(a *Term, w uint8, signed bool) *Term {
	if a.w == w {
		return a
	}
	if a.w > w {
		return ts.Trunc(a, w)
	}
	if signed {
		return ts.Sext(a, w)
	}
	return ts.Zext(a, w)
}

// Eval computes the value under a model (by variable number).
func (ts *Terms) newEval() { ts.gen++ }

// byteDom is the set of values of the only variable of t (8 bits wide) that
// make t true.
func (ts *Terms) byteDom(t *Term) *[4]uint64 {
	if t.dom == nil {
		m := make([]uint64, t.sv+1)
		t.dom = new([4]uint64)
		for v := 0; v < 256; v++ {
			ts.newEval()
			m[t.sv] = uint64(v)
			if ts.eval(t, m) == 1 {
				t.dom[v>>6] |= 1 << uint(v&63)
			}
		}
		ts.newEval()
	}
	return t.dom
}

func (ts *Terms) eval(t *Term, m []uint64) uint64 {
	switch t.op {
	case OConst:
		return t.c
	case OVar:
		if int(t.c) < len(m) {
			return m[t.c]
		}
		return 0
	}
	if t.evGen == ts.gen {
		return t.evVal
	}
	var r uint64
	switch t.op {
	case ONot:
		r = 1 - ts.eval(t.a, m)
	case OAnd:
		r = ts.eval(t.a, m)
		if r == 1 {
			r = ts.eval(t.b, m)
		}
	case OOr:
		r = ts.eval(t.a, m)
		if r == 0 {
			r = ts.eval(t.b, m)
		}
	case OEq:
		r = b2u(ts.eval(t.a, m) == ts.eval(t.b, m))
	case OUlt:
		r = b2u(ts.eval(t.a, m) < ts.eval(t.b, m))
	case OUle:
		r = b2u(ts.eval(t.a, m) <= ts.eval(t.b, m))
	case OSlt:
		r = b2u(sext64(ts.eval(t.a, m), t.a.w) < sext64(ts.eval(t.b, m), t.a.w))
	case OSle:
		r = b2u(sext64(ts.eval(t.a, m), t.a.w) <= sext64(ts.eval(t.b, m), t.a.w))
	case OIte:
		if ts.eval(t.a, m) == 1 {
			r = ts.eval(t.b, m)
		} else {
			r = ts.eval(t.d, m)
		}
	case OBnot:
		r = ^ts.eval(t.a, m) & mask(t.w)
	case ONeg:
		r = -ts.eval(t.a, m) & mask(t.w)
	case OZext:
		r = ts.eval(t.a, m)
	case OSext:
		r = uint64(sext64(ts.eval(t.a, m), t.a.w)) & mask(t.w)
	case OExtract:
		r = ts.eval(t.a, m) & mask(t.w)
	default:
		v, ok := evalBin(t.op, ts.eval(t.a, m), ts.eval(t.b, m), t.w)
		if !ok {
			panic("eval: bad op")
		}
		r = v
	}
	t.evGen, t.evVal = ts.gen, r
	return r
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// smt prints one node, referring to compound children by name.
func (ts *Terms) ref(t *Term) string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.c == 1 {
				return "true"
			}
			return "false"
		}
		if t.w%4 == 0 {
			return fmt.Sprintf("#x%0*x", int(t.w/4), t.c)
		}
		return fmt.Sprintf("#b%0*b", int(t.w), t.c)
	case OVar:
		return "v" + fmt.Sprint(t.c)
	}
	return "t" + fmt.Sprint(t.id)
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (ts *Terms) body(t *Term) string {
	switch t.op {
	case OZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, ts.ref(t.a))
	case OSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, ts.ref(t.a))
	case OExtract:
		return fmt.Sprintf("((_ extract %d 0) %s)", t.w-1, ts.ref(t.a))
	}
	var sb strings.Builder
	sb.WriteString("(" + opNames[t.op])
	for _, x := range [...]*Term{t.a, t.b, t.d} {
		if x != nil {
			sb.WriteString(" " + ts.ref(x))
		}
	}
	sb.WriteString(")")
	return sb.String()
}
