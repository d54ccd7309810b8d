package main

// Models of functions that are not interpreted from their source: the sym
// API, run-time primitives without a Go body, and a few library functions
// whose term form is much cheaper than their interpretation. Everything else
// (the code under test, x/text, bytes, strings, bufio, net/url ...) runs from
// its SSA form.

import (
	"fmt"
	"go/types"
	"math/bits"
	"strconv"
	"strings"
	"sync"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(w *Worker, fr *frame, args []V) V

const symPkg = "github.com/lestrrat-go/helium/zz_verif/sym"

func (w *Worker) findIntrinsic(f *ssa.Function, name string) intrinsic {
	if in, ok := intrinsics[name]; ok {
		return in
	}
	if strings.HasPrefix(name, "(*sync/atomic.") || strings.HasPrefix(name, "sync/atomic.") {
		return atomicIntrinsic(f, name)
	}
	if strings.HasPrefix(name, "internal/runtime/atomic.") {
		return atomicIntrinsic(f, name)
	}
	if f.Pkg != nil && f.Pkg.Pkg.Path() == symPkg {
		if in, ok := symAPI[f.Name()]; ok {
			return in
		}
	}
	return nil
}

func tuple(v ...V) V { return V{p: &Struct{f: v}} }

// pureIntrinsics may be evaluated speculatively.
var pureIntrinsics = map[string]bool{
	"unicode.IsLetter": true, "unicode.IsDigit": true, "unicode.IsSpace": true, "unicode.IsUpper": true,
	"unicode.IsLower": true, "unicode.IsNumber": true, "unicode.IsPunct": true, "unicode.IsControl": true,
	"unicode.IsPrint": true, "unicode.IsMark": true, "unicode.IsSymbol": true, "unicode.IsGraphic": true,
	"unicode.ToLower": true, "unicode.ToUpper": true, "unicode/utf8.RuneLen": true, "unicode/utf8.ValidRune": true,
}

var intrinsics map[string]intrinsic
var symAPI map[string]intrinsic

func zero(w *Worker, fr *frame, args []V) V { return V{} }

func init() {
	intrinsics = map[string]intrinsic{
		"runtime.Callers":                    zero,
		"runtime.KeepAlive":                  zero,
		"runtime.SetFinalizer":               zero,
		"runtime.GC":                         zero,
		"runtime.Gosched":                    zero,
		"runtime/debug.SetMaxStack":          zero,
		"internal/abi.NoEscape":              ident,
		"internal/abi.Escape":                ident,
		"strings.noescape":                   ident,
		"internal/stringslite.Clone":         ident,
		"strings.Clone":                      ident,
		"internal/race.Acquire":              zero,
		"internal/race.Release":              zero,
		"internal/race.ReleaseMerge":         zero,
		"internal/race.Disable":              zero,
		"internal/race.Enable":               zero,
		"internal/godebug.New":               func(w *Worker, fr *frame, a []V) V { v := zeroV(deref(fr.fn.fn.Signature.Results().At(0).Type())); return V{p: &v} },
		"(*internal/godebug.Setting).Value":  zero,
		"(*internal/godebug.Setting).IncNonDefault": zero,
		"(*internal/godebug.Setting).Name":   zero,
		"errors.Is":                          errorsIs,
		"errors.As":                          errorsAs,
		"os.Getenv":                          zero,
		"unicode/utf8.DecodeRune":            decodeRuneIn,
		"unicode/utf8.DecodeRuneInString":    decodeRuneIn,
		"unicode/utf8.EncodeRune":            encodeRuneIn,
		"unicode/utf8.AppendRune":            appendRuneIn,
		"unicode/utf8.RuneCount":             runeCountIn,
		"unicode/utf8.RuneCountInString":     runeCountIn,
		"unicode/utf8.Valid":                 validIn,
		"unicode/utf8.ValidString":           validIn,
		"unicode/utf8.FullRune":              fullRuneIn,
		"unicode/utf8.FullRuneInString":      fullRuneIn,
		"internal/bytealg.IndexByte":         indexByteIn,
		"internal/bytealg.IndexByteString":   indexByteIn,
		"strings.IndexByte":                  indexByteIn,
		"bytes.IndexByte":                    indexByteIn,
		"internal/bytealg.LastIndexByte":     lastIndexByteIn,
		"internal/bytealg.LastIndexByteString": lastIndexByteIn,
		"internal/bytealg.Count":             countIn,
		"internal/bytealg.CountString":       countIn,
		"internal/bytealg.Equal":             equalIn,
		"bytes.Equal":                        equalIn,
		"internal/bytealg.Compare":           compareIn,
		"internal/bytealg.CompareString":     compareIn,
		"strings.Compare":                    compareIn,
		"bytes.Compare":                      compareIn,
		"internal/bytealg.Index":             indexIn,
		"internal/bytealg.IndexString":       indexIn,
		"strings.Index":                      indexIn,
		"bytes.Index":                        indexIn,
		"internal/bytealg.MakeNoZero": func(w *Worker, fr *frame, a []V) V {
			n := w.concInt(a[0])
			c := roundupsize(n)
			return V{p: &Slice{b: &ByteArr{b: make([]byte, c)}, len: n, cap: c}}
		},
		"(*sync.Pool).Get": poolGet,
		"(*sync.Pool).Put": poolPut,
		"(*sync.Once).Do":  onceDo,
		"(*sync.Mutex).Lock": zero, "(*sync.Mutex).Unlock": zero,
		"(*sync.RWMutex).Lock": zero, "(*sync.RWMutex).Unlock": zero,
		"(*sync.RWMutex).RLock": zero, "(*sync.RWMutex).RUnlock": zero,
		"fmt.Sprintf": func(w *Worker, fr *frame, a []V) V { return w.format(a[0], a[1]) },
		"fmt.Errorf":  errorfIn,
		"fmt.Sprint":  func(w *Worker, fr *frame, a []V) V { return w.sprint(a[0], false) },
		"fmt.Sprintln": func(w *Worker, fr *frame, a []V) V { return w.sprint(a[0], true) },
		"fmt.Fprintf":  func(w *Worker, fr *frame, a []V) V { return w.writeTo(a[0], w.format(a[1], a[2])) },
		"fmt.Fprint":   func(w *Worker, fr *frame, a []V) V { return w.writeTo(a[0], w.sprint(a[1], false)) },
		"fmt.Fprintln": func(w *Worker, fr *frame, a []V) V { return w.writeTo(a[0], w.sprint(a[1], true)) },
		"fmt.Printf":   func(w *Worker, fr *frame, a []V) V { return tuple(V{}, V{}) },
		"fmt.Println":  func(w *Worker, fr *frame, a []V) V { return tuple(V{}, V{}) },
		"fmt.Print":    func(w *Worker, fr *frame, a []V) V { return tuple(V{}, V{}) },
		"sort.Strings": nil,
		"strconv.Itoa":       func(w *Worker, fr *frame, a []V) V { return w.fmtInt(a[0], 64, true, 10, false) },
		"strconv.FormatInt":  func(w *Worker, fr *frame, a []V) V { return w.fmtInt(a[0], 64, true, w.concInt(a[1]), false) },
		"strconv.FormatUint": func(w *Worker, fr *frame, a []V) V { return w.fmtInt(a[0], 64, false, w.concInt(a[1]), false) },
		"math.Float64bits":     ident,
		"math.Float64frombits": ident,
		"internal/reflectlite.TypeOf": zero,
		"reflect.TypeOf":              zero,
	}
	for k, v := range intrinsics {
		if v == nil {
			delete(intrinsics, k)
		}
	}
	pred := func(name string, f func(rune) bool) {
		intrinsics["unicode."+name] = func(w *Worker, fr *frame, a []V) V { return w.runePred(name, f, a[0]) }
	}
	pred("IsLetter", unicode.IsLetter)
	pred("IsDigit", unicode.IsDigit)
	pred("IsSpace", unicode.IsSpace)
	pred("IsUpper", unicode.IsUpper)
	pred("IsLower", unicode.IsLower)
	pred("IsNumber", unicode.IsNumber)
	pred("IsPunct", unicode.IsPunct)
	pred("IsControl", unicode.IsControl)
	pred("IsPrint", unicode.IsPrint)
	pred("IsGraphic", unicode.IsGraphic)
	pred("IsMark", unicode.IsMark)
	pred("IsSymbol", unicode.IsSymbol)
	intrinsics["unicode.ToLower"] = func(w *Worker, fr *frame, a []V) V { return w.runeMap("ToLower", unicode.ToLower, a[0]) }
	intrinsics["unicode.ToUpper"] = func(w *Worker, fr *frame, a []V) V { return w.runeMap("ToUpper", unicode.ToUpper, a[0]) }
	intrinsics["unicode/utf8.RuneLen"] = func(w *Worker, fr *frame, a []V) V {
		ts := w.ts
		r := w.term(a[0], 32)
		k := func(n int64) *Term { return ts.Const(uint64(n), 64) }
		u := func(n uint64) *Term { return ts.Const(n, 32) }
		t := ts.Ite(ts.Ult(r, u(0x80)), k(1), ts.Ite(ts.Ult(r, u(0x800)), k(2),
			ts.Ite(ts.And(ts.Ule(u(0xD800), r), ts.Ule(r, u(0xDFFF))), k(-1),
				ts.Ite(ts.Ult(r, u(0x10000)), k(3), ts.Ite(ts.Ult(r, u(0x110000)), k(4), k(-1))))))
		return fromTerm(t)
	}
	intrinsics["unicode/utf8.ValidRune"] = func(w *Worker, fr *frame, a []V) V { return fromTerm(w.validRune(w.term(a[0], 32))) }
	initSym()
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func ident(w *Worker, fr *frame, args []V) V { return args[0] }

func atomicIntrinsic(f *ssa.Function, name string) intrinsic {
	if f.Blocks != nil && strings.HasPrefix(name, "(") {
		return nil // method with a Go body that calls the functions below
	}
	base := f.Name()
	cell := func(w *Worker, a V) *V {
		p, ok := a.p.(*V)
		if !ok {
			if a.p == nil {
				w.nilDeref()
			}
			unsup("atomic on %T", a.p)
		}
		return p
	}
	switch {
	case strings.HasPrefix(base, "Load"):
		return func(w *Worker, fr *frame, a []V) V { return *cell(w, a[0]) }
	case strings.HasPrefix(base, "Store"):
		return isoWrap(func(w *Worker, fr *frame, a []V) V { w.store(cell(w, a[0]), a[1]); return V{} })
	case strings.HasPrefix(base, "Add"):
		wd, _, ok := scalarInfo(deref(f.Signature.Params().At(0).Type()))
		if !ok {
			return nil
		}
		return isoWrap(func(w *Worker, fr *frame, a []V) V {
			c := cell(w, a[0])
			v := fromTerm(w.ts.bin(OAdd, w.term(*c, wd), w.term(a[1], wd)))
			w.store(c, v)
			return v
		})
	case strings.HasPrefix(base, "Swap"):
		return isoWrap(func(w *Worker, fr *frame, a []V) V {
			c := cell(w, a[0])
			o := *c
			w.store(c, a[1])
			return o
		})
	case strings.HasPrefix(base, "CompareAndSwap"):
		el := deref(f.Signature.Params().At(0).Type())
		return isoWrap(func(w *Worker, fr *frame, a []V) V {
			c := cell(w, a[0])
			if w.truth(w.eqV(*c, a[1], el)) {
				w.store(c, a[2])
				return vBool(true)
			}
			return vBool(false)
		})
	}
	return nil
}

// ---- sequences ---------------------------------------------------------------

// seq views a string or byte slice as a sequence of byte values.
func (w *Worker) seq(v V) (int, func(int) V) {
	switch s := v.p.(type) {
	case nil:
		return 0, func(int) V { return V{} }
	case string, *SymStr:
		return strLen(v), func(i int) V { return strAt(v, i) }
	case *Slice:
		return s.len, func(i int) V { return s.b.get(s.off + i) }
	}
	unsup("seq of %T", v.p)
	return 0, nil
}

func (w *Worker) eqByte(a, b V) *Term {
	if a.p == nil && b.p == nil {
		return w.ts.Bool(a.n == b.n)
	}
	return w.ts.Eq(w.term(a, 8), w.term(b, 8))
}

// pickFirst chooses the first index whose condition holds (n if none) without
// making the value itself symbolic.
func (w *Worker) pickFirst(conds []*Term) int {
	var list []*Term
	var idx []int
	none := w.ts.tru
	for i, c := range conds {
		g := w.ts.And(none, c)
		if g.isTrue() && len(list) == 0 {
			return i
		}
		if !g.isFalse() {
			list = append(list, g)
			idx = append(idx, i)
		}
		none = w.ts.And(none, w.ts.Not(c))
		if none.isFalse() {
			break
		}
	}
	if !none.isFalse() {
		list = append(list, none)
		idx = append(idx, len(conds))
	}
	if len(list) == 1 {
		return idx[0]
	}
	return idx[w.choose(list)]
}

func indexByteIn(w *Worker, fr *frame, a []V) V {
	n, at := w.seq(a[0])
	conds := make([]*Term, n)
	for i := range conds {
		conds[i] = w.eqByte(at(i), a[1])
	}
	if k := w.pickFirst(conds); k < n {
		return vInt(k)
	}
	return vInt(-1)
}

func lastIndexByteIn(w *Worker, fr *frame, a []V) V {
	n, at := w.seq(a[0])
	conds := make([]*Term, n)
	for i := range conds {
		conds[i] = w.eqByte(at(n-1-i), a[1])
	}
	if k := w.pickFirst(conds); k < n {
		return vInt(n - 1 - k)
	}
	return vInt(-1)
}

func countIn(w *Worker, fr *frame, a []V) V {
	n, at := w.seq(a[0])
	sum := w.ts.Const(0, 64)
	for i := 0; i < n; i++ {
		sum = w.ts.bin(OAdd, sum, w.ts.Ite(w.eqByte(at(i), a[1]), w.ts.Const(1, 64), w.ts.Const(0, 64)))
	}
	return fromTerm(sum)
}

func (w *Worker) seqEq(a, b V) *Term {
	n, x := w.seq(a)
	m, y := w.seq(b)
	if n != m {
		return w.ts.fls
	}
	r := w.ts.tru
	for i := 0; i < n && !r.isFalse(); i++ {
		r = w.ts.And(r, w.eqByte(x(i), y(i)))
	}
	return r
}

func equalIn(w *Worker, fr *frame, a []V) V { return fromTerm(w.seqEq(a[0], a[1])) }

func compareIn(w *Worker, fr *frame, a []V) V {
	n, x := w.seq(a[0])
	m, y := w.seq(a[1])
	k := n
	if m < k {
		k = m
	}
	ts := w.ts
	c := func(i int) *Term { return ts.Const(uint64(int64(i)), 64) }
	r := c(0)
	if n < m {
		r = c(-1)
	} else if n > m {
		r = c(1)
	}
	for i := k - 1; i >= 0; i-- {
		p, q := w.term(x(i), 8), w.term(y(i), 8)
		r = ts.Ite(ts.Eq(p, q), r, ts.Ite(ts.Ult(p, q), c(-1), c(1)))
	}
	return fromTerm(r)
}

func indexIn(w *Worker, fr *frame, a []V) V {
	n, at := w.seq(a[0])
	m, bt := w.seq(a[1])
	if m == 0 {
		return V{}
	}
	if m > n {
		return vInt(-1)
	}
	conds := make([]*Term, n-m+1)
	for i := range conds {
		c := w.ts.tru
		for k := 0; k < m && !c.isFalse(); k++ {
			c = w.ts.And(c, w.eqByte(at(i+k), bt(k)))
		}
		conds[i] = c
	}
	if k := w.pickFirst(conds); k < len(conds) {
		return vInt(k)
	}
	return vInt(-1)
}

// ---- UTF-8 ---------------------------------------------------------------------

func (w *Worker) inRange(t *Term, lo, hi uint64) *Term {
	return w.ts.And(w.ts.Ule(w.ts.Const(lo, t.w), t), w.ts.Ule(t, w.ts.Const(hi, t.w)))
}

func (w *Worker) validRune(r *Term) *Term {
	return w.ts.Or(w.ts.Ult(r, w.ts.Const(0xD800, r.w)), w.inRange(r, 0xE000, 0x10FFFF))
}

// utf8Cases gives the conditions under which the sequence starts with a
// 1-, 2-, 3-, 4-byte rune or an invalid one, in that order (indices 0..4).
func (w *Worker) utf8Cases(at func(int) V, n int) [5]*Term {
	ts := w.ts
	b0 := w.term(at(0), 8)
	var c [5]*Term
	c[0] = ts.Ult(b0, ts.Const(0x80, 8))
	c[1], c[2], c[3] = ts.fls, ts.fls, ts.fls
	cont := func(i int) *Term { return w.inRange(w.term(at(i), 8), 0x80, 0xBF) }
	if n >= 2 {
		b1 := w.term(at(1), 8)
		c[1] = ts.And(w.inRange(b0, 0xC2, 0xDF), cont(1))
		if n >= 3 {
			lead := ts.Or(ts.And(ts.Eq(b0, ts.Const(0xE0, 8)), w.inRange(b1, 0xA0, 0xBF)),
				ts.Or(ts.And(ts.Eq(b0, ts.Const(0xED, 8)), w.inRange(b1, 0x80, 0x9F)),
					ts.And(ts.Or(w.inRange(b0, 0xE1, 0xEC), w.inRange(b0, 0xEE, 0xEF)), w.inRange(b1, 0x80, 0xBF))))
			c[2] = ts.And(lead, cont(2))
			if n >= 4 {
				lead := ts.Or(ts.And(ts.Eq(b0, ts.Const(0xF0, 8)), w.inRange(b1, 0x90, 0xBF)),
					ts.Or(ts.And(ts.Eq(b0, ts.Const(0xF4, 8)), w.inRange(b1, 0x80, 0x8F)),
						ts.And(w.inRange(b0, 0xF1, 0xF3), w.inRange(b1, 0x80, 0xBF))))
				c[3] = ts.And(lead, ts.And(cont(2), cont(3)))
			}
		}
	}
	bad := ts.tru
	for i := 0; i < 4; i++ {
		bad = ts.And(bad, ts.Not(c[i]))
	}
	c[4] = bad
	return c
}

// decodeRune decodes the first rune of a non-empty sequence.
func (w *Worker) decodeRune(at func(int) V, n int) (V, int) {
	if n == 0 {
		return V{n: 0xFFFD}, 0
	}
	conc := true
	for i := 0; i < n && i < 4; i++ {
		if at(i).p != nil {
			conc = false
		}
	}
	if conc {
		var b [4]byte
		k := 0
		for ; k < n && k < 4; k++ {
			b[k] = byte(at(k).n)
		}
		r, sz := decodeRuneGo(b[:k])
		return V{n: uint64(uint32(r))}, sz
	}
	cs := w.utf8Cases(at, n)
	var list []*Term
	var idx []int
	for i, c := range cs {
		if !c.isFalse() {
			list = append(list, c)
			idx = append(idx, i)
		}
	}
	k := idx[0]
	if len(list) > 1 {
		k = idx[w.choose(list)]
	}
	ts := w.ts
	part := func(i int, m uint64, sh uint64) *Term {
		t := ts.Zext(ts.bin(OBand, w.term(at(i), 8), ts.Const(m, 8)), 32)
		return ts.bin(OShl, t, ts.Const(sh, 32))
	}
	switch k {
	case 0:
		return fromTerm(ts.Zext(w.term(at(0), 8), 32)), 1
	case 1:
		return fromTerm(ts.bin(OBor, part(0, 0x1F, 6), part(1, 0x3F, 0))), 2
	case 2:
		return fromTerm(ts.bin(OBor, ts.bin(OBor, part(0, 0x0F, 12), part(1, 0x3F, 6)), part(2, 0x3F, 0))), 3
	case 3:
		return fromTerm(ts.bin(OBor, ts.bin(OBor, part(0, 0x07, 18), part(1, 0x3F, 12)), ts.bin(OBor, part(2, 0x3F, 6), part(3, 0x3F, 0)))), 4
	}
	return V{n: 0xFFFD}, 1
}

func decodeRuneIn(w *Worker, fr *frame, a []V) V {
	n, at := w.seq(a[0])
	r, sz := w.decodeRune(at, n)
	return tuple(r, vInt(sz))
}

// encodeRune gives the bytes of a rune's encoding (forking on its length).
func (w *Worker) encodeRune(v V) []V {
	t, sym := v.p.(*Term)
	if !sym {
		s := string(rune(int32(v.n)))
		out := make([]V, len(s))
		for i := range out {
			out[i] = V{n: uint64(s[i])}
		}
		return out
	}
	ts := w.ts
	u := func(x uint64) *Term { return ts.Const(x, 32) }
	c0 := ts.Ult(t, u(0x80))
	c1 := w.inRange(t, 0x80, 0x7FF)
	c2 := ts.Or(w.inRange(t, 0x800, 0xD7FF), w.inRange(t, 0xE000, 0xFFFF))
	c3 := w.inRange(t, 0x10000, 0x10FFFF)
	bad := ts.Not(ts.Or(ts.Or(c0, c1), ts.Or(c2, c3)))
	k := w.pickFirst([]*Term{c0, c1, c2, c3, bad})
	by := func(sh uint64, m, or uint64) V {
		x := ts.bin(OBand, ts.Trunc(ts.bin(OLshr, t, u(sh)), 8), ts.Const(m, 8))
		return fromTerm(ts.bin(OBor, x, ts.Const(or, 8)))
	}
	switch k {
	case 0:
		return []V{fromTerm(ts.Trunc(t, 8))}
	case 1:
		return []V{by(6, 0x1F, 0xC0), by(0, 0x3F, 0x80)}
	case 2:
		return []V{by(12, 0x0F, 0xE0), by(6, 0x3F, 0x80), by(0, 0x3F, 0x80)}
	case 3:
		return []V{by(18, 0x07, 0xF0), by(12, 0x3F, 0x80), by(6, 0x3F, 0x80), by(0, 0x3F, 0x80)}
	}
	return []V{{n: 0xEF}, {n: 0xBF}, {n: 0xBD}}
}

func (w *Worker) strOf(bs []V) V {
	b := make([]byte, len(bs))
	t := make([]*Term, len(bs))
	for i, v := range bs {
		if x, ok := v.p.(*Term); ok {
			t[i] = x
		} else {
			b[i] = byte(v.n)
		}
	}
	return mkStr(b, t)
}

// runeStr is string(v) for an integer v.
func (w *Worker) runeStr(v V, width uint8, signed bool) V {
	if t, ok := v.p.(*Term); ok {
		if width > 32 {
			if w.branch(w.ts.Ult(t, w.ts.Const(0x110000, width))) {
				return w.strOf(w.encodeRune(fromTerm(w.ts.Trunc(t, 32))))
			}
			return vStr("\uFFFD")
		}
		return w.strOf(w.encodeRune(fromTerm(w.ts.Resize(t, 32, signed))))
	}
	n := int64(v.n)
	if signed {
		n = sext64(v.n, width)
	}
	if n < 0 || n > 0x10FFFF {
		return vStr("\uFFFD")
	}
	return vStr(string(rune(n)))
}

func encodeRuneIn(w *Worker, fr *frame, a []V) V {
	bs := w.encodeRune(a[1])
	s, _ := a[0].p.(*Slice)
	if s == nil || s.len < len(bs) {
		n := 0
		if s != nil {
			n = s.len
		}
		w.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", len(bs)-1, n))
	}
	for i, b := range bs {
		w.setByte(s.b, s.off+i, b)
	}
	return vInt(len(bs))
}

var byteSliceT = types.NewSlice(types.Typ[types.Byte])

func appendRuneIn(w *Worker, fr *frame, a []V) V {
	s := w.strOf(w.encodeRune(a[1]))
	return w.appendB(&cinstr{t: byteSliceT, t2: types.Typ[types.String]}, []V{a[0], s})
}

func runeCountIn(w *Worker, fr *frame, a []V) V {
	n, at := w.seq(a[0])
	c := 0
	for i := 0; i < n; {
		i0 := i
		_, sz := w.decodeRune(func(k int) V { return at(i0 + k) }, n-i)
		i += sz
		c++
	}
	return vInt(c)
}

func validIn(w *Worker, fr *frame, a []V) V {
	n, at := w.seq(a[0])
	// ok[i]: the sequence from i on is valid
	ok := make([]*Term, n+5)
	for i := n; i < len(ok); i++ {
		ok[i] = w.ts.fls
	}
	ok[n] = w.ts.tru
	for i := n - 1; i >= 0; i-- {
		i0 := i
		cs := w.utf8Cases(func(k int) V { return at(i0 + k) }, n-i)
		r := w.ts.fls
		for k := 0; k < 4; k++ {
			r = w.ts.Or(r, w.ts.And(cs[k], ok[i+k+1]))
		}
		ok[i] = r
	}
	return fromTerm(ok[0])
}

func fullRuneIn(w *Worker, fr *frame, a []V) V {
	n, at := w.seq(a[0])
	if n == 0 {
		return V{}
	}
	if n >= 4 {
		return vBool(true)
	}
	ts := w.ts
	b0 := w.term(at(0), 8)
	need2 := w.inRange(b0, 0xC2, 0xDF)
	need3 := w.inRange(b0, 0xE0, 0xEF)
	need4 := w.inRange(b0, 0xF0, 0xF4)
	// not full: more bytes needed and those present are acceptable
	var nf *Term
	acc1 := ts.tru
	if n >= 2 {
		b1 := w.term(at(1), 8)
		lo := ts.Ite(ts.Eq(b0, ts.Const(0xE0, 8)), ts.Const(0xA0, 8), ts.Ite(ts.Eq(b0, ts.Const(0xF0, 8)), ts.Const(0x90, 8), ts.Const(0x80, 8)))
		hi := ts.Ite(ts.Eq(b0, ts.Const(0xED, 8)), ts.Const(0x9F, 8), ts.Ite(ts.Eq(b0, ts.Const(0xF4, 8)), ts.Const(0x8F, 8), ts.Const(0xBF, 8)))
		acc1 = ts.And(ts.Ule(lo, b1), ts.Ule(b1, hi))
	}
	switch n {
	case 1:
		nf = ts.Or(need2, ts.Or(need3, need4))
	case 2:
		nf = ts.And(ts.Or(need3, need4), acc1)
	case 3:
		nf = ts.And(need4, ts.And(acc1, w.inRange(w.term(at(2), 8), 0x80, 0xBF)))
	}
	return fromTerm(ts.Not(nf))
}

func decodeRuneGo(b []byte) (rune, int) {
	for i, r := range string(b) {
		_ = i
		if r == 0xFFFD {
			if len(b) >= 3 && b[0] == 0xEF && b[1] == 0xBF && b[2] == 0xBD {
				return r, 3
			}
			return r, 1
		}
		return r, len(string(r))
	}
	return 0xFFFD, 0
}

// ---- unicode classes -------------------------------------------------------------

type rrun struct {
	lo, hi uint32
	val    int32 // predicate value, or delta
}

var runMu sync.Mutex
var runTab = map[string][]rrun{}

func runsOf(name string, f func(rune) int32) []rrun {
	runMu.Lock()
	defer runMu.Unlock()
	if r, ok := runTab[name]; ok {
		return r
	}
	var out []rrun
	for i := rune(0); i <= 0x110000; i++ {
		v := f(i)
		if n := len(out); n > 0 && out[n-1].val == v {
			out[n-1].hi = uint32(i)
		} else {
			out = append(out, rrun{uint32(i), uint32(i), v})
		}
	}
	out[len(out)-1].hi = 0xFFFFFFFF
	runTab[name] = out
	return out
}

// lookupRuns builds a balanced ITE over the runs that t's interval can reach.
func (w *Worker) lookupRuns(t *Term, rs []rrun, leaf func(int32) *Term) *Term {
	i, j := 0, len(rs)
	for i < j-1 && uint64(rs[i].hi) < t.lo {
		i++
	}
	for j-1 > i && uint64(rs[j-1].lo) > t.hi {
		j--
	}
	rs = rs[i:j]
	if len(rs) == 1 {
		return leaf(rs[0].val)
	}
	m := len(rs) / 2
	return w.ts.Ite(w.ts.Ult(t, w.ts.Const(uint64(rs[m].lo), t.w)), w.lookupRuns(t, rs[:m], leaf), w.lookupRuns(t, rs[m:], leaf))
}

func (w *Worker) runePred(name string, f func(rune) bool, v V) V {
	t, ok := v.p.(*Term)
	if !ok {
		return vBool(f(rune(int32(v.n))))
	}
	rs := runsOf(name, func(r rune) int32 {
		if f(r) {
			return 1
		}
		return 0
	})
	return fromTerm(w.lookupRuns(t, rs, func(x int32) *Term { return w.ts.Bool(x == 1) }))
}

func (w *Worker) runeMap(name string, f func(rune) rune, v V) V {
	t, ok := v.p.(*Term)
	if !ok {
		return V{n: uint64(uint32(f(rune(int32(v.n)))))}
	}
	rs := runsOf(name, func(r rune) int32 { return f(r) - r })
	d := w.lookupRuns(t, rs, func(x int32) *Term { return w.ts.Const(uint64(uint32(x)), 32) })
	return fromTerm(w.ts.bin(OAdd, t, d))
}

// ---- sync --------------------------------------------------------------------------

// A pool holds a private slot and a shared stack, per path.
type poolSt struct {
	priv   V
	has    bool
	shared []V
}

func poolGet(w *Worker, fr *frame, a []V) V {
	p, _ := a[0].p.(*V)
	if p == nil {
		w.nilDeref()
	}
	st := w.pools[p]
	if st.has {
		st.has = false
		w.pools[p] = st
		if w.iso != nil {
			w.isoGet(st.priv)
		}
		return st.priv
	}
	if n := len(st.shared); n > 0 {
		v := st.shared[n-1]
		if w.iso != nil {
			w.isoGet(v)
		}
		st.shared = st.shared[: n-1 : n-1]
		w.pools[p] = st
		return v
	}
	s := p.p.(*Struct)
	nf := s.f[len(s.f)-1] // New is the last field
	if nf.p == nil {
		return V{}
	}
	return w.callV(nf, nil)
}

func poolPut(w *Worker, fr *frame, a []V) V {
	p, _ := a[0].p.(*V)
	if p == nil {
		w.nilDeref()
	}
	if x, _ := a[1].p.(*Iface); x == nil {
		return V{}
	}
	st := w.pools[p]
	if w.iso != nil {
		w.isoPut(a[1])
	}
	if !st.has {
		st.priv, st.has = a[1], true
	} else {
		st.shared = append(append([]V(nil), st.shared...), a[1])
	}
	w.pools[p] = st
	return V{}
}

func onceDo(w *Worker, fr *frame, a []V) V {
	p, _ := a[0].p.(*V)
	if p == nil {
		w.nilDeref()
	}
	if w.onces[p] || w.initOnces[p] {
		return V{}
	}
	if w.initDone {
		w.onces[p] = true
	} else {
		w.initOnces[p] = true
	}
	return w.locked(func() V { return w.callV(a[1], nil) })
}

// ---- fmt ---------------------------------------------------------------------------

func (w *Worker) argList(v V) []V {
	s, _ := v.p.(*Slice)
	if s == nil {
		return nil
	}
	return s.a.v[s.off : s.off+s.len]
}

// str renders an interface value the way %v / %s do.
func (w *Worker) str(v V, verb byte, plus bool) V {
	i, _ := v.p.(*Iface)
	if i == nil {
		if verb == 's' {
			return vStr("%!s(<nil>)")
		}
		return vStr("<nil>")
	}
	for _, m := range [...]string{"Error", "String"} {
		f := w.nullary(i.ti, m)
		if f != nil {
			if _, isPtr := i.ti.t.Underlying().(*types.Pointer); isPtr && i.v.p == nil {
				return vStr("<nil>")
			}
			return w.callFn(f, i.v)
		}
	}
	t := i.ti.t
	if isString(t) {
		return i.v
	}
	if wd, sg, ok := scalarInfo(t); ok {
		if wd == 0 {
			if w.truth(i.v) {
				return vStr("true")
			}
			return vStr("false")
		}
		if verb == 's' {
			return concat(concat(vStr("%!s("+t.String()+"="), w.fmtInt(i.v, wd, sg, 10, false)), vStr(")"))
		}
		return w.fmtInt(i.v, wd, sg, 10, false)
	}
	if sl, ok := t.Underlying().(*types.Slice); ok {
		s, _ := i.v.p.(*Slice)
		if isByteElem(sl.Elem()) && verb == 's' {
			return strOfBytes(s)
		}
		return w.joinElems(s, sl.Elem(), verb)
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		r := vStr("{")
		s := i.v.p.(*Struct)
		for k := range s.f {
			if k > 0 {
				r = concat(r, vStr(" "))
			}
			r = concat(r, w.str(w.box(s.f[k], st.Field(k).Type()), verb, plus))
		}
		return concat(r, vStr("}"))
	}
	return vStr("0xc000000000")
}

func (w *Worker) box(v V, t types.Type) V {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return v
	}
	return V{p: &Iface{ti: w.typeInfo(t), v: v}}
}

func (w *Worker) joinElems(s *Slice, el types.Type, verb byte) V {
	r := vStr("[")
	if s != nil {
		for k := 0; k < s.len; k++ {
			if k > 0 {
				r = concat(r, vStr(" "))
			}
			var e V
			if s.b != nil {
				e = s.b.get(s.off + k)
			} else {
				e = s.a.v[s.off+k]
			}
			r = concat(r, w.str(w.box(e, el), verb, false))
		}
	}
	return concat(r, vStr("]"))
}

func (w *Worker) nullary(ti *TypeInfo, name string) *ssa.Function {
	key := "()" + name
	if f, ok := ti.meth[key]; ok {
		return f
	}
	var f *ssa.Function
	ms := w.prog.MethodSets.MethodSet(ti.t)
	for i := 0; i < ms.Len(); i++ {
		s := ms.At(i)
		if s.Obj().Name() == name && s.Obj().Exported() {
			sig := s.Type().(*types.Signature)
			if sig.Params().Len() == 0 && sig.Results().Len() == 1 && isString(sig.Results().At(0).Type()) {
				f = w.prog.MethodValue(s)
			}
		}
	}
	ti.meth[key] = f
	return f
}

// fmtInt renders an integer in a base; a symbolic one forks on its number of
// digits only.
func (w *Worker) fmtInt(v V, wd uint8, signed bool, base int, upper bool) V {
	t, ok := v.p.(*Term)
	if !ok {
		var s string
		if signed {
			s = strconv.FormatInt(sext64(v.n, wd), base)
		} else {
			s = strconv.FormatUint(v.n, base)
		}
		if upper {
			s = strings.ToUpper(s)
		}
		return vStr(s)
	}
	ts := w.ts
	pre := V{}
	if signed {
		neg := ts.Slt(t, ts.Const(0, wd))
		if w.branch(neg) {
			pre = vStr("-")
			t = ts.Neg(t)
		}
	}
	if base != 10 && base != 16 && base != 8 && base != 2 {
		unsup("fmtInt base %d", base)
	}
	// number of digits
	var conds []*Term
	p := uint64(base)
	n := 1
	for {
		if p-1 >= mask(wd) || p-1 >= t.hi {
			conds = append(conds, ts.tru)
			break
		}
		conds = append(conds, ts.Ult(t, ts.Const(p, wd)))
		hi, lo := bits.Mul64(p, uint64(base))
		if hi != 0 {
			conds = append(conds, ts.tru)
			break
		}
		p = lo
		n++
	}
	k := w.pickFirst(conds) + 1
	out := make([]V, k)
	x := t
	for i := k - 1; i >= 0; i-- {
		var d *Term
		if base == 10 {
			d = ts.bin(OUrem, x, ts.Const(10, wd))
			x = ts.bin(OUdiv, x, ts.Const(10, wd))
		} else {
			sh := uint64(bits.TrailingZeros(uint(base)))
			d = ts.bin(OBand, x, ts.Const(uint64(base-1), wd))
			x = ts.bin(OLshr, x, ts.Const(sh, wd))
		}
		d8 := ts.Trunc(d, 8)
		if wd < 8 {
			d8 = ts.Zext(d, 8)
		}
		ch := ts.bin(OAdd, d8, ts.Const('0', 8))
		if base == 16 {
			al := uint64('a' - 10)
			if upper {
				al = 'A' - 10
			}
			ch = ts.Ite(ts.Ult(d8, ts.Const(10, 8)), ch, ts.bin(OAdd, d8, ts.Const(al, 8)))
		}
		out[i] = fromTerm(ch)
	}
	return concat(pre, w.strOf(out))
}

func pad(s V, width int, left, zero bool) V {
	n := strLen(s)
	if n >= width {
		return s
	}
	p := strings.Repeat(" ", width-n)
	if zero && !left {
		p = strings.Repeat("0", width-n)
	}
	if left {
		return concat(s, vStr(p))
	}
	return concat(vStr(p), s)
}

func (w *Worker) format(fv V, av V) V {
	f, ok := concrete(fv)
	if !ok {
		unsup("symbolic format string")
	}
	args := w.argList(av)
	r := V{}
	ai := 0
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			r = concat(r, vStr(f[i:]))
			break
		}
		r = concat(r, vStr(f[i:i+j]))
		i += j + 1
		left, zeroPad, plus, sharp := false, false, false, false
		for i < len(f) && strings.IndexByte("-+# 0", f[i]) >= 0 {
			switch f[i] {
			case '-':
				left = true
			case '0':
				zeroPad = true
			case '+':
				plus = true
			case '#':
				sharp = true
			}
			i++
		}
		width, prec := 0, -1
		for i < len(f) && f[i] >= '0' && f[i] <= '9' {
			width = width*10 + int(f[i]-'0')
			i++
		}
		if i < len(f) && f[i] == '.' {
			i++
			prec = 0
			for i < len(f) && f[i] >= '0' && f[i] <= '9' {
				prec = prec*10 + int(f[i]-'0')
				i++
			}
		}
		if i >= len(f) {
			r = concat(r, vStr("%!(NOVERB)"))
			break
		}
		verb := f[i]
		i++
		if verb == '%' {
			r = concat(r, vStr("%"))
			continue
		}
		if ai >= len(args) {
			r = concat(r, vStr("%!"+string(rune(verb))+"(MISSING)"))
			continue
		}
		a := args[ai]
		ai++
		x, _ := a.p.(*Iface)
		var s V
		var wd uint8
		var sg, isInt bool
		if x != nil {
			wd, sg, isInt = scalarInfo(x.ti.t)
			isInt = isInt && wd > 0
		}
		switch verb {
		case 's', 'v', 'w':
			vb := verb
			if vb == 'w' {
				vb = 'v'
			}
			s = w.str(a, vb, plus)
			if prec >= 0 && prec < strLen(s) {
				s = substr(s, 0, prec)
			}
		case 'd', 'x', 'X', 'o', 'b', 'c', 'U', 'q':
			switch {
			case verb == 'q' && !isInt:
				s = w.str(a, 's', false)
				if c, ok := concrete(s); ok {
					s = vStr(strconv.Quote(c))
				} else {
					s = concat(concat(vStr(`"`), s), vStr(`"`))
				}
			case isInt && verb == 'c':
				s = w.runeStr(x.v, wd, sg)
			case isInt && verb == 'q':
				s = concat(concat(vStr("'"), w.runeStr(x.v, wd, sg)), vStr("'"))
			case isInt && verb == 'U':
				s = concat(vStr("U+"), pad(w.fmtInt(x.v, wd, sg, 16, true), 4, false, true))
			case isInt:
				base := map[byte]int{'d': 10, 'x': 16, 'X': 16, 'o': 8, 'b': 2}[verb]
				s = w.fmtInt(x.v, wd, sg, base, verb == 'X')
				if sharp && base == 16 {
					s = concat(vStr("0"+string(rune(verb))), s)
				}
				if plus && base == 10 {
					s = concat(vStr("+"), s)
				}
			case verb == 'x' || verb == 'X':
				b := w.str(a, 's', false)
				n, at := w.seq(b)
				for k := 0; k < n; k++ {
					s = concat(s, pad(w.fmtInt(at(k), 8, false, 16, verb == 'X'), 2, false, true))
				}
			default:
				s = w.str(a, 'v', false)
			}
		case 't':
			s = w.str(a, 'v', false)
		case 'p':
			s = vStr("0xc000000000")
		case 'T':
			s = vStr("<nil>")
			if x != nil {
				s = vStr(types.TypeString(x.ti.t, func(p *types.Package) string { return p.Name() }))
			}
		default:
			s = w.str(a, 'v', false)
		}
		r = concat(r, pad(s, width, left, zeroPad))
	}
	if ai < len(args) {
		r = concat(r, vStr("%!(EXTRA)"))
	}
	return r
}

func (w *Worker) sprint(av V, ln bool) V {
	r := V{}
	prevStr := true
	for i, a := range w.argList(av) {
		x, _ := a.p.(*Iface)
		is := x != nil && isString(x.ti.t)
		if i > 0 && (ln || (!is && !prevStr)) {
			r = concat(r, vStr(" "))
		}
		prevStr = is
		r = concat(r, w.str(a, 'v', false))
	}
	if ln {
		r = concat(r, vStr("\n"))
	}
	return r
}

func (w *Worker) writeTo(wr V, s V) V {
	x, _ := wr.p.(*Iface)
	if x == nil {
		w.nilDeref()
	}
	f := w.prog.LookupMethod(x.ti.t, nil, "Write")
	if f == nil {
		unsup("Fprint to %s", x.ti.t)
	}
	ba := bytesOf(s)
	n := len(ba.b)
	var sl V
	if n > 0 {
		sl = V{p: &Slice{b: ba, len: n, cap: n}}
	}
	return w.callFn(f, x.v, sl)
}

func errorfIn(w *Worker, fr *frame, a []V) V {
	s := w.format(a[0], a[1])
	f, _ := concrete(a[0])
	fp := w.prog.ImportedPackage("fmt")
	if strings.Contains(f, "%w") && fp != nil {
		if o := fp.Pkg.Scope().Lookup("wrapError"); o != nil {
			var wrapped V
			n := 0
			for i := 0; i+1 < len(f); i++ {
				if f[i] == '%' {
					if f[i+1] == 'w' {
						if l := w.argList(a[1]); n < len(l) {
							wrapped = l[n]
						}
						break
					}
					if f[i+1] != '%' {
						n++
					}
					i++
				}
			}
			v := V{p: &Struct{f: []V{s, wrapped}}}
			return V{p: &Iface{ti: w.typeInfo(types.NewPointer(o.Type())), v: V{p: &v}}}
		}
	}
	ep := w.prog.ImportedPackage("errors")
	o := ep.Pkg.Scope().Lookup("errorString")
	v := V{p: &Struct{f: []V{s}}}
	return V{p: &Iface{ti: w.typeInfo(types.NewPointer(o.Type())), v: V{p: &v}}}
}

func (w *Worker) unwrap(e *Iface) *Iface {
	ms := w.prog.MethodSets.MethodSet(e.ti.t)
	for i := 0; i < ms.Len(); i++ {
		s := ms.At(i)
		if s.Obj().Name() == "Unwrap" {
			sig := s.Type().(*types.Signature)
			if sig.Params().Len() == 0 && sig.Results().Len() == 1 {
				r, _ := w.callFn(w.prog.MethodValue(s), e.v).p.(*Iface)
				return r
			}
		}
	}
	return nil
}

func errorsIs(w *Worker, fr *frame, a []V) V {
	e, _ := a[0].p.(*Iface)
	t, _ := a[1].p.(*Iface)
	if e == nil || t == nil {
		return vBool(e == nil && t == nil)
	}
	errT := types.Universe.Lookup("error").Type()
	for e != nil {
		if types.Comparable(t.ti.t) && w.truth(w.eqV(V{p: e}, V{p: t}, errT)) {
			return vBool(true)
		}
		e = w.unwrap(e)
	}
	return vBool(false)
}

func errorsAs(w *Worker, fr *frame, a []V) V {
	e, _ := a[0].p.(*Iface)
	t, _ := a[1].p.(*Iface)
	if t == nil {
		w.rtPanic("errors: target cannot be nil")
	}
	el := deref(t.ti.t)
	for e != nil {
		if it, ok := el.Underlying().(*types.Interface); ok {
			if w.implements(e.ti, it, w.typeInfo(el)) {
				w.storePtr(t.v, V{p: e})
				return vBool(true)
			}
		} else if types.Identical(e.ti.t, el) {
			w.storePtr(t.v, e.v)
			return vBool(true)
		}
		e = w.unwrap(e)
	}
	return vBool(false)
}

// ---- the harness API ------------------------------------------------------------------

func (w *Worker) needStr(v V) string {
	s, ok := concrete(v)
	if !ok {
		unsup("symbolic name")
	}
	return s
}

func initSym() {
	symAPI = map[string]intrinsic{
		"Byte": func(w *Worker, fr *frame, a []V) V { return V{p: w.variable(w.needStr(a[0]), 8)} },
		"Bool": func(w *Worker, fr *frame, a []V) V { return V{p: w.ts.Eq(w.variable(w.needStr(a[0]), 1), w.ts.Const(1, 1))} },
		"U64":  func(w *Worker, fr *frame, a []V) V { return V{p: w.variable(w.needStr(a[0]), 64)} },
		"Bytes": func(w *Worker, fr *frame, a []V) V {
			s := w.symBytes(a)
			n := strLen(s)
			if n == 0 {
				return V{p: &Slice{b: &ByteArr{}}}
			}
			ba := bytesOf(s)
			return V{p: &Slice{b: ba, len: n, cap: n}}
		},
		"Str": func(w *Worker, fr *frame, a []V) V { return w.symBytes(a) },
		"Rune": func(w *Worker, fr *frame, a []V) V {
			return V{p: w.ts.Zext(w.variable(w.needStr(a[0]), 21), 32)}
		},
		"Int": func(w *Worker, fr *frame, a []V) V {
			name := w.needStr(a[0])
			lo, hi := w.concInt(a[1]), w.concInt(a[2])
			if hi <= lo {
				return vInt(lo)
			}
			n := uint64(hi - lo)
			wd := uint8(bits.Len64(n))
			t := w.variable(name, wd)
			w.assume(w.ts.Ule(t, w.ts.Const(n, wd)))
			return fromTerm(w.ts.bin(OAdd, w.ts.Zext(t, 64), w.ts.Const(uint64(int64(lo)), 64)))
		},
		"Choice": func(w *Worker, fr *frame, a []V) V {
			name := w.needStr(a[0])
			n := w.concInt(a[1])
			if k, ok := w.choices[name]; ok {
				return vInt(int(k))
			}
			k := w.pick(n)
			w.choices[name] = uint64(k)
			return vInt(k)
		},
		"Assume": func(w *Worker, fr *frame, a []V) V { w.assume(w.term(a[0], 0)); return V{} },
		"Assert": func(w *Worker, fr *frame, a []V) V {
			w.assert(w.term(a[0], 0), w.evalStr(a[1]))
			return V{}
		},
		"Fail": func(w *Worker, fr *frame, a []V) V {
			w.assert(w.ts.fls, w.evalStr(a[0]))
			return V{}
		},
		"Reach": func(w *Worker, fr *frame, a []V) V {
			s := w.needStr(a[0])
			w.ex.mu.Lock()
			w.h.reach[s]++
			w.ex.mu.Unlock()
			return V{}
		},
		"Obs": func(w *Worker, fr *frame, a []V) V {
			w.obsV = append(w.obsV, obsEnt{k: w.needStr(a[0]), v: a[1], t: types.Typ[types.String]})
			return V{}
		},
		"ObsInt": func(w *Worker, fr *frame, a []V) V {
			w.obsV = append(w.obsV, obsEnt{k: w.needStr(a[0]), v: a[1], t: types.Typ[types.Int]})
			return V{}
		},
		// Known marks inputs of a recorded finding: paths on which cond can
		// hold are counted and split off.
		"Known": func(w *Worker, fr *frame, a []V) V {
			c := w.term(a[1], 0)
			if c.isFalse() {
				return V{}
			}
			if w.branch(c) {
				w.ex.mu.Lock()
				w.h.known[w.needStr(a[0])]++
				w.ex.mu.Unlock()
				panic(pathEnd{kind: endKnown})
			}
			return V{}
		},
		"Isolated": isolatedIn,
		"MapOrder": func(w *Worker, fr *frame, a []V) V { w.mapOrder = w.truth(a[0]); return V{} },
		"Thorough": func(w *Worker, fr *frame, a []V) V { return vBool(thoroughTier) },
		"Note": func(w *Worker, fr *frame, a []V) V { return V{} },
		"Quote": func(w *Worker, fr *frame, a []V) V { return a[0] },
		"Symbolic": func(w *Worker, fr *frame, a []V) V { return vBool(true) },
		// Split makes the value concrete by case split, so that later code sees a constant.
		"Split": func(w *Worker, fr *frame, a []V) V {
			if t, ok := a[0].p.(*Term); ok {
				return V{n: w.concTerm(t)}
			}
			return a[0]
		},
		// If evaluates without forking.
		"And": func(w *Worker, fr *frame, a []V) V { return fromTerm(w.ts.And(w.term(a[0], 0), w.term(a[1], 0))) },
		"Or":  func(w *Worker, fr *frame, a []V) V { return fromTerm(w.ts.Or(w.term(a[0], 0), w.term(a[1], 0))) },
		"Ite": func(w *Worker, fr *frame, a []V) V {
			return fromTerm(w.ts.Ite(w.term(a[0], 0), w.term(a[1], 64), w.term(a[2], 64)))
		},
		// Eq compares strings as one term.
		"Eq": func(w *Worker, fr *frame, a []V) V { return w.eqStr(a[0], a[1]) },
	}
}

func (w *Worker) symBytes(a []V) V {
	name := w.needStr(a[0])
	n := w.concInt(a[1])
	t := make([]*Term, n)
	for i := range t {
		t[i] = w.variable(name+"."+strconv.Itoa(i), 8)
	}
	return mkStr(make([]byte, n), t)
}

// ---- package initialisation ---------------------------------------------------------------

// initSkipStd lists standard packages whose initialisers reach into the runtime;
// their package variables stay zero. (runtime, reflect and internal/... as well.)
var initSkipStd = map[string]bool{
	"net": true, "reflect": true, "sync": true, "testing": true, "unsafe": true,
	"plugin": true, "math/rand": true, "math/rand/v2": true, "unique": true, "weak": true, "log": true, "log/slog": true,
}

func initStdPkg(path string) bool {
	switch path {
	case "internal/stringslite", "internal/byteorder", "internal/oserror", "internal/fmtsort":
		return true
	}
	for _, p := range []string{"internal/", "runtime", "crypto", "vendor/", "net/", "os/", "debug/", "go/", "database/", "image"} {
		if strings.HasPrefix(path, p) && path != "net/url" && path != "net/textproto" {
			return false
		}
	}
	return !initSkipStd[path] && !strings.Contains(path, "/internal/")
}

// initExec runs one instruction of a package initialiser; one that cannot be
// interpreted (reflection, mostly) leaves its result zero.
func (w *Worker) initExec(fr *frame, ci *cinstr) {
	defer func() {
		e := recover()
		if e == nil {
			return
		}
		w.depth = 0
		path := fr.fn.fn.Pkg.Pkg.Path()
		note := func(msg string) {
			if len(w.initSkip[path]) < 200 {
				w.initSkip[path] += msg + "; "
			}
		}
		switch x := e.(type) {
		case unsupported:
			note(x.msg)
		case *targetPanic:
			note("panic: " + x.msg)
		default:
			panic(e)
		}
		if v, ok := ci.in.(ssa.Value); ok && v.Type() != nil {
			if _, tup := v.Type().(*types.Tuple); !tup {
				fr.regs[ci.dst] = zeroV(v.Type())
			}
		}
	}()
	w.exec1(fr, ci)
}

func isStd(path string) bool {
	first := path
	if i := strings.IndexByte(path, '/'); i >= 0 {
		first = path[:i]
	}
	return !strings.Contains(first, ".")
}

func (w *Worker) runInit(pkg *ssa.Package) {
	done := map[*types.Package]bool{}
	var rec func(p *types.Package)
	rec = func(p *types.Package) {
		if done[p] {
			return
		}
		done[p] = true
		for _, q := range p.Imports() {
			rec(q)
		}
		path := p.Path()
		if isStd(path) && !initStdPkg(path) {
			return
		}
		if strings.HasPrefix(path, "github.com/jessevdk/") {
			return
		}
		sp := w.prog.Package(p)
		if sp == nil {
			return
		}
		f := sp.Func("init")
		if f == nil {
			return
		}
		func() {
			defer func() {
				if e := recover(); e != nil {
					w.depth = 0
					switch x := e.(type) {
					case unsupported:
						w.initSkip[path] = x.msg
					case *targetPanic:
						w.initSkip[path] = "panic: " + x.msg
					default:
						panic(e)
					}
				}
			}()
			w.initing = sp
			w.run(w.initFrame(f), 0, -1)
		}()
	}
	rec(pkg.Pkg)
	w.initing = nil
}

// initFrame runs a package initialiser with the calls to other packages' init
// functions removed (they are run in dependency order by runInit).
func (w *Worker) initFrame(f *ssa.Function) *frame {
	cf := w.compile(f)
	n := 0
	for bi := range cf.blocks {
		cb := &cf.blocks[bi]
		n += len(cb.ins)
		for i := range cb.ins {
			ci := &cb.ins[i]
			if ci.op == cCall && ci.fn != nil && ci.fn.Name() == "init" && ci.fn.Pkg != f.Pkg && ci.fn.Signature.Recv() == nil {
				ci.op = cNop
			}
		}
	}
	if w.ex.verbose && w.id == 0 && n > 10000 {
		fmt.Println("init", f.Pkg.Pkg.Path(), n)
	}
	return &frame{fn: cf, regs: make([]V, cf.nreg), isInit: isStd(f.Pkg.Pkg.Path())}
}
