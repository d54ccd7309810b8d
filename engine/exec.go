package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

func f64(n uint64) float64 { return math.Float64frombits(n) }

type cinstr struct {
	op     uint8
	tok    token.Token
	w      uint8 // operand width
	w2     uint8 // result width (Convert)
	signed bool
	scal   bool // operands are integer scalars / bools
	commaOk bool
	dst    int
	a, b, c int
	args   []int
	idx    int
	t      types.Type // operand type, or other auxiliary type
	t2     types.Type
	ti     *TypeInfo
	fn     *ssa.Function
	aux    any
	in     ssa.Instruction
}

const noReg = math.MinInt32

const (
	cAlloc uint8 = iota
	cBinOp
	cCall
	cInvoke
	cCallDyn
	cBuiltin
	cMove
	cConvert
	cDefer
	cExtract
	cField
	cFieldAddr
	cGo
	cIf
	cIndex
	cIndexAddr
	cJump
	cLookup
	cMakeChan
	cMakeClosure
	cMakeInterface
	cMakeMap
	cMakeSlice
	cMapUpdate
	cNext
	cPanic
	cRange
	cReturn
	cRunDefers
	cSelect
	cSend
	cSlice
	cSliceToArrPtr
	cStore
	cTypeAssert
	cNot
	cNeg
	cXor
	cLoad
	cRecv
	cUnsup
	cNop
)

type cphi struct {
	dst   int
	edges []int
	scal  bool
	w     uint8
}

type cblock struct {
	phis  []cphi
	ins   []cinstr
	preds []int
	succ  []int
}

type cfunc struct {
	fn      *ssa.Function
	name    string
	nreg    int
	blocks  []cblock
	consts  []V
	defers  bool
	recover int // block index or -1
	intr    intrinsic
	nparam  int
	pure    int8 // 0 unknown, 1 summarisable, -1 not
	regTy   []types.Type
	live    [][]uint64
	seen    bool
}

type frame struct {
	fn      *cfunc
	regs    []V
	defers  []dcall
	pan     *targetPanic
	deferOf *frame // frame whose deferred call this is
	res     V
	isInit  bool // package initialiser: failing instructions are skipped
}

type dcall struct {
	fn   V
	args []V
	bi   *ssa.Builtin
	in   *cinstr
}

func (w *Worker) fnOf(f *ssa.Function) *cfunc {
	if c, ok := w.funcs[f]; ok {
		return c
	}
	if m := w.modelOf(f); m != nil && m != f {
		c := w.fnOf(m)
		w.funcs[f] = c
		return c
	}
	c := w.compile(f)
	w.funcs[f] = c
	return c
}

// modelOf is the harness package's function Model_x that stands for a library
// function x, if any.
func (w *Worker) modelOf(f *ssa.Function) *ssa.Function {
	if w.ex == nil || w.ex.pkgs == nil || !w.ex.pkgs.models {
		return nil
	}
	n := []byte("Model_")
	for _, c := range []byte(funcName(f)) {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' {
			n = append(n, c)
		} else if n[len(n)-1] != '_' {
			n = append(n, '_')
		}
	}
	return w.ex.pkgs.harness.Func(string(n))
}

func funcName(f *ssa.Function) string {
	if f.Origin() != nil {
		return f.Origin().String()
	}
	return f.String()
}

func (w *Worker) compile(f *ssa.Function) *cfunc {
	c := &cfunc{fn: f, name: funcName(f), recover: -1}
	c.nparam = len(f.Params)
	if in := w.findIntrinsic(f, c.name); in != nil {
		c.intr = in
		return c
	}
	if f.Blocks == nil {
		if f.Pkg != nil {
			f.Pkg.Build()
		}
		if f.Blocks == nil {
			name := c.name
			c.intr = func(w *Worker, fr *frame, args []V) V {
				panic(unsupported{"no body: " + name})
			}
			return c
		}
	}
	regs := map[ssa.Value]int{}
	nreg := 0
	newReg := func(v ssa.Value) int {
		regs[v] = nreg
		nreg++
		c.regTy = append(c.regTy, v.Type())
		return nreg - 1
	}
	for _, p := range f.Params {
		newReg(p)
	}
	for _, p := range f.FreeVars {
		newReg(p)
	}
	isInit := f.Synthetic == "package initializer"
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				if isInit && tableStore(in) != nil {
					continue
				}
				newReg(v)
			}
		}
	}
	c.nreg = nreg
	cidx := map[ssa.Value]int{}
	addConst := func(k ssa.Value, v V) int {
		c.consts = append(c.consts, v)
		r := -len(c.consts)
		cidx[k] = r
		return r
	}
	get := func(v ssa.Value) int {
		if v == nil {
			return noReg
		}
		if r, ok := regs[v]; ok {
			return r
		}
		if r, ok := cidx[v]; ok {
			return r
		}
		switch x := v.(type) {
		case *ssa.Const:
			return addConst(v, constV(x))
		case *ssa.Global:
			return addConst(v, V{p: w.global(x)})
		case *ssa.Function:
			return addConst(v, V{p: &Closure{fn: x}})
		case *ssa.Builtin:
			return addConst(v, V{p: &Closure{bi: x}})
		}
		panic(fmt.Sprintf("operand %T", v))
	}
	c.blocks = make([]cblock, len(f.Blocks))
	for bi, b := range f.Blocks {
		cb := &c.blocks[bi]
		for _, p := range b.Preds {
			cb.preds = append(cb.preds, p.Index)
		}
		for _, p := range b.Succs {
			cb.succ = append(cb.succ, p.Index)
		}
		if len(b.Instrs) < 2000 {
			cb.ins = make([]cinstr, 0, len(b.Instrs))
		}
		for _, in := range b.Instrs {
			if ph, ok := in.(*ssa.Phi); ok {
				p := cphi{dst: regs[ph]}
				p.w, _, p.scal = scalarInfo(ph.Type())
				for _, e := range ph.Edges {
					p.edges = append(p.edges, get(e))
				}
				cb.phis = append(cb.phis, p)
				continue
			}
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			if isInit {
				if tableStore(in) != nil {
					continue
				}
				if st, ok := in.(*ssa.Store); ok {
					if ia, ok := st.Addr.(*ssa.IndexAddr); ok && tableStore(ia) == st {
						w.tableInit(ia, st)
						continue
					}
				}
			}
			ci := cinstr{dst: noReg, a: noReg, b: noReg, c: noReg, in: in}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = regs[v]
			}
			w.compileInstr(&ci, in, get)
			cb.ins = append(cb.ins, ci)
		}
	}
	if f.Recover != nil {
		c.recover = f.Recover.Index
	}
	for bi := range c.blocks {
		for i := range c.blocks[bi].ins {
			if c.blocks[bi].ins[i].op == cDefer {
				c.defers = true
			}
		}
	}
	return c
}

// tableStore recognises the address part of `global[const] = const` in a
// package initialiser (large conversion tables), which is applied directly.
func tableStore(in ssa.Instruction) *ssa.Store {
	ia, ok := in.(*ssa.IndexAddr)
	if !ok {
		return nil
	}
	if _, ok := ia.X.(*ssa.Global); !ok {
		return nil
	}
	if _, ok := ia.Index.(*ssa.Const); !ok {
		return nil
	}
	r := ia.Referrers()
	if r == nil || len(*r) != 1 {
		return nil
	}
	st, ok := (*r)[0].(*ssa.Store)
	if !ok || st.Addr != ia {
		return nil
	}
	k, ok := st.Val.(*ssa.Const)
	if !ok || isAgg(k.Type()) {
		return nil
	}
	return st
}

func (w *Worker) tableInit(ia *ssa.IndexAddr, st *ssa.Store) {
	g := w.global(ia.X.(*ssa.Global))
	i := int(constV(ia.Index.(*ssa.Const)).n)
	v := constV(st.Val.(*ssa.Const))
	switch a := g.p.(type) {
	case *Arr:
		a.v[i] = v
	case *ByteArr:
		a.b[i] = byte(v.n)
	default:
		unsup("table initialiser")
	}
}

func constV(x *ssa.Const) V {
	if x.Value == nil {
		return zeroV(x.Type())
	}
	t := x.Type().Underlying()
	b, ok := t.(*types.Basic)
	if !ok {
		if _, isTP := t.(*types.Interface); isTP {
			return V{}
		}
		return zeroV(x.Type())
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return vBool(constant.BoolVal(x.Value))
	case b.Info()&types.IsString != 0:
		return vStr(constant.StringVal(x.Value))
	case b.Info()&types.IsInteger != 0:
		w, _, _ := scalarInfo(t)
		if b.Kind() == types.UnsafePointer {
			return V{}
		}
		v := constant.ToInt(x.Value)
		if i, ok := constant.Int64Val(v); ok {
			return V{n: uint64(i) & mask(w)}
		}
		u, _ := constant.Uint64Val(v)
		return V{n: u & mask(w)}
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(x.Value)
		if b.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return V{n: math.Float64bits(f)}
	}
	return V{}
}

func (w *Worker) compileInstr(ci *cinstr, in ssa.Instruction, get func(ssa.Value) int) {
	call := func(cc *ssa.CallCommon) uint8 {
		for _, a := range cc.Args {
			ci.args = append(ci.args, get(a))
		}
		if cc.IsInvoke() {
			ci.a = get(cc.Value)
			ci.aux = cc.Method
			return cInvoke
		}
		switch v := cc.Value.(type) {
		case *ssa.Builtin:
			ci.aux = v
			if len(cc.Args) > 0 {
				ci.t = cc.Args[0].Type()
			}
			if len(cc.Args) > 1 {
				ci.t2 = cc.Args[1].Type()
			}
			return cBuiltin
		case *ssa.Function:
			ci.fn = v
			return cCall
		}
		ci.a = get(cc.Value)
		return cCallDyn
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		ci.op, ci.t = cAlloc, x.Type().Underlying().(*types.Pointer).Elem()
	case *ssa.BinOp:
		ci.op, ci.tok, ci.t = cBinOp, x.Op, x.X.Type()
		ci.a, ci.b = get(x.X), get(x.Y)
		ci.w, ci.signed, ci.scal = scalarInfo(x.X.Type())
		if x.Op == token.SHL || x.Op == token.SHR {
			ci.t2 = x.Y.Type()
		}
	case *ssa.Call:
		ci.op = call(&x.Call)
		ci.t2 = x.Type()
		if ci.op == cBuiltin && len(x.Call.Args) > 1 {
			ci.t2 = x.Call.Args[1].Type()
		}
	case *ssa.Go:
		ci.op = cGo
		ci.c = int(call(&x.Call))
	case *ssa.Defer:
		ci.op = cDefer
		ci.c = int(call(&x.Call))
	case *ssa.ChangeInterface:
		ci.op, ci.a = cMove, get(x.X)
	case *ssa.ChangeType:
		ci.op, ci.a = cMove, get(x.X)
	case *ssa.Convert:
		ci.op, ci.a, ci.t, ci.t2 = cConvert, get(x.X), x.X.Type(), x.Type()
	case *ssa.MultiConvert:
		ci.op, ci.a, ci.t, ci.t2 = cConvert, get(x.X), x.X.Type(), x.Type()
	case *ssa.Extract:
		ci.op, ci.a, ci.idx = cExtract, get(x.Tuple), x.Index
	case *ssa.Field:
		ci.op, ci.a, ci.idx = cField, get(x.X), x.Field
	case *ssa.FieldAddr:
		ci.op, ci.a, ci.idx = cFieldAddr, get(x.X), x.Field
	case *ssa.If:
		ci.op, ci.a = cIf, get(x.Cond)
	case *ssa.Index:
		ci.op, ci.a, ci.b, ci.t = cIndex, get(x.X), get(x.Index), x.X.Type()
		ci.w, ci.signed, _ = scalarInfo(x.Index.Type())
		ci.t2 = x.Type()
	case *ssa.IndexAddr:
		ci.op, ci.a, ci.b, ci.t = cIndexAddr, get(x.X), get(x.Index), x.X.Type()
		ci.w, ci.signed, _ = scalarInfo(x.Index.Type())
	case *ssa.Jump:
		ci.op = cJump
	case *ssa.Lookup:
		ci.op, ci.a, ci.b, ci.t, ci.commaOk = cLookup, get(x.X), get(x.Index), x.X.Type(), x.CommaOk
		ci.w, ci.signed, _ = scalarInfo(x.Index.Type())
	case *ssa.MakeChan:
		ci.op, ci.a = cMakeChan, get(x.Size)
	case *ssa.MakeClosure:
		ci.op, ci.fn = cMakeClosure, x.Fn.(*ssa.Function)
		for _, b := range x.Bindings {
			ci.args = append(ci.args, get(b))
		}
	case *ssa.MakeInterface:
		ci.op, ci.a, ci.ti = cMakeInterface, get(x.X), w.typeInfo(x.X.Type())
	case *ssa.MakeMap:
		ci.op = cMakeMap
	case *ssa.MakeSlice:
		ci.op, ci.a, ci.b, ci.t = cMakeSlice, get(x.Len), get(x.Cap), x.Type().Underlying().(*types.Slice).Elem()
	case *ssa.MapUpdate:
		ci.op, ci.a, ci.b, ci.c, ci.t = cMapUpdate, get(x.Map), get(x.Key), get(x.Value), x.Map.Type().Underlying().(*types.Map).Key()
	case *ssa.Next:
		ci.op, ci.a, ci.commaOk = cNext, get(x.Iter), x.IsString
		ci.t = x.Type()
	case *ssa.Panic:
		ci.op, ci.a = cPanic, get(x.X)
	case *ssa.Range:
		ci.op, ci.a, ci.t = cRange, get(x.X), x.X.Type()
	case *ssa.Return:
		ci.op = cReturn
		for _, r := range x.Results {
			ci.args = append(ci.args, get(r))
		}
	case *ssa.RunDefers:
		ci.op = cRunDefers
	case *ssa.Select:
		ci.op, ci.aux = cSelect, x
		for _, s := range x.States {
			ci.args = append(ci.args, get(s.Chan), get(s.Send))
		}
	case *ssa.Send:
		ci.op, ci.a, ci.b = cSend, get(x.Chan), get(x.X)
	case *ssa.Slice:
		ci.op, ci.a, ci.b, ci.c, ci.t = cSlice, get(x.X), get(x.Low), get(x.High), x.X.Type()
		ci.args = []int{get(x.Max)}
	case *ssa.SliceToArrayPointer:
		ci.op, ci.a, ci.t = cSliceToArrPtr, get(x.X), x.Type().Underlying().(*types.Pointer).Elem()
	case *ssa.Store:
		ci.op, ci.a, ci.b = cStore, get(x.Addr), get(x.Val)
	case *ssa.TypeAssert:
		ci.op, ci.a, ci.commaOk, ci.t = cTypeAssert, get(x.X), x.CommaOk, x.AssertedType
		ci.ti = w.typeInfo(x.AssertedType)
	case *ssa.UnOp:
		ci.a, ci.t = get(x.X), x.X.Type()
		ci.w, ci.signed, ci.scal = scalarInfo(x.X.Type())
		ci.commaOk = x.CommaOk
		switch x.Op {
		case token.NOT:
			ci.op = cNot
		case token.SUB:
			ci.op = cNeg
		case token.XOR:
			ci.op = cXor
		case token.MUL:
			ci.op = cLoad
			ci.t = x.Type()
			ci.scal = isAgg(x.Type()) // reused: load needs a copy
			ci.w, _, _ = scalarInfo(x.Type())
		case token.ARROW:
			ci.op = cRecv
			ci.t2 = x.Type()
		}
	default:
		ci.op, ci.aux = cUnsup, fmt.Sprintf("%T", in)
	}
}

func (w *Worker) global(g *ssa.Global) *V {
	if p, ok := w.globals[g]; ok {
		return p
	}
	v := zeroV(g.Type().Underlying().(*types.Pointer).Elem())
	p := &v
	w.globals[g] = p
	return p
}

// ---- calls -------------------------------------------------------------------

func (w *Worker) rtPanic(msg string) {
	panic(&targetPanic{msg: "runtime error: " + msg, v: w.rtErrV("runtime error: " + msg)})
}

func (w *Worker) rtErrV(msg string) V {
	if w.rtErrTI == nil {
		return V{p: &Iface{ti: w.typeInfo(types.Typ[types.String]), v: vStr(msg)}}
	}
	return V{p: &Iface{ti: w.rtErrTI, v: vStr(msg)}}
}

func (w *Worker) nilDeref() { w.rtPanic("invalid memory address or nil pointer dereference") }

func (w *Worker) allocRegs(n int) []V {
	if w.arenaPos+n > len(w.arena) {
		if n > 4096 {
			return make([]V, n)
		}
		w.arena = make([]V, 1<<15)
		w.arenaPos = 0
	}
	r := w.arena[w.arenaPos : w.arenaPos+n : w.arenaPos+n]
	w.arenaPos += n
	return r
}

func (w *Worker) callV(f V, args []V) V {
	c, ok := f.p.(*Closure)
	if !ok {
		if f.p == nil {
			w.nilDeref()
		}
		unsup("call of %T", f.p)
	}
	if c.nat != nil {
		return c.nat(w, args)
	}
	if c.bi != nil {
		unsup("dynamic builtin call")
	}
	return w.call(w.fnOf(c.fn), args, c.free, nil)
}

func (w *Worker) callFn(f *ssa.Function, args ...V) V { return w.call(w.fnOf(f), args, nil, nil) }

const maxDepth = 2500

func (w *Worker) call(cf *cfunc, args []V, free []V, deferOf *frame) V {
	if cf.intr != nil {
		fr := frame{fn: cf, deferOf: deferOf}
		return cf.intr(w, &fr, args)
	}
	if w.depth > maxDepth {
		panic(pathEnd{kind: endDepth})
	}
	if !cf.seen {
		cf.seen = true
		if w.initDone {
			w.touched[cf.name] = true
		}
	}
	if cf.pure >= 0 && w.speculate && w.initDone {
		if r, ok := w.summary(cf, args); ok {
			return r
		}
	}
	a0, p0 := w.arena, w.arenaPos
	fr := frame{fn: cf, deferOf: deferOf}
	fr.regs = w.allocRegs(cf.nreg)
	copy(fr.regs, args)
	copy(fr.regs[cf.nparam:], free)
	w.depth++
	var r V
	if cf.defers {
		r = w.runDeferFn(&fr)
	} else {
		r = w.run(&fr, 0, -1)
	}
	w.depth--
	if cap(w.arena) == cap(a0) && len(a0) > 0 && &w.arena[0] == &a0[0] {
		w.arenaPos = p0
	}
	return r
}

func (w *Worker) runDeferFn(fr *frame) V {
	depth := w.depth
	r, ok := w.protect(fr, func() V { return w.run(fr, 0, -1) })
	if ok {
		return r
	}
	w.depth = depth
	w.runDefers(fr)
	if fr.pan != nil {
		panic(fr.pan)
	}
	if fr.fn.recover >= 0 {
		return w.run(fr, fr.fn.recover, -1)
	}
	return zeroV(fr.fn.fn.Signature.Results())
}

func (w *Worker) protect(fr *frame, f func() V) (r V, ok bool) {
	defer func() {
		if ok {
			return
		}
		e := recover()
		if tp, is := e.(*targetPanic); is {
			fr.pan = tp
			return
		}
		panic(e)
	}()
	r = f()
	ok = true
	return
}

func (w *Worker) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		depth := w.depth
		_, ok := w.protect(fr, func() V {
			if d.bi != nil {
				return w.builtin(fr, d.in, d.bi, d.args)
			}
			c := d.fn.p.(*Closure)
			if c.nat != nil {
				return c.nat(w, d.args)
			}
			return w.call(w.fnOf(c.fn), d.args, c.free, fr)
		})
		if !ok {
			w.depth = depth
		}
	}
}

func (w *Worker) val(fr *frame, r int) V {
	if r >= 0 {
		return fr.regs[r]
	}
	return fr.fn.consts[-r-1]
}

// resolve gives the callee and arguments of a call-like instruction.
func (w *Worker) resolve(fr *frame, ci *cinstr, kind uint8) (*cfunc, []V, []V) {
	switch kind {
	case cCall:
		args := make([]V, len(ci.args))
		for i, a := range ci.args {
			args[i] = w.val(fr, a)
		}
		cf, _ := ci.aux.(*cfunc)
		if cf == nil {
			cf = w.fnOf(ci.fn)
			ci.aux = cf
		}
		return cf, args, nil
	case cInvoke:
		rv := w.val(fr, ci.a)
		x, _ := rv.p.(*Iface)
		if x == nil {
			w.nilDeref()
		}
		f := w.method(x.ti, ci.aux.(*types.Func))
		args := make([]V, len(ci.args)+1)
		args[0] = x.v
		for i, a := range ci.args {
			args[i+1] = w.val(fr, a)
		}
		return w.fnOf(f), args, nil
	case cCallDyn:
		fv := w.val(fr, ci.a)
		c, _ := fv.p.(*Closure)
		if c == nil {
			w.nilDeref()
		}
		args := make([]V, len(ci.args))
		for i, a := range ci.args {
			args[i] = w.val(fr, a)
		}
		if c.fn == nil {
			if c.nat != nil {
				nat := c.nat
				return &cfunc{name: "native", intr: func(w *Worker, _ *frame, a []V) V { return nat(w, a) }}, args, nil
			}
			unsup("dynamic call of builtin")
		}
		return w.fnOf(c.fn), args, c.free
	}
	panic("resolve")
}

func (w *Worker) run(fr *frame, blk, prev int) V {
	skipPhi := false
	for {
		cb := &fr.fn.blocks[blk]
		w.steps += int64(len(cb.ins)) + 1
		if w.steps > w.maxSteps {
			panic(pathEnd{kind: endSteps})
		}
		if len(cb.phis) > 0 && !skipPhi {
			w.doPhis(fr, cb, prev)
		}
		skipPhi = false
		next := -1
		for i := range cb.ins {
			ci := &cb.ins[i]
			switch ci.op {
			case cJump:
				next = cb.succ[0]
			case cIf:
				c := fr.val(ci.a)
				if c.p == nil {
					if c.n != 0 {
						next = cb.succ[0]
					} else {
						next = cb.succ[1]
					}
				} else {
					b, p, sk := w.symIf(fr, blk, c.p.(*Term))
					prev = p
					blk = b
					skipPhi = sk
					next = -2
				}
			case cReturn:
				switch len(ci.args) {
				case 0:
					return V{}
				case 1:
					return fr.val(ci.args[0])
				}
				s := &Struct{f: make([]V, len(ci.args))}
				for i, a := range ci.args {
					s.f[i] = fr.val(a)
				}
				return V{p: s}
			case cRunDefers:
				w.runDefers(fr)
				if fr.pan != nil {
					p := fr.pan
					fr.pan = nil
					panic(p)
				}
			case cPanic:
				v := fr.val(ci.a)
				panic(&targetPanic{v: v})
			default:
				if fr.isInit {
					w.initExec(fr, ci)
				} else {
					w.exec1(fr, ci)
				}
			}
		}
		if next == -2 {
			continue
		}
		prev, blk = blk, next
	}
}

func (fr *frame) val(r int) V {
	if r >= 0 {
		return fr.regs[r]
	}
	return fr.fn.consts[-r-1]
}

func (w *Worker) doPhis(fr *frame, cb *cblock, prev int) {
	pi := 0
	for i, p := range cb.preds {
		if p == prev {
			pi = i
			break
		}
	}
	if len(cb.phis) == 1 {
		ph := &cb.phis[0]
		fr.regs[ph.dst] = fr.val(ph.edges[pi])
		return
	}
	var tmp [16]V
	t := tmp[:0]
	for i := range cb.phis {
		t = append(t, fr.val(cb.phis[i].edges[pi]))
	}
	for i := range cb.phis {
		fr.regs[cb.phis[i].dst] = t[i]
	}
}

func (w *Worker) exec1(fr *frame, ci *cinstr) {
	switch ci.op {
	case cAlloc:
		v := zeroV(ci.t)
		fr.regs[ci.dst] = V{p: &v}
	case cBinOp:
		x, y := fr.val(ci.a), fr.val(ci.b)
		fr.regs[ci.dst] = w.binop(ci, x, y)
	case cCall, cInvoke, cCallDyn:
		cf, args, free := w.resolve(fr, ci, ci.op)
		fr.regs[ci.dst] = w.call(cf, args, free, nil)
	case cBuiltin:
		args := make([]V, len(ci.args))
		for i, a := range ci.args {
			args[i] = fr.val(a)
		}
		fr.regs[ci.dst] = w.builtin(fr, ci, ci.aux.(*ssa.Builtin), args)
	case cDefer:
		d := dcall{in: ci}
		if uint8(ci.c) == cBuiltin {
			d.bi = ci.aux.(*ssa.Builtin)
			for _, a := range ci.args {
				d.args = append(d.args, fr.val(a))
			}
		} else {
			if uint8(ci.c) == cCallDyn {
				fv := fr.val(ci.a)
				if fv.p == nil {
					w.nilDeref()
				}
			}
			cf, args, free := w.resolve(fr, ci, uint8(ci.c))
			d.args = args
			if cf.fn != nil {
				d.fn = V{p: &Closure{fn: cf.fn, free: free}}
			} else {
				in := cf.intr
				d.fn = V{p: &Closure{nat: func(w *Worker, a []V) V { return in(w, nil, a) }}}
			}
		}
		fr.defers = append(fr.defers, d)
	case cGo:
		cf, args, free := w.resolve(fr, ci, uint8(ci.c))
		w.spawn(cf, args, free)
	case cMakeChan:
		n := w.concInt(fr.val(ci.a))
		fr.regs[ci.dst] = V{p: &Chan{cap: n}}
	case cSend:
		w.chanSend(fr.val(ci.a), fr.val(ci.b))
	case cRecv:
		v, ok := w.chanRecv(fr.val(ci.a), ci.t.Underlying().(*types.Chan).Elem())
		if ci.commaOk {
			fr.regs[ci.dst] = V{p: &Struct{f: []V{v, vBool(ok)}}}
		} else {
			fr.regs[ci.dst] = v
		}
	case cSelect:
		fr.regs[ci.dst] = w.selectStmt(fr, ci)
	case cMapUpdate:
		m, _ := fr.val(ci.a).p.(*Map)
		if m == nil {
			panic(&targetPanic{msg: "assignment to entry in nil map", v: w.rtErrV("assignment to entry in nil map")})
		}
		w.mapSet(m, fr.val(ci.b), fr.val(ci.c), ci.t)
	case cRange:
		x := fr.val(ci.a)
		if _, ok := ci.t.Underlying().(*types.Map); ok {
			it := &mapIter{}
			if m, _ := x.p.(*Map); m != nil {
				it.m = m
				for i := range m.ents {
					if !m.ents[i].dead {
						it.left = append(it.left, i)
					}
				}
			}
			fr.regs[ci.dst] = V{p: it}
		} else {
			fr.regs[ci.dst] = V{p: &strIter{s: x}}
		}
	case cNext:
		fr.regs[ci.dst] = w.next(fr.val(ci.a), ci)
	case cStore:
		w.storePtr(fr.val(ci.a), fr.val(ci.b))
	case cConvert:
		fr.regs[ci.dst] = w.convert(fr.val(ci.a), ci.t, ci.t2)
	case cSlice:
		fr.regs[ci.dst] = w.slice(fr, ci)
	case cTypeAssert:
		fr.regs[ci.dst] = w.typeAssert(fr.val(ci.a), ci)
	case cMakeSlice:
		n, c := w.concInt(fr.val(ci.a)), w.concInt(fr.val(ci.b))
		if n < 0 || n > 1<<26 {
			w.rtPanic("makeslice: len out of range")
		}
		if c < n || c > 1<<26 {
			w.rtPanic("makeslice: cap out of range")
		}
		fr.regs[ci.dst] = V{p: w.newSlice(ci.t, n, c)}
	case cSliceToArrPtr:
		sl, _ := fr.val(ci.a).p.(*Slice)
		n := int(ci.t.Underlying().(*types.Array).Len())
		if sl == nil || sl.len < n {
			w.rtPanic("cannot convert slice to array pointer")
		}
		unsup("slice to array pointer")
	case cIndexAddr:
		fr.regs[ci.dst] = w.indexAddr(fr.val(ci.a), fr.val(ci.b), ci, false)
	case cIndex:
		fr.regs[ci.dst] = w.index(fr.val(ci.a), fr.val(ci.b), ci, ci.t2, false)
	case cLookup:
		fr.regs[ci.dst] = w.lookup(fr.val(ci.a), fr.val(ci.b), ci)
	case cNop:
	case cUnsup:
		unsup("instruction %v", ci.aux)
	default:
		if !w.execPure(fr, ci) {
			unsup("instr op %d: %v", ci.op, ci.in)
		}
	}
}

// execPure runs the instructions that cannot change state. During
// speculation it returns false instead of panicking when they would trap.
func (w *Worker) execPure(fr *frame, ci *cinstr) bool {
	switch ci.op {
	case cMove:
		fr.regs[ci.dst] = fr.val(ci.a)
	case cExtract:
		x := fr.val(ci.a)
		s, ok := x.p.(*Struct)
		if !ok {
			unsup("extract from %T", x.p)
		}
		fr.regs[ci.dst] = s.f[ci.idx]
	case cField:
		fr.regs[ci.dst] = fr.val(ci.a).p.(*Struct).f[ci.idx]
	case cFieldAddr:
		x := fr.val(ci.a)
		switch p := x.p.(type) {
		case *V:
			s, ok := p.p.(*Struct)
			if !ok {
				unsup("field address in %T", p.p)
			}
			fr.regs[ci.dst] = V{p: &s.f[ci.idx]}
		case *SymPtr:
			q := *p
			q.path = append(append([]int(nil), p.path...), ci.idx)
			fr.regs[ci.dst] = V{p: &q}
		case nil:
			if w.spec {
				return false
			}
			w.nilDeref()
		default:
			unsup("field address of %T", x.p)
		}
	case cNot:
		x := fr.val(ci.a)
		if t, ok := x.p.(*Term); ok {
			fr.regs[ci.dst] = fromTerm(w.ts.Not(t))
		} else {
			fr.regs[ci.dst] = V{n: 1 - x.n}
		}
	case cNeg:
		x := fr.val(ci.a)
		if t, ok := x.p.(*Term); ok {
			fr.regs[ci.dst] = fromTerm(w.ts.Neg(t))
		} else if ci.scal {
			fr.regs[ci.dst] = V{n: -x.n & mask(ci.w)}
		} else {
			fr.regs[ci.dst] = V{n: math.Float64bits(-f64(x.n))}
		}
	case cXor:
		x := fr.val(ci.a)
		if t, ok := x.p.(*Term); ok {
			fr.regs[ci.dst] = fromTerm(w.ts.BNot(t))
		} else {
			fr.regs[ci.dst] = V{n: ^x.n & mask(ci.w)}
		}
	case cLoad:
		x := fr.val(ci.a)
		switch p := x.p.(type) {
		case *V:
			if ci.scal {
				fr.regs[ci.dst] = copyV(*p)
			} else {
				fr.regs[ci.dst] = *p
			}
		case nil:
			if w.spec {
				return false
			}
			w.nilDeref()
		default:
			if w.spec {
				if sp, ok := p.(*SymPtr); ok {
					if _, _, ok := scalarInfo(ci.t); !ok {
						return false
					}
					_ = sp
				}
			}
			fr.regs[ci.dst] = w.loadPtr(x, ci.t)
		}
	case cMakeClosure:
		c := &Closure{fn: ci.fn, free: make([]V, len(ci.args))}
		for i, a := range ci.args {
			c.free[i] = fr.val(a)
		}
		fr.regs[ci.dst] = V{p: c}
	case cMakeInterface:
		fr.regs[ci.dst] = V{p: &Iface{ti: ci.ti, v: fr.val(ci.a)}}
	case cMakeMap:
		fr.regs[ci.dst] = V{p: &Map{idx: map[any]int{}, epoch: w.epoch}}
	default:
		return false
	}
	return true
}

func (w *Worker) loadPtr(x V, t types.Type) V {
	switch p := x.p.(type) {
	case *V:
		if w.iso != nil {
			w.isoRead(p)
		}
		return copyV(*p)
	case *BPtr:
		if w.iso != nil {
			w.isoRead(p.b)
		}
		return p.b.get(p.i)
	case *SymPtr:
		wd, _, ok := scalarInfo(t)
		if !ok {
			i := w.concTerm(p.idx)
			v := p.elem(int(i))
			return copyV(v)
		}
		return w.tableLoad(p, wd)
	case nil:
		w.nilDeref()
	}
	unsup("load through %T", x.p)
	return V{}
}

func (p *SymPtr) elem(i int) V {
	if p.b != nil {
		return p.b.get(p.off + i)
	}
	v := p.a.v[p.off+i]
	for _, f := range p.path {
		switch s := v.p.(type) {
		case *Struct:
			v = s.f[f]
		case *Arr:
			v = s.v[f]
		case *ByteArr:
			v = s.get(f)
		default:
			unsup("symbolic pointer path")
		}
	}
	return v
}

// tableLoad reads a scalar table at a symbolic index as nested ITEs over runs
// of equal entries.
func (w *Worker) tableLoad(p *SymPtr, wd uint8) V {
	lo, hi := int(p.idx.lo), int(p.n-1)
	if uint64(hi) > p.idx.hi {
		hi = int(p.idx.hi)
	}
	if lo > hi {
		lo = hi
	}
	type run struct {
		end int
		t   *Term
	}
	var runs []run
	for i := lo; i <= hi; i++ {
		t := w.term(p.elem(i), wd)
		if k := len(runs); k > 0 && runs[k-1].t == t {
			runs[k-1].end = i
		} else {
			runs = append(runs, run{i, t})
		}
	}
	r := runs[len(runs)-1].t
	for i := len(runs) - 2; i >= 0; i-- {
		r = w.ts.Ite(w.ts.Ule(p.idx, w.ts.Const(uint64(runs[i].end), p.idx.w)), runs[i].t, r)
	}
	return fromTerm(r)
}

func (w *Worker) storePtr(addr, v V) {
	switch p := addr.p.(type) {
	case *V:
		w.store(p, v)
	case *BPtr:
		w.setByte(p.b, p.i, v)
	case *SymPtr:
		i := int(w.concTerm(p.idx))
		if p.b != nil {
			w.setByte(p.b, p.off+i, v)
			return
		}
		c := &p.a.v[p.off+i]
		for k, f := range p.path {
			switch s := c.p.(type) {
			case *Struct:
				c = &s.f[f]
			case *Arr:
				c = &s.v[f]
			case *ByteArr:
				if k != len(p.path)-1 {
					unsup("store path")
				}
				w.setByte(s, f, v)
				return
			}
		}
		w.store(c, v)
	case nil:
		w.nilDeref()
	default:
		unsup("store through %T", addr.p)
	}
}

func (w *Worker) newSlice(elem types.Type, n, c int) *Slice {
	if isByteElem(elem) {
		return &Slice{b: &ByteArr{b: make([]byte, c)}, len: n, cap: c}
	}
	a := &Arr{v: make([]V, c)}
	if isAgg(elem) {
		for i := range a.v {
			a.v[i] = zeroV(elem)
		}
	}
	return &Slice{a: a, len: n, cap: c}
}

// bounds checks 0 <= idx < n; returns the index as (concrete, nil) or (0, term
// zero-extended or truncated to 64 bits). ok=false only during speculation.
func (w *Worker) bounds(idx V, n int, ci *cinstr) (int, *Term, bool) {
	t, sym := idx.p.(*Term)
	if !sym {
		i := sext64(idx.n, ci.w)
		if !ci.signed {
			i = int64(idx.n)
		}
		if i < 0 || i >= int64(n) {
			if w.spec {
				return 0, nil, false
			}
			w.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return int(i), nil, true
	}
	t64 := w.ts.Resize(t, 64, ci.signed)
	in := w.ts.Ult(t64, w.ts.Const(uint64(n), 64))
	if !in.isTrue() {
		if w.spec {
			return 0, nil, false
		}
		if !w.branch(in) {
			w.rtPanic(fmt.Sprintf("index out of range [symbolic] with length %d", n))
		}
	}
	if t64.op == OConst {
		return int(t64.c), nil, true
	}
	return 0, t64, true
}

func (w *Worker) indexAddr(x, idx V, ci *cinstr, _ bool) V {
	var sp SymPtr
	switch p := x.p.(type) {
	case *Slice:
		i, t, ok := w.bounds(idx, p.len, ci)
		if !ok {
			panic(specFail{})
		}
		if t == nil {
			if p.b != nil {
				return V{p: &BPtr{p.b, p.off + i}}
			}
			return V{p: &p.a.v[p.off+i]}
		}
		sp = SymPtr{a: p.a, b: p.b, off: p.off, n: p.len, idx: t}
	case *V:
		switch a := p.p.(type) {
		case *Arr:
			i, t, ok := w.bounds(idx, len(a.v), ci)
			if !ok {
				panic(specFail{})
			}
			if t == nil {
				return V{p: &a.v[i]}
			}
			sp = SymPtr{a: a, n: len(a.v), idx: t}
		case *ByteArr:
			i, t, ok := w.bounds(idx, len(a.b), ci)
			if !ok {
				panic(specFail{})
			}
			if t == nil {
				return V{p: &BPtr{a, i}}
			}
			sp = SymPtr{b: a, n: len(a.b), idx: t}
		default:
			unsup("index address in %T", p.p)
		}
	case *SymPtr:
		i, t, ok := w.bounds(idx, 1<<30, ci)
		if !ok || t != nil {
			unsup("nested symbolic index")
		}
		q := *p
		q.path = append(append([]int(nil), p.path...), i)
		return V{p: &q}
	case nil:
		if _, isSl := ci.t.Underlying().(*types.Slice); isSl {
			w.bounds(idx, 0, ci)
			if w.spec {
				panic(specFail{})
			}
		}
		if w.spec {
			panic(specFail{})
		}
		w.nilDeref()
	default:
		unsup("index address of %T", x.p)
	}
	return V{p: &sp}
}

func (w *Worker) index(x, idx V, ci *cinstr, rt types.Type, _ bool) V {
	switch p := x.p.(type) {
	case nil, string, *SymStr:
		n := strLen(x)
		i, t, ok := w.bounds(idx, n, ci)
		if !ok {
			panic(specFail{})
		}
		if t == nil {
			return strAt(x, i)
		}
		ba := bytesOf(x)
		return w.tableLoad(&SymPtr{b: ba, n: n, idx: t}, 8)
	case *Arr:
		i, t, ok := w.bounds(idx, len(p.v), ci)
		if !ok {
			panic(specFail{})
		}
		if t == nil {
			return p.v[i]
		}
		sp := &SymPtr{a: p, n: len(p.v), idx: t}
		if wd, _, ok := scalarInfo(rt); ok {
			return w.tableLoad(sp, wd)
		}
		if w.spec {
			panic(specFail{})
		}
		return sp.elem(int(w.concTerm(t)))
	case *ByteArr:
		i, t, ok := w.bounds(idx, len(p.b), ci)
		if !ok {
			panic(specFail{})
		}
		if t == nil {
			return p.get(i)
		}
		return w.tableLoad(&SymPtr{b: p, n: len(p.b), idx: t}, 8)
	}
	unsup("index of %T", x.p)
	return V{}
}

func (w *Worker) lookup(x, k V, ci *cinstr) V {
	mt, ok := ci.t.Underlying().(*types.Map)
	if !ok {
		return w.index(x, k, ci, types.Typ[types.Byte], false)
	}
	m, _ := x.p.(*Map)
	i := w.mapFind(m, k, mt.Key())
	var v V
	if i >= 0 {
		v = m.ents[i].v
	} else {
		v = zeroV(mt.Elem())
	}
	if ci.commaOk {
		return V{p: &Struct{f: []V{v, vBool(i >= 0)}}}
	}
	return v
}

func (w *Worker) next(it V, ci *cinstr) V {
	switch p := it.p.(type) {
	case *mapIter:
		// skip entries deleted since
		var left []int
		for _, i := range p.left {
			if !p.m.ents[i].dead {
				left = append(left, i)
			}
		}
		p.left = left
		if len(left) == 0 {
			tt := ci.t.(*types.Tuple)
			return V{p: &Struct{f: []V{vBool(false), zeroV(tt.At(1).Type()), zeroV(tt.At(2).Type())}}}
		}
		c := 0
		if len(left) > 1 && w.mapOrder {
			n := len(left)
			if n > 6 && !p.big {
				// many entries: forwards or backwards
				p.big, p.rev = true, w.pick(2) == 1
			}
			if p.big {
				if p.rev {
					c = n - 1
				}
			} else if n > 3 {
				// first or last only
				if w.pick(2) == 1 {
					c = n - 1
				}
			} else {
				c = w.pick(n)
			}
		}
		e := left[c]
		p.left = append(append([]int(nil), left[:c]...), left[c+1:]...)
		return V{p: &Struct{f: []V{vBool(true), p.m.ents[e].k, p.m.ents[e].v}}}
	case *strIter:
		n := strLen(p.s)
		if p.pos >= n {
			return V{p: &Struct{f: []V{vBool(false), {}, {}}}}
		}
		r, size := w.decodeRune(func(i int) V { return strAt(p.s, p.pos+i) }, n-p.pos)
		pos := p.pos
		p.pos += size
		return V{p: &Struct{f: []V{vBool(true), vInt(pos), r}}}
	}
	unsup("next on %T", it.p)
	return V{}
}

func (w *Worker) typeAssert(x V, ci *cinstr) V {
	i, _ := x.p.(*Iface)
	ok := false
	var v V
	if it, isI := ci.t.Underlying().(*types.Interface); isI {
		if i != nil && w.implements(i.ti, it, ci.ti) {
			ok = true
			v = x
		}
	} else if i != nil && i.ti == ci.ti {
		ok = true
		v = i.v
	}
	if ci.commaOk {
		if !ok {
			v = zeroV(ci.t)
		}
		return V{p: &Struct{f: []V{v, vBool(ok)}}}
	}
	if !ok {
		if i == nil {
			w.rtPanic(fmt.Sprintf("interface conversion: interface is nil, not %s", ci.t))
		}
		w.rtPanic(fmt.Sprintf("interface conversion: interface is %s, not %s", i.ti.t, ci.t))
	}
	return v
}

func (w *Worker) slice(fr *frame, ci *cinstr) V {
	x := fr.val(ci.a)
	lo, hi, mx := 0, -1, -1
	if ci.b != noReg {
		lo = w.concInt(fr.val(ci.b))
	}
	if ci.c != noReg {
		hi = w.concInt(fr.val(ci.c))
	}
	if ci.args[0] != noReg {
		mx = w.concInt(fr.val(ci.args[0]))
	}
	if isString(ci.t) {
		n := strLen(x)
		if ci.c == noReg {
			hi = n
		}
		if hi < 0 || hi > n {
			w.rtPanic(fmt.Sprintf("slice bounds out of range [:%d] with length %d", hi, n))
		}
		if lo < 0 || lo > hi {
			w.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", lo, hi))
		}
		return substr(x, lo, hi)
	}
	var s Slice
	switch p := x.p.(type) {
	case *Slice:
		s = *p
	case *V:
		switch a := p.p.(type) {
		case *Arr:
			s = Slice{a: a, len: len(a.v), cap: len(a.v)}
		case *ByteArr:
			s = Slice{b: a, len: len(a.b), cap: len(a.b)}
		default:
			unsup("slice of pointer to %T", p.p)
		}
	case nil:
		if _, ok := ci.t.Underlying().(*types.Pointer); ok {
			w.nilDeref()
		}
	default:
		unsup("slice of %T", x.p)
	}
	if ci.c == noReg {
		hi = s.len
	}
	if ci.args[0] == noReg {
		mx = s.cap
	}
	if mx < 0 || mx > s.cap {
		w.rtPanic(fmt.Sprintf("slice bounds out of range [::%d] with capacity %d", mx, s.cap))
	}
	if hi < 0 || hi > mx {
		w.rtPanic(fmt.Sprintf("slice bounds out of range [:%d] with capacity %d", hi, mx))
	}
	if lo < 0 || lo > hi {
		w.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", lo, hi))
	}
	if x.p == nil {
		return V{}
	}
	return V{p: &Slice{a: s.a, b: s.b, off: s.off + lo, len: hi - lo, cap: mx - lo}}
}

func (w *Worker) convert(x V, from, to types.Type) V {
	fu, tu := from.Underlying(), to.Underlying()
	fw, fs, fok := scalarInfo(from)
	tw, _, tok := scalarInfo(to)
	if fok && tok {
		if t, ok := x.p.(*Term); ok {
			return fromTerm(w.ts.Resize(t, tw, fs))
		}
		if fs {
			return V{n: uint64(sext64(x.n, fw)) & mask(tw)}
		}
		return V{n: x.n & mask(tw)}
	}
	if isString(to) {
		switch u := fu.(type) {
		case *types.Slice:
			sl, _ := x.p.(*Slice)
			if isByteElem(u.Elem()) {
				return strOfBytes(sl)
			}
			// []rune
			r := V{}
			if sl != nil {
				for i := 0; i < sl.len; i++ {
					r = concat(r, w.runeStr(sl.a.v[sl.off+i], 32, true))
				}
			}
			return r
		case *types.Basic:
			if u.Info()&types.IsInteger != 0 {
				return w.runeStr(x, fw, fs)
			}
			return x
		}
	}
	if isString(from) {
		if u, ok := tu.(*types.Slice); ok {
			if isByteElem(u.Elem()) {
				ba := bytesOf(x)
				n := len(ba.b)
				if n == 0 {
					return V{p: &Slice{b: ba}}
				}
				c := roundupsize(n)
				ba.b = append(ba.b, make([]byte, c-n)...)
				if ba.t != nil {
					ba.t = append(ba.t, make([]*Term, c-n)...)
				}
				return V{p: &Slice{b: ba, len: n, cap: c}}
			}
			n := strLen(x)
			a := &Arr{}
			for i := 0; i < n; {
				r, sz := w.decodeRune(func(k int) V { return strAt(x, i+k) }, n-i)
				a.v = append(a.v, r)
				i += sz
			}
			return V{p: &Slice{a: a, len: len(a.v), cap: len(a.v)}}
		}
	}
	if isFloat(from) || isFloat(to) {
		if isSym(x) {
			x = V{n: w.concTerm(x.p.(*Term))}
		}
		switch {
		case isFloat(from) && isFloat(to):
			if tu.(*types.Basic).Kind() == types.Float32 {
				return V{n: math.Float64bits(float64(float32(f64(x.n))))}
			}
			return x
		case isFloat(to) && fok:
			if fs {
				return V{n: math.Float64bits(float64(sext64(x.n, fw)))}
			}
			return V{n: math.Float64bits(float64(x.n))}
		case isFloat(from) && tok:
			return V{n: uint64(int64(f64(x.n))) & mask(tw)}
		}
	}
	// pointer / unsafe.Pointer and identical-shape conversions
	return x
}

func (w *Worker) binop(ci *cinstr, x, y V) V {
	tok := ci.tok
	if ci.scal {
		if x.p == nil && y.p == nil {
			return w.binConc(ci, x.n, y.n)
		}
		return w.binSym(ci, x, y)
	}
	switch tok {
	case token.EQL:
		return w.eqV(x, y, ci.t)
	case token.NEQ:
		return w.notV(w.eqV(x, y, ci.t))
	}
	if isString(ci.t) {
		switch tok {
		case token.ADD:
			return concat(x, y)
		case token.LSS:
			return w.ltStr(x, y)
		case token.GTR:
			return w.ltStr(y, x)
		case token.LEQ:
			return w.notV(w.ltStr(y, x))
		case token.GEQ:
			return w.notV(w.ltStr(x, y))
		}
	}
	if isFloat(ci.t) {
		a, b := f64(x.n), f64(y.n)
		switch tok {
		case token.ADD:
			return V{n: math.Float64bits(a + b)}
		case token.SUB:
			return V{n: math.Float64bits(a - b)}
		case token.MUL:
			return V{n: math.Float64bits(a * b)}
		case token.QUO:
			return V{n: math.Float64bits(a / b)}
		case token.LSS:
			return vBool(a < b)
		case token.GTR:
			return vBool(a > b)
		case token.LEQ:
			return vBool(a <= b)
		case token.GEQ:
			return vBool(a >= b)
		}
	}
	unsup("binop %s on %s", tok, ci.t)
	return V{}
}

func (w *Worker) notV(v V) V {
	if t, ok := v.p.(*Term); ok {
		return fromTerm(w.ts.Not(t))
	}
	return V{n: 1 - v.n}
}

func (w *Worker) binConc(ci *cinstr, x, y uint64) V {
	m := mask(ci.w)
	s := ci.signed
	switch ci.tok {
	case token.ADD:
		return V{n: (x + y) & m}
	case token.SUB:
		return V{n: (x - y) & m}
	case token.MUL:
		return V{n: (x * y) & m}
	case token.QUO, token.REM:
		if y == 0 {
			w.rtPanic("integer divide by zero")
		}
		op := OUdiv
		switch {
		case ci.tok == token.QUO && s:
			op = OSdiv
		case ci.tok == token.REM && s:
			op = OSrem
		case ci.tok == token.REM:
			op = OUrem
		}
		v, _ := evalBin(op, x, y, ci.w)
		return V{n: v}
	case token.AND:
		return V{n: x & y}
	case token.OR:
		return V{n: x | y}
	case token.XOR:
		return V{n: x ^ y}
	case token.AND_NOT:
		return V{n: x &^ y}
	case token.SHL, token.SHR:
		yw, ys, _ := scalarInfo(ci.t2)
		if ys && sext64(y, yw) < 0 {
			w.rtPanic("negative shift amount")
		}
		op := OShl
		if ci.tok == token.SHR {
			op = OLshr
			if s {
				op = OAshr
			}
		}
		v, _ := evalBin(op, x, y, ci.w)
		return V{n: v}
	case token.EQL:
		return vBool(x == y)
	case token.NEQ:
		return vBool(x != y)
	case token.LSS:
		if s {
			return vBool(sext64(x, ci.w) < sext64(y, ci.w))
		}
		return vBool(x < y)
	case token.LEQ:
		if s {
			return vBool(sext64(x, ci.w) <= sext64(y, ci.w))
		}
		return vBool(x <= y)
	case token.GTR:
		if s {
			return vBool(sext64(x, ci.w) > sext64(y, ci.w))
		}
		return vBool(x > y)
	case token.GEQ:
		if s {
			return vBool(sext64(x, ci.w) >= sext64(y, ci.w))
		}
		return vBool(x >= y)
	}
	unsup("binop %s", ci.tok)
	return V{}
}

func (w *Worker) binSym(ci *cinstr, x, y V) V {
	ts := w.ts
	s := ci.signed
	if ci.tok == token.SHL || ci.tok == token.SHR {
		yw, ys, _ := scalarInfo(ci.t2)
		if ys {
			if yt, ok := y.p.(*Term); ok {
				if w.spec {
					panic(specFail{})
				}
				if w.branch(ts.Slt(yt, ts.Const(0, yw))) {
					w.rtPanic("negative shift amount")
				}
			} else if sext64(y.n, yw) < 0 {
				if w.spec {
					panic(specFail{})
				}
				w.rtPanic("negative shift amount")
			}
		}
		a := w.term(x, ci.w)
		yt := w.term(y, yw)
		var amt *Term
		if yw > ci.w {
			// saturate
			amt = ts.Ite(ts.Ult(yt, ts.Const(uint64(ci.w), yw)), ts.Trunc(yt, ci.w), ts.Const(uint64(ci.w), ci.w))
		} else {
			amt = ts.Zext(yt, ci.w)
		}
		op := OShl
		if ci.tok == token.SHR {
			op = OLshr
			if s {
				op = OAshr
			}
		}
		return fromTerm(ts.bin(op, a, amt))
	}
	a, b := w.term(x, ci.w), w.term(y, ci.w)
	if ci.w == 0 {
		switch ci.tok {
		case token.EQL:
			return fromTerm(ts.Eq(a, b))
		case token.NEQ:
			return fromTerm(ts.Not(ts.Eq(a, b)))
		case token.AND:
			return fromTerm(ts.And(a, b))
		case token.OR:
			return fromTerm(ts.Or(a, b))
		}
		unsup("bool op %s", ci.tok)
	}
	switch ci.tok {
	case token.ADD:
		return fromTerm(ts.bin(OAdd, a, b))
	case token.SUB:
		return fromTerm(ts.bin(OSub, a, b))
	case token.MUL:
		return fromTerm(ts.bin(OMul, a, b))
	case token.QUO, token.REM:
		if !(b.isConst() && b.c != 0) {
			if w.spec {
				panic(specFail{})
			}
			if w.branch(ts.Eq(b, ts.Const(0, ci.w))) {
				w.rtPanic("integer divide by zero")
			}
		}
		op := OUdiv
		switch {
		case ci.tok == token.QUO && s:
			op = OSdiv
		case ci.tok == token.REM && s:
			op = OSrem
		case ci.tok == token.REM:
			op = OUrem
		}
		if s {
			half := uint64(1) << (ci.w - 1)
			if a.hi < half && b.hi < half {
				if op == OSdiv {
					op = OUdiv
				} else {
					op = OUrem
				}
			}
		}
		return fromTerm(ts.bin(op, a, b))
	case token.AND:
		return fromTerm(ts.bin(OBand, a, b))
	case token.OR:
		return fromTerm(ts.bin(OBor, a, b))
	case token.XOR:
		return fromTerm(ts.bin(OBxor, a, b))
	case token.AND_NOT:
		return fromTerm(ts.bin(OBand, a, ts.BNot(b)))
	case token.EQL:
		return fromTerm(ts.Eq(a, b))
	case token.NEQ:
		return fromTerm(ts.Not(ts.Eq(a, b)))
	}
	lt, le := ts.Ult, ts.Ule
	if s {
		lt, le = ts.Slt, ts.Sle
	}
	switch ci.tok {
	case token.LSS:
		return fromTerm(lt(a, b))
	case token.LEQ:
		return fromTerm(le(a, b))
	case token.GTR:
		return fromTerm(lt(b, a))
	case token.GEQ:
		return fromTerm(le(b, a))
	}
	unsup("binop %s", ci.tok)
	return V{}
}

// ---- builtins ------------------------------------------------------------------

func (w *Worker) lenOf(x V) int {
	switch p := x.p.(type) {
	case nil:
		return 0
	case string, *SymStr:
		return strLen(x)
	case *Slice:
		return p.len
	case *Map:
		return p.live
	case *Arr:
		return len(p.v)
	case *ByteArr:
		return len(p.b)
	case *V:
		return w.lenOf(*p)
	case *Chan:
		return len(p.buf)
	}
	unsup("len of %T", x.p)
	return 0
}

func (w *Worker) builtin(fr *frame, ci *cinstr, bi *ssa.Builtin, args []V) V {
	switch bi.Name() {
	case "len":
		return vInt(w.lenOf(args[0]))
	case "cap":
		switch p := args[0].p.(type) {
		case nil:
			return V{}
		case *Slice:
			return vInt(p.cap)
		case *Chan:
			return vInt(p.cap)
		}
		return vInt(w.lenOf(args[0]))
	case "append":
		return w.appendB(ci, args)
	case "copy":
		d, _ := args[0].p.(*Slice)
		if d == nil {
			return V{}
		}
		if isString(ci.t2) {
			n := strLen(args[1])
			if d.len < n {
				n = d.len
			}
			w.copyBytes(d.b, d.off, bytesOf(args[1]), 0, n)
			return vInt(n)
		}
		s, _ := args[1].p.(*Slice)
		if s == nil {
			return V{}
		}
		n := s.len
		if d.len < n {
			n = d.len
		}
		w.copyElems(d, 0, s, n)
		return vInt(n)
	case "delete":
		m, _ := args[0].p.(*Map)
		w.mapDel(m, args[1], ci.t.Underlying().(*types.Map).Key())
		return V{}
	case "panic":
		panic(&targetPanic{v: args[0]})
	case "recover":
		if fr.deferOf != nil && fr.deferOf.pan != nil {
			p := fr.deferOf.pan
			fr.deferOf.pan = nil
			return p.v
		}
		return V{}
	case "print", "println":
		return V{}
	case "close":
		w.chanClose(args[0])
		return V{}
	case "Sizeof":
		if c, ok := ci.in.(*ssa.Call); ok && len(c.Call.Args) == 1 {
			return V{n: uint64(types.SizesFor("gc", "amd64").Sizeof(c.Call.Args[0].Type()))}
		}
	case "min", "max":
		r := args[0]
		wd, sg, ok := scalarInfo(ci.t)
		if !ok {
			unsup("min/max on %s", ci.t)
		}
		for _, a := range args[1:] {
			x, y := w.term(r, wd), w.term(a, wd)
			var lt *Term
			if sg {
				lt = w.ts.Slt(x, y)
			} else {
				lt = w.ts.Ult(x, y)
			}
			if bi.Name() == "min" {
				r = fromTerm(w.ts.Ite(lt, x, y))
			} else {
				r = fromTerm(w.ts.Ite(lt, y, x))
			}
		}
		return r
	case "clear":
		switch p := args[0].p.(type) {
		case *Map:
			w.mapOwn(p)
			p.ents, p.idx, p.live, p.sym = nil, map[any]int{}, 0, false
		case *Slice:
			el := ci.t.Underlying().(*types.Slice).Elem()
			for i := 0; i < p.len; i++ {
				if p.b != nil {
					w.setByte(p.b, p.off+i, V{})
				} else {
					w.store(&p.a.v[p.off+i], zeroV(el))
				}
			}
		}
		return V{}
	case "ssa:wrapnilchk":
		if args[0].p == nil {
			w.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "String": // unsafe.String
		n := w.concInt(args[1])
		if n == 0 {
			return V{}
		}
		if p, ok := args[0].p.(*BPtr); ok {
			return strOfBytes(&Slice{b: p.b, off: p.i, len: n, cap: n})
		}
	case "StringData":
		ba := bytesOf(args[0])
		if len(ba.b) == 0 {
			return V{}
		}
		return V{p: &BPtr{ba, 0}}
	case "SliceData":
		s, _ := args[0].p.(*Slice)
		if s == nil {
			return V{}
		}
		if s.b != nil {
			return V{p: &BPtr{s.b, s.off}}
		}
		if s.cap > 0 {
			return V{p: &s.a.v[s.off]}
		}
	case "Slice": // unsafe.Slice
		n := w.concInt(args[1])
		if p, ok := args[0].p.(*BPtr); ok {
			return V{p: &Slice{b: p.b, off: p.i, len: n, cap: n}}
		}
	}
	unsup("builtin %s(%T)", bi.Name(), func() any {
		if len(args) > 0 {
			return args[0].p
		}
		return nil
	}())
	return V{}
}

func (w *Worker) copyElems(d *Slice, di int, s *Slice, n int) {
	if d.b != nil {
		if n > 0 {
			if s.b == d.b && s.off < d.off+di { // overlapping, move up
				tmp := &ByteArr{b: append([]byte(nil), s.b.b[s.off:s.off+n]...)}
				if s.b.t != nil {
					tmp.t = append([]*Term(nil), s.b.t[s.off:s.off+n]...)
				}
				w.copyBytes(d.b, d.off+di, tmp, 0, n)
				return
			}
			w.copyBytes(d.b, d.off+di, s.b, s.off, n)
		}
		return
	}
	if n == 0 {
		return
	}
	if s.a == d.a && s.off < d.off+di {
		for i := n - 1; i >= 0; i-- {
			w.setElem(d.a, d.off+di+i, s.a.v[s.off+i])
		}
		return
	}
	for i := 0; i < n; i++ {
		w.setElem(d.a, d.off+di+i, s.a.v[s.off+i])
	}
}

func (w *Worker) setElem(a *Arr, i int, v V) {
	switch v.p.(type) {
	case *Struct, *Arr, *ByteArr:
		if a.v[i].p == nil {
			w.logV(&a.v[i])
			a.v[i] = copyV(v)
			return
		}
	}
	w.store(&a.v[i], v)
}

func (w *Worker) appendB(ci *cinstr, args []V) V {
	d, _ := args[0].p.(*Slice)
	elem := ci.t.Underlying().(*types.Slice).Elem()
	var s *Slice
	if ci.t2 != nil && isString(ci.t2) {
		ba := bytesOf(args[1])
		s = &Slice{b: ba, len: len(ba.b), cap: len(ba.b)}
	} else {
		s, _ = args[1].p.(*Slice)
	}
	if s == nil || s.len == 0 {
		return args[0]
	}
	dl, dc := 0, 0
	if d != nil {
		dl, dc = d.len, d.cap
	}
	n := dl + s.len
	if n <= dc {
		r := &Slice{a: d.a, b: d.b, off: d.off, len: n, cap: d.cap}
		w.copyElems(r, dl, s, s.len)
		return V{p: r}
	}
	nc := dc * 2
	if n > nc {
		nc = n
	} else if dc >= 256 {
		nc = dc
		for nc < n {
			nc += (nc + 3*256) >> 2
		}
	}
	sz := int(sizes.Sizeof(elem))
	if sz > 0 {
		nc = roundupsize(nc*sz) / sz
	}
	if nc > 1<<26 {
		panic(pathEnd{kind: endSteps})
	}
	r := w.newSlice(elem, n, nc)
	if d != nil {
		w.copyElems(r, 0, d, dl)
	}
	w.copyElems(r, dl, s, s.len)
	return V{p: r}
}

var sizes = types.SizesFor("gc", "amd64")

var sizeClasses = []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundupsize(n int) int {
	if n <= 32768 {
		for _, c := range sizeClasses {
			if n <= c {
				return c
			}
		}
	}
	return (n + 8191) &^ 8191
}
