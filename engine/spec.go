package main

import "go/types"

// Speculative merging: at a branch on a symbolic condition the side-effect
// free blocks ahead are evaluated on every path, and paths that reach the
// same block are merged with ITEs, so that only genuinely different
// continuations fork.

type specFail struct{}

type regVal struct {
	r int
	v V
}

type specExit struct {
	blk, pred int
	cond      *Term
	phis      []V
	regs      []regVal
	ret       V
	isRet     bool
}

type specState struct {
	exits   []*specExit
	log     []regVal
	visited []int
	budget  int
	depth   int
	fnMode  bool
	abort   bool
}

func (w *Worker) specExec(fr *frame, ci *cinstr) (ok bool) {
	switch ci.op {
	case cMove, cExtract, cField, cNot, cNeg, cXor:
		return w.execPure(fr, ci)
	case cFieldAddr, cLoad, cMakeInterface, cBinOp, cConvert, cIndex, cIndexAddr, cSlice, cTypeAssert, cLookup:
		defer func() {
			if ok {
				return
			}
			if e := recover(); e != nil {
				switch e.(type) {
				case specFail, unsupported, *targetPanic:
					ok = false
				default:
					panic(e)
				}
			}
		}()
		switch ci.op {
		case cTypeAssert:
			if !ci.commaOk {
				return false
			}
			w.exec1(fr, ci)
		case cBinOp, cConvert, cIndex, cIndexAddr, cSlice, cLookup:
			w.exec1(fr, ci)
		default:
			return w.execPure(fr, ci)
		}
		return true
	case cBuiltin:
		name := builtinName(ci)
		switch name {
		case "len", "cap", "min", "max":
			w.exec1(fr, ci)
			return true
		}
	case cCall:
		cf, _ := ci.aux.(*cfunc)
		if cf == nil {
			cf = w.fnOf(ci.fn)
			ci.aux = cf
		}
		args := make([]V, len(ci.args))
		for i, a := range ci.args {
			args[i] = w.val(fr, a)
		}
		if cf.intr != nil {
			if !pureIntrinsics[cf.name] {
				return false
			}
			fr.regs[ci.dst] = cf.intr(w, &frame{fn: cf}, args)
			return true
		}
		if !w.isPureFn(cf) {
			return false
		}
		r, ok := w.specCall(cf, args)
		if !ok {
			return false
		}
		fr.regs[ci.dst] = r
		return true
	}
	return false
}

func builtinName(ci *cinstr) string {
	if b, ok := ci.aux.(interface{ Name() string }); ok {
		return b.Name()
	}
	return ""
}

// isPureFn: acyclic, only side-effect free instructions.
func (w *Worker) isPureFn(cf *cfunc) bool {
	if cf.pure != 0 {
		return cf.pure > 0
	}
	cf.pure = -1 // while visiting
	if cf.intr != nil || cf.defers || len(cf.blocks) == 0 || len(cf.blocks) > 64 {
		return false
	}
	// acyclic?
	state := make([]int8, len(cf.blocks))
	var dfs func(b int) bool
	dfs = func(b int) bool {
		state[b] = 1
		for _, s := range cf.blocks[b].succ {
			if state[s] == 1 {
				return false
			}
			if state[s] == 0 && !dfs(s) {
				return false
			}
		}
		state[b] = 2
		return true
	}
	if !dfs(0) {
		return false
	}
	for i := range cf.blocks {
		for k := range cf.blocks[i].ins {
			ci := &cf.blocks[i].ins[k]
			switch ci.op {
			case cMove, cExtract, cField, cNot, cNeg, cXor, cFieldAddr, cLoad, cMakeInterface, cBinOp, cConvert,
				cIndex, cIndexAddr, cSlice, cJump, cIf, cReturn:
			case cBuiltin:
				switch builtinName(ci) {
				case "len", "cap", "min", "max":
				default:
					return false
				}
			case cCall:
				sub := w.fnOf(ci.fn)
				if sub.intr != nil {
					if !pureIntrinsics[sub.name] {
						return false
					}
				} else if !w.isPureFn(sub) {
					return false
				}
			default:
				return false
			}
		}
	}
	cf.pure = 1
	return true
}

// specCall evaluates a pure function on all its paths and merges the results.
func (w *Worker) specCall(cf *cfunc, args []V) (V, bool) {
	if w.depth > maxDepth {
		return V{}, false
	}
	a0, p0 := w.arena, w.arenaPos
	fr := frame{fn: cf, regs: w.allocRegs(cf.nreg)}
	copy(fr.regs, args)
	st := &specState{budget: 300, depth: 64, fnMode: true}
	old := w.spec
	w.spec = true
	w.depth++
	w.specBlock(&fr, st, 0, -1, w.ts.tru, 0)
	w.depth--
	w.spec = old
	if cap(w.arena) == cap(a0) && len(a0) > 0 && &w.arena[0] == &a0[0] {
		w.arenaPos = p0
	}
	if st.abort || len(st.exits) == 0 {
		return V{}, false
	}
	res := cf.fn.Signature.Results()
	r := st.exits[len(st.exits)-1].ret
	for i := len(st.exits) - 2; i >= 0; i-- {
		e := st.exits[i]
		var ok bool
		if res.Len() == 1 {
			r, ok = w.mergeV(e.cond, e.ret, r, res.At(0).Type())
		} else if res.Len() > 1 {
			a, b := e.ret.p.(*Struct), r.p.(*Struct)
			n := &Struct{f: make([]V, res.Len())}
			ok = true
			for k := 0; k < res.Len() && ok; k++ {
				n.f[k], ok = w.mergeV(e.cond, a.f[k], b.f[k], res.At(k).Type())
			}
			r = V{p: n}
		} else {
			ok = true
		}
		if !ok {
			return V{}, false
		}
	}
	return r, true
}

func (w *Worker) summary(cf *cfunc, args []V) (V, bool) {
	sym := false
	for _, a := range args {
		switch a.p.(type) {
		case *Term, *SymStr:
			sym = true
		}
	}
	if !sym || len(cf.blocks) < 2 || !w.isPureFn(cf) {
		return V{}, false
	}
	return w.specCall(cf, args)
}

func (w *Worker) mergeV(c *Term, a, b V, t types.Type) (V, bool) {
	if a == b {
		return a, true
	}
	wd, _, ok := scalarInfo(t)
	if !ok {
		if isString(t) {
			x, ok1 := concrete(a)
			y, ok2 := concrete(b)
			if ok1 && ok2 && x == y {
				return a, true
			}
		}
		return V{}, false
	}
	return fromTerm(w.ts.Ite(c, w.term(a, wd), w.term(b, wd))), true
}

func (st *specState) set(fr *frame, r int) {
	st.log = append(st.log, regVal{r, fr.regs[r]})
}

func (st *specState) restore(fr *frame, mark int) {
	for i := len(st.log) - 1; i >= mark; i-- {
		fr.regs[st.log[i].r] = st.log[i].v
	}
	st.log = st.log[:mark]
}

func (w *Worker) specBlock(fr *frame, st *specState, blk, pred int, cond *Term, depth int) {
	if st.abort {
		return
	}
	st.budget--
	if st.budget < 0 {
		st.abort = true
		return
	}
	cb := &fr.fn.blocks[blk]
	record := func() {
		if st.fnMode {
			st.abort = true
			return
		}
		e := &specExit{blk: blk, pred: pred, cond: cond}
		if len(cb.phis) > 0 {
			pi := predIndex(cb, pred)
			for i := range cb.phis {
				e.phis = append(e.phis, fr.val(cb.phis[i].edges[pi]))
			}
		}
		seen := map[int]bool{}
		for i := len(st.log) - 1; i >= 0; i-- {
			r := st.log[i].r
			if !seen[r] && fr.fn.liveIn(blk, r) {
				seen[r] = true
				e.regs = append(e.regs, regVal{r, fr.regs[r]})
			}
		}
		st.exits = append(st.exits, e)
	}
	for _, v := range st.visited {
		if v == blk {
			record()
			return
		}
	}
	if depth >= st.depth {
		record()
		return
	}
	mark := len(st.log)
	st.visited = append(st.visited, blk)
	defer func() {
		st.visited = st.visited[:len(st.visited)-1]
		st.restore(fr, mark)
	}()
	if len(cb.phis) > 0 {
		for i := range cb.phis {
			st.set(fr, cb.phis[i].dst)
		}
		w.doPhis(fr, cb, pred)
	}
	w.steps += int64(len(cb.ins))
	for i := range cb.ins {
		ci := &cb.ins[i]
		switch ci.op {
		case cJump:
			w.specBlock(fr, st, cb.succ[0], blk, cond, depth+1)
			return
		case cIf:
			c := fr.val(ci.a)
			t, ok := c.p.(*Term)
			if !ok {
				k := 1
				if c.n != 0 {
					k = 0
				}
				w.specBlock(fr, st, cb.succ[k], blk, cond, depth+1)
				return
			}
			if c1 := w.ts.And(cond, t); !c1.isFalse() {
				w.specBlock(fr, st, cb.succ[0], blk, c1, depth+1)
			}
			if c2 := w.ts.And(cond, w.ts.Not(t)); !c2.isFalse() {
				w.specBlock(fr, st, cb.succ[1], blk, c2, depth+1)
			}
			return
		case cReturn:
			if !st.fnMode {
				st.restore(fr, mark)
				record()
				return
			}
			e := &specExit{cond: cond, isRet: true}
			if len(ci.args) == 1 {
				e.ret = fr.val(ci.args[0])
			} else if len(ci.args) > 1 {
				s := &Struct{f: make([]V, len(ci.args))}
				for i, a := range ci.args {
					s.f[i] = fr.val(a)
				}
				e.ret = V{p: s}
			}
			st.exits = append(st.exits, e)
			return
		}
		if ci.dst == noReg {
			st.restore(fr, mark)
			record()
			return
		}
		st.set(fr, ci.dst)
		if !w.specExec(fr, ci) {
			st.restore(fr, mark)
			record()
			return
		}
	}
	st.restore(fr, mark)
	record()
}

func predIndex(cb *cblock, pred int) int {
	for i, p := range cb.preds {
		if p == pred {
			return i
		}
	}
	return 0
}

type specGroup struct {
	blk, pred int
	cond      *Term
	phis      []V
	regs      []regVal
}

func (w *Worker) symIf(fr *frame, blk int, c *Term) (int, int, bool) {
	cb := &fr.fn.blocks[blk]
	if w.speculate && w.initDone {
		for _, depth := range [...]int{14, 5, 2} {
			st := &specState{budget: 120, depth: depth}
			w.spec = true
			w.specBlock(fr, st, cb.succ[0], blk, c, 0)
			w.specBlock(fr, st, cb.succ[1], blk, w.ts.Not(c), 0)
			w.spec = false
			if st.abort || len(st.exits) > 40 {
				continue
			}
			gs := w.groupExits(fr, st.exits)
			var k int
			if len(gs) == 1 {
				k = 0
			} else {
				conds := make([]*Term, len(gs))
				for i, g := range gs {
					conds[i] = g.cond
				}
				k = w.choose(conds)
			}
			g := gs[k]
			for _, rv := range g.regs {
				fr.regs[rv.r] = rv.v
			}
			gb := &fr.fn.blocks[g.blk]
			for i := range gb.phis {
				fr.regs[gb.phis[i].dst] = g.phis[i]
			}
			return g.blk, g.pred, true
		}
	}
	if w.branch(c) {
		return cb.succ[0], blk, false
	}
	return cb.succ[1], blk, false
}

func (w *Worker) groupExits(fr *frame, exits []*specExit) []*specGroup {
	var gs []*specGroup
next:
	for _, e := range exits {
		cb := &fr.fn.blocks[e.blk]
		for _, g := range gs {
			if g.blk != e.blk {
				continue
			}
			ok := true
			phis := make([]V, len(e.phis))
			for i := range e.phis {
				phis[i], ok = w.mergeV(e.cond, e.phis[i], g.phis[i], fr.fn.regTy[cb.phis[i].dst])
				if !ok {
					break
				}
			}
			if !ok {
				continue
			}
			get := func(l []regVal, r int) V {
				for _, x := range l {
					if x.r == r {
						return x.v
					}
				}
				return fr.regs[r]
			}
			var regs []regVal
			add := func(r int) {
				for _, x := range regs {
					if x.r == r {
						return
					}
				}
				v, ok2 := w.mergeV(e.cond, get(e.regs, r), get(g.regs, r), fr.fn.regTy[r])
				if !ok2 {
					ok = false
				}
				regs = append(regs, regVal{r, v})
			}
			for _, a := range g.regs {
				add(a.r)
			}
			for _, b := range e.regs {
				add(b.r)
			}
			if !ok {
				continue
			}
			g.cond = w.ts.Or(g.cond, e.cond)
			g.phis = phis
			g.regs = regs
			continue next
		}
		gs = append(gs, &specGroup{blk: e.blk, pred: e.pred, cond: e.cond, phis: e.phis, regs: e.regs})
	}
	return gs
}

// liveIn reports whether register r is live on entry to the block (its own
// phis excluded).
func (cf *cfunc) liveIn(blk, r int) bool {
	if cf.live == nil {
		nb, nw := len(cf.blocks), (cf.nreg+63)/64
		in := make([][]uint64, nb)
		for i := range in {
			in[i] = make([]uint64, nw)
		}
		set := func(s []uint64, r int) {
			if r >= 0 && r < cf.nreg {
				s[r/64] |= 1 << (uint(r) % 64)
			}
		}
		clr := func(s []uint64, r int) {
			if r >= 0 {
				s[r/64] &^= 1 << (uint(r) % 64)
			}
		}
		for changed := true; changed; {
			changed = false
			for b := nb - 1; b >= 0; b-- {
				cb := &cf.blocks[b]
				s := make([]uint64, nw)
				for _, k := range cb.succ {
					sb := &cf.blocks[k]
					for i := range s {
						s[i] |= in[k][i]
					}
					for pi, p := range sb.preds {
						if p == b {
							for i := range sb.phis {
								set(s, sb.phis[i].edges[pi])
							}
						}
					}
				}
				for i := len(cb.ins) - 1; i >= 0; i-- {
					ci := &cb.ins[i]
					clr(s, ci.dst)
					set(s, ci.a)
					set(s, ci.b)
					set(s, ci.c)
					for _, a := range ci.args {
						set(s, a)
					}
				}
				for i := range cb.phis {
					clr(s, cb.phis[i].dst)
				}
				for i := range s {
					if s[i] != in[b][i] {
						in[b] = s
						changed = true
						break
					}
				}
			}
		}
		cf.live = in
	}
	return cf.live[blk][r/64]>>(uint(r)%64)&1 == 1
}
