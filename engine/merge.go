package main

import "go/token"

// Region is the side-effect-free acyclic code behind a branch that can be
// evaluated under path conditions and merged instead of forked.
type Region struct {
	blocks []*Block // topological order, entry excluded
	in     map[*Block]bool
}

const maxRegion = 64

func (w *W) pureOp(ins *Ins) bool {
	switch ins.op {
	case iBinOp, iChangeType, iChangeIface, iExtract, iField, iFieldAddr, iIndex, iIndexAddr, iLoad, iJump, iIf, iSlice, iMakeIface, iNop:
		return true
	case iUnOp:
		return ins.tok != token.ARROW
	case iConvert:
		return ins.ti.k <= kFloat && ins.ti2.k <= kFloat
	case iLookup:
		return ins.n == 0
	case iBuiltin:
		return ins.x.(string) == "len"
	case iCall:
		fn := ins.x.(*Fn)
		fn.compile(w.p)
		if fn.model != nil {
			fn = fn.model
			fn.compile(w.p)
		}
		if fn.intr != nil {
			return pureIntr[fn.name]
		}
		return w.isPure(fn)
	}
	return false
}

func (w *W) blockPure(b *Block) bool {
	if b.pure == 0 {
		b.pure = 1
		for i := range b.ins {
			if !w.pureOp(&b.ins[i]) {
				b.pure = 2
				break
			}
		}
	}
	return b.pure == 1
}

func (w *W) regionOf(b *Block) *Region {
	w.p.mu2.Lock()
	defer w.p.mu2.Unlock()
	if b.regOK {
		return b.region
	}
	b.regOK = true
	r := &Region{in: map[*Block]bool{b: true}}
	for changed := true; changed && len(r.blocks) < maxRegion; {
		changed = false
		try := func(s *Block) {
			if r.in[s] || len(r.blocks) >= maxRegion {
				return
			}
			for _, p := range s.preds {
				if !r.in[p] {
					return
				}
			}
			if !w.blockPure(s) {
				return
			}
			r.in[s] = true
			r.blocks = append(r.blocks, s)
			changed = true
		}
		for _, s := range b.succs {
			try(s)
		}
		for _, x := range r.blocks {
			for _, s := range x.succs {
				try(s)
			}
		}
	}
	delete(r.in, b)
	b.region = r
	return r
}

// isPure reports whether fn is a loop-free function of scalars without side
// effects (reads of memory allowed).
func (w *W) isPure(fn *Fn) bool {
	if p := fn.pure.Load(); p == 1 || p == 2 {
		return p == 1
	}
	w.p.mu3.Lock()
	defer w.p.mu3.Unlock()
	return w.isPureL(fn)
}

func (w *W) isPureL(fn *Fn) bool {
	switch fn.pure.Load() {
	case 1:
		return true
	case 2, 3:
		return false
	}
	fn.pure.Store(3)
	ok := w.computePure(fn)
	if ok {
		fn.pure.Store(1)
	} else {
		fn.pure.Store(2)
	}
	return ok
}

func (w *W) computePure(fn *Fn) bool {
	if fn.intr != nil || fn.ext || fn.model != nil || len(fn.blocks) == 0 || len(fn.blocks) > maxRegion || fn.recover != nil || fn.results.Len() == 0 {
		return false
	}
	// Topological order; a cycle means a loop.
	state := map[*Block]int{}
	var order []*Block
	var dfs func(b *Block) bool
	dfs = func(b *Block) bool {
		state[b] = 1
		for _, s := range b.succs {
			switch state[s] {
			case 1:
				return false
			case 0:
				if !dfs(s) {
					return false
				}
			}
		}
		state[b] = 2
		order = append(order, b)
		return true
	}
	if !dfs(fn.blocks[0]) {
		return false
	}
	for i := 0; i < fn.results.Len(); i++ {
		switch infoOf(fn.results.At(i).Type()).k {
		case kBool, kInt, kFloat:
		default:
			return false
		}
	}
	for i, j := 0, len(order)-1; i < j; i, j = i+1, j-1 {
		order[i], order[j] = order[j], order[i]
	}
	for _, b := range order {
		for i := range b.ins {
			ins := &b.ins[i]
			switch ins.op {
			case iReturn, iPanic:
				continue
			case iCall:
				f := ins.x.(*Fn)
				f.compile(w.p)
				if f.model != nil {
					f = f.model
					f.compile(w.p)
				}
				if f.intr != nil {
					if !pureIntr[f.name] {
						return false
					}
					continue
				}
				if !w.isPureL(f) {
					return false
				}
			default:
				if !w.pureOp(ins) {
					return false
				}
			}
		}
	}
	fn.topo = order
	return true
}

// summary evaluates a pure function once for all its paths.
func (w *W) summary(fn *Fn, args []V, free []V) (r V, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(specFail); is {
				ok = false
				return
			}
			panic(e)
		}
	}()
	w.spec++
	defer func() { w.spec-- }()
	return w.evalPure(fn, args, free), true
}

func (w *W) evalPure(fn *Fn, args []V, free []V) V {
	fr := w.newFrame(fn)
	copy(fr.regs, args)
	copy(fr.regs[fn.nparams:], free)
	if fn.repo && w.inInit == 0 {
		w.called[fn] = true
	}
	cond := make(map[*Block]*Expr, len(fn.topo))
	edge := make(map[[2]int]*Expr)
	cond[fn.topo[0]] = exTrue
	var rets []V
	var rconds []*Expr
	for _, b := range fn.topo {
		c := cond[b]
		if c == nil || c == exFalse {
			continue
		}
		w.evalPhis(fr, b, edge, nil)
		for i := range b.ins {
			ins := &b.ins[i]
			switch ins.op {
			case iReturn:
				t := make(Tuple, len(ins.args))
				for k, a := range ins.args {
					t[k] = w.get(fr, a)
				}
				rets = append(rets, V{p: t})
				rconds = append(rconds, c)
			case iPanic:
				panic(specFail{})
			case iJump:
				w.flow(b, 0, c, cond, edge)
			case iIf:
				cv := w.get(fr, ins.a)
				e := toE(cv, 0)
				w.flow(b, 0, mkAnd(c, e), cond, edge)
				w.flow(b, 1, mkAnd(c, mkNot(e)), cond, edge)
			default:
				w.specIns(fr, ins)
			}
		}
	}
	w.freeFrame(fr)
	if len(rets) == 0 {
		panic(specFail{})
	}
	n := fn.results.Len()
	out := make(Tuple, n)
	for k := 0; k < n; k++ {
		wd := infoOf(fn.results.At(k).Type()).w
		r := toE(rets[len(rets)-1].p.(Tuple)[k], wd)
		for i := len(rets) - 2; i >= 0; i-- {
			r = mkIte(rconds[i], toE(rets[i].p.(Tuple)[k], wd), r)
		}
		out[k] = fromE(r)
	}
	if n == 1 {
		return out[0]
	}
	return V{p: out}
}

func (w *W) flow(b *Block, si int, c *Expr, cond map[*Block]*Expr, edge map[[2]int]*Expr) {
	to := b.succs[si]
	edge[[2]int{to.idx, b.pidx[si]}] = c
	if o := cond[to]; o != nil {
		cond[to] = mkOr(o, c)
	} else {
		cond[to] = c
	}
}

// evalPhis merges a block's phis over its live incoming edges.
func (w *W) evalPhis(fr *Frame, b *Block, edge map[[2]int]*Expr, only map[int]bool) {
	if len(b.phis) == 0 {
		return
	}
	tmp := make([]V, len(b.phis))
	for i := range b.phis {
		ph := &b.phis[i]
		var have bool
		var r V
		for k, o := range ph.edges {
			c := edge[[2]int{b.idx, k}]
			if c == nil || c == exFalse {
				continue
			}
			v := w.get(fr, o)
			if !have {
				r, have = v, true
				continue
			}
			m, ok := w.mergeV(ph.ti, c, v, r)
			if !ok {
				panic(specFail{})
			}
			r = m
		}
		tmp[i] = r
	}
	for i := range b.phis {
		fr.regs[b.phis[i].dst] = tmp[i]
	}
}

func sameV(a, b V) bool {
	if a.p == nil && b.p == nil {
		return a.n == b.n
	}
	switch x := a.p.(type) {
	case *Expr:
		if y, ok := b.p.(*Expr); ok {
			return same(x, y)
		}
		return false
	case *Str:
		y, ok := b.p.(*Str)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		return x.conc() && y.conc() && x.s == y.s
	case Tuple:
		return false
	}
	switch b.p.(type) {
	case Tuple:
		return false
	}
	return a.n == b.n && a.p == b.p
}

// mergeV merges two values under a condition if the type allows it.
func (w *W) mergeV(ti tinfo, c *Expr, x, y V) (V, bool) {
	if sameV(x, y) {
		return x, true
	}
	if ti.k == kBool || (ti.k == kInt && ti.w <= 32) || (ti.k == kFloat && !ti.f32) {
		return fromE(mkIte(c, toE(x, ti.w), toE(y, ti.w))), true
	}
	return V{}, false
}

func (w *W) specIns(fr *Frame, ins *Ins) {
	switch ins.op {
	case iCall:
		fn := w.ready(ins.x.(*Fn))
		args := w.args(fr, ins.args, nil)
		var r V
		if fn.intr != nil {
			r = fn.intr(w, args)
		} else {
			r = w.evalPure(fn, args, nil)
		}
		if ins.dst >= 0 {
			fr.regs[ins.dst] = r
		}
	case iBuiltin:
		r := w.builtin(fr, ins.x.(string), w.args(fr, ins.args, nil), ins)
		if ins.dst >= 0 {
			fr.regs[ins.dst] = r
		}
	default:
		r := w.pureIns(fr, ins)
		if ins.dst >= 0 {
			fr.regs[ins.dst] = r
		}
	}
}

type exit struct {
	from *Block
	si   int
	c    *Expr
}

type exitGroup struct {
	to   *Block
	c    *Expr
	phis []V
	n    int
	from *Block
	si   int
}

// symIf executes a branch on a symbolic condition.
func (w *W) symIf(fr *Frame, cond *Expr) {
	if d, ok := w.pc.decided(cond); ok {
		if d {
			w.jump(fr, 0)
		} else {
			w.jump(fr, 1)
		}
		return
	}
	b := fr.blk
	reg := w.regionOf(b)
	if len(reg.blocks) > 0 {
		if w.runRegion(fr, b, reg, cond) {
			return
		}
	}
	if w.branch(cond) {
		w.jump(fr, 0)
	} else {
		w.jump(fr, 1)
	}
}

func (w *W) runRegion(fr *Frame, b *Block, reg *Region, c0 *Expr) bool {
	groups, ok := w.specRegion(fr, b, reg, c0)
	if !ok {
		return false
	}
	i := 0
	if len(groups) > 1 {
		conds := make([]*Expr, len(groups))
		for k := range groups {
			conds[k] = groups[k].c
		}
		i = w.decide(conds)
	}
	g := groups[i]
	for k := range g.to.phis {
		fr.regs[g.to.phis[k].dst] = g.phis[k]
	}
	fr.blk = g.to
	fr.pc = 0
	g.to.cover()
	return true
}

func (w *W) specRegion(fr *Frame, b *Block, reg *Region, c0 *Expr) (groups []*exitGroup, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(specFail); is {
				groups, ok = nil, false
				return
			}
			panic(e)
		}
	}()
	w.spec++
	defer func() { w.spec-- }()
	cond := make(map[*Block]*Expr, len(reg.blocks)+1)
	edge := make(map[[2]int]*Expr)
	var exits []exit
	out := func(x *Block, si int, c *Expr) {
		if c == exFalse {
			return
		}
		to := x.succs[si]
		if reg.in[to] {
			w.flow(x, si, c, cond, edge)
			return
		}
		exits = append(exits, exit{x, si, c})
	}
	out(b, 0, c0)
	out(b, 1, mkNot(c0))
	for _, x := range reg.blocks {
		c := cond[x]
		if c == nil || c == exFalse {
			continue
		}
		x.cover()
		w.evalPhis(fr, x, edge, nil)
		for i := range x.ins {
			ins := &x.ins[i]
			switch ins.op {
			case iJump:
				out(x, 0, c)
			case iIf:
				e := toE(w.get(fr, ins.a), 0)
				out(x, 0, mkAnd(c, e))
				out(x, 1, mkAnd(c, mkNot(e)))
			default:
				w.specIns(fr, ins)
			}
		}
	}
next:
	for _, ex := range exits {
		to := ex.from.succs[ex.si]
		pi := ex.from.pidx[ex.si]
		vals := make([]V, len(to.phis))
		for i := range to.phis {
			vals[i] = w.get(fr, to.phis[i].edges[pi])
		}
		for _, g := range groups {
			if g.to != to {
				continue
			}
			merged := make([]V, len(vals))
			okm := true
			for i := range vals {
				m, o := w.mergeV(to.phis[i].ti, ex.c, vals[i], g.phis[i])
				if !o {
					okm = false
					break
				}
				merged[i] = m
			}
			if okm {
				g.phis = merged
				g.c = mkOr(g.c, ex.c)
				continue next
			}
		}
		groups = append(groups, &exitGroup{to: to, c: ex.c, phis: vals})
	}
	return groups, len(groups) > 0
}
