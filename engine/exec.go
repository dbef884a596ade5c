package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/rand"
	"time"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// ---- path ends ----

type endKind int

const (
	endDone endKind = iota
	endInfeasible
	endViolation
	endPanic
	endHang
	endUnsupported
	endDeadline
	endExit
)

func (k endKind) String() string {
	return [...]string{"done", "infeasible", "violation", "panic", "hang", "unsupported", "deadline", "exit"}[k]
}

type pathEnd struct {
	kind endKind
	msg  string
}

type goPanicSig struct{ v V }

type goPanicVal struct {
	v     V
	trace string
}

type dec struct {
	c int32
	v uint64
}

// Node is a chunk of decisions; pending paths share prefixes through parents.
type Node struct {
	parent *Node
	ents   []dec
}

type Frame struct {
	fn        *Fn
	regs      []V
	blk       *Block
	pc        int
	defers    []deferRec
	panicking *goPanicVal
	recovered bool
	deferOf   *Frame
	retDst    int32
	inDefers  bool // RunDefers or unwinding is executing a deferred call
	result    V
}

type deferRec struct {
	fn   *Fn
	bltn string
	args []V
	free []V
	t    types.Type
}

type Gor struct {
	id       int
	stack    []*Frame
	done     bool
	ready    func() bool // nil when runnable
	why      string
	vc       vclock
	syncOK   bool // the pending sync operation was already offered to the scheduler
	panicVal *goPanicVal
	offer    *offer
	waitsFor []*ChanObj
}

type jent struct {
	c   *V
	old V
}

type W struct {
	id  int
	p   *Prog
	run *HRun
	sol *Solver
	rng *rand.Rand

	globals []*V
	b64rec  map[string][]V
	ginit   map[*ssa.Package]int8
	free    map[*Fn][]*Frame
	called  map[*Fn]bool

	// path state
	base     *Node
	prefix   []dec
	log      []dec
	logBase  int // entries of log already stored in base
	pc       *PC
	gs       []*Gor
	cur      *Gor
	journal  []jent
	undo     []func()
	journOn  bool
	steps    int64
	limit    int64
	epoch    uint64
	names    map[string]int
	inputs   []inputRec
	emits    []V
	multi    bool
	preempts int
	syncSt   map[*V]*syncState
	accs     map[*V]*access
	blockOn  func() bool
	blockWhy string
	incompl  map[string]int
	reached  map[string]bool
	spec     int // speculative (region) evaluation depth
	deadline time.Time
	viol     []*candidate
	chanSeq  int
	schedOn  bool
	raceOn   bool
	inInit   int
	native   map[string]any
	callDst  int32
}

type inputRec struct {
	name string
	kind string
	e    *Expr
	n    uint64
}

func (w *W) end(k endKind, f string, a ...any) {
	panic(pathEnd{k, fmt.Sprintf(f, a...)})
}

func (w *W) unsupported(f string, a ...any) {
	panic(pathEnd{endUnsupported, fmt.Sprintf(f, a...) + " at " + w.where()})
}

func (w *W) where() string {
	if w.cur == nil || len(w.cur.stack) == 0 {
		return "?"
	}
	s := ""
	for i := len(w.cur.stack) - 1; i >= 0 && i >= len(w.cur.stack)-6; i-- {
		fr := w.cur.stack[i]
		pos := ""
		if fr.blk != nil && fr.pc < len(fr.blk.ins) {
			p := w.p.prog.Fset.Position(fr.blk.ins[fr.pc].pos)
			pos = fmt.Sprintf("(%s:%d)", shortFile(p.Filename), p.Line)
		}
		s += fr.fn.name + pos + " < "
	}
	return s
}

func shortFile(f string) string {
	n := 0
	for i := len(f) - 1; i >= 0; i-- {
		if f[i] == '/' {
			n++
			if n == 2 {
				return f[i+1:]
			}
		}
	}
	return f
}

type specFail struct{}

func (w *W) goPanicMsg(msg string) {
	if w.spec > 0 {
		panic(specFail{})
	}
	rt := w.p.runtimeErr()
	a := &Agg{f: []V{mkStr(msg)}}
	panic(goPanicSig{V{p: &Iface{t: rt, v: V{p: a}}}})
}

func (p *Prog) runtimeErr() *RType {
	return rtypeOf(p.pkgs[zzPath].Type("RuntimeError").Type())
}

// ---- operands ----

func (w *W) get(fr *Frame, o int32) V {
	if o >= 0 {
		if o < gBase {
			return fr.regs[o]
		}
		return V{p: w.globalPtr(int(o - gBase))}
	}
	return fr.fn.consts[^o]
}

func (w *W) globalPtr(i int) *V {
	if i < len(w.globals) {
		if g := w.globals[i]; g != nil {
			return g
		}
	}
	for len(w.globals) <= i {
		w.globals = append(w.globals, nil)
	}
	g := w.p.globalAt(i)
	c := new(V)
	*c = zeroV(g.Type().Underlying().(*types.Pointer).Elem())
	w.globals[i] = c
	w.initPkg(g.Pkg)
	return c
}

// initPkg runs a package's variable initialisers concretely, outside any path.
func (w *W) initPkg(sp *ssa.Package) {
	if w.ginit[sp] != 0 {
		return
	}
	w.ginit[sp] = 1
	initFn := sp.Func("init")
	if initFn == nil {
		return
	}
	saved := *w
	w.journOn = false
	w.multi = false
	w.raceOn = false
	w.schedOn = false
	w.inInit++
	w.epoch = 0 // what is made here outlives the path
	w.spec = 0
	w.limit = 1 << 40
	skipped := 0
	g := &Gor{id: -1}
	w.gs = []*Gor{g}
	w.cur = g
	w.pushCall(w.p.fnOf(initFn), nil, nil, -1)
	// An initialiser that cannot be interpreted leaves its variable zero; the
	// remaining ones still run.
	step := func() (again bool) {
		defer func() {
			if r := recover(); r != nil {
				msg := ""
				switch r := r.(type) {
				case pathEnd:
					msg = r.msg
				case goPanicSig:
					msg = "panic"
				default:
					panic(r)
				}
				if len(g.stack) == 0 {
					return
				}
				if w.run != nil && sp.Pkg.Path() == w.p.module {
					w.run.note("init of %s: %s", sp.Pkg.Path(), msg)
				}
				skipped++
				direct := len(g.stack) == 1
				fr := g.stack[0]
				g.stack = g.stack[:1]
				g.panicVal = nil
				w.cur = g
				w.gs = []*Gor{g}
				fr.defers = nil
				fr.panicking = nil
				if direct {
					if fr.pc < len(fr.blk.ins) {
						if d := fr.blk.ins[fr.pc].dst; d >= 0 {
							fr.regs[d] = V{}
						}
					}
					fr.pc++
				} else if fr.pc > 0 && fr.pc <= len(fr.blk.ins) {
					if d := fr.blk.ins[fr.pc-1].dst; d >= 0 {
						fr.regs[d] = V{}
					}
				}
				again = fr.pc < len(fr.blk.ins)
			}
		}()
		w.loop()
		return false
	}
	for step() {
	}
	ok := skipped == 0
	gl, gi, fr, cl := w.globals, w.ginit, w.free, w.called
	steps := w.steps
	*w = saved
	w.globals, w.ginit, w.free, w.called = gl, gi, fr, cl
	_ = steps
	if ok {
		w.ginit[sp] = 2
	} else {
		w.ginit[sp] = 3
	}
}

// ---- memory ----

func (w *W) load(c *V, t types.Type) V {
	v := *c
	if w.raceOn && w.multi {
		w.raceRead(c)
	}
	switch x := v.p.(type) {
	case *Agg:
		return cloneV(v)
	case nil:
		if t != nil {
			switch t.Underlying().(type) {
			case *types.Struct, *types.Array:
				return zeroV(t)
			}
		}
	case *symCell:
		return w.unsymCell(x)
	}
	return v
}

type symCell struct{}

func (w *W) unsymCell(*symCell) V { return V{} }

func (w *W) store(c *V, v V) {
	if w.raceOn && w.multi {
		w.raceWrite(c)
	}
	if a, ok := v.p.(*Agg); ok {
		if old, ok := c.p.(*Agg); ok && len(old.f) == len(a.f) {
			for i := range a.f {
				w.store(&old.f[i], a.f[i])
			}
			return
		}
		v = cloneV(v)
	}
	if w.journOn {
		w.journal = append(w.journal, jent{c, *c})
	}
	*c = v
}

// SymPtr is the address of an array element chosen by a symbolic index.
type SymPtr struct {
	cells []V
	idx   *Expr
}

func (w *W) ptr(v V) *V {
	switch x := v.p.(type) {
	case *V:
		return x
	case nil:
		w.goPanicMsg("runtime error: invalid memory address or nil pointer dereference")
	case *SymPtr:
		if w.spec > 0 {
			panic(specFail{})
		}
		i := w.concretize(x.idx)
		return &x.cells[i]
	}
	w.unsupported("pointer representation %T", v.p)
	return nil
}

// pick builds the ITE selecting cells[idx] for scalar cells.
func (w *W) pick(cells []V, idx *Expr, width uint8) (V, bool) {
	if len(cells) > 512 {
		return V{}, false
	}
	var r *Expr
	for i := len(cells) - 1; i >= 0; i-- {
		switch cells[i].p.(type) {
		case nil, *Expr:
		default:
			return V{}, false
		}
		e := toE(cells[i], width)
		if r == nil {
			r = e
		} else {
			r = mkIte(mkEq(idx, mkConst(idx.w, uint64(i))), e, r)
		}
	}
	if r == nil {
		return V{}, false
	}
	return fromE(r), true
}

// ---- calls ----

func (w *W) newFrame(fn *Fn) *Frame {
	if l := w.free[fn]; len(l) > 0 {
		fr := l[len(l)-1]
		w.free[fn] = l[:len(l)-1]
		return fr
	}
	return &Frame{fn: fn, regs: make([]V, fn.nregs)}
}

func (w *W) freeFrame(fr *Frame) {
	regs := fr.regs
	defs := fr.defers[:0]
	*fr = Frame{fn: fr.fn, regs: regs, defers: defs}
	if l := w.free[fr.fn]; len(l) < 64 {
		w.free[fr.fn] = append(l, fr)
	}
}

const maxStack = 2000

// pushCall pushes a frame for an interpreted function.
func (w *W) pushCall(fn *Fn, args []V, free []V, dst int32) *Frame {
	fn.compile(w.p)
	if fn.model != nil {
		fn = fn.model
		fn.compile(w.p)
	}
	if len(fn.blocks) == 0 {
		w.unsupported("call of %s without a body", fn.name)
	}
	if len(w.cur.stack) > maxStack {
		w.end(endHang, "call depth over %d in %s", maxStack, fn.name)
	}
	fr := w.newFrame(fn)
	copy(fr.regs, args)
	copy(fr.regs[fn.nparams:], free)
	fr.blk = fn.blocks[0]
	fr.pc = 0
	fr.retDst = dst
	w.cur.stack = append(w.cur.stack, fr)
	if fn.repo && w.inInit == 0 {
		w.called[fn] = true
		fr.blk.cover()
	}
	return fr
}

// resolve readies a callee and reports whether it is native.
func (w *W) ready(fn *Fn) *Fn {
	fn.compile(w.p)
	if fn.model != nil {
		fn = fn.model
		fn.compile(w.p)
	}
	return fn
}

func isSym(args []V) bool {
	for i := range args {
		switch x := args[i].p.(type) {
		case *Expr:
			return true
		case *Str:
			if x.sym != nil {
				return true
			}
		}
	}
	return false
}

// doCall performs a call from the current frame. It returns true when the
// instruction completed (the caller advances), false if a frame was pushed or
// the goroutine blocked.
func (w *W) doCall(fr *Frame, fn *Fn, args []V, free []V, dst int32) {
	fn = w.ready(fn)
	if fn.intr != nil {
		if w.schedOn && w.multi && syncPoints[fn.name] && !w.cur.syncOK {
			if w.offerSwitch() {
				return
			}
		}
		w.cur.syncOK = false
		w.callDst = dst
		r := fn.intr(w, args)
		if w.blockOn != nil {
			w.cur.ready = w.blockOn
			w.cur.why = w.blockWhy
			w.cur.syncOK = true
			w.blockOn = nil
			w.yieldBlocked()
			return
		}
		if dst >= 0 {
			fr.regs[dst] = r
		}
		fr.pc++
		return
	}
	if fn.ext {
		w.unsupported("call of external %s", fn.name)
	}
	if isSym(args) && w.isPure(fn) {
		if r, ok := w.summary(fn, args, free); ok {
			if fn.repo && w.inInit == 0 {
				w.called[fn] = true
			}
			if dst >= 0 {
				fr.regs[dst] = r
			}
			fr.pc++
			return
		}
	}
	fr.pc++
	w.pushCall(fn, args, free, dst)
}

func (w *W) args(fr *Frame, as []int32, buf []V) []V {
	for _, a := range as {
		buf = append(buf, w.get(fr, a))
	}
	return buf
}

// callee resolves a call-like instruction to a function and its arguments.
func (w *W) callee(fr *Frame, ins *Ins, buf []V) (*Fn, []V, []V) {
	switch ins.op {
	case iCall:
		return ins.x.(*Fn), w.args(fr, ins.args, buf), nil
	case iInvoke:
		rv := w.get(fr, ins.a)
		if rv.p == nil {
			w.goPanicMsg("runtime error: invalid memory address or nil pointer dereference")
		}
		it := rv.p.(*Iface)
		m := w.p.method(it.t, ins.x.(*types.Func))
		if m == nil {
			w.unsupported("no method %s on %s", ins.x.(*types.Func).Name(), it.t.t)
		}
		buf = append(buf, it.v)
		return m, w.args(fr, ins.args, buf), nil
	case iCallDyn:
		fv := w.get(fr, ins.a)
		if fv.p == nil {
			w.goPanicMsg("runtime error: invalid memory address or nil pointer dereference")
		}
		cl := fv.p.(*Closure)
		return cl.fn, w.args(fr, ins.args, buf), cl.free
	}
	w.unsupported("callee op %d", ins.op)
	return nil, nil, nil
}

// ---- main loop ----

// loop runs goroutines until all of the path's work is done.
func (w *W) loop() {
	for {
		sig := w.inner()
		if sig == nil {
			return
		}
		w.unwind(sig.v)
	}
}

func (w *W) inner() (sig *goPanicSig) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(goPanicSig); ok {
				sig = &s
				return
			}
			panic(r)
		}
	}()
	for {
		g := w.cur
		if len(g.stack) == 0 {
			if !w.goroutineDone() {
				return nil
			}
			continue
		}
		fr := g.stack[len(g.stack)-1]
		w.steps++
		if w.steps > w.limit {
			w.end(endHang, "step limit %d in %s", w.limit, w.where())
		}
		if w.steps&0x3fff == 0 && !w.deadline.IsZero() && time.Now().After(w.deadline) {
			w.end(endDeadline, "time budget")
		}
		w.step(fr)
	}
}

func (w *W) jump(fr *Frame, si int) {
	b := fr.blk
	to := b.succs[si]
	if len(to.phis) > 0 {
		pi := b.pidx[si]
		if len(to.phis) == 1 {
			ph := &to.phis[0]
			fr.regs[ph.dst] = w.get(fr, ph.edges[pi])
		} else {
			var buf [16]V
			tmp := buf[:0]
			for i := range to.phis {
				tmp = append(tmp, w.get(fr, to.phis[i].edges[pi]))
			}
			for i := range to.phis {
				fr.regs[to.phis[i].dst] = tmp[i]
			}
		}
	}
	fr.blk = to
	fr.pc = 0
	to.cover()
}

func (w *W) step(fr *Frame) {
	ins := &fr.blk.ins[fr.pc]
	switch ins.op {
	case iJump:
		w.jump(fr, 0)
		return
	case iIf:
		c := w.get(fr, ins.a)
		if c.p == nil {
			if c.n != 0 {
				w.jump(fr, 0)
			} else {
				w.jump(fr, 1)
			}
			return
		}
		w.symIf(fr, c.p.(*Expr))
		return
	case iReturn:
		w.doReturn(fr, ins)
		return
	case iCall:
		var buf [8]V
		w.doCall(fr, ins.x.(*Fn), w.args(fr, ins.args, buf[:0]), nil, ins.dst)
		return
	case iInvoke, iCallDyn:
		var buf [8]V
		fn, args, free := w.callee(fr, ins, buf[:0])
		if fn == nil {
			cl := w.get(fr, ins.a).p.(*Closure)
			w.unsupported("dynamic builtin %s", cl.bltn)
		}
		w.doCall(fr, fn, args, free, ins.dst)
		return
	case iDefer:
		sub := ins.x.(*Ins)
		d := deferRec{}
		if sub.op == iBuiltin {
			d.bltn = sub.x.(string)
			d.args = w.args(fr, sub.args, nil)
			d.t = sub.t
		} else {
			d.fn, d.args, d.free = w.callee(fr, sub, nil)
		}
		fr.defers = append(fr.defers, d)
	case iGo:
		sub := ins.x.(*Ins)
		if w.schedOn && w.multi && !w.cur.syncOK {
			if w.offerSwitch() {
				return
			}
		}
		w.cur.syncOK = false
		fn, args, free := w.callee(fr, sub, nil)
		w.spawn(fn, args, free)
	case iRunDefers:
		if len(fr.defers) > 0 {
			w.runDefer(fr)
			return
		}
		fr.inDefers = false
	case iPanic:
		v := w.get(fr, ins.a)
		if v.p == nil {
			w.goPanicMsg("panic called with nil argument (use GODEBUG=panicnil=1 to disable)")
		}
		panic(goPanicSig{v})
	case iSend, iSelect:
		if !w.chanOp(fr, ins) {
			return
		}
	case iUnOp:
		if ins.tok == token.ARROW {
			if !w.chanOp(fr, ins) {
				return
			}
			break
		}
		fr.regs[ins.dst] = w.pureIns(fr, ins)
	case iBuiltin:
		r := w.builtin(fr, ins.x.(string), w.args(fr, ins.args, nil), ins)
		if ins.dst >= 0 {
			fr.regs[ins.dst] = r
		}
	default:
		r := w.anyIns(fr, ins)
		if ins.dst >= 0 {
			fr.regs[ins.dst] = r
		}
	}
	fr.pc++
}

func (w *W) doReturn(fr *Frame, ins *Ins) {
	var r V
	switch len(ins.args) {
	case 0:
	case 1:
		r = w.get(fr, ins.args[0])
	default:
		t := make(Tuple, len(ins.args))
		for i, a := range ins.args {
			t[i] = w.get(fr, a)
		}
		r = V{p: t}
	}
	w.popReturn(fr, r)
}

// popReturn removes the top frame and hands its result to the caller.
func (w *W) popReturn(fr *Frame, r V) {
	g := w.cur
	g.stack = g.stack[:len(g.stack)-1]
	if d := fr.deferOf; d != nil {
		w.freeFrame(fr)
		if d.panicking != nil {
			w.continueUnwind(d)
		}
		// otherwise RunDefers executes again and takes the next one
		return
	}
	dst := fr.retDst
	w.freeFrame(fr)
	if len(g.stack) > 0 && dst >= 0 {
		g.stack[len(g.stack)-1].regs[dst] = r
	}
}

// runDefer starts the last deferred call of fr. With an intrinsic or builtin
// it completes immediately.
func (w *W) runDefer(fr *Frame) {
	d := fr.defers[len(fr.defers)-1]
	if d.fn != nil {
		fn := w.ready(d.fn)
		if fn.intr != nil {
			if w.schedOn && w.multi && syncPoints[fn.name] && !w.cur.syncOK && fr.panicking == nil {
				if w.offerSwitch() {
					return
				}
			}
			w.cur.syncOK = false
			w.callDst = -1
			fn.intr(w, d.args)
			if w.blockOn != nil {
				w.unsupported("blocking deferred call %s", fn.name)
			}
			fr.defers = fr.defers[:len(fr.defers)-1]
			return
		}
		fr.defers = fr.defers[:len(fr.defers)-1]
		nf := w.pushCall(fn, d.args, d.free, -1)
		nf.deferOf = fr
		return
	}
	fr.defers = fr.defers[:len(fr.defers)-1]
	w.builtin(fr, d.bltn, d.args, &Ins{t: d.t, dst: -1})
}

// unwind handles a panic raised in the top frame.
func (w *W) unwind(v V) {
	g := w.cur
	pv := &goPanicVal{v: v, trace: w.where()}
	if len(g.stack) == 0 {
		w.end(endPanic, "panic outside any frame")
	}
	fr := g.stack[len(g.stack)-1]
	fr.panicking = pv
	fr.recovered = false
	w.continueUnwind(fr)
}

// continueUnwind runs remaining defers of a panicking frame and then either
// returns normally (recovered) or propagates.
func (w *W) continueUnwind(fr *Frame) {
	g := w.cur
	for {
		if fr.recovered {
			// Remaining defers run as on a normal return.
			if len(fr.defers) > 0 {
				n := len(g.stack)
				fr.panicking = recoveredMark
				w.runDefer(fr)
				if len(g.stack) > n {
					return
				}
				continue
			}
			fr.panicking = nil
			fr.recovered = false
			if fr.fn.recover != nil {
				fr.blk = fr.fn.recover
				fr.pc = 0
				return
			}
			var r V
			if fr.fn.results.Len() == 1 {
				r = zeroV(fr.fn.results.At(0).Type())
			} else if fr.fn.results.Len() > 1 {
				r = zeroV(fr.fn.results)
			}
			w.popReturn(fr, r)
			return
		}
		if len(fr.defers) > 0 {
			n := len(g.stack)
			w.runDefer(fr)
			if len(g.stack) > n {
				return
			}
			continue
		}
		// propagate
		pv := fr.panicking
		g.stack = g.stack[:len(g.stack)-1]
		parent := fr.deferOf
		w.freeFrame(fr)
		if parent == nil && len(g.stack) > 0 {
			parent = g.stack[len(g.stack)-1]
		}
		if parent == nil {
			w.end(endPanic, "%s [%s]", w.panicText(pv.v), pv.trace)
		}
		fr = parent
		fr.panicking = pv
		fr.recovered = false
	}
}

var recoveredMark = &goPanicVal{}

func (w *W) panicText(v V) string {
	it, ok := v.p.(*Iface)
	if !ok {
		return "nil"
	}
	if s, ok := it.v.p.(*Str); ok {
		return it.t.t.String() + ": " + s.s
	}
	if a, ok := it.v.p.(*Agg); ok && len(a.f) > 0 {
		if s, ok := a.f[0].p.(*Str); ok {
			return it.t.t.String() + ": " + s.s
		}
	}
	return it.t.t.String()
}

func (w *W) doRecover() V {
	// recover is effective only when called directly by the deferred function.
	g := w.cur
	fr := g.stack[len(g.stack)-1]
	d := fr.deferOf
	if d == nil || d.panicking == nil || d.recovered || d.panicking == recoveredMark {
		return V{}
	}
	d.recovered = true
	return d.panicking.v
}

// ---- instructions ----

func (w *W) anyIns(fr *Frame, ins *Ins) V {
	switch ins.op {
	case iAlloc:
		c := new(V)
		if ins.ti.k == kStruct || ins.ti.k == kArray {
			*c = zeroV(ins.t)
		}
		return V{p: c}
	case iStore:
		w.store(w.ptr(w.get(fr, ins.a)), w.get(fr, ins.b))
		return V{}
	case iMakeClosure:
		cl := &Closure{fn: ins.x.(*Fn)}
		if len(ins.args) > 0 {
			cl.free = w.args(fr, ins.args, make([]V, 0, len(ins.args)))
		}
		return V{p: cl}
	case iMakeMap:
		return V{p: &MapObj{idx: map[any]int{}, born: w.epoch}}
	case iMakeSlice:
		n := w.concInt(w.get(fr, ins.a))
		c := w.concInt(w.get(fr, ins.b))
		if n < 0 || n > 1<<24 || c < n {
			w.goPanicMsg("runtime error: makeslice: len out of range")
		}
		a := make([]V, n, c)
		switch ins.t.Underlying().(type) {
		case *types.Struct, *types.Array:
			for i := range a {
				a[i] = zeroV(ins.t)
			}
		}
		return V{p: &Slice{a}}
	case iMakeChan:
		w.chanSeq++
		return V{p: &ChanObj{cap: w.concInt(w.get(fr, ins.a)), id: w.chanSeq}}
	case iMapUpdate:
		mv := w.get(fr, ins.a)
		if mv.p == nil {
			panic(goPanicSig{V{p: &Iface{t: w.p.runtimeErr(), v: V{p: &Agg{f: []V{mkStr("assignment to entry in nil map")}}}}}})
		}
		w.mapSet(mv.p.(*MapObj), w.get(fr, ins.b), w.get(fr, ins.c), ins.ti)
		return V{}
	case iRange:
		v := w.get(fr, ins.a)
		if ins.ti.k == kString {
			return V{p: &Iter{isStr: true, str: vstr(v)}}
		}
		it := &Iter{}
		if v.p != nil {
			it.m = v.p.(*MapObj)
			it.order = w.mapOrder(it.m)
		}
		return V{p: it}
	case iNext:
		return w.next(w.get(fr, ins.a).p.(*Iter), ins.t)
	case iMakeIface:
		return V{p: &Iface{t: ins.x.(*RType), v: w.get(fr, ins.a)}}
	case iTypeAssert:
		return w.typeAssert(w.get(fr, ins.a), ins)
	case iLookup:
		if ins.n == 1 {
			return w.mapLookup(w.get(fr, ins.a), w.get(fr, ins.b), ins)
		}
	case iUnsupported, iSliceToArr:
		w.unsupported("instruction %v", ins.x)
	}
	return w.pureIns(fr, ins)
}

func (w *W) typeAssert(v V, ins *Ins) V {
	var ok bool
	var r V
	it, isI := v.p.(*Iface)
	if isI {
		switch x := ins.x.(type) {
		case *types.Interface:
			ok = it.t.implements(x)
			r = v
		case *RType:
			ok = it.t == x
			r = it.v
		}
	}
	if ins.flag {
		if !ok {
			r = zeroV(ins.t)
		}
		return V{p: Tuple{r, fromB(ok)}}
	}
	if !ok {
		from := "nil"
		if isI {
			from = it.t.t.String()
		}
		w.goPanicMsg("interface conversion: interface is " + from + ", not " + ins.t.String())
	}
	return r
}

// pureIns evaluates instructions without side effects. In speculative mode it
// raises specFail instead of panicking or forking.
func (w *W) pureIns(fr *Frame, ins *Ins) V {
	switch ins.op {
	case iBinOp:
		return w.binop(ins, w.get(fr, ins.a), w.get(fr, ins.b))
	case iUnOp:
		return w.unop(ins, w.get(fr, ins.a))
	case iLoad:
		pv := w.get(fr, ins.a)
		if sp, ok := pv.p.(*SymPtr); ok {
			if ins.ti.k == kInt || ins.ti.k == kBool {
				if r, ok := w.pick(sp.cells, sp.idx, ins.ti.w); ok {
					return r
				}
			}
		}
		c := w.ptr(pv)
		if c.p == nil && !(w.raceOn && w.multi) && ins.ti.k != kStruct && ins.ti.k != kArray {
			return *c
		}
		return w.load(c, ins.t)
	case iChangeType, iChangeIface:
		return w.get(fr, ins.a)
	case iConvert:
		return w.convert(ins, w.get(fr, ins.a))
	case iExtract:
		return w.get(fr, ins.a).p.(Tuple)[ins.n]
	case iField:
		return w.get(fr, ins.a).p.(*Agg).f[ins.n]
	case iFieldAddr:
		c := w.ptr(w.get(fr, ins.a))
		a, ok := c.p.(*Agg)
		if !ok {
			if c.p != nil {
				w.unsupported("field of %T", c.p)
			}
			z := zeroV(ins.t)
			*c = z
			a = z.p.(*Agg)
		}
		return V{p: &a.f[ins.n]}
	case iIndexAddr:
		return w.indexAddr(fr, ins)
	case iIndex:
		a := w.get(fr, ins.a)
		idx := w.get(fr, ins.b)
		if ins.ti.k == kString {
			return w.strIndex(vstr(a), idx)
		}
		f := a.p.(*Agg).f
		if e, ok := idx.p.(*Expr); ok {
			w.boundsSym(e, len(f))
			if r, ok := w.pick(f, e, ins.ti2.w); ok && ins.ti2.k <= kInt {
				return r
			}
			return f[w.concretize(e)]
		}
		i := int(int64(idx.n))
		if i < 0 || i >= len(f) {
			w.goPanicMsg(fmt.Sprintf("runtime error: index out of range [%d] with length %d", i, len(f)))
		}
		return f[i]
	case iLookup:
		return w.strIndex(vstr(w.get(fr, ins.a)), w.get(fr, ins.b))
	case iSlice:
		return w.sliceOp(fr, ins)
	case iMakeIface:
		return V{p: &Iface{t: ins.x.(*RType), v: w.get(fr, ins.a)}}
	}
	w.unsupported("op %d", ins.op)
	return V{}
}

func (w *W) boundsSym(e *Expr, n int) {
	if w.spec > 0 {
		panic(specFail{})
	}
	if e.w < 64 && uint64(n)>>e.w != 0 {
		return // every value of the narrow type is within bounds
	}
	if !w.branch(mkCmp(opUlt, e, mkConst(e.w, uint64(n)))) {
		w.goPanicMsg(fmt.Sprintf("runtime error: index out of range with length %d", n))
	}
}

func (w *W) strIndex(s *Str, idx V) V {
	if s.opq != nil {
		s = w.materialize(s)
	}
	if e, ok := idx.p.(*Expr); ok {
		w.boundsSym(e, len(s.s))
		r, ok := w.pick(bytesFromStr(s), e, 8)
		if !ok {
			w.unsupported("symbolic string index")
		}
		return r
	}
	i := int(int64(idx.n))
	if i < 0 || i >= len(s.s) {
		w.goPanicMsg(fmt.Sprintf("runtime error: index out of range [%d] with length %d", i, len(s.s)))
	}
	return s.at(i)
}

func (w *W) indexAddr(fr *Frame, ins *Ins) V {
	base := w.get(fr, ins.a)
	var cells []V
	if ins.ti.k == kSlice {
		if base.p != nil {
			cells = base.p.(*Slice).a
		}
	} else {
		c := w.ptr(base)
		if c.p == nil {
			*c = zeroV(ins.t)
		}
		cells = c.p.(*Agg).f
	}
	idx := w.get(fr, ins.b)
	if e, ok := idx.p.(*Expr); ok {
		w.boundsSym(e, len(cells))
		return V{p: &SymPtr{cells, e}}
	}
	i := int(int64(idx.n))
	if i < 0 || i >= len(cells) {
		w.goPanicMsg(fmt.Sprintf("runtime error: index out of range [%d] with length %d", i, len(cells)))
	}
	return V{p: &cells[i]}
}

func (w *W) concInt(v V) int {
	if v.p == nil {
		return int(int64(v.n))
	}
	e := v.p.(*Expr)
	if w.spec > 0 {
		panic(specFail{})
	}
	return int(sext(w.concretize(e), e.w))
}

func (w *W) sliceOp(fr *Frame, ins *Ins) V {
	x := w.get(fr, ins.a)
	bound := func(i, def int) int {
		if ins.args[i] == -1<<30 {
			return def
		}
		return w.concInt(w.get(fr, ins.args[i]))
	}
	switch ins.ti.k {
	case kString:
		s := vstr(x)
		if s.opq != nil {
			s = w.materialize(s)
		}
		lo := bound(0, 0)
		hi := bound(1, len(s.s))
		if hi < 0 || hi > len(s.s) {
			w.goPanicMsg(fmt.Sprintf("runtime error: slice bounds out of range [:%d] with length %d", hi, len(s.s)))
		}
		if lo < 0 || lo > hi {
			w.goPanicMsg(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d]", lo, hi))
		}
		return s.slice(lo, hi)
	case kSlice:
		if x.p == nil {
			lo, hi := bound(0, 0), bound(1, 0)
			if lo != 0 || hi != 0 {
				w.goPanicMsg("runtime error: slice bounds out of range")
			}
			return V{}
		}
		a := x.p.(*Slice).a
		lo := bound(0, 0)
		hi := bound(1, len(a))
		mx := bound(2, cap(a))
		if hi < 0 || hi > cap(a) || mx > cap(a) || mx < hi {
			w.goPanicMsg(fmt.Sprintf("runtime error: slice bounds out of range [:%d] with capacity %d", hi, cap(a)))
		}
		if lo < 0 || lo > hi {
			w.goPanicMsg(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d]", lo, hi))
		}
		return V{p: &Slice{a[lo:hi:mx]}}
	default:
		c := w.ptr(x)
		a := c.p.(*Agg).f
		lo := bound(0, 0)
		hi := bound(1, len(a))
		mx := bound(2, len(a))
		if hi < 0 || hi > len(a) || mx > len(a) || mx < hi || lo < 0 || lo > hi {
			w.goPanicMsg("runtime error: slice bounds out of range")
		}
		return V{p: &Slice{a[lo:hi:mx]}}
	}
}

func (w *W) unop(ins *Ins, x V) V {
	switch ins.tok {
	case token.NOT:
		if e, ok := x.p.(*Expr); ok {
			return fromE(mkNot(e))
		}
		return V{n: x.n ^ 1}
	case token.SUB:
		if ins.ti.k == kFloat {
			if e, ok := x.p.(*Expr); ok {
				return fromE(mkFUn(opFNeg, e, fpW))
			}
			return V{n: math.Float64bits(-math.Float64frombits(x.n))}
		}
		if e, ok := x.p.(*Expr); ok {
			return fromE(mkBin(opSub, mkConst(ins.ti.w, 0), e))
		}
		return V{n: (-x.n) & maskW(ins.ti.w)}
	case token.XOR:
		if e, ok := x.p.(*Expr); ok {
			return fromE(mkBin(opBXor, e, mkConst(ins.ti.w, maskW(ins.ti.w))))
		}
		return V{n: (^x.n) & maskW(ins.ti.w)}
	}
	w.unsupported("unop %v", ins.tok)
	return V{}
}

func (w *W) binop(ins *Ins, x, y V) V {
	ti := ins.ti
	switch ti.k {
	case kInt:
		if x.p == nil && y.p == nil {
			return w.intOp(ins, x.n, y.n)
		}
		return w.intOpSym(ins, x, y)
	case kBool:
		var r *Expr
		if x.p == nil && y.p == nil {
			switch ins.tok {
			case token.EQL:
				return fromB(x.n == y.n)
			case token.NEQ:
				return fromB(x.n != y.n)
			}
		}
		a, b := toE(x, 0), toE(y, 0)
		switch ins.tok {
		case token.EQL:
			r = mkEq(a, b)
		case token.NEQ:
			r = mkNot(mkEq(a, b))
		case token.AND, token.LAND:
			r = mkAnd(a, b)
		case token.OR, token.LOR:
			r = mkOr(a, b)
		default:
			w.unsupported("bool op %v", ins.tok)
		}
		return fromE(r)
	case kFloat:
		return w.floatOp(ins, x, y)
	case kString:
		return w.strOp(ins, vstr(x), vstr(y))
	}
	var r *Expr
	if ti.k == kStruct || ti.k == kArray {
		r = w.eqAgg(ins.t, x, y)
	} else if ti.k == kSlice || ti.k == kFunc || ti.k == kMap {
		r = mkBool(x.p == nil && y.p == nil || x.p == y.p)
	} else if ti.k == kIface {
		r = w.eqIface(x, y)
	} else {
		r = w.eqDyn(x, y)
	}
	if ins.tok == token.NEQ {
		r = mkNot(r)
	}
	return fromE(r)
}

// eqIface compares interface values; one side may be a non-interface operand
// that SSA compares directly.
func (w *W) eqIface(x, y V) *Expr {
	_, xi := x.p.(*Iface)
	_, yi := y.p.(*Iface)
	if !xi || !yi {
		return mkBool(x.p == nil && y.p == nil)
	}
	return w.eqDyn(x, y)
}

func (w *W) intOp(ins *Ins, x, y uint64) V {
	width := ins.ti.w
	m := maskW(width)
	sg := ins.ti.signed
	switch ins.tok {
	case token.ADD:
		return V{n: (x + y) & m}
	case token.SUB:
		return V{n: (x - y) & m}
	case token.MUL:
		return V{n: (x * y) & m}
	case token.QUO, token.REM:
		if y == 0 {
			w.goPanicMsg("runtime error: integer divide by zero")
		}
		op := opUDiv
		switch {
		case ins.tok == token.QUO && sg:
			op = opSDiv
		case ins.tok == token.REM && sg:
			op = opSRem
		case ins.tok == token.REM:
			op = opURem
		}
		r, _ := foldBin(op, width, x, y)
		return V{n: r}
	case token.AND:
		return V{n: x & y}
	case token.OR:
		return V{n: x | y}
	case token.XOR:
		return V{n: x ^ y}
	case token.AND_NOT:
		return V{n: x &^ y}
	case token.SHL, token.SHR:
		if ins.flag && sext(y, uint8(ins.n)) < 0 {
			w.goPanicMsg("runtime error: negative shift amount")
		}
		op := opShl
		if ins.tok == token.SHR {
			op = opLShr
			if sg {
				op = opAShr
			}
		}
		r, _ := foldBin(op, width, x, y)
		return V{n: r}
	case token.EQL:
		return fromB(x == y)
	case token.NEQ:
		return fromB(x != y)
	}
	if sg {
		a, b := sext(x, width), sext(y, width)
		switch ins.tok {
		case token.LSS:
			return fromB(a < b)
		case token.LEQ:
			return fromB(a <= b)
		case token.GTR:
			return fromB(a > b)
		case token.GEQ:
			return fromB(a >= b)
		}
	}
	switch ins.tok {
	case token.LSS:
		return fromB(x < y)
	case token.LEQ:
		return fromB(x <= y)
	case token.GTR:
		return fromB(x > y)
	case token.GEQ:
		return fromB(x >= y)
	}
	w.unsupported("int op %v", ins.tok)
	return V{}
}

func (w *W) intOpSym(ins *Ins, x, y V) V {
	width := ins.ti.w
	sg := ins.ti.signed
	a := toE(x, width)
	if ins.tok == token.SHL || ins.tok == token.SHR {
		yw := uint8(ins.n)
		b := toE(y, yw)
		if ins.flag && !isC(b) {
			if w.spec > 0 {
				panic(specFail{})
			}
			if w.branch(mkCmp(opSlt, b, mkConst(yw, 0))) {
				w.goPanicMsg("runtime error: negative shift amount")
			}
		}
		// Bring the count to the operand's width; counts beyond it saturate.
		if yw > width {
			b = mkIte(mkCmp(opUlt, b, mkConst(yw, uint64(width))), mkTrunc(b, width), mkConst(width, uint64(width)))
		} else {
			b = mkZExt(b, width)
		}
		switch {
		case ins.tok == token.SHL:
			return fromE(mkBin(opShl, a, b))
		case sg:
			return fromE(mkBin(opAShr, a, b))
		}
		return fromE(mkBin(opLShr, a, b))
	}
	b := toE(y, width)
	switch ins.tok {
	case token.ADD:
		return fromE(mkBin(opAdd, a, b))
	case token.SUB:
		return fromE(mkBin(opSub, a, b))
	case token.MUL:
		return fromE(mkBin(opMul, a, b))
	case token.QUO, token.REM:
		if !isC(b) {
			if w.spec > 0 {
				panic(specFail{})
			}
			if w.branch(mkEq(b, mkConst(width, 0))) {
				w.goPanicMsg("runtime error: integer divide by zero")
			}
		} else if b.k == 0 {
			w.goPanicMsg("runtime error: integer divide by zero")
		}
		op := opUDiv
		switch {
		case ins.tok == token.QUO && sg:
			op = opSDiv
		case ins.tok == token.REM && sg:
			op = opSRem
		case ins.tok == token.REM:
			op = opURem
		}
		return fromE(mkBin(op, a, b))
	case token.AND:
		return fromE(mkBin(opBAnd, a, b))
	case token.OR:
		return fromE(mkBin(opBOr, a, b))
	case token.XOR:
		return fromE(mkBin(opBXor, a, b))
	case token.AND_NOT:
		return fromE(mkBin(opBAnd, a, mkBin(opBXor, b, mkConst(width, maskW(width)))))
	case token.EQL:
		return fromE(mkEq(a, b))
	case token.NEQ:
		return fromE(mkNot(mkEq(a, b)))
	}
	lt, le := opUlt, opUle
	if sg {
		lt, le = opSlt, opSle
	}
	switch ins.tok {
	case token.LSS:
		return fromE(mkCmp(lt, a, b))
	case token.LEQ:
		return fromE(mkCmp(le, a, b))
	case token.GTR:
		return fromE(mkCmp(lt, b, a))
	case token.GEQ:
		return fromE(mkCmp(le, b, a))
	}
	w.unsupported("int op %v", ins.tok)
	return V{}
}

func (w *W) floatOp(ins *Ins, x, y V) V {
	a, b := toE(x, fpW), toE(y, fpW)
	var r *Expr
	switch ins.tok {
	case token.ADD:
		r = mkFBin(opFAdd, a, b)
	case token.SUB:
		r = mkFBin(opFSub, a, b)
	case token.MUL:
		r = mkFBin(opFMul, a, b)
	case token.QUO:
		r = mkFBin(opFDiv, a, b)
	case token.EQL:
		r = mkFCmp(opFEq, a, b)
	case token.NEQ:
		r = mkNot(mkFCmp(opFEq, a, b))
	case token.LSS:
		r = mkFCmp(opFLt, a, b)
	case token.LEQ:
		r = mkFCmp(opFLe, a, b)
	case token.GTR:
		r = mkFCmp(opFLt, b, a)
	case token.GEQ:
		r = mkFCmp(opFLe, b, a)
	default:
		w.unsupported("float op %v", ins.tok)
	}
	if ins.ti.f32 && r.w == fpW {
		if !isC(r) {
			w.unsupported("symbolic float32")
		}
		return V{n: math.Float64bits(float64(float32(math.Float64frombits(r.k))))}
	}
	return fromE(r)
}

func (w *W) strOp(ins *Ins, a, b *Str) V {
	switch ins.tok {
	case token.ADD:
		if a.opq != nil && len(b.s) == 0 && b.opq == nil {
			return V{p: a}
		}
		if b.opq != nil && len(a.s) == 0 && a.opq == nil {
			return V{p: b}
		}
		if a.opq != nil {
			a = w.materialize(a)
		}
		if b.opq != nil {
			b = w.materialize(b)
		}
		r := catStr(a, b)
		if len(r.s) > 1<<22 {
			w.end(endHang, "string over %d bytes", 1<<22)
		}
		if len(r.s) == 0 {
			return V{}
		}
		return V{p: r}
	case token.EQL:
		return fromE(w.eqStr(a, b))
	case token.NEQ:
		return fromE(mkNot(w.eqStr(a, b)))
	}
	if a.opq != nil {
		a = w.materialize(a)
	}
	if b.opq != nil {
		b = w.materialize(b)
	}
	if a.sym == nil && b.sym == nil {
		switch ins.tok {
		case token.LSS:
			return fromB(a.s < b.s)
		case token.LEQ:
			return fromB(a.s <= b.s)
		case token.GTR:
			return fromB(a.s > b.s)
		case token.GEQ:
			return fromB(a.s >= b.s)
		}
	}
	switch ins.tok {
	case token.LSS:
		return fromE(ltStr(a, b, 0))
	case token.LEQ:
		return fromE(mkNot(ltStr(b, a, 0)))
	case token.GTR:
		return fromE(ltStr(b, a, 0))
	case token.GEQ:
		return fromE(mkNot(ltStr(a, b, 0)))
	}
	w.unsupported("string op %v", ins.tok)
	return V{}
}

func ltStr(a, b *Str, i int) *Expr {
	if i >= len(b.s) {
		return exFalse
	}
	if i >= len(a.s) {
		return exTrue
	}
	x, y := toE(a.at(i), 8), toE(b.at(i), 8)
	return mkOr(mkCmp(opUlt, x, y), mkAnd(mkEq(x, y), ltStr(a, b, i+1)))
}

func (w *W) convert(ins *Ins, x V) V {
	from, to := ins.ti, ins.ti2
	switch {
	case from.k == kInt && to.k == kInt:
		if x.p == nil {
			if from.signed && to.w > from.w {
				return V{n: uint64(sext(x.n, from.w)) & maskW(to.w)}
			}
			return V{n: x.n & maskW(to.w)}
		}
		e := x.p.(*Expr)
		switch {
		case to.w < from.w:
			return fromE(mkTrunc(e, to.w))
		case to.w > from.w && from.signed:
			return fromE(mkSExt(e, to.w))
		case to.w > from.w:
			return fromE(mkZExt(e, to.w))
		}
		return x
	case from.k == kInt && to.k == kFloat:
		e := toE(x, from.w)
		op := opFFromU
		if from.signed {
			op = opFFromS
		}
		return fromE(mkFUn(op, e, fpW))
	case from.k == kFloat && to.k == kInt:
		e := toE(x, fpW)
		if isC(e) {
			f := math.Float64frombits(e.k)
			if to.signed {
				return V{n: uint64(int64(f)) & maskW(to.w)}
			}
			return V{n: uint64(f) & maskW(to.w)}
		}
		return fromE(mkTrunc(mkFUn(opFToS, e, 64), to.w))
	case from.k == kFloat && to.k == kFloat:
		if to.f32 && x.p == nil {
			return V{n: math.Float64bits(float64(float32(math.Float64frombits(x.n))))}
		}
		return x
	case from.k == kString && to.k == kSlice:
		s := vstr(x)
		if s.opq != nil {
			s = w.materialize(s)
		}
		if ins.n == 8 {
			return V{p: &Slice{bytesFromStr(s)}}
		}
		var out []V
		for i := 0; i < len(s.s); {
			r, n := w.decodeRune(s, i)
			out = append(out, r)
			i += n
		}
		return V{p: &Slice{out}}
	case from.k == kSlice && to.k == kString:
		if x.p == nil {
			return V{}
		}
		a := x.p.(*Slice).a
		if ins.n == 8 {
			return strFromBytes(a)
		}
		var out []V
		for _, r := range a {
			out = append(out, w.encodeRune(r, 32)...)
		}
		return strFromBytes(out)
	case from.k == kInt && to.k == kString:
		return strFromBytes(w.encodeRune(x, from.w))
	case from.k == to.k:
		return x
	case from.k == kPtr || from.k == kUnsafe:
		return x
	}
	w.unsupported("convert %v to %v", from, to)
	return V{}
}

// encodeRune gives the UTF-8 bytes of an integer converted to string.
func (w *W) encodeRune(x V, width uint8) []V {
	if x.p == nil {
		v := sext(x.n, width)
		r := rune(v)
		if int64(r) != v {
			r = utf8.RuneError
		}
		var out []V
		for _, b := range []byte(string(r)) {
			out = append(out, V{n: uint64(b)})
		}
		return out
	}
	if w.spec > 0 {
		panic(specFail{})
	}
	e := x.p.(*Expr)
	c := func(k uint64) *Expr { return mkConst(width, k) }
	lt := func(k uint64) bool {
		if width <= 8 && k > 0xff {
			return true
		}
		return w.branch(mkCmp(opUlt, e, c(k)))
	}
	b := func(shift uint64, mask, or uint64) V {
		return fromE(mkBin(opBOr, mkTrunc(mkBin(opBAnd, mkBin(opLShr, e, c(shift)), c(mask)), 8), mkConst(8, or)))
	}
	if width < 32 {
		e = mkZExt(e, 32)
		width = 32
	}
	switch {
	case lt(0x80):
		return []V{fromE(mkTrunc(e, 8))}
	case lt(0x800):
		return []V{b(6, 0x1f, 0xc0), b(0, 0x3f, 0x80)}
	case !lt(0x110000) || w.branch(mkAnd(mkCmp(opUle, c(0xd800), e), mkCmp(opUlt, e, c(0xe000)))):
		return []V{{n: 0xef}, {n: 0xbf}, {n: 0xbd}}
	case lt(0x10000):
		return []V{b(12, 0x0f, 0xe0), b(6, 0x3f, 0x80), b(0, 0x3f, 0x80)}
	}
	return []V{b(18, 0x07, 0xf0), b(12, 0x3f, 0x80), b(6, 0x3f, 0x80), b(0, 0x3f, 0x80)}
}

// decodeRune is utf8.DecodeRuneInString(s[i:]) with branching on the class of
// the encoding.
func (w *W) decodeRune(s *Str, i int) (V, int) {
	n := len(s.s) - i
	if n <= 0 {
		return V{n: utf8.RuneError}, 0
	}
	conc := s.sym == nil
	if !conc {
		conc = true
		for j := i; j < len(s.s) && j < i+4; j++ {
			if s.sym[j] != nil {
				conc = false
				break
			}
			if j == i && s.s[j] < 0x80 {
				return V{n: uint64(s.s[j])}, 1
			}
		}
	}
	if conc {
		r, sz := utf8.DecodeRuneInString(s.s[i:])
		return V{n: uint64(uint32(r))}, sz
	}
	if w.spec > 0 {
		panic(specFail{})
	}
	bad := V{n: utf8.RuneError}
	by := func(k int) *Expr { return toE(s.at(i+k), 8) }
	in := func(e *Expr, lo, hi uint64) *Expr {
		return mkAnd(mkCmp(opUle, mkConst(8, lo), e), mkCmp(opUle, e, mkConst(8, hi)))
	}
	b0 := by(0)
	if w.branch(mkCmp(opUlt, b0, mkConst(8, 0x80))) {
		return fromE(mkZExt(b0, 32)), 1
	}
	part := func(e *Expr, mask uint64, sh uint64) *Expr {
		return mkBin(opShl, mkZExt(mkBin(opBAnd, e, mkConst(8, mask)), 32), mkConst(32, sh))
	}
	if n < 2 {
		return bad, 1
	}
	b1 := by(1)
	two := mkAnd(in(b0, 0xc2, 0xdf), in(b1, 0x80, 0xbf))
	three, four := exFalse, exFalse
	if n >= 3 {
		b2 := by(2)
		lead := mkOr(mkOr(mkAnd(mkEq(b0, mkConst(8, 0xe0)), in(b1, 0xa0, 0xbf)), mkAnd(mkEq(b0, mkConst(8, 0xed)), in(b1, 0x80, 0x9f))),
			mkAnd(mkOr(in(b0, 0xe1, 0xec), in(b0, 0xee, 0xef)), in(b1, 0x80, 0xbf)))
		three = mkAnd(lead, in(b2, 0x80, 0xbf))
	}
	if n >= 4 {
		b2, b3 := by(2), by(3)
		lead := mkOr(mkOr(mkAnd(mkEq(b0, mkConst(8, 0xf0)), in(b1, 0x90, 0xbf)), mkAnd(mkEq(b0, mkConst(8, 0xf4)), in(b1, 0x80, 0x8f))),
			mkAnd(in(b0, 0xf1, 0xf3), in(b1, 0x80, 0xbf)))
		four = mkAnd(lead, mkAnd(in(b2, 0x80, 0xbf), in(b3, 0x80, 0xbf)))
	}
	valid := mkOr(two, mkOr(three, four))
	if !w.branch(valid) {
		return bad, 1
	}
	if w.branch(two) {
		return fromE(mkBin(opBOr, part(b0, 0x1f, 6), part(b1, 0x3f, 0))), 2
	}
	if w.branch(three) {
		return fromE(mkBin(opBOr, mkBin(opBOr, part(b0, 0x0f, 12), part(b1, 0x3f, 6)), part(by(2), 0x3f, 0))), 3
	}
	return fromE(mkBin(opBOr, mkBin(opBOr, part(b0, 0x07, 18), part(b1, 0x3f, 12)), mkBin(opBOr, part(by(2), 0x3f, 6), part(by(3), 0x3f, 0)))), 4
}

// ---- maps ----

func (w *W) mapFind(m *MapObj, k V, ti tinfo) int {
	key, ok := mapKey(k)
	if ok && !m.hasSy {
		if i, ok := m.idx[key]; ok {
			return i
		}
		return -1
	}
	if w.spec > 0 {
		panic(specFail{})
	}
	for i := range m.ents {
		e := &m.ents[i]
		if e.dead {
			continue
		}
		var c *Expr
		if ti.k == kStruct || ti.k == kArray || ti.k >= kOther {
			c = w.eqDyn(e.k, k)
		} else {
			c = w.eqV(ti, e.k, k)
		}
		if c == exFalse {
			continue
		}
		if w.branch(c) {
			return i
		}
	}
	return -1
}

func (w *W) mapSet(m *MapObj, k, v V, ti tinfo) {
	if w.raceOn && w.multi {
		w.raceMap(m, true)
	}
	i := w.mapFind(m, k, ti)
	if i >= 0 {
		old := m.ents[i].v
		if w.journOn && m.born != w.epoch {
			w.undo = append(w.undo, func() { m.ents[i].v = old })
		}
		m.ents[i].v = cloneV(v)
		return
	}
	key, ok := mapKey(k)
	j := len(m.ents)
	m.ents = append(m.ents, mapEntry{k: cloneV(k), v: cloneV(v)})
	m.n++
	oldSy := m.hasSy
	if ok {
		m.idx[key] = j
	} else {
		m.hasSy = true
	}
	if w.journOn && m.born != w.epoch {
		w.undo = append(w.undo, func() {
			m.ents = m.ents[:j]
			m.n--
			if ok {
				delete(m.idx, key)
			}
			m.hasSy = oldSy
		})
	}
}

func (w *W) mapDelete(m *MapObj, k V, ti tinfo) {
	if w.raceOn && w.multi {
		w.raceMap(m, true)
	}
	i := w.mapFind(m, k, ti)
	if i < 0 {
		return
	}
	m.ents[i].dead = true
	m.n--
	key, ok := mapKey(m.ents[i].k)
	if ok {
		delete(m.idx, key)
	}
	if w.journOn && m.born != w.epoch {
		w.undo = append(w.undo, func() {
			m.ents[i].dead = false
			m.n++
			if ok {
				m.idx[key] = i
			}
		})
	}
}

func (w *W) mapLookup(mv, k V, ins *Ins) V {
	var v V
	ok := false
	if mv.p != nil {
		m := mv.p.(*MapObj)
		if w.raceOn && w.multi {
			w.raceMap(m, false)
		}
		if i := w.mapFind(m, k, ins.ti); i >= 0 {
			v, ok = cloneV(m.ents[i].v), true
		}
	}
	if !ok {
		v = zeroV(ins.t)
	}
	if ins.flag {
		return V{p: Tuple{v, fromB(ok)}}
	}
	return v
}

func (w *W) mapOrder(m *MapObj) []int {
	if w.raceOn && w.multi {
		w.raceMap(m, false)
	}
	var o []int
	for i := range m.ents {
		if !m.ents[i].dead {
			o = append(o, i)
		}
	}
	if w.native["maporder"] != nil && len(o) > 1 && len(o) <= 4 {
		// Go leaves the order open: choose a permutation.
		for i := 0; i < len(o)-1; i++ {
			j := i + w.choose(len(o)-i)
			o[i], o[j] = o[j], o[i]
		}
	}
	return o
}

func (w *W) next(it *Iter, t types.Type) V {
	if it.isStr {
		if it.i >= len(it.str.s) {
			return V{p: Tuple{V{}, V{}, V{}}}
		}
		pos := it.i
		r, n := w.decodeRune(it.str, it.i)
		it.i += n
		return V{p: Tuple{V{n: 1}, V{n: uint64(pos)}, r}}
	}
	for it.i < len(it.order) {
		e := &it.m.ents[it.order[it.i]]
		it.i++
		if e.dead {
			continue
		}
		return V{p: Tuple{V{n: 1}, e.k, cloneV(e.v)}}
	}
	return zeroV(t)
}

// ---- builtins ----

func (w *W) builtin(fr *Frame, name string, a []V, ins *Ins) V {
	switch name {
	case "len":
		switch x := a[0].p.(type) {
		case nil:
			return V{}
		case *Str:
			if x.opq != nil {
				x = w.materialize(x)
			}
			return V{n: uint64(len(x.s))}
		case *Slice:
			return V{n: uint64(len(x.a))}
		case *MapObj:
			if w.raceOn && w.multi {
				w.raceMap(x, false)
			}
			return V{n: uint64(x.n)}
		case *ChanObj:
			return V{n: uint64(len(x.buf))}
		case *Agg:
			return V{n: uint64(len(x.f))}
		case *V:
			return V{n: uint64(len(x.p.(*Agg).f))}
		}
	case "cap":
		switch x := a[0].p.(type) {
		case nil:
			return V{}
		case *Slice:
			return V{n: uint64(cap(x.a))}
		case *ChanObj:
			return V{n: uint64(x.cap)}
		}
	case "append":
		return w.appendV(a, ins)
	case "copy":
		if a[0].p == nil || a[1].p == nil {
			return V{}
		}
		dst := a[0].p.(*Slice).a
		var src []V
		if s, ok := a[1].p.(*Str); ok {
			src = bytesFromStr(s)
		} else {
			src = append([]V(nil), a[1].p.(*Slice).a...)
		}
		n := len(src)
		if len(dst) < n {
			n = len(dst)
		}
		for i := 0; i < n; i++ {
			w.store(&dst[i], src[i])
		}
		return V{n: uint64(n)}
	case "delete":
		if a[0].p != nil {
			w.mapDelete(a[0].p.(*MapObj), a[1], infoOf(ins.t.Underlying().(*types.Map).Key()))
		}
		return V{}
	case "close":
		c := a[0].p.(*ChanObj)
		if c.closed {
			w.goPanicMsg("close of closed channel")
		}
		c.closed = true
		c.vc.join(w.cur.vc)
		w.cur.vc.tick(w.cur.id)
		return V{}
	case "panic":
		panic(goPanicSig{a[0]})
	case "recover":
		return w.doRecover()
	case "print", "println":
		return V{}
	case "min", "max":
		r := a[0]
		for _, x := range a[1:] {
			if ins.ti.k == kString {
				lt := ltStr(vstr(x), vstr(r), 0)
				if (name == "min") == w.branch(lt) {
					r = x
				}
				continue
			}
			lop := opUlt
			if ins.ti.signed {
				lop = opSlt
			}
			if ins.ti.k == kFloat {
				w.unsupported("min/max on floats")
			}
			lt := mkCmp(lop, toE(x, ins.ti.w), toE(r, ins.ti.w))
			if name == "max" {
				lt = mkCmp(lop, toE(r, ins.ti.w), toE(x, ins.ti.w))
			}
			r = fromE(mkIte(lt, toE(x, ins.ti.w), toE(r, ins.ti.w)))
		}
		return r
	case "clear":
		switch x := a[0].p.(type) {
		case *MapObj:
			for i := range x.ents {
				if !x.ents[i].dead {
					w.mapDelete(x, x.ents[i].k, infoOf(ins.t.Underlying().(*types.Map).Key()))
				}
			}
		case *Slice:
			el := ins.t.Underlying().(*types.Slice).Elem()
			for i := range x.a {
				w.store(&x.a[i], zeroV(el))
			}
		}
		return V{}
	case "ssa:wrapnilchk":
		if a[0].p == nil {
			w.goPanicMsg("value method called using nil pointer")
		}
		return a[0]
	case "String": // unsafe.String
		n := w.concInt(a[1])
		if n == 0 {
			return V{}
		}
	}
	w.unsupported("builtin %s on %T", name, func() any {
		if len(a) > 0 {
			return a[0].p
		}
		return nil
	}())
	return V{}
}

func (w *W) appendV(a []V, ins *Ins) V {
	var dst []V
	if a[0].p != nil {
		dst = a[0].p.(*Slice).a
	}
	var src []V
	switch x := a[1].p.(type) {
	case nil:
	case *Str:
		if x.opq != nil {
			x = w.materialize(x)
		}
		src = bytesFromStr(x)
	case *Slice:
		src = x.a
	}
	if len(src) == 0 {
		return a[0]
	}
	n := len(dst) + len(src)
	if n > 1<<21 {
		w.end(endHang, "slice over %d elements", 1<<21)
	}
	if n <= cap(dst) {
		r := dst[:n]
		// Copy first: source and destination may overlap.
		tmp := append([]V(nil), src...)
		for i := range tmp {
			w.store(&r[len(dst)+i], tmp[i])
		}
		return V{p: &Slice{r}}
	}
	if w.raceOn && w.multi {
		for i := range dst {
			w.raceRead(&dst[i])
		}
	}
	r := make([]V, n, growCap(cap(dst), n, ins.t))
	for i := range dst {
		r[i] = cloneV(dst[i])
	}
	for i := range src {
		if w.raceOn && w.multi {
			w.raceRead(&src[i])
		}
		r[len(dst)+i] = cloneV(src[i])
	}
	return V{p: &Slice{r}}
}

var sizes = types.SizesFor("gc", "amd64")

// growCap follows runtime.growslice so that aliasing through spare capacity is
// modelled as it really happens.
func growCap(oldCap, newLen int, t types.Type) int {
	newcap := oldCap
	if newLen > 2*oldCap {
		newcap = newLen
	} else if oldCap < 256 {
		newcap = 2 * oldCap
	} else {
		for newcap < newLen {
			newcap += (newcap + 3*256) >> 2
		}
	}
	es := int64(8)
	ptrs := true
	if st, ok := t.Underlying().(*types.Slice); ok {
		es = sizes.Sizeof(st.Elem())
		ptrs = hasPtr(st.Elem())
	}
	if es == 0 {
		return newcap
	}
	return int(int64(roundup(int(es)*newcap, !ptrs)) / es)
}

func roundup(n int, noscan bool) int {
	extra := 0
	if !noscan && n > 512 {
		n += 8
		extra = 8
	}
	return cap(append([]byte(nil), make([]byte, n)...)) - extra
}

func hasPtr(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.String || u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPtr(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return hasPtr(u.Elem())
	}
	return true
}
