package main

import (
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---- path condition ----

type hkey struct{ a, b uint64 }

// PC is a path condition: the possible values of every byte variable, kept as
// one membership conjunct each, and the remaining conjuncts simplified under
// them.
type PC struct {
	set  map[hkey]bool // conjunct -> true; its negation -> false
	bind Model         // variables fixed by an equality
	dom  map[uint32]*Expr
	rel  []*Expr
	fr   map[uint32]frange // intervals of floating point variables
}

func newPC() *PC {
	return &PC{set: map[hkey]bool{}, bind: Model{}, dom: map[uint32]*Expr{}, fr: map[uint32]frange{}}
}

func ekey(e *Expr) hkey { return hkey{e.h1, e.h2} }

// ctx simplifies e under the facts about single variables.
func (p *PC) ctx(e *Expr) *Expr {
	if len(e.vars) == 0 {
		return e
	}
	hit := false
	for _, v := range e.vars {
		if p.dom[v] != nil {
			hit = true
			break
		}
		if _, ok := p.bind[v]; ok {
			hit = true
			break
		}
	}
	if !hit {
		return e
	}
	return p.ctx1(e, map[*Expr]*Expr{})
}

func (p *PC) ctx1(e *Expr, memo map[*Expr]*Expr) *Expr {
	switch e.op {
	case opConst:
		return e
	case opVar:
		if k, ok := p.bind[uint32(e.k)]; ok {
			return mkConst(e.w, k)
		}
		return e
	case opInSet:
		if d := p.dom[e.v]; d != nil {
			if d.set.subset(e.set) {
				return exTrue
			}
			if d.set.disjoint(e.set) {
				return exFalse
			}
		}
		return e
	}
	if r := memo[e]; r != nil {
		return r
	}
	var r *Expr
	switch e.op {
	case opAnd:
		a := p.ctx1(e.a, memo)
		if isC(a) && a.k == 0 {
			r = a
			break
		}
		b := p.ctx1(e.b, memo)
		if a == e.a && b == e.b {
			r = e
		} else {
			r = mkAnd(a, b)
		}
	case opOr:
		a := p.ctx1(e.a, memo)
		if isC(a) && a.k != 0 {
			r = a
			break
		}
		b := p.ctx1(e.b, memo)
		if a == e.a && b == e.b {
			r = e
		} else {
			r = mkOr(a, b)
		}
	case opIte:
		a := p.ctx1(e.a, memo)
		if isC(a) {
			if a.k != 0 {
				r = p.ctx1(e.b, memo)
			} else {
				r = p.ctx1(e.c, memo)
			}
			break
		}
		b, c := p.ctx1(e.b, memo), p.ctx1(e.c, memo)
		if a == e.a && b == e.b && c == e.c {
			r = e
		} else {
			r = mkIte(a, b, c)
		}
	default:
		a := p.ctx1(e.a, memo)
		b := e.b
		if b != nil {
			b = p.ctx1(b, memo)
		}
		if a == e.a && b == e.b {
			r = e
		} else {
			r = rebuild(e, a, b)
		}
	}
	memo[e] = r
	return r
}

func rebuild(e, a, b *Expr) *Expr {
	switch e.op {
	case opNot:
		return mkNot(a)
	case opEq:
		return mkEq(a, b)
	case opUlt, opUle, opSlt, opSle:
		return mkCmp(e.op, a, b)
	case opZExt:
		return mkZExt(a, e.w)
	case opSExt:
		return mkSExt(a, e.w)
	case opExtract:
		return mkTrunc(a, e.w)
	case opFAdd, opFSub, opFMul, opFDiv:
		return mkFBin(e.op, a, b)
	case opFLt, opFLe, opFEq:
		return mkFCmp(e.op, a, b)
	case opFNeg, opFFromS, opFFromU, opFToS, opFIsNaN, opFIsInf, opFFloor, opFCeil, opFTrunc, opFRound, opFRoundEven:
		return mkFUn(e.op, a, e.w)
	}
	return mkBin(e.op, a, b)
}

// decided answers a condition without the solver when it is implied by the
// facts about single variables or syntactically. The simplified condition is
// returned as well.
func (p *PC) decided(e *Expr) (bool, bool) {
	if isC(e) {
		return e.k != 0, true
	}
	if b, ok := p.set[ekey(e)]; ok {
		return b, true
	}
	e = p.ctx(e)
	if isC(e) {
		return e.k != 0, true
	}
	if b, ok := p.set[ekey(e)]; ok {
		return b, true
	}
	if hasFloat(e) {
		return p.fdecide(e)
	}
	return false, false
}

func (p *PC) add(e *Expr) {
	if e.op == opAnd {
		p.add(e.a)
		p.add(e.b)
		return
	}
	if isC(e) {
		return
	}
	if b, ok := p.set[ekey(e)]; ok && b {
		return
	}
	p.set[ekey(e)] = true
	p.set[ekey(mkNot(e))] = false
	if hasFloat(e) {
		p.learnF(e)
	}
	p.add1(p.ctx(e))
}

func (p *PC) add1(e *Expr) {
	switch {
	case e.op == opAnd:
		p.add1(e.a)
		p.add1(p.ctx(e.b))
		return
	case isC(e) && e.k != 0:
		return
	case e.op == opInSet:
		d := e
		if o := p.dom[e.v]; o != nil {
			d = mkAnd(o, e)
			if same(o, d) {
				return
			}
		}
		if isC(d) { // contradiction: keep it visible to the solver
			p.rel = append(p.rel, e)
			return
		}
		p.dom[e.v] = d
		if d.set.n() == 1 {
			p.bind[e.v] = uint64(d.set.min())
		}
		p.resimplify(e.v)
		return
	}
	p.set[ekey(e)] = true
	p.set[ekey(mkNot(e))] = false
	p.rel = append(p.rel, e)
	v, k, ok := uint32(0), uint64(0), true
	if e.op == opEq && e.a.op == opVar && isC(e.b) {
		v, k = uint32(e.a.k), e.b.k
	} else if e.op == opVar {
		v, k = uint32(e.k), 1
	} else if e.op == opNot && e.a.op == opVar {
		v, k = uint32(e.a.k), 0
	} else {
		ok = false
	}
	if ok {
		if _, dup := p.bind[v]; !dup {
			p.bind[v] = k
			p.resimplify(v)
		}
	}
}

func (p *PC) resimplify(v uint32) {
	old := p.rel
	var again []*Expr
	p.rel = nil
	for _, c := range old {
		// The conjunct that fixes a variable stays.
		if len(c.vars) == 1 && varInfoOf(c.v).w != 8 || !hasVar(c.vars, v) {
			p.rel = append(p.rel, c)
			continue
		}
		n := p.ctx(c)
		if n == c {
			p.rel = append(p.rel, c)
			continue
		}
		again = append(again, n)
	}
	for _, n := range again {
		if isC(n) && n.k == 0 {
			p.rel = append(p.rel, n)
			continue
		}
		p.add1(p.ctx(n))
	}
}

func hasVar(vs []uint32, v uint32) bool {
	for _, x := range vs {
		if x == v {
			return true
		}
	}
	return false
}

// slice returns the conjuncts that share variables, transitively, with e, and
// e simplified.
func (p *PC) slice(e *Expr) []*Expr {
	e = p.ctx(e)
	out := p.connected(e.vars)
	if e.op == opAnd { // split so that caching sees through the order
		return append(out, flatAnd(e, nil)...)
	}
	return append(out, e)
}

func flatAnd(e *Expr, out []*Expr) []*Expr {
	if e.op == opAnd {
		return flatAnd(e.b, flatAnd(e.a, out))
	}
	return append(out, e)
}

func (p *PC) connected(vars []uint32) []*Expr {
	work := append([]uint32(nil), vars...)
	var out []*Expr
	used := make([]bool, len(p.rel))
	for i := 0; i < len(work); i++ {
		v := work[i]
		if d := p.dom[v]; d != nil {
			out = append(out, d)
		}
		for j, c := range p.rel {
			if used[j] || !hasVar(c.vars, v) {
				continue
			}
			used[j] = true
			out = append(out, c)
			for _, x := range c.vars {
				if !hasVar(work, x) {
					work = append(work, x)
				}
			}
		}
	}
	for j, c := range p.rel {
		if !used[j] && len(c.vars) == 0 {
			out = append(out, c)
		}
	}
	return out
}

// ---- decisions ----

func (w *W) feasible(c *Expr) Res {
	if isC(c) {
		if c.k != 0 {
			return resSat
		}
		return resUnsat
	}
	r, _, _ := w.sol.check(w.pc.slice(c))
	return r
}

func (w *W) nextDec() (dec, bool) {
	i := len(w.log)
	if i < len(w.prefix) {
		return w.prefix[i], true
	}
	return dec{}, false
}

func (w *W) fork(alts []dec) {
	if len(alts) == 0 {
		return
	}
	n := &Node{parent: w.base, ents: append([]dec(nil), w.log[w.logBase:]...)}
	w.base = n
	w.logBase = len(w.log)
	items := make([]*Node, len(alts))
	for i, a := range alts {
		items[i] = &Node{parent: n, ents: []dec{a}}
	}
	w.run.push(items)
}

// decide picks one of several conditions that together cover the path.
func (w *W) decide(conds []*Expr) int {
	if w.spec > 0 {
		panic(specFail{})
	}
	if w.inInit > 0 {
		w.unsupported("symbolic decision in package init")
	}
	for i, c := range conds {
		if d, ok := w.pc.decided(c); ok && d {
			return i
		}
	}
	if d, ok := w.nextDec(); ok {
		w.log = append(w.log, d)
		w.pc.add(conds[d.c])
		return int(d.c)
	}
	var feas []int
	unknown := false
	for i, c := range conds {
		if i == len(conds)-1 && len(feas) == 0 && !unknown {
			feas = append(feas, i) // the others are infeasible, the path itself is not
			break
		}
		switch w.feasible(c) {
		case resSat:
			feas = append(feas, i)
		case resUnknown:
			unknown = true
			w.incompl["solver unknown on a branch (kept)"]++
			feas = append(feas, i)
		}
	}
	if len(feas) == 0 {
		w.end(endInfeasible, "no feasible branch")
	}
	k := 0
	if len(feas) > 1 {
		k = w.rng.Intn(len(feas))
	}
	var alts []dec
	for j, i := range feas {
		if j != k {
			alts = append(alts, dec{c: int32(i)})
		}
	}
	w.fork(alts)
	w.log = append(w.log, dec{c: int32(feas[k])})
	w.pc.add(conds[feas[k]])
	return feas[k]
}

func (w *W) branch(c *Expr) bool {
	if isC(c) {
		return c.k != 0
	}
	if d, ok := w.pc.decided(c); ok {
		return d
	}
	return w.decide([]*Expr{c, mkNot(c)}) == 0
}

// choose is a free n-way choice (environment nondeterminism).
func (w *W) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if d, ok := w.nextDec(); ok {
		w.log = append(w.log, d)
		return int(d.c)
	}
	k := w.rng.Intn(n)
	var alts []dec
	for i := 0; i < n; i++ {
		if i != k {
			alts = append(alts, dec{c: int32(i)})
		}
	}
	w.fork(alts)
	w.log = append(w.log, dec{c: int32(k)})
	return k
}

// chooseDef prefers option 0 first (used for schedules).
func (w *W) chooseDef(n int) int {
	if n <= 1 {
		return 0
	}
	if os.Getenv("VSYM_TRACE") != "" {
		nx := -1
		if len(w.log) < len(w.prefix) {
			nx = int(w.prefix[len(w.log)].c)
		}
		fmt.Fprintf(os.Stderr, "CHOOSE log=%d n=%d next=%d g=%d %s\n", len(w.log), n, nx, w.cur.id, w.where())
	}
	if d, ok := w.nextDec(); ok {
		w.log = append(w.log, d)
		return int(d.c)
	}
	var alts []dec
	for i := n - 1; i > 0; i-- {
		alts = append(alts, dec{c: int32(i)})
	}
	w.fork(alts)
	w.log = append(w.log, dec{c: 0})
	return 0
}

// concretize forks the path over the values of e.
func (w *W) concretize(e *Expr) uint64 {
	if isC(e) {
		return e.k
	}
	if w.spec > 0 {
		panic(specFail{})
	}
	e = w.pc.ctx(e)
	if isC(e) {
		return e.k
	}
	for i := 0; ; i++ {
		if d, ok := w.nextDec(); ok {
			w.log = append(w.log, d)
			eq := w.eqConst(e, d.v)
			if d.c == 0 {
				w.pc.add(eq)
				return d.v
			}
			w.pc.add(mkNot(eq))
			continue
		}
		m, ok := w.someModel(e)
		if !ok {
			w.end(endInfeasible, "no model")
		}
		v := m.eval(e)
		eq := w.eqConst(e, v)
		if w.feasible(mkNot(eq)) != resUnsat {
			if e.w == fpW || i > 300 {
				w.incompl["concretised value (not all values explored)"]++
			} else {
				w.fork([]dec{{c: 1, v: v}})
			}
		}
		w.log = append(w.log, dec{c: 0, v: v})
		w.pc.add(eq)
		return v
	}
}

func (w *W) eqConst(e *Expr, v uint64) *Expr {
	if e.w == fpW {
		c := mkConst(fpW, v)
		return mkOr(mkFCmp(opFEq, e, c), mkAnd(mkFUn(opFIsNaN, e, 0), mkFUn(opFIsNaN, c, 0)))
	}
	return mkEq(e, mkConst(e.w, v))
}

// someModel returns values for the variables of e consistent with the path.
func (w *W) someModel(e *Expr) (Model, bool) {
	m := Model{}
	return m, w.modelOf(e.vars, m)
}

func (w *W) modelOf(vs []uint32, m Model) bool {
	for _, v := range vs {
		if _, ok := m[v]; ok {
			continue
		}
		cs := w.pc.connected([]uint32{v})
		if len(cs) == 0 {
			continue
		}
		r, vars, vals := w.sol.check(cs)
		if r != resSat {
			return false
		}
		for i, v := range vars {
			m[v] = vals[i]
		}
	}
	return true
}

// fullModel assigns every variable of the path; extra is an additional
// condition whose slice must be satisfiable.
func (w *W) fullModel(extra *Expr) (Model, bool) {
	m := Model{}
	if extra != nil && !isC(extra) {
		r, vars, vals := w.sol.check(w.pc.slice(extra))
		if r != resSat {
			return nil, false
		}
		for i, v := range vars {
			m[v] = vals[i]
		}
		// Simplification may have removed variables that are fixed.
		for _, v := range extra.vars {
			if _, ok := m[v]; !ok {
				if k, ok := w.pc.bind[v]; ok {
					m[v] = k
				}
			}
		}
	}
	var vs []uint32
	for v := range w.pc.dom {
		vs = append(vs, v)
	}
	for _, c := range w.pc.rel {
		vs = append(vs, c.vars...)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i] < vs[j] })
	return m, w.modelOf(vs, m)
}

func (w *W) assume(c *Expr) {
	if d, ok := w.pc.decided(c); ok {
		if !d {
			w.end(endInfeasible, "assume")
		}
		return
	}
	if len(w.log) >= len(w.prefix) {
		if w.feasible(c) == resUnsat {
			w.end(endInfeasible, "assume")
		}
	}
	w.pc.add(c)
}

// assert decides whether c can be false here.
func (w *W) assert(c *Expr, label string) {
	st := w.run.st
	if d, ok := w.pc.decided(c); ok {
		if d && !isC(c) {
			// Confirm with the solver what the byte domains imply.
			cs := []*Expr{mkNot(c)}
			for _, v := range c.vars {
				if e := w.pc.dom[v]; e != nil {
					cs = append(cs, e)
				}
			}
			if r, _, _ := w.sol.check(cs); r == resUnsat {
				addInt(&st.asserts, 1)
				return
			}
		}
		addInt(&st.trivial, 1)
		if d {
			return
		}
		w.violation("assertion failed: "+label, nil)
		w.end(endViolation, "%s", label)
	}
	nc := mkNot(c)
	addInt(&st.asserts, 1)
	switch w.feasible(nc) {
	case resUnsat:
		return
	case resUnknown:
		w.incompl["solver unknown on an assertion"]++
	case resSat:
		w.violation("assertion failed: "+label, nc)
	}
	if w.feasible(c) == resUnsat {
		w.end(endViolation, "%s", label)
	}
	w.pc.add(c)
}

type inputVal struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Val  uint64 `json:"val"`
}

type candidate struct {
	Harness string     `json:"harness"`
	Arg     string     `json:"arg"`
	Label   string     `json:"label"`
	Kind    string     `json:"kind"`
	Inputs  []inputVal `json:"inputs"`
	Emits   []string   `json:"emits"`
	Text    string     `json:"input_text,omitempty"`
	sched   bool
	emitOK  []bool
}

func (w *W) record(kind, label string, extra *Expr) *candidate {
	m, ok := w.fullModel(extra)
	if !ok {
		return nil
	}
	c := &candidate{Harness: w.run.h.Func, Arg: w.run.h.Arg, Label: label, Kind: kind, sched: w.multi}
	var txt []byte
	for _, in := range w.inputs {
		v := in.n
		if in.e != nil {
			v = m.eval(in.e)
		}
		c.Inputs = append(c.Inputs, inputVal{in.name, in.kind, v})
		_ = txt
	}
	for _, e := range w.emits {
		c.Emits = append(c.Emits, evalStr(vstr(e), m))
	}
	if t, ok := w.native["template"]; ok {
		c.Text = evalStr(t.(*Str), m)
	}
	return c
}

func evalStr(s *Str, m Model) string {
	if s.opq != nil {
		f := b2f(m.eval(s.opq.e))
		return strconv.FormatFloat(f, 'f', s.opq.prec, 64)
	}
	if s.sym == nil {
		return s.s
	}
	b := []byte(s.s)
	memo := map[*Expr]uint64{}
	for i, e := range s.sym {
		if e != nil {
			b[i] = byte(evalMemo(e, m, memo))
		}
	}
	return string(b)
}

func (w *W) violation(label string, extra *Expr) {
	c := w.record("violation", label, extra)
	if c == nil {
		w.incompl["no model for a violation"]++
		return
	}
	w.run.addCand(c)
}

// ---- runs ----

type Harness struct {
	Prop    string  `json:"prop"`
	Func    string  `json:"func"`
	Arg     string  `json:"arg"`
	Tier    string  `json:"tier"` // "quick": both tiers; "thorough": only there
	Budget  float64 `json:"budget"`
	Steps   int64   `json:"steps"`
	Sched   int     `json:"sched"` // preemption bound; 0 = sequential
	Race    bool    `json:"race"`
	Note    string  `json:"note"`
	Timeout int     `json:"timeout_ms"`
	Solver  string  `json:"solver"`
	MaxCand int     `json:"-"`
	Deep    bool    `json:"-"`
}

// HRun is one exploration of one harness.
type HRun struct {
	h     *Harness
	p     *Prog
	entry *ssa.Function
	cache *qcache
	st    *solverStats

	mu       sync.Mutex
	cond     *sync.Cond
	pending  []*Node
	active   int
	stop     bool
	deadline time.Time

	ends     map[endKind]int64
	paths    int64
	steps    int64
	incompl  map[string]int
	unsup    map[string]int
	notes    map[string]bool
	cands    []*candidate
	candKeys map[string]int
	samples  []*candidate
	seen     int64
	called   map[*Fn]bool
	reached  map[string]bool
	maxPend  int
	rng      *rand.Rand
	wall     float64
	decs     int64
}

func addInt(p *int64, d int64) {
	statMu.Lock()
	*p += d
	statMu.Unlock()
}

var statMu sync.Mutex

func (r *HRun) note(f string, a ...any) {
	r.mu.Lock()
	r.notes[fmt.Sprintf(f, a...)] = true
	r.mu.Unlock()
}

func (r *HRun) push(n []*Node) {
	r.mu.Lock()
	r.pending = append(r.pending, n...)
	if len(r.pending) > r.maxPend {
		r.maxPend = len(r.pending)
	}
	r.mu.Unlock()
	r.cond.Broadcast()
}

func (r *HRun) addCand(c *candidate) {
	r.mu.Lock()
	defer r.mu.Unlock()
	k := c.Kind + c.Label
	if r.candKeys[k] >= 4 || len(r.cands) > 60 {
		r.candKeys[k]++
		return
	}
	r.candKeys[k]++
	r.cands = append(r.cands, c)
}

func (n *Node) path() []dec {
	var chain []*Node
	t := 0
	for x := n; x != nil; x = x.parent {
		chain = append(chain, x)
		t += len(x.ents)
	}
	out := make([]dec, 0, t)
	for i := len(chain) - 1; i >= 0; i-- {
		out = append(out, chain[i].ents...)
	}
	return out
}

func (r *HRun) take(rng *rand.Rand) *Node {
	r.mu.Lock()
	defer r.mu.Unlock()
	for {
		if r.stop {
			return nil
		}
		if n := len(r.pending); n > 0 {
			i := n - 1
			if n > 8 && rng.Intn(8) == 0 {
				i = rng.Intn(n)
			}
			x := r.pending[i]
			r.pending[i] = r.pending[n-1]
			r.pending = r.pending[:n-1]
			r.active++
			return x
		}
		if r.active == 0 {
			r.cond.Broadcast()
			return nil
		}
		r.cond.Wait()
	}
}

func (r *HRun) release() {
	r.mu.Lock()
	r.active--
	if r.active == 0 && len(r.pending) == 0 {
		r.cond.Broadcast()
	}
	r.mu.Unlock()
}

const defaultSteps = 3000000

func (w *W) resetFor(r *HRun) {
	w.run = r
}

func (w *W) runPath(node *Node) (k endKind, msg string) {
	w.base = node
	if node != nil {
		w.prefix = node.path()
	} else {
		w.prefix = nil
	}
	w.log = w.log[:0]
	w.logBase = len(w.prefix)
	w.pc = newPC()
	w.journal = w.journal[:0]
	w.undo = nil
	w.steps = 0
	w.limit = w.run.h.Steps
	if w.limit == 0 {
		w.limit = defaultSteps
	}
	w.epoch++
	w.names = map[string]int{}
	w.inputs = nil
	w.emits = nil
	w.multi = false
	w.preempts = 0
	w.syncSt = nil
	w.accs = nil
	w.blockOn = nil
	w.spec = 0
	w.native = map[string]any{}
	w.schedOn = w.run.h.Sched > 0
	w.raceOn = w.run.h.Race
	w.chanSeq = 0
	w.inInit = 0
	w.deadline = w.run.deadline
	w.journOn = true
	g := &Gor{id: 0}
	w.gs = []*Gor{g}
	w.cur = g
	defer func() {
		w.journOn = false
		for i := len(w.undo) - 1; i >= 0; i-- {
			w.undo[i]()
		}
		for i := len(w.journal) - 1; i >= 0; i-- {
			*w.journal[i].c = w.journal[i].old
		}
	}()
	defer func() {
		if e := recover(); e != nil {
			pe, ok := e.(pathEnd)
			if !ok {
				if os.Getenv("VSYM_DEBUG") != "" {
					panic(e)
				}
				k, msg = endUnsupported, fmt.Sprintf("engine: %v at %s", e, w.where())
				return
			}
			k, msg = pe.kind, pe.msg
		}
		switch k {
		case endPanic:
			w.violation("crash: "+msg, nil)
		case endHang:
			w.violation("hang: "+msg, nil)
		}
		if k == endDone || k == endExit {
			w.maybeSample()
		}
	}()
	args := []V{mkStr(w.run.h.Arg)}
	w.pushCall(w.p.fnOf(w.run.entry), args, nil, -1)
	w.loop()
	return endDone, ""
}

const maxSamples = 24

func (w *W) maybeSample() {
	r := w.run
	r.mu.Lock()
	r.seen++
	n := r.seen
	slot := -1
	if len(r.samples) < maxSamples {
		slot = len(r.samples)
		r.samples = append(r.samples, nil)
	} else if j := r.rng.Int63n(n); j < maxSamples {
		slot = int(j)
	}
	r.mu.Unlock()
	if slot >= 0 {
		c := w.record("sample", "", nil)
		if c != nil {
			r.mu.Lock()
			r.samples[slot] = c
			r.mu.Unlock()
		}
	}
}

func (r *HRun) worker(w *W) {
	w.run = r
	for {
		n := r.take(w.rng)
		if n == nil {
			return
		}
		first := n
		if len(n.ents) == 0 && n.parent == nil {
			first = nil
		}
		k, msg := w.runPath(first)
		r.mu.Lock()
		r.ends[k]++
		r.paths++
		r.steps += w.steps
		r.decs += int64(len(w.log))
		if k == endUnsupported {
			r.unsup[msg]++
		}
		if k == endDeadline {
			r.stop = true
			r.pending = append(r.pending, n)
		}
		for m, c := range w.incompl {
			r.incompl[m] += c
		}
		if !r.deadline.IsZero() && time.Now().After(r.deadline) {
			r.stop = true
		}
		if r.h.MaxCand > 0 && len(r.cands) >= r.h.MaxCand {
			r.stop = true
		}
		r.mu.Unlock()
		w.incompl = map[string]int{}
		r.release()
		if r.stop {
			r.cond.Broadcast()
		}
	}
}

// explore runs the harness with the given workers.
func (r *HRun) explore(ws []*W) {
	t0 := time.Now()
	r.cond = sync.NewCond(&r.mu)
	r.ends = map[endKind]int64{}
	r.incompl = map[string]int{}
	r.unsup = map[string]int{}
	r.notes = map[string]bool{}
	r.candKeys = map[string]int{}
	r.called = map[*Fn]bool{}
	r.reached = map[string]bool{}
	r.pending = []*Node{{}}
	var wg sync.WaitGroup
	for _, w := range ws {
		w.called = map[*Fn]bool{}
		w.reached = map[string]bool{}
		w.incompl = map[string]int{}
		w.run = r
		to := r.h.Timeout
		if to == 0 {
			to = 4000
		}
		bin := r.h.Solver
		if bin == "" {
			bin = "z3"
		}
		if w.sol == nil || w.sol.bin != bin || w.sol.timeoutMs != to || w.sol.st != r.st {
			if w.sol != nil {
				w.sol.close()
			}
			w.sol = newSolver(bin, to, r.cache, r.st)
		}
		wg.Add(1)
		go func(w *W) {
			defer wg.Done()
			r.worker(w)
		}(w)
	}
	wg.Wait()
	for _, w := range ws {
		for f := range w.called {
			r.called[f] = true
		}
		for f := range w.reached {
			r.reached[f] = true
		}
	}
	r.wall = time.Since(t0).Seconds()
}

func (r *HRun) complete() bool {
	return len(r.pending) == 0 && r.ends[endUnsupported] == 0 && r.ends[endDeadline] == 0 && len(r.incompl) == 0
}

func sortedKeys[T any](m map[string]T) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
