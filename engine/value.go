package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// V is a runtime value. A nil p means a concrete scalar (n holds its bits,
// zero-extended to 64) or the zero value of a reference type or string.
type V struct {
	n uint64
	p any
}

// Str is a string of concrete length whose bytes may be symbolic.
type Str struct {
	s   string
	sym []*Expr // nil, or len(s) entries with nil for concrete bytes
	opq *Opaque // text that is a function of a symbolic number
}

// Opaque is the text strconv.FormatFloat gives for a symbolic number.
type Opaque struct {
	e    *Expr
	prec int
}

type Agg struct{ f []V }

// Slice shares its backing array with others exactly as Go slices do.
type Slice struct{ a []V }

type Closure struct {
	fn   *Fn
	free []V
	bltn string
}

type Iface struct {
	t *RType
	v V
}

type Tuple []V

type mapEntry struct {
	k, v V
	dead bool
}

type MapObj struct {
	idx   map[any]int
	ents  []mapEntry
	n     int
	hasSy bool // some key is symbolic
	born  uint64
	acc   *access
}

type Iter struct {
	m     *MapObj
	order []int
	i     int
	str   *Str
	isStr bool
}

type ChanObj struct {
	buf    []V
	cap    int
	closed bool
	id     int
	vc     vclock
	rvc    vclock // of the receivers

	offers  []*offer // of senders that wait, when unbuffered
	waiting int      // receivers that wait
}

var emptyStr = &Str{}

func mkStr(s string) V {
	if s == "" {
		return V{}
	}
	return V{p: &Str{s: s}}
}

func vstr(v V) *Str {
	if v.p == nil {
		return emptyStr
	}
	return v.p.(*Str)
}

func (s *Str) conc() bool { return s.sym == nil && s.opq == nil }

func (s *Str) at(i int) V {
	if s.sym != nil && s.sym[i] != nil {
		return V{p: s.sym[i]}
	}
	return V{n: uint64(s.s[i])}
}

func (s *Str) slice(lo, hi int) V {
	if lo == hi {
		return V{}
	}
	if lo == 0 && hi == len(s.s) {
		return V{p: s}
	}
	r := &Str{s: s.s[lo:hi]}
	if s.sym != nil {
		for i := lo; i < hi; i++ {
			if s.sym[i] != nil {
				r.sym = s.sym[lo:hi:hi]
				break
			}
		}
	}
	return V{p: r}
}

func catStr(a, b *Str) *Str {
	if len(a.s) == 0 {
		return b
	}
	if len(b.s) == 0 {
		return a
	}
	r := &Str{s: a.s + b.s}
	if a.sym != nil || b.sym != nil {
		r.sym = make([]*Expr, len(r.s))
		copy(r.sym, a.sym)
		if b.sym != nil {
			copy(r.sym[len(a.s):], b.sym)
		}
	}
	return r
}

// strFromBytes builds a string from byte values.
func strFromBytes(a []V) V {
	if len(a) == 0 {
		return V{}
	}
	bs := make([]byte, len(a))
	var sym []*Expr
	for i := range a {
		if e, ok := a[i].p.(*Expr); ok {
			if sym == nil {
				sym = make([]*Expr, len(a))
			}
			sym[i] = e
			bs[i] = '?'
		} else {
			bs[i] = byte(a[i].n)
		}
	}
	return V{p: &Str{s: string(bs), sym: sym}}
}

func bytesFromStr(s *Str) []V {
	r := make([]V, len(s.s))
	for i := range r {
		r[i] = s.at(i)
	}
	return r
}

func toE(v V, w uint8) *Expr {
	if v.p == nil {
		return mkConst(w, v.n)
	}
	return v.p.(*Expr)
}

func fromE(e *Expr) V {
	if e.op == opConst {
		return V{n: e.k}
	}
	return V{p: e}
}

func fromB(b bool) V {
	if b {
		return V{n: 1}
	}
	return V{}
}

// ---- runtime types ----

type RType struct {
	id      int
	t       types.Type
	methods sync.Map // *types.Func -> *Fn
	impl    sync.Map // *types.Interface -> bool
}

var rtypes struct {
	sync.Mutex
	m typeutil.Map
	n int
}

func rtypeOf(t types.Type) *RType {
	t = types.Unalias(t)
	rtypes.Lock()
	defer rtypes.Unlock()
	if r := rtypes.m.At(t); r != nil {
		return r.(*RType)
	}
	rtypes.n++
	r := &RType{id: rtypes.n, t: t}
	rtypes.m.Set(t, r)
	return r
}

func (r *RType) implements(it *types.Interface) bool {
	if v, ok := r.impl.Load(it); ok {
		return v.(bool)
	}
	b := types.Implements(r.t, it)
	r.impl.Store(it, b)
	return b
}

func (p *Prog) method(r *RType, m *types.Func) *Fn {
	if v, ok := r.methods.Load(m); ok {
		return v.(*Fn)
	}
	if p.prog.MethodSets.MethodSet(r.t).Lookup(m.Pkg(), m.Name()) == nil {
		return nil
	}
	f := p.prog.LookupMethod(r.t, m.Pkg(), m.Name())
	if f == nil {
		return nil
	}
	fn := p.fnOf(f)
	r.methods.Store(m, fn)
	return fn
}

// ---- kinds ----

type kind uint8

const (
	kBool kind = iota
	kInt
	kFloat
	kString
	kPtr
	kSlice
	kMap
	kChan
	kFunc
	kIface
	kStruct
	kArray
	kTuple
	kUnsafe
	kOther
)

type tinfo struct {
	k      kind
	w      uint8
	signed bool
	f32    bool
}

func infoOf(t types.Type) tinfo {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return tinfo{k: kBool}
		case types.Int, types.Int64, types.UntypedInt:
			return tinfo{kInt, 64, true, false}
		case types.Int32, types.UntypedRune:
			return tinfo{kInt, 32, true, false}
		case types.Int16:
			return tinfo{kInt, 16, true, false}
		case types.Int8:
			return tinfo{kInt, 8, true, false}
		case types.Uint, types.Uint64, types.Uintptr:
			return tinfo{kInt, 64, false, false}
		case types.Uint32:
			return tinfo{kInt, 32, false, false}
		case types.Uint16:
			return tinfo{kInt, 16, false, false}
		case types.Uint8:
			return tinfo{kInt, 8, false, false}
		case types.Float64, types.UntypedFloat:
			return tinfo{k: kFloat, w: fpW}
		case types.Float32:
			return tinfo{k: kFloat, w: fpW, f32: true}
		case types.String, types.UntypedString:
			return tinfo{k: kString}
		case types.UnsafePointer:
			return tinfo{k: kUnsafe}
		}
		return tinfo{k: kOther}
	case *types.Pointer:
		return tinfo{k: kPtr}
	case *types.Slice:
		return tinfo{k: kSlice}
	case *types.Map:
		return tinfo{k: kMap}
	case *types.Chan:
		return tinfo{k: kChan}
	case *types.Signature:
		return tinfo{k: kFunc}
	case *types.Interface:
		return tinfo{k: kIface}
	case *types.Struct:
		return tinfo{k: kStruct}
	case *types.Array:
		return tinfo{k: kArray}
	case *types.Tuple:
		return tinfo{k: kTuple}
	}
	return tinfo{k: kOther}
}

func zeroV(t types.Type) V {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		a := &Agg{f: make([]V, u.NumFields())}
		for i := range a.f {
			switch u.Field(i).Type().Underlying().(type) {
			case *types.Struct, *types.Array:
				a.f[i] = zeroV(u.Field(i).Type())
			}
		}
		return V{p: a}
	case *types.Array:
		a := &Agg{f: make([]V, u.Len())}
		switch u.Elem().Underlying().(type) {
		case *types.Struct, *types.Array:
			for i := range a.f {
				a.f[i] = zeroV(u.Elem())
			}
		}
		return V{p: a}
	case *types.Tuple:
		r := make(Tuple, u.Len())
		for i := range r {
			r[i] = zeroV(u.At(i).Type())
		}
		return V{p: r}
	}
	return V{}
}

// cloneV copies struct and array values; other values are immutable or references.
func cloneV(v V) V {
	if a, ok := v.p.(*Agg); ok {
		n := &Agg{f: make([]V, len(a.f))}
		for i := range a.f {
			n.f[i] = cloneV(a.f[i])
		}
		return V{p: n}
	}
	return v
}

// ---- equality ----

// mapKey returns a comparable key for a concrete value, ok=false if symbolic.
func mapKey(v V) (any, bool) {
	switch x := v.p.(type) {
	case nil:
		return v.n, true
	case *Expr:
		return nil, false
	case *Str:
		if !x.conc() {
			return nil, false
		}
		return x.s, true
	case *V, *MapObj, *ChanObj:
		return x, true
	case *Iface:
		k, ok := mapKey(x.v)
		if !ok {
			return nil, false
		}
		return [2]any{x.t.id, k}, true
	case *Agg:
		var sb strings.Builder
		for i := range x.f {
			k, ok := mapKey(x.f[i])
			if !ok {
				return nil, false
			}
			switch k := k.(type) {
			case uint64:
				fmt.Fprintf(&sb, "i%d;", k)
			case string:
				fmt.Fprintf(&sb, "s%d:%s;", len(k), k)
			default:
				fmt.Fprintf(&sb, "p%p;", k)
			}
		}
		return [1]any{sb.String()}, true
	}
	return v.p, true
}

// eqV builds the condition a == b for two values of the same static type.
func (w *W) eqV(t tinfo, a, b V) *Expr {
	switch t.k {
	case kBool, kInt:
		if a.p == nil && b.p == nil {
			return mkBool(a.n == b.n)
		}
		return mkEq(toE(a, t.w), toE(b, t.w))
	case kFloat:
		return mkFCmp(opFEq, toE(a, fpW), toE(b, fpW))
	case kString:
		return w.eqStr(vstr(a), vstr(b))
	}
	return w.eqDyn(a, b)
}

func (w *W) eqStr(a, b *Str) *Expr {
	if a == b {
		return exTrue
	}
	if a.opq != nil || b.opq != nil {
		if a.opq != nil && b.opq != nil && same(a.opq.e, b.opq.e) && a.opq.prec == b.opq.prec {
			return exTrue
		}
		if r := eqNumText(a, b); r != nil {
			return r
		}
		a, b = w.materialize(a), w.materialize(b)
	}
	if len(a.s) != len(b.s) {
		return exFalse
	}
	if a.sym == nil && b.sym == nil {
		return mkBool(a.s == b.s)
	}
	// Concrete mismatches first: they decide without building terms.
	for i := range a.s {
		if (a.sym == nil || a.sym[i] == nil) && (b.sym == nil || b.sym[i] == nil) && a.s[i] != b.s[i] {
			return exFalse
		}
	}
	r := exTrue
	for i := range a.s {
		if (a.sym == nil || a.sym[i] == nil) && (b.sym == nil || b.sym[i] == nil) {
			continue
		}
		r = mkAnd(r, mkEq(toE(a.at(i), 8), toE(b.at(i), 8)))
		if r == exFalse {
			return r
		}
	}
	return r
}

// eqNumText decides equality of the shortest text of a symbolic number with a
// known text or the text of another number; nil means it cannot.
func eqNumText(a, b *Str) *Expr {
	if a.opq == nil {
		a, b = b, a
	}
	e := a.opq.e
	sign := func(x *Expr) *Expr { return mkFCmp(opFLt, mkConst(fpW, 0), mkFBin(opFDiv, mkConst(fpW, f2b(1)), x)) }
	if a.opq.prec != -1 {
		return nil
	}
	if b.opq != nil {
		if b.opq.prec != -1 {
			return nil
		}
		o := b.opq.e
		return mkOr(mkAnd(mkFUn(opFIsNaN, e, 0), mkFUn(opFIsNaN, o, 0)),
			mkAnd(mkFCmp(opFEq, e, o), mkOr(mkNot(mkFCmp(opFEq, e, mkConst(fpW, 0))), mkEq(sign(e), sign(o)))))
	}
	if b.sym != nil {
		return nil
	}
	f, err := strconv.ParseFloat(b.s, 64)
	if err != nil || strconv.FormatFloat(f, 'f', -1, 64) != b.s {
		return exFalse
	}
	if f != f {
		return mkFUn(opFIsNaN, e, 0)
	}
	r := mkFCmp(opFEq, e, mkConst(fpW, f2b(f)))
	if f == 0 {
		r = mkAnd(r, mkEq(sign(e), mkBool(b.s == "0")))
	}
	return r
}

// eqDyn compares by dynamic representation (pointers, interfaces, structs).
func (w *W) eqDyn(a, b V) *Expr {
	switch x := a.p.(type) {
	case *Iface:
		y, ok := b.p.(*Iface)
		if !ok {
			return mkBool(b.p == nil && false)
		}
		if x.t != y.t {
			return exFalse
		}
		ti := infoOf(x.t.t)
		switch ti.k {
		case kSlice, kMap, kFunc:
			w.goPanicMsg("runtime error: comparing uncomparable type " + x.t.t.String())
		}
		if ti.k == kStruct || ti.k == kArray {
			return w.eqAgg(x.t.t, x.v, y.v)
		}
		return w.eqV(ti, x.v, y.v)
	case *Expr:
		return mkEq(x, toE(b, x.w))
	case *Str:
		return w.eqStr(x, vstr(b))
	case *Slice, *Closure:
		return mkBool(b.p == a.p)
	case *Agg:
		y := b.p.(*Agg)
		r := exTrue
		for i := range x.f {
			r = mkAnd(r, w.eqDyn(x.f[i], y.f[i]))
		}
		return r
	}
	if e, ok := b.p.(*Expr); ok {
		return mkEq(toE(a, e.w), e)
	}
	if s, ok := b.p.(*Str); ok {
		return w.eqStr(vstr(a), s)
	}
	return mkBool(a.n == b.n && a.p == b.p)
}

func (w *W) eqAgg(t types.Type, a, b V) *Expr {
	x, y := a.p.(*Agg), b.p.(*Agg)
	r := exTrue
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := range x.f {
			ft := u.Field(i).Type()
			ti := infoOf(ft)
			if ti.k == kStruct || ti.k == kArray {
				r = mkAnd(r, w.eqAgg(ft, x.f[i], y.f[i]))
			} else {
				r = mkAnd(r, w.eqV(ti, x.f[i], y.f[i]))
			}
		}
	case *types.Array:
		ti := infoOf(u.Elem())
		for i := range x.f {
			if ti.k == kStruct || ti.k == kArray {
				r = mkAnd(r, w.eqAgg(u.Elem(), x.f[i], y.f[i]))
			} else {
				r = mkAnd(r, w.eqV(ti, x.f[i], y.f[i]))
			}
		}
	}
	return r
}

func fullName(f *ssa.Function) string {
	if f == nil {
		return "<nil>"
	}
	if f.Origin() != nil {
		f = f.Origin()
	}
	return f.String()
}
