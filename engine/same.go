package main

import (
	"go/types"
)

// sameV builds the condition that two values of static type t are equal all
// the way down, as far as exported fields show.
func (w *W) sameV(t types.Type, a, b V, seen map[[2]*V]bool) *Expr {
	if s, ok := a.p.(*Agg); ok {
		if _, ok := b.p.(*Agg); !ok {
			b = zeroV(t)
		}
		_ = s
	} else if _, ok := b.p.(*Agg); ok {
		a = zeroV(t)
	}
	ti := infoOf(t)
	switch ti.k {
	case kBool, kInt, kFloat, kString:
		return w.eqV(ti, a, b)
	case kPtr:
		if a.p == nil || b.p == nil {
			return mkBool(a.p == nil && b.p == nil)
		}
		x, y := w.ptr(a), w.ptr(b)
		if x == y || seen[[2]*V{x, y}] {
			return exTrue
		}
		seen[[2]*V{x, y}] = true
		el := t.Underlying().(*types.Pointer).Elem()
		return w.sameV(el, w.load(x, el), w.load(y, el), seen)
	case kIface:
		x, okx := a.p.(*Iface)
		y, oky := b.p.(*Iface)
		if !okx || !oky {
			return mkBool(okx == oky)
		}
		if x.t != y.t {
			return exFalse
		}
		return w.sameV(x.t.t, x.v, y.v, seen)
	case kSlice:
		var x, y []V
		if s, ok := a.p.(*Slice); ok {
			x = s.a
		}
		if s, ok := b.p.(*Slice); ok {
			y = s.a
		}
		if len(x) != len(y) {
			return exFalse
		}
		r := exTrue
		el := t.Underlying().(*types.Slice).Elem()
		for i := range x {
			if r = mkAnd(r, w.sameV(el, x[i], y[i], seen)); r == exFalse {
				return r
			}
		}
		return r
	case kStruct:
		x, okx := a.p.(*Agg)
		y, oky := b.p.(*Agg)
		if !okx || !oky {
			return mkBool(okx == oky)
		}
		r := exTrue
		u := t.Underlying().(*types.Struct)
		for i := range x.f {
			if !u.Field(i).Exported() {
				continue
			}
			if r = mkAnd(r, w.sameV(u.Field(i).Type(), x.f[i], y.f[i], seen)); r == exFalse {
				return r
			}
		}
		return r
	case kArray:
		x, okx := a.p.(*Agg)
		y, oky := b.p.(*Agg)
		if !okx || !oky {
			return mkBool(okx == oky)
		}
		r := exTrue
		el := t.Underlying().(*types.Array).Elem()
		for i := range x.f {
			if r = mkAnd(r, w.sameV(el, x.f[i], y.f[i], seen)); r == exFalse {
				return r
			}
		}
		return r
	case kMap:
		x, _ := a.p.(*MapObj)
		y, _ := b.p.(*MapObj)
		if x == nil || y == nil {
			return mkBool((x == nil || x.n == 0) && (y == nil || y.n == 0))
		}
		if x.n != y.n {
			return exFalse
		}
		m := t.Underlying().(*types.Map)
		kt := infoOf(m.Key())
		r := exTrue
		for _, e := range x.ents {
			if e.dead {
				continue
			}
			i := w.mapFind(y, e.k, kt)
			if i < 0 {
				return exFalse
			}
			r = mkAnd(r, w.sameV(m.Elem(), e.v, y.ents[i].v, seen))
		}
		return r
	}
	return exTrue
}
