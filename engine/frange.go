package main

import "math"

// Intervals of floating point expressions. They decide comparisons such as
// overflow checks without bit-blasting arithmetic; what they leave open goes
// to the solver.
type frange struct {
	lo, hi float64
	nan    bool // may be NaN
}

var fullRange = frange{math.Inf(-1), math.Inf(1), true}

// learnF records the bounds a conjunct puts on a floating point variable.
func (p *PC) learnF(e *Expr) {
	neg := false
	if e.op == opNot {
		e, neg = e.a, true
	}
	if e.op != opFLt && e.op != opFLe && e.op != opFEq {
		if neg && e.op == opFIsNaN && e.a.op == opVar {
			r := p.varRange(uint32(e.a.k))
			r.nan = false
			p.fr[uint32(e.a.k)] = r
		}
		return
	}
	set := func(v *Expr, f func(r *frange)) {
		if v.op != opVar {
			return
		}
		r := p.varRange(uint32(v.k))
		if neg && r.nan {
			return // the comparison may be false because of NaN
		}
		f(&r)
		r.nan = false
		p.fr[uint32(v.k)] = r
	}
	a, b := e.a, e.b
	up := func(x float64) func(r *frange) { return func(r *frange) { r.hi = math.Min(r.hi, x) } }
	down := func(x float64) func(r *frange) { return func(r *frange) { r.lo = math.Max(r.lo, x) } }
	next := func(x float64, dir int) float64 { return math.Nextafter(x, math.Inf(dir)) }
	lt := func(a, b *Expr, strict bool) { // a < b or a <= b
		if isC(b) && !math.IsNaN(b2f(b.k)) {
			x := b2f(b.k)
			if strict {
				x = next(x, -1)
			}
			set(a, up(x))
		}
		if isC(a) && !math.IsNaN(b2f(a.k)) {
			x := b2f(a.k)
			if strict {
				x = next(x, 1)
			}
			set(b, down(x))
		}
	}
	switch e.op {
	case opFLt:
		if neg {
			lt(b, a, false)
		} else {
			lt(a, b, true)
		}
	case opFLe:
		if neg {
			lt(b, a, true)
		} else {
			lt(a, b, false)
		}
	case opFEq:
		if !neg {
			lt(a, b, false)
			lt(b, a, false)
		}
	}
}

func (p *PC) varRange(v uint32) frange {
	if r, ok := p.fr[v]; ok {
		return r
	}
	return fullRange
}

func outward(lo, hi float64, nan bool) frange {
	if math.IsNaN(lo) || math.IsNaN(hi) {
		return fullRange
	}
	return frange{math.Nextafter(lo, math.Inf(-1)), math.Nextafter(hi, math.Inf(1)), nan}
}

func (p *PC) frange(e *Expr, memo map[*Expr]frange) frange {
	switch e.op {
	case opConst:
		x := b2f(e.k)
		if math.IsNaN(x) {
			return fullRange
		}
		return frange{x, x, false}
	case opVar:
		return p.varRange(uint32(e.k))
	}
	if r, ok := memo[e]; ok {
		return r
	}
	r := fullRange
	switch e.op {
	case opFNeg:
		a := p.frange(e.a, memo)
		r = frange{-a.hi, -a.lo, a.nan}
	case opFFloor, opFCeil, opFTrunc, opFRound, opFRoundEven:
		a := p.frange(e.a, memo)
		r = frange{roundings[e.op](a.lo), roundings[e.op](a.hi), a.nan}
	case opIte:
		if e.w == fpW {
			b, c := p.frange(e.b, memo), p.frange(e.c, memo)
			r = frange{math.Min(b.lo, c.lo), math.Max(b.hi, c.hi), b.nan || c.nan}
		}
	case opFAdd, opFSub, opFMul, opFDiv:
		a, b := p.frange(e.a, memo), p.frange(e.b, memo)
		inf := math.IsInf(a.lo, 0) || math.IsInf(a.hi, 0) || math.IsInf(b.lo, 0) || math.IsInf(b.hi, 0)
		nan := a.nan || b.nan || inf
		switch e.op {
		case opFAdd:
			r = outward(a.lo+b.lo, a.hi+b.hi, nan)
		case opFSub:
			r = outward(a.lo-b.hi, a.hi-b.lo, nan)
		case opFMul:
			lo, hi := corners(a, b, func(x, y float64) float64 { return x * y })
			r = outward(lo, hi, nan)
		case opFDiv:
			if b.lo <= 0 && b.hi >= 0 {
				break
			}
			lo, hi := corners(a, b, func(x, y float64) float64 { return x / y })
			r = outward(lo, hi, nan)
		}
	}
	memo[e] = r
	return r
}

func corners(a, b frange, f func(x, y float64) float64) (float64, float64) {
	lo, hi := math.Inf(1), math.Inf(-1)
	for _, x := range []float64{a.lo, a.hi} {
		for _, y := range []float64{b.lo, b.hi} {
			v := f(x, y)
			if math.IsNaN(v) {
				return math.NaN(), math.NaN()
			}
			lo, hi = math.Min(lo, v), math.Max(hi, v)
		}
	}
	return lo, hi
}

// fdecide decides a boolean combination of comparisons by intervals.
func (p *PC) fdecide(e *Expr) (bool, bool) {
	switch e.op {
	case opConst:
		return e.k != 0, true
	case opNot:
		v, ok := p.fdecide(e.a)
		return !v, ok
	case opAnd, opOr:
		a, ok1 := p.fdecide(e.a)
		b, ok2 := p.fdecide(e.b)
		stop := e.op == opOr
		if ok1 && a == stop || ok2 && b == stop {
			return stop, true
		}
		return !stop, ok1 && ok2
	case opFLt, opFLe, opFEq:
		m := map[*Expr]frange{}
		a, b := p.frange(e.a, m), p.frange(e.b, m)
		nan := a.nan || b.nan
		switch e.op {
		case opFLt:
			if a.hi < b.lo && !nan {
				return true, true
			}
			if a.lo >= b.hi {
				return false, true
			}
		case opFLe:
			if a.hi <= b.lo && !nan {
				return true, true
			}
			if a.lo > b.hi {
				return false, true
			}
		case opFEq:
			if a.hi < b.lo || b.hi < a.lo {
				return false, true
			}
			if !nan && (same(e.a, e.b) || a.lo == a.hi && b.lo == b.hi && a.lo == b.lo) {
				return true, true
			}
		}
	case opFIsNaN:
		if r := p.frange(e.a, map[*Expr]frange{}); !r.nan {
			return false, true
		}
	case opFIsInf:
		if r := p.frange(e.a, map[*Expr]frange{}); !math.IsInf(r.lo, 0) && !math.IsInf(r.hi, 0) && !r.nan {
			return false, true
		}
	}
	return false, false
}

func hasFloat(e *Expr) bool {
	for _, v := range e.vars {
		if varInfoOf(v).w == fpW {
			return true
		}
	}
	return false
}
