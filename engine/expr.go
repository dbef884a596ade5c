package main

import (
	"fmt"
	"math"
	"strings"
	"sync"
)

// Expr is an immutable SMT term. Width 0 is Bool, 1..64 a bit-vector, fpW a
// 64-bit float. Terms carry a 128-bit structural hash used as identity.
type Op uint8

const (
	opConst Op = iota
	opVar
	opNot
	opAnd
	opOr
	opEq
	opUlt
	opUle
	opSlt
	opSle
	opAdd
	opSub
	opMul
	opUDiv
	opSDiv
	opURem
	opSRem
	opBAnd
	opBOr
	opBXor
	opShl
	opLShr
	opAShr
	opZExt
	opSExt
	opExtract // low w bits
	opIte
	opFAdd
	opFSub
	opFMul
	opFDiv
	opFNeg
	opFLt
	opFLe
	opFEq
	opFFromS
	opFFromU
	opFToS
	opFIsNaN
	opFIsInf
	opFFloor
	opFCeil
	opFTrunc
	opFRound
	opFRoundEven
	opInSet // byte variable a lies in set
)

const fpW = 200

type Expr struct {
	op      Op
	w       uint8
	a, b, c *Expr
	k       uint64 // const bits or var id
	h1, h2  uint64 // structural identity
	s1, s2  uint64 // shape: identity with the variable abstracted (only if exactly one variable)
	nv      int8   // number of distinct variables: 0, 1, 2 = many
	v       uint32 // the variable if nv==1
	vars    []uint32
	set     *bset
}

type varInfo struct {
	name string
	w    uint8
}

var varTab struct {
	sync.RWMutex
	byName map[string]uint32
	infos  []varInfo
}

func internVar(name string, w uint8) uint32 {
	key := fmt.Sprintf("%s/%d", name, w)
	varTab.RLock()
	id, ok := varTab.byName[key]
	varTab.RUnlock()
	if ok {
		return id
	}
	varTab.Lock()
	defer varTab.Unlock()
	if varTab.byName == nil {
		varTab.byName = map[string]uint32{}
	}
	if id, ok := varTab.byName[key]; ok {
		return id
	}
	id = uint32(len(varTab.infos))
	varTab.infos = append(varTab.infos, varInfo{name, w})
	varTab.byName[key] = id
	return id
}

func varInfoOf(id uint32) varInfo {
	varTab.RLock()
	defer varTab.RUnlock()
	return varTab.infos[id]
}

func mix(h, x uint64) uint64 {
	h ^= x + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
	h *= 0xff51afd7ed558ccd
	h ^= h >> 32
	return h
}

func fin(e *Expr) *Expr {
	h1 := mix(0x1234567, uint64(e.op)<<16|uint64(e.w))
	h2 := mix(0x89abcdef55, uint64(e.op)<<20|uint64(e.w)<<3)
	s1, s2 := h1^0x77, h2^0x99
	if e.op == opVar {
		h1 = mix(h1, e.k)
		h2 = mix(h2, e.k*3+1)
		s1 = mix(s1, uint64(e.w))
		s2 = mix(s2, uint64(e.w)+5)
		e.nv, e.v = 1, uint32(e.k)
		e.vars = []uint32{uint32(e.k)}
	} else {
		h1 = mix(h1, e.k)
		h2 = mix(h2, e.k^0x5555)
		s1 = mix(s1, e.k)
		s2 = mix(s2, e.k^0x5555)
		if e.set != nil {
			for _, q := range e.set {
				h1 = mix(h1, q)
				h2 = mix(h2, q^0x1234567)
				s1 = mix(s1, q)
				s2 = mix(s2, q^0x1234567)
			}
		}
		for _, x := range [3]*Expr{e.a, e.b, e.c} {
			if x == nil {
				continue
			}
			h1 = mix(h1, x.h1)
			h2 = mix(h2, x.h2)
			s1 = mix(s1, x.s1)
			s2 = mix(s2, x.s2)
			e.vars = unionVars(e.vars, x.vars)
		}
		switch len(e.vars) {
		case 0:
		case 1:
			e.nv, e.v = 1, e.vars[0]
		default:
			e.nv = 2
		}
	}
	e.h1, e.h2, e.s1, e.s2 = h1, h2, s1, s2
	return e
}

func unionVars(a, b []uint32) []uint32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	// subset tests avoid allocation
	i, j := 0, 0
	aSub, bSub := true, true
	for i < len(a) && j < len(b) {
		if a[i] == b[j] {
			i++
			j++
		} else if a[i] < b[j] {
			aSub = false
			i++
		} else {
			bSub = false
			j++
		}
	}
	if i < len(a) {
		aSub = false
	}
	if j < len(b) {
		bSub = false
	}
	if bSub {
		return a
	}
	if aSub {
		return b
	}
	r := make([]uint32, 0, len(a)+len(b))
	i, j = 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || (i < len(a) && a[i] < b[j]):
			r = append(r, a[i])
			i++
		case i >= len(a) || b[j] < a[i]:
			r = append(r, b[j])
			j++
		default:
			r = append(r, a[i])
			i++
			j++
		}
	}
	return r
}

func same(a, b *Expr) bool {
	return a == b || (a.h1 == b.h1 && a.h2 == b.h2)
}

func maskW(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

var (
	exTrue  = fin(&Expr{op: opConst, w: 0, k: 1})
	exFalse = fin(&Expr{op: opConst, w: 0, k: 0})
)

func mkBool(b bool) *Expr {
	if b {
		return exTrue
	}
	return exFalse
}

func mkConst(w uint8, k uint64) *Expr {
	if w == 0 {
		return mkBool(k != 0)
	}
	if w == 8 {
		return &byteConsts[k&0xff]
	}
	if w != fpW {
		k &= maskW(w)
	}
	return fin(&Expr{op: opConst, w: w, k: k})
}

var byteConsts [256]Expr

func init() {
	for i := range byteConsts {
		byteConsts[i] = *fin(&Expr{op: opConst, w: 8, k: uint64(i)})
	}
}

func mkVar(name string, w uint8) *Expr {
	return fin(&Expr{op: opVar, w: w, k: uint64(internVar(name, w))})
}

func isC(e *Expr) bool { return e.op == opConst }

func sext(k uint64, w uint8) int64 {
	if w >= 64 {
		return int64(k)
	}
	sh := 64 - w
	return int64(k<<sh) >> sh
}

func mkNot(a *Expr) *Expr {
	switch a.op {
	case opConst:
		return mkBool(a.k == 0)
	case opNot:
		return a.a
	case opInSet:
		return mkInSet(a.a, a.set.not())
	}
	return fin(&Expr{op: opNot, a: a})
}

func mkAnd(a, b *Expr) *Expr {
	if isC(a) {
		if a.k == 0 {
			return exFalse
		}
		return b
	}
	if isC(b) {
		if b.k == 0 {
			return exFalse
		}
		return a
	}
	if same(a, b) {
		return a
	}
	if (a.op == opNot && same(a.a, b)) || (b.op == opNot && same(b.a, a)) {
		return exFalse
	}
	if a.op == opInSet && b.op == opInSet && a.v == b.v {
		return mkInSet(a.a, a.set.and(b.set))
	}
	// x==c1 & x==c2, x==c1 & !(x==c2)
	if r := eqEq(a, b); r != nil {
		return r
	}
	// (p|q) & !p -> q & !p
	if a.op == opOr && b.op == opNot {
		if same(a.a, b.a) {
			return mkAnd(a.b, b)
		}
		if same(a.b, b.a) {
			return mkAnd(a.a, b)
		}
	}
	return fin(&Expr{op: opAnd, a: a, b: b})
}

func eqConst(e *Expr) (*Expr, uint64, bool) {
	if e.op == opEq && e.b.op == opConst {
		return e.a, e.b.k, true
	}
	return nil, 0, false
}

func eqEq(a, b *Expr) *Expr {
	x, c1, ok := eqConst(a)
	if ok {
		if y, c2, ok2 := eqConst(b); ok2 && same(x, y) {
			if c1 != c2 {
				return exFalse
			}
			return a
		}
		if b.op == opNot {
			if y, c2, ok2 := eqConst(b.a); ok2 && same(x, y) {
				if c1 != c2 {
					return a
				}
				return exFalse
			}
		}
		return nil
	}
	if a.op == opNot {
		if x, c1, ok := eqConst(a.a); ok {
			if y, c2, ok2 := eqConst(b); ok2 && same(x, y) {
				if c1 != c2 {
					return b
				}
				return exFalse
			}
		}
	}
	return nil
}

func mkOr(a, b *Expr) *Expr {
	if isC(a) {
		if a.k != 0 {
			return exTrue
		}
		return b
	}
	if isC(b) {
		if b.k != 0 {
			return exTrue
		}
		return a
	}
	if same(a, b) {
		return a
	}
	if (a.op == opNot && same(a.a, b)) || (b.op == opNot && same(b.a, a)) {
		return exTrue
	}
	if a.op == opInSet && b.op == opInSet && a.v == b.v {
		return mkInSet(a.a, a.set.or(b.set))
	}
	// (p&q) | (!p) etc
	if b.op == opAnd && a.op != opAnd {
		if b.a.op == opNot && same(b.a.a, a) {
			return mkOr(a, b.b)
		}
		if b.b.op == opNot && same(b.b.a, a) {
			return mkOr(a, b.a)
		}
	}
	// (p&q)|(p&!q) -> p
	if a.op == opAnd && b.op == opAnd {
		for i := 0; i < 2; i++ {
			for j := 0; j < 2; j++ {
				ax, ay, bx, by := a.a, a.b, b.a, b.b
				if i == 1 {
					ax, ay = ay, ax
				}
				if j == 1 {
					bx, by = by, bx
				}
				if same(ax, bx) && ((ay.op == opNot && same(ay.a, by)) || (by.op == opNot && same(by.a, ay))) {
					return ax
				}
			}
		}
	}
	return fin(&Expr{op: opOr, a: a, b: b})
}

func mkEq(a, b *Expr) *Expr {
	if a.w != b.w {
		panic(fmt.Sprintf("mkEq width %d %d", a.w, b.w))
	}
	if a.w == fpW {
		panic("mkEq on fp")
	}
	if isC(a) && isC(b) {
		return mkBool(a.k == b.k)
	}
	if same(a, b) {
		return exTrue
	}
	if isC(a) {
		a, b = b, a
	}
	if a.w == 0 {
		if isC(b) {
			if b.k != 0 {
				return a
			}
			return mkNot(a)
		}
		return mkOr(mkAnd(a, b), mkAnd(mkNot(a), mkNot(b)))
	}
	if isC(b) {
		switch a.op {
		case opZExt:
			if b.k > maskW(a.a.w) {
				return exFalse
			}
			return mkEq(a.a, mkConst(a.a.w, b.k))
		case opSExt:
			lo := b.k & maskW(a.a.w)
			if uint64(sext(lo, a.a.w))&maskW(a.w) != b.k {
				return exFalse
			}
			return mkEq(a.a, mkConst(a.a.w, lo))
		case opIte:
			if isC(a.b) || isC(a.c) || a.b.op == opIte || a.c.op == opIte {
				x, y := mkEq(a.b, b), mkEq(a.c, b)
				return mkIte(a.a, x, y)
			}
		case opAdd:
			if isC(a.b) {
				return mkEq(a.a, mkConst(a.w, b.k-a.b.k))
			}
		}
	}
	if a.op == opZExt && b.op == opZExt && a.a.w == b.a.w {
		return mkEq(a.a, b.a)
	}
	return canon(fin(&Expr{op: opEq, a: a, b: b}))
}

func mkIte(c, x, y *Expr) *Expr {
	if isC(c) {
		if c.k != 0 {
			return x
		}
		return y
	}
	if same(x, y) {
		return x
	}
	if x.w == 0 {
		if isC(x) {
			if x.k != 0 {
				return mkOr(c, y)
			}
			return mkAnd(mkNot(c), y)
		}
		if isC(y) {
			if y.k != 0 {
				return mkOr(mkNot(c), x)
			}
			return mkAnd(c, x)
		}
		return mkOr(mkAnd(c, x), mkAnd(mkNot(c), y))
	}
	if c.op == opNot {
		return mkIte(c.a, y, x)
	}
	if y.op == opIte && same(y.a, c) {
		y = y.c
	}
	if x.op == opIte && same(x.a, c) {
		x = x.b
	}
	return fin(&Expr{op: opIte, w: x.w, a: c, b: x, c: y})
}

func mkCmp(op Op, a, b *Expr) *Expr {
	w := a.w
	if isC(a) && isC(b) {
		switch op {
		case opUlt:
			return mkBool(a.k < b.k)
		case opUle:
			return mkBool(a.k <= b.k)
		case opSlt:
			return mkBool(sext(a.k, w) < sext(b.k, w))
		case opSle:
			return mkBool(sext(a.k, w) <= sext(b.k, w))
		}
	}
	if same(a, b) {
		return mkBool(op == opUle || op == opSle)
	}
	// Narrow comparisons of zero-extended values with constants.
	if a.op == opZExt && isC(b) {
		n := a.a.w
		if op == opSlt || op == opSle {
			if n < w {
				s := sext(b.k, w)
				if s < 0 {
					return exFalse
				}
				if op == opSlt {
					op = opUlt
				} else {
					op = opUle
				}
			}
		}
		if op == opUlt || op == opUle {
			if b.k > maskW(n) {
				return exTrue
			}
			return mkCmp(op, a.a, mkConst(n, b.k))
		}
	}
	if b.op == opZExt && isC(a) {
		n := b.a.w
		if op == opSlt || op == opSle {
			if n < w {
				s := sext(a.k, w)
				if s < 0 {
					return exTrue
				}
				if op == opSlt {
					op = opUlt
				} else {
					op = opUle
				}
			}
		}
		if op == opUlt || op == opUle {
			if a.k > maskW(n) {
				return exFalse
			}
			return mkCmp(op, mkConst(n, a.k), b.a)
		}
	}
	if a.op == opZExt && b.op == opZExt && a.a.w == b.a.w && a.a.w < w {
		if op == opSlt {
			op = opUlt
		} else if op == opSle {
			op = opUle
		}
		return mkCmp(op, a.a, b.a)
	}
	if op == opUlt && isC(b) && b.k == 0 {
		return exFalse
	}
	if op == opUle && isC(a) && a.k == 0 {
		return exTrue
	}
	if op == opUle && isC(b) && b.k == maskW(w) {
		return exTrue
	}
	if op == opUlt && isC(a) && a.k == maskW(w) {
		return exFalse
	}
	if a.op == opIte && isC(b) && isC(a.b) && isC(a.c) {
		return mkIte(a.a, mkCmp(op, a.b, b), mkCmp(op, a.c, b))
	}
	if b.op == opIte && isC(a) && isC(b.b) && isC(b.c) {
		return mkIte(b.a, mkCmp(op, a, b.b), mkCmp(op, a, b.c))
	}
	return canon(fin(&Expr{op: op, a: a, b: b}))
}

func foldBin(op Op, w uint8, x, y uint64) (uint64, bool) {
	m := maskW(w)
	switch op {
	case opAdd:
		return (x + y) & m, true
	case opSub:
		return (x - y) & m, true
	case opMul:
		return (x * y) & m, true
	case opUDiv:
		if y == 0 {
			return m, true
		}
		return x / y, true
	case opURem:
		if y == 0 {
			return x, true
		}
		return x % y, true
	case opSDiv:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			if sx < 0 {
				return 1, true
			}
			return m, true
		}
		if sy == -1 {
			return uint64(-sx) & m, true
		}
		return uint64(sx/sy) & m, true
	case opSRem:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			return x, true
		}
		if sy == -1 {
			return 0, true
		}
		return uint64(sx%sy) & m, true
	case opBAnd:
		return x & y, true
	case opBOr:
		return x | y, true
	case opBXor:
		return x ^ y, true
	case opShl:
		if y >= uint64(w) {
			return 0, true
		}
		return (x << y) & m, true
	case opLShr:
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case opAShr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sext(x, w)>>y) & m, true
	}
	return 0, false
}

func mkBin(op Op, a, b *Expr) *Expr {
	w := a.w
	if a.w != b.w {
		panic(fmt.Sprintf("mkBin %d width %d %d", op, a.w, b.w))
	}
	if isC(a) && isC(b) {
		if r, ok := foldBin(op, w, a.k, b.k); ok {
			return mkConst(w, r)
		}
	}
	if isC(a) && (op == opAdd || op == opMul || op == opBAnd || op == opBOr || op == opBXor) {
		a, b = b, a
	}
	if isC(b) {
		switch op {
		case opAdd, opSub, opBOr, opBXor, opShl, opLShr, opAShr:
			if b.k == 0 {
				return a
			}
		case opMul:
			if b.k == 0 {
				return b
			}
			if b.k == 1 {
				return a
			}
		case opBAnd:
			if b.k == 0 {
				return b
			}
			if b.k == maskW(w) {
				return a
			}
			if a.op == opZExt && b.k&maskW(a.a.w) == maskW(a.a.w) {
				return a
			}
		case opUDiv, opSDiv:
			if b.k == 1 {
				return a
			}
		}
		if op == opSub {
			return mkBin(opAdd, a, mkConst(w, -b.k))
		}
		if op == opAdd && a.op == opAdd && isC(a.b) {
			return mkBin(opAdd, a.a, mkConst(w, a.b.k+b.k))
		}
		if (op == opLShr || op == opShl) && b.k >= uint64(w) {
			return mkConst(w, 0)
		}
		if a.op == opIte && isC(a.b) && isC(a.c) {
			return mkIte(a.a, mkBin(op, a.b, b), mkBin(op, a.c, b))
		}
	}
	if op == opSub && same(a, b) {
		return mkConst(w, 0)
	}
	return fin(&Expr{op: op, w: w, a: a, b: b})
}

func mkZExt(a *Expr, w uint8) *Expr {
	if a.w == w {
		return a
	}
	if isC(a) {
		return mkConst(w, a.k)
	}
	if a.op == opZExt {
		return mkZExt(a.a, w)
	}
	if a.op == opIte && isC(a.b) && isC(a.c) {
		return mkIte(a.a, mkZExt(a.b, w), mkZExt(a.c, w))
	}
	return fin(&Expr{op: opZExt, w: w, a: a})
}

func mkSExt(a *Expr, w uint8) *Expr {
	if a.w == w {
		return a
	}
	if isC(a) {
		return mkConst(w, uint64(sext(a.k, a.w)))
	}
	if a.op == opZExt {
		return mkZExt(a.a, w)
	}
	if a.op == opIte && isC(a.b) && isC(a.c) {
		return mkIte(a.a, mkSExt(a.b, w), mkSExt(a.c, w))
	}
	return fin(&Expr{op: opSExt, w: w, a: a})
}

func mkTrunc(a *Expr, w uint8) *Expr {
	if a.w == w {
		return a
	}
	if isC(a) {
		return mkConst(w, a.k)
	}
	if a.op == opZExt || a.op == opSExt {
		if a.a.w == w {
			return a.a
		}
		if a.a.w > w {
			return mkTrunc(a.a, w)
		}
		if a.op == opZExt {
			return mkZExt(a.a, w)
		}
		return mkSExt(a.a, w)
	}
	if a.op == opIte {
		return mkIte(a.a, mkTrunc(a.b, w), mkTrunc(a.c, w))
	}
	return fin(&Expr{op: opExtract, w: w, a: a})
}

// ---- floats ----

func f2b(f float64) uint64 { return math.Float64bits(f) }
func b2f(b uint64) float64 { return math.Float64frombits(b) }

func mkFBin(op Op, a, b *Expr) *Expr {
	if isC(a) && isC(b) {
		x, y := b2f(a.k), b2f(b.k)
		switch op {
		case opFAdd:
			return mkConst(fpW, f2b(x+y))
		case opFSub:
			return mkConst(fpW, f2b(x-y))
		case opFMul:
			return mkConst(fpW, f2b(x*y))
		case opFDiv:
			return mkConst(fpW, f2b(x/y))
		}
	}
	if op == opFAdd || op == opFMul { // commutative: canonical order
		if b.h1 < a.h1 {
			a, b = b, a
		}
	}
	return fin(&Expr{op: op, w: fpW, a: a, b: b})
}

func mkFCmp(op Op, a, b *Expr) *Expr {
	if isC(a) && isC(b) {
		x, y := b2f(a.k), b2f(b.k)
		switch op {
		case opFLt:
			return mkBool(x < y)
		case opFLe:
			return mkBool(x <= y)
		case opFEq:
			return mkBool(x == y)
		}
	}
	return fin(&Expr{op: op, a: a, b: b})
}

func mkFUn(op Op, a *Expr, w uint8) *Expr {
	if isC(a) {
		switch op {
		case opFNeg:
			return mkConst(fpW, f2b(-b2f(a.k)))
		case opFFromS:
			return mkConst(fpW, f2b(float64(sext(a.k, a.w))))
		case opFFromU:
			return mkConst(fpW, f2b(float64(a.k)))
		case opFToS:
			return mkConst(w, uint64(int64(b2f(a.k))))
		case opFIsNaN:
			return mkBool(math.IsNaN(b2f(a.k)))
		case opFIsInf:
			return mkBool(math.IsInf(b2f(a.k), 0))
		case opFFloor, opFCeil, opFTrunc, opFRound, opFRoundEven:
			return mkConst(fpW, f2b(roundings[op](b2f(a.k))))
		}
	}
	return fin(&Expr{op: op, w: w, a: a})
}

var roundings = map[Op]func(float64) float64{
	opFFloor: math.Floor, opFCeil: math.Ceil, opFTrunc: math.Trunc, opFRound: math.Round, opFRoundEven: math.RoundToEven,
}

// ---- evaluation under a model ----

type Model map[uint32]uint64

func (m Model) eval(e *Expr) uint64 { return evalMemo(e, m, map[*Expr]uint64{}) }

func evalMemo(e *Expr, m Model, memo map[*Expr]uint64) uint64 {
	switch e.op {
	case opConst:
		return e.k
	case opVar:
		return m[uint32(e.k)]
	}
	if r, ok := memo[e]; ok {
		return r
	}
	var r uint64
	ev := func(x *Expr) uint64 { return evalMemo(x, m, memo) }
	bo := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch e.op {
	case opNot:
		r = 1 - ev(e.a)
	case opAnd:
		if ev(e.a) == 0 {
			r = 0
		} else {
			r = ev(e.b)
		}
	case opOr:
		if ev(e.a) == 1 {
			r = 1
		} else {
			r = ev(e.b)
		}
	case opEq:
		r = bo(ev(e.a) == ev(e.b))
	case opUlt:
		r = bo(ev(e.a) < ev(e.b))
	case opUle:
		r = bo(ev(e.a) <= ev(e.b))
	case opSlt:
		r = bo(sext(ev(e.a), e.a.w) < sext(ev(e.b), e.a.w))
	case opSle:
		r = bo(sext(ev(e.a), e.a.w) <= sext(ev(e.b), e.a.w))
	case opZExt:
		r = ev(e.a)
	case opSExt:
		r = uint64(sext(ev(e.a), e.a.w)) & maskW(e.w)
	case opExtract:
		r = ev(e.a) & maskW(e.w)
	case opInSet:
		r = bo(e.set.has(byte(ev(e.a))))
	case opIte:
		if ev(e.a) != 0 {
			r = ev(e.b)
		} else {
			r = ev(e.c)
		}
	case opFAdd:
		r = f2b(b2f(ev(e.a)) + b2f(ev(e.b)))
	case opFSub:
		r = f2b(b2f(ev(e.a)) - b2f(ev(e.b)))
	case opFMul:
		r = f2b(b2f(ev(e.a)) * b2f(ev(e.b)))
	case opFDiv:
		r = f2b(b2f(ev(e.a)) / b2f(ev(e.b)))
	case opFNeg:
		r = f2b(-b2f(ev(e.a)))
	case opFLt:
		r = bo(b2f(ev(e.a)) < b2f(ev(e.b)))
	case opFLe:
		r = bo(b2f(ev(e.a)) <= b2f(ev(e.b)))
	case opFEq:
		r = bo(b2f(ev(e.a)) == b2f(ev(e.b)))
	case opFFromS:
		r = f2b(float64(sext(ev(e.a), e.a.w)))
	case opFFromU:
		r = f2b(float64(ev(e.a)))
	case opFToS:
		r = uint64(int64(b2f(ev(e.a)))) & maskW(e.w)
	case opFIsNaN:
		r = bo(math.IsNaN(b2f(ev(e.a))))
	case opFFloor, opFCeil, opFTrunc, opFRound, opFRoundEven:
		r = f2b(roundings[e.op](b2f(ev(e.a))))
	case opFIsInf:
		r = bo(math.IsInf(b2f(ev(e.a)), 0))
	default:
		r, _ = foldBin(e.op, e.w, ev(e.a), ev(e.b))
	}
	memo[e] = r
	return r
}

// ---- SMT-LIB printing ----

var opNames = map[Op]string{
	opNot: "not", opAnd: "and", opOr: "or", opEq: "=", opUlt: "bvult", opUle: "bvule",
	opSlt: "bvslt", opSle: "bvsle", opAdd: "bvadd", opSub: "bvsub", opMul: "bvmul",
	opUDiv: "bvudiv", opSDiv: "bvsdiv", opURem: "bvurem", opSRem: "bvsrem", opBAnd: "bvand",
	opBOr: "bvor", opBXor: "bvxor", opShl: "bvshl", opLShr: "bvlshr", opAShr: "bvashr",
	opIte: "ite", opFNeg: "fp.neg", opFLt: "fp.lt", opFLe: "fp.leq", opFEq: "fp.eq",
	opFIsNaN: "fp.isNaN", opFIsInf: "fp.isInfinite",
	opFFloor: "fp.roundToIntegral RTN", opFCeil: "fp.roundToIntegral RTP", opFTrunc: "fp.roundToIntegral RTZ",
	opFRound: "fp.roundToIntegral RNA", opFRoundEven: "fp.roundToIntegral RNE",
}

func sortOf(w uint8) string {
	switch {
	case w == 0:
		return "Bool"
	case w == fpW:
		return "(_ FloatingPoint 11 53)"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func varSym(id uint32) string { return fmt.Sprintf("v%d", id) }

// smt renders e, introducing let-bindings for shared nodes.
func smt(e *Expr) string {
	cnt := map[*Expr]int{}
	var order []*Expr
	var visit func(x *Expr)
	visit = func(x *Expr) {
		if x == nil {
			return
		}
		cnt[x]++
		if cnt[x] > 1 {
			return
		}
		visit(x.a)
		visit(x.b)
		visit(x.c)
		order = append(order, x)
	}
	visit(e)
	names := map[*Expr]string{}
	var sb strings.Builder
	lets := 0
	var pr func(x *Expr, sb *strings.Builder)
	pr = func(x *Expr, sb *strings.Builder) {
		if n, ok := names[x]; ok {
			sb.WriteString(n)
			return
		}
		prNode(x, sb, pr)
	}
	for _, x := range order {
		if cnt[x] > 1 && x != e && x.op != opConst && x.op != opVar {
			n := fmt.Sprintf("?l%d", lets)
			lets++
			sb.WriteString("(let ((" + n + " ")
			prNode(x, &sb, pr)
			sb.WriteString(")) ")
			names[x] = n
		}
	}
	pr(e, &sb)
	for i := 0; i < lets; i++ {
		sb.WriteByte(')')
	}
	return sb.String()
}

func prNode(x *Expr, sb *strings.Builder, pr func(*Expr, *strings.Builder)) {
	switch x.op {
	case opConst:
		switch {
		case x.w == 0:
			if x.k != 0 {
				sb.WriteString("true")
			} else {
				sb.WriteString("false")
			}
		case x.w == fpW:
			fmt.Fprintf(sb, "((_ to_fp 11 53) (_ bv%d 64))", x.k)
		default:
			fmt.Fprintf(sb, "(_ bv%d %d)", x.k, x.w)
		}
		return
	case opVar:
		sb.WriteString(varSym(uint32(x.k)))
		return
	case opInSet:
		x.set.smt(varSym(x.v), sb)
		return
	case opZExt:
		fmt.Fprintf(sb, "((_ zero_extend %d) ", x.w-x.a.w)
		pr(x.a, sb)
		sb.WriteByte(')')
		return
	case opSExt:
		fmt.Fprintf(sb, "((_ sign_extend %d) ", x.w-x.a.w)
		pr(x.a, sb)
		sb.WriteByte(')')
		return
	case opExtract:
		fmt.Fprintf(sb, "((_ extract %d 0) ", x.w-1)
		pr(x.a, sb)
		sb.WriteByte(')')
		return
	case opFAdd, opFSub, opFMul, opFDiv:
		n := map[Op]string{opFAdd: "fp.add", opFSub: "fp.sub", opFMul: "fp.mul", opFDiv: "fp.div"}[x.op]
		sb.WriteString("(" + n + " RNE ")
		pr(x.a, sb)
		sb.WriteByte(' ')
		pr(x.b, sb)
		sb.WriteByte(')')
		return
	case opFFromS:
		sb.WriteString("((_ to_fp 11 53) RNE ")
		pr(x.a, sb)
		sb.WriteByte(')')
		return
	case opFFromU:
		sb.WriteString("((_ to_fp_unsigned 11 53) RNE ")
		pr(x.a, sb)
		sb.WriteByte(')')
		return
	case opFToS:
		fmt.Fprintf(sb, "((_ fp.to_sbv %d) RTZ ", x.w)
		pr(x.a, sb)
		sb.WriteByte(')')
		return
	}
	sb.WriteString("(" + opNames[x.op])
	for _, y := range [3]*Expr{x.a, x.b, x.c} {
		if y != nil {
			sb.WriteByte(' ')
			pr(y, sb)
		}
	}
	sb.WriteByte(')')
}
