package main

import (
	"fmt"
	"math/bits"
	"strings"
	"sync"
)

// bset is a set of byte values. Every boolean term over a single byte
// variable is normalised to membership in such a set, which keeps the terms
// handed to the solver small and lets a path keep one conjunct per byte.
type bset [4]uint64

func (s *bset) has(b byte) bool { return s[b>>6]>>(b&63)&1 != 0 }
func (s *bset) put(b byte)      { s[b>>6] |= 1 << (b & 63) }
func (s *bset) not() *bset      { return &bset{^s[0], ^s[1], ^s[2], ^s[3]} }
func (s *bset) and(t *bset) *bset {
	return &bset{s[0] & t[0], s[1] & t[1], s[2] & t[2], s[3] & t[3]}
}
func (s *bset) or(t *bset) *bset {
	return &bset{s[0] | t[0], s[1] | t[1], s[2] | t[2], s[3] | t[3]}
}
func (s *bset) empty() bool { return s[0]|s[1]|s[2]|s[3] == 0 }
func (s *bset) full() bool  { return s[0]&s[1]&s[2]&s[3] == ^uint64(0) }
func (s *bset) n() int {
	return bits.OnesCount64(s[0]) + bits.OnesCount64(s[1]) + bits.OnesCount64(s[2]) + bits.OnesCount64(s[3])
}
func (s *bset) min() byte {
	for i, q := range s {
		if q != 0 {
			return byte(i*64 + bits.TrailingZeros64(q))
		}
	}
	return 0
}
func (s *bset) subset(t *bset) bool {
	return s[0]&^t[0]|s[1]&^t[1]|s[2]&^t[2]|s[3]&^t[3] == 0
}
func (s *bset) disjoint(t *bset) bool {
	return s[0]&t[0]|s[1]&t[1]|s[2]&t[2]|s[3]&t[3] == 0
}

var fullSet = &bset{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}

// smt writes the membership test as a union of ranges.
func (s *bset) smt(v string, sb *strings.Builder) {
	if s.n() > 128 {
		sb.WriteString("(not ")
		s.not().smt(v, sb)
		sb.WriteByte(')')
		return
	}
	sb.WriteString("(or false")
	for i := 0; i < 256; {
		if !s.has(byte(i)) {
			i++
			continue
		}
		j := i
		for j+1 < 256 && s.has(byte(j+1)) {
			j++
		}
		if i == j {
			fmt.Fprintf(sb, " (= %s #x%02x)", v, i)
		} else {
			fmt.Fprintf(sb, " (and (bvule #x%02x %s) (bvule %s #x%02x))", i, v, v, j)
		}
		i = j + 1
	}
	sb.WriteByte(')')
}

func mkInSet(v *Expr, s *bset) *Expr {
	if s.empty() {
		return exFalse
	}
	if s.full() {
		return exTrue
	}
	return fin(&Expr{op: opInSet, a: v, set: s})
}

var ttCache [64]struct {
	sync.RWMutex
	m map[hkey]*Expr
}

// canon turns a boolean term over one byte variable into a membership test.
func canon(e *Expr) *Expr {
	if e.w != 0 || e.nv != 1 || e.op == opInSet || varInfoOf(e.v).w != 8 {
		return e
	}
	sh := &ttCache[e.h1&63]
	k := hkey{e.h1, e.h2}
	sh.RLock()
	r := sh.m[k]
	sh.RUnlock()
	if r != nil {
		return r
	}
	var vx *Expr
	memo := map[*Expr]*[256]uint64{}
	var tab func(x *Expr) *[256]uint64
	tab = func(x *Expr) *[256]uint64 {
		if t := memo[x]; t != nil {
			return t
		}
		t := new([256]uint64)
		switch x.op {
		case opConst:
			for i := range t {
				t[i] = x.k
			}
		case opVar:
			vx = x
			for i := range t {
				t[i] = uint64(i)
			}
		case opInSet:
			vx = x.a
			for i := range t {
				if x.set.has(byte(i)) {
					t[i] = 1
				}
			}
		default:
			y := *x
			var ca, cb, cc Expr
			var ta, tb, tc *[256]uint64
			if x.a != nil {
				ta = tab(x.a)
				ca = Expr{op: opConst, w: x.a.w}
				y.a = &ca
			}
			if x.b != nil {
				tb = tab(x.b)
				cb = Expr{op: opConst, w: x.b.w}
				y.b = &cb
			}
			if x.c != nil {
				tc = tab(x.c)
				cc = Expr{op: opConst, w: x.c.w}
				y.c = &cc
			}
			for i := range t {
				if ta != nil {
					ca.k = ta[i]
				}
				if tb != nil {
					cb.k = tb[i]
				}
				if tc != nil {
					cc.k = tc[i]
				}
				t[i] = evalNode(&y)
			}
		}
		memo[x] = t
		return t
	}
	t := tab(e)
	s := new(bset)
	for i, b := range t {
		if b != 0 {
			s.put(byte(i))
		}
	}
	r = mkInSet(vx, s)
	sh.Lock()
	if sh.m == nil {
		sh.m = map[hkey]*Expr{}
	}
	sh.m[k] = r
	sh.Unlock()
	return r
}

// evalNode evaluates a node whose children are constants.
func evalNode(e *Expr) uint64 { return evalMemo(e, nil, map[*Expr]uint64{}) }
