package main

import "math/rand"

// guesses are the numbers that are tried when the solvers give up on a
// question about floating point numbers.
var guesses = []float64{0, 1, -1, 2, -2, 3, -3, 0.5, -0.5, 0.1, 0.25, 1.5, 2.5, -2.5, 7, -7, 10, 100, -100, 33.3, 1000.125,
	4097.375, -4097.375, 65536.625, 99999.875, 123456.789, -123456.789, 999999.5, 1e6, -1e6, 0.001, 1e-7, 5e8, 1e9, -1e9}

// guess looks for numbers that satisfy all conditions. What it finds is a
// model; that it finds none means nothing.
func guess(conds []*Expr, order []uint32, tries int) ([]uint64, bool) {
	var vars []uint32
	seen := map[uint32]bool{}
	visited := map[*Expr]bool{}
	ok := true
	var walk func(e *Expr)
	walk = func(e *Expr) {
		if e == nil || visited[e] || !ok {
			return
		}
		visited[e] = true
		if e.op == opVar && !seen[uint32(e.k)] {
			seen[uint32(e.k)] = true
			if e.w != fpW {
				ok = false
				return
			}
			vars = append(vars, uint32(e.k))
		}
		walk(e.a)
		walk(e.b)
		walk(e.c)
	}
	for _, c := range conds {
		walk(c)
	}
	if !ok || len(vars) == 0 || len(vars) > 6 || len(order) != len(vars) {
		return nil, false
	}
	rnd := rand.New(rand.NewSource(1))
	m := Model{}
	for try := 0; try < tries; try++ {
		for _, v := range vars {
			f := guesses[rnd.Intn(len(guesses))]
			if rnd.Intn(4) == 0 {
				f += float64(rnd.Intn(2000)-1000) / 8
			}
			m[v] = f2b(f)
		}
		memo := map[*Expr]uint64{}
		good := true
		for _, c := range conds {
			if evalMemo(c, m, memo) == 0 {
				good = false
				break
			}
		}
		if good {
			out := make([]uint64, len(order))
			for i, v := range order {
				out[i] = m[v]
			}
			return out, true
		}
	}
	return nil, false
}
