package zzv

import (
	"strconv"

	"github.com/stephen/cssc/internal/ast"
	"github.com/stephen/cssc/internal/lexer"
	"github.com/stephen/cssc/internal/parser"
	"github.com/stephen/cssc/internal/transformer"
	"github.com/stephen/cssc/internal/zz"
	"github.com/stephen/cssc/transforms"
)

func isNumeric(t ctok) bool {
	return t.k == lexer.Number || t.k == lexer.Percentage || t.k == lexer.Dimension
}

func unit(t ctok) string {
	if t.k == lexer.Percentage {
		return "%"
	}
	if t.k == lexer.Number {
		return ""
	}
	return t.s
}

func number(t ctok) (float64, bool) {
	f, err := strconv.ParseFloat(t.num, 64)
	return f, err == nil
}

func abs(f float64) float64 {
	if f < 0 {
		return -f
	}
	return f
}

// near is whether got is want up to rounding.
func near(got, want float64) bool {
	if zz.SameFloat(got, want) {
		return true
	}
	d := abs(got - want)
	return d <= 1e-9 || d <= 1e-9*abs(want)
}

// ---- media feature ranges ----

// aRange is a range in a media query.
type aRange struct {
	name        string
	left, right []ctok
	op          string // < <= > >=
}

// readRange reads the range whose parenthesis opens at ts[i]; j is the index
// of the closing one.
func readRange(ts []ctok, i int) (r aRange, j int, ok bool) {
	j = closing(ts, i)
	var parts [][]ctok
	var ops []string
	cur := []ctok{}
	depth := 0
	for k := i + 1; k < j; k++ {
		t := ts[k]
		switch t.k {
		case lexer.FunctionStart, lexer.LParen, lexer.LBracket:
			depth++
		case lexer.RParen, lexer.RBracket:
			depth--
		}
		if depth == 0 && t.k == lexer.Delim && (t.s == "<" || t.s == ">") {
			op := t.s
			if k+1 < j && ts[k+1].k == lexer.Delim && ts[k+1].s == "=" {
				op += "="
				k++
			}
			ops = append(ops, op)
			parts = append(parts, cur)
			cur = nil
			continue
		}
		cur = append(cur, t)
	}
	parts = append(parts, cur)
	if len(ops) == 0 || len(ops) > 2 {
		return r, j, false
	}
	isName := func(p []ctok) bool { return len(p) == 1 && p[0].k == lexer.Ident }
	r.op = ops[0]
	switch {
	case len(ops) == 2:
		if ops[0] != ops[1] || !isName(parts[1]) {
			return r, j, false
		}
		r.left, r.name, r.right = parts[0], parts[1][0].s, parts[2]
	case isName(parts[0]) && !isName(parts[1]):
		r.name, r.right = parts[0][0].s, parts[1]
	case isName(parts[1]):
		r.name, r.left = parts[1][0].s, parts[0]
	default:
		return r, j, false
	}
	return r, j, true
}

// bound checks that the tokens of got from i on are the feature query for one
// bound of a range; it returns the index after it.
func bound(got []ctok, i int, lower, strict bool, name string, value []ctok) int {
	side := "max-"
	if lower {
		side = "min-"
	}
	zz.Assert(i+4 < len(got) && got[i].k == lexer.LParen && got[i+1].k == lexer.Ident && got[i+2].k == lexer.Colon, "a bound becomes a feature query")
	zz.Assert(got[i+1].s == side+name, "the bound is on the correct side")
	j := closing(got, i)
	val := got[i+3 : j]
	if !strict {
		zz.Assert(toksEqual(val, value), "an inclusive bound is the same value")
		return j + 1
	}
	zz.Assert(len(val) == 1 && isNumeric(val[0]), "an exclusive bound is a number")
	zz.Assert(unit(val[0]) == unit(value[0]), "the unit of a bound")
	old, _ := number(value[0])
	now, ok := number(val[0])
	zz.Assert(ok, "an exclusive bound is a number")
	checkBound(old, now, lower)
	return j + 1
}

func checkBound(old, now float64, lower bool) {
	if lower {
		zz.Assert(near(now, old+.001), "an exclusive lower bound is moved up by .001")
	} else {
		zz.Assert(near(now, old-.001), "an exclusive upper bound is moved down by .001")
	}
	if abs(old) < 1e9 {
		zz.Assert(now > old == lower, "an exclusive bound excludes the number")
	}
}

func movable(ts []ctok) bool {
	if len(ts) != 1 || !isNumeric(ts[0]) {
		return false
	}
	_, ok := number(ts[0])
	return ok
}

// queries compares the tokens of media queries; it returns the number of
// ranges that cannot be changed.
func queries(exp, got []ctok) (kept int) {
	i := 0
	for k := 0; k < len(exp); k++ {
		t := exp[k]
		if t.k == lexer.LParen {
			r, j, ok := readRange(exp, k)
			if ok {
				strict := len(r.op) == 1
				if strict && (r.left != nil && !movable(r.left) || r.right != nil && !movable(r.right)) {
					kept++
					zz.Assert(i+j-k < len(got) && toksEqual(exp[k:j+1], got[i:i+j-k+1]), "a range that cannot be expressed is kept")
					i += j - k + 1
					k = j
					continue
				}
				less := r.op[0] == '<'
				if r.left != nil {
					i = bound(got, i, less, strict, r.name, r.left)
				}
				if r.left != nil && r.right != nil {
					zz.Assert(i < len(got) && got[i].k == lexer.Ident && got[i].s == "and", "two bounds are joined by 'and'")
					i++
				}
				if r.right != nil {
					i = bound(got, i, !less, strict, r.name, r.right)
				}
				k = j
				continue
			}
		}
		zz.Assert(i < len(got) && t.k == got[i].k && t.s == got[i].s && t.num == got[i].num, "other parts of the query are unchanged")
		i++
	}
	zz.Assert(i == len(got), "nothing is added to the query")
	return kept
}

// Ranges: ranges become equivalent min- and max- queries.
func Ranges(arg string) {
	text := zz.Input(arg)
	ss, r := transform(text, one(1))
	if ss == nil {
		return
	}
	in, ok := tree(text)
	if !ok {
		zz.Reach("malformed")
		return
	}
	got, ok := tree(print1(ss))
	zz.Assert(ok, "the output is well formed")
	in, got = noCustomMedia(nonEmpty(in)), nonEmpty(got)
	zz.Assert(len(in) == len(got), "every rule is there once")
	kept := 0
	for i, s := range in {
		if s.at != "media" && s.at != "import" {
			continue
		}
		zz.Assert(got[i].at == s.at, "the rules are in order")
		kept += queries(s.prelude, got[i].prelude)
		got[i].prelude = s.prelude
	}
	sameTrees(in, got, toksEqual, "output")
	zz.Assert((kept > 0) == (len(r.errs) > 0), "ranges that cannot be expressed are reported")
	for _, e := range r.errs {
		checkLocated(e, "f.css", text)
	}
	zz.Reach("end")
}

// symbols replaces the numerals 0, 1, ... of the sheet by arbitrary numbers.
func symbols(n ast.Node, limit float64, fs map[string]float64) {
	if d, ok := n.(*ast.Dimension); ok {
		f, ok := fs[d.Value]
		if !ok {
			switch zz.Choice("s"+d.Value, 3) {
			case 1:
				f = zz.Float("f" + d.Value)
				zz.Assume(f >= 1e-6 && f <= limit)
			case 2:
				f = zz.Float("f" + d.Value)
				zz.Assume(f <= -1e-6 && f >= -limit)
			}
			fs[d.Value] = f
		}
		d.Value = zz.FloatText(f)
		return
	}
	for _, c := range kids(n) {
		symbols(c, limit, fs)
	}
}

// RangeNumbers is Ranges with arbitrary numbers in place of numerals.
func RangeNumbers(arg string) {
	text := zz.Input(arg)
	s := src(text)
	ss, err := parser.Parse(s)
	zz.Assert(err == nil, "valid text is accepted")
	in, ok := canon(text)
	zz.Assert(ok, "the input is well formed")
	fs := map[string]float64{}
	symbols(ss, 1e9, fs)
	r := &reports{}
	out := transformer.Transform(ss, transformer.Options{Options: one(1), OriginalSource: s, Reporter: r})
	zz.Assert(len(r.errs) == 0, "nothing is reported")
	at := out.Nodes[0].(*ast.AtRule)
	parts := at.Preludes[0].(*ast.MediaQueryList).Queries[0].Parts
	rg, _, ok := readRange(in, 1)
	zz.Assert(ok, "the template is a range")
	less, strict := rg.op[0] == '<', len(rg.op) == 1
	check := func(p ast.MediaQueryPart, lower bool, v ctok) {
		q, ok := p.(*ast.MediaFeaturePlain)
		zz.Assert(ok, "a bound becomes a feature query")
		d, ok := q.Value.(*ast.Dimension)
		zz.Assert(ok && d.Unit == unit(v), "the unit of a bound")
		side := "max-"
		if lower {
			side = "min-"
		}
		zz.Assert(q.Property.Value == side+rg.name, "the bound is on the correct side")
		now, err := strconv.ParseFloat(d.Value, 64)
		zz.Assert(err == nil, "a bound is a number")
		if strict {
			checkBound(fs[v.num], now, lower)
		} else {
			zz.Assert(now == fs[v.num], "an inclusive bound is the same value")
		}
	}
	i := 0
	if rg.left != nil {
		check(parts[0], less, rg.left[0])
		i = 2
	}
	if rg.right != nil {
		check(parts[i], !less, rg.right[0])
		i++
	} else {
		i = 1
	}
	zz.Assert(i == len(parts), "nothing is added to the query")
	zz.Reach("end")
}

// ---- calc ----

// cval is what is known about the value of an expression.
type cval struct {
	known bool // it is the number v with the unit
	v     float64
	unit  string
	typ   byte // 'n' number, 'd' dimension or percentage, '?' unknown
	ops   int  // number of operators
	ts    []ctok
	fn    bool // depends on a function
}

type evaluator struct {
	ts   []ctok
	i    int
	leaf func(t ctok) float64

	ill   int  // ill-typed operations and divisions by zero
	maybe bool // perhaps there are some hidden by functions or overflow
	bad   bool
}

func (e *evaluator) op(set string) (string, bool) {
	if e.i < len(e.ts) && e.ts[e.i].k == lexer.Delim && len(e.ts[e.i].s) == 1 {
		for k := 0; k < len(set); k++ {
			if e.ts[e.i].s[0] == set[k] {
				e.i++
				return set[k : k+1], true
			}
		}
	}
	return "", false
}

func (e *evaluator) sum() cval {
	l := e.product()
	for !e.bad {
		op, ok := e.op("+-")
		if !ok {
			break
		}
		l = e.apply(l, op, e.product())
	}
	return l
}

func (e *evaluator) product() cval {
	l := e.operand()
	for !e.bad {
		op, ok := e.op("*/")
		if !ok {
			break
		}
		l = e.apply(l, op, e.operand())
	}
	return l
}

func (e *evaluator) operand() cval {
	if e.i >= len(e.ts) {
		e.bad = true
		return cval{}
	}
	t := e.ts[e.i]
	switch {
	case isNumeric(t):
		e.i++
		c := cval{known: true, v: e.leaf(t), unit: unit(t), typ: 'd'}
		if c.unit == "" {
			c.typ = 'n'
		}
		return c
	case t.k == lexer.LParen:
		e.i++
		c := e.sum()
		if e.i >= len(e.ts) || e.ts[e.i].k != lexer.RParen {
			e.bad = true
			return c
		}
		e.i++
		return c
	case t.k == lexer.FunctionStart, t.k == lexer.LBracket:
		e.i = closing(e.ts, e.i) + 1
		return cval{typ: '?', fn: true}
	}
	e.i++
	return cval{typ: '?'}
}

func (e *evaluator) apply(l cval, op string, r cval) cval {
	out := cval{typ: '?', ops: l.ops + r.ops + 1, fn: l.fn || r.fn}
	if out.fn {
		e.maybe = true
	}
	switch op {
	case "+", "-":
		if l.typ != '?' && r.typ != '?' && l.typ != r.typ {
			e.ill++
			return out
		}
		out.typ = l.typ
		if l.typ == '?' {
			out.typ = r.typ
		}
		if l.known && r.known && l.unit == r.unit {
			out.known, out.unit = true, l.unit
			if op == "+" {
				out.v = l.v + r.v
			} else {
				out.v = l.v - r.v
			}
		}
	case "*":
		if l.typ == 'd' && r.typ == 'd' {
			e.ill++
			return out
		}
		switch {
		case l.typ == 'd' || r.typ == 'd':
			out.typ = 'd'
		case l.typ == 'n' && r.typ == 'n':
			out.typ = 'n'
		}
		if l.known && r.known {
			out.known, out.unit, out.v = true, l.unit+r.unit, l.v*r.v
		}
	case "/":
		if r.typ == 'd' {
			e.ill++
			return out
		}
		out.typ = l.typ
		if r.known {
			if zz.Fork(r.v == 0) {
				e.ill++
				return out
			}
			if l.known {
				out.known, out.unit, out.v = true, l.unit, l.v/r.v
			}
		}
	}
	if out.known && abs(out.v) > 1e300 {
		e.maybe = true
	}
	return out
}

// calcs is ts with every calc() that denotes a single value replaced.
func (e *evaluator) calcs(ts []ctok) []ctok {
	var out []ctok
	for i := 0; i < len(ts); i++ {
		t := ts[i]
		out = append(out, t)
		if t.k != lexer.FunctionStart {
			continue
		}
		j := closing(ts, i)
		inner := e.calcs(ts[i+1 : j])
		if t.s != "calc" {
			out = append(out, inner...)
			out = append(out, ts[j])
			i = j
			continue
		}
		x := &evaluator{ts: inner, leaf: e.leaf}
		v := x.sum()
		e.ill += x.ill
		e.maybe = e.maybe || x.maybe
		if x.bad || x.i != len(inner) {
			e.maybe = true
			v.known = false
		}
		if v.known && v.ops > 0 && !(inner[0].k == lexer.LParen && closing(inner, 0) == len(inner)-1) {
			k := lexer.Dimension
			if v.unit == "" {
				k = lexer.Number
			} else if v.unit == "%" {
				k = lexer.Percentage
			}
			out[len(out)-1] = ctok{k: k, s: v.unit, num: strconv.FormatFloat(v.v, 'f', -1, 64), pos: -2}
			r := &out[len(out)-1]
			r.raw = r.num + r.s
		} else {
			out = append(out, inner...)
			out = append(out, ts[j])
		}
		i = j
	}
	return out
}

// valuesEqual compares values; the numbers of results may be rounded.
func valuesEqual(exp, got []ctok) bool {
	if len(exp) != len(got) {
		return toksEqual(exp, got)
	}
	same := true
	for i, e := range exp {
		g := got[i]
		if e.pos == -2 && isNumeric(g) && unit(g) == e.s {
			a, ok := number(e)
			b, ok2 := number(g)
			if ok && ok2 && near(b, a) {
				continue
			}
		}
		if e.k != g.k || e.s != g.s || e.num != g.num {
			same = false
		}
	}
	return same || hasSum(exp) && lax(exp) == lax(got)
}

// Calc: calc() is replaced exactly if it denotes a single value, by that value.
func Calc(arg string) {
	text := zz.Input(arg)
	s := src(text)
	ss, err := parser.Parse(s)
	if err != nil {
		zz.Reach("rejected")
		return
	}
	in, ok := tree(text)
	if !ok {
		zz.Reach("malformed")
		return
	}
	opaque := opaques(ss)
	r := &reports{}
	out := print1(transformer.Transform(ss, transformer.Options{Options: one(5), OriginalSource: s, Reporter: r}))
	got, ok := tree(out)
	zz.Assert(ok, "the output is well formed")
	in, got = noCustomMedia(nonEmpty(in)), nonEmpty(got)
	zz.Assert(len(in) == len(got), "every rule is there once")
	e := &evaluator{leaf: func(t ctok) float64 {
		f, ok := number(t)
		zz.Assume(ok)
		return f
	}}
	sameCalcs(e, in, got, opaque)
	sameTrees(in, got, toksEqual, "output")
	for _, x := range r.errs {
		checkLocated(x, "f.css", text)
	}
	if e.ill > 0 {
		zz.Assert(len(r.errs) > 0, "ill-typed operations and divisions by zero are reported")
	} else if !e.maybe {
		zz.Assert(len(r.errs) == 0, "nothing else is reported")
	}
	zz.Reach("end")
}

func sameCalcs(e *evaluator, in, got []*cstmt, opaque map[int]bool) {
	for i, s := range in {
		zz.Assert(i < len(got) && len(s.decls) == len(got[i].decls), "every declaration is there once")
		for j, d := range s.decls {
			if opaque[d[0].pos] {
				continue
			}
			exp := e.calcs(d)
			zz.Assert(valuesEqual(exp, got[i].decls[j]), "calc() is replaced by the value it denotes")
			got[i].decls[j] = d
		}
		sameCalcs(e, s.rules, got[i].rules, opaque)
	}
}

// CalcNumbers is Calc of a single declaration with arbitrary numbers in place
// of numerals.
func CalcNumbers(arg string) {
	text := zz.Input(arg)
	s := src(text)
	ss, err := parser.Parse(s)
	zz.Assert(err == nil, "valid text is accepted")
	in, ok := tree(text)
	zz.Assert(ok, "the input is well formed")
	fs := map[string]float64{}
	symbols(ss, 1e6, fs)
	r := &reports{}
	out := transformer.Transform(ss, transformer.Options{Options: one(5), OriginalSource: s, Reporter: r})
	d := out.Nodes[0].(*ast.QualifiedRule).Block.(*ast.DeclarationBlock).Declarations[0].(*ast.Declaration)
	_, _, value, _ := split(in[0].decls[0])
	e := &evaluator{ts: value[1 : len(value)-1], leaf: func(t ctok) float64 { return fs[t.num] }}
	want := e.sum()
	if e.ill > 0 {
		zz.Assert(len(r.errs) > 0, "ill-typed operations and divisions by zero are reported")
	}
	if !want.known || e.ill > 0 {
		_, ok := d.Values[0].(*ast.Function)
		zz.Assert(ok && len(d.Values) == 1, "an expression without a single value is left")
		zz.Reach("left")
		return
	}
	zz.Assert(len(r.errs) == 0, "nothing else is reported")
	dim, ok := d.Values[0].(*ast.Dimension)
	zz.Assert(ok && len(d.Values) == 1, "an expression with a single value is replaced")
	zz.Assert(dim.Unit == want.unit, "the unit of the value")
	now, err := strconv.ParseFloat(dim.Value, 64)
	zz.Assert(err == nil, "the value is a number")
	zz.Assert(near(now, want.v), "the number is the value")
	zz.Reach("end")
}

var _ = transforms.Options{}
