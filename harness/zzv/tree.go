package zzv

import (
	"github.com/stephen/cssc/internal/ast"
	"github.com/stephen/cssc/internal/lexer"
	"github.com/stephen/cssc/internal/parser"
	"github.com/stephen/cssc/internal/transformer"
	"github.com/stephen/cssc/internal/zz"
	"github.com/stephen/cssc/transforms"
)

// ---- a tree of the canonical form ----

type cstmt struct {
	pos     int    // where it starts
	at      string // name of an at-rule
	prelude []ctok
	end     lexer.Token // Semicolon or LCurly
	nested  bool        // the block holds rules
	decls   [][]ctok
	rules   []*cstmt
}

func isMark(t ctok, k lexer.Token) bool { return t.raw == "" && t.k == k }

// tree is the canonical form of text as a tree.
func tree(text string) ([]*cstmt, bool) {
	a, ok := canon(text)
	if !ok {
		return nil, false
	}
	r := &treeReader{a, 0}
	return r.stmts(), true
}

type treeReader struct {
	ts []ctok
	i  int
}

func (r *treeReader) stmts() []*cstmt {
	var out []*cstmt
	for r.i < len(r.ts) && !isMark(r.ts[r.i], lexer.RCurly) {
		s := &cstmt{pos: r.ts[r.i].pos}
		if r.ts[r.i].k == lexer.At {
			s.at = r.ts[r.i].s
			r.i++
		}
		b := r.i
		for !isMark(r.ts[r.i], lexer.LCurly) && !isMark(r.ts[r.i], lexer.Semicolon) {
			r.i++
		}
		s.prelude = r.ts[b:r.i]
		s.end = r.ts[r.i].k
		r.i++
		out = append(out, s)
		if s.end == lexer.Semicolon {
			continue
		}
		switch s.at {
		case "media", "keyframes", "-webkit-keyframes", "-o-keyframes":
			s.nested = true
			s.rules = r.stmts()
		default:
			b := r.i
			for !isMark(r.ts[r.i], lexer.RCurly) {
				if isMark(r.ts[r.i], lexer.Semicolon) {
					s.decls = append(s.decls, r.ts[b:r.i])
					b = r.i + 1
				}
				r.i++
			}
		}
		r.i++
	}
	return out
}

func (s *cstmt) empty() bool { return s.at == "" && len(s.decls) == 0 }

// nonEmpty is the list without rules that have no declarations.
func nonEmpty(l []*cstmt) []*cstmt {
	var out []*cstmt
	for _, s := range l {
		if !s.empty() {
			out = append(out, s)
		}
	}
	return out
}

func toksEqual(a, b []ctok) bool {
	if differ(a, b) == "" {
		return true
	}
	// White space in sums is the subject of C04.
	return hasSum(a) && lax(a) == lax(b)
}

// sameTrees asserts that the trees are equal; preludes of rules are compared
// by sel.
// wild stands for any tokens at the end of an expected declaration.
const wild = lexer.Token(-1)

func sameTrees(exp, got []*cstmt, sel func(a, b []ctok) bool, what string) {
	zz.Assert(len(exp) == len(got), what+": every rule is there once")
	for i, e := range exp {
		g := got[i]
		zz.Assert(e.at == g.at && e.end == g.end, what+": the rules are in order")
		if e.at == "" {
			zz.Assert(sel(e.prelude, g.prelude), what+": the selectors of a rule")
		} else {
			zz.Assert(toksEqual(e.prelude, g.prelude), what+": the prelude of an at-rule")
		}
		zz.Assert(len(e.decls) == len(g.decls), what+": every declaration is there once")
		for j := range e.decls {
			ed, gd := e.decls[j], g.decls[j]
			if n := len(ed) - 1; n >= 0 && ed[n].k == wild {
				// anything but nothing
				zz.Assert(len(gd) > n, what+": the declarations are the same")
				ed, gd = ed[:n], gd[:n]
			}
			zz.Assert(toksEqual(ed, gd), what+": the declarations are the same")
		}
		sameTrees(e.rules, g.rules, sel, what)
	}
}

// ---- all transforms off, or one that is not needed ----

func equalFold(s, lower string) bool {
	if len(s) != len(lower) {
		return false
	}
	for i := 0; i < len(s); i++ {
		c := s[i]
		if zz.Fork('A' <= c && c <= 'Z') {
			c += 32
		}
		if zz.Fork(c != lower[i]) {
			return false
		}
	}
	return true
}

func dashed(s string) bool { return len(s) > 1 && s[0] == '-' && s[1] == '-' }

// uses tells which of the six features a text needs.
func uses(text string) (u [6]bool) {
	for _, t := range refTokens(text, true) {
		switch t.k {
		case lexer.Ident:
			if equalFold(t.s, "any-link") {
				u[2] = true
			}
			if dashed(t.s) {
				u[3], u[4] = true, true
			}
		case lexer.FunctionStart:
			if equalFold(t.s, "var") {
				u[3] = true
			}
			if equalFold(t.s, "calc") {
				u[5] = true
			}
		case lexer.At:
			if t.s == "import" {
				u[0] = true
			}
			if t.s == "custom-media" {
				u[4] = true
			}
		case lexer.Delim:
			if t.s == "<" || t.s == ">" || t.s == "=" {
				u[1] = true
			}
		}
	}
	return
}

func one(i int) (o transforms.Options) {
	switch i {
	case 0:
		o.ImportRules = transforms.ImportRulesInline
	case 1:
		o.MediaFeatureRanges = transforms.MediaFeatureRangesTransform
	case 2:
		o.AnyLink = transforms.AnyLinkTransform
	case 3:
		o.CustomProperties = transforms.CustomPropertiesTransformRoot
	case 4:
		o.CustomMediaQueries = transforms.CustomMediaQueriesTransform
	case 5:
		o.CalcReduction = transforms.CalcReductionReduce
	case 6:
		o.ImportRules = transforms.ImportRulesFollow
	}
	return o
}

// Off: with transforms off (7), or on but without anything to do, nothing
// changes.
func Off(arg string) {
	text := zz.Input(arg)
	s := src(text)
	ss, err := parser.Parse(s)
	if err != nil {
		zz.Reach("rejected")
		return
	}
	exp, ok := tree(text)
	if !ok {
		zz.Reach("malformed")
		return
	}
	u := uses(text)
	for i := 0; i < 8; i++ {
		if i < 6 && u[i] {
			continue
		}
		r := &reports{}
		o := transformer.Options{Options: one(i), OriginalSource: s, Reporter: r}
		if i == 0 {
			o.ImportReplacements = map[*ast.AtRule]*ast.Stylesheet{}
		}
		out := print1(transformer.Transform(ss, o))
		got, ok := tree(out)
		zz.Assert(ok, "the output is well formed")
		zz.Assert(len(r.errs) == 0, "nothing is reported")
		e, g := nonEmpty(exp), nonEmpty(got)
		if len(e) != len(g) {
			if rest := noCustomMedia(e); len(rest) < len(e) && len(g) == len(rest) {
				sameTrees(rest, g, toksEqual, "output")
				zz.Fail("definitions of custom media queries are kept")
			}
		}
		sameTrees(e, g, toksEqual, "output")
	}
	zz.Reach("end")
}

func noCustomMedia(l []*cstmt) []*cstmt {
	var out []*cstmt
	for _, s := range l {
		if s.at != "custom-media" {
			out = append(out, s)
		}
	}
	return out
}

// ---- :any-link ----

type csel struct{ parts []cpart }

type cpart struct {
	t    ctok
	list []csel // the argument of a functional pseudo class
}

// sels reads a selector list; with expand, every :any-link becomes both :link
// and :visited.
func sels(ts []ctok, expand bool) []csel {
	var out []csel
	cur := []csel{{}}
	add := func(ps ...cpart) {
		for i := range cur {
			cur[i].parts = append(cur[i].parts[:len(cur[i].parts):len(cur[i].parts)], ps...)
		}
	}
	brackets := 0
	for i := 0; i < len(ts); i++ {
		t := ts[i]
		switch {
		case t.k == lexer.LBracket:
			brackets++
			add(cpart{t: t})
		case t.k == lexer.RBracket:
			brackets--
			add(cpart{t: t})
		case t.k == lexer.Comma && brackets == 0:
			out = append(out, cur...)
			cur = []csel{{}}
		case t.k == lexer.Ident && expand && brackets == 0 && i > 0 && ts[i-1].k == lexer.Colon && !(i > 1 && ts[i-2].k == lexer.Colon) && equalFold(t.s, "any-link"):
			var both []csel
			for _, name := range []string{"link", "visited"} {
				for _, c := range cur {
					ps := append([]cpart{}, c.parts...)
					both = append(both, csel{append(ps, cpart{t: ctok{k: lexer.Ident, s: name, raw: name}})})
				}
			}
			cur = both
		case t.k == lexer.FunctionStart:
			depth, j := 1, i+1
			for ; j < len(ts); j++ {
				if ts[j].k == lexer.FunctionStart || ts[j].k == lexer.LParen {
					depth++
				} else if ts[j].k == lexer.RParen {
					if depth--; depth == 0 {
						break
					}
				}
			}
			add(cpart{t: t, list: sels(ts[i+1:j], expand)})
			i = j
		default:
			add(cpart{t: t})
		}
	}
	return append(out, cur...)
}

func selEqual(a, b csel) bool {
	if len(a.parts) != len(b.parts) {
		return false
	}
	for i := range a.parts {
		x, y := a.parts[i], b.parts[i]
		if x.t.k != y.t.k || x.t.s != y.t.s || x.t.num != y.t.num || !subset(x.list, y.list) || !subset(y.list, x.list) {
			return false
		}
	}
	return true
}

func subset(a, b []csel) bool {
	for _, x := range a {
		found := false
		for _, y := range b {
			if selEqual(x, y) {
				found = true
				break
			}
		}
		if !found {
			return false
		}
	}
	return true
}

// AnyLink: the selectors are those obtained by substituting :link or :visited
// for every :any-link.
func AnyLink(arg string) {
	text := zz.Input(arg)
	ss, r := transform(text, one(2))
	if ss == nil {
		return
	}
	exp, ok := tree(text)
	if !ok {
		zz.Reach("malformed")
		return
	}
	out := print1(ss)
	got, ok := tree(out)
	zz.Assert(ok, "the output is well formed")
	zz.Assert(len(r.errs) == 0, "nothing is reported")
	sameTrees(noCustomMedia(nonEmpty(exp)), nonEmpty(got), func(a, b []ctok) bool {
		x, y := sels(a, true), sels(b, false)
		return subset(x, y) && subset(y, x)
	}, "output")
	zz.Reach("end")
}

// ---- custom properties ----

type cdef struct {
	value     []ctok
	important bool
	opaque    bool
}

type varRef struct {
	defs    map[string]*cdef
	active  map[string]bool
	cyclic  bool // the declaration being handled needs a definition that needs itself
	cycles  int  // how many declarations do
	bare    bool // no var() on the way had a fallback
	invalid bool // a var() that is not well formed
	left    int  // number of var() left in place for want of a definition
}

// opaques is where declarations start that the compiler does not interpret.
func opaques(ss *ast.Stylesheet) map[int]bool {
	out := map[int]bool{}
	block := func(b ast.Block) {
		if d, ok := b.(*ast.DeclarationBlock); ok {
			for _, x := range d.Declarations {
				if r, ok := x.(*ast.Raw); ok {
					out[r.Location().Start] = true
				}
			}
		}
	}
	for _, n := range ss.Nodes {
		switch x := n.(type) {
		case *ast.QualifiedRule:
			block(x.Block)
		case *ast.AtRule:
			block(x.Block)
			if q, ok := x.Block.(*ast.QualifiedRuleBlock); ok {
				for _, r := range q.Rules {
					block(r.Block)
				}
			}
		}
	}
	return out
}

func isRoot(prelude []ctok) bool {
	return len(prelude) == 2 && prelude[0].k == lexer.Colon && prelude[1].k == lexer.Ident && equalFold(prelude[1].s, "root")
}

// closing is the index of the token that closes the function at ts[i].
func closing(ts []ctok, i int) int {
	depth := 0
	for ; i < len(ts); i++ {
		switch ts[i].k {
		case lexer.FunctionStart, lexer.LParen, lexer.LBracket, lexer.LCurly:
			depth++
		case lexer.RParen, lexer.RBracket, lexer.RCurly:
			if depth--; depth == 0 {
				return i
			}
		}
	}
	return len(ts) - 1
}

func (v *varRef) subst(ts []ctok) []ctok {
	var out []ctok
	for i := 0; i < len(ts); i++ {
		t := ts[i]
		if t.k != lexer.FunctionStart || !equalFold(t.s, "var") {
			out = append(out, t)
			continue
		}
		j := closing(ts, i)
		args := ts[i+1 : j]
		if len(args) == 0 || args[0].k != lexer.Ident {
			v.invalid = true
			out = append(out, ts[i:j+1]...)
			i = j
			continue
		}
		fallback := len(args) > 1 && args[1].k == lexer.Comma
		name := args[0].s
		d := v.defs[name]
		if fallback {
			v.bare = false
		}
		switch {
		case d != nil && d.opaque:
			out = append(out, ts[i:i+2]...)
			if fallback {
				out = append(out, args[1])
				out = append(out, v.subst(args[2:])...)
			} else {
				out = append(out, args[1:]...)
			}
			out = append(out, ts[j])
		case d != nil:
			if v.active[name] {
				v.cyclic = true
				return out
			}
			v.active[name] = true
			out = append(out, v.subst(d.value)...)
			delete(v.active, name)
		case fallback:
			out = append(out, v.subst(args[2:])...)
		default:
			v.left++
			out = append(out, ts[i:j+1]...)
		}
		i = j
	}
	return out
}

// split separates a declaration into name and value; the value ends before
// !important.
func split(d []ctok) (name string, head, value, tail []ctok) {
	if len(d) < 2 || d[0].k != lexer.Ident || d[1].k != lexer.Colon {
		return "", d, nil, nil
	}
	e := len(d)
	if e >= 4 && d[e-2].k == lexer.Delim && d[e-2].s == "!" && d[e-1].k == lexer.Ident && d[e-1].s == "important" {
		e -= 2
	}
	return d[0].s, d[:2], d[2:e], d[e:]
}

func (v *varRef) stmts(l []*cstmt, top bool, opaque map[int]bool) []*cstmt {
	var out []*cstmt
	for _, s := range l {
		n := *s
		n.decls = nil
		for _, d := range s.decls {
			if opaque[d[0].pos] {
				n.decls = append(n.decls, d)
				continue
			}
			name, head, value, tail := split(d)
			if def := v.defs[name]; top && s.at == "" && isRoot(s.prelude) && def != nil && !def.opaque {
				continue
			}
			x := append([]ctok{}, head...)
			v.cyclic = false
			if val := v.subst(value); v.cyclic {
				v.cycles++
				x = append(x, ctok{k: wild})
			} else if len(val) > 0 {
				x = append(x, val...)
			} else {
				x = append(x, value...)
			}
			n.decls = append(n.decls, append(x, tail...))
		}
		n.rules = v.stmts(s.rules, false, opaque)
		out = append(out, &n)
	}
	return out
}

// Vars: var() is replaced by the definition in :root or its fallback.
func Vars(arg string) {
	text := zz.Input(arg)
	s := src(text)
	ss, err := parser.Parse(s)
	if err != nil {
		zz.Reach("rejected")
		return
	}
	in, ok := tree(text)
	if !ok {
		zz.Reach("malformed")
		return
	}
	opaque := opaques(ss)
	v := &varRef{defs: map[string]*cdef{}, active: map[string]bool{}, bare: true}
	for _, st := range in {
		if st.at != "" || !isRoot(st.prelude) {
			continue
		}
		for _, d := range st.decls {
			if opaque[d[0].pos] {
				if d[0].k == lexer.Ident && dashed(d[0].s) {
					v.defs[d[0].s] = &cdef{opaque: true}
				}
				continue
			}
			name, _, value, tail := split(d)
			if !dashed(name) {
				continue
			}
			if p := v.defs[name]; p != nil && (p.opaque || p.important && len(tail) == 0) {
				continue
			}
			v.defs[name] = &cdef{value: value, important: len(tail) > 0}
		}
	}
	exp := noCustomMedia(nonEmpty(v.stmts(in, true, opaque)))
	r := &reports{}
	out := print1(transformer.Transform(ss, transformer.Options{Options: one(3), OriginalSource: s, Reporter: r}))
	for _, e := range r.errs {
		o := checkLocated(e, "f.css", text)
		zz.Assert(len(text)-o >= 4 && equalFold(text[o:o+4], "var("), "the report is about a var()")
	}
	got, ok := tree(out)
	zz.Assert(ok, "the output is well formed")
	if v.cycles > 0 {
		zz.Reach("cyclic")
		if v.bare {
			zz.Assert(len(r.errs) > 0, "a property defined in terms of itself is reported")
		}
	} else if !v.invalid {
		zz.Assert((v.left > 0) == (len(r.errs) > 0), "undefined properties without fallback are reported")
	}
	sameTrees(exp, nonEmpty(got), toksEqual, "output")
	if v.cycles > 0 && v.bare {
		n := 0
		for _, t := range refTokens(out, true) {
			if t.k == lexer.FunctionStart && equalFold(t.s, "var") {
				n++
			}
		}
		zz.Assert(n >= v.cycles, "a var() of a property defined in terms of itself is left in place")
	}
	zz.Reach("end")
}

// ---- custom media queries ----

type mediaRef struct {
	defs   map[string][]ctok
	active map[string]bool
	cyclic bool
}

func (m *mediaRef) subst(ts []ctok) []ctok {
	var out []ctok
	for i := 0; i < len(ts); i++ {
		if ts[i].k == lexer.LParen && i+2 < len(ts) && ts[i+1].k == lexer.Ident && ts[i+2].k == lexer.RParen {
			name := ts[i+1].s
			if d, ok := m.defs[name]; ok {
				if m.active[name] {
					m.cyclic = true
					return out
				}
				m.active[name] = true
				out = append(out, m.subst(d)...)
				delete(m.active, name)
				i += 2
				continue
			}
		}
		out = append(out, ts[i])
	}
	return out
}

// CustomMedia: uses of custom media queries are replaced by the definition.
func CustomMedia(arg string) {
	text := zz.Input(arg)
	ss, r := transform(text, one(4))
	if ss == nil {
		return
	}
	in, ok := tree(text)
	if !ok {
		zz.Reach("malformed")
		return
	}
	m := &mediaRef{map[string][]ctok{}, map[string]bool{}, false}
	for _, s := range in {
		if s.at == "custom-media" {
			m.defs[s.prelude[0].s] = s.prelude[1:]
		}
	}
	var exp []*cstmt
	for _, s := range in {
		if s.at == "custom-media" || s.empty() {
			continue
		}
		n := *s
		if s.at == "media" || s.at == "import" {
			n.prelude = m.subst(s.prelude)
		}
		exp = append(exp, &n)
	}
	got, ok := tree(print1(ss))
	zz.Assert(ok, "the output is well formed")
	if m.cyclic {
		zz.Reach("cyclic")
		return
	}
	zz.Assert(len(r.errs) == 0, "nothing is reported")
	sameTrees(exp, nonEmpty(got), toksEqual, "output")
	zz.Reach("end")
}
