package zzv

import (
	"errors"
	"sort"

	"github.com/stephen/cssc/internal/ast"
	"github.com/stephen/cssc/internal/lexer"
	"github.com/stephen/cssc/internal/logging"
	"github.com/stephen/cssc/internal/parser"
	"github.com/stephen/cssc/internal/sources"
	"github.com/stephen/cssc/internal/transformer"
	"github.com/stephen/cssc/internal/zz"
	"github.com/stephen/cssc/transforms"
)

// Parse: parsing any text ends with a sheet or an error.
func Parse(arg string) {
	text := zz.Input(arg)
	ss, err := parser.Parse(src(text))
	zz.Assert((ss == nil) != (err == nil), "parsing yields either a sheet or an error")
	if err != nil {
		zz.Reach("rejected")
	} else {
		zz.Reach("accepted")
	}
}

// ---- positions ----

// lineStarts is the offset of every line of text: newlines are LF, CR, FF and
// CRLF.
func lineStarts(text string) []int {
	ls := []int{0}
	for i := 0; i < len(text); i++ {
		if zz.Fork(text[i] == '\n' || text[i] == '\f' || text[i] == '\r' && !(i+1 < len(text) && text[i+1] == '\n')) {
			ls = append(ls, i+1)
		}
	}
	return ls
}

// place is the line (from 1), column (from 1), start and end of the line that
// holds the offset.
func place(text string, ls []int, o int) (line, col, start, end int) {
	n := sort.Search(len(ls), func(i int) bool { return ls[i] > o }) - 1
	end = len(text)
	if n+1 < len(ls) {
		end = ls[n+1] - 1
		if text[end] == '\n' && end > ls[n] && text[end-1] == '\r' {
			end--
		}
	}
	return n + 1, o - ls[n] + 1, ls[n], end
}

// Lines: every offset of an accepted text has the right line, column and line
// extent.
func Lines(arg string) {
	text := zz.Input(arg)
	s := src(text)
	_, err := parser.Parse(s)
	limit := len(text)
	if err != nil {
		// The position of the error is still needed.
		var le interface {
			Location() (*sources.Source, ast.Span)
		}
		if !errors.As(err, &le) {
			return
		}
		_, sp := le.Location()
		limit = sp.Start
		zz.Reach("rejected")
	}
	ls := lineStarts(text)
	for o := 0; o <= limit; o++ {
		if o > 0 && o < len(text) && text[o-1] == '\r' && text[o] == '\n' {
			continue // inside a newline
		}
		if len(text) > 1200 && o > 400 && o < len(text)-400 && o%61 != 0 {
			continue // of a long text only some offsets
		}
		line, col, start, end := place(text, ls, o)
		gl, gc := s.LineAndCol(ast.Span{Start: o, End: o})
		zz.Assert(int(gl) == line, "line")
		zz.Assert(int(gc) == col, "column")
		full := s.FullLine(ast.Span{Start: o, End: len(text)})
		zz.Assert(full.Start == start, "start of the line")
		zz.Assert(full.End == end, "end of the line")
	}

	// The answer does not depend on what was asked for before.
	again := func(o int) {
		if o > 0 && o < len(text) && text[o-1] == '\r' && text[o] == '\n' {
			return
		}
		line, col, _, _ := place(text, ls, o)
		gl, gc := s.LineAndCol(ast.Span{Start: o, End: o})
		zz.Assert(int(gl) == line, "line, asked for again")
		zz.Assert(int(gc) == col, "column, asked for again")
	}
	for i := 0; i <= limit && i < 12; i++ {
		again(limit - i)
	}
	if limit <= 6 {
		for i := 0; i <= limit; i++ {
			for j := 0; j <= limit; j++ {
				again(i)
				again(j)
			}
		}
	}
	zz.Reach("end")
}

type located interface {
	Location() (*sources.Source, ast.Span)
}

// checkLocated asserts that the message of err is rendered with a position of
// the source. It returns the offset.
func checkLocated(err error, path, text string) int {
	msg := err.Error()
	var le located
	zz.Assert(errors.As(err, &le), "the error has a location")
	s, sp := le.Location()
	zz.Assert(s != nil && s.Path == path, "the error is located in the file it is about")
	zz.Assert(s.Content == text, "the error is located in the source it is about")
	zz.Assert(sp.Start >= 0 && sp.Start <= len(text), "the error is inside the file")
	ls := lineStarts(text)
	line, col, start, end := place(text, ls, sp.Start)
	head := path + ":" + itoa(line) + ":" + itoa(col) + "\n"
	zz.Assert(len(msg) >= len(head) && msg[:len(head)] == head, "the message starts with file, line and column")
	// The message ends with the line and the marker line below it.
	quoted := "\n\t" + untab(text[start:end]) + "\n\t"
	zz.Assert(count(msg, quoted) > 0, "the message quotes the line")
	zz.Assert(logging.AnnotateSourceSpan(s, sp) != "", "the line can be annotated")
	return sp.Start
}

func untab(s string) string {
	var out []byte
	for i := 0; i < len(s); i++ {
		if zz.Fork(s[i] == '\t') {
			out = append(out, ' ', ' ')
		} else {
			out = append(out, s[i])
		}
	}
	return string(out)
}

func itoa(n int) string {
	if n < 10 {
		return string([]byte{byte('0' + n)})
	}
	return itoa(n/10) + string([]byte{byte('0' + n%10)})
}

// Errors: the error for any rejected text can be rendered and names a place.
func Errors(arg string) {
	text := zz.Input(arg)
	_, err := parser.Parse(src(text))
	if err == nil {
		zz.Reach("accepted")
		return
	}
	checkLocated(err, "f.css", text)
	zz.Reach("end")
}

// ErrorAt: the text is rejected, and the error is about the token at ‸.
func ErrorAt(arg string) {
	before, after := cut(arg, "‸")
	b := zz.Input(before)
	text := b + zz.Input(after)
	zz.Note(text)
	_, err := parser.Parse(src(text))
	zz.Assert(err != nil, "malformed text is rejected")
	o := checkLocated(err, "f.css", text)
	zz.Assert(o == len(b), "the error is about the token that is not expected")
	zz.Reach("end")
}

// ---- syntax tree ----

// kids returns the nodes directly below n in source order.
func kids(n ast.Node) []ast.Node {
	var out []ast.Node
	add := func(c ast.Node) { out = append(out, c) }
	vals := func(vs []ast.Value) {
		for _, v := range vs {
			add(v)
		}
	}
	switch n := n.(type) {
	case *ast.Stylesheet:
		for _, c := range n.Nodes {
			add(c)
		}
	case *ast.QualifiedRule:
		add(n.Prelude)
		add(n.Block)
	case *ast.AtRule:
		for _, c := range n.Preludes {
			add(c)
		}
		if n.Block != nil {
			add(n.Block)
		}
	case *ast.DeclarationBlock:
		for _, c := range n.Declarations {
			add(c)
		}
	case *ast.QualifiedRuleBlock:
		for _, c := range n.Rules {
			add(c)
		}
	case *ast.Declaration:
		vals(n.Values)
	case *ast.SelectorList:
		for _, c := range n.Selectors {
			add(c)
		}
	case *ast.Selector:
		for _, c := range n.Parts {
			add(c)
		}
	case *ast.PseudoClassSelector:
		if n.Arguments != nil {
			add(n.Arguments)
		}
	case *ast.PseudoElementSelector:
		add(n.Inner)
	case *ast.AttributeSelector:
		if n.Value != nil {
			add(n.Value)
		}
	case *ast.KeyframeSelectorList:
		for _, c := range n.Selectors {
			add(c)
		}
	case *ast.MediaQueryList:
		for _, c := range n.Queries {
			add(c)
		}
	case *ast.MediaQuery:
		for _, c := range n.Parts {
			add(c)
		}
	case *ast.MediaInParens:
		for _, c := range n.Parts {
			add(c)
		}
	case *ast.MediaFeaturePlain:
		add(n.Property)
		if n.Value != nil {
			add(n.Value)
		}
	case *ast.MediaFeatureRange:
		if n.LeftValue != nil {
			add(n.LeftValue)
		}
		add(n.Property)
		if n.RightValue != nil {
			add(n.RightValue)
		}
	case *ast.Brackets:
		vals(n.Values)
	case *ast.Function:
		vals(n.Arguments)
	case *ast.MathExpression:
		add(n.Left)
		add(n.Right)
	case *ast.MathParenthesizedExpression:
		add(n.Value)
	}
	return out
}

type visited struct {
	n    ast.Node
	name bool // the name of a range feature
}

func walkAll(n ast.Node, out []visited) []visited {
	out = append(out, visited{n, false})
	r, isRange := n.(*ast.MediaFeatureRange)
	for _, c := range kids(n) {
		i := len(out)
		out = walkAll(c, out)
		if isRange && c == ast.Node(r.Property) {
			out[i].name = true
		}
	}
	return out
}

// Walk: the walker visits what a reference walk visits.
func Walk(arg string) {
	text := zz.Input(arg)
	ss := parse(text)
	if ss == nil {
		return
	}
	want := walkAll(ss, nil)
	walkCompare(ss, want)
	// Every node can be a starting point.
	for i := 1; i < len(want); i++ {
		walkCompare(want[i].n, walkAll(want[i].n, nil))
	}
	zz.Reach("end")
}

func walkCompare(start ast.Node, want []visited) {
	var got []ast.Node
	ast.Walk(start, func(n ast.Node) {
		zz.Assert(len(got) < len(want), "nothing is visited twice")
		got = append(got, n)
	})
	j := 0
	for i, v := range want {
		if j < len(got) && got[j] == v.n {
			j++
			continue
		}
		if v.name {
			// Reported below unless nothing else is wrong.
			continue
		}
		if i > 0 {
			zz.Fail("every node is visited in source order")
		}
		zz.Fail("the start node is visited")
	}
	zz.Assert(j == len(got), "nothing else is visited")
	zz.Assert(len(got) == len(want), "the name of a range feature is visited")
}

// Spans: every node covers its source text.
func Spans(arg string) {
	text := zz.Input(arg)
	ss := parse(text)
	if ss == nil {
		return
	}
	spans(ss, nil, text, 0, len(text))
	zz.Reach("end")
}

func spans(n, parent ast.Node, text string, lo, hi int) {
	sp := n.Location()
	if ss, ok := n.(*ast.Stylesheet); ok && len(ss.Nodes) == 0 {
		return
	}
	zz.Assert(sp.Start <= sp.End, "a span starts before it ends")
	zz.Assert(sp.Start >= lo && sp.End <= hi, "a span is inside the span of its parent")
	own := text[sp.Start:sp.End]
	first := byte(0)
	if len(own) > 0 {
		first = own[0]
	}
	last := byte(0)
	if len(own) > 0 {
		last = own[len(own)-1]
	}
	starts := func(s string) bool { return len(own) >= len(s) && own[:len(s)] == s }
	ws := func(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f' }
	const at = "a span starts at the text of its node"
	const till = "a span ends with the text of its node"
	switch n := n.(type) {
	case *ast.Stylesheet, *ast.SelectorList, *ast.Selector, *ast.KeyframeSelectorList, *ast.MediaQueryList, *ast.MediaQuery:
		// Lists start where their first element starts.
		if ks := kids(n); len(ks) > 0 {
			zz.Assert(ks[0].Location().Start == sp.Start, at)
			zz.Assert(ks[len(ks)-1].Location().End == sp.End, till)
		}
	case *ast.AtRule:
		zz.Assert(starts("@"+n.Name), at)
		if n.Block != nil {
			zz.Assert(last == '}' && n.Block.Location().End == sp.End, "a rule ends at its closing brace")
		}
	case *ast.QualifiedRule:
		zz.Assert(n.Prelude.Location().Start == sp.Start, at)
		zz.Assert(last == '}' && n.Block.Location().End == sp.End, "a rule ends at its closing brace")
	case *ast.DeclarationBlock, *ast.QualifiedRuleBlock:
		zz.Assert(first == '{', at)
		zz.Assert(last == '}' && len(own) >= 2, till)
	case *ast.Declaration:
		if starts("*") {
			zz.Assert(n.Property[0] == '*', at)
		} else {
			zz.Assert(starts(n.Property), at)
		}
		if n.Important {
			zz.Assert(last == 't' || last == 'T', till)
		} else if len(n.Values) > 0 {
			zz.Assert(n.Values[len(n.Values)-1].Location().End == sp.End, till)
		}
	case *ast.Raw:
		switch {
		case n.Value != "":
			zz.Assert(own == n.Value, "a raw node covers its text")
		default:
			zz.Assert(own == "" || own == ";", "an empty raw node covers nothing or a semicolon")
		}
	case *ast.Comma:
		zz.Assert(own == ",", at)
	case *ast.Dimension:
		zz.Assert(starts(n.Value), at)
		if n.Unit == "%" {
			zz.Assert(own == n.Value+"%", till)
		} else {
			zz.Assert(own == n.Value+n.Unit, till)
		}
	case *ast.Percentage:
		zz.Assert(own == n.Value+"%", at)
	case *ast.String:
		if _, isRule := parent.(*ast.AtRule); isRule && !(first == '"' || first == '\'') {
			zz.Assert((len(own) > 4 && equalFold(own[:4], "url(") || count(own, "\\") > 0) && last == ')' && count(own, n.Value) > 0, "an import target covers its url")
		} else {
			zz.Assert(len(own) == len(n.Value)+2 && (first == '"' || first == '\'') && first == last && own[1:len(own)-1] == n.Value, "a string covers its text and quotes")
		}
	case *ast.Identifier:
		if pf, ok := parent.(*ast.Function); ok && pf.Name == "url" && len(pf.Arguments) == 1 && count(own, n.Value) == 0 {
			zz.Fail("a url covers its text")
		}
		zz.Assert(own == n.Value, "an identifier covers its text")
	case *ast.HexColor:
		zz.Assert(own == "#"+n.RGBA, "a color covers its text")
	case *ast.Brackets:
		zz.Assert(first == '[' && last == ']', "brackets cover their text")
	case *ast.Function:
		zz.Assert((starts(n.Name+"(") || n.Name == "url" && (len(own) > 4 && equalFold(own[:4], "url(") || count(own, "\\") > 0)) && last == ')', "a function covers its text")
	case *ast.MathExpression:
		zz.Assert(n.Left.Location().Start == sp.Start && n.Right.Location().End == sp.End, "a math expression covers its operands")
	case *ast.MathParenthesizedExpression:
		zz.Assert(first == '(' && last == ')', "a parenthesised expression covers its text")
	case *ast.TypeSelector:
		zz.Assert(own == n.Name, "a type selector covers its text")
	case *ast.ClassSelector:
		zz.Assert(starts(".") && len(own) > len(n.Name) && own[len(own)-len(n.Name):] == n.Name, "a class selector covers its text")
	case *ast.IDSelector:
		zz.Assert(own == "#"+n.Name, "an id selector covers its text")
	case *ast.CombinatorSelector:
		zz.Assert(own == n.Operator, "a combinator covers its text")
	case *ast.Whitespace:
		zz.Assert(len(own) > 0 && ws(first), "white space covers its text")
	case *ast.AttributeSelector:
		zz.Assert(first == '[' && last == ']', "an attribute selector covers its text")
	case *ast.PseudoClassSelector:
		zz.Assert(first == ':', at)
		if n.Arguments == nil {
			zz.Assert(len(own) > len(n.Name) && own[len(own)-len(n.Name):] == n.Name, till)
		} else {
			zz.Assert(last == ')', till)
		}
	case *ast.PseudoElementSelector:
		zz.Assert(first == ':', at)
		zz.Assert(n.Inner.End == sp.End, till)
	case *ast.ANPlusB:
		zz.Assert(len(own) > 0 && !ws(first) && !ws(last), "An+B covers its text")
	case *ast.MediaFeaturePlain, *ast.MediaFeatureRange:
		zz.Assert(first == '(' && last == ')', "a media feature covers its text")
	}
	prev := sp.Start
	for _, k := range kids(n) {
		ks := k.Location()
		zz.Assert(ks.Start >= prev, "children are in source order")
		spans(k, n, text, sp.Start, sp.End)
		prev = ks.End
	}
}

var _ = lexer.EOF

// Reports: with all transforms on, every report is about a place of the file.
func Reports(arg string) {
	text := zz.Input(arg)
	s := src(text)
	ss, err := parser.Parse(s)
	if err != nil {
		checkLocated(err, "f.css", text)
		zz.Reach("rejected")
		return
	}
	var o transforms.Options
	for i := 1; i < 6; i++ {
		p := one(i)
		o.MediaFeatureRanges |= p.MediaFeatureRanges
		o.AnyLink |= p.AnyLink
		o.CustomProperties |= p.CustomProperties
		o.CustomMediaQueries |= p.CustomMediaQueries
		o.CalcReduction |= p.CalcReduction
	}
	r := &reports{}
	transformer.Transform(ss, transformer.Options{Options: o, OriginalSource: s, Reporter: r})
	plain := parse(text)
	for _, e := range r.errs {
		at := checkLocated(e, "f.css", text)
		zz.Assert(reportable(plain, e.Error(), at), "the report is located at the construct it is about")
		zz.Reach("report")
	}
	zz.Reach("end")
}

// reportable tells whether something in n that a transform can report about
// starts at the offset.
func reportable(n ast.Node, msg string, at int) bool {
	if n.Location().Start == at {
		switch v := n.(type) {
		case *ast.Function:
			if count(msg, "undefined variable") == 0 {
				return true
			}
			if len(v.Arguments) > 0 {
				if id, ok := v.Arguments[0].(*ast.Identifier); ok && count(msg, id.Value) > 0 {
					return true
				}
			}
		case *ast.MathExpression, *ast.Dimension, *ast.Percentage, *ast.Identifier, *ast.AtRule:
			if count(msg, "undefined variable") == 0 {
				return true
			}
		}
	}
	for _, k := range kids(n) {
		if reportable(k, msg, at) {
			return true
		}
	}
	return false
}
