package zzv

import (
	"github.com/stephen/cssc/internal/ast"
	"github.com/stephen/cssc/internal/lexer"
	"github.com/stephen/cssc/internal/parser"
	"github.com/stephen/cssc/internal/printer"
	"github.com/stephen/cssc/internal/zz"
)

// Canonical form of a style sheet: the token sequence of CSS Syntax with the
// differences removed that do not carry meaning where they stand (white space
// between values, around combinators, semicolons between declarations, the
// notation of an import target, An+B notation, the case of !important).

type ctok struct {
	k      lexer.Token
	s, num string
	raw    string
	pos    int // where it starts in the text
}

const (
	kNth lexer.Token = 1000 + iota // an An+B argument: s is the step, num the offset
)

type canonizer struct {
	text string
	ts   []tok
	i    int
	out  []ctok
	bad  bool

	starts []int // where every rule and at-rule starts
}

// canon returns the canonical form of text, ok is false if it is malformed.
func canon(text string) (out []ctok, ok bool) {
	c := &canonizer{text: text, ts: refTokens(text, true)}
	if c.ts[len(c.ts)-1].bad {
		return nil, false
	}
	c.rules(true, false)
	return c.out, !c.bad
}

func (c *canonizer) cur() tok { return c.ts[c.i] }

func (c *canonizer) fail() { c.bad = true }

func (c *canonizer) emit(t tok) {
	switch t.k {
	case lexer.Ident, lexer.FunctionStart, lexer.At, lexer.Hash, lexer.Dimension:
		// White space at the end of a name belongs to an escape.
		for len(t.s) > 0 && isWS(ch(t.s, len(t.s)-1)) && !(len(t.s) > 1 && t.s[len(t.s)-2] == '\\') {
			t.s = t.s[:len(t.s)-1]
		}
	}
	c.out = append(c.out, ctok{t.k, t.s, t.num, c.text[t.start:t.end], t.start})
}

func (c *canonizer) mark(k lexer.Token) { c.out = append(c.out, ctok{k: k}) }

func (c *canonizer) rules(top, keyframes bool) {
	for !c.bad {
		t := c.cur()
		switch {
		case t.k == lexer.Whitespace:
			c.i++
		case top && (t.k == lexer.CDO || t.k == lexer.CDC || t.k == lexer.Semicolon):
			c.i++
		case t.k == lexer.EOF:
			if !top {
				c.fail()
			}
			return
		case t.k == lexer.RCurly:
			if top {
				c.fail()
			}
			return
		case t.k == lexer.At && top:
			c.starts = append(c.starts, t.start)
			c.atRule()
		default:
			c.starts = append(c.starts, t.start)
			c.rule(keyframes)
		}
	}
}

// until returns the tokens before the next of the given kinds outside brackets.
func (c *canonizer) until(kinds ...lexer.Token) []tok {
	start := c.i
	var closing []lexer.Token
	for {
		t := c.cur()
		if t.k == lexer.EOF {
			c.fail()
			return nil
		}
		if len(closing) > 0 {
			if t.k == closing[len(closing)-1] {
				closing = closing[:len(closing)-1]
			}
		} else {
			for _, k := range kinds {
				if t.k == k {
					return c.ts[start:c.i]
				}
			}
		}
		switch t.k {
		case lexer.LParen, lexer.FunctionStart:
			closing = append(closing, lexer.RParen)
		case lexer.LBracket:
			closing = append(closing, lexer.RBracket)
		case lexer.LCurly:
			closing = append(closing, lexer.RCurly)
		}
		c.i++
	}
}

func (c *canonizer) plain(ts []tok) {
	for _, t := range ts {
		if t.k != lexer.Whitespace {
			c.emit(t)
		}
	}
}

func (c *canonizer) rule(keyframes bool) {
	prelude := c.until(lexer.LCurly, lexer.RCurly, lexer.Semicolon)
	if c.bad {
		return
	}
	if c.cur().k != lexer.LCurly {
		c.fail()
		return
	}
	if keyframes {
		c.plain(prelude)
	} else {
		c.selectors(prelude)
	}
	c.declarations()
}

// declarations reads a block of declarations.
func (c *canonizer) declarations() {
	c.mark(lexer.LCurly)
	c.i++
	for !c.bad {
		seg := c.until(lexer.Semicolon, lexer.RCurly)
		if c.bad {
			return
		}
		seg = trim(seg)
		if len(seg) > 0 {
			c.value(seg)
			c.mark(lexer.Semicolon)
		}
		end := c.cur().k
		c.i++
		if end == lexer.RCurly {
			break
		}
	}
	c.mark(lexer.RCurly)
}

func trim(ts []tok) []tok {
	for len(ts) > 0 && ts[0].k == lexer.Whitespace {
		ts = ts[1:]
	}
	for len(ts) > 0 && ts[len(ts)-1].k == lexer.Whitespace {
		ts = ts[:len(ts)-1]
	}
	return ts
}

func (c *canonizer) value(ts []tok) {
	excl := false
	for _, t := range ts {
		if t.k == lexer.Whitespace {
			continue
		}
		if excl && t.k == lexer.Ident && isImportant(t.s) {
			t.s = "important"
		}
		c.emit(t)
		excl = t.k == lexer.Delim && t.s == "!"
	}
}

func isImportant(s string) bool {
	const w = "important"
	if len(s) != len(w) {
		return false
	}
	for i := 0; i < len(w); i++ {
		if s[i] != w[i] && s[i] != w[i]-32 {
			return false
		}
	}
	return true
}

func (c *canonizer) atRule() {
	name := c.cur()
	c.emit(name)
	c.i++
	prelude := c.until(lexer.LCurly, lexer.RCurly, lexer.Semicolon)
	if c.bad {
		return
	}
	switch name.s {
	case "import":
		prelude = trim(prelude)
		var rest []tok
		var target string
		switch {
		case len(prelude) > 0 && (prelude[0].k == lexer.String || prelude[0].k == lexer.URL):
			target, rest = prelude[0].s, prelude[1:]
		case len(prelude) > 0 && prelude[0].k == lexer.FunctionStart:
			rest = trim(prelude[1:])
			if len(rest) == 0 || rest[0].k != lexer.String {
				c.fail()
				return
			}
			target, rest = rest[0].s, trim(rest[1:])
			if len(rest) == 0 || rest[0].k != lexer.RParen {
				c.fail()
				return
			}
			rest = rest[1:]
		default:
			c.fail()
			return
		}
		c.out = append(c.out, ctok{k: lexer.String, s: target, raw: target, pos: -1})
		c.plain(rest)
	case "media", "custom-media", "keyframes", "-webkit-keyframes", "-o-keyframes":
		c.plain(prelude)
	default:
		prelude = trim(prelude)
		for i, t := range prelude {
			if t.k == lexer.Whitespace {
				if prelude[i-1].k != lexer.Whitespace {
					c.mark(lexer.Whitespace)
				}
				continue
			}
			c.emit(t)
		}
	}
	switch c.cur().k {
	case lexer.Semicolon:
		c.mark(lexer.Semicolon)
		c.i++
	case lexer.LCurly:
		switch name.s {
		case "media", "keyframes", "-webkit-keyframes", "-o-keyframes":
			c.mark(lexer.LCurly)
			c.i++
			c.rules(false, name.s != "media")
			c.mark(lexer.RCurly)
			if !c.bad {
				c.i++
			}
		default:
			c.declarations()
		}
	default:
		c.fail()
	}
}

func isNth(name string) bool {
	return name == "nth-child" || name == "nth-last-child" || name == "nth-of-type" || name == "nth-last-of-type"
}

func isCombinator(t ctok) bool {
	return t.k == lexer.Delim && (t.s == ">" || t.s == "+" || t.s == "~")
}

func (c *canonizer) selectors(ts []tok) {
	ts = trim(ts)
	brackets := 0
	space := false
	first := len(c.out)
	for i := 0; i < len(ts); i++ {
		t := ts[i]
		if t.k == lexer.Whitespace {
			space = brackets == 0
			continue
		}
		now := ctok{k: t.k, s: t.s}
		if space && len(c.out) > first {
			prev := c.out[len(c.out)-1]
			switch {
			case isCombinator(prev), isCombinator(now):
			case prev.k == lexer.Comma, prev.k == lexer.FunctionStart, prev.k == lexer.LParen:
			case t.k == lexer.Comma, t.k == lexer.RParen:
			default:
				c.mark(lexer.Whitespace)
			}
		}
		space = false
		switch t.k {
		case lexer.LBracket:
			brackets++
		case lexer.RBracket:
			brackets--
		}
		c.emit(t)
		if t.k == lexer.FunctionStart && isNth(t.s) {
			j := i + 1
			for j < len(ts) && ts[j].k != lexer.RParen {
				j++
			}
			if j == len(ts) {
				c.fail()
				return
			}
			a, b, ok := anb(c.text[t.end:ts[j].start])
			if !ok {
				c.fail()
				return
			}
			c.out = append(c.out, ctok{k: kNth, s: a, num: b})
			i = j - 1
		}
	}
}

// decimal is the sign and digits without leading zeros of an integer.
func decimal(s string) string {
	neg := false
	if len(s) > 0 && (s[0] == '+' || s[0] == '-') {
		neg = s[0] == '-'
		s = s[1:]
	}
	for len(s) > 0 && s[0] == '0' {
		s = s[1:]
	}
	if s == "" {
		return "0"
	}
	if neg {
		return "-" + s
	}
	return s
}

// anb reads the An+B notation of CSS Syntax Level 3 (section 6) and returns
// the step and the offset as decimals.
func anb(text string) (a, b string, ok bool) {
	lower := func(c byte) byte {
		if 'A' <= c && c <= 'Z' {
			return c + 32
		}
		return c
	}
	var s []byte // lower case, comments removed, white space as ' '
	for i := 0; i < len(text); i++ {
		switch {
		case has2(text, i, '/', '*'):
			i += 2
			for !has2(text, i, '*', '/') {
				i++
				if i >= len(text) {
					return "", "", false
				}
			}
			i++
		case isWS(ch(text, i)):
			s = append(s, ' ')
		default:
			s = append(s, lower(text[i]))
		}
	}
	for len(s) > 0 && s[0] == ' ' {
		s = s[1:]
	}
	for len(s) > 0 && s[len(s)-1] == ' ' {
		s = s[:len(s)-1]
	}
	switch string(s) {
	case "even":
		return "2", "0", true
	case "odd":
		return "2", "1", true
	}
	i := 0
	if i < len(s) && (s[i] == '+' || s[i] == '-') {
		i++
	}
	d := i
	for i < len(s) && '0' <= s[i] && s[i] <= '9' {
		i++
	}
	if i == len(s) {
		if i == d {
			return "", "", false
		}
		return "0", decimal(string(s)), true
	}
	if s[i] != 'n' {
		return "", "", false
	}
	a = string(s[:i])
	if i == d {
		a += "1"
	}
	a = decimal(a)
	i++
	if i == len(s) {
		return a, "0", true
	}
	for i < len(s) && s[i] == ' ' {
		i++
	}
	if s[i] != '+' && s[i] != '-' {
		return "", "", false
	}
	sign := s[i]
	i++
	for i < len(s) && s[i] == ' ' {
		i++
	}
	d = i
	for i < len(s) && '0' <= s[i] && s[i] <= '9' {
		i++
	}
	if i != len(s) || d == i {
		return "", "", false
	}
	return a, decimal(string(sign) + string(s[d:])), true
}

func has2(s string, i int, a, b byte) bool {
	return i+1 < len(s) && s[i] == a && s[i+1] == b
}

// same asserts that two canonical forms are equal.
func same(a, b []ctok, what string) {
	if diff := differ(a, b); diff != "" {
		if hasSum(a) && lax(a) == lax(b) {
			zz.Fail(what + ": the operator of a sum in a math function is separated by white space")
		}
		zz.Fail(what + ": " + diff)
	}
}

func differ(a, b []ctok) string {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i].k != b[i].k {
			return "same kinds of tokens"
		}
		if a[i].s != b[i].s {
			return "same text"
		}
		if a[i].num != b[i].num {
			return "same number"
		}
	}
	if len(a) < len(b) {
		return "nothing added"
	}
	if len(a) > len(b) {
		return "nothing lost"
	}
	return ""
}

func isMathName(s string) bool { return s == "calc" || s == "min" || s == "max" || s == "clamp" }

// hasSum is whether there is a + or - between values in a math function.
func hasSum(a []ctok) bool {
	depth := 0
	for _, t := range a {
		switch t.k {
		case lexer.FunctionStart:
			if depth > 0 || isMathName(t.s) {
				depth++
			}
		case lexer.LParen:
			if depth > 0 {
				depth++
			}
		case lexer.RParen:
			if depth > 0 {
				depth--
			}
		case lexer.Delim:
			if depth > 0 && (t.s == "+" || t.s == "-") {
				return true
			}
		}
	}
	return false
}

func lax(a []ctok) string {
	var s []byte
	for _, t := range a {
		if t.k == lexer.String {
			s = append(s, '"')
			s = append(s, t.s...)
			s = append(s, '"')
			continue
		}
		if t.k == lexer.Ident && t.s == "important" {
			s = append(s, t.s...)
			continue
		}
		s = append(s, t.raw...)
		if t.raw == "" {
			s = append(s, byte(t.k))
		}
	}
	return string(s)
}

func print1(n ast.Node) string {
	out, err := printer.Print(n, printer.Options{})
	zz.Assert(err == nil, "printing an accepted sheet succeeds")
	return out
}

// parse returns the sheet or nil if the text is rejected.
func parse(text string) *ast.Stylesheet {
	ss, err := parser.Parse(src(text))
	if err != nil {
		zz.Reach("rejected")
		return nil
	}
	zz.Assert(ss != nil, "parsing yields a sheet or an error")
	return ss
}

// Print: an accepted sheet is printed with the same meaning.
func Print(arg string) {
	text := zz.Input(arg)
	ss := parse(text)
	if ss == nil {
		return
	}
	out := print1(ss)
	a, ok := canon(text)
	if !ok {
		// The compiler accepted text that is not well formed; nothing is known
		// about its meaning.
		zz.Reach("malformed")
		return
	}
	b, ok := canon(out)
	zz.Assert(ok, "the output is well formed")
	same(a, b, "output")
	zz.Reach("end")
}

// MustPrint is Print for text that must be accepted.
func MustPrint(arg string) {
	text := zz.Input(arg)
	ss, err := parser.Parse(src(text))
	zz.Assert(err == nil, "valid text is accepted")
	out := print1(ss)
	a, ok := canon(text)
	zz.Assert(ok, "the input is well formed")
	b, ok := canon(out)
	zz.Assert(ok, "the output is well formed")
	same(a, b, "output")
	zz.Reach("end")
}

// Verbatim: the declaration between ‹ and › (valid or not) is kept as it is
// and everything else keeps its meaning.
func Verbatim(arg string) {
	var before, mid, after string
	before, arg = cut(arg, "‹")
	mid, after = cut(arg, "›")
	b, m, e := zz.Input(before), zz.Input(mid), zz.Input(after)
	text := b + m + e
	zz.Note(text)
	ss := parse(text)
	if ss == nil {
		return
	}
	out := print1(ss)
	x, ok := canon(text)
	if !ok {
		zz.Reach("malformed")
		return
	}
	y, ok := canon(out)
	zz.Assert(ok, "the output is well formed")
	same(x, y, "output")
	zz.Assert(count(out, m) == 1, "the declaration is kept verbatim")
	zz.Reach("end")
}

func cut(s, sep string) (string, string) {
	for i := 0; i+len(sep) <= len(s); i++ {
		if s[i:i+len(sep)] == sep {
			return s[:i], s[i+len(sep):]
		}
	}
	panic("no " + sep + " in template")
}

func count(s, sub string) int {
	n := 0
	for i := 0; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			n++
		}
	}
	return n
}
