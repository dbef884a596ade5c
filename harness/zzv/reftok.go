package zzv

import "github.com/stephen/cssc/internal/lexer"

// A direct transcription of the tokenizer of CSS Syntax Level 3, section 4,
// over bytes. Bytes above 0x7f belong to non-ASCII code points, all of which
// are name-start code points; NUL is U+FFFD after preprocessing.

type tok struct {
	k          lexer.Token
	s          string // name, string, url or delimiter text, escapes as written
	num        string
	start, end int
	bad        bool // the specification calls this a parse error
	id         bool // hash token with type "id"
}

// ch returns the code point class at i: -1 at the end, '\n' for any newline
// byte, 0x80 for anything non-ASCII or NUL.
func ch(s string, i int) int {
	if i >= len(s) || i < 0 {
		return -1
	}
	return norm(s[i])
}

func norm(b byte) int {
	if b == '\r' || b == '\f' {
		return '\n'
	}
	if b >= 0x80 || b == 0 {
		return 0x80
	}
	return int(b)
}

func isWS(c int) bool    { return c == ' ' || c == '\t' || c == '\n' }
func isDigit(c int) bool { return '0' <= c && c <= '9' }
func isHex(c int) bool {
	return isDigit(c) || 'a' <= c && c <= 'f' || 'A' <= c && c <= 'F'
}
func isNameStart(c int) bool {
	return 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' || c == '_' || c >= 0x80
}
func isName(c int) bool { return isNameStart(c) || isDigit(c) || c == '-' }
func nonPrintable(c int) bool {
	return 0 <= c && c <= 8 || c == 0x0b || 0x0e <= c && c <= 0x1f || c == 0x7f
}

func validEscape(a, b int) bool { return a == '\\' && b != '\n' }

func startsIdent(a, b, c int) bool {
	if a == '-' {
		return isNameStart(b) || b == '-' || validEscape(b, c)
	}
	return isNameStart(a) || validEscape(a, b)
}

func startsNum(a, b, c int) bool {
	if a == '+' || a == '-' {
		return isDigit(b) || b == '.' && isDigit(c)
	}
	if a == '.' {
		return isDigit(b)
	}
	return isDigit(a)
}

// newlineLen is the length of the newline at i (CRLF is one).
func newlineLen(s string, i int) int {
	if s[i] == '\r' && i+1 < len(s) && s[i+1] == '\n' {
		return 2
	}
	return 1
}

// escEnd returns the end of the escape whose backslash is at i.
func escEnd(s string, i int) (end int, bad bool) {
	i++
	c := ch(s, i)
	if c == -1 {
		return i, true
	}
	if !isHex(c) {
		// one code point: the bytes that follow in a sequence are name bytes
		// anyway or are consumed here
		return i + runeLen(s, i), false
	}
	n := 0
	for n < 6 && isHex(ch(s, i)) {
		i++
		n++
	}
	if isWS(ch(s, i)) {
		i += newlineLen(s, i)
	}
	return i, false
}

// runeLen is the length of the UTF-8 sequence at i (1 if it is invalid).
func runeLen(s string, i int) int {
	if s[i] < 0x80 {
		return 1
	}
	for n := range s[i:] {
		if n > 0 {
			return n
		}
	}
	return len(s) - i
}

func nameEnd(s string, i int) (int, bool) {
	bad := false
	for {
		c := ch(s, i)
		if isName(c) {
			i++
		} else if validEscape(c, ch(s, i+1)) {
			e, b := escEnd(s, i)
			i = e
			bad = bad || b
		} else {
			return i, bad
		}
	}
}

func numEnd(s string, i int) int {
	c := ch(s, i)
	if c == '+' || c == '-' {
		i++
	}
	for isDigit(ch(s, i)) {
		i++
	}
	if ch(s, i) == '.' && isDigit(ch(s, i+1)) {
		i += 2
		for isDigit(ch(s, i)) {
			i++
		}
	}
	c = ch(s, i)
	if c == 'e' || c == 'E' {
		d := ch(s, i+1)
		if isDigit(d) {
			i += 2
			for isDigit(ch(s, i)) {
				i++
			}
		} else if (d == '+' || d == '-') && isDigit(ch(s, i+2)) {
			i += 3
			for isDigit(ch(s, i)) {
				i++
			}
		}
	}
	return i
}

func isURLName(s string) bool {
	return len(s) == 3 && (s[0]|0x20) == 'u' && (s[1]|0x20) == 'r' && (s[2]|0x20) == 'l'
}

// nextTok returns the token at i (whitespace and comments are tokens too).
func nextTok(s string, i int) tok {
	c := ch(s, i)
	t := tok{start: i}
	c1, c2 := ch(s, i+1), ch(s, i+2)
	one := func(k lexer.Token) tok {
		t.k = k
		t.end = i + 1
		return t
	}
	delim := func() tok {
		t.k = lexer.Delim
		t.end = i + 1
		t.s = s[i:t.end]
		return t
	}
	if c == -1 {
		t.k = lexer.EOF
		t.end = i
		return t
	}
	if c == '/' && c1 == '*' {
		t.k = lexer.Comment
		j := i + 2
		for {
			if j >= len(s) {
				t.bad = true
				t.end = j
				return t
			}
			if s[j] == '*' && ch(s, j+1) == '/' {
				t.s = s[i+2 : j]
				t.end = j + 2
				return t
			}
			j++
		}
	}
	if isWS(c) {
		t.k = lexer.Whitespace
		j := i
		for isWS(ch(s, j)) {
			j++
		}
		t.end = j
		return t
	}
	if startsNum(c, c1, c2) {
		e := numEnd(s, i)
		t.num = s[i:e]
		if startsIdent(ch(s, e), ch(s, e+1), ch(s, e+2)) {
			t.k = lexer.Dimension
			ue, bad := nameEnd(s, e)
			t.s = s[e:ue]
			t.end = ue
			t.bad = bad
		} else if ch(s, e) == '%' {
			t.k = lexer.Percentage
			t.end = e + 1
		} else {
			t.k = lexer.Number
			t.end = e
		}
		return t
	}
	if c == '-' && c1 == '-' && c2 == '>' {
		t.k = lexer.CDC
		t.end = i + 3
		return t
	}
	if startsIdent(c, c1, c2) {
		e, bad := nameEnd(s, i)
		t.s = s[i:e]
		t.bad = bad
		if ch(s, e) == '(' {
			if isURLName(t.s) {
				return urlTok(s, e+1, t)
			}
			t.k = lexer.FunctionStart
			t.end = e + 1
			return t
		}
		t.k = lexer.Ident
		t.end = e
		return t
	}
	switch c {
	case '"', '\'':
		t.k = lexer.String
		j := i + 1
		for {
			d := ch(s, j)
			switch {
			case d == c:
				t.s = s[i+1 : j]
				t.end = j + 1
				return t
			case d == -1 || d == '\n':
				t.bad = true
				t.end = j
				return t
			case d == '\\':
				if ch(s, j+1) == -1 {
					j++
				} else if ch(s, j+1) == '\n' {
					j += 1 + newlineLen(s, j+1)
				} else {
					j, _ = escEnd(s, j)
				}
			default:
				j++
			}
		}
	case '#':
		if isName(c1) || validEscape(c1, c2) {
			t.k = lexer.Hash
			t.id = startsIdent(c1, c2, ch(s, i+3))
			e, bad := nameEnd(s, i+1)
			t.s = s[i+1 : e]
			t.end = e
			t.bad = bad
			return t
		}
		return delim()
	case '(':
		return one(lexer.LParen)
	case ')':
		return one(lexer.RParen)
	case ',':
		return one(lexer.Comma)
	case ':':
		return one(lexer.Colon)
	case ';':
		return one(lexer.Semicolon)
	case '[':
		return one(lexer.LBracket)
	case ']':
		return one(lexer.RBracket)
	case '{':
		return one(lexer.LCurly)
	case '}':
		return one(lexer.RCurly)
	case '<':
		if c1 == '!' && c2 == '-' && ch(s, i+3) == '-' {
			t.k = lexer.CDO
			t.end = i + 4
			return t
		}
		return delim()
	case '@':
		if startsIdent(c1, c2, ch(s, i+3)) {
			t.k = lexer.At
			e, bad := nameEnd(s, i+1)
			t.s = s[i+1 : e]
			t.end = e
			t.bad = bad
			return t
		}
		return delim()
	case '\\':
		t.bad = true
		return delim()
	}
	return delim()
}

// urlTok finishes url( whose content starts at i.
func urlTok(s string, i int, t tok) tok {
	j := i
	for isWS(ch(s, j)) {
		j++
	}
	if c := ch(s, j); c == '"' || c == '\'' {
		t.k = lexer.FunctionStart
		t.end = j // the white space belongs to no token
		return t
	}
	t.k = lexer.URL
	start := j
	for {
		c := ch(s, j)
		switch {
		case c == ')':
			t.s = s[start:j]
			t.end = j + 1
			return t
		case c == -1:
			t.bad = true
			t.end = j
			return t
		case isWS(c):
			e := j
			for isWS(ch(s, j)) {
				j++
			}
			if ch(s, j) == ')' {
				t.s = s[start:e]
				t.end = j + 1
				return t
			}
			t.bad = true
			t.end = j
			return t
		case c == '"' || c == '\'' || c == '(' || nonPrintable(c):
			t.bad = true
			t.end = j
			return t
		case c == '\\':
			if !validEscape(c, ch(s, j+1)) {
				t.bad = true
				t.end = j
				return t
			}
			e, bad := escEnd(s, j)
			j = e
			t.bad = t.bad || bad
		default:
			j++
		}
	}
}

// refTokens tokenizes all of s; comments are dropped, white space is kept
// when ws is set. The list ends with EOF or with the first bad token.
func refTokens(s string, ws bool) []tok {
	var out []tok
	i := 0
	for {
		t := nextTok(s, i)
		i = t.end
		if t.bad {
			return append(out, t)
		}
		if t.k == lexer.Comment || t.k == lexer.Whitespace && !ws {
			continue
		}
		out = append(out, t)
		if t.k == lexer.EOF {
			return out
		}
	}
}
