From bbfe00b6d6d74a6e79936e1c7a7dbf952ee3329c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:14 +0000
Subject: [PATCH 01/34] fix: newlines, NUL and multi-byte code points in the
 lexer's input

A lone carriage return swallowed the code point after it, form feeds were
not newlines, NUL was not a name code point, looking ahead went by bytes,
and lexing the same text twice recorded its lines twice.
---
 internal/lexer/lexer.go | 64 ++++++++++++++++++++---------------------
 1 file changed, 32 insertions(+), 32 deletions(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index d6b5193..2e40715 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -70,51 +70,51 @@ func NewLexer(source *sources.Source) *Lexer {
 
 // step consumes the next unicode rune and stores it.
 func (l *Lexer) step() {
-	if l.pos == 0 {
-		l.source.Lines = append(l.source.Lines, l.pos)
+	if len(l.source.Lines) == 0 {
+		l.source.Lines = append(l.source.Lines, 0)
 	}
 
-	cp, size := utf8.DecodeRuneInString(l.source.Content[l.pos:])
+	cp, size := l.decode(l.pos)
+	l.ch = cp
+	l.lastPos = l.pos
+	l.pos += size
 
-	if size == 0 {
-		l.ch = -1
-		l.lastPos = l.pos
-		return
+	// The same part of the source can be lexed more than once.
+	if cp == '\n' && l.pos > l.source.Lines[len(l.source.Lines)-1] {
+		l.source.Lines = append(l.source.Lines, l.pos)
 	}
+}
 
-	// "Convert" to newline. https://www.w3.org/TR/css-syntax-3/#newline
-	if cp == '\r' {
-		next, nextSize := utf8.DecodeRuneInString(l.source.Content[l.pos+size:])
-		if next == '\n' {
-			l.source.Lines = append(l.source.Lines, l.pos+size+nextSize)
+// decode returns the code point at the byte offset pos and its size after
+// https://www.w3.org/TR/css-syntax-3/#input-preprocessing. At the end of the
+// source, it returns -1.
+func (l *Lexer) decode(pos int) (rune, int) {
+	cp, size := utf8.DecodeRuneInString(l.source.Content[pos:])
+	switch {
+	case size == 0:
+		return -1, 0
+	case cp == '\r':
+		if pos+1 < len(l.source.Content) && l.source.Content[pos+1] == '\n' {
+			return '\n', 2
 		}
-
-		l.ch = next
-		l.lastPos = l.pos
-		l.pos += size + nextSize
-		return
+		return '\n', 1
+	case cp == '\f':
+		return '\n', 1
+	case cp == 0:
+		return utf8.RuneError, 1
 	}
-
-	if cp == '\n' {
-		l.source.Lines = append(l.source.Lines, l.pos+size)
-	}
-
-	l.ch = cp
-	l.lastPos = l.pos
-	l.pos += size
+	return cp, size
 }
 
 // peek returns the next ith unconsumed rune but does not consume it.
 // i is 0-indexed (0 is one ahead, 1 is two ahead, etc.)
 func (l *Lexer) peek(i int) rune {
-	if l.pos+i > len(l.source.Content) {
-		return -1
-	}
-
-	cp, size := utf8.DecodeRuneInString(l.source.Content[l.pos+i:])
-	if size == 0 {
-		return -1
+	pos := l.pos
+	for ; i > 0; i-- {
+		_, size := l.decode(pos)
+		pos += size
 	}
+	cp, _ := l.decode(pos)
 	return cp
 }
 
-- 
2.43.0


From 5aca24fcb08dbd2bd6c021779d2a7bfa90ddc892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:15 +0000
Subject: [PATCH 02/34] fix: consume CDO, CDC and a dot before a signed number

The lexer never moved on from these tokens.
---
 internal/lexer/lexer.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 2e40715..4ee451c 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -175,6 +175,9 @@ func (l *Lexer) Next() {
 
 			if p0, p1 := l.peek(0), l.peek(1); p0 == '-' && p1 == '>' {
 				l.Current = CDC
+				l.step()
+				l.step()
+				l.step()
 				return
 			}
 
@@ -188,6 +191,10 @@ func (l *Lexer) Next() {
 		case '<':
 			if p0, p1, p2 := l.peek(0), l.peek(1), l.peek(2); p0 == '!' && p1 == '-' && p2 == '-' {
 				l.Current = CDO
+				l.step()
+				l.step()
+				l.step()
+				l.step()
 				return
 			}
 
@@ -249,7 +256,7 @@ func (l *Lexer) Next() {
 			l.step()
 
 		case '.':
-			if startsNumber(l.peek(0), l.peek(1), l.peek(2)) {
+			if startsNumber(l.ch, l.peek(0), l.peek(1)) {
 				l.nextNumericToken()
 				return
 			}
-- 
2.43.0


From 7f2e981365f1591439013f7091a3d27214dd18ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:16 +0000
Subject: [PATCH 03/34] fix: decide where an identifier starts as the
 specification does

A digit or hyphen cannot start one and an escape can, and the check for a
leading hyphen looked one code point too far.
---
 internal/lexer/lexer.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 4ee451c..6af6aa7 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -181,7 +181,7 @@ func (l *Lexer) Next() {
 				return
 			}
 
-			if startsIdentifier(l.peek(0), l.peek(1), l.peek(2)) {
+			if startsIdentifier(l.ch, l.peek(0), l.peek(1)) {
 				l.nextIdentLikeToken()
 				return
 			}
@@ -381,11 +381,9 @@ func (l *Lexer) Next() {
 func startsIdentifier(p0, p1, p2 rune) bool {
 	switch p0 {
 	case '-':
-		return p1 == '-' || isNameCodePoint(p1) || startsEscape(p1, p2)
-	case '\n':
-		return false
+		return p1 == '-' || isNameStartCodePoint(p1) || startsEscape(p1, p2)
 	default:
-		return isNameCodePoint(p0)
+		return isNameStartCodePoint(p0) || startsEscape(p0, p1)
 	}
 }
 
-- 
2.43.0


From 42dc043247ced494842f8dcb716401fc01426def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:17 +0000
Subject: [PATCH 04/34] fix: consume the whole escaped code point

Escapes other than hex digits left the escaped code point behind, hex escapes
ended after five digits and took white space after each of them.
---
 internal/lexer/lexer.go | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 6af6aa7..48ea8bb 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -319,17 +319,11 @@ func (l *Lexer) Next() {
 				case '\n':
 					l.Errorf("unclosed string: unexpected newline")
 				case '\\':
-					l.step()
-
-					switch l.ch {
-					case '\n':
+					if l.peek(0) == '\n' {
 						l.step()
-					case -1:
-						l.Errorf("unexpected EOF")
-					default:
-						if startsEscape(l.ch, l.peek(0)) {
-							l.nextEscaped()
-						}
+						l.step()
+					} else {
+						l.nextEscaped()
 					}
 				case -1:
 					l.Errorf("unexpected EOF")
@@ -573,12 +567,21 @@ func (l *Lexer) nextName() {
 // Note that we do not need to interpret the codepoint for our purposes - we can record
 // the byte offsets as-is for transformation.
 func (l *Lexer) nextEscaped() {
-	l.step()
-	for i := 0; i < 5 && isHexDigit(l.ch); i++ {
+	l.step() // Consume \.
+	if l.ch == -1 {
+		l.Errorf("unexpected EOF")
+	}
+
+	if !isHexDigit(l.ch) {
+		l.step()
+		return
+	}
+
+	for i := 0; i < 6 && isHexDigit(l.ch); i++ {
+		l.step()
+	}
+	if isWhitespace(l.ch) {
 		l.step()
-		if isWhitespace(l.ch) {
-			l.step()
-		}
 	}
 }
 
-- 
2.43.0


From 70e6a378b16711da829be3ab9ed5e3bec07ad303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:18 +0000
Subject: [PATCH 05/34] fix: white space around the content of url()

It ended up in the url when trailing and was accepted in the middle.
---
 internal/lexer/lexer.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 48ea8bb..7172eda 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -451,7 +451,7 @@ func (l *Lexer) nextIdentLikeToken() {
 	// Here, we need to special case the url function because it supports unquoted string content.
 	if isURLString(l.CurrentString) && l.ch == '(' {
 		l.step()
-		for i := l.lastPos; i < len(l.source.Content) && isWhitespace(l.ch); i++ {
+		for isWhitespace(l.ch) {
 			l.step()
 		}
 
@@ -481,8 +481,18 @@ func (l *Lexer) nextIdentLikeToken() {
 				l.Errorf("unexpected token: %c", l.ch)
 			default:
 				if isWhitespace(l.ch) {
+					l.CurrentString = l.source.Content[urlStart:l.lastPos]
+					for isWhitespace(l.ch) {
+						l.step()
+					}
+					if l.ch == -1 {
+						l.Errorf("unexpected EOF")
+					}
+					if l.ch != ')' {
+						l.Errorf("unexpected token: %c", l.ch)
+					}
 					l.step()
-					continue
+					return
 				}
 
 				if isNonPrintable(l.ch) {
-- 
2.43.0


From e9391a5ed6867cd2692c46012a0255915bd65aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:19 +0000
Subject: [PATCH 06/34] fix: only ASCII digits are digits

---
 internal/lexer/lexer.go  | 23 +++++++++++------------
 internal/lexer/tokens.go |  9 ++++++---
 2 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 7172eda..b6bb1c3 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -3,7 +3,6 @@
 package lexer
 
 import (
-	"unicode"
 	"unicode/utf8"
 
 	"github.com/stephen/cssc/internal/ast"
@@ -353,7 +352,7 @@ func (l *Lexer) Next() {
 				return
 			}
 
-			if unicode.IsDigit(l.ch) {
+			if isDigit(l.ch) {
 				l.nextNumericToken()
 				return
 			}
@@ -397,22 +396,22 @@ func startsEscape(p0, p1 rune) bool {
 // startsNumber implements https://www.w3.org/TR/css-syntax-3/#starts-with-a-number.
 func startsNumber(p0, p1, p2 rune) bool {
 	if p0 == '+' || p0 == '-' {
-		if unicode.IsDigit(p1) {
+		if isDigit(p1) {
 			return true
 		}
 
-		if p1 == '.' && unicode.IsDigit(p2) {
+		if p1 == '.' && isDigit(p2) {
 			return true
 		}
 
 		return false
 	}
 
-	if p0 == '.' && unicode.IsDigit(p1) {
+	if p0 == '.' && isDigit(p1) {
 		return true
 	}
 
-	return unicode.IsDigit(p0)
+	return isDigit(p0)
 }
 
 // nextNumericToken implements https://www.w3.org/TR/css-syntax-3/#consume-a-numeric-token
@@ -523,27 +522,27 @@ func (l *Lexer) nextNumber() {
 		l.step()
 	}
 
-	for unicode.IsDigit(l.ch) {
+	for isDigit(l.ch) {
 		l.step()
 	}
 
-	if l.ch == '.' && unicode.IsDigit(l.peek(0)) {
+	if l.ch == '.' && isDigit(l.peek(0)) {
 		l.step()
 		l.step()
 
-		for unicode.IsDigit(l.ch) {
+		for isDigit(l.ch) {
 			l.step()
 		}
 	}
 
-	if p0, p1 := l.peek(0), l.peek(1); (l.ch == 'e' || l.ch == 'E') && (unicode.IsDigit(p0) ||
-		((p0 == '+' || p0 == '-') && unicode.IsDigit(p1))) {
+	if p0, p1 := l.peek(0), l.peek(1); (l.ch == 'e' || l.ch == 'E') && (isDigit(p0) ||
+		((p0 == '+' || p0 == '-') && isDigit(p1))) {
 		l.step()
 		if l.ch == '+' || l.ch == '-' {
 			l.step()
 		}
 
-		for unicode.IsDigit(l.ch) {
+		for isDigit(l.ch) {
 			l.step()
 		}
 	}
diff --git a/internal/lexer/tokens.go b/internal/lexer/tokens.go
index 693353f..44c46f8 100644
--- a/internal/lexer/tokens.go
+++ b/internal/lexer/tokens.go
@@ -1,7 +1,5 @@
 package lexer
 
-import "unicode"
-
 // Token is the set of lexical tokens in CSS.
 type Token int
 
@@ -79,9 +77,14 @@ var tokens = [...]string{
 	RCurly: "}",
 }
 
+// isDigit implements https://www.w3.org/TR/css-syntax-3/#digit.
+func isDigit(r rune) bool {
+	return r >= '0' && r <= '9'
+}
+
 // isHexDigit implements https://www.w3.org/TR/css-syntax-3/#hex-digit.
 func isHexDigit(r rune) bool {
-	return unicode.IsDigit(r) || (r >= 'A' && r <= 'F') || (r >= 'a' && r <= 'f')
+	return isDigit(r) || (r >= 'A' && r <= 'F') || (r >= 'a' && r <= 'f')
 }
 
 // isWhitespace implements https://www.w3.org/TR/css-syntax-3/#whitespace.
-- 
2.43.0


From ccaa1b1faee623be6cc10cde2ed2df758c267bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:05 +0000
Subject: [PATCH 07/34] fix: return errors in the first token instead of
 panicking

---
 internal/parser/parser.go | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index fb568a9..9fa5fd6 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -9,7 +9,7 @@ import (
 
 // Parse parses an input stylesheet.
 func Parse(source *sources.Source) (ss *ast.Stylesheet, err error) {
-	p := newParser(source)
+	p := &parser{source: source, ss: &ast.Stylesheet{}}
 	defer func() {
 		if rErr := recover(); rErr != nil {
 			if errI, ok := rErr.(*lexer.Error); ok {
@@ -17,27 +17,21 @@ func Parse(source *sources.Source) (ss *ast.Stylesheet, err error) {
 				return
 			}
 
-			if errI, ok := rErr.(error); ok {
+			if errI, ok := rErr.(error); ok && p.lexer != nil {
 				panic(logging.LocationErrorf(source, p.lexer.TokenSpan(), "%v", errI))
 			}
 
 			// Re-panic unknown issues.
-			panic(err)
+			panic(rErr)
 		}
 	}()
 
+	// Creating the lexer already reads the first token.
+	p.lexer = lexer.NewLexer(source)
 	p.parse()
 	return p.ss, nil
 }
 
-func newParser(source *sources.Source) *parser {
-	return &parser{
-		source: source,
-		lexer:  lexer.NewLexer(source),
-		ss:     &ast.Stylesheet{},
-	}
-}
-
 type parser struct {
 	source *sources.Source
 	lexer  *lexer.Lexer
-- 
2.43.0


From df3ece251748dcf0391dcae1e0df394f1c96939c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:06 +0000
Subject: [PATCH 08/34] fix: delimit declarations that cannot be parsed

The fallback ran past the end of the block and of the file, ended in the middle
of nested blocks, kept the semicolon as part of the text, and only took over
after the part of the declaration that did parse.
---
 internal/parser/parser.go | 53 +++++++++++++++++++++++++++++++++++----
 1 file changed, 48 insertions(+), 5 deletions(-)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index 9fa5fd6..42ab4ce 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -130,7 +130,11 @@ func (p *parser) parseDeclarationOrFallback() (rv ast.Declarationish) {
 		}
 	}()
 
-	return p.parseDeclaration()
+	decl := p.parseDeclaration()
+	if p.lexer.Current != lexer.Semicolon && p.lexer.Current != lexer.RCurly {
+		p.lexer.Errorf("unexpected token: %s", p.lexer.Current)
+	}
+	return decl
 }
 
 func (p *parser) parseRaw() *ast.Raw {
@@ -138,17 +142,56 @@ func (p *parser) parseRaw() *ast.Raw {
 		Span: p.lexer.TokenSpan(),
 	}
 
-	for p.lexer.Current != lexer.Semicolon {
-		p.lexer.Next()
+	// An empty declaration covers its semicolon but has no text.
+	if p.lexer.Current == lexer.Semicolon {
+		raw.End = p.lexer.TokenEnd()
+		return raw
 	}
-	raw.End = p.lexer.TokenEnd()
-	p.lexer.Next()
 
+	raw.End = p.skipBalanced(lexer.Semicolon, lexer.RCurly)
 	raw.Value = p.source.Content[raw.Start:raw.End]
 
 	return raw
 }
 
+// skipBalanced moves to the next of the given tokens that is not enclosed in
+// parentheses, brackets or braces. It returns the end of the skipped text.
+func (p *parser) skipBalanced(until ...lexer.Token) int {
+	end := p.lexer.TokenSpan().Start
+
+	var closing []lexer.Token
+	for {
+		current := p.lexer.Current
+		if current == lexer.EOF {
+			p.lexer.Errorf("unexpected EOF")
+		}
+
+		if len(closing) > 0 {
+			if current == closing[len(closing)-1] {
+				closing = closing[:len(closing)-1]
+			}
+		} else {
+			for _, token := range until {
+				if current == token {
+					return end
+				}
+			}
+		}
+
+		switch current {
+		case lexer.LParen, lexer.FunctionStart:
+			closing = append(closing, lexer.RParen)
+		case lexer.LBracket:
+			closing = append(closing, lexer.RBracket)
+		case lexer.LCurly:
+			closing = append(closing, lexer.RCurly)
+		}
+
+		end = p.lexer.TokenEnd()
+		p.lexer.Next()
+	}
+}
+
 func (p *parser) parseDeclaration() *ast.Declaration {
 	var prefix string
 	if p.lexer.Current == lexer.Delim {
-- 
2.43.0


From faa9cfce953685dc82931809f67ea8891e3a172a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:45 +0000
Subject: [PATCH 09/34] fix: only accept !important at the end of a declaration

Values after it were moved in front of it, any token spelled important was
taken for the keyword, and the span of a hacked property missed the prefix.
---
 internal/parser/parser.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index 42ab4ce..4011e22 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -193,6 +193,8 @@ func (p *parser) skipBalanced(until ...lexer.Token) int {
 }
 
 func (p *parser) parseDeclaration() *ast.Declaration {
+	span := p.lexer.TokenSpan()
+
 	var prefix string
 	if p.lexer.Current == lexer.Delim {
 		// Hack: support old browser declarations like *letter-spacing.
@@ -209,7 +211,7 @@ func (p *parser) parseDeclaration() *ast.Declaration {
 	}
 
 	decl := &ast.Declaration{
-		Span:     p.lexer.TokenSpan(),
+		Span:     span,
 		Property: property,
 	}
 	p.lexer.Expect(lexer.Ident)
@@ -232,23 +234,26 @@ func (p *parser) parseDeclaration() *ast.Declaration {
 			}
 			p.lexer.Next()
 
-			if !isImportantString(p.lexer.CurrentString) {
+			if p.lexer.Current != lexer.Ident || !isImportantString(p.lexer.CurrentString) {
 				p.lexer.Errorf("expected !important, unexpected token: %s", p.lexer.CurrentString)
 			}
+			if len(decl.Values) == 0 {
+				p.lexer.Errorf("declaration must have a value")
+			}
 			decl.End = p.lexer.TokenEnd()
 			p.lexer.Next()
 			decl.Important = true
 
+			// !important can only be at the end.
+			return decl
+
 		default:
 			val := p.parseValue()
 			if val == nil {
 				if len(decl.Values) == 0 {
 					p.lexer.Errorf("declaration must have a value")
 				}
-				if lastValueEnd := decl.Values[len(decl.Values)-1].Location().End; lastValueEnd > decl.End {
-					decl.End = lastValueEnd
-				}
-
+				decl.End = decl.Values[len(decl.Values)-1].Location().End
 				return decl
 			}
 
-- 
2.43.0


From ed206e33b79432e6d57342ceb6e27d598bbdb712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:46 +0000
Subject: [PATCH 10/34] fix: keep unicode ranges in one piece

A range like U+0025-00FF was printed with spaces in it, which is not a range
anymore.
---
 internal/parser/parser.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index 4011e22..e1fe22e 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -227,6 +227,7 @@ func (p *parser) parseDeclaration() *ast.Declaration {
 			p.lexer.Next()
 
 		case lexer.Delim:
+			p.checkUnicodeRange(decl.Values)
 			if p.lexer.CurrentString != "!" {
 				decl.Values = append(decl.Values, &ast.Raw{Span: p.lexer.TokenSpan(), Value: p.lexer.CurrentString})
 				p.lexer.Next()
@@ -248,6 +249,7 @@ func (p *parser) parseDeclaration() *ast.Declaration {
 			return decl
 
 		default:
+			p.checkUnicodeRange(decl.Values)
 			val := p.parseValue()
 			if val == nil {
 				if len(decl.Values) == 0 {
@@ -262,6 +264,25 @@ func (p *parser) parseDeclaration() *ast.Declaration {
 	}
 }
 
+// checkUnicodeRange errors if the current token continues a unicode range like
+// U+0025-00FF after the values. The parts of a range can't be space-separated.
+// See https://www.w3.org/TR/css-syntax-3/#urange.
+func (p *parser) checkUnicodeRange(values []ast.Value) {
+	if len(values) == 0 {
+		return
+	}
+
+	u, ok := values[len(values)-1].(*ast.Identifier)
+	if !ok || (u.Value != "u" && u.Value != "U") {
+		return
+	}
+
+	start := p.lexer.TokenSpan().Start
+	if u.End == start && start < len(p.source.Content) && p.source.Content[start] == '+' {
+		p.lexer.Errorf("unicode ranges are not supported")
+	}
+}
+
 func (p *parser) parseKeyframeSelectorList() *ast.KeyframeSelectorList {
 	l := &ast.KeyframeSelectorList{
 		Span: p.lexer.TokenSpan(),
-- 
2.43.0


From c17109b21db9b2e2b2f0a8b43f605dcdc54a38ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:47 +0000
Subject: [PATCH 11/34] fix: keep function arguments apart and complete

Arguments were printed without the spaces between them, a slash or any other
delimiter ended the argument list without a closing parenthesis, and a missing
operand in a math function crashed or looped forever.
---
 internal/parser/parser.go   | 14 +++++++++++---
 internal/printer/printer.go | 35 +++++++++++++++++++----------------
 2 files changed, 30 insertions(+), 19 deletions(-)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index e1fe22e..4332243 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -384,7 +384,11 @@ func (p *parser) parseMathProduct() ast.Value {
 
 func (p *parser) parseMathParenthesizedExpression() ast.Value {
 	if p.lexer.Current != lexer.LParen {
-		return p.parseValue()
+		val := p.parseValue()
+		if val == nil {
+			p.lexer.Errorf("unexpected token: %s", p.lexer.Current)
+		}
+		return val
 	}
 
 	loc := p.lexer.TokenSpan()
@@ -503,10 +507,14 @@ func (p *parser) parseValue() ast.Value {
 					fn.Arguments = append(fn.Arguments, p.parseMathExpression())
 					continue
 				}
+				if p.lexer.Current == lexer.Delim {
+					fn.Arguments = append(fn.Arguments, &ast.Raw{Span: p.lexer.TokenSpan(), Value: p.lexer.CurrentString})
+					p.lexer.Next()
+					continue
+				}
 				val := p.parseValue()
 				if val == nil {
-					// XXX: there's probably some backtracking to do here?
-					break arguments
+					p.lexer.Errorf("unexpected token: %s", p.lexer.Current)
 				}
 
 				fn.Arguments = append(fn.Arguments, val)
diff --git a/internal/printer/printer.go b/internal/printer/printer.go
index b0a43a9..7715f5d 100644
--- a/internal/printer/printer.go
+++ b/internal/printer/printer.go
@@ -123,6 +123,23 @@ func (p *printer) addMapping(loc ast.Span) {
 	p.lastWritten = p.s.Len()
 }
 
+// printValues prints a list of values.
+func (p *printer) printValues(values []ast.Value) {
+	for i, val := range values {
+		p.print(val)
+
+		// Print space if we're not the last value and the previous or current
+		// value was not a comma.
+		if i+1 < len(values) {
+			if _, nextIsComma := values[i+1].(*ast.Comma); !nextIsComma {
+				if _, isComma := val.(*ast.Comma); !isComma {
+					p.s.WriteRune(' ')
+				}
+			}
+		}
+	}
+}
+
 // print prints the current ast node to the printer output.
 func (p *printer) print(in ast.Node) {
 	switch node := in.(type) {
@@ -193,19 +210,7 @@ func (p *printer) print(in ast.Node) {
 	case *ast.Declaration:
 		p.s.WriteString(node.Property)
 		p.s.WriteRune(':')
-		for i, val := range node.Values {
-			p.print(val)
-
-			// Print space if we're not the last value and the previous or current
-			// value was not a comma.
-			if i+1 < len(node.Values) {
-				if _, nextIsComma := node.Values[i+1].(*ast.Comma); !nextIsComma {
-					if _, isComma := val.(*ast.Comma); !isComma {
-						p.s.WriteRune(' ')
-					}
-				}
-			}
-		}
+		p.printValues(node.Values)
 
 		if node.Important {
 			p.s.WriteString("!important")
@@ -233,9 +238,7 @@ func (p *printer) print(in ast.Node) {
 	case *ast.Function:
 		p.s.WriteString(node.Name)
 		p.s.WriteRune('(')
-		for _, arg := range node.Arguments {
-			p.print(arg)
-		}
+		p.printValues(node.Arguments)
 		p.s.WriteRune(')')
 
 	case *ast.Brackets:
-- 
2.43.0


From 3282b23623bfbe395d91beaf05cb0105eb03e82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:11 +0000
Subject: [PATCH 12/34] fix: keep the prelude of generic at-rules

Everything between the name and the block was dropped, and rules without a
block swallowed what came after them.
---
 internal/ast/atrule.go    |  2 ++
 internal/parser/parser.go | 18 ++++++++++++++++--
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/internal/ast/atrule.go b/internal/ast/atrule.go
index 243243a..11e5890 100644
--- a/internal/ast/atrule.go
+++ b/internal/ast/atrule.go
@@ -13,9 +13,11 @@ type AtRule struct {
 
 func (String) isAtPrelude()     {}
 func (Identifier) isAtPrelude() {}
+func (Raw) isAtPrelude()        {}
 
 var _ AtPrelude = String{}
 var _ AtPrelude = Identifier{}
+var _ AtPrelude = Raw{}
 
 // AtPrelude is the set of arguments for an at-rule.
 // The interface is only used for type discrimination.
diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index 4332243..5c149bd 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -912,8 +912,22 @@ func (p *parser) parseGenericAtRule() {
 	}
 	p.lexer.Next()
 
-	r.Block = p.parseDeclarationBlock()
-	r.End = r.Block.Location().End
+	// The prelude is not interpreted.
+	prelude := &ast.Raw{Span: p.lexer.TokenSpan()}
+	prelude.End = p.skipBalanced(lexer.LCurly, lexer.RCurly, lexer.Semicolon)
+	if prelude.End > prelude.Start {
+		prelude.Value = p.source.Content[prelude.Start:prelude.End]
+		r.Preludes = append(r.Preludes, prelude)
+		r.End = prelude.End
+	}
+
+	if p.lexer.Current != lexer.Semicolon {
+		if p.lexer.Current != lexer.LCurly {
+			p.lexer.Errorf("expected %s, but got %s instead", lexer.LCurly, p.lexer.Current)
+		}
+		r.Block = p.parseDeclarationBlock()
+		r.End = r.Block.Location().End
+	}
 
 	p.ss.Nodes = append(p.ss.Nodes, r)
 }
-- 
2.43.0


From 5d27ad5def3b1b83e1d0ff12b298d919e287ed36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:12 +0000
Subject: [PATCH 13/34] fix: empty and unfinished media queries and at-rules

An empty @media or @custom-media query crashed, empty queries in a list were
dropped, and whatever followed an @import or @custom-media query instead of a
semicolon became a rule of its own.
---
 internal/parser/parser.go | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index 5c149bd..21a4f84 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -604,9 +604,18 @@ func (p *parser) parseImportAtRule() {
 	}
 
 	imp.End = imp.Preludes[len(imp.Preludes)-1].Location().End
+	p.expectSemicolon()
 	p.ss.Nodes = append(p.ss.Nodes, imp)
 }
 
+// expectSemicolon asserts that an at-rule without a block ends here. The
+// semicolon itself is left for the caller.
+func (p *parser) expectSemicolon() {
+	if p.lexer.Current != lexer.Semicolon {
+		p.lexer.Errorf("expected %s, but got %s instead", lexer.Semicolon, p.lexer.Current)
+	}
+}
+
 // parseKeyframes parses a keyframes at rule. It roughly implements
 // https://www.w3.org/TR/css-animations-1/#keyframes
 func (p *parser) parseKeyframes() {
@@ -666,7 +675,9 @@ func (p *parser) parseMediaAtRule() {
 	}
 	p.lexer.Next()
 
-	r.Preludes = []ast.AtPrelude{p.parseMediaQueryList()}
+	if queries := p.parseMediaQueryList(); queries != nil {
+		r.Preludes = append(r.Preludes, queries)
+	}
 
 	block := &ast.QualifiedRuleBlock{
 		Span: p.lexer.TokenSpan(),
@@ -702,9 +713,14 @@ func (p *parser) parseMediaQueryList() *ast.MediaQueryList {
 		}
 
 		q := p.parseMediaQuery()
-		if q != nil {
-			l.Queries = append(l.Queries, q)
+		if q == nil {
+			// The list itself can be empty, but the queries in it can't.
+			if len(l.Queries) == 0 && p.lexer.Current != lexer.Comma {
+				return nil
+			}
+			p.lexer.Errorf("expected media query")
 		}
+		l.Queries = append(l.Queries, q)
 
 		if p.lexer.Current == lexer.Comma {
 			p.lexer.Next()
@@ -714,10 +730,6 @@ func (p *parser) parseMediaQueryList() *ast.MediaQueryList {
 		break
 	}
 
-	if len(l.Queries) == 0 {
-		return nil
-	}
-
 	l.End = l.Queries[len(l.Queries)-1].End
 	return l
 }
@@ -895,11 +907,12 @@ func (p *parser) parseCustomMediaAtRule() {
 
 	r.Preludes = append(r.Preludes, name)
 	queries := p.parseMediaQueryList()
-	if len(queries.Queries) != 1 {
+	if queries == nil || len(queries.Queries) != 1 {
 		p.lexer.Errorf("@custom-media rule requires a single media query argument")
 	}
 	r.Preludes = append(r.Preludes, queries.Queries[0])
 	r.End = queries.Queries[0].End
+	p.expectSemicolon()
 
 	p.ss.Nodes = append(p.ss.Nodes, r)
 }
-- 
2.43.0


From 90d097e81128d150b6abd8444d41a050876bfeae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:51 +0000
Subject: [PATCH 14/34] fix: a rule has exactly one prelude

---
 internal/parser/parser.go | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index 21a4f84..ae738d3 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -80,25 +80,25 @@ func (p *parser) parseQualifiedRule(isKeyframes bool) *ast.QualifiedRule {
 		Span: p.lexer.TokenSpan(),
 	}
 
-	for {
-		switch p.lexer.Current {
-		case lexer.EOF:
-			p.lexer.Errorf("unexpected EOF")
+	if isKeyframes {
+		r.Prelude = p.parseKeyframeSelectorList()
+	} else {
+		r.Prelude = p.parseSelectorList()
+	}
 
-		case lexer.LCurly:
-			r.Block = p.parseDeclarationBlock()
-			r.End = r.Block.Location().End
-			return r
+	switch p.lexer.Current {
+	case lexer.EOF:
+		p.lexer.Errorf("unexpected EOF")
 
-		default:
-			if isKeyframes {
-				r.Prelude = p.parseKeyframeSelectorList()
-				continue
-			}
+	case lexer.LCurly:
+		r.Block = p.parseDeclarationBlock()
+		r.End = r.Block.Location().End
 
-			r.Prelude = p.parseSelectorList()
-		}
+	default:
+		p.lexer.Errorf("expected %s, but got %s instead", lexer.LCurly, p.lexer.Current)
 	}
+
+	return r
 }
 
 // parseDeclarationBlock parses a {} block with declarations, e.g.
-- 
2.43.0


From 5ada30c779507424a8a279b3ca451de6702aa693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:15 +0000
Subject: [PATCH 15/34] fix: keep type selectors separated by comments apart

---
 internal/parser/selectors.go | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/internal/parser/selectors.go b/internal/parser/selectors.go
index 45b875d..b715f5a 100644
--- a/internal/parser/selectors.go
+++ b/internal/parser/selectors.go
@@ -51,10 +51,14 @@ func (p *parser) parseSelector() *ast.Selector {
 			p.lexer.Errorf("unexpected EOF")
 
 		case lexer.Whitespace:
-			s.Parts = append(s.Parts, &ast.Whitespace{Span: p.lexer.TokenSpan()})
+			// White space on both sides of a comment is still the same separator.
+			if len(s.Parts) == 0 || !isWhitespacePart(s.Parts[len(s.Parts)-1]) {
+				s.Parts = append(s.Parts, &ast.Whitespace{Span: p.lexer.TokenSpan()})
+			}
 			p.lexer.Next()
 
 		case lexer.Ident:
+			p.checkTypeSelector(s)
 			s.Parts = append(s.Parts, &ast.TypeSelector{
 				Span: p.lexer.TokenSpan(),
 				Name: p.lexer.CurrentString,
@@ -89,6 +93,7 @@ func (p *parser) parseSelector() *ast.Selector {
 				p.lexer.Next()
 
 			case "*":
+				p.checkTypeSelector(s)
 				s.Parts = append(s.Parts, &ast.TypeSelector{
 					Span: p.lexer.TokenSpan(),
 					Name: p.lexer.CurrentString,
@@ -171,7 +176,7 @@ func (p *parser) parseSelector() *ast.Selector {
 			s.Parts = append(s.Parts, p.parseAttributeSelector())
 
 		default:
-			if len(s.Parts) == 0 {
+			if len(s.Parts) == 0 || len(s.Parts) == 1 && isWhitespacePart(s.Parts[0]) {
 				p.lexer.Errorf("expected selector")
 			}
 			s.End = s.Parts[len(s.Parts)-1].Location().End
@@ -180,6 +185,25 @@ func (p *parser) parseSelector() *ast.Selector {
 	}
 }
 
+func isWhitespacePart(part ast.SelectorPart) bool {
+	_, ok := part.(*ast.Whitespace)
+	return ok
+}
+
+// checkTypeSelector errors if a type selector, which must come first in a compound
+// selector, cannot follow the previous parts, e.g. a/**/b or [attr]b.
+func (p *parser) checkTypeSelector(s *ast.Selector) {
+	if len(s.Parts) == 0 {
+		return
+	}
+
+	switch s.Parts[len(s.Parts)-1].(type) {
+	case *ast.Whitespace, *ast.CombinatorSelector:
+	default:
+		p.lexer.Errorf("unexpected type selector: %s", p.lexer.CurrentString)
+	}
+}
+
 func (p *parser) parseAttributeSelector() *ast.AttributeSelector {
 	prev := p.lexer.RetainWhitespace
 	p.lexer.RetainWhitespace = false
-- 
2.43.0


From abb706170b6baf0ad95327e5a2dab0274eeedf15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:16 +0000
Subject: [PATCH 16/34] fix: keep attribute operators, case flags and keyframe
 selector lists

---
 internal/parser/selectors.go | 27 +++++++++++++++------------
 internal/printer/printer.go  | 11 ++++++++++-
 2 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/internal/parser/selectors.go b/internal/parser/selectors.go
index b715f5a..9b9a728 100644
--- a/internal/parser/selectors.go
+++ b/internal/parser/selectors.go
@@ -225,32 +225,35 @@ func (p *parser) parseAttributeSelector() *ast.AttributeSelector {
 		return attr
 	}
 
-	switch p.lexer.CurrentString {
-	case "^", "~", "$", "*", "|":
-		attr.PreOperator = p.lexer.CurrentString
-		p.lexer.Next()
+	if p.lexer.Current == lexer.Delim {
+		switch p.lexer.CurrentString {
+		case "^", "~", "$", "*", "|":
+			attr.PreOperator = p.lexer.CurrentString
+			operatorEnd := p.lexer.TokenEnd()
+			p.lexer.Next()
 
-		if p.lexer.CurrentString != "=" {
-			p.lexer.Errorf("expected =, got %s: ", p.lexer.CurrentString)
+			if p.lexer.TokenSpan().Start != operatorEnd {
+				p.lexer.Errorf("expected = right after %s", attr.PreOperator)
+			}
 		}
-		p.lexer.Expect(lexer.Delim)
-	default:
-		p.lexer.Expect(lexer.Delim)
 	}
 
+	if p.lexer.Current != lexer.Delim || p.lexer.CurrentString != "=" {
+		p.lexer.Errorf("expected =, got %s", p.lexer.Current)
+	}
+	p.lexer.Next()
+
 	attr.Value = p.parseValue()
 	if attr.Value == nil {
 		p.lexer.Errorf("value must be specified")
 	}
 
-	attr.End = p.lexer.TokenEnd()
-
 	if p.lexer.Current == lexer.Ident && (p.lexer.CurrentString == "s" || p.lexer.CurrentString == "i") {
 		attr.Modifier = p.lexer.CurrentString
-		attr.End = p.lexer.TokenEnd()
 		p.lexer.Next()
 	}
 
+	attr.End = p.lexer.TokenEnd()
 	p.lexer.Expect(lexer.RBracket)
 	return attr
 }
diff --git a/internal/printer/printer.go b/internal/printer/printer.go
index 7715f5d..600d19d 100644
--- a/internal/printer/printer.go
+++ b/internal/printer/printer.go
@@ -181,8 +181,12 @@ func (p *printer) print(in ast.Node) {
 		}
 
 	case *ast.KeyframeSelectorList:
-		for _, s := range node.Selectors {
+		for i, s := range node.Selectors {
 			p.print(s)
+
+			if i+1 < len(node.Selectors) {
+				p.s.WriteRune(',')
+			}
 		}
 
 	case *ast.QualifiedRule:
@@ -278,8 +282,13 @@ func (p *printer) print(in ast.Node) {
 		p.s.WriteRune('[')
 		p.s.WriteString(node.Property)
 		if node.Value != nil {
+			p.s.WriteString(node.PreOperator)
 			p.s.WriteRune('=')
 			p.print(node.Value)
+			if node.Modifier != "" {
+				p.s.WriteRune(' ')
+				p.s.WriteString(node.Modifier)
+			}
 		}
 		p.s.WriteRune(']')
 
-- 
2.43.0


From b36d4902149a867599c9f42ebfd93869044dd7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:57 +0000
Subject: [PATCH 17/34] fix: keep white space after attribute selectors

---
 internal/parser/selectors.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/internal/parser/selectors.go b/internal/parser/selectors.go
index 9b9a728..3474f22 100644
--- a/internal/parser/selectors.go
+++ b/internal/parser/selectors.go
@@ -174,6 +174,18 @@ func (p *parser) parseSelector() *ast.Selector {
 
 		case lexer.LBracket:
 			s.Parts = append(s.Parts, p.parseAttributeSelector())
+			if p.lexer.Current == lexer.Whitespace {
+				// White space that ends the selector is not part of it.
+				whitespace := &ast.Whitespace{Span: p.lexer.TokenSpan()}
+				for p.lexer.Current == lexer.Whitespace {
+					p.lexer.Next()
+				}
+				switch p.lexer.Current {
+				case lexer.LCurly, lexer.Comma, lexer.RParen:
+				default:
+					s.Parts = append(s.Parts, whitespace)
+				}
+			}
 
 		default:
 			if len(s.Parts) == 0 || len(s.Parts) == 1 && isWhitespacePart(s.Parts[0]) {
@@ -207,9 +219,6 @@ func (p *parser) checkTypeSelector(s *ast.Selector) {
 func (p *parser) parseAttributeSelector() *ast.AttributeSelector {
 	prev := p.lexer.RetainWhitespace
 	p.lexer.RetainWhitespace = false
-	defer func() {
-		p.lexer.RetainWhitespace = prev
-	}()
 
 	startLoc := p.lexer.TokenSpan()
 	p.lexer.Next()
@@ -221,6 +230,7 @@ func (p *parser) parseAttributeSelector() *ast.AttributeSelector {
 	p.lexer.Expect(lexer.Ident)
 	if p.lexer.Current == lexer.RBracket {
 		attr.End = p.lexer.TokenEnd()
+		p.lexer.RetainWhitespace = prev
 		p.lexer.Next()
 		return attr
 	}
@@ -254,6 +264,8 @@ func (p *parser) parseAttributeSelector() *ast.AttributeSelector {
 	}
 
 	attr.End = p.lexer.TokenEnd()
+	// White space after the selector matters again.
+	p.lexer.RetainWhitespace = prev
 	p.lexer.Expect(lexer.RBracket)
 	return attr
 }
-- 
2.43.0


From 5c004b61eef10efca51267106bc6856e480b2f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:58 +0000
Subject: [PATCH 18/34] fix: media features need all their values

---
 internal/parser/parser.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index ae738d3..b2b63bc 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -790,7 +790,7 @@ func (p *parser) parseMediaFeature() ast.MediaFeature {
 			p.lexer.Errorf("expected identifier in non-range media feature")
 		}
 
-		secondValue := p.parseValue()
+		secondValue := p.parseMediaFeatureValue()
 
 		plain := &ast.MediaFeaturePlain{
 			Span:     startLoc,
@@ -803,13 +803,17 @@ func (p *parser) parseMediaFeature() ast.MediaFeature {
 		return plain
 
 	case lexer.Delim:
+		if firstValue == nil {
+			p.lexer.Errorf("expected value")
+		}
+
 		r := &ast.MediaFeatureRange{
 			Span:      startLoc,
 			LeftValue: firstValue,
 		}
 		r.Operator = p.parseMediaRangeOperator()
 
-		secondValue := p.parseValue()
+		secondValue := p.parseMediaFeatureValue()
 
 		maybeIdent, ok := secondValue.(*ast.Identifier)
 		if !ok {
@@ -838,7 +842,7 @@ func (p *parser) parseMediaFeature() ast.MediaFeature {
 			if op != r.Operator {
 				p.lexer.Errorf("operators in a range must be the same")
 			}
-			r.RightValue = p.parseValue()
+			r.RightValue = p.parseMediaFeatureValue()
 		}
 
 		r.End = p.lexer.TokenEnd()
@@ -850,6 +854,15 @@ func (p *parser) parseMediaFeature() ast.MediaFeature {
 	return nil
 }
 
+// parseMediaFeatureValue parses a value that must not be missing.
+func (p *parser) parseMediaFeatureValue() ast.Value {
+	value := p.parseValue()
+	if value == nil {
+		p.lexer.Errorf("expected value")
+	}
+	return value
+}
+
 var (
 	mediaOperatorLT  = "<"
 	mediaOperatorLTE = "<="
@@ -859,9 +872,14 @@ var (
 
 func (p *parser) parseMediaRangeOperator() string {
 	operator := p.lexer.CurrentString
+	operatorEnd := p.lexer.TokenEnd()
 	p.lexer.Next()
 
 	if p.lexer.Current == lexer.Delim {
+		if p.lexer.TokenSpan().Start != operatorEnd {
+			p.lexer.Errorf("unexpected token: %s", p.lexer.Current.String())
+		}
+
 		if p.lexer.CurrentString != "=" || (operator != "<" && operator != ">") {
 			p.lexer.Errorf("unexpected token: %s", p.lexer.Current.String())
 		}
-- 
2.43.0


From b211fa849c3322a06dd42d32ac7c8445f61c5450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:23 +0000
Subject: [PATCH 19/34] fix: An+B arguments keep their step and offset

---
 internal/parser/selectors.go | 114 ++++++++++++++++++++---------------
 internal/printer/printer.go  |  24 ++++----
 2 files changed, 80 insertions(+), 58 deletions(-)

diff --git a/internal/parser/selectors.go b/internal/parser/selectors.go
index 3474f22..45e92ac 100644
--- a/internal/parser/selectors.go
+++ b/internal/parser/selectors.go
@@ -149,6 +149,8 @@ func (p *parser) parseSelector() *ast.Selector {
 							Value: p.lexer.CurrentString,
 						}
 						p.lexer.Next()
+					default:
+						p.lexer.Errorf("expected even, odd, or an+b syntax")
 					}
 				} else {
 					pc.Arguments = p.parseSelectorList()
@@ -278,73 +280,91 @@ func (p *parser) parseANPlusB() *ast.ANPlusB {
 	}()
 
 	v := &ast.ANPlusB{Span: p.lexer.TokenSpan()}
+	v.End = p.lexer.TokenEnd()
 
-	if p.lexer.Current == lexer.Dimension && p.lexer.CurrentString == "n" {
-		v.A = p.lexer.CurrentNumeral
-		v.End = p.lexer.TokenEnd()
-		p.lexer.Next()
-	} else if p.lexer.Current == lexer.Dimension && strings.HasPrefix(p.lexer.CurrentString, "n") {
-		v.A = p.lexer.CurrentNumeral
-		v.End = p.lexer.TokenEnd()
-
-		numeral := p.lexer.CurrentString[1:]
+	switch {
+	case p.lexer.Current == lexer.Number:
+		v.A = "0"
+		p.parseANPlusBOffset(v)
+		return v
 
-		if strings.HasPrefix(numeral, "-") {
-			v.Operator = "-"
-		} else if strings.HasPrefix(numeral, "+") {
-			v.Operator = "+"
-		} else {
-			p.lexer.Errorf("expected +/- as part of An+B")
+	case p.lexer.Current == lexer.Dimension && strings.HasPrefix(p.lexer.CurrentString, "n"):
+		v.A = p.lexer.CurrentNumeral
+		if !isInteger(v.A) {
+			p.lexer.Errorf("expected integer as part of An+B")
 		}
 
-		v.B = numeral[1:]
-		if len(v.B) == 0 {
-			p.lexer.Errorf("expected number after operator")
+		// The unit can already include the offset, e.g. 2n-1.
+		if offset := p.lexer.CurrentString[1:]; len(offset) > 0 {
+			v.Operator = offset[:1]
+			v.B = offset[1:]
+			if v.Operator != "-" || !isDigits(v.B) {
+				p.lexer.Errorf("expected +/- and an integer as part of An+B")
+			}
+			p.lexer.Next()
+			return v
 		}
 
-		v.End = p.lexer.TokenEnd()
-		p.lexer.Next()
-	} else if p.lexer.Current == lexer.Ident && p.lexer.CurrentString == "n" {
-		v.End = p.lexer.TokenEnd()
-		p.lexer.Expect(lexer.Ident)
-	} else if p.lexer.Current == lexer.Ident && p.lexer.CurrentString == "-n" {
+	case p.lexer.Current == lexer.Ident && p.lexer.CurrentString == "n":
+
+	case p.lexer.Current == lexer.Ident && p.lexer.CurrentString == "-n":
 		v.A = "-1"
-		v.End = p.lexer.TokenEnd()
-		p.lexer.Expect(lexer.Ident)
-	} else if p.lexer.Current == lexer.Number {
-		v.A = "0"
-		v.B = p.lexer.CurrentNumeral
-		if strings.HasPrefix(p.lexer.CurrentNumeral, "-") {
-			v.Operator = "-"
-			v.B = v.B[1:]
-		} else if strings.HasPrefix(p.lexer.CurrentNumeral, "+") {
-			v.Operator = "+"
-			v.B = v.B[1:]
-		}
-		v.End = p.lexer.TokenEnd()
-		p.lexer.Expect(lexer.Number)
+
+	default:
+		p.lexer.Errorf("expected An+B")
 	}
+	p.lexer.Next()
 
 	// If there was no whitespace, e.g. n+3, then the lexer will have given
 	// us a number. Otherwise, it'll be n + 3 with a delimiter.
 	if p.lexer.Current == lexer.Number {
-		if strings.HasPrefix(p.lexer.CurrentNumeral, "-") {
-			v.Operator = "-"
-		} else if strings.HasPrefix(p.lexer.CurrentNumeral, "+") {
-			v.Operator = "+"
-		} else {
+		p.parseANPlusBOffset(v)
+		if v.Operator == "" {
 			p.lexer.Errorf("expected +/- as part of An+B")
 		}
-		v.B = p.lexer.CurrentNumeral[1:]
-		v.End = p.lexer.TokenEnd()
-		p.lexer.Expect(lexer.Number)
 	} else if p.lexer.Current == lexer.Delim && (p.lexer.CurrentString == "+" || p.lexer.CurrentString == "-") {
 		v.Operator = p.lexer.CurrentString
 		p.lexer.Next()
 
 		v.B = p.lexer.CurrentNumeral
 		v.End = p.lexer.TokenEnd()
-		p.lexer.Expect(lexer.Number)
+		if p.lexer.Current != lexer.Number || !isDigits(v.B) {
+			p.lexer.Errorf("expected integer as part of An+B")
+		}
+		p.lexer.Next()
 	}
 	return v
 }
+
+// parseANPlusBOffset parses the B part of An+B, if it is a single number.
+func (p *parser) parseANPlusBOffset(v *ast.ANPlusB) {
+	if !isInteger(p.lexer.CurrentNumeral) {
+		p.lexer.Errorf("expected integer as part of An+B")
+	}
+
+	v.B = p.lexer.CurrentNumeral
+	if strings.HasPrefix(v.B, "-") || strings.HasPrefix(v.B, "+") {
+		v.Operator = v.B[:1]
+		v.B = v.B[1:]
+	}
+	v.End = p.lexer.TokenEnd()
+	p.lexer.Next()
+}
+
+// isInteger returns whether or not the numeral is an integer with an optional sign.
+func isInteger(numeral string) bool {
+	if strings.HasPrefix(numeral, "-") || strings.HasPrefix(numeral, "+") {
+		numeral = numeral[1:]
+	}
+	return isDigits(numeral)
+}
+
+// isDigits returns whether or not the input is one or more digits.
+func isDigits(in string) bool {
+	for i := 0; i < len(in); i++ {
+		if in[i] < '0' || in[i] > '9' {
+			return false
+		}
+	}
+	return len(in) > 0
+}
diff --git a/internal/printer/printer.go b/internal/printer/printer.go
index 600d19d..c0a8751 100644
--- a/internal/printer/printer.go
+++ b/internal/printer/printer.go
@@ -324,26 +324,28 @@ func (p *printer) print(in ast.Node) {
 		}
 
 	case *ast.ANPlusB:
+		a := strings.TrimPrefix(node.A, "+")
 		wrote := false
-		if node.A != "" && node.A != "1" && node.A != "0" {
-			if node.A == "-1" {
-				p.s.WriteString("-")
-			} else if strings.HasPrefix(node.A, "+") {
-				p.s.WriteString(node.A[1:])
-			} else {
-				p.s.WriteString(node.A)
-			}
+		switch a {
+		case "0", "-0":
+		case "", "1":
+			p.s.WriteRune('n')
 			wrote = true
-		}
-		if node.A != "0" {
+		case "-1":
+			p.s.WriteString("-n")
+			wrote = true
+		default:
+			p.s.WriteString(a)
 			p.s.WriteRune('n')
 			wrote = true
 		}
 		if node.B != "" && node.B != "0" {
-			if wrote {
+			if wrote || node.Operator == "-" {
 				p.s.WriteString(node.Operator)
 			}
 			p.s.WriteString(node.B)
+		} else if !wrote {
+			p.s.WriteRune('0')
 		}
 
 	case *ast.MediaQueryList:
-- 
2.43.0


From d09848cc948508fafc6de4406ebf580c9ae4c65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:47 +0000
Subject: [PATCH 20/34] fix: locate the content of url() values

---
 internal/parser/parser.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index b2b63bc..281b8be 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -1,6 +1,8 @@
 package parser
 
 import (
+	"strings"
+
 	"github.com/stephen/cssc/internal/ast"
 	"github.com/stephen/cssc/internal/lexer"
 	"github.com/stephen/cssc/internal/logging"
@@ -477,10 +479,14 @@ func (p *parser) parseValue() ast.Value {
 
 	case lexer.URL:
 		defer p.lexer.Next()
+		span := p.lexer.TokenSpan()
 		return &ast.Function{
-			Span:      p.lexer.TokenSpan(),
-			Name:      "url",
-			Arguments: []ast.Value{&ast.Identifier{Value: p.lexer.CurrentString}},
+			Span: span,
+			Name: "url",
+			Arguments: []ast.Value{&ast.Identifier{
+				Span:  p.urlContentSpan(span),
+				Value: p.lexer.CurrentString,
+			}},
 		}
 
 	case lexer.FunctionStart:
@@ -527,6 +533,15 @@ func (p *parser) parseValue() ast.Value {
 	}
 }
 
+// urlContentSpan returns the span of the unquoted content of the url token, e.g.
+// of a.png in url( a.png ).
+func (p *parser) urlContentSpan(token ast.Span) ast.Span {
+	text := p.source.Content[token.Start:token.End]
+	inner := strings.TrimLeft(text[len("url("):], " \t\r\n\f")
+	start := token.End - len(inner)
+	return ast.Span{Start: start, End: start + len(p.lexer.CurrentString)}
+}
+
 func (p *parser) parseAtRule() {
 	switch p.lexer.CurrentString {
 	case "import":
-- 
2.43.0


From e0f387ee6e9ac28d65c29c8c3a95253dfaa5e49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:48 +0000
Subject: [PATCH 21/34] fix: quote strings and the source map's path properly

---
 internal/printer/printer.go | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/internal/printer/printer.go b/internal/printer/printer.go
index c0a8751..74c9d27 100644
--- a/internal/printer/printer.go
+++ b/internal/printer/printer.go
@@ -62,10 +62,14 @@ func (p *printer) printMapping() {
 	}
 
 	b := strings.Builder{}
-	b.WriteString(`{"version": 3,"file":"`)
-	b.WriteString(p.options.OriginalSource.Path)
+	b.WriteString(`{"version": 3,"file":`)
+	path, err := json.Marshal(p.options.OriginalSource.Path)
+	if err != nil {
+		panic(err)
+	}
+	b.Write(path)
 	// XXX: sources content and names.
-	b.WriteString(`","sourceRoot":"", "sources": ["source.css"], "sourcesContent":[`)
+	b.WriteString(`,"sourceRoot":"", "sources": ["source.css"], "sourcesContent":[`)
 	out, err := json.Marshal(p.options.OriginalSource.Content)
 	if err != nil {
 		panic(err)
@@ -140,6 +144,20 @@ func (p *printer) printValues(values []ast.Value) {
 	}
 }
 
+// quotationMark returns the quotation mark to put around the string contents. Escapes
+// are kept as-is, so the contents have unescaped " only if the source used '.
+func quotationMark(contents string) byte {
+	for i := 0; i < len(contents); i++ {
+		switch contents[i] {
+		case '\\':
+			i++
+		case '"':
+			return '\''
+		}
+	}
+	return '"'
+}
+
 // print prints the current ast node to the printer output.
 func (p *printer) print(in ast.Node) {
 	switch node := in.(type) {
@@ -232,9 +250,10 @@ func (p *printer) print(in ast.Node) {
 		p.s.WriteRune('%')
 
 	case *ast.String:
-		p.s.WriteRune('"')
+		mark := quotationMark(node.Value)
+		p.s.WriteByte(mark)
 		p.s.WriteString(node.Value)
-		p.s.WriteRune('"')
+		p.s.WriteByte(mark)
 
 	case *ast.Identifier:
 		p.s.WriteString(node.Value)
-- 
2.43.0


From 96d323e716f9dcd7680efe5028a9f339737cb15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:23 +0000
Subject: [PATCH 22/34] fix: source map lines and columns of non-ASCII text and
 other newlines

---
 internal/printer/printer.go | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/internal/printer/printer.go b/internal/printer/printer.go
index 74c9d27..f977c61 100644
--- a/internal/printer/printer.go
+++ b/internal/printer/printer.go
@@ -93,20 +93,29 @@ func (p *printer) addMapping(loc ast.Span) {
 
 	newState := p.lastMappingState
 
+	// Columns in source maps count UTF-16 code units.
 	line, col := p.options.OriginalSource.LineAndCol(loc)
-	newState.originalLine, newState.originalColumn = line-1, col-1
+	lineStart := loc.Start - int(col-1)
+	newState.originalLine = line - 1
+	newState.originalColumn = utf16Length(p.options.OriginalSource.Content[lineStart:loc.Start])
 
 	// Note that String() here does not reallocate the string.
-	for _, ch := range p.s.String()[p.lastWritten:] {
-		if ch == '\n' {
+	written := p.s.String()[p.lastWritten:]
+	for i := 0; i < len(written); i++ {
+		switch written[i] {
+		case '\r':
+			if i+1 < len(written) && written[i+1] == '\n' {
+				i++
+			}
+			fallthrough
+		case '\n', '\f':
 			p.lastMappingState.generatedColumn = 0
 			newState.generatedColumn = 0
 			p.sourceMappings.WriteRune(';')
-			continue
+			written, i = written[i+1:], -1
 		}
-
-		newState.generatedColumn++
 	}
+	newState.generatedColumn += utf16Length(written)
 
 	if p.s.Len() > 0 {
 		lastByte := p.sourceMappings.String()[p.sourceMappings.Len()-1]
@@ -127,6 +136,18 @@ func (p *printer) addMapping(loc ast.Span) {
 	p.lastWritten = p.s.Len()
 }
 
+// utf16Length returns the number of UTF-16 code units that represent the text.
+func utf16Length(text string) int32 {
+	var length int32
+	for _, ch := range text {
+		length++
+		if ch > 0xffff {
+			length++
+		}
+	}
+	return length
+}
+
 // printValues prints a list of values.
 func (p *printer) printValues(values []ast.Value) {
 	for i, val := range values {
-- 
2.43.0


From 3cba4523f6d4cdf90df70b477a678eed0b6627f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:43 +0000
Subject: [PATCH 23/34] fix: line extents and annotations at newlines

---
 internal/logging/logging.go | 10 +++++++---
 internal/sources/source.go  |  8 +++-----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/internal/logging/logging.go b/internal/logging/logging.go
index 45d7eeb..11a2bb5 100644
--- a/internal/logging/logging.go
+++ b/internal/logging/logging.go
@@ -89,12 +89,16 @@ func AnnotateSourceSpan(source *sources.Source, span ast.Span) string {
 	withoutTabs := strings.ReplaceAll(line, "\t", "  ")
 
 	indent := strings.Repeat(" ", int(col)+tabCount-1)
-	underline := strings.Repeat("~", span.End-span.Start)[:]
 	excessMarker := ""
-	if excess := span.End - lineSpan.End; excess > 0 {
-		underline = underline[:len(underline)-excess]
+	end := span.End
+	if end > lineSpan.End {
+		end = lineSpan.End
 		excessMarker = ">"
 	}
+	underline := ""
+	if end > span.Start {
+		underline = strings.Repeat("~", end-span.Start)
+	}
 
 	return fmt.Sprintf("\t%s\n\t%s%s%s", withoutTabs, indent, underline, excessMarker)
 }
diff --git a/internal/sources/source.go b/internal/sources/source.go
index 3160d7b..e33ab68 100644
--- a/internal/sources/source.go
+++ b/internal/sources/source.go
@@ -2,6 +2,7 @@ package sources
 
 import (
 	"sort"
+	"strings"
 
 	"github.com/stephen/cssc/internal/ast"
 )
@@ -37,11 +38,8 @@ func (s *Source) FullLine(loc ast.Span) ast.Span {
 	lineStart := s.Lines[lineNumber-1]
 
 	lineEnd := len(s.Content)
-	for i, ch := range s.Content[loc.Start:] {
-		if ch == '\n' {
-			lineEnd = i + loc.Start
-			break
-		}
+	if i := strings.IndexAny(s.Content[lineStart:], "\n\r\f"); i != -1 {
+		lineEnd = lineStart + i
 	}
 
 	return ast.Span{Start: lineStart, End: lineEnd}
-- 
2.43.0


From 05ecfe3ae642951d09c57a0bf47304e1343f4ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:55 +0000
Subject: [PATCH 24/34] fix: walk bracketed values and pseudo class arguments

---
 internal/ast/walk.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/ast/walk.go b/internal/ast/walk.go
index 562ed02..280c637 100644
--- a/internal/ast/walk.go
+++ b/internal/ast/walk.go
@@ -91,16 +91,23 @@ func Walk(start Node, visit func(n Node)) {
 			Walk(arg, visit)
 		}
 
+	case *Brackets:
+		for _, v := range s.Values {
+			Walk(v, visit)
+		}
+
 	case *PseudoElementSelector:
 		Walk(s.Inner, visit)
 
+	case *PseudoClassSelector:
+		Walk(s.Arguments, visit)
+
 	case *ClassSelector:
 	case *Comma:
 	case *IDSelector:
 	case *String:
 	case *TypeSelector:
 	case *CombinatorSelector:
-	case *PseudoClassSelector:
 	case *ANPlusB:
 	case *HexColor:
 	case *Percentage:
-- 
2.43.0


From 8ef12155e07cbbaa07e00b403782633ee8b34da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:01 +0000
Subject: [PATCH 25/34] fix: print passed-through imports once and accept
 @media without queries

---
 internal/transformer/transformer.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index 771bca2..1b6e67c 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -179,10 +179,6 @@ func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 		case *ast.AtRule:
 			switch node.Name {
 			case "import":
-				if t.ImportReplacements == nil {
-					rv = append(rv, node)
-				}
-
 				imported, ok := t.ImportReplacements[node]
 				if !ok {
 					rv = append(rv, node)
@@ -219,8 +215,11 @@ func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 				}()
 
 			case "media":
-				mq := node.Preludes[0].(*ast.MediaQueryList)
-				mq.Queries = t.transformMediaQueries(mq.Queries)
+				for _, prelude := range node.Preludes {
+					if mq, ok := prelude.(*ast.MediaQueryList); ok {
+						mq.Queries = t.transformMediaQueries(mq.Queries)
+					}
+				}
 				rv = append(rv, node)
 
 			default:
-- 
2.43.0


From 438aeb037fca24526bc0c3d4b909f76022cc40ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:39 +0000
Subject: [PATCH 26/34] fix: replace :any-link everywhere and independently

---
 internal/transformer/transformer.go | 152 +++++++++++++++++++---------
 1 file changed, 103 insertions(+), 49 deletions(-)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index 1b6e67c..6e719ad 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -77,37 +77,89 @@ func (t *transformer) addWarn(loc ast.Node, fmt string, args ...interface{}) {
 func (t *transformer) transformSelectors(nodes []*ast.Selector) []*ast.Selector {
 	newNodes := make([]*ast.Selector, 0, len(nodes))
 	for _, n := range nodes {
-		newParts := make([]ast.SelectorPart, 0, len(n.Parts))
-		for index, p := range n.Parts {
+		// There is one list of parts for every way of replacing :any-link so far.
+		expanded := [][]ast.SelectorPart{make([]ast.SelectorPart, 0, len(n.Parts))}
+		for _, p := range n.Parts {
 			switch part := p.(type) {
 			case *ast.PseudoClassSelector:
-				if part.Name != "any-link" || t.AnyLink == transforms.AnyLinkPassthrough {
-					newParts = append(newParts, p)
+				if part.Arguments != nil || !strings.EqualFold(part.Name, "any-link") || t.AnyLink == transforms.AnyLinkPassthrough {
+					expanded = appendPart(expanded, t.transformPseudoClass(part))
 					break
 				}
 
-				// Replace one of them with :link.
-				newParts = append(
-					newParts,
-					&ast.PseudoClassSelector{Name: "link"},
+				// Replace one of them with :link and make a duplicate with :visited.
+				expanded = appendPart(
+					expanded,
+					&ast.PseudoClassSelector{Span: part.Span, Name: "visited"},
+					&ast.PseudoClassSelector{Span: part.Span, Name: "link"},
 				)
 
-				// Make a duplicate with :visited.
-				duplicate := *n
-				duplicate.Parts[index] = &ast.PseudoClassSelector{Name: "visited"}
-				newNodes = append(newNodes, &duplicate)
+			case *ast.PseudoElementSelector:
+				element := *part
+				element.Inner = t.transformPseudoClass(part.Inner)
+				expanded = appendPart(expanded, &element)
 
 			default:
-				newParts = append(newParts, p)
+				expanded = appendPart(expanded, p)
 			}
 		}
 
-		n.Parts = newParts
-		newNodes = append(newNodes, n)
+		for _, newParts := range expanded {
+			duplicate := *n
+			duplicate.Parts = newParts
+			newNodes = append(newNodes, &duplicate)
+		}
 	}
 	return newNodes
 }
 
+// appendPart adds each of the alternatives to each of the lists of parts.
+func appendPart(lists [][]ast.SelectorPart, alternatives ...ast.SelectorPart) [][]ast.SelectorPart {
+	rv := make([][]ast.SelectorPart, 0, len(lists)*len(alternatives))
+	for _, parts := range lists {
+		for _, alternative := range alternatives {
+			// Limit the capacity so that the alternatives do not share memory.
+			rv = append(rv, append(parts[:len(parts):len(parts)], alternative))
+		}
+	}
+	return rv
+}
+
+// transformPseudoClass transforms the selectors that are arguments of the pseudo class.
+func (t *transformer) transformPseudoClass(pc *ast.PseudoClassSelector) *ast.PseudoClassSelector {
+	list, ok := pc.Arguments.(*ast.SelectorList)
+	if !ok {
+		return pc
+	}
+
+	newList := *list
+	newList.Selectors = t.transformSelectors(list.Selectors)
+	newClass := *pc
+	newClass.Arguments = &newList
+	return &newClass
+}
+
+// transformRules transforms the rules in an at-rule block.
+func (t *transformer) transformRules(rules []*ast.QualifiedRule) []*ast.QualifiedRule {
+	newRules := make([]*ast.QualifiedRule, 0, len(rules))
+	for _, rule := range rules {
+		newRules = append(newRules, t.transformRule(rule))
+	}
+	return newRules
+}
+
+// transformRule returns the rule with its prelude and block transformed.
+func (t *transformer) transformRule(rule *ast.QualifiedRule) *ast.QualifiedRule {
+	newRule := *rule
+	if selList, ok := rule.Prelude.(*ast.SelectorList); ok {
+		newList := *selList
+		newList.Selectors = t.transformSelectors(selList.Selectors)
+		newRule.Prelude = &newList
+	}
+	newRule.Block = t.transformBlock(rule.Block)
+	return &newRule
+}
+
 func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 	rv := make([]ast.Node, 0, len(nodes))
 	for _, value := range nodes {
@@ -164,17 +216,11 @@ func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 				declBlock.Declarations = newDecls
 			}()
 
-			selList, ok := node.Prelude.(*ast.SelectorList)
-			if !ok {
-				t.addError(node.Prelude, "expected selector list for qualified rule")
-			}
-			selList.Selectors = t.transformSelectors(selList.Selectors)
-			node.Block = t.transformBlock(node.Block)
-
-			if node.Block == nil {
+			rule := t.transformRule(node)
+			if block, ok := rule.Block.(*ast.DeclarationBlock); ok && len(block.Declarations) == 0 {
 				continue
 			}
-			rv = append(rv, node)
+			rv = append(rv, rule)
 
 		case *ast.AtRule:
 			switch node.Name {
@@ -214,16 +260,11 @@ func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 					t.customMedia[name.Value] = query
 				}()
 
-			case "media":
-				for _, prelude := range node.Preludes {
-					if mq, ok := prelude.(*ast.MediaQueryList); ok {
-						mq.Queries = t.transformMediaQueries(mq.Queries)
-					}
-				}
-				rv = append(rv, node)
-
 			default:
-				rv = append(rv, node)
+				rule := *node
+				rule.Preludes = t.transformPreludes(node.Preludes)
+				rule.Block = t.transformBlock(node.Block)
+				rv = append(rv, &rule)
 			}
 
 		default:
@@ -233,11 +274,26 @@ func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 	return rv
 }
 
+// transformPreludes transforms the media queries in the preludes of an at-rule.
+func (t *transformer) transformPreludes(preludes []ast.AtPrelude) []ast.AtPrelude {
+	newPreludes := make([]ast.AtPrelude, 0, len(preludes))
+	for _, prelude := range preludes {
+		if mq, ok := prelude.(*ast.MediaQueryList); ok {
+			newList := *mq
+			newList.Queries = t.transformMediaQueries(mq.Queries)
+			prelude = &newList
+		}
+		newPreludes = append(newPreludes, prelude)
+	}
+	return newPreludes
+}
+
 func (t *transformer) transformMediaQueries(queries []*ast.MediaQuery) []*ast.MediaQuery {
 	newQueries := make([]*ast.MediaQuery, 0, len(queries))
 	for _, q := range queries {
-		q.Parts = t.transformMediaQueryParts(q.Parts)
-		newQueries = append(newQueries, q)
+		newQuery := *q
+		newQuery.Parts = t.transformMediaQueryParts(q.Parts)
+		newQueries = append(newQueries, &newQuery)
 	}
 	return newQueries
 }
@@ -360,24 +416,21 @@ func (t *transformer) transformMediaQueryParts(parts []ast.MediaQueryPart) []ast
 func (t *transformer) transformBlock(block ast.Block) ast.Block {
 	switch node := block.(type) {
 	case *ast.QualifiedRuleBlock:
-		// 	for _, d := range node.Rules {
-		// 		// t.transform(d)
-		// 	}
-		if len(node.Rules) == 0 {
-			return nil
-		}
+		newBlock := *node
+		newBlock.Rules = t.transformRules(node.Rules)
+		return &newBlock
 
 	case *ast.DeclarationBlock:
-		node.Declarations = t.transformDeclarations(node.Declarations)
-		if len(node.Declarations) == 0 {
-			return nil
-		}
+		newBlock := *node
+		newBlock.Declarations = t.transformDeclarations(node.Declarations)
+		return &newBlock
+
+	case nil:
+		return nil
 
 	default:
 		panic("unknown block")
 	}
-
-	return block
 }
 
 func (t *transformer) transformDeclarations(decls []ast.Declarationish) []ast.Declarationish {
@@ -385,8 +438,9 @@ func (t *transformer) transformDeclarations(decls []ast.Declarationish) []ast.De
 	for _, decl := range decls {
 		switch d := decl.(type) {
 		case *ast.Declaration:
-			d.Values = t.transformValues(d.Values)
-			newDecls = append(newDecls, d)
+			newDecl := *d
+			newDecl.Values = t.transformValues(d.Values)
+			newDecls = append(newDecls, &newDecl)
 		default:
 			newDecls = append(newDecls, d)
 		}
-- 
2.43.0


From 8bdd6e85a5a8018ee235381ceff81c6524940b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:39 +0000
Subject: [PATCH 27/34] fix: collect definitions first, substitute them in
 nested values and evaluate nested math

---
 internal/transformer/transformer.go | 611 +++++++++++++++++++---------
 1 file changed, 417 insertions(+), 194 deletions(-)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index 6e719ad..cc65cd9 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -2,6 +2,7 @@ package transformer
 
 import (
 	"fmt"
+	"math"
 	"reflect"
 	"strconv"
 	"strings"
@@ -27,6 +28,10 @@ type Options struct {
 	// ImportReplacements is the set of import references to inline. ImportReplacements must be non-nil
 	// if ImportRules is set to ImportRulesInline.
 	ImportReplacements map[*ast.AtRule]*ast.Stylesheet
+
+	// ImportSources is the set of sources that the inlined stylesheets were parsed from. It is used
+	// to report error locations in them.
+	ImportSources map[*ast.Stylesheet]*sources.Source
 }
 
 // Transform takes a pass over the input AST and runs various
@@ -41,20 +46,24 @@ func Transform(s *ast.Stylesheet, opts Options) *ast.Stylesheet {
 	}
 
 	if opts.CustomProperties != transforms.CustomPropertiesPassthrough {
-		t.variables = make(map[string][]ast.Value)
+		t.variables = make(map[string]*variable)
 	}
 
 	if opts.CustomMediaQueries != transforms.CustomMediaQueriesPassthrough {
-		t.customMedia = make(map[string]*ast.MediaQuery)
+		t.customMedia = make(map[string]*customMedia)
 	}
 
 	if opts.ImportReplacements == nil && opts.ImportRules == transforms.ImportRulesInline {
 		t.Reporter.AddError(fmt.Errorf("ImportRules is set to ImportRulesInline, but ImportReplacements is not set"))
 	}
 
-	s.Nodes = t.transformNodes(s.Nodes)
+	t.importing = map[*ast.Stylesheet]struct{}{s: struct{}{}}
+	t.collectDefinitions(s.Nodes)
+
+	newSheet := *s
+	newSheet.Nodes = t.transformNodes(s.Nodes)
 
-	return s
+	return &newSheet
 }
 
 // transformer takes a pass over the AST and makes
@@ -62,8 +71,162 @@ func Transform(s *ast.Stylesheet, opts Options) *ast.Stylesheet {
 type transformer struct {
 	Options
 
-	variables   map[string][]ast.Value
-	customMedia map[string]*ast.MediaQuery
+	variables   map[string]*variable
+	customMedia map[string]*customMedia
+
+	// importing is the set of stylesheets that are being inlined.
+	importing map[*ast.Stylesheet]struct{}
+}
+
+// variable is the definition of a custom property.
+type variable struct {
+	values    []ast.Value
+	important bool
+
+	// opaque is set if there is a definition that could not be parsed. The definitions
+	// and uses of the property are left as they are.
+	opaque bool
+
+	// source is where the values were defined.
+	source *sources.Source
+
+	// transforming is set while the values are being transformed, transformed afterwards.
+	transforming, transformed bool
+}
+
+// customMedia is the definition of a custom media query.
+type customMedia struct {
+	parts  []ast.MediaQueryPart
+	source *sources.Source
+
+	transforming, transformed bool
+}
+
+// collectDefinitions finds the definitions of custom properties and custom media queries, because
+// they are also valid for anything in front of them.
+func (t *transformer) collectDefinitions(nodes []ast.Node) {
+	for _, value := range nodes {
+		switch node := value.(type) {
+		case *ast.QualifiedRule:
+			declBlock, ok := node.Block.(*ast.DeclarationBlock)
+			if !ok || t.variables == nil || !isRootRule(node) {
+				break
+			}
+
+			for _, decl := range declBlock.Declarations {
+				switch d := decl.(type) {
+				case *ast.Declaration:
+					if !strings.HasPrefix(d.Property, "--") {
+						break
+					}
+
+					previous := t.variables[d.Property]
+					if previous != nil && (previous.opaque || previous.important && !d.Important) {
+						break
+					}
+					t.variables[d.Property] = &variable{values: d.Values, important: d.Important, source: t.OriginalSource}
+
+				case *ast.Raw:
+					if end := strings.IndexAny(d.Value, ": \t\r\n\f/"); end > 0 && strings.HasPrefix(d.Value, "--") {
+						t.variables[d.Value[:end]] = &variable{opaque: true}
+					}
+				}
+			}
+
+		case *ast.AtRule:
+			switch node.Name {
+			case "import":
+				t.withImport(node, func(imported *ast.Stylesheet) {
+					t.collectDefinitions(imported.Nodes)
+				})
+
+			case "custom-media":
+				func() {
+					if t.customMedia == nil {
+						return
+					}
+
+					if len(node.Preludes) != 2 {
+						return
+					}
+
+					name, ok := node.Preludes[0].(*ast.Identifier)
+					if !ok {
+						return
+					}
+
+					query, ok := node.Preludes[1].(*ast.MediaQuery)
+					if !ok {
+						return
+					}
+
+					t.customMedia[name.Value] = &customMedia{parts: query.Parts, source: t.OriginalSource}
+				}()
+			}
+		}
+	}
+}
+
+// isRootRule returns whether or not the only selector of the rule is :root.
+func isRootRule(node *ast.QualifiedRule) bool {
+	selList, ok := node.Prelude.(*ast.SelectorList)
+	if !ok || len(selList.Selectors) != 1 {
+		return false
+	}
+
+	parts := selList.Selectors[0].Parts
+	if len(parts) == 2 {
+		if _, isWhitespace := parts[1].(*ast.Whitespace); !isWhitespace {
+			return false
+		}
+	} else if len(parts) != 1 {
+		return false
+	}
+
+	rootSel, ok := parts[0].(*ast.PseudoClassSelector)
+	return ok && rootSel.Arguments == nil && strings.EqualFold(rootSel.Name, "root")
+}
+
+// withoutDefinitions returns the declarations that are not definitions of custom properties.
+func (t *transformer) withoutDefinitions(decls []ast.Declarationish) []ast.Declarationish {
+	newDecls := make([]ast.Declarationish, 0, len(decls))
+	for _, decl := range decls {
+		if d, ok := decl.(*ast.Declaration); ok {
+			if definition := t.variables[d.Property]; definition != nil && !definition.opaque {
+				continue
+			}
+		}
+		newDecls = append(newDecls, decl)
+	}
+	return newDecls
+}
+
+// withImport calls f for the stylesheet that replaces the import, if there is one. It returns whether
+// or not there is one.
+func (t *transformer) withImport(node *ast.AtRule, f func(imported *ast.Stylesheet)) bool {
+	imported, ok := t.ImportReplacements[node]
+	if !ok {
+		return false
+	}
+	if _, ok := t.importing[imported]; ok {
+		return false
+	}
+
+	t.importing[imported] = struct{}{}
+	defer delete(t.importing, imported)
+
+	t.withSource(t.ImportSources[imported], func() { f(imported) })
+	return true
+}
+
+// withSource calls f with the source for reporting error locations replaced.
+func (t *transformer) withSource(source *sources.Source, f func()) {
+	previous := t.OriginalSource
+	if source != nil {
+		t.OriginalSource = source
+	}
+	defer func() { t.OriginalSource = previous }()
+	f()
 }
 
 func (t *transformer) addError(loc ast.Node, fmt string, args ...interface{}) {
@@ -165,56 +328,14 @@ func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 	for _, value := range nodes {
 		switch node := value.(type) {
 		case *ast.QualifiedRule:
-			func() {
-				selList, ok := node.Prelude.(*ast.SelectorList)
-				if !ok {
-					return
+			if t.variables != nil && isRootRule(node) {
+				if declBlock, ok := node.Block.(*ast.DeclarationBlock); ok {
+					root, newBlock := *node, *declBlock
+					newBlock.Declarations = t.withoutDefinitions(declBlock.Declarations)
+					root.Block = &newBlock
+					node = &root
 				}
-
-				isRoot := false
-				for _, sel := range selList.Selectors {
-					if len(sel.Parts) != 1 {
-						isRoot = true
-						break
-					}
-				}
-
-				if !isRoot {
-					return
-				}
-
-				rootSel, ok := selList.Selectors[0].Parts[0].(*ast.PseudoClassSelector)
-				if !ok {
-					return
-				}
-
-				if rootSel.Name != "root" {
-					return
-				}
-
-				declBlock, ok := node.Block.(*ast.DeclarationBlock)
-				if !ok {
-					return
-				}
-
-				newDecls := make([]ast.Declarationish, 0, len(declBlock.Declarations))
-				for _, decl := range declBlock.Declarations {
-					switch d := decl.(type) {
-					case *ast.Declaration:
-
-						if strings.HasPrefix(d.Property, "--") && t.variables != nil {
-							t.variables[d.Property] = d.Values
-							continue
-						}
-						newDecls = append(newDecls, d)
-					default:
-						newDecls = append(newDecls, d)
-					}
-
-				}
-
-				declBlock.Declarations = newDecls
-			}()
+			}
 
 			rule := t.transformRule(node)
 			if block, ok := rule.Block.(*ast.DeclarationBlock); ok && len(block.Declarations) == 0 {
@@ -225,9 +346,17 @@ func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 		case *ast.AtRule:
 			switch node.Name {
 			case "import":
-				imported, ok := t.ImportReplacements[node]
-				if !ok {
-					rv = append(rv, node)
+				replaced := t.withImport(node, func(imported *ast.Stylesheet) {
+					rv = append(rv, t.transformNodes(imported.Nodes)...)
+				})
+
+				if !replaced {
+					if _, ok := t.ImportReplacements[node]; ok {
+						t.addError(node, "cannot inline @import that includes itself")
+					}
+					rule := *node
+					rule.Preludes = t.transformPreludes(node.Preludes)
+					rv = append(rv, &rule)
 					break
 				}
 
@@ -235,30 +364,8 @@ func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 					t.addWarn(node, "@import transform does not yet support @supports or media queries")
 				}
 
-				rv = append(rv, t.transformNodes(imported.Nodes)...)
-
 			case "custom-media":
-				func() {
-					if t.customMedia == nil {
-						return
-					}
-
-					if len(node.Preludes) != 2 {
-						return
-					}
-
-					name, ok := node.Preludes[0].(*ast.Identifier)
-					if !ok {
-						return
-					}
-
-					query, ok := node.Preludes[1].(*ast.MediaQuery)
-					if !ok {
-						return
-					}
-
-					t.customMedia[name.Value] = query
-				}()
+				// The definitions have already been collected.
 
 			default:
 				rule := *node
@@ -300,6 +407,7 @@ func (t *transformer) transformMediaQueries(queries []*ast.MediaQuery) []*ast.Me
 
 // addToValue takes an ast.Value and adds diff to it.
 // XXX: change this out to only operate on ast.Dimension, since there are no other valid number types now.
+// It returns nil if that is not possible.
 func (t *transformer) addToValue(v ast.Value, diff float64) ast.Value {
 	if diff == 0 {
 		return v
@@ -310,13 +418,13 @@ func (t *transformer) addToValue(v ast.Value, diff float64) ast.Value {
 		f, err := strconv.ParseFloat(oldValue.Value, 10)
 		if err != nil {
 			t.addError(oldValue, "could not parse dimension value to lower media range: %s", oldValue.Value)
-			return oldValue
+			return nil
 		}
 		return &ast.Dimension{Value: strconv.FormatFloat(f+diff, 'f', -1, 64), Unit: oldValue.Unit}
 
 	default:
 		t.addError(oldValue, "tried to modify non-numeric value. expected dimension, percentage, or number, but got: %s", reflect.TypeOf(v).String())
-		return v
+		return nil
 	}
 }
 
@@ -343,10 +451,15 @@ func (t *transformer) transformMediaFeatureRange(part *ast.MediaFeatureRange) []
 			direction = "min"
 		}
 
+		value := t.addToValue(part.LeftValue, diff)
+		if value == nil {
+			return asIs
+		}
+
 		newParts = append(newParts, &ast.MediaFeaturePlain{
 			// XXX: replace this allocation with a lookup.
 			Property: &ast.Identifier{Value: fmt.Sprintf("%s-%s", direction, part.Property.Value)},
-			Value:    t.addToValue(part.LeftValue, diff),
+			Value:    value,
 		})
 	}
 
@@ -370,10 +483,15 @@ func (t *transformer) transformMediaFeatureRange(part *ast.MediaFeatureRange) []
 			direction = "max"
 		}
 
+		value := t.addToValue(part.RightValue, diff)
+		if value == nil {
+			return asIs
+		}
+
 		newParts = append(newParts, &ast.MediaFeaturePlain{
 			// XXX: replace this allocation with a lookup.
 			Property: &ast.Identifier{Value: fmt.Sprintf("%s-%s", direction, part.Property.Value)},
-			Value:    t.addToValue(part.RightValue, diff),
+			Value:    value,
 		})
 	}
 
@@ -396,12 +514,20 @@ func (t *transformer) transformMediaQueryParts(parts []ast.MediaQueryPart) []ast
 			}
 
 			replacement, ok := t.customMedia[part.Property.Value]
-			if !ok {
+			if !ok || replacement.transforming {
 				newParts = append(newParts, p)
 				break
 			}
 
-			newParts = append(newParts, replacement.Parts...)
+			if !replacement.transformed {
+				replacement.transforming = true
+				t.withSource(replacement.source, func() {
+					replacement.parts = t.transformMediaQueryParts(replacement.parts)
+				})
+				replacement.transforming, replacement.transformed = false, true
+			}
+
+			newParts = append(newParts, replacement.parts...)
 
 		case *ast.MediaFeatureRange:
 			newParts = append(newParts, t.transformMediaFeatureRange(part)...)
@@ -439,7 +565,10 @@ func (t *transformer) transformDeclarations(decls []ast.Declarationish) []ast.De
 		switch d := decl.(type) {
 		case *ast.Declaration:
 			newDecl := *d
-			newDecl.Values = t.transformValues(d.Values)
+			// A declaration without any values would not be valid.
+			if values := t.transformValues(d.Values); len(values) > 0 {
+				newDecl.Values = values
+			}
 			newDecls = append(newDecls, &newDecl)
 		default:
 			newDecls = append(newDecls, d)
@@ -456,11 +585,11 @@ func (t *transformer) transformValues(values []ast.Value) []ast.Value {
 		case *ast.Function:
 			newValues := []ast.Value{v}
 			func() {
-				if v.Name != "var" {
-					return
-				}
-
-				if t.variables == nil {
+				if !strings.EqualFold(v.Name, "var") || t.variables == nil {
+					fn := *v
+					fn.Arguments = t.transformArguments(v)
+					v = &fn
+					newValues = []ast.Value{v}
 					return
 				}
 
@@ -475,11 +604,11 @@ func (t *transformer) transformValues(values []ast.Value) []ast.Value {
 					return
 				}
 
-				vals, ok := t.variables[varName.Value]
-				if !ok {
+				definition, ok := t.variables[varName.Value]
+				if !ok || definition.transforming {
 					// The first argument is the value, the second is a comma.
-					if len(v.Arguments) > 2 {
-						newValues = v.Arguments[2:]
+					if hasFallback(v) {
+						newValues = t.transformValues(v.Arguments[2:])
 						return
 					}
 
@@ -487,7 +616,24 @@ func (t *transformer) transformValues(values []ast.Value) []ast.Value {
 					return
 				}
 
-				newValues = vals
+				if definition.opaque {
+					if hasFallback(v) {
+						fn := *v
+						fn.Arguments = append(v.Arguments[:2:2], t.transformValues(v.Arguments[2:])...)
+						newValues = []ast.Value{&fn}
+					}
+					return
+				}
+
+				if !definition.transformed {
+					definition.transforming = true
+					t.withSource(definition.source, func() {
+						definition.values = t.transformValues(definition.values)
+					})
+					definition.transforming, definition.transformed = false, true
+				}
+
+				newValues = definition.values
 			}()
 
 			func() {
@@ -504,28 +650,12 @@ func (t *transformer) transformValues(values []ast.Value) []ast.Value {
 					return
 				}
 
-				args := t.transformValues([]ast.Value{v.Arguments[0]})
-				if len(args) != 1 {
-					t.addWarn(v, "expected single argument for calc()")
-					return
-				}
-
-				arg, ok := args[0].(*ast.MathExpression)
+				arg, ok := v.Arguments[0].(*ast.MathExpression)
 				if !ok {
 					return
 				}
 
-				l, r := t.transformValues([]ast.Value{arg.Left}), t.transformValues([]ast.Value{arg.Right})
-				if len(l) != 1 {
-					t.addWarn(arg.Left, "expected left-hand side of math expression to be a single value")
-					return
-				}
-				if len(r) != 1 {
-					t.addWarn(arg.Right, "expected right-hand side of math expression to be a single value")
-					return
-				}
-
-				newValue := t.evaluateMathExpression(l[0], r[0], arg.Operator)
+				newValue := t.evaluateMathExpression(arg)
 				if newValue == nil {
 					return
 				}
@@ -535,6 +665,11 @@ func (t *transformer) transformValues(values []ast.Value) []ast.Value {
 
 			rv = append(rv, newValues...)
 
+		case *ast.Brackets:
+			brackets := *v
+			brackets.Values = t.transformValues(v.Values)
+			rv = append(rv, &brackets)
+
 		default:
 			rv = append(rv, v)
 		}
@@ -543,6 +678,59 @@ func (t *transformer) transformValues(values []ast.Value) []ast.Value {
 	return rv
 }
 
+// hasFallback returns whether or not there is a fallback in var().
+func hasFallback(v *ast.Function) bool {
+	if len(v.Arguments) < 2 {
+		return false
+	}
+	_, ok := v.Arguments[1].(*ast.Comma)
+	return ok
+}
+
+// transformArguments transforms the arguments of a function.
+func (t *transformer) transformArguments(v *ast.Function) []ast.Value {
+	if !v.IsMath() {
+		return t.transformValues(v.Arguments)
+	}
+
+	rv := make([]ast.Value, 0, len(v.Arguments))
+	for _, arg := range v.Arguments {
+		rv = append(rv, t.transformMathOperand(arg)...)
+	}
+	return rv
+}
+
+// transformMathOperand transforms the values in a math expression. If an operand of the expression does
+// not become a single value, the expression becomes a list of values and operators.
+func (t *transformer) transformMathOperand(value ast.Value) []ast.Value {
+	switch v := value.(type) {
+	case *ast.MathExpression:
+		left, right := t.transformMathOperand(v.Left), t.transformMathOperand(v.Right)
+		if len(left) == 1 && len(right) == 1 {
+			expr := *v
+			expr.Left, expr.Right = left[0], right[0]
+			return []ast.Value{&expr}
+		}
+
+		rv := append(left, &ast.Raw{Value: v.Operator})
+		return append(rv, right...)
+
+	case *ast.MathParenthesizedExpression:
+		inner := t.transformMathOperand(v.Value)
+		if len(inner) == 1 {
+			expr := *v
+			expr.Value = inner[0]
+			return []ast.Value{&expr}
+		}
+
+		rv := append([]ast.Value{&ast.Raw{Value: "("}}, inner...)
+		return append(rv, &ast.Raw{Value: ")"})
+
+	default:
+		return t.transformValues([]ast.Value{value})
+	}
+}
+
 func (t *transformer) doMath(left, right, op string) (float64, error) {
 	leftValue, err := strconv.ParseFloat(left, 10)
 	if err != nil {
@@ -553,100 +741,128 @@ func (t *transformer) doMath(left, right, op string) (float64, error) {
 	if err != nil {
 		return 0, fmt.Errorf("could not parse dimension value: %s", right)
 	}
+
+	var newValue float64
 	switch op {
 	case "+":
-		return leftValue + rightValue, nil
+		newValue = leftValue + rightValue
 	case "-":
-		return leftValue - rightValue, nil
+		newValue = leftValue - rightValue
 	case "*":
-		return leftValue * rightValue, nil
+		newValue = leftValue * rightValue
 	case "/":
 		if rightValue == 0 {
 			return 0, fmt.Errorf("cannot divide by zero")
 		}
-		return leftValue / rightValue, nil
+		newValue = leftValue / rightValue
 	default:
 		return 0, fmt.Errorf("unknown op: %s", op)
 	}
+
+	if math.IsInf(newValue, 0) || math.IsNaN(newValue) {
+		return 0, fmt.Errorf("result of %s is out of range", op)
+	}
+	return newValue, nil
 }
 
-// evaluateMathExpression attempts to add l + r. If sub is true, subtraction will be applied
-// instead. For sum to succeed, both l and r must be of the same type.
-// See notes from https://www.w3.org/TR/css-values-3/#calc-type-checking.
-func (t *transformer) evaluateMathExpression(l, r ast.Value, op string) ast.Value {
-	if expr, ok := l.(*ast.MathExpression); ok {
-		if evaluated := t.evaluateMathExpression(expr.Left, expr.Right, expr.Operator); evaluated != nil {
-			l = evaluated
+// isNumber returns whether or not the value is a number as opposed to a dimension or percentage. If that
+// cannot be known, e.g. because the value is a function, ok is false.
+func isNumber(v ast.Value) (number, ok bool) {
+	switch value := v.(type) {
+	case *ast.Dimension:
+		return value.Unit == "", true
+
+	case *ast.MathParenthesizedExpression:
+		return isNumber(value.Value)
+
+	case *ast.MathExpression:
+		left, leftOk := isNumber(value.Left)
+		right, rightOk := isNumber(value.Right)
+		switch value.Operator {
+		case "*":
+			if leftOk && !left || rightOk && !right {
+				return false, true
+			}
+			return true, leftOk && rightOk
+		case "/":
+			return left, leftOk
+		default:
+			if leftOk {
+				return left, true
+			}
+			return right, rightOk
 		}
+
+	default:
+		return false, false
 	}
+}
 
-	if expr, ok := r.(*ast.MathExpression); ok {
-		if evaluated := t.evaluateMathExpression(expr.Left, expr.Right, expr.Operator); evaluated != nil {
-			r = evaluated
+// evaluateOperand evaluates the value as far as possible.
+func (t *transformer) evaluateOperand(v ast.Value) ast.Value {
+	switch value := v.(type) {
+	case *ast.MathParenthesizedExpression:
+		return t.evaluateOperand(value.Value)
+
+	case *ast.MathExpression:
+		if evaluated := t.evaluateMathExpression(value); evaluated != nil {
+			return evaluated
 		}
 	}
+	return v
+}
+
+// evaluateMathExpression attempts to evaluate the expression. It returns nil if it cannot be reduced
+// to a single value. For sum to succeed, both operands must be of the same type.
+// See notes from https://www.w3.org/TR/css-values-3/#calc-type-checking.
+func (t *transformer) evaluateMathExpression(expr *ast.MathExpression) ast.Value {
+	l, r, op := t.evaluateOperand(expr.Left), t.evaluateOperand(expr.Right), expr.Operator
+	leftNumber, leftOk := isNumber(l)
+	rightNumber, rightOk := isNumber(r)
 
 	switch op {
 	case "+", "-":
-		switch left := l.(type) {
-		case *ast.Dimension:
-			right, ok := r.(*ast.Dimension)
-			if !ok {
-				return nil
-			}
-
-			if left.Unit != right.Unit {
-				if left.Unit == "" && right.Unit != "" {
-					// Invalid, because we cannot mix number types and lengths, e.g. (2 + 5rem).
-					t.addError(left, "cannot add number type and %s type together", right.Unit)
-				}
-
-				if left.Unit != "" && right.Unit == "" {
-					// Invalid, because we cannot mix number types and lengths, e.g. (5rem + 2).
-					t.addError(left, "cannot add number type and %s type together", left.Unit)
-				}
-
-				// Valid css, but we cannot reduce (e.g. 2px + 3rem).
-				return nil
-			}
+		if leftOk && rightOk && leftNumber != rightNumber {
+			// Invalid, because we cannot mix number types and lengths, e.g. (2 + 5rem).
+			t.addError(expr, "cannot add number type and other type together")
+			return nil
+		}
 
-			newValue, err := t.doMath(left.Value, right.Value, op)
-			if err != nil {
-				t.addError(l, err.Error())
-				return nil
-			}
+		left, leftIsDimension := l.(*ast.Dimension)
+		right, rightIsDimension := r.(*ast.Dimension)
+		if !leftIsDimension || !rightIsDimension {
+			return nil
+		}
 
-			return &ast.Dimension{
-				Value: strconv.FormatFloat(newValue, 'f', -1, 64),
-				Unit:  left.Unit,
-			}
+		if left.Unit != right.Unit {
+			// Valid css, but we cannot reduce (e.g. 2px + 3rem).
+			return nil
+		}
 
-		// case *ast.MathExpression:
-		// if left.op is not + or -, return nil
+		newValue, err := t.doMath(left.Value, right.Value, op)
+		if err != nil {
+			t.addError(expr, "%s", err.Error())
+			return nil
+		}
 
-		// We know left.Right is an ast.Dimension because of the structure of the parse tree
-		// We know Right is an ast.Dimension
-		// If left.Right.Unit != right.Unit and left.Left.Unit != right.Unit, return nil
-		// left.Right.Unit case: doMath on left.Right.Value and right.Value and return left with Right = [the result of doMath]
-		// left.Left.Unit case: doMath on left.Left.Value and right.Value and return left with Left = [the result of doMath]
+		return &ast.Dimension{
+			Span:  expr.Span,
+			Value: strconv.FormatFloat(newValue, 'f', -1, 64),
+			Unit:  left.Unit,
+		}
 
-		default:
-			t.addError(l, "cannot perform %s on this type", op)
+	case "*":
+		if leftOk && rightOk && !leftNumber && !rightNumber {
+			t.addError(expr, "one side of multiplication must be a number (non-percentage/dimension)")
 			return nil
 		}
 
-	case "*":
 		leftAsDimension, leftIsDimension := l.(*ast.Dimension)
 		rightAsDimension, rightIsDimension := r.(*ast.Dimension)
 		if !leftIsDimension || !rightIsDimension {
 			return nil
 		}
 
-		if leftAsDimension.Unit != "" && rightAsDimension.Unit != "" {
-			t.addError(l, "one side of multiplication must be a number (non-percentage/dimension)")
-			return nil
-		}
-
 		maybeWithUnit, number := leftAsDimension, rightAsDimension
 		if leftAsDimension.Unit == "" {
 			maybeWithUnit, number = rightAsDimension, leftAsDimension
@@ -656,44 +872,51 @@ func (t *transformer) evaluateMathExpression(l, r ast.Value, op string) ast.Valu
 
 		newValue, err := t.doMath(maybeWithUnit.Value, number.Value, op)
 		if err != nil {
-			t.addError(l, err.Error())
+			t.addError(expr, "%s", err.Error())
 			return nil
 		}
 
 		return &ast.Dimension{
+			Span:  expr.Span,
 			Value: strconv.FormatFloat(newValue, 'f', -1, 64),
 			Unit:  maybeWithUnit.Unit,
 		}
 
 	case "/":
-		rightAsDimension, rightIsDimension := r.(*ast.Dimension)
-		if !rightIsDimension || rightAsDimension.Unit != "" {
-			t.addError(l, "right side of division must be a number (non-percentage/dimension)")
+		if rightOk && !rightNumber {
+			t.addError(expr, "right side of division must be a number (non-percentage/dimension)")
 			return nil
 		}
 
-		switch left := l.(type) {
-		case *ast.Dimension:
-			newValue, err := t.doMath(left.Value, rightAsDimension.Value, op)
-			if err != nil {
-				t.addError(l, err.Error())
-				return nil
-			}
+		left, leftIsDimension := l.(*ast.Dimension)
+		rightAsDimension, rightIsDimension := r.(*ast.Dimension)
+		if !rightIsDimension {
+			return nil
+		}
 
-			return &ast.Dimension{
-				Value: strconv.FormatFloat(newValue, 'f', -1, 64),
-				Unit:  left.Unit,
-			}
+		if divisor, err := strconv.ParseFloat(rightAsDimension.Value, 10); err == nil && divisor == 0 {
+			t.addError(expr, "cannot divide by zero")
+			return nil
+		}
 
-			// case *ast.MathExpression
+		if !leftIsDimension {
+			return nil
+		}
 
-		default:
-			t.addError(l, "cannot perform %s on this type", op)
+		newValue, err := t.doMath(left.Value, rightAsDimension.Value, op)
+		if err != nil {
+			t.addError(expr, "%s", err.Error())
 			return nil
 		}
 
+		return &ast.Dimension{
+			Span:  expr.Span,
+			Value: strconv.FormatFloat(newValue, 'f', -1, 64),
+			Unit:  left.Unit,
+		}
+
 	default:
-		t.addError(l, "unknown op: %s", op)
+		t.addError(expr, "unknown op: %s", op)
 		return nil
 	}
 }
-- 
2.43.0


From 1bd28804441d157eed740acb4e459f2b5d330319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:29 +0000
Subject: [PATCH 28/34] fix: do not warn about calc() with substituted values

---
 internal/transformer/transformer.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index cc65cd9..6dae039 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -584,6 +584,7 @@ func (t *transformer) transformValues(values []ast.Value) []ast.Value {
 		switch v := value.(type) {
 		case *ast.Function:
 			newValues := []ast.Value{v}
+			argumentCount := len(v.Arguments)
 			func() {
 				if !strings.EqualFold(v.Name, "var") || t.variables == nil {
 					fn := *v
@@ -645,11 +646,16 @@ func (t *transformer) transformValues(values []ast.Value) []ast.Value {
 					return
 				}
 
-				if len(v.Arguments) != 1 {
+				if argumentCount != 1 {
 					t.addWarn(v, "expected single argument for calc()")
 					return
 				}
 
+				if len(v.Arguments) != 1 {
+					// A substituted value has several parts.
+					return
+				}
+
 				arg, ok := v.Arguments[0].(*ast.MathExpression)
 				if !ok {
 					return
-- 
2.43.0


From ca2443819413187aeb9390a1596c767f9e953d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:32 +0000
Subject: [PATCH 29/34] fix: load every file once and synchronise compilation
 state

---
 api.go | 249 +++++++++++++++++++++++++++++----------------------------
 1 file changed, 125 insertions(+), 124 deletions(-)

diff --git a/api.go b/api.go
index f559852..77b8e86 100644
--- a/api.go
+++ b/api.go
@@ -35,14 +35,11 @@ type Options struct {
 
 func newCompilation(opts Options) *compilation {
 	c := &compilation{
-		sources:        make(map[string]int),
-		sourcesByIndex: make(map[int]*sources.Source),
-		outputsByIndex: make(map[int]struct{}),
-		astsByIndex:    make(map[int]*ast.Stylesheet),
-		result:         newResult(),
-		reporter:       logging.DefaultReporter,
-		transforms:     opts.Transforms,
-		resolver:       &resolver.NodeResolver{},
+		filesByPath: make(map[string]*file),
+		result:      newResult(),
+		reporter:    logging.DefaultReporter,
+		transforms:  opts.Transforms,
+		resolver:    &resolver.NodeResolver{},
 	}
 
 	if opts.Reporter != nil {
@@ -60,19 +57,14 @@ type compilation struct {
 	// mu synchronizes other globals like the error reporter.
 	mu sync.Mutex
 
-	// sourcesMu synchronizes assignment for new source indices.
-	sourcesMu sync.RWMutex
-	sources   map[string]int
-	nextIndex int
+	// filesMu synchronizes the set of files.
+	filesMu sync.Mutex
 
-	sourcesByIndexMu sync.RWMutex
-	sourcesByIndex   map[int]*sources.Source
+	// filesByPath is the set of files by their absolute path.
+	filesByPath map[string]*file
 
-	astsByIndexMu sync.RWMutex
-	astsByIndex   map[int]*ast.Stylesheet
-
-	// outputsByIndex is the set of sources to write outputs for.
-	outputsByIndex map[int]struct{}
+	// wg is the group of files that are being loaded.
+	wg errgroup.Group
 
 	result *Result
 
@@ -83,42 +75,20 @@ type compilation struct {
 	resolver Resolver
 }
 
-// addSource will read in a path and assign it a source index. If
-// it's already been loaded, the cached source is returned.
-func (c *compilation) addSource(path string) (int, error) {
-	abs, err := filepath.Abs(path)
-	if err != nil {
-		return 0, oops.Wrapf(err, "failed to make path absolute: %s", path)
-	}
+// file is a file that was seen in the compilation. It is only modified by the goroutine
+// that loads it, except for hasOutput, which is synchronized by filesMu.
+type file struct {
+	path string
 
-	c.sourcesMu.RLock()
-	if _, ok := c.sources[abs]; ok {
-		defer c.sourcesMu.RUnlock()
-		return c.sources[abs], nil
-	}
-	c.sourcesMu.RUnlock()
+	// hasOutput is whether or not to write an output for the file.
+	hasOutput bool
 
-	in, err := ioutil.ReadFile(abs)
-	if err != nil {
-		return 0, oops.Wrapf(err, "failed to read file: %s", path)
-	}
+	// source and ss are nil if there was a problem reading or parsing the file.
+	source *sources.Source
+	ss     *ast.Stylesheet
 
-	source := &sources.Source{
-		Content: string(in),
-		Path:    abs,
-	}
-
-	c.sourcesMu.Lock()
-	i := c.nextIndex
-	c.sources[abs] = i
-	c.sourcesMu.Unlock()
-
-	c.sourcesByIndexMu.Lock()
-	c.sourcesByIndex[i] = source
-	c.sourcesByIndexMu.Unlock()
-
-	c.nextIndex++
-	return i, nil
+	// imports is the set of files that were imported by the at rules in the file.
+	imports map[*ast.AtRule]*file
 }
 
 func newResult() *Result {
@@ -139,114 +109,145 @@ func (c *compilation) addError(err error) {
 	c.reporter.AddError(err)
 }
 
-// parseFile assigns the file a source index and parses the source. It also
-// looks at imported files and adds them to the compilation. hasOutput should
-// be called if the file should be included in compilation output.
-//
-// parseFile also runs the last transformation pass on the output. Note that we
-// don't make this function print the output as well so that we can make the current
-// file available to any callers as a dependency.
-func (c *compilation) parseFile(file string, hasOutput bool) *ast.Stylesheet {
-	// Assign the file a source index.
-	idx, err := c.addSource(file)
+// synchronizedReporter passes errors on to the compilation's reporter one by one.
+type synchronizedReporter struct {
+	*compilation
+}
+
+// AddError implements Reporter.
+func (r synchronizedReporter) AddError(err error) {
+	r.addError(err)
+}
+
+// addFile adds the path to the compilation. If it is new, it will be loaded. It does not
+// wait for the file to be loaded.
+func (c *compilation) addFile(path string, hasOutput bool) *file {
+	abs, err := filepath.Abs(path)
 	if err != nil {
-		c.addError(err)
+		c.addError(oops.Wrapf(err, "failed to make path absolute: %s", path))
 		return nil
 	}
 
+	c.filesMu.Lock()
+	defer c.filesMu.Unlock()
+
+	f, ok := c.filesByPath[abs]
+	if !ok {
+		f = &file{path: abs, imports: make(map[*ast.AtRule]*file)}
+		c.filesByPath[abs] = f
+		c.wg.Go(func() error {
+			c.loadFile(f)
+			return nil
+		})
+	}
+
 	if hasOutput {
-		c.outputsByIndex[idx] = struct{}{}
+		f.hasOutput = true
+	}
+
+	return f
+}
+
+// loadFile reads and parses the file. It also looks at imported files and adds them
+// to the compilation.
+func (c *compilation) loadFile(f *file) {
+	in, err := ioutil.ReadFile(f.path)
+	if err != nil {
+		c.addError(oops.Wrapf(err, "failed to read file: %s", f.path))
+		return
 	}
 
-	c.astsByIndexMu.RLock()
-	if ss, ok := c.astsByIndex[idx]; ok {
-		c.astsByIndexMu.RUnlock()
-		return ss
+	source := &sources.Source{
+		Content: string(in),
+		Path:    f.path,
 	}
-	c.astsByIndexMu.RUnlock()
 
-	c.sourcesByIndexMu.RLock()
-	source := c.sourcesByIndex[idx]
-	c.sourcesByIndexMu.RUnlock()
 	ss, err := parser.Parse(source)
 	if err != nil {
 		c.addError(err)
-		return nil
+		return
 	}
 
-	// Immediately look at the imports from the file and feed those dependencies
-	// into parseFile as well. If we're set to inline imports, then we'll use
-	// collect those dependency ASTs to let the transformer replace them.
-	var mu sync.Mutex
-	replacements := make(map[*ast.AtRule]*ast.Stylesheet)
-	var wg errgroup.Group
 	for _, imp := range ss.Imports {
-		wg.Go(func() error {
-			rel, err := c.resolver.Resolve(imp.Value, filepath.Dir(source.Path))
-			if err != nil {
-				c.addError(err)
-				return nil
-			}
-
-			// If import follow is on, then every referenced file makes it to the output.
-			imported := c.parseFile(rel, c.transforms.ImportRules == transforms.ImportRulesFollow)
-
-			mu.Lock()
-			defer mu.Unlock()
-			if imported != nil {
-				replacements[imp.AtRule] = imported
-			}
-			return nil
-		})
+		rel, err := c.resolver.Resolve(imp.Value, filepath.Dir(source.Path))
+		if err != nil {
+			c.addError(err)
+			continue
+		}
+
+		// If import follow is on, then every referenced file makes it to the output.
+		if imported := c.addFile(rel, c.transforms.ImportRules == transforms.ImportRulesFollow); imported != nil {
+			f.imports[imp.AtRule] = imported
+		}
 	}
-	wg.Wait()
 
+	f.source, f.ss = source, ss
+}
+
+// transformFile runs the transforms on the file. All files must have been loaded.
+func (c *compilation) transformFile(f *file) *ast.Stylesheet {
 	opts := transformer.Options{
 		Options:        c.transforms,
-		OriginalSource: source,
-		Reporter:       c.reporter,
+		OriginalSource: f.source,
+		Reporter:       synchronizedReporter{c},
 	}
 
 	if c.transforms.ImportRules == transforms.ImportRulesInline {
-		opts.ImportReplacements = replacements
+		// The imported files can have imports themselves.
+		opts.ImportReplacements = make(map[*ast.AtRule]*ast.Stylesheet)
+		opts.ImportSources = make(map[*ast.Stylesheet]*sources.Source)
+		addReplacements(f, &opts)
+	}
+
+	return transformer.Transform(f.ss, opts)
+}
+
+// addReplacements adds all the files that f imports to the import replacements.
+func addReplacements(f *file, opts *transformer.Options) {
+	if _, ok := opts.ImportSources[f.ss]; ok {
+		return
 	}
 
-	ss = transformer.Transform(ss, opts)
-	c.astsByIndexMu.Lock()
-	c.astsByIndex[idx] = ss
-	c.astsByIndexMu.Unlock()
-	return ss
+	opts.ImportSources[f.ss] = f.source
+	for rule, imported := range f.imports {
+		if imported.ss != nil {
+			opts.ImportReplacements[rule] = imported.ss
+			addReplacements(imported, opts)
+		}
+	}
 }
 
 // Compile runs a compilation with the specified Options.
 func Compile(opts Options) *Result {
 	c := newCompilation(opts)
 
-	var wg errgroup.Group
-
 	for _, e := range opts.Entry {
-		wg.Go(func() error {
-			c.parseFile(e, true)
-			return nil
-		})
+		c.addFile(e, true)
 	}
-	wg.Wait()
+	c.wg.Wait()
+
+	var wg errgroup.Group
+	for _, loaded := range c.filesByPath {
+		f := loaded
+		if f.ss == nil {
+			// Skip attempting to print if there was a problem reading/parsing this file
+			// in the first place.
+			continue
+		}
+
+		if !f.hasOutput && c.transforms.ImportRules == transforms.ImportRulesInline {
+			// Inlined files are transformed along with the files that import them.
+			continue
+		}
 
-	wg = errgroup.Group{}
-	for i := range c.outputsByIndex {
-		idx := i
 		wg.Go(func() error {
-			// XXX: this is the wrong file name
-			source := c.sourcesByIndex[idx]
-			ast := c.astsByIndex[idx]
-			if source == nil || ast == nil {
-				// Skip attempting to print if there was a problem reading/parsing this file
-				// in the first place.
+			ss := c.transformFile(f)
+			if !f.hasOutput {
 				return nil
 			}
 
-			out, err := printer.Print(ast, printer.Options{
-				OriginalSource: source,
+			out, err := printer.Print(ss, printer.Options{
+				OriginalSource: f.source,
 			})
 			if err != nil {
 				c.addError(err)
@@ -255,7 +256,7 @@ func Compile(opts Options) *Result {
 
 			c.result.mu.Lock()
 			defer c.result.mu.Unlock()
-			c.result.Files[source.Path] = out
+			c.result.Files[f.path] = out
 			return nil
 		})
 	}
-- 
2.43.0


From a8c4e063b7f6c48e892874df8b6dcb6285257aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:48 +0000
Subject: [PATCH 30/34] fix: resolve up to the root, from relative directories
 and files before directories

---
 resolver/node_resolver.go | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/resolver/node_resolver.go b/resolver/node_resolver.go
index 2c491a7..8eb4a5c 100644
--- a/resolver/node_resolver.go
+++ b/resolver/node_resolver.go
@@ -88,6 +88,11 @@ func (r *NodeResolver) resolve(absPath string) (string, error) {
 		return absPath, nil
 	}
 
+	// A file with the extension comes before the directory of the same name.
+	if info, err := os.Stat(absPath + ".css"); err == nil && !info.IsDir() {
+		return absPath + ".css", nil
+	}
+
 	// Otherwise, try to resolve as a directory.
 	path, err := r.resolveAsDir(absPath)
 	if err == nil {
@@ -105,7 +110,7 @@ func (r *NodeResolver) resolveAsDir(path string) (string, error) {
 		// If there is no package.json, then try resolving an index.css file.
 		indexPath := filepath.Join(path, "index.css")
 		if info, err := os.Stat(indexPath); err != nil || info.IsDir() {
-			if os.IsNotExist(err) {
+			if err == nil || os.IsNotExist(err) {
 				return "", oops.Wrapf(ErrNotFound, "could not resolve as directory: %s", path)
 			}
 			return "", oops.Wrapf(err, "failure during resolution")
@@ -126,7 +131,7 @@ func (r *NodeResolver) resolveAsDir(path string) (string, error) {
 
 	stylePath := filepath.Join(path, pkgContent.Style)
 	if info, err := os.Stat(stylePath); err != nil || info.IsDir() {
-		if os.IsNotExist(err) {
+		if err == nil || os.IsNotExist(err) {
 			return "", oops.Wrapf(ErrNotFound, "package.json has style attribute, but it cannot be resolved: %s (to %s)", pkgContent.Style, stylePath)
 		}
 		return "", oops.Wrapf(err, "failure during resolution")
@@ -137,15 +142,23 @@ func (r *NodeResolver) resolveAsDir(path string) (string, error) {
 
 // resolveAsNodeModule walks directories from fromDir to find node_modules paths.
 func (r *NodeResolver) resolveFromNodeModules(module, fromDir string) (string, error) {
-	currentDir := fromDir
-	for currentDir != "/" {
+	currentDir, err := filepath.Abs(fromDir)
+	if err != nil {
+		return "", oops.Wrapf(err, "failed to make path absolute: %s", fromDir)
+	}
+
+	for {
 		modulePkgPath := filepath.Join(currentDir, "node_modules", module)
 
 		if res, err := r.resolve(modulePkgPath); err == nil {
 			return res, nil
 		}
 
-		currentDir = filepath.Dir(currentDir)
+		parent := filepath.Dir(currentDir)
+		if parent == currentDir {
+			break
+		}
+		currentDir = parent
 	}
 
 	return "", oops.Wrapf(ErrNotFound, "could not find absolute path in node_modules")
-- 
2.43.0


From 65fc7e29ec978a477e7977f4acf34f3aec6c29ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:54 +0000
Subject: [PATCH 31/34] fix: report errors to esbuild once, at their location
 and warnings as warnings

---
 esbuildplugin/plugin.go     | 65 ++++++++++++++++++++++++-------------
 internal/logging/logging.go |  5 +++
 2 files changed, 48 insertions(+), 22 deletions(-)

diff --git a/esbuildplugin/plugin.go b/esbuildplugin/plugin.go
index 36d62ee..5a5d6cb 100644
--- a/esbuildplugin/plugin.go
+++ b/esbuildplugin/plugin.go
@@ -2,6 +2,7 @@ package esbuildplugin
 
 import (
 	"context"
+	"errors"
 	"runtime/pprof"
 
 	"github.com/evanw/esbuild/pkg/api"
@@ -22,33 +23,53 @@ type locationError interface {
 	Location() (*sources.Source, ast.Span)
 }
 
-func (r *csscReporter) toEsbuild() []api.Message {
-	var errs []api.Message
+// warningError is an error that does not need to fail the build.
+type warningError interface {
+	Warning() bool
+}
+
+// toEsbuild returns the errors and warnings that were reported.
+func (r *csscReporter) toEsbuild() (errs, warnings []api.Message) {
 	for _, err := range *r {
+		message := api.Message{
+			Text: err.Error(),
+		}
 
-		if lErr, ok := err.(locationError); ok {
+		var lErr locationError
+		if errors.As(err, &lErr) {
 			source, span := lErr.Location()
-			_, colNumber := source.LineAndCol(span)
+			lineNumber, colNumber := source.LineAndCol(span)
 			lineSpan := source.FullLine(span)
 
-			errs = append(errs, api.Message{
-				Text: err.Error(),
-				Location: &api.Location{
-					File:     source.Path,
-					Column:   int(colNumber),
-					Line:     lineSpan.Start,
-					Length:   lineSpan.End - lineSpan.Start,
-					LineText: source.Content[lineSpan.Start:lineSpan.End],
-				},
-			})
+			// The span can go on after the line that it starts on.
+			end := span.End
+			if end > lineSpan.End {
+				end = lineSpan.End
+			}
+			length := end - span.Start
+			if length < 0 {
+				length = 0
+			}
+
+			message.Location = &api.Location{
+				File:     source.Path,
+				Column:   int(colNumber) - 1, // esbuild columns start at 0.
+				Line:     int(lineNumber),
+				Length:   length,
+				LineText: source.Content[lineSpan.Start:lineSpan.End],
+			}
 		}
 
-		errs = append(errs, api.Message{
-			Text: err.Error(),
-		})
+		var wErr warningError
+		if errors.As(err, &wErr) && wErr.Warning() {
+			warnings = append(warnings, message)
+			continue
+		}
+
+		errs = append(errs, message)
 	}
 
-	return errs
+	return errs, warnings
 }
 
 // Option is an optional argument to the plugin.
@@ -80,10 +101,10 @@ func Plugin(opts ...Option) api.Plugin {
 				func(args api.OnLoadArgs) (res api.OnLoadResult, err error) {
 					res.Loader = api.LoaderCSS
 
-					var errors csscReporter
+					var reported csscReporter
 					options := cssc.Options{
 						Entry:    []string{args.Path},
-						Reporter: &errors,
+						Reporter: &reported,
 					}
 					for _, opt := range opts {
 						options = opt(options)
@@ -92,8 +113,8 @@ func Plugin(opts ...Option) api.Plugin {
 					pprof.SetGoroutineLabels(pprof.WithLabels(context.TODO(), pprof.Labels("cssc-path", args.Path)))
 					result := cssc.Compile(options)
 
-					if len(errors) > 0 {
-						res.Errors = errors.toEsbuild()
+					res.Errors, res.Warnings = reported.toEsbuild()
+					if len(res.Errors) > 0 {
 						return
 					}
 
diff --git a/internal/logging/logging.go b/internal/logging/logging.go
index 11a2bb5..9901ec6 100644
--- a/internal/logging/logging.go
+++ b/internal/logging/logging.go
@@ -76,6 +76,11 @@ func (l *locationError) Location() (source *sources.Source, span ast.Span) {
 	return l.Source, l.Span
 }
 
+// Warning is whether or not the error is only a warning.
+func (l *locationError) Warning() bool {
+	return l.warning
+}
+
 // AnnotateSourceSpan annotates a span from a single line in the source code.
 // The output looks like:
 //   (contents) or (other thing)
-- 
2.43.0


From d84dfcc2633e6ab1acc1318f9cfc84516579c4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:26 +0000
Subject: [PATCH 32/34] fix: keep hexadecimal escapes apart from the separator
 that follows

---
 internal/printer/printer.go | 41 ++++++++++++++++++++++++++++++-------
 1 file changed, 34 insertions(+), 7 deletions(-)

diff --git a/internal/printer/printer.go b/internal/printer/printer.go
index f977c61..445145f 100644
--- a/internal/printer/printer.go
+++ b/internal/printer/printer.go
@@ -148,6 +148,33 @@ func utf16Length(text string) int32 {
 	return length
 }
 
+// printSpace separates what was printed from what comes next. White space that directly
+// follows an escape like \b4 is part of the escape, so it needs another one.
+func (p *printer) printSpace() {
+	if endsWithHexEscape(p.s.String()) {
+		p.s.WriteRune(' ')
+	}
+	p.s.WriteRune(' ')
+}
+
+// endsWithHexEscape returns whether or not the text ends with a hexadecimal escape
+// that is not yet terminated by white space.
+func endsWithHexEscape(text string) bool {
+	start := len(text)
+	for start > 0 && isHexDigit(text[start-1]) {
+		start--
+	}
+	backslashes := 0
+	for backslashes < start && text[start-backslashes-1] == '\\' {
+		backslashes++
+	}
+	return start < len(text) && backslashes%2 == 1
+}
+
+func isHexDigit(ch byte) bool {
+	return ch >= '0' && ch <= '9' || ch >= 'a' && ch <= 'f' || ch >= 'A' && ch <= 'F'
+}
+
 // printValues prints a list of values.
 func (p *printer) printValues(values []ast.Value) {
 	for i, val := range values {
@@ -158,7 +185,7 @@ func (p *printer) printValues(values []ast.Value) {
 		if i+1 < len(values) {
 			if _, nextIsComma := values[i+1].(*ast.Comma); !nextIsComma {
 				if _, isComma := val.(*ast.Comma); !isComma {
-					p.s.WriteRune(' ')
+					p.printSpace()
 				}
 			}
 		}
@@ -192,12 +219,12 @@ func (p *printer) print(in ast.Node) {
 		p.s.WriteRune('@')
 		p.s.WriteString(node.Name)
 		if len(node.Preludes) > 0 {
-			p.s.WriteRune(' ')
+			p.printSpace()
 			for i, prelude := range node.Preludes {
 				p.print(prelude)
 
 				if i+1 < len(node.Preludes) {
-					p.s.WriteRune(' ')
+					p.printSpace()
 				}
 			}
 		}
@@ -291,7 +318,7 @@ func (p *printer) print(in ast.Node) {
 			p.print(val)
 
 			if i+1 < len(node.Values) {
-				p.s.WriteRune(' ')
+				p.printSpace()
 			}
 		}
 		p.s.WriteRune(']')
@@ -307,7 +334,7 @@ func (p *printer) print(in ast.Node) {
 		p.print(node.Right)
 
 	case *ast.Whitespace:
-		p.s.WriteRune(' ')
+		p.printSpace()
 
 	case *ast.Selector:
 		for i, part := range node.Parts {
@@ -326,7 +353,7 @@ func (p *printer) print(in ast.Node) {
 			p.s.WriteRune('=')
 			p.print(node.Value)
 			if node.Modifier != "" {
-				p.s.WriteRune(' ')
+				p.printSpace()
 				p.s.WriteString(node.Modifier)
 			}
 		}
@@ -402,7 +429,7 @@ func (p *printer) print(in ast.Node) {
 			p.print(part)
 
 			if i+1 < len(node.Parts) {
-				p.s.WriteRune(' ')
+				p.printSpace()
 			}
 		}
 
-- 
2.43.0


From f59be6a42a8ac828686bf0250402d98d55b35904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:45 +0000
Subject: [PATCH 33/34] fix: accept n-1 and -n-1 and print empty declarations
 as nothing

---
 internal/parser/selectors.go | 38 +++++++++++++++++++++++-------------
 internal/printer/printer.go  | 12 +++++++++---
 2 files changed, 33 insertions(+), 17 deletions(-)

diff --git a/internal/parser/selectors.go b/internal/parser/selectors.go
index 45e92ac..92ebd36 100644
--- a/internal/parser/selectors.go
+++ b/internal/parser/selectors.go
@@ -136,7 +136,7 @@ func (p *parser) parseSelector() *ast.Selector {
 					case lexer.Number, lexer.Dimension:
 						pc.Arguments = p.parseANPlusB()
 					case lexer.Ident:
-						if p.lexer.CurrentString == "n" || p.lexer.CurrentString == "-n" {
+						if isANPlusBIdent(p.lexer.CurrentString) {
 							pc.Arguments = p.parseANPlusB()
 							break
 						}
@@ -272,6 +272,12 @@ func (p *parser) parseAttributeSelector() *ast.AttributeSelector {
 	return attr
 }
 
+// isANPlusBIdent returns whether or not the identifier starts An+B without a number, e.g. n or -n-1.
+func isANPlusBIdent(name string) bool {
+	name = strings.TrimPrefix(name, "-")
+	return name == "n" || strings.HasPrefix(name, "n-")
+}
+
 func (p *parser) parseANPlusB() *ast.ANPlusB {
 	prev := p.lexer.RetainWhitespace
 	p.lexer.RetainWhitespace = false
@@ -282,6 +288,8 @@ func (p *parser) parseANPlusB() *ast.ANPlusB {
 	v := &ast.ANPlusB{Span: p.lexer.TokenSpan()}
 	v.End = p.lexer.TokenEnd()
 
+	// offset is the part that directly follows the n, e.g. -1 in 2n-1.
+	var offset string
 	switch {
 	case p.lexer.Current == lexer.Number:
 		v.A = "0"
@@ -293,26 +301,28 @@ func (p *parser) parseANPlusB() *ast.ANPlusB {
 		if !isInteger(v.A) {
 			p.lexer.Errorf("expected integer as part of An+B")
 		}
+		offset = p.lexer.CurrentString[1:]
 
-		// The unit can already include the offset, e.g. 2n-1.
-		if offset := p.lexer.CurrentString[1:]; len(offset) > 0 {
-			v.Operator = offset[:1]
-			v.B = offset[1:]
-			if v.Operator != "-" || !isDigits(v.B) {
-				p.lexer.Errorf("expected +/- and an integer as part of An+B")
-			}
-			p.lexer.Next()
-			return v
-		}
-
-	case p.lexer.Current == lexer.Ident && p.lexer.CurrentString == "n":
+	case p.lexer.Current == lexer.Ident && strings.HasPrefix(p.lexer.CurrentString, "n"):
+		offset = p.lexer.CurrentString[1:]
 
-	case p.lexer.Current == lexer.Ident && p.lexer.CurrentString == "-n":
+	case p.lexer.Current == lexer.Ident && strings.HasPrefix(p.lexer.CurrentString, "-n"):
 		v.A = "-1"
+		offset = p.lexer.CurrentString[2:]
 
 	default:
 		p.lexer.Errorf("expected An+B")
 	}
+
+	if len(offset) > 0 {
+		v.Operator = offset[:1]
+		v.B = offset[1:]
+		if v.Operator != "-" || !isDigits(v.B) {
+			p.lexer.Errorf("expected +/- and an integer as part of An+B")
+		}
+		p.lexer.Next()
+		return v
+	}
 	p.lexer.Next()
 
 	// If there was no whitespace, e.g. n+3, then the lexer will have given
diff --git a/internal/printer/printer.go b/internal/printer/printer.go
index 445145f..562ccd0 100644
--- a/internal/printer/printer.go
+++ b/internal/printer/printer.go
@@ -269,12 +269,18 @@ func (p *printer) print(in ast.Node) {
 		}
 
 	case *ast.DeclarationBlock:
-		for i, d := range node.Declarations {
-			p.print(d)
+		first := true
+		for _, d := range node.Declarations {
+			// An empty declaration has nothing to separate.
+			if raw, ok := d.(*ast.Raw); ok && raw.Value == "" {
+				continue
+			}
 
-			if i+1 < len(node.Declarations) {
+			if !first {
 				p.s.WriteRune(';')
 			}
+			first = false
+			p.print(d)
 		}
 
 	case *ast.Declaration:
-- 
2.43.0


From 7d977a2fe6088a4d5029367d79a07459f71f295f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:46 +0000
Subject: [PATCH 34/34] fix: map inlined rules to the file that they are from

---
 api.go                              | 11 +++--
 internal/printer/printer.go         | 72 +++++++++++++++++++++++------
 internal/transformer/transformer.go | 21 ++++++++-
 3 files changed, 84 insertions(+), 20 deletions(-)

diff --git a/api.go b/api.go
index 77b8e86..5c4ecf3 100644
--- a/api.go
+++ b/api.go
@@ -184,8 +184,9 @@ func (c *compilation) loadFile(f *file) {
 	f.source, f.ss = source, ss
 }
 
-// transformFile runs the transforms on the file. All files must have been loaded.
-func (c *compilation) transformFile(f *file) *ast.Stylesheet {
+// transformFile runs the transforms on the file. All files must have been loaded. It also
+// returns the sources of the nodes that are not from the file.
+func (c *compilation) transformFile(f *file) (*ast.Stylesheet, map[ast.Node]*sources.Source) {
 	opts := transformer.Options{
 		Options:        c.transforms,
 		OriginalSource: f.source,
@@ -196,10 +197,11 @@ func (c *compilation) transformFile(f *file) *ast.Stylesheet {
 		// The imported files can have imports themselves.
 		opts.ImportReplacements = make(map[*ast.AtRule]*ast.Stylesheet)
 		opts.ImportSources = make(map[*ast.Stylesheet]*sources.Source)
+		opts.NodeSources = make(map[ast.Node]*sources.Source)
 		addReplacements(f, &opts)
 	}
 
-	return transformer.Transform(f.ss, opts)
+	return transformer.Transform(f.ss, opts), opts.NodeSources
 }
 
 // addReplacements adds all the files that f imports to the import replacements.
@@ -241,13 +243,14 @@ func Compile(opts Options) *Result {
 		}
 
 		wg.Go(func() error {
-			ss := c.transformFile(f)
+			ss, nodeSources := c.transformFile(f)
 			if !f.hasOutput {
 				return nil
 			}
 
 			out, err := printer.Print(ss, printer.Options{
 				OriginalSource: f.source,
+				NodeSources:    nodeSources,
 			})
 			if err != nil {
 				c.addError(err)
diff --git a/internal/printer/printer.go b/internal/printer/printer.go
index 562ccd0..c526d75 100644
--- a/internal/printer/printer.go
+++ b/internal/printer/printer.go
@@ -18,10 +18,17 @@ type printer struct {
 	sourceMappings   strings.Builder
 	lastWritten      int
 	lastMappingState mappingState
+
+	// sources is the set of sources that mappings refer to, in order.
+	sources []*sources.Source
+
+	// source is the index of the source of the node that is printed.
+	source int32
 }
 
 type mappingState struct {
 	generatedColumn int32
+	source          int32
 	originalLine    int32
 	originalColumn  int32
 }
@@ -29,6 +36,10 @@ type mappingState struct {
 // Options is a set of options for printing.
 type Options struct {
 	OriginalSource *sources.Source
+
+	// NodeSources is the set of sources of the stylesheet's nodes that are not
+	// from OriginalSource.
+	NodeSources map[ast.Node]*sources.Source
 }
 
 // Print prints the input AST node into CSS. It should have deterministic
@@ -48,6 +59,7 @@ func Print(in ast.Node, opts Options) (output string, err error) {
 
 	p := printer{
 		options: opts,
+		sources: []*sources.Source{opts.OriginalSource},
 	}
 
 	p.print(in)
@@ -63,18 +75,20 @@ func (p *printer) printMapping() {
 
 	b := strings.Builder{}
 	b.WriteString(`{"version": 3,"file":`)
-	path, err := json.Marshal(p.options.OriginalSource.Path)
-	if err != nil {
-		panic(err)
+	writeJSON(&b, p.options.OriginalSource.Path)
+	// XXX: names.
+	b.WriteString(`,"sourceRoot":"", "sources": ["source.css"`)
+	for _, source := range p.sources[1:] {
+		b.WriteByte(',')
+		writeJSON(&b, source.Path)
 	}
-	b.Write(path)
-	// XXX: sources content and names.
-	b.WriteString(`,"sourceRoot":"", "sources": ["source.css"], "sourcesContent":[`)
-	out, err := json.Marshal(p.options.OriginalSource.Content)
-	if err != nil {
-		panic(err)
+	b.WriteString(`], "sourcesContent":[`)
+	for i, source := range p.sources {
+		if i > 0 {
+			b.WriteByte(',')
+		}
+		writeJSON(&b, source.Content)
 	}
-	b.Write(out)
 	b.WriteString(`],"names":[],"mappings":"`)
 	b.WriteString(p.sourceMappings.String())
 	b.WriteString(`"}`)
@@ -84,6 +98,33 @@ func (p *printer) printMapping() {
 	p.s.WriteString(" */\n")
 }
 
+// writeJSON writes the text as a JSON string.
+func writeJSON(b *strings.Builder, text string) {
+	out, err := json.Marshal(text)
+	if err != nil {
+		panic(err)
+	}
+	b.Write(out)
+}
+
+// setSource sets the source that the mappings of the node refer to.
+func (p *printer) setSource(node ast.Node) {
+	source, ok := p.options.NodeSources[node]
+	if !ok {
+		p.source = 0
+		return
+	}
+
+	for i, s := range p.sources {
+		if s == source {
+			p.source = int32(i)
+			return
+		}
+	}
+	p.source = int32(len(p.sources))
+	p.sources = append(p.sources, source)
+}
+
 // addMapping should be called from the printer
 // when a new symbol needs to be added to the sourcemap.
 func (p *printer) addMapping(loc ast.Span) {
@@ -94,10 +135,12 @@ func (p *printer) addMapping(loc ast.Span) {
 	newState := p.lastMappingState
 
 	// Columns in source maps count UTF-16 code units.
-	line, col := p.options.OriginalSource.LineAndCol(loc)
+	source := p.sources[p.source]
+	line, col := source.LineAndCol(loc)
 	lineStart := loc.Start - int(col-1)
+	newState.source = p.source
 	newState.originalLine = line - 1
-	newState.originalColumn = utf16Length(p.options.OriginalSource.Content[lineStart:loc.Start])
+	newState.originalColumn = utf16Length(source.Content[lineStart:loc.Start])
 
 	// Note that String() here does not reallocate the string.
 	written := p.s.String()[p.lastWritten:]
@@ -125,9 +168,7 @@ func (p *printer) addMapping(loc ast.Span) {
 	}
 
 	p.sourceMappings.Write(VLQEncode(newState.generatedColumn - p.lastMappingState.generatedColumn))
-	// XXX: figure out what to do for multiple sources.
-	p.sourceMappings.Write(VLQEncode(0))
-
+	p.sourceMappings.Write(VLQEncode(newState.source - p.lastMappingState.source))
 	p.sourceMappings.Write(VLQEncode(newState.originalLine - p.lastMappingState.originalLine))
 	p.sourceMappings.Write(VLQEncode(newState.originalColumn - p.lastMappingState.originalColumn))
 	// XXX: 5th item for "names" mapping
@@ -211,6 +252,7 @@ func (p *printer) print(in ast.Node) {
 	switch node := in.(type) {
 	case *ast.Stylesheet:
 		for _, n := range node.Nodes {
+			p.setSource(n)
 			p.print(n)
 		}
 
diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index 6dae039..29e00da 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -32,6 +32,9 @@ type Options struct {
 	// ImportSources is the set of sources that the inlined stylesheets were parsed from. It is used
 	// to report error locations in them.
 	ImportSources map[*ast.Stylesheet]*sources.Source
+
+	// NodeSources is filled in with the sources of the nodes that were inlined, if it is non-nil.
+	NodeSources map[ast.Node]*sources.Source
 }
 
 // Transform takes a pass over the input AST and runs various
@@ -219,6 +222,20 @@ func (t *transformer) withImport(node *ast.AtRule, f func(imported *ast.Styleshe
 	return true
 }
 
+// addNodeSources records that the nodes are from the current source, except for those
+// that the source imported itself.
+func (t *transformer) addNodeSources(nodes []ast.Node) {
+	if t.NodeSources == nil {
+		return
+	}
+
+	for _, node := range nodes {
+		if _, ok := t.NodeSources[node]; !ok {
+			t.NodeSources[node] = t.OriginalSource
+		}
+	}
+}
+
 // withSource calls f with the source for reporting error locations replaced.
 func (t *transformer) withSource(source *sources.Source, f func()) {
 	previous := t.OriginalSource
@@ -347,7 +364,9 @@ func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 			switch node.Name {
 			case "import":
 				replaced := t.withImport(node, func(imported *ast.Stylesheet) {
-					rv = append(rv, t.transformNodes(imported.Nodes)...)
+					nodes := t.transformNodes(imported.Nodes)
+					t.addNodeSources(nodes)
+					rv = append(rv, nodes...)
 				})
 
 				if !replaced {
-- 
2.43.0

