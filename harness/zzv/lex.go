package zzv

import (
	"github.com/stephen/cssc/internal/lexer"
	"github.com/stephen/cssc/internal/sources"
	"github.com/stephen/cssc/internal/zz"
)

func src(text string) *sources.Source {
	return &sources.Source{Path: "f.css", Content: text}
}

// lexStep runs f and reports a syntax error raised by the lexer.
func lexStep(f func()) (err error) {
	defer func() {
		if e := recover(); e != nil {
			le, ok := e.(*lexer.Error)
			if !ok {
				panic(e)
			}
			err = le
		}
	}()
	f()
	return nil
}

// Lex compares the lexer with the reference tokenizer on the template.
func Lex(arg string) {
	text := zz.Input(arg)
	lexCompare(text, false)
}

// LexWS is Lex with white space tokens kept.
func LexWS(arg string) {
	text := zz.Input(arg)
	lexCompare(text, true)
}

func lexCompare(text string, ws bool) {
	ref := refTokens(text, ws)
	var l *lexer.Lexer
	var err error
	if ws {
		// The option can only be set after the first token has been read, so
		// the text is preceded by one.
		text = ";" + text
		ref = refTokens(text, ws)
		err = lexStep(func() { l = lexer.NewLexer(src(text)) })
		if err == nil {
			l.RetainWhitespace = true
		}
	} else {
		err = lexStep(func() { l = lexer.NewLexer(src(text)) })
	}
	last := -1
	for i := 0; i < len(ref); i++ {
		r := ref[i]
		if err != nil {
			zz.Assert(r.bad, "the lexer rejects only what the specification calls an error")
			zz.Reach("rejected")
			return
		}
		if r.bad && l.Current != r.k {
			zz.Fail("the lexer accepts a malformed token as something else")
		}
		zz.Assert(l.Current == r.k, "token kind")
		sp := l.TokenSpan()
		zz.Assert(sp.Start == r.start, "token start")
		if r.k == lexer.EOF {
			zz.Reach("accepted")
			return
		}
		zz.Assert(sp.End == r.end, "token end")
		zz.Assert(sp.Start > last, "every token consumes input")
		last = sp.Start
		switch r.k {
		case lexer.Ident, lexer.FunctionStart, lexer.At, lexer.Hash, lexer.String, lexer.URL, lexer.Delim:
			zz.Assert(l.CurrentString == r.s, "token text")
		case lexer.Dimension:
			zz.Assert(l.CurrentNumeral == r.num, "number text")
			zz.Assert(l.CurrentString == r.s, "unit")
		case lexer.Number, lexer.Percentage:
			zz.Assert(l.CurrentNumeral == r.num, "number text")
		}
		if r.bad {
			return
		}
		err = lexStep(func() { l.Next() })
	}
}
