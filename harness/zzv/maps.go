package zzv

import (
	"github.com/stephen/cssc/internal/parser"
	"github.com/stephen/cssc/internal/printer"
	"github.com/stephen/cssc/internal/sources"
	"github.com/stephen/cssc/internal/zz"
)

// ruleStarts is where the rules and at-rules of text start.
func ruleStarts(text string) ([]int, bool) {
	c := &canonizer{text: text, ts: refTokens(text, true)}
	if c.ts[len(c.ts)-1].bad {
		return nil, false
	}
	c.rules(true, false)
	return c.starts, !c.bad
}

// decodeRune decodes the first code point of s.
func decodeRune(s string) (ok bool, n, units int) {
	c := s[0]
	cont := func(i int, lo, hi byte) bool { return i < len(s) && zz.Fork(s[i] >= lo && s[i] <= hi) }
	switch {
	case zz.Fork(c < 0x80):
		return true, 1, 1
	case zz.Fork(c < 0xc2 || c > 0xf4):
		return false, 1, 1
	case zz.Fork(c < 0xe0):
		if cont(1, 0x80, 0xbf) {
			return true, 2, 1
		}
	case zz.Fork(c < 0xf0):
		lo, hi := byte(0x80), byte(0xbf)
		if zz.Fork(c == 0xe0) {
			lo = 0xa0
		} else if zz.Fork(c == 0xed) {
			hi = 0x9f
		}
		if cont(1, lo, hi) && cont(2, 0x80, 0xbf) {
			return true, 3, 1
		}
	default:
		lo, hi := byte(0x80), byte(0xbf)
		if zz.Fork(c == 0xf0) {
			lo = 0x90
		} else if zz.Fork(c == 0xf4) {
			hi = 0x8f
		}
		if cont(1, lo, hi) && cont(2, 0x80, 0xbf) && cont(3, 0x80, 0xbf) {
			return true, 4, 2
		}
	}
	return false, 1, 1
}

// units is the number of UTF-16 code units of s.
func units(s string) int {
	n := 0
	for len(s) > 0 {
		_, l, u := decodeRune(s)
		n += u
		s = s[l:]
	}
	return n
}

// valid is s with invalid bytes replaced by U+FFFD.
func valid(s string) string {
	var out []byte
	for len(s) > 0 {
		ok, l, _ := decodeRune(s)
		if ok {
			out = append(out, s[:l]...)
		} else {
			out = append(out, "\ufffd"...)
		}
		s = s[l:]
	}
	return string(out)
}

// place16 is the line and column, both from 0, columns in UTF-16 code units.
func place16(text string, ls []int, o int) (int, int) {
	line, _, start, _ := place(text, ls, o)
	return line - 1, units(text[start:o])
}

func unbase64(s string) (string, bool) {
	if d, ok := zz.KnownBase64(s); ok {
		return d, true
	}
	if len(s)%4 != 0 {
		return "", false
	}
	var out []byte
	for i := 0; i < len(s); i += 4 {
		v, n := 0, 0
		for j := 0; j < 4; j++ {
			d, ok := b64digit(s[i+j])
			if !ok {
				if s[i+j] == '=' && i+4 == len(s) && j >= 2 && (j == 3 || s[i+3] == '=') {
					v <<= 6
					continue
				}
				return "", false
			}
			v = v<<6 | d
			n++
		}
		out = append(out, byte(v>>16), byte(v>>8), byte(v))
		out = out[:len(out)-(4-n)]
	}
	return string(out), true
}

// ---- JSON ----

type jparser struct {
	s   string
	i   int
	bad bool
}

type jval struct {
	k   byte // '{', '[', '"', '0'
	s   string
	obj map[string]*jval
	arr []*jval
}

func (j *jparser) ws() {
	for j.i < len(j.s) && (j.s[j.i] == ' ' || j.s[j.i] == '\n' || j.s[j.i] == '\t' || j.s[j.i] == '\r') {
		j.i++
	}
}

func (j *jparser) fail() *jval {
	j.bad = true
	return &jval{}
}

func (j *jparser) value() *jval {
	j.ws()
	if j.bad || j.i >= len(j.s) {
		return j.fail()
	}
	switch c := j.s[j.i]; c {
	case '{':
		v := &jval{k: '{', obj: map[string]*jval{}}
		j.i++
		for first := true; ; first = false {
			j.ws()
			if j.bad || j.i >= len(j.s) {
				return j.fail()
			}
			if j.s[j.i] == '}' {
				j.i++
				return v
			}
			if !first {
				if j.s[j.i] != ',' {
					return j.fail()
				}
				j.i++
				j.ws()
			}
			key := j.value()
			j.ws()
			if j.bad || key.k != '"' || j.i >= len(j.s) || j.s[j.i] != ':' {
				return j.fail()
			}
			j.i++
			if _, ok := v.obj[key.s]; ok {
				return j.fail()
			}
			v.obj[key.s] = j.value()
		}
	case '[':
		v := &jval{k: '['}
		j.i++
		for first := true; ; first = false {
			j.ws()
			if j.bad || j.i >= len(j.s) {
				return j.fail()
			}
			if j.s[j.i] == ']' {
				j.i++
				return v
			}
			if !first {
				if j.s[j.i] != ',' {
					return j.fail()
				}
				j.i++
			}
			v.arr = append(v.arr, j.value())
		}
	case '"':
		return j.str()
	default:
		s := j.i
		for j.i < len(j.s) && (j.s[j.i] == '-' || j.s[j.i] == '.' || j.s[j.i] >= '0' && j.s[j.i] <= '9' || j.s[j.i] >= 'a' && j.s[j.i] <= 'z') {
			j.i++
		}
		if j.i == s {
			return j.fail()
		}
		return &jval{k: '0', s: j.s[s:j.i]}
	}
}

func (j *jparser) hex4() int {
	v := 0
	for k := 0; k < 4; k++ {
		if j.i >= len(j.s) {
			j.bad = true
			return 0
		}
		c := j.s[j.i]
		j.i++
		switch {
		case '0' <= c && c <= '9':
			v = v<<4 | int(c-'0')
		case 'a' <= c && c <= 'f':
			v = v<<4 | int(c-'a'+10)
		case 'A' <= c && c <= 'F':
			v = v<<4 | int(c-'A'+10)
		default:
			j.bad = true
		}
	}
	return v
}

func (j *jparser) str() *jval {
	j.i++
	var out []byte
	for {
		if j.i >= len(j.s) {
			return j.fail()
		}
		c := j.s[j.i]
		j.i++
		switch {
		case c == '"':
			v := &jval{k: '"', s: string(out)}
			if valid(v.s) != v.s {
				return j.fail()
			}
			return v
		case c < 0x20:
			return j.fail()
		case c == '\\':
			if j.i >= len(j.s) {
				return j.fail()
			}
			c = j.s[j.i]
			j.i++
			switch c {
			case '"', '\\', '/':
				out = append(out, c)
			case 'b':
				out = append(out, '\b')
			case 'f':
				out = append(out, '\f')
			case 'n':
				out = append(out, '\n')
			case 'r':
				out = append(out, '\r')
			case 't':
				out = append(out, '\t')
			case 'u':
				r := j.hex4()
				if r >= 0xd800 && r < 0xdc00 && j.i+1 < len(j.s) && j.s[j.i] == '\\' && j.s[j.i+1] == 'u' {
					j.i += 2
					r = 0x10000 + (r-0xd800)<<10 | (j.hex4()-0xdc00)&0x3ff
				}
				switch {
				case r < 0x80:
					out = append(out, byte(r))
				case r < 0x800:
					out = append(out, byte(0xc0|r>>6), byte(0x80|r&63))
				case r < 0x10000:
					out = append(out, byte(0xe0|r>>12), byte(0x80|r>>6&63), byte(0x80|r&63))
				default:
					out = append(out, byte(0xf0|r>>18), byte(0x80|r>>12&63), byte(0x80|r>>6&63), byte(0x80|r&63))
				}
			default:
				return j.fail()
			}
		default:
			out = append(out, c)
		}
	}
}

// sourceMap prints the sheet of text with a source map; it returns the CSS and
// the map.
func sourceMap(path, text string) (css string, m *jval) {
	s := &sources.Source{Path: path, Content: text}
	ss, err := parser.Parse(s)
	if err != nil {
		zz.Reach("rejected")
		return "", nil
	}
	css = print1(ss)
	out, err := printer.Print(ss, printer.Options{OriginalSource: s})
	zz.Assert(err == nil, "printing an accepted sheet with a source map succeeds")
	zz.Assert(s.Path == path && s.Content == text, "the source is left alone")
	zz.Assert(len(out) >= len(css) && out[:len(css)] == css, "the CSS in front of the map is what is printed without a map")
	return css, readMap(out[len(css):])
}

// readMap decodes the comment that holds a source map.
func readMap(tail string) *jval {
	for len(tail) > 0 && isWS(ch(tail, 0)) {
		tail = tail[1:]
	}
	for len(tail) > 0 && isWS(ch(tail, len(tail)-1)) {
		tail = tail[:len(tail)-1]
	}
	const head, end = "/*# sourceMappingURL=data:application/json;", "*/"
	zz.Assert(len(tail) > len(head)+len(end) && tail[:len(head)] == head && tail[len(tail)-2:] == end, "the map is in a comment at the end")
	tail = tail[len(head) : len(tail)-2]
	for len(tail) > 0 && tail[len(tail)-1] == ' ' {
		tail = tail[:len(tail)-1]
	}
	const b64 = "base64,"
	for len(tail) > len(b64) && tail[:len(b64)] != b64 {
		tail = tail[1:]
	}
	js, ok := unbase64(tail[len(b64):])
	zz.Assert(ok, "the map is base64")
	j := &jparser{s: js}
	m := j.value()
	j.ws()
	zz.Assert(!j.bad && j.i == len(js) && m.k == '{', "the map is a JSON object")
	return m
}

// Envelope: the map is a version 3 map of the file. The template holds the
// path and the content, separated by ‖.
func Envelope(arg string) {
	p, t := cut(arg, "‖")
	path, text := zz.Input(p), zz.Input(t)
	zz.Note(path + " " + text)
	_, m := sourceMap(path, text)
	if m == nil {
		return
	}
	v := m.obj["version"]
	zz.Assert(v != nil && v.k == '0' && v.s == "3", "version 3")
	f := m.obj["file"]
	zz.Assert(f != nil && f.k == '"' && f.s == valid(path), "the path of the file")
	c := m.obj["sourcesContent"]
	zz.Assert(c != nil && c.k == '[' && len(c.arr) == 1 && c.arr[0].k == '"' && c.arr[0].s == valid(text), "the content of the file")
	src := m.obj["sources"]
	zz.Assert(src != nil && src.k == '[' && len(src.arr) == 1 && src.arr[0].k == '"', "one source")
	n := m.obj["names"]
	zz.Assert(n == nil || n.k == '[' && len(n.arr) == 0, "no names")
	ms := m.obj["mappings"]
	zz.Assert(ms != nil && ms.k == '"', "mappings")
	zz.Reach("end")
}

// Mappings: every rule and at-rule has one mapping from where it starts in the
// output to where it starts in the source.
func Mappings(arg string) {
	text := zz.Input(arg)
	css, m := sourceMap("f.css", text)
	if m == nil {
		return
	}
	from, ok := ruleStarts(text)
	if !ok {
		zz.Reach("malformed")
		return
	}
	to, ok := ruleStarts(css)
	zz.Assert(ok, "the output is well formed")
	zz.Assert(len(from) == len(to), "every rule is printed once")
	ols, gls := lineStarts(text), lineStarts(css)
	n := 0
	readMappings(m, func(x mapping) {
		zz.Assert(x.src == 0, "the mapping is for the source")
		zz.Assert(n < len(to), "there is one mapping for every rule")
		l, c := place16(css, gls, to[n])
		zz.Assert(x.gline == l, "the generated line of a rule")
		zz.Assert(x.gcol == c, "the generated column of a rule")
		l, c = place16(text, ols, from[n])
		zz.Assert(x.oline == l, "the original line of a rule")
		zz.Assert(x.ocol == c, "the original column of a rule")
		n++
	})
	zz.Assert(n == len(to), "there is a mapping for every rule")
	zz.Reach("end")
}

// mapping is an entry of a source map.
type mapping struct {
	gline, gcol, src, oline, ocol int
}

// readMappings calls f for every mapping.
func readMappings(m *jval, f func(x mapping)) {
	ms := m.obj["mappings"]
	zz.Assert(ms != nil && ms.k == '"', "mappings")
	s := []byte(ms.s)
	var x mapping
	first := true
	for len(s) > 0 {
		switch s[0] {
		case ';':
			x.gline, x.gcol = x.gline+1, 0
			first = true
			s = s[1:]
			continue
		case ',':
			s = s[1:]
			continue
		}
		var v [5]int
		n := 0
		for len(s) > 0 && s[0] != ',' && s[0] != ';' {
			d, l := specVLQ(s)
			zz.Assert(l > 0, "the mappings are base64 VLQ values")
			zz.Assert(n < 4, "every mapping has four fields")
			v[n] = d
			n++
			s = s[l:]
		}
		zz.Assert(n == 4, "every mapping has four fields")
		zz.Assert(v[0] > 0 || first && v[0] == 0, "the mappings of a line are ordered")
		x = mapping{x.gline, x.gcol + v[0], x.src + v[1], x.oline + v[2], x.ocol + v[3]}
		f(x)
		first = false
	}
}
