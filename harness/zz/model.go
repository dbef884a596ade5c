package zz

import (
	"context"
	"io"
	"runtime/pprof"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"unicode"
	"unicode/utf8"
)

// Err is the model of errors made by the standard library.
type Err struct{ msg string }

func (e *Err) Error() string { return e.msg }

// RuntimeError is the model of runtime.Error.
type RuntimeError struct{ Msg string }

func (e RuntimeError) Error() string { return e.Msg }

// RuntimeError marks the interface runtime.Error.
func (e RuntimeError) RuntimeError() {}

// RType is the model of a reflect.Type in messages.
type RType struct {
	name string
	_    int
}

func (t *RType) String() string { return t.name }

type wrapErr struct {
	msg string
	err error
}

func (e *wrapErr) Error() string { return e.msg }
func (e *wrapErr) Unwrap() error { return e.err }

type stringer interface{ String() string }
type runtimeErrorI interface {
	error
	RuntimeError()
}

const (
	kBool = iota + 1
	kInt
	kFloat
	kString
)

type fmtState struct {
	plus, minus, sharp, space, zero bool
	width, prec                     int // -1: none
}

// text is the text of a value under a verb, without padding; pad tells
// whether zeros may be put in front of it.
func (st *fmtState) text(verb byte, a interface{}, depth int, meth bool) (s string, num bool) {
	bad := func() string {
		if a == nil {
			return "%!" + string(rune(verb)) + "(<nil>)"
		}
		in := fmtState{prec: -1}
		t, _ := in.text('v', a, depth, false)
		return "%!" + string(rune(verb)) + "(" + typeName(a) + "=" + t + ")"
	}
	if verb == 'w' {
		verb = 'v'
	}
	if a == nil {
		if verb == 'v' {
			if depth > 0 && st.sharp {
				return "interface {}(nil)", false
			}
			return "<nil>", false
		}
		if verb == 'T' {
			return "<nil>", false
		}
		return bad(), false
	}
	if verb == 'T' {
		return typeName(a), false
	}
	if verb == 'p' {
		return "0xc000000000", false
	}
	k := kindOf(a)
	if (verb == 'v' && !st.sharp || verb == 's' || verb == 'q' || verb == 'x' || verb == 'X') && meth {
		switch x := a.(type) {
		case error:
			return st.str(verb, x.Error(), a, bad), false
		case stringer:
			return st.str(verb, x.String(), a, bad), false
		}
	}
	switch k {
	case kBool:
		if verb != 'v' && verb != 't' {
			return bad(), false
		}
		if asInt(a) != 0 {
			return "true", false
		}
		return "false", false
	case kInt:
		n := asInt(a)
		switch verb {
		case 'd', 'v':
			return st.sign(itoa(n)), true
		case 'x':
			return st.sign(base(n, 4, "0123456789abcdef", st.sharp, "0x")), true
		case 'X':
			return st.sign(base(n, 4, "0123456789ABCDEF", st.sharp, "0X")), true
		case 'o':
			return st.sign(base(n, 3, "01234567", st.sharp, "0")), true
		case 'b':
			return st.sign(base(n, 1, "01", st.sharp, "0b")), true
		case 'c':
			return string(rune(n)), false
		case 'q':
			return "'" + string(rune(n)) + "'", false
		case 'U':
			h := base(n, 4, "0123456789ABCDEF", false, "")
			for len(h) < 4 {
				h = "0" + h
			}
			return "U+" + h, false
		}
		return bad(), false
	case kFloat:
		f := asFloat(a)
		switch verb {
		case 'v', 'g', 'G':
			return st.sign(floatG(f, st.prec)), true
		case 'f', 'F':
			p := st.prec
			if p < 0 {
				p = 6
			}
			return st.sign(strconv.FormatFloat(f, 'f', p, 64)), true
		case 'e', 'E':
			p := st.prec
			if p < 0 {
				p = 6
			}
			return st.sign(strconv.FormatFloat(f, verb, p, 64)), true
		}
		return bad(), false
	case kString:
		return st.str(verb, asString(a), a, bad), false
	}
	if b, ok := a.([]byte); ok && (verb == 's' || verb == 'q' || verb == 'x' || verb == 'X') {
		return st.str(verb, string(b), a, bad), false
	}
	kind, names, vals, ms := parts(a)
	sub := func(i int) string {
		in := *st
		return in.padded(verb, vals[i], depth+1, meth && ms[i])
	}
	switch kind {
	case 1:
		s := "["
		for i := range vals {
			if i > 0 {
				s += " "
			}
			s += sub(i)
		}
		return s + "]", false
	case 2:
		s := "{"
		for i := range vals {
			if i > 0 {
				s += " "
			}
			if st.plus && verb == 'v' {
				s += names[i] + ":"
			}
			s += sub(i)
		}
		return s + "}", false
	case 3:
		s := "map["
		for i := 0; i < len(vals); i += 2 {
			if i > 0 {
				s += " "
			}
			s += sub(i) + ":" + sub(i+1)
		}
		return s + "]", false
	case 4:
		if len(vals) == 0 {
			return "<nil>", false
		}
		if depth == 0 {
			return "&" + sub(0), false
		}
		return "0xc000000000", false
	}
	return "0xc000000000", false
}

func (st *fmtState) sign(s string) string {
	if len(s) > 0 && s[0] != '-' {
		if st.plus {
			return "+" + s
		}
		if st.space {
			return " " + s
		}
	}
	return s
}

func (st *fmtState) str(verb byte, s string, a interface{}, bad func() string) string {
	if st.prec >= 0 && (verb == 's' || verb == 'v' || verb == 'q') {
		n := 0
		for i := range s {
			if n == st.prec {
				s = s[:i]
				break
			}
			n++
		}
	}
	switch verb {
	case 'v':
		if st.sharp {
			return Quote(s)
		}
		return s
	case 's':
		return s
	case 'q':
		return Quote(s)
	case 'x', 'X':
		d := "0123456789abcdef"
		if verb == 'X' {
			d = "0123456789ABCDEF"
		}
		var out []byte
		for i := 0; i < len(s); i++ {
			out = append(out, d[s[i]>>4], d[s[i]&15])
		}
		return string(out)
	}
	return bad()
}

func base(n int, bits uint, d string, sharp bool, pre string) string {
	if n < 0 {
		return "-" + base(-n, bits, d, sharp, pre)
	}
	s := ""
	for {
		s = string(d[n&(1<<bits-1)]) + s
		n >>= bits
		if n == 0 {
			break
		}
	}
	if sharp {
		s = pre + s
	}
	return s
}

func floatG(f float64, prec int) string {
	if !concreteFloat(f) {
		return FloatText(f)
	}
	if prec < 0 {
		// %v uses exponents only from 1e21.
		e := strconv.FormatFloat(f, 'e', -1, 64)
		x := 0
		for i := 0; i < len(e); i++ {
			if e[i] == 'e' {
				x, _ = strconv.Atoi(e[i+1:])
			}
		}
		if x < -4 || x >= 21 {
			return e
		}
		return strconv.FormatFloat(f, 'f', -1, 64)
	}
	return strconv.FormatFloat(f, 'g', prec, 64)
}

func (st *fmtState) padded(verb byte, a interface{}, depth int, meth bool) string {
	s, num := st.text(verb, a, depth, meth)
	if st.width < 0 {
		return s
	}
	if k, _, _, _ := composite(a, verb); k {
		return s
	}
	n := st.width - utf8.RuneCountInString(s)
	if n <= 0 {
		return s
	}
	fill := ""
	for i := 0; i < n; i++ {
		if st.zero && !st.minus {
			fill += "0"
		} else {
			fill += " "
		}
	}
	if st.minus {
		return s + fill
	}
	if st.zero && num && len(s) > 0 && (s[0] == '-' || s[0] == '+' || s[0] == ' ') {
		return s[:1] + fill + s[1:]
	}
	return fill + s
}

// composite tells whether padding goes to the parts of a value.
func composite(a interface{}, verb byte) (bool, []string, []interface{}, []bool) {
	if a == nil || verb == 'T' || verb == 'p' {
		return false, nil, nil, nil
	}
	switch a.(type) {
	case error, stringer, []byte:
		return false, nil, nil, nil
	}
	k, n, v, m := parts(a)
	return k == 1 || k == 2 || k == 3, n, v, m
}

func argInt(args []interface{}, k int) (int, int) {
	if k < len(args) && args[k] != nil && kindOf(args[k]) == kInt {
		return asInt(args[k]), k + 1
	}
	return -1, k + 1
}

// Sprintf models fmt.Sprintf.
func Sprintf(f string, args ...interface{}) string {
	var out []byte
	k := 0
	for i := 0; i < len(f); i++ {
		c := f[i]
		if c != '%' {
			out = append(out, c)
			continue
		}
		i++
		st := fmtState{width: -1, prec: -1}
	flags:
		for ; i < len(f); i++ {
			switch f[i] {
			case '+':
				st.plus = true
			case '-':
				st.minus = true
			case '#':
				st.sharp = true
			case ' ':
				st.space = true
			case '0':
				st.zero = true
			default:
				break flags
			}
		}
		if i < len(f) && f[i] == '*' {
			st.width, k = argInt(args, k)
			if st.width < 0 {
				st.minus = true
				st.width = -st.width
			}
			i++
		}
		for i < len(f) && '0' <= f[i] && f[i] <= '9' {
			if st.width < 0 {
				st.width = 0
			}
			st.width = st.width*10 + int(f[i]-'0')
			i++
		}
		if i < len(f) && f[i] == '.' {
			i++
			st.prec = 0
			if i < len(f) && f[i] == '*' {
				st.prec, k = argInt(args, k)
				i++
			}
			for i < len(f) && '0' <= f[i] && f[i] <= '9' {
				st.prec = st.prec*10 + int(f[i]-'0')
				i++
			}
		}
		if i >= len(f) {
			out = append(out, "%!(NOVERB)"...)
			break
		}
		if f[i] == '%' {
			out = append(out, '%')
			continue
		}
		if f[i] == '[' {
			panic("Sprintf model: argument indexes")
		}
		if k >= len(args) {
			out = append(out, '%', '!', f[i])
			out = append(out, "(MISSING)"...)
			continue
		}
		out = append(out, st.padded(f[i], args[k], 0, true)...)
		k++
	}
	if k < len(args) {
		out = append(out, "%!(EXTRA "...)
		for j := k; j < len(args); j++ {
			if j > k {
				out = append(out, ", "...)
			}
			out = append(out, typeName(args[j])...)
			out = append(out, '=')
			st := fmtState{width: -1, prec: -1}
			out = append(out, st.padded('v', args[j], 0, true)...)
		}
		out = append(out, ')')
	}
	return string(out)
}

func format(verb byte, a interface{}) string {
	st := fmtState{width: -1, prec: -1}
	return st.padded(verb, a, 0, true)
}

// Errorf models fmt.Errorf.
func Errorf(f string, args ...interface{}) error {
	k := 0
	for i := 0; i+1 < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		i++
		if f[i] == '%' {
			continue
		}
		if f[i] == 'w' && k < len(args) {
			if e, ok := args[k].(error); ok {
				return &wrapErr{Sprintf(f, args...), e}
			}
		}
		k++
	}
	return &Err{Sprintf(f, args...)}
}

func sprint(spaces bool, args []interface{}) string {
	s := ""
	for i, a := range args {
		if i > 0 && (spaces || !(isStr(a) || isStr(args[i-1]))) {
			s += " "
		}
		s += format('v', a)
	}
	return s
}

func isStr(a interface{}) bool { return a != nil && kindOf(a) == kString }

func Sprint(args ...interface{}) string   { return sprint(false, args) }
func Sprintln(args ...interface{}) string { return sprint(true, args) + "\n" }

func Fprintln(w io.Writer, args ...interface{}) (int, error) {
	return w.Write([]byte(Sprintln(args...)))
}
func Fprintf(w io.Writer, f string, args ...interface{}) (int, error) {
	return w.Write([]byte(Sprintf(f, args...)))
}
func Fprint(w io.Writer, args ...interface{}) (int, error) {
	return w.Write([]byte(Sprint(args...)))
}
func Println(args ...interface{}) (int, error)          { return 0, nil }
func Printf(f string, args ...interface{}) (int, error) { return 0, nil }

func ErrorsUnwrap(err error) error {
	u, ok := err.(interface{ Unwrap() error })
	if !ok {
		return nil
	}
	return u.Unwrap()
}

func ErrorsIs(err, target error) bool {
	for err != nil {
		if err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		if x, ok := err.(interface{ Unwrap() []error }); ok {
			for _, e := range x.Unwrap() {
				if ErrorsIs(e, target) {
					return true
				}
			}
			return false
		}
		err = ErrorsUnwrap(err)
	}
	return target == nil && err == nil
}

func ErrorsAs(err error, target interface{}) bool {
	for err != nil {
		if asAssign(err, target) {
			return true
		}
		if x, ok := err.(interface{ As(interface{}) bool }); ok && x.As(target) {
			return true
		}
		if x, ok := err.(interface{ Unwrap() []error }); ok {
			for _, e := range x.Unwrap() {
				if e != nil && ErrorsAs(e, target) {
					return true
				}
			}
			return false
		}
		err = ErrorsUnwrap(err)
	}
	return false
}

type joinErr struct{ errs []error }

func (e *joinErr) Error() string {
	s := ""
	for i, x := range e.errs {
		if i > 0 {
			s += "\n"
		}
		s += x.Error()
	}
	return s
}
func (e *joinErr) Unwrap() []error { return e.errs }

// ErrorsJoin models errors.Join.
func ErrorsJoin(errs ...error) error {
	e := &joinErr{}
	for _, x := range errs {
		if x != nil {
			e.errs = append(e.errs, x)
		}
	}
	if len(e.errs) == 0 {
		return nil
	}
	return e
}

type oopsErr struct {
	inner  error
	reason string
}

func (e *oopsErr) Error() string {
	var base error = e
	for {
		u := ErrorsUnwrap(base)
		if u == nil {
			break
		}
		base = u
	}
	if o, ok := base.(*oopsErr); ok {
		return o.reason
	}
	return base.Error() + "\n\n" + e.reason
}
func (e *oopsErr) Unwrap() error { return e.inner }

func OopsWrapf(err error, f string, args ...interface{}) error {
	if err == nil {
		return nil
	}
	return &oopsErr{err, Sprintf(f, args...)}
}

func OopsErrorf(f string, args ...interface{}) error {
	return &oopsErr{&Err{Sprintf(f, args...)}, ""}
}

// SortSlice models sort.Slice and sort.SliceStable.
func SortSlice(x interface{}, less func(i, j int) bool) {
	n := lenOf(x)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			swap(x, j, j-1)
		}
	}
}

// JSONMarshal models json.Marshal of strings.
func JSONMarshal(v interface{}) ([]byte, error) {
	if kindOf(v) != kString {
		panic("json.Marshal model: unsupported type " + typeName(v))
	}
	s := asString(v)
	const hexd = "0123456789abcdef"
	out := []byte{'"'}
	for i := 0; i < len(s); {
		b := s[i]
		if b < utf8.RuneSelf {
			i++
			switch {
			case b == '"' || b == '\\':
				out = append(out, '\\', b)
			case b == '\b':
				out = append(out, '\\', 'b')
			case b == '\f':
				out = append(out, '\\', 'f')
			case b == '\n':
				out = append(out, '\\', 'n')
			case b == '\r':
				out = append(out, '\\', 'r')
			case b == '\t':
				out = append(out, '\\', 't')
			case b < 0x20 || b == '<' || b == '>' || b == '&':
				out = append(out, '\\', 'u', '0', '0', hexd[b>>4], hexd[b&15])
			default:
				out = append(out, b)
			}
			continue
		}
		r, n := utf8.DecodeRuneInString(s[i:])
		if r == utf8.RuneError && n == 1 {
			out = append(out, `\ufffd`...)
		} else if r == 0x2028 || r == 0x2029 {
			out = append(out, '\\', 'u', '2', '0', '2', hexd[r&15])
		} else {
			out = append(out, s[i:i+n]...)
		}
		i += n
	}
	return append(out, '"'), nil
}

// ToLower models strings.ToLower.
func ToLower(s string) string {
	var out []byte
	for i := 0; i < len(s); {
		b := s[i]
		if b < utf8.RuneSelf {
			if 'A' <= b && b <= 'Z' {
				b += 'a' - 'A'
			}
			out = append(out, b)
			i++
			continue
		}
		r, n := utf8.DecodeRuneInString(s[i:])
		out = append(out, string(unicode.ToLower(r))...)
		i += n
	}
	return string(out)
}

// EqualFold models strings.EqualFold (folds through lower case; the two
// non-ASCII letters that fold to ASCII ones are handled).
func EqualFold(a, b string) bool { return foldAll(a) == foldAll(b) }

func foldAll(s string) string {
	var out []byte
	for i := 0; i < len(s); {
		c := s[i]
		if c < utf8.RuneSelf {
			if 'A' <= c && c <= 'Z' {
				c += 'a' - 'A'
			}
			out = append(out, c)
			i++
			continue
		}
		r, n := utf8.DecodeRuneInString(s[i:])
		if r == 0x17f {
			out = append(out, 's')
		} else {
			out = append(out, string(unicode.ToLower(r))...)
		}
		i += n
	}
	return string(out)
}

// Quote models strconv.Quote.
func Quote(s string) string {
	const hexd = "0123456789abcdef"
	out := []byte{'"'}
	for i := 0; i < len(s); {
		c := s[i]
		if c >= utf8.RuneSelf {
			r, n := utf8.DecodeRuneInString(s[i:])
			switch {
			case r == utf8.RuneError && n == 1:
				out = append(out, '\\', 'x', hexd[c>>4], hexd[c&15])
			case unicode.IsPrint(r):
				out = append(out, s[i:i+n]...)
			case r < 0x10000:
				out = append(out, '\\', 'u', hexd[r>>12&15], hexd[r>>8&15], hexd[r>>4&15], hexd[r&15])
			default:
				out = append(out, '\\', 'U', '0', '0', hexd[r>>20&15], hexd[r>>16&15], hexd[r>>12&15], hexd[r>>8&15], hexd[r>>4&15], hexd[r&15])
			}
			i += n
			continue
		}
		i++
		switch {
		case c == '"' || c == '\\':
			out = append(out, '\\', c)
		case c == '\a':
			out = append(out, '\\', 'a')
		case c == '\b':
			out = append(out, '\\', 'b')
		case c == '\f':
			out = append(out, '\\', 'f')
		case c == '\n':
			out = append(out, '\\', 'n')
		case c == '\r':
			out = append(out, '\\', 'r')
		case c == '\t':
			out = append(out, '\\', 't')
		case c == '\v':
			out = append(out, '\\', 'v')
		case c < ' ' || c == 0x7f:
			out = append(out, '\\', 'x', hexd[c>>4], hexd[c&15])
		default:
			out = append(out, c)
		}
	}
	return string(append(out, '"'))
}

type valueCtx struct {
	context.Context
	key, val interface{}
}

func (c *valueCtx) Value(key interface{}) interface{} {
	if c.key == key {
		return c.val
	}
	return c.Context.Value(key)
}

// CtxWithValue models context.WithValue.
func CtxWithValue(parent context.Context, key, val interface{}) context.Context {
	return &valueCtx{parent, key, val}
}

// WGGo models (*sync.WaitGroup).Go.
func WGGo(wg *sync.WaitGroup, f func()) {
	wg.Add(1)
	go func() {
		defer wg.Done()
		f()
	}()
}

func PprofWithLabels(ctx context.Context, l pprof.LabelSet) context.Context { return ctx }
func PprofSet(ctx context.Context)                                           {}
func PprofLabels(args ...string) pprof.LabelSet                              { return pprof.LabelSet{} }

// Stack models debug.Stack.
func Stack() []byte { return []byte("stack") }

// StringsMap models strings.Map.
func StringsMap(f func(rune) rune, s string) string {
	var out []byte
	for i := 0; i < len(s); {
		c, n := rune(s[i]), 1
		if c >= utf8.RuneSelf {
			c, n = utf8.DecodeRuneInString(s[i:])
		}
		r := f(c)
		if r == c && (c != utf8.RuneError || n != 1) {
			out = append(out, s[i:i+n]...)
		} else if r >= 0 {
			out = append(out, string(r)...)
		}
		i += n
	}
	return string(out)
}

func BytesMap(f func(rune) rune, b []byte) []byte { return []byte(StringsMap(f, string(b))) }
func BytesToLower(b []byte) []byte                { return []byte(ToLower(string(b))) }
func BytesIndex(a, b []byte) int                  { return strings.Index(string(a), string(b)) }

func MathMax(x, y float64) float64 {
	if x != x || y != y {
		return x + y
	}
	if x > y || x == y && x != 0 {
		return x
	}
	if x < y {
		return y
	}
	if x == 0 && 1/x < 0 {
		return y
	}
	return x
}

func MathMin(x, y float64) float64 { return -MathMax(-x, -y) }

// state is what the models of package sync keep.
var state struct {
	mu    sync.Mutex
	pools map[*sync.Pool][]interface{}
	maps  map[*sync.Map]*smap
	conds map[*sync.Cond][]chan struct{}
	vals  map[*atomic.Value]interface{}
}

// PoolGet models (*sync.Pool).Get: what was put last comes back.
func PoolGet(p *sync.Pool) interface{} {
	state.mu.Lock()
	if l := state.pools[p]; len(l) > 0 {
		x := l[len(l)-1]
		state.pools[p] = l[:len(l)-1]
		state.mu.Unlock()
		return x
	}
	state.mu.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func PoolPut(p *sync.Pool, x interface{}) {
	if x == nil {
		return
	}
	state.mu.Lock()
	if state.pools == nil {
		state.pools = map[*sync.Pool][]interface{}{}
	}
	state.pools[p] = append(state.pools[p], x)
	state.mu.Unlock()
}

type smap struct {
	m    map[interface{}]interface{}
	keys []interface{}
}

func (s *smap) set(k, v interface{}) {
	if _, ok := s.m[k]; !ok {
		s.keys = append(s.keys, k)
	}
	s.m[k] = v
}

func (s *smap) del(k interface{}) {
	if _, ok := s.m[k]; !ok {
		return
	}
	delete(s.m, k)
	for i := range s.keys {
		if s.keys[i] == k {
			s.keys = append(s.keys[:i:i], s.keys[i+1:]...)
			return
		}
	}
}

// smapOf locks the state.
func smapOf(p *sync.Map) *smap {
	state.mu.Lock()
	if state.maps == nil {
		state.maps = map[*sync.Map]*smap{}
	}
	s := state.maps[p]
	if s == nil {
		s = &smap{m: map[interface{}]interface{}{}}
		state.maps[p] = s
	}
	return s
}

func SMapLoad(p *sync.Map, k interface{}) (interface{}, bool) {
	s := smapOf(p)
	v, ok := s.m[k]
	state.mu.Unlock()
	return v, ok
}

func SMapStore(p *sync.Map, k, v interface{}) {
	smapOf(p).set(k, v)
	state.mu.Unlock()
}

func SMapLoadOrStore(p *sync.Map, k, v interface{}) (interface{}, bool) {
	s := smapOf(p)
	old, ok := s.m[k]
	if !ok {
		s.set(k, v)
		old = v
	}
	state.mu.Unlock()
	return old, ok
}

func SMapLoadAndDelete(p *sync.Map, k interface{}) (interface{}, bool) {
	s := smapOf(p)
	old, ok := s.m[k]
	s.del(k)
	state.mu.Unlock()
	return old, ok
}

func SMapDelete(p *sync.Map, k interface{}) {
	smapOf(p).del(k)
	state.mu.Unlock()
}

func SMapSwap(p *sync.Map, k, v interface{}) (interface{}, bool) {
	s := smapOf(p)
	old, ok := s.m[k]
	s.set(k, v)
	state.mu.Unlock()
	return old, ok
}

func SMapCompareAndSwap(p *sync.Map, k, old, v interface{}) bool {
	s := smapOf(p)
	x, ok := s.m[k]
	ok = ok && x == old
	if ok {
		s.set(k, v)
	}
	state.mu.Unlock()
	return ok
}

func SMapRange(p *sync.Map, f func(k, v interface{}) bool) {
	s := smapOf(p)
	keys := append([]interface{}(nil), s.keys...)
	state.mu.Unlock()
	for _, k := range keys {
		v, ok := SMapLoad(p, k)
		if ok && !f(k, v) {
			return
		}
	}
}

func SMapClear(p *sync.Map) {
	s := smapOf(p)
	s.m = map[interface{}]interface{}{}
	s.keys = nil
	state.mu.Unlock()
}

// CondWait models (*sync.Cond).Wait.
func CondWait(c *sync.Cond) {
	ch := make(chan struct{}, 1)
	state.mu.Lock()
	if state.conds == nil {
		state.conds = map[*sync.Cond][]chan struct{}{}
	}
	state.conds[c] = append(state.conds[c], ch)
	state.mu.Unlock()
	c.L.Unlock()
	<-ch
	c.L.Lock()
}

func CondSignal(c *sync.Cond) {
	state.mu.Lock()
	if l := state.conds[c]; len(l) > 0 {
		l[0] <- struct{}{}
		state.conds[c] = l[1:]
	}
	state.mu.Unlock()
}

func CondBroadcast(c *sync.Cond) {
	state.mu.Lock()
	if l := state.conds[c]; len(l) > 0 {
		for _, ch := range l {
			ch <- struct{}{}
		}
		delete(state.conds, c)
	}
	state.mu.Unlock()
}

func AValLoad(p *atomic.Value) interface{} {
	state.mu.Lock()
	v := state.vals[p]
	state.mu.Unlock()
	return v
}

func AValSwap(p *atomic.Value, v interface{}) interface{} {
	if v == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	state.mu.Lock()
	if state.vals == nil {
		state.vals = map[*atomic.Value]interface{}{}
	}
	old := state.vals[p]
	state.vals[p] = v
	state.mu.Unlock()
	return old
}

func AValStore(p *atomic.Value, v interface{}) { AValSwap(p, v) }

func AValCAS(p *atomic.Value, old, v interface{}) bool {
	state.mu.Lock()
	ok := state.vals[p] == old
	if ok {
		if state.vals == nil {
			state.vals = map[*atomic.Value]interface{}{}
		}
		state.vals[p] = v
	}
	state.mu.Unlock()
	return ok
}
