package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Res int8

const (
	resUnsat Res = iota
	resSat
	resUnknown
)

type qkey struct{ a, b uint64 }

type qval struct {
	r Res
	m []uint64 // model values; for one-variable slices a single entry
}

// qcache is shared by all workers of a run.
type qcache struct {
	sh [64]struct {
		sync.Mutex
		m map[qkey]qval
	}
}

func newQCache() *qcache {
	c := &qcache{}
	for i := range c.sh {
		c.sh[i].m = map[qkey]qval{}
	}
	return c
}

func (c *qcache) get(k qkey) (qval, bool) {
	s := &c.sh[k.a&63]
	s.Lock()
	v, ok := s.m[k]
	s.Unlock()
	return v, ok
}

func (c *qcache) put(k qkey, v qval) {
	s := &c.sh[k.a&63]
	s.Lock()
	s.m[k] = v
	s.Unlock()
}

type solverStats struct {
	queries  int64 // discharged by the solver process
	cached   int64
	guessed  int64
	timeNs   int64
	unknown  int64
	errs     int64
	asserts  int64 // assertion queries (validity) decided
	trivial  int64 // assertion conditions that simplified to true
	maxNs    int64
	restarts int64
}

// Solver is one z3 process spoken to through SMT-LIB2.
type Solver struct {
	cmd       *exec.Cmd
	in        io.WriteCloser
	out       *bufio.Reader
	decl      map[uint32]bool
	bin       string
	timeoutMs int
	cache     *qcache
	st        *solverStats
	lastErr   string
}

func newSolver(bin string, timeoutMs int, cache *qcache, st *solverStats) *Solver {
	return &Solver{bin: bin, timeoutMs: timeoutMs, cache: cache, st: st}
}

func (s *Solver) start() error {
	var args []string
	if strings.HasPrefix(s.bin, "cvc5") {
		args = []string{"--incremental", "--produce-models", "--lang=smt2", fmt.Sprintf("--tlimit-per=%d", s.timeoutMs)}
	} else {
		args = []string{"-in", "-smt2"}
	}
	s.cmd = exec.Command(s.bin, args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<16)
	s.decl = map[uint32]bool{}
	if strings.HasPrefix(s.bin, "z3") {
		fmt.Fprintf(s.in, "(set-option :timeout %d)\n(set-option :produce-models true)\n", s.timeoutMs)
	} else {
		fmt.Fprintf(s.in, "(set-logic ALL)\n")
	}
	return nil
}

func (s *Solver) close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func keyOfConj(cs []*Expr) (qkey, []uint32) {
	var vars []uint32
	for _, c := range cs {
		vars = unionVars(vars, c.vars)
	}
	var k qkey
	if len(vars) == 1 {
		for _, c := range cs {
			k.a += mix(c.s1, 11)
			k.b += mix(c.s2, 13)
		}
		k.a ^= 0x5bd1e995
	} else {
		for _, c := range cs {
			k.a += mix(c.h1, 11)
			k.b += mix(c.h2, 13)
		}
	}
	return k, vars
}

// check decides the conjunction. Structural duplicates should be removed by
// the caller. The model (values for vars) is returned when sat.
func (s *Solver) check(cs []*Expr) (Res, []uint32, []uint64) {
	k, vars := keyOfConj(cs)
	if v, ok := s.cache.get(k); ok {
		atomic.AddInt64(&s.st.cached, 1)
		return v.r, vars, v.m
	}
	if m, ok := guess(cs, vars, 200); ok {
		addInt(&s.st.guessed, 1)
		s.cache.put(k, qval{resSat, m})
		return resSat, vars, m
	}
	r, m := s.query(cs, vars)
	if r == resUnknown {
		if g, ok := guess(cs, vars, 5000); ok {
			addInt(&s.st.guessed, 1)
			r, m = resSat, g
		}
	}
	if r != resUnknown {
		s.cache.put(k, qval{r, m})
	} else {
		atomic.AddInt64(&s.st.unknown, 1)
	}
	return r, vars, m
}

func (s *Solver) query(cs []*Expr, vars []uint32) (Res, []uint64) {
	t0 := time.Now()
	defer func() {
		d := time.Since(t0).Nanoseconds()
		atomic.AddInt64(&s.st.timeNs, d)
		atomic.AddInt64(&s.st.queries, 1)
		for {
			o := atomic.LoadInt64(&s.st.maxNs)
			if d <= o || atomic.CompareAndSwapInt64(&s.st.maxNs, o, d) {
				break
			}
		}
	}()
	if s.cmd == nil {
		if err := s.start(); err != nil {
			s.lastErr = err.Error()
			atomic.AddInt64(&s.st.errs, 1)
			return resUnknown, nil
		}
	}
	var sb strings.Builder
	for _, v := range vars {
		if !s.decl[v] {
			s.decl[v] = true
			fmt.Fprintf(&sb, "(declare-const %s %s)\n", varSym(v), sortOf(varInfoOf(v).w))
		}
	}
	sb.WriteString("(push)\n")
	for _, c := range cs {
		sb.WriteString("(assert ")
		sb.WriteString(smt(c))
		sb.WriteString(")\n")
	}
	sb.WriteString("(check-sat)\n")
	if _, err := io.WriteString(s.in, sb.String()); err != nil {
		s.fail(err.Error())
		return resUnknown, nil
	}
	// A watchdog: z3's own timeout is not always honoured.
	kill := time.AfterFunc(time.Duration(s.timeoutMs)*time.Millisecond*2+3*time.Second, func() {
		if c := s.cmd; c != nil {
			c.Process.Kill()
		}
	})
	defer kill.Stop()
	line, err := s.line()
	if err != nil {
		s.fail(err.Error())
		return resUnknown, nil
	}
	var r Res
	switch line {
	case "sat":
		r = resSat
	case "unsat":
		r = resUnsat
	default:
		if strings.HasPrefix(line, "(error") {
			s.fail(line)
			return resUnknown, nil
		}
		r = resUnknown
	}
	var m []uint64
	if r == resSat {
		m = make([]uint64, len(vars))
		if len(vars) > 0 {
			sb.Reset()
			sb.WriteString("(get-value (")
			for _, v := range vars {
				sb.WriteString(varSym(v))
				sb.WriteByte(' ')
			}
			sb.WriteString("))\n")
			io.WriteString(s.in, sb.String())
			txt, err := s.sexpr()
			if err != nil || strings.HasPrefix(txt, "(error") {
				s.fail(fmt.Sprint(txt, err))
				return resUnknown, nil
			}
			vals, err := parseValues(txt)
			if err != nil {
				s.fail(err.Error())
				return resUnknown, nil
			}
			for i, v := range vars {
				x, ok := vals[varSym(v)]
				if !ok {
					s.fail("no value for " + varSym(v))
					return resUnknown, nil
				}
				m[i] = x
			}
		}
	}
	io.WriteString(s.in, "(pop)\n")
	return r, m
}

func (s *Solver) fail(msg string) {
	s.lastErr = msg
	atomic.AddInt64(&s.st.errs, 1)
	atomic.AddInt64(&s.st.restarts, 1)
	s.close()
}

func (s *Solver) line() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
		if err != nil {
			return "", err
		}
	}
}

func (s *Solver) sexpr() (string, error) {
	var sb strings.Builder
	depth, started := 0, false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return sb.String(), err
		}
		sb.WriteByte(b)
		switch b {
		case '(':
			depth++
			started = true
		case ')':
			depth--
		}
		if started && depth == 0 {
			return sb.String(), nil
		}
	}
}

// parseValues reads ((v1 #x0a) (v2 (fp ...)) ...).
func parseValues(txt string) (map[string]uint64, error) {
	toks := tokenizeSexpr(txt)
	res := map[string]uint64{}
	i := 0
	if len(toks) == 0 || toks[0] != "(" {
		return nil, fmt.Errorf("bad values %q", txt)
	}
	i++
	for i < len(toks) && toks[i] == "(" {
		name := toks[i+1]
		j := i + 2
		v, n, err := parseSMTValue(toks[j:])
		if err != nil {
			return nil, fmt.Errorf("%v in %q", err, txt)
		}
		res[name] = v
		i = j + n + 1 // closing paren
	}
	return res, nil
}

func tokenizeSexpr(s string) []string {
	var r []string
	for i := 0; i < len(s); {
		switch c := s[i]; {
		case c == '(' || c == ')':
			r = append(r, string(c))
			i++
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		default:
			j := i
			for j < len(s) && !strings.ContainsRune("() \n\t\r", rune(s[j])) {
				j++
			}
			r = append(r, s[i:j])
			i = j
		}
	}
	return r
}

func bitsOf(t string) (uint64, int, error) {
	if strings.HasPrefix(t, "#x") {
		v, err := strconv.ParseUint(t[2:], 16, 64)
		return v, 4 * (len(t) - 2), err
	}
	if strings.HasPrefix(t, "#b") {
		v, err := strconv.ParseUint(t[2:], 2, 64)
		return v, len(t) - 2, err
	}
	return 0, 0, fmt.Errorf("bad bits %q", t)
}

func parseSMTValue(t []string) (uint64, int, error) {
	if len(t) == 0 {
		return 0, 0, fmt.Errorf("empty value")
	}
	switch t[0] {
	case "true":
		return 1, 1, nil
	case "false":
		return 0, 1, nil
	case "(":
		n := 0
		d := 0
		for n < len(t) {
			if t[n] == "(" {
				d++
			}
			if t[n] == ")" {
				d--
			}
			n++
			if d == 0 {
				break
			}
		}
		switch t[1] {
		case "fp":
			s, _, e1 := bitsOf(t[2])
			e, _, e2 := bitsOf(t[3])
			m, _, e3 := bitsOf(t[4])
			if e1 != nil || e2 != nil || e3 != nil {
				return 0, 0, fmt.Errorf("bad fp")
			}
			return s<<63 | e<<52 | m, n, nil
		case "_":
			switch t[2] {
			case "+oo":
				return 0x7ff0000000000000, n, nil
			case "-oo":
				return 0xfff0000000000000, n, nil
			case "NaN":
				return 0x7ff8000000000001, n, nil
			case "+zero":
				return 0, n, nil
			case "-zero":
				return 1 << 63, n, nil
			}
			if strings.HasPrefix(t[2], "bv") {
				v, err := strconv.ParseUint(t[2][2:], 10, 64)
				return v, n, err
			}
		}
		return 0, 0, fmt.Errorf("bad value %v", t[:n])
	}
	v, _, err := bitsOf(t[0])
	return v, 1, err
}
