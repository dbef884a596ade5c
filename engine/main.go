package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Prop is the check of one property.
type Prop struct {
	ID        string
	Bounds    []string
	Assume    []string
	Harnesses []*Harness
}

var escapes = strings.NewReplacer("␊", "\n", "␍", "\r", "␌", "\f", "␉", "\t", "␠", " ", "␀", "\x00")

// loadChecks reads harness/checks.txt.
func loadChecks(file string) (map[string]*Prop, []string, error) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil, nil, err
	}
	props := map[string]*Prop{}
	var order []string
	var cur *Prop
	// sets has the named lists of templates, as options and template.
	sets := map[string][][2]string{}
	var set string
	var lines []string
	for ln, l := range strings.Split(string(b), "\n") {
		lines = append(lines[:0], l)
		// "use FUNC set=NAME OPTIONS | BEFORE @@ AFTER" stands for one h line per template of the set.
		if rest, ok := strings.CutPrefix(strings.TrimSpace(l), "use "); ok {
			opts, arg, _ := strings.Cut(rest, "|")
			arg = strings.TrimPrefix(arg, " ")
			if !strings.Contains(arg, "@@") {
				arg += "@@"
			}
			var names, keep []string
			for _, o := range strings.Fields(opts) {
				if name, ok := strings.CutPrefix(o, "set="); ok {
					names = append(names, name)
				} else {
					keep = append(keep, o)
				}
			}
			lines = lines[:0]
			for _, name := range names {
				if sets[name] == nil {
					return nil, nil, fmt.Errorf("checks.txt:%d: no set %s", ln+1, name)
				}
				for _, t := range sets[name] {
					lines = append(lines, "h "+strings.Join(keep, " ")+" "+t[0]+" | "+strings.ReplaceAll(arg, "@@", t[1]))
				}
			}
		}
		for _, l := range lines {
			t := strings.TrimSpace(l)
			if t == "" || strings.HasPrefix(t, "#") {
				continue
			}
			f := strings.SplitN(t, " ", 2)
			rest := ""
			if len(f) > 1 {
				rest = f[1]
			}
			switch f[0] {
			case "set":
				set = rest
			case "t":
				opts, arg, _ := strings.Cut(rest, "|")
				sets[set] = append(sets[set], [2]string{opts, strings.TrimPrefix(arg, " ")})
			case "prop":
				cur = props[rest]
				if cur == nil {
					cur = &Prop{ID: rest}
					props[rest] = cur
					order = append(order, rest)
				}
			case "bounds":
				cur.Bounds = append(cur.Bounds, rest)
			case "assume":
				cur.Assume = append(cur.Assume, rest)
			case "h":
				h := &Harness{Prop: cur.ID, Tier: "quick", Budget: 10}
				opts, arg, ok := strings.Cut(rest, "|")
				if ok {
					h.Arg = escapes.Replace(strings.TrimPrefix(arg, " "))
				}
				fs := strings.Fields(opts)
				if len(fs) == 0 {
					return nil, nil, fmt.Errorf("checks.txt:%d: no function", ln+1)
				}
				h.Func = fs[0]
				for _, o := range fs[1:] {
					k, v, _ := strings.Cut(o, "=")
					n, _ := strconv.ParseFloat(v, 64)
					switch k {
					case "quick", "thorough":
						h.Tier = k
					case "budget":
						h.Budget = n
					case "steps":
						h.Steps = int64(n)
					case "sched":
						h.Sched = int(n)
					case "race":
						h.Race = true
					case "deep":
						h.Deep = true
					case "timeout":
						h.Timeout = int(n)
					case "solver":
						h.Solver = v
					default:
						return nil, nil, fmt.Errorf("checks.txt:%d: option %s", ln+1, o)
					}
				}
				cur.Harnesses = append(cur.Harnesses, h)
			default:
				return nil, nil, fmt.Errorf("checks.txt:%d: %s", ln+1, f[0])
			}
		}
	}
	return props, order, nil
}

type known struct {
	prop, harness, what string
	label               *regexp.Regexp
	fixed               bool
}

// loadKnown reads the committed list of known findings:
//
//	finding: property=C04 harness=DeclRoundTrip label=/regexp/ what fails
//	fixed: property=C01 <commit> what failed
func loadKnown(file string) []known {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	re := regexp.MustCompile(`^finding: property=(\S+) harness=(\S+) label=/(.*?)/ (.*)$`)
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(strings.TrimSpace(l)); m != nil {
			out = append(out, known{prop: m[1], harness: m[2], label: regexp.MustCompile("^(?:" + m[3] + ")$"), what: m[4]})
		}
	}
	return out
}

func splitFunc(f string) (string, string) {
	if i := strings.IndexByte(f, '.'); i >= 0 {
		return f[:i], f[i+1:]
	}
	return "zzv", f
}

func newWorker(p *Prog, id int, seed int64) *W {
	return &W{id: id, p: p, rng: rand.New(rand.NewSource(seed*1000 + int64(id))),
		ginit: map[*ssa.Package]int8{}, free: map[*Fn][]*Frame{}, called: map[*Fn]bool{},
		reached: map[string]bool{}, incompl: map[string]int{}}
}

var (
	repoDir  = "/repo"
	verifDir = "/verif"
)

func goEnv(race bool) []string {
	env := os.Environ()
	env = append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off")
	if race {
		env = append(env, "CGO_ENABLED=1")
	} else {
		env = append(env, "CGO_ENABLED=0")
	}
	return env
}

func load(pkgs []string) (*Prog, error) {
	ov, _, err := overlayFiles(repoDir, verifDir)
	if err != nil {
		return nil, err
	}
	pats := []string{zzPath}
	for _, k := range pkgs {
		pats = append(pats, "github.com/stephen/cssc/internal/"+k)
	}
	return loadProg(repoDir, ov, pats, goEnv(false))
}

func main() {
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(20 << 30)
	repo := flag.String("repo", "/repo", "")
	verif := flag.String("verif", "/verif", "")
	tier := flag.String("tier", os.Getenv("VERIF_TIER"), "")
	only := flag.String("only", "", "run only harnesses whose function or argument matches")
	cap := flag.Float64("cap", 0, "total seconds for exploration")
	verbose := flag.Bool("v", false, "")
	flag.StringVar(&coverFile, "cover", "", "write the executed and the other lines of the code under test to the file")
	checks := flag.String("checks", "", "file of checks (default harness/checks.txt)")
	workers := flag.Int("j", 8, "")
	maxCand := flag.Int("maxcand", 40, "")
	flag.Parse()
	repoDir, verifDir = *repo, *verif
	if *tier == "" {
		*tier = "quick"
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if seed == 0 {
		seed = 1
	}
	if flag.NArg() < 1 {
		fmt.Fprintln(os.Stderr, "usage: vsym [flags] <property>|replay <file>|list")
		os.Exit(2)
	}
	if flag.Arg(0) == "replay" {
		os.Exit(replayCmd(flag.Arg(1)))
	}
	if *checks == "" {
		*checks = filepath.Join(verifDir, "harness", "checks.txt")
	}
	props, order, err := loadChecks(*checks)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if flag.Arg(0) == "list" {
		for _, o := range order {
			fmt.Println(o, len(props[o].Harnesses))
		}
		return
	}
	pr := props[flag.Arg(0)]
	if pr == nil {
		fmt.Fprintln(os.Stderr, "no such property", flag.Arg(0))
		os.Exit(2)
	}
	c := &check{prop: pr, tier: *tier, seed: seed, workers: *workers, verbose: *verbose, cap: *cap, maxCand: *maxCand}
	if *only != "" {
		c.only = regexp.MustCompile(*only)
	}
	os.Exit(c.run())
}

type check struct {
	prop    *Prop
	tier    string
	seed    int64
	workers int
	verbose bool
	cap     float64
	maxCand int
	only    *regexp.Regexp
}

func (c *check) logf(f string, a ...any) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
}

type hres struct {
	run       *HRun
	h         *Harness
	confirmed []*confirmedCand
	unconf    []string
	okSamples int
	mismatch  []string
}

type confirmedCand struct {
	c       *candidate
	outcome string
	known   *known
}

// confirm returns whether or not there is a counterexample that is not a known finding
// and that the real code reproduces.
func (c *check) confirm(r *HRun, known []known, nat *native) bool {
next:
	for i, x := range r.cands {
		if i >= 8 {
			break
		}
		for j := range known {
			if known[j].prop == c.prop.ID && known[j].label.MatchString(x.Label) {
				continue next
			}
		}
		if nat.wait() != nil {
			return false
		}
		o := nat.runAll([]*candidate{x}, false, 120*time.Second)[0]
		if !o.bad() && x.sched {
			o = nat.hammer(x, strings.HasPrefix(x.Label, "data race"))
		}
		if !o.bad() {
			continue
		}
		for j := range known {
			if known[j].prop == c.prop.ID && (o.Crash == "" && !o.Hang && known[j].label.MatchString(o.label()) || known[j].label.MatchString(o.text())) {
				continue next
			}
		}
		return true
	}
	return false
}

func (c *check) run() int {
	t0 := time.Now()
	var hs []*Harness
	pkgset := map[string]bool{}
	for _, h := range c.prop.Harnesses {
		if h.Tier == "thorough" && c.tier == "quick" {
			continue
		}
		if c.only != nil && !c.only.MatchString(h.Func+" "+h.Arg) {
			continue
		}
		hs = append(hs, h)
		p, _ := splitFunc(h.Func)
		pkgset[p] = true
		if h.Deep && c.tier == "thorough" && strings.Contains(h.Arg, "□") {
			// twice the symbolic bytes
			d := *h
			d.Arg = strings.ReplaceAll(h.Arg, "□", "□□")
			d.Budget *= 2
			hs = append(hs, &d)
		}
	}
	pkgs := sortedKeys(pkgset)
	race := false
	for _, h := range hs {
		if h.Race {
			race = true
		}
	}
	nat := newNative(pkgs)
	defer nat.close()
	nat.startBuild(false)
	if race {
		nat.startBuild(true)
	}
	p, err := load(pkgs)
	if err != nil {
		c.logf("cannot load the code under test: %v", err)
		return 2
	}
	if coverFile != "" {
		defer p.writeCover()
	}
	loadS := time.Since(t0).Seconds()
	var ws []*W
	for i := 0; i < c.workers; i++ {
		ws = append(ws, newWorker(p, i, c.seed))
	}
	total := c.cap
	if total == 0 {
		if c.tier == "quick" {
			total = 180
		} else {
			total = 780
		}
	}
	end := t0.Add(time.Duration(total * float64(time.Second)))
	scale := 1.0
	if c.tier == "thorough" {
		// spread the time that is left over the harnesses
		sum := 0.0
		for _, h := range hs {
			sum += h.Budget
		}
		if sum > 0 {
			scale = (total - 60) / sum
			if scale > 20 {
				scale = 20
			}
		}
	}
	cache := newQCache()
	known := loadKnown(filepath.Join(verifDir, "known_findings.txt"))
	var results []*hres
	for hi, h := range hs {
		pk, fn := splitFunc(h.Func)
		sp := p.pkgs["github.com/stephen/cssc/internal/"+pk]
		var entry *ssa.Function
		if sp != nil {
			entry = sp.Func(fn)
		}
		if entry == nil {
			c.logf("no harness function %s", h.Func)
			return 2
		}
		h.MaxCand = c.maxCand
		st := &solverStats{}
		r := &HRun{h: h, p: p, entry: entry, cache: cache, st: st, rng: rand.New(rand.NewSource(c.seed))}
		b := h.Budget * scale
		left := time.Until(end).Seconds() - 20
		// keep something for the harnesses to come
		if rest := float64(len(hs) - hi); b > left {
			b = max(left/rest, min(10, left/3))
		}
		if b < 1 {
			b = 1
		}
		r.deadline = time.Now().Add(time.Duration(b * float64(time.Second)))
		r.explore(ws)
		res := &hres{run: r, h: h}
		results = append(results, res)
		if c.verbose {
			c.report(r)
		}
		if c.tier == "quick" && c.confirm(r, known, nat) {
			// One violation is enough to decide the property; the rest would only add to it.
			break
		}
		if c.verbose {
			if memMB() > 12000 {
				cache = newQCache()
			}
		}
	}
	exploreS := time.Since(t0).Seconds() - loadS
	for _, w := range ws {
		if w.sol != nil {
			w.sol.close()
		}
	}
	// ---- replay ----
	var cands, samples []*candidate
	own := map[*candidate]*hres{}
	for _, r := range results {
		for _, x := range r.run.cands {
			own[x] = r
			cands = append(cands, x)
		}
		for _, x := range r.run.samples {
			if x != nil {
				own[x] = r
				samples = append(samples, x)
			}
		}
	}
	if err := nat.wait(); err != nil {
		c.logf("native build failed: %v", err)
		return 2
	}
	maxT := 120 * time.Second
	outs := nat.runAll(cands, false, maxT)
	validated := 0
	for i, x := range cands {
		r := own[x]
		o := outs[i]
		if !o.bad() && x.sched {
			o = nat.hammer(x, strings.HasPrefix(x.Label, "data race"))
		}
		if o.bad() {
			k := &confirmedCand{c: x, outcome: o.text()}
			for j := range known {
				if known[j].prop == c.prop.ID && (known[j].harness == "*" || known[j].harness == r.h.Func) {
					if o.Crash == "" && !o.Hang && known[j].label.MatchString(o.label()) || (o.Crash != "" || o.Hang) && known[j].label.MatchString(o.text()) {
						k.known = &known[j]
					}
				}
			}
			r.confirmed = append(r.confirmed, k)
			validated++
		} else {
			r.unconf = append(r.unconf, fmt.Sprintf("%s | %s | %s", x.Label, showInputs(x), o.text()))
		}
	}
	souts := nat.runAll(samples, false, 60*time.Second)
	for i, x := range samples {
		r := own[x]
		o := souts[i]
		if !o.Ran {
			continue
		}
		if o.bad() || !sameEmits(o.Emits, x.Emits) || len(o.Missing) > 0 {
			if x.sched && !o.bad() {
				continue // emits may depend on the schedule
			}
			r.mismatch = append(r.mismatch, fmt.Sprintf("%s | engine emits %q, native %s %q missing %q", showInputs(x), x.Emits, o.text(), o.Emits, o.Missing))
			if o.bad() && !x.sched {
				// the real code fails on an input the engine passed: report it, it is real
				r.confirmed = append(r.confirmed, &confirmedCand{c: x, outcome: o.text()})
			}
			continue
		}
		r.okSamples++
		validated++
	}
	// ---- report ----
	viol := 0
	seenKnown := map[string]bool{}
	repDir := filepath.Join(verifDir, "evidence", "replay")
	old, _ := filepath.Glob(filepath.Join(repDir, c.prop.ID+"-*.json"))
	for _, f := range old {
		os.Remove(f)
	}
	var violList []any
	for _, r := range results {
		seenLabel := map[string]bool{}
		for _, k := range r.confirmed {
			if k.known != nil {
				key := k.known.what
				if !seenKnown[key] {
					seenKnown[key] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.prop.ID, k.known.what)
				}
				continue
			}
			lk := k.c.Label
			if seenLabel[lk] {
				continue
			}
			seenLabel[lk] = true
			viol++
			os.MkdirAll(repDir, 0755)
			file := filepath.Join(repDir, fmt.Sprintf("%s-%d.json", c.prop.ID, viol))
			b, _ := json.MarshalIndent(map[string]any{"property": c.prop.ID, "case": toCase(k.c), "label": k.c.Label, "observed": k.outcome, "input": showInputs(k.c), "how": "engine/vsym replay " + file}, "", " ")
			os.WriteFile(file, b, 0644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop.ID, file)
			fmt.Printf("  harness %s(%q): %s; input %s; real code: %s\n", r.h.Func, r.h.Arg, k.c.Label, showInputs(k.c), firstLine(k.outcome))
			violList = append(violList, map[string]any{"harness": r.h.Func, "arg": r.h.Arg, "label": k.c.Label, "input": showInputs(k.c), "observed": firstLine(k.outcome), "replay": file})
		}
		if c.verbose || len(r.unconf) > 0 || len(r.mismatch) > 0 {
			for i, u := range r.unconf {
				if i < 3 || c.verbose {
					c.logf("unconfirmed candidate (%s %q): %s", r.h.Func, r.h.Arg, u)
				}
			}
			for i, u := range r.mismatch {
				if i < 3 || c.verbose {
					c.logf("engine/native mismatch (%s %q): %s", r.h.Func, r.h.Arg, u)
				}
			}
		}
	}
	c.evidence(results, violList, seenKnown, validated, loadS, exploreS, time.Since(t0).Seconds())
	full := 0
	for _, r := range results {
		if r.run.complete() {
			full++
		}
	}
	c.logf("%s %s: %d harnesses, %d fully explored, %d violations, %d known, wall %.1fs", c.prop.ID, c.tier, len(results), full, viol, len(seenKnown), time.Since(t0).Seconds())
	if viol > 0 {
		return 1
	}
	return 0
}

func memMB() int {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int(m.HeapAlloc >> 20)
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func sameEmits(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func showInputs(c *candidate) string {
	if c.Text != "" {
		s := fmt.Sprintf("%q", c.Text)
		var extra []string
		for _, in := range c.Inputs {
			if !(in.Kind == "byte" && len(in.Name) > 1 && in.Name[0] == 'b') && !(in.Kind == "choice" && in.Name[0] == 'c') {
				extra = append(extra, fmt.Sprintf("%s=%d", in.Name, int64(in.Val)))
			}
		}
		if len(extra) > 0 {
			s += " " + strings.Join(extra, " ")
		}
		return s
	}
	var out []string
	for _, in := range c.Inputs {
		switch in.Kind {
		case "float":
			out = append(out, fmt.Sprintf("%s=%v", in.Name, b2f(in.Val)))
		case "int":
			out = append(out, fmt.Sprintf("%s=%d", in.Name, int64(in.Val)))
		default:
			out = append(out, fmt.Sprintf("%s=%d", in.Name, in.Val))
		}
	}
	return strings.Join(out, " ")
}

func (c *check) report(r *HRun) {
	full := "PARTIAL"
	if r.complete() {
		full = "full"
	}
	var ends []string
	for k, n := range r.ends {
		ends = append(ends, fmt.Sprintf("%s=%d", k, n))
	}
	sort.Strings(ends)
	c.logf("%-16s %-40q %s %.1fs paths=%d [%s] steps=%d queries=%d cached=%d guessed=%d solver=%.1fs asserts=%d/%d pend=%d mem=%dMB", r.h.Func, r.h.Arg, full, r.wall, r.paths, strings.Join(ends, " "), r.steps, r.st.queries, r.st.cached, r.st.guessed, float64(r.st.timeNs)/1e9, r.st.asserts, r.st.trivial, len(r.pending), memMB())
	for m, n := range r.unsup {
		c.logf("    unsupported x%d: %s", n, m)
	}
	for m, n := range r.incompl {
		c.logf("    incomplete x%d: %s", n, m)
	}
	for m := range r.notes {
		c.logf("    note: %s", m)
	}
	for i, x := range r.cands {
		if i < 12 {
			c.logf("    candidate %s: %s | %s", x.Kind, x.Label, showInputs(x))
		}
	}
	if len(r.reached) > 0 {
		c.logf("    reached: %s", strings.Join(sortedKeys(r.reached), ", "))
	}
}

func (c *check) evidence(results []*hres, viol []any, known map[string]bool, validated int, loadS, exploreS, wall float64) {
	fns := map[string]bool{}
	var hl []any
	var paths, decs, queries, cached, asserts, trivial, unknown, steps, solverNs int64
	var samples []any
	var partial []string
	for _, r := range results {
		run := r.run
		for f := range run.called {
			fns[f.name] = true
		}
		paths += run.paths
		decs += run.decs
		queries += run.st.queries
		cached += run.st.cached
		asserts += run.st.asserts
		trivial += run.st.trivial
		unknown += run.st.unknown
		steps += run.steps
		solverNs += run.st.timeNs
		ends := map[string]int64{}
		for k, n := range run.ends {
			ends[k.String()] = n
		}
		m := map[string]any{
			"function": r.h.Func, "argument": r.h.Arg, "fully_explored": run.complete(), "paths": run.paths,
			"path_ends": ends, "solver_queries": run.st.queries, "answered_from_cache": run.st.cached,
			"assertions_decided_by_solver": run.st.asserts, "assertions_decided_by_simplification": run.st.trivial,
			"seconds": round1(run.wall), "reached": sortedKeys(run.reached),
			"replayed_paths_matching": r.okSamples, "open_paths": len(run.pending),
		}
		if len(run.unsup) > 0 {
			m["outside_the_encoding"] = run.unsup
		}
		if len(run.incompl) > 0 {
			m["incomplete"] = run.incompl
		}
		if len(r.unconf) > 0 {
			m["unconfirmed_candidates"] = r.unconf
		}
		if len(r.mismatch) > 0 {
			m["engine_native_mismatches"] = r.mismatch
		}
		if run.ends[endDone]+run.ends[endExit]+run.ends[endViolation] == 0 {
			m["vacuous"] = true
		}
		hl = append(hl, m)
		if !run.complete() {
			partial = append(partial, r.h.Func+" "+r.h.Arg)
		}
		for i, s := range run.samples {
			if i < 2 && s != nil && len(samples) < 40 {
				samples = append(samples, map[string]any{"harness": s.Harness, "argument": s.Arg, "input": showInputs(s), "observed": s.Emits})
			}
		}
	}
	if len(samples) == 0 {
		samples = append(samples, "no path completed")
	}
	if viol == nil {
		viol = []any{}
	}
	ev := map[string]any{
		"property": c.prop.ID, "tier": c.tier, "seed": c.seed, "level": "model_checking",
		"wall_s": round1(wall),
		"coverage": map[string]any{
			"states": paths, "transitions": decs, "traces_validated_against_impl": validated, "samples": samples,
			"explanation":       "states = symbolic paths explored, transitions = solver-decided branch decisions and nondeterministic choices along them",
			"functions_encoded": sortedKeys(fns), "functions_encoded_count": len(fns),
			"instructions_executed": steps,
			"solver":                map[string]any{"queries": queries, "cached": cached, "unknown": unknown, "seconds": round1(float64(solverNs) / 1e9)},
			"assertions":            map[string]any{"by_solver": asserts, "by_simplification": trivial},
			"bounds":                c.prop.Bounds, "harnesses": hl,
			"fully_explored": len(results) - len(partial), "partially_explored": partial,
			"known_findings_seen": sortedKeys(known),
			"load_s":              round1(loadS), "explore_s": round1(exploreS),
		},
		"assumptions": append([]string{"the interpreter of go/ssa in /verif/engine is faithful (sampled paths are replayed natively and compared)", "z3 answers are right", "the models in harness/zz stand for the library functions they replace"}, c.prop.Assume...),
		"violations":  viol,
	}
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verifDir, "evidence", c.prop.ID+".json"), b, 0644)
}

func round1(f float64) float64 { return float64(int(f*10+0.5)) / 10 }

var _ = sync.Mutex{}
