package zzv

import (
	"errors"

	"github.com/stephen/cssc"
	"github.com/stephen/cssc/internal/lexer"
	"github.com/stephen/cssc/internal/parser"
	"github.com/stephen/cssc/internal/transformer"
	"github.com/stephen/cssc/internal/zz"
	"github.com/stephen/cssc/transforms"
)

// ---- a set of files and a reference compilation ----

type cfile struct {
	path, text string
	exists     bool
	ok         bool // it can be read and parsed
	stmts      []*cstmt
	imports    []*cimport
	loaded     bool
	output     bool
}

type cimport struct {
	pos    int
	spec   string
	cond   bool
	target *cfile // nil if it cannot be resolved
}

type problem struct {
	path    string
	pos     int // -1: no position, the message mentions the text
	warn    bool
	mention string
}

type world struct {
	files    []*cfile
	dirs     []*cdir
	problems []*problem
	order    []*cfile // files that are loaded
	base     string
	nmaybe   int
}

type cdir struct {
	path   string
	exists bool
}

// file is what is known about a path.
func (w *world) file(path string) *cfile {
	for _, f := range w.files {
		if zz.Fork(f.path == path) {
			return f
		}
	}
	return nil
}

// isFile is whether there is a file at the path.
func (w *world) isFile(path string) bool {
	f := w.file(path)
	return f != nil && zz.Fork(f.exists)
}

func (w *world) isDir(path string) bool {
	for _, d := range w.dirs {
		if zz.Fork(d.path == path) {
			return zz.Fork(d.exists)
		}
	}
	return false
}

// mkdir adds a directory that exists if there is true, along with those above.
func (w *world) mkdir(path string, there bool) {
	for i := 1; i <= len(path); i++ {
		if i < len(path) && path[i] != '/' {
			continue
		}
		found := false
		for _, d := range w.dirs {
			if d.path == path[:i] {
				found = true
				d.exists = !zz.And(!d.exists, !there)
			}
		}
		if !found {
			w.dirs = append(w.dirs, &cdir{path[:i], there})
		}
	}
}

// add makes a file, or a directory if path ends in /. If maybe is set, it is
// only there if a fresh variable is true.
func (w *world) add(path, text string, maybe bool) {
	there := true
	if maybe {
		there = zz.Bool("f" + itoa(w.nmaybe))
		w.nmaybe++
	}
	for i := 0; i < len(path); i++ {
		zz.Assume(path[i] != 0)
	}
	if path[len(path)-1] == '/' {
		path = path[:len(path)-1]
		zz.Assume(clean(path) == path)
		w.mkdir(path, there)
		return
	}
	zz.Assume(clean(path) == path)
	w.mkdir(dirOf(path), there)
	w.files = append(w.files, &cfile{path: path, text: text, exists: there})
}

// make makes the files.
func (w *world) make() {
	for i, f := range w.files {
		for _, g := range w.files[:i] {
			zz.Assume(f.path != g.path)
		}
		for _, d := range w.dirs {
			if zz.Fork(f.path == d.path) {
				zz.Assume(!zz.And(f.exists, d.exists))
			}
		}
	}
	for _, d := range w.dirs {
		if d.path != zz.Root() && hasPrefix(zz.Root(), d.path) {
			continue // above the root
		}
		if d.path == zz.Root() {
			zz.Mkdir(d.path)
			continue
		}
		zz.MkdirIf(d.exists, d.path)
	}
	for _, f := range w.files {
		zz.WriteFileIf(f.exists, f.path, f.text)
	}
}

func splitAll(s, sep string) []string {
	var out []string
	b := 0
	for i := 0; i+len(sep) <= len(s); i++ {
		if s[i:i+len(sep)] == sep {
			out = append(out, s[b:i])
			b = i + len(sep)
			i = b - 1
		}
	}
	return append(out, s[b:])
}

func words(s string) []string {
	var out []string
	for _, x := range splitAll(s, " ") {
		if x != "" {
			out = append(out, x)
		}
	}
	return out
}

// newWorld reads a template: a line with words, then the files as
// path‖content, all separated by §. A path that ends in / is a directory; one
// that starts with ? is there or not.
func newWorld(arg string) (*world, []string) {
	w := &world{}
	w.dirs = []*cdir{{"/", true}}
	segs := splitAll(arg, "§")
	note := ""
	var head []string
	for _, x := range words(segs[0]) {
		for _, y := range splitAll(zz.Input(x), "+") {
			head = append(head, y)
			note += y + " "
		}
	}
	w.mkdir(zz.Root(), true)
	for _, s := range segs[1:] {
		p, t := s, ""
		if count(s, "‖") > 0 {
			p, t = cut(s, "‖")
		}
		maybe := p[0] == '?'
		if maybe {
			p = p[1:]
		}
		p, t = zz.Input(p), zz.Input(t)
		if maybe {
			note += "?"
		}
		note += "§" + p + "‖" + t
		w.add(zz.Root()+"/"+p, t, maybe)
	}
	w.make()
	zz.Note(note)
	return w, head
}

func clean(path string) string {
	var parts []string
	for _, x := range splitAll(path, "/") {
		switch {
		case zz.Fork(x == "") || zz.Fork(x == "."):
		case zz.Fork(x == ".."):
			if len(parts) > 0 {
				parts = parts[:len(parts)-1]
			}
		default:
			parts = append(parts, x)
		}
	}
	out := ""
	for _, x := range parts {
		out += "/" + x
	}
	if out == "" {
		return "/"
	}
	return out
}

func dirOf(path string) string {
	for i := len(path) - 1; i > 0; i-- {
		if path[i] == '/' {
			return path[:i]
		}
	}
	return "/"
}

// load reads a file and everything that it imports.
func (w *world) load(path string) *cfile {
	f := w.file(path)
	if f == nil {
		f = &cfile{path: path}
		w.files = append(w.files, f)
	}
	if f.loaded {
		return f
	}
	f.loaded = true
	w.order = append(w.order, f)
	if !zz.Fork(f.exists) {
		w.problems = append(w.problems, &problem{path: path, pos: -1, mention: path})
		return f
	}
	s := src(f.text)
	s.Path = path
	_, err := parser.Parse(s)
	if err != nil {
		w.problems = append(w.problems, &problem{path: path, pos: checkLocated(err, path, f.text)})
		return f
	}
	stmts, ok := tree(f.text)
	if !ok {
		zz.Reach("malformed")
		zz.Stop()
	}
	f.ok, f.stmts = true, stmts
	for _, s := range stmts {
		if s.at != "import" {
			continue
		}
		i := &cimport{pos: s.pos, spec: s.prelude[0].s, cond: len(s.prelude) > 1}
		f.imports = append(f.imports, i)
		target, ok := w.resolve(i.spec, dirOf(path))
		if !ok {
			w.problems = append(w.problems, &problem{path: path, pos: -1, mention: i.spec})
			continue
		}
		i.target = w.load(target)
	}
	return f
}

// inline is the sheet of f with its imports replaced.
func (w *world) inline(f *cfile, active []*cfile) []*cstmt {
	active = append(active[:len(active):len(active)], f)
	var out []*cstmt
	k := 0
	for _, s := range f.stmts {
		if s.at != "import" {
			out = append(out, s)
			continue
		}
		i := f.imports[k]
		k++
		if i.target == nil || !i.target.ok {
			out = append(out, s)
			continue
		}
		cycle := false
		for _, a := range active {
			cycle = cycle || a == i.target
		}
		if cycle {
			w.problems = append(w.problems, &problem{path: f.path, pos: i.pos})
			out = append(out, s)
			continue
		}
		out = append(out, w.inline(i.target, active)...)
		if i.cond {
			w.problems = append(w.problems, &problem{path: f.path, pos: i.pos, warn: true})
		}
	}
	return out
}

// collector is a reporter that must not be called concurrently.
type collector struct {
	busy bool
	errs []error
}

func (c *collector) AddError(err error) {
	zz.Assert(!c.busy, "the reporter is called by one goroutine at a time")
	c.busy = true
	zz.Yield()
	c.errs = append(c.errs, err)
	c.busy = false
}

// checkProblems asserts that the errors and the problems correspond to each
// other.
func (w *world) checkProblems(errs []error) {
	match := make([]int, len(w.problems)) // error of a problem
	for i := range match {
		match[i] = -1
	}
	cands := make([][]int, len(errs))
	for k, e := range errs {
		var le located
		if errors.As(e, &le) {
			s, _ := le.Location()
			zz.Assert(s != nil, "a located problem has a source")
			f := w.file(s.Path)
			zz.Assert(f != nil, "a located problem is about a file that was read")
			pos := checkLocated(e, f.path, f.text)
			warn := false
			var we interface{ Warning() bool }
			if errors.As(e, &we) {
				warn = we.Warning()
			}
			for i, p := range w.problems {
				if p.path == f.path && p.pos == pos && p.warn == warn {
					cands[k] = append(cands[k], i)
				}
			}
		} else {
			msg := e.Error()
			for i, p := range w.problems {
				if p.pos == -1 && count(msg, p.mention) > 0 {
					cands[k] = append(cands[k], i)
				}
			}
		}
		seen := make([]bool, len(w.problems))
		var try func(k int) bool
		try = func(k int) bool {
			for _, i := range cands[k] {
				if !seen[i] {
					seen[i] = true
					if match[i] < 0 || try(match[i]) {
						match[i] = k
						return true
					}
				}
			}
			return false
		}
		zz.Assert(try(k), "only problems are reported, and once")
	}
	for _, m := range match {
		zz.Assert(m >= 0, "every problem is reported")
	}
}

// cutMap splits an output into the CSS and the map.
func cutMap(out string) (css, m string) {
	at := -1
	const head = "/*# sourceMappingURL="
	for i := 0; i+len(head) <= len(out); i++ {
		if zz.Fork(out[i:i+len(head)] == head) {
			at = i
		}
	}
	zz.Assert(at >= 0, "the output carries a source map")
	return out[:at], out[at:]
}

// options are the options for a word.
func options(mode string) (o transforms.Options) {
	switch mode {
	case "inline":
		o.ImportRules = transforms.ImportRulesInline
	case "follow":
		o.ImportRules = transforms.ImportRulesFollow
	}
	return o
}

// compiled compiles a template and calls check for each file that has an
// output.
func compiled(arg string, check func(w *world, mode string, f *cfile, out string)) {
	w, head := newWorld(arg)
	mode := head[0]
	r := &collector{}
	var entries []string
	for _, e := range head[1:] {
		entries = append(entries, e)
	}
	res := cssc.Compile(cssc.Options{Entry: entries, Reporter: r, Transforms: options(mode)})
	zz.Assert(res != nil, "there is a result")
	zz.Schedules(false)
	for _, e := range head[1:] {
		f := w.load(clean(zz.Root() + "/" + e))
		f.output = true
	}
	n := 0
	for _, f := range w.order {
		if mode == "follow" {
			f.output = true
		}
		out, got := res.Files[f.path]
		if !f.output || !f.ok {
			zz.Assert(!got, "there is no output for a file that is not an entry or cannot be read")
			continue
		}
		n++
		zz.Assert(got, "every entry that can be read has an output")
		check(w, mode, f, out)
	}
	zz.Assert(len(res.Files) == n, "there are no other outputs")
	w.checkProblems(r.errs)
	zz.Reach("end")
}

// sheet is what the output for f holds.
func (w *world) sheet(mode string, f *cfile) []*cstmt {
	if mode == "inline" {
		return nonEmpty(w.inline(f, nil))
	}
	return nonEmpty(f.stmts)
}

// Compile: the outputs and problems of a compilation are those of the
// reference. The first word is the import mode, the others are the entries.
func Compile(arg string) {
	compiled(arg, func(w *world, mode string, f *cfile, out string) {
		css, _ := cutMap(out)
		tr, ok := tree(css)
		zz.Assert(ok, "the output is well formed")
		sameTrees(w.sheet(mode, f), nonEmpty(tr), toksEqual, "output")
	})
}

// flat is a list of statements in the order in which they start.
func flat(l []*cstmt) []*cstmt {
	var out []*cstmt
	for _, s := range l {
		out = append(out, s)
		out = append(out, flat(s.rules)...)
	}
	return out
}

// owner is the file that a statement is from.
func (w *world) owner(s *cstmt) *cfile {
	for _, f := range w.order {
		for _, x := range flat(f.stmts) {
			if x == s {
				return f
			}
		}
	}
	return nil
}

// CompileMaps: the map of an output holds the files that its rules are from
// and maps each rule to where it starts there.
func CompileMaps(arg string) {
	compiled(arg, func(w *world, mode string, f *cfile, out string) {
		css, tail := cutMap(out)
		m := readMap(tail)
		v := m.obj["version"]
		zz.Assert(v != nil && v.k == '0' && v.s == "3", "version 3")
		p := m.obj["file"]
		zz.Assert(p != nil && p.k == '"' && p.s == valid(f.path), "the path of the file")
		c := m.obj["sourcesContent"]
		zz.Assert(c != nil && c.k == '[' && len(c.arr) > 0 && c.arr[0].k == '"' && c.arr[0].s == valid(f.text), "the content of the file")
		src := m.obj["sources"]
		zz.Assert(src != nil && src.k == '[' && len(src.arr) == len(c.arr) && src.arr[0].k == '"', "a name for every source")
		tr, ok := tree(css)
		zz.Assert(ok, "the output is well formed")
		exp, got := flat(w.sheet(mode, f)), flat(tr)
		zz.Assert(len(exp) == len(got), "every rule is there once")
		ls := lineStarts(css)
		n := 0
		readMappings(m, func(x mapping) {
			zz.Assert(n < len(exp), "there is one mapping for every rule")
			o := w.owner(exp[n])
			zz.Assert(x.src >= 0 && x.src < len(c.arr), "the source of a mapping is there")
			zz.Assert(c.arr[x.src].k == '"' && c.arr[x.src].s == valid(o.text), "the content of the file that a rule is from")
			zz.Assert(x.src == 0 || src.arr[x.src].k == '"' && src.arr[x.src].s == valid(o.path), "the path of the file that a rule is from")
			l, c := place16(css, ls, got[n].pos)
			zz.Assert(x.gline == l, "the generated line of a rule")
			zz.Assert(x.gcol == c, "the generated column of a rule")
			l, c = place16(o.text, lineStarts(o.text), exp[n].pos)
			zz.Assert(x.oline == l, "the original line of a rule")
			zz.Assert(x.ocol == c, "the original column of a rule")
			n++
		})
		zz.Assert(n == len(exp), "there is a mapping for every rule")
	})
}

// flatten is the text of f with its imports replaced.
func (w *world) flatten(f *cfile, active []*cfile) string {
	active = append(active[:len(active):len(active)], f)
	out := ""
	at := 0
	for _, i := range f.imports {
		if i.target == nil || !i.target.ok {
			continue
		}
		cycle := false
		for _, a := range active {
			cycle = cycle || a == i.target
		}
		if cycle {
			continue
		}
		end := -1
		for _, t := range refTokens(f.text, true) {
			if end < 0 && t.start > i.pos && t.k == lexer.Semicolon {
				end = t.end
			}
		}
		out += f.text[at:i.pos] + "\n" + w.flatten(i.target, active) + "\n"
		at = end
	}
	return out + f.text[at:]
}

// Flat: inlining and transforming is the same as transforming the text with
// its imports replaced. The first word says which transforms are on.
func Flat(arg string) {
	w, head := newWorld(arg)
	var o transforms.Options
	for i, x := range []string{"", "range", "any", "vars", "media", "calc"} {
		if head[0] == x || head[0] == "all" {
			p := one(i)
			o.MediaFeatureRanges |= p.MediaFeatureRanges
			o.AnyLink |= p.AnyLink
			o.CustomProperties |= p.CustomProperties
			o.CustomMediaQueries |= p.CustomMediaQueries
			o.CalcReduction |= p.CalcReduction
		}
	}
	ropts := o
	o.ImportRules = transforms.ImportRulesInline
	r := &collector{}
	path := zz.Root() + "/" + head[1]
	res := cssc.Compile(cssc.Options{Entry: []string{path}, Reporter: r, Transforms: o})
	zz.Schedules(false)
	f := w.load(path)
	out, got := res.Files[path]
	zz.Assert(got == f.ok, "every entry that can be read has an output")
	if !f.ok {
		zz.Reach("rejected")
		return
	}
	css, _ := cutMap(out)
	tr, ok := tree(css)
	zz.Assert(ok, "the output is well formed")
	w.inline(f, nil)
	s := src(w.flatten(f, nil))
	ss, err := parser.Parse(s)
	zz.Assert(err == nil, "the text with its imports replaced is accepted")
	rr := &reports{}
	exp, ok := tree(print1(transformer.Transform(ss, transformer.Options{Options: ropts, OriginalSource: s, Reporter: rr})))
	zz.Assert(ok, "the reference is well formed")
	sameTrees(nonEmpty(exp), nonEmpty(tr), toksEqual, "output")
	zz.Assert(len(r.errs) == len(rr.errs)+len(w.problems), "the same problems are reported")
	zz.Reach("end")
}

// CompileSame: all transforms are on; outputs and reports do not depend on the
// schedule and the iteration order of maps. The first word is the import mode,
// the others are the entries.
func CompileSame(arg string) {
	w, head := newWorld(arg)
	o := options(head[0])
	for i := 1; i < 6; i++ {
		p := one(i)
		o.MediaFeatureRanges |= p.MediaFeatureRanges
		o.AnyLink |= p.AnyLink
		o.CustomProperties |= p.CustomProperties
		o.CustomMediaQueries |= p.CustomMediaQueries
		o.CalcReduction |= p.CalcReduction
	}
	var entries []string
	for _, e := range head[1:] {
		entries = append(entries, e)
	}
	r := &collector{}
	zz.MapOrder(true)
	res := cssc.Compile(cssc.Options{Entry: entries, Reporter: r, Transforms: o})
	zz.MapOrder(false)
	zz.Schedules(false)
	ref := &collector{}
	exp := cssc.Compile(cssc.Options{Entry: entries, Reporter: ref, Transforms: o})
	zz.Assert(len(res.Files) == len(exp.Files), "the set of outputs does not depend on the schedule")
	for _, f := range w.files {
		a, ok := res.Files[f.path]
		b, ok2 := exp.Files[f.path]
		zz.Assert(ok == ok2, "the set of outputs does not depend on the schedule")
		zz.Assert(a == b, "the text of an output does not depend on the schedule")
	}
	zz.Assert(len(r.errs) == len(ref.errs), "the set of reports does not depend on the schedule")
	used := make([]bool, len(ref.errs))
	for _, e := range r.errs {
		found := false
		for i, x := range ref.errs {
			if !found && !used[i] && firstLine(e.Error()) == firstLine(x.Error()) {
				found, used[i] = true, true
			}
		}
		zz.Assert(found, "the reports do not depend on the schedule")
	}
	zz.Reach("end")
}

// firstLine leaves out the stack traces of errors.
func firstLine(s string) string {
	for i := 0; i < len(s); i++ {
		if s[i] == '\n' {
			return s[:i]
		}
	}
	return s
}
