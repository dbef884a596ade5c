package zzv

import (
	"github.com/stephen/cssc/internal/zz"
	"github.com/stephen/cssc/resolver"
)

// ---- reference resolution ----

// asFile is the file or directory that a path stands for.
func (w *world) asFile(path string) (string, bool) {
	if w.isFile(path) {
		return path, true
	}
	if w.isFile(path + ".css") {
		return path + ".css", true
	}
	if !w.isDir(path) {
		return "", false
	}
	pre := path
	if pre == "/" {
		pre = ""
	}
	if w.isFile(pre + "/package.json") {
		style, ok := styleOf(w.file(pre + "/package.json").text)
		if !ok || style == "" {
			return "", false
		}
		t := clean(path + "/" + style)
		return t, w.isFile(t)
	}
	if w.isFile(pre + "/index.css") {
		return pre + "/index.css", true
	}
	return "", false
}

// styleOf reads the style entry of a package.json.
func styleOf(text string) (string, bool) {
	j := &jparser{s: text}
	v := j.value()
	j.ws()
	if j.bad || j.i != len(text) || v.k != '{' {
		return "", false
	}
	s := v.obj["style"]
	if s == nil || s.k != '"' {
		return "", s == nil
	}
	return s.s, true
}

func hasPrefix(s, p string) bool {
	return len(s) >= len(p) && zz.Fork(s[:len(p)] == p)
}

func (w *world) resolve(spec, from string) (string, bool) {
	if hasPrefix(spec, "./") || hasPrefix(spec, "../") || hasPrefix(spec, "/") {
		return w.asFile(clean(from + "/" + spec))
	}
	if w.base != "" {
		if r, ok := w.asFile(clean(w.base + "/" + spec)); ok {
			return r, true
		}
	}
	for d := from; ; d = dirOf(d) {
		if r, ok := w.asFile(clean(d + "/node_modules/" + spec)); ok {
			return r, true
		}
		if d == "/" {
			return "", false
		}
	}
}

// Resolve: the words are the specifier, the directory and the base URL ("-"
// for none).
func Resolve(arg string) {
	w, head := newWorld(arg)
	spec := head[0]
	from := clean(zz.Root() + "/" + head[1])
	if head[2] != "-" {
		w.base = clean(zz.Root() + "/" + head[2])
	}
	r := &resolver.NodeResolver{BaseURL: w.base}
	got, err := r.Resolve(spec, from)
	exp, ok := w.resolve(spec, from)
	if err != nil {
		zz.Assert(got == "", "there is no path along with an error")
		zz.Assert(err.Error() != "", "the error can be shown")
	} else {
		zz.Assert(w.isFile(got), "the path is that of an existing file")
	}
	zz.Assert(!ok || err == nil, "a specifier that can be resolved is resolved")
	zz.Assert(ok || err != nil, "a specifier that cannot be resolved is an error")
	zz.Assert(!ok || got == exp, "the file is the first in the documented order")
	zz.Reach("end")
}
