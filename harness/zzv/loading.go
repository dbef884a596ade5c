package zzv

import (
	"errors"

	"github.com/stephen/cssc"
	"github.com/stephen/cssc/internal/zz"
	"github.com/stephen/cssc/transforms"
)

// Message is a message of a bundler.
type Message struct {
	Text                 string
	Located              bool
	File, LineText       string
	Line, Column, Length int
}

// Loaded is what a plugin made of a file.
type Loaded struct {
	Errors, Warnings []Message
	Contents         *string
	CSS              bool
	Err              error
}

// Resolver is a custom resolver.
type Resolver interface {
	Resolve(spec, fromDir string) (string, error)
}

// mapped resolves x to x.css in the root and nothing else.
type mapped struct{}

func (mapped) Resolve(spec, fromDir string) (string, error) {
	if len(spec) != 1 {
		return "", errors.New("nothing at " + spec)
	}
	return zz.Root() + "/" + spec + ".css", nil
}

// Loading: problems are reported once and with their position, and without
// them the contents are the compiled output. The words are the import mode
// with "all" for the other transforms or "custom" for a resolver behind +, and
// the file.
func Loading(arg string, load func(path string, o transforms.Options, r Resolver) Loaded) {
	w, head := newWorld(arg)
	o := options(head[0])
	var r Resolver
	for _, x := range head[1 : len(head)-1] {
		switch x {
		case "all":
			for i := 1; i < 6; i++ {
				p := one(i)
				o.MediaFeatureRanges |= p.MediaFeatureRanges
				o.AnyLink |= p.AnyLink
				o.CustomProperties |= p.CustomProperties
				o.CustomMediaQueries |= p.CustomMediaQueries
				o.CalcReduction |= p.CalcReduction
			}
		case "custom":
			r = mapped{}
		}
	}
	path := zz.Root() + "/" + head[len(head)-1]
	got := load(path, o, r)

	c := &collector{}
	opts := cssc.Options{Entry: []string{path}, Reporter: c, Transforms: o}
	if r != nil {
		opts.Resolver = r
	}
	out, ok := cssc.Compile(opts).Files[path]

	// Every problem is one message of its kind.
	usedE, usedW := make([]bool, len(got.Errors)), make([]bool, len(got.Warnings))
	errs := 0
	for _, e := range c.errs {
		ms, used := got.Errors, usedE
		var we interface{ Warning() bool }
		if errors.As(e, &we) && we.Warning() {
			ms, used = got.Warnings, usedW
		} else {
			errs++
		}
		found := false
		for i, m := range ms {
			if used[i] || found || !w.about(m, e) {
				continue
			}
			found, used[i] = true, true
		}
		zz.Assert(found, "every problem is a message of its kind at its position")
	}
	for _, u := range usedE {
		zz.Assert(u, "there are no other errors")
	}
	for _, u := range usedW {
		zz.Assert(u, "there are no other warnings")
	}
	if errs > 0 {
		zz.Assert(got.Contents == nil || ok && *got.Contents == out, "no other contents")
		zz.Assert(got.Err == nil, "problems are not reported twice")
		zz.Reach("errors")
		return
	}
	zz.Assert(got.Err == nil && got.Contents != nil, "there are contents")
	zz.Assert(ok && *got.Contents == out, "the contents are the compiled output")
	zz.Assert(got.CSS, "the contents are CSS")
	zz.Reach("end")
}

// about is whether the message is about the problem: it has its position if
// there is one, or else its text.
func (w *world) about(m Message, e error) bool {
	var le located
	if !errors.As(e, &le) {
		return !m.Located && firstLine(m.Text) == firstLine(e.Error())
	}
	s, sp := le.Location()
	f := w.file(s.Path)
	zz.Assert(f != nil, "a located problem is about a file that was read")
	line, col, start, end := place(f.text, lineStarts(f.text), sp.Start)
	if !m.Located || m.File != f.path || m.Line != line || m.Column != col-1 {
		return false
	}
	zz.Assert(m.LineText == f.text[start:end], "the text of the line")
	zz.Assert(m.Length >= 0 && sp.Start+m.Length <= end || m.Length == 0, "the extent is inside the line")
	zz.Assert(sp.End < end || m.Length == 0 || sp.Start+m.Length == end, "the extent goes to the end of the line or the problem")
	zz.Assert(sp.End >= end || m.Length == sp.End-sp.Start, "the extent is that of the problem")
	return m.Text == e.Error()
}
