package zzv

import (
	"github.com/stephen/cssc/internal/ast"
	"github.com/stephen/cssc/internal/logging"
	"github.com/stephen/cssc/internal/parser"
	"github.com/stephen/cssc/internal/printer"
	"github.com/stephen/cssc/internal/transformer"
	"github.com/stephen/cssc/internal/zz"
	"github.com/stephen/cssc/transforms"
)

// Stable: printing is pure, and printed text is a fixed point.
func Stable(arg string) {
	text := zz.Input(arg)
	ss := parse(text)
	if ss == nil {
		return
	}
	one := print1(ss)
	zz.Assert(zz.Same(ss, parse(text)), "printing leaves the sheet unchanged")
	two := print1(ss)
	zz.Assert(one == two, "printing twice gives the same text")
	again, err := parser.Parse(src(one))
	if err != nil {
		if _, ok := canon(text); !ok {
			zz.Reach("malformed")
			return
		}
	}
	zz.Assert(err == nil, "printed text is accepted")
	three := print1(again)
	if three != one {
		a, ok := canon(text)
		if ok && hasSum(a) {
			zz.Fail("printing a sum in a math function is stable")
		}
		zz.Fail("printed text is printed unchanged")
	}
	zz.Reach("end")
}

// StableMap: printing with a source map is pure, too.
func StableMap(arg string) {
	text := zz.Input(arg)
	s := src(text)
	ss, err := parser.Parse(s)
	if err != nil {
		return
	}
	one, err1 := printer.Print(ss, printer.Options{OriginalSource: s})
	bare := print1(ss)
	two, err2 := printer.Print(ss, printer.Options{OriginalSource: s})
	fresh := print1(parse(text))
	if err1 != nil {
		zz.Emit(err1.Error())
		zz.Fail("printing succeeds: " + err1.Error())
	}
	zz.Assert(err1 == nil && err2 == nil, "printing succeeds")
	zz.Assert(zz.Same(ss, parse(text)), "printing leaves the sheet unchanged")
	zz.Assert(one == two, "printing twice gives the same text")
	zz.Assert(bare == fresh, "printing with a map does not change what is printed without one")
	zz.Assert(len(one) >= len(bare) && one[:len(bare)] == bare, "the map is added after the printed text")
	zz.Assert(s.Content == text && s.Path == "f.css", "the source is unchanged")
	zz.Reach("end")
}

type reports struct{ errs []error }

func (r *reports) AddError(err error) { r.errs = append(r.errs, err) }

var _ logging.Reporter = (*reports)(nil)

func allOn() transforms.Options {
	return transforms.Options{
		MediaFeatureRanges: transforms.MediaFeatureRangesTransform,
		AnyLink:            transforms.AnyLinkTransform,
		CustomProperties:   transforms.CustomPropertiesTransformRoot,
		CustomMediaQueries: transforms.CustomMediaQueriesTransform,
		CalcReduction:      transforms.CalcReductionReduce,
	}
}

// transform transforms a copy of the sheet of text with the options.
func transform(text string, o transforms.Options) (*ast.Stylesheet, *reports) {
	s := src(text)
	ss, err := parser.Parse(s)
	if err != nil {
		zz.Reach("rejected")
		return nil, nil
	}
	r := &reports{}
	return transformer.Transform(ss, transformer.Options{Options: o, OriginalSource: s, Reporter: r}), r
}

// StableTransform: the transformed output does not depend on the order in
// which maps happen to be iterated, and transforming leaves the input alone.
func StableTransform(arg string) {
	text := zz.Input(arg)
	s := src(text)
	ss, err := parser.Parse(s)
	if err != nil {
		return
	}
	before := print1(ss)
	r1, r2 := &reports{}, &reports{}
	one := print1(transformer.Transform(ss, transformer.Options{Options: allOn(), OriginalSource: s, Reporter: r1}))
	zz.Assert(print1(ss) == before, "transforming leaves the sheet it is given unchanged")
	zz.MapOrder(true)
	two := print1(transformer.Transform(ss, transformer.Options{Options: allOn(), OriginalSource: s, Reporter: r2}))
	zz.MapOrder(false)
	zz.Assert(one == two, "transforming twice gives the same text")
	zz.Assert(len(r1.errs) == len(r2.errs), "transforming twice reports the same")
	for i := range r1.errs {
		zz.Assert(r1.errs[i].Error() == r2.errs[i].Error(), "transforming twice reports the same")
	}
	zz.Reach("end")
}
