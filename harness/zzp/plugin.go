// Package zzp runs the esbuild plugin.
package zzp

import (
	"github.com/evanw/esbuild/pkg/api"
	"github.com/stephen/cssc/esbuildplugin"
	"github.com/stephen/cssc/internal/zz"
	"github.com/stephen/cssc/internal/zzv"
	"github.com/stephen/cssc/transforms"
)

func messages(ms []api.Message) []zzv.Message {
	var out []zzv.Message
	for _, m := range ms {
		x := zzv.Message{Text: m.Text}
		if l := m.Location; l != nil {
			x.Located = true
			x.File, x.Line, x.Column, x.Length, x.LineText = l.File, l.Line, l.Column, l.Length, l.LineText
		}
		out = append(out, x)
	}
	return out
}

// build is the part of esbuild that a plugin registers with.
type build struct {
	api.PluginBuild
	f func(f func(args api.OnLoadArgs) (api.OnLoadResult, error))
}

func (b build) OnLoad(options api.OnLoadOptions, f func(args api.OnLoadArgs) (api.OnLoadResult, error)) {
	b.f(f)
}

// Load: the result of loading a file through the plugin.
func Load(arg string) {
	zzv.Loading(arg, func(path string, o transforms.Options, r zzv.Resolver) zzv.Loaded {
		var opts []esbuildplugin.Option
		if o != (transforms.Options{}) {
			// The last option counts.
			opts = append(opts, esbuildplugin.WithTransforms(transforms.Options{}), esbuildplugin.WithTransforms(o))
		}
		if r != nil {
			opts = append(opts, esbuildplugin.WithResolver(nil), esbuildplugin.WithResolver(r))
		}
		var load func(args api.OnLoadArgs) (api.OnLoadResult, error)
		esbuildplugin.Plugin(opts...).Setup(build{f: func(f func(args api.OnLoadArgs) (api.OnLoadResult, error)) { load = f }})
		first, err1 := load(api.OnLoadArgs{Path: path})
		res, err := load(api.OnLoadArgs{Path: path})
		same := len(first.Errors) == len(res.Errors) && len(first.Warnings) == len(res.Warnings) && (err1 == nil) == (err == nil) &&
			(first.Contents == nil) == (res.Contents == nil) && (res.Contents == nil || *first.Contents == *res.Contents)
		zz.Assert(same, "loading a file again gives the same")
		return zzv.Loaded{
			Errors:   messages(res.Errors),
			Warnings: messages(res.Warnings),
			Contents: res.Contents,
			CSS:      res.Loader == api.LoaderCSS,
			Err:      err,
		}
	})
}
