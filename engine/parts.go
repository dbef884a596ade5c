package main

import (
	"go/types"
	"sort"
)

// parts takes a value apart for the models of package fmt.
func (w *W) parts(a V) V {
	it, ok := a.p.(*Iface)
	if !ok {
		return V{p: Tuple{{}, {}, {}, {}}}
	}
	kind, names, vals, meth := 0, []V{}, []V{}, []V{}
	add := func(name string, t types.Type, v V, m bool) {
		names = append(names, mkStr(name))
		if _, ok := t.Underlying().(*types.Interface); !ok {
			v = V{p: &Iface{t: rtypeOf(t), v: cloneV(v)}}
		}
		vals = append(vals, v)
		meth = append(meth, fromB(m))
	}
	switch u := it.t.t.Underlying().(type) {
	case *types.Slice:
		kind = 1
		if s, ok := it.v.p.(*Slice); ok {
			for i := range s.a {
				add("", u.Elem(), w.load(&s.a[i], u.Elem()), true)
			}
		}
	case *types.Array:
		kind = 1
		s, ok := it.v.p.(*Agg)
		if !ok {
			s = zeroV(u).p.(*Agg)
		}
		for i := range s.f {
			add("", u.Elem(), s.f[i], true)
		}
	case *types.Struct:
		kind = 2
		s, ok := it.v.p.(*Agg)
		if !ok {
			z, ok := zeroV(u).p.(*Agg)
			if !ok {
				break
			}
			s = z
		}
		for i := range s.f {
			add(u.Field(i).Name(), u.Field(i).Type(), s.f[i], u.Field(i).Exported())
		}
	case *types.Map:
		kind = 3
		m, ok := it.v.p.(*MapObj)
		if !ok {
			break
		}
		if m.hasSy && m.n > 1 {
			w.unsupported("text of a map with symbolic keys")
		}
		var ents []mapEntry
		for _, e := range m.ents {
			if !e.dead {
				ents = append(ents, e)
			}
		}
		switch infoOf(u.Key()).k {
		case kString:
			sort.SliceStable(ents, func(i, j int) bool { return vstr(ents[i].k).s < vstr(ents[j].k).s })
		case kInt:
			sort.SliceStable(ents, func(i, j int) bool { return int64(ents[i].k.n) < int64(ents[j].k.n) })
		default:
			if m.n > 1 {
				w.unsupported("text of a map keyed by %s", u.Key())
			}
		}
		for _, e := range ents {
			add("", u.Key(), e.k, true)
			add("", u.Elem(), e.v, true)
		}
	case *types.Pointer:
		switch u.Elem().Underlying().(type) {
		case *types.Struct, *types.Array, *types.Slice, *types.Map:
			kind = 4
			if it.v.p != nil {
				add("", u.Elem(), w.load(w.ptr(it.v), u.Elem()), true)
			}
		}
	}
	sl := func(a []V) V {
		if len(a) == 0 {
			return V{}
		}
		return V{p: &Slice{a: a}}
	}
	return V{p: Tuple{{n: uint64(kind)}, sl(names), sl(vals), sl(meth)}}
}
