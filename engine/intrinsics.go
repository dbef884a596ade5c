package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"
	"unicode"
)

// modelNames maps functions to Go models in the harness support package,
// which are executed symbolically in their place.
var modelNames = map[string]string{
	"fmt.Sprintf":                         "Sprintf",
	"fmt.Errorf":                          "Errorf",
	"fmt.Sprint":                          "Sprint",
	"fmt.Sprintln":                        "Sprintln",
	"fmt.Fprintln":                        "Fprintln",
	"fmt.Fprintf":                         "Fprintf",
	"fmt.Fprint":                          "Fprint",
	"fmt.Println":                         "Println",
	"fmt.Printf":                          "Printf",
	"log.Println":                         "Println",
	"log.Printf":                          "Printf",
	"errors.Is":                           "ErrorsIs",
	"errors.As":                           "ErrorsAs",
	"errors.Unwrap":                       "ErrorsUnwrap",
	"github.com/samsarahq/go/oops.Wrapf":  "OopsWrapf",
	"github.com/samsarahq/go/oops.Errorf": "OopsErrorf",
	"os.Stat":                             "OsStat",
	"os.Lstat":                            "OsStat",
	"os.ReadFile":                         "OsReadFile",
	"io/ioutil.ReadFile":                  "OsReadFile",
	"os.Getwd":                            "OsGetwd",
	"os.Getenv":                           "OsGetenv",
	"path/filepath.EvalSymlinks":          "EvalSymlinks",
	"strings.ToLower":                     "ToLower",
	"strings.EqualFold":                   "EqualFold",
	"sort.Slice":                          "SortSlice",
	"sort.SliceStable":                    "SortSlice",
	"encoding/json.Marshal":               "JSONMarshal",
	"(*sync.WaitGroup).Go":                "WGGo",
	"strconv.Quote":                       "Quote",
	"runtime/pprof.WithLabels":            "PprofWithLabels",
	"runtime/pprof.SetGoroutineLabels":    "PprofSet",
	"runtime/pprof.Labels":                "PprofLabels",
	"runtime/debug.Stack":                 "Stack",
	"strings.Map":                         "StringsMap",
	"bytes.ToLower":                       "BytesToLower",
	"bytes.Map":                           "BytesMap",
	"internal/bytealg.Index":              "BytesIndex",
	"errors.Join":                         "ErrorsJoin",
	"context.WithValue":                   "CtxWithValue",
	"math.Max":                            "MathMax",
	"math.Min":                            "MathMin",
	"(*sync.Pool).Get":                    "PoolGet",
	"(*sync.Pool).Put":                    "PoolPut",
	"(*sync.Map).Load":                    "SMapLoad",
	"(*sync.Map).Store":                   "SMapStore",
	"(*sync.Map).LoadOrStore":             "SMapLoadOrStore",
	"(*sync.Map).LoadAndDelete":           "SMapLoadAndDelete",
	"(*sync.Map).Delete":                  "SMapDelete",
	"(*sync.Map).Swap":                    "SMapSwap",
	"(*sync.Map).CompareAndSwap":          "SMapCompareAndSwap",
	"(*sync.Map).Range":                   "SMapRange",
	"(*sync.Map).Clear":                   "SMapClear",
	"(*sync.Cond).Wait":                   "CondWait",
	"(*sync.Cond).Signal":                 "CondSignal",
	"(*sync.Cond).Broadcast":              "CondBroadcast",
	"(*sync/atomic.Value).Load":           "AValLoad",
	"(*sync/atomic.Value).Store":          "AValStore",
	"(*sync/atomic.Value).Swap":           "AValSwap",
	"(*sync/atomic.Value).CompareAndSwap": "AValCAS",
}

var syncPoints = map[string]bool{
	"(*sync.Mutex).Lock": true, "(*sync.Mutex).Unlock": true,
	"(*sync.RWMutex).Lock": true, "(*sync.RWMutex).Unlock": true,
	"(*sync.RWMutex).RLock": true, "(*sync.RWMutex).RUnlock": true,
	"(*sync.WaitGroup).Wait": true, "(*sync.WaitGroup).Done": true,
	"github.com/stephen/cssc/internal/zz.Yield": true,
}

var pureIntr = map[string]bool{
	"unicode.IsDigit": true, "unicode.IsSpace": true, "unicode.IsLetter": true, "unicode.IsUpper": true,
	"math.IsNaN": true, "math.IsInf": true, "math.Abs": true,
	"unicode/utf8.RuneLen": true,
}

var intrinsics map[string]func(w *W, a []V) V

func boolE(w *W, v V) *Expr { return toE(v, 0) }

func (w *W) cstr(v V, what string) string {
	s := vstr(v)
	if !s.conc() {
		w.unsupported("symbolic string in %s", what)
	}
	return s.s
}

func (w *W) newVar(name, kind string, width uint8) *Expr {
	n := w.names[name]
	w.names[name] = n + 1
	full := name
	if n > 0 {
		full = fmt.Sprintf("%s#%d", name, n)
	}
	e := mkVar(full, width)
	w.inputs = append(w.inputs, inputRec{name: full, kind: kind, e: e})
	return e
}

func (w *W) newConc(name, kind string, v uint64) {
	n := w.names[name]
	w.names[name] = n + 1
	full := name
	if n > 0 {
		full = fmt.Sprintf("%s#%d", name, n)
	}
	w.inputs = append(w.inputs, inputRec{name: full, kind: kind, n: v})
}

func inSet(e *Expr, set string) *Expr {
	r := exFalse
	var has [256]bool
	for i := 0; i < len(set); i++ {
		has[set[i]] = true
	}
	for i := 0; i < 256; {
		if !has[i] {
			i++
			continue
		}
		j := i
		for j+1 < 256 && has[j+1] {
			j++
		}
		if i == j {
			r = mkOr(r, mkEq(e, mkConst(8, uint64(i))))
		} else {
			r = mkOr(r, mkAnd(mkCmp(opUle, mkConst(8, uint64(i)), e), mkCmp(opUle, e, mkConst(8, uint64(j)))))
		}
		i = j + 1
	}
	return r
}

// unicode range tables as expressions, exact below U+0800 and by table above.
func runeTable(e *Expr, tab *unicode.RangeTable) *Expr {
	r := exFalse
	c := func(k uint64) *Expr { return mkConst(32, k) }
	add := func(lo, hi, stride uint64) {
		if stride == 1 || lo == hi {
			r = mkOr(r, mkAnd(mkCmp(opUle, c(lo), e), mkCmp(opUle, e, c(hi))))
			return
		}
		for k := lo; k <= hi; k += stride {
			r = mkOr(r, mkEq(e, c(k)))
		}
	}
	for _, x := range tab.R16 {
		add(uint64(x.Lo), uint64(x.Hi), uint64(x.Stride))
	}
	for _, x := range tab.R32 {
		add(uint64(x.Lo), uint64(x.Hi), uint64(x.Stride))
	}
	return r
}

var digitCache = map[uint64]*Expr{}

func cell(v V) *V { return v.p.(*V) }

func init() {
	const zz = zzPath + "."
	lockF := func(write bool) func(w *W, a []V) V {
		return func(w *W, a []V) V { return w.lock(w.ptr(a[0]), write) }
	}
	unlockF := func(write bool) func(w *W, a []V) V {
		return func(w *W, a []V) V { return w.unlock(w.ptr(a[0]), write) }
	}
	intrinsics = map[string]func(w *W, a []V) V{
		// ---- harness primitives ----
		zz + "Byte": func(w *W, a []V) V { return V{p: w.newVar(w.cstr(a[0], "zz.Byte"), "byte", 8)} },
		zz + "Bool": func(w *W, a []V) V { return V{p: w.newVar(w.cstr(a[0], "zz.Bool"), "bool", 0)} },
		zz + "Int": func(w *W, a []V) V {
			e := w.newVar(w.cstr(a[0], "zz.Int"), "int", 64)
			lo, hi := a[1].n, a[2].n
			w.assume(mkAnd(mkCmp(opSle, mkConst(64, lo), e), mkCmp(opSle, e, mkConst(64, hi))))
			return V{p: e}
		},
		zz + "Rune":  func(w *W, a []V) V { return V{p: w.newVar(w.cstr(a[0], "zz.Rune"), "int", 32)} },
		zz + "Float": func(w *W, a []V) V { return V{p: w.newVar(w.cstr(a[0], "zz.Float"), "float", fpW)} },
		zz + "Choice": func(w *W, a []V) V {
			n := int(a[1].n)
			if n <= 0 {
				w.end(endInfeasible, "empty choice")
			}
			k := w.choose(n)
			w.newConc(w.cstr(a[0], "zz.Choice"), "choice", uint64(k))
			return V{n: uint64(k)}
		},
		zz + "Fork": func(w *W, a []V) V { return fromB(w.branch(boolE(w, a[0]))) },
		zz + "Assume": func(w *W, a []V) V {
			w.assume(boolE(w, a[0]))
			return V{}
		},
		zz + "Assert": func(w *W, a []V) V {
			w.assert(boolE(w, a[0]), w.cstr(a[1], "zz.Assert"))
			return V{}
		},
		zz + "Reach": func(w *W, a []V) V {
			w.reached[w.cstr(a[0], "zz.Reach")] = true
			return V{}
		},
		zz + "Emit": func(w *W, a []V) V {
			w.emits = append(w.emits, a[0])
			return V{}
		},
		zz + "Stop":     func(w *W, a []V) V { w.end(endExit, "stop"); return V{} },
		zz + "Symbolic": func(w *W, a []V) V { return V{n: 1} },
		zz + "Yield":    func(w *W, a []V) V { return V{} },
		zz + "Root":     func(w *W, a []V) V { return mkStr("/w") },
		zz + "And":      func(w *W, a []V) V { return fromE(mkAnd(boolE(w, a[0]), boolE(w, a[1]))) },
		zz + "Schedules": func(w *W, a []V) V {
			w.schedOn = a[0].n != 0 && w.run.h.Sched > 0
			w.raceOn = a[0].n != 0 && w.run.h.Race
			return V{}
		},
		zz + "MapOrder": func(w *W, a []V) V {
			if a[0].n != 0 {
				w.native["maporder"] = true
			} else {
				delete(w.native, "maporder")
			}
			return V{}
		},
		zz + "ByteIn": func(w *W, a []V) V {
			e := w.newVar(w.cstr(a[0], "zz.ByteIn"), "byte", 8)
			w.assume(inSet(e, w.cstr(a[1], "zz.ByteIn")))
			return V{p: e}
		},
		zz + "noteText": func(w *W, a []V) V { w.native["template"] = vstr(a[0]); return V{} },
		zz + "IsConcrete": func(w *W, a []V) V {
			return fromB(vstr(a[0]).conc())
		},
		zz + "asAssign": func(w *W, a []V) V {
			// asAssign(err error, target any) bool
			t := a[1].p.(*Iface)
			pt := t.t.t.Underlying().(*types.Pointer).Elem()
			e := a[0].p.(*Iface)
			if it, ok := pt.Underlying().(*types.Interface); ok {
				if e.t.implements(it) {
					w.store(w.ptr(t.v), V{p: e})
					return V{n: 1}
				}
				return V{}
			}
			if types.Identical(e.t.t, pt) {
				w.store(w.ptr(t.v), e.v)
				return V{n: 1}
			}
			return V{}
		},
		zz + "typeName": func(w *W, a []V) V {
			it, ok := a[0].p.(*Iface)
			if !ok {
				return mkStr("<nil>")
			}
			return mkStr(types.TypeString(it.t.t, func(p *types.Package) string { return p.Name() }))
		},
		zz + "kindOf": func(w *W, a []V) V {
			it, ok := a[0].p.(*Iface)
			if !ok {
				return V{}
			}
			return V{n: uint64(infoOf(it.t.t).k) + 1}
		},
		zz + "asInt": func(w *W, a []V) V {
			it := a[0].p.(*Iface)
			ti := infoOf(it.t.t)
			if it.v.p == nil {
				if ti.signed {
					return V{n: uint64(sext(it.v.n, ti.w))}
				}
				return it.v
			}
			if ti.signed {
				return fromE(mkSExt(it.v.p.(*Expr), 64))
			}
			return fromE(mkZExt(it.v.p.(*Expr), 64))
		},
		zz + "asFloat":       func(w *W, a []V) V { return a[0].p.(*Iface).v },
		zz + "concreteFloat": func(w *W, a []V) V { return fromB(a[0].p == nil) },
		zz + "asString":      func(w *W, a []V) V { return a[0].p.(*Iface).v },
		zz + "swap": func(w *W, a []V) V {
			s := a[0].p.(*Iface).v
			if s.p == nil {
				return V{}
			}
			sl := s.p.(*Slice).a
			i, j := w.concInt(a[1]), w.concInt(a[2])
			x, y := cloneV(sl[i]), cloneV(sl[j])
			w.store(&sl[i], y)
			w.store(&sl[j], x)
			return V{}
		},
		zz + "lenOf": func(w *W, a []V) V {
			s := a[0].p.(*Iface).v
			if s.p == nil {
				return V{}
			}
			return V{n: uint64(len(s.p.(*Slice).a))}
		},
		zz + "parts": func(w *W, a []V) V { return w.parts(a[0]) },
		zz + "Same": func(w *W, a []V) V {
			x, okx := a[0].p.(*Iface)
			y, oky := a[1].p.(*Iface)
			if !okx || !oky || x.t != y.t {
				return fromB(okx == oky && !okx)
			}
			return fromE(w.sameV(x.t.t, x.v, y.v, map[[2]*V]bool{}))
		},
		zz + "FloatText": func(w *W, a []V) V {
			e, ok := a[0].p.(*Expr)
			if !ok {
				return mkStr(strconv.FormatFloat(math.Float64frombits(a[0].n), 'f', -1, 64))
			}
			return V{p: &Str{opq: &Opaque{e, -1}}}
		},

		// ---- byte and string primitives ----
		"internal/bytealg.IndexByteString": func(w *W, a []V) V { return w.indexByte(bytesFromStr(w.plain(a[0])), a[1]) },
		"internal/bytealg.IndexByte":       func(w *W, a []V) V { return w.indexByte(sliceOf(a[0]), a[1]) },
		"internal/bytealg.CountString":     func(w *W, a []V) V { return w.countByte(bytesFromStr(w.plain(a[0])), a[1]) },
		"internal/bytealg.Count":           func(w *W, a []V) V { return w.countByte(sliceOf(a[0]), a[1]) },
		"internal/bytealg.LastIndexByteString": func(w *W, a []V) V {
			s := bytesFromStr(w.plain(a[0]))
			for i := len(s) - 1; i >= 0; i-- {
				if w.branch(mkEq(toE(s[i], 8), toE(a[1], 8))) {
					return V{n: uint64(i)}
				}
			}
			return V{n: ^uint64(0)}
		},
		"internal/bytealg.MakeNoZero": func(w *W, a []V) V {
			n := w.concInt(a[0])
			if n == 0 {
				return V{}
			}
			return V{p: &Slice{a: make([]V, n)}}
		},
		"internal/stringslite.Clone":     func(w *W, a []V) V { return a[0] },
		"strings.Clone":                  func(w *W, a []V) V { return a[0] },
		"internal/stringslite.IndexByte": func(w *W, a []V) V { return w.indexByte(bytesFromStr(w.plain(a[0])), a[1]) },
		"strings.Index":                  func(w *W, a []V) V { return w.index(w.plain(a[0]), w.plain(a[1])) },
		"internal/stringslite.Index":     func(w *W, a []V) V { return w.index(w.plain(a[0]), w.plain(a[1])) },
		"strings.HasPrefix": func(w *W, a []V) V {
			if s, p := vstr(a[0]), vstr(a[1]); s.opq != nil && p.sym == nil && p.opq == nil && p.s == "+" {
				// FormatFloat writes it for +Inf only.
				return fromE(mkAnd(mkFUn(opFIsInf, s.opq.e, 0), mkFCmp(opFLt, mkConst(fpW, 0), s.opq.e)))
			}
			s, p := w.plain(a[0]), w.plain(a[1])
			if len(s.s) < len(p.s) {
				return V{}
			}
			return fromE(w.eqStr(vstr(s.slice(0, len(p.s))), p))
		},
		"strings.HasSuffix": func(w *W, a []V) V {
			s, p := w.plain(a[0]), w.plain(a[1])
			if len(s.s) < len(p.s) {
				return V{}
			}
			return fromE(w.eqStr(vstr(s.slice(len(s.s)-len(p.s), len(s.s))), p))
		},
		"strings.Count": func(w *W, a []V) V {
			s, p := w.plain(a[0]), w.plain(a[1])
			if len(p.s) != 1 {
				if s.conc() && p.conc() {
					return V{n: uint64(strings.Count(s.s, p.s))}
				}
				w.unsupported("strings.Count with %d-byte pattern", len(p.s))
			}
			return w.countByte(bytesFromStr(s), p.at(0))
		},
		"strings.Repeat": func(w *W, a []V) V {
			n := w.concInt(a[1])
			if n < 0 {
				panic(goPanicSig{V{p: &Iface{t: w.p.runtimeErr(), v: V{p: &Agg{f: []V{mkStr("strings: negative Repeat count")}}}}}})
			}
			s := w.plain(a[0])
			if n*len(s.s) > 1<<20 {
				w.end(endHang, "strings.Repeat of %d bytes", n*len(s.s))
			}
			r := emptyStr
			if s.conc() {
				return mkStr(strings.Repeat(s.s, n))
			}
			for i := 0; i < n; i++ {
				r = catStr(r, s)
			}
			return V{p: r}
		},
		"strings.ReplaceAll": func(w *W, a []V) V { return w.replace(w.plain(a[0]), w.plain(a[1]), w.plain(a[2]), -1) },
		"strings.Replace": func(w *W, a []V) V {
			return w.replace(w.plain(a[0]), w.plain(a[1]), w.plain(a[2]), w.concInt(a[3]))
		},
		"strings.Join": func(w *W, a []V) V {
			r := emptyStr
			sep := w.plain(a[1])
			for i, x := range sliceOf(a[0]) {
				if i > 0 {
					r = catStr(r, sep)
				}
				r = catStr(r, w.plain(x))
			}
			return V{p: r}
		},
		"unicode/utf8.DecodeRuneInString": func(w *W, a []V) V {
			r, n := w.decodeRune(w.plain(a[0]), 0)
			return V{p: Tuple{r, V{n: uint64(n)}}}
		},
		"unicode/utf8.DecodeRune": func(w *W, a []V) V {
			r, n := w.decodeRune(vstr(strFromBytes(sliceOf(a[0]))), 0)
			return V{p: Tuple{r, V{n: uint64(n)}}}
		},
		"unicode/utf8.RuneCountInString": func(w *W, a []V) V {
			s := w.plain(a[0])
			n := 0
			for i := 0; i < len(s.s); n++ {
				_, k := w.decodeRune(s, i)
				i += k
			}
			return V{n: uint64(n)}
		},
		"unicode/utf8.AppendRune": func(w *W, a []V) V {
			return V{p: &Slice{append(append([]V(nil), sliceOf(a[0])...), w.encodeRune(a[1], 32)...)}}
		},
		"unicode.IsDigit": func(w *W, a []V) V {
			if a[0].p == nil {
				return fromB(unicode.IsDigit(rune(int32(a[0].n))))
			}
			return fromE(w.unicodeE(a[0].p.(*Expr), "digit", unicode.Digit))
		},
		"unicode.IsSpace": func(w *W, a []V) V {
			if a[0].p == nil {
				return fromB(unicode.IsSpace(rune(int32(a[0].n))))
			}
			return fromE(w.unicodeE(a[0].p.(*Expr), "space", unicode.White_Space))
		},
		"unicode.IsLetter": func(w *W, a []V) V {
			if a[0].p == nil {
				return fromB(unicode.IsLetter(rune(int32(a[0].n))))
			}
			return fromE(w.unicodeE(a[0].p.(*Expr), "letter", unicode.Letter))
		},
		"unicode.IsUpper": func(w *W, a []V) V {
			if a[0].p == nil {
				return fromB(unicode.IsUpper(rune(int32(a[0].n))))
			}
			return fromE(w.unicodeE(a[0].p.(*Expr), "upper", unicode.Upper))
		},

		// ---- strings.Builder and bytes.Buffer (content kept as a string) ----
		"(*strings.Builder).WriteString": func(w *W, a []V) V {
			n := w.bufAdd(a[0], 1, w.plain(a[1]))
			return V{p: Tuple{V{n: uint64(n)}, V{}}}
		},
		"(*strings.Builder).Write": func(w *W, a []V) V {
			n := w.bufAdd(a[0], 1, vstr(strFromBytes(sliceOf(a[1]))))
			return V{p: Tuple{V{n: uint64(n)}, V{}}}
		},
		"(*strings.Builder).WriteByte": func(w *W, a []V) V {
			w.bufAdd(a[0], 1, vstr(strFromBytes(a[1:2])))
			return V{}
		},
		"(*strings.Builder).WriteRune": func(w *W, a []V) V {
			n := w.bufAdd(a[0], 1, vstr(strFromBytes(w.encodeRune(a[1], 32))))
			return V{p: Tuple{V{n: uint64(n)}, V{}}}
		},
		"(*strings.Builder).String": func(w *W, a []V) V { return *w.bufCell(a[0], 1) },
		"(*strings.Builder).Len":    func(w *W, a []V) V { return V{n: uint64(len(vstr(w.load(w.bufCell(a[0], 1), nil)).s))} },
		"(*strings.Builder).Grow":   func(w *W, a []V) V { return V{} },
		"(*strings.Builder).Reset": func(w *W, a []V) V {
			w.store(w.bufCell(a[0], 1), V{})
			return V{}
		},

		// ---- sync ----
		"(*sync.Mutex).Lock":      lockF(true),
		"(*sync.Mutex).Unlock":    unlockF(true),
		"(*sync.RWMutex).Lock":    lockF(true),
		"(*sync.RWMutex).Unlock":  unlockF(true),
		"(*sync.RWMutex).RLock":   lockF(false),
		"(*sync.RWMutex).RUnlock": unlockF(false),
		"(*sync.Mutex).TryLock": func(w *W, a []V) V {
			s := w.ss(w.ptr(a[0]))
			if s.locked {
				return V{}
			}
			s.locked = true
			w.acquire(s.vc)
			return V{n: 1}
		},
		"(*sync.WaitGroup).Add":  func(w *W, a []V) V { return w.wgAdd(w.ptr(a[0]), int64(w.concInt(a[1]))) },
		"(*sync.WaitGroup).Done": func(w *W, a []V) V { return w.wgAdd(w.ptr(a[0]), -1) },
		"(*sync.WaitGroup).Wait": func(w *W, a []V) V { return w.wgWait(w.ptr(a[0])) },
		"runtime.Gosched":        func(w *W, a []V) V { return V{} },
		"runtime.KeepAlive":      func(w *W, a []V) V { return V{} },
		"runtime.GC":             func(w *W, a []V) V { return V{} },
		"time.Sleep":             func(w *W, a []V) V { return V{} },

		// ---- numbers ----
		"math.Float64bits": func(w *W, a []V) V {
			if a[0].p != nil {
				w.unsupported("Float64bits of a symbolic number")
			}
			return a[0]
		},
		"math.Float64frombits": func(w *W, a []V) V { return a[0] },
		"math.Abs": func(w *W, a []V) V {
			e := toE(a[0], fpW)
			if isC(e) {
				return V{n: f2b(math.Abs(b2f(e.k)))}
			}
			return fromE(mkIte(mkFCmp(opFLt, e, mkConst(fpW, 0)), mkFUn(opFNeg, e, fpW), e))
		},
		"math.IsNaN": func(w *W, a []V) V { return fromE(mkFUn(opFIsNaN, toE(a[0], fpW), 0)) },
		"math.IsInf": func(w *W, a []V) V {
			e := toE(a[0], fpW)
			s := int64(a[1].n)
			inf := mkFUn(opFIsInf, e, 0)
			if s > 0 {
				return fromE(mkAnd(inf, mkFCmp(opFLt, mkConst(fpW, 0), e)))
			}
			if s < 0 {
				return fromE(mkAnd(inf, mkFCmp(opFLt, e, mkConst(fpW, 0))))
			}
			return fromE(inf)
		},
		"math.Inf": func(w *W, a []V) V {
			return V{n: f2b(math.Inf(int(int64(a[0].n))))}
		},
		"math.NaN":   func(w *W, a []V) V { return V{n: f2b(math.NaN())} },
		"math.Floor": rounding(opFFloor), "math.Ceil": rounding(opFCeil), "math.Trunc": rounding(opFTrunc),
		"math.Round": rounding(opFRound), "math.RoundToEven": rounding(opFRoundEven),
		"strconv.ParseFloat": func(w *W, a []V) V {
			s := vstr(a[0])
			if s.opq != nil {
				if p := s.opq.prec; p != -1 {
					if p > 15 {
						f, err := strconv.ParseFloat(w.concStr(s), int(a[1].n))
						return V{p: Tuple{V{n: f2b(f)}, w.goErr(err)}}
					}
					// The nearest decimal; a counterexample that is off by the
					// rounding of the product is not confirmed by its replay.
					unit := mkConst(fpW, f2b(math.Pow10(p)))
					e := mkFBin(opFDiv, mkFUn(opFRoundEven, mkFBin(opFMul, s.opq.e, unit), fpW), unit)
					return V{p: Tuple{V{p: e}, V{}}}
				}
				return V{p: Tuple{V{p: s.opq.e}, V{}}}
			}
			txt := w.concStr(s)
			f, err := strconv.ParseFloat(txt, int(a[1].n))
			return V{p: Tuple{V{n: f2b(f)}, w.goErr(err)}}
		},
		"strconv.FormatFloat": func(w *W, a []V) V {
			if e, ok := a[0].p.(*Expr); ok {
				if byte(a[1].n) != 'f' {
					w.unsupported("FormatFloat %c of a symbolic number", byte(a[1].n))
				}
				return V{p: &Str{opq: &Opaque{e, int(int64(a[2].n))}}}
			}
			return mkStr(strconv.FormatFloat(b2f(a[0].n), byte(a[1].n), int(int64(a[2].n)), int(int64(a[3].n))))
		},
		"strconv.Itoa":      func(w *W, a []V) V { return mkStr(strconv.Itoa(w.concInt(a[0]))) },
		"strconv.FormatInt": func(w *W, a []V) V { return mkStr(strconv.FormatInt(int64(w.concInt(a[0])), int(a[1].n))) },
		"strconv.Atoi": func(w *W, a []V) V {
			s := w.concStr(vstr(a[0]))
			n, err := strconv.Atoi(s)
			return V{p: Tuple{V{n: uint64(n)}, w.goErr(err)}}
		},
		"strconv.ParseInt": func(w *W, a []V) V {
			s := w.concStr(vstr(a[0]))
			n, err := strconv.ParseInt(s, int(a[1].n), int(a[2].n))
			return V{p: Tuple{V{n: uint64(n)}, w.goErr(err)}}
		},

		// ---- reflection used for messages ----
		"reflect.TypeOf": func(w *W, a []V) V {
			rt := w.p.pkgs[zzPath].Type("RType").Type()
			name := "<nil>"
			if it, ok := a[0].p.(*Iface); ok {
				name = types.TypeString(it.t.t, func(p *types.Package) string { return p.Name() })
			} else {
				return V{}
			}
			c := new(V)
			*c = V{p: &Agg{f: []V{mkStr(name), {}}}}
			return V{p: &Iface{t: rtypeOf(types.NewPointer(rt)), v: V{p: c}}}
		},

		// ---- encodings ----
		"(*encoding/base64.Encoding).EncodeToString": func(w *W, a []V) V {
			b := sliceOf(a[1])
			enc := w.ptr(a[0]).p.(*Agg)
			var alpha [64]byte
			for i, v := range enc.f[0].p.(*Agg).f {
				alpha[i] = byte(v.n)
			}
			pad := rune(int32(enc.f[2].n))
			for i := range b {
				if b[i].p != nil {
					return w.symBase64(b, string(alpha[:]), pad)
				}
			}
			return mkStr(base64.NewEncoding(string(alpha[:])).WithPadding(pad).EncodeToString(concBytes(b)))
		},
		zz + "SameFloat": func(w *W, a []V) V {
			x, y := toE(a[0], fpW), toE(a[1], fpW)
			if same(x, y) {
				return V{n: 1}
			}
			return fromE(mkOr(mkFCmp(opFEq, x, y), mkAnd(mkFUn(opFIsNaN, x, 0), mkFUn(opFIsNaN, y, 0))))
		},
		zz + "KnownBase64": func(w *W, a []V) V {
			s := vstr(a[0])
			none := V{p: Tuple{mkStr(""), V{}}}
			if s.opq != nil || len(s.s)%4 != 0 {
				return none
			}
			cs := bytesFromStr(s)
			var out []V
			for i := 0; i < len(cs); i += 4 {
				conc := true
				var k [4]V
				for j := range k {
					k[j] = cs[i+j]
					conc = conc && k[j].p == nil
				}
				if conc {
					d, err := base64.StdEncoding.DecodeString(s.s[i : i+4])
					if err != nil || len(d) < 3 && i+4 < len(cs) {
						return none
					}
					for _, c := range d {
						out = append(out, V{n: uint64(c)})
					}
					continue
				}
				g, ok := w.b64rec[b64key(k)]
				if !ok {
					return none
				}
				out = append(out, g...)
			}
			return V{p: Tuple{strFromBytes(out), V{n: 1}}}
		},
		"encoding/json.Unmarshal": func(w *W, a []V) V {
			b := sliceOf(a[0])
			for i := range b {
				if b[i].p != nil {
					w.unsupported("json.Unmarshal of symbolic bytes")
				}
			}
			t := a[1].p.(*Iface)
			pt := t.t.t.Underlying().(*types.Pointer).Elem()
			if err := w.jsonInto(concBytes(b), w.ptr(t.v), pt); err != nil {
				return w.goErr(err)
			}
			return V{}
		},

		// ---- environment ----
		"runtime.Callers":    func(w *W, a []V) V { return V{} },
		"runtime.Caller":     func(w *W, a []V) V { return V{p: Tuple{V{}, V{}, V{}, V{}}} },
		"os.runtime_args":    func(w *W, a []V) V { return V{} },
		"runtime.NumCPU":     func(w *W, a []V) V { return V{n: 4} },
		"runtime.GOMAXPROCS": func(w *W, a []V) V { return V{n: 4} },
	}
	for _, t := range []struct {
		n string
		w uint8
	}{{"Int32", 32}, {"Int64", 64}, {"Uint32", 32}, {"Uint64", 64}, {"Uintptr", 64}, {"Pointer", 64}} {
		wd := t.w
		for _, op := range []string{"Load", "Store", "Add", "CompareAndSwap", "Swap"} {
			syncPoints["sync/atomic."+op+t.n] = true
		}
		intrinsics["sync/atomic.Load"+t.n] = func(w *W, a []V) V {
			c := w.ptr(a[0])
			w.acquire(w.ss(c).vc)
			return *c
		}
		intrinsics["sync/atomic.Store"+t.n] = func(w *W, a []V) V {
			c := w.ptr(a[0])
			w.rawStore(c, a[1])
			w.release(&w.ss(c).vc)
			return V{}
		}
		intrinsics["sync/atomic.Add"+t.n] = func(w *W, a []V) V {
			c := w.ptr(a[0])
			w.acquire(w.ss(c).vc)
			r := fromE(mkBin(opAdd, toE(*c, wd), toE(a[1], wd)))
			w.rawStore(c, r)
			w.release(&w.ss(c).vc)
			return r
		}
		intrinsics["sync/atomic.CompareAndSwap"+t.n] = func(w *W, a []V) V {
			c := w.ptr(a[0])
			w.acquire(w.ss(c).vc)
			if c.p != a[1].p || c.n != a[1].n {
				return V{}
			}
			w.rawStore(c, a[2])
			w.release(&w.ss(c).vc)
			return V{n: 1}
		}
		intrinsics["sync/atomic.Swap"+t.n] = func(w *W, a []V) V {
			c := w.ptr(a[0])
			w.acquire(w.ss(c).vc)
			o := *c
			w.rawStore(c, a[1])
			w.release(&w.ss(c).vc)
			return o
		}
	}
	for k, v := range modelNames {
		if v == "" {
			delete(modelNames, k)
		}
	}
}

func rounding(op Op) func(w *W, a []V) V {
	return func(w *W, a []V) V { return fromE(mkFUn(op, toE(a[0], fpW), fpW)) }
}

func (w *W) rawStore(c *V, v V) {
	if w.journOn {
		w.journal = append(w.journal, jent{c, *c})
	}
	*c = v
}

func sliceOf(v V) []V {
	if v.p == nil {
		return nil
	}
	return v.p.(*Slice).a
}

func concBytes(b []V) []byte {
	r := make([]byte, len(b))
	for i := range b {
		r[i] = byte(b[i].n)
	}
	return r
}

func (w *W) plain(v V) *Str {
	s := vstr(v)
	if s.opq != nil {
		return w.materialize(s)
	}
	return s
}

// materialize fixes the value of an opaque number text.
func (w *W) materialize(s *Str) *Str {
	v := w.concretize(s.opq.e)
	return vstr(mkStr(strconv.FormatFloat(b2f(v), 'f', s.opq.prec, 64)))
}

func (w *W) concStr(s *Str) string {
	if s.opq != nil {
		s = w.materialize(s)
	}
	if s.sym == nil {
		return s.s
	}
	b := []byte(s.s)
	for i, e := range s.sym {
		if e != nil {
			b[i] = byte(w.concretize(e))
		}
	}
	return string(b)
}

func (w *W) goErr(err error) V {
	if err == nil {
		return V{}
	}
	rt := w.p.pkgs[zzPath].Type("Err").Type()
	c := new(V)
	*c = V{p: &Agg{f: []V{mkStr(err.Error())}}}
	return V{p: &Iface{t: rtypeOf(types.NewPointer(rt)), v: V{p: c}}}
}

func (w *W) indexByte(b []V, c V) V {
	ce := toE(c, 8)
	for i := range b {
		if w.branch(mkEq(toE(b[i], 8), ce)) {
			return V{n: uint64(i)}
		}
	}
	return V{n: ^uint64(0)}
}

func (w *W) countByte(b []V, c V) V {
	n := uint64(0)
	ce := toE(c, 8)
	for i := range b {
		if w.branch(mkEq(toE(b[i], 8), ce)) {
			n++
		}
	}
	return V{n: n}
}

func (w *W) index(s, p *Str) V {
	for i := 0; i+len(p.s) <= len(s.s); i++ {
		if w.branch(w.eqStr(vstr(s.slice(i, i+len(p.s))), p)) {
			return V{n: uint64(i)}
		}
	}
	return V{n: ^uint64(0)}
}

func (w *W) replace(s, old, nw *Str, n int) V {
	if len(old.s) == 0 {
		w.unsupported("Replace of an empty string")
	}
	r := emptyStr
	for i := 0; i < len(s.s); {
		if n != 0 && i+len(old.s) <= len(s.s) && w.branch(w.eqStr(vstr(s.slice(i, i+len(old.s))), old)) {
			r = catStr(r, nw)
			i += len(old.s)
			n--
			continue
		}
		r = catStr(r, vstr(s.slice(i, i+1)))
		i++
	}
	return V{p: r}
}

func (w *W) bufCell(v V, field int) *V {
	c := w.ptr(v)
	return &c.p.(*Agg).f[field]
}

func (w *W) bufAdd(v V, field int, s *Str) int {
	c := w.bufCell(v, field)
	if w.raceOn && w.multi {
		w.raceRead(c)
	}
	old := vstr(*c)
	if len(old.s)+len(s.s) > 1<<22 {
		w.end(endHang, "buffer over %d bytes", 1<<22)
	}
	r := catStr(old, s)
	if len(r.s) == 0 {
		return 0
	}
	w.store(c, V{p: r})
	return len(s.s)
}

var uniMemo = map[string]*Expr{}

func (w *W) unicodeE(e *Expr, name string, tab *unicode.RangeTable) *Expr {
	// When the rune is known to be one byte the table is small.
	if e.op == opZExt && e.a.w == 8 {
		set := ""
		b := e.a
		var sb []byte
		for i := 0; i < 256; i++ {
			if unicode.Is(tab, rune(i)) {
				sb = append(sb, byte(i))
			}
		}
		set = string(sb)
		return inSet(b, set)
	}
	return runeTable(e, tab)
}

const b64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"

// b64key identifies four encoded characters.
func b64key(k [4]V) string {
	var b []byte
	for _, v := range k {
		if e, ok := v.p.(*Expr); ok {
			b = append(b, fmt.Sprintf("%p,", e)...)
		} else {
			b = append(b, fmt.Sprintf("%d,", v.n)...)
		}
	}
	return string(b)
}

func (w *W) symBase64(b []V, alpha string, pad rune) V {
	var tab []V
	for i := range alpha {
		tab = append(tab, V{n: uint64(alpha[i])})
	}
	enc := func(e *Expr) V {
		r, _ := w.pick(tab, e, 8)
		return r
	}
	if w.b64rec == nil {
		w.b64rec = map[string][]V{}
	}
	var out []V
	sh := func(e *Expr, op Op, k uint64) *Expr { return mkBin(op, e, mkConst(8, k)) }
	for i := 0; i < len(b); i += 3 {
		x := toE(b[i], 8)
		y, z := mkConst(8, 0), mkConst(8, 0)
		n := 1
		if i+1 < len(b) {
			y = toE(b[i+1], 8)
			n = 2
		}
		if i+2 < len(b) {
			z = toE(b[i+2], 8)
			n = 3
		}
		g := []V{
			enc(sh(x, opLShr, 2)),
			enc(mkBin(opBOr, sh(sh(x, opBAnd, 3), opShl, 4), sh(y, opLShr, 4))),
			{n: uint64(pad)}, {n: uint64(pad)},
		}
		if n > 1 {
			g[2] = enc(mkBin(opBOr, sh(sh(y, opBAnd, 15), opShl, 2), sh(z, opLShr, 6)))
		}
		if n > 2 {
			g[3] = enc(sh(z, opBAnd, 63))
		}
		if alpha == b64 && pad == '=' {
			w.b64rec[b64key([4]V{g[0], g[1], g[2], g[3]})] = b[i : i+n : i+n]
		}
		for j, c := range g {
			if j <= n || pad >= 0 {
				out = append(out, c)
			}
		}
	}
	return strFromBytes(out)
}

// jsonInto decodes concrete JSON into a struct of strings or a map, which is
// what the code under test uses.
func (w *W) jsonInto(b []byte, c *V, t types.Type) error {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		w.unsupported("json.Unmarshal into %s", t)
	}
	dec := json.NewDecoder(bytes.NewReader(b))
	var m map[string]json.RawMessage
	if err := json.Unmarshal(b, &m); err != nil {
		var any interface{}
		if e2 := json.Unmarshal(b, &any); e2 == nil && any == nil {
			return nil
		}
		return err
	}
	_ = dec
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		name := f.Name()
		tag := parseTag(st.Tag(i))
		if tag == "-" {
			continue
		}
		if tag != "" {
			name = tag
		}
		for k, raw := range m {
			if !strings.EqualFold(k, name) {
				continue
			}
			switch infoOf(f.Type()).k {
			case kString:
				var s *string
				if err := json.Unmarshal(raw, &s); err != nil {
					return err
				}
				if s != nil {
					w.store(&c.p.(*Agg).f[i], mkStr(*s))
				}
			case kStruct:
				if err := w.jsonInto(raw, &c.p.(*Agg).f[i], f.Type()); err != nil {
					return err
				}
			default:
				w.unsupported("json field of type %s", f.Type())
			}
		}
	}
	return nil
}

func parseTag(t string) string {
	i := strings.Index(t, `json:"`)
	if i < 0 {
		return ""
	}
	t = t[i+6:]
	j := strings.IndexByte(t, '"')
	if j < 0 {
		return ""
	}
	t = t[:j]
	if k := strings.IndexByte(t, ','); k >= 0 {
		t = t[:k]
	}
	return t
}
