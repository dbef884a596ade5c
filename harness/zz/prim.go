// Package zz is the harness support library. Its primitives have two
// implementations: the symbolic engine interprets calls to them (see
// engine/intrinsics.go), and the bodies below run when a counterexample or a
// sampled path is replayed natively, where every input has a fixed value.
package zz

import (
	"fmt"
	"math"
	"os"
	"reflect"
	"strconv"
	"strings"
	"sync"
)

type failure struct{ Label string }

var (
	mu      sync.Mutex
	vals    = map[string]uint64{}
	names   = map[string]int{}
	fails   []string
	emitted []string
	root    string
	missing []string
)

// Begin prepares a native run.
func Begin(v map[string]uint64, dir string) {
	mu.Lock()
	defer mu.Unlock()
	vals, names, fails, emitted, root, missing = v, map[string]int{}, nil, nil, dir, nil
}

// Outcome returns what the native run observed.
func Outcome() (f, e, m []string) {
	mu.Lock()
	defer mu.Unlock()
	return fails, emitted, missing
}

// IsStop tells the runner's recover from a real panic.
func IsStop(e interface{}) bool {
	_, ok := e.(failure)
	return ok
}

func get(name string) uint64 {
	mu.Lock()
	defer mu.Unlock()
	n := names[name]
	names[name] = n + 1
	if n > 0 {
		name = fmt.Sprintf("%s#%d", name, n)
	}
	v, ok := vals[name]
	if !ok {
		missing = append(missing, name)
	}
	return v
}

// Byte is an arbitrary byte.
func Byte(name string) byte { return byte(get(name)) }

// ByteIn is an arbitrary byte of set.
func ByteIn(name, set string) byte { return byte(get(name)) }

// Bool is an arbitrary boolean.
func Bool(name string) bool { return get(name) != 0 }

// Int is an arbitrary integer in [lo, hi].
func Int(name string, lo, hi int) int { return int(get(name)) }

// Rune is an arbitrary 32-bit value.
func Rune(name string) rune { return rune(int32(get(name))) }

// Float is an arbitrary float64, including NaN and infinities.
func Float(name string) float64 { return math.Float64frombits(get(name)) }

// Same compares two values all the way down, as far as exported fields show;
// nil and empty slices and maps are the same.
func Same(a, b interface{}) bool {
	return sameValue(reflect.ValueOf(a), reflect.ValueOf(b), map[[2]uintptr]bool{})
}

func sameValue(a, b reflect.Value, seen map[[2]uintptr]bool) bool {
	if !a.IsValid() || !b.IsValid() {
		return a.IsValid() == b.IsValid()
	}
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() && b.IsNil()
		}
		k := [2]uintptr{a.Pointer(), b.Pointer()}
		if k[0] == k[1] || seen[k] {
			return true
		}
		seen[k] = true
		return sameValue(a.Elem(), b.Elem(), seen)
	case reflect.Interface:
		return sameValue(a.Elem(), b.Elem(), seen)
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !sameValue(a.Index(i), b.Index(i), seen) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if a.Type().Field(i).PkgPath == "" && !sameValue(a.Field(i), b.Field(i), seen) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			if v := b.MapIndex(k); !v.IsValid() || !sameValue(a.MapIndex(k), v, seen) {
				return false
			}
		}
		return true
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() == b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() == b.Uint()
	case reflect.Float32, reflect.Float64:
		return a.Float() == b.Float()
	case reflect.String:
		return a.String() == b.String()
	}
	return true
}

// Choice forks over 0..n-1.
func Choice(name string, n int) int { return int(get(name)) }

// Fork evaluates b and continues separately for both values.
func Fork(b bool) bool { return b }

// And is a && b without a branch.
func And(a, b bool) bool { return a && b }

// Assume restricts the inputs.
func Assume(b bool) {
	if !b {
		mu.Lock()
		missing = append(missing, "assumption does not hold")
		mu.Unlock()
		panic(failure{"assume"})
	}
}

// Assert states the property.
func Assert(b bool, label string) {
	if !b {
		mu.Lock()
		fails = append(fails, label)
		mu.Unlock()
		panic(failure{label})
	}
}

// Fail is Assert(false).
func Fail(label string) { Assert(false, label) }

// Reach marks a witness: some path got here.
func Reach(label string) {}

// Emit records an observation that a native replay must reproduce.
func Emit(s string) {
	mu.Lock()
	emitted = append(emitted, s)
	mu.Unlock()
}

// Stop ends the run.
func Stop() { panic(failure{"stop"}) }

// Symbolic is true inside the engine.
func Symbolic() bool { return false }

// Yield is a scheduling point.
func Yield() { yield() }

// Root is the directory virtual files live in.
func Root() string { return root }

// MapOrder makes map iteration order arbitrary.
func MapOrder(on bool) {}

// Schedules turns the exploration of schedules on and off; while it is off,
// goroutines run one after the other.
func Schedules(on bool) {}

func noteText(s string) {}

// Note names the text a counterexample is about.
func Note(s string) { noteText(s) }

// IsConcrete is whether the engine knows every byte of s.
func IsConcrete(s string) bool { return true }

// SameFloat is whether x and y are equal or both NaN.
func SameFloat(x, y float64) bool { return x == y || x != x && y != y }

// KnownBase64 decodes text that the engine saw being encoded; ok is false if
// it has to be decoded the usual way.
func KnownBase64(s string) (string, bool) { return "", false }

// FloatText is the shortest decimal text of f.
func FloatText(f float64) string { return strconv.FormatFloat(f, 'f', -1, 64) }

func asAssign(err error, target interface{}) bool { panic("engine only") }
func typeName(v interface{}) string               { panic("engine only") }
func kindOf(v interface{}) int                    { panic("engine only") }
func asInt(v interface{}) int                     { panic("engine only") }
func asString(v interface{}) string               { panic("engine only") }
func swap(x interface{}, i, j int)                { panic("engine only") }
func lenOf(x interface{}) int                     { panic("engine only") }

func asFloat(v interface{}) float64 { panic("engine only") }
func concreteFloat(f float64) bool  { panic("engine only") }

// parts takes a value apart for messages: kind 1 a list, 2 a struct, 3 a map
// (keys and values alternate), 4 a pointer to a list, struct or map, 0
// anything else. meth tells for which parts methods may be called.
func parts(x interface{}) (kind int, names []string, vals []interface{}, meth []bool) {
	panic("engine only")
}

func itoa(n int) string { return strconv.Itoa(n) }

// Input builds a string from a template in which □ is an arbitrary byte,
// ⟦abc⟧ is one byte of the set abc (x-y is a range, ^ first means all others,
// \\xHH and \\c are escapes), ⟦abc⟧×n is one to n bytes of the set, ⟪x¦y¦z⟫ is one of the alternatives,
// ⟪x¦y⟫×n one to n of them in a row; ×=n is exactly n.
func Input(tmpl string) string {
	var out []byte
	nb, nc := 0, 0
	for i := 0; i < len(tmpl); {
		switch {
		case has(tmpl, i, "□"):
			out = append(out, Byte("b"+itoa(nb)))
			nb++
			i += len("□")
		case has(tmpl, i, "⟦"):
			j := find(tmpl, i, "⟧")
			set := expand(tmpl[i+len("⟦") : j])
			i = j + len("⟧")
			n := 1
			if most, exact, next := times(tmpl, i); most > 0 {
				if n = most; !exact {
					n = 1 + Choice("c"+itoa(nc), most)
					nc++
				}
				i = next
			}
			for ; n > 0; n-- {
				out = append(out, ByteIn("b"+itoa(nb), set))
				nb++
			}
		case has(tmpl, i, "⟪"):
			j, depth := i, 0
			for ; ; j++ {
				if has(tmpl, j, "⟪") {
					depth++
				} else if has(tmpl, j, "⟫") {
					if depth--; depth == 0 {
						break
					}
				}
			}
			if most, exact, next := times(tmpl, j+len("⟫")); most > 0 {
				n := most
				if !exact {
					n = 1 + Choice("c"+itoa(nc), most)
					nc++
				}
				if body := tmpl[i+len("⟪") : j]; exact && !strings.Contains(body, "□") && !strings.Contains(body, "⟦") && !strings.Contains(body, "⟪") && !strings.Contains(body, "¦") {
					out = append(out, strings.Repeat(body, n)...)
					i = next
					continue
				}
				group, rest := tmpl[i:j+len("⟫")], tmpl[next:]
				tmpl = tmpl[:i]
				for ; n > 0; n-- {
					tmpl += group
				}
				tmpl += rest
				continue
			}
			var alts []string
			s := i + len("⟪")
			for k := s; k < j; {
				if has(tmpl, k, "⟪") {
					depth++
				} else if has(tmpl, k, "⟫") {
					depth--
				}
				if depth == 0 && has(tmpl, k, "¦") {
					alts = append(alts, tmpl[s:k])
					k += len("¦")
					s = k
				} else {
					k++
				}
			}
			alts = append(alts, tmpl[s:j])
			// alternatives may themselves hold holes
			c := Choice("c"+itoa(nc), len(alts))
			nc++
			i = j + len("⟫")
			tmpl = tmpl[:i] + alts[c] + tmpl[i:]
		default:
			out = append(out, tmpl[i])
			i++
		}
	}
	s := string(out)
	noteText(s)
	return s
}

// times reads ×n or ×=n at s[i:].
func times(s string, i int) (n int, exact bool, next int) {
	if !has(s, i, "×") {
		return 0, false, i
	}
	i += len("×")
	if exact = has(s, i, "="); exact {
		i++
	}
	for ; i < len(s) && s[i] >= '0' && s[i] <= '9'; i++ {
		n = n*10 + int(s[i]-'0')
	}
	return n, exact, i
}

func has(s string, i int, p string) bool { return len(s)-i >= len(p) && s[i:i+len(p)] == p }

func find(s string, i int, p string) int {
	for ; i < len(s); i++ {
		if has(s, i, p) {
			return i
		}
	}
	panic("bad template " + s)
}

func yield() {
	if os.Getenv("VSYM_JITTER") != "" {
		jitter()
	}
}

func expand(set string) string {
	var in [256]bool
	neg := len(set) > 1 && set[0] == '^'
	if neg {
		set = set[1:]
	}
	var cs []byte
	var lit []bool
	for i := 0; i < len(set); i++ {
		if set[i] != '\\' {
			cs, lit = append(cs, set[i]), append(lit, false)
			continue
		}
		i++
		if set[i] == 'x' {
			cs, lit = append(cs, unhex(set[i+1])<<4|unhex(set[i+2])), append(lit, true)
			i += 2
		} else {
			cs, lit = append(cs, set[i]), append(lit, true)
		}
	}
	for i := 0; i < len(cs); i++ {
		if i+2 < len(cs) && cs[i+1] == '-' && !lit[i+1] {
			for c := int(cs[i]); c <= int(cs[i+2]); c++ {
				in[c] = true
			}
			i += 2
			continue
		}
		in[cs[i]] = true
	}
	var out []byte
	for c := 0; c < 256; c++ {
		if in[c] != neg {
			out = append(out, byte(c))
		}
	}
	return string(out)
}

func unhex(c byte) byte {
	if c >= 'a' {
		return c - 'a' + 10
	}
	return c - '0'
}
