// Package verifsym is the harness API. The symbolic executor intercepts these
// functions; this file is the native meaning used when a solver model is
// replayed on the compiled code.
package verifsym

import (
	"fmt"
	"math/big"
	"reflect"
	"strings"
)

type Stop struct{ Kind, Label string } // Kind: "assume" or "assert"

var (
	Inputs   map[string]string
	counts   map[string]int
	Obs      []string
	Reached  map[string]bool
	thorough bool
)

func Reset(in map[string]string, th bool) {
	Inputs = in
	counts = map[string]int{}
	Obs = nil
	Reached = map[string]bool{}
	thorough = th
}

func name(s string) string {
	n := counts[s]
	counts[s] = n + 1
	if n > 0 {
		return fmt.Sprintf("%s#%d", s, n)
	}
	return s
}

func get(n string) *big.Int {
	if v, ok := Inputs[n]; ok {
		x, ok := new(big.Int).SetString(v, 10)
		if ok {
			return x
		}
	}
	return new(big.Int)
}

func U64(s string) uint64  { return get(name(s)).Uint64() }
func U32(s string) uint32  { return uint32(get(name(s)).Uint64()) }
func U16(s string) uint16  { return uint16(get(name(s)).Uint64()) }
func U8(s string) uint8    { return uint8(get(name(s)).Uint64()) }
func I64(s string) int64   { return get(name(s)).Int64() }
func Bool(s string) bool   { return get(name(s)).Sign() != 0 }
func BV64(s string) uint64 { return get(name(s)).Uint64() }
func BV32(s string) uint32 { return uint32(get(name(s)).Uint64()) }
func BV8(s string) uint8   { return uint8(get(name(s)).Uint64()) }
func U64r(s string, lo, hi uint64) uint64 {
	n := name(s)
	if _, ok := Inputs[n]; !ok {
		return lo
	}
	return get(n).Uint64()
}
func Int(s string, lo, hi int) int {
	n := name(s)
	if _, ok := Inputs[n]; !ok {
		return lo
	}
	return int(get(n).Int64())
}
func Bytes(s string, n int) []byte {
	nm := name(s)
	r := make([]byte, n)
	for i := range r {
		r[i] = byte(get(fmt.Sprintf("%s[%d]", nm, i)).Uint64())
	}
	return r
}
func BVBytes(s string, n int) []byte { return Bytes(s, n) }
func WideBytes(s string, n int) []byte {
	r := make([]byte, n)
	b := get(name(s)).Bytes()
	if len(b) > n {
		b = b[len(b)-n:]
	}
	copy(r[n-len(b):], b)
	return r
}
func Big(s string, lo, hi *big.Int) *big.Int {
	n := name(s)
	if _, ok := Inputs[n]; !ok {
		return new(big.Int).Set(lo)
	}
	return get(n)
}
func Choose(s string, n int) int  { return int(get(name(s)).Int64()) }
func Concrete(x int) int          { return x }
func ConcreteU64(x uint64) uint64 { return x }
func Bound(name string, quick, th int) int {
	if thorough {
		return th
	}
	return quick
}
func Assume(b bool) {
	if !b {
		panic(Stop{"assume", ""})
	}
}
func Assert(b bool, label string) {
	if !b {
		panic(Stop{"assert", label})
	}
}
func Reach(label string)   { Reached[label] = true }
func ExploreSchedules(int) {}
func MapOrders(bool)       {}
func OpaqueTxHash()         {}
func Feeds()                {}
func Symbolic() bool       { return false }
func Ite64(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}
func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Iff(a, b bool) bool     { return a == b }
func Implies(a, b bool) bool { return !a || b }

func Observe(label string, v interface{}) { Obs = append(Obs, label+"="+str(reflect.ValueOf(v))) }

var errT = reflect.TypeOf((*error)(nil)).Elem()

func str(v reflect.Value) string {
	if !v.IsValid() {
		return "nil"
	}
	if v.Type() == reflect.TypeOf((*big.Int)(nil)) {
		if v.IsNil() {
			return "nil"
		}
		return v.Interface().(*big.Int).String()
	}
	if v.Kind() == reflect.Interface {
		if v.IsNil() {
			return "nil"
		}
		return str(v.Elem())
	}
	if v.Type().Implements(errT) {
		if v.Kind() == reflect.Ptr && v.IsNil() {
			return "nil"
		}
		return "err"
	}
	switch v.Kind() {
	case reflect.Bool:
		return fmt.Sprint(v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprint(v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return fmt.Sprint(v.Uint())
	case reflect.Float32, reflect.Float64:
		return fmt.Sprint(v.Float())
	case reflect.String:
		return fmt.Sprintf("0x%x", v.String())
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.Len() == 0 {
			return "[]"
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			var sb strings.Builder
			sb.WriteString("0x")
			for i := 0; i < v.Len(); i++ {
				fmt.Fprintf(&sb, "%02x", v.Index(i).Uint())
			}
			return sb.String()
		}
		var ps []string
		for i := 0; i < v.Len(); i++ {
			ps = append(ps, str(v.Index(i)))
		}
		return "[" + strings.Join(ps, " ") + "]"
	case reflect.Ptr:
		if v.IsNil() {
			return "nil"
		}
		return "ptr"
	}
	return "?"
}

// Panics reports whether f panics (interpreted by the executor as ordinary Go).
func Panics(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(Stop); ok {
				panic(s)
			}
			p = true
		}
	}()
	f()
	return false
}
