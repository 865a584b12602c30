package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Value is the interpreter's universal value. Scalars live in n (or in p as a
// *Term when symbolic); everything else is in p.
type Value struct {
	n uint64
	p any
}

type Agg struct{ f []Value }     // struct or array storage
type SliceV struct{ f []Value }  // slice header (aliases storage)
type SymStr struct{ b []Value }  // string with at least one symbolic byte
type Tuple []Value               // multi-value result
type IfaceV struct {             // non-nil interface
	t types.Type // canonical
	v Value
}
type FuncV struct {
	fn     *ssa.Function
	free   []Value
	native func(fr *frame, args []Value) Value
	name   string
}
type mapEnt struct {
	k, v Value
	dead bool
	conc bool
	ks   string
}
type MapV struct {
	ents   []*mapEnt
	idx    map[string]*mapEnt
	live   int
	symk   int // number of live entries with symbolic keys
	keyT   types.Type
	elemT  types.Type
}
type ChanV struct {
	buf    []Value
	cap    int
	closed bool
	recvq  int
	sendq  []*chanSend
}
type chanSend struct {
	v    Value
	done bool
}
type RT struct{ t types.Type } // reflect.Type payload
type ReflV struct {
	t    types.Type
	v    Value  // value if !addressable
	addr *Value // storage if addressable
	ro   bool
}

// ---- canonical types

var canonMu sync.Mutex
var canonMap typeutil.Map
var canonPtr sync.Map // types.Type -> types.Type

func canon(t types.Type) types.Type {
	if c, ok := canonPtr.Load(t); ok {
		return c.(types.Type)
	}
	canonMu.Lock()
	defer canonMu.Unlock()
	u := types.Unalias(t)
	if c := canonMap.At(u); c != nil {
		canonPtr.Store(t, c.(types.Type))
		return c.(types.Type)
	}
	canonMap.Set(u, u)
	canonPtr.Store(t, u)
	canonPtr.Store(u, u)
	return u
}

var ptrMap sync.Map // canonical T -> canonical *T

func ptrType(t types.Type) types.Type {
	t = canon(t)
	if p, ok := ptrMap.Load(t); ok {
		return p.(types.Type)
	}
	p := canon(types.NewPointer(t))
	ptrMap.Store(t, p)
	return p
}

var rtMu sync.Mutex
var rtMap = map[types.Type]*RT{}

func rtOf(t types.Type) *RT {
	t = canon(t)
	rtMu.Lock()
	defer rtMu.Unlock()
	r := rtMap[t]
	if r == nil {
		r = &RT{t}
		rtMap[t] = r
	}
	return r
}

var undCache sync.Map

func under(t types.Type) types.Type {
	if n, ok := t.(*types.Named); ok {
		return n.Underlying()
	}
	return t.Underlying()
}

// ---- int kinds

type intInfo struct {
	w      int
	signed bool
}

func intKind(t types.Type) (intInfo, bool) {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return intInfo{}, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return intInfo{64, true}, true
	case types.Int32, types.UntypedRune:
		return intInfo{32, true}, true
	case types.Int16:
		return intInfo{16, true}, true
	case types.Int8:
		return intInfo{8, true}, true
	case types.Uint, types.Uint64, types.Uintptr:
		return intInfo{64, false}, true
	case types.Uint32:
		return intInfo{32, false}, true
	case types.Uint16:
		return intInfo{16, false}, true
	case types.Uint8:
		return intInfo{8, false}, true
	}
	return intInfo{}, false
}

func isFloat(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isComplex(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsComplex != 0
}
func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func norm(n uint64, k intInfo) uint64 {
	if k.w == 64 {
		return n
	}
	if k.signed {
		s := uint(64 - k.w)
		return uint64(int64(n<<s) >> s)
	}
	return n & (1<<uint(k.w) - 1)
}

var minMax [2][65][2]*big.Int

func init() {
	for _, w := range []int{8, 16, 32, 64} {
		minMax[0][w] = [2]*big.Int{big0, new(big.Int).Sub(pow2(w), big1)}
		minMax[1][w] = [2]*big.Int{new(big.Int).Neg(pow2(w - 1)), new(big.Int).Sub(pow2(w-1), big1)}
	}
}
func (k intInfo) rng() (*big.Int, *big.Int) {
	i := 0
	if k.signed {
		i = 1
	}
	return minMax[i][k.w][0], minMax[i][k.w][1]
}
func concBig(n uint64, k intInfo) *big.Int {
	if k.signed {
		return big.NewInt(int64(n))
	}
	return new(big.Int).SetUint64(n)
}
func fromBig(b *big.Int, k intInfo) uint64 {
	m := new(big.Int).And(b, new(big.Int).SetUint64(^uint64(0)))
	return norm(m.Uint64(), k)
}

// ---- zero values / copying

func zeroValue(t types.Type) Value {
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return Value{p: ""}
		}
		return Value{}
	case *types.Struct:
		n := u.NumFields()
		a := &Agg{f: make([]Value, n)}
		for i := 0; i < n; i++ {
			a.f[i] = zeroValue(u.Field(i).Type())
		}
		return Value{p: a}
	case *types.Array:
		n := int(u.Len())
		a := &Agg{f: make([]Value, n)}
		if n > 0 {
			z := zeroValue(u.Elem())
			if _, ok := z.p.(*Agg); ok {
				a.f[0] = z
				for i := 1; i < n; i++ {
					a.f[i] = copyVal(z)
				}
			} else {
				for i := range a.f {
					a.f[i] = z
				}
			}
		}
		return Value{p: a}
	case *types.Tuple:
		tp := make(Tuple, u.Len())
		for i := range tp {
			tp[i] = zeroValue(u.At(i).Type())
		}
		return Value{p: tp}
	}
	return Value{}
}

func copyVal(v Value) Value {
	if a, ok := v.p.(*Agg); ok {
		return Value{p: copyAgg(a)}
	}
	return v
}
func copyAgg(a *Agg) *Agg {
	b := &Agg{f: make([]Value, len(a.f))}
	copy(b.f, a.f)
	for i := range b.f {
		if x, ok := b.f[i].p.(*Agg); ok {
			b.f[i].p = copyAgg(x)
		}
	}
	return b
}

func boolV(b bool) Value {
	if b {
		return Value{n: 1}
	}
	return Value{}
}
func intV(n int) Value       { return Value{n: uint64(int64(n))} }
func strV(s string) Value    { return Value{p: s} }
func (v Value) isSym() bool  { _, ok := v.p.(*Term); return ok }
func (v Value) term() *Term  { t, _ := v.p.(*Term); return t }
func (v Value) int() int     { return int(int64(v.n)) }
func (v Value) slice() []Value {
	if s, ok := v.p.(*SliceV); ok {
		return s.f
	}
	return nil
}
func (v Value) agg() *Agg { a, _ := v.p.(*Agg); return a }
func (v Value) ptr() *Value {
	a, _ := v.p.(*Value)
	return a
}
func (v Value) iface() *IfaceV { a, _ := v.p.(*IfaceV); return a }

func bytesToVals(b []byte) []Value {
	r := make([]Value, len(b))
	for i, x := range b {
		r[i].n = uint64(x)
	}
	return r
}
func sliceOfBytes(b []byte) Value { return Value{p: &SliceV{bytesToVals(b)}} }

func valsConcrete(vs []Value) bool {
	for i := range vs {
		if vs[i].p != nil {
			return false
		}
	}
	return true
}
func valsToBytes(vs []Value) []byte {
	b := make([]byte, len(vs))
	for i := range vs {
		b[i] = byte(vs[i].n)
	}
	return b
}

// string helpers
func strLen(v Value) int {
	switch s := v.p.(type) {
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	return 0
}
func strBytes(v Value) []Value {
	switch s := v.p.(type) {
	case string:
		return bytesToVals([]byte(s))
	case *SymStr:
		return s.b
	}
	return nil
}
func mkStr(b []Value) Value {
	if valsConcrete(b) {
		return Value{p: string(valsToBytes(b))}
	}
	c := make([]Value, len(b))
	copy(c, b)
	return Value{p: &SymStr{c}}
}
func concStr(v Value) (string, bool) {
	switch s := v.p.(type) {
	case string:
		return s, true
	case nil:
		return "", true
	}
	return "", false
}

// ---- map keys

func keyString(t types.Type, v Value, sb *strings.Builder) bool {
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			s, ok := concStr(v)
			if !ok {
				return false
			}
			fmt.Fprintf(sb, "s%d:%s", len(s), s)
			return true
		}
		if v.isSym() {
			return false
		}
		if u.Kind() == types.UnsafePointer {
			fmt.Fprintf(sb, "p%p", v.p)
			return true
		}
		fmt.Fprintf(sb, "i%x", v.n)
		return true
	case *types.Struct:
		a := v.agg()
		sb.WriteByte('{')
		for i := range a.f {
			if !keyString(u.Field(i).Type(), a.f[i], sb) {
				return false
			}
			sb.WriteByte(',')
		}
		sb.WriteByte('}')
		return true
	case *types.Array:
		a := v.agg()
		sb.WriteByte('[')
		for i := range a.f {
			if !keyString(u.Elem(), a.f[i], sb) {
				return false
			}
			sb.WriteByte(',')
		}
		sb.WriteByte(']')
		return true
	case *types.Interface:
		i := v.iface()
		if i == nil {
			sb.WriteString("nil")
			return true
		}
		fmt.Fprintf(sb, "I%p:", i.t)
		return keyString(i.t, i.v, sb)
	case *types.Pointer, *types.Chan, *types.Signature, *types.Map:
		fmt.Fprintf(sb, "p%p", v.p)
		return true
	}
	return false
}
