package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"reflect"
	"strings"
	"unsafe"
)

func (fr *frame) callBuiltin(cs *callSpec, args []Value) Value {
	w := fr.w
	switch cs.builtin {
	case "len":
		switch x := args[0].p.(type) {
		case nil:
			return Value{}
		case string:
			return intV(len(x))
		case *SymStr:
			return intV(len(x.b))
		case *SliceV:
			return intV(len(x.f))
		case *MapV:
			return intV(x.live)
		case *Agg:
			return intV(len(x.f))
		case *Value:
			return intV(len(x.p.(*Agg).f))
		case *ChanV:
			return intV(len(x.buf))
		}
	case "cap":
		switch x := args[0].p.(type) {
		case nil:
			return Value{}
		case *SliceV:
			return intV(cap(x.f))
		case *Agg:
			return intV(len(x.f))
		case *Value:
			return intV(len(x.p.(*Agg).f))
		case *ChanV:
			return intV(x.cap)
		}
	case "append":
		var add []Value
		switch x := args[1].p.(type) {
		case *SliceV:
			add = x.f
		case string, *SymStr:
			add = strBytes(args[1])
		}
		st := under(cs.bt[0]).(*types.Slice)
		return w.appendV(args[0], add, st.Elem())
	case "copy":
		dst := args[0].slice()
		var src []Value
		switch x := args[1].p.(type) {
		case *SliceV:
			src = x.f
		case string, *SymStr:
			src = strBytes(args[1])
		}
		return intV(w.copyCells(dst, src))
	case "delete":
		m, _ := args[0].p.(*MapV)
		w.mapDelete(m, args[1])
		return Value{}
	case "clear":
		switch x := args[0].p.(type) {
		case *MapV:
			for _, e := range x.ents {
				if !e.dead {
					w.mapKill(x, e)
				}
			}
		case *SliceV:
			et := under(cs.bt[0]).(*types.Slice).Elem()
			for i := range x.f {
				w.set(&x.f[i], zeroValue(et))
			}
		}
		return Value{}
	case "close":
		ch, _ := args[0].p.(*ChanV)
		if ch == nil {
			fr.rtPanic("close of nil channel")
		}
		if ch.closed {
			fr.rtPanic("close of closed channel")
		}
		ch.closed = true
		w.onUndo(func() { ch.closed = false })
		w.schedPoint()
		return Value{}
	case "panic":
		fr.goPanic(args[0])
	case "recover":
		return w.doRecover(fr)
	case "print", "println":
		return Value{}
	case "min", "max":
		r := args[0]
		op := token.LSS
		if cs.builtin == "max" {
			op = token.GTR
		}
		for _, a := range args[1:] {
			c := w.binop(op, cs.rt, cs.rt, a, r)
			if t := c.term(); t != nil {
				m, ok := w.mergeVal(t, a, r, cs.rt)
				if !ok {
					w.unsup("symbolic min/max")
				}
				r = m
			} else if c.n != 0 {
				r = a
			}
		}
		return r
	case "ssa:wrapnilchk":
		if args[0].p == nil {
			fr.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "String": // unsafe.String(ptr, len)
		n := int(w.concInt(args[1], cs.bt[1]))
		if n == 0 {
			return strV("")
		}
		p := args[0].ptr()
		return mkStr(unsafe.Slice(p, n))
	case "StringData":
		b := strBytes(args[0])
		if len(b) == 0 {
			return Value{}
		}
		return Value{p: &b[0]}
	case "SliceData":
		s := args[0].slice()
		if cap(s) == 0 {
			return Value{}
		}
		return Value{p: &s[:1][0]}
	case "Slice":
		n := int(w.concInt(args[1], cs.bt[1]))
		p := args[0].ptr()
		if p == nil {
			return Value{}
		}
		return Value{p: &SliceV{unsafe.Slice(p, n)}}
	case "real":
		return Value{n: 0}
	}
	w.unsup("builtin %s on %T", cs.builtin, firstP(args))
	return Value{}
}

func firstP(a []Value) any {
	if len(a) > 0 {
		return a[0].p
	}
	return nil
}

func (w *W) doRecover(fr *frame) Value {
	// fr is the deferred function's frame (caller of recover); its caller is the panicking frame
	c := fr.caller
	if c == nil || !c.panicking {
		return Value{}
	}
	c.panicking = false
	tp := c.panicV
	c.panicV = nil
	if tp.v.p == nil && tp.msg != "" {
		return w.eng.runtimeErr(tp.msg)
	}
	return tp.v
}

func (w *W) copyCells(dst, src []Value) int {
	n := min(len(dst), len(src))
	if n == 0 {
		return 0
	}
	tmp := make([]Value, n)
	for i := range tmp {
		tmp[i] = copyVal(src[i])
	}
	for i := range tmp {
		w.set(&dst[i], tmp[i])
	}
	return n
}

type growKey struct{ size, oldCap, newLen int }

var stdSizes = types.SizesFor("gc", "amd64")

func growCap(et types.Type, oldLen, oldCap, newLen int) (res int) {
	defer func() {
		if recover() != nil {
			res = newLen
		}
	}()
	sz := int(stdSizes.Sizeof(et))
	if sz > 1024 || newLen > 1<<16 || sz == 0 {
		if newLen > 2*oldCap {
			return newLen
		}
		return 2 * oldCap
	}
	var rt reflect.Type
	if sz%8 == 0 && hasPtr(et) {
		rt = reflect.ArrayOf(sz/8, reflect.TypeOf((*int)(nil)))
	} else {
		rt = reflect.ArrayOf(sz, reflect.TypeOf(byte(0)))
	}
	s := reflect.MakeSlice(reflect.SliceOf(rt), oldCap, oldCap)
	add := reflect.MakeSlice(reflect.SliceOf(rt), newLen-oldCap, newLen-oldCap)
	return reflect.AppendSlice(s, add).Cap()
}

func hasPtr(t types.Type) bool {
	switch u := under(t).(type) {
	case *types.Basic:
		return u.Kind() == types.String || u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPtr(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return u.Len() > 0 && hasPtr(u.Elem())
	}
	return true
}

type growK struct {
	t types.Type
	a, b, c int
}

func (w *W) appendV(s Value, add []Value, et types.Type) Value {
	old := s.slice()
	if len(add) == 0 {
		return s
	}
	n := len(old) + len(add)
	if n <= cap(old) {
		nf := old[:n]
		w.copyCells(nf[len(old):], add)
		return Value{p: &SliceV{nf}}
	}
	if n > maxAlloc {
		w.unsup("append beyond %d elements", maxAlloc)
	}
	cp := growCap(et, len(old), cap(old), n)
	nf := make([]Value, n, cp)
	for i := range old {
		nf[i] = copyVal(old[i])
	}
	for i := range add {
		nf[len(old)+i] = copyVal(add[i])
	}
	// spare capacity must hold proper zero values
	full := nf[:cp]
	z := zeroValue(et)
	if z.p != nil {
		for i := n; i < cp; i++ {
			full[i] = copyVal(z)
		}
	}
	return Value{p: &SliceV{nf}}
}

// ---- errors and rendering

func (e *Engine) namedType(pkg, name string) types.Type {
	p := e.prog.ImportedPackage(pkg)
	if p == nil {
		return nil
	}
	m := p.Type(name)
	if m == nil {
		return nil
	}
	return m.Type()
}

func (e *Engine) mkError(msg string) Value {
	t := e.namedType("errors", "errorString")
	c := Value{p: &Agg{f: []Value{strV(msg)}}}
	return Value{p: &IfaceV{ptrType((t)), Value{p: &c}}}
}

func (e *Engine) runtimeErr(msg string) Value {
	// runtime.errorString implements runtime.Error
	if t := e.namedType("runtime", "errorString"); t != nil {
		return Value{p: &IfaceV{canon(t), strV(msg)}}
	}
	return e.mkError("runtime error: " + msg)
}

func (w *W) render(fr *frame, iv *IfaceV) (s string) {
	if iv == nil {
		return "<nil>"
	}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(killG); ok {
				panic(r)
			}
			if a, ok := r.(*pathAbort); ok && a.k != abUnsup {
				panic(r)
			}
			s = "<" + iv.t.String() + ">"
		}
	}()
	if w.spec > 0 {
		return "<spec>"
	}
	switch iv.t.String() {
	case "*math/big.Int":
		if iv.v.p == nil {
			return "<nil>"
		}
		b := w.getBig(fr, iv.v)
		if b.c != nil {
			return b.c.String()
		}
		return "<sym>"
	case "runtime.errorString":
		s, _ := concStr(iv.v)
		return "runtime error: " + s
	}
	if w.hasSym(iv.v, 0) {
		return "<sym " + iv.t.String() + ">"
	}
	if _, isPtr := under(iv.t).(*types.Pointer); !isPtr || iv.v.p != nil {
		if m := w.eng.methodByName(iv.t, nil, "Error"); m != nil && m.Signature.Params().Len() == 0 {
			v := w.call(fr, m, []Value{iv.v}, nil)
			s, ok := concStr(v)
			if ok {
				return s
			}
			return "<sym error>"
		}
		if m := w.eng.methodByName(iv.t, nil, "String"); m != nil && m.Signature.Params().Len() == 0 && m.Signature.Results().Len() == 1 {
			v := w.call(fr, m, []Value{iv.v}, nil)
			s, ok := concStr(v)
			if ok {
				return s
			}
			return "<sym string>"
		}
	}
	return fmt.Sprint(w.nativeOf(iv.t, iv.v))
}

func (w *W) hasSym(v Value, d int) bool {
	if d > 6 {
		return false
	}
	switch x := v.p.(type) {
	case *Term, *SymStr:
		return true
	case *Agg:
		for i := range x.f {
			if w.hasSym(x.f[i], d+1) {
				return true
			}
		}
	case *SliceV:
		for i := range x.f {
			if w.hasSym(x.f[i], d+1) {
				return true
			}
		}
	case *Value:
		return w.hasSym(*x, d+1)
	case *IfaceV:
		return w.hasSym(x.v, d+1)
	}
	return false
}

// nativeOf converts a concrete value of simple type to a native Go value for formatting.
func (w *W) nativeOf(t types.Type, v Value) any {
	if v.isSym() {
		return "<sym>"
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return v.n != 0
		case types.Int, types.Int64:
			return int64(v.n)
		case types.Int32:
			return int32(v.n)
		case types.Int16:
			return int16(v.n)
		case types.Int8:
			return int8(v.n)
		case types.Uint, types.Uint64:
			return v.n
		case types.Uintptr:
			return uintptr(v.n)
		case types.Uint32:
			return uint32(v.n)
		case types.Uint16:
			return uint16(v.n)
		case types.Uint8:
			return uint8(v.n)
		case types.String:
			s, ok := concStr(v)
			if !ok {
				return "<sym>"
			}
			return s
		case types.Float64, types.Float32:
			return floatOf(v)
		}
	case *types.Slice:
		if k, ok := intKind(u.Elem()); ok && k == u8k {
			if valsConcrete(v.slice()) {
				return valsToBytes(v.slice())
			}
			return "<sym bytes>"
		}
		var r []any
		for _, x := range v.slice() {
			r = append(r, w.nativeOf(u.Elem(), x))
		}
		return r
	case *types.Array:
		if k, ok := intKind(u.Elem()); ok && k == u8k {
			if valsConcrete(v.agg().f) {
				return valsToBytes(v.agg().f)
			}
			return "<sym bytes>"
		}
	case *types.Interface:
		iv := v.iface()
		if iv == nil {
			return nil
		}
		return w.nativeOf(iv.t, iv.v)
	case *types.Pointer:
		if v.p == nil {
			return nil
		}
		if t.String() == "*math/big.Int" {
			b := w.getBig(nil, v)
			if b.c != nil {
				return b.c
			}
			return "<sym>"
		}
	}
	return "<" + t.String() + ">"
}

type strErr string

func (s strErr) Error() string { return string(s) }

func (w *W) fmtArgs(fr *frame, s []Value) []any {
	r := make([]any, len(s))
	for i, x := range s {
		iv := x.iface()
		if iv == nil {
			r[i] = nil
			continue
		}
		if _, ok := iv.t.(*types.Basic); ok && iv.v.p == nil {
			r[i] = w.nativeOf(iv.t, iv.v)
			continue
		}
		if iv.t.String() == "string" || iv.t.String() == "[]byte" {
			r[i] = w.nativeOf(iv.t, iv.v)
			continue
		}
		if iv.t.String() == "*math/big.Int" && iv.v.p != nil {
			r[i] = w.nativeOf(iv.t, iv.v)
			continue
		}
		hasM := w.eng.methodByName(iv.t, nil, "Error") != nil || w.eng.methodByName(iv.t, nil, "String") != nil
		if hasM {
			r[i] = w.render(fr, iv)
		} else {
			r[i] = w.nativeOf(iv.t, iv.v)
		}
	}
	return r
}

func (w *W) sprintf(fr *frame, f Value, args Value) string {
	fs, ok := concStr(f)
	if !ok {
		return "<sym format>"
	}
	if w.inInit == 0 && w.spec > 0 {
		panic(specAbort{})
	}
	fs2 := strings.ReplaceAll(fs, "%w", "%v")
	return fmt.Sprintf(fs2, w.fmtArgs(fr, args.slice())...)
}

// deep concrete rendering for observations under a model
func (w *W) obsString(t types.Type, v Value, ev *Eval) string {
	val := func(v Value, k intInfo) *big.Int {
		if x := v.term(); x != nil {
			r := ev.eval(x)
			if r == nil {
				return big0
			}
			if x.sort == SBV && k.signed {
				return toSigned(r, x.w)
			}
			return r
		}
		return concBig(v.n, k)
	}
	bytesOf := func(vs []Value) string {
		var sb strings.Builder
		for _, x := range vs {
			fmt.Fprintf(&sb, "%02x", val(x, u8k).Uint64())
		}
		return "0x" + sb.String()
	}
	if _, isI := under(t).(*types.Interface); !isI && w.eng.methodByName(t, nil, "Error") != nil {
		if _, isP := under(t).(*types.Pointer); isP && v.p == nil {
			return "nil"
		}
		return "err"
	}
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			if x := v.term(); x != nil {
				r := ev.eval(x)
				return fmt.Sprint(r != nil && r.Sign() != 0)
			}
			return fmt.Sprint(v.n != 0)
		}
		if k, ok := intKind(u); ok {
			return val(v, k).String()
		}
		if u.Info()&types.IsString != 0 {
			b := strBytes(v)
			return bytesOf(b)
		}
		if u.Info()&types.IsFloat != 0 {
			return fmt.Sprint(floatOf(v))
		}
	case *types.Slice:
		if v.p == nil {
			return "[]"
		}
		if k, ok := intKind(u.Elem()); ok && k == u8k {
			if len(v.slice()) == 0 {
				return "[]"
			}
			return bytesOf(v.slice())
		}
		if len(v.slice()) == 0 {
			return "[]"
		}
		var ps []string
		for _, x := range v.slice() {
			ps = append(ps, w.obsString(u.Elem(), x, ev))
		}
		return "[" + strings.Join(ps, " ") + "]"
	case *types.Array:
		if k, ok := intKind(u.Elem()); ok && k == u8k {
			return bytesOf(v.agg().f)
		}
		var ps []string
		for _, x := range v.agg().f {
			ps = append(ps, w.obsString(u.Elem(), x, ev))
		}
		return "[" + strings.Join(ps, " ") + "]"
	case *types.Pointer:
		if v.p == nil {
			return "nil"
		}
		if t.String() == "*math/big.Int" {
			b := w.getBig(nil, v)
			if b.c != nil {
				return b.c.String()
			}
			r := ev.eval(b.t)
			if r == nil {
				return "?"
			}
			return r.String()
		}
		return "ptr"
	case *types.Interface:
		iv := v.iface()
		if iv == nil {
			return "nil"
		}
		if w.eng.methodByName(iv.t, nil, "Error") != nil {
			return "err"
		}
		return w.obsString(iv.t, iv.v, ev)
	}
	return "?"
}
