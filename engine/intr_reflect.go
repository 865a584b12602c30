package main

import (
	"go/token"
	"go/types"
	"math/big"
	"reflect"
	"strings"
)

func kindOf(t types.Type) reflect.Kind {
	switch u := under(t).(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		case types.Complex128:
			return reflect.Complex128
		}
	case *types.Struct:
		return reflect.Struct
	case *types.Array:
		return reflect.Array
	case *types.Slice:
		return reflect.Slice
	case *types.Map:
		return reflect.Map
	case *types.Pointer:
		return reflect.Pointer
	case *types.Interface:
		return reflect.Interface
	case *types.Signature:
		return reflect.Func
	case *types.Chan:
		return reflect.Chan
	}
	return reflect.Invalid
}

func (w *W) mkRV(r *ReflV) Value {
	return Value{p: &Agg{f: []Value{{}, {p: r}, {}}}}
}
func (w *W) mkRT(t types.Type) Value {
	rt := ptrType((w.eng.namedType("reflect", "rtype")))
	return Value{p: &IfaceV{rt, Value{p: rtOf(t)}}}
}

func rvOf(v Value) *ReflV {
	a := v.agg()
	r, _ := a.f[1].p.(*ReflV)
	return r
}
func (r *ReflV) get() Value {
	if r.addr != nil {
		return *r.addr
	}
	return r.v
}

func elemType(t types.Type) types.Type {
	switch u := under(t).(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Chan:
		return u.Elem()
	}
	return nil
}

func init() {
	I("reflect.TypeOf", func(fr *frame, w *W, a []Value) Value {
		iv := a[0].iface()
		if iv == nil {
			return Value{}
		}
		return w.mkRT(iv.t)
	})
	I("reflect.ValueOf", func(fr *frame, w *W, a []Value) Value {
		iv := a[0].iface()
		if iv == nil {
			return Value{p: &Agg{f: make([]Value, 3)}}
		}
		return w.mkRV(&ReflV{t: iv.t, v: iv.v})
	})
	I("reflect.New", func(fr *frame, w *W, a []Value) Value {
		t := a[0].iface().v.p.(*RT).t
		z := zeroValue(t)
		return w.mkRV(&ReflV{t: ptrType((t)), v: Value{p: &z}})
	})
	I("reflect.Zero", func(fr *frame, w *W, a []Value) Value {
		t := a[0].iface().v.p.(*RT).t
		return w.mkRV(&ReflV{t: t, v: zeroValue(t)})
	})
	ptrTo := func(fr *frame, w *W, a []Value) Value {
		return w.mkRT(types.NewPointer(a[0].iface().v.p.(*RT).t))
	}
	I("reflect.PtrTo", ptrTo)
	I("reflect.PointerTo", ptrTo)
	I("reflect.SliceOf", func(fr *frame, w *W, a []Value) Value {
		return w.mkRT(types.NewSlice(a[0].iface().v.p.(*RT).t))
	})
	I("reflect.Indirect", func(fr *frame, w *W, a []Value) Value {
		r := rvOf(a[0])
		if kindOf(r.t) != reflect.Pointer {
			return a[0]
		}
		p := r.get().ptr()
		if p == nil {
			return Value{p: &Agg{f: make([]Value, 3)}}
		}
		return w.mkRV(&ReflV{t: canon(elemType(r.t)), addr: p})
	})
	I("reflect.MakeSlice", func(fr *frame, w *W, a []Value) Value {
		t := a[0].iface().v.p.(*RT).t
		n := int(w.concInt(a[1], types.Typ[types.Int]))
		c := int(w.concInt(a[2], types.Typ[types.Int]))
		if n < 0 {
			fr.goPanic(w.ifaceStr("reflect.MakeSlice: negative len"))
		}
		if c < n {
			fr.goPanic(w.ifaceStr("reflect.MakeSlice: len > cap"))
		}
		if c > maxAlloc {
			w.unsup("reflect.MakeSlice of %d elements", c)
		}
		return w.mkRV(&ReflV{t: t, v: Value{p: &SliceV{makeCells(elemType(t), n, c)}}})
	})
	I("reflect.Copy", func(fr *frame, w *W, a []Value) Value {
		d, s := rvOf(a[0]), rvOf(a[1])
		return intV(w.copyCells(w.rvCells(d), w.rvCells(s)))
	})
	I("reflect.Append", func(fr *frame, w *W, a []Value) Value {
		d := rvOf(a[0])
		var add []Value
		for _, x := range a[1].slice() {
			add = append(add, rvOf(x).get())
		}
		return w.mkRV(&ReflV{t: d.t, v: w.appendV(d.get(), add, elemType(d.t))})
	})
	I("reflect.DeepEqual", func(fr *frame, w *W, a []Value) Value {
		x, y := a[0].iface(), a[1].iface()
		if x == nil || y == nil {
			return boolV(x == nil && y == nil)
		}
		if x.t != y.t {
			return boolV(false)
		}
		return w.boolVal(w.deepEq(x.t, x.v, y.v, 0))
	})
	I("reflect.Swapper", func(fr *frame, w *W, a []Value) Value {
		cells := a[0].iface().v.slice()
		return Value{p: &FuncV{name: "swapper", native: func(fr *frame, b []Value) Value {
			i, j := b[0].int(), b[1].int()
			x, y := copyVal(cells[i]), copyVal(cells[j])
			w.set(&cells[i], y)
			w.set(&cells[j], x)
			return Value{}
		}}}
	})
	// the same function exists in internal/reflectlite (used by sort.Slice)
	intrinsics["internal/reflectlite.Swapper"] = intrinsics["reflect.Swapper"]
	I("internal/reflectlite.ValueOf", func(fr *frame, w *W, a []Value) Value {
		return w.mkRV(&ReflV{t: a[0].iface().t, v: a[0].iface().v})
	})
	I("(internal/reflectlite.Value).Len", func(fr *frame, w *W, a []Value) Value { return intV(len(w.rvCells(rvOf(a[0])))) })
	I("internal/reflectlite.TypeOf", func(fr *frame, w *W, a []Value) Value {
		iv := a[0].iface()
		if iv == nil {
			return Value{}
		}
		return w.mkRT(iv.t)
	})

	// ---- Type methods
	T := func(name string, f func(fr *frame, w *W, t types.Type, a []Value) Value) {
		intrinsics["(*reflect.rtype)."+name] = func(fr *frame, a []Value) Value {
			rt, ok := a[0].p.(*RT)
			if !ok {
				fr.rtPanic("invalid memory address or nil pointer dereference")
			}
			return f(fr, fr.w, rt.t, a[1:])
		}
	}
	T("Kind", func(fr *frame, w *W, t types.Type, a []Value) Value { return intV(int(kindOf(t))) })
	T("Elem", func(fr *frame, w *W, t types.Type, a []Value) Value {
		e := elemType(t)
		if e == nil {
			fr.goPanic(w.ifaceStr("reflect: Elem of invalid type " + t.String()))
		}
		return w.mkRT(e)
	})
	T("Key", func(fr *frame, w *W, t types.Type, a []Value) Value { return w.mkRT(under(t).(*types.Map).Key()) })
	T("Len", func(fr *frame, w *W, t types.Type, a []Value) Value {
		return intV(int(under(t).(*types.Array).Len()))
	})
	T("NumField", func(fr *frame, w *W, t types.Type, a []Value) Value {
		return intV(under(t).(*types.Struct).NumFields())
	})
	T("Name", func(fr *frame, w *W, t types.Type, a []Value) Value {
		if n, ok := t.(*types.Named); ok {
			return strV(n.Obj().Name())
		}
		if b, ok := t.(*types.Basic); ok {
			return strV(b.Name())
		}
		return strV("")
	})
	T("PkgPath", func(fr *frame, w *W, t types.Type, a []Value) Value {
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return strV(n.Obj().Pkg().Path())
		}
		return strV("")
	})
	T("String", func(fr *frame, w *W, t types.Type, a []Value) Value {
		return strV(types.TypeString(t, func(p *types.Package) string { return p.Name() }))
	})
	T("Size", func(fr *frame, w *W, t types.Type, a []Value) Value { return intV(int(stdSizes.Sizeof(t))) })
	T("Bits", func(fr *frame, w *W, t types.Type, a []Value) Value { return intV(int(stdSizes.Sizeof(t)) * 8) })
	T("Comparable", func(fr *frame, w *W, t types.Type, a []Value) Value { return boolV(types.Comparable(t)) })
	T("Implements", func(fr *frame, w *W, t types.Type, a []Value) Value {
		return boolV(w.eng.implements(t, a[0].iface().v.p.(*RT).t))
	})
	T("AssignableTo", func(fr *frame, w *W, t types.Type, a []Value) Value {
		canonMu.Lock()
		defer canonMu.Unlock()
		return boolV(types.AssignableTo(t, a[0].iface().v.p.(*RT).t))
	})
	T("ConvertibleTo", func(fr *frame, w *W, t types.Type, a []Value) Value {
		canonMu.Lock()
		defer canonMu.Unlock()
		return boolV(types.ConvertibleTo(t, a[0].iface().v.p.(*RT).t))
	})
	T("NumMethod", func(fr *frame, w *W, t types.Type, a []Value) Value {
		if it, ok := under(t).(*types.Interface); ok {
			return intV(it.NumMethods())
		}
		ms := types.NewMethodSet(t)
		n := 0
		for i := 0; i < ms.Len(); i++ {
			if token.IsExported(ms.At(i).Obj().Name()) {
				n++
			}
		}
		return intV(n)
	})
	T("Field", func(fr *frame, w *W, t types.Type, a []Value) Value {
		st := under(t).(*types.Struct)
		i := a[0].int()
		f := st.Field(i)
		sf := zeroValue(w.eng.namedType("reflect", "StructField"))
		ag := sf.agg()
		ag.f[0] = strV(f.Name())
		if !f.Exported() && f.Pkg() != nil {
			ag.f[1] = strV(f.Pkg().Path())
		}
		ag.f[2] = w.mkRT(f.Type())
		ag.f[3] = strV(st.Tag(i))
		ag.f[5] = Value{p: &SliceV{[]Value{intV(i)}}}
		ag.f[6] = boolV(f.Anonymous())
		return sf
	})
	intrinsics["(reflect.StructField).IsExported"] = func(fr *frame, a []Value) Value {
		s, _ := concStr(a[0].agg().f[1])
		return boolV(s == "")
	}
	I("(reflect.StructTag).Get", func(fr *frame, w *W, a []Value) Value {
		tag, _ := concStr(a[0])
		k, _ := concStr(a[1])
		return strV(reflect.StructTag(tag).Get(k))
	})
	I("(reflect.StructTag).Lookup", func(fr *frame, w *W, a []Value) Value {
		tag, _ := concStr(a[0])
		k, _ := concStr(a[1])
		s, ok := reflect.StructTag(tag).Lookup(k)
		return tup(strV(s), boolV(ok))
	})
	I("(reflect.Kind).String", func(fr *frame, w *W, a []Value) Value { return strV(reflect.Kind(a[0].n).String()) })

	// ---- Value methods
	V := func(name string, f func(fr *frame, w *W, r *ReflV, a []Value) Value) {
		intrinsics["(reflect.Value)."+name] = func(fr *frame, a []Value) Value {
			r := rvOf(a[0])
			if r == nil {
				switch name {
				case "IsValid":
					return boolV(false)
				case "Kind":
					return intV(0)
				}
				fr.goPanic(fr.w.ifaceStr("reflect: call of reflect.Value." + name + " on zero Value"))
			}
			return f(fr, fr.w, r, a[1:])
		}
	}
	V("IsValid", func(fr *frame, w *W, r *ReflV, a []Value) Value { return boolV(true) })
	V("Kind", func(fr *frame, w *W, r *ReflV, a []Value) Value { return intV(int(kindOf(r.t))) })
	V("Type", func(fr *frame, w *W, r *ReflV, a []Value) Value { return w.mkRT(r.t) })
	V("CanAddr", func(fr *frame, w *W, r *ReflV, a []Value) Value { return boolV(r.addr != nil) })
	V("CanSet", func(fr *frame, w *W, r *ReflV, a []Value) Value { return boolV(r.addr != nil && !r.ro) })
	V("CanInterface", func(fr *frame, w *W, r *ReflV, a []Value) Value { return boolV(!r.ro) })
	V("Addr", func(fr *frame, w *W, r *ReflV, a []Value) Value {
		if r.addr == nil {
			fr.goPanic(w.ifaceStr("reflect.Value.Addr of unaddressable value"))
		}
		return w.mkRV(&ReflV{t: ptrType((r.t)), v: Value{p: r.addr}})
	})
	V("Elem", func(fr *frame, w *W, r *ReflV, a []Value) Value {
		v := r.get()
		switch kindOf(r.t) {
		case reflect.Interface:
			iv := v.iface()
			if iv == nil {
				return Value{p: &Agg{f: make([]Value, 3)}}
			}
			return w.mkRV(&ReflV{t: iv.t, v: iv.v})
		case reflect.Pointer:
			p := v.ptr()
			if p == nil {
				if v.p != nil {
					w.unsup("reflect Elem of special pointer %T", v.p)
				}
				return Value{p: &Agg{f: make([]Value, 3)}}
			}
			return w.mkRV(&ReflV{t: canon(elemType(r.t)), addr: p})
		}
		fr.goPanic(w.ifaceStr("reflect: call of reflect.Value.Elem on " + kindOf(r.t).String() + " Value"))
		return Value{}
	})
	V("IsNil", func(fr *frame, w *W, r *ReflV, a []Value) Value {
		switch kindOf(r.t) {
		case reflect.Pointer, reflect.Slice, reflect.Map, reflect.Interface, reflect.Func, reflect.Chan:
			return boolV(r.get().p == nil)
		}
		fr.goPanic(w.ifaceStr("reflect: call of reflect.Value.IsNil on " + kindOf(r.t).String() + " Value"))
		return Value{}
	})
	V("Len", func(fr *frame, w *W, r *ReflV, a []Value) Value {
		switch kindOf(r.t) {
		case reflect.String:
			return intV(strLen(r.get()))
		case reflect.Map:
			if m, ok := r.get().p.(*MapV); ok {
				return intV(m.live)
			}
			return intV(0)
		}
		return intV(len(w.rvCells(r)))
	})
	V("Cap", func(fr *frame, w *W, r *ReflV, a []Value) Value { return intV(cap(w.rvCells(r))) })
	V("Index", func(fr *frame, w *W, r *ReflV, a []Value) Value {
		if kindOf(r.t) == reflect.String {
			b := strBytes(r.get())
			i := w.index(fr, a[0], types.Typ[types.Int], len(b))
			return w.mkRV(&ReflV{t: canon(types.Typ[types.Uint8]), v: b[i]})
		}
		cells := w.rvCells(r)
		i := w.index(fr, a[0], types.Typ[types.Int], len(cells))
		nr := &ReflV{t: canon(elemType(r.t)), ro: r.ro}
		if kindOf(r.t) == reflect.Slice || r.addr != nil {
			nr.addr = &cells[i]
		} else {
			nr.v = cells[i]
		}
		return w.mkRV(nr)
	})
	V("Field", func(fr *frame, w *W, r *ReflV, a []Value) Value {
		st := under(r.t).(*types.Struct)
		i := a[0].int()
		ag := r.get().agg()
		nr := &ReflV{t: canon(st.Field(i).Type()), ro: r.ro || !st.Field(i).Exported()}
		if r.addr != nil {
			nr.addr = &ag.f[i]
		} else {
			nr.v = ag.f[i]
		}
		return w.mkRV(nr)
	})
	V("NumField", func(fr *frame, w *W, r *ReflV, a []Value) Value {
		return intV(under(r.t).(*types.Struct).NumFields())
	})
	V("NumMethod", func(fr *frame, w *W, r *ReflV, a []Value) Value {
		if it, ok := under(r.t).(*types.Interface); ok {
			return intV(it.NumMethods())
		}
		return intV(types.NewMethodSet(r.t).Len())
	})
	V("Interface", func(fr *frame, w *W, r *ReflV, a []Value) Value {
		if r.ro {
			fr.goPanic(w.ifaceStr("reflect.Value.Interface: cannot return value obtained from unexported field or method"))
		}
		v := copyVal(r.get())
		if kindOf(r.t) == reflect.Interface {
			return v
		}
		return Value{p: &IfaceV{r.t, v}}
	})
	V("Uint", func(fr *frame, w *W, r *ReflV, a []Value) Value { return r.get() })
	V("Int", func(fr *frame, w *W, r *ReflV, a []Value) Value { return r.get() })
	V("Bool", func(fr *frame, w *W, r *ReflV, a []Value) Value { return r.get() })
	V("Float", func(fr *frame, w *W, r *ReflV, a []Value) Value { return r.get() })
	V("String", func(fr *frame, w *W, r *ReflV, a []Value) Value {
		if kindOf(r.t) == reflect.String {
			return r.get()
		}
		return strV("<" + r.t.String() + " Value>")
	})
	V("Bytes", func(fr *frame, w *W, r *ReflV, a []Value) Value {
		if kindOf(r.t) == reflect.Slice {
			return r.get()
		}
		if r.addr == nil {
			fr.goPanic(w.ifaceStr("reflect.Value.Bytes of unaddressable byte array"))
		}
		return Value{p: &SliceV{r.get().agg().f}}
	})
	V("Pointer", func(fr *frame, w *W, r *ReflV, a []Value) Value {
		if r.get().p == nil {
			return Value{}
		}
		return Value{n: 1}
	})
	V("IsZero", func(fr *frame, w *W, r *ReflV, a []Value) Value {
		return w.eq(r.t, r.get(), zeroValue(r.t))
	})
	setter := func(name string) {
		V(name, func(fr *frame, w *W, r *ReflV, a []Value) Value {
			if r.addr == nil || r.ro {
				fr.goPanic(w.ifaceStr("reflect: reflect.Value." + name + " using unaddressable value"))
			}
			v := a[0]
			switch name {
			case "Set":
				src := rvOf(a[0])
				if src == nil {
					fr.goPanic(w.ifaceStr("reflect: call of reflect.Value.Set on zero Value"))
				}
				v = src.get()
				if kindOf(r.t) == reflect.Interface && kindOf(src.t) != reflect.Interface {
					v = Value{p: &IfaceV{src.t, copyVal(v)}}
				} else if !types.AssignableTo(src.t, r.t) {
					fr.goPanic(w.ifaceStr("reflect.Set: value of type " + src.t.String() + " is not assignable to type " + r.t.String()))
				}
			case "SetUint", "SetInt":
				k, _ := intKind(r.t)
				fk := u64k
				if name == "SetInt" {
					fk = i64k
				}
				v = w.convInt(v, fk, k)
			case "SetBytes":
				// keep
			}
			w.set(r.addr, v)
			return Value{}
		})
	}
	for _, n := range []string{"Set", "SetUint", "SetInt", "SetBool", "SetString", "SetBytes", "SetFloat"} {
		setter(n)
	}
	V("SetLen", func(fr *frame, w *W, r *ReflV, a []Value) Value {
		n := int(w.concInt(a[0], types.Typ[types.Int]))
		c := w.rvCells(r)
		if n < 0 || n > cap(c) {
			fr.goPanic(w.ifaceStr("reflect: slice length out of range in SetLen"))
		}
		w.set(r.addr, Value{p: &SliceV{c[:n]}})
		return Value{}
	})
	V("Slice", func(fr *frame, w *W, r *ReflV, a []Value) Value {
		c := w.rvCells(r)
		i, j := int(w.concInt(a[0], types.Typ[types.Int])), int(w.concInt(a[1], types.Typ[types.Int]))
		if i < 0 || j < i || j > cap(c) {
			fr.goPanic(w.ifaceStr("reflect.Value.Slice: slice index out of bounds"))
		}
		t := r.t
		if at, ok := under(t).(*types.Array); ok {
			t = canon(types.NewSlice(at.Elem()))
		}
		return w.mkRV(&ReflV{t: t, v: Value{p: &SliceV{c[i:j]}}})
	})
	V("Convert", func(fr *frame, w *W, r *ReflV, a []Value) Value {
		t := a[0].iface().v.p.(*RT).t
		return w.mkRV(&ReflV{t: t, v: w.convert(fr, r.t, t, r.get())})
	})
	V("MapKeys", func(fr *frame, w *W, r *ReflV, a []Value) Value {
		var out []Value
		if m, ok := r.get().p.(*MapV); ok {
			for _, e := range m.ents {
				if !e.dead {
					out = append(out, w.mkRV(&ReflV{t: canon(m.keyT), v: e.k}))
				}
			}
		}
		return Value{p: &SliceV{out}}
	})
	V("MapIndex", func(fr *frame, w *W, r *ReflV, a []Value) Value {
		m, _ := r.get().p.(*MapV)
		if m != nil {
			if e := w.mapFind(m, rvOf(a[0]).get()); e != nil {
				return w.mkRV(&ReflV{t: canon(m.elemT), v: e.v})
			}
		}
		return Value{p: &Agg{f: make([]Value, 3)}}
	})
	_ = strings.Contains
	_ = big0
	_ = big.NewInt
}

func (w *W) rvCells(r *ReflV) []Value {
	v := r.get()
	switch x := v.p.(type) {
	case *SliceV:
		return x.f
	case *Agg:
		return x.f
	case nil:
		return nil
	case string, *SymStr:
		return strBytes(v)
	}
	w.unsup("reflect cells of %T", v.p)
	return nil
}

func (w *W) deepEq(t types.Type, a, b Value, d int) *Term {
	c := w.ctx
	if d > 12 {
		w.unsup("DeepEqual too deep")
	}
	switch u := under(t).(type) {
	case *types.Pointer:
		if a.p == b.p {
			return c.True
		}
		if a.p == nil || b.p == nil {
			return c.False
		}
		if isBigInt(u.Elem()) {
			return w.boolT(w.eq(types.Typ[types.Int], w.bigCmp(w.getBig(nil, a), w.getBig(nil, b)), Value{}))
		}
		return w.deepEq(u.Elem(), *a.ptr(), *b.ptr(), d+1)
	case *types.Slice:
		if (a.p == nil) != (b.p == nil) {
			return c.False
		}
		x, y := a.slice(), b.slice()
		if len(x) != len(y) {
			return c.False
		}
		if k, ok := intKind(u.Elem()); ok && k == u8k {
			return w.boolT(w.eqBytes(x, y))
		}
		r := c.True
		for i := range x {
			r = c.And(r, w.deepEq(u.Elem(), x[i], y[i], d+1))
		}
		return r
	case *types.Array:
		x, y := a.agg().f, b.agg().f
		if k, ok := intKind(u.Elem()); ok && k == u8k {
			return w.boolT(w.eqBytes(x, y))
		}
		r := c.True
		for i := range x {
			r = c.And(r, w.deepEq(u.Elem(), x[i], y[i], d+1))
		}
		return r
	case *types.Struct:
		if isBigInt(t) {
			return w.boolT(w.eq(types.Typ[types.Int], w.bigCmp(w.getBigAgg(a.agg()), w.getBigAgg(b.agg())), Value{}))
		}
		r := c.True
		for i := 0; i < u.NumFields(); i++ {
			r = c.And(r, w.deepEq(u.Field(i).Type(), a.agg().f[i], b.agg().f[i], d+1))
		}
		return r
	case *types.Interface:
		x, y := a.iface(), b.iface()
		if x == nil || y == nil {
			return c.Bool(x == nil && y == nil)
		}
		if x.t != y.t {
			return c.False
		}
		return w.deepEq(x.t, x.v, y.v, d+1)
	case *types.Map:
		x, _ := a.p.(*MapV)
		y, _ := b.p.(*MapV)
		if x == y {
			return c.True
		}
		if x == nil || y == nil {
			return c.False
		}
		if x.live != y.live {
			return c.False
		}
		r := c.True
		for _, e := range x.ents {
			if e.dead {
				continue
			}
			f := w.mapFind(y, e.k)
			if f == nil {
				return c.False
			}
			r = c.And(r, w.deepEq(u.Elem(), e.v, f.v, d+1))
		}
		return r
	case *types.Signature:
		return c.Bool(a.p == nil && b.p == nil)
	}
	return w.boolT(w.eq(t, a, b))
}
