package main

import (
	"crypto/sha256"
	"fmt"
	"go/types"
	"math"
	"math/big"
	"reflect"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

var intrinsics = map[string]intrinsic{}
var pureIntrinsics = map[string]bool{}
var skipInit = map[string]bool{
	"runtime": true, "internal/cpu": true, "os": true, "net": true, "net/http": true, "reflect": true,
	"syscall": true, "internal/poll": true, "time": true, "internal/godebug": true, "crypto/tls": true, "crypto/x509": true,
	"math/big": true, "sync": true, "sync/atomic": true, "log": true, "google.golang.org/grpc": true,
	"internal/runtime/atomic": true, "internal/abi": true, "os/signal": true, "runtime/debug": true,
}

const ethp = "github.com/ethereum/go-ethereum/"

func noop(fr *frame, a []Value) Value { return Value{} }

func lookupIntrinsic(name string, fn *ssa.Function) intrinsic {
	if in, ok := intrinsics[name]; ok {
		return in
	}
	pkg := ""
	if p := fnPkg(fn); p != nil {
		pkg = p.Pkg.Path()
	}
	switch pkg {
	case "reflect":
		if fn.Synthetic == "" {
			return func(fr *frame, a []Value) Value {
				fr.w.unsup("reflect function %s", name)
				return Value{}
			}
		}
	case "math/big":
		if strings.HasPrefix(name, "(*math/big.Int).") || strings.HasPrefix(name, "(*math/big.Rat).") || strings.HasPrefix(name, "(*math/big.Float).") {
			return func(fr *frame, a []Value) Value {
				fr.w.unsup("math/big method %s", name)
				return Value{}
			}
		}
	case "google.golang.org/grpc", "net/http", "net", "os/signal":
		if fn.Signature.Recv() == nil && fn.Name() != "init" && fn.Synthetic == "" {
			return func(fr *frame, a []Value) Value {
				fr.w.unsup("I/O function %s", name)
				return Value{}
			}
		}
	case ethp + "metrics":
		if fn.Parent() == nil && fn.Signature.Recv() == nil && fn.Name() != "init" && strings.HasPrefix(fn.Name(), "CollectProcess") {
			return noop
		}
	case ethp + "log":
		if fn.Signature.Recv() == nil && fn.Parent() == nil {
			switch fn.Name() {
			case "Trace", "Debug", "Info", "Warn", "Error":
				return noop
			case "Crit":
				return func(fr *frame, a []Value) Value {
					panic(&targetPanic{msg: "log.Crit (process exit)", trace: stackOf(fr, 8)})
				}
			}
		}
		if strings.HasPrefix(name, "(*"+ethp+"log.logger).") {
			switch fn.Name() {
			case "Trace", "Debug", "Info", "Warn", "Error", "write":
				return noop
			case "Crit":
				return func(fr *frame, a []Value) Value {
					panic(&targetPanic{msg: "log.Crit (process exit)", trace: stackOf(fr, 8)})
				}
			}
		}
	}
	return nil
}

func tup(vs ...Value) Value { return Value{p: Tuple(vs)} }

func I(name string, f func(fr *frame, w *W, a []Value) Value) {
	intrinsics[name] = func(fr *frame, a []Value) Value { return f(fr, fr.w, a) }
}

// native binds a pure native function; symbolic args fall back to interpretation when possible.
func native(name string, f any) {
	rv := reflect.ValueOf(f)
	rt := rv.Type()
	intrinsics[name] = func(fr *frame, a []Value) Value {
		in := make([]reflect.Value, rt.NumIn())
		for i := range in {
			p := reflect.New(rt.In(i)).Elem()
			v := a[i]
			bad := false
			switch p.Kind() {
			case reflect.Bool:
				bad = v.isSym()
				p.SetBool(v.n != 0)
			case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8:
				bad = v.isSym()
				p.SetInt(int64(v.n))
			case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8, reflect.Uintptr:
				bad = v.isSym()
				p.SetUint(v.n)
			case reflect.Float64, reflect.Float32:
				bad = v.isSym()
				p.SetFloat(floatOf(v))
			case reflect.String:
				s, ok := concStr(v)
				bad = !ok
				p.SetString(s)
			case reflect.Slice:
				if p.Type().Elem().Kind() == reflect.Uint8 {
					bad = !valsConcrete(v.slice())
					if !bad {
						p.SetBytes(valsToBytes(v.slice()))
					}
				} else if p.Type().Elem().Kind() == reflect.String {
					var ss []string
					for _, x := range v.slice() {
						s, ok := concStr(x)
						if !ok {
							bad = true
						}
						ss = append(ss, s)
					}
					p.Set(reflect.ValueOf(ss))
				} else {
					bad = true
				}
			default:
				bad = true
			}
			if bad {
				return fr.w.interpBody(fr, name, a)
			}
			in[i] = p
		}
		out := rv.Call(in)
		res := make(Tuple, len(out))
		for i, o := range out {
			switch o.Kind() {
			case reflect.Bool:
				res[i] = boolV(o.Bool())
			case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8:
				res[i] = Value{n: uint64(o.Int())}
			case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8:
				res[i] = Value{n: o.Uint()}
			case reflect.Float64, reflect.Float32:
				res[i] = Value{n: math.Float64bits(o.Float())}
			case reflect.String:
				res[i] = strV(o.String())
			case reflect.Slice:
				if o.IsNil() {
					break
				}
				if o.Type().Elem().Kind() == reflect.Uint8 {
					res[i] = sliceOfBytes(o.Bytes())
				} else {
					var vs []Value
					for j := 0; j < o.Len(); j++ {
						vs = append(vs, strV(o.Index(j).String()))
					}
					res[i] = Value{p: &SliceV{vs}}
				}
			case reflect.Interface: // error
				if !o.IsNil() {
					res[i] = fr.w.eng.mkError(o.Interface().(error).Error())
				}
			}
		}
		if len(res) == 1 {
			return res[0]
		}
		return Value{p: res}
	}
}

// interpBody interprets the real body of an intrinsic function.
func (w *W) interpBody(fr *frame, name string, a []Value) Value {
	e := w.eng
	var fn *ssa.Function
	if i := strings.LastIndex(name, "."); i > 0 && !strings.HasPrefix(name, "(") {
		if p := e.prog.ImportedPackage(name[:i]); p != nil {
			fn = p.Func(name[i+1:])
		}
	}
	if strings.HasPrefix(name, "(*") {
		if i := strings.LastIndex(name, ")."); i > 0 {
			tn := name[2:i]
			if k := strings.LastIndex(tn, "."); k > 0 {
				if p := e.prog.ImportedPackage(tn[:k]); p != nil {
					if t := p.Type(tn[k+1:]); t != nil {
						fn = e.prog.LookupMethod(types.NewPointer(t.Type()), p.Pkg, name[i+2:])
					}
				}
			}
		}
	}
	if fn == nil {
		w.unsup("symbolic argument to native %s", name)
	}
	type bodyKey struct{ f *ssa.Function }
	var cf *cFunc
	if c, ok := e.methods.Load(bodyKey{fn}); ok {
		cf = c.(*cFunc)
	} else {
		e.compMu.Lock()
		save := intrinsics[name]
		intrMu.Lock()
		delete(intrinsics, name)
		cf = e.compile1(fn)
		intrinsics[name] = save
		intrMu.Unlock()
		e.compMu.Unlock()
		e.methods.Store(bodyKey{fn}, cf)
	}
	if cf.external || cf.intr != nil {
		w.unsup("symbolic argument to native %s", name)
	}
	f2 := &frame{w: w, cf: cf, caller: fr}
	f2.r = make([]Value, cf.nslots)
	copy(f2.r, a)
	w.depth++
	w.cur.top = f2
	f2.block = cf.blocks[0]
	if cf.hasDefer {
		f2.runProtected()
	} else {
		f2.run()
	}
	w.cur.top = fr
	w.depth--
	return f2.result
}

// ---- hashing

type hashApp struct {
	kind string
	in   []Value
	out  []Value
	outT *Term // nil when concrete
	conc *big.Int
}

func (w *W) hash(kind string, in []Value, outLen int, f func([]byte) []byte) []Value {
	if w.inInit > 0 {
		b := f(valsToBytes(in))
		w.eng.initHashes.Store(string(b), &hashApp{kind: kind, in: append([]Value(nil), in...), out: bytesToVals(b), conc: new(big.Int).SetBytes(b)})
		return bytesToVals(b)
	}
	if valsConcrete(in) {
		b := f(valsToBytes(in))
		cp := append([]Value(nil), in...)
		if _, dup := w.concHash[string(b)]; dup {
			return bytesToVals(b)
		}
		app := &hashApp{kind: kind, in: cp, out: bytesToVals(b), conc: new(big.Int).SetBytes(b)}
		w.concHash[string(b)] = app
		if w.spec == 0 {
			// relate to earlier symbolic applications
			for _, h := range w.activeHash {
				if len(h.in) == len(in) || kind == "ecrecover" {
					w.relate(app, h)
				}
			}
		}
		if len(w.hashes) < 4000 {
			w.hashes = append(w.hashes, app)
		}
		return append([]Value(nil), app.out...)
	}
	for _, h := range w.hashes {
		if h.kind == kind && len(h.in) == len(in) {
			eq := true
			for i := range in {
				if !same(h.in[i], in[i]) {
					eq = false
					break
				}
			}
			if eq {
				return append([]Value(nil), h.out...)
			}
		}
	}
	if w.spec > 0 {
		panic(specAbort{})
	}
	n := w.symN["!hash"]
	w.symN["!hash"] = n + 1
	nm := fmt.Sprintf("!hash_%s_%d", kind, n)
	t := w.newVar(nm, SInt, 0, pow2(8*outLen-8), new(big.Int).Sub(pow2(8*outLen), big1))
	app := &hashApp{kind: kind, in: append([]Value(nil), in...), outT: t}
	app.out = w.bigBytes(bnum{t: t}, outLen)
	w.hashes = append(w.hashes, app)
	w.hashVar[t] = app
	return append([]Value(nil), app.out...)
}

// touch asserts the hash axioms for the digests that t mentions: they are
// related, pairwise, when they first take part in a query.
func (w *W) touch(t *Term) {
	if len(w.hashVar) == 0 || w.touched[t] {
		return
	}
	w.touched[t] = true
	if t.op == OpVar {
		if a, ok := w.hashVar[t]; ok {
			act := w.activeHash
			w.activeHash = append(w.activeHash, a)
			for _, h := range act {
				w.relate(a, h)
			}
			for _, h := range w.hashes {
				if h.outT == nil && len(h.in) == len(a.in) {
					w.relate(a, h)
				}
			}
		}
		return
	}
	for _, x := range t.args {
		if x.op != OpConst {
			w.touch(x)
		}
	}
}

// hashSeg: the digest whose complete bytes v starts with, or nil
func (w *W) hashSeg(v []Value) *hashApp {
	t := v[0].term()
	if t == nil || t.op != OpExt {
		return nil
	}
	a := w.hashVar[t.args[0]]
	if a == nil || a.kind == "ecrecover" {
		return nil
	}
	n := len(a.out)
	if len(v) < n {
		return nil
	}
	for i := 0; i < n; i++ {
		x := v[i].term()
		if x == nil || x != a.out[i].term() {
			return nil
		}
	}
	return a
}

// hashEq: ideal hash functions agree exactly on equal inputs
func (w *W) hashEq(a, b *hashApp) *Term {
	if a == b {
		return w.ctx.True
	}
	if a.kind != b.kind || len(a.in) != len(b.in) {
		return w.ctx.False
	}
	k := [2]*hashApp{a, b}
	if t, ok := w.heq[k]; ok {
		return t
	}
	t := w.boolT(w.eqBytes(a.in, b.in))
	w.heq[k] = t
	w.heq[[2]*hashApp{b, a}] = t
	return t
}

// hashEqConc: a digest of symbolic data equals a constant only if the constant is a digest that was computed
func (w *W) hashEqConc(a *hashApp, v []Value) *Term {
	d := string(valsToBytes(v))
	if h, ok := w.concHash[d]; ok {
		return w.hashEq(a, h)
	}
	if h, ok := w.eng.initHashes.Load(d); ok {
		return w.hashEq(a, h.(*hashApp))
	}
	return w.ctx.False
}

func (w *W) relate(a, b *hashApp) {
	if a.kind != b.kind {
		return
	}
	tm := func(h *hashApp) *Term {
		if h.outT != nil {
			return h.outT
		}
		return w.ctx.Int(h.conc)
	}
	oeq := w.ctx.Eq(tm(a), tm(b))
	var c *Term
	if a.kind == "ecrecover" {
		if len(a.in) != len(b.in) {
			return
		}
		c = w.ctx.Implies(w.boolT(w.eqBytes(a.in, b.in)), oeq)
	} else if len(a.in) != len(b.in) {
		c = w.ctx.Not(oeq)
	} else {
		ieq := w.boolT(w.eqBytes(a.in, b.in))
		if ieq == w.ctx.False {
			c = w.ctx.Not(oeq)
		} else {
			c = w.ctx.BEq(ieq, oeq)
		}
	}
	if w.pos < len(w.prefix) {
		w.addPC(c)
	} else {
		w.assume(c)
	}
}

func keccakN(outLen int, dsbyte byte) func([]byte) []byte {
	return func(b []byte) []byte { return keccakSum(b, outLen, dsbyte) }
}

func init() {
	// ---- sync
	mutexLock := func(fr *frame, w *W, a []Value) Value {
		p := a[0].ptr()
		if p == nil {
			fr.rtPanic("invalid memory address or nil pointer dereference")
		}
		ag := p.p.(*Agg)
		w.schedPoint()
		w.block(func() bool { return ag.f[0].n == 0 })
		w.set(&ag.f[0], Value{n: 1})
		return Value{}
	}
	mutexUnlock := func(fr *frame, w *W, a []Value) Value {
		ag := a[0].ptr().p.(*Agg)
		if ag.f[0].n == 0 {
			panic(&targetPanic{msg: "fatal error: sync: unlock of unlocked mutex", trace: stackOf(fr, 8)})
		}
		w.set(&ag.f[0], Value{})
		w.schedPoint()
		return Value{}
	}
	I("(*sync.Mutex).Lock", mutexLock)
	I("(*sync.Mutex).Unlock", mutexUnlock)
	I("(*sync.Mutex).TryLock", func(fr *frame, w *W, a []Value) Value {
		ag := a[0].ptr().p.(*Agg)
		if ag.f[0].n != 0 {
			return boolV(false)
		}
		w.set(&ag.f[0], Value{n: 1})
		return boolV(true)
	})
	// RWMutex: fields w Mutex, writerSem, readerSem, readerCount(atomic.Int32), readerWait
	// f[1].n = writer held, f[2].n = number of readers
	I("(*sync.RWMutex).Lock", func(fr *frame, w *W, a []Value) Value {
		p := a[0].ptr()
		if p == nil {
			fr.rtPanic("invalid memory address or nil pointer dereference")
		}
		ag := p.p.(*Agg)
		w.schedPoint()
		w.block(func() bool { return ag.f[1].n == 0 && ag.f[2].n == 0 })
		w.set(&ag.f[1], Value{n: 1})
		return Value{}
	})
	I("(*sync.RWMutex).Unlock", func(fr *frame, w *W, a []Value) Value {
		ag := a[0].ptr().p.(*Agg)
		if ag.f[1].n == 0 {
			panic(&targetPanic{msg: "fatal error: sync: Unlock of unlocked RWMutex", trace: stackOf(fr, 8)})
		}
		w.set(&ag.f[1], Value{})
		w.schedPoint()
		return Value{}
	})
	I("(*sync.RWMutex).RLock", func(fr *frame, w *W, a []Value) Value {
		p := a[0].ptr()
		if p == nil {
			fr.rtPanic("invalid memory address or nil pointer dereference")
		}
		ag := p.p.(*Agg)
		w.schedPoint()
		w.block(func() bool { return ag.f[1].n == 0 })
		w.set(&ag.f[2], Value{n: ag.f[2].n + 1})
		return Value{}
	})
	I("(*sync.RWMutex).RUnlock", func(fr *frame, w *W, a []Value) Value {
		ag := a[0].ptr().p.(*Agg)
		if ag.f[2].n == 0 {
			panic(&targetPanic{msg: "fatal error: sync: RUnlock of unlocked RWMutex", trace: stackOf(fr, 8)})
		}
		w.set(&ag.f[2], Value{n: ag.f[2].n - 1})
		w.schedPoint()
		return Value{}
	})
	I("(*sync.Once).Do", func(fr *frame, w *W, a []Value) Value {
		ag := a[0].ptr().p.(*Agg)
		d := ag.f[0].p
		// done field is an atomic.Uint32 aggregate
		var cell *Value
		if da, ok := d.(*Agg); ok {
			cell = &da.f[len(da.f)-1]
		} else {
			cell = &ag.f[0]
		}
		if cell.n == 0 {
			w.set(cell, Value{n: 1})
			w.callV(fr, a[1], nil)
		}
		return Value{}
	})
	I("(*sync.Once).doSlow", noopI)
	I("(*sync.WaitGroup).Add", func(fr *frame, w *W, a []Value) Value {
		c := wgCell(a[0])
		w.set(c, Value{n: c.n + a[1].n})
		return Value{}
	})
	I("(*sync.WaitGroup).Done", func(fr *frame, w *W, a []Value) Value {
		c := wgCell(a[0])
		w.set(c, Value{n: c.n - 1})
		if int64(c.n) < 0 {
			fr.goPanic(w.ifaceStr("sync: negative WaitGroup counter"))
		}
		w.schedPoint()
		return Value{}
	})
	I("(*sync.WaitGroup).Wait", func(fr *frame, w *W, a []Value) Value {
		c := wgCell(a[0])
		w.schedPoint()
		w.block(func() bool { return c.n == 0 })
		return Value{}
	})
	I("(*sync.Pool).Get", func(fr *frame, w *W, a []Value) Value {
		ag := a[0].ptr().p.(*Agg)
		nf := ag.f[len(ag.f)-1]
		if nf.p == nil {
			return Value{}
		}
		return w.callV(fr, nf, nil)
	})
	I("(*sync.Pool).Put", noopI)
	// sync.Map -> stored as MapV in the first field
	smap := func(w *W, v Value) *MapV {
		ag := v.ptr().p.(*Agg)
		if m, ok := ag.f[0].p.(*MapV); ok {
			return m
		}
		any := types.NewInterfaceType(nil, nil)
		m := newMap(types.NewMap(any, any))
		w.set(&ag.f[0], Value{p: m})
		return m
	}
	I("(*sync.Map).Load", func(fr *frame, w *W, a []Value) Value {
		e := w.mapFind(smap(w, a[0]), a[1])
		if e == nil {
			return tup(Value{}, boolV(false))
		}
		return tup(e.v, boolV(true))
	})
	I("(*sync.Map).Store", func(fr *frame, w *W, a []Value) Value {
		w.mapSet(smap(w, a[0]), a[1], a[2])
		return Value{}
	})
	I("(*sync.Map).LoadOrStore", func(fr *frame, w *W, a []Value) Value {
		m := smap(w, a[0])
		if e := w.mapFind(m, a[1]); e != nil {
			return tup(e.v, boolV(true))
		}
		w.mapSet(m, a[1], a[2])
		return tup(a[2], boolV(false))
	})
	I("(*sync.Map).Delete", func(fr *frame, w *W, a []Value) Value {
		w.mapDelete(smap(w, a[0]), a[1])
		return Value{}
	})
	I("(*sync.Map).Range", func(fr *frame, w *W, a []Value) Value {
		m := smap(w, a[0])
		for _, e := range append([]*mapEnt{}, m.ents...) {
			if !e.dead && !w.truth(w.callV(fr, a[1], []Value{e.k, e.v})) {
				break
			}
		}
		return Value{}
	})
	// sync.Cond
	I("(*sync.Cond).Wait", func(fr *frame, w *W, a []Value) Value {
		ag := a[0].ptr().p.(*Agg)
		l := ag.f[1].iface()
		gen := &ag.f[2].p.(*Agg).f[0]
		g0 := gen.n
		w.invoke(fr, l, "Unlock")
		w.block(func() bool { return gen.n != g0 })
		w.invoke(fr, l, "Lock")
		return Value{}
	})
	bc := func(fr *frame, w *W, a []Value) Value {
		ag := a[0].ptr().p.(*Agg)
		gen := &ag.f[2].p.(*Agg).f[0]
		w.set(gen, Value{n: gen.n + 1})
		return Value{}
	}
	I("(*sync.Cond).Broadcast", bc)
	I("(*sync.Cond).Signal", bc)

	// ---- atomics
	for _, p := range []string{"sync/atomic.", "internal/runtime/atomic."} {
		for _, k := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
			kk := map[string]types.Type{"Int32": types.Typ[types.Int32], "Int64": types.Typ[types.Int64], "Uint32": types.Typ[types.Uint32], "Uint64": types.Typ[types.Uint64], "Uintptr": types.Typ[types.Uintptr], "Pointer": types.Typ[types.UnsafePointer]}[k]
			I(p+"Load"+k, func(fr *frame, w *W, a []Value) Value {
				if a[0].ptr() == nil {
					fr.derefFail(a[0])
				}
				w.schedPoint()
				return *a[0].ptr()
			})
			I(p+"Store"+k, func(fr *frame, w *W, a []Value) Value {
				if a[0].ptr() == nil {
					fr.derefFail(a[0])
				}
				w.schedPoint()
				w.set(a[0].ptr(), a[1])
				return Value{}
			})
			I(p+"Add"+k, func(fr *frame, w *W, a []Value) Value {
				if a[0].ptr() == nil {
					fr.derefFail(a[0])
				}
				w.schedPoint()
				v := w.binop(tokADD, kk, kk, *a[0].ptr(), a[1])
				w.set(a[0].ptr(), v)
				return v
			})
			I(p+"Swap"+k, func(fr *frame, w *W, a []Value) Value {
				w.schedPoint()
				o := *a[0].ptr()
				w.set(a[0].ptr(), a[1])
				return o
			})
			I(p+"CompareAndSwap"+k, func(fr *frame, w *W, a []Value) Value {
				w.schedPoint()
				if w.truth(w.eq(kk, *a[0].ptr(), a[1])) {
					w.set(a[0].ptr(), a[2])
					return boolV(true)
				}
				return boolV(false)
			})
		}
	}
	I("(*sync/atomic.Value).Load", func(fr *frame, w *W, a []Value) Value {
		if a[0].ptr() == nil {
			fr.derefFail(a[0])
		}
		w.schedPoint()
		return a[0].ptr().p.(*Agg).f[0]
	})
	I("(*sync/atomic.Value).Store", func(fr *frame, w *W, a []Value) Value {
		if a[0].ptr() == nil {
			fr.derefFail(a[0])
		}
		w.schedPoint()
		if a[1].p == nil {
			fr.goPanic(w.ifaceStr("sync/atomic: store of nil value into Value"))
		}
		if o := a[0].ptr().p.(*Agg).f[0].iface(); o != nil && o.t != a[1].iface().t {
			fr.goPanic(w.ifaceStr("sync/atomic: store of inconsistently typed value into Value"))
		}
		w.set(&a[0].ptr().p.(*Agg).f[0], a[1])
		return Value{}
	})

	// ---- fmt / errors / strings
	I("fmt.Sprintf", func(fr *frame, w *W, a []Value) Value { return strV(w.sprintf(fr, a[0], a[1])) })
	I("fmt.Errorf", func(fr *frame, w *W, a []Value) Value {
		fs, _ := concStr(a[0])
		s := w.sprintf(fr, a[0], a[1])
		if strings.Contains(fs, "%w") {
			if t := w.eng.namedType("fmt", "wrapError"); t != nil {
				for _, x := range a[1].slice() {
					if iv := x.iface(); iv != nil && w.eng.methodByName(iv.t, nil, "Error") != nil {
						c := Value{p: &Agg{f: []Value{strV(s), x}}}
						return Value{p: &IfaceV{ptrType((t)), Value{p: &c}}}
					}
				}
			}
		}
		return w.eng.mkError(s)
	})
	I("fmt.Sprint", func(fr *frame, w *W, a []Value) Value { return strV(fmt.Sprint(w.fmtArgs(fr, a[0].slice())...)) })
	I("fmt.Sprintln", func(fr *frame, w *W, a []Value) Value {
		return strV(fmt.Sprintln(w.fmtArgs(fr, a[0].slice())...))
	})
	for _, n := range []string{"fmt.Printf", "fmt.Println", "fmt.Print", "fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint"} {
		I(n, func(fr *frame, w *W, a []Value) Value { return tup(Value{}, Value{}) })
	}
	for _, n := range []string{"log.Printf", "log.Println", "log.Print"} {
		I(n, noopI)
	}
	// bytealg
	I("internal/bytealg.IndexByte", func(fr *frame, w *W, a []Value) Value { return w.indexByte(a[0].slice(), a[1]) })
	I("internal/bytealg.IndexByteString", func(fr *frame, w *W, a []Value) Value { return w.indexByte(strBytes(a[0]), a[1]) })
	I("bytes.IndexByte", func(fr *frame, w *W, a []Value) Value { return w.indexByte(a[0].slice(), a[1]) })
	I("strings.IndexByte", func(fr *frame, w *W, a []Value) Value { return w.indexByte(strBytes(a[0]), a[1]) })
	I("bytes.Equal", func(fr *frame, w *W, a []Value) Value { return w.eqBytes(a[0].slice(), a[1].slice()) })
	I("internal/bytealg.Equal", func(fr *frame, w *W, a []Value) Value { return w.eqBytes(a[0].slice(), a[1].slice()) })
	I("bytes.Compare", func(fr *frame, w *W, a []Value) Value { return w.cmpBytes(a[0].slice(), a[1].slice()) })
	I("internal/bytealg.Compare", func(fr *frame, w *W, a []Value) Value { return w.cmpBytes(a[0].slice(), a[1].slice()) })
	I("strings.Compare", func(fr *frame, w *W, a []Value) Value { return w.cmpBytes(strBytes(a[0]), strBytes(a[1])) })
	I("internal/bytealg.CompareString", func(fr *frame, w *W, a []Value) Value {
		return w.cmpBytes(strBytes(a[0]), strBytes(a[1]))
	})
	I("crypto/subtle.ConstantTimeCompare", func(fr *frame, w *W, a []Value) Value {
		e := w.eqBytes(a[0].slice(), a[1].slice())
		if t := e.term(); t != nil {
			return w.mkInt(w.ctx.Ite(t, w.ctx.IntI(1), w.ctx.IntI(0)), i64k)
		}
		return e
	})
	for _, n := range []string{"bytes.Equal", "bytes.Compare", "(*math/big.Int).Cmp", "(*math/big.Int).Sign"} {
		pureIntrinsics[n] = true
	}
	I("internal/bytealg.MakeNoZero", func(fr *frame, w *W, a []Value) Value {
		n := int(w.concInt(a[0], types.Typ[types.Int]))
		if n < 0 || n > maxAlloc {
			w.unsup("MakeNoZero %d", n)
		}
		return Value{p: &SliceV{make([]Value, n)}}
	})
	I("internal/bytealg.CountString", func(fr *frame, w *W, a []Value) Value {
		s, ok := concStr(a[0])
		if !ok || a[1].isSym() {
			w.unsup("symbolic CountString")
		}
		return intV(strings.Count(s, string([]byte{byte(a[1].n)})))
	})
	I("internal/bytealg.Count", func(fr *frame, w *W, a []Value) Value {
		n := 0
		for _, x := range a[0].slice() {
			if w.truth(w.eq(types.Typ[types.Uint8], x, a[1])) {
				n++
			}
		}
		return intV(n)
	})
	I("internal/stringslite.Clone", func(fr *frame, w *W, a []Value) Value { return a[0] })
	I("strings.Clone", func(fr *frame, w *W, a []Value) Value { return a[0] })
	I("(*strings.Builder).copyCheck", noopI)
	I("internal/abi.NoEscape", func(fr *frame, w *W, a []Value) Value { return a[0] })
	I("internal/abi.Escape", func(fr *frame, w *W, a []Value) Value { return a[0] })
	native("strings.Index", strings.Index)
	native("strings.Contains", strings.Contains)
	native("strings.ToLower", strings.ToLower)
	native("strings.ToUpper", strings.ToUpper)
	native("strings.Split", strings.Split)
	native("strings.Join", strings.Join)
	native("strings.TrimSpace", strings.TrimSpace)
	native("strings.Replace", strings.Replace)
	native("strings.Repeat", strings.Repeat)
	native("strings.Title", strings.Title)
	native("strings.Fields", strings.Fields)
	native("strings.EqualFold", strings.EqualFold)
	native("strconv.Itoa", strconv.Itoa)
	native("strconv.FormatInt", strconv.FormatInt)
	native("strconv.FormatUint", strconv.FormatUint)
	native("strconv.Quote", strconv.Quote)
	native("strconv.Atoi", strconv.Atoi)
	native("strconv.FormatFloat", strconv.FormatFloat)
	native("strconv.ParseFloat", strconv.ParseFloat)
	native("unicode/utf8.ValidString", utf8.ValidString)
	// math
	native("math.Floor", math.Floor)
	native("math.Ceil", math.Ceil)
	native("math.Trunc", math.Trunc)
	native("math.Sqrt", math.Sqrt)
	native("math.Pow", math.Pow)
	native("math.Log", math.Log)
	native("math.Log2", math.Log2)
	native("math.Log10", math.Log10)
	native("math.Exp", math.Exp)
	native("math.Abs", math.Abs)
	native("math.Max", math.Max)
	native("math.Min", math.Min)
	native("math.Float64bits", math.Float64bits)
	native("math.Float64frombits", math.Float64frombits)
	native("math.Float32bits", math.Float32bits)
	native("math.Float32frombits", math.Float32frombits)
	native("math.IsNaN", math.IsNaN)
	native("math.Inf", math.Inf)
	native("math.NaN", math.NaN)
	native("math.Mod", math.Mod)

	// ---- runtime / time / os
	for _, n := range []string{"runtime.Gosched", "runtime.GC", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime/debug.SetGCPercent",
		"runtime/debug.PrintStack", "runtime/debug.FreeOSMemory", "os/signal.Notify", "internal/race.Acquire", "internal/race.Release",
		"internal/race.ReleaseMerge", "internal/race.Disable", "internal/race.Enable", "internal/race.Read", "internal/race.Write", "internal/race.ReadRange", "internal/race.WriteRange", "internal/race.Errors"} {
		I(n, noopI)
	}
	I("runtime.NumCPU", func(fr *frame, w *W, a []Value) Value { return intV(2) })
	I("runtime.GOMAXPROCS", func(fr *frame, w *W, a []Value) Value { return intV(2) })
	I("runtime.NumGoroutine", func(fr *frame, w *W, a []Value) Value { return intV(1) })
	I("runtime.Caller", func(fr *frame, w *W, a []Value) Value { return tup(Value{}, strV("?"), Value{}, boolV(false)) })
	I("runtime.Callers", func(fr *frame, w *W, a []Value) Value { return Value{} })
	I("runtime/debug.Stack", func(fr *frame, w *W, a []Value) Value { return Value{} })
	I("runtime.Goexit", func(fr *frame, w *W, a []Value) Value { panic(&targetPanic{goexit: true}) })
	I("os.Getenv", func(fr *frame, w *W, a []Value) Value { return strV("") })
	I("os.Getpid", func(fr *frame, w *W, a []Value) Value { return intV(1000) })
	I("os.Exit", func(fr *frame, w *W, a []Value) Value {
		panic(&targetPanic{msg: "os.Exit", trace: stackOf(fr, 8)})
	})
	I("errors.runtime_", noopI)
	// time: wall clock advances by one second per reading
	I("time.Now", func(fr *frame, w *W, a []Value) Value {
		w.clock++
		t := w.eng.namedType("time", "Time")
		v := zeroValue(t)
		ag := v.agg()
		// wall=0 (nsec only), ext = seconds since year 1
		ag.f[1] = Value{n: uint64(w.clock + 62135596800)}
		return v
	})
	I("time.runtimeNano", func(fr *frame, w *W, a []Value) Value { return Value{n: uint64(w.clock * 1e9)} })
	I("github.com/aristanetworks/goarista/monotime.nanotime", func(fr *frame, w *W, a []Value) Value { return Value{n: uint64(w.clock * 1e9)} })
	I("time.runtimeNow", func(fr *frame, w *W, a []Value) Value { return Value{n: uint64(w.clock * 1e9)} })
	I("time.Sleep", func(fr *frame, w *W, a []Value) Value { w.clock++; w.yield(); return Value{} })
	I("time.After", func(fr *frame, w *W, a []Value) Value { return Value{p: &ChanV{cap: 1}} })
	I("time.NewTimer", func(fr *frame, w *W, a []Value) Value { return w.newTimer("Timer") })
	I("time.NewTicker", func(fr *frame, w *W, a []Value) Value { return w.newTimer("Ticker") })
	I("time.AfterFunc", func(fr *frame, w *W, a []Value) Value { return w.newTimer("Timer") })
	I("(*time.Timer).Stop", func(fr *frame, w *W, a []Value) Value { return boolV(true) })
	I("(*time.Timer).Reset", func(fr *frame, w *W, a []Value) Value { return boolV(true) })
	I("(*time.Ticker).Stop", noopI)
	// rand: fixed stream (documented assumption)
	for _, n := range []string{"math/rand.Int63", "math/rand.Uint32", "math/rand.Int", "math/rand.Uint64", "math/rand.Int31"} {
		I(n, func(fr *frame, w *W, a []Value) Value { return Value{n: 4} })
	}
	for _, n := range []string{"math/rand.Intn", "math/rand.Int63n", "math/rand.Int31n"} {
		I(n, func(fr *frame, w *W, a []Value) Value { return Value{} })
	}
	I("math/rand.Seed", noopI)
	I("math/rand.Float64", func(fr *frame, w *W, a []Value) Value { return Value{} })
	I("crypto/rand.Read", func(fr *frame, w *W, a []Value) Value {
		for i := range a[0].slice() {
			w.set(&a[0].slice()[i], Value{n: uint64(i*7+1) & 0xff})
		}
		return tup(intV(len(a[0].slice())), Value{})
	})

	// ---- hashing
	sp := ethp + "crypto/sha3"
	buf := func(v Value) *Value { // storage field for absorbed data: "buf"
		return &v.ptr().p.(*Agg).f[1]
	}
	I("(*"+sp+".state).Write", func(fr *frame, w *W, a []Value) Value {
		b := buf(a[0])
		n := append(append([]Value{}, b.slice()...), a[1].slice()...)
		w.set(b, Value{p: &SliceV{n}})
		return tup(intV(len(a[1].slice())), Value{})
	})
	I("(*"+sp+".state).Reset", func(fr *frame, w *W, a []Value) Value { w.set(buf(a[0]), Value{}); return Value{} })
	stOut := func(fr *frame, w *W, v Value, n int) []Value {
		ag := v.ptr().p.(*Agg)
		ds := byte(ag.f[4-1].n)
		st := under(w.eng.namedType(sp, "state")).(*types.Struct)
		ol := 0
		for i := 0; i < st.NumFields(); i++ {
			switch st.Field(i).Name() {
			case "dsbyte":
				ds = byte(ag.f[i].n)
			case "outputLen":
				ol = ag.f[i].int()
			}
		}
		if n < 0 {
			n = ol
		}
		kind := fmt.Sprintf("keccak%d_%d", n*8, ds)
		return w.hash(kind, buf(v).slice(), n, func(b []byte) []byte { return keccakSum(b, n, ds) })
	}
	I("(*"+sp+".state).Sum", func(fr *frame, w *W, a []Value) Value {
		out := stOut(fr, w, a[0], -1)
		return w.appendV(a[1], out, types.Typ[types.Uint8])
	})
	I("(*"+sp+".state).Read", func(fr *frame, w *W, a []Value) Value {
		dst := a[1].slice()
		ol := len(dst)
		out := stOut(fr, w, a[0], ol)
		w.copyCells(dst, out)
		return tup(intV(len(dst)), Value{})
	})
	I(sp+".NewKeccak256", func(fr *frame, w *W, a []Value) Value { return w.newSponge(sp, 32, 136, 1) })
	I(sp+".NewKeccak512", func(fr *frame, w *W, a []Value) Value { return w.newSponge(sp, 64, 72, 1) })
	I(sp+".New256", func(fr *frame, w *W, a []Value) Value { return w.newSponge(sp, 32, 136, 6) })
	I(sp+".New512", func(fr *frame, w *W, a []Value) Value { return w.newSponge(sp, 64, 72, 6) })
	I("crypto/sha256.Sum256", func(fr *frame, w *W, a []Value) Value {
		out := w.hash("sha256", a[0].slice(), 32, func(b []byte) []byte { h := sha256.Sum256(b); return h[:] })
		return Value{p: &Agg{f: out}}
	})
	cat := func(vs []Value) []Value {
		var in []Value
		for _, s := range vs {
			in = append(in, s.slice()...)
		}
		return in
	}
	I(ethp+"crypto.Keccak256", func(fr *frame, w *W, a []Value) Value {
		return Value{p: &SliceV{w.hash("keccak256_1", cat(a[0].slice()), 32, keccakN(32, 1))}}
	})
	I(ethp+"crypto.Keccak256Hash", func(fr *frame, w *W, a []Value) Value {
		return Value{p: &Agg{f: w.hash("keccak256_1", cat(a[0].slice()), 32, keccakN(32, 1))}}
	})
	I(ethp+"crypto.Keccak512", func(fr *frame, w *W, a []Value) Value {
		return Value{p: &SliceV{w.hash("keccak512_1", cat(a[0].slice()), 64, keccakN(64, 1))}}
	})
	// secp256k1
	I(ethp+"crypto.Ecrecover", func(fr *frame, w *W, a []Value) Value { return w.ecrecover(fr, a[0].slice(), a[1].slice()) })
	I(ethp+"crypto/secp256k1.RecoverPubkey", func(fr *frame, w *W, a []Value) Value { return w.ecrecover(fr, a[0].slice(), a[1].slice()) })
	I(ethp+"crypto/secp256k1.VerifySignature", func(fr *frame, w *W, a []Value) Value { w.unsup("VerifySignature"); return Value{} })
	I(ethp+"crypto/secp256k1.Sign", func(fr *frame, w *W, a []Value) Value {
		if !valsConcrete(a[0].slice()) || !valsConcrete(a[1].slice()) {
			w.unsup("signing symbolic data")
		}
		sig := ecSign(valsToBytes(a[0].slice()), valsToBytes(a[1].slice()))
		if sig == nil {
			return tup(Value{}, w.eng.mkError("invalid private key"))
		}
		return tup(sliceOfBytes(sig), Value{})
	})
	I("(*"+ethp+"crypto/secp256k1.BitCurve).ScalarMult", func(fr *frame, w *W, a []Value) Value {
		x, y := w.concBigInt(w.getBig(fr, a[1])), w.concBigInt(w.getBig(fr, a[2]))
		if !valsConcrete(a[3].slice()) {
			w.unsup("scalar multiplication of symbolic data")
		}
		p := ecMul(new(big.Int).SetBytes(valsToBytes(a[3].slice())), ecp{x, y})
		if p.x == nil {
			return tup(w.newBig(bnum{c: new(big.Int)}), w.newBig(bnum{c: new(big.Int)}))
		}
		return tup(w.newBig(bnum{c: p.x}), w.newBig(bnum{c: p.y}))
	})
	I(ethp+"crypto.secp256k1Recover", func(fr *frame, w *W, a []Value) Value { return w.ecrecover(fr, a[0].slice(), a[1].slice()) })
	I(ethp+"common/math.PaddedBigBytes", func(fr *frame, w *W, a []Value) Value {
		b := w.getBig(fr, a[0])
		n := int(w.concInt(a[1], types.Typ[types.Int]))
		if b.t != nil && b.t.lo != nil && b.t.lo.Sign() >= 0 && b.t.hi != nil && b.t.hi.BitLen() <= 8*n {
			return Value{p: &SliceV{w.bigBytes(b, n)}}
		}
		if b.t != nil && w.truth(w.boolVal(w.ctx.And(w.ctx.Le(w.ctx.IntI(0), b.t), w.ctx.Lt(b.t, w.ctx.Int(pow2(8*n)))))) {
			return Value{p: &SliceV{w.bigBytes(b, n)}}
		}
		r := w.bigBytes(b, -1)
		for len(r) < n {
			r = append([]Value{{}}, r...)
		}
		return Value{p: &SliceV{r}}
	})
	I(ethp+"common/math.ReadBits", func(fr *frame, w *W, a []Value) Value {
		b := w.getBig(fr, a[0])
		dst := a[1].slice()
		w.copyCells(dst, w.bigBytes(b, len(dst)))
		return Value{}
	})
	I(ethp+"common/math.U256", func(fr *frame, w *W, a []Value) Value {
		b := w.getBig(fr, a[0])
		if b.t == nil {
			m := new(big.Int).Sub(pow2(256), big1)
			return w.setBig(fr, a[0], bnum{c: new(big.Int).And(b.c, m)})
		}
		if b.t.lo != nil && b.t.hi != nil && b.t.lo.Sign() >= 0 && b.t.hi.BitLen() <= 256 {
			return a[0]
		}
		return w.setBig(fr, a[0], bnum{t: w.ctx.ModK(b.t, pow2(256))})
	})
	I("encoding/hex.DecodeString", func(fr *frame, w *W, a []Value) Value { return w.interpBody(fr, "encoding/hex.DecodeString", a) })
	I("math/bits.Len64", func(fr *frame, w *W, a []Value) Value { return w.bitsLen(a[0], u64k) })
	I("math/bits.Len", func(fr *frame, w *W, a []Value) Value { return w.bitsLen(a[0], u64k) })
	I("math/bits.Len32", func(fr *frame, w *W, a []Value) Value { return w.bitsLen(a[0], intInfo{32, false}) })
	I("math/bits.Len8", func(fr *frame, w *W, a []Value) Value { return w.bitsLen(a[0], u8k) })
	I("internal/godebug.New", func(fr *frame, w *W, a []Value) Value {
		v := zeroValue(w.eng.namedType("internal/godebug", "Setting"))
		return Value{p: &v}
	})
	I("(*internal/godebug.Setting).Value", func(fr *frame, w *W, a []Value) Value { return strV("") })
	I("(*internal/godebug.Setting).IncNonDefault", noopI)
}

func (w *W) bitsLen(v Value, k intInfo) Value {
	if t := v.term(); t != nil {
		return w.bigBitLen(bnum{t: w.toInt(v, k)})
	}
	return intV(new(big.Int).SetUint64(v.n).BitLen())
}

func noopI(fr *frame, w *W, a []Value) Value { return Value{} }

func wgCell(v Value) *Value {
	ag := v.ptr().p.(*Agg)
	return &ag.f[len(ag.f)-1] // sema field used as the counter
}

func (w *W) newTimer(name string) Value {
	v := zeroValue(w.eng.namedType("time", name))
	v.agg().f[0] = Value{p: &ChanV{cap: 1}}
	return Value{p: &v}
}

func (w *W) newSponge(sp string, out, rate int, ds byte) Value {
	t := w.eng.namedType(sp, "state")
	v := zeroValue(t)
	st := under(t).(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		switch st.Field(i).Name() {
		case "dsbyte":
			v.agg().f[i] = Value{n: uint64(ds)}
		case "outputLen":
			v.agg().f[i] = intV(out)
		case "rate":
			v.agg().f[i] = intV(rate)
		}
	}
	return Value{p: &IfaceV{ptrType((t)), Value{p: &v}}}
}

func (w *W) indexByte(b []Value, c Value) Value {
	for i := range b {
		if w.truth(w.eq(types.Typ[types.Uint8], b[i], c)) {
			return intV(i)
		}
	}
	return intV(-1)
}
