package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
)

const symPkg = repoMod + "/verifsym"
const repoMod = "github.com/QuarkChain/goquarkchain"

func floatOf(v Value) float64 { return math.Float64frombits(v.n) }

func (w *W) symName(v Value) string {
	s, ok := concStr(v)
	if !ok {
		w.unsup("symbolic variable name")
	}
	n := w.symN[s]
	w.symN[s] = n + 1
	if n > 0 {
		s = fmt.Sprintf("%s#%d", s, n)
	}
	return s
}

func (w *W) input(name string, t *Term, kind string) *Term {
	w.inputs = append(w.inputs, symInput{name, t, kind})
	return t
}

func (w *W) intInput(name string, k intInfo) Value {
	lo, hi := k.rng()
	return Value{p: w.input(name, w.newVar(name, SInt, 0, lo, hi), "int")}
}

func init() {
	R := func(name string, f func(fr *frame, w *W, a []Value) Value) {
		intrinsics[symPkg+"."+name] = func(fr *frame, a []Value) Value {
			if fr.w.spec > 0 {
				panic(specAbort{})
			}
			return f(fr, fr.w, a)
		}
	}
	R("U64", func(fr *frame, w *W, a []Value) Value { return w.intInput(w.symName(a[0]), u64k) })
	R("U32", func(fr *frame, w *W, a []Value) Value { return w.intInput(w.symName(a[0]), intInfo{32, false}) })
	R("U16", func(fr *frame, w *W, a []Value) Value { return w.intInput(w.symName(a[0]), intInfo{16, false}) })
	R("U8", func(fr *frame, w *W, a []Value) Value { return w.intInput(w.symName(a[0]), u8k) })
	R("I64", func(fr *frame, w *W, a []Value) Value { return w.intInput(w.symName(a[0]), i64k) })
	R("Bool", func(fr *frame, w *W, a []Value) Value {
		n := w.symName(a[0])
		return Value{p: w.input(n, w.newVar(n, SBool, 0, nil, nil), "bool")}
	})
	bv := func(name string, width int) {
		R(name, func(fr *frame, w *W, a []Value) Value {
			n := w.symName(a[0])
			return Value{p: w.input(n, w.newVar(n, SBV, width, nil, nil), "bv")}
		})
	}
	bv("BV64", 64)
	bv("BV32", 32)
	bv("BV8", 8)
	rng := func(name string, k intInfo) {
		R(name, func(fr *frame, w *W, a []Value) Value {
			n := w.symName(a[0])
			lo, hi := concBig(a[1].n, k), concBig(a[2].n, k)
			if a[1].isSym() || a[2].isSym() || lo.Cmp(hi) > 0 {
				w.unsup("bad range for %s", n)
			}
			t := w.input(n, w.newVar(n, SInt, 0, lo, hi), "int")
			if lo.Cmp(hi) == 0 {
				w.assume(w.ctx.Eq(t, w.ctx.Int(lo)))
				return Value{n: a[1].n}
			}
			return Value{p: t}
		})
	}
	rng("U64r", u64k)
	rng("Int", i64k)
	bytesI := func(fr *frame, w *W, a []Value) []Value {
		n := w.symName(a[0])
		k := int(w.concInt(a[1], types.Typ[types.Int]))
		r := make([]Value, k)
		for i := range r {
			nm := fmt.Sprintf("%s[%d]", n, i)
			r[i] = Value{p: w.input(nm, w.newVar(nm, SInt, 0, big0, big.NewInt(255)), "int")}
		}
		return r
	}
	R("Bytes", func(fr *frame, w *W, a []Value) Value { return Value{p: &SliceV{bytesI(fr, w, a)}} })
	// wide: bytes that are the big-endian digits of one integer variable
	R("WideBytes", func(fr *frame, w *W, a []Value) Value {
		n := w.symName(a[0])
		k := int(w.concInt(a[1], types.Typ[types.Int]))
		t := w.input(n, w.newVar(n, SInt, 0, big0, new(big.Int).Sub(pow2(8*k), big1)), "int")
		return Value{p: &SliceV{w.bigBytes(bnum{t: t}, k)}}
	})
	R("BVBytes", func(fr *frame, w *W, a []Value) Value {
		n := w.symName(a[0])
		k := int(w.concInt(a[1], types.Typ[types.Int]))
		r := make([]Value, k)
		for i := range r {
			nm := fmt.Sprintf("%s[%d]", n, i)
			r[i] = Value{p: w.input(nm, w.newVar(nm, SBV, 8, nil, nil), "bv")}
		}
		return Value{p: &SliceV{r}}
	})
	R("Big", func(fr *frame, w *W, a []Value) Value {
		n := w.symName(a[0])
		lo, hi := w.getBig(fr, a[1]), w.getBig(fr, a[2])
		if lo.t != nil || hi.t != nil {
			w.unsup("symbolic range")
		}
		t := w.input(n, w.newVar(n, SInt, 0, lo.c, hi.c), "int")
		return w.newBig(bnum{t: t})
	})
	R("Choose", func(fr *frame, w *W, a []Value) Value {
		n := w.symName(a[0])
		k := int(w.concInt(a[1], types.Typ[types.Int]))
		c := w.choose(k)
		w.input(n, w.ctx.IntI(int64(c)), "int")
		return intV(c)
	})
	R("Concrete", func(fr *frame, w *W, a []Value) Value {
		if t := a[0].term(); t != nil {
			return Value{n: uint64(w.concInt(a[0], types.Typ[types.Int]))}
		}
		return a[0]
	})
	R("ConcreteU64", func(fr *frame, w *W, a []Value) Value {
		if t := a[0].term(); t != nil {
			return Value{n: w.concretise(t).Uint64()}
		}
		return a[0]
	})
	R("Assume", func(fr *frame, w *W, a []Value) Value {
		if t := a[0].term(); t != nil {
			if w.pos < len(w.prefix) {
				w.addPC(t)
			} else {
				w.assume(t)
			}
		} else if a[0].n == 0 {
			panic(&pathAbort{abAssume, "assume"})
		}
		return Value{}
	})
	R("Assert", func(fr *frame, w *W, a []Value) Value {
		label, _ := concStr(a[1])
		w.doAssert(fr, a[0], label)
		return Value{}
	})
	R("Reach", func(fr *frame, w *W, a []Value) Value {
		label, _ := concStr(a[0])
		w.reach[label] = true
		return Value{}
	})
	R("Observe", func(fr *frame, w *W, a []Value) Value {
		label, _ := concStr(a[0])
		iv := a[1].iface()
		if iv == nil {
			w.obs = append(w.obs, Obs{label, types.Universe.Lookup("error").Type(), Value{}})
			return Value{}
		}
		w.obs = append(w.obs, Obs{label, iv.t, w.snapshot(iv.t, iv.v)})
		return Value{}
	})
	R("ExploreSchedules", func(fr *frame, w *W, a []Value) Value {
		w.explore = true
		w.preempt = a[0].int()
		return Value{}
	})
	R("MapOrders", func(fr *frame, w *W, a []Value) Value {
		w.mapOrder = a[0].n != 0
		return Value{}
	})
	R("Bound", func(fr *frame, w *W, a []Value) Value {
		if w.eng.opts.tier == "thorough" {
			return a[2]
		}
		return a[1]
	})
	R("Symbolic", func(fr *frame, w *W, a []Value) Value { return boolV(true) })
	R("Ite64", func(fr *frame, w *W, a []Value) Value {
		c := a[0]
		if t := c.term(); t != nil {
			v, _ := w.mergeVal(t, a[1], a[2], types.Typ[types.Uint64])
			return v
		}
		if c.n != 0 {
			return a[1]
		}
		return a[2]
	})
	lg := func(name string, f func(w *W, x, y *Term) *Term) {
		R(name, func(fr *frame, w *W, a []Value) Value {
			return w.boolVal(f(w, w.boolT(a[0]), w.boolT(a[1])))
		})
	}
	lg("And", func(w *W, x, y *Term) *Term { return w.ctx.And(x, y) })
	lg("Or", func(w *W, x, y *Term) *Term { return w.ctx.Or(x, y) })
	lg("Iff", func(w *W, x, y *Term) *Term { return w.ctx.BEq(x, y) })
	lg("Implies", func(w *W, x, y *Term) *Term { return w.ctx.Implies(x, y) })
}

// snapshot copies mutable contents so that later writes do not change an observation.
func (w *W) snapshot(t types.Type, v Value) Value {
	switch u := under(t).(type) {
	case *types.Slice:
		if v.p == nil {
			return v
		}
		s := v.slice()
		r := make([]Value, len(s))
		for i := range s {
			r[i] = w.snapshot(u.Elem(), s[i])
		}
		return Value{p: &SliceV{r}}
	case *types.Pointer:
		if p := v.ptr(); p != nil && isBigInt(u.Elem()) {
			c := copyVal(*p)
			return Value{p: &c}
		}
		return v
	case *types.Interface:
		if iv := v.iface(); iv != nil {
			return Value{p: &IfaceV{iv.t, w.snapshot(iv.t, iv.v)}}
		}
	}
	return copyVal(v)
}

func (w *W) doAssert(fr *frame, v Value, label string) {
	w.nAssert++
	w.eng.noteAssert(label)
	t := v.term()
	if t == nil {
		if v.n != 0 {
			return
		}
		w.needModelForReport()
		w.eng.violation(w, label, "assertion failed: "+label, w.model)
		panic(&pathAbort{abViolation, label})
	}
	if kv, ok := w.known[t]; ok && kv {
		return
	}
	if w.pos < len(w.prefix) {
		// already checked on the path that created this prefix
		w.addPC(t)
		return
	}
	w.eng.checkBudget(w)
	w.touch(t)
	if w.model != nil {
		if x := w.ev.eval(t); x != nil && x.Sign() == 0 {
			w.eng.violation(w, label, "assertion failed: "+label, w.model)
			w.assume(t)
			return
		}
	}
	r, m := w.solver.Check(w.ctx.Not(t), true)
	switch r {
	case Sat:
		w.eng.violation(w, label, "assertion failed: "+label, m)
		w.assume(t)
	case Unknown:
		w.note("unknown-assert", "solver unknown on assertion "+label+w.where())
		w.addPC(t)
	default:
		w.learn(t, true)
	}
}

func (w *W) needModelForReport() {
	defer func() { recover() }()
	w.needModel()
}
