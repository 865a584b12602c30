package main

import (
	"go/types"
	"math/big"
)

// math/big.Int is modelled by an exact mathematical integer stored in the
// second field of the struct (the nat slot).

type bnum struct {
	c *big.Int
	t *Term
}

func isBigInt(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "Int" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "math/big"
}

func (w *W) getBigAgg(a *Agg) bnum {
	switch x := a.f[1].p.(type) {
	case nil:
		return bnum{c: big0}
	case *big.Int:
		return bnum{c: x}
	case *Term:
		return bnum{t: x}
	case *SliceV:
		r := new(big.Int)
		for i := len(x.f) - 1; i >= 0; i-- {
			if x.f[i].isSym() {
				w.unsup("symbolic big.Word")
			}
			r.Lsh(r, 64)
			r.Or(r, new(big.Int).SetUint64(x.f[i].n))
		}
		if a.f[0].n != 0 {
			r.Neg(r)
		}
		return bnum{c: r}
	}
	w.unsup("big.Int representation %T", a.f[1].p)
	return bnum{}
}

func (w *W) getBig(fr *frame, v Value) bnum {
	p := v.ptr()
	if p == nil {
		if fr == nil {
			return bnum{c: big0}
		}
		fr.rtPanic("invalid memory address or nil pointer dereference")
	}
	return w.getBigAgg(p.p.(*Agg))
}

func (w *W) bt(b bnum) *Term {
	if b.t != nil {
		return b.t
	}
	return w.ctx.Int(b.c)
}

func (w *W) setBig(fr *frame, v Value, b bnum) Value {
	p := v.ptr()
	if p == nil {
		fr.rtPanic("invalid memory address or nil pointer dereference")
	}
	a := p.p.(*Agg)
	var nv Value
	if b.t != nil && b.t.isConst() {
		b = bnum{c: b.t.val}
	}
	if b.t != nil {
		nv = Value{p: b.t}
	} else if b.c.Sign() == 0 {
		nv = Value{}
	} else {
		nv = Value{p: new(big.Int).Set(b.c)}
	}
	if w.spec > 0 {
		panic(specAbort{})
	}
	w.set(&a.f[1], nv)
	if a.f[0].n != 0 {
		w.set(&a.f[0], Value{})
	}
	return v
}

func (w *W) newBig(b bnum) Value {
	c := Value{p: &Agg{f: []Value{{}, {}}}}
	v := Value{p: &c}
	a := c.p.(*Agg)
	if b.t != nil && b.t.isConst() {
		b = bnum{c: b.t.val}
	}
	if b.t != nil {
		a.f[1] = Value{p: b.t}
	} else if b.c.Sign() != 0 {
		a.f[1] = Value{p: new(big.Int).Set(b.c)}
	}
	return v
}

func bothC(a, b bnum) bool { return a.t == nil && b.t == nil }

func (w *W) bigBin(fr *frame, z Value, a, b bnum, cf func(z, x, y *big.Int) *big.Int, sf func(x, y *Term) *Term) Value {
	if bothC(a, b) {
		return w.setBig(fr, z, bnum{c: cf(new(big.Int), a.c, b.c)})
	}
	return w.setBig(fr, z, bnum{t: sf(w.bt(a), w.bt(b))})
}

func (w *W) bigZeroCheck(fr *frame, b bnum) {
	if b.t == nil {
		if b.c.Sign() == 0 {
			fr.goPanic(fr.w.ifaceStr("division by zero"))
		}
		return
	}
	if w.truth(w.boolVal(w.ctx.Eq(b.t, w.ctx.IntI(0)))) {
		fr.goPanic(fr.w.ifaceStr("division by zero"))
	}
}

func (w *W) ifaceStr(s string) Value {
	return Value{p: &IfaceV{canon(types.Typ[types.String]), strV(s)}}
}

// concBigInt concretises (forks)
func (w *W) concBigInt(b bnum) *big.Int {
	if b.t == nil {
		return b.c
	}
	return w.concretise(b.t)
}

// number of bytes of |x| by forking on thresholds
func (w *W) bigByteLen(x *Term) int {
	c := w.ctx
	lo, hi := 0, 0
	if x.hi == nil {
		w.unsup("Bytes of unbounded symbolic big.Int")
	}
	hi = (x.hi.BitLen() + 7) / 8
	if x.lo != nil && x.lo.Sign() > 0 {
		lo = (x.lo.BitLen() + 7) / 8
	}
	for n := lo; n < hi; n++ {
		// fits in n bytes?
		if w.decide(c.Lt(x, c.Int(pow2(8*n)))) {
			return n
		}
	}
	return hi
}

func (w *W) bigAbs(b bnum) bnum {
	if b.t == nil {
		return bnum{c: new(big.Int).Abs(b.c)}
	}
	if b.t.lo != nil && b.t.lo.Sign() >= 0 {
		return b
	}
	if w.truth(w.boolVal(w.ctx.Lt(b.t, w.ctx.IntI(0)))) {
		return bnum{t: w.ctx.Neg(b.t)}
	}
	// clamp the range knowledge
	return b
}

func (w *W) bigBytes(b bnum, n int) []Value { // n<0: minimal
	b = w.bigAbs(b)
	if b.t == nil {
		bs := b.c.Bytes()
		if n >= 0 {
			out := make([]byte, n)
			copy(out[max(0, n-len(bs)):], bs[max(0, len(bs)-n):])
			bs = out
		}
		return bytesToVals(bs)
	}
	if n < 0 {
		n = w.bigByteLen(b.t)
	}
	r := make([]Value, n)
	for i := 0; i < n; i++ {
		sh := 8 * (n - 1 - i)
		r[i] = w.mkInt(w.ctx.Ext(b.t, sh+7, sh), u8k)
	}
	return r
}

func (w *W) bytesToBig(bs []Value) bnum {
	if valsConcrete(bs) {
		return bnum{c: new(big.Int).SetBytes(valsToBytes(bs))}
	}
	l := newLin()
	n := len(bs)
	for i := range bs {
		w.ctx.toLin(w.toInt(bs[i], u8k), pow2(8*(n-1-i)), l)
	}
	return bnum{t: w.ctx.fromLin(l)}
}

func (w *W) bigBitLen(b bnum) Value {
	if b.t == nil {
		return intV(b.c.BitLen())
	}
	c := w.ctx
	x := b.t
	if x.lo == nil || x.lo.Sign() < 0 {
		x = c.Ite(c.Lt(x, c.IntI(0)), c.Neg(x), x)
		if x.lo == nil || x.lo.Sign() < 0 {
			lo, hi := b.t.lo, b.t.hi
			if lo == nil || hi == nil {
				w.unsup("BitLen of unbounded symbolic big.Int")
			}
			m := maxB(new(big.Int).Abs(lo), new(big.Int).Abs(hi))
			r := c.IntI(int64(m.BitLen()))
			for k := m.BitLen() - 1; k >= 0; k-- {
				r = c.Ite(c.Lt(x, c.Int(pow2(k))), c.IntI(int64(k)), r)
			}
			return w.mkInt(r, i64k)
		}
	}
	if x.hi == nil {
		w.unsup("BitLen of unbounded symbolic big.Int")
	}
	hb, lb := x.hi.BitLen(), x.lo.BitLen()
	if hb == lb {
		return intV(hb)
	}
	r := c.IntI(int64(hb))
	for k := hb - 1; k >= lb; k-- {
		r = c.Ite(c.Lt(x, c.Int(pow2(k))), c.IntI(int64(k)), r)
	}
	return w.mkInt(r, i64k)
}

func (w *W) bigCmp(a, b bnum) Value {
	if bothC(a, b) {
		return intV(a.c.Cmp(b.c))
	}
	c := w.ctx
	x, y := w.bt(a), w.bt(b)
	return w.mkInt(c.Ite(c.Lt(x, y), c.IntI(-1), c.Ite(c.Eq(x, y), c.IntI(0), c.IntI(1))), i64k)
}

func init() {
	R := func(name string, f func(fr *frame, w *W, a []Value) Value) {
		intrinsics["(*math/big.Int)."+name] = func(fr *frame, a []Value) Value { return f(fr, fr.w, a) }
	}
	intrinsics["math/big.NewInt"] = func(fr *frame, a []Value) Value {
		return fr.w.newBig(bnum{t: fr.w.toInt(a[0], i64k)})
	}
	bin := func(name string, cf func(z, x, y *big.Int) *big.Int, sf func(w *W, x, y *Term) *Term) {
		R(name, func(fr *frame, w *W, a []Value) Value {
			return w.bigBin(fr, a[0], w.getBig(fr, a[1]), w.getBig(fr, a[2]), cf, func(x, y *Term) *Term { return sf(w, x, y) })
		})
	}
	bin("Add", (*big.Int).Add, func(w *W, x, y *Term) *Term { return w.ctx.Add(x, y) })
	bin("Sub", (*big.Int).Sub, func(w *W, x, y *Term) *Term { return w.ctx.Sub(x, y) })
	bin("Mul", (*big.Int).Mul, func(w *W, x, y *Term) *Term { return w.ctx.Mul(x, y) })
	div := func(name string, cf func(z, x, y *big.Int) *big.Int, sf func(w *W, x, y *Term) *Term) {
		R(name, func(fr *frame, w *W, a []Value) Value {
			x, y := w.getBig(fr, a[1]), w.getBig(fr, a[2])
			w.bigZeroCheck(fr, y)
			return w.bigBin(fr, a[0], x, y, cf, func(x, y *Term) *Term { return sf(w, x, y) })
		})
	}
	div("Div", (*big.Int).Div, func(w *W, x, y *Term) *Term { return w.ctx.Div(x, y) })
	div("Mod", (*big.Int).Mod, func(w *W, x, y *Term) *Term { return w.ctx.Mod(x, y) })
	div("Quo", (*big.Int).Quo, func(w *W, x, y *Term) *Term { return w.truncDiv(x, y) })
	div("Rem", (*big.Int).Rem, func(w *W, x, y *Term) *Term { return w.truncRem(x, y) })
	R("DivMod", func(fr *frame, w *W, a []Value) Value {
		x, y := w.getBig(fr, a[1]), w.getBig(fr, a[2])
		w.bigZeroCheck(fr, y)
		q := w.bigBin(fr, a[0], x, y, (*big.Int).Div, func(x, y *Term) *Term { return w.ctx.Div(x, y) })
		m := w.bigBin(fr, a[3], x, y, (*big.Int).Mod, func(x, y *Term) *Term { return w.ctx.Mod(x, y) })
		return Value{p: Tuple{q, m}}
	})
	R("QuoRem", func(fr *frame, w *W, a []Value) Value {
		x, y := w.getBig(fr, a[1]), w.getBig(fr, a[2])
		w.bigZeroCheck(fr, y)
		q := w.bigBin(fr, a[0], x, y, (*big.Int).Quo, func(x, y *Term) *Term { return w.truncDiv(x, y) })
		m := w.bigBin(fr, a[3], x, y, (*big.Int).Rem, func(x, y *Term) *Term { return w.truncRem(x, y) })
		return Value{p: Tuple{q, m}}
	})
	R("Cmp", func(fr *frame, w *W, a []Value) Value { return w.bigCmp(w.getBig(fr, a[0]), w.getBig(fr, a[1])) })
	R("CmpAbs", func(fr *frame, w *W, a []Value) Value {
		return w.bigCmp(w.bigAbs(w.getBig(fr, a[0])), w.bigAbs(w.getBig(fr, a[1])))
	})
	R("Sign", func(fr *frame, w *W, a []Value) Value { return w.bigCmp(w.getBig(fr, a[0]), bnum{c: big0}) })
	R("Set", func(fr *frame, w *W, a []Value) Value { return w.setBig(fr, a[0], w.getBig(fr, a[1])) })
	R("SetUint64", func(fr *frame, w *W, a []Value) Value {
		return w.setBig(fr, a[0], bnum{t: w.toInt(a[1], u64k)})
	})
	R("SetInt64", func(fr *frame, w *W, a []Value) Value {
		return w.setBig(fr, a[0], bnum{t: w.toInt(a[1], i64k)})
	})
	R("SetBytes", func(fr *frame, w *W, a []Value) Value { return w.setBig(fr, a[0], w.bytesToBig(a[1].slice())) })
	R("Bytes", func(fr *frame, w *W, a []Value) Value {
		return Value{p: &SliceV{w.bigBytes(w.getBig(fr, a[0]), -1)}}
	})
	R("FillBytes", func(fr *frame, w *W, a []Value) Value {
		dst := a[1].slice()
		b := w.bigAbs(w.getBig(fr, a[0]))
		if b.t == nil {
			if (b.c.BitLen()+7)/8 > len(dst) {
				fr.goPanic(w.ifaceStr("math/big: buffer too small to fit value"))
			}
		} else if !w.truth(w.boolVal(w.ctx.Lt(b.t, w.ctx.Int(pow2(8*len(dst)))))) {
			fr.goPanic(w.ifaceStr("math/big: buffer too small to fit value"))
		}
		w.copyCells(dst, w.bigBytes(b, len(dst)))
		return a[1]
	})
	R("BitLen", func(fr *frame, w *W, a []Value) Value { return w.bigBitLen(w.getBig(fr, a[0])) })
	low := func(name string, k intInfo) {
		R(name, func(fr *frame, w *W, a []Value) Value {
			b := w.getBig(fr, a[0])
			if b.t == nil {
				if name == "Uint64" && b.c.Sign() < 0 { // low word of the magnitude
					return Value{n: fromBig(new(big.Int).Neg(b.c), k)}
				}
				return Value{n: fromBig(b.c, k)}
			}
			if b.t.lo != nil && b.t.lo.Sign() >= 0 {
				return w.mkInt(w.wrapMod(b.t, k), k)
			}
			if name == "Uint64" {
				c := w.ctx
				return w.mkInt(w.wrapMod(c.Ite(c.Le(c.IntI(0), b.t), b.t, c.Neg(b.t)), k), k)
			}
			// big.Int.Int64 of negatives is the low word negated: two's complement
			return w.mkInt(w.wrapMod(b.t, k), k)
		})
	}
	low("Uint64", u64k)
	low("Int64", i64k)
	fits := func(name string, k intInfo) {
		R(name, func(fr *frame, w *W, a []Value) Value {
			b := w.getBig(fr, a[0])
			lo, hi := k.rng()
			if b.t == nil {
				return boolV(b.c.Cmp(lo) >= 0 && b.c.Cmp(hi) <= 0)
			}
			c := w.ctx
			return w.boolVal(c.And(c.Le(c.Int(lo), b.t), c.Le(b.t, c.Int(hi))))
		})
	}
	fits("IsUint64", u64k)
	fits("IsInt64", i64k)
	R("Neg", func(fr *frame, w *W, a []Value) Value {
		b := w.getBig(fr, a[1])
		if b.t == nil {
			return w.setBig(fr, a[0], bnum{c: new(big.Int).Neg(b.c)})
		}
		return w.setBig(fr, a[0], bnum{t: w.ctx.Neg(b.t)})
	})
	R("Abs", func(fr *frame, w *W, a []Value) Value { return w.setBig(fr, a[0], w.bigAbs(w.getBig(fr, a[1]))) })
	R("Lsh", func(fr *frame, w *W, a []Value) Value {
		b := w.getBig(fr, a[1])
		n := w.concInt(a[2], types.Typ[types.Uint])
		if n > 1<<16 {
			w.unsup("huge Lsh")
		}
		if b.t == nil {
			return w.setBig(fr, a[0], bnum{c: new(big.Int).Lsh(b.c, uint(n))})
		}
		return w.setBig(fr, a[0], bnum{t: w.ctx.MulK(b.t, pow2(int(n)))})
	})
	R("Rsh", func(fr *frame, w *W, a []Value) Value {
		b := w.getBig(fr, a[1])
		n := w.concInt(a[2], types.Typ[types.Uint])
		if b.t == nil {
			return w.setBig(fr, a[0], bnum{c: new(big.Int).Rsh(b.c, uint(n))})
		}
		return w.setBig(fr, a[0], bnum{t: w.ctx.DivK(b.t, pow2(int(n)))})
	})
	bw := func(name string, cf func(z, x, y *big.Int) *big.Int, op int) {
		R(name, func(fr *frame, w *W, a []Value) Value {
			return w.bigBin(fr, a[0], w.getBig(fr, a[1]), w.getBig(fr, a[2]), cf, func(x, y *Term) *Term {
				k := intInfo{w.bigWidth(x, y), true}
				c := w.ctx
				if !x.isConst() && !y.isConst() {
					if r := w.bytewise(x, y, []Op{OpBvAnd, OpBvOr, OpBvXor, OpBvAnd}[op], op == 3); r != nil {
						return r
					}
				}
				and := w.intAnd(x, y, k)
				switch op {
				case 0:
					return and
				case 1:
					return c.Sub(c.Add(x, y), and)
				case 2:
					return c.Sub(c.Add(x, y), c.MulK(and, big.NewInt(2)))
				}
				return c.Sub(x, and)
			})
		})
	}
	bw("And", (*big.Int).And, 0)
	bw("Or", (*big.Int).Or, 1)
	bw("Xor", (*big.Int).Xor, 2)
	bw("AndNot", (*big.Int).AndNot, 3)
	R("Not", func(fr *frame, w *W, a []Value) Value {
		b := w.getBig(fr, a[1])
		if b.t == nil {
			return w.setBig(fr, a[0], bnum{c: new(big.Int).Not(b.c)})
		}
		return w.setBig(fr, a[0], bnum{t: w.ctx.Sub(w.ctx.IntI(-1), b.t)})
	})
	R("Bit", func(fr *frame, w *W, a []Value) Value {
		b := w.getBig(fr, a[0])
		n := w.concInt(a[1], types.Typ[types.Int])
		if n < 0 {
			fr.goPanic(w.ifaceStr("negative bit index"))
		}
		if b.t == nil {
			return Value{n: uint64(b.c.Bit(int(n)))}
		}
		return w.mkInt(w.ctx.Ext(b.t, int(n), int(n)), u64k)
	})
	R("Exp", func(fr *frame, w *W, a []Value) Value {
		x, y := w.getBig(fr, a[1]), w.getBig(fr, a[2])
		m := bnum{c: big0}
		if a[3].p != nil {
			m = w.getBig(fr, a[3])
		}
		if bothC(x, y) && m.t == nil {
			var mm *big.Int
			if m.c.Sign() != 0 {
				mm = m.c
			}
			return w.setBig(fr, a[0], bnum{c: new(big.Int).Exp(x.c, y.c, mm)})
		}
		if m.t != nil || m.c.Sign() != 0 {
			w.unsup("symbolic modular Exp")
		}
		e := w.concBigInt(y)
		if e.BitLen() > 12 {
			w.unsup("symbolic Exp with large exponent")
		}
		r := w.ctx.IntI(1)
		for i := int64(0); i < e.Int64(); i++ {
			r = w.ctx.Mul(r, w.bt(x))
		}
		return w.setBig(fr, a[0], bnum{t: r})
	})
	conc1 := func(name string, f func(x *big.Int) *big.Int) {
		R(name, func(fr *frame, w *W, a []Value) Value {
			b := w.getBig(fr, a[1])
			if b.t != nil {
				w.unsup("symbolic big.Int.%s", name)
			}
			return w.setBig(fr, a[0], bnum{c: f(b.c)})
		})
	}
	conc1("Sqrt", func(x *big.Int) *big.Int { return new(big.Int).Sqrt(x) })
	R("ModInverse", func(fr *frame, w *W, a []Value) Value {
		x, y := w.getBig(fr, a[1]), w.getBig(fr, a[2])
		if !bothC(x, y) {
			w.unsup("symbolic ModInverse")
		}
		r := new(big.Int).ModInverse(x.c, y.c)
		if r == nil {
			return Value{}
		}
		return w.setBig(fr, a[0], bnum{c: r})
	})
	R("GCD", func(fr *frame, w *W, a []Value) Value {
		x, y := w.getBig(fr, a[3]), w.getBig(fr, a[4])
		if !bothC(x, y) || a[1].p != nil || a[2].p != nil {
			w.unsup("symbolic GCD")
		}
		return w.setBig(fr, a[0], bnum{c: new(big.Int).GCD(nil, nil, x.c, y.c)})
	})
	R("SetBit", func(fr *frame, w *W, a []Value) Value {
		x := w.getBig(fr, a[1])
		if x.t != nil || a[2].isSym() || a[3].isSym() {
			w.unsup("symbolic SetBit")
		}
		return w.setBig(fr, a[0], bnum{c: new(big.Int).SetBit(x.c, a[2].int(), uint(a[3].n))})
	})
	R("SetString", func(fr *frame, w *W, a []Value) Value {
		s, ok := concStr(a[1])
		if !ok || a[2].isSym() {
			w.unsup("symbolic SetString")
		}
		r, ok := new(big.Int).SetString(s, a[2].int())
		if !ok {
			return Value{p: Tuple{Value{}, boolV(false)}}
		}
		return Value{p: Tuple{w.setBig(fr, a[0], bnum{c: r}), boolV(true)}}
	})
	R("Text", func(fr *frame, w *W, a []Value) Value {
		if a[0].p == nil {
			return strV("<nil>")
		}
		b := w.getBig(fr, a[0])
		if b.t != nil {
			return w.symText(fr, b.t, a[1].int())
		}
		return strV(b.c.Text(a[1].int()))
	})
	R("String", func(fr *frame, w *W, a []Value) Value {
		if a[0].p == nil {
			return strV("<nil>")
		}
		b := w.getBig(fr, a[0])
		if b.t != nil {
			return strV("<sym>")
		}
		return strV(b.c.String())
	})
	R("ProbablyPrime", func(fr *frame, w *W, a []Value) Value {
		return boolV(w.concBigInt(w.getBig(fr, a[0])).ProbablyPrime(20))
	})
	R("TrailingZeroBits", func(fr *frame, w *W, a []Value) Value {
		return intV(int(w.concBigInt(w.getBig(fr, a[0])).TrailingZeroBits()))
	})
	R("Bits", func(fr *frame, w *W, a []Value) Value {
		b := w.getBig(fr, a[0])
		if b.t != nil {
			x := w.bigAbs(b).t
			n := (w.bigByteLen(x) + 7) / 8
			r := make([]Value, n)
			for i := range r {
				r[i] = w.mkInt(w.ctx.Ext(x, 64*i+63, 64*i), u64k)
			}
			return Value{p: &SliceV{r}}
		}
		var r []Value
		for _, x := range b.c.Bits() {
			r = append(r, Value{n: uint64(x)})
		}
		return Value{p: &SliceV{r}}
	})
	R("SetBits", func(fr *frame, w *W, a []Value) Value {
		l := newLin()
		for i, x := range a[1].slice() {
			w.ctx.toLin(w.toInt(x, u64k), pow2(64*i), l)
		}
		return w.setBig(fr, a[0], bnum{t: w.ctx.fromLin(l)})
	})
	// math/big.Rat
	Q := func(name string, f func(fr *frame, w *W, a []Value) Value) {
		intrinsics["(*math/big.Rat)."+name] = func(fr *frame, a []Value) Value { return f(fr, fr.w, a) }
	}
	intrinsics["math/big.NewRat"] = func(fr *frame, a []Value) Value {
		w := fr.w
		if a[0].isSym() || a[1].isSym() {
			w.unsup("symbolic NewRat")
		}
		if a[1].n == 0 {
			fr.goPanic(w.ifaceStr("division by zero"))
		}
		return w.newRat(big.NewRat(int64(a[0].n), int64(a[1].n)))
	}
	Q("Num", func(fr *frame, w *W, a []Value) Value {
		return Value{p: &a[0].ptr().p.(*Agg).f[0]}
	})
	Q("Denom", func(fr *frame, w *W, a []Value) Value {
		ag := a[0].ptr().p.(*Agg)
		b := w.getBigAgg(ag.f[1].p.(*Agg))
		if b.t == nil && b.c.Sign() == 0 {
			return w.newBig(bnum{c: big1})
		}
		return Value{p: &ag.f[1]}
	})
	ratBin := func(name string, f func(z, x, y *big.Rat) *big.Rat) {
		Q(name, func(fr *frame, w *W, a []Value) Value {
			return w.setRat(fr, a[0], f(new(big.Rat), w.getRat(fr, a[1]), w.getRat(fr, a[2])))
		})
	}
	ratBin("Add", (*big.Rat).Add)
	ratBin("Sub", (*big.Rat).Sub)
	ratBin("Mul", (*big.Rat).Mul)
	ratBin("Quo", (*big.Rat).Quo)
	Q("Set", func(fr *frame, w *W, a []Value) Value { return w.setRat(fr, a[0], w.getRat(fr, a[1])) })
	Q("SetInt", func(fr *frame, w *W, a []Value) Value {
		return w.setRat(fr, a[0], new(big.Rat).SetInt(w.concBigInt(w.getBig(fr, a[1]))))
	})
	Q("SetFrac", func(fr *frame, w *W, a []Value) Value {
		return w.setRat(fr, a[0], new(big.Rat).SetFrac(w.concBigInt(w.getBig(fr, a[1])), w.concBigInt(w.getBig(fr, a[2]))))
	})
	Q("SetFloat64", func(fr *frame, w *W, a []Value) Value {
		return w.setRat(fr, a[0], new(big.Rat).SetFloat64(floatOf(a[1])))
	})
	Q("SetString", func(fr *frame, w *W, a []Value) Value {
		s, _ := concStr(a[1])
		r, ok := new(big.Rat).SetString(s)
		if !ok {
			return Value{p: Tuple{Value{}, boolV(false)}}
		}
		return Value{p: Tuple{w.setRat(fr, a[0], r), boolV(true)}}
	})
	Q("Cmp", func(fr *frame, w *W, a []Value) Value { return intV(w.getRat(fr, a[0]).Cmp(w.getRat(fr, a[1]))) })
	Q("Sign", func(fr *frame, w *W, a []Value) Value { return intV(w.getRat(fr, a[0]).Sign()) })
}

func (w *W) symText(fr *frame, t *Term, base int) Value {
	if base != 16 || t.lo == nil || t.lo.Sign() < 0 || t.hi == nil {
		return strV("<sym>")
	}
	c := w.ctx
	n := (t.hi.BitLen() + 3) / 4
	d := n
	for k := 1; k < n; k++ {
		if w.decide(c.Lt(t, c.Int(pow2(4*k)))) {
			d = k
			break
		}
	}
	out := make([]Value, d)
	for i := 0; i < d; i++ {
		sh := 4 * (d - 1 - i)
		nb := c.Ext(t, sh+3, sh)
		out[i] = w.mkInt(c.Ite(c.Lt(nb, c.IntI(10)), c.Add(nb, c.IntI('0')), c.Add(nb, c.IntI('a'-10))), u8k)
	}
	return mkStr(out)
}

func (w *W) bigWidth(x, y *Term) int {
	n := 1
	for _, t := range []*Term{x, y} {
		if t.lo == nil || t.hi == nil {
			w.unsup("bitwise op on unbounded symbolic big.Int")
		}
		n = max(n, t.hi.BitLen()+1, t.lo.BitLen()+1)
	}
	return n + 1
}

func (w *W) newRat(r *big.Rat) Value {
	mk := func(b *big.Int) Value { return *w.newBig(bnum{c: b}).ptr() }
	c := Value{p: &Agg{f: []Value{mk(r.Num()), mk(r.Denom())}}}
	return Value{p: &c}
}
func (w *W) getRat(fr *frame, v Value) *big.Rat {
	if v.p == nil {
		fr.rtPanic("invalid memory address or nil pointer dereference")
	}
	a := v.ptr().p.(*Agg)
	n, d := w.getBigAgg(a.f[0].p.(*Agg)), w.getBigAgg(a.f[1].p.(*Agg))
	if n.t != nil || d.t != nil {
		w.unsup("symbolic big.Rat")
	}
	if d.c.Sign() == 0 {
		return new(big.Rat).SetInt(n.c)
	}
	return new(big.Rat).SetFrac(n.c, d.c)
}
func (w *W) setRat(fr *frame, v Value, r *big.Rat) Value {
	w.set(v.ptr(), *w.newRat(r).ptr())
	return v
}
