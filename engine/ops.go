package main

import (
	"go/token"
	"go/types"
	"math"
	"math/big"
	"math/bits"
	"unicode/utf8"
)

// ---- term <-> value

func (w *W) boolT(v Value) *Term {
	if t := v.term(); t != nil {
		return t
	}
	return w.ctx.Bool(v.n != 0)
}
func (w *W) boolVal(t *Term) Value {
	if t.isConst() {
		return boolV(t.val.Sign() != 0)
	}
	return Value{p: t}
}

// toInt: Int-sorted term for a machine integer value
func (w *W) toInt(v Value, k intInfo) *Term {
	if t := v.term(); t != nil {
		if t.sort == SBV {
			return w.ctx.Bv2Nat(t, k.signed)
		}
		return t
	}
	return w.ctx.Int(concBig(v.n, k))
}
func (w *W) toBV(v Value, k intInfo) *Term {
	if t := v.term(); t != nil {
		if t.sort == SInt {
			return w.ctx.Nat2Bv(t, k.w)
		}
		return t
	}
	return w.ctx.BVu(v.n, k.w)
}

// toTerm2 brings two values to a common sort (BV if either is BV).
func (w *W) toTerm2(a, b Value, k intInfo) (*Term, *Term) {
	at, bt := a.term(), b.term()
	if (at != nil && at.sort == SBV) || (bt != nil && bt.sort == SBV) {
		return w.toBV(a, k), w.toBV(b, k)
	}
	return w.toInt(a, k), w.toInt(b, k)
}

func (w *W) mkInt(t *Term, k intInfo) Value {
	if t.isConst() {
		v := t.val
		if t.sort == SBV && k.signed {
			v = toSigned(v, t.w)
		}
		return Value{n: fromBig(v, k)}
	}
	return Value{p: t}
}

func (w *W) ltConst(t *Term, c uint64, k intInfo) *Term {
	if t.sort == SBV {
		op := OpBvUlt
		if k.signed {
			op = OpBvSlt
		}
		return w.ctx.BvCmp(op, t, w.ctx.BVu(c, t.w))
	}
	return w.ctx.Lt(t, w.ctx.Int(new(big.Int).SetUint64(c)))
}

// wrap brings an Int term into the range of k.
func (w *W) wrap(t *Term, k intInfo) Value {
	lo, hi := k.rng()
	if t.isConst() {
		return Value{n: fromBig(t.val, k)}
	}
	if t.lo != nil && t.hi != nil && t.lo.Cmp(lo) >= 0 && t.hi.Cmp(hi) <= 0 {
		return Value{p: t}
	}
	c := w.ctx
	if w.spec == 0 {
		m := pow2(k.w)
		over := c.Lt(c.Int(hi), t)
		if over != c.False && w.decide(over) {
			t2 := c.Sub(t, c.Int(m))
			if t.hi != nil && new(big.Int).Sub(t.hi, m).Cmp(hi) <= 0 {
				return w.mkInt(t2, k)
			}
			return w.mkInt(w.wrapMod(t, k), k)
		}
		under := c.Lt(t, c.Int(lo))
		if under != c.False && w.decide(under) {
			t2 := c.Add(t, c.Int(m))
			if t.lo != nil && new(big.Int).Add(t.lo, m).Cmp(lo) >= 0 {
				return w.mkInt(t2, k)
			}
			return w.mkInt(w.wrapMod(t, k), k)
		}
		return Value{p: t}
	}
	return w.mkInt(w.wrapMod(t, k), k)
}

func (w *W) wrapMod(t *Term, k intInfo) *Term {
	c := w.ctx
	lo, hi := k.rng()
	if t.lo != nil && t.hi != nil && t.lo.Cmp(lo) >= 0 && t.hi.Cmp(hi) <= 0 {
		return t
	}
	m := pow2(k.w)
	if !k.signed {
		return c.ModK(t, m)
	}
	h := pow2(k.w - 1)
	return c.Sub(c.ModK(c.Add(t, c.Int(h)), m), c.Int(h))
}

func (w *W) neg(t types.Type, v Value) Value {
	if isFloat(t) {
		return Value{n: math.Float64bits(-math.Float64frombits(v.n))}
	}
	k, ok := intKind(t)
	if !ok {
		w.unsup("neg of %s", t)
	}
	if x := v.term(); x != nil {
		if x.sort == SBV {
			return w.mkInt(w.ctx.BvBin(OpBvSub, w.ctx.BVu(0, x.w), x), k)
		}
		return w.wrap(w.ctx.Neg(x), k)
	}
	return Value{n: norm(-v.n, k)}
}

func (w *W) bitNot(t types.Type, v Value) Value {
	k, _ := intKind(t)
	if x := v.term(); x != nil {
		if x.sort == SBV {
			return w.mkInt(w.ctx.BvNot(x), k)
		}
		if k.signed {
			return w.mkInt(w.ctx.Sub(w.ctx.IntI(-1), x), k)
		}
		_, hi := k.rng()
		return w.mkInt(w.ctx.Sub(w.ctx.Int(hi), x), k)
	}
	return Value{n: norm(^v.n, k)}
}

func (w *W) binop(op token.Token, t, ty types.Type, a, b Value) Value {
	switch op {
	case token.EQL:
		return w.eq(t, a, b)
	case token.NEQ:
		return w.notV(w.eq(t, a, b))
	}
	if k, ok := intKind(t); ok {
		if op == token.SHL || op == token.SHR {
			return w.shift(op, k, ty, a, b)
		}
		if a.p == nil && b.p == nil {
			return w.concInt2(op, k, a.n, b.n)
		}
		return w.symInt(op, k, a, b)
	}
	if isString(t) {
		return w.strOp(op, a, b)
	}
	if isFloat(t) {
		x, y := math.Float64frombits(a.n), math.Float64frombits(b.n)
		if a.isSym() || b.isSym() {
			w.unsup("symbolic float")
		}
		var r float64
		switch op {
		case token.ADD:
			r = x + y
		case token.SUB:
			r = x - y
		case token.MUL:
			r = x * y
		case token.QUO:
			r = x / y
		case token.LSS:
			return boolV(x < y)
		case token.LEQ:
			return boolV(x <= y)
		case token.GTR:
			return boolV(x > y)
		case token.GEQ:
			return boolV(x >= y)
		}
		if under(t).(*types.Basic).Kind() == types.Float32 {
			r = float64(float32(r))
		}
		return Value{n: math.Float64bits(r)}
	}
	if isBool(t) {
		switch op {
		case token.AND, token.LAND:
			return w.boolVal(w.ctx.And(w.boolT(a), w.boolT(b)))
		case token.OR, token.LOR:
			return w.boolVal(w.ctx.Or(w.boolT(a), w.boolT(b)))
		}
	}
	w.unsup("binop %s on %s", op, t)
	return Value{}
}

func (w *W) notV(v Value) Value {
	if t := v.term(); t != nil {
		return w.boolVal(w.ctx.Not(t))
	}
	return boolV(v.n == 0)
}

func (w *W) divZero() {
	if w.spec > 0 {
		panic(specAbort{})
	}
	w.cur.top.rtPanic("integer divide by zero")
}

func (w *W) concInt2(op token.Token, k intInfo, x, y uint64) Value {
	var r uint64
	switch op {
	case token.ADD:
		r = x + y
	case token.SUB:
		r = x - y
	case token.MUL:
		r = x * y
	case token.QUO:
		if y == 0 {
			w.divZero()
		}
		if k.signed {
			if int64(y) == -1 {
				r = -x
			} else {
				r = uint64(int64(x) / int64(y))
			}
		} else {
			r = x / y
		}
	case token.REM:
		if y == 0 {
			w.divZero()
		}
		if k.signed {
			if int64(y) == -1 {
				r = 0
			} else {
				r = uint64(int64(x) % int64(y))
			}
		} else {
			r = x % y
		}
	case token.AND:
		r = x & y
	case token.OR:
		r = x | y
	case token.XOR:
		r = x ^ y
	case token.AND_NOT:
		r = x &^ y
	case token.LSS:
		if k.signed {
			return boolV(int64(x) < int64(y))
		}
		return boolV(x < y)
	case token.LEQ:
		if k.signed {
			return boolV(int64(x) <= int64(y))
		}
		return boolV(x <= y)
	case token.GTR:
		if k.signed {
			return boolV(int64(x) > int64(y))
		}
		return boolV(x > y)
	case token.GEQ:
		if k.signed {
			return boolV(int64(x) >= int64(y))
		}
		return boolV(x >= y)
	default:
		w.unsup("int op %s", op)
	}
	return Value{n: norm(r, k)}
}

func (w *W) symInt(op token.Token, k intInfo, a, b Value) Value {
	c := w.ctx
	x, y := w.toTerm2(a, b, k)
	if x.sort == SBV {
		return w.symBV(op, k, x, y)
	}
	switch op {
	case token.ADD:
		return w.wrap(c.Add(x, y), k)
	case token.SUB:
		return w.wrap(c.Sub(x, y), k)
	case token.MUL:
		return w.wrap(c.Mul(x, y), k)
	case token.QUO, token.REM:
		if w.truth(w.boolVal(c.Eq(y, c.IntI(0)))) {
			w.divZero()
		}
		return w.quoRem(op, k, x, y)
	case token.AND:
		return w.mkInt(w.intAnd(x, y, k), k)
	case token.AND_NOT:
		if y.isConst() {
			m := new(big.Int).AndNot(new(big.Int).Sub(pow2(k.w), big1), new(big.Int).Mod(y.val, pow2(k.w)))
			return w.mkInt(w.intAnd(x, c.Int(m), k), k)
		}
		return w.mkInt(c.Sub(x, w.intAnd(x, y, k)), k)
	case token.OR:
		return w.mkInt(c.Sub(c.Add(x, y), w.intAnd(x, y, k)), k)
	case token.XOR:
		return w.mkInt(c.Sub(c.Add(x, y), c.MulK(w.intAnd(x, y, k), big.NewInt(2))), k)
	case token.LSS:
		return w.boolVal(c.Lt(x, y))
	case token.LEQ:
		return w.boolVal(c.Le(x, y))
	case token.GTR:
		return w.boolVal(c.Lt(y, x))
	case token.GEQ:
		return w.boolVal(c.Le(y, x))
	}
	w.unsup("symbolic int op %s", op)
	return Value{}
}

// tz: known trailing zero bits of an Int term
func tzTerm(t *Term) int {
	switch t.op {
	case OpConst:
		if t.val.Sign() == 0 {
			return 1 << 20
		}
		return int(t.val.TrailingZeroBits())
	case OpLin:
		n := 1 << 20
		if t.val.Sign() != 0 {
			n = int(t.val.TrailingZeroBits())
		}
		for i := range t.args {
			z := int(t.coef[i].TrailingZeroBits()) + tzTerm(t.args[i])
			if z < n {
				n = z
			}
		}
		return n
	case OpIte:
		return min(tzTerm(t.args[1]), tzTerm(t.args[2]))
	}
	return 0
}

// bytewise does a bitwise operation on sums of bytes byte by byte.
func (w *W) bytewise(x, y *Term, op Op, notY bool) *Term {
	c := w.ctx
	if x.lo == nil || x.lo.Sign() < 0 || x.hi == nil || y.lo == nil || y.lo.Sign() < 0 || y.hi == nil {
		return nil
	}
	n := (max(x.hi.BitLen(), y.hi.BitLen()) + 7) / 8
	if n < 2 || n > 64 {
		return nil
	}
	simple := func(t *Term) bool { return t.isConst() || t.op == OpBv2Nat && t.args[0].w <= 8 }
	r := c.IntI(0)
	for i := n - 1; i >= 0; i-- {
		a, b := c.Ext(x, 8*i+7, 8*i), c.Ext(y, 8*i+7, 8*i)
		if !simple(a) || !simple(b) {
			return nil
		}
		bb := c.Nat2Bv(b, 8)
		if notY {
			bb = c.BvNot(bb)
		}
		r = c.Add(r, c.MulK(c.Bv2Nat(c.BvBin(op, c.Nat2Bv(a, 8), bb), false), pow2(8*i)))
	}
	return r
}

func (w *W) intAnd(x, y *Term, k intInfo) *Term {
	c := w.ctx
	if x.isConst() {
		x, y = y, x
	}
	if x == y {
		return x
	}
	nonneg := func(t *Term) bool { return t.lo != nil && t.lo.Sign() >= 0 && t.hi != nil }
	if y.isConst() {
		if y.val.Sign() == 0 {
			return y
		}
		if y.val.Cmp(big.NewInt(-1)) == 0 {
			return x
		}
		if x.op == OpIte && iteConstish(x, 0) {
			return c.Ite(x.args[0], w.intAnd(x.args[1], y, k), w.intAnd(x.args[2], y, k))
		}
		if x.isConst() {
			return c.Int(new(big.Int).And(x.val, y.val))
		}
		if y.val.Sign() < 0 {
			return c.Sub(x, w.intAnd(x, c.Int(new(big.Int).Not(y.val)), k))
		}
		if y.val.Sign() > 0 {
			// sum of extracted runs (valid for negative x as Ext uses floor/mod)
			r := c.IntI(0)
			m := y.val
			n := m.BitLen()
			runs := 0
			for i := 0; i < n; {
				if m.Bit(i) == 0 {
					i++
					continue
				}
				j := i
				for j < n && m.Bit(j) == 1 {
					j++
				}
				r = c.Add(r, c.MulK(c.Ext(x, j-1, i), pow2(i)))
				i = j
				runs++
			}
			if runs <= 24 {
				return r
			}
		}
	}
	if nonneg(x) && nonneg(y) {
		if tzTerm(x) >= y.hi.BitLen() || tzTerm(y) >= x.hi.BitLen() {
			return c.IntI(0)
		}
		// 0/1 valued operands
		if x.hi.Cmp(big1) <= 0 && y.hi.Cmp(big1) <= 0 {
			return c.Ite(c.And(c.Eq(x, c.IntI(1)), c.Eq(y, c.IntI(1))), c.IntI(1), c.IntI(0))
		}
		// power-of-two-ish structure: split y = 2^z * y'
	}
	bx, by := c.Nat2Bv(x, k.w), c.Nat2Bv(y, k.w)
	return c.Bv2Nat(c.BvBin(OpBvAnd, bx, by), k.signed)
}

func (w *W) quoRem(op token.Token, k intInfo, x, y *Term) Value {
	c := w.ctx
	nonneg := func(t *Term) bool { return t.lo != nil && t.lo.Sign() >= 0 }
	if nonneg(x) && nonneg(y) {
		if op == token.QUO {
			return w.mkInt(c.Div(x, y), k)
		}
		return w.mkInt(c.Mod(x, y), k)
	}
	if op == token.QUO {
		return w.wrap(w.truncDiv(x, y), k)
	}
	return w.mkInt(w.truncRem(x, y), k)
}

// truncated division on Int terms
func (w *W) truncDiv(x, y *Term) *Term {
	c := w.ctx
	if x.lo != nil && x.lo.Sign() >= 0 {
		return c.Div(x, y)
	}
	return c.Ite(c.Le(c.IntI(0), x), c.Div(x, y), c.Neg(c.Div(c.Neg(x), y)))
}
func (w *W) truncRem(x, y *Term) *Term {
	c := w.ctx
	if x.lo != nil && x.lo.Sign() >= 0 {
		return c.Mod(x, y)
	}
	return c.Ite(c.Le(c.IntI(0), x), c.Mod(x, y), c.Neg(c.Mod(c.Neg(x), y)))
}

func (w *W) symBV(op token.Token, k intInfo, x, y *Term) Value {
	c := w.ctx
	var o Op
	switch op {
	case token.ADD:
		o = OpBvAdd
	case token.SUB:
		o = OpBvSub
	case token.MUL:
		o = OpBvMul
	case token.QUO, token.REM:
		if w.truth(w.boolVal(c.BvCmp(OpBvEq, y, c.BVu(0, k.w)))) {
			w.divZero()
		}
		switch {
		case op == token.QUO && k.signed:
			o = OpBvSdiv
		case op == token.QUO:
			o = OpBvUdiv
		case k.signed:
			o = OpBvSrem
		default:
			o = OpBvUrem
		}
	case token.AND:
		o = OpBvAnd
	case token.AND_NOT:
		return w.mkInt(c.BvBin(OpBvAnd, x, c.BvNot(y)), k)
	case token.OR:
		o = OpBvOr
	case token.XOR:
		o = OpBvXor
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		lt, le := OpBvUlt, OpBvUle
		if k.signed {
			lt, le = OpBvSlt, OpBvSle
		}
		switch op {
		case token.LSS:
			return w.boolVal(c.BvCmp(lt, x, y))
		case token.LEQ:
			return w.boolVal(c.BvCmp(le, x, y))
		case token.GTR:
			return w.boolVal(c.BvCmp(lt, y, x))
		default:
			return w.boolVal(c.BvCmp(le, y, x))
		}
	default:
		w.unsup("bv op %s", op)
	}
	return w.mkInt(c.BvBin(o, x, y), k)
}

func (w *W) shift(op token.Token, k intInfo, ty types.Type, a, b Value) Value {
	ky, _ := intKind(ty)
	if a.p == nil && a.n == 0 {
		return a
	}
	if bt := b.term(); bt != nil {
		if at := a.term(); at != nil && at.sort == SBV && bt.sort == SBV {
			// full symbolic shift in BV
			var sh *Term
			big := w.ctx.False
			if bt.w > at.w {
				big = w.ctx.Not(w.ctx.BvCmp(OpBvUlt, bt, w.ctx.BVu(uint64(at.w), bt.w)))
				sh = w.ctx.Extract(bt, at.w-1, 0)
			} else {
				sh = w.ctx.Zext(bt, at.w)
			}
			o := OpBvShl
			over := w.ctx.BVu(0, at.w)
			if op == token.SHR {
				o = OpBvLshr
				if k.signed {
					o = OpBvAshr
					over = w.ctx.BvBin(OpBvAshr, at, w.ctx.BVu(uint64(at.w-1), at.w))
				}
			}
			if !ky.signed {
				return w.mkInt(w.ctx.Ite(big, over, w.ctx.BvBin(o, at, sh)), k)
			}
		}
		if ky.signed && w.truth(w.binop(token.LSS, ty, ty, b, Value{})) {
			w.cur.top.rtPanic("negative shift amount")
		}
		// collapse large shifts
		if w.truth(w.binop(token.GEQ, ty, ty, b, Value{n: uint64(k.w)})) {
			b = Value{n: uint64(k.w)}
		} else {
			b = Value{n: fromBig(w.concretise(bt), ky)}
		}
	}
	if ky.signed && int64(b.n) < 0 {
		w.cur.top.rtPanic("negative shift amount")
	}
	s := b.n
	at := a.term()
	if at == nil {
		if op == token.SHL {
			if s >= 64 {
				return Value{}
			}
			return Value{n: norm(a.n<<s, k)}
		}
		if k.signed {
			if s > 63 {
				s = 63
			}
			return Value{n: uint64(int64(a.n) >> s)}
		}
		if s >= 64 {
			return Value{}
		}
		return Value{n: a.n >> s}
	}
	c := w.ctx
	if at.sort == SBV {
		sv := s
		if sv > uint64(k.w) {
			sv = uint64(k.w)
		}
		if op == token.SHL {
			if sv >= uint64(k.w) {
				return Value{}
			}
			return w.mkInt(c.BvBin(OpBvShl, at, c.BVu(sv, k.w)), k)
		}
		if k.signed {
			if sv >= uint64(k.w) {
				sv = uint64(k.w - 1)
			}
			return w.mkInt(c.BvBin(OpBvAshr, at, c.BVu(sv, k.w)), k)
		}
		if sv >= uint64(k.w) {
			return Value{}
		}
		return w.mkInt(c.BvBin(OpBvLshr, at, c.BVu(sv, k.w)), k)
	}
	if op == token.SHL {
		if s >= uint64(k.w) {
			return Value{}
		}
		return w.mkInt(w.wrapMod(c.MulK(at, pow2(int(s))), k), k)
	}
	if s > 64 {
		s = 64
	}
	return w.mkInt(c.DivK(at, pow2(int(s))), k)
}

// ---- strings

func (w *W) strOp(op token.Token, a, b Value) Value {
	if op == token.ADD {
		x, ok1 := concStr(a)
		y, ok2 := concStr(b)
		if ok1 && ok2 {
			return strV(x + y)
		}
		bs := append(append([]Value{}, strBytes(a)...), strBytes(b)...)
		return mkStr(bs)
	}
	x, ok1 := concStr(a)
	y, ok2 := concStr(b)
	if ok1 && ok2 {
		switch op {
		case token.LSS:
			return boolV(x < y)
		case token.LEQ:
			return boolV(x <= y)
		case token.GTR:
			return boolV(x > y)
		case token.GEQ:
			return boolV(x >= y)
		}
	}
	cmp := w.cmpBytes(strBytes(a), strBytes(b))
	return w.binop(op, types.Typ[types.Int], types.Typ[types.Int], cmp, Value{})
}

var u8k = intInfo{8, false}
var i64k = intInfo{64, true}
var u64k = intInfo{64, false}

// cmpBytes: three-way comparison as an int value (no forking)
func (w *W) cmpBytes(a, b []Value) Value {
	n := min(len(a), len(b))
	var r *Term
	c := w.ctx
	switch {
	case len(a) < len(b):
		r = c.IntI(-1)
	case len(a) > len(b):
		r = c.IntI(1)
	default:
		r = c.IntI(0)
	}
	for i := n - 1; i >= 0; i-- {
		if same(a[i], b[i]) {
			continue
		}
		if a[i].p == nil && b[i].p == nil {
			if a[i].n < b[i].n {
				r = c.IntI(-1)
			} else {
				r = c.IntI(1)
			}
			continue
		}
		x, y := w.toTerm2(a[i], b[i], u8k)
		var lt, eq *Term
		if x.sort == SBV {
			lt, eq = c.BvCmp(OpBvUlt, x, y), c.BvCmp(OpBvEq, x, y)
		} else {
			lt, eq = c.Lt(x, y), c.Eq(x, y)
		}
		r = c.Ite(lt, c.IntI(-1), c.Ite(eq, r, c.IntI(1)))
	}
	return w.mkInt(r, i64k)
}

// wholeBytes: the term whose big-endian bytes these are (a constant when all are concrete), or nil
func (w *W) wholeBytes(a []Value) *Term {
	n := len(a)
	t := a[0].term()
	if t == nil {
		for _, v := range a {
			if v.p != nil {
				return nil
			}
		}
		return w.ctx.Int(new(big.Int).SetBytes(valsToBytes(a)))
	}
	if t.op != OpExt || n < 2 {
		return nil
	}
	base := t.args[0]
	if base.lo == nil || base.hi == nil || base.lo.Sign() < 0 || base.hi.BitLen() > 8*n {
		return nil
	}
	for i, v := range a {
		t := v.term()
		if t == nil || t.op != OpExt || t.args[0] != base || t.l != 8*(n-1-i) || (t.h != 8*(n-i)-1 && (i > 0 || t.h != base.hi.BitLen()-1)) {
			return nil
		}
	}
	return base
}

func (w *W) eqBytes(a, b []Value) Value {
	if len(a) != len(b) {
		return boolV(false)
	}
	c := w.ctx
	r := c.True
	hasExt := false
	for i := range a {
		if a[i].p == nil && b[i].p == nil {
			if a[i].n != b[i].n {
				return boolV(false)
			}
			continue
		}
		if t := a[i].term(); t != nil && (t.op == OpExt) {
			hasExt = true
		}
		if t := b[i].term(); t != nil && (t.op == OpExt) {
			hasExt = true
		}
	}
	var cs []*Term
	if hasExt {
		if len(w.hashVar) > 0 {
			// complete digests are compared through their inputs
			var ra, rb []Value
			for i := 0; i < len(a); {
				ha, hb := w.hashSeg(a[i:]), w.hashSeg(b[i:])
				var e *Term
				n := 0
				switch {
				case ha != nil && hb != nil && len(ha.out) == len(hb.out):
					n, e = len(ha.out), w.hashEq(ha, hb)
				case ha != nil && valsConcrete(b[i:i+len(ha.out)]):
					n, e = len(ha.out), w.hashEqConc(ha, b[i:i+len(ha.out)])
				case hb != nil && valsConcrete(a[i:i+len(hb.out)]):
					n, e = len(hb.out), w.hashEqConc(hb, a[i:i+len(hb.out)])
				}
				if e == nil {
					ra, rb = append(ra, a[i]), append(rb, b[i])
					i++
					continue
				}
				if e == c.False {
					return boolV(false)
				}
				cs = append(cs, e)
				i += n
			}
			a, b = ra, rb
		}
		if len(a) > 0 {
			if x, y := w.wholeBytes(a), w.wholeBytes(b); x != nil && y != nil {
				cs = append(cs, c.Eq(x, y))
			} else {
				// compare as one big-endian integer so that byte extracts recombine
				lx, ly := newLin(), newLin()
				n := len(a)
				for i := range a {
					if same(a[i], b[i]) {
						continue
					}
					sc := pow2(8 * (n - 1 - i))
					c.toLin(w.toInt(a[i], u8k), sc, lx)
					c.toLin(w.toInt(b[i], u8k), sc, ly)
				}
				cs = append(cs, c.Eq(c.fromLin(lx), c.fromLin(ly)))
			}
		}
		return w.boolVal(c.And(cs...))
	}
	for i := range a {
		if same(a[i], b[i]) {
			continue
		}
		x, y := w.toTerm2(a[i], b[i], u8k)
		var e *Term
		if x.sort == SBV {
			e = c.BvCmp(OpBvEq, x, y)
		} else {
			e = c.Eq(x, y)
		}
		if e == c.False {
			return boolV(false)
		}
		cs = append(cs, e)
	}
	if len(cs) > 0 {
		r = c.And(cs...)
	}
	return w.boolVal(r)
}

// ---- equality

func (w *W) eq(t types.Type, a, b Value) Value {
	switch u := under(t).(type) {
	case *types.Basic:
		info := u.Info()
		switch {
		case info&types.IsString != 0:
			x, ok1 := concStr(a)
			y, ok2 := concStr(b)
			if ok1 && ok2 {
				return boolV(x == y)
			}
			return w.eqBytes(strBytes(a), strBytes(b))
		case info&types.IsBoolean != 0:
			if a.p == nil && b.p == nil {
				return boolV(a.n == b.n)
			}
			return w.boolVal(w.ctx.BEq(w.boolT(a), w.boolT(b)))
		case info&types.IsInteger != 0:
			if a.p == nil && b.p == nil {
				return boolV(a.n == b.n)
			}
			k, _ := intKind(u)
			x, y := w.toTerm2(a, b, k)
			if x.sort == SBV {
				return w.boolVal(w.ctx.BvCmp(OpBvEq, x, y))
			}
			return w.boolVal(w.ctx.Eq(x, y))
		case info&types.IsFloat != 0:
			return boolV(math.Float64frombits(a.n) == math.Float64frombits(b.n))
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return boolV(a.p == b.p)
		}
		if info&types.IsComplex != 0 {
			return boolV(a.p == b.p)
		}
	case *types.Struct:
		x, y := a.agg(), b.agg()
		r := w.ctx.True
		for i := range x.f {
			if u.Field(i).Name() == "_" {
				continue
			}
			e := w.eq(u.Field(i).Type(), x.f[i], y.f[i])
			r = w.ctx.And(r, w.boolT(e))
			if r == w.ctx.False {
				return boolV(false)
			}
		}
		return w.boolVal(r)
	case *types.Array:
		x, y := a.agg(), b.agg()
		if k, ok := intKind(u.Elem()); ok && k == u8k {
			return w.eqBytes(x.f, y.f)
		}
		r := w.ctx.True
		for i := range x.f {
			e := w.eq(u.Elem(), x.f[i], y.f[i])
			r = w.ctx.And(r, w.boolT(e))
			if r == w.ctx.False {
				return boolV(false)
			}
		}
		return w.boolVal(r)
	case *types.Interface:
		x, y := a.iface(), b.iface()
		if x == nil || y == nil {
			return boolV(x == nil && y == nil)
		}
		if x.t != y.t {
			return boolV(false)
		}
		if !types.Comparable(x.t) {
			w.cur.top.rtPanic("comparing uncomparable type " + x.t.String())
		}
		return w.eq(x.t, x.v, y.v)
	case *types.Pointer, *types.Chan, *types.Map:
		return boolV(a.p == b.p)
	case *types.Slice, *types.Signature: // only against nil
		return boolV((a.p == nil) == (b.p == nil))
	}
	w.unsup("equality on %s", t)
	return Value{}
}

// ---- indexes

func (w *W) boundsCheck(fr *frame, iv Value, it types.Type, n int) {
	k, _ := intKind(it)
	t := iv.term()
	c := w.ctx
	var ok *Term
	if t.sort == SBV {
		// as unsigned compare on the type's width (sign bit set => out of range), widen first
		if n >= 0 && (k.w >= 63 || uint64(n) < 1<<uint(k.w-1) || !k.signed) {
			if !k.signed && k.w < 63 && uint64(n) >= 1<<uint(k.w) {
				ok = c.True
			} else {
				ok = c.BvCmp(OpBvUlt, t, c.BVu(uint64(n), k.w))
			}
		} else {
			ok = c.Not(c.BvCmp(OpBvSlt, t, c.BVu(0, k.w)))
		}
	} else {
		ok = c.And(c.Le(c.IntI(0), t), c.Lt(t, c.IntI(int64(n))))
	}
	if !w.truth(w.boolVal(ok)) {
		fr.rtPanic("index out of range")
	}
}

func (w *W) index(fr *frame, iv Value, it types.Type, n int) int {
	if t := iv.term(); t != nil {
		if w.spec > 0 {
			panic(specAbort{})
		}
		w.boundsCheck(fr, iv, it, n)
		k, _ := intKind(it)
		v := w.concretise(t)
		if t.sort == SBV && k.signed {
			v = toSigned(v, t.w)
		}
		return int(v.Int64())
	}
	k, _ := intKind(it)
	if k.signed {
		if int64(iv.n) < 0 || int64(iv.n) >= int64(n) {
			fr.rtPanic("index out of range")
		}
	} else if iv.n >= uint64(n) {
		fr.rtPanic("index out of range")
	}
	return int(iv.n)
}

func (w *W) sliceBound(fr *frame, v Value, t types.Type, lo, hi int) int {
	if tm := v.term(); tm != nil {
		w.boundsCheck(fr, v, t, hi+1)
		return int(w.concInt(v, t))
	}
	k, _ := intKind(t)
	if k.signed && int64(v.n) < int64(lo) || !k.signed && v.n > uint64(hi) || int64(v.n) > int64(hi) {
		fr.rtPanic("slice bounds out of range")
	}
	return int(v.n)
}

// concInt: concrete int64 of an integer value (forks when symbolic)
func (w *W) concInt(v Value, t types.Type) int64 {
	k, ok := intKind(t)
	if !ok {
		k = i64k
	}
	if tm := v.term(); tm != nil {
		x := w.concretise(tm)
		if tm.sort == SBV && k.signed {
			x = toSigned(x, tm.w)
		}
		return int64(fromBig(x, k))
	}
	if !k.signed && int64(v.n) < 0 {
		return math.MaxInt64
	}
	return int64(v.n)
}

// symSelect: cells[i] with symbolic i (already bounds-checked), scalar cells
func (w *W) symSelect(cells []Value, iv Value, it, et types.Type) Value {
	ki, _ := intKind(it)
	c := w.ctx
	idx := iv.term()
	eqI := func(i int) *Term {
		if idx.sort == SBV {
			return c.BvCmp(OpBvEq, idx, c.BVu(uint64(i), ki.w))
		}
		return c.Eq(idx, c.IntI(int64(i)))
	}
	leI := func(i int) *Term {
		if idx.sort == SBV {
			return c.BvCmp(OpBvUle, idx, c.BVu(uint64(i), ki.w))
		}
		return c.Le(idx, c.IntI(int64(i)))
	}
	if isBool(et) {
		r := w.boolT(cells[len(cells)-1])
		for i := len(cells) - 2; i >= 0; i-- {
			r = c.Ite(eqI(i), w.boolT(cells[i]), r)
		}
		return w.boolVal(r)
	}
	k, _ := intKind(et)
	useBV := idx.sort == SBV
	for i := range cells {
		if t := cells[i].term(); t != nil && t.sort == SBV {
			useBV = true
		}
	}
	conv := func(v Value) *Term {
		if useBV {
			return w.toBV(v, k)
		}
		return w.toInt(v, k)
	}
	lo, hi := 0, len(cells)-1
	if idx.sort == SInt {
		if idx.lo != nil && idx.lo.IsInt64() && idx.lo.Int64() > 0 && idx.lo.Int64() <= int64(hi) {
			lo = int(idx.lo.Int64())
		}
		if idx.hi != nil && idx.hi.IsInt64() && idx.hi.Int64() < int64(hi) && idx.hi.Int64() >= int64(lo) {
			hi = int(idx.hi.Int64())
		}
	}
	// affine table: cells[i] = cells[lo] + (i-lo) for a run -> arithmetic
	if !useBV && idx.sort == SInt {
		type run struct{ a, b int }
		var runs []run
		okc := true
		for i := lo; i <= hi; i++ {
			if cells[i].p != nil {
				okc = false
				break
			}
			if n := len(runs); n > 0 && cells[i].n == cells[runs[n-1].a].n+uint64(i-runs[n-1].a) {
				runs[n-1].b = i
			} else {
				runs = append(runs, run{i, i})
			}
		}
		if okc && len(runs) <= 4 {
			mk := func(r run) *Term {
				if r.a == r.b {
					return c.Int(concBig(cells[r.a].n, k))
				}
				d := new(big.Int).Sub(concBig(cells[r.a].n, k), big.NewInt(int64(r.a)))
				return c.Add(idx, c.Int(d))
			}
			r := mk(runs[len(runs)-1])
			for i := len(runs) - 2; i >= 0; i-- {
				r = c.Ite(leI(runs[i].b), mk(runs[i]), r)
			}
			return w.mkInt(r, k)
		}
	}
	r := conv(cells[hi])
	for i := hi - 1; i >= lo; i-- {
		r = c.Ite(eqI(i), conv(cells[i]), r)
	}
	return w.mkInt(r, k)
}

// ---- conversions

func (w *W) convert(fr *frame, ft, tt types.Type, v Value) Value {
	fu, tu := under(ft), under(tt)
	if fk, ok := intKind(fu); ok {
		if tk, ok := intKind(tu); ok {
			return w.convInt(v, fk, tk)
		}
		if tb, ok := tu.(*types.Basic); ok {
			switch {
			case tb.Info()&types.IsFloat != 0:
				if v.isSym() {
					w.unsup("symbolic int to float")
				}
				var f float64
				if fk.signed {
					f = float64(int64(v.n))
				} else {
					f = float64(v.n)
				}
				if tb.Kind() == types.Float32 {
					f = float64(float32(f))
				}
				return Value{n: math.Float64bits(f)}
			case tb.Info()&types.IsString != 0:
				if t := v.term(); t != nil {
					if w.truth(w.boolVal(w.ltConst(t, 0x80, fk))) {
						return mkStr([]Value{w.convInt(v, fk, u8k)})
					}
					v = Value{n: uint64(w.concInt(v, ft))}
				}
				return strV(string(rune(int64(v.n))))
			case tb.Kind() == types.UnsafePointer:
				if v.p == nil && v.n == 0 {
					return Value{}
				}
				return Value{p: v.p}
			}
		}
	}
	switch f := fu.(type) {
	case *types.Basic:
		if f.Info()&types.IsFloat != 0 {
			x := math.Float64frombits(v.n)
			if tk, ok := intKind(tu); ok {
				if tk.signed {
					return Value{n: norm(uint64(int64(x)), tk)}
				}
				return Value{n: norm(uint64(x), tk)}
			}
			if isFloat(tu) {
				if tu.(*types.Basic).Kind() == types.Float32 {
					x = float64(float32(x))
				}
				return Value{n: math.Float64bits(x)}
			}
		}
		if f.Info()&types.IsString != 0 {
			if s, ok := tu.(*types.Slice); ok {
				if k, _ := intKind(s.Elem()); k == u8k {
					b := strBytes(v)
					c := make([]Value, len(b))
					copy(c, b)
					return Value{p: &SliceV{c}}
				}
				// []rune
				str, ok := concStr(v)
				if !ok {
					w.unsup("symbolic string to []rune")
				}
				var r []Value
				for _, x := range str {
					r = append(r, Value{n: uint64(int64(x))})
				}
				return Value{p: &SliceV{r}}
			}
			if isString(tu) {
				return v
			}
		}
		if f.Kind() == types.UnsafePointer {
			if tk, ok := intKind(tu); ok {
				_ = tk
				return Value{p: nil, n: 1}
			}
			return v
		}
	case *types.Slice:
		if isString(tu) {
			if k, _ := intKind(f.Elem()); k == u8k {
				return mkStr(v.slice())
			}
			var rs []rune
			for _, x := range v.slice() {
				if x.isSym() {
					w.unsup("symbolic []rune to string")
				}
				rs = append(rs, rune(int64(x.n)))
			}
			return strV(string(rs))
		}
		if _, ok := tu.(*types.Slice); ok {
			return v
		}
		if at, ok := tu.(*types.Array); ok {
			s := v.slice()
			if len(s) < int(at.Len()) {
				fr.rtPanic("cannot convert slice to array: length too short")
			}
			return copyVal(Value{p: &Agg{f: s[:at.Len()]}})
		}
	case *types.Pointer:
		return v // to unsafe.Pointer
	}
	if isComplex(tu) {
		return v
	}
	if types.Identical(fu, tu) {
		return v
	}
	w.unsup("convert %s -> %s", ft, tt)
	return Value{}
}

func (w *W) convInt(v Value, fk, tk intInfo) Value {
	t := v.term()
	if t == nil {
		return Value{n: norm(v.n, tk)}
	}
	c := w.ctx
	if t.sort == SBV {
		if tk.w <= fk.w {
			return w.mkInt(c.Extract(t, tk.w-1, 0), tk)
		}
		if fk.signed {
			return w.mkInt(c.Sext(t, tk.w), tk)
		}
		return w.mkInt(c.Zext(t, tk.w), tk)
	}
	return w.mkInt(w.wrapMod(t, tk), tk)
}

var _ = bits.Len
var _ = utf8.RuneError
