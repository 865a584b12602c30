package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Terms: hash-consed SMT expressions. Integer terms are kept in a canonical
// polynomial form (constant + sum of coeff*monomial) with interval bounds.

type SortK uint8

const (
	SBool SortK = iota
	SInt
	SBV
)

type Op uint8

const (
	OpConst Op = iota // val (int / bv / bool as 0/1)
	OpVar
	OpLin  // Int: cst + sum coef[i]*args[i]
	OpMulN // Int: product of atoms
	OpDiv  // Int: euclidean div by args[1] (non constant-foldable)
	OpMod
	OpDivK // Int: floor div by constant val>0
	OpExt  // Int: floor(x / 2^lo) mod 2^(hi-lo+1)
	OpModK // Int: mod constant val>0
	OpIte  // any sort
	OpLe0  // Bool: args[0] <= 0
	OpEq0  // Bool: args[0] == 0
	OpNot
	OpAnd
	OpOr
	OpBEq // bool equality
	// bit-vectors
	OpBvAdd
	OpBvSub
	OpBvMul
	OpBvUdiv
	OpBvUrem
	OpBvSdiv
	OpBvSrem
	OpBvAnd
	OpBvOr
	OpBvXor
	OpBvShl
	OpBvLshr
	OpBvAshr
	OpBvNot
	OpBvConcat
	OpBvExtract // hi,lo
	OpBvZext    // to width w
	OpBvSext
	OpBvUlt
	OpBvUle
	OpBvSlt
	OpBvSle
	OpBvEq
	OpBv2Nat
	OpNat2Bv
)

type Term struct {
	id     int
	op     Op
	sort   SortK
	w      int
	args   []*Term
	coef   []*big.Int
	val    *big.Int
	h, l   int
	name   string
	lo, hi *big.Int // Int bounds, nil = unbounded
}

type Ctx struct {
	tab   map[string]*Term
	next  int
	vars  []*Term
	vmap  map[string]*Term
	True  *Term
	False *Term
	kb    []byte
	pend  map[string]*big.Int
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[string]*Term{}, vmap: map[string]*Term{}}
	c.True = c.mk(&Term{op: OpConst, sort: SBool, val: big1})
	c.False = c.mk(&Term{op: OpConst, sort: SBool, val: big0})
	return c
}

var (
	big0 = big.NewInt(0)
	big1 = big.NewInt(1)
)

var pow2tab [1100]*big.Int

func init() {
	for i := range pow2tab {
		pow2tab[i] = new(big.Int).Lsh(big1, uint(i))
	}
}

func pow2(n int) *big.Int {
	if n < len(pow2tab) {
		return pow2tab[n]
	}
	return new(big.Int).Lsh(big1, uint(n))
}

func (c *Ctx) mk(t *Term) *Term {
	b := c.kb[:0]
	b = append(b, byte(t.op), byte(t.sort))
	b = appendInt(b, t.w)
	b = appendInt(b, t.h)
	b = appendInt(b, t.l)
	for _, a := range t.args {
		b = appendInt(b, a.id)
	}
	b = append(b, '|')
	for _, k := range t.coef {
		b = appendBig(b, k)
	}
	if t.val != nil {
		b = append(b, '#')
		b = appendBig(b, t.val)
	}
	b = append(b, t.name...)
	c.kb = b
	if x, ok := c.tab[string(b)]; ok {
		return x
	}
	t.id = c.next
	c.next++
	c.tab[string(b)] = t
	return t
}

func appendInt(b []byte, n int) []byte {
	return append(b, byte(n), byte(n>>8), byte(n>>16), byte(n>>24))
}
func appendBig(b []byte, n *big.Int) []byte {
	if n.Sign() < 0 {
		b = append(b, '-')
	} else {
		b = append(b, '+')
	}
	bs := n.Bytes()
	b = appendInt(b, len(bs))
	return append(b, bs...)
}

func (t *Term) isConst() bool { return t.op == OpConst }

// ---------- constants and variables

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}
func (c *Ctx) Int(v *big.Int) *Term {
	return c.mk(&Term{op: OpConst, sort: SInt, val: v, lo: v, hi: v})
}
func (c *Ctx) IntI(v int64) *Term { return c.Int(big.NewInt(v)) }
func (c *Ctx) BV(v *big.Int, w int) *Term {
	v = new(big.Int).And(v, new(big.Int).Sub(pow2(w), big1))
	return c.mk(&Term{op: OpConst, sort: SBV, w: w, val: v})
}
func (c *Ctx) BVu(v uint64, w int) *Term { return c.BV(new(big.Int).SetUint64(v), w) }

func (c *Ctx) newVar(name string, s SortK, w int, lo, hi *big.Int) *Term {
	if v, ok := c.vmap[name]; ok {
		return v
	}
	t := &Term{op: OpVar, sort: s, w: w, name: name, lo: lo, hi: hi}
	t = c.mk(t)
	c.vars = append(c.vars, t)
	c.vmap[name] = t
	return t
}

// ---------- booleans

func (c *Ctx) Not(a *Term) *Term {
	switch a.op {
	case OpConst:
		return c.Bool(a.val.Sign() == 0)
	case OpNot:
		return a.args[0]
	case OpLe0: // !(x<=0) == x>=1 == 1-x<=0
		return c.Le0(c.Sub(c.IntI(1), a.args[0]))
	case OpBvUlt:
		return c.mk(&Term{op: OpBvUle, sort: SBool, args: []*Term{a.args[1], a.args[0]}})
	case OpBvUle:
		return c.mk(&Term{op: OpBvUlt, sort: SBool, args: []*Term{a.args[1], a.args[0]}})
	case OpBvSlt:
		return c.mk(&Term{op: OpBvSle, sort: SBool, args: []*Term{a.args[1], a.args[0]}})
	case OpBvSle:
		return c.mk(&Term{op: OpBvSlt, sort: SBool, args: []*Term{a.args[1], a.args[0]}})
	}
	return c.mk(&Term{op: OpNot, sort: SBool, args: []*Term{a}})
}

func (c *Ctx) And(xs ...*Term) *Term { return c.andor(OpAnd, xs) }
func (c *Ctx) Or(xs ...*Term) *Term  { return c.andor(OpOr, xs) }

func (c *Ctx) andor(op Op, xs []*Term) *Term {
	unit, zero := c.True, c.False
	if op == OpOr {
		unit, zero = c.False, c.True
	}
	var out []*Term
	seen := map[*Term]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == zero {
			return false
		}
		if x == unit || seen[x] {
			return true
		}
		if x.op == op {
			for _, y := range x.args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		if seen[c.Not(x)] {
			return false
		}
		seen[x] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return c.mk(&Term{op: op, sort: SBool, args: out})
}

func (c *Ctx) Implies(a, b *Term) *Term { return c.Or(c.Not(a), b) }

func (c *Ctx) BEq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.isConst() {
		a, b = b, a
	}
	if b == c.True {
		return a
	}
	if b == c.False {
		return c.Not(a)
	}
	if a == c.Not(b) {
		return c.False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: OpBEq, sort: SBool, args: []*Term{a, b}})
}

func (c *Ctx) Ite(cond, a, b *Term) *Term {
	if cond == c.True || a == b {
		return a
	}
	if cond == c.False {
		return b
	}
	if cond.op == OpNot {
		return c.Ite(cond.args[0], b, a)
	}
	if a.sort == SBool {
		if a == c.True {
			return c.Or(cond, b)
		}
		if a == c.False {
			return c.And(c.Not(cond), b)
		}
		if b == c.True {
			return c.Or(c.Not(cond), a)
		}
		if b == c.False {
			return c.And(cond, a)
		}
	}
	if a.op == OpIte && a.args[0] == cond {
		a = a.args[1]
	}
	if b.op == OpIte && b.args[0] == cond {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	t := &Term{op: OpIte, sort: a.sort, w: a.w, args: []*Term{cond, a, b}}
	if a.sort == SInt {
		if a.lo != nil && b.lo != nil {
			t.lo = minB(a.lo, b.lo)
		}
		if a.hi != nil && b.hi != nil {
			t.hi = maxB(a.hi, b.hi)
		}
	}
	return c.mk(t)
}

func minB(a, b *big.Int) *big.Int {
	if a.Cmp(b) <= 0 {
		return a
	}
	return b
}
func maxB(a, b *big.Int) *big.Int {
	if a.Cmp(b) >= 0 {
		return a
	}
	return b
}

// ---------- integers

type linMap struct {
	cst *big.Int
	m   map[*Term]*big.Int
}

func (c *Ctx) toLin(t *Term, scale *big.Int, out *linMap) {
	switch t.op {
	case OpConst:
		out.cst.Add(out.cst, new(big.Int).Mul(scale, t.val))
	case OpLin:
		out.cst.Add(out.cst, new(big.Int).Mul(scale, t.val))
		for i, a := range t.args {
			out.add(a, new(big.Int).Mul(scale, t.coef[i]))
		}
	default:
		out.add(t, scale)
	}
}
func (l *linMap) add(a *Term, k *big.Int) {
	if o, ok := l.m[a]; ok {
		s := new(big.Int).Add(o, k)
		if s.Sign() == 0 {
			delete(l.m, a)
		} else {
			l.m[a] = s
		}
	} else if k.Sign() != 0 {
		l.m[a] = k
	}
}
func newLin() *linMap { return &linMap{cst: new(big.Int), m: map[*Term]*big.Int{}} }

func (c *Ctx) fromLin(l *linMap) *Term {
	// recombine adjacent extracts of one base
	if len(l.m) > 1 {
		c.recombine(l)
	} else if len(l.m) == 1 {
		for a := range l.m {
			if a.op == OpExt && a.l == 0 {
				c.recombine(l)
			}
			break
		}
	}
	if len(l.m) == 0 {
		return c.Int(l.cst)
	}
	if len(l.m) == 1 && l.cst.Sign() == 0 {
		for a, k := range l.m {
			if k.Cmp(big1) == 0 {
				return a
			}
		}
	}
	atoms := make([]*Term, 0, len(l.m))
	for a := range l.m {
		atoms = append(atoms, a)
	}
	sort.Slice(atoms, func(i, j int) bool { return atoms[i].id < atoms[j].id })
	t := &Term{op: OpLin, sort: SInt, val: l.cst, args: atoms, coef: make([]*big.Int, len(atoms))}
	lo, hi := l.cst, l.cst
	for i, a := range atoms {
		k := l.m[a]
		t.coef[i] = k
		al, ah := a.lo, a.hi
		if k.Sign() < 0 {
			al, ah = ah, al
		}
		if lo != nil {
			if al == nil {
				lo = nil
			} else {
				lo = new(big.Int).Add(lo, new(big.Int).Mul(k, al))
			}
		}
		if hi != nil {
			if ah == nil {
				hi = nil
			} else {
				hi = new(big.Int).Add(hi, new(big.Int).Mul(k, ah))
			}
		}
	}
	t.lo, t.hi = lo, hi
	return c.mk(t)
}

func (c *Ctx) recombine(l *linMap) {
	n := 0
	for a := range l.m {
		if a.op == OpExt {
			n++
		}
	}
	if n == 0 {
		return
	}
	for changed := true; changed; {
		changed = false
		exts := make([]*Term, 0, n)
		for a := range l.m {
			if a.op == OpExt {
				exts = append(exts, a)
			}
		}
		if len(exts) < 2 {
			return
		}
		sort.Slice(exts, func(i, j int) bool {
			a, b := exts[i], exts[j]
			if a.args[0] != b.args[0] {
				return a.args[0].id < b.args[0].id
			}
			if a.l != b.l {
				return a.l < b.l
			}
			return a.id < b.id
		})
		for i := 0; i < len(exts); {
			a := exts[i]
			ka, h := l.m[a], a.h
			j := i + 1
			for j < len(exts) {
				b := exts[j]
				if b.args[0] != a.args[0] || b.l != h+1 || l.m[b].Cmp(new(big.Int).Mul(ka, pow2(h-a.l+1))) != 0 {
					break
				}
				h = b.h
				j++
			}
			if j > i+1 {
				for _, x := range exts[i:j] {
					delete(l.m, x)
				}
				c.toLin(c.Ext(a.args[0], h, a.l), ka, l)
				changed = true
			}
			i = j
		}
		if changed {
			continue
		}
		// the lower piece may be one of a term that differs by a multiple of what the piece drops
	pairs:
		for _, a := range exts {
			for _, b := range exts {
				if b.l != a.h+1 || a.args[0] == b.args[0] || l.m[b].Cmp(new(big.Int).Mul(l.m[a], pow2(a.h-a.l+1))) != 0 {
					continue
				}
				d := c.Sub(b.args[0], a.args[0])
				if !d.isConst() || new(big.Int).Mod(d.val, pow2(a.h+1)).Sign() != 0 {
					continue
				}
				ka := l.m[a]
				delete(l.m, a)
				delete(l.m, b)
				c.toLin(c.Ext(b.args[0], b.h, a.l), ka, l)
				changed = true
				break pairs
			}
		}
	}
}

func (c *Ctx) Add(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.Int(new(big.Int).Add(a.val, b.val))
	}
	l := newLin()
	c.toLin(a, big1, l)
	c.toLin(b, big1, l)
	return c.fromLin(l)
}
func (c *Ctx) Sub(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.Int(new(big.Int).Sub(a.val, b.val))
	}
	l := newLin()
	c.toLin(a, big1, l)
	c.toLin(b, big.NewInt(-1), l)
	return c.fromLin(l)
}
func (c *Ctx) Neg(a *Term) *Term { return c.Sub(c.IntI(0), a) }
func (c *Ctx) MulK(a *Term, k *big.Int) *Term {
	l := newLin()
	if k.Sign() != 0 {
		c.toLin(a, k, l)
	}
	return c.fromLin(l)
}

func (c *Ctx) mono(fs []*Term) *Term {
	if len(fs) == 1 {
		return fs[0]
	}
	fs = append([]*Term(nil), fs...)
	sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
	t := &Term{op: OpMulN, sort: SInt, args: fs}
	lo, hi := fs[0].lo, fs[0].hi
	for _, f := range fs[1:] {
		if lo == nil || hi == nil || f.lo == nil || f.hi == nil {
			// only keep non-negativity
			if lo != nil && lo.Sign() >= 0 && f.lo != nil && f.lo.Sign() >= 0 {
				lo, hi = new(big.Int).Mul(lo, f.lo), nil
			} else {
				lo, hi = nil, nil
			}
			continue
		}
		ps := []*big.Int{new(big.Int).Mul(lo, f.lo), new(big.Int).Mul(lo, f.hi), new(big.Int).Mul(hi, f.lo), new(big.Int).Mul(hi, f.hi)}
		lo, hi = ps[0], ps[0]
		for _, p := range ps {
			lo, hi = minB(lo, p), maxB(hi, p)
		}
	}
	t.lo, t.hi = lo, hi
	return c.mk(t)
}

func factors(t *Term) []*Term {
	if t.op == OpMulN {
		return t.args
	}
	return []*Term{t}
}

func (c *Ctx) Mul(a, b *Term) *Term {
	if a.isConst() {
		return c.MulK(b, a.val)
	}
	if b.isConst() {
		return c.MulK(a, b.val)
	}
	la, lb := newLin(), newLin()
	c.toLin(a, big1, la)
	c.toLin(b, big1, lb)
	na, nb := len(la.m), len(lb.m)
	if na*nb > 64 {
		return c.mono(append(append([]*Term{}, c.atomize(a)), c.atomize(b)))
	}
	out := newLin()
	out.cst.Mul(la.cst, lb.cst)
	for x, kx := range la.m {
		if lb.cst.Sign() != 0 {
			out.add(x, new(big.Int).Mul(kx, lb.cst))
		}
		for y, ky := range lb.m {
			m := c.mono(append(append([]*Term{}, factors(x)...), factors(y)...))
			out.add(m, new(big.Int).Mul(kx, ky))
		}
	}
	if la.cst.Sign() != 0 {
		for y, ky := range lb.m {
			out.add(y, new(big.Int).Mul(ky, la.cst))
		}
	}
	return c.fromLin(out)
}
func (c *Ctx) atomize(t *Term) *Term { return t }

// split t (as linear form) into multiples of k and the rest.
func (c *Ctx) splitMult(t *Term, k *big.Int) (q, r *Term) {
	l := newLin()
	c.toLin(t, big1, l)
	ql, rl := newLin(), newLin()
	for a, ka := range l.m {
		d, m := new(big.Int).DivMod(ka, k, new(big.Int))
		if m.Sign() == 0 {
			ql.m[a] = d
		} else {
			rl.m[a] = ka
		}
	}
	d, m := new(big.Int).DivMod(l.cst, k, new(big.Int))
	ql.cst, rl.cst = d, m
	return c.fromLin(ql), c.fromLin(rl)
}

func inRange(t *Term, lo, hi *big.Int) bool { // lo <= t < hi
	return t.lo != nil && t.hi != nil && t.lo.Cmp(lo) >= 0 && t.hi.Cmp(hi) < 0
}

func log2exact(k *big.Int) int {
	if k.Sign() <= 0 {
		return -1
	}
	n := k.BitLen() - 1
	if k.Cmp(pow2(n)) == 0 {
		return n
	}
	return -1
}

// floor division by positive constant
func (c *Ctx) DivK(t *Term, k *big.Int) *Term {
	if k.Cmp(big1) == 0 {
		return t
	}
	if t.isConst() {
		return c.Int(new(big.Int).Div(t.val, k))
	}
	q, r := c.splitMult(t, k)
	if inRange(r, big0, k) {
		return q
	}
	if q.op != OpConst || q.val.Sign() != 0 {
		return c.Add(q, c.DivK(r, k))
	}
	if t.op == OpDivK {
		return c.DivK(t.args[0], new(big.Int).Mul(k, t.val))
	}
	if n := log2exact(k); n > 0 && t.lo != nil && t.lo.Sign() >= 0 && t.hi != nil {
		return c.Ext(t, t.hi.BitLen()-1, n)
	}
	if t.op == OpIte && (t.args[1].isConst() || t.args[2].isConst()) {
		return c.Ite(t.args[0], c.DivK(t.args[1], k), c.DivK(t.args[2], k))
	}
	x := &Term{op: OpDivK, sort: SInt, args: []*Term{t}, val: k}
	if t.lo != nil {
		x.lo = new(big.Int).Div(t.lo, k)
	}
	if t.hi != nil {
		x.hi = new(big.Int).Div(t.hi, k)
	}
	return c.mk(x)
}

func (c *Ctx) ModK(t *Term, k *big.Int) *Term {
	if k.Cmp(big1) == 0 {
		return c.IntI(0)
	}
	if t.isConst() {
		return c.Int(new(big.Int).Mod(t.val, k))
	}
	if inRange(t, big0, k) {
		return t
	}
	qd, r := c.splitMult(t, k)
	if inRange(r, big0, k) {
		return r
	}
	if !keepsWhole(t, qd) {
		t = r
	}
	if t.lo != nil && t.hi != nil {
		// within one block of k
		q := new(big.Int).Div(t.lo, k) // Euclidean, k > 0: floor
		if q.Sign() != 0 && q.Cmp(new(big.Int).Div(t.hi, k)) == 0 {
			return c.Sub(t, c.Int(q.Mul(q, k)))
		}
	}
	if n := log2exact(k); n > 0 && t.lo != nil && t.lo.Sign() >= 0 && t.hi != nil {
		return c.Ext(t, n-1, 0)
	}
	if t.op == OpIte && (t.args[1].isConst() || t.args[2].isConst()) {
		return c.Ite(t.args[0], c.ModK(t.args[1], k), c.ModK(t.args[2], k))
	}
	x := &Term{op: OpModK, sort: SInt, args: []*Term{t}, val: k, lo: big0, hi: new(big.Int).Sub(k, big1)}
	return c.mk(x)
}

// Ext: bits h..l of nonneg t
// keepsWhole: a non-negative t that is written with a small negative constant stays as it is, so that the pieces of one term
// fit together again
func keepsWhole(t, qd *Term) bool {
	return qd.isConst() && qd.val.Cmp(bigM1) == 0 && t.lo != nil && t.lo.Sign() >= 0
}

var bigM1 = big.NewInt(-1)

func (c *Ctx) Ext(t *Term, h, l int) *Term {
	if h < l {
		return c.IntI(0)
	}
	if t.isConst() {
		v := new(big.Int).Rsh(t.val, uint(l))
		v.Mod(v, pow2(h-l+1))
		return c.Int(v)
	}
	if t.lo != nil && t.lo.Sign() >= 0 && t.hi != nil {
		if bl := t.hi.BitLen(); h > bl-1 {
			h = bl - 1
			if h < l {
				return c.IntI(0)
			}
		}
	}
	if t.lo != nil && t.hi != nil {
		a, b := new(big.Int).Rsh(t.lo, uint(l)), new(big.Int).Rsh(t.hi, uint(l))
		if a.Cmp(b) == 0 {
			return c.Int(a.Mod(a, pow2(h-l+1)))
		}
		if l == 0 {
			a.Rsh(t.lo, uint(h+1))
			b.Rsh(t.hi, uint(h+1))
			if a.Cmp(b) == 0 {
				return c.Sub(t, c.Int(a.Lsh(a, uint(h+1))))
			}
		}
	}
	// drop multiples of 2^(h+1)
	qd, r := c.splitMult(t, pow2(h+1))
	if keepsWhole(t, qd) || qd.isConst() && qd.val.Sign() > 0 && t.lo != nil && t.lo.Sign() >= 0 && r.lo != nil && r.lo.Sign() < 0 {
		r = t // stay non-negative, so that the pieces of one term fit together again
	}
	if l > 0 {
		q, lowr := c.splitMult(r, pow2(l))
		if inRange(lowr, big0, pow2(l)) {
			return c.Ext(q, h-l, 0)
		}
	} else if inRange(r, big0, pow2(h+1)) {
		return r
	}
	t = r
	if t.op == OpExt {
		return c.Ext(t.args[0], min(t.l+h, t.h), t.l+l)
	}
	if t.op == OpIte && (t.args[1].isConst() || t.args[2].isConst()) {
		return c.Ite(t.args[0], c.Ext(t.args[1], h, l), c.Ext(t.args[2], h, l))
	}
	x := &Term{op: OpExt, sort: SInt, args: []*Term{t}, h: h, l: l, lo: big0, hi: new(big.Int).Sub(pow2(h-l+1), big1)}
	if t.lo != nil && t.lo.Sign() >= 0 && t.hi != nil && t.hi.BitLen()-1 <= h {
		x.hi = minB(x.hi, new(big.Int).Rsh(t.hi, uint(l)))
	}
	if t.lo != nil && t.hi != nil && new(big.Int).Rsh(t.lo, uint(h+1)).Cmp(new(big.Int).Rsh(t.hi, uint(h+1))) == 0 {
		// within one block
		m := pow2(h - l + 1)
		a, b := new(big.Int).Rsh(t.lo, uint(l)), new(big.Int).Rsh(t.hi, uint(l))
		x.lo, x.hi = a.Mod(a, m), b.Mod(b, m)
	}
	return c.mk(x)
}

// Euclidean div/mod (SMT-LIB semantics; = big.Int Div/Mod). y must be known non-zero on the path.
func (c *Ctx) Div(a, b *Term) *Term {
	if b.isConst() {
		if b.val.Sign() > 0 {
			return c.DivK(a, b.val)
		}
		return c.Neg(c.DivK(a, new(big.Int).Neg(b.val)))
	}
	// exact polynomial division a = b*k handled: a == b
	if a == b {
		return c.IntI(1)
	}
	if a.isConst() && a.val.Sign() == 0 {
		return a
	}
	t := &Term{op: OpDiv, sort: SInt, args: []*Term{a, b}}
	if a.lo != nil && a.lo.Sign() >= 0 && b.lo != nil && b.lo.Sign() >= 0 {
		t.lo = big0
		t.hi = a.hi
	}
	return c.mk(t)
}
func (c *Ctx) Mod(a, b *Term) *Term {
	if b.isConst() {
		return c.ModK(a, new(big.Int).Abs(b.val))
	}
	if a == b || (a.isConst() && a.val.Sign() == 0) {
		return c.IntI(0)
	}
	t := &Term{op: OpMod, sort: SInt, args: []*Term{a, b}, lo: big0}
	if b.lo != nil && b.lo.Sign() >= 0 && b.hi != nil {
		t.hi = b.hi
	}
	return c.mk(t)
}

func (c *Ctx) Le(a, b *Term) *Term { return c.Le0(c.Sub(a, b)) }
func (c *Ctx) Lt(a, b *Term) *Term { return c.Le0(c.Add(c.Sub(a, b), c.IntI(1))) }

func singleIte(t *Term) (*Term, *big.Int, *big.Int) {
	if t.op == OpIte {
		return t, big1, big0
	}
	if t.op == OpLin && len(t.args) == 1 && t.args[0].op == OpIte {
		return t.args[0], t.coef[0], t.val
	}
	return nil, nil, nil
}

func (c *Ctx) Le0(t *Term) *Term {
	if t.hi != nil && t.hi.Sign() <= 0 {
		return c.True
	}
	if t.lo != nil && t.lo.Sign() > 0 {
		return c.False
	}
	if it, k, cst := singleIte(t); it != nil {
		a := c.Add(c.MulK(it.args[1], k), c.Int(cst))
		b := c.Add(c.MulK(it.args[2], k), c.Int(cst))
		if iteConstish(it, 0) {
			return c.Ite(it.args[0], c.Le0(a), c.Le0(b))
		}
	}
	if t.op == OpLin {
		g := new(big.Int)
		for _, k := range t.coef {
			g.GCD(nil, nil, g, new(big.Int).Abs(k))
		}
		if g.Cmp(big1) > 0 {
			l := newLin()
			for i, a := range t.args {
				l.m[a] = new(big.Int).Div(t.coef[i], g)
			}
			// g*s + cst <= 0  <=> s <= floor(-cst/g) <=> s - floor(-cst/g) <= 0
			l.cst = new(big.Int).Neg(new(big.Int).Div(new(big.Int).Neg(t.val), g))
			t = c.fromLin(l)
			return c.Le0(t)
		}
	}
	return c.mk(&Term{op: OpLe0, sort: SBool, args: []*Term{t}})
}

func iteConstish(t *Term, d int) bool {
	if d > 6 {
		return false
	}
	if t.op == OpIte {
		return iteConstish(t.args[1], d+1) && iteConstish(t.args[2], d+1)
	}
	return t.op == OpConst
}

func (c *Ctx) Eq(a, b *Term) *Term { return c.Eq0(c.Sub(a, b)) }
func (c *Ctx) Eq0(t *Term) *Term {
	if t.isConst() {
		return c.Bool(t.val.Sign() == 0)
	}
	if (t.hi != nil && t.hi.Sign() < 0) || (t.lo != nil && t.lo.Sign() > 0) {
		return c.False
	}
	if it, k, cst := singleIte(t); it != nil && iteConstish(it, 0) {
		a := c.Add(c.MulK(it.args[1], k), c.Int(cst))
		b := c.Add(c.MulK(it.args[2], k), c.Int(cst))
		return c.Ite(it.args[0], c.Eq0(a), c.Eq0(b))
	}
	if t.op == OpLin {
		g := new(big.Int)
		for _, k := range t.coef {
			g.GCD(nil, nil, g, new(big.Int).Abs(k))
		}
		if new(big.Int).Mod(t.val, g).Sign() != 0 {
			return c.False
		}
		neg := t.coef[0].Sign() < 0
		if g.Cmp(big1) > 0 || neg {
			if neg {
				g.Neg(g)
			}
			l := newLin()
			for i, a := range t.args {
				l.m[a] = new(big.Int).Quo(t.coef[i], g)
			}
			l.cst = new(big.Int).Quo(t.val, g)
			return c.Eq0(c.fromLin(l))
		}
	}
	return c.mk(&Term{op: OpEq0, sort: SBool, args: []*Term{t}})
}

// ---------- bit-vectors

func toSigned(v *big.Int, w int) *big.Int {
	if v.Bit(w-1) == 1 {
		return new(big.Int).Sub(v, pow2(w))
	}
	return v
}

func (c *Ctx) bvFold(op Op, a, b *Term) *big.Int {
	x, y, w := a.val, b.val, a.w
	r := new(big.Int)
	switch op {
	case OpBvAdd:
		return r.Add(x, y)
	case OpBvSub:
		return r.Sub(x, y)
	case OpBvMul:
		return r.Mul(x, y)
	case OpBvUdiv:
		if y.Sign() == 0 {
			return nil
		}
		return r.Div(x, y)
	case OpBvUrem:
		if y.Sign() == 0 {
			return nil
		}
		return r.Mod(x, y)
	case OpBvSdiv:
		if y.Sign() == 0 {
			return nil
		}
		return r.Quo(toSigned(x, w), toSigned(y, w))
	case OpBvSrem:
		if y.Sign() == 0 {
			return nil
		}
		return r.Rem(toSigned(x, w), toSigned(y, w))
	case OpBvAnd:
		return r.And(x, y)
	case OpBvOr:
		return r.Or(x, y)
	case OpBvXor:
		return r.Xor(x, y)
	case OpBvShl:
		if !y.IsUint64() || y.Uint64() >= uint64(w) {
			return r
		}
		return r.Lsh(x, uint(y.Uint64()))
	case OpBvLshr:
		if !y.IsUint64() || y.Uint64() >= uint64(w) {
			return r
		}
		return r.Rsh(x, uint(y.Uint64()))
	case OpBvAshr:
		s := uint64(w)
		if y.IsUint64() && y.Uint64() < s {
			s = y.Uint64()
		}
		return r.Rsh(toSigned(x, w), uint(s))
	}
	return nil
}

func (c *Ctx) BvBin(op Op, a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() {
		if v := c.bvFold(op, a, b); v != nil {
			return c.BV(v, w)
		}
	}
	switch op {
	case OpBvAdd, OpBvOr, OpBvXor:
		if a.isConst() && a.val.Sign() == 0 {
			return b
		}
		if b.isConst() && b.val.Sign() == 0 {
			return a
		}
		if op == OpBvXor && a == b {
			return c.BVu(0, w)
		}
		if op == OpBvOr && a == b {
			return a
		}
	case OpBvSub:
		if b.isConst() && b.val.Sign() == 0 {
			return a
		}
		if a == b {
			return c.BVu(0, w)
		}
	case OpBvMul, OpBvAnd:
		for i := 0; i < 2; i++ {
			if a.isConst() {
				if a.val.Sign() == 0 {
					return a
				}
				if op == OpBvMul && a.val.Cmp(big1) == 0 {
					return b
				}
				if op == OpBvAnd && a.val.Cmp(new(big.Int).Sub(pow2(w), big1)) == 0 {
					return b
				}
			}
			a, b = b, a
		}
		if op == OpBvAnd && a == b {
			return a
		}
	case OpBvShl, OpBvLshr, OpBvAshr:
		if b.isConst() {
			if b.val.Sign() == 0 {
				return a
			}
			s := w
			if b.val.IsInt64() && b.val.Int64() < int64(w) {
				s = int(b.val.Int64())
			}
			if op == OpBvShl {
				if s >= w {
					return c.BVu(0, w)
				}
				return c.Concat(c.Extract(a, w-1-s, 0), c.BVu(0, s))
			}
			if op == OpBvLshr {
				if s >= w {
					return c.BVu(0, w)
				}
				return c.Zext(c.Extract(a, w-1, s), w)
			}
		}
	}
	if op == OpBvOr {
		if r := c.orMerge(a, b); r != nil {
			return r
		}
	}
	switch op {
	case OpBvAdd, OpBvMul, OpBvAnd, OpBvOr, OpBvXor:
		if a.id > b.id {
			a, b = b, a
		}
	}
	return c.mk(&Term{op: op, sort: SBV, w: w, args: []*Term{a, b}})
}

// pieces of a concat tree, msb first; zero pieces are constants
func (c *Ctx) pieces(t *Term, out []*Term) []*Term {
	switch t.op {
	case OpBvConcat:
		for _, a := range t.args {
			out = c.pieces(a, out)
		}
		return out
	case OpBvZext:
		out = append(out, c.BVu(0, t.w-t.args[0].w))
		return c.pieces(t.args[0], out)
	}
	return append(out, t)
}

func (c *Ctx) orMerge(a, b *Term) *Term {
	if a.op != OpBvConcat && a.op != OpBvZext && b.op != OpBvConcat && b.op != OpBvZext {
		return nil
	}
	pa, pb := c.pieces(a, nil), c.pieces(b, nil)
	var out []*Term
	isZ := func(t *Term) bool { return t.isConst() && t.val.Sign() == 0 }
	for len(pa) > 0 && len(pb) > 0 {
		x, y := pa[0], pb[0]
		n := min(x.w, y.w)
		hx, hy := c.Extract(x, x.w-1, x.w-n), c.Extract(y, y.w-1, y.w-n)
		if isZ(hx) {
			out = append(out, hy)
		} else if isZ(hy) {
			out = append(out, hx)
		} else {
			return nil
		}
		if x.w > n {
			pa[0] = c.Extract(x, x.w-n-1, 0)
		} else {
			pa = pa[1:]
		}
		if y.w > n {
			pb[0] = c.Extract(y, y.w-n-1, 0)
		} else {
			pb = pb[1:]
		}
	}
	return c.Concat(out...)
}

func (c *Ctx) BvNot(a *Term) *Term {
	if a.isConst() {
		return c.BV(new(big.Int).Sub(new(big.Int).Sub(pow2(a.w), big1), a.val), a.w)
	}
	if a.op == OpBvNot {
		return a.args[0]
	}
	return c.mk(&Term{op: OpBvNot, sort: SBV, w: a.w, args: []*Term{a}})
}

func (c *Ctx) Concat(xs ...*Term) *Term { // msb first
	var fl []*Term
	for _, x := range xs {
		if x.w == 0 {
			continue
		}
		fl = c.pieces(x, fl)
	}
	var out []*Term
	for _, x := range fl {
		if x.w == 0 {
			continue
		}
		if len(out) > 0 {
			p := out[len(out)-1]
			if p.isConst() && x.isConst() {
				v := new(big.Int).Lsh(p.val, uint(x.w))
				out[len(out)-1] = c.BV(v.Or(v, x.val), p.w+x.w)
				continue
			}
			// adjacent extracts
			if p.op == OpBvExtract && x.op == OpBvExtract && p.args[0] == x.args[0] && p.l == x.h+1 {
				out[len(out)-1] = c.Extract(p.args[0], p.h, x.l)
				continue
			}
		}
		out = append(out, x)
	}
	if len(out) == 1 {
		return out[0]
	}
	w := 0
	for _, x := range out {
		w += x.w
	}
	if len(out) == 2 && out[0].isConst() && out[0].val.Sign() == 0 {
		return c.mk(&Term{op: OpBvZext, sort: SBV, w: w, args: []*Term{out[1]}})
	}
	return c.mk(&Term{op: OpBvConcat, sort: SBV, w: w, args: out})
}

func (c *Ctx) Extract(a *Term, h, l int) *Term {
	if l == 0 && h == a.w-1 {
		return a
	}
	w := h - l + 1
	switch a.op {
	case OpConst:
		return c.BV(new(big.Int).Rsh(a.val, uint(l)), w)
	case OpBvExtract:
		return c.Extract(a.args[0], a.l+h, a.l+l)
	case OpBvConcat, OpBvZext:
		ps := c.pieces(a, nil)
		pos := a.w
		var out []*Term
		for _, p := range ps {
			ph, pl := pos-1, pos-p.w
			pos = pl
			if pl > h || ph < l {
				continue
			}
			eh, el := min(ph, h)-pl, max(pl, l)-pl
			out = append(out, c.Extract(p, eh, el))
		}
		return c.Concat(out...)
	case OpBvSext:
		if h < a.args[0].w {
			return c.Extract(a.args[0], h, l)
		}
	case OpIte:
		if a.args[1].isConst() || a.args[2].isConst() {
			return c.Ite(a.args[0], c.Extract(a.args[1], h, l), c.Extract(a.args[2], h, l))
		}
	case OpBvAnd, OpBvOr, OpBvXor:
		return c.BvBin(a.op, c.Extract(a.args[0], h, l), c.Extract(a.args[1], h, l))
	case OpBvAdd, OpBvSub, OpBvMul:
		if l == 0 {
			return c.BvBin(a.op, c.Extract(a.args[0], h, 0), c.Extract(a.args[1], h, 0))
		}
	}
	return c.mk(&Term{op: OpBvExtract, sort: SBV, w: w, h: h, l: l, args: []*Term{a}})
}

func (c *Ctx) Zext(a *Term, w int) *Term {
	if w == a.w {
		return a
	}
	return c.Concat(c.BVu(0, w-a.w), a)
}
func (c *Ctx) Sext(a *Term, w int) *Term {
	if w == a.w {
		return a
	}
	if a.isConst() {
		return c.BV(toSigned(a.val, a.w), w)
	}
	if a.op == OpBvZext {
		return c.Zext(a.args[0], w)
	}
	if a.op == OpIte && (a.args[1].isConst() || a.args[2].isConst()) {
		return c.Ite(a.args[0], c.Sext(a.args[1], w), c.Sext(a.args[2], w))
	}
	return c.mk(&Term{op: OpBvSext, sort: SBV, w: w, args: []*Term{a}})
}

func (c *Ctx) BvCmp(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		x, y := a.val, b.val
		if op == OpBvSlt || op == OpBvSle {
			x, y = toSigned(x, a.w), toSigned(y, a.w)
		}
		k := x.Cmp(y)
		switch op {
		case OpBvUlt, OpBvSlt:
			return c.Bool(k < 0)
		case OpBvUle, OpBvSle:
			return c.Bool(k <= 0)
		case OpBvEq:
			return c.Bool(k == 0)
		}
	}
	if a == b {
		return c.Bool(op == OpBvEq || op == OpBvUle || op == OpBvSle)
	}
	if op == OpBvEq {
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			switch a.op {
			case OpIte:
				if iteConstish(a, 0) {
					return c.Ite(a.args[0], c.BvCmp(op, a.args[1], b), c.BvCmp(op, a.args[2], b))
				}
			case OpBvConcat, OpBvZext:
				ps := c.pieces(a, nil)
				pos := a.w
				var cs []*Term
				for _, p := range ps {
					cs = append(cs, c.BvCmp(OpBvEq, p, c.Extract(b, pos-1, pos-p.w)))
					pos -= p.w
				}
				return c.And(cs...)
			}
		} else if a.id > b.id {
			a, b = b, a
		}
	} else {
		if a.op == OpIte && b.isConst() && iteConstish(a, 0) {
			return c.Ite(a.args[0], c.BvCmp(op, a.args[1], b), c.BvCmp(op, a.args[2], b))
		}
		if b.op == OpIte && a.isConst() && iteConstish(b, 0) {
			return c.Ite(b.args[0], c.BvCmp(op, a, b.args[1]), c.BvCmp(op, a, b.args[2]))
		}
		// upper bound via zext
		if op == OpBvUlt || op == OpBvUle || op == OpBvSlt || op == OpBvSle {
			za, zb := a, b
			sgn := op == OpBvSlt || op == OpBvSle
			if za.op == OpBvZext && zb.isConst() && (!sgn || zb.val.Bit(zb.w-1) == 0) {
				m := new(big.Int).Sub(pow2(za.args[0].w), big1)
				cmp := m.Cmp(zb.val)
				if cmp < 0 || (cmp == 0 && (op == OpBvUle || op == OpBvSle)) {
					return c.True
				}
			}
			if sgn && zb.op == OpBvZext && za.isConst() && (za.val.Bit(za.w-1) == 1 || (za.val.Sign() == 0 && op == OpBvSle)) {
				return c.True // negative const < nonneg
			}
			if sgn && za.op == OpBvZext && zb.isConst() && (zb.val.Bit(zb.w-1) == 1 || (zb.val.Sign() == 0 && op == OpBvSlt)) {
				return c.False
			}
		}
		if op == OpBvUlt && b.isConst() && b.val.Sign() == 0 {
			return c.False
		}
		if op == OpBvUle && a.isConst() && a.val.Sign() == 0 {
			return c.True
		}
	}
	return c.mk(&Term{op: op, sort: SBool, args: []*Term{a, b}})
}

func (c *Ctx) Bv2Nat(a *Term, signed bool) *Term {
	if a.isConst() {
		if signed {
			return c.Int(toSigned(a.val, a.w))
		}
		return c.Int(a.val)
	}
	if !signed {
		ps := c.pieces(a, nil)
		if len(ps) > 1 {
			r := c.IntI(0)
			for _, p := range ps {
				r = c.Add(c.MulK(r, pow2(p.w)), c.Bv2Nat(p, false))
			}
			return r
		}
	}
	if a.op == OpNat2Bv && !signed {
		x := a.args[0]
		if inRange(x, big0, pow2(a.w)) {
			return x
		}
	}
	if a.op == OpIte {
		return c.Ite(a.args[0], c.Bv2Nat(a.args[1], signed), c.Bv2Nat(a.args[2], signed))
	}
	t := c.mk(&Term{op: OpBv2Nat, sort: SInt, args: []*Term{a}, lo: big0, hi: new(big.Int).Sub(pow2(a.w), big1)})
	if signed {
		neg := c.BvCmp(OpBvSlt, a, c.BVu(0, a.w))
		return c.Ite(neg, c.Sub(t, c.Int(pow2(a.w))), t)
	}
	return t
}

func (c *Ctx) Nat2Bv(a *Term, w int) *Term {
	if a.isConst() {
		return c.BV(new(big.Int).Mod(a.val, pow2(w)), w)
	}
	if a.op == OpBv2Nat {
		x := a.args[0]
		if x.w == w {
			return x
		}
		if x.w < w {
			return c.Zext(x, w)
		}
		return c.Extract(x, w-1, 0)
	}
	if a.op == OpExt && a.args[0].op == OpBv2Nat {
		x := a.args[0].args[0]
		e := c.Extract(x, min(a.h, x.w-1), a.l)
		if e.w <= w {
			return c.Zext(e, w)
		}
		return c.Extract(e, w-1, 0)
	}
	if a.op == OpLin {
		// linear combination of converted bit-vectors: do it in BV arithmetic (mod 2^w is exact)
		ok := true
		for _, x := range a.args {
			if x.op != OpBv2Nat && !(x.op == OpExt && x.args[0].op == OpBv2Nat) {
				ok = false
				break
			}
		}
		if ok {
			r := c.BV(new(big.Int).Mod(a.val, pow2(w)), w)
			for i, x := range a.args {
				k := new(big.Int).Mod(a.coef[i], pow2(w))
				xb := c.Nat2Bv(x, w)
				if n := log2exact(k); n >= 0 {
					xb = c.BvBin(OpBvShl, xb, c.BVu(uint64(n), w))
					// disjoint or?
					if m := c.orMerge(r, xb); m != nil {
						r = m
						continue
					}
				} else {
					xb = c.BvBin(OpBvMul, xb, c.BV(k, w))
				}
				r = c.BvBin(OpBvAdd, r, xb)
			}
			return r
		}
	}
	if a.op == OpIte {
		return c.Ite(a.args[0], c.Nat2Bv(a.args[1], w), c.Nat2Bv(a.args[2], w))
	}
	return c.mk(&Term{op: OpNat2Bv, sort: SBV, w: w, args: []*Term{a}})
}

// ---------- SMT-LIB output

func smtInt(v *big.Int) string {
	if v.Sign() < 0 {
		return "(- " + new(big.Int).Neg(v).String() + ")"
	}
	return v.String()
}

func (t *Term) sortName() string {
	switch t.sort {
	case SBool:
		return "Bool"
	case SInt:
		return "Int"
	}
	return fmt.Sprintf("(_ BitVec %d)", t.w)
}

func (t *Term) leafName() string {
	switch t.op {
	case OpConst:
		switch t.sort {
		case SBool:
			if t.val.Sign() != 0 {
				return "true"
			}
			return "false"
		case SInt:
			return smtInt(t.val)
		default:
			return fmt.Sprintf("(_ bv%s %d)", t.val.String(), t.w)
		}
	case OpVar:
		return "|" + t.name + "|"
	}
	return fmt.Sprintf("t%d", t.id)
}

var bvNames = map[Op]string{OpBvAdd: "bvadd", OpBvSub: "bvsub", OpBvMul: "bvmul", OpBvUdiv: "bvudiv", OpBvUrem: "bvurem",
	OpBvSdiv: "bvsdiv", OpBvSrem: "bvsrem", OpBvAnd: "bvand", OpBvOr: "bvor", OpBvXor: "bvxor", OpBvShl: "bvshl", OpBvLshr: "bvlshr",
	OpBvAshr: "bvashr", OpBvNot: "bvnot", OpBvConcat: "concat", OpBvUlt: "bvult", OpBvUle: "bvule", OpBvSlt: "bvslt", OpBvSle: "bvsle", OpBvEq: "="}

func (t *Term) body() string {
	var sb strings.Builder
	a := func(i int) string { return t.args[i].leafName() }
	list := func(op string) {
		sb.WriteString("(" + op)
		for i := range t.args {
			sb.WriteString(" " + a(i))
		}
		sb.WriteString(")")
	}
	switch t.op {
	case OpLin:
		sb.WriteString("(+")
		if t.val.Sign() != 0 || len(t.args) == 1 {
			sb.WriteString(" " + smtInt(t.val))
		}
		for i := range t.args {
			if t.coef[i].Cmp(big1) == 0 {
				sb.WriteString(" " + a(i))
			} else {
				sb.WriteString(" (* " + smtInt(t.coef[i]) + " " + a(i) + ")")
			}
		}
		sb.WriteString(")")
	case OpMulN:
		list("*")
	case OpDiv:
		list("div")
	case OpMod:
		list("mod")
	case OpDivK:
		return "(div " + a(0) + " " + t.val.String() + ")"
	case OpModK:
		return "(mod " + a(0) + " " + t.val.String() + ")"
	case OpExt:
		x := a(0)
		if t.l > 0 {
			x = "(div " + x + " " + pow2(t.l).String() + ")"
		}
		// top slice needs no mod
		b := t.args[0]
		if b.lo != nil && b.lo.Sign() >= 0 && b.hi != nil && b.hi.BitLen()-1 <= t.h {
			return x
		}
		return "(mod " + x + " " + pow2(t.h-t.l+1).String() + ")"
	case OpIte:
		list("ite")
	case OpLe0:
		return "(<= " + a(0) + " 0)"
	case OpEq0:
		return "(= " + a(0) + " 0)"
	case OpNot:
		list("not")
	case OpAnd:
		list("and")
	case OpOr:
		list("or")
	case OpBEq:
		list("=")
	case OpBvExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.h, t.l, a(0))
	case OpBvZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.args[0].w, a(0))
	case OpBvSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.args[0].w, a(0))
	case OpBv2Nat:
		return "(bv2nat " + a(0) + ")"
	case OpNat2Bv:
		return fmt.Sprintf("((_ int2bv %d) %s)", t.w, a(0))
	default:
		list(bvNames[t.op])
	}
	return sb.String()
}

// ---------- evaluation under a model

type Model map[*Term]*big.Int

type Eval struct {
	m     Model
	cache map[*Term]*big.Int
}

func newEval(m Model) *Eval { return &Eval{m: m, cache: map[*Term]*big.Int{}} }

// returns nil if undefined
func (e *Eval) eval(t *Term) *big.Int {
	if t.op == OpConst {
		return t.val
	}
	if v, ok := e.cache[t]; ok {
		return v
	}
	v := e.eval1(t)
	e.cache[t] = v
	return v
}
func b2i(b bool) *big.Int {
	if b {
		return big1
	}
	return big0
}
func (e *Eval) eval1(t *Term) *big.Int {
	if t.op == OpVar {
		if v, ok := e.m[t]; ok {
			return v
		}
		// default value
		if t.sort == SInt {
			if t.lo != nil && t.lo.Sign() > 0 {
				return t.lo
			}
			if t.hi != nil && t.hi.Sign() < 0 {
				return t.hi
			}
		}
		return big0
	}
	if t.op == OpIte {
		cv := e.eval(t.args[0])
		if cv == nil {
			return nil
		}
		if cv.Sign() != 0 {
			return e.eval(t.args[1])
		}
		return e.eval(t.args[2])
	}
	if t.op == OpAnd || t.op == OpOr {
		und := false
		for _, a := range t.args {
			v := e.eval(a)
			if v == nil {
				und = true
				continue
			}
			if (t.op == OpAnd) == (v.Sign() == 0) {
				return b2i(t.op == OpOr)
			}
		}
		if und {
			return nil
		}
		return b2i(t.op == OpAnd)
	}
	vs := make([]*big.Int, len(t.args))
	for i, a := range t.args {
		vs[i] = e.eval(a)
		if vs[i] == nil {
			return nil
		}
	}
	r := new(big.Int)
	switch t.op {
	case OpLin:
		r.Set(t.val)
		for i, v := range vs {
			r.Add(r, new(big.Int).Mul(t.coef[i], v))
		}
		return r
	case OpMulN:
		r.SetInt64(1)
		for _, v := range vs {
			r.Mul(r, v)
		}
		return r
	case OpDiv:
		if vs[1].Sign() == 0 {
			return nil
		}
		return r.Div(vs[0], vs[1])
	case OpMod:
		if vs[1].Sign() == 0 {
			return nil
		}
		return r.Mod(vs[0], vs[1])
	case OpDivK:
		return r.Div(vs[0], t.val)
	case OpModK:
		return r.Mod(vs[0], t.val)
	case OpExt:
		r.Rsh(vs[0], uint(t.l))
		return r.Mod(r, pow2(t.h-t.l+1))
	case OpLe0:
		return b2i(vs[0].Sign() <= 0)
	case OpEq0:
		return b2i(vs[0].Sign() == 0)
	case OpNot:
		return b2i(vs[0].Sign() == 0)
	case OpBEq:
		return b2i(vs[0].Cmp(vs[1]) == 0)
	case OpBvNot:
		return r.Sub(new(big.Int).Sub(pow2(t.w), big1), vs[0])
	case OpBvConcat:
		for i, v := range vs {
			r.Lsh(r, uint(t.args[i].w))
			r.Or(r, v)
		}
		return r
	case OpBvExtract:
		r.Rsh(vs[0], uint(t.l))
		return r.Mod(r, pow2(t.w))
	case OpBvZext:
		return vs[0]
	case OpBvSext:
		return r.Mod(toSigned(vs[0], t.args[0].w), pow2(t.w))
	case OpBvUlt:
		return b2i(vs[0].Cmp(vs[1]) < 0)
	case OpBvUle:
		return b2i(vs[0].Cmp(vs[1]) <= 0)
	case OpBvSlt:
		return b2i(toSigned(vs[0], t.args[0].w).Cmp(toSigned(vs[1], t.args[1].w)) < 0)
	case OpBvSle:
		return b2i(toSigned(vs[0], t.args[0].w).Cmp(toSigned(vs[1], t.args[1].w)) <= 0)
	case OpBvEq:
		return b2i(vs[0].Cmp(vs[1]) == 0)
	case OpBv2Nat:
		return vs[0]
	case OpNat2Bv:
		return r.Mod(vs[0], pow2(t.w))
	}
	// bv binary
	x := &Term{op: OpConst, sort: SBV, w: t.w, val: vs[0]}
	y := &Term{op: OpConst, sort: SBV, w: t.w, val: vs[1]}
	v := (&Ctx{}).bvFold(t.op, x, y)
	if v == nil {
		switch t.op {
		case OpBvUdiv:
			return new(big.Int).Sub(pow2(t.w), big1)
		case OpBvUrem:
			return vs[0]
		}
		return nil
	}
	return new(big.Int).Mod(v, pow2(t.w))
}
