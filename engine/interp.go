package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type opnd struct {
	slot int32 // >=0 register
	kind uint8 // 0 reg, 1 const, 2 global, 3 func
	c    Value
	g    *ssa.Global
}

type cInstr struct {
	exec func(fr *frame)
	ins  ssa.Instruction
	pure bool
}

type cPhi struct {
	dst   int32
	edges []opnd
	t     types.Type
}

const (
	tJump = iota
	tIf
	tReturn
	tPanic
)

type cBlock struct {
	idx    int
	phis   []cPhi
	ins    []cInstr
	term   int
	cond   opnd
	succ   [2]*cBlock
	predIx [2]int
	rets   []opnd
	tins   ssa.Instruction
	pure   bool
	ipdom  *cBlock // nil = exit
	region int8    // 0 unknown 1 mergeable 2 no 3 mergeable when impure blocks are infeasible
	calls  []*ssa.Function
}

type cFunc struct {
	fn      *ssa.Function
	nslots  int
	nparam  int
	blocks  []*cBlock
	intr    intrinsic
	hasDefer bool
	external bool
	recover *cBlock
	resT    *types.Tuple
	pkg     *ssa.Package
	inRepo  bool
	spec    int8 // 0 unknown, 1 may run speculatively, 2 not
}

type intrinsic func(fr *frame, args []Value) Value

type deferred struct {
	fn   Value
	cs   *callSpec
	args []Value
}

type frame struct {
	w      *W
	cf     *cFunc
	r      []Value
	caller *frame
	block  *cBlock
	cur    ssa.Instruction
	defers []deferred
	panicking bool
	panicV *targetPanic
	result Value
	tmp    []Value
}

func (o *opnd) get(fr *frame) Value {
	switch o.kind {
	case 0:
		return fr.r[o.slot]
	case 2:
		return Value{p: fr.w.globalAddr(o.g)}
	}
	return o.c
}

type compiler struct {
	e     *Engine
	fn    *ssa.Function
	slots map[ssa.Value]int32
	n     int32
}

func (c *compiler) slot(v ssa.Value) int32 {
	if s, ok := c.slots[v]; ok {
		return s
	}
	s := c.n
	c.n++
	c.slots[v] = s
	return s
}

func constValue(k *ssa.Const) Value {
	if k.Value == nil {
		return zeroValue(k.Type())
	}
	t := under(k.Type())
	if tp, ok := t.(*types.TypeParam); ok {
		_ = tp
		return Value{}
	}
	b, ok := t.(*types.Basic)
	if !ok {
		return Value{}
	}
	info := b.Info()
	switch {
	case info&types.IsBoolean != 0:
		return boolV(constant.BoolVal(k.Value))
	case info&types.IsString != 0:
		if k.Value.Kind() == constant.String {
			return strV(constant.StringVal(k.Value))
		}
		return strV(string(rune(k.Int64())))
	case info&types.IsInteger != 0:
		ik, _ := intKind(t)
		if ik.signed {
			return Value{n: uint64(k.Int64())}
		}
		return Value{n: norm(k.Uint64(), ik)}
	case info&types.IsFloat != 0:
		f := k.Float64()
		if b.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return Value{n: math.Float64bits(f)}
	case info&types.IsComplex != 0:
		return Value{p: k.Complex128()}
	}
	return Value{}
}

func (c *compiler) op(v ssa.Value) opnd {
	switch x := v.(type) {
	case *ssa.Const:
		return opnd{slot: -1, kind: 1, c: constValue(x)}
	case *ssa.Global:
		return opnd{slot: -1, kind: 2, g: x}
	case *ssa.Function:
		return opnd{slot: -1, kind: 1, c: Value{p: &FuncV{fn: x}}}
	case *ssa.Builtin:
		return opnd{slot: -1, kind: 1}
	}
	return opnd{slot: c.slot(v)}
}

func (c *compiler) ops(vs []ssa.Value) []opnd {
	r := make([]opnd, len(vs))
	for i, v := range vs {
		r[i] = c.op(v)
	}
	return r
}

func (e *Engine) buildPkg(p *ssa.Package) {
	e.compMu.Lock()
	defer e.compMu.Unlock()
	p.Build()
}

func (e *Engine) compile(fn *ssa.Function) *cFunc {
	if c, ok := e.comp.Load(fn); ok {
		return c.(*cFunc)
	}
	e.compMu.Lock()
	defer e.compMu.Unlock()
	if c, ok := e.comp.Load(fn); ok {
		return c.(*cFunc)
	}
	cf := e.compile1(fn)
	e.comp.Store(fn, cf)
	return cf
}

func fnPkg(fn *ssa.Function) *ssa.Package {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg
		}
		if o := f.Origin(); o != nil && o != f && o.Pkg != nil {
			return o.Pkg
		}
	}
	return nil
}

func (e *Engine) compile1(fn *ssa.Function) *cFunc {
	cf := &cFunc{fn: fn}
	name := fn.String()
	if o := fn.Origin(); o != nil && o != fn {
		name = o.String()
	}
	cf.pkg = fnPkg(fn)
	if cf.pkg != nil {
		cf.pkg.Build()
		cf.inRepo = strings.HasPrefix(cf.pkg.Pkg.Path(), repoMod) && !strings.HasSuffix(cf.pkg.Pkg.Path(), "/verifsym")
	}
	if in := lookupIntrinsic(name, fn); in != nil {
		cf.intr = in
		return cf
	}
	if len(fn.Blocks) == 0 {
		cf.external = true
		return cf
	}
	c := &compiler{e: e, fn: fn, slots: map[ssa.Value]int32{}}
	for _, p := range fn.Params {
		c.slot(p)
	}
	for _, p := range fn.FreeVars {
		c.slot(p)
	}
	cf.nparam = len(fn.Params)
	cf.blocks = make([]*cBlock, len(fn.Blocks))
	for i := range fn.Blocks {
		cf.blocks[i] = &cBlock{idx: i}
	}
	for i, b := range fn.Blocks {
		c.block(cf, b, cf.blocks[i])
	}
	if fn.Recover != nil {
		cf.recover = cf.blocks[fn.Recover.Index]
	}
	cf.nslots = int(c.n)
	cf.resT = fn.Signature.Results()
	computeIpdom(fn, cf)
	return cf
}

func computeIpdom(fn *ssa.Function, cf *cFunc) {
	n := len(fn.Blocks)
	// post-dominator sets via iterative algorithm with virtual exit n
	order := make([]int, 0, n)
	seen := make([]bool, n)
	var dfs func(i int)
	dfs = func(i int) {
		seen[i] = true
		for _, s := range fn.Blocks[i].Succs {
			if !seen[s.Index] {
				dfs(s.Index)
			}
		}
		order = append(order, i) // post-order of forward graph
	}
	dfs(0)
	if n > 600 {
		return
	}
	const undef = -1
	ip := make([]int, n+1)
	num := make([]int, n+1)
	for i := range ip {
		ip[i] = undef
	}
	ip[n] = n
	for k, i := range order {
		num[i] = k + 1
	}
	num[n] = 0
	inter := func(a, b int) int {
		for a != b {
			for num[a] > num[b] {
				a = ip[a]
			}
			for num[b] > num[a] {
				b = ip[b]
			}
		}
		return a
	}
	for changed := true; changed; {
		changed = false
		for _, i := range order {
			b := fn.Blocks[i]
			nw := undef
			if len(b.Succs) == 0 {
				nw = n
			}
			for _, s := range b.Succs {
				if ip[s.Index] == undef && s.Index != i {
					continue
				}
				if s.Index == i {
					continue
				}
				if nw == undef {
					nw = s.Index
				} else {
					nw = inter2(ip, num, nw, s.Index, inter)
				}
			}
			if nw != undef && ip[i] != nw {
				ip[i] = nw
				changed = true
			}
		}
	}
	for i := 0; i < n; i++ {
		if ip[i] >= 0 && ip[i] < n {
			cf.blocks[i].ipdom = cf.blocks[ip[i]]
		}
	}
}
func inter2(ip, num []int, a, b int, f func(a, b int) int) int {
	defer func() { recover() }()
	// guard against loops in the partially built tree
	steps := 0
	x, y := a, b
	for x != y {
		steps++
		if steps > 10000 {
			return len(ip) - 1
		}
		if num[x] > num[y] {
			if ip[x] == -1 || ip[x] == x {
				return len(ip) - 1
			}
			x = ip[x]
		} else {
			if ip[y] == -1 || ip[y] == y {
				return len(ip) - 1
			}
			y = ip[y]
		}
	}
	return x
}

func (c *compiler) block(cf *cFunc, b *ssa.BasicBlock, cb *cBlock) {
	cb.pure = true
	for i, s := range b.Succs {
		cb.succ[i] = cf.blocks[s.Index]
		// predecessor index (handles duplicate edges)
		k := 0
		for j, p := range s.Preds {
			if p == b {
				if i == 1 && b.Succs[0] == s && k == 0 {
					k++
					continue
				}
				cb.predIx[i] = j
				break
			}
		}
	}
	for idx, ins := range b.Instrs {
		switch x := ins.(type) {
		case *ssa.Phi:
			cb.phis = append(cb.phis, cPhi{dst: c.slot(x), edges: c.ops(x.Edges), t: x.Type()})
		case *ssa.Jump:
			cb.term = tJump
			cb.tins = ins
		case *ssa.If:
			cb.term = tIf
			cb.cond = c.op(x.Cond)
			cb.tins = ins
		case *ssa.Return:
			cb.term = tReturn
			cb.rets = c.ops(x.Results)
			cb.tins = ins
		case *ssa.Panic:
			cb.term = tPanic
			cb.cond = c.op(x.X)
			cb.tins = ins
			cb.pure = false
		case *ssa.DebugRef:
		default:
			ex, pure := c.instr(cf, ins, b, idx)
			if ex != nil {
				if cl, ok := ins.(*ssa.Call); ok && !pure {
					if f := cl.Call.StaticCallee(); f != nil && len(f.Blocks) > 0 && f != c.fn {
						nm := f.String()
						if o := f.Origin(); o != nil && o != f {
							nm = o.String()
						}
						if lookupIntrinsic(nm, f) == nil {
							pure = true
							cb.calls = append(cb.calls, f)
						}
					}
				}
				cb.ins = append(cb.ins, cInstr{ex, ins, pure})
				if !pure {
					cb.pure = false
				}
			}
		}
	}
}

func (c *compiler) instr(cf *cFunc, ins ssa.Instruction, b *ssa.BasicBlock, idx int) (func(fr *frame), bool) {
	switch x := ins.(type) {
	case *ssa.Alloc:
		d := c.slot(x)
		t := x.Type().Underlying().(*types.Pointer).Elem()
		return func(fr *frame) {
			v := zeroValue(t)
			fr.r[d] = Value{p: &v}
		}, false
	case *ssa.UnOp:
		return c.unop(x, b, idx)
	case *ssa.BinOp:
		d := c.slot(x)
		xo, yo := c.op(x.X), c.op(x.Y)
		t := x.X.Type()
		ty := x.Y.Type()
		op := x.Op
		if ik, ok := intKind(t); ok && (op == token.ADD || op == token.SUB || op == token.LSS || op == token.EQL || op == token.NEQ || op == token.LEQ || op == token.GTR || op == token.GEQ) {
			return func(fr *frame) {
				a, b := xo.get(fr), yo.get(fr)
				if a.p == nil && b.p == nil {
					switch op {
					case token.ADD:
						fr.r[d] = Value{n: norm(a.n+b.n, ik)}
					case token.SUB:
						fr.r[d] = Value{n: norm(a.n-b.n, ik)}
					case token.EQL:
						fr.r[d] = boolV(a.n == b.n)
					case token.NEQ:
						fr.r[d] = boolV(a.n != b.n)
					default:
						fr.r[d] = fr.w.binop(op, t, ty, a, b)
					}
					return
				}
				fr.r[d] = fr.w.binop(op, t, ty, a, b)
			}, true
		}
		return func(fr *frame) { fr.r[d] = fr.w.binop(op, t, ty, xo.get(fr), yo.get(fr)) }, true
	case *ssa.Call:
		d := c.slot(x)
		cs := c.callSpec(&x.Call)
		return func(fr *frame) {
			fr.r[d] = cs.do(fr)
		}, cs.pure()
	case *ssa.Defer:
		cf.hasDefer = true
		cs := c.callSpec(&x.Call)
		return func(fr *frame) {
			fv, args := cs.eval(fr)
			fr.defers = append(fr.defers, deferred{fv, cs, args})
		}, false
	case *ssa.Go:
		cs := c.callSpec(&x.Call)
		return func(fr *frame) {
			w := fr.w
			fv, args := cs.eval(fr)
			if w.inInit > 0 {
				return
			}
			w.newG(func(g *G) {
				g.top = &frame{w: w}
				cs.invokeWith(g.top, fv, args)
			})
			w.schedPoint()
		}, false
	case *ssa.RunDefers:
		return func(fr *frame) { fr.runDefers() }, false
	case *ssa.Store:
		ao, vo := c.op(x.Addr), c.op(x.Val)
		return func(fr *frame) {
			a := ao.get(fr)
			p, ok := a.p.(*Value)
			if !ok {
				fr.derefFail(a)
			}
			fr.w.set(p, vo.get(fr))
		}, false
	case *ssa.FieldAddr:
		d := c.slot(x)
		xo := c.op(x.X)
		f := x.Field
		return func(fr *frame) {
			v := xo.get(fr)
			p, ok := v.p.(*Value)
			if !ok {
				fr.derefFail(v)
			}
			a, ok := p.p.(*Agg)
			if !ok {
				fr.w.unsup("FieldAddr on %T", p.p)
			}
			fr.r[d] = Value{p: &a.f[f]}
		}, true
	case *ssa.Field:
		d := c.slot(x)
		xo := c.op(x.X)
		f := x.Field
		return func(fr *frame) {
			a, ok := xo.get(fr).p.(*Agg)
			if !ok {
				fr.w.unsup("Field on non-aggregate")
			}
			fr.r[d] = a.f[f]
		}, true
	case *ssa.IndexAddr:
		d := c.slot(x)
		xo, io := c.op(x.X), c.op(x.Index)
		it := x.Index.Type()
		if c.fusedLoad(x) {
			// the single use is a load in the next instruction; keep index symbolic
			return func(fr *frame) {
				w := fr.w
				cells := fr.cells(xo.get(fr))
				iv := io.get(fr)
				if iv.isSym() && len(cells) <= 4096 && len(cells) > 0 {
					if scalarCells(cells) {
						w.boundsCheck(fr, iv, it, len(cells))
						fr.r[d] = Value{n: uint64(len(cells)), p: &symPtr{cells, iv, it}}
						return
					}
				}
				i := w.index(fr, iv, it, len(cells))
				fr.r[d] = Value{p: &cells[i]}
			}, true
		}
		return func(fr *frame) {
			cells := fr.cells(xo.get(fr))
			i := fr.w.index(fr, io.get(fr), it, len(cells))
			fr.r[d] = Value{p: &cells[i]}
		}, true
	case *ssa.Index:
		d := c.slot(x)
		xo, io := c.op(x.X), c.op(x.Index)
		it := x.Index.Type()
		et := x.Type()
		return func(fr *frame) {
			v := xo.get(fr)
			var cells []Value
			iv := io.get(fr)
			switch s := v.p.(type) {
			case *Agg:
				cells = s.f
			case string:
				if !iv.isSym() {
					i := fr.w.index(fr, iv, it, len(s))
					fr.r[d] = Value{n: uint64(s[i])}
					return
				}
				cells = bytesToVals([]byte(s))
			case *SymStr:
				cells = s.b
			}
			if iv.isSym() && scalarCells(cells) && len(cells) > 0 {
				fr.w.boundsCheck(fr, iv, it, len(cells))
				fr.r[d] = fr.w.symSelect(cells, iv, it, et)
				return
			}
			i := fr.w.index(fr, iv, it, len(cells))
			fr.r[d] = cells[i]
		}, true
	case *ssa.Lookup:
		return c.lookup(x)
	case *ssa.MapUpdate:
		mo, ko, vo := c.op(x.Map), c.op(x.Key), c.op(x.Value)
		return func(fr *frame) {
			m, ok := mo.get(fr).p.(*MapV)
			if !ok {
				fr.rtPanic("assignment to entry in nil map")
			}
			fr.w.mapSet(m, ko.get(fr), vo.get(fr))
		}, false
	case *ssa.MakeMap:
		d := c.slot(x)
		mt := under(x.Type()).(*types.Map)
		return func(fr *frame) { fr.r[d] = Value{p: newMap(mt)} }, false
	case *ssa.MakeSlice:
		d := c.slot(x)
		lo, co := c.op(x.Len), c.op(x.Cap)
		lt, ct := x.Len.Type(), x.Cap.Type()
		et := under(x.Type()).(*types.Slice).Elem()
		return func(fr *frame) {
			w := fr.w
			n := w.concInt(lo.get(fr), lt)
			cp := w.concInt(co.get(fr), ct)
			if n < 0 || n > 1<<40 {
				fr.rtPanic("makeslice: len out of range")
			}
			if cp < n || cp > 1<<40 {
				fr.rtPanic("makeslice: cap out of range")
			}
			if cp > maxAlloc {
				w.unsup("allocation of %d elements", cp)
			}
			fr.r[d] = Value{p: &SliceV{makeCells(et, int(n), int(cp))}}
		}, false
	case *ssa.MakeChan:
		d := c.slot(x)
		so := c.op(x.Size)
		return func(fr *frame) { fr.r[d] = Value{p: &ChanV{cap: so.get(fr).int()}} }, false
	case *ssa.MakeClosure:
		d := c.slot(x)
		fn := x.Fn.(*ssa.Function)
		bs := c.ops(x.Bindings)
		return func(fr *frame) {
			f := make([]Value, len(bs))
			for i := range bs {
				f[i] = bs[i].get(fr)
			}
			fr.r[d] = Value{p: &FuncV{fn: fn, free: f}}
		}, false
	case *ssa.MakeInterface:
		d := c.slot(x)
		xo := c.op(x.X)
		t := canon(x.X.Type())
		return func(fr *frame) { fr.r[d] = Value{p: &IfaceV{t, xo.get(fr)}} }, true
	case *ssa.ChangeInterface:
		d := c.slot(x)
		xo := c.op(x.X)
		return func(fr *frame) { fr.r[d] = xo.get(fr) }, true
	case *ssa.ChangeType:
		d := c.slot(x)
		xo := c.op(x.X)
		return func(fr *frame) { fr.r[d] = xo.get(fr) }, true
	case *ssa.Convert:
		d := c.slot(x)
		xo := c.op(x.X)
		ft, tt := x.X.Type(), x.Type()
		return func(fr *frame) { fr.r[d] = fr.w.convert(fr, ft, tt, xo.get(fr)) }, true
	case *ssa.MultiConvert:
		d := c.slot(x)
		xo := c.op(x.X)
		ft, tt := x.X.Type(), x.Type()
		return func(fr *frame) { fr.r[d] = fr.w.convert(fr, ft, tt, xo.get(fr)) }, true
	case *ssa.SliceToArrayPointer:
		d := c.slot(x)
		xo := c.op(x.X)
		n := int(under(x.Type()).(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		return func(fr *frame) {
			v := xo.get(fr)
			s := v.slice()
			if len(s) < n {
				fr.rtPanic("cannot convert slice to array pointer: length too short")
			}
			if v.p == nil {
				fr.r[d] = Value{}
				return
			}
			fr.r[d] = Value{p: &Value{p: &Agg{f: s[:n:n]}}}
		}, false
	case *ssa.Slice:
		d := c.slot(x)
		xo := c.op(x.X)
		var lo, hi, mx *opnd
		var lt, ht, mt types.Type
		if x.Low != nil {
			o := c.op(x.Low)
			lo, lt = &o, x.Low.Type()
		}
		if x.High != nil {
			o := c.op(x.High)
			hi, ht = &o, x.High.Type()
		}
		if x.Max != nil {
			o := c.op(x.Max)
			mx, mt = &o, x.Max.Type()
		}
		return func(fr *frame) {
			v := xo.get(fr)
			w := fr.w
			l, h, m := -1, -1, -1
			var lv, hv, mv Value
			if lo != nil {
				lv = lo.get(fr)
			}
			if hi != nil {
				hv = hi.get(fr)
			}
			if mx != nil {
				mv = mx.get(fr)
			}
			var cells []Value
			isStr := false
			nilSlice := false
			length := 0
			switch s := v.p.(type) {
			case string, *SymStr:
				isStr = true
				length = strLen(v)
			case *SliceV:
				cells = s.f
				length = len(cells)
			case *Value:
				cells = s.p.(*Agg).f
				length = len(cells)
			case nil:
				nilSlice = true
			default:
				w.unsup("slice of %T", v.p)
			}
			capn := cap(cells)
			if isStr {
				capn = length
			}
			// max
			m = capn
			if mx != nil {
				m = w.sliceBound(fr, mv, mt, 0, capn)
			}
			h = length
			if hi != nil {
				h = w.sliceBound(fr, hv, ht, 0, m)
			} else if h > m {
				fr.rtPanic("slice bounds out of range")
			}
			l = 0
			if lo != nil {
				l = w.sliceBound(fr, lv, lt, 0, h)
			}
			if isStr {
				if s, ok := v.p.(string); ok {
					fr.r[d] = strV(s[l:h])
				} else {
					fr.r[d] = mkStr(v.p.(*SymStr).b[l:h])
				}
				return
			}
			if nilSlice {
				fr.r[d] = Value{}
				return
			}
			fr.r[d] = Value{p: &SliceV{cells[l:h:m]}}
		}, false
	case *ssa.TypeAssert:
		return c.typeAssert(x)
	case *ssa.Extract:
		d := c.slot(x)
		xo := c.op(x.Tuple)
		i := x.Index
		return func(fr *frame) {
			t, ok := xo.get(fr).p.(Tuple)
			if !ok || i >= len(t) {
				fr.w.unsup("extract from %T", xo.get(fr).p)
			}
			fr.r[d] = t[i]
		}, true
	case *ssa.Range:
		d := c.slot(x)
		xo := c.op(x.X)
		return func(fr *frame) {
			fr.r[d] = fr.w.rangeIter(xo.get(fr))
		}, false
	case *ssa.Next:
		d := c.slot(x)
		xo := c.op(x.Iter)
		isStr := x.IsString
		return func(fr *frame) {
			fr.r[d] = fr.w.next(fr, xo.get(fr), isStr)
		}, false
	case *ssa.Send:
		co, vo := c.op(x.Chan), c.op(x.X)
		return func(fr *frame) { fr.w.chanSendV(fr, co.get(fr), vo.get(fr)) }, false
	case *ssa.Select:
		return c.sel(x)
	}
	s := ins.String()
	return func(fr *frame) { fr.w.unsup("instruction %T %s", ins, s) }, false
}

const maxAlloc = 1 << 22

type symPtr struct {
	cells []Value
	i     Value
	it    types.Type
}

func scalarCells(cs []Value) bool {
	for i := range cs {
		switch cs[i].p.(type) {
		case nil, *Term:
		default:
			return false
		}
	}
	return true
}

// fusedLoad: x's only referrer is a load (UnOp MUL) of an integer/bool element.
func (c *compiler) fusedLoad(x *ssa.IndexAddr) bool {
	refs := x.Referrers()
	if refs == nil || len(*refs) == 0 {
		return false
	}
	et := x.Type().Underlying().(*types.Pointer).Elem()
	if _, ok := intKind(et); !ok && !isBool(et) {
		return false
	}
	for _, r := range *refs {
		u, ok := r.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return false
		}
	}
	return true
}

func makeCells(et types.Type, n, cp int) []Value {
	f := make([]Value, cp)
	z := zeroValue(et)
	if _, ok := z.p.(*Agg); ok {
		for i := range f {
			f[i] = copyVal(z)
		}
	} else if z.p != nil {
		for i := range f {
			f[i] = z
		}
	}
	return f[:n]
}

func (fr *frame) cells(v Value) []Value {
	switch s := v.p.(type) {
	case *SliceV:
		return s.f
	case *Value:
		if a, ok := s.p.(*Agg); ok {
			return a.f
		}
		fr.w.unsup("index of pointer to %T", s.p)
	case nil:
		return nil
	}
	fr.w.unsup("index of %T", v.p)
	return nil
}

func (fr *frame) derefFail(v Value) {
	if v.p == nil {
		fr.rtPanic("invalid memory address or nil pointer dereference")
	}
	fr.w.unsup("dereference of %T", v.p)
}

func (c *compiler) unop(x *ssa.UnOp, b *ssa.BasicBlock, idx int) (func(fr *frame), bool) {
	d := c.slot(x)
	xo := c.op(x.X)
	switch x.Op {
	case token.MUL:
		t := x.Type()
		return func(fr *frame) {
			v := xo.get(fr)
			switch p := v.p.(type) {
			case *Value:
				fr.r[d] = copyVal(*p)
			case *symPtr:
				fr.r[d] = fr.w.symSelect(p.cells, p.i, p.it, t)
			default:
				fr.derefFail(v)
			}
		}, true
	case token.ARROW:
		ok := x.CommaOk
		et := under(x.X.Type()).(*types.Chan).Elem()
		return func(fr *frame) {
			v, k := fr.w.chanRecv(fr, xo.get(fr), et)
			if ok {
				fr.r[d] = Value{p: Tuple{v, boolV(k)}}
			} else {
				fr.r[d] = v
			}
		}, false
	case token.NOT:
		return func(fr *frame) {
			v := xo.get(fr)
			if t := v.term(); t != nil {
				fr.r[d] = Value{p: fr.w.ctx.Not(t)}
				fr.r[d] = fr.w.simplB(fr.r[d])
			} else {
				fr.r[d] = boolV(v.n == 0)
			}
		}, true
	case token.SUB:
		t := x.Type()
		return func(fr *frame) { fr.r[d] = fr.w.neg(t, xo.get(fr)) }, true
	case token.XOR:
		t := x.Type()
		return func(fr *frame) { fr.r[d] = fr.w.bitNot(t, xo.get(fr)) }, true
	}
	return func(fr *frame) { fr.w.unsup("unop %s", x.Op) }, false
}

func (w *W) simplB(v Value) Value {
	if t := v.term(); t != nil && t.isConst() {
		return boolV(t.val.Sign() != 0)
	}
	return v
}

func (c *compiler) lookup(x *ssa.Lookup) (func(fr *frame), bool) {
	d := c.slot(x)
	xo, io := c.op(x.X), c.op(x.Index)
	if isString(x.X.Type()) {
		it := x.Index.Type()
		return func(fr *frame) {
			v := xo.get(fr)
			iv := io.get(fr)
			if s, ok := v.p.(string); ok && !iv.isSym() {
				i := fr.w.index(fr, iv, it, len(s))
				fr.r[d] = Value{n: uint64(s[i])}
				return
			}
			cells := strBytes(v)
			if iv.isSym() && len(cells) > 0 {
				fr.w.boundsCheck(fr, iv, it, len(cells))
				fr.r[d] = fr.w.symSelect(cells, iv, it, types.Typ[types.Uint8])
				return
			}
			i := fr.w.index(fr, iv, it, len(cells))
			fr.r[d] = cells[i]
		}, true
	}
	mt := under(x.X.Type()).(*types.Map)
	ok := x.CommaOk
	return func(fr *frame) {
		m, _ := xo.get(fr).p.(*MapV)
		var e *mapEnt
		if m != nil {
			e = fr.w.mapFind(m, io.get(fr))
		}
		var v Value
		if e != nil {
			v = copyVal(e.v)
		} else {
			v = zeroValue(mt.Elem())
		}
		if ok {
			fr.r[d] = Value{p: Tuple{v, boolV(e != nil)}}
		} else {
			fr.r[d] = v
		}
	}, false
}

func (c *compiler) typeAssert(x *ssa.TypeAssert) (func(fr *frame), bool) {
	d := c.slot(x)
	xo := c.op(x.X)
	at := canon(x.AssertedType)
	commaOk := x.CommaOk
	_, isI := under(at).(*types.Interface)
	z := zeroValue(at)
	return func(fr *frame) {
		iv := xo.get(fr).iface()
		ok := false
		var v Value
		if iv != nil {
			if isI {
				ok = fr.w.eng.implements(iv.t, at)
				v = Value{p: iv}
			} else {
				ok = iv.t == at
				v = iv.v
			}
		}
		if commaOk {
			if !ok {
				v = z
			}
			fr.r[d] = Value{p: Tuple{v, boolV(ok)}}
			return
		}
		if !ok {
			if iv == nil {
				fr.rtPanic(fmt.Sprintf("interface conversion: interface is nil, not %s", at))
			}
			fr.rtPanic(fmt.Sprintf("interface conversion: interface is %s, not %s", iv.t, at))
		}
		fr.r[d] = v
	}, false
}

type implKey struct{ a, b types.Type }

func (e *Engine) implements(t, it types.Type) bool {
	k := implKey{t, it}
	if r, ok := e.methods.Load(k); ok {
		return r.(bool)
	}
	canonMu.Lock()
	r := types.Implements(t, under(it).(*types.Interface))
	canonMu.Unlock()
	e.methods.Store(k, r)
	return r
}

type methKey struct {
	t  types.Type
	id string
}

func (e *Engine) method(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m.Id()}
	if r, ok := e.methods.Load(k); ok {
		return r.(*ssa.Function)
	}
	e.compMu.Lock()
	defer e.compMu.Unlock()
	f := e.prog.LookupMethod(t, m.Pkg(), m.Name())
	e.methods.Store(k, f)
	return f
}
func (e *Engine) methodByName(t types.Type, pkg *types.Package, name string) *ssa.Function {
	id := name
	if !token.IsExported(name) && pkg != nil {
		id = pkg.Path() + "." + name
	}
	k := methKey{t, id}
	if r, ok := e.methods.Load(k); ok {
		return r.(*ssa.Function)
	}
	e.compMu.Lock()
	defer e.compMu.Unlock()
	var f *ssa.Function
	if sel := e.prog.MethodSets.MethodSet(t).Lookup(pkg, name); sel != nil {
		f = e.prog.MethodValue(sel)
	}
	e.methods.Store(k, f)
	return f
}

// ---- calls

type callSpec struct {
	static  *ssa.Function
	builtin string
	bt      []types.Type
	rt      types.Type
	invoke  *types.Func
	fnOp    opnd
	args    []opnd
	str     string
}

func (c *compiler) callSpec(cc *ssa.CallCommon) *callSpec {
	cs := &callSpec{args: c.ops(cc.Args)}
	if cc.IsInvoke() {
		cs.invoke = cc.Method
		cs.fnOp = c.op(cc.Value)
		return cs
	}
	switch f := cc.Value.(type) {
	case *ssa.Builtin:
		cs.builtin = f.Name()
		for _, a := range cc.Args {
			cs.bt = append(cs.bt, a.Type())
		}
		cs.rt = cc.Signature().Results()
		if cc.Signature().Results().Len() == 1 {
			cs.rt = cc.Signature().Results().At(0).Type()
		}
		return cs
	case *ssa.Function:
		cs.static = f
		return cs
	}
	cs.fnOp = c.op(cc.Value)
	return cs
}

func (cs *callSpec) pure() bool {
	switch cs.builtin {
	case "len", "cap", "min", "max":
		return true
	}
	return cs.static != nil && pureIntrinsics[cs.static.String()]
}

func (cs *callSpec) eval(fr *frame) (Value, []Value) {
	args := make([]Value, len(cs.args))
	for i := range cs.args {
		args[i] = cs.args[i].get(fr)
	}
	var fv Value
	if cs.static == nil && cs.builtin == "" {
		fv = cs.fnOp.get(fr)
	}
	return fv, args
}

func (cs *callSpec) do(fr *frame) Value {
	fv, args := cs.eval(fr)
	return cs.invokeWith(fr, fv, args)
}

func (cs *callSpec) invokeWith(fr *frame, fv Value, args []Value) Value {
	if cs.builtin != "" {
		return fr.callBuiltin(cs, args)
	}
	if cs.static != nil {
		return fr.w.call(fr, cs.static, args, nil)
	}
	if cs.invoke != nil {
		iv := fv.iface()
		if iv == nil {
			fr.rtPanic("invalid memory address or nil pointer dereference")
		}
		m := fr.w.eng.method(iv.t, cs.invoke)
		if m == nil {
			fr.w.unsup("no method %s on %s", cs.invoke.Name(), iv.t)
		}
		a := make([]Value, 0, len(args)+1)
		a = append(a, iv.v)
		a = append(a, args...)
		return fr.w.call(fr, m, a, nil)
	}
	return fr.w.callV(fr, fv, args)
}

func (w *W) callV(fr *frame, fv Value, args []Value) Value {
	f, ok := fv.p.(*FuncV)
	if !ok {
		fr.rtPanic("invalid memory address or nil pointer dereference")
	}
	if f.native != nil {
		return f.native(fr, args)
	}
	return w.call(fr, f.fn, args, f.free)
}

func (w *W) invoke(fr *frame, iv *IfaceV, name string, args ...Value) (Value, bool) {
	m := w.eng.methodByName(iv.t, nil, name)
	if m == nil {
		return Value{}, false
	}
	return w.call(fr, m, append([]Value{iv.v}, args...), nil), true
}

func (w *W) call(caller *frame, fn *ssa.Function, args []Value, free []Value) Value {
	cf := w.eng.compile(fn)
	if cf.intr != nil {
		return cf.intr(caller, args)
	}
	if cf.external {
		w.unsup("external function %s", fn)
	}
	if cf.inRepo && w.inInit == 0 {
		if !w.funcs[fn] {
			w.funcs[fn] = true
		}
	}
	if w.spec > 0 && !w.eng.specOK(cf, 0) {
		panic(specAbort{})
	}
	fr := &frame{w: w, cf: cf, caller: caller}
	fr.r = make([]Value, cf.nslots)
	copy(fr.r, args)
	copy(fr.r[cf.nparam:], free)
	w.depth++
	if w.depth > 8000 {
		panic(&pathAbort{abBudget, "call depth limit" + w.where()})
	}
	g := w.cur
	g.top = fr
	fr.block = cf.blocks[0]
	if cf.hasDefer {
		fr.runProtected()
	} else {
		fr.run()
	}
	g.top = caller
	w.depth--
	return fr.result
}

func (fr *frame) runProtected() {
	depth := fr.w.depth
	defer func() {
		if fr.block == nil {
			return
		}
		r := recover()
		tp, ok := r.(*targetPanic)
		if !ok {
			panic(r)
		}
		fr.w.depth = depth
		fr.w.cur.top = fr
		fr.panicking = true
		fr.panicV = tp
		fr.runDefers()
		// recovered
		if fr.cf.recover != nil {
			fr.block = fr.cf.recover
			fr.run()
		} else {
			fr.result = zeroResults(fr.cf.resT)
			fr.block = nil
		}
	}()
	fr.run()
}

func zeroResults(t *types.Tuple) Value {
	switch t.Len() {
	case 0:
		return Value{}
	case 1:
		return zeroValue(t.At(0).Type())
	}
	return zeroValue(t)
}

func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			ok := false
			depth := fr.w.depth
			defer func() {
				if ok {
					return
				}
				r := recover()
				tp, is := r.(*targetPanic)
				if !is {
					panic(r)
				}
				fr.w.depth = depth
				fr.w.cur.top = fr
				fr.panicking = true
				fr.panicV = tp
			}()
			d.cs.invokeWith(fr, d.fn, d.args)
			ok = true
		}()
	}
	if fr.panicking {
		panic(fr.panicV)
	}
}

func (fr *frame) rtPanic(msg string) {
	w := fr.w
	if w.spec > 0 {
		panic(specAbort{})
	}
	iv := w.eng.runtimeErr(msg)
	panic(&targetPanic{v: iv, msg: "runtime error: " + msg, trace: stackOf(w.cur.top, 12)})
}

func (fr *frame) goPanic(v Value) {
	msg := "panic"
	if iv := v.iface(); iv != nil {
		msg = "panic: " + fr.w.render(fr, iv)
	}
	panic(&targetPanic{v: v, msg: msg, trace: stackOf(fr.w.cur.top, 12)})
}

func (fr *frame) enter(from *cBlock, which int) {
	to := from.succ[which]
	if len(to.phis) > 0 {
		k := from.predIx[which]
		if len(to.phis) == 1 {
			p := &to.phis[0]
			fr.r[p.dst] = p.edges[k].get(fr)
		} else {
			tmp := fr.tmp[:0]
			for i := range to.phis {
				tmp = append(tmp, to.phis[i].edges[k].get(fr))
			}
			for i := range to.phis {
				fr.r[to.phis[i].dst] = tmp[i]
			}
			fr.tmp = tmp
		}
	}
	fr.block = to
}

func (fr *frame) run() {
	w := fr.w
	for {
		b := fr.block
		if w.spec > 0 && !b.pure {
			panic(specAbort{})
		}
		for i := range b.ins {
			fr.cur = b.ins[i].ins
			b.ins[i].exec(fr)
		}
		w.steps += int64(len(b.ins) + 1)
		if w.steps > w.maxSteps {
			panic(&pathAbort{abBudget, "step limit" + w.where()})
		}
		fr.cur = b.tins
		switch b.term {
		case tJump:
			fr.enter(b, 0)
		case tIf:
			c := b.cond.get(fr)
			if t := c.term(); t != nil {
				if v, ok := w.known[t]; ok {
					c = boolV(v)
				} else if w.tryMerge(fr, b, t) {
					if fr.block == nil {
						return
					}
					continue
				} else {
					c = boolV(w.decide(t))
				}
			}
			if c.n != 0 {
				fr.enter(b, 0)
			} else {
				fr.enter(b, 1)
			}
		case tReturn:
			switch len(b.rets) {
			case 0:
			case 1:
				fr.result = b.rets[0].get(fr)
			default:
				tp := make(Tuple, len(b.rets))
				for i := range b.rets {
					tp[i] = b.rets[i].get(fr)
				}
				fr.result = Value{p: tp}
			}
			fr.block = nil
			return
		case tPanic:
			fr.goPanic(b.cond.get(fr))
		}
	}
}

// ---- merging of pure regions

const maxMergeBlocks = 24
const maxMergePaths = 24

// specOK: may the function run inside a speculative region? (entry block pure; impure blocks abort when reached)
func (e *Engine) specOK(cf *cFunc, depth int) bool {
	if cf.spec != 0 {
		return cf.spec == 1
	}
	if depth > 6 {
		return false
	}
	ok := !cf.hasDefer && !cf.external && cf.intr == nil && len(cf.blocks) > 0 && len(cf.blocks) <= 40 && cf.blocks[0].pure && e.callsOK(cf.blocks[0], depth)
	if ok {
		cf.spec = 1
	} else {
		cf.spec = 2
	}
	return ok
}

func (e *Engine) callsOK(b *cBlock, depth int) bool {
	for _, f := range b.calls {
		c := e.compile(f)
		if !e.specOK(c, depth+1) {
			return false
		}
	}
	return true
}

// regionOK classifies the region from b to its ipdom: 1 pure and acyclic, 3 pure except for
// blocks that must be shown infeasible, 2 not mergeable.
func (e *Engine) regionOK(b *cBlock) int8 {
	if b.region != 0 {
		return b.region
	}
	join := b.ipdom
	seen := map[*cBlock]int{}
	ok := true
	// a block from which b is reached again (a loop header, say) must not be walked:
	// its phis are live in b and after the region, and walking would overwrite them
	loops := map[*cBlock]bool{}
	var reaches func(x *cBlock, vis map[*cBlock]bool) bool
	reaches = func(x *cBlock, vis map[*cBlock]bool) bool {
		if x == b {
			return true
		}
		if vis[x] {
			return false
		}
		vis[x] = true
		for _, y := range x.succ {
			if y != nil && reaches(y, vis) {
				return true
			}
		}
		return false
	}
	back := func(x *cBlock) bool {
		v, has := loops[x]
		if !has {
			v = reaches(x, map[*cBlock]bool{})
			loops[x] = v
		}
		return v
	}
	n := 0
	esc, good := 0, 0
	var visit func(x *cBlock)
	visit = func(x *cBlock) {
		if !ok || x == join {
			return
		}
		if s := seen[x]; s == 1 {
			ok = false
			return
		} else if s == 2 {
			return
		}
		seen[x] = 1
		n++
		if n > maxMergeBlocks || x == b || back(x) {
			ok = false
			return
		}
		if !x.pure || !e.callsOK(x, 0) {
			esc++
			seen[x] = 2
			return
		}
		good++
		switch x.term {
		case tJump:
			visit(x.succ[0])
		case tIf:
			visit(x.succ[0])
			visit(x.succ[1])
		case tReturn:
			if join != nil {
				ok = false
			}
		default:
			ok = false
		}
		seen[x] = 2
	}
	visit(b.succ[0])
	visit(b.succ[1])
	switch {
	case !ok || (esc > 0 && good < 2) || esc > 3:
		b.region = 2
	case esc > 0:
		b.region = 3
	default:
		b.region = 1
	}
	return b.region
}

type mergeOut struct {
	cond *Term
	vals []Value
}

func (w *W) tryMerge(fr *frame, b *cBlock, cond *Term) (merged bool) {
	reg := w.eng.regionOK(b)
	if reg == 2 {
		return false
	}
	if w.inInit > 0 {
		return false
	}
	join := b.ipdom
	if join == nil && fr.cf.hasDefer {
		return false
	}
	outer := w.spec > 0
	replayM := false
	if reg == 3 {
		if outer {
			return false
		}
		if w.mergeFail[b] >= 2 {
			return false
		}
		if w.pos < len(w.prefix) {
			d := w.prefix[w.pos]
			if d.k != 'm' {
				panic(fmt.Sprintf("replay divergence: want merge got %c %s", d.k, w.where()))
			}
			w.pos++
			w.push(d)
			if !d.b {
				w.mergeFail[b]++
				return false
			}
			replayM = true
		}
	}
	var outs []mergeOut
	np := 0
	w.spec++
	saveBlock, saveSteps := fr.block, w.steps
	saveDepth, saveTop := w.depth, w.cur.top
	okDone := false
	// phi destinations of the join are overwritten only on success
	defer func() {
		w.spec--
		if !okDone {
			r := recover()
			if _, is := r.(specAbort); !is && r != nil {
				if _, isU := r.(*pathAbort); !isU {
					if _, isT := r.(*targetPanic); !isT {
						panic(r)
					}
				}
			}
			if outer {
				panic(specAbort{})
			}
			if replayM {
				panic("replay divergence: merge failed" + w.where())
			}
			fr.block = saveBlock
			w.steps = saveSteps
			w.depth = saveDepth
			w.cur.top = saveTop
			merged = false
		}
		if reg == 3 && !replayM {
			w.push(Dec{k: 'm', b: merged})
			if !merged {
				w.mergeFail[b]++
			}
		}
	}()
	c := w.ctx
	var walk func(from *cBlock, which int, pc *Term)
	walk = func(from *cBlock, which int, pc *Term) {
		to := from.succ[which]
		if to == join {
			k := from.predIx[which]
			o := mergeOut{cond: pc}
			for i := range to.phis {
				o.vals = append(o.vals, to.phis[i].edges[k].get(fr))
			}
			outs = append(outs, o)
			np++
			if np > maxMergePaths {
				panic(specAbort{})
			}
			return
		}
		if !to.pure {
			if reg != 3 {
				panic(specAbort{})
			}
			if replayM {
				return
			}
			if w.model != nil {
				if v := w.ev.eval(pc); v == nil || v.Sign() != 0 {
					panic(specAbort{})
				}
			}
			if r, _ := w.solver.Check(pc, false); r != Unsat {
				panic(specAbort{})
			}
			return
		}
		fr.enter(from, which)
		for i := range to.ins {
			fr.cur = to.ins[i].ins
			to.ins[i].exec(fr)
		}
		w.steps += int64(len(to.ins))
		switch to.term {
		case tJump:
			walk(to, 0, pc)
		case tIf:
			cv := to.cond.get(fr)
			if t := cv.term(); t != nil {
				if kv, ok := w.known[t]; ok {
					cv = boolV(kv)
				} else {
					a := c.And(pc, t)
					nb := c.And(pc, c.Not(t))
					if a != c.False {
						walk(to, 0, a)
					}
					if nb != c.False {
						walk(to, 1, nb)
					}
					return
				}
			}
			if cv.n != 0 {
				walk(to, 0, pc)
			} else {
				walk(to, 1, pc)
			}
		case tReturn:
			o := mergeOut{cond: pc}
			for i := range to.rets {
				o.vals = append(o.vals, to.rets[i].get(fr))
			}
			outs = append(outs, o)
			np++
			if np > maxMergePaths {
				panic(specAbort{})
			}
		}
	}
	walk(b, 0, cond)
	walk(b, 1, c.Not(cond))
	if len(outs) == 0 {
		panic(specAbort{})
	}
	// merge
	var ts []types.Type
	if join != nil {
		for i := range join.phis {
			ts = append(ts, join.phis[i].t)
		}
	} else {
		for i := 0; i < fr.cf.resT.Len(); i++ {
			ts = append(ts, fr.cf.resT.At(i).Type())
		}
	}
	res := make([]Value, len(ts))
	for i := range ts {
		acc := outs[len(outs)-1].vals[i]
		for j := len(outs) - 2; j >= 0; j-- {
			v, ok := w.mergeVal(outs[j].cond, outs[j].vals[i], acc, ts[i])
			if !ok {
				panic(specAbort{})
			}
			acc = v
		}
		res[i] = acc
	}
	okDone = true
	if join != nil {
		for i := range join.phis {
			fr.r[join.phis[i].dst] = res[i]
		}
		fr.block = join
	} else {
		switch len(res) {
		case 0:
		case 1:
			fr.result = res[0]
		default:
			fr.result = Value{p: Tuple(res)}
		}
		fr.block = nil
	}
	return true
}

func (w *W) mergeVal(c *Term, a, b Value, t types.Type) (Value, bool) {
	if same(a, b) {
		return a, true
	}
	if ik, ok := intKind(t); ok {
		at, bt := w.toTerm2(a, b, ik)
		return w.mkInt(w.ctx.Ite(c, at, bt), ik), true
	}
	if isBool(t) {
		return w.simplB(Value{p: w.ctx.Ite(c, w.boolT(a), w.boolT(b))}), true
	}
	switch u := under(t).(type) {
	case *types.Struct:
		x, y := a.agg(), b.agg()
		if x == nil || y == nil || len(x.f) != len(y.f) {
			return Value{}, false
		}
		if isBigInt(t) {
			return Value{}, false
		}
		r := &Agg{f: make([]Value, len(x.f))}
		for i := range x.f {
			v, ok := w.mergeVal(c, x.f[i], y.f[i], u.Field(i).Type())
			if !ok {
				return v, false
			}
			r.f[i] = v
		}
		return Value{p: r}, true
	case *types.Array:
		x, y := a.agg(), b.agg()
		if x == nil || y == nil || len(x.f) != len(y.f) {
			return Value{}, false
		}
		r := &Agg{f: make([]Value, len(x.f))}
		for i := range x.f {
			v, ok := w.mergeVal(c, x.f[i], y.f[i], u.Elem())
			if !ok {
				return v, false
			}
			r.f[i] = v
		}
		return Value{p: r}, true
	}
	return Value{}, false
}

func same(a, b Value) bool {
	if a.n != b.n {
		return false
	}
	switch x := a.p.(type) {
	case nil:
		return b.p == nil
	case string:
		y, ok := b.p.(string)
		return ok && x == y
	case *Value, *Agg, *SliceV, *Term, *IfaceV, *MapV, *FuncV:
		return a.p == b.p
	}
	return false
}

// ---- init functions: calls that are unsupported yield zero values

func (w *W) runInit(fn *ssa.Function) {
	if w.cur == nil {
		w.cur = &G{}
	}
	cf := w.eng.compile(fn)
	fr := &frame{w: w, cf: cf, caller: w.cur.top}
	fr.r = make([]Value, cf.nslots)
	fr.block = cf.blocks[0]
	save := w.cur.top
	saveMax := w.maxSteps
	defer func() { w.cur.top = save; w.maxSteps = saveMax }()
	w.maxSteps = 1 << 60
	for fr.block != nil {
		b := fr.block
		for i := range b.ins {
			in := &b.ins[i]
			fr.cur = in.ins
			if cl, ok := in.ins.(*ssa.Call); ok {
				// skip imported package initialisers (lazy)
				if f := cl.Call.StaticCallee(); f != nil && f.Name() == "init" && f.Pkg != nil && f.Pkg != cf.pkg {
					continue
				}
			}
			w.initStep(fr, in)
		}
		fr.cur = b.tins
		switch b.term {
		case tJump:
			fr.enter(b, 0)
		case tIf:
			c := b.cond.get(fr)
			if c.n != 0 {
				fr.enter(b, 0)
			} else {
				fr.enter(b, 1)
			}
		default:
			fr.block = nil
		}
	}
}

func (w *W) initStep(fr *frame, in *cInstr) {
	depth := w.depth
	top := w.cur.top
	w.cur.top = fr
	w.maxSteps = w.steps + 30_000_000
	defer func() {
		w.cur.top = top
		if r := recover(); r != nil {
			w.depth = depth
			msg := ""
			switch x := r.(type) {
			case *pathAbort:
				msg = x.msg
			case *targetPanic:
				msg = x.msg + " " + x.trace
			default:
				panic(r)
			}
			if w.eng.opts.verbose > 1 {
				fmt.Printf("init %s: %s: %s\n", fr.cf.pkg.Pkg.Path(), in.ins, msg)
			}
			if v, ok := in.ins.(ssa.Value); ok {
				// leave a zero value behind
				for s, sl := range fr.findSlot(v) {
					_ = s
					fr.r[sl] = zeroValue(v.Type())
				}
			}
		}
	}()
	in.exec(fr)
}

func (fr *frame) findSlot(v ssa.Value) []int32 {
	// recompute slot numbering the same way the compiler does
	fr.w.eng.compMu.Lock()
	defer fr.w.eng.compMu.Unlock()
	c := &compiler{e: fr.w.eng, fn: fr.cf.fn, slots: map[ssa.Value]int32{}}
	for _, p := range fr.cf.fn.Params {
		c.slot(p)
	}
	for _, p := range fr.cf.fn.FreeVars {
		c.slot(p)
	}
	tmp := &cFunc{fn: fr.cf.fn, blocks: make([]*cBlock, len(fr.cf.fn.Blocks))}
	for i := range tmp.blocks {
		tmp.blocks[i] = &cBlock{}
	}
	for i, b := range fr.cf.fn.Blocks {
		c.block(tmp, b, tmp.blocks[i])
	}
	if s, ok := c.slots[v]; ok {
		return []int32{s}
	}
	return nil
}

// ---- string iteration, map iteration

type iter struct {
	m    *MapV
	ents []*mapEnt
	i    int
	s    Value
}

func (w *W) rangeIter(v Value) Value {
	switch m := v.p.(type) {
	case *MapV:
		it := &iter{m: m}
		for _, e := range m.ents {
			if !e.dead {
				it.ents = append(it.ents, e)
			}
		}
		if w.mapOrder && len(it.ents) > 1 && len(it.ents) <= 4 && w.inInit == 0 {
			// explore all iteration orders
			rest := it.ents
			var out []*mapEnt
			for len(rest) > 0 {
				k := w.choose(len(rest))
				out = append(out, rest[k])
				nr := append([]*mapEnt{}, rest[:k]...)
				rest = append(nr, rest[k+1:]...)
			}
			it.ents = out
		}
		return Value{p: it}
	case nil:
		return Value{p: &iter{}}
	}
	return Value{p: &iter{s: v}}
}

func (w *W) next(fr *frame, v Value, isStr bool) Value {
	it := v.p.(*iter)
	if isStr {
		n := strLen(it.s)
		if it.i >= n {
			return Value{p: Tuple{Value{}, Value{}, Value{}}}
		}
		if s, ok := it.s.p.(string); ok {
			r, sz := utf8.DecodeRuneInString(s[it.i:])
			k := it.i
			it.i += sz
			return Value{p: Tuple{boolV(true), intV(k), Value{n: uint64(int64(r))}}}
		}
		b := it.s.p.(*SymStr).b
		k := it.i
		x := b[k]
		if t := x.term(); t != nil {
			if !w.decide(w.ltConst(t, 0x80, intInfo{8, false})) {
				// non-ASCII: concretise the remaining (up to 4) bytes
				var bs []byte
				for j := k; j < len(b) && j < k+4; j++ {
					if tt := b[j].term(); tt != nil {
						bs = append(bs, byte(w.concretise(tt).Uint64()))
					} else {
						bs = append(bs, byte(b[j].n))
					}
				}
				r, sz := utf8.DecodeRune(bs)
				it.i += sz
				return Value{p: Tuple{boolV(true), intV(k), Value{n: uint64(int64(r))}}}
			}
			it.i++
			return Value{p: Tuple{boolV(true), intV(k), w.convert(fr, types.Typ[types.Uint8], types.Typ[types.Int32], x)}}
		}
		if x.n < 0x80 {
			it.i++
			return Value{p: Tuple{boolV(true), intV(k), x}}
		}
		var bs []byte
		for j := k; j < len(b) && j < k+4; j++ {
			if tt := b[j].term(); tt != nil {
				bs = append(bs, byte(w.concretise(tt).Uint64()))
			} else {
				bs = append(bs, byte(b[j].n))
			}
		}
		r, sz := utf8.DecodeRune(bs)
		it.i += sz
		return Value{p: Tuple{boolV(true), intV(k), Value{n: uint64(int64(r))}}}
	}
	for it.i < len(it.ents) {
		e := it.ents[it.i]
		it.i++
		if e.dead {
			continue
		}
		return Value{p: Tuple{boolV(true), copyVal(e.k), copyVal(e.v)}}
	}
	return Value{p: Tuple{Value{}, Value{}, Value{}}}
}

// ---- maps

func newMap(mt *types.Map) *MapV {
	return &MapV{idx: map[string]*mapEnt{}, keyT: mt.Key(), elemT: mt.Elem()}
}

func (w *W) mapKey(m *MapV, k Value) (string, bool) {
	var sb strings.Builder
	ok := keyString(m.keyT, k, &sb)
	return sb.String(), ok
}

func (w *W) mapFind(m *MapV, k Value) *mapEnt {
	ks, conc := w.mapKey(m, k)
	if conc {
		if e, ok := m.idx[ks]; ok {
			return e
		}
		if m.symk == 0 {
			return nil
		}
		for _, e := range m.ents {
			if e.dead || e.conc {
				continue
			}
			if w.truth(w.eq(m.keyT, e.k, k)) {
				return e
			}
		}
		return nil
	}
	for _, e := range m.ents {
		if e.dead {
			continue
		}
		if w.truth(w.eq(m.keyT, e.k, k)) {
			return e
		}
	}
	return nil
}

func (w *W) mapSet(m *MapV, k, v Value) {
	e := w.mapFind(m, k)
	if e != nil {
		if w.inInit == 0 {
			old := e.v
			w.onUndo(func() { e.v = old })
		}
		e.v = copyVal(v)
		return
	}
	ks, conc := w.mapKey(m, k)
	e = &mapEnt{k: copyVal(k), v: copyVal(v), conc: conc, ks: ks}
	n := len(m.ents)
	m.ents = append(m.ents, e)
	m.live++
	if conc {
		m.idx[ks] = e
	} else {
		m.symk++
	}
	w.onUndo(func() {
		m.ents = m.ents[:n]
		m.live--
		if conc {
			delete(m.idx, ks)
		} else {
			m.symk--
		}
	})
}

func (w *W) mapDelete(m *MapV, k Value) {
	if m == nil {
		return
	}
	e := w.mapFind(m, k)
	if e == nil {
		return
	}
	w.mapKill(m, e)
}
func (w *W) mapKill(m *MapV, e *mapEnt) {
	e.dead = true
	m.live--
	if e.conc {
		delete(m.idx, e.ks)
	} else {
		m.symk--
	}
	w.onUndo(func() {
		e.dead = false
		m.live++
		if e.conc {
			m.idx[e.ks] = e
		} else {
			m.symk++
		}
	})
}

func (w *W) truth(v Value) bool {
	if t := v.term(); t != nil {
		return w.decide(t)
	}
	return v.n != 0
}

// ---- channels

func (w *W) chanSendV(fr *frame, cv, v Value) {
	ch, _ := cv.p.(*ChanV)
	w.schedPoint()
	if ch == nil {
		w.block(func() bool { return false })
	}
	if ch.closed {
		fr.rtPanic("send on closed channel")
	}
	if len(ch.buf) < ch.cap {
		old := ch.buf
		ch.buf = append(ch.buf[:len(ch.buf):len(ch.buf)], copyVal(v))
		w.onUndo(func() { ch.buf = old })
		return
	}
	s := &chanSend{v: copyVal(v)}
	ch.sendq = append(ch.sendq, s)
	w.block(func() bool { return s.done || ch.closed })
	if !s.done {
		fr.rtPanic("send on closed channel")
	}
}

func (ch *ChanV) recvReady() bool { return len(ch.buf) > 0 || len(ch.sendq) > 0 || ch.closed }

func (w *W) chanRecv(fr *frame, cv Value, et types.Type) (Value, bool) {
	ch, _ := cv.p.(*ChanV)
	w.schedPoint()
	if ch == nil {
		w.block(func() bool { return false })
	}
	if !ch.recvReady() {
		ch.recvq++
		w.block(ch.recvReady)
		ch.recvq--
	}
	return w.chanTake(ch, et)
}
func (w *W) chanTake(ch *ChanV, et types.Type) (Value, bool) {
	if len(ch.buf) > 0 {
		old := ch.buf
		v := ch.buf[0]
		ch.buf = ch.buf[1:]
		w.onUndo(func() { ch.buf = old })
		if len(ch.sendq) > 0 {
			s := ch.sendq[0]
			ch.sendq = ch.sendq[1:]
			s.done = true
			ch.buf = append(ch.buf[:len(ch.buf):len(ch.buf)], s.v)
		}
		return v, true
	}
	if len(ch.sendq) > 0 {
		s := ch.sendq[0]
		ch.sendq = ch.sendq[1:]
		s.done = true
		return s.v, true
	}
	return zeroValue(et), false
}

func (c *compiler) sel(x *ssa.Select) (func(fr *frame), bool) {
	d := c.slot(x)
	type st struct {
		send bool
		ch   opnd
		v    opnd
		et   types.Type
	}
	var ss []st
	for _, s := range x.States {
		e := st{send: s.Dir == types.SendOnly, ch: c.op(s.Chan), et: under(s.Chan.Type()).(*types.Chan).Elem()}
		if e.send {
			e.v = c.op(s.Send)
		}
		ss = append(ss, e)
	}
	blocking := x.Blocking
	return func(fr *frame) {
		w := fr.w
		w.schedPoint()
		chs := make([]*ChanV, len(ss))
		for i := range ss {
			chs[i], _ = ss[i].ch.get(fr).p.(*ChanV)
		}
		ready := func(i int) bool {
			ch := chs[i]
			if ch == nil {
				return false
			}
			if ss[i].send {
				return ch.closed || len(ch.buf) < ch.cap || (ch.cap == 0 && ch.recvq > len(ch.sendq))
			}
			return ch.recvReady()
		}
		any := func() bool {
			for i := range ss {
				if ready(i) {
					return true
				}
			}
			return false
		}
		idx := -1
		if !any() && blocking {
			for i := range ss {
				if !ss[i].send && chs[i] != nil {
					chs[i].recvq++
				}
			}
			w.block(any)
			for i := range ss {
				if !ss[i].send && chs[i] != nil {
					chs[i].recvq--
				}
			}
		}
		var rd []int
		for i := range ss {
			if ready(i) {
				rd = append(rd, i)
			}
		}
		if len(rd) > 0 {
			idx = rd[0]
			if w.explore && len(rd) > 1 {
				idx = rd[w.choose(len(rd))]
			}
		}
		res := Tuple{intV(idx), Value{}}
		ok := false
		for i := range ss {
			if ss[i].send {
				if i == idx {
					w.chanSendV(fr, ss[i].ch.get(fr), ss[i].v.get(fr))
				}
				continue
			}
			v := zeroValue(ss[i].et)
			if i == idx {
				v, ok = w.chanTake(chs[i], ss[i].et)
			}
			res = append(res, v)
		}
		res[1] = boolV(ok)
		fr.r[d] = Value{p: res}
	}, false
}
