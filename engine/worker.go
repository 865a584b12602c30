package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---- decisions

type Dec struct {
	k byte // 'b' branch, 'c' concretise, 'n' choice
	b bool
	f bool // forced (other side infeasible)
	n int
	v *big.Int
}
type decNode struct {
	up    *decNode
	d     Dec
	depth int
}
type Job struct {
	tail  *decNode
	model map[string]*big.Int
}

func (j *Job) flatten() []Dec {
	if j.tail == nil {
		return nil
	}
	out := make([]Dec, j.tail.depth)
	for n := j.tail; n != nil; n = n.up {
		out[n.depth-1] = n.d
	}
	return out
}

// engine-level aborts
type abortKind int

const (
	abAssume abortKind = iota
	abUnsup
	abBudget
	abStopped
	abUnknown
	abViolation
)

type pathAbort struct {
	k   abortKind
	msg string
}
type specAbort struct{}
type killG struct{}

type targetPanic struct {
	v     Value // interface value
	msg   string
	trace string
	goexit bool
}

type trailEnt struct {
	p   *Value
	old Value
	fn  func()
}

type Obs struct {
	label string
	t     types.Type
	v     Value
}

type W struct {
	eng    *Engine
	id     int
	ctx    *Ctx
	solver *Solver
	prefix []Dec
	pos    int
	tail   *decNode
	model  Model
	ev     *Eval
	known  map[*Term]bool

	globals map[*ssa.Global]*Value
	inited  map[*ssa.Package]int
	inInit  int
	trail   []trailEnt
	spec    int
	steps   int64
	maxSteps int64
	depth   int

	symN  map[string]int
	inputs []symInput
	obs   []Obs
	reach map[string]bool
	nAssert int
	hashes []*hashApp
	activeHash []*hashApp
	hashVar map[*Term]*hashApp
	touched map[*Term]bool
	heq map[[2]*hashApp]*Term
	concHash map[string]*hashApp
	mapOrder bool

	// goroutines
	main *G
	cur  *G
	gs   []*G
	kill bool
	gexit chan struct{}
	explore bool
	preempt int
	clock int64
	opaqueTx  bool
	feedsOn   bool
	feeds     map[*Value][]Value
	opaqueIDs map[*Value]int

	mergeFail map[*cBlock]int
	rep *HarnessReport
	cutNotes map[string]bool
	funcs map[*ssa.Function]bool
}

type symInput struct {
	name string
	t    *Term
	kind string
}

func (w *W) resetPath(j *Job) {
	w.ctx = NewCtx()
	w.prefix = j.flatten()
	w.pos = 0
	w.tail = nil
	w.model = Model{}
	w.known = map[*Term]bool{}
	w.mergeFail = map[*cBlock]int{}
	w.symN = map[string]int{}
	w.inputs = nil
	w.obs = nil
	w.reach = map[string]bool{}
	w.hashes = nil
	w.activeHash = nil
	w.hashVar = map[*Term]*hashApp{}
	w.touched = map[*Term]bool{}
	w.heq = map[[2]*hashApp]*Term{}
	w.concHash = map[string]*hashApp{}
	w.steps = 0
	w.spec = 0
	w.depth = 0
	w.kill = false
	w.explore = false
	w.preempt = 0
	w.mapOrder = false
	w.clock = 1600000000
	w.opaqueTx = false
	w.feedsOn, w.feeds = false, nil
	w.opaqueIDs = nil
	w.nAssert = 0
	w.solver.BeginPath(w.ctx)
	if j.model != nil {
		for k, v := range j.model {
			w.pendModel(k, v)
		}
	}
	w.ev = newEval(w.model)
}

// model values for variables not created yet are keyed by name
func (w *W) pendModel(name string, v *big.Int) {
	if w.ctx.pend == nil {
		w.ctx.pend = map[string]*big.Int{}
	}
	w.ctx.pend[name] = v
}

func (w *W) newVar(name string, s SortK, bw int, lo, hi *big.Int) *Term {
	t := w.ctx.newVar(name, s, bw, lo, hi)
	if v, ok := w.ctx.pend[name]; ok && w.model != nil {
		if _, has := w.model[t]; !has {
			w.model[t] = v
		}
	}
	return t
}

func (w *W) exportModel(m Model) map[string]*big.Int {
	r := map[string]*big.Int{}
	for k, v := range m {
		r[k.name] = v
	}
	return r
}

func (w *W) setModel(m Model) {
	w.model = m
	w.ctx.pend = nil
	w.ev = newEval(m)
}

func (w *W) unsup(format string, a ...any) {
	panic(&pathAbort{abUnsup, fmt.Sprintf(format, a...) + w.where()})
}

func (w *W) where() string {
	if w.cur == nil {
		return ""
	}
	return " @ " + stackOf(w.cur.top, 6)
}

func stackOf(fr *frame, n int) string {
	var sb strings.Builder
	for ; fr != nil && n > 0; fr = fr.caller {
		if fr.cf == nil {
			continue
		}
		pos := ""
		if fr.cur != nil && fr.cur.Pos().IsValid() {
			p := fr.w.eng.prog.Fset.Position(fr.cur.Pos())
			pos = fmt.Sprintf("%s:%d", shortPath(p.Filename), p.Line)
		}
		fmt.Fprintf(&sb, "%s(%s) < ", fr.cf.fn.String(), pos)
		n--
	}
	return strings.TrimSuffix(sb.String(), " < ")
}
func shortPath(p string) string {
	ps := strings.Split(p, "/")
	if len(ps) > 3 {
		ps = ps[len(ps)-3:]
	}
	return strings.Join(ps, "/")
}

// ---- solver interaction

func (w *W) needModel() {
	if w.model != nil {
		return
	}
	r, m := w.solver.Check(nil, true)
	switch r {
	case Sat:
		w.setModel(m)
	case Unsat:
		panic(&pathAbort{abAssume, "infeasible"})
	default:
		panic(&pathAbort{abUnknown, "solver unknown on path condition" + w.where()})
	}
}

func (w *W) learn(c *Term, b bool) {
	w.known[c] = b
	if b && c.op == OpAnd || !b && c.op == OpOr {
		for _, a := range c.args {
			w.learn(a, b)
		}
	}
	if c.op == OpNot {
		w.learn(c.args[0], !b)
	}
	if c.op == OpLe0 {
		w.known[w.ctx.Not(c)] = !b
	}
}

// addPC adds c to the path condition (c already known to be intended true).
func (w *W) addPC(c *Term) {
	if c == w.ctx.True {
		return
	}
	if v, ok := w.known[c]; ok && v {
		return
	}
	if c.op == OpAnd {
		for _, a := range c.args {
			w.addPC(a)
		}
		return
	}
	w.touch(c)
	w.learn(c, true)
	w.solver.Assert(c)
	if w.model != nil {
		v := w.ev.eval(c)
		if v == nil || v.Sign() == 0 {
			w.model = nil
		}
	}
}

func (w *W) push(d Dec) {
	dp := 1
	if w.tail != nil {
		dp = w.tail.depth + 1
	}
	w.tail = &decNode{w.tail, d, dp}
}
func (w *W) pushAlt(d Dec, m Model) {
	dp := 1
	if w.tail != nil {
		dp = w.tail.depth + 1
	}
	var mm map[string]*big.Int
	if m != nil {
		mm = w.exportModel(m)
	}
	w.eng.pushJob(&Job{&decNode{w.tail, d, dp}, mm})
}

// assume restricts the path; aborts when infeasible.
func (w *W) assume(c *Term) {
	if c == w.ctx.True {
		return
	}
	if c == w.ctx.False {
		panic(&pathAbort{abAssume, "assume"})
	}
	w.addPC(c)
	if w.model == nil && w.pos >= len(w.prefix) {
		w.needModel()
	}
}

func (w *W) decide(c *Term) bool {
	if c == w.ctx.True {
		return true
	}
	if c == w.ctx.False {
		return false
	}
	if w.spec > 0 {
		panic(specAbort{})
	}
	if v, ok := w.known[c]; ok {
		return v
	}
	if w.pos < len(w.prefix) {
		d := w.prefix[w.pos]
		if d.k != 'b' {
			panic(fmt.Sprintf("replay divergence: want branch got %c at %d %s", d.k, w.pos, w.where()))
		}
		w.pos++
		w.push(d)
		x := c
		if !d.b {
			x = w.ctx.Not(c)
		}
		if d.f {
			w.learn(x, true)
		} else {
			w.addPC(x)
		}
		return d.b
	}
	w.touch(c)
	w.needModel()
	v := w.ev.eval(c)
	if v == nil { // undefined under the model (division by zero): ask the solver
		r, m := w.solver.Check(c, true)
		if r == Sat {
			w.setModel(m)
			v = big1
		} else if r == Unsat {
			v = big0
		} else {
			panic(&pathAbort{abUnknown, "solver unknown on branch" + w.where()})
		}
	}
	b := v.Sign() != 0
	x, nx := c, w.ctx.Not(c)
	if !b {
		x, nx = nx, x
	}
	w.eng.checkBudget(w)
	r, m := w.solver.Check(nx, true)
	switch r {
	case Sat:
		w.pushAlt(Dec{k: 'b', b: !b}, m)
		w.push(Dec{k: 'b', b: b})
		w.addPC(x)
		w.eng.noteFork(w)
	case Unsat:
		w.push(Dec{k: 'b', b: b, f: true})
		w.learn(x, true)
	default:
		w.note("unknown-branch", "solver unknown on a branch; that side not explored"+w.where())
		w.push(Dec{k: 'b', b: b})
		w.addPC(x)
	}
	return b
}

func (w *W) note(kind, msg string) {
	w.eng.addNote(kind, msg)
}

// concretise returns a concrete value for t on this path, forking over alternatives.
func (w *W) concretise(t *Term) *big.Int {
	if t.isConst() {
		return t.val
	}
	if w.spec > 0 {
		panic(specAbort{})
	}
	eq := func(v *big.Int) *Term {
		if t.sort == SInt {
			return w.ctx.Eq(t, w.ctx.Int(v))
		}
		if t.sort == SBV {
			return w.ctx.BvCmp(OpBvEq, t, w.ctx.BV(v, t.w))
		}
		if v.Sign() != 0 {
			return t
		}
		return w.ctx.Not(t)
	}
	for n := 0; ; n++ {
		if w.pos < len(w.prefix) {
			d := w.prefix[w.pos]
			if d.k != 'c' {
				panic(fmt.Sprintf("replay divergence: want concretise got %c %s", d.k, w.where()))
			}
			w.pos++
			w.push(d)
			if d.b {
				w.addPC(eq(d.v))
				return d.v
			}
			w.addPC(w.ctx.Not(eq(d.v)))
			continue
		}
		w.touch(t)
		w.needModel()
		v := w.ev.eval(t)
		if v == nil {
			w.unsup("concretise undefined term")
		}
		w.eng.checkBudget(w)
		e := eq(v)
		r, m := w.solver.Check(w.ctx.Not(e), true)
		if r == Sat {
			w.eng.noteFork(w)
			w.pushAlt(Dec{k: 'c', b: false, v: v}, m)
		} else if r == Unknown {
			w.note("unknown-branch", "solver unknown while enumerating values; rest not explored"+w.where())
		}
		w.push(Dec{k: 'c', b: true, v: v})
		w.addPC(e)
		return v
	}
}

// choose forks n ways.
func (w *W) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if w.spec > 0 {
		panic(specAbort{})
	}
	if w.pos < len(w.prefix) {
		d := w.prefix[w.pos]
		if d.k != 'n' {
			panic(fmt.Sprintf("replay divergence: want choice got %c %s", d.k, w.where()))
		}
		w.pos++
		w.push(d)
		return d.n
	}
	w.eng.checkBudget(w)
	for i := n - 1; i >= 1; i-- {
		w.pushAlt(Dec{k: 'n', n: i}, w.model)
	}
	w.push(Dec{k: 'n', n: 0})
	return 0
}

// ---- memory writes

func (w *W) set(p *Value, v Value) {
	if a, ok := v.p.(*Agg); ok {
		if o, ok := p.p.(*Agg); ok && len(o.f) == len(a.f) {
			w.setAgg(o, a)
			return
		}
		v = Value{p: copyAgg(a)}
	}
	if w.inInit == 0 {
		w.trail = append(w.trail, trailEnt{p: p, old: *p})
	}
	*p = v
}
func (w *W) setAgg(o, a *Agg) {
	if o == a {
		return
	}
	for i := range a.f {
		w.set(&o.f[i], a.f[i])
	}
}
func (w *W) onUndo(f func()) {
	if w.inInit == 0 {
		w.trail = append(w.trail, trailEnt{fn: f})
	}
}
func (w *W) undo() {
	for i := len(w.trail) - 1; i >= 0; i-- {
		e := &w.trail[i]
		if e.fn != nil {
			e.fn()
		} else {
			*e.p = e.old
		}
	}
	if cap(w.trail) > 1<<20 {
		w.trail = nil
	} else {
		clear(w.trail)
		w.trail = w.trail[:0]
	}
}

// ---- globals

func (w *W) globalAddr(g *ssa.Global) *Value {
	if p, ok := w.globals[g]; ok {
		if g.Pkg == nil || w.inited[g.Pkg] != 0 {
			return p
		}
	}
	w.initPkg(g.Pkg)
	p, ok := w.globals[g]
	if !ok {
		z := zeroValue(g.Type().(*types.Pointer).Elem())
		p = &z
		w.globals[g] = p
	}
	return p
}

func (w *W) initPkg(pkg *ssa.Package) {
	if pkg == nil || w.inited[pkg] != 0 {
		return
	}
	w.inited[pkg] = 1
	w.eng.buildPkg(pkg)
	for _, m := range pkg.Members {
		if g, ok := m.(*ssa.Global); ok {
			if _, ok := w.globals[g]; !ok {
				z := zeroValue(g.Type().(*types.Pointer).Elem())
				w.globals[g] = &z
			}
		}
	}
	if skipInit[pkg.Pkg.Path()] {
		w.inited[pkg] = 2
		return
	}
	init := pkg.Func("init")
	if init == nil {
		return
	}
	saveSpec := w.spec
	w.spec = 0
	w.inInit++
	saveSteps := w.steps
	sc := w.cur
	defer func() {
		w.spec = saveSpec
		w.inInit--
		w.steps = saveSteps
		w.inited[pkg] = 2
		w.cur = sc
	}()
	w.runInit(init)
}

func isPanicAbort(r any) (*pathAbort, bool) {
	a, ok := r.(*pathAbort)
	return a, ok
}

// ---- goroutines

type G struct {
	id    int
	wake  chan struct{}
	done  bool
	ready func() bool
	top   *frame
	crash any
}

func (w *W) newG(fn func(g *G)) *G {
	g := &G{id: len(w.gs), wake: make(chan struct{}, 1)}
	w.gs = append(w.gs, g)
	go func() {
		<-g.wake
		if w.kill {
			g.done = true
			w.gexit <- struct{}{}
			return
		}
		defer func() {
			r := recover()
			g.done = true
			if _, ok := r.(killG); ok || w.kill {
				w.gexit <- struct{}{}
				return
			}
			if r != nil {
				if tp, ok := r.(*targetPanic); !ok || !tp.goexit {
					w.main.crash = r
					w.main.ready = nil
					w.cur = w.main
					w.main.wake <- struct{}{}
					return
				}
			}
			// normal end: hand the baton on
			n := w.pickNext(nil)
			if n == nil {
				w.main.crash = &targetPanic{msg: "all goroutines are asleep - deadlock!"}
				n = w.main
			}
			w.cur = n
			n.wake <- struct{}{}
		}()
		fn(g)
	}()
	return g
}

func (g *G) runnable() bool { return !g.done && (g.ready == nil || g.ready()) }

func (w *W) runnables() []*G {
	var r []*G
	for _, g := range w.gs {
		if g.runnable() {
			r = append(r, g)
		}
	}
	return r
}

// pickNext chooses the next goroutine other than self (deterministic: round robin after self).
func (w *W) pickNext(self *G) *G {
	n := len(w.gs)
	start := 0
	if w.cur != nil {
		start = w.cur.id
	}
	for i := 1; i <= n; i++ {
		g := w.gs[(start+i)%n]
		if g != self && g.runnable() {
			return g
		}
	}
	return nil
}

func (w *W) switchTo(g *G) {
	me := w.cur
	if g == me {
		return
	}
	w.cur = g
	g.wake <- struct{}{}
	<-me.wake
	if w.kill {
		panic(killG{})
	}
	w.cur = me
	if me.crash != nil {
		c := me.crash
		me.crash = nil
		panic(c)
	}
}

// block the current goroutine until ready() holds.
func (w *W) block(ready func() bool) {
	if w.spec > 0 {
		panic(specAbort{})
	}
	me := w.cur
	for !ready() {
		me.ready = ready
		var n *G
		if w.explore {
			rs := w.runnables()
			if len(rs) > 0 {
				n = rs[w.choose(len(rs))]
			}
		} else {
			n = w.pickNext(me)
		}
		if n == nil {
			me.ready = nil
			panic(&targetPanic{msg: "all goroutines are asleep - deadlock!"})
		}
		w.switchTo(n)
	}
	me.ready = nil
}

// schedPoint: a scheduling point where another goroutine may run first.
func (w *W) schedPoint() {
	if !w.explore || w.spec > 0 || w.inInit > 0 {
		return
	}
	rs := w.runnables()
	if len(rs) <= 1 || w.preempt <= 0 {
		return
	}
	// self first
	sort.SliceStable(rs, func(i, j int) bool { return rs[i] == w.cur && rs[j] != w.cur })
	i := w.choose(len(rs))
	if i > 0 {
		w.preempt--
		w.switchTo(rs[i])
	}
}

func (w *W) yield() {
	if n := w.pickNext(w.cur); n != nil {
		w.switchTo(n)
	}
}

func (w *W) killAll() {
	w.kill = true
	for _, g := range w.gs {
		if g == w.main || g.done {
			continue
		}
		g.wake <- struct{}{}
		<-w.gexit
	}
	w.gs = nil
}

// ---- engine (shared)

type Engine struct {
	prog   *ssa.Program
	pkgs   map[string]*ssa.Package
	mu     sync.Mutex
	cond   *sync.Cond
	jobs   []*Job
	active int
	stop   bool
	deadline time.Time
	maxPaths int
	rep    *HarnessReport
	compMu sync.Mutex
	comp   sync.Map // *ssa.Function -> *cFunc
	methods sync.Map
	initHashes sync.Map
	opts   Options
}
