package main

import (
	"fmt"
	"go/types"
	"math/big"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Options struct {
	verbose int
	tier    string
	workers int
	seed    int64
	nval    int
}

type Viol struct {
	Harness string            `json:"harness"`
	Label   string            `json:"label"`
	Msg     string            `json:"msg"`
	Inputs  map[string]string `json:"inputs"`
	Stack   string            `json:"stack"`
	Sched   bool              `json:"sched,omitempty"`
	Hashes  int               `json:"hashes,omitempty"`
	Native  string            `json:"native,omitempty"`
}

type PathSample struct {
	Harness string            `json:"harness"`
	Inputs  map[string]string `json:"inputs"`
	Obs     []string          `json:"obs"`
	Hashes  int               `json:"-"`
	Sched   bool              `json:"-"`
}

type HarnessReport struct {
	Name       string         `json:"name"`
	Pkg        string         `json:"pkg"`
	Bounds     string         `json:"bounds,omitempty"`
	Paths      int            `json:"paths_completed"`
	Assumed    int            `json:"paths_pruned_by_assume"`
	Unsup      int            `json:"paths_unsupported"`
	BudgetCut  int            `json:"paths_cut_by_budget"`
	Unknown    int            `json:"paths_solver_unknown"`
	Forks      int            `json:"forks"`
	prof       map[string]int
	Steps      int64          `json:"ssa_steps"`
	Pending    int            `json:"pending_at_budget"`
	Exhaustive bool           `json:"exhaustive"`
	Asserts    map[string]int `json:"assertions_decided"`
	Reached    map[string]int `json:"reached"`
	Missing    []string       `json:"reach_missing,omitempty"`
	Notes      map[string]int `json:"notes,omitempty"`
	Queries    int            `json:"solver_queries"`
	SatN       int            `json:"sat"`
	UnsatN     int            `json:"unsat"`
	UnkN       int            `json:"unknown"`
	SolverS    float64        `json:"solver_s"`
	MaxQ       float64        `json:"max_query_s"`
	WallS      float64        `json:"wall_s"`
	Funcs      []string       `json:"functions_encoded"`
	Validated  int            `json:"paths_validated_natively"`
	Mismatch   []string       `json:"validation_mismatch,omitempty"`
	Viols      []*Viol        `json:"-"`
	Samples    []*PathSample  `json:"-"`
	vcount     map[string]int
	seenPaths  int
}

func (e *Engine) pushJob(j *Job) {
	e.mu.Lock()
	e.jobs = append(e.jobs, j)
	e.mu.Unlock()
	e.cond.Signal()
}

func (e *Engine) checkBudget(w *W) {
	if time.Now().After(e.deadline) || e.stopped() {
		panic(&pathAbort{abBudget, "time budget"})
	}
}
func (e *Engine) stopped() bool {
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.stop
}
func (e *Engine) noteFork(w *W) {
	e.mu.Lock()
	e.rep.Forks++
	if e.opts.verbose > 1 && w.cur != nil {
		if e.rep.prof == nil {
			e.rep.prof = map[string]int{}
		}
		e.rep.prof[stackOf(w.cur.top, 4)]++
	}
	e.mu.Unlock()
}
func (e *Engine) addNote(kind, msg string) {
	e.mu.Lock()
	defer e.mu.Unlock()
	k := kind + ": " + msg
	if len(e.rep.Notes) < 60 || e.rep.Notes[k] > 0 {
		e.rep.Notes[k]++
	}
	if kind == "unknown-branch" || kind == "unknown-assert" {
		e.rep.Exhaustive = false
	}
}
func (e *Engine) noteAssert(label string) {
	e.mu.Lock()
	e.rep.Asserts[label]++
	e.mu.Unlock()
}

func (w *W) inputMap(m Model) map[string]string {
	ev := newEval(m)
	r := map[string]string{}
	for _, in := range w.inputs {
		v := ev.eval(in.t)
		if v == nil {
			v = big0
		}
		r[in.name] = v.String()
	}
	return r
}

func (e *Engine) violation(w *W, label, msg string, m Model) {
	e.mu.Lock()
	n := e.rep.vcount[label]
	e.rep.vcount[label] = n + 1
	e.mu.Unlock()
	if n >= 6 {
		return
	}
	v := &Viol{Harness: e.rep.Name, Label: label, Msg: msg, Inputs: w.inputMap(m), Sched: w.explore || w.mapOrder, Hashes: w.symHashes()}
	if w.cur != nil {
		v.Stack = stackOf(w.cur.top, 12)
	}
	if e.opts.verbose > 0 {
		fmt.Fprintf(os.Stderr, "  VIOL %s %s inputs=%v at %s\n", e.rep.Name, msg, v.Inputs, v.Stack)
	}
	e.mu.Lock()
	e.rep.Viols = append(e.rep.Viols, v)
	e.mu.Unlock()
}

func (r *HarnessReport) printProf() {
	type kv struct {
		k string
		n int
	}
	var l []kv
	for k, n := range r.prof {
		l = append(l, kv{k, n})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].n > l[j].n })
	for i, x := range l {
		if i >= 15 {
			break
		}
		fmt.Fprintf(os.Stderr, "    fork %6d %s\n", x.n, x.k)
	}
}

func newWorker(e *Engine, id int) *W {
	return &W{eng: e, id: id, globals: map[*ssa.Global]*Value{}, inited: map[*ssa.Package]int{}, funcs: map[*ssa.Function]bool{}, gexit: make(chan struct{})}
}

func (e *Engine) runHarness(h *Harness, ws []*W) *HarnessReport {
	t0 := time.Now()
	rep := &HarnessReport{Name: h.Name, Pkg: h.Pkg, Bounds: h.Bounds, Asserts: map[string]int{}, Reached: map[string]int{}, Notes: map[string]int{}, vcount: map[string]int{}, Exhaustive: true}
	e.rep = rep
	e.jobs = []*Job{{}}
	e.active = 0
	e.stop = false
	e.maxPaths = h.Paths
	tm := h.Time
	if e.opts.tier == "thorough" {
		tm = h.TimeT
		e.maxPaths *= 8
	}
	e.deadline = t0.Add(time.Duration(tm) * time.Second)
	var wg sync.WaitGroup
	for _, w := range ws {
		wg.Add(1)
		go func(w *W) {
			defer wg.Done()
			w.rep = rep
			w.maxSteps = h.Steps
			w.solver = NewSolver(solverBin, h.QTime, h.FB)
			e.workerLoop(w, h)
			e.mu.Lock()
			st := w.solver.Stats
			rep.Queries += st.Queries
			rep.SatN += st.SatN
			rep.UnsatN += st.UnsatN
			rep.UnkN += st.UnknownN
			rep.SolverS += st.Time.Seconds()
			if st.MaxQ.Seconds() > rep.MaxQ {
				rep.MaxQ = st.MaxQ.Seconds()
			}
			e.mu.Unlock()
			w.solver.Close()
		}(w)
	}
	wg.Wait()
	rep.Pending = len(e.jobs)
	if rep.Pending > 0 || rep.Unsup > 0 || rep.BudgetCut > 0 || rep.Unknown > 0 {
		rep.Exhaustive = false
	}
	for _, l := range h.Reach {
		if rep.Reached[l] == 0 {
			rep.Missing = append(rep.Missing, l)
		}
	}
	fs := map[string]bool{}
	for _, w := range ws {
		for f := range w.funcs {
			p := fnPkg(f)
			if p == nil || !strings.HasPrefix(p.Pkg.Path(), repoMod) || strings.HasSuffix(p.Pkg.Path(), "/verifsym") {
				continue
			}
			if pos := e.prog.Fset.Position(f.Pos()); strings.Contains(pos.Filename, "zz_verif") || strings.Contains(pos.Filename, "/verifh/") {
				continue
			}
			fs[strings.TrimPrefix(f.String(), repoMod+"/")] = true
		}
		clear(w.funcs)
	}
	for f := range fs {
		rep.Funcs = append(rep.Funcs, f)
	}
	sort.Strings(rep.Funcs)
	rep.WallS = time.Since(t0).Seconds()
	return rep
}

func (e *Engine) workerLoop(w *W, h *Harness) {
	rnd := rand.New(rand.NewSource(e.opts.seed + int64(w.id)*7919))
	for {
		e.mu.Lock()
		for len(e.jobs) == 0 && e.active > 0 && !e.stop {
			e.cond.Wait()
		}
		if e.stop || len(e.jobs) == 0 || time.Now().After(e.deadline) {
			if len(e.jobs) > 0 {
				e.stop = true
			}
			e.mu.Unlock()
			e.cond.Broadcast()
			return
		}
		i := len(e.jobs) - 1
		if rnd.Intn(4) == 0 {
			i = rnd.Intn(len(e.jobs))
		}
		j := e.jobs[i]
		e.jobs[i] = e.jobs[len(e.jobs)-1]
		e.jobs = e.jobs[:len(e.jobs)-1]
		e.active++
		if e.rep.seenPaths++; e.rep.seenPaths > e.maxPaths {
			e.stop = true
			e.jobs = append(e.jobs, j)
			e.active--
			e.mu.Unlock()
			e.cond.Broadcast()
			return
		}
		e.mu.Unlock()

		e.runPath(w, h, j)

		e.mu.Lock()
		e.active--
		e.mu.Unlock()
		e.cond.Broadcast()
	}
}

func (e *Engine) runPath(w *W, h *Harness, j *Job) {
	w.maxSteps = h.Steps
	w.resetPath(j)
	w.main = &G{id: 0, wake: make(chan struct{}, 1)}
	w.gs = []*G{w.main}
	w.cur = w.main
	var res any
	func() {
		defer func() {
			if r := recover(); r != nil {
				res = r
				if w.cur != nil && w.cur != w.main {
					// crash handed over from another goroutine
				}
				switch r.(type) {
				case *pathAbort, *targetPanic:
				default:
					if e.opts.verbose > 0 {
						fmt.Fprintf(os.Stderr, "ENGINE PANIC in %s: %v %s\n%s\n", h.Name, r, w.where(), debug.Stack())
					}
				}
			}
		}()
		w.call(nil, h.Fn, nil, nil)
	}()
	steps := w.steps
	where := w.where()
	// classify
	switch x := res.(type) {
	case nil:
		w.finishPath(e)
	case *targetPanic:
		ok := true
		func() {
			defer func() {
				if r := recover(); r != nil {
					ok = false
				}
			}()
			w.needModel()
		}()
		if ok {
			e.violation(w, "panic:"+panicKey(x), "panic: "+x.msg+" "+x.trace, w.model)
			e.mu.Lock()
			e.rep.Paths++
			e.mu.Unlock()
		}
	case *pathAbort:
		e.mu.Lock()
		switch x.k {
		case abAssume:
			e.rep.Assumed++
		case abBudget, abStopped:
			e.rep.BudgetCut++
		case abUnknown:
			e.rep.Unknown++
		case abUnsup:
			e.rep.Unsup++
		case abViolation:
			e.rep.Paths++
		}
		for l := range w.reach {
			if x.k == abViolation {
				e.rep.Reached[l]++
			}
		}
		e.mu.Unlock()
		if x.k == abUnsup || x.k == abUnknown {
			e.addNote(map[abortKind]string{abUnsup: "unsupported", abUnknown: "unknown"}[x.k], x.msg)
		}
	default:
		e.mu.Lock()
		e.rep.Unsup++
		e.mu.Unlock()
		e.addNote("engine-error", fmt.Sprint(x)+where)
	}
	e.mu.Lock()
	e.rep.Steps += steps
	e.mu.Unlock()
	w.killAll()
	w.spec = 0
	w.inInit = 0
	w.undo()
	w.cur = nil
}

func panicKey(x *targetPanic) string {
	m := x.msg
	if len(m) > 60 {
		m = m[:60]
	}
	return m
}

func (w *W) finishPath(e *Engine) {
	ok := true
	func() {
		defer func() {
			if r := recover(); r != nil {
				ok = false
			}
		}()
		if w.model == nil {
			w.needModel()
		}
	}()
	e.mu.Lock()
	if !ok {
		e.rep.Assumed++
		e.mu.Unlock()
		return
	}
	e.rep.Paths++
	for l := range w.reach {
		e.rep.Reached[l]++
	}
	n := e.rep.Paths
	take := len(e.rep.Samples) < e.opts.nval && (n <= 8 || n%17 == 0)
	e.mu.Unlock()
	if take {
		s := &PathSample{Harness: e.rep.Name, Inputs: w.inputMap(w.model), Hashes: w.symHashes(), Sched: w.explore || w.mapOrder}
		ev := newEval(w.model)
		for _, o := range w.obs {
			s.Obs = append(s.Obs, o.label+"="+w.obsString(o.t, o.v, ev))
		}
		e.mu.Lock()
		e.rep.Samples = append(e.rep.Samples, s)
		e.mu.Unlock()
	}
}

var _ = types.Typ
var _ = big.NewInt

var solverBin = func() string {
	if s := os.Getenv("GOSYM_Z3"); s != "" {
		return s
	}
	return "z3"
}()

func (w *W) symHashes() int {
	n := 0
	for _, h := range w.hashes {
		if h.outT != nil {
			n++
		}
	}
	return n
}
