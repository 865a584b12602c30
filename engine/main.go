package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type Known struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Label    string `json:"label"`
	What     string `json:"what"`
	Status   string `json:"status"` // "known" or "fixed: ..."
}

func readKnown(p string) []Known {
	b, err := os.ReadFile(p)
	if err != nil {
		return nil
	}
	var ks struct {
		Findings []Known `json:"findings"`
	}
	if json.Unmarshal(b, &ks) != nil {
		return nil
	}
	return ks.Findings
}

func main() {
	repo := flag.String("repo", "/repo", "")
	vdir := flag.String("verif", "/verif", "")
	prop := flag.String("prop", "", "property id")
	only := flag.String("only", "", "only harnesses whose name contains this")
	tier := flag.String("tier", "", "quick or thorough")
	verbose := flag.Int("v", 0, "")
	workers := flag.Int("j", 8, "")
	noRep := flag.Bool("norep", false, "")
	tscale := flag.Float64("tscale", 1, "")
	prof := flag.String("cpuprofile", "", "")
	flag.Parse()
	debug.SetGCPercent(500)
	debug.SetMemoryLimit(12 << 30)
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
		time.AfterFunc(40*time.Second, func() {
			f, _ := os.Create(*prof + ".heap")
			pprof.Lookup("heap").WriteTo(f, 0)
			f.Close()
		})
	}
	os.Setenv("PATH", goRoot+":"+os.Getenv("PATH"))
	os.Setenv("GOTOOLCHAIN", "local")
	t0 := time.Now()
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	os.Setenv("VERIF_TIER", *tier)
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	ld, err := load(*repo, filepath.Join(*vdir, "harness"), *prop, map[string]bool{})
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(2)
	}
	fmt.Printf("loaded %s: %d harnesses, %d packages in %.1fs\n", *prop, len(ld.harnesses), len(ld.pkgs), time.Since(t0).Seconds())
	for _, d := range ld.dropped {
		fmt.Println("NOTE harness file not applicable to this tree:", d)
	}
	e := &Engine{prog: ld.prog, pkgs: ld.pkgs, opts: Options{verbose: *verbose, tier: *tier, workers: *workers, seed: seed, nval: 24}}
	e.cond = sync.NewCond(&e.mu)
	var rp *Replayer
	if !*noRep && len(ld.harnesses) > 0 {
		rp = startReplayer(*repo, ld, *tier)
		defer rp.close()
	}
	ws := make([]*W, *workers)
	for i := range ws {
		ws[i] = newWorker(e, i)
	}
	var reps []*HarnessReport
	for _, h := range ld.harnesses {
		if *only != "" && !strings.Contains(h.Name, *only) {
			continue
		}
		if h.Tier == "thorough" && *tier != "thorough" {
			continue
		}
		h.Time = max(1, int(float64(h.Time)**tscale))
		h.TimeT = max(1, int(float64(h.TimeT)**tscale))
		rep := e.runHarness(h, ws)
		reps = append(reps, rep)
		fmt.Printf("  %-40s paths=%d assumed=%d unsup=%d cut=%d unk=%d pend=%d exh=%v q=%d solver=%.1fs wall=%.1fs viol=%d\n", h.Name, rep.Paths, rep.Assumed, rep.Unsup, rep.BudgetCut, rep.Unknown, rep.Pending, rep.Exhaustive, rep.Queries, rep.SolverS, rep.WallS, len(rep.Viols))
		rep.printProf()
		if len(rep.Missing) > 0 {
			fmt.Printf("    NOTE reachability witnesses missing: %v\n", rep.Missing)
		}
		var ns []string
		for n, c := range rep.Notes {
			ns = append(ns, fmt.Sprintf("%s (x%d)", n, c))
		}
		sort.Strings(ns)
		if *verbose == 0 && len(ns) > 6 {
			ns = ns[:6]
		}
		for _, n := range ns {
			if len(n) > 600 && *verbose == 0 {
				n = n[:600]
			}
			fmt.Println("    note:", n)
		}
	}
	// native confirmation and validation
	confirmed := []*Viol{}
	unconfirmed := []*Viol{}
	replayErr := ""
	var cases []repCase
	if rp != nil {
		type ref struct {
			v *Viol
			s *PathSample
			r *HarnessReport
		}
		var refs []ref
		for _, r := range reps {
			for _, v := range r.Viols {
				cases = append(cases, repCase{v.Harness, v.Inputs})
				refs = append(refs, ref{v: v, r: r})
			}
			for _, s := range r.Samples {
				cases = append(cases, repCase{s.Harness, s.Inputs})
				refs = append(refs, ref{s: s, r: r})
			}
		}
		res, err := rp.run(cases)
		if err != nil {
			replayErr = err.Error()
			fmt.Println("NOTE replay:", replayErr)
		} else {
			for i, x := range res {
				rf := refs[i]
				if rf.v != nil {
					rf.v.Native = x.Kind + " " + x.Label
					if x.Msg != "" {
						rf.v.Native += " " + x.Msg
					}
					if x.Kind == "assert" || x.Kind == "panic" || x.Kind == "fatal" {
						confirmed = append(confirmed, rf.v)
					} else {
						unconfirmed = append(unconfirmed, rf.v)
					}
					continue
				}
				if rf.s.Sched || x.Kind == "norun" {
					continue
				}
				if x.Kind == "ok" && eqStrs(x.Obs, rf.s.Obs) {
					rf.r.Validated++
				} else if rf.s.Hashes == 0 {
					m := fmt.Sprintf("native=%s %s obs=%v engine obs=%v inputs=%v", x.Kind, x.Label, x.Obs, rf.s.Obs, rf.s.Inputs)
					if x.Kind == "assert" || x.Kind == "panic" || x.Kind == "fatal" {
						// the compiled code itself fails on an input the solver produced
						confirmed = append(confirmed, &Viol{Harness: rf.s.Harness, Label: x.Label, Msg: "native run of a solver-produced input fails: " + x.Kind + " " + x.Label, Inputs: rf.s.Inputs, Native: x.Kind + " " + x.Label + " " + x.Msg})
					}
					rf.r.Mismatch = append(rf.r.Mismatch, m)
				}
			}
		}
	} else {
		for _, r := range reps {
			unconfirmed = append(unconfirmed, r.Viols...)
		}
	}
	for _, r := range reps {
		if r.Validated > 0 {
			fmt.Printf("    %s: %d paths validated natively, %d mismatches\n", r.Name, r.Validated, len(r.Mismatch))
		}
		for i, m := range r.Mismatch {
			if i < 3 {
				fmt.Printf("    MISMATCH %s: %s\n", r.Name, m)
			}
		}
	}
	for i, v := range unconfirmed {
		if i < 10 {
			fmt.Printf("    unconfirmed counterexample %s %s inputs=%v native=%s stack=%s\n", v.Harness, v.Msg, v.Inputs, v.Native, v.Stack)
		}
	}
	known := readKnown(filepath.Join(*vdir, "known_findings.json"))
	viol := 0
	printedKnown := map[string]bool{}
	seen := map[string]bool{}
	for _, v := range confirmed {
		lab := v.Label
		isKnown := false
		for _, k := range known {
			if k.Status == "known" && k.Property == *prop && k.Harness == v.Harness && k.Label == lab {
				isKnown = true
				if !printedKnown[k.Harness+k.Label] {
					printedKnown[k.Harness+k.Label] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k.What)
				}
			}
		}
		if isKnown {
			continue
		}
		viol++
		key := v.Harness + "/" + lab
		if seen[key] {
			continue
		}
		seen[key] = true
		dir := filepath.Join(*vdir, "evidence", "replay")
		os.MkdirAll(dir, 0o755)
		p := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", *prop, v.Harness, len(seen)))
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(p, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n  %s %s\n  inputs=%v\n  at %s\n  native: %s\n", *prop, p, v.Harness, v.Msg, v.Inputs, v.Stack, firstN(v.Native, 1200))
	}
	if *only == "" || os.Getenv("GOSYM_EVID") != "" {
		writeEvidence(*vdir, *prop, *tier, seed, ld, reps, viol, len(unconfirmed), replayErr, time.Since(t0))
	}
	fmt.Printf("done %s in %.1fs: %d violations\n", *prop, time.Since(t0).Seconds(), viol)
	if viol > 0 {
		if rp != nil {
			rp.close()
		}
		os.Exit(1)
	}
}

func firstN(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func eqStrs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func writeEvidence(vdir, prop, tier string, seed int64, ld *loaded, reps []*HarnessReport, viol, unconf int, replayErr string, wall time.Duration) {
	paths, forks, val, q, un, sat, uk := 0, 0, 0, 0, 0, 0, 0
	var steps int64
	st := 0.0
	exh := len(reps) > 0 && len(ld.dropped) == 0
	asserts := 0
	fs := map[string]bool{}
	var samples []any
	var missing []string
	for _, r := range reps {
		paths += r.Paths
		forks += r.Forks
		val += r.Validated
		q += r.Queries
		sat += r.SatN
		un += r.UnsatN
		uk += r.UnkN
		steps += r.Steps
		st += r.SolverS
		exh = exh && r.Exhaustive
		for _, n := range r.Asserts {
			asserts += n
		}
		for _, f := range r.Funcs {
			fs[f] = true
		}
		for i, s := range r.Samples {
			if i < 2 {
				samples = append(samples, s)
			}
		}
		for _, m := range r.Missing {
			missing = append(missing, r.Name+":"+m)
		}
		if r.Funcs == nil {
			r.Funcs = []string{}
		}
	}
	var fl []string
	for f := range fs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	if samples == nil {
		samples = []any{}
	}
	cov := map[string]any{
		"states":                        paths,
		"transitions":                   forks,
		"traces_validated_against_impl": val,
		"samples":                       samples,
		"exhaustive":                    exh,
		"rule":                          "states = symbolic paths completed (each stands for every input satisfying its path condition); transitions = solver-decided feasible forks",
		"functions_encoded":             fl,
		"assertion_instances_decided":   asserts,
		"solver_queries":                q,
		"solver_sat":                    sat,
		"solver_unsat":                  un,
		"solver_unknown":                uk,
		"solver_seconds":                st,
		"ssa_instructions":              steps,
		"harnesses":                     reps,
		"reach_missing":                 missing,
		"dropped_harness_files":         ld.dropped,
		"unconfirmed_counterexamples":   unconf,
		"replay_error":                  replayErr,
	}
	assume := []string{
		"cryptographic hashes of symbolic data are injective uninterpreted functions; concrete data is hashed exactly",
		"goroutine scheduling is deterministic run-to-block unless the harness asks for schedule exploration; memory model is sequentially consistent",
		"bounds: see harnesses[].bounds; paths listed as cut, pending, unknown or unsupported are outside the explored space",
	}
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "assumptions": assume, "wall_s": wall.Seconds(), "violations": viol}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Println("evidence:", err)
		return
	}
	os.MkdirAll(filepath.Join(vdir, "evidence"), 0o755)
	os.WriteFile(filepath.Join(vdir, "evidence", prop+".json"), b, 0o644)
}
