package main

import (
	"fmt"
	"go/ast"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Harness is one exported VerifH_* function of a harness file.
type Harness struct {
	Name   string
	Pkg    string // import path
	Prop   string
	File   string
	Time   int // seconds, quick
	TimeT  int // seconds, thorough
	Paths  int
	Steps  int64
	Reach  []string
	Tier   string // "" both, "thorough" only
	QTime  int    // ms per solver query
	FB     int    // fallback seconds
	Fn     *ssa.Function
	Bounds string
	NoVal  bool
}

type loaded struct {
	prog      *ssa.Program
	pkgs      map[string]*ssa.Package
	harnesses []*Harness
	overlay   map[string]string // target path -> harness path
	dropped   []string
}

const goRoot = "/opt/veriftools/go1.23.12/bin"

func goEnv(cgo string) []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "PATH", "GOFLAGS", "CGO_ENABLED", "GOPROXY", "GOTOOLCHAIN", "GOWORK", "GOROOT":
			continue
		}
		env = append(env, e)
	}
	return append(env, "PATH="+goRoot+":"+os.Getenv("PATH"), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED="+cgo)
}

const loadTags = "purego,math_big_pure_go,netgo,osusergo,verif"

// collect the harness files for a property
func collect(repo, hdir, prop string) (map[string]string, []string, error) {
	type hf struct{ rel, path, text string }
	var all []hf
	err := filepath.Walk(hdir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(hdir, p)
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		all = append(all, hf{rel, p, string(b)})
		return nil
	})
	if err != nil {
		return nil, nil, err
	}
	dirs := map[string]bool{}
	uses := map[string]bool{} // directories whose common files a harness of another package needs
	ov := map[string]string{}
	for _, f := range all {
		d := filepath.Dir(f.rel)
		if d == "verifsym" || strings.HasPrefix(d, "verifsym/") {
			ov[filepath.Join(repo, f.rel)] = f.path
			continue
		}
		for _, l := range strings.Split(f.text, "\n") {
			if strings.HasPrefix(l, "//verif:harness "+prop+" ") || strings.TrimSpace(l) == "//verif:harness "+prop {
				ov[filepath.Join(repo, f.rel)] = f.path
				dirs[d] = true
				for _, l := range strings.Split(f.text, "\n") {
					if strings.HasPrefix(l, "//verif:uses ") {
						uses[strings.TrimSpace(l[len("//verif:uses "):])] = true
					}
				}
				break
			}
		}
	}
	// common helper files: in the same directory, or declared by other packages (verif:common always)
	for _, f := range all {
		d := filepath.Dir(f.rel)
		if strings.Contains(f.text, "//verif:common") && (dirs[d] || uses[d]) {
			ov[filepath.Join(repo, f.rel)] = f.path
		}
		if strings.Contains(f.text, "//verif:always") {
			ov[filepath.Join(repo, f.rel)] = f.path
		}
	}
	var ds []string
	for d := range dirs {
		ds = append(ds, d)
	}
	sort.Strings(ds)
	return ov, ds, nil
}

func load(repo, hdir, prop string, drop map[string]bool) (*loaded, error) {
	ov, dirs, err := collect(repo, hdir, prop)
	if err != nil {
		return nil, err
	}
	if len(dirs) == 0 {
		return nil, fmt.Errorf("no harness for property %s", prop)
	}
	ld := &loaded{}
	for try := 0; ; try++ {
		bov := map[string][]byte{}
		for t, p := range ov {
			if drop[t] {
				delete(ov, t)
				continue
			}
			b, err := os.ReadFile(p)
			if err != nil {
				return nil, err
			}
			bov[t] = b
		}
		var pats []string
		for _, d := range dirs {
			pats = append(pats, "./"+d)
		}
		cfg := &packages.Config{
			Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
				packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule,
			Dir: repo, Env: goEnv("1"), Overlay: bov, BuildFlags: []string{"-tags=" + loadTags},
		}
		ps, err := packages.Load(cfg, pats...)
		if err != nil {
			return nil, err
		}
		bad := map[string]bool{}
		var other []string
		packages.Visit(ps, nil, func(p *packages.Package) {
			for _, e := range p.Errors {
				f := e.Pos
				if i := strings.Index(f, ":"); i >= 0 {
					f = f[:i]
				}
				if _, ok := ov[f]; ok {
					if !bad[f] {
						ld.dropped = append(ld.dropped, fmt.Sprintf("%s: %s", filepath.Base(f), e))
					}
					bad[f] = true
				} else {
					other = append(other, e.Error())
				}
			}
		})
		if len(bad) > 0 && try < 8 {
			for f := range bad {
				drop[f] = true
			}
			continue
		}
		if len(other) > 0 {
			return nil, fmt.Errorf("load errors: %s", strings.Join(other[:min(len(other), 5)], "; "))
		}
		prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
		ld.prog = prog
		ld.overlay = ov
		ld.pkgs = map[string]*ssa.Package{}
		for _, p := range prog.AllPackages() {
			ld.pkgs[p.Pkg.Path()] = p
		}
		for _, p := range ps {
			sp := prog.Package(p.Types)
			if sp == nil {
				continue
			}
			for i, f := range p.Syntax {
				fname := p.CompiledGoFiles[i]
				for _, d := range f.Decls {
					fd, ok := d.(*ast.FuncDecl)
					if !ok || fd.Doc == nil || !strings.HasPrefix(fd.Name.Name, "VerifH_") {
						continue
					}
					for _, c := range fd.Doc.List {
						if !strings.HasPrefix(c.Text, "//verif:harness ") {
							continue
						}
						h := parseHarness(c.Text)
						if h.Prop != prop {
							continue
						}
						h.Name = fd.Name.Name
						h.Pkg = p.PkgPath
						h.File = fname
						sp.Build()
						h.Fn = sp.Func(h.Name)
						for _, c2 := range fd.Doc.List {
							if strings.HasPrefix(c2.Text, "//verif:bounds ") {
								h.Bounds = strings.TrimSpace(h.Bounds + " " + strings.TrimPrefix(c2.Text, "//verif:bounds "))
							}
						}
						ld.harnesses = append(ld.harnesses, h)
					}
				}
			}
		}
		sort.Slice(ld.harnesses, func(i, j int) bool { return ld.harnesses[i].Name < ld.harnesses[j].Name })
		return ld, nil
	}
}

func parseHarness(s string) *Harness {
	h := &Harness{Time: 60, Paths: 200000, Steps: 40_000_000, QTime: 4000, FB: 12}
	fs := strings.Fields(strings.TrimPrefix(s, "//verif:harness "))
	h.Prop = fs[0]
	for _, f := range fs[1:] {
		kv := strings.SplitN(f, "=", 2)
		if len(kv) != 2 {
			if f == "noval" {
				h.NoVal = true
			}
			continue
		}
		n, _ := strconv.Atoi(kv[1])
		switch kv[0] {
		case "time":
			h.Time = n
		case "ttime":
			h.TimeT = n
		case "paths":
			h.Paths = n
		case "steps":
			h.Steps = int64(n)
		case "qtime":
			h.QTime = n
		case "fb":
			h.FB = n
		case "tier":
			h.Tier = kv[1]
		case "reach":
			h.Reach = strings.Split(kv[1], ",")
		}
	}
	if h.TimeT == 0 {
		h.TimeT = h.Time * 8
	}
	return h
}
