package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

type Replayer struct {
	dir  string
	bin  string
	err  error
	done chan struct{}
	tier string
}

type repCase struct {
	Harness string            `json:"harness"`
	Inputs  map[string]string `json:"inputs"`
}
type repResult struct {
	I     int      `json:"i"`
	Kind  string   `json:"kind"` // ok, assert, assume, panic, fatal, timeout
	Label string   `json:"label"`
	Obs   []string `json:"obs"`
	Msg   string   `json:"msg"`
}

const replayMain = `package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"strconv"
	"time"

	"github.com/QuarkChain/goquarkchain/verifsym"
%s
)

var hs = map[string]func(){
%s
}

type cs struct {
	Harness string
	Inputs  map[string]string
}
type rs struct {
	I     int      ` + "`json:\"i\"`" + `
	Kind  string   ` + "`json:\"kind\"`" + `
	Label string   ` + "`json:\"label\"`" + `
	Obs   []string ` + "`json:\"obs\"`" + `
	Msg   string   ` + "`json:\"msg\"`" + `
}

func one(i int, c cs) (r rs) {
	r.I = i
	r.Kind = "ok"
	defer func() {
		if x := recover(); x != nil {
			if s, ok := x.(verifsym.Stop); ok {
				r.Kind = s.Kind
				r.Label = s.Label
			} else {
				r.Kind = "panic"
				r.Msg = fmt.Sprint(x) + "\n" + string(debug.Stack())
			}
		}
		r.Obs = verifsym.Obs
	}()
	f := hs[c.Harness]
	if f == nil {
		r.Kind = "missing"
		return
	}
	verifsym.Reset(c.Inputs, os.Getenv("VERIF_TIER") == "thorough")
	f()
	return
}

func main() {
	debug.SetMaxStack(256 << 20)
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	start, _ := strconv.Atoi(os.Args[2])
	var cases []cs
	if err := json.Unmarshal(b, &cases); err != nil {
		panic(err)
	}
	out := os.NewFile(3, "out")
	for i := start; i < len(cases); i++ {
		ch := make(chan rs, 1)
		go func() { ch <- one(i, cases[i]) }()
		var r rs
		select {
		case r = <-ch:
		case <-time.After(40 * time.Second):
			r = rs{I: i, Kind: "timeout"}
		}
		j, _ := json.Marshal(r)
		out.Write(append(j, '\n'))
		if r.Kind == "timeout" {
			os.Exit(3)
		}
	}
}
`

func startReplayer(repo string, ld *loaded, tier string) *Replayer {
	r := &Replayer{done: make(chan struct{}), tier: tier}
	dir, err := os.MkdirTemp("", "gosymreplay")
	if err != nil {
		r.err = err
		close(r.done)
		return r
	}
	r.dir = dir
	pk := map[string]string{}
	var imps, ents []string
	for _, h := range ld.harnesses {
		a, ok := pk[h.Pkg]
		if !ok {
			a = fmt.Sprintf("p%d", len(pk))
			pk[h.Pkg] = a
			imps = append(imps, fmt.Sprintf("\t%s %q", a, h.Pkg))
		}
		ents = append(ents, fmt.Sprintf("\t%q: %s.%s,", h.Name, a, h.Name))
	}
	sort.Strings(imps)
	src := fmt.Sprintf(replayMain, strings.Join(imps, "\n"), strings.Join(ents, "\n"))
	os.WriteFile(filepath.Join(dir, "main.go"), []byte(src), 0o644)
	ov := map[string]string{filepath.Join(repo, "verifreplaymain", "main.go"): filepath.Join(dir, "main.go")}
	for t, p := range ld.overlay {
		ov[t] = p
	}
	b, _ := json.Marshal(map[string]any{"Replace": ov})
	os.WriteFile(filepath.Join(dir, "overlay.json"), b, 0o644)
	go func() {
		defer close(r.done)
		cmd := exec.Command(filepath.Join(goRoot, "go"), "build", "-tags=verif", "-overlay", filepath.Join(dir, "overlay.json"), "-o", filepath.Join(dir, "replay"), "./verifreplaymain")
		cmd.Dir = repo
		cmd.Env = goEnv("1")
		out, err := cmd.CombinedOutput()
		if err != nil {
			r.err = fmt.Errorf("replay build: %v: %s", err, out)
			return
		}
		r.bin = filepath.Join(dir, "replay")
	}()
	return r
}

func (r *Replayer) close() {
	<-r.done
	if r.dir != "" {
		os.RemoveAll(r.dir)
	}
}

func (r *Replayer) run(cases []repCase) ([]repResult, error) {
	<-r.done
	if r.err != nil {
		return nil, r.err
	}
	if len(cases) == 0 {
		return nil, nil
	}
	f := filepath.Join(r.dir, "cases.json")
	b, _ := json.Marshal(cases)
	if err := os.WriteFile(f, b, 0o644); err != nil {
		return nil, err
	}
	res := make([]repResult, len(cases))
	for i := range res {
		res[i] = repResult{I: i, Kind: "norun"}
	}
	start := 0
	deadline := time.Now().Add(200 * time.Second)
	for start < len(cases) && time.Now().Before(deadline) {
		work := filepath.Join(r.dir, "cwd")
		os.MkdirAll(work, 0o755)
		pr, pw, err := os.Pipe()
		if err != nil {
			return nil, err
		}
		cmd := exec.Command("timeout", "150", r.bin, f, fmt.Sprint(start))
		cmd.Dir = work
		cmd.Env = append(os.Environ(), "VERIF_TIER="+r.tier, "GOMEMLIMIT=6GiB")
		cmd.ExtraFiles = []*os.File{pw}
		var eb strings.Builder
		lim := &limW{sb: &eb, n: 64 << 10}
		cmd.Stderr = lim
		cmd.Stdout = nil
		if err := cmd.Start(); err != nil {
			return nil, err
		}
		pw.Close()
		dec := json.NewDecoder(pr)
		last := start - 1
		for {
			var x repResult
			if err := dec.Decode(&x); err != nil {
				break
			}
			res[x.I] = x
			last = x.I
		}
		pr.Close()
		cmd.Wait()
		if last+1 < len(cases) && (last < start || res[last].Kind != "timeout") {
			// the process died on case last+1
			res[last+1] = repResult{I: last + 1, Kind: "fatal", Msg: eb.String()}
			last++
		}
		start = last + 1
	}
	return res, nil
}

type limW struct {
	sb *strings.Builder
	n  int
}

func (l *limW) Write(p []byte) (int, error) {
	if l.sb.Len() < l.n {
		l.sb.Write(p)
	}
	return len(p), nil
}
