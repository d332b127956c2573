// symgo decides properties of the Go code in a repository by symbolic
// execution of its SSA form, with an SMT solver.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"slices"
	"sort"
	"strconv"
	"strings"
	"time"

	"symgo/interp"
	"symgo/load"
)

const hdir = "verifh"

type harness struct {
	Name    string
	Doc     string
	Reaches []string
	Pkg     string
	File    string
}

type config struct {
	verif, repo, module string
	tier                string
	seed                int64
	known               map[string]knownFinding
	verbose             bool
	budget              time.Duration
	workers             int
	qt, ht              time.Duration
	maxPaths            int
	noNative            bool
}

type knownFinding struct {
	ID       string `json:"id"`
	Property string `json:"property"`
	What     string `json:"what"`
	Status   string `json:"status"` // "open" or "fixed"
	Commit   string `json:"commit,omitempty"`
}

func main() {
	debug.SetGCPercent(200)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: symgo check|run|list ...")
		os.Exit(2)
	}
	fs := flag.NewFlagSet("symgo", flag.ExitOnError)
	var c config
	prop := fs.String("property", "", "property id")
	fnRe := fs.String("fn", "", "harness function prefix (dev)")
	fs.StringVar(&c.verif, "verif", "/verif", "")
	fs.StringVar(&c.repo, "repo", "/repo", "")
	fs.StringVar(&c.tier, "tier", "quick", "")
	fs.BoolVar(&c.verbose, "v", false, "")
	fs.IntVar(&c.workers, "j", 8, "")
	fs.IntVar(&c.maxPaths, "max-paths", 0, "")
	fs.BoolVar(&c.noNative, "no-native", false, "")
	budget := fs.Int("budget", 0, "seconds")
	qt := fs.Int("qt", 2500, "query timeout ms")
	ht := fs.Int("ht", 60, "portfolio timeout s")
	replay := fs.String("replay", "", "replay file")
	fs.Parse(os.Args[2:])
	c.qt = time.Duration(*qt) * time.Millisecond
	c.ht = time.Duration(*ht) * time.Second
	c.seed, _ = strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	c.budget = time.Duration(*budget) * time.Second
	if *budget == 0 {
		if c.tier == "thorough" {
			c.budget = 100 * time.Minute
		} else {
			c.budget = 13 * time.Minute
		}
	}
	c.module = moduleOf(c.repo)
	c.known = loadKnown(c.verif)
	switch os.Args[1] {
	case "check":
		os.Exit(c.check(*prop, "", true))
	case "run":
		os.Exit(c.check("", *fnRe, false))
	case "list":
		hs, err := c.harnesses()
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		for _, h := range hs {
			fmt.Println(h.Name, h.File)
		}
	case "replay":
		os.Exit(c.replayFile(*replay))
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

func moduleOf(repo string) string {
	bz, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	for _, l := range strings.Split(string(bz), "\n") {
		if strings.HasPrefix(l, "module ") {
			return strings.TrimSpace(strings.TrimPrefix(l, "module "))
		}
	}
	return ""
}

func loadKnown(verif string) map[string]knownFinding {
	m := map[string]knownFinding{}
	bz, err := os.ReadFile(filepath.Join(verif, "known_findings.json"))
	if err != nil {
		return m
	}
	var doc struct {
		Findings []knownFinding `json:"findings"`
	}
	if err := json.Unmarshal(bz, &doc); err != nil {
		fmt.Fprintln(os.Stderr, "known_findings.json:", err)
		os.Exit(2)
	}
	for _, f := range doc.Findings {
		if f.Status == "open" {
			m[f.ID] = f
		}
	}
	return m
}

// overlay maps the harness files into the repository's module.
func (c *config) overlay() map[string]string {
	o := map[string]string{}
	root := filepath.Join(c.verif, "harness")
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		if strings.HasPrefix(rel, "shim/") {
			// shim/<pkg path>/<file>.go goes into the package itself
			if strings.HasSuffix(p, ".go") {
				o[filepath.Join(c.repo, strings.TrimPrefix(rel, "shim/"))] = p
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") {
			o[filepath.Join(c.repo, hdir, rel)] = p
		}
		return nil
	})
	return o
}

var (
	clockUse = regexp.MustCompile(`\btime\.(Now|Since|Until)\(`)
	pkgLine  = regexp.MustCompile(`(?m)^package \w+`)
)

// clocks lets the repository's own code read the harness's clock in a native replay.
func (c *config) clocks(ov map[string]string, dir string) {
	n := 0
	filepath.WalkDir(c.repo, func(p string, d os.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if d.IsDir() {
			if strings.HasPrefix(d.Name(), ".") && p != c.repo {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") || ov[p] != "" {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil || !clockUse.Match(b) {
			return nil
		}
		s := clockUse.ReplaceAllString(string(b), "verifclock.$1(")
		i := pkgLine.FindStringIndex(s)
		if i == nil {
			return nil
		}
		s = s[:i[1]] + "; import verifclock \"" + c.module + "/" + hdir + "/clock\"" + s[i[1]:] + "\n\nvar _ = time.Now\n"
		n++
		f := filepath.Join(dir, fmt.Sprintf("clock%d.go", n))
		if os.WriteFile(f, []byte(s), 0o644) == nil {
			ov[p] = f
		}
		return nil
	})
}

func (c *config) harnesses() ([]harness, error) {
	var hs []harness
	files, _ := filepath.Glob(filepath.Join(c.verif, "harness", "h*", "*.go"))
	sort.Strings(files)
	fset := token.NewFileSet()
	for _, f := range files {
		af, err := parser.ParseFile(fset, f, nil, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		for _, d := range af.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil || len(fd.Name.Name) < 4 || fd.Name.Name[0] != 'C' || !strings.Contains(fd.Name.Name[:5], "_") && !strings.Contains(fd.Name.Name, "T_") {
				continue
			}
			if fd.Type.Params.NumFields() != 0 {
				continue
			}
			h := harness{Name: fd.Name.Name, Doc: strings.Join(strings.Fields(fd.Doc.Text()), " "), File: filepath.Base(f), Pkg: filepath.Base(filepath.Dir(f))}
			ast.Inspect(fd, func(n ast.Node) bool {
				ce, ok := n.(*ast.CallExpr)
				if !ok {
					return true
				}
				if se, ok := ce.Fun.(*ast.SelectorExpr); ok {
					if id, ok := se.X.(*ast.Ident); ok && id.Name == "rt" && se.Sel.Name == "Reach" {
						if bl, ok := ce.Args[0].(*ast.BasicLit); ok {
							s, _ := strconv.Unquote(bl.Value)
							h.Reaches = append(h.Reaches, s)
						}
					}
				}
				return true
			})
			hs = append(hs, h)
		}
	}
	return hs, nil
}

type violation struct {
	Property string            `json:"property"`
	Harness  string            `json:"harness"`
	Label    string            `json:"label"`
	Inputs   map[string]string `json:"Inputs"`
	Order    []string          `json:"order"`
	Known    map[string]bool   `json:"Known"`
	Tier     string            `json:"Tier"`
	Notes    []string          `json:"notes,omitempty"`
	Where    string            `json:"where,omitempty"`
	Native   string            `json:"native,omitempty"`
}

type item struct {
	Harness  string            `json:"harness"`
	Inputs   map[string]string `json:"inputs"`
	Known    map[string]bool   `json:"known"`
	Tier     string            `json:"tier"`
	Observed map[string]string `json:"observed"`
}

type result struct {
	Failed   string            `json:"failed"`
	Observed map[string]string `json:"observed"`
	Reached  map[string]int    `json:"reached"`
	KnownHit []string          `json:"known"`
}

func (c *config) check(prop, fnPrefix string, isCheck bool) int {
	start := time.Now()
	hs, err := c.harnesses()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var sel []harness
	for _, h := range hs {
		if isCheck {
			if strings.HasPrefix(h.Name, prop+"_") || c.tier == "thorough" && strings.HasPrefix(h.Name, prop+"T_") {
				sel = append(sel, h)
			}
		} else if strings.HasPrefix(h.Name, fnPrefix) {
			sel = append(sel, h)
		}
	}
	if len(sel) == 0 {
		fmt.Fprintln(os.Stderr, "no harness for", prop, fnPrefix)
		return 2
	}
	var pats []string
	for _, h := range sel {
		if p := "./" + hdir + "/" + h.Pkg; !slices.Contains(pats, p) {
			pats = append(pats, p)
		}
	}
	res, err := load.Load(load.Config{
		Dir: c.repo, Patterns: pats, Overlay: c.overlay(), Go: goBin(),
		Env:    goEnv(c.repo),
		Strict: func(p string) bool { return strings.HasPrefix(p, c.module) },
	})
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		return 2
	}
	loadT := time.Since(start)
	P := interp.NewProgram(res, c.module, c.module+"/"+hdir+"/rt")
	P.Trace = os.Getenv("SYMGO_TRACE") != ""
	knownIDs := map[string]bool{}
	for id := range c.known {
		knownIDs[id] = true
	}
	deadline := start.Add(c.budget)
	type hres struct {
		h   harness
		e   *interp.Explorer
		dur time.Duration
	}
	var out []hres
	bad := 0
	var viols []violation
	knownHit := map[string]int{}
	funcs := map[string]bool{}
	nWit := 2
	if c.tier == "thorough" {
		nWit = 12
	}
	var wits []item
	for _, h := range sel {
		fn := P.Func(c.module+"/"+hdir+"/"+h.Pkg, h.Name)
		if fn == nil {
			fmt.Fprintln(os.Stderr, "no function", h.Name)
			return 2
		}
		n := 0
		e := &interp.Explorer{P: P, Workers: c.workers, MaxSteps: 60_000_000, MaxPaths: c.maxPaths, Deadline: deadline,
			QueryTimeout: c.qt, HardTimeout: c.ht, Tier: c.tier, KnownIDs: knownIDs, Verbose: c.verbose, Seed: c.seed}
		e.WantWitness = func() bool { n++; return n <= nWit || n%97 == 0 && n < 97*nWit }
		e.Init()
		t0 := time.Now()
		e.Run(fn)
		e.Close()
		d := time.Since(t0)
		out = append(out, hres{h, e, d})
		for f := range e.Funcs {
			funcs[f] = true
		}
		fmt.Printf("%-34s paths=%d forks=%d asserts=%d reached=%v queries=%d solver=%.1fs wall=%.1fs ends=%v%s\n", h.Name, e.Stat.Paths, e.Stat.Forks,
			sum(e.Stat.Asserts), e.Stat.Reached, e.Stat.Solver.Queries, e.Stat.Solver.Time.Seconds(), d.Seconds(), e.Stat.Ends, hardness(e))
		for l, n := range e.Stat.Known {
			knownHit[l] += n
		}
		for _, v := range e.Viols {
			viols = append(viols, violation{Property: prop, Harness: h.Name, Label: v.Label, Inputs: v.Inputs, Order: v.Order,
				Known: knownIDs, Tier: c.tier, Notes: v.Notes, Where: v.Where})
		}
		for k, n := range e.Fails {
			fmt.Fprintf(os.Stderr, "ERROR %s: %s (%d paths)\n    at %s\n", h.Name, k, n, e.FailAt[k])
			bad++
		}
		for l, n := range e.Stat.Undecided {
			fmt.Fprintf(os.Stderr, "UNDECIDED %s: %s (%d) at %s\n", h.Name, l, n, e.UndecAt[l])
			bad++
		}
		if e.Truncated {
			fmt.Fprintf(os.Stderr, "TRUNCATED %s: time or path budget exhausted\n", h.Name)
			bad++
		}
		if len(e.Viols) == 0 && len(e.Fails) == 0 && !e.Truncated {
			for _, r := range h.Reaches {
				if e.Stat.Reached[r] == 0 {
					fmt.Fprintf(os.Stderr, "VACUOUS %s: %q never reached\n", h.Name, r)
					bad++
				}
			}
		}
		for i, w := range e.Witnesses {
			if i < nWit {
				wits = append(wits, item{Harness: h.Name, Inputs: w.Inputs, Known: knownIDs, Tier: c.tier, Observed: w.Obs})
			}
		}
	}
	symT := time.Since(start) - loadT

	// replay against the real code
	confirmed := 0
	var vr []violation
	var validated, mismatched int
	natT := time.Now()
	if !c.noNative && (len(viols) > 0 || isCheck && len(wits) > 0) {
		var items []item
		for _, v := range viols {
			items = append(items, item{Harness: v.Harness, Inputs: v.Inputs, Known: knownIDs, Tier: c.tier})
		}
		items = append(items, wits...)
		rs, err := c.native(items, hs)
		if err != nil {
			fmt.Fprintln(os.Stderr, "native replay:", err)
			bad++
		} else {
			for i := range viols {
				viols[i].Native = rs[i].Failed
				if rs[i].Failed == viols[i].Label || rs[i].Failed != "" && !strings.HasPrefix(rs[i].Failed, "!") {
					confirmed++
					vr = append(vr, viols[i])
				} else {
					fmt.Fprintf(os.Stderr, "NOT REPRODUCED %s: %s (native: %q) at %s\n   %s\n   notes %v\n", viols[i].Harness, viols[i].Label, rs[i].Failed, viols[i].Where, showIn(viols[i]), viols[i].Notes)
					bad++
				}
			}
			for i, w := range wits {
				r := rs[len(viols)+i]
				ok := r.Failed == ""
				why := r.Failed
				for k, v := range w.Observed {
					if r.Observed[k] != v {
						ok = false
						why = fmt.Sprintf("%s: symbolic %s native %s", k, v, r.Observed[k])
					}
				}
				if ok {
					validated++
				} else {
					mismatched++
					fmt.Fprintf(os.Stderr, "WITNESS MISMATCH %s: %s\n   inputs %v\n", w.Harness, why, w.Inputs)
					bad++
				}
			}
		}
	} else {
		for _, v := range viols {
			fmt.Printf("  (unreplayed) %s %s at %s\n   %s\n", v.Harness, v.Label, v.Where, showIn(v))
		}
	}
	natD := time.Since(natT)
	for _, v := range vr {
		fmt.Printf("COUNTEREXAMPLE %s: %s\n   native: %s\n   inputs: %s\n   at %s\n   notes %v\n", v.Harness, v.Label, v.Native, showIn(v), v.Where, v.Notes)
	}
	var ids []string
	for id := range knownHit {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	if !isCheck {
		for _, id := range ids {
			fmt.Println("known finding reached:", id)
		}
		fmt.Printf("load %.1fs, symbolic %.1fs, native %.1fs; violations %d confirmed %d, witnesses validated %d, problems %d\n", loadT.Seconds(), symT.Seconds(), natD.Seconds(), len(viols), confirmed, validated, bad)
		if len(viols) > 0 {
			return 1
		}
		if bad > 0 {
			return 2
		}
		return 0
	}

	// evidence
	var module []string
	for f := range funcs {
		if strings.Contains(f, c.module) && !strings.Contains(f, c.module+"/"+hdir) {
			module = append(module, strings.ReplaceAll(f, c.module+"/", ""))
		}
	}
	sort.Strings(module)
	var hev []map[string]any
	paths, asserts, queries, forks := 0, 0, 0, 0
	var steps int64
	var solverS float64
	undec := 0
	for _, r := range out {
		labels := map[string]int{}
		for l, n := range r.e.Stat.Asserts {
			labels[l] = n
			asserts += n
		}
		paths += r.e.Stat.Paths
		forks += r.e.Stat.Forks
		steps += r.e.Stat.Steps
		queries += r.e.Stat.Solver.Queries
		solverS += r.e.Stat.Solver.Time.Seconds()
		undec += sum(r.e.Stat.Undecided)
		hev = append(hev, map[string]any{"harness": r.h.Name, "bounds": r.h.Doc, "paths": r.e.Stat.Paths, "path_ends": r.e.Stat.Ends,
			"assertions": labels, "reached": r.e.Stat.Reached, "queries": r.e.Stat.Solver.Queries, "solver_s": round(r.e.Stat.Solver.Time.Seconds()),
			"wall_s": round(r.dur.Seconds()), "ssa_steps": r.e.Stat.Steps, "undecided": r.e.Stat.Undecided, "truncated": r.e.Truncated})
	}
	var samples []any
	for i, w := range wits {
		if i < 4 {
			samples = append(samples, map[string]any{"harness": w.Harness, "inputs": w.Inputs})
		}
	}
	cov := map[string]any{
		"states": paths, "transitions": steps, "traces_validated_against_impl": validated, "samples": samples,
		"explanation":             "symbolic execution of the repository's Go SSA; each path is decided by SMT queries over all input values within the stated bounds",
		"functions_encoded":       module,
		"functions_encoded_count": len(module),
		"functions_total_incl_dependencies": len(funcs),
		"assertions_discharged":   asserts, "branch_forks": forks, "solver_queries": queries, "solver_s": round(solverS),
		"undecided": undec, "harnesses": hev, "load_s": round(loadT.Seconds()), "symbolic_s": round(symT.Seconds()), "replay_s": round(natD.Seconds()),
		"witnesses_mismatched": mismatched, "known_findings_reached": ids,
	}
	ev := map[string]any{"property": prop, "tier": c.tier, "seed": c.seed, "level": "model_checking", "coverage": cov,
		"wall_s": round(time.Since(start).Seconds()),
		"assumptions": []string{
			"the collaborators outside the repository (bank, account, oracle and community pool keepers, the key-value store) are the models in harness/env",
			"protobuf encoding round-trips; a message is stored and read back as written",
			"values outside the stated bounds, longer operation sequences and other data shapes are not covered",
		}}
	if len(vr) > 0 {
		var vs []any
		for _, v := range vr {
			vs = append(vs, map[string]any{"harness": v.Harness, "label": v.Label, "inputs": v.Inputs, "native": v.Native})
		}
		ev["violations"] = len(vr)
		cov["violations"] = vs
	}
	writeJSON(filepath.Join(c.verif, "evidence", prop+".json"), ev)
	for _, id := range ids {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", c.known[id].Property, id, c.known[id].What)
	}
	if len(vr) > 0 {
		dir := filepath.Join(c.verif, "replays")
		os.MkdirAll(dir, 0o755)
		for i, v := range vr {
			p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", prop, i))
			writeJSON(p, v)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, p)
		}
		return 1
	}
	if bad > 0 {
		return 2
	}
	fmt.Printf("OK property=%s tier=%s harnesses=%d paths=%d assertions=%d queries=%d validated=%d wall=%.1fs\n", prop, c.tier, len(out), paths, asserts, queries, validated, time.Since(start).Seconds())
	return 0
}

func showIn(v violation) string {
	var p []string
	for _, k := range v.Order {
		p = append(p, k+"="+v.Inputs[k])
	}
	return strings.Join(p, " ")
}

func sum(m map[string]int) int {
	n := 0
	for _, v := range m {
		n += v
	}
	return n
}

func round(f float64) float64 { return float64(int(f*100)) / 100 }

func writeJSON(p string, v any) {
	os.MkdirAll(filepath.Dir(p), 0o755)
	bz, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if err := os.WriteFile(p, append(bz, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

// goEnv is the environment the repository is built in.
func goEnv(repo string) []string {
	path := os.Getenv("PATH")
	if d := "/opt/veriftools/go1.23.12/bin"; exists(d) {
		path = d + ":" + path
	}
	return []string{"PATH=" + path, "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off", "GO111MODULE=on", "GOFLAGS=-mod=readonly",
		"GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod", "GOCACHE=" + goCache(), "HOME=/root"}
}

// goBin is the go command the repository is built with.
func goBin() string {
	if p := "/opt/veriftools/go1.23.12/bin/go"; exists(p) {
		return p
	}
	return "go"
}

func exists(p string) bool { _, err := os.Stat(p); return err == nil }

// native compiles the harnesses with the repository's compiler and runs the
// given concrete inputs.
func (c *config) native(items []item, hs []harness) ([]result, error) {
	dir, err := os.MkdirTemp("", "symgo-native-*")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(dir)
	var b strings.Builder
	used := map[string]bool{}
	for _, it := range items {
		used[it.Harness] = true
	}
	pkgs := map[string]bool{}
	var body strings.Builder
	for _, h := range hs {
		if used[h.Name] {
			pkgs[h.Pkg] = true
			fmt.Fprintf(&body, "\t\t%q: %s.%s,\n", h.Name, h.Pkg, h.Name)
		}
	}
	b.WriteString("package main\n\nimport (\n")
	for p := range pkgs {
		fmt.Fprintf(&b, "\t%q\n", c.module+"/"+hdir+"/"+p)
	}
	fmt.Fprintf(&b, "\t%q\n)\n\nfunc main() {\n\trt.Main(map[string]func(){\n", c.module+"/"+hdir+"/rt")
	b.WriteString(body.String())
	b.WriteString("\t})\n}\n")
	mainFile := filepath.Join(dir, "main.go")
	os.WriteFile(mainFile, []byte(b.String()), 0o644)
	ov := c.overlay()
	ov[filepath.Join(c.repo, hdir, "cmd", "main.go")] = mainFile
	c.clocks(ov, dir)
	bz, _ := json.Marshal(map[string]any{"Replace": ov})
	ovf := filepath.Join(dir, "overlay.json")
	os.WriteFile(ovf, bz, 0o644)
	bin := filepath.Join(dir, "replay")
	cmd := exec.Command(goBin(), "build", "-ldflags", "-s -w", "-overlay", ovf, "-o", bin, "./"+hdir+"/cmd")
	cmd.Dir = c.repo
	cmd.Env = append(append(os.Environ(), goEnv(c.repo)...), "CGO_ENABLED=1")
	if o, err := cmd.CombinedOutput(); err != nil {
		return nil, fmt.Errorf("build: %v\n%s", err, o)
	}
	in := filepath.Join(dir, "in.json")
	writeJSON(in, items)
	run := exec.Command(bin, in, filepath.Join(dir, "out.json"))
	run.Dir = dir
	if c.verbose {
		run.Env = append(os.Environ(), "RT_VERBOSE=1")
	}
	done := make(chan error, 1)
	var o []byte
	go func() { var e error; o, e = run.CombinedOutput(); done <- e }()
	select {
	case err = <-done:
	case <-time.After(120 * time.Second):
		run.Process.Kill()
		return nil, fmt.Errorf("replay did not end")
	}
	if err != nil {
		return nil, fmt.Errorf("run: %v\n%s", err, o)
	}
	if c.verbose {
		os.Stdout.Write(o)
	}
	var rs []result
	ob, err := os.ReadFile(filepath.Join(dir, "out.json"))
	if err != nil {
		return nil, err
	}
	if err := json.Unmarshal(ob, &rs); err != nil {
		return nil, err
	}
	if len(rs) != len(items) {
		return nil, fmt.Errorf("replay returned %d results for %d inputs", len(rs), len(items))
	}
	return rs, nil
}

func (c *config) replayFile(p string) int {
	bz, err := os.ReadFile(p)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var v violation
	if err := json.Unmarshal(bz, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	hs, err := c.harnesses()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	rs, err := c.native([]item{{Harness: v.Harness, Inputs: v.Inputs, Known: v.Known, Tier: v.Tier}}, hs)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("harness %s inputs %s\nfailed: %q\n", v.Harness, showIn(v), rs[0].Failed)
	if rs[0].Failed != "" {
		return 1
	}
	return 0
}

var _ = runtime.NumCPU

func goCache() string {
	if v := os.Getenv("SYMGO_GOCACHE"); v != "" {
		return v
	}
	return "/root/.cache/go-build"
}

// hardness tells how many queries the incremental solver could not answer.
func hardness(e *interp.Explorer) string {
	if e.Stat.Solver.Fallback+e.Stat.UnknownBranch == 0 {
		return ""
	}
	return fmt.Sprintf(" portfolio=%d undecided branches=%d", e.Stat.Solver.Fallback, e.Stat.UnknownBranch)
}
