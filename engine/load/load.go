// Package load reads the Go packages under test (and everything they import)
// from source, through the go command's own view of the build, and type-checks
// them.  Function bodies are kept only for packages the interpreter may enter.
package load

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
)

type Pkg struct {
	ImportPath string
	Name       string
	Dir        string
	GoFiles    []string
	Imports    []string
	ImportMap  map[string]string
	Standard   bool
	Module     *struct{ Path, GoVersion string }
	Error      *struct{ Err string }
	DepsErrors []*struct{ Err string }

	Bodies bool
	Files  []*ast.File
	Types  *types.Package
	Info   *types.Info
	deps   []*Pkg
	done   chan struct{}
	Errs   []error
}

type Config struct {
	Dir      string            // directory to run go list in
	Patterns []string          // root packages
	Overlay  map[string]string // real path -> replacement file (go build -overlay)
	Tags     string
	Go       string // go command
	Env      []string
	Bodies   func(path string, std bool) bool
	Strict   func(path string) bool // packages whose type errors are fatal
}

type Result struct {
	Fset *token.FileSet
	Pkgs map[string]*Pkg
	Roots []*Pkg
	Order []*Pkg
}

func Load(cfg Config) (*Result, error) {
	args := []string{"list", "-deps", "-e", "-json=ImportPath,Name,Dir,GoFiles,Imports,ImportMap,Standard,Module,Error"}
	if cfg.Tags != "" {
		args = append(args, "-tags", cfg.Tags)
	}
	if len(cfg.Overlay) > 0 {
		f, err := os.CreateTemp("", "symgo-overlay-*.json")
		if err != nil {
			return nil, err
		}
		defer os.Remove(f.Name())
		json.NewEncoder(f).Encode(map[string]any{"Replace": cfg.Overlay})
		f.Close()
		args = append(args, "-overlay", f.Name())
	}
	args = append(args, cfg.Patterns...)
	if cfg.Go == "" {
		cfg.Go = "go"
	}
	cmd := exec.Command(cfg.Go, args...)
	cmd.Dir = cfg.Dir
	cmd.Env = append(os.Environ(), cfg.Env...)
	cmd.Env = append(cmd.Env, "CGO_ENABLED=0")
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Run(); err != nil {
		return nil, fmt.Errorf("go list: %v\n%s", err, errb.String())
	}
	res := &Result{Fset: token.NewFileSet(), Pkgs: map[string]*Pkg{}}
	dec := json.NewDecoder(&out)
	for dec.More() {
		p := new(Pkg)
		if err := dec.Decode(p); err != nil {
			return nil, err
		}
		if p.Error != nil {
			return nil, fmt.Errorf("%s: %s", p.ImportPath, p.Error.Err)
		}
		p.Bodies = cfg.Bodies == nil || cfg.Bodies(p.ImportPath, p.Standard)
		p.done = make(chan struct{})
		res.Pkgs[p.ImportPath] = p
		res.Order = append(res.Order, p)
	}
	// parse everything in parallel
	sem := make(chan struct{}, runtime.NumCPU())
	var wg sync.WaitGroup
	var mu sync.Mutex
	var firstErr error
	fail := func(err error) {
		mu.Lock()
		if firstErr == nil {
			firstErr = err
		}
		mu.Unlock()
	}
	for _, p := range res.Order {
		if p.ImportPath == "unsafe" {
			p.Types = types.Unsafe
			close(p.done)
			continue
		}
		for _, imp := range p.Imports {
			if m, ok := p.ImportMap[imp]; ok {
				imp = m
			}
			if imp == "C" {
				continue
			}
			d := res.Pkgs[imp]
			if d == nil {
				return nil, fmt.Errorf("%s: missing import %s", p.ImportPath, imp)
			}
			p.deps = append(p.deps, d)
		}
	}
	for _, p := range res.Order {
		if p.Types != nil {
			continue
		}
		p := p
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			mode := parser.SkipObjectResolution
			for _, gf := range p.GoFiles {
				path := gf
				if !filepath.IsAbs(path) {
					path = filepath.Join(p.Dir, gf)
				}
				rd := path
				if o, ok := cfg.Overlay[path]; ok {
					rd = o
				}
				src, err := os.ReadFile(rd)
				if err != nil {
					fail(err)
					continue
				}
				f, err := parser.ParseFile(res.Fset, path, src, mode)
				if err != nil {
					fail(err)
				}
				if f != nil {
					p.Files = append(p.Files, f)
				}
			}
			<-sem
			for _, d := range p.deps {
				<-d.done
			}
			sem <- struct{}{}
			check(res, p)
			<-sem
			close(p.done)
		}()
	}
	wg.Wait()
	if firstErr != nil {
		return nil, firstErr
	}
	for _, p := range res.Order {
		if p.Bodies && len(p.Errs) > 0 && (cfg.Strict == nil || cfg.Strict(p.ImportPath)) {
			var b strings.Builder
			for i, e := range p.Errs {
				if i > 5 {
					break
				}
				fmt.Fprintf(&b, "  %v\n", e)
			}
			return nil, fmt.Errorf("type errors in %s:\n%s", p.ImportPath, b.String())
		}
	}
	return res, nil
}

type importerFn func(string) (*types.Package, error)

func (f importerFn) Import(path string) (*types.Package, error) { return f(path) }

func check(res *Result, p *Pkg) {
	conf := types.Config{
		Importer: importerFn(func(path string) (*types.Package, error) {
			if m, ok := p.ImportMap[path]; ok {
				path = m
			}
			d := res.Pkgs[path]
			if d == nil || d.Types == nil {
				return nil, fmt.Errorf("no package %s", path)
			}
			return d.Types, nil
		}),
		IgnoreFuncBodies: !p.Bodies,
		Error:            func(err error) { p.Errs = append(p.Errs, err) },
		Sizes:            types.SizesFor("gc", "amd64"),
		FakeImportC:      true,
	}
	if p.Module != nil && p.Module.GoVersion != "" {
		v := p.Module.GoVersion
		conf.GoVersion = "go" + v
	}
	p.Info = &types.Info{
		Types:        map[ast.Expr]types.TypeAndValue{},
		Instances:    map[*ast.Ident]types.Instance{},
		Defs:         map[*ast.Ident]types.Object{},
		Uses:         map[*ast.Ident]types.Object{},
		Implicits:    map[ast.Node]types.Object{},
		Selections:   map[*ast.SelectorExpr]*types.Selection{},
		Scopes:       map[ast.Node]*types.Scope{},
		FileVersions: map[*ast.File]string{},
	}
	sort.SliceStable(p.Files, func(i, j int) bool {
		return res.Fset.Position(p.Files[i].Package).Filename < res.Fset.Position(p.Files[j].Package).Filename
	})
	tp, _ := conf.Check(p.ImportPath, res.Fset, p.Files, p.Info)
	p.Types = tp
}
