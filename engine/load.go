package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type listPkg struct {
	ImportPath string
	Dir        string
	GoFiles    []string
	Imports    []string
	ImportMap  map[string]string
	Standard   bool
	Module     *struct{ Path, GoVersion string }
	Error      *struct{ Err string }
	Incomplete bool
}

// Program is the loaded program in SSA form; shared read-only by all workers.
type Program struct {
	prog   *ssa.Program
	fset   *token.FileSet
	pkgs   map[string]*ssa.Package
	tpkgs  map[string]*types.Package
	sizes  types.Sizes
	mu     sync.Mutex
	canonM typeutil.Map
	canonP sync.Map // types.Type -> types.Type
	bodies map[string]bool

	infoMu sync.Mutex
	infos  sync.Map // *ssa.Function -> *finfo
	impl   sync.Map // implKey -> bool
	meth   sync.Map // methKey -> *ssa.Function

	order   []*listPkg
	initOK  func(path string) bool
	loadErr []string
}

type loadConfig struct {
	dir      string            // module directory
	env      []string          // environment of go list
	flags    []string          // -overlay, -modfile ...
	overlay  map[string]string // file replacements, as for go build
	patterns []string
	subst    map[string]string // import path -> directory with replacement source
	bodies   func(p *listPkg) bool
}

func loadProgram(cfg *loadConfig) (*Program, error) {
	args := append([]string{"list", "-deps", "-json=ImportPath,Dir,GoFiles,Imports,ImportMap,Standard,Module,Error,Incomplete"}, cfg.flags...)
	args = append(args, cfg.patterns...)
	cmd := exec.Command("go", args...)
	cmd.Dir = cfg.dir
	cmd.Env = cfg.env
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Run(); err != nil {
		return nil, fmt.Errorf("go list: %v\n%s", err, errb.String())
	}
	dec := json.NewDecoder(&out)
	var list []*listPkg
	byPath := map[string]*listPkg{}
	for dec.More() {
		var p listPkg
		if err := dec.Decode(&p); err != nil {
			return nil, err
		}
		if p.Error != nil {
			return nil, fmt.Errorf("go list: %s: %s", p.ImportPath, p.Error.Err)
		}
		list = append(list, &p)
		byPath[p.ImportPath] = &p
	}

	P := &Program{fset: token.NewFileSet(), pkgs: map[string]*ssa.Package{}, tpkgs: map[string]*types.Package{}, bodies: map[string]bool{}}
	P.sizes = types.SizesFor("gc", "amd64")

	type parsed struct {
		p     *listPkg
		files []*ast.File
		err   error
	}
	// substituted packages: their imports decide what is needed
	needed := map[string]bool{}
	parsedBy := map[string]*parsed{}
	parse := func(p *listPkg) *parsed {
		r := &parsed{p: p}
		dir, names := p.Dir, p.GoFiles
		var full []string
		if sd, ok := cfg.subst[p.ImportPath]; ok {
			ents, err := os.ReadDir(sd)
			if err != nil {
				r.err = err
				return r
			}
			for _, e := range ents {
				if strings.HasSuffix(e.Name(), ".go") {
					full = append(full, filepath.Join(sd, e.Name()))
				} else if strings.HasSuffix(e.Name(), ".use") {
					full = append(full, filepath.Join(dir, strings.TrimSuffix(e.Name(), ".use")+".go"))
				}
			}
		} else {
			for _, n := range names {
				if !filepath.IsAbs(n) {
					n = filepath.Join(dir, n)
				}
				full = append(full, n)
			}
		}
		for _, fn := range full {
			var src any
			if r, ok := cfg.overlay[fn]; ok {
				b, err := os.ReadFile(r)
				if err != nil {
					return &parsed{p: p, err: err}
				}
				src = b
			}
			f, err := parser.ParseFile(P.fset, fn, src, parser.SkipObjectResolution)
			if err != nil {
				r.err = err
				return r
			}
			r.files = append(r.files, f)
		}
		return r
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan struct{}, runtime.NumCPU())
	for _, p := range list {
		wg.Add(1)
		go func(p *listPkg) {
			defer wg.Done()
			sem <- struct{}{}
			r := parse(p)
			<-sem
			mu.Lock()
			parsedBy[p.ImportPath] = r
			mu.Unlock()
		}(p)
	}
	wg.Wait()

	importsOf := func(r *parsed) []string {
		m := map[string]bool{}
		for _, f := range r.files {
			for _, im := range f.Imports {
				s := strings.Trim(im.Path.Value, `"`)
				if mp, ok := r.p.ImportMap[s]; ok {
					s = mp
				}
				m[s] = true
			}
		}
		var o []string
		for s := range m {
			o = append(o, s)
		}
		sort.Strings(o)
		return o
	}
	var order []*parsed
	var visit func(path string) error
	visit = func(path string) error {
		if path == "unsafe" || path == "C" || needed[path] {
			return nil
		}
		needed[path] = true
		r := parsedBy[path]
		if r == nil {
			return fmt.Errorf("package %s not listed", path)
		}
		if r.err != nil {
			return fmt.Errorf("%s: %v", path, r.err)
		}
		for _, im := range importsOf(r) {
			if err := visit(im); err != nil {
				return fmt.Errorf("%v\n  imported by %s", err, path)
			}
		}
		order = append(order, r)
		return nil
	}
	for _, pat := range cfg.patterns {
		if err := visit(pat); err != nil {
			return nil, err
		}
	}

	prog := ssa.NewProgram(P.fset, ssa.InstantiateGenerics)
	P.prog = prog
	P.tpkgs["unsafe"] = types.Unsafe
	prog.CreatePackage(types.Unsafe, nil, nil, true)

	// type-check in parallel respecting dependencies
	type res struct {
		tp   *types.Package
		info *types.Info
		err  error
		done chan struct{}
	}
	results := map[string]*res{"unsafe": {tp: types.Unsafe, done: make(chan struct{})}}
	close(results["unsafe"].done)
	for _, r := range order {
		results[r.p.ImportPath] = &res{done: make(chan struct{})}
	}
	csem := make(chan struct{}, runtime.NumCPU())
	var cwg sync.WaitGroup
	for _, r := range order {
		cwg.Add(1)
		go func(r *parsed) {
			defer cwg.Done()
			rs := results[r.p.ImportPath]
			defer close(rs.done)
			for _, im := range importsOf(r) {
				<-results[im].done
				if results[im].err != nil {
					rs.err = results[im].err
					return
				}
			}
			csem <- struct{}{}
			defer func() { <-csem }()
			body := cfg.bodies(r.p)
			gv := ""
			if r.p.Module != nil && r.p.Module.GoVersion != "" {
				gv = "go" + r.p.Module.GoVersion
			}
			var firstErr error
			tc := &types.Config{
				GoVersion:        gv,
				IgnoreFuncBodies: !body,
				FakeImportC:      true,
				Sizes:            P.sizes,
				Importer: importerFunc(func(path string) (*types.Package, error) {
					if mp, ok := r.p.ImportMap[path]; ok {
						path = mp
					}
					q := results[path]
					if q == nil {
						return nil, fmt.Errorf("import %q not loaded", path)
					}
					return q.tp, nil
				}),
				Error: func(err error) {
					if te, ok := err.(types.Error); ok && te.Soft {
						return
					}
					if firstErr == nil {
						firstErr = err
					}
				},
			}
			if body {
				rs.info = &types.Info{
					Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
					Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
					Scopes: map[ast.Node]*types.Scope{}, Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{},
				}
			}
			rs.tp, _ = tc.Check(r.p.ImportPath, P.fset, r.files, rs.info)
			if firstErr != nil && (body || !r.p.Standard) {
				rs.err = fmt.Errorf("%s: %v", r.p.ImportPath, firstErr)
			}
		}(r)
	}
	cwg.Wait()
	for _, r := range order {
		rs := results[r.p.ImportPath]
		if rs.err != nil {
			return nil, rs.err
		}
		path := r.p.ImportPath
		P.tpkgs[path] = rs.tp
		if rs.info != nil {
			P.pkgs[path] = prog.CreatePackage(rs.tp, r.files, rs.info, true)
			P.bodies[path] = true
		} else {
			P.pkgs[path] = prog.CreatePackage(rs.tp, nil, nil, true)
		}
		P.order = append(P.order, r.p)
	}
	var bwg sync.WaitGroup
	for path, p := range P.pkgs {
		if P.bodies[path] {
			bwg.Add(1)
			go func(p *ssa.Package) { defer bwg.Done(); p.Build() }(p)
		}
	}
	bwg.Wait()
	P.canonM.SetHasher(typeutil.MakeHasher())
	return P, nil
}

type importerFunc func(path string) (*types.Package, error)

func (f importerFunc) Import(path string) (*types.Package, error) { return f(path) }

// canon returns a unique representative of an identical-type class.
func (P *Program) canon(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if c, ok := P.canonP.Load(t); ok {
		return c.(types.Type)
	}
	P.mu.Lock()
	t0 := types.Unalias(t)
	c := P.canonM.At(t0)
	if c == nil {
		P.canonM.Set(t0, t0)
		c = t0
	}
	P.mu.Unlock()
	P.canonP.Store(t, c)
	return c.(types.Type)
}
