package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// modPath is the module path of the analysed code base.
const modPath = "github.com/ldsec/unlynx"

// Prog is the loaded, type-checked program under analysis together with its
// SSA form.
type Prog struct {
	Repo  string
	Fset  *token.FileSet
	Pkgs  []*packages.Package // initial packages (the repository's own)
	ByPth map[string]*packages.Package
	SSA   *ssa.Program
	Spkgs map[string]*ssa.Package
	// Funcs are all source functions of the repository (methods and closures included).
	// stubs replace methods of the network layer in laws.
	stubs map[string]*ssa.Function
	Funcs []*ssa.Function
	byKey map[string]*ssa.Function
}

// Load type-checks every package of the repository (non-test files) with the
// build's own toolchain and flags and builds SSA for them.
func Load(repo string) (*Prog, error) { return loadWith(repo, nil) }

// loadWith also analyses files that exist only in the overlay.
func loadWith(repo string, overlay map[string][]byte) (*Prog, error) {
	tmp, err := os.MkdirTemp("", "unlynxcheck")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(repo, f))
		if err != nil {
			return nil, err
		}
		if err := os.WriteFile(filepath.Join(tmp, f), b, 0o644); err != nil {
			return nil, err
		}
	}
	env := append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off", "GO111MODULE=on", "CGO_ENABLED=0")
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:        repo,
		Env:        env,
		BuildFlags: []string{"-modfile=" + filepath.Join(tmp, "go.mod")},
		Fset:       token.NewFileSet(),
		Overlay:    overlay,
	}
	initial, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(initial, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, modPath) {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, &typeErrors{errs}
	}
	p := &Prog{Repo: repo, Fset: cfg.Fset, Pkgs: initial, ByPth: map[string]*packages.Package{}, Spkgs: map[string]*ssa.Package{}, byKey: map[string]*ssa.Function{}}
	packages.Visit(initial, nil, func(q *packages.Package) { p.ByPth[q.PkgPath] = q })
	sp, spkgs := ssautil.Packages(initial, ssa.InstantiateGenerics)
	p.SSA = sp
	for i, s := range spkgs {
		if s == nil {
			return nil, fmt.Errorf("no SSA for %s", initial[i].PkgPath)
		}
		s.Build()
		p.Spkgs[initial[i].PkgPath] = s
	}
	for fn := range ssautil.AllFunctions(sp) {
		if fn.Synthetic != "" && fn.Synthetic != "package initializer" {
			continue
		}
		if fn.Blocks == nil || fn.Pkg == nil || !strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath) {
			continue
		}
		p.Funcs = append(p.Funcs, fn)
		p.byKey[fnKey(fn)] = fn
	}
	sort.Slice(p.Funcs, func(i, j int) bool {
		if p.Funcs[i].Pos() != p.Funcs[j].Pos() {
			return p.Funcs[i].Pos() < p.Funcs[j].Pos()
		}
		return p.Funcs[i].String() < p.Funcs[j].String()
	})
	return p, nil
}

// fnKey names a function independently of its position: package-relative path,
// receiver and name, e.g. "lib.(*CipherText).Add".
func fnKey(fn *ssa.Function) string {
	s := fn.RelString(nil)
	s = strings.ReplaceAll(s, modPath+"/", "")
	return s
}

// pos renders a position relative to the repository.
func (p *Prog) pos(t token.Pos) string {
	if !t.IsValid() {
		return "?"
	}
	q := p.Fset.Position(t)
	rel, err := filepath.Rel(p.Repo, q.Filename)
	if err != nil || strings.HasPrefix(rel, "..") {
		rel = q.Filename
	}
	return fmt.Sprintf("%s:%d", rel, q.Line)
}

// inRepo tells whether a types object belongs to the analysed module.
func inRepo(pkg *types.Package) bool {
	return pkg != nil && strings.HasPrefix(pkg.Path(), modPath)
}

type typeErrors struct{ list []string }

func (e *typeErrors) Error() string { return "type check failed: " + strings.Join(e.list, "; ") }
