package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/hyp3rd/hypercache"

// Prog is the resolved program: /repo's current sources, type-checked and in SSA form.
type Prog struct {
	Repo  string
	Fset  *token.FileSet
	Pkgs  []*packages.Package
	SSA   *ssa.Program
	ByPth map[string]*ssa.Package
	TPkg  map[string]*packages.Package
	Funcs []*ssa.Function // all functions with bodies that belong to the module
}

// loadProgram type-checks every package of the module from its current source.
// The one dependency this sandbox lacks is replaced, in a throw-away copy of
// go.mod, by the stand-in under /verif/stubs.
func loadProgram(repo, stubs string) (*Prog, error) {
	tmp, err := os.MkdirTemp("", "hcverify")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)
	gm, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return nil, err
	}
	gs, err := os.ReadFile(filepath.Join(repo, "go.sum"))
	if err != nil {
		return nil, err
	}
	gm = append(gm, []byte("\nreplace github.com/hyp3rd/sectools => "+stubs+"\n")...)
	mf := filepath.Join(tmp, "go.mod")
	if err := os.WriteFile(mf, gm, 0o644); err != nil {
		return nil, err
	}
	if err := os.WriteFile(filepath.Join(tmp, "go.sum"), gs, 0o644); err != nil {
		return nil, err
	}
	env := append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0")
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedExportFile | packages.NeedDeps | packages.NeedModule,
		Dir:        repo,
		Env:        env,
		BuildFlags: []string{"-modfile=" + mf},
		Tests:      false,
	}
	if o := os.Getenv("HCV_OVERLAY"); o != "" {
		// development aid: analyse the tree with some files replaced
		var ov struct{ Replace map[string]string }
		b, err := os.ReadFile(o)
		if err == nil {
			err = json.Unmarshal(b, &ov)
		}
		if err != nil {
			return nil, err
		}
		cfg.Overlay = map[string][]byte{}
		for k, v := range ov.Replace {
			if cfg.Overlay[k], err = os.ReadFile(v); err != nil {
				return nil, err
			}
		}
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, fmt.Sprintf("%s: %v", p.PkgPath, e))
		}
	}
	if len(errs) > 0 {
		sort.Strings(errs)
		if len(errs) > 8 {
			errs = errs[:8]
		}
		return nil, fmt.Errorf("type-check: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics|ssa.GlobalDebug)
	_ = spkgs
	prog.Build()
	P := &Prog{Repo: repo, SSA: prog, Fset: prog.Fset, Pkgs: pkgs, ByPth: map[string]*ssa.Package{}, TPkg: map[string]*packages.Package{}}
	for i, p := range pkgs {
		if spkgs[i] != nil {
			P.ByPth[p.PkgPath] = spkgs[i]
		}
		P.TPkg[p.PkgPath] = p
	}
	all := ssautil.AllFunctions(prog)
	for f := range all {
		if len(f.Blocks) > 0 && inModule(f) {
			P.Funcs = append(P.Funcs, f)
		}
	}
	sort.Slice(P.Funcs, func(i, j int) bool {
		a, b := P.Funcs[i], P.Funcs[j]
		if a.String() != b.String() {
			return a.String() < b.String()
		}
		return a.Pos() < b.Pos()
	})
	return P, nil
}

func fnPkgPath(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if o := f.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Path()
	}
	if ob := f.Object(); ob != nil && ob.Pkg() != nil {
		return ob.Pkg().Path()
	}
	return ""
}

func inModule(f *ssa.Function) bool {
	p := fnPkgPath(f)
	return p == modPath || strings.HasPrefix(p, modPath+"/")
}

// pkg returns the SSA package at module-relative path rel ("" for the root).
func (P *Prog) pkg(rel string) *ssa.Package {
	p := modPath
	if rel != "" {
		p += "/" + rel
	}
	return P.ByPth[p]
}

// fn finds a package-level function.
func (P *Prog) fn(rel, name string) *ssa.Function {
	p := P.pkg(rel)
	if p == nil {
		return nil
	}
	return p.Func(name)
}

// method finds a method of a named type (value or pointer receiver).
func (P *Prog) method(rel, typ, name string) *ssa.Function {
	p := P.pkg(rel)
	if p == nil {
		return nil
	}
	t := p.Type(typ)
	if t == nil {
		return nil
	}
	for _, T := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
		ms := P.SSA.MethodSets.MethodSet(T)
		for i := 0; i < ms.Len(); i++ {
			s := ms.At(i)
			if s.Obj().Name() == name && len(s.Index()) == 1 {
				f := P.SSA.FuncValue(s.Obj().(*types.Func))
				if f != nil {
					return f
				}
			}
		}
	}
	return nil
}

func (P *Prog) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := P.Fset.Position(p)
	r, err := filepath.Rel(P.Repo, q.Filename)
	if err != nil {
		r = q.Filename
	}
	return fmt.Sprintf("%s:%d", r, q.Line)
}

func goEnvOK() error {
	_, err := exec.LookPath("go")
	return err
}
