package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// buildEnv returns the environment used for every go command on the
// repository.  modfile is a private copy of /repo's go.mod.
func buildEnv(modfile string) []string {
	env := os.Environ()
	out := env[:0:0]
	for _, e := range env {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOPROXY=") || strings.HasPrefix(e, "GOTOOLCHAIN=") || strings.HasPrefix(e, "GOWORK=") {
			continue
		}
		out = append(out, e)
	}
	return append(out, "GOTOOLCHAIN=local", "GOPROXY=off", "GOSUMDB=off", "GOWORK=off", "CGO_ENABLED=0", "GOFLAGS=-mod=mod -modfile="+modfile)
}

func copyMod(repo, dir string) (string, error) {
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(repo, f))
		if err != nil {
			return "", err
		}
		if err := os.WriteFile(filepath.Join(dir, f), b, 0o644); err != nil {
			return "", err
		}
	}
	return filepath.Join(dir, "go.mod"), nil
}

// overlayFiles maps virtual files under repo to harness files under hdir.
// Harness layout: hdir/<pkg>/*.go  ->  repo/internal/<pkg>/zz_verif_*.go.
func overlayFiles(repo, hdir string, only map[string]bool) (map[string]string, error) {
	m := map[string]string{}
	ents, err := os.ReadDir(hdir)
	if err != nil {
		return nil, err
	}
	for _, d := range ents {
		if !d.IsDir() {
			continue
		}
		fs, _ := filepath.Glob(filepath.Join(hdir, d.Name(), "*.go"))
		for _, f := range fs {
			base := filepath.Base(f)
			if d.Name() == "vk" || d.Name() == "vkspec" {
				m[filepath.Join(repo, "internal", d.Name(), base)] = f
				continue
			}
			if only != nil && !strings.HasPrefix(base, "common") && !only[key(base)] {
				continue
			}
			m[filepath.Join(repo, "internal", d.Name(), "zz_verif_"+base)] = f
		}
	}
	return m, nil
}

// key is the property a harness file belongs to, or GROUPx for files shared by
// the properties whose identifier starts with x.
func key(base string) string {
	return strings.ToUpper(strings.SplitN(strings.TrimSuffix(base, ".go"), "_", 2)[0])
}

type Loaded struct {
	prog *ssa.Program
	pkgs []*ssa.Package
	fset *token.FileSet
}

func load(repo, modfile string, files map[string]string) (*Loaded, error) {
	ov := map[string][]byte{}
	for v, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		ov[v] = b
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedExportFile | packages.NeedModule,
		Dir:     repo,
		Overlay: ov,
		Env:     buildEnv(modfile),
	}
	pats := map[string]bool{}
	for v := range files {
		pats["./"+strings.TrimPrefix(filepath.Dir(v), repo+"/")] = true
	}
	var args []string
	for p := range pats {
		args = append(args, p)
	}
	args = append(args, "./...")
	sort.Strings(args)
	pk, err := packages.Load(cfg, args...)
	if err != nil {
		return nil, err
	}
	for _, p := range pk {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
	}
	prog, ps := ssautil.Packages(pk, ssa.InstantiateGenerics)
	prog.Build()
	l := &Loaded{prog: prog, fset: prog.Fset}
	for _, p := range ps {
		if p != nil {
			l.pkgs = append(l.pkgs, p)
		}
	}
	return l, nil
}

// newExec builds an executor with the packages' initialisers executed.
func newExec(l *Loaded, deadline time.Time, maxLoop int) (*Exec, *State) {
	ex := &Exec{prog: l.prog, fset: l.fset, solver: newSolver(), globals: map[*ssa.Global]*PtrV{}, infos: map[*ssa.Function]*fnInfo{}, branchTime: map[*ssa.If]time.Duration{}, maxLoop: 1 << 30, deadline: deadline}
	curWhere = func() string { return ex.where(ex.curPos, ex.curFn) }
	st := newState()
	for _, p := range l.pkgs {
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok {
				ex.globals[g] = st.alloc(zero(g.Type().Underlying().(*types.Pointer).Elem()))
			}
		}
	}
	ex.initing = true
	done := map[*ssa.Package]bool{}
	byPath := map[string]*ssa.Package{}
	for _, p := range l.pkgs {
		byPath[p.Pkg.Path()] = p
	}
	var visit func(p *ssa.Package)
	visit = func(p *ssa.Package) {
		if done[p] {
			return
		}
		done[p] = true
		for _, im := range p.Pkg.Imports() {
			if q := byPath[im.Path()]; q != nil {
				visit(q)
			}
		}
		fn := p.Func("init")
		if fn == nil || fn.Blocks == nil {
			return
		}
		if !strings.HasPrefix(p.Pkg.Path(), modPath) || strings.HasSuffix(p.Pkg.Path(), "/vk") {
			return
		}
		outs := ex.call(fn, nil, nil, st)
		if len(outs) != 1 || outs[0].panic {
			panic(inconclusive("package initialiser of " + p.Pkg.Path() + " did not complete normally"))
		}
		st = outs[0].st
	}
	for _, p := range l.pkgs {
		visit(p)
	}
	ex.initing = false
	ex.maxLoop = maxLoop
	return ex, st
}
