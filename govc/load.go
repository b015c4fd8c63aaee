package main

import (
	"sort"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/chanjarster/gears"

type Program struct {
	prog *ssa.Program
	pkgs map[string]*ssa.Package // by import path
	tpk  map[string]*types.Package
	files []string
}

var repoDir = "/repo"

// driverFiles: Go files laid over the repository while it is loaded: functions that only call the real code,
// so that a contract can be stated about a sequence of public calls
var driverFiles []string

// goEnv: environment for go commands on /repo: module files are private copies
func goEnv(scratch string) []string {
	env := os.Environ()
	var out []string
	for _, e := range env {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOTOOLCHAIN", "GOPROXY", "GO111MODULE", "GOWORK", "PATH", "GOENV":
			continue
		}
		out = append(out, e)
	}
	return append(out,
		"PATH=/opt/veriftools/go1.27.3/bin:"+os.Getenv("PATH"),
		"GOTOOLCHAIN=local", "GOPROXY=off", "GO111MODULE=on", "GOWORK=off", "GOENV=off",
		"GOFLAGS=-mod=mod -modfile="+filepath.Join(scratch, "gears.mod"))
}

func prepScratch(scratch string) error {
	for _, f := range []string{"mod", "sum"} {
		b, err := os.ReadFile(filepath.Join(repoDir, "go."+f))
		if err != nil {
			return err
		}
		if err := os.WriteFile(filepath.Join(scratch, "gears."+f), b, 0644); err != nil {
			return err
		}
	}
	return nil
}

func LoadProgram(scratch string, patterns []string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedImports | packages.NeedDeps | packages.NeedExportFile | packages.NeedTypesSizes | packages.NeedModule,
		Dir:  repoDir,
		Env:  goEnv(scratch),
	}
	if len(driverFiles) > 0 {
		cfg.Overlay = map[string][]byte{}
		for _, f := range driverFiles {
			b, err := os.ReadFile(f)
			if err != nil {
				return nil, err
			}
			dir := ""
			for _, l := range strings.Split(string(b), "\n") {
				if r, ok := strings.CutPrefix(l, "// verif-pkg: "); ok {
					dir = strings.TrimSpace(r)
				}
			}
			cfg.Overlay[filepath.Join(repoDir, dir, "zz_verif_"+filepath.Base(f))] = b
		}
	}
	// in-repo closure of the patterns is loaded from source, everything else from export data
	cmd := exec.Command("go", append([]string{"list", "-deps", "-f", "{{if .Module}}{{if .Module.Main}}{{.ImportPath}}{{end}}{{end}}"}, patterns...)...)
	cmd.Dir = repoDir
	cmd.Env = cfg.Env
	outb, err := cmd.Output()
	if err != nil {
		msg := ""
		if ee, ok := err.(*exec.ExitError); ok {
			msg = string(ee.Stderr)
		}
		return nil, fmt.Errorf("go list: %v %s", err, msg)
	}
	roots := strings.Fields(string(outb))
	cfg.Mode &^= packages.NeedDeps
	pkgs, err := packages.Load(cfg, roots...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics|ssa.BuilderMode(0))
	P := &Program{prog: prog, pkgs: map[string]*ssa.Package{}, tpk: map[string]*types.Package{}}
	prog.Build()
	for _, sp := range spkgs {
		if sp != nil {
			P.pkgs[sp.Pkg.Path()] = sp
		}
	}
	for _, sp := range prog.AllPackages() {
		P.tpk[sp.Pkg.Path()] = sp.Pkg
	}
	for _, p := range pkgs {
		P.files = append(P.files, p.GoFiles...)
	}
	return P, nil
}

// inRepo: has the function a body in the repository?
func (P *Program) inRepo(f *ssa.Function) bool {
	if f == nil {
		return false
	}
	if len(f.Blocks) == 0 {
		return false
	}
	pk := f.Pkg
	if pk == nil {
		if f.Origin() != nil {
			pk = f.Origin().Pkg
		} else if f.Parent() != nil {
			return P.inRepo(f.Parent())
		}
	}
	if pk == nil {
		// wrappers and bound methods
		if f.Object() != nil && f.Object().Pkg() != nil {
			return strings.HasPrefix(f.Object().Pkg().Path(), modPath) || f.Synthetic != ""
		}
		return f.Synthetic != ""
	}
	return strings.HasPrefix(pk.Pkg.Path(), modPath)
}

// lookup a type by (possibly short) name "pkg.Name" or import path "a/b.Name"
func (P *Program) lookupType(name string) types.Type {
	i := strings.LastIndex(name, ".")
	if i < 0 {
		return nil
	}
	pk, n := name[:i], name[i+1:]
	for path, p := range P.tpk {
		if path == pk || strings.TrimPrefix(path, modPath+"/") == pk {
			if o := p.Scope().Lookup(n); o != nil {
				return o.Type()
			}
		}
	}
	for _, path := range P.pkgOrder() {
		p := P.tpk[path]
		if p.Name() == pk || strings.HasSuffix(path, "/"+pk) {
			if o := p.Scope().Lookup(n); o != nil {
				if _, ok := o.(*types.TypeName); ok {
					return o.Type()
				}
			}
		}
	}
	return nil
}

// lookup function: "pkg.F", "pkg.(*T).M", "pkg.T.M"
func (P *Program) lookupFunc(name string) *ssa.Function {
	j := strings.Index(name, ".(")
	if j >= 0 {
		pk := name[:j]
		rest := name[j+2:]
		k := strings.Index(rest, ")")
		tn := rest[:k]
		m := strings.TrimPrefix(rest[k+1:], ".")
		ptr := strings.HasPrefix(tn, "*")
		tn = strings.TrimPrefix(tn, "*")
		sp := P.pkgs[modPath+"/"+pk]
		if sp == nil {
			return nil
		}
		o := sp.Pkg.Scope().Lookup(tn)
		if o == nil {
			return nil
		}
		var t types.Type = o.Type()
		if ptr {
			t = types.NewPointer(t)
		}
		ms := P.prog.MethodSets.MethodSet(t)
		sel := ms.Lookup(sp.Pkg, m)
		if sel == nil {
			return nil
		}
		return P.prog.MethodValue(sel)
	}
	i := strings.LastIndex(name, ".")
	pk, n := name[:i], name[i+1:]
	sp := P.pkgs[modPath+"/"+pk]
	if sp == nil {
		return nil
	}
	return sp.Func(n)
}

// pkgOrder: import paths, the likeliest meaning of a short name first
func (P *Program) pkgOrder() []string {
	var ps []string
	for p := range P.tpk {
		ps = append(ps, p)
	}
	rank := func(p string) int {
		switch {
		case strings.HasPrefix(p, modPath):
			return 0
		case strings.Contains("/"+p+"/", "/internal/") || strings.HasPrefix(p, "vendor/"):
			return 2
		}
		return 1
	}
	sort.Slice(ps, func(i, j int) bool {
		a, b := rank(ps[i]), rank(ps[j])
		if a != b {
			return a < b
		}
		if len(ps[i]) != len(ps[j]) {
			return len(ps[i]) < len(ps[j])
		}
		return ps[i] < ps[j]
	})
	return ps
}
