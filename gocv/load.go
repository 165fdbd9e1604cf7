package main

import (
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/blocktree/go-owcrypt"

var repoDir = "/repo"
var verifDir = "/verif"
var scratch string

func scratchDir() string {
	if scratch == "" {
		d, err := os.MkdirTemp("", "gocv")
		if err != nil {
			panic(err)
		}
		scratch = d
	}
	return scratch
}
func cleanup() {
	if scratch != "" {
		os.RemoveAll(scratch)
	}
}

func goEnv() []string {
	mod := filepath.Join(scratchDir(), "owcrypt.mod")
	if _, err := os.Stat(mod); err != nil {
		b, err := os.ReadFile(filepath.Join(repoDir, "go.mod"))
		if err != nil {
			panic(err)
		}
		os.WriteFile(mod, b, 0644)
		s, err := os.ReadFile(filepath.Join(verifDir, "gocv", "owcrypt.sum"))
		if err != nil {
			panic(err)
		}
		os.WriteFile(filepath.Join(scratchDir(), "owcrypt.sum"), s, 0644)
	}
	var env []string
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOPROXY=") || strings.HasPrefix(e, "GOWORK=") || strings.HasPrefix(e, "GOTOOLCHAIN=") {
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOFLAGS=-mod=mod -modfile="+mod, "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0")
}

// specOverlay maps virtual files inside the module to the specification sources of /verif/spec.
func specOverlay() map[string]string {
	m := map[string]string{}
	root := filepath.Join(verifDir, "spec")
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			rel, _ := filepath.Rel(root, p)
			m[filepath.Join(repoDir, "zzspec", rel)] = p
		}
		return nil
	})
	return m
}

type Program struct {
	Prog *ssa.Program
	Pkgs map[string]*ssa.Package
}

func LoadProgram(tags string, patterns ...string) (*Program, error) {
	ov := map[string][]byte{}
	for v, p := range specOverlay() {
		b, err := os.ReadFile(p)
		if err != nil {
			return nil, err
		}
		ov[v] = b
	}
	var flags []string
	if tags != "" {
		flags = append(flags, "-tags="+tags)
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repoDir, Env: goEnv(), Overlay: ov, BuildFlags: flags}
	ps, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	P := &Program{Prog: prog, Pkgs: map[string]*ssa.Package{}}
	for _, p := range prog.AllPackages() {
		P.Pkgs[p.Pkg.Path()] = p
	}
	return P, nil
}

// Fn finds a package function or a method: "sm3.New", "(*sm3.SM3).Write" with package path relative to the module.
func (P *Program) Fn(pkg, name string) *ssa.Function {
	p := P.Pkgs[pkg]
	if p == nil {
		p = P.Pkgs[modPath+"/"+pkg]
	}
	if pkg == "." {
		p = P.Pkgs[modPath]
	}
	if p == nil {
		return nil
	}
	p.Build()
	if i := strings.Index(name, "."); i >= 0 {
		tn, mn := name[:i], name[i+1:]
		ptr := strings.HasPrefix(tn, "*")
		tn = strings.TrimPrefix(tn, "*")
		t := p.Type(tn)
		if t == nil {
			return nil
		}
		var T types.Type = t.Type()
		if ptr {
			T = types.NewPointer(T)
		}
		return P.Prog.LookupMethod(T, p.Pkg, mn)
	}
	return p.Func(name)
}

// Init runs package initialisers (of the packages the filter allows) on the base state.
func (ex *Exec) InitPkg(p *ssa.Package) {
	if ex.inited[p] {
		return
	}
	ex.inited[p] = true
	p.Build()
	f := p.Func("init")
	if f == nil {
		return
	}
	ex.initing = true
	st := ex.Base
	outs := ex.Run(f, nil, st, "init:"+p.Pkg.Path())
	ex.initing = false
	if len(outs) != 1 || outs[0].Panic != "" {
		unsup("package initialisation of %s does not complete: %v", p.Pkg.Path(), outs)
	}
	ex.Base = outs[0].St
}

func runGo(dir string, args ...string) (string, error) {
	c := exec.Command("go", args...)
	c.Dir = dir
	c.Env = goEnv()
	b, err := c.CombinedOutput()
	return string(b), err
}
