package main

import (
	"fmt"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// LoadProgram parses and type-checks the harnesses together with /repo's current working tree
// and everything they import, and builds SSA.
func LoadProgram(dir string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax | packages.NeedModule,
		Dir:  dir,
		Env:  os.Environ(),
	}
	ps, err := packages.Load(cfg, "./h")
	if err != nil {
		return nil, err
	}
	var msgs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			msgs = append(msgs, e.Error())
		}
	})
	if len(msgs) > 0 {
		return nil, fmt.Errorf("%s", strings.Join(msgs, "\n"))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	P := &Program{prog: prog, pkgs: map[string]*ssa.Package{}}
	for _, p := range prog.AllPackages() {
		P.pkgs[p.Pkg.Path()] = p
	}
	prog.Build()
	return P, nil
}

// harnesses returns the harness functions of a property: C05_Xxx.
func (p *Program) harnesses(prop string) []*ssa.Function {
	var fs []*ssa.Function
	for n, m := range p.pkgs["vharness/h"].Members {
		if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, prop+"_") {
			fs = append(fs, f)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].Name() < fs[j].Name() })
	return fs
}
