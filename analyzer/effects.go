package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/eff"
)

const (
	inputWriteText  = "Points-to analysis from every exported function of performance/osu: no store, map update, append, copy or library call in any function they can reach changes memory reachable from their arguments (the receiver of a method excepted)."
	sharedWriteText = "Points-to analysis from every exported function and every method of the module: no instruction outside of package initialisation changes memory reachable from a package-level variable."
	orderText       = "No reachable function starts goroutines, uses channels, iterates over maps, converts between pointers and addresses, prints addresses, or calls library functions that depend on time, randomness, the environment or the state of the process."
)

func ownPkg(p *types.Package) bool {
	return p != nil && (p.Path() == modPath || strings.HasPrefix(p.Path(), modPath+"/")) && !strings.Contains(p.Path(), hidden)
}

// entries gives the functions the users of a package can call.
func entries(p *ssa.Package, methodsOfAll bool) (out []*ssa.Function) {
	var names []string
	for n := range p.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	seen := map[*ssa.Function]bool{}
	add := func(f *ssa.Function) {
		if f != nil && len(f.Blocks) > 0 && !seen[f] {
			seen[f] = true
			out = append(out, f)
		}
	}
	for _, n := range names {
		switch m := p.Members[n].(type) {
		case *ssa.Function:
			if m.Object() != nil && m.Object().Exported() {
				add(m)
			}
		case *ssa.Type:
			if !methodsOfAll && !m.Object().Exported() || types.IsInterface(m.Type()) {
				continue
			}
			if nt, ok := m.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			ms := p.Prog.MethodSets.MethodSet(types.NewPointer(m.Type()))
			for i := 0; i < ms.Len(); i++ {
				if ms.At(i).Obj().Exported() || methodsOfAll {
					f := p.Prog.MethodValue(ms.At(i))
					if f != nil && f.Synthetic == "" {
						add(f)
					}
				}
			}
		}
	}
	return
}

// forTests tells of a package of test helpers.
func forTests(p *types.Package) bool {
	for _, i := range p.Imports() {
		if i.Path() == "testing" {
			return true
		}
	}
	return false
}

func run(p *Prog, pkgs []*ssa.Package, methodsOfAll bool, guard bool) (*eff.Analysis, int) {
	a := eff.New(p.SSA, ownPkg)
	for _, x := range p.SPkgs {
		if f := x.Func("init"); f != nil {
			a.Root(f, "init", func(int, *ssa.Parameter) *eff.Obj { return nil })
		}
	}
	n := 0
	for _, x := range pkgs {
		if forTests(x.Pkg) {
			continue
		}
		for _, f := range entries(x, methodsOfAll) {
			n++
			recv := f.Signature.Recv() != nil
			a.Root(f, fmt.Sprintf("r%d", n), func(i int, q *ssa.Parameter) *eff.Obj {
				return a.NewInput(fmt.Sprintf("what %s of %s refers to", q.Name(), short(f)), guard && !(recv && i == 0))
			})
		}
	}
	a.Solve()
	return a, n
}

func short(f *ssa.Function) string {
	return strings.ReplaceAll(f.String(), modPath+"/", "")
}

// perFunction makes an obligation for every function from what was found in it.
func perFunction(p *Prog, a *eff.Analysis, rule string, found map[*ssa.Function][]string, undecided map[*ssa.Function]bool, stats map[*ssa.Function]map[string]any) (obs []*Obligation) {
	for _, f := range a.Funcs() {
		o := &Obligation{Rule: rule, Construct: short(f), OK: true, Funcs: []string{short(f)}, Stats: stats[f]}
		if l := found[f]; len(l) > 0 {
			sort.Strings(l)
			o.OK = false
			o.Undecided = undecided[f]
			o.Pos = p.SSA.Fset.Position(f.Pos()).String()
			o.Detail = strings.Join(l, "\n")
		}
		obs = append(obs, o)
	}
	return
}

// unknowns collects what the analysis could not follow; it makes every rule undecided.
func unknowns(p *Prog, a *eff.Analysis, rules map[string]bool, found map[*ssa.Function][]string, und map[*ssa.Function]bool) {
	for i := range a.Issues {
		if rules[i.Rule] {
			found[i.Fn] = append(found[i.Fn], fmt.Sprintf("%s: %s", p.SSA.Fset.Position(i.Pos), i.Text))
			if i.Undecided {
				und[i.Fn] = true
			}
		}
	}
}

func writesTo(p *Prog, a *eff.Analysis, bad func(*eff.Obj) bool) (map[*ssa.Function][]string, map[*ssa.Function]map[string]any) {
	found := map[*ssa.Function][]string{}
	stats := map[*ssa.Function]map[string]any{}
	for w, os := range a.Writes {
		if stats[w.Fn] == nil {
			stats[w.Fn] = map[string]any{"writes": 0}
		}
		stats[w.Fn]["writes"] = stats[w.Fn]["writes"].(int) + 1
		var names []string
		for o := range os {
			if bad(o) {
				names = append(names, o.Name)
			}
		}
		if len(names) > 0 {
			sort.Strings(names)
			found[w.Fn] = append(found[w.Fn], fmt.Sprintf("%s: %s changes %s", p.SSA.Fset.Position(w.Pos), w.How, strings.Join(names, ", ")))
		}
	}
	return found, stats
}

func inputWrites(p *Prog) []*Obligation {
	var pkgs []*ssa.Package
	for _, x := range p.SPkgs {
		if x.Pkg.Path() == modPath+"/performance/osu" {
			pkgs = append(pkgs, x)
		}
	}
	a, n := run(p, pkgs, false, true)
	if len(pkgs) == 0 || n < 5 {
		return []*Obligation{{Rule: "input-write", Construct: "performance/osu", Undecided: true, Detail: "the calculations were not found"}}
	}
	found, stats := writesTo(p, a, func(o *eff.Obj) bool { return o.Guard })
	und := map[*ssa.Function]bool{}
	unknowns(p, a, map[string]bool{"unknown": true, "unknown-call": true}, found, und)
	return perFunction(p, a, "input-write", found, und, stats)
}

func sharedWrites(p *Prog) []*Obligation {
	a, n := run(p, p.SPkgs, true, false)
	if n < 20 {
		return []*Obligation{{Rule: "shared-write", Construct: modPath, Undecided: true, Detail: "the library was not found"}}
	}
	shared := a.Shared()
	found, stats := writesTo(p, a, func(o *eff.Obj) bool { return shared[o] })
	und := map[*ssa.Function]bool{}
	unknowns(p, a, map[string]bool{"unknown": true, "unknown-call": true}, found, und)
	obs := perFunction(p, a, "shared-write", found, und, stats)
	found, und = map[*ssa.Function][]string{}, map[*ssa.Function]bool{}
	unknowns(p, a, map[string]bool{"concurrency": true, "map-order": true, "address": true, "outside": true}, found, und)
	return append(obs, perFunction(p, a, "deterministic", found, und, nil)...)
}
