package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"

	"verif/analyzer/vg"
)

const modPath = "github.com/Wieku/gosu-pp"

// Prog is the loaded tree.
type Prog struct {
	SSA    *ssa.Program
	Pkgs   []*packages.Package // packages of the module under test
	SPkgs  []*ssa.Package
	Pairs  []vg.Pair
	Runs   []vg.Pair // drivers without a reference
	Digest string
	Files  int
}

func load(id string, prop *Property) (*Prog, error) {
	id = strings.ToLower(id)
	overlay := map[string][]byte{}
	files, _ := filepath.Glob(filepath.Join(*refDir, id, "*.go"))
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		overlay[filepath.Join(*repoDir, hidden, id, filepath.Base(f))] = b
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: *repoDir, Tests: false, Overlay: overlay,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0")}
	pats := []string{"./..."}
	if len(files) > 0 {
		pats = append(pats, "./"+hidden+"/"+id)
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	bad := ""
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			bad += e.Error() + "\n"
		}
	})
	if bad != "" {
		return nil, fmt.Errorf("the tree with the reference drivers does not type-check:\n%s", bad)
	}
	prog, sp := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	pr := &Prog{SSA: prog}
	src := map[string][]byte{}
	for i, p := range sp {
		if p == nil {
			continue
		}
		if !strings.Contains(pkgs[i].PkgPath, hidden) {
			pr.Pkgs = append(pr.Pkgs, pkgs[i])
			pr.SPkgs = append(pr.SPkgs, p)
			for _, f := range pkgs[i].GoFiles {
				b, err := os.ReadFile(f)
				if err != nil {
					return nil, err
				}
				src[f] = b
			}
			continue
		}
		opaque, filled, calling := map[string][]string{}, map[string][]string{}, map[string]string{}
		bind, marks := map[string]vg.Bound{}, map[string]vg.Bound{}
		var all []string
		for _, f := range pkgs[i].Syntax {
			for _, cg := range f.Comments {
				for _, cm := range cg.List {
					if s, ok := strings.CutPrefix(cm.Text, "//verif:filled "); ok {
						// "//verif:filled Driver: fields" of what it is given are not empty
						n, rest, _ := strings.Cut(s, ": ")
						filled[n] = append(filled[n], strings.Fields(rest)...)
					}
					if s, ok := strings.CutPrefix(cm.Text, "//verif:bind "); ok {
						// "//verif:bind name pkg.Method": a function of the driver stands
						// for the one that takes some of what it takes and calls the method
						f := strings.Fields(s)
						w := workerOf(prog, p.Func(f[0]), f[1])
						if w == nil {
							return nil, fmt.Errorf("no single function calls %s", f[1])
						}
						bind[f[0]] = vg.Bound{To: w, Args: passed(p.Func(f[0]), w)}
					}
					if s, ok := strings.CutPrefix(cm.Text, "//verif:marks "); ok {
						// "//verif:marks Pair: name pkg.Method": the other way round
						n, rest, _ := strings.Cut(s, ": ")
						f := strings.Fields(rest)
						w := workerOf(prog, p.Func(f[0]), f[1])
						if w == nil {
							return nil, fmt.Errorf("no single function calls %s", f[1])
						}
						marks[n] = vg.Bound{To: p.Func(f[0]), From: w, Args: passed(w, p.Func(f[0]))}
					}
					if s, ok := strings.CutPrefix(cm.Text, "//verif:calling "); ok {
						// "//verif:calling Run: pkg.Method" looks into the functions
						// that others may name "@pkg.Method", on their own
						n, rest, _ := strings.Cut(s, ": ")
						calling[n] = strings.TrimSpace(rest)
					}
					if s, ok := strings.CutPrefix(cm.Text, "//verif:opaque "); ok {
						// "//verif:opaque [Pair:] names"
						if n, rest, ok := strings.Cut(s, ": "); ok {
							opaque[n] = append(opaque[n], strings.Fields(rest)...)
						} else {
							all = append(all, strings.Fields(s)...)
						}
					}
				}
			}
		}
		var names, runs []string
		for n := range p.Members {
			if strings.HasPrefix(n, "Impl_") {
				names = append(names, n[5:])
			}
			if strings.HasPrefix(n, "Run_") {
				runs = append(runs, n[4:])
			}
		}
		sort.Strings(runs)
		for _, m := range []map[string][]string{opaque} {
			for n, l := range m {
				var names []string
				for _, s := range l {
					if !strings.HasPrefix(s, "@") {
						names = append(names, s)
						continue
					}
					for _, f := range callersOf(prog, s[1:]) {
						names = append(names, f.String())
					}
				}
				m[n] = names
			}
		}
		for n, s := range calling {
			for i, f := range callersOf(prog, s) {
				r := vg.Pair{Name: n, Impl: f}
				if i > 0 {
					r.Name += fmt.Sprint(i + 1)
				}
				pr.Runs = append(pr.Runs, r)
			}
		}
		for _, n := range runs {
			pr.Runs = append(pr.Runs, vg.Pair{Name: n, Impl: p.Func("Run_" + n), Filled: filled[n], Opaque: append(append([]string{}, all...), opaque[n]...)})
		}
		sort.Strings(names)
		for _, n := range names {
			ref := p.Func("Ref_" + n)
			if ref == nil {
				return nil, fmt.Errorf("no reference for %s", n)
			}
			pr.Pairs = append(pr.Pairs, vg.Pair{Name: n, Bind: bind, Mark: marks[n], Impl: p.Func("Impl_" + n), Ref: ref, Opaque: append(append([]string{}, all...), opaque[n]...)})
		}
	}
	pr.Digest, pr.Files = digest(src), len(src)
	return pr, nil
}

// callersOf gives the functions of a package ("path/to/pkg.Method") that
// call a method through an interface, but not those that only such
// functions call.
func callersOf(prog *ssa.Program, s string) (out []*ssa.Function) {
	direct, calls := callsOf(prog, s)
	below := map[*ssa.Function]bool{}
	for f := range direct {
		reach(calls, f, below)
	}
	for f := range direct {
		if !below[f] {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return
}

// workerOf gives the function of a package whose parameters are all of types
// that those of a stub have, and below which all the functions are that call a
// method: the innermost one of those that only take the first, or else the
// outermost of those that take it, or else the outermost of the others.
func workerOf(prog *ssa.Program, stub *ssa.Function, s string) *ssa.Function {
	direct, calls := callsOf(prog, s)
	var fs [3][]*ssa.Function
	below := map[*ssa.Function]map[*ssa.Function]bool{}
	for f := range calls {
		args := passed(stub, f)
		if !complete(args) {
			continue
		}
		below[f] = map[*ssa.Function]bool{}
		reach(calls, f, below[f])
		all := len(direct) > 0
		for g := range direct {
			all = all && (g == f || below[f][g])
		}
		if !all {
			continue
		}
		i := 2
		for _, a := range args {
			if a == 0 {
				i = min(1, len(args)-1)
			}
		}
		fs[i] = append(fs[i], f)
	}
	// the first of those that are above or below one another
	pick := func(fs []*ssa.Function, above func(f, g *ssa.Function) bool) *ssa.Function {
		for _, f := range fs {
			ok := true
			for _, g := range fs {
				ok = ok && (f == g || above(f, g))
			}
			if ok {
				return f
			}
		}
		return nil
	}
	if len(fs[0]) > 0 {
		return pick(fs[0], func(f, g *ssa.Function) bool { return below[g][f] })
	}
	if len(fs[1]) == 0 {
		fs[1] = fs[2]
	}
	return pick(fs[1], func(f, g *ssa.Function) bool { return below[f][g] })
}

// passed gives for each parameter of a function the one of another that has
// its type, or -1.
func passed(from, to *ssa.Function) []int {
	out := make([]int, len(to.Params))
	for j, q := range to.Params {
		out[j] = -1
		for i, p := range from.Params {
			if types.Identical(p.Type(), q.Type()) {
				out[j] = i
			}
		}
	}
	return out
}

// complete: each argument is there and once only.
func complete(args []int) bool {
	seen := map[int]bool{-1: true}
	for _, a := range args {
		if seen[a] {
			return false
		}
		seen[a] = true
	}
	return true
}

// reach adds what a function calls, directly or not.
func reach(calls map[*ssa.Function]map[*ssa.Function]bool, f *ssa.Function, to map[*ssa.Function]bool) {
	for g := range calls[f] {
		if !to[g] {
			to[g] = true
			reach(calls, g, to)
		}
	}
}

// callsOf gives the functions of a package ("path/to/pkg.Method") that call
// a method through an interface, and which functions each of them calls.
func callsOf(prog *ssa.Program, s string) (direct map[*ssa.Function]bool, calls map[*ssa.Function]map[*ssa.Function]bool) {
	i := strings.LastIndex(s, ".")
	pkg, method := s[:i], s[i+1:]
	direct, calls = map[*ssa.Function]bool{}, map[*ssa.Function]map[*ssa.Function]bool{}
	for f := range ssautil.AllFunctions(prog) {
		if f.Pkg == nil || f.Pkg.Pkg.Path() != pkg || f.Parent() != nil {
			continue
		}
		calls[f] = map[*ssa.Function]bool{}
		for _, g := range append([]*ssa.Function{f}, f.AnonFuncs...) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					if m := c.Common(); m.IsInvoke() && m.Method.Name() == method {
						direct[f] = true
					} else if h := m.StaticCallee(); h != nil {
						calls[f][h] = true
					}
				}
			}
		}
	}
	return
}
