// Package eff finds what the functions of a program can write: a points-to
// analysis of the SSA form (inclusion based, field sensitive, with the last
// call sites as context) names the memory every store can reach.
package eff

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type objKind int

const (
	Input  objKind = iota // memory given by the caller
	Global                // a package-level variable
	Local                 // allocated during the call
	Ext                   // made by a library function
	Fn                    // a function value
)

// An Obj is a set of memory cells the analysis does not tell apart further
// than by their path.
type Obj struct {
	Kind  objKind
	Name  string
	Guard bool // Input: must not be written
	fn    *ssa.Function
	nfree int
}

type elem struct {
	o    *Obj
	path string
	dyn  types.Type // what an interface holds; nil outside of interfaces and where anything is possible
}

type set map[elem]bool

type cellKey struct {
	o    *Obj
	path string
}

type nodeKey struct {
	ctx  string
	v    ssa.Value
	path string
}

type objKey struct {
	ctx  string
	site any
	kind string
}

// A Write is an instruction that changes memory.
type Write struct {
	Fn  *ssa.Function
	Pos token.Pos
	How string
}

// An Issue is a construct the rules do not allow or cannot judge.
type Issue struct {
	Rule, Text string
	Fn         *ssa.Function
	Pos        token.Pos
	Undecided  bool
}

type frame struct {
	fn  *ssa.Function
	ctx string
}

// Analysis is one run from a set of roots.
type Analysis struct {
	Prog    *ssa.Program
	Own     func(*types.Package) bool // packages whose code is analysed
	Depth   int
	cells   map[cellKey]set
	nodes   map[nodeKey]set
	rets    map[nodeKey]set // results by function, ctx and path
	objs    map[objKey]*Obj
	frames  map[frame]bool
	order   []frame
	changed bool
	final   bool
	cur     string // context of the instruction at hand
	leaves  map[types.Type][]string
	values  []*ssa.Function
	siteIDs map[any]int
	impls   map[string][]types.Type

	Writes map[Write]map[*Obj]string // final pass: every object an instruction writes, with the path
	Issues map[Issue]bool
	Calls  int
	Passes int
}

func New(p *ssa.Program, own func(*types.Package) bool) *Analysis {
	return &Analysis{Prog: p, Own: own, Depth: 2, cells: map[cellKey]set{}, nodes: map[nodeKey]set{}, rets: map[nodeKey]set{},
		objs: map[objKey]*Obj{}, frames: map[frame]bool{}, leaves: map[types.Type][]string{}, siteIDs: map[any]int{}, impls: map[string][]types.Type{},
		Writes: map[Write]map[*Obj]string{}, Issues: map[Issue]bool{}}
}

// Root adds an entry point; give tells the object behind each parameter.
func (a *Analysis) Root(f *ssa.Function, ctx string, give func(i int, p *ssa.Parameter) *Obj) {
	for i, p := range f.Params {
		o := give(i, p)
		if o == nil {
			continue
		}
		for _, q := range a.leavesOf(p.Type()) {
			a.add(a.nodes, nodeKey{ctx, p, q}, elem{o: o})
		}
	}
	a.reach(f, ctx)
}

// NewInput makes an object for memory given by the caller.
func (a *Analysis) NewInput(name string, guard bool) *Obj {
	return &Obj{Kind: Input, Name: name, Guard: guard}
}

func (a *Analysis) add(m map[nodeKey]set, k nodeKey, e elem) {
	s := m[k]
	if s == nil {
		s = set{}
		m[k] = s
	}
	if !s[e] {
		s[e] = true
		a.changed = true
	}
}

func (a *Analysis) addCell(o *Obj, path string, e elem) {
	if o.Kind == Input || o.Kind == Ext {
		path = "*"
	}
	k := cellKey{o, path}
	s := a.cells[k]
	if s == nil {
		s = set{}
		a.cells[k] = s
	}
	if !s[e] {
		s[e] = true
		a.changed = true
	}
}

// Solve runs to a fixed point and collects writes and issues.
func (a *Analysis) Solve() {
	for {
		a.Passes++
		a.changed = false
		for i := 0; i < len(a.order); i++ {
			a.function(a.order[i])
		}
		if !a.changed {
			break
		}
	}
	a.final = true
	for i := 0; i < len(a.order); i++ {
		a.function(a.order[i])
	}
	if a.changed {
		panic("eff: no fixed point")
	}
}

// Funcs gives the functions that can run.
func (a *Analysis) Funcs() []*ssa.Function {
	m := map[*ssa.Function]bool{}
	var out []*ssa.Function
	for _, f := range a.order {
		if !m[f.fn] {
			m[f.fn] = true
			out = append(out, f.fn)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// Shared gives the objects reachable from package-level variables.
func (a *Analysis) Shared() map[*Obj]bool {
	m := map[*Obj]bool{}
	for _, o := range a.objs {
		if o.Kind == Global {
			m[o] = true
		}
	}
	for {
		n := len(m)
		for k, s := range a.cells {
			if m[k.o] {
				for e := range s {
					if e.o.Kind != Input && e.o.Kind != Fn {
						m[e.o] = true
					}
				}
			}
		}
		if len(m) == n {
			return m
		}
	}
}

func (a *Analysis) reach(f *ssa.Function, ctx string) {
	k := frame{f, ctx}
	if !a.frames[k] {
		a.frames[k] = true
		a.order = append(a.order, k)
		a.changed = true
	}
}

func (a *Analysis) id(site any) string {
	n, ok := a.siteIDs[site]
	if !ok {
		n = len(a.siteIDs) + 1
		a.siteIDs[site] = n
	}
	return fmt.Sprint(n)
}

// sub is the context of a call.
func (a *Analysis) sub(ctx string, site any) string {
	head, rest := "", ctx
	if strings.HasPrefix(ctx, "init") {
		head, rest = "init", ctx[4:]
	}
	parts := strings.Split(rest, "/")
	if rest == "" {
		parts = nil
	}
	parts = append(parts, a.id(site))
	if len(parts) > a.Depth {
		parts = parts[len(parts)-a.Depth:]
	}
	return head + strings.Join(parts, "/")
}

func (a *Analysis) obj(ctx string, site any, kind string, k objKind, name string) *Obj {
	key := objKey{ctx, site, kind}
	o := a.objs[key]
	if o == nil {
		o = &Obj{Kind: k, Name: name}
		a.objs[key] = o
	}
	return o
}

func (a *Analysis) where(p token.Pos) string {
	x := a.Prog.Fset.Position(p)
	if i := strings.LastIndex(x.Filename, "/"); i >= 0 {
		x.Filename = x.Filename[i+1:]
	}
	return fmt.Sprintf("%s:%d", x.Filename, x.Line)
}

// leavesOf gives the paths of the references in a value of type t.
func (a *Analysis) leavesOf(t types.Type) []string {
	if l, ok := a.leaves[t]; ok {
		return l
	}
	var out []string
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		out = []string{""}
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			out = []string{""}
		}
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			for _, q := range a.leavesOf(u.Field(i).Type()) {
				out = append(out, fmt.Sprintf(".%d%s", i, q))
			}
		}
	case *types.Array:
		for _, q := range a.leavesOf(u.Elem()) {
			out = append(out, "[]"+q)
		}
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			for _, q := range a.leavesOf(u.At(i).Type()) {
				out = append(out, fmt.Sprintf("#%d%s", i, q))
			}
		}
	default:
		out = []string{""}
	}
	a.leaves[t] = out
	return out
}

// val gives what the reference at a path of a value can be.
func (a *Analysis) val(ctx string, v ssa.Value, path string) set {
	switch v := v.(type) {
	case *ssa.Const, *ssa.Builtin:
		return nil
	case *ssa.Global:
		return set{elem{o: a.global(v)}: true}
	case *ssa.Function:
		return set{elem{o: a.fnObj(v)}: true}
	}
	return a.nodes[nodeKey{ctx, v, path}]
}

func (a *Analysis) global(v *ssa.Global) *Obj {
	return a.obj("", v, "global", Global, v.String())
}

func (a *Analysis) fnObj(f *ssa.Function) *Obj {
	o := a.obj("", f, "func", Fn, f.String())
	o.fn = f
	return o
}

func summary(o *Obj) bool { return o.Kind == Input || o.Kind == Ext }

// at is the address of a part.
func at(e elem, p string) elem {
	if summary(e.o) {
		return elem{o: e.o}
	}
	return elem{o: e.o, path: e.path + p}
}

func (a *Analysis) set(ctx string, v ssa.Value, path string, s set) {
	for e := range s {
		a.add(a.nodes, nodeKey{ctx, v, path}, e)
	}
}

// load gives the reference kept at an address.
func (a *Analysis) load(e elem, path string) set {
	if summary(e.o) {
		r := set{elem{o: e.o}: true}
		for x := range a.cells[cellKey{e.o, "*"}] {
			r[x] = true
		}
		return r
	}
	return a.cells[cellKey{e.o, e.path + path}]
}

func (a *Analysis) issue(rule string, in ssa.Instruction, undecided bool, f string, args ...any) {
	if a.final {
		pos := in.Pos()
		a.Issues[Issue{rule, fmt.Sprintf(f, args...), in.Parent(), pos, undecided}] = true
	}
}

func (a *Analysis) write(in ssa.Instruction, how string, e elem) {
	if !a.final || strings.HasPrefix(a.cur, "init") {
		return
	}
	w := Write{in.Parent(), in.Pos(), how}
	if a.Writes[w] == nil {
		a.Writes[w] = map[*Obj]string{}
	}
	a.Writes[w][e.o] = e.path
}

func (a *Analysis) store(e elem, path string, s set) {
	for x := range s {
		a.addCell(e.o, e.path+path, x)
	}
}

func (a *Analysis) function(f frame) {
	fn, ctx := f.fn, f.ctx
	a.cur = ctx
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			a.instr(fn, ctx, in)
		}
	}
}

func (a *Analysis) copyAll(ctx string, dst, src ssa.Value) {
	for _, q := range a.leavesOf(dst.Type()) {
		a.set(ctx, dst, q, a.val(ctx, src, q))
	}
}

func (a *Analysis) instr(fn *ssa.Function, ctx string, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.Alloc:
		o := a.obj(ctx, in, "", Local, "the variable at "+a.where(in.Pos()))
		a.add(a.nodes, nodeKey{ctx, in, ""}, elem{o: o})
	case *ssa.MakeSlice, *ssa.MakeMap:
		v := in.(ssa.Value)
		o := a.obj(ctx, in, "", Local, "the memory made at "+a.where(v.Pos()))
		a.add(a.nodes, nodeKey{ctx, v, ""}, elem{o: o})
	case *ssa.MakeChan:
		a.issue("concurrency", in, false, "makes a channel")
	case *ssa.Go:
		a.issue("concurrency", in, false, "starts a goroutine")
		a.call(fn, ctx, in, in.Common(), nil)
	case *ssa.Send:
		a.issue("concurrency", in, false, "sends on a channel")
	case *ssa.Select:
		a.issue("concurrency", in, false, "selects between channels")
	case *ssa.MakeClosure:
		o := a.obj(ctx, in, "", Fn, in.Fn.String())
		o.fn = in.Fn.(*ssa.Function)
		for i, b := range in.Bindings {
			for _, q := range a.leavesOf(b.Type()) {
				for e := range a.val(ctx, b, q) {
					a.addCell(o, fmt.Sprintf("%d:%s", i, q), e)
				}
			}
		}
		a.add(a.nodes, nodeKey{ctx, in, ""}, elem{o: o})
	case *ssa.Store:
		for e := range a.val(ctx, in.Addr, "") {
			a.write(in, "a store", e)
			for _, q := range a.leavesOf(in.Val.Type()) {
				a.store(e, q, a.val(ctx, in.Val, q))
			}
		}
	case *ssa.MapUpdate:
		for e := range a.val(ctx, in.Map, "") {
			a.write(in, "a map update", e)
			for _, q := range a.leavesOf(in.Key.Type()) {
				a.store(e, "[k]"+q, a.val(ctx, in.Key, q))
			}
			for _, q := range a.leavesOf(in.Value.Type()) {
				a.store(e, "[v]"+q, a.val(ctx, in.Value, q))
			}
		}
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			for e := range a.val(ctx, in.X, "") {
				for _, q := range a.leavesOf(in.Type()) {
					a.set(ctx, in, q, a.load(e, q))
				}
			}
		case token.ARROW:
			a.issue("concurrency", in, false, "receives from a channel")
		}
	case *ssa.FieldAddr:
		for e := range a.val(ctx, in.X, "") {
			a.add(a.nodes, nodeKey{ctx, in, ""}, at(e, fmt.Sprintf(".%d", in.Field)))
		}
	case *ssa.IndexAddr:
		for e := range a.val(ctx, in.X, "") {
			a.add(a.nodes, nodeKey{ctx, in, ""}, at(e, "[]"))
		}
	case *ssa.Field:
		for _, q := range a.leavesOf(in.Type()) {
			a.set(ctx, in, q, a.val(ctx, in.X, fmt.Sprintf(".%d%s", in.Field, q)))
		}
	case *ssa.Index:
		for _, q := range a.leavesOf(in.Type()) {
			a.set(ctx, in, q, a.val(ctx, in.X, "[]"+q))
		}
	case *ssa.Extract:
		for _, q := range a.leavesOf(in.Type()) {
			a.set(ctx, in, q, a.val(ctx, in.Tuple, fmt.Sprintf("#%d%s", in.Index, q)))
		}
	case *ssa.Lookup:
		if _, ok := in.X.Type().Underlying().(*types.Map); !ok {
			return
		}
		pre := ""
		t := in.Type()
		if in.CommaOk {
			pre = "#0"
			t = t.(*types.Tuple).At(0).Type()
		}
		for e := range a.val(ctx, in.X, "") {
			for _, q := range a.leavesOf(t) {
				a.set(ctx, in, pre+q, a.load(e, "[v]"+q))
			}
		}
	case *ssa.Range:
		if _, ok := in.X.Type().Underlying().(*types.Map); ok {
			a.issue("map-order", in, false, "iterates over a map, whose order changes from run to run")
			a.set(ctx, in, "", a.val(ctx, in.X, ""))
		}
	case *ssa.Next:
		if in.IsString {
			return
		}
		for e := range a.val(ctx, in.Iter, "") {
			tu := in.Type().(*types.Tuple)
			for i, p := range []string{"", "[k]", "[v]"} {
				if i == 0 {
					continue
				}
				for _, q := range a.leavesOf(tu.At(i).Type()) {
					a.set(ctx, in, fmt.Sprintf("#%d%s", i, q), a.load(e, p+q))
				}
			}
		}
	case *ssa.Phi:
		for _, x := range in.Edges {
			a.copyAll(ctx, in, x)
		}
	case *ssa.ChangeType:
		a.copyAll(ctx, in, in.X)
	case *ssa.ChangeInterface:
		a.copyAll(ctx, in, in.X)
	case *ssa.SliceToArrayPointer:
		a.copyAll(ctx, in, in.X)
	case *ssa.Convert, *ssa.MultiConvert:
		v := in.(ssa.Value)
		x := *in.Operands(nil)[0]
		if isUnsafe(v.Type()) || isUnsafe(x.Type()) {
			a.issue("address", in, false, "converts between pointers and addresses")
			a.copyAll(ctx, v, x)
			return
		}
		if len(a.leavesOf(v.Type())) > 0 {
			if len(a.leavesOf(x.Type())) == 0 { // text to bytes or runes
				a.add(a.nodes, nodeKey{ctx, v, ""}, elem{o: a.obj(ctx, in, "", Local, "the bytes made at "+a.where(v.Pos()))})
			} else {
				a.copyAll(ctx, v, x)
			}
		}
	case *ssa.MakeInterface:
		t := in.X.Type()
		if _, ok := t.Underlying().(*types.Pointer); ok {
			for e := range a.val(ctx, in.X, "") {
				a.add(a.nodes, nodeKey{ctx, in, ""}, elem{e.o, e.path, t})
			}
			return
		}
		o := a.obj(ctx, in, "", Local, "the value boxed at "+a.where(in.Pos()))
		for _, q := range a.leavesOf(t) {
			for e := range a.val(ctx, in.X, q) {
				a.addCell(o, q, e)
			}
		}
		a.add(a.nodes, nodeKey{ctx, in, ""}, elem{o, "", t})
	case *ssa.TypeAssert:
		pre := ""
		if in.CommaOk {
			pre = "#0"
		}
		for e := range a.val(ctx, in.X, "") {
			if types.IsInterface(in.AssertedType) {
				if e.dyn == nil || types.Implements(e.dyn, in.AssertedType.Underlying().(*types.Interface)) {
					a.add(a.nodes, nodeKey{ctx, in, pre}, e)
				}
				continue
			}
			if e.dyn != nil && !types.Identical(e.dyn, in.AssertedType) {
				continue
			}
			a.unbox(e, in.AssertedType, func(q string, x elem) { a.add(a.nodes, nodeKey{ctx, in, pre + q}, x) })
		}
	case *ssa.Slice:
		if isZero(in.Max) {
			return // no room and no elements
		}
		if _, ok := in.X.Type().Underlying().(*types.Basic); ok {
			return
		}
		for e := range a.val(ctx, in.X, "") {
			a.add(a.nodes, nodeKey{ctx, in, ""}, e)
		}
	case *ssa.Call:
		a.call(fn, ctx, in, in.Common(), in)
	case *ssa.Defer:
		a.call(fn, ctx, in, in.Common(), nil)
	case *ssa.Return:
		for i, r := range in.Results {
			pre := fmt.Sprintf("#%d", i)
			if len(in.Results) == 1 {
				pre = ""
			}
			for _, q := range a.leavesOf(r.Type()) {
				for e := range a.val(ctx, r, q) {
					a.addRet(fn, ctx, pre+q, e)
				}
			}
		}
	case *ssa.BinOp, *ssa.If, *ssa.Jump, *ssa.Panic, *ssa.RunDefers, *ssa.DebugRef:
	default:
		a.issue("unknown", in, true, "%T is not known to the analysis", in)
	}
}

func (a *Analysis) addRet(fn *ssa.Function, ctx, path string, e elem) {
	a.add(a.rets, nodeKey{ctx, fn, path}, e)
}

// unbox gives the parts of the concrete value in an interface.
func (a *Analysis) unbox(e elem, t types.Type, f func(path string, e elem)) {
	if _, ok := t.Underlying().(*types.Pointer); ok {
		f("", elem{o: e.o, path: e.path})
		return
	}
	for _, q := range a.leavesOf(t) {
		for x := range a.load(elem{o: e.o, path: e.path}, q) {
			f(q, x)
		}
	}
}

func isUnsafe(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.UnsafePointer
}

func isZero(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value != nil && c.Value.ExactString() == "0"
}

// implementers gives the analysed types that have the methods of an interface.
func (a *Analysis) implementers(it *types.Interface, key string) []types.Type {
	if r, ok := a.impls[key]; ok {
		return r
	}
	var out []types.Type
	for _, p := range a.Prog.AllPackages() {
		if p.Pkg == nil || !a.Own(p.Pkg) {
			continue
		}
		var names []string
		for n := range p.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			t, ok := p.Members[n].(*ssa.Type)
			if !ok || types.IsInterface(t.Type()) {
				continue
			}
			if nt, ok := t.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			for _, x := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
				if types.Implements(x, it) {
					out = append(out, x)
				}
			}
		}
	}
	a.impls[key] = out
	return out
}

// taken gives the functions of a type whose value is used somewhere.
func (a *Analysis) taken(sig *types.Signature) (out []*ssa.Function) {
	if a.values == nil {
		a.values = []*ssa.Function{}
		seen := map[*ssa.Function]bool{}
		for f := range ssautil.AllFunctions(a.Prog) {
			if f.Pkg == nil || !a.Own(f.Pkg.Pkg) {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for i, op := range in.Operands(nil) {
						if g, ok := (*op).(*ssa.Function); ok && !seen[g] {
							if c, ok := in.(ssa.CallInstruction); ok && i == 0 && c.Common().Value == g {
								continue
							}
							seen[g] = true
							a.values = append(a.values, g)
						}
					}
				}
			}
		}
		sort.Slice(a.values, func(i, j int) bool { return a.values[i].String() < a.values[j].String() })
	}
	for _, f := range a.values {
		if types.Identical(f.Signature, sig) && f.Signature.Recv() == nil {
			out = append(out, f)
		}
	}
	return
}

// call handles a call; res is the value it gives, if used.
func (a *Analysis) call(fn *ssa.Function, ctx string, in ssa.Instruction, cc *ssa.CallCommon, res ssa.Value) {
	if a.final {
		a.Calls++
	}
	if cc.IsInvoke() {
		a.invoke(ctx, in, cc, res)
		return
	}
	switch f := cc.Value.(type) {
	case *ssa.Builtin:
		a.builtin(ctx, in, f, cc, res)
		return
	case *ssa.Function:
		a.direct(ctx, in, f, nil, a.args(ctx, cc.Args), cc, res)
		return
	}
	for e := range a.val(ctx, cc.Value, "") {
		if e.o.Kind == Fn {
			a.direct(ctx, in, e.o.fn, e.o, a.args(ctx, cc.Args), cc, res)
			continue
		}
		// kept in a value of the caller: any function of that type whose value is used
		fs := a.taken(cc.Signature())
		if len(fs) == 0 {
			a.issue("unknown-call", in, true, "calls a function value the analysis cannot find")
		}
		for _, f := range fs {
			to := a.sub(ctx, in)
			for _, v := range f.FreeVars {
				for _, q := range a.leavesOf(v.Type()) {
					a.add(a.nodes, nodeKey{to, v, q}, elem{o: e.o})
				}
			}
			a.direct(ctx, in, f, nil, a.args(ctx, cc.Args), cc, res)
		}
	}
}

type argument struct {
	typ types.Type
	get func(path string) set
}

func (a *Analysis) args(ctx string, vs []ssa.Value) (out []argument) {
	for _, v := range vs {
		out = append(out, argument{v.Type(), func(q string) set { return a.val(ctx, v, q) }})
	}
	return
}

func (a *Analysis) invoke(ctx string, in ssa.Instruction, cc *ssa.CallCommon, res ssa.Value) {
	it := cc.Value.Type().Underlying().(*types.Interface)
	own := cc.Method.Pkg() != nil && a.Own(cc.Method.Pkg())
	for e := range a.val(ctx, cc.Value, "") {
		var ts []types.Type
		if e.dyn != nil {
			ts = []types.Type{e.dyn}
		} else if own || e.o.Kind == Input {
			ts = a.implementers(it, cc.Value.Type().String())
		}
		if e.dyn == nil && !own || e.dyn == nil && len(ts) == 0 {
			recv := argument{cc.Value.Type(), func(string) set { return set{e: true} }}
			a.external(ctx, in, cc.Method, append([]argument{recv}, a.args(ctx, cc.Args)...), res)
		}
		for _, t := range ts {
			m := a.Prog.LookupMethod(t, cc.Method.Pkg(), cc.Method.Name())
			if m == nil {
				continue
			}
			recv := argument{t, func(q string) set {
				r := set{}
				a.unbox(e, t, func(p string, x elem) {
					if p == q {
						r[x] = true
					}
				})
				return r
			}}
			a.direct(ctx, in, m, nil, append([]argument{recv}, a.args(ctx, cc.Args)...), cc, res)
		}
	}
}

// direct handles the call of a known function.
func (a *Analysis) direct(ctx string, in ssa.Instruction, f *ssa.Function, closure *Obj, args []argument, cc *ssa.CallCommon, res ssa.Value) {
	own := f.Pkg != nil && a.Own(f.Pkg.Pkg)
	if !own && f.Pkg != nil && f == f.Pkg.Func("init") {
		return // of a library package
	}
	if f.Pkg == nil { // wrappers, instances, bound methods
		own = len(f.Blocks) > 0 && (f.Object() == nil || f.Object().Pkg() == nil || a.Own(f.Object().Pkg()) || f.Synthetic != "" && f.Origin() == nil)
		if o := f.Origin(); o != nil {
			own = o.Pkg != nil && a.Own(o.Pkg.Pkg)
		}
	}
	if !own {
		obj, _ := f.Object().(*types.Func)
		if obj == nil {
			a.issue("unknown-call", in, true, "calls %s, which the analysis cannot see", f)
			return
		}
		a.external(ctx, in, obj, args, res)
		return
	}
	if len(f.Blocks) == 0 {
		a.issue("unknown-call", in, true, "%s has no Go body", f)
		return
	}
	to := a.sub(ctx, in)
	a.reach(f, to)
	for i, p := range f.Params {
		if i >= len(args) {
			break
		}
		for _, q := range a.leavesOf(p.Type()) {
			a.set(to, p, q, args[i].get(q))
		}
	}
	if closure != nil {
		for i, v := range f.FreeVars {
			for _, q := range a.leavesOf(v.Type()) {
				a.set(to, v, q, a.cells[cellKey{closure, fmt.Sprintf("%d:%s", i, q)}])
			}
		}
	}
	if res != nil {
		for _, q := range a.leavesOf(res.Type()) {
			a.set(ctx, res, q, a.rets[nodeKey{to, f, q}])
		}
	}
}

func (a *Analysis) builtin(ctx string, in ssa.Instruction, f *ssa.Builtin, cc *ssa.CallCommon, res ssa.Value) {
	switch f.Name() {
	case "append":
		t, ok := cc.Args[0].Type().Underlying().(*types.Slice)
		if !ok || res == nil {
			return
		}
		fresh := elem{o: a.obj(ctx, in, "", Local, "the memory made at "+a.where(in.Pos()))}
		a.add(a.nodes, nodeKey{ctx, res, ""}, fresh)
		dst := a.val(ctx, cc.Args[0], "")
		room := !tight(cc.Args[0])
		for e := range dst {
			if room {
				a.write(in, "an append into the array of a slice", at(e, "[]"))
			}
			a.add(a.nodes, nodeKey{ctx, res, ""}, e)
			for _, q := range a.leavesOf(t.Elem()) {
				a.store(at(fresh, "[]"), q, a.load(at(e, "[]"), q))
			}
		}
		for s := range a.val(ctx, cc.Args[1], "") {
			for _, q := range a.leavesOf(t.Elem()) {
				l := a.load(at(s, "[]"), q)
				a.store(at(fresh, "[]"), q, l)
				for e := range dst {
					a.store(at(e, "[]"), q, l)
				}
			}
		}
	case "copy":
		t, ok := cc.Args[0].Type().Underlying().(*types.Slice)
		if !ok {
			return
		}
		for e := range a.val(ctx, cc.Args[0], "") {
			a.write(in, "a copy", at(e, "[]"))
			for s := range a.val(ctx, cc.Args[1], "") {
				for _, q := range a.leavesOf(t.Elem()) {
					a.store(at(e, "[]"), q, a.load(at(s, "[]"), q))
				}
			}
		}
	case "clear", "delete":
		for e := range a.val(ctx, cc.Args[0], "") {
			a.write(in, "a "+f.Name(), e)
		}
	case "close":
		a.issue("concurrency", in, false, "closes a channel")
	case "ssa:wrapnilchk":
		if res != nil {
			a.copyAll(ctx, res, cc.Args[0])
		}
	case "print", "println":
		a.issue("outside", in, false, "%s writes to the standard error output", f.Name())
	case "recover":
	}
}

// tight tells of a slice without room behind its elements.
func tight(v ssa.Value) bool {
	s, ok := v.(*ssa.Slice)
	return ok && s.Max != nil && (s.Max == s.High || sameConst(s.Max, s.High))
}

func sameConst(x, y ssa.Value) bool {
	a, ok := x.(*ssa.Const)
	b, ok2 := y.(*ssa.Const)
	return ok && ok2 && a.Value != nil && b.Value != nil && a.Value.ExactString() == b.Value.ExactString()
}

// external handles the call of a library function.
func (a *Analysis) external(ctx string, in ssa.Instruction, f *types.Func, args []argument, res ssa.Value) {
	name := f.FullName()
	verdict, why := Library(f)
	if verdict == Forbidden {
		a.issue("outside", in, false, "calls %s: %s", name, why)
	}
	if verdict == Unknown {
		a.issue("outside", in, true, "calls %s, whose effects are not known", name)
	}
	// functions and methods handed over may be called
	given := func(path string) set {
		r := set{}
		for _, x := range args {
			for _, q := range a.leavesOf(x.typ) {
				for e := range x.get(q) {
					if e.o.Kind != Fn {
						for y := range a.load(at(e, "[]"), path) {
							r[y] = true
						}
					}
				}
			}
		}
		return r
	}
	for _, x := range args {
		for _, q := range a.leavesOf(x.typ) {
			for e := range x.get(q) {
				if e.o.Kind == Fn {
					a.back(ctx, in, e.o.fn, e.o, elem{}, given)
				} else if e.dyn != nil && types.IsInterface(x.typ) && x.typ.Underlying().(*types.Interface).NumMethods() > 0 {
					it := x.typ.Underlying().(*types.Interface)
					for i := 0; i < it.NumMethods(); i++ {
						m := a.Prog.LookupMethod(e.dyn, it.Method(i).Pkg(), it.Method(i).Name())
						if m != nil && m.Pkg != nil && a.Own(m.Pkg.Pkg) {
							a.back(ctx, in, m, nil, e, given)
						}
					}
				} else if e.dyn != nil && verdict == Reads { // fmt and the like look for these
					for _, n := range []string{"String", "Error", "Format", "GoString"} {
						if obj, _, _ := types.LookupFieldOrMethod(e.dyn, true, nil, n); obj != nil {
							if m, ok := obj.(*types.Func); ok && m.Pkg() != nil && a.Own(m.Pkg()) {
								if sf := a.Prog.LookupMethod(e.dyn, m.Pkg(), n); sf != nil {
									a.back(ctx, in, sf, nil, e, given)
								}
							}
						}
					}
				}
			}
		}
	}
	if verdict == Reads {
		if res != nil {
			a.fresh(ctx, in, res)
		}
		if strings.HasPrefix(name, "fmt.") {
			a.format(in, args)
		}
		return
	}
	var ext elem
	if res != nil && len(a.leavesOf(res.Type())) > 0 {
		ext = elem{o: a.fresh(ctx, in, res)}
	}
	seen := map[elem]bool{}
	var visit func(e elem, deep int)
	visit = func(e elem, deep int) {
		if seen[e] || deep > 4 {
			return
		}
		seen[e] = true
		if e.o.Kind == Fn {
			return
		}
		a.write(in, "the call of "+name, e)
		if ext.o != nil {
			a.addCell(ext.o, "*", e)
		}
		if summary(e.o) {
			for x := range a.cells[cellKey{e.o, "*"}] {
				visit(x, deep+1)
			}
			return
		}
		if verdict == Shuffles {
			return
		}
		for k, s := range a.cells {
			if k.o == e.o && strings.HasPrefix(k.path, e.path) {
				for x := range s {
					visit(x, deep+1)
				}
			}
		}
	}
	for _, x := range args {
		for _, q := range a.leavesOf(x.typ) {
			for e := range x.get(q) {
				if verdict == Shuffles && e.dyn != nil { // the slice in the interface
					for y := range a.load(elem{o: e.o, path: e.path}, "") {
						visit(y, 0)
					}
					continue
				}
				visit(e, 0)
			}
		}
	}
}

// fresh makes the result of a library function.
func (a *Analysis) fresh(ctx string, in ssa.Instruction, res ssa.Value) *Obj {
	o := a.obj(ctx, in, "ext", Ext, "the result of the call at "+a.where(in.Pos()))
	for _, q := range a.leavesOf(res.Type()) {
		a.add(a.nodes, nodeKey{ctx, res, q}, elem{o: o})
	}
	return o
}

// back is a call from a library function.
func (a *Analysis) back(ctx string, in ssa.Instruction, f *ssa.Function, closure *Obj, recv elem, given func(string) set) {
	var args []argument
	for i, p := range f.Params {
		if i == 0 && recv.o != nil {
			args = append(args, argument{p.Type(), func(q string) set {
				r := set{}
				a.unbox(recv, p.Type(), func(pt string, x elem) {
					if pt == q {
						r[x] = true
					}
				})
				return r
			}})
			continue
		}
		args = append(args, argument{p.Type(), given})
	}
	a.direct(ctx, in, f, closure, args, nil, nil)
}

// format looks at what fmt prints: addresses differ from run to run.
func (a *Analysis) format(in ssa.Instruction, args []argument) {
	if !a.final {
		return
	}
	for _, x := range args {
		for e := range x.get("") {
			for y := range a.load(at(e, "[]"), "") {
				if y.dyn != nil && printsAddress(y.dyn, 0) {
					a.issue("address", in, false, "prints a value of type %s, in which there are addresses", y.dyn)
				}
			}
		}
	}
	for _, op := range in.Operands(nil) {
		if c, ok := (*op).(*ssa.Const); ok && c.Value != nil && strings.Contains(c.Value.ExactString(), "%p") {
			a.issue("address", in, false, "prints an address")
		}
	}
}

func printsAddress(t types.Type, deep int) bool {
	for _, n := range []string{"Error", "String"} {
		if o, _, _ := types.LookupFieldOrMethod(t, true, nil, n); o != nil {
			return false
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if deep > 0 {
			return true
		}
		return printsAddress(u.Elem(), deep+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if printsAddress(u.Field(i).Type(), deep+1) {
				return true
			}
		}
	case *types.Slice:
		return printsAddress(u.Elem(), deep+1)
	case *types.Array:
		return printsAddress(u.Elem(), deep+1)
	case *types.Map:
		return printsAddress(u.Elem(), deep+1) || printsAddress(u.Key(), deep+1)
	case *types.Signature, *types.Chan:
		return true
	}
	return false
}
