package vg

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Ev) call(fr *frame, cc *ssa.CallCommon, st *State, at ssa.Instruction) *Term {
	e.CallSites++
	var args []*Term
	for _, a := range cc.Args {
		args = append(args, e.val(fr, a))
	}
	if cc.IsInvoke() {
		return e.invoke(st, e.val(fr, cc.Value), cc.Method, args, cc.Value.Type())
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return e.builtin(fr, b, cc, args, st)
	}
	if fn := cc.StaticCallee(); fn != nil {
		var free []*Term
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				free = append(free, e.val(fr, b))
			}
		}
		return e.static(st, fn, args, free)
	}
	return e.dyn(st, e.val(fr, cc.Value), args, cc.Signature())
}

func fnPkg(fn *ssa.Function) *types.Package {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg
	}
	if fn.Object() != nil {
		return fn.Object().Pkg()
	}
	if fn.Parent() != nil {
		return fnPkg(fn.Parent())
	}
	// wrappers of promoted or bound methods
	if len(fn.Params) > 0 {
		if n := namedOf(fn.Params[0].Type()); n != nil {
			return n.Obj().Pkg()
		}
	}
	if len(fn.FreeVars) > 0 {
		if n := namedOf(fn.FreeVars[0].Type()); n != nil {
			return n.Obj().Pkg()
		}
	}
	return nil
}

func namedOf(t types.Type) *types.Named {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := t.(*types.Named)
	return n
}

func (e *Ev) static(st *State, fn *ssa.Function, args, free []*Term) *Term {
	if e.Hide != "" && fn.Pkg != nil && strings.Contains(fn.Pkg.Pkg.Path(), e.Hide) {
		if fn.Name() == "assume" && len(args) == 1 {
			e.assume(args[0])
			return e.c.Nil()
		}
		if b, ok := e.Bind[fn.Name()]; ok {
			return e.callBound(st, b, args)
		}
		if e.Opaque[fn.Name()] {
			return e.opaqueCall(st, "ref:"+fn.Name(), args, fn.Signature)
		}
	}
	if fn == e.Mark.From {
		return e.callBound(st, e.Mark, args)
	}
	if e.Opaque[fn.String()] {
		if e.opaqueFns == nil {
			e.opaqueFns = map[string]*ssa.Function{}
		}
		e.opaqueFns["repo:"+fn.String()] = fn
		return e.opaqueCall(st, "repo:"+fn.String(), args, fn.Signature)
	}
	if e.inRepo(fnPkg(fn)) || fn.Synthetic != "" && len(fn.Blocks) > 0 && fn.Name() != "init" {
		return e.callFn(fn, args, free, st)
	}
	if fn.Name() == "init" {
		return e.c.Nil()
	}
	return e.std(st, fn, args)
}

// assume records a precondition that a driver states at its start.
func (e *Ev) assume(t *Term) {
	c := e.c
	switch {
	case t == c.True:
	case t.Op == "bdd" && t.Args[1] == c.False && t.Args[2] == c.True && t.Args[0].Op == "ilt":
		c.facts = append(c.facts, t.Args[0].Args[0])
	case t.Op == "ilt":
		c.facts = append(c.facts, c.Sub(c.Neg(t.Args[0]), c.Int(1)))
	default:
		undecided("assumption of an unsupported form: %s", c.Show(t, 4))
	}
}

// opaqueCall is a call that has no effect and depends only on its arguments.
func (e *Ev) opaqueCall(st *State, name string, args []*Term, sig *types.Signature) *Term {
	c := e.c
	ps := make([]*Term, len(args))
	for i, a := range args {
		ps[i] = e.purify(st, a, 0)
	}
	rs := sig.Results()
	switch rs.Len() {
	case 0:
		return c.Nil()
	case 1:
		t := c.intern(&Term{Op: "call", Aux: name, Kind: kindOf(rs.At(0).Type()), Args: ps, Typ: rs.At(0).Type()})
		if isSlice(rs.At(0).Type()) {
			return e.newSlice(st, t, rs.At(0).Type())
		}
		return t
	}
	t := c.intern(&Term{Op: "call", Aux: name, Kind: KOther, Args: ps, Typ: rs})
	parts := make([]*Term, rs.Len())
	for i := range parts {
		parts[i] = c.Ext(t, i, rs.At(i).Type())
		if isSlice(rs.At(i).Type()) {
			parts[i] = e.newSlice(st, parts[i], rs.At(i).Type())
		}
	}
	return c.Struct("tuple", rs, parts)
}

// branch evaluates f in two copies of the state and merges.
func (e *Ev) branch(st *State, cond *Term, f, g func(*State) *Term) *Term {
	c := e.c
	a, b := st.clone(), st.clone()
	path := e.path
	e.path = append(path[:len(path):len(path)], cond)
	x := f(a)
	e.path = append(path[:len(path):len(path)], c.Not(cond))
	y := g(b)
	e.path = path
	switch {
	case a.dead && b.dead:
		st.dead = true
		return nil
	case a.dead:
		*st = *b
		return y
	case b.dead:
		*st = *a
		return x
	}
	out := e.mergeStates([]*Term{cond, c.Not(cond)}, []*State{a, b}, c.True)
	r := e.merge2(a, out, cond, x, y, nil)
	*st = *out
	return r
}

// dyn calls a function value.
func (e *Ev) dyn(st *State, f *Term, args []*Term, sig *types.Signature) *Term {
	switch f.Op {
	case "closure":
		return e.static(st, f.Val.(*ssa.Function), args, f.Args)
	case "nil":
		st.dead = true
		return nil
	case "ite":
		if f.Args[1].Op == "nil" {
			return e.dyn(st, f.Args[2], args, sig)
		}
		if f.Args[2].Op == "nil" {
			return e.dyn(st, f.Args[1], args, sig)
		}
		return e.branch(st, f.Args[0],
			func(s *State) *Term { return e.dyn(s, f.Args[1], args, sig) },
			func(s *State) *Term { return e.dyn(s, f.Args[2], args, sig) })
	}
	return e.opaqueCall(st, "dyn", append([]*Term{f}, args...), sig)
}

// invoke calls an interface method.
func (e *Ev) invoke(st *State, recv *Term, m *types.Func, args []*Term, it types.Type) *Term {
	c := e.c
	switch recv.Op {
	case "nil":
		st.dead = true
		return nil
	case "iface":
		fn := e.methodOf(recv.Typ, m)
		if fn == nil {
			undecided("no method %s on %s", m.Name(), recv.Typ)
		}
		return e.static(st, fn, append([]*Term{recv.Args[0]}, args...), nil)
	case "ite":
		if recv.Args[1].Op == "nil" {
			return e.invoke(st, recv.Args[2], m, args, it)
		}
		if recv.Args[2].Op == "nil" {
			return e.invoke(st, recv.Args[1], m, args, it)
		}
		return e.branch(st, recv.Args[0],
			func(s *State) *Term { return e.invoke(s, recv.Args[1], m, args, it) },
			func(s *State) *Term { return e.invoke(s, recv.Args[2], m, args, it) })
	}
	sig := m.Type().(*types.Signature)
	if !e.inRepo(m.Pkg()) {
		// interface of another module: an unknown but fixed function of its
		// receiver; readers and the like are only passed on by this code
		return e.opaqueCall(st, "invoke:"+m.FullName(), append([]*Term{recv}, args...), sig)
	}
	iface := it.Underlying().(*types.Interface)
	type group struct {
		fn    *ssa.Function
		recv  *Term
		conds []*Term
		name  string
	}
	var gs []*group
	for _, t := range e.implementers(iface) {
		tn := typeName(t)
		fn, rv := e.resolve(st, c.Unbox(recv, tn, t), t, m)
		var g *group
		for _, o := range gs {
			if o.fn == fn && o.recv == rv {
				g = o
			}
		}
		if g == nil {
			g = &group{fn: fn, recv: rv, name: tn}
			gs = append(gs, g)
		}
		g.conds = append(g.conds, c.IsType(recv, tn))
	}
	if len(gs) == 0 {
		undecided("no implementation of %s", m.FullName())
	}
	// most common implementation is the default
	sort.SliceStable(gs, func(i, j int) bool { return len(gs[i].conds) < len(gs[j].conds) })
	var run func(i int, s *State) *Term
	run = func(i int, s *State) *Term {
		g := gs[i]
		if i == len(gs)-1 {
			return e.static(s, g.fn, append([]*Term{g.recv}, args...), nil)
		}
		cd := c.False
		for _, x := range g.conds {
			cd = c.Or(cd, x)
		}
		switch cd {
		case c.True:
			return e.static(s, g.fn, append([]*Term{g.recv}, args...), nil)
		case c.False:
			return run(i+1, s)
		}
		return e.branch(s, cd,
			func(s *State) *Term { return e.static(s, g.fn, append([]*Term{g.recv}, args...), nil) },
			func(s *State) *Term { return run(i+1, s) })
	}
	return run(0, st)
}

func (e *Ev) methodOf(t types.Type, m *types.Func) *ssa.Function {
	sel := e.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return e.prog.MethodValue(sel)
}

// resolve finds the declared method behind promoted ones and the embedded
// receiver it works on.
func (e *Ev) resolve(st *State, recv *Term, t types.Type, m *types.Func) (*ssa.Function, *Term) {
	sel := e.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		undecided("no method %s on %s", m.Name(), t)
	}
	idx := sel.Index()
	cur := t
	for _, i := range idx[:len(idx)-1] {
		p, ok := cur.Underlying().(*types.Pointer)
		if !ok {
			return e.prog.MethodValue(sel), recv
		}
		s, ok := p.Elem().Underlying().(*types.Struct)
		if !ok {
			return e.prog.MethodValue(sel), recv
		}
		f := s.Field(i)
		if _, ok := f.Type().Underlying().(*types.Pointer); !ok {
			return e.prog.MethodValue(sel), recv
		}
		recv = e.load(st, e.faddr(recv, i, p.Elem()), f.Type())
		cur = f.Type()
	}
	fn := e.prog.FuncValue(sel.Obj().(*types.Func))
	if fn == nil {
		undecided("no function for %s", sel)
	}
	return fn, recv
}

// implementers lists the types of the repository that implement it.
func (e *Ev) implementers(it *types.Interface) []types.Type {
	if r, ok := e.chaMemo[it]; ok {
		return r
	}
	var out []types.Type
	for _, p := range e.prog.AllPackages() {
		if !e.inRepo(p.Pkg) || p.Pkg.Path() == e.Hide {
			continue
		}
		for _, mb := range p.Members {
			tm, ok := mb.(*ssa.Type)
			if !ok {
				continue
			}
			t := tm.Type()
			if types.IsInterface(t) {
				continue
			}
			if n, ok := t.(*types.Named); ok && n.TypeParams().Len() > 0 {
				continue
			}
			if types.Implements(t, it) {
				out = append(out, t)
			} else if types.Implements(types.NewPointer(t), it) {
				out = append(out, types.NewPointer(t))
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return typeName(out[i]) < typeName(out[j]) })
	e.chaMemo[it] = out
	return out
}

func (e *Ev) deferCall(fr *frame, x *ssa.Defer, st *State) {
	if fn := x.Call.StaticCallee(); fn != nil && strings.HasPrefix(fn.String(), "(*sync.") {
		return
	}
	undecided("%s: deferred call", e.pos(x.Pos()))
}

// ---------------------------------------------------------------- builtins

func (e *Ev) builtin(fr *frame, b *ssa.Builtin, cc *ssa.CallCommon, args []*Term, st *State) *Term {
	c := e.c
	switch b.Name() {
	case "len":
		s := args[0]
		switch t := cc.Args[0].Type().Underlying().(type) {
		case *types.Map:
			return c.mk("maplen", "", KInt, e.purify(st, s, 0))
		case *types.Pointer:
			return c.Int(t.Elem().Underlying().(*types.Array).Len())
		case *types.Array:
			return c.Int(t.Len())
		}
		if s.Op == "sl" {
			return c.Sub(s.Args[2], s.Args[1])
		}
		return c.Len(s)
	case "cap":
		return e.builtinCap(st, args[0])
	case "append":
		dst := e.content(st, args[0])
		var r *Term
		if args[1].Kind == KStr { // append([]byte, string...)
			r = c.Cat(dst, c.mk("call", "bytes", KSeq, args[1]))
		} else {
			r = c.Cat(dst, e.content(st, args[1]))
		}
		if dst.Op == "nil" && r.Op == "nil" {
			return args[0]
		}
		res := e.newSlice(st, r, cc.Args[0].Type())
		e.grow(st, args[0], res)
		return res
	case "copy":
		d := args[0]
		src := args[1]
		var q *Term
		if src.Kind == KStr {
			q = c.mk("call", "bytes", KSeq, src)
		} else {
			q = e.content(st, src)
		}
		if d.Op == "nil" {
			return c.Int(0)
		}
		if d.Op != "sl" {
			d = e.view(st, d, cc.Args[0].Type())
		}
		n := c.MinMax("imin", c.Sub(d.Args[2], d.Args[1]), c.Len(q))
		e.writeRange(st, d, c.CopySeq(e.content(st, d), q))
		return n
	case "print", "println":
		return c.Nil()
	case "min", "max":
		r := args[0]
		k := args[0].Kind
		for _, a := range args[1:] {
			switch k {
			case KInt:
				r = c.MinMax("i"+b.Name(), r, a)
			case KF64, KF32:
				r = c.MinMax("f"+b.Name(), r, a)
			default:
				undecided("%s of strings", b.Name())
			}
		}
		return r
	case "delete":
		u := uidOf(args[0])
		st.objs[u] = c.mk("mdel", "", KOther, st.objs[u], e.purify(st, args[1], 0))
		return c.Nil()
	case "ssa:wrapnilchk":
		return args[0]
	case "clear":
		undecided("%s: clear", e.pos(c.CurPos))
	}
	undecided("%s: builtin %s", e.pos(c.CurPos), b.Name())
	return nil
}

// writeRange replaces the elements of a slice.
func (e *Ev) writeRange(st *State, d, q *Term) {
	c := e.c
	uid := uidOf(d.Args[0])
	old := st.objs[uid]
	n := c.Len(old)
	r := c.Cat(c.Cat(c.Sub3(old, c.Int(0), d.Args[1]), q), c.Sub3(old, d.Args[2], n))
	st.objs[uid] = r
	e.noteWrite(st, uid)
}

func (e *Ev) builtinCap(st *State, s *Term) *Term {
	c := e.c
	if s.Op == "sl" {
		if n, ok := e.caps[uidOf(s.Args[0])]; ok {
			return c.Sub(n, s.Args[1])
		}
	}
	if s.Op == "nil" {
		return c.Int(0)
	}
	return c.Call("cap", KInt, e.purify(st, s, 0))
}
