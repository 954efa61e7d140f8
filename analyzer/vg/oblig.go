package vg

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Obl is something that must hold where the evaluation passes an instruction,
// so that it does not panic, or a loop that must come to an end.
type Obl struct {
	Rule  string
	Pos   token.Pos
	Fn    string
	Path  []*Term // what holds there
	OK    *Term   // what must hold
	Cont  *Term   // of a loop: the condition to go on, over its streams
	Level int
	Loops []loopRec // the loops around it
}

type loopRec struct {
	level int
	cont  *Term // the condition to go on, over its streams
}

// oblige records an obligation.
func (e *Ev) oblige(rule string, pos token.Pos, ok *Term) {
	if !e.Collect || ok == e.c.True {
		if e.Collect {
			e.Trivial++
		}
		return
	}
	if !pos.IsValid() {
		pos = e.c.CurPos
	}
	e.obls = append(e.obls, &Obl{Rule: rule, Pos: pos, Fn: e.at(), Path: e.path[:len(e.path):len(e.path)], OK: ok})
}

func (e *Ev) at() string {
	if n := len(e.stack); n > 0 {
		return e.stack[n-1].String()
	}
	return ""
}

// substObls writes the obligations from a mark on over the closed streams.
func (e *Ev) substObls(from int, m map[*Term]*Term) {
	if len(m) == 0 || from >= len(e.obls) {
		return
	}
	s := e.c.NewSubst(m)
	for _, o := range e.obls[from:] {
		p := make([]*Term, len(o.Path))
		for i, t := range o.Path {
			p[i] = s.Apply(t)
		}
		o.Path = p
		if o.OK != nil {
			o.OK = s.Apply(o.OK)
		}
		if o.Cont != nil {
			o.Cont = s.Apply(o.Cont)
		}
		for i := range o.Loops {
			o.Loops[i].cont = s.Apply(o.Loops[i].cont)
		}
	}
}

// leastLevel is above the loops inside, whose variables the obligations
// have free.
func (e *Ev) leastLevel(from int) int {
	n := 1
	for _, o := range e.obls[from:] {
		if o.Level >= n {
			n = o.Level + 1
		}
		for _, l := range o.Loops {
			if l.level >= n {
				n = l.level + 1
			}
		}
	}
	return n
}

func (e *Ev) oblTerms(from int) (out []*Term) {
	for _, o := range e.obls[from:] {
		out = append(out, o.Path...)
		if o.OK != nil {
			out = append(out, o.OK)
		}
		if o.Cont != nil {
			out = append(out, o.Cont)
		}
		for _, l := range o.Loops {
			out = append(out, l.cont)
		}
	}
	return
}

// within is 0 <= i < n.
func (c *Ctx) within(i, n *Term) *Term {
	return c.And(c.Not(c.Lt0(i)), c.Lt0(c.Sub(i, n)))
}

// lenOf is the length of a value of slice, string or array type.
func (e *Ev) lenOf(st *State, s *Term, typ types.Type) *Term {
	c := e.c
	switch u := typ.Underlying().(type) {
	case *types.Array:
		return c.Int(u.Len())
	case *types.Pointer:
		return c.Int(u.Elem().Underlying().(*types.Array).Len())
	case *types.Basic:
		return c.Len(s)
	}
	switch s.Op {
	case "sl":
		return c.Sub(s.Args[2], s.Args[1])
	case "nil":
		return c.Int(0)
	case "ite":
		return c.Ite(s.Args[0], e.lenOf(st, s.Args[1], typ), e.lenOf(st, s.Args[2], typ))
	}
	return c.Len(s)
}

// capOf is what is known to be there behind a slice.
func (e *Ev) capOf(st *State, s *Term, typ types.Type) *Term {
	c := e.c
	n := e.lenOf(st, s, typ)
	if s.Op == "sl" {
		if k := e.caps[uidOf(s.Args[0])]; k != nil {
			return c.MinMax("imax", n, c.Sub(k, s.Args[1]))
		}
	}
	return n
}

// needPtr: a pointer, function or interface is not nil.
func (e *Ev) needPtr(pos token.Pos, p *Term) {
	e.oblige("nil", pos, e.c.Not(e.isNil(p, 0)))
}

// isNil is the condition for a pointer to be nil.
func (e *Ev) isNil(p *Term, depth int) *Term {
	c := e.c
	switch p.Op {
	case "faddr", "iaddr", "obj", "closure", "glob", "iface":
		return c.False
	case "nil":
		return c.True
	case "in", "get", "unbox", "emb", "fld":
		if given(p) {
			return c.False
		}
	case "ite":
		if depth < 30 {
			return c.Ite(p.Args[0], e.isNil(p.Args[1], depth+1), e.isNil(p.Args[2], depth+1))
		}
	case "call":
		if e.neverNil(p.Aux) {
			return c.False
		}
	case "sel":
		if given(p) {
			return c.False
		}
		// variables of libraries are set by them
		if p.Args[0].Op == "mem0" && p.Args[1].Op == "glob" {
			return c.False
		}
	}
	return c.Eq(p, c.Nil())
}

// given: an argument of the driver, something in a list given to it, or
// the object behind or embedded in one of them.
func given(t *Term) bool {
	switch t.Op {
	case "in":
		return true
	case "get", "unbox", "emb":
		return given(t.Args[0])
	case "sel":
		return t.Args[0].Op == "mem0" && given(t.Args[1]) && embedded(t)
	case "fld":
		return given(t.Args[0]) && embedded(t)
	}
	return false
}

// embedded: a field has the name of the type it points to.
func embedded(t *Term) bool {
	if t.Typ == nil {
		return false
	}
	p, ok := t.Typ.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n := typeName(p.Elem())
	return t.Aux[strings.LastIndexAny(t.Aux, "./")+1:] == n[strings.LastIndexAny(n, "./")+1:]
}

// filled: the field of something given is not an empty list.
func (c *Ctx) isFilled(t *Term) bool {
	for t.Op == "view" {
		t = t.Args[0]
	}
	return t.Op == "sel" && t.Args[0].Op == "mem0" && given(t.Args[1]) && c.filled[t.Aux[strings.LastIndex(t.Aux, ".")+1:]]
}

// neverNil: an opaque function of the module that only returns what it
// has allocated.
func (e *Ev) neverNil(name string) bool {
	fn := e.opaqueFns[name]
	if fn == nil {
		return false
	}
	n := 0
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if r, ok := in.(*ssa.Return); ok {
				n++
				if len(r.Results) != 1 {
					return false
				}
				if _, ok := r.Results[0].(*ssa.Alloc); !ok {
					return false
				}
			}
		}
	}
	return n > 0
}

// obligations of an instruction.
func (e *Ev) need(fr *frame, v ssa.Instruction, st *State) {
	if !e.Collect {
		return
	}
	c := e.c
	switch x := v.(type) {
	case *ssa.FieldAddr:
		e.needPtr(x.Pos(), e.val(fr, x.X))
	case *ssa.Store:
		e.needPtr(x.Pos(), e.val(fr, x.Addr))
	case *ssa.UnOp:
		if x.Op == token.MUL {
			e.needPtr(x.Pos(), e.val(fr, x.X))
		}
	case *ssa.Call:
		if x.Call.IsInvoke() || x.Call.StaticCallee() == nil {
			if _, ok := x.Call.Value.(*ssa.Builtin); !ok {
				e.needPtr(x.Pos(), e.val(fr, x.Call.Value))
			}
		}
	case *ssa.MapUpdate:
		e.needPtr(x.Pos(), e.val(fr, x.Map))
	case *ssa.IndexAddr:
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			e.needPtr(x.Pos(), e.val(fr, x.X))
		}
		e.oblige("index", x.Pos(), c.within(e.val(fr, x.Index), e.lenOf(st, e.val(fr, x.X), x.X.Type())))
	case *ssa.Index:
		e.oblige("index", x.Pos(), c.within(e.val(fr, x.Index), e.lenOf(st, e.val(fr, x.X), x.X.Type())))
	case *ssa.Lookup:
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok {
			_ = b
			e.oblige("index", x.Pos(), c.within(e.val(fr, x.Index), c.Len(e.val(fr, x.X))))
		}
	case *ssa.Slice:
		s := e.val(fr, x.X)
		top := c.Int(0)
		switch {
		case s.Kind == KStr:
			top = c.Len(s)
		case isSlice(x.X.Type()):
			top = e.capOf(st, s, x.X.Type())
		default:
			top = e.lenOf(st, s, x.X.Type())
		}
		lo, hi := c.Int(0), top
		if isSlice(x.X.Type()) {
			hi = e.lenOf(st, s, x.X.Type())
		}
		if x.Low != nil {
			lo = e.val(fr, x.Low)
		}
		if x.High != nil {
			hi = e.val(fr, x.High)
		}
		if x.Max != nil {
			m := e.val(fr, x.Max)
			e.oblige("slice", x.Pos(), c.And(c.Not(c.Lt0(c.Sub(top, m))), c.Not(c.Lt0(c.Sub(m, hi)))))
			top = m
		}
		e.oblige("slice", x.Pos(), c.And(c.Not(c.Lt0(lo)), c.And(c.Not(c.Lt0(c.Sub(hi, lo))), c.Not(c.Lt0(c.Sub(top, hi))))))
	case *ssa.MakeSlice:
		n, k := e.val(fr, x.Len), e.val(fr, x.Cap)
		// what is there fits into memory; something a little longer does, too
		outer := e.path
		e.path = append(outer[:len(outer):len(outer)], e.fits(fr, st)...)
		defer func() { e.path = outer }()
		e.oblige("make", x.Pos(), c.And(c.And(c.Not(c.Lt0(n)), c.Not(c.Lt0(c.Sub(k, n)))), c.Not(c.Lt0(c.Sub(c.Int(1<<41), k)))))
	case *ssa.BinOp:
		if (x.Op == token.QUO || x.Op == token.REM) && kindOf(x.X.Type()) == KInt {
			e.oblige("divide", x.Pos(), c.Not(c.Eq(e.val(fr, x.Y), c.Int(0))))
		}
		if (x.Op == token.SHL || x.Op == token.SHR) && kindOf(x.Y.Type()) == KInt {
			if _, unsigned := intSize(x.Y.Type()); !unsigned {
				e.oblige("shift", x.Pos(), c.Not(c.Lt0(e.val(fr, x.Y))))
			}
		}
	case *ssa.TypeAssert:
		if !x.CommaOk {
			v := e.val(fr, x.X)
			if it, ok := x.AssertedType.Underlying().(*types.Interface); ok {
				e.oblige("assert", x.Pos(), e.implements(v, it, typeName(x.AssertedType)))
			} else {
				e.oblige("assert", x.Pos(), c.IsType(v, typeName(x.AssertedType)))
			}
		}
	case *ssa.Panic:
		e.oblige("panic", x.Pos(), c.False)
	}
}

// fits: the slices at hand are in memory.
func (e *Ev) fits(fr *frame, st *State) (out []*Term) {
	c := e.c
	for v, s := range fr.env {
		if isSlice(v.Type()) && s != nil {
			n := e.lenOf(st, s, v.Type())
			if _, ok := n.IntVal(); !ok {
				out = append(out, c.Not(c.Lt0(c.Sub(c.Int(1<<40), n))))
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Key < out[j].Key })
	return
}

// ---------------------------------------------------------------- discharge

// Holds tells if an obligation holds.
func (c *Ctx) Holds(o *Obl) bool {
	p := c.True
	for _, t := range o.Path {
		p = c.And(p, t)
		if p == c.False {
			return true
		}
	}
	if o.Cont != nil {
		return c.ends(o, p)
	}
	bad := c.Not(o.OK)
	pr := c.newProver(o)
	pr.Debug = DebugPos != "" && strings.HasSuffix(c.posStr(o.Pos), DebugPos)
	if pr.Debug {
		fmt.Println("==== ", c.Show(bad, 3))
		for _, l := range o.Loops {
			fmt.Println("  loop", l.level, c.Show(l.cont, 7))
		}
	}
	for pr.max = 0; pr.max <= 4; pr.max++ {
		pr.steps = 1000 << uint(pr.max)
		for k, v := range pr.tried {
			if v == 2 {
				delete(pr.tried, k)
			}
		}
		if pr.refute(p, bad, nil) || pr.max == 0 && pr.byElement(p, bad, 0) {
			return true
		}
	}
	return false
}

// ends: on every way for a loop to go on there is a condition that cannot
// hold forever.
func (c *Ctx) ends(o *Obl, path *Term) bool {
	pr := c.newProver(o)
	pr.cont[o.Level] = o.Cont
	pr.max = 2
	pr.Debug = DebugPos != "" && strings.HasSuffix(c.posStr(o.Pos), DebugPos)
	var walk func(t, way *Term) bool
	walk = func(t, way *Term) bool {
		if t == c.False {
			return true
		}
		if t == c.True {
			f := c.And(path, pr.outer(way, o.Level))
			for a, v := range pr.implied(way) {
				if pr.runsOut(f, o.Cont, a, v == c.True, o.Level) {
					return true
				}
			}
			return false
		}
		for i, a := range []*Term{t.Args[0], c.Not(t.Args[0])} {
			w := c.And(way, a)
			if c.And(path, w) == c.False || pr.runsOut(c.And(path, pr.outer(w, o.Level)), o.Cont, t.Args[0], i == 0, o.Level) {
				continue
			}
			if !walk(t.Args[1+i], w) {
				return false
			}
		}
		return true
	}
	return walk(c.asBDD(o.Cont), c.True)
}

// runsOut: an atom cannot have a value in infinitely many iterations.
func (p *prover) runsOut(f, cont, a *Term, val bool, level int) bool {
	c := p.c
	switch a.Op {
	case "ilt", "flt", "fle":
		x := a.Args[0]
		// val: x < 0 always, so x must not grow; else x >= 0
		if !hasLevel(x, level) {
			return false
		}
		m := map[*Term]*Term{}
		for _, v := range x.Free {
			if !isVar(v) || v.BL != level {
				continue
			}
			if v.Aux == "K" {
				m[v] = c.Add(v, c.Int(1))
			} else if d := c.loops[v.Key]; d != nil && d.next != nil {
				m[v] = d.next
			} else {
				return false
			}
		}
		d := c.Sub(c.Subst(x, m), x)
		if p.Debug {
			fmt.Println("STEP", val, c.Show(a, 4), "  step", c.Show(d, 4))
		}
		if !val {
			d = c.Neg(d)
		}
		if a.Op == "ilt" {
			return p.refute(c.And(f, cont), c.Lt0(c.Sub(d, c.Int(1))), nil)
		}
		return !hasLevel(d, level) && c.And(f, c.Not(c.Lt0(c.Neg(d)))) == c.False
	case "call":
		// a reader gives lines until it ends or fails
		return a.Aux == "Scan" && val && a.Args[0].Op == "lvc" && a.Args[0].BL == level && p.scans(a.Args[0])
	}
	return false
}

// scans: another line is read in every iteration.
func (p *prover) scans(v *Term) bool {
	d := p.c.loops[v.Key]
	if d == nil || d.next == nil {
		return false
	}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		switch t.Op {
		case "scanned":
			return t.Args[0] == v || walk(t.Args[0])
		case "ite":
			return walk(t.Args[1]) && walk(t.Args[2])
		}
		return false
	}
	return walk(d.next)
}

// Site is what was found about one instruction or loop.
type Site struct {
	Rule, Fn string
	Pos      token.Pos
	N        int // ways to get there
	OK       bool
	Why      string
}

// RunObls evaluates a driver and decides its obligations of some rules.
func RunObls(prog *ssa.Program, p Pair, o Options, want func(rule string) bool) (res *PairResult, sites []*Site) {
	t0 := time.Now()
	res = &PairResult{Name: p.Name}
	c := NewCtx()
	e := NewEv(c, prog, o.Repo)
	e.Hide = o.Hide
	e.Collect = true
	for _, n := range p.Opaque {
		e.Opaque[n] = true
	}
	c.filled = map[string]bool{}
	for _, n := range p.Filled {
		c.filled[n] = true
	}
	at := ""
	defer func() {
		if r := recover(); r != nil {
			res.Undecided = true
			if u, ok := r.(Undecided); ok {
				res.Why = u.Msg
			} else {
				res.Why = fmt.Sprintf("the analysis failed: %v\n%s", r, debug.Stack())
			}
			var s []string
			for _, f := range e.stack {
				s = append(s, f.String())
			}
			res.Why += " (in " + strings.Join(s, " > ") + at + ")"
		}
		res.Fns, res.Calls, res.Loops, res.Unrolled, res.Branches = e.Fns, e.CallSites, e.LoopsDone, e.Unrolled, e.Branches
		res.Nodes = c.Nodes
		res.Secs = time.Since(t0).Seconds()
	}()
	c.posStr = func(p token.Pos) string { return prog.Fset.Position(p).String() }
	e.InitGlobals()
	e.obls = nil
	e.RunDriver(p.Impl)
	at = ""
	type key struct {
		rule, fn string
		pos      token.Pos
	}
	by := map[key]*Site{}
	for _, ob := range e.obls {
		if !want(ob.Rule) {
			continue
		}
		k := key{ob.Rule, ob.Fn, ob.Pos}
		s := by[k]
		if s == nil {
			s = &Site{Rule: ob.Rule, Fn: ob.Fn, Pos: ob.Pos, OK: true}
			by[k] = s
			sites = append(sites, s)
		}
		s.N++
		at = " deciding " + ob.Rule + " at " + c.posStr(ob.Pos)
		if s.OK && !c.Holds(ob) {
			s.OK = false
			q := c.True
			for _, t := range ob.Path {
				q = c.And(q, t)
			}
			if ob.Cont != nil {
				s.Why = "may go on forever while " + c.Show(ob.Cont, 5)
			} else {
				s.Why = "needs " + c.Show(ob.OK, showDepth)
			}
			s.Why += "\nwhere " + c.Show(q, 5)
		}
	}
	res.Trivial = e.Trivial
	res.OK = true
	return res, sites
}

// DebugPos (development) is where to trace proofs.
var showDepth = 5

var DebugPos = os.Getenv("VERIF_DEBUG")
