package vg

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Ev evaluates SSA functions to value graphs.
type Ev struct {
	c         *Ctx
	prog      *ssa.Program
	repo      string
	uid       int
	viewOf    map[int]string // home of a view: "" or class
	homes     map[int]home
	infos     map[*ssa.Function]*fnInfo
	Opaque    map[string]bool
	Bind      map[string]Bound // what functions of the driver stand for
	Mark      Bound            // a function of the driver called instead of another
	opaqueFns map[string]*ssa.Function
	Hide      string // package whose types do not count for dispatch
	stack     []*ssa.Function
	Fns       map[string]int
	CallSites int
	LoopsDone int
	Unrolled  int
	Branches  int
	globals   map[*ssa.Global]int
	global0   *State
	caps      map[int]*Term
	par       map[int][]link
	kids      map[int][]int
	chaMemo   map[*types.Interface][]types.Type
	MaxUnroll int
	lits      []pathStep // what holds where the evaluation is
	Collect   bool       // whether to collect obligations
	Trivial   int        // obligations that hold anywhere
	obls      []*Obl
	path      []*Term // the exact condition to be where the evaluation is
	SummaryN  int
	Trace     bool
}

type home struct {
	class string
	p     *Term
	typ   types.Type
}

func NewEv(c *Ctx, prog *ssa.Program, repo string) *Ev {
	return &Ev{c: c, prog: prog, repo: repo, homes: map[int]home{}, viewOf: map[int]string{},
		infos: map[*ssa.Function]*fnInfo{}, Opaque: map[string]bool{}, Fns: map[string]int{},
		globals: map[*ssa.Global]int{}, caps: map[int]*Term{}, par: map[int][]link{}, kids: map[int][]int{}, chaMemo: map[*types.Interface][]types.Type{}, MaxUnroll: 40}
}

// ---------------------------------------------------------------- control flow

type loopInfo struct {
	header  *ssa.BasicBlock
	blocks  map[*ssa.BasicBlock]bool
	parent  *loopInfo
	liveOut []ssa.Value
}

type fnInfo struct {
	rpo     map[*ssa.BasicBlock]int
	order   []*ssa.BasicBlock
	loopOf  map[*ssa.BasicBlock]*loopInfo
	headers map[*ssa.BasicBlock]*loopInfo
}

func (e *Ev) info(fn *ssa.Function) *fnInfo {
	if i, ok := e.infos[fn]; ok {
		return i
	}
	i := &fnInfo{rpo: map[*ssa.BasicBlock]int{}, loopOf: map[*ssa.BasicBlock]*loopInfo{}, headers: map[*ssa.BasicBlock]*loopInfo{}}
	e.infos[fn] = i
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for k := len(b.Succs) - 1; k >= 0; k-- {
			if !seen[b.Succs[k]] {
				dfs(b.Succs[k])
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for k := len(post) - 1; k >= 0; k-- {
		i.rpo[post[k]] = len(i.order)
		i.order = append(i.order, post[k])
	}
	for _, b := range i.order {
		for _, s := range b.Succs {
			if i.rpo[s] > i.rpo[b] {
				continue
			}
			if !s.Dominates(b) {
				undecided("irreducible control flow in %s", fn)
			}
			l := i.headers[s]
			if l == nil {
				l = &loopInfo{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
				i.headers[s] = l
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l.blocks[x] || !seen[x] {
					continue
				}
				l.blocks[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	var ls []*loopInfo
	for _, b := range i.order {
		if l := i.headers[b]; l != nil {
			ls = append(ls, l)
		}
	}
	sort.SliceStable(ls, func(a, b int) bool { return len(ls[a].blocks) > len(ls[b].blocks) })
	for _, l := range ls { // big to small: innermost wins
		for b := range l.blocks {
			if o := i.loopOf[b]; o != nil && b == l.header {
				l.parent = o
			}
			i.loopOf[b] = l
		}
	}
	// values that outlive their loop
	for _, l := range ls {
		for _, b := range i.order {
			if !l.blocks[b] {
				continue
			}
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok || v.Referrers() == nil {
					continue
				}
				for _, r := range *v.Referrers() {
					rb := r.Block()
					if ph, ok := r.(*ssa.Phi); ok {
						out := false
						for k, x := range ph.Edges {
							if x == v && !l.blocks[rb.Preds[k]] {
								out = true
							}
						}
						if out {
							l.liveOut = append(l.liveOut, v)
							break
						}
						continue
					}
					if !l.blocks[rb] {
						l.liveOut = append(l.liveOut, v)
						break
					}
				}
			}
		}
	}
	return i
}

type edge struct {
	to   *ssa.BasicBlock // nil: return
	from *ssa.BasicBlock
	pidx int
	cond *Term
	st   *State
	src  *node
	vals []*Term
	live map[ssa.Value]*Term
	ret  *Term
}

type node struct {
	blk   *ssa.BasicBlock
	idom  *node
	depth int
	care  *Term // reached from idom
	lits  []pathStep
}

type frame struct {
	fn   *ssa.Function
	info *fnInfo
	env  map[ssa.Value]*Term
	free []*Term
	args []*Term
}

func lca(a, b *node) *node {
	for a != b {
		if a.depth > b.depth {
			a = a.idom
		} else if b.depth > a.depth {
			b = b.idom
		} else {
			a, b = a.idom, b.idom
		}
	}
	return a
}

func (e *Ev) rel(ed *edge, d *node) *Term {
	r := ed.cond
	for n := ed.src; n != d; n = n.idom {
		r = e.c.And(n.care, r)
	}
	return r
}

type regionResult struct {
	outs       []*edge
	latches    []*edge
	prunedExit bool
}

func phis(b *ssa.BasicBlock) []*ssa.Phi {
	var out []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		out = append(out, p)
	}
	return out
}

// region evaluates one iteration of a loop body, or a whole function.
func (e *Ev) region(fr *frame, l *loopInfo, entry *ssa.BasicBlock, st *State, phiVals []*Term) *regionResult {
	c := e.c
	res := &regionResult{}
	pending := map[*ssa.BasicBlock][]*edge{}
	root := &node{blk: entry, care: c.True}
	outer, outerPath := e.lits, e.path
	defer func() { e.lits, e.path = outer, outerPath }()
	add := func(ed *edge) {
		if ed.cond == c.False {
			if l != nil && ed.to != nil && !l.blocks[ed.to] {
				res.prunedExit = true
			}
			return
		}
		switch {
		case ed.to == nil, l != nil && !l.blocks[ed.to]:
			res.outs = append(res.outs, ed)
		case l != nil && ed.to == entry:
			res.latches = append(res.latches, ed)
		default:
			pending[ed.to] = append(pending[ed.to], ed)
		}
	}
	for _, b := range fr.info.order {
		child := fr.info.headers[b]
		if child == l {
			child = nil
		}
		if child != nil {
			if child.parent != l {
				continue
			}
		} else if fr.info.loopOf[b] != l {
			continue
		}
		var n *node
		var cur *State
		var pv []*Term
		if b == entry {
			n, cur, pv = root, st, phiVals
		} else {
			ins := pending[b]
			if len(ins) == 0 {
				continue
			}
			d := ins[0].src
			for _, x := range ins[1:] {
				d = lca(d, x.src)
			}
			n = &node{blk: b, idom: d, depth: d.depth + 1}
			conds := make([]*Term, len(ins))
			care := c.False
			for i, x := range ins {
				conds[i] = e.rel(x, d)
				care = c.Or(care, conds[i])
			}
			if care == c.False {
				continue
			}
			n.care = care
			n.lits = append(d.lits[:len(d.lits):len(d.lits)], e.stepsOf(care)...)
			cur, pv = e.mergeEdges(ins, conds, care, b)
		}
		e.lits = append(outer[:len(outer):len(outer)], n.lits...)
		if e.Collect {
			e.path = outerPath[:len(outerPath):len(outerPath)]
			for x := n; x != nil; x = x.idom {
				if x.care != c.True {
					e.path = append(e.path, x.care)
				}
			}
		}
		if child != nil {
			for _, ed := range e.loop(fr, child, cur, pv) {
				ed.src = n
				add(ed)
			}
			continue
		}
		for i, p := range phis(b) {
			fr.env[p] = pv[i]
		}
		for _, ed := range e.block(fr, b, cur) {
			ed.src = n
			add(ed)
		}
	}
	for _, list := range [][]*edge{res.outs, res.latches} {
		for _, ed := range list {
			ed.cond = e.rel(ed, root)
		}
	}
	keep := func(l []*edge) []*edge {
		var out []*edge
		for _, x := range l {
			if x.cond != c.False {
				out = append(out, x)
			}
		}
		return out
	}
	res.outs, res.latches = keep(res.outs), keep(res.latches)
	return res
}

// stepsOf gives the literals of a condition, in order.
func (e *Ev) stepsOf(cond *Term) []pathStep {
	var out []pathStep
	m := e.c.literals(cond)
	for a, v := range m {
		out = append(out, pathStep{a, v == e.c.True})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].cond.Key < out[j].cond.Key })
	return out
}

// decide evaluates a condition that the conditions passed before determine.
func (e *Ev) decide(cond *Term) *Term {
	c := e.c
	if cond == c.True || cond == c.False || len(e.lits) == 0 {
		return cond
	}
	t := c.asBDD(cond)
	for _, s := range e.lits {
		if b := c.famBase(s.cond); b != nil {
			t = c.assume(t, s.cond, s.val, b)
		} else if s.val {
			t = c.Constrain(t, s.cond)
		} else {
			t = c.Constrain(t, c.Not(s.cond))
		}
		if t == c.True || t == c.False {
			return t
		}
	}
	return cond
}

// mergeEdges joins the states and phi operands arriving at a block.
func (e *Ev) mergeEdges(ins []*edge, conds []*Term, care *Term, b *ssa.BasicBlock) (*State, []*Term) {
	var ps []*ssa.Phi
	if b != nil {
		ps = phis(b)
	}
	if len(ins) == 1 {
		return ins[0].st.clone(), ins[0].vals
	}
	if care != e.c.True {
		rel := make([]*Term, len(conds))
		for i, x := range conds {
			rel[i] = e.c.Constrain(x, care)
		}
		conds = rel
	}
	sts := make([]*State, len(ins))
	for i, x := range ins {
		sts[i] = x.st
	}
	out := e.mergeStates(conds, sts, care)
	n := len(ins)
	nv := len(ins[0].vals)
	vals := make([]*Term, nv)
	for k := range vals {
		var typ types.Type
		if k < len(ps) {
			typ = ps[k].Type()
		}
		v := ins[n-1].vals[k]
		same := true
		for i := n - 2; i >= 0; i-- {
			if ins[i].vals[k] != v {
				same = false
			}
		}
		if !same {
			for i := n - 2; i >= 0; i-- {
				v = e.merge2(sts[i], out, conds[i], ins[i].vals[k], v, typ)
			}
			v = e.constrainVal(v, care)
		}
		vals[k] = v
	}
	return out, vals
}

func (e *Ev) val(fr *frame, v ssa.Value) *Term {
	c := e.c
	switch x := v.(type) {
	case *ssa.Const:
		return e.constant(x)
	case *ssa.Global:
		return e.global(x)
	case *ssa.Function:
		return e.closure(x, nil)
	case *ssa.Builtin:
		return c.mk("builtin", x.Name(), KOther)
	case *ssa.Parameter:
		for i, p := range fr.fn.Params {
			if p == x {
				return fr.args[i]
			}
		}
	case *ssa.FreeVar:
		for i, p := range fr.fn.FreeVars {
			if p == x {
				return fr.free[i]
			}
		}
	}
	t, ok := fr.env[v]
	if !ok {
		undecided("value %s of %s used before its definition", v.Name(), fr.fn)
	}
	return t
}

func (e *Ev) closure(fn *ssa.Function, bind []*Term) *Term {
	return e.c.intern(&Term{Op: "closure", Aux: fn.String(), Kind: KOther, Args: bind, Val: fn, Typ: fn.Signature})
}

func (e *Ev) constant(x *ssa.Const) *Term {
	c := e.c
	if x.Value == nil {
		return e.zero(x.Type())
	}
	k := kindOf(x.Type())
	switch k {
	case KBool:
		return c.Bool(constant.BoolVal(x.Value))
	case KStr:
		if x.Value.Kind() == constant.String {
			return c.Str(constant.StringVal(x.Value))
		}
	case KInt:
		v := constant.ToInt(x.Value)
		if r, ok := new(big.Rat).SetString(v.ExactString()); ok {
			return c.Const(KInt, r)
		}
	case KF64:
		f, _ := constant.Float64Val(x.Value)
		return c.FConst(k, f)
	case KF32:
		f, _ := constant.Float32Val(x.Value)
		return c.FConst(k, float64(f))
	}
	undecided("constant %s", x)
	return nil
}

// block runs the instructions of a block and gives its out edges.
func (e *Ev) block(fr *frame, b *ssa.BasicBlock, st *State) []*edge {
	c := e.c
	for _, in := range b.Instrs {
		if p := in.Pos(); p.IsValid() {
			c.CurPos = p
		}
		if e.Collect {
			e.need(fr, in, st)
		}
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef, *ssa.RunDefers:
			continue
		case *ssa.If:
			e.Branches++
			cond := e.decide(e.val(fr, x.Cond))
			return []*edge{e.mkEdge(fr, b, 0, cond, st), e.mkEdge(fr, b, 1, c.Not(cond), st)}
		case *ssa.Jump:
			return []*edge{e.mkEdge(fr, b, 0, c.True, st)}
		case *ssa.Return:
			rs := make([]*Term, len(x.Results))
			for i, r := range x.Results {
				rs[i] = e.val(fr, r)
			}
			return []*edge{{cond: c.True, st: st, from: b, vals: rs}}
		case *ssa.Panic:
			return nil
		case *ssa.Store:
			v := e.val(fr, x.Val)
			e.store(st, e.val(fr, x.Addr), v, x.Val.Type())
		case *ssa.MapUpdate:
			m := e.val(fr, x.Map)
			e.mapPut(st, m, e.val(fr, x.Key), e.val(fr, x.Value))
		case *ssa.Call:
			r := e.call(fr, &x.Call, st, x)
			if r == nil && st.dead {
				return nil
			}
			fr.env[x] = r
		case *ssa.Defer:
			e.deferCall(fr, x, st)
		case ssa.Value:
			fr.env[x] = e.instr(fr, x, st)
		default:
			undecided("%s: instruction %T", e.prog.Fset.Position(in.Pos()), in)
		}
	}
	undecided("block without terminator")
	return nil
}

func (e *Ev) mkEdge(fr *frame, b *ssa.BasicBlock, k int, cond *Term, st *State) *edge {
	to := b.Succs[k]
	pidx := -1
	n := 0
	for i, p := range to.Preds {
		if p == b {
			// two edges between the same blocks
			if n == dupIndex(b, k) {
				pidx = i
				break
			}
			n++
		}
	}
	ed := &edge{to: to, from: b, pidx: pidx, cond: cond, st: st}
	if cond != e.c.False {
		for _, p := range phis(to) {
			ed.vals = append(ed.vals, e.val(fr, p.Edges[pidx]))
		}
	}
	return ed
}

func dupIndex(b *ssa.BasicBlock, k int) int {
	n := 0
	for i := 0; i < k; i++ {
		if b.Succs[i] == b.Succs[k] {
			n++
		}
	}
	return n
}

// ---------------------------------------------------------------- functions

func (e *Ev) callFn(fn *ssa.Function, args, free []*Term, st *State) *Term {
	c := e.c
	if len(fn.Blocks) == 0 {
		undecided("no body for %s", fn)
	}
	n := 0
	for _, f := range e.stack {
		if f == fn {
			n++
		}
	}
	if n > 3 || len(e.stack) > 60 {
		undecided("recursion through %s", fn)
	}
	pos := c.CurPos
	e.stack = append(e.stack, fn)
	defer func() { e.stack = e.stack[:len(e.stack)-1]; c.CurPos = pos }()
	e.Fns[fn.String()]++
	if fn.Recover != nil {
		undecided("%s recovers panics", fn)
	}
	fr := &frame{fn: fn, info: e.info(fn), env: map[ssa.Value]*Term{}, args: args, free: free}
	res := e.region(fr, nil, fn.Blocks[0], st.clone(), nil)
	if len(res.outs) == 0 {
		st.dead = true
		return nil
	}
	conds := make([]*Term, len(res.outs))
	care := c.False
	for i, ed := range res.outs {
		conds[i] = ed.cond
		care = c.Or(care, ed.cond)
	}
	// biggest condition last
	out, vals := e.mergeEdges(res.outs, conds, care, nil)
	*st = *out
	rs := fn.Signature.Results()
	switch rs.Len() {
	case 0:
		return c.Nil()
	case 1:
		return vals[0]
	}
	return c.Struct("tuple", rs, vals)
}

// ---------------------------------------------------------------- instructions

func (e *Ev) instr(fr *frame, v ssa.Value, st *State) *Term {
	c := e.c
	switch x := v.(type) {
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		return e.alloc(st, t, e.zero(t))
	case *ssa.FieldAddr:
		pt := x.X.Type().Underlying().(*types.Pointer).Elem()
		return e.faddr(e.val(fr, x.X), x.Field, pt)
	case *ssa.Field:
		t := c.FldT(e.val(fr, x.X), x.X.Type(), x.Field)
		return e.raw(st, t, x.Type())
	case *ssa.IndexAddr:
		i := e.val(fr, x.Index)
		s := e.val(fr, x.X)
		return e.indexAddr(st, s, i, x.X.Type())
	case *ssa.Index:
		s := e.val(fr, x.X)
		i := e.val(fr, x.Index)
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return c.Get(s, i, types.Typ[types.Uint8])
		}
		return c.Get(s, i, x.Type())
	case *ssa.Lookup:
		return e.lookup(st, x, e.val(fr, x.X), e.val(fr, x.Index))
	case *ssa.UnOp:
		return e.unop(fr, x, st)
	case *ssa.BinOp:
		return e.binop(x.Op, e.val(fr, x.X), e.val(fr, x.Y), x.X.Type(), st)
	case *ssa.Convert:
		return e.convert(st, e.val(fr, x.X), x.X.Type(), x.Type())
	case *ssa.MultiConvert:
		return e.convert(st, e.val(fr, x.X), x.X.Type(), x.Type())
	case *ssa.ChangeType:
		t := e.val(fr, x.X)
		return e.retype(t, x.Type())
	case *ssa.ChangeInterface:
		return e.val(fr, x.X)
	case *ssa.MakeInterface:
		return e.mkIface(e.val(fr, x.X), x.X.Type())
	case *ssa.TypeAssert:
		return e.typeAssert(st, e.val(fr, x.X), x)
	case *ssa.MakeClosure:
		var b []*Term
		for _, y := range x.Bindings {
			b = append(b, e.val(fr, y))
		}
		return e.closure(x.Fn.(*ssa.Function), b)
	case *ssa.MakeSlice:
		et := x.Type().Underlying().(*types.Slice).Elem()
		n := e.val(fr, x.Len)
		s := e.newSlice(st, c.ZSeq(n, e.zero(et)), x.Type())
		s = e.sl(s.Args[0], c.Int(0), n, x.Type())
		e.caps[uidOf(s.Args[0])] = e.val(fr, x.Cap)
		return s
	case *ssa.MakeMap:
		return e.alloc(st, x.Type(), c.mk("map0", "", KOther))
	case *ssa.Slice:
		return e.slice(fr, x, st)
	case *ssa.Extract:
		t := e.val(fr, x.Tuple)
		typ := x.Type()
		return e.raw(st, c.Ext(t, x.Index, typ), typ)
	case *ssa.Range:
		s := e.val(fr, x.X)
		if s.Kind != KStr {
			undecided("%s: iteration over a map", e.pos(x.Pos()))
		}
		o := e.alloc(st, types.Typ[types.Int], c.Int(0))
		return c.mk("range", "", KOther, o, s)
	case *ssa.Next:
		r := e.val(fr, x.Iter)
		p := st.objs[uidOf(r.Args[0])]
		s := r.Args[1]
		ok := c.Lt0(c.Sub(p, c.Len(s)))
		ru := c.Call("rune", KInt, s, p)
		sz := c.Call("runelen", KInt, s, p)
		if q, isc := p.IntVal(); isc && s.Op == "str" && int(q) < len(s.Aux) {
			for i, rr := range s.Aux[q:] {
				if i == 0 {
					ru = c.Int(int64(rr))
					sz = c.Int(int64(len(string(rr))))
				}
				break
			}
		}
		st.objs[uidOf(r.Args[0])] = c.Add(p, c.Ite(ok, sz, c.Int(0)))
		return c.Struct("tuple", x.Type(), []*Term{ok, p, ru})
	case *ssa.SliceToArrayPointer, *ssa.Select, *ssa.MakeChan:
		undecided("%s: %T", e.pos(x.Pos()), x)
	}
	undecided("%s: %T", e.pos(v.Pos()), v)
	return nil
}

func (e *Ev) pos(p token.Pos) string {
	q := e.prog.Fset.Position(p)
	return fmt.Sprintf("%s:%d", q.Filename, q.Line)
}

func (e *Ev) indexAddr(st *State, s, i *Term, typ types.Type) *Term {
	c := e.c
	switch s.Op {
	case "sl":
		return c.intern(&Term{Op: "iaddr", Kind: KPtr, Args: []*Term{s.Args[0], c.Add(s.Args[1], i)}, Typ: elemType(typ)})
	case "nil":
		return s
	case "obj", "faddr", "iaddr":
		return c.intern(&Term{Op: "iaddr", Kind: KPtr, Args: []*Term{s, i}, Typ: elemType(typ)})
	case "ite":
		return c.Ite(s.Args[0], e.indexAddr(st, s.Args[1], i, typ), e.indexAddr(st, s.Args[2], i, typ))
	}
	if isSlice(typ) {
		return e.indexAddr(st, e.view(st, s, typ), i, typ)
	}
	undecided("%s: index of %s", e.pos(c.CurPos), s.Op)
	return nil
}

func (e *Ev) unop(fr *frame, x *ssa.UnOp, st *State) *Term {
	c := e.c
	v := e.val(fr, x.X)
	switch x.Op {
	case token.MUL:
		return e.load(st, v, x.Type())
	case token.NOT:
		return c.Not(v)
	case token.SUB:
		return c.Neg(v)
	case token.XOR:
		return c.Bitwise("xor", v, c.Int(-1))
	}
	undecided("%s: operator %s", e.pos(x.Pos()), x.Op)
	return nil
}

func (e *Ev) binop(op token.Token, a, b *Term, typ types.Type, st *State) *Term {
	c := e.c
	k := kindOf(typ)
	switch op {
	case token.EQL:
		return e.eq(st, a, b, typ)
	case token.NEQ:
		return c.Not(e.eq(st, a, b, typ))
	}
	if k == KStr {
		switch op {
		case token.ADD:
			return c.SCat(a, b)
		case token.LSS:
			return c.strLess(a, b)
		case token.GTR:
			return c.strLess(b, a)
		case token.LEQ:
			return c.Not(c.strLess(b, a))
		case token.GEQ:
			return c.Not(c.strLess(a, b))
		}
	}
	if isNum(k) {
		switch op {
		case token.ADD:
			return c.Add(a, b)
		case token.SUB:
			return c.Sub(a, b)
		case token.MUL:
			return c.Mul(a, b)
		case token.QUO:
			if k == KInt {
				return c.IDiv(a, b)
			}
			return c.FDiv(a, b)
		case token.REM:
			return c.IRem(a, b)
		case token.LSS:
			return c.Lt0(c.Sub(a, b))
		case token.GTR:
			return c.Lt0(c.Sub(b, a))
		case token.LEQ:
			return c.Le0(c.Sub(a, b))
		case token.GEQ:
			return c.Le0(c.Sub(b, a))
		case token.AND:
			return c.Bitwise("and", a, b)
		case token.OR:
			return c.Bitwise("or", a, b)
		case token.XOR:
			return c.Bitwise("xor", a, b)
		case token.AND_NOT:
			return c.Bitwise("and", a, c.Bitwise("xor", b, c.Int(-1)))
		case token.SHL:
			return c.Shl(a, b)
		case token.SHR:
			return c.Shr(a, b)
		}
	}
	if k == KBool {
		switch op {
		case token.AND, token.LAND:
			return c.And(a, b)
		case token.OR, token.LOR:
			return c.Or(a, b)
		}
	}
	undecided("%s: operator %s on %s", e.pos(c.CurPos), op, typ)
	return nil
}

func (c *Ctx) strLess(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	if a.Op == "str" && b.Op == "str" {
		return c.Bool(a.Aux < b.Aux)
	}
	return c.mk("slt", "", KBool, a, b)
}

func (e *Ev) eq(st *State, a, b *Term, typ types.Type) *Term {
	c := e.c
	if a.Op == "sl" || b.Op == "sl" { // comparison with nil
		x, y := a, b
		if x.Op != "sl" {
			x, y = b, a
		}
		if y.Op != "nil" {
			undecided("slice comparison")
		}
		ct := e.content(st, x)
		if ct.Op == "app" || ct.Op == "zseq" || ct.Op == "cat" || ct.Op == "tab" {
			return c.False
		}
		// a nil slice and an empty one are not told apart
		return c.Lt0(c.Sub(c.Len(ct), c.Int(1)))
	}
	return c.Eq(a, b)
}

func intSize(t types.Type) (bits int, unsigned bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 64, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, false
	case types.Uint8:
		return 8, true
	case types.Int16:
		return 16, false
	case types.Uint16:
		return 16, true
	case types.Int32:
		return 32, false
	case types.Uint32:
		return 32, true
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, true
	}
	return 64, false
}

func (e *Ev) convert(st *State, v *Term, from, to types.Type) *Term {
	c := e.c
	fk, tk := kindOf(from), kindOf(to)
	switch {
	case fk == KInt && tk == KInt:
		fb, fu := intSize(from)
		tb, tu := intSize(to)
		if tb > fb || tb == fb && (tu == fu || tb == 64) {
			return v
		}
		if n, ok := v.IntVal(); ok {
			switch {
			case tu && n >= 0 && n < 1<<uint(tb):
				return v
			case !tu && n >= -(1<<uint(tb-1)) && n < 1<<uint(tb-1):
				return v
			}
		}
		return c.mk("conv", fmt.Sprintf("%d%v", tb, tu), KInt, v)
	case fk == KInt && (tk == KF64 || tk == KF32):
		return c.I2F(v, tk)
	case (fk == KF64 || fk == KF32) && tk == KInt:
		if tb, tu := intSize(to); tb < 64 {
			return c.mk("conv", fmt.Sprintf("%d%v", tb, tu), KInt, c.Trunc(v))
		}
		return c.Trunc(v)
	case fk == KF64 && tk == KF32:
		return c.ToF32(v)
	case fk == KF32 && tk == KF64:
		return c.ToF64(v)
	case fk == tk && fk != KOther && fk != KSeq:
		return v
	case fk == KStr && tk == KSeq:
		name := "bytes"
		if s := to.Underlying().(*types.Slice); kindOf(s.Elem()) == KInt {
			if n, _ := intSize(s.Elem()); n == 32 {
				name = "runes"
			}
		}
		if v.Op == "call" && v.Aux == "str:"+name {
			return e.newSlice(st, v.Args[0], to)
		}
		return e.newSlice(st, c.mk("call", name, KSeq, v), to)
	case fk == KSeq && tk == KStr:
		name := "bytes"
		if n, _ := intSize(elemType(from)); n == 32 {
			name = "runes"
		}
		q := e.content(st, v)
		if q.Op == "call" && q.Aux == name {
			return q.Args[0]
		}
		return c.Call("str:"+name, KStr, q)
	case fk == KInt && tk == KStr:
		if n, ok := v.IntVal(); ok {
			return c.Str(string(rune(n)))
		}
		return c.Call("chr", KStr, v)
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return e.retype(v, to)
	}
	undecided("%s: conversion from %s to %s", e.pos(c.CurPos), from, to)
	return nil
}

func (e *Ev) retype(v *Term, to types.Type) *Term {
	c := e.c
	switch v.Op {
	case "struct":
		if _, ok := to.Underlying().(*types.Struct); ok {
			return c.Struct(typeName(to), to, v.Args)
		}
	case "ite":
		return c.Ite(v.Args[0], e.retype(v.Args[1], to), e.retype(v.Args[2], to))
	}
	return v
}

func (e *Ev) mkIface(v *Term, t types.Type) *Term {
	c := e.c
	tn := typeName(t)
	switch v.Op {
	case "ite":
		if _, ok := t.Underlying().(*types.Pointer); ok {
			return c.Ite(v.Args[0], e.mkIface(v.Args[1], t), e.mkIface(v.Args[2], t))
		}
	case "unbox":
		if v.Aux == tn {
			return v.Args[0]
		}
	}
	return c.intern(&Term{Op: "iface", Aux: tn, Kind: KOther, Args: []*Term{v}, Typ: t})
}

func (e *Ev) typeAssert(st *State, v *Term, x *ssa.TypeAssert) *Term {
	c := e.c
	if it, ok := x.AssertedType.Underlying().(*types.Interface); ok {
		is := e.implements(v, it, typeName(x.AssertedType))
		if !x.CommaOk {
			return v
		}
		return c.Struct("tuple", x.Type(), []*Term{c.Ite(is, v, c.Nil()), is})
	}
	tn := typeName(x.AssertedType)
	r := e.raw(st, c.Unbox(v, tn, x.AssertedType), x.AssertedType)
	if !x.CommaOk {
		return r
	}
	is := c.IsType(v, tn)
	if _, ok := x.AssertedType.Underlying().(*types.Pointer); !ok {
		r = e.merge(st, is, r, e.zero(x.AssertedType), x.AssertedType)
	}
	return c.Struct("tuple", x.Type(), []*Term{r, is})
}

func (e *Ev) implements(v *Term, it *types.Interface, name string) *Term {
	c := e.c
	switch v.Op {
	case "nil":
		return c.False
	case "iface":
		return c.Bool(types.Implements(v.Typ, it))
	case "ite":
		return c.Ite(v.Args[0], e.implements(v.Args[1], it, name), e.implements(v.Args[2], it, name))
	}
	return c.mk("impl", name, KBool, v)
}

func (e *Ev) slice(fr *frame, x *ssa.Slice, st *State) *Term {
	c := e.c
	s := e.val(fr, x.X)
	var lo, hi *Term
	if x.Low != nil {
		lo = e.val(fr, x.Low)
	} else {
		lo = c.Int(0)
	}
	if x.High != nil {
		hi = e.val(fr, x.High)
	}
	if s.Kind == KStr {
		if hi == nil {
			hi = c.Len(s)
		}
		return c.Sub3(s, lo, hi)
	}
	if p, ok := x.X.Type().Underlying().(*types.Pointer); ok { // array
		if s.Op != "obj" {
			undecided("%s: slice of an array in %s", e.pos(x.Pos()), s.Op)
		}
		if hi == nil {
			hi = c.Int(p.Elem().Underlying().(*types.Array).Len())
		}
		e.caps[uidOf(s)] = c.Int(p.Elem().Underlying().(*types.Array).Len())
		return e.sl(s, lo, hi, x.Type())
	}
	return e.reslice(st, s, lo, hi, x.X.Type())
}

func (e *Ev) reslice(st *State, s, lo, hi *Term, typ types.Type) *Term {
	c := e.c
	switch s.Op {
	case "nil":
		return s
	case "sl":
		h := s.Args[2]
		if hi != nil {
			h = c.Add(s.Args[1], hi)
		}
		return e.sl(s.Args[0], c.Add(s.Args[1], lo), h, typ)
	}
	return e.reslice(st, e.view(st, s, typ), lo, hi, typ)
}

// ---------------------------------------------------------------- maps

func (e *Ev) mapPut(st *State, m, k, v *Term) {
	if m.Op != "obj" {
		undecided("%s: write to a symbolic map", e.pos(e.c.CurPos))
	}
	u := uidOf(m)
	st.objs[u] = e.c.mk("mput", "", KOther, st.objs[u], e.purify(st, k, 0), e.purify(st, v, 0))
}

func (e *Ev) lookup(st *State, x *ssa.Lookup, m, k *Term) *Term {
	c := e.c
	if m.Kind == KStr {
		return c.Get(m, k, types.Typ[types.Uint8])
	}
	mt := x.X.Type().Underlying().(*types.Map)
	var ct *Term
	if m.Op == "obj" {
		ct = st.objs[uidOf(m)]
	} else {
		ct = c.mk("mapof", "", KOther, m)
	}
	var get, has func(t *Term) *Term
	z := e.zero(mt.Elem())
	get = func(t *Term) *Term {
		switch t.Op {
		case "map0":
			return z
		case "mput":
			return e.merge(st, c.Eq(k, t.Args[1]), t.Args[2], get(t.Args[0]), mt.Elem())
		case "ite":
			return e.merge(st, t.Args[0], get(t.Args[1]), get(t.Args[2]), mt.Elem())
		}
		return c.intern(&Term{Op: "mget", Kind: kindOf(mt.Elem()), Args: []*Term{t, k}, Typ: mt.Elem()})
	}
	has = func(t *Term) *Term {
		switch t.Op {
		case "map0":
			return c.False
		case "mput":
			return c.Or(c.Eq(k, t.Args[1]), has(t.Args[0]))
		case "ite":
			return c.Ite(t.Args[0], has(t.Args[1]), has(t.Args[2]))
		}
		return c.mk("mhas", "", KBool, t, k)
	}
	v := e.raw(st, get(ct), mt.Elem())
	if x.CommaOk {
		return c.Struct("tuple", x.Type(), []*Term{v, has(ct)})
	}
	return v
}

// ---------------------------------------------------------------- globals

func (e *Ev) inRepo(p *types.Package) bool {
	return p != nil && (p.Path() == e.repo || strings.HasPrefix(p.Path(), e.repo+"/"))
}

func (e *Ev) global(g *ssa.Global) *Term {
	if !e.inRepo(g.Pkg.Pkg) {
		return e.c.mk("glob", g.String(), KPtr)
	}
	u, ok := e.globals[g]
	if !ok {
		undecided("global %s was not initialised", g)
	}
	return e.objTerm(u, g.Type().Underlying().(*types.Pointer).Elem())
}

// InitGlobals evaluates the package initialisers.
func (e *Ev) InitGlobals() {
	st := e.newState()
	var pkgs []*ssa.Package
	for _, p := range e.prog.AllPackages() {
		if e.inRepo(p.Pkg) {
			pkgs = append(pkgs, p)
		}
	}
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].Pkg.Path() < pkgs[j].Pkg.Path() })
	for _, p := range pkgs {
		var names []string
		for n := range p.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			if g, ok := p.Members[n].(*ssa.Global); ok {
				t := g.Type().Underlying().(*types.Pointer).Elem()
				e.uid++
				e.globals[g] = e.uid
				st.objs[e.uid] = e.zero(t)
			}
		}
	}
	for _, p := range pkgs {
		if f := p.Func("init"); f != nil {
			e.callFn(f, nil, nil, st)
		}
	}
	e.global0 = st
}
