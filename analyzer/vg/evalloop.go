package vg

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// loop evaluates a loop from its entry state and gives its exit edges.
func (e *Ev) loop(fr *frame, l *loopInfo, st *State, phi0 []*Term) []*edge {
	e.LoopsDone++
	from := len(e.obls)
	if outs, ok := e.unroll(fr, l, st, phi0); ok {
		e.Unrolled++
		return outs
	}
	e.obls = e.obls[:from]
	return e.summarise(fr, l, st, phi0)
}

func (e *Ev) snapshot(fr *frame, l *loopInfo, eds []*edge) {
	for _, ed := range eds {
		ed.live = map[ssa.Value]*Term{}
		for _, v := range l.liveOut {
			if t, ok := fr.env[v]; ok {
				ed.live[v] = t
			}
		}
	}
}

func (e *Ev) unroll(fr *frame, l *loopInfo, st *State, phi0 []*Term) ([]*edge, bool) {
	c := e.c
	var outs []*edge
	cur, vals, pc := st.clone(), phi0, c.True
	for it := 0; ; it++ {
		if it > e.MaxUnroll {
			return nil, false
		}
		// liveOut values of a previous iteration must not leak
		for _, v := range l.liveOut {
			delete(fr.env, v)
		}
		outer, path := e.lits, e.path
		e.lits = append(outer[:len(outer):len(outer)], e.stepsOf(pc)...)
		e.path = append(path[:len(path):len(path)], pc)
		r := e.region(fr, l, l.header, cur, vals)
		e.lits, e.path = outer, path
		if len(r.latches) > 0 && !r.prunedExit {
			return nil, false
		}
		e.snapshot(fr, l, r.outs)
		for _, ed := range r.outs {
			ed.cond = c.And(pc, ed.cond)
			if ed.cond != c.False {
				outs = append(outs, ed)
			}
		}
		if len(r.latches) == 0 {
			break
		}
		conds := make([]*Term, len(r.latches))
		care := c.False
		for i, x := range r.latches {
			conds[i] = x.cond
			care = c.Or(care, x.cond)
		}
		pc = c.And(pc, care)
		if pc == c.False {
			break
		}
		cur, vals = e.mergeEdges(r.latches, conds, care, l.header)
	}
	// values used after the loop
	for _, v := range l.liveOut {
		var have []*edge
		for _, ed := range outs {
			if ed.live[v] != nil {
				have = append(have, ed)
			}
		}
		if len(have) == 0 {
			continue
		}
		fr.env[v] = e.joinLive(have, v)
	}
	return outs, true
}

// joinLive combines the value of v at several exits.
func (e *Ev) joinLive(have []*edge, v ssa.Value) *Term {
	c := e.c
	last := have[len(have)-1].live[v]
	same, slices := true, false
	for _, ed := range have {
		if ed.live[v] != last {
			same = false
		}
		if ed.live[v].Op == "sl" {
			slices = true
		}
		if ed.live[v].Op == "struct" && ed.live[v].Obj && isTupleLike(ed.live[v]) {
			slices = slices || false
		}
	}
	if same {
		return last
	}
	if slices {
		sameObj := true
		for _, ed := range have {
			t := ed.live[v]
			if t.Op != "sl" || last.Op != "sl" || t.Args[0] != last.Args[0] {
				sameObj = false
			}
		}
		if !sameObj {
			e.uid++
			o := e.objTerm(e.uid, v.Type())
			var n *Term
			for i := len(have) - 1; i >= 0; i-- {
				ct := e.content(have[i].st, have[i].live[v])
				have[i].st = have[i].st.clone()
				have[i].st.objs[e.uid] = ct
				e.linkTo(e.uid, have[i].live[v], true)
				if n == nil {
					n = c.Len(ct)
				} else {
					n = c.Ite(have[i].cond, c.Len(ct), n)
				}
			}
			return e.sl(o, c.Int(0), n, v.Type())
		}
	}
	var join func(ts []*Term) *Term
	join = func(ts []*Term) *Term {
		r := ts[len(ts)-1]
		if r.Op == "sl" {
			lo, hi := r.Args[1], r.Args[2]
			for i := len(ts) - 2; i >= 0; i-- {
				lo = c.Ite(have[i].cond, ts[i].Args[1], lo)
				hi = c.Ite(have[i].cond, ts[i].Args[2], hi)
			}
			return e.sl(r.Args[0], lo, hi, r.Typ)
		}
		if r.Op == "struct" {
			args := make([]*Term, len(r.Args))
			for k := range args {
				sub := make([]*Term, len(ts))
				for i := range ts {
					sub[i] = e.comp(ts[i], r, k)
				}
				args[k] = join(sub)
			}
			return c.Struct(r.Aux, r.Typ, args)
		}
		for i := len(ts) - 2; i >= 0; i-- {
			r = c.Ite(have[i].cond, ts[i], r)
		}
		return r
	}
	ts := make([]*Term, len(have))
	for i, ed := range have {
		ts[i] = ed.live[v]
	}
	return join(ts)
}

func isTupleLike(t *Term) bool { return isTuple(t) }

// lvar is a loop variable during summarisation.
type lvar struct {
	key  string
	kind byte // p: phi leaf, o: object leaf, m: memory, e: effect
	idx  int  // phi index or uid
	path []int
	name string
	sym  *Term
	seq  bool // slice-valued leaf: its backing object holds sym
	back int  // uid of the backing object
	typ  types.Type
	init *Term
	next *Term
}

func (e *Ev) summarise(fr *frame, l *loopInfo, st *State, phi0 []*Term) []*edge {
	c := e.c
	ps := phis(l.header)
	vars := map[string]*lvar{}
	var order []*lvar
	addVar := func(v *lvar) {
		if vars[v.key] != nil {
			undecided("%s: loop variable %s added twice", e.pos(c.CurPos), v.key)
		}
		vars[v.key] = v
		order = append(order, v)
	}
	mkSym := func(v *lvar, old *Term) {
		if v.seq {
			v.sym = c.Fresh("q", KSeq, v.typ)
			e.uid++
			v.back = e.uid
			return
		}
		k := old.Kind
		if k == KPtr && old.Op == "nil" && v.typ != nil {
			k = kindOf(v.typ)
		}
		typ := v.typ
		if typ == nil && k == KSeq {
			typ = old.Typ
		}
		v.sym = c.Fresh("v", k, typ)
	}
	// scalar phis first: almost always loop variables
	for i, p := range ps {
		switch kindOf(p.Type()) {
		case KBool, KInt, KF64, KF32, KStr:
			v := &lvar{key: fmt.Sprintf("p%d", i), kind: 'p', idx: i, typ: p.Type()}
			mkSym(v, phi0[i])
			addVar(v)
		}
	}
	st = st.clone()
	from := len(e.obls)
	for round := 0; ; round++ {
		e.obls = e.obls[:from]
		if round > 30 {
			undecided("%s: loop does not stabilise", e.pos(l.header.Instrs[0].Pos()))
		}
		hst := st.clone()
		hphi := append([]*Term{}, phi0...)
		for _, v := range order {
			t := v.sym
			if v.seq {
				hst.objs[v.back] = v.sym
				t = e.sl(e.objTerm(v.back, v.typ), c.Int(0), c.Len(v.sym), v.typ)
			}
			switch v.kind {
			case 'p':
				v.init = at(e, hphi[v.idx], v.path)
				hphi[v.idx] = e.put(hphi[v.idx], v.path, t)
			case 'o':
				v.init = at(e, hst.objs[v.idx], v.path)
				hst.objs[v.idx] = e.put(hst.objs[v.idx], v.path, t)
			case 'm':
				v.init = e.memOf(hst, v.name)
				hst.mem[v.name] = t
			case 'e':
				v.init = hst.eff[v.name]
				if v.init == nil {
					v.init = c.mk("eff0", v.name, KOther)
				}
				hst.eff[v.name] = t
			}
			if v.seq {
				e.linkTo(v.back, v.init, true)
				v.init = e.content(st, v.init)
			}
		}
		mark := e.uid
		hh := hst.clone()
		for _, v := range l.liveOut {
			delete(fr.env, v)
		}
		r := e.region(fr, l, l.header, hst, hphi)
		if len(r.latches) == 0 {
			e.snapshot(fr, l, r.outs)
			if len(order) > 0 { // only the first iteration runs: use concrete values
				mm := map[*Term]*Term{}
				for _, v := range order {
					mm[v.sym] = v.init
				}
				e.substObls(from, mm)
				return e.exits(fr, l, r.outs, func(i int) *Term { return r.outs[i].cond }, mm, mark)
			}
			return r.outs
		}
		conds := make([]*Term, len(r.latches))
		care := c.False
		for i, x := range r.latches {
			conds[i] = x.cond
			care = c.Or(care, x.cond)
		}
		lst, lphi := e.mergeEdges(r.latches, conds, care, l.header)
		n0 := len(order)
		redo := false
		// views made inside the loop of slices that do not change
		for _, k := range sortedViews(lst.views) {
			uid := lst.views[k]
			if old, ok := hh.views[k]; ok && old == uid || uid <= mark {
				continue
			}
			if h, ok := e.homes[uid]; ok && lst.objs[uid] != nil {
				q := c.Sel(e.memOf(hh, h.class), h.p, h.class, h.typ)
				if lst.objs[uid] != q && !e.hasLoopSym(q, order) && !e.hasLoopSym(h.p, order) {
					e.viewAt(st, c.Sel(e.memOf(st, h.class), h.p, h.class, h.typ), h.typ, k, h)
					redo = true
				}
			}
		}
		// slices overwritten in the loop are so from its second iteration
		held := map[int]bool{}
		for _, v := range order {
			if v.seq {
				held[v.back] = true
			}
		}
		for uid := range lst.gone {
			if _, ok := st.objs[uid]; ok && !st.gone[uid] && !held[uid] {
				st.overwrite(uid)
				redo = true
			}
		}
		memo := map[*Term]*Term{}
		var diff func(kind byte, idx int, path []int, h, n *Term, typ types.Type)
		diff = func(kind byte, idx int, path []int, h, n *Term, typ types.Type) {
			if h == n {
				return
			}
			key := string(kind) + strconv.Itoa(idx)
			for _, p := range path {
				key += "." + strconv.Itoa(p)
			}
			if v := vars[key]; v != nil {
				return
			}
			if n.Op == "undef" {
				return
			}
			if sh := structShape(h, n); sh != nil {
				switch u := sh.(type) {
				case *types.Struct:
					for i := 0; i < u.NumFields(); i++ {
						diff(kind, idx, append(append([]int{}, path...), i), e.part(h, i), e.part(n, i), u.Field(i).Type())
					}
				case *types.Tuple:
					for i := 0; i < u.Len(); i++ {
						diff(kind, idx, append(append([]int{}, path...), i), e.part(h, i), e.part(n, i), u.At(i).Type())
					}
				}
				return
			}
			v := &lvar{key: key, kind: kind, idx: idx, path: path, typ: typ}
			if h.Op == "sl" || n.Op == "sl" {
				v.seq = true
				if v.typ == nil || !isSlice(v.typ) {
					if n.Op == "sl" {
						v.typ = n.Typ
					} else {
						v.typ = h.Typ
					}
				}
			}
			old := h
			if old.Op == "nil" && n.Op != "nil" && n.Kind != KPtr {
				old = n
			}
			if h.Op == "obj" || n.Op == "obj" && uidOf(n) <= mark {
				undecided("%s: pointer to a local variable changes in a loop", e.pos(l.header.Instrs[0].Pos()))
			}
			mkSym(v, old)
			addVar(v)
		}
		for i, p := range ps {
			diff('p', i, nil, hphi[i], lphi[i], p.Type())
		}
		backs := map[int]bool{}
		for _, v := range order {
			if v.seq {
				backs[v.back] = true
			}
		}
		for _, uid := range sortedInts(hh.objs) {
			if backs[uid] {
				continue
			}
			diff('o', uid, nil, hh.objs[uid], lst.objs[uid], nil)
		}
		for _, cl := range sortedStrs(lst.mem) {
			if lst.mem[cl] != e.memOf(hh, cl) && vars["m"+cl] == nil {
				v := &lvar{key: "m" + cl, kind: 'm', name: cl}
				v.sym = c.Fresh("m", KMem, lst.mem[cl].Typ)
				addVar(v)
			}
		}
		for _, k := range sortedStrs(lst.eff) {
			if lst.eff[k] != hh.eff[k] && vars["e"+k] == nil {
				v := &lvar{key: "e" + k, kind: 'e', name: k}
				v.sym = c.Fresh("e", KOther, nil)
				addVar(v)
			}
		}
		if len(order) > n0 || redo {
			continue
		}
		// stable: collect next values
		var lvs []*LV
		for _, v := range order {
			var t *Term
			switch v.kind {
			case 'p':
				t = at(e, lphi[v.idx], v.path)
			case 'o':
				t = at(e, lst.objs[v.idx], v.path)
			case 'm':
				t = e.memOf(lst, v.name)
			case 'e':
				t = lst.eff[v.name]
			}
			if v.seq {
				t = e.content(lst, t)
			}
			v.next = e.purify1(lst, t, mark, nil, memo)
			v.init = e.purify(st, v.init, mark) // keeps older objects
			if !v.seq && v.sym.Kind != KSeq && (v.next.Op == "obj" || v.init.Op == "obj") {
				undecided("%s: pointer to a local variable changes in a loop", e.pos(l.header.Instrs[0].Pos()))
			}
			lvs = append(lvs, &LV{Sym: v.sym, Init: v.init, Next: v.next})
		}
		e.snapshot(fr, l, r.outs)
		var extra []*Term
		for _, ed := range r.outs {
			extra = append(extra, ed.cond)
			extra = append(extra, ed.vals...)
			for _, t := range ed.live {
				extra = append(extra, t)
			}
			for _, t := range ed.st.objs {
				if len(t.Free) > 0 {
					extra = append(extra, t)
				}
			}
			for _, t := range ed.st.mem {
				extra = append(extra, t)
			}
			for _, t := range ed.st.eff {
				extra = append(extra, t)
			}
		}
		exit := c.False
		for _, ed := range r.outs {
			exit = c.Or(exit, ed.cond)
		}
		e.lastOnly(lvs, exit)
		// an iteration with a next one passes the tests for it
		if lits := c.literals(care); len(lits) > 0 {
			sub := c.NewSubst(lits)
			for _, v := range lvs {
				v.Next = sub.Apply(v.Next)
			}
		}
		extra = append(extra, e.oblTerms(from)...)
		level, m := c.CloseLoop(lvs, extra, e.leastLevel(from))
		e.SummaryN++
		e.substObls(from, m)
		if e.Collect {
			cont := c.Not(c.Subst(exit, m))
			for _, o := range e.obls[from:] {
				o.Loops = append(o.Loops, loopRec{level, cont})
			}
			e.obls = append(e.obls, &Obl{Rule: "loop", Pos: e.loopPos(l), Fn: e.at(), Path: e.path[:len(e.path):len(e.path)], Cont: cont, Level: level})
		}
		if len(r.outs) == 0 {
			return nil
		}
		N := c.First(level, c.Subst(exit, m))
		mm := map[*Term]*Term{}
		for k, t := range m {
			mm[k] = c.At(t, level, N)
		}
		// the exit with the biggest condition is the default
		def := 0
		for i, ed := range r.outs {
			if c.size(ed.cond) > c.size(r.outs[def].cond) {
				def = i
			}
		}
		ec := make([]*Term, len(r.outs))
		rest := c.False
		for i, ed := range r.outs {
			if i != def {
				ec[i] = c.Subst(ed.cond, mm)
				rest = c.Or(rest, ec[i])
			}
		}
		ec[def] = c.Not(rest)
		return e.exits(fr, l, r.outs, func(i int) *Term { return ec[i] }, mm, mark)
	}
}

// loopPos is where a loop is.
func (e *Ev) loopPos(l *loopInfo) token.Pos {
	for _, in := range l.header.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	best := token.NoPos
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if p := in.Pos(); p.IsValid() && (best == token.NoPos || p < best) {
				best = p
			}
		}
	}
	return best
}

// literals are the atoms that a condition decides.
func (c *Ctx) literals(cond *Term) map[*Term]*Term {
	out := map[*Term]*Term{}
	cond = c.asBDD(cond)
	if cond == c.True || cond == c.False {
		return nil
	}
	// a node decides its atom if one side never leads to true and it is on
	// every path
	for t := cond; t.Op == "bdd"; {
		switch {
		case t.Args[2] == c.False:
			out[t.Args[0]] = c.True
			t = t.Args[1]
		case t.Args[1] == c.False:
			out[t.Args[0]] = c.False
			t = t.Args[2]
		default:
			return out
		}
	}
	return out
}

// lastOnly finds variables that only change in an iteration after which the
// loop ends: inside the loop they keep their first value.
func (e *Ev) lastOnly(vars []*LV, exit *Term) {
	c := e.c
	step := map[*Term]*Term{}
	for _, v := range vars {
		step[v.Sym] = v.Next
	}
	var after *Term
	for _, v := range vars {
		if v.Next.Op != "ite" || v.Next == v.Sym {
			continue
		}
		budget := 200
		ch := c.changes(v.Next, v.Sym, &budget)
		if ch == nil || ch == c.True {
			continue
		}
		if after == nil {
			after = c.Not(c.Subst(exit, step))
		}
		if c.And(ch, after) != c.False {
			continue
		}
		m := map[*Term]*Term{v.Sym: v.Init}
		for _, w := range vars {
			w.Next = c.Subst(w.Next, m)
		}
	}
}

// changes is the condition under which a loop variable gets a new value.
func (c *Ctx) changes(t, sym *Term, budget *int) *Term {
	if *budget--; *budget < 0 {
		return nil
	}
	if t == sym {
		return c.False
	}
	if t.Op != "ite" {
		return c.True
	}
	a, b := c.changes(t.Args[1], sym, budget), c.changes(t.Args[2], sym, budget)
	if a == nil || b == nil {
		return nil
	}
	return c.Or(c.And(t.Args[0], a), c.And(c.Not(t.Args[0]), b))
}

// exits rewrites exit edges with the final values of the loop variables.
func (e *Ev) exits(fr *frame, l *loopInfo, outs []*edge, cond func(int) *Term, mm map[*Term]*Term, mark int) []*edge {
	c := e.c
	s := c.NewSubst(mm)
	var res []*edge
	for i, ed := range outs {
		n := &edge{to: ed.to, from: ed.from, pidx: ed.pidx, st: ed.st.clone()}
		n.cond = s.Apply(cond(i))
		if n.cond == c.False {
			continue
		}
		for _, t := range ed.vals {
			n.vals = append(n.vals, s.Apply(t))
		}
		for k, t := range n.st.objs {
			n.st.objs[k] = s.Apply(t)
		}
		for k, t := range n.st.mem {
			n.st.mem[k] = s.Apply(t)
		}
		for k, t := range n.st.eff {
			n.st.eff[k] = s.Apply(t)
		}
		for k, u := range n.st.views {
			if u > mark { // made inside the loop
				delete(n.st.views, k)
			}
		}
		res = append(res, n)
	}
	for _, v := range l.liveOut {
		if t, ok := fr.env[v]; ok {
			fr.env[v] = s.Apply(t)
		}
	}
	return res
}

func (c *Ctx) size(t *Term) int {
	n := 0
	c.eachSub(t, func(*Term) { n++ })
	return n
}

func (e *Ev) hasLoopSym(t *Term, vs []*lvar) bool {
	for _, f := range t.Free {
		for _, v := range vs {
			if v.sym == f {
				return true
			}
		}
	}
	return false
}

// structShape is the struct or tuple type of two values of one variable.
func structShape(ts ...*Term) types.Type {
	for _, t := range ts {
		switch u := under(t.Typ).(type) {
		case *types.Struct:
			if t.Op != "iface" && t.Op != "mem0" && t.Kind == KOther {
				return u
			}
		case *types.Tuple:
			return u
		}
	}
	return nil
}

func (e *Ev) part(t *Term, i int) *Term {
	if t.Op == "struct" {
		return t.Args[i]
	}
	if u, ok := under(t.Typ).(*types.Tuple); ok {
		return e.c.Ext(t, i, u.At(i).Type())
	}
	return e.c.FldT(t, t.Typ, i)
}

func at(e *Ev, t *Term, path []int) *Term {
	for _, i := range path {
		t = e.part(t, i)
	}
	return t
}

func (e *Ev) put(t *Term, path []int, v *Term) *Term {
	if len(path) == 0 {
		return v
	}
	n := len(t.Args)
	aux := t.Aux
	if t.Op != "struct" {
		switch u := under(t.Typ).(type) {
		case *types.Struct:
			n = u.NumFields()
			aux = typeName(t.Typ)
		case *types.Tuple:
			n = u.Len()
			aux = "tuple"
		default:
			undecided("internal: path into %s", t.Op)
		}
	}
	args := make([]*Term, n)
	for i := range args {
		args[i] = e.part(t, i)
	}
	args[path[0]] = e.put(args[path[0]], path[1:], v)
	return e.c.Struct(aux, t.Typ, args)
}

func sortedViews(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return m[ks[i]] < m[ks[j]] })
	return ks
}

var _ = strings.Contains
