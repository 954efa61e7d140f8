package vg

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
)

// State is the abstract store at a program point.
type State struct {
	objs  map[int]*Term    // local objects
	mem   map[string]*Term // class memories of symbolic objects
	eff   map[string]*Term // states of modelled external objects
	views map[string]int   // backing objects made for symbolic slices
	gone  map[int]bool     // objects whose elements may have been overwritten through another slice
	dead  bool             // no path gets here
}

func (s *State) clone() *State {
	n := &State{objs: make(map[int]*Term, len(s.objs)+4), mem: make(map[string]*Term, len(s.mem)+2), eff: map[string]*Term{}, views: map[string]int{}}
	for k, v := range s.objs {
		n.objs[k] = v
	}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.eff {
		n.eff[k] = v
	}
	for k, v := range s.views {
		n.views[k] = v
	}
	if len(s.gone) > 0 {
		n.gone = make(map[int]bool, len(s.gone))
		for k := range s.gone {
			n.gone[k] = true
		}
	}
	return n
}

func (e *Ev) newState() *State {
	return &State{objs: map[int]*Term{}, mem: map[string]*Term{}, eff: map[string]*Term{}, views: map[string]int{}}
}

// ---------------------------------------------------------------- values

func (e *Ev) alloc(st *State, typ types.Type, content *Term) *Term {
	e.uid++
	st.objs[e.uid] = content
	return e.objTerm(e.uid, typ)
}

func (e *Ev) objTerm(uid int, typ types.Type) *Term {
	t := e.c.intern(&Term{Op: "obj", Aux: strconv.Itoa(uid), Kind: KPtr, Typ: typ})
	return t
}

func uidOf(t *Term) int {
	n, _ := strconv.Atoi(t.Aux)
	return n
}

func (e *Ev) zero(t types.Type) *Term {
	c := e.c
	if n := typeName(t); n == "strings.Builder" || n == "bytes.Buffer" {
		return c.Str("")
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		args := make([]*Term, u.NumFields())
		for i := range args {
			args[i] = e.zero(u.Field(i).Type())
		}
		return c.Struct(typeName(t), t, args)
	case *types.Array:
		return c.ZSeq(c.Int(u.Len()), e.zero(u.Elem()))
	case *types.Tuple:
		args := make([]*Term, u.Len())
		for i := range args {
			args[i] = e.zero(u.At(i).Type())
		}
		return c.Struct("tuple", t, args)
	}
	switch k := kindOf(t); k {
	case KBool:
		return c.False
	case KInt:
		return c.Int(0)
	case KF32, KF64:
		return c.FConst(k, 0)
	case KStr:
		return c.Str("")
	}
	return c.Nil()
}

func typeName(t types.Type) string { return types.TypeString(unalias(t), nil) }

// unalias removes type aliases.
func unalias(t types.Type) types.Type {
	t = types.Unalias(t)
	switch u := t.(type) {
	case *types.Pointer:
		if x := unalias(u.Elem()); x != u.Elem() {
			return types.NewPointer(x)
		}
	case *types.Slice:
		if x := unalias(u.Elem()); x != u.Elem() {
			return types.NewSlice(x)
		}
	case *types.Array:
		if x := unalias(u.Elem()); x != u.Elem() {
			return types.NewArray(x, u.Len())
		}
	case *types.Map:
		k, x := unalias(u.Key()), unalias(u.Elem())
		if k != u.Key() || x != u.Elem() {
			return types.NewMap(k, x)
		}
	}
	return t
}

// ---------------------------------------------------------------- slices

// sl is a slice of a local backing object.
func (e *Ev) sl(obj, lo, hi *Term, typ types.Type) *Term {
	return e.c.intern(&Term{Op: "sl", Kind: KSeq, Args: []*Term{obj, lo, hi}, Typ: typ})
}

func (e *Ev) newSlice(st *State, content *Term, typ types.Type) *Term {
	o := e.alloc(st, typ, content)
	return e.sl(o, e.c.Int(0), e.c.Len(content), typ)
}

// view gives a symbolic slice value a backing object.
func (e *Ev) view(st *State, q *Term, typ types.Type) *Term {
	return e.viewAt(st, q, typ, q.Key, home{})
}

func (e *Ev) viewAt(st *State, q *Term, typ types.Type, k string, h home) *Term {
	if q.Op == "sl" || q.Op == "nil" {
		return q
	}
	uid, ok := st.views[k]
	if !ok || st.objs[uid] != q {
		e.uid++
		uid = e.uid
		st.views[k] = uid
		st.objs[uid] = q
		if h.p != nil {
			e.homes[uid] = h
		}
	}
	return e.sl(e.objTerm(uid, typ), e.c.Int(0), e.c.Len(q), typ)
}

// Slices that may share an array.  An object that holds the elements of a
// slice knows the objects of the slices it was appended to (or is one of,
// where paths meet).  A write or an append through one of them invalidates
// those of the others whose elements it may change: reading them afterwards
// is not decided.
type link struct {
	to    int
	alias bool // may be the very same slice
}

func (e *Ev) linkTo(uid int, s *Term, alias bool) {
	if s == nil || s.Op != "sl" {
		return
	}
	p := uidOf(s.Args[0])
	if p == uid {
		return
	}
	for _, l := range e.par[uid] {
		if l.to == p {
			return
		}
	}
	e.par[uid] = append(e.par[uid], link{p, alias})
	e.kids[p] = append(e.kids[p], uid)
}

func (st *State) overwrite(uid int) {
	if st.gone == nil {
		st.gone = map[int]bool{}
	}
	st.gone[uid] = true
}

// above and below walk the slices that share elements with an object.
func (e *Ev) above(uid int, f func(int), seen map[int]bool) {
	for _, l := range e.par[uid] {
		if !seen[l.to] {
			seen[l.to] = true
			f(l.to)
			e.above(l.to, f, seen)
		}
	}
}

func (e *Ev) below(uid int, f func(int), seen map[int]bool) {
	for _, k := range e.kids[uid] {
		if !seen[k] {
			seen[k] = true
			f(k)
			e.below(k, f, seen)
		}
	}
}

// wrote is called for a write to the elements of an object.
func (e *Ev) wrote(st *State, uid int) {
	if len(e.par[uid]) == 0 && len(e.kids[uid]) == 0 {
		return
	}
	seen := map[int]bool{uid: true}
	var up []int
	e.below(uid, st.overwrite, seen)
	e.above(uid, func(p int) { st.overwrite(p); up = append(up, p) }, seen)
	for _, p := range up {
		e.below(p, st.overwrite, seen)
	}
}

// grow is called for an append to a slice with the given result.
func (e *Ev) grow(st *State, s, res *Term) {
	if s.Op != "sl" || res.Op != "sl" {
		return
	}
	c := e.c
	uid, hi := uidOf(s.Args[0]), s.Args[2]
	if k, ok := e.caps[uid]; ok && k == hi {
		return // no room: a new array
	}
	seen := map[int]bool{uid: true}
	e.below(uid, st.overwrite, seen)
	// the other sides of slices this one may be
	var same func(u int)
	same = func(u int) {
		for _, l := range e.par[u] {
			if l.alias && !seen[l.to] {
				seen[l.to] = true
				e.below(l.to, st.overwrite, seen)
				same(l.to)
			}
		}
	}
	same(uid)
	if hi != c.Len(st.objs[uid]) {
		// over elements that the object still has
		st.overwrite(uid)
		e.above(uid, st.overwrite, map[int]bool{uid: true})
	}
	e.linkTo(uidOf(res.Args[0]), s, false)
}

// alive checks that the elements of an object are still known.
func (e *Ev) alive(st *State, uid int) {
	if st.gone[uid] {
		undecided("%s: reads a slice whose elements may have been overwritten through another slice of the same array", e.pos(e.c.CurPos))
	}
}

// content is the pure sequence held by a slice value.
func (e *Ev) content(st *State, s *Term) *Term {
	c := e.c
	switch s.Op {
	case "sl":
		e.alive(st, uidOf(s.Args[0]))
		return c.Sub3(st.objs[uidOf(s.Args[0])], s.Args[1], s.Args[2])
	case "nil":
		return c.Seq0()
	case "ite":
		return c.Ite(s.Args[0], e.content(st, s.Args[1]), e.content(st, s.Args[2]))
	}
	return s
}

func isSlice(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

// raw wraps pure values loaded from symbolic places so that slices in
// them have a backing object.
func (e *Ev) raw(st *State, v *Term, typ types.Type) *Term {
	if isSlice(typ) {
		return e.view(st, v, typ)
	}
	if s, ok := typ.Underlying().(*types.Struct); ok && v.Op == "struct" {
		has := false
		for i := 0; i < s.NumFields(); i++ {
			if isSlice(s.Field(i).Type()) {
				has = true
			}
		}
		if has {
			args := make([]*Term, len(v.Args))
			for i := range args {
				args[i] = e.raw(st, v.Args[i], s.Field(i).Type())
			}
			return e.c.Struct(v.Aux, v.Typ, args)
		}
	}
	return v
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return elemType(u.Elem())
	}
	return nil
}

// purify makes a value independent of local objects with uid > mark.
func (e *Ev) purify(st *State, v *Term, mark int) *Term {
	return e.purify1(st, v, mark, nil, map[*Term]*Term{})
}

func (e *Ev) purify1(st *State, v *Term, mark int, stack []int, memo map[*Term]*Term) *Term {
	c := e.c
	if !v.Obj {
		return v
	}
	if len(stack) == 0 {
		if r, ok := memo[v]; ok {
			return r
		}
	}
	var r *Term
	switch v.Op {
	case "sl":
		uid := uidOf(v.Args[0])
		if _, ok := st.objs[uid]; !ok {
			undecided("slice of unknown object")
		}
		r = e.purify1(st, e.content(st, v), mark, stack, memo)
	case "obj":
		uid := uidOf(v)
		if uid <= mark {
			return v
		}
		for i, u := range stack {
			if u == uid {
				return c.mk("selfref", fmt.Sprint(len(stack)-1-i), v.Kind)
			}
		}
		ct, ok := st.objs[uid]
		if !ok {
			undecided("unknown object")
		}
		r = c.intern(&Term{Op: "rec", Kind: KPtr, Args: []*Term{e.purify1(st, ct, mark, append(stack, uid), memo)}, Typ: v.Typ})
	case "faddr", "iaddr":
		if e.rootLocal(v) > mark {
			undecided("interior pointer escapes")
		}
		r = v
	case "lvc", "sym", "in", "const", "str", "nil":
		return v
	case "poly":
		return v
	default:
		if len(v.Args) == 0 {
			return v
		}
		args := make([]*Term, len(v.Args))
		ch := false
		for i, a := range v.Args {
			args[i] = e.purify1(st, a, mark, stack, memo)
			ch = ch || args[i] != a
		}
		r = v
		if ch {
			r = c.Rebuild(v, args)
		}
	}
	if len(stack) == 0 {
		memo[v] = r
	}
	return r
}

// rootLocal is the uid of the local object an address points into, or 0.
func (e *Ev) rootLocal(p *Term) int {
	for p.Op == "faddr" || p.Op == "iaddr" {
		p = p.Args[0]
	}
	if p.Op == "obj" {
		return uidOf(p)
	}
	return 0
}

// ---------------------------------------------------------------- addresses

func (e *Ev) faddr(base *Term, i int, st types.Type) *Term {
	c := e.c
	if base.Op == "ite" {
		return c.Ite(base.Args[0], e.faddr(base.Args[1], i, st), e.faddr(base.Args[2], i, st))
	}
	if base.Op == "nil" {
		return base
	}
	s := st.Underlying().(*types.Struct)
	return c.intern(&Term{Op: "faddr", Aux: strconv.Itoa(i), Kind: KPtr, Args: []*Term{base}, Typ: st, Val: s})
}

func (e *Ev) class(st types.Type, i int) string {
	s := st.Underlying().(*types.Struct)
	f := s.Field(i)
	pre := ""
	if f.Embedded() {
		if _, ok := f.Type().Underlying().(*types.Pointer); ok {
			pre = "@"
		}
	}
	return pre + typeName(st) + "." + f.Name()
}

func (e *Ev) memOf(st *State, class string) *Term {
	if m, ok := st.mem[class]; ok {
		return m
	}
	return e.c.Mem0(class)
}

func inPlace(p *Term) bool {
	return p.Op == "obj" || p.Op == "faddr" || p.Op == "iaddr"
}

// load reads the value of type typ at address p.
func (e *Ev) load(st *State, p *Term, typ types.Type) *Term {
	c := e.c
	switch p.Op {
	case "obj":
		v, ok := st.objs[uidOf(p)]
		if !ok {
			undecided("load from unknown object")
		}
		e.alive(st, uidOf(p))
		return v
	case "ite":
		if p.Args[1].Op == "nil" {
			return e.load(st, p.Args[2], typ)
		}
		if p.Args[2].Op == "nil" {
			return e.load(st, p.Args[1], typ)
		}
		return e.merge(st, p.Args[0], e.load(st, p.Args[1], typ), e.load(st, p.Args[2], typ), typ)
	case "faddr":
		i, _ := strconv.Atoi(p.Aux)
		if inPlace(p.Args[0]) {
			return c.FldT(e.load(st, p.Args[0], p.Typ), p.Typ, i)
		}
		cl := e.class(p.Typ, i)
		ft := p.Typ.Underlying().(*types.Struct).Field(i).Type()
		v := c.Sel(e.memOf(st, cl), p.Args[0], cl, ft)
		if isSlice(ft) {
			return e.viewAt(st, v, ft, cl+"|"+p.Args[0].Key, home{cl, p.Args[0], ft})
		}
		return e.raw(st, v, ft)
	case "iaddr":
		v := c.Get(e.load(st, p.Args[0], nil), p.Args[1], typ)
		return e.raw(st, v, typ)
	case "nil":
		return c.mk("undef", "", kindOf(typ))
	}
	if s, ok := typ.Underlying().(*types.Struct); ok {
		args := make([]*Term, s.NumFields())
		for i := range args {
			args[i] = e.load(st, e.faddr(p, i, typ), s.Field(i).Type())
		}
		return c.Struct(typeName(typ), typ, args)
	}
	cl := "*" + typeName(typ)
	return e.raw(st, c.Sel(e.memOf(st, cl), p, cl, typ), typ)
}

func (e *Ev) withField(x *Term, typ types.Type, i int, v *Term) *Term {
	c := e.c
	s := typ.Underlying().(*types.Struct)
	args := make([]*Term, s.NumFields())
	for j := range args {
		if j == i {
			args[j] = v
		} else {
			args[j] = c.FldT(x, typ, j)
		}
	}
	return c.Struct(typeName(typ), typ, args)
}

// store writes v at address p under condition True.
func (e *Ev) store(st *State, p, v *Term, typ types.Type) {
	c := e.c
	switch p.Op {
	case "obj":
		uid := uidOf(p)
		st.objs[uid] = v
		e.noteWrite(st, uid)
		return
	case "ite":
		for i, cond := range []*Term{p.Args[0], c.Not(p.Args[0])} {
			q := p.Args[1+i]
			if q.Op == "nil" {
				continue
			}
			old := e.load(st, q, typ)
			e.store(st, q, e.merge(st, cond, v, old, typ), typ)
		}
		return
	case "faddr":
		i, _ := strconv.Atoi(p.Aux)
		if inPlace(p.Args[0]) {
			e.store(st, p.Args[0], e.withField(e.load(st, p.Args[0], p.Typ), p.Typ, i, v), p.Typ)
			return
		}
		cl := e.class(p.Typ, i)
		ft := p.Typ.Underlying().(*types.Struct).Field(i).Type()
		st.mem[cl] = c.Store(e.memOf(st, cl), p.Args[0], e.purify(st, v, 0), cl, ft)
		return
	case "iaddr":
		old := e.load(st, p.Args[0], nil)
		e.store(st, p.Args[0], c.Set(old, p.Args[1], e.elem(st, v)), nil)
		return
	case "nil":
		return
	}
	if s, ok := typ.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			e.store(st, e.faddr(p, i, typ), c.FldT(v, typ, i), s.Field(i).Type())
		}
		return
	}
	cl := "*" + typeName(typ)
	st.mem[cl] = c.Store(e.memOf(st, cl), p, e.purify(st, v, 0), cl, typ)
}

// elem prepares a value for being put into a sequence: nested slices
// become values.
func (e *Ev) elem(st *State, v *Term) *Term {
	switch v.Op {
	case "sl":
		return e.elem(st, e.content(st, v))
	case "nil":
		return v
	case "struct":
		args := make([]*Term, len(v.Args))
		for i := range args {
			args[i] = e.elem(st, v.Args[i])
		}
		return e.c.Struct(v.Aux, v.Typ, args)
	}
	return v
}

// noteWrite keeps symbolic homes of views up to date.
func (e *Ev) noteWrite(st *State, uid int) {
	e.wrote(st, uid)
	h, ok := e.homes[uid]
	if !ok {
		return
	}
	st.mem[h.class] = e.c.Store(e.memOf(st, h.class), h.p, e.elem(st, st.objs[uid]), h.class, h.typ)
}

// ---------------------------------------------------------------- merging

func (e *Ev) merge(st *State, cond, a, b *Term, typ types.Type) *Term {
	c := e.c
	if a == b || cond == c.True {
		return a
	}
	if cond == c.False {
		return b
	}
	if a.Op == "sl" || b.Op == "sl" || isSlice(typ) {
		if a.Op == "sl" && b.Op == "sl" && a.Args[0] == b.Args[0] {
			return e.sl(a.Args[0], c.Ite(cond, a.Args[1], b.Args[1]), c.Ite(cond, a.Args[2], b.Args[2]), a.Typ)
		}
		t := a.Typ
		if a.Op != "sl" && b.Typ != nil {
			t = b.Typ
		}
		if t == nil {
			t = typ
		}
		r := e.newSlice(st, c.Ite(cond, e.content(st, a), e.content(st, b)), t)
		e.linkTo(uidOf(r.Args[0]), a, true)
		e.linkTo(uidOf(r.Args[0]), b, true)
		return r
	}
	if a.Op == "struct" || b.Op == "struct" {
		s := a
		if b.Op == "struct" {
			s = b
		}
		args := make([]*Term, len(s.Args))
		for i := range args {
			var ft types.Type
			switch u := under(s.Typ).(type) {
			case *types.Struct:
				ft = u.Field(i).Type()
			case *types.Tuple:
				ft = u.At(i).Type()
			}
			args[i] = e.merge(st, cond, e.comp(a, s, i), e.comp(b, s, i), ft)
		}
		return c.Struct(s.Aux, s.Typ, args)
	}
	return c.Ite(cond, a, b)
}

func (e *Ev) comp(x, shape *Term, i int) *Term {
	if x.Op == "struct" {
		return x.Args[i]
	}
	if x.Op == "undef" || x.Op == "nil" {
		return x
	}
	if isTuple(shape) {
		return e.c.Ext(x, i, shape.Typ.(*types.Tuple).At(i).Type())
	}
	return e.c.FldT(x, shape.Typ, i)
}

// mergeStates combines states; conds[i] selects state i, the last is the
// default.  care is the condition under which the result is used.
func (e *Ev) mergeStates(conds []*Term, sts []*State, care *Term) *State {
	c := e.c
	n := len(sts)
	if n == 1 {
		return sts[0].clone()
	}
	out := sts[n-1].clone()
	for i := n - 2; i >= 0; i-- {
		o := sts[i]
		for _, uid := range sortedInts(o.objs) {
			v := o.objs[uid]
			w, ok := out.objs[uid]
			if !ok {
				out.objs[uid] = v
			} else if v != w {
				// slices in v refer to objects of o
				for k, x := range o.objs {
					if _, ok := out.objs[k]; !ok {
						out.objs[k] = x
					}
				}
				out.objs[uid] = e.merge2(o, out, conds[i], v, w, e.typOf(uid))
			}
		}
		for cl := range o.mem {
			out.mem[cl] = c.Ite(conds[i], o.mem[cl], e.memOf(out, cl))
		}
		for cl := range out.mem {
			if _, ok := o.mem[cl]; !ok {
				out.mem[cl] = c.Ite(conds[i], c.Mem0(cl), out.mem[cl])
			}
		}
		for k := range o.eff {
			if w, ok := out.eff[k]; ok {
				out.eff[k] = c.Ite(conds[i], o.eff[k], w)
			} else {
				out.eff[k] = c.Ite(conds[i], o.eff[k], c.mk("eff0", k, KOther))
			}
		}
		for k := range out.eff {
			if _, ok := o.eff[k]; !ok {
				out.eff[k] = c.Ite(conds[i], c.mk("eff0", k, KOther), out.eff[k])
			}
		}
		for k, v := range o.views {
			if _, ok := out.views[k]; !ok {
				out.views[k] = v
			}
		}
		for k := range o.gone {
			out.overwrite(k)
		}
	}
	if care != c.True {
		for uid, v := range out.objs {
			out.objs[uid] = e.constrainVal(v, care)
		}
		for cl, v := range out.mem {
			out.mem[cl] = c.Constrain(v, care)
		}
		for k, v := range out.eff {
			out.eff[k] = c.Constrain(v, care)
		}
	}
	return out
}

func (e *Ev) typOf(uid int) types.Type { return nil }

// merge2 merges values living in two states.
func (e *Ev) merge2(sa, sb *State, cond, a, b *Term, typ types.Type) *Term {
	c := e.c
	if a == b {
		return a
	}
	if a.Op == "sl" || b.Op == "sl" || isSlice(typ) && a.Kind == KSeq {
		if a.Op == "sl" && b.Op == "sl" && a.Args[0] == b.Args[0] {
			return e.sl(a.Args[0], c.Ite(cond, a.Args[1], b.Args[1]), c.Ite(cond, a.Args[2], b.Args[2]), a.Typ)
		}
		t := a.Typ
		if a.Op != "sl" && b.Typ != nil {
			t = b.Typ
		}
		r := e.newSlice(sb, c.Ite(cond, e.content(sa, a), e.content(sb, b)), t)
		e.linkTo(uidOf(r.Args[0]), a, true)
		e.linkTo(uidOf(r.Args[0]), b, true)
		return r
	}
	if a.Op == "struct" || b.Op == "struct" {
		s := a
		if b.Op == "struct" {
			s = b
		}
		args := make([]*Term, len(s.Args))
		for i := range args {
			args[i] = e.merge2(sa, sb, cond, e.comp(a, s, i), e.comp(b, s, i), nil)
		}
		return c.Struct(s.Aux, s.Typ, args)
	}
	return c.Ite(cond, a, b)
}

func (e *Ev) constrainVal(v, care *Term) *Term {
	switch v.Op {
	case "struct":
		args := make([]*Term, len(v.Args))
		for i := range args {
			args[i] = e.constrainVal(v.Args[i], care)
		}
		return e.c.Struct(v.Aux, v.Typ, args)
	case "sl":
		return e.sl(v.Args[0], e.c.Constrain(v.Args[1], care), e.c.Constrain(v.Args[2], care), v.Typ)
	}
	return e.c.Constrain(v, care)
}

// Constrain is the generalised cofactor: a value that agrees with f where
// care holds, and depends only on those values.
func (c *Ctx) Constrain(f, care *Term) *Term {
	if care == c.True || care == c.False {
		return f
	}
	care = c.asBDD(care)
	memo := map[[2]*Term]*Term{}
	var rec func(f, g *Term) *Term
	rec = func(f, g *Term) *Term {
		if g == c.True || topAtom(f) == nil {
			return f
		}
		k := [2]*Term{f, g}
		if r, ok := memo[k]; ok {
			return r
		}
		top := topAtom(f)
		if t := topAtom(g); t.Key < top.Key {
			top = t
		}
		gh, gl := cof(g, top, true), cof(g, top, false)
		var r *Term
		switch {
		case gl == c.False:
			r = rec(cof(f, top, true), gh)
		case gh == c.False:
			r = rec(cof(f, top, false), gl)
		default:
			r = c.Ite(c.asBDD(top), rec(cof(f, top, true), gh), rec(cof(f, top, false), gl))
		}
		memo[k] = r
		return r
	}
	if f.Kind == KBool {
		return c.unwrap(c.asBDD(rec(c.asBDD(f), care)))
	}
	return rec(f, care)
}

func sortedInts(m map[int]*Term) []int {
	var ks []int
	for k := range m {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	return ks
}

func sortedStrs(m map[string]*Term) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

var _ = token.NoPos
