package vg

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"sort"
)

// A loop variable is a stream: its value at iteration 0, 1, 2, ...
// lvc terms are closed streams identified by the content of their
// definition; variables of one loop share a level.
type loopDef struct {
	self  *Term
	level int
	init  *Term
	next  *Term // over lvc terms of the same level
	len   *Term // stream of lengths, for sequences
	flat  bool  // a value that depends only on the iteration before
}

// LV is a loop variable while its loop is being closed.
type LV struct {
	Sym  *Term
	Init *Term
	Next *Term
	lenS *Term // symbol standing for len(Sym)
	last bool  // its last element has been made a variable
}

// K is the iteration counter of the given level.
func (c *Ctx) K(level int) *Term {
	t := c.intern(&Term{Op: "lvc", Aux: "K", Kind: KInt, BL: level})
	if c.loops[t.Key] == nil {
		d := &loopDef{self: t, level: level, init: c.Int(0)}
		c.loops[t.Key] = d
		d.next = c.Add(t, c.Int(1))
	}
	return t
}

// Nth is the value of stream v at iteration n.
func (c *Ctx) Nth(v, n *Term) *Term {
	if v.Op != "lvc" {
		undecided("nth of %s", v.Op)
	}
	d := c.loops[v.Key]
	if v.Aux == "K" {
		return n
	}
	if k, ok := n.IntVal(); ok && k >= 0 && k <= 4 {
		if k == 0 {
			return d.init
		}
		return c.at(d.next, v.BL, c.Int(k-1))
	}
	if v.Kind == KBool {
		n = c.oneMore(n)
	}
	if n.Op == "ite" {
		if f := n.Args[1]; f.Op == "first" && v.Kind == KBool {
			// the end of the iteration that changes a flag
			if x, y := c.flagAt(v, f), c.flagAt(v, n.Args[2]); x != nil && y != nil {
				body := c.And(c.At(f.Args[0], f.BL, f), c.Not(n.Args[0]))
				if c.And(body, y) == c.False {
					y = c.False
				} else if c.And(body, c.Not(y)) == c.False {
					y = c.True
				}
				return c.Ite(n.Args[0], x, y)
			}
		}
		return c.Ite(n.Args[0], c.Nth(v, n.Args[1]), c.Nth(v, n.Args[2]))
	}
	if v.Kind == KBool {
		if x := c.flagAt(v, n); x != nil {
			return x
		}
	}
	switch d.next.Op {
	case "app":
		if d.next.Args[0] == v {
			return c.Cat(d.init, c.Tab(v.BL, n, d.next.Args[1], d.next.Typ))
		}
	case "set":
		if d.next.Args[0] == v {
			b := c.Sub(d.next.Args[1], c.K(v.BL))
			if !hasLevel(b, v.BL) && c.nonNeg(b) {
				top := c.Add(n, b)
				li := c.Len(d.init)
				// make panics when asked for fewer than no elements, so that the
				// larger of its length and zero is its length
				if d.init.Op == "zseq" && top != li && top.Op == "imax" && len(top.Args) == 2 && (top.Args[0] == li || top.Args[1] == li) {
					for _, x := range top.Args {
						if v, ok := x.IntVal(); ok && v == 0 {
							top = li
						}
					}
				}
				if c.provLe(top, li) {
					s := c.Cat(c.Sub3(d.init, c.Int(0), b), c.Tab(v.BL, n, d.next.Args[2], d.next.Typ))
					return c.Cat(s, c.Sub3(d.init, top, li))
				}
			}
		}
	}
	if d.flat && c.nonNeg(c.Sub(n, c.Int(1))) {
		return c.At(d.next, v.BL, c.Sub(n, c.Int(1)))
	}
	if w, l := c.lower(v, v.BL); l < v.BL {
		return c.Nth(w, n)
	}
	if w := c.idle(v); w != nil {
		one := c.Int(1)
		return c.Ite(c.Lt0(c.Sub(n, one)), d.init, c.At(w, v.BL, c.Sub(n, one)))
	}
	return c.intern(&Term{Op: "nth", Kind: v.Kind, Args: []*Term{v, n}, BL: v.BL, Typ: v.Typ})
}

// groupOf gives the streams of a level that terms depend on.
func (c *Ctx) groupOf(ts []*Term, level int) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term)
	add = func(t *Term) {
		for _, f := range t.Free {
			if f.Op == "lvc" && f.BL == level && f.Aux != "K" && !seen[f] {
				seen[f] = true
				out = append(out, f)
				if d := c.loops[f.Key]; d != nil && d.next != nil {
					add(d.next)
				}
			}
		}
	}
	for _, t := range ts {
		add(t)
	}
	return out
}

// open replaces the streams of a level by fresh variables.
func (c *Ctx) open(ts []*Term, level int) (vars []*LV, k *Term, m map[*Term]*Term, bodies []*Term) {
	g := c.groupOf(ts, level)
	k = c.Fresh("k", KInt, nil)
	m = map[*Term]*Term{c.K(level): k}
	for _, v := range g {
		d := c.loops[v.Key]
		if d == nil || d.next == nil {
			return nil, nil, nil, nil
		}
		w := &LV{Sym: c.standIn("lw", v), Init: d.init}
		m[v] = w.Sym
		vars = append(vars, w)
	}
	s := c.NewSubst(m)
	for i, v := range g {
		vars[i].Next = s.Apply(c.loops[v.Key].next)
	}
	for _, t := range ts {
		bodies = append(bodies, s.Apply(t))
	}
	return
}

// shift gives the stream that starts d iterations later.
func (c *Ctx) shift(v *Term, d int) *Term {
	vars, k, m, _ := c.open([]*Term{v}, v.BL)
	if k == nil || m[v] == nil {
		return nil
	}
	for ; d > 0; d-- {
		now := map[*Term]*Term{k: c.Int(0)}
		for _, w := range vars {
			now[w.Sym] = w.Init
		}
		s := c.NewSubst(now)
		later := c.NewSubst(map[*Term]*Term{k: c.Add(k, c.Int(1))})
		for _, w := range vars {
			w.Init, w.Next = s.Apply(w.Next), later.Apply(w.Next)
		}
	}
	ks := c.NewSubst(map[*Term]*Term{k: c.K(v.BL)})
	for _, w := range vars {
		w.Next = ks.Apply(w.Next)
	}
	return c.closeAt(v.BL, vars)[m[v]]
}

// idle gives the stream without its first iteration, which does nothing for
// any stream of the loop.
func (c *Ctx) idle(v *Term) *Term {
	if w, ok := c.idles[v]; ok {
		return w
	}
	c.idles[v] = nil
	d := c.loops[v.Key]
	K := c.K(v.BL)
	test := false
	c.eachSub(d.next, func(t *Term) {
		if isConnective(t) && (t.Args[0].Op == "ilt" || t.Args[0].Op == "ieq") {
			for _, f := range t.Args[0].Free {
				test = test || f == K
			}
		}
	})
	if !test {
		return nil
	}
	vars, k, m, _ := c.open([]*Term{v}, v.BL)
	if k == nil || m[v] == nil {
		return nil
	}
	now := map[*Term]*Term{k: c.Int(0)}
	for _, w := range vars {
		now[w.Sym] = w.Init
	}
	s := c.NewSubst(now)
	for _, w := range vars {
		if s.Apply(w.Next) != w.Init {
			return nil
		}
	}
	c.idles[v] = c.shift(v, 1)
	return c.idles[v]
}

type lowKey struct {
	t     *Term
	level int
}

type lowVal struct {
	t     *Term
	level int
}

// lower moves a term over the streams of a level to the lowest level that
// their definitions allow.
func (c *Ctx) lower(t *Term, level int) (*Term, int) {
	if level <= 1 {
		return t, level
	}
	key := lowKey{t, level}
	if r, ok := c.lowered[key]; ok {
		return r.t, r.level
	}
	c.lowered[key] = lowVal{t, level}
	vars, k, _, bodies := c.open([]*Term{t}, level)
	if k == nil {
		return t, level
	}
	syms := []*Term{k}
	all := append([]*Term{}, bodies...)
	for _, v := range vars {
		syms = append(syms, v.Sym)
		all = append(all, v.Next)
	}
	l := 1 + c.enclosing(syms, all...)
	if l >= level {
		return t, level
	}
	ks := c.NewSubst(map[*Term]*Term{k: c.K(l)})
	for _, v := range vars {
		v.Next = ks.Apply(v.Next)
	}
	res := c.closeAt(l, vars)
	res[k] = c.K(l)
	r := c.Subst(bodies[0], res)
	c.lowered[key] = lowVal{r, l}
	return r, l
}

// At gives t with all streams of the level taken at iteration n.
func (c *Ctx) At(t *Term, level int, n *Term) *Term {
	if !hasLevel(t, level) {
		return t
	}
	if v := c.byNext[t]; v != nil && v.BL == level {
		return c.Nth(v, c.Add(n, c.Int(1)))
	}
	if t.Op == "ite" {
		return c.Ite(c.At(t.Args[0], level, n), c.At(t.Args[1], level, n), c.At(t.Args[2], level, n))
	}
	return c.at(t, level, n)
}

func (c *Ctx) at(t *Term, level int, n *Term) *Term {
	if !hasLevel(t, level) {
		return t
	}
	m := map[*Term]*Term{}
	for _, f := range t.Free {
		if isVar(f) && f.BL == level {
			m[f] = c.Nth(f, n)
		}
	}
	return c.Subst(t, m)
}

// flagged: a loop that stops as soon as a flag changes stops one iteration
// after the one that changes it, unless it stops for another reason.
func (c *Ctx) flagged(level int, cond *Term) *Term {
	if cond.Op != "bdd" {
		return nil
	}
	for _, s := range cond.Free {
		d := c.flag(s, level)
		if d == nil || hasFree(d.next, s) || !hasAtom(cond, s) {
			continue
		}
		up := map[*Term]*Term{s: c.Not(d.init)}
		if c.Subst(cond, up) != c.True {
			continue
		}
		a := c.Subst(cond, map[*Term]*Term{s: d.init})
		if hasFree(a, s) {
			continue
		}
		changes := d.next
		if d.init == c.True {
			changes = c.Not(changes)
		}
		f := c.First(level, c.Or(a, changes))
		return c.Ite(c.At(a, level, f), f, c.Add(f, c.Int(1)))
	}
	return nil
}

// oneMore reads f+ite(a,0,1), f the first iteration of some kind, as ite(a,f,f+1).
func (c *Ctx) oneMore(n *Term) *Term {
	if n.Op != "poly" {
		return n
	}
	for _, mo := range n.Monos {
		if len(mo.fs) != 1 || mo.fs[0].t.Op != "first" {
			continue
		}
		f := mo.fs[0].t
		d := c.Sub(n, f)
		if d.Op != "ite" {
			continue
		}
		x, ok1 := d.Args[1].IntVal()
		y, ok2 := d.Args[2].IntVal()
		if ok1 && ok2 && x == 0 && y == 1 {
			return &Term{Op: "ite", Kind: n.Kind, Args: []*Term{d.Args[0], f, c.Add(f, c.Int(1))}}
		}
		if ok1 && ok2 && x == 1 && y == 0 {
			return &Term{Op: "ite", Kind: n.Kind, Args: []*Term{c.Not(d.Args[0]), f, c.Add(f, c.Int(1))}}
		}
	}
	return n
}

func (c *Ctx) flag(s *Term, level int) *loopDef {
	if s.Op != "lvc" || s.BL != level || s.Kind != KBool {
		return nil
	}
	d := c.loops[s.Key]
	if d == nil || d.next == nil || d.init != c.True && d.init != c.False {
		return nil
	}
	return d
}

func hasAtom(t, a *Term) bool {
	for t.Op == "bdd" {
		if t.Args[0] == a || hasAtom(t.Args[1], a) {
			return true
		}
		t = t.Args[2]
	}
	return t == a
}

// flagAt is a flag at the end of a loop it ends.
func (c *Ctx) flagAt(s, n *Term) *Term {
	d := c.flag(s, s.BL)
	if d == nil || hasFree(d.next, s) {
		return nil
	}
	same := func(x *Term) *Term { // true if x is the initial value
		if d.init == c.True {
			return x
		}
		return c.Not(x)
	}
	// before the end, the flag never changes
	keeps := func(f *Term) bool {
		return f.Op == "first" && f.BL == s.BL && c.And(c.Not(f.Args[0]), c.Not(same(d.next))) == c.False
	}
	if keeps(n) {
		return d.init
	}
	if n.Op == "poly" {
		for _, mo := range n.Monos {
			if len(mo.fs) != 1 {
				continue
			}
			f := mo.fs[0].t
			if c.Sub(n, f) == c.Int(1) && keeps(f) {
				return c.At(d.next, s.BL, f)
			}
		}
	}
	return nil
}


// First is the first iteration at which cond holds.
func (c *Ctx) First(level int, cond *Term) *Term {
	if cond == c.True {
		return c.Int(0)
	}
	K := c.K(level)
	x := cond
	neg := false
	if x.Op == "bdd" && x.Args[1] == c.False && x.Args[2] == c.True {
		neg = true
		x = x.Args[0]
	}
	if x.Op == "ilt" {
		d := x.Args[0]
		var co *big.Rat
		ok := true
		for _, m := range monosOf(d) {
			for _, f := range m.fs {
				if f.t == K {
					if len(m.fs) == 1 && f.e == 1 {
						co = m.c
					} else {
						ok = false
					}
				} else if hasLevel(f.t, level) {
					ok = false
				}
			}
		}
		if ok && co != nil && co.IsInt() {
			b := c.Sub(d, c.Scale(K, co))
			one := big.NewRat(1, 1)
			mone := big.NewRat(-1, 1)
			switch {
			case !neg && co.Cmp(mone) == 0: // -K+b<0  <=> K>=b+1
				return c.MinMax("imax", c.Add(b, c.Int(1)), c.Int(0))
			case neg && co.Cmp(one) == 0: // K+b>=0
				return c.MinMax("imax", c.Neg(b), c.Int(0))
			case !neg && co.Sign() < 0: // K >= ceil((b+1)/|co|)
				return c.MinMax("imax", c.cdiv(c.Add(b, c.Int(1)), new(big.Rat).Neg(co)), c.Int(0))
			case neg && co.Sign() > 0:
				return c.MinMax("imax", c.cdiv(c.Neg(b), co), c.Int(0))
			}
		}
	}
	if f := c.flagged(level, cond); f != nil {
		return f
	}
	if cond.Op == "bdd" {
		// the first of two exits
		a, l, r := cond.Args[0], cond.Args[1], cond.Args[2]
		var p, q *Term
		switch {
		case l == c.True && r != c.False:
			p, q = a, r
		case r == c.True && l != c.False:
			p, q = c.Not(a), l
		}
		if p != nil {
			f, g := c.First(level, p), c.First(level, q)
			if f.Op != "first" && g.Op != "first" {
				return c.MinMax("imin", f, g)
			}
		}
	}
	if w, l := c.lower(cond, level); l < level {
		return c.First(l, w)
	}
	return c.intern(&Term{Op: "first", Kind: KInt, Args: []*Term{cond}, BL: level})
}

func (c *Ctx) cdiv(a *Term, k *big.Rat) *Term {
	if x, ok := a.IntVal(); ok {
		n := k.Num().Int64()
		q := x / n
		if x%n > 0 {
			q++
		}
		return c.Int(q)
	}
	return c.mk("cdiv", k.RatString(), KInt, a)
}

// Lam binds the given symbols.
func (c *Ctx) Lam(params []*Term, body *Term) *Term {
	l := 1 + c.enclosing(params, body)
	m := map[*Term]*Term{}
	for i, p := range params {
		m[p] = c.intern(&Term{Op: "bvc", Aux: fmt.Sprint(i), Kind: p.Kind, BL: l, Typ: p.Typ})
	}
	return c.intern(&Term{Op: "lam", Kind: KOther, Args: []*Term{c.Subst(body, m)}, BL: l})
}

// enclosing is the highest level of a binder in ts that encloses one of syms.
func (c *Ctx) enclosing(syms []*Term, ts ...*Term) int {
	set := map[*Term]bool{}
	for _, s := range syms {
		set[s] = true
	}
	hit := func(t *Term) bool {
		for _, f := range t.Free {
			if set[f] {
				return true
			}
		}
		return false
	}
	max := 0
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || !hit(t) {
			return
		}
		seen[t] = true
		if t.BL > max {
			max = t.BL
		}
		for _, a := range t.Args {
			walk(a)
		}
		for _, m := range t.Monos {
			for _, f := range m.fs {
				walk(f.t)
			}
		}
		if t.Op == "lvc" {
			d := c.loops[t.Key]
			if d != nil {
				walk(d.init)
				walk(d.next)
			}
		}
	}
	for _, t := range ts {
		walk(t)
	}
	return max
}

// CloseLoop closes a set of loop variables.  extra are further terms over
// the loop symbols (exit conditions, results); it returns the level and the
// substitution from symbols to streams.
func (c *Ctx) CloseLoop(vars []*LV, extra []*Term, least int) (int, map[*Term]*Term) {
	var syms []*Term
	for _, v := range vars {
		syms = append(syms, v.Sym)
	}
	var all []*Term
	for _, v := range vars {
		all = append(all, v.Next)
	}
	all = append(all, extra...)
	level := 1 + c.enclosing(syms, all...)
	if level < least {
		level = least
	}
	return level, c.closeAt(level, vars)
}

func (c *Ctx) closeAt(level int, vars []*LV) map[*Term]*Term {
	res := map[*Term]*Term{}
	K := c.K(level)
	// lengths of sequence variables
	lenMap := map[*Term]*Term{}
	var lens []*LV
	for _, v := range vars {
		if v.Sym.Kind == KSeq {
			v.lenS = c.Fresh("len", KInt, nil)
			lenMap[c.Len(v.Sym)] = v.lenS
			lens = append(lens, &LV{Sym: v.lenS, Init: c.Len(v.Init), Next: c.Len(v.Next)})
		}
	}
	vars = append(append([]*LV{}, vars...), lens...)
	live := map[*Term]*LV{}
	for _, v := range vars {
		live[v.Sym] = v
	}
	subAll := func(m map[*Term]*Term) {
		s := c.NewSubst(m)
		for _, v := range vars {
			v.Next = s.Apply(v.Next)
		}
		for k, t := range res {
			res[k] = s.Apply(t)
		}
	}
	if len(lenMap) > 0 {
		subAll(lenMap)
	}
	hasSym := func(t *Term) bool {
		for _, f := range t.Free {
			if live[f] != nil {
				return true
			}
		}
		return false
	}
	// copies and linear integer variables
	for changed := true; changed; {
		changed = false
		m := map[*Term]*Term{}
		for _, v := range vars {
			if live[v.Sym] == nil {
				continue
			}
			switch {
			case v.Next == v.Sym:
				m[v.Sym] = v.Init
			case v.Sym.Kind == KInt && !hasLevel(v.Init, level):
				step := c.Sub(v.Next, v.Sym)
				if !hasSym(step) && !hasLevel(step, level) {
					m[v.Sym] = c.Add(v.Init, c.Mul(step, K))
				}
			case !hasSym(v.Next) && v.Next == v.Init:
				m[v.Sym] = v.Init
			}
			if m[v.Sym] == nil && v.Sym.Kind == KInt && hasFree(v.Next, K) && !hasSym(v.Next) {
				// a function of the iteration that starts right
				if c.Subst(v.Next, map[*Term]*Term{K: c.Int(-1)}) == v.Init {
					m[v.Sym] = c.Subst(v.Next, map[*Term]*Term{K: c.Sub(K, c.Int(1))})
				}
			}
			if m[v.Sym] == nil && v.Sym.Kind == KInt {
				if t := c.window(level, v, hasSym); t != nil {
					m[v.Sym] = t
				}
			}
			if m[v.Sym] == nil && v.lenS != nil && res[v.lenS] != nil {
				if t := c.windowSeq(level, v, res[v.lenS], hasSym); t != nil {
					m[v.Sym] = t
				} else if t := c.shrunk(level, v, res[v.lenS], hasSym); t != nil {
					m[v.Sym] = t
				}
			}
		}
		if len(m) > 0 {
			changed = true
			for k, t := range m {
				res[k] = t
				delete(live, k)
			}
			subAll(m)
		}
		// elements that an in-place loop changes or keeps
		for _, v := range vars {
			if live[v.Sym] == nil || v.Next.Op != "ite" || v.Sym.Kind != KSeq || v.Sym.Typ == nil {
				continue
			}
			if t := c.setOrKeep(v.Next, v.Sym); t != nil {
				v.Next = t
			}
		}
		// reads of elements that an in-place loop has not reached yet
		m = map[*Term]*Term{}
		for _, v := range vars {
			if live[v.Sym] == nil || v.Next.Op != "set" || v.Next.Args[0] != v.Sym {
				continue
			}
			idx := v.Next.Args[1]
			c.eachSub(v.Next.Args[2], func(t *Term) {
				if t.Op == "get" && t.Args[0] == v.Sym {
					if k, ok := c.Sub(t.Args[1], idx).IntVal(); ok && k >= 0 {
						if b := c.Sub(idx, K); !hasSym(b) && !hasLevel(b, level) {
							m[t] = c.Get(v.Init, t.Args[1], t.Typ)
						}
					}
				}
			})
		}
		if len(m) > 0 {
			changed = true
			subAll(m)
		}
		// the last element of a growing sequence is a variable of its own
		for _, v := range vars {
			if live[v.Sym] == nil || v.lenS == nil || v.last || v.Next.Op != "app" && v.Next.Op != "set" || v.Next.Args[0] != v.Sym {
				continue
			}
			n := v.lenS
			if r := res[n]; r != nil {
				n = r
			}
			x := v.Next.Args[1]
			at := c.Sub(c.Len(v.Init), c.Int(1))
			if v.Next.Op == "set" { // the element set in the iteration before
				n, x = x, v.Next.Args[2]
				b := c.Sub(n, K)
				if hasSym(b) || hasLevel(b, level) {
					continue
				}
				at = c.Sub(b, c.Int(1))
			}
			var read *Term
			for _, w := range vars {
				if live[w.Sym] == nil {
					continue
				}
				c.eachSub(w.Next, func(t *Term) {
					if t.Op == "get" && t.Args[0] == v.Sym {
						if k, ok := c.Sub(n, t.Args[1]).IntVal(); ok && k == 1 {
							read = t
						}
					}
				})
			}
			if read == nil {
				continue
			}
			v.last = true
			init := c.Get(v.Init, at, read.Typ)
			if k, ok := at.IntVal(); ok && k < 0 && read.Typ != nil {
				init = (&Ev{c: c}).zero(read.Typ) // never read
			}
			add := func(init, next *Term) *Term {
				w := &LV{Sym: c.standIn("last", next), Init: init, Next: next}
				vars = append(vars, w)
				live[w.Sym] = w
				return w.Sym
			}
			var split func(init, next *Term) *Term
			split = func(init, next *Term) *Term {
				if next.Op != "struct" {
					return add(init, next)
				}
				args := make([]*Term, len(next.Args))
				for i := range args {
					args[i] = split(c.Fld(init, next, i), next.Args[i])
				}
				return c.Struct(next.Aux, next.Typ, args)
			}
			sym := split(init, x)
			changed = true
			subAll(map[*Term]*Term{read: sym})
		}
	}
	// strongly connected components, dependencies first
	var rest []*LV
	for _, v := range vars {
		if live[v.Sym] != nil {
			rest = append(rest, v)
		}
	}
	deps := func(v *LV) []*LV {
		var out []*LV
		for _, f := range v.Next.Free {
			if o := live[f]; o != nil {
				out = append(out, o)
			}
		}
		return out
	}
	for _, comp := range sccs(rest, deps) {
		m := c.closeSCC(level, comp)
		for k, t := range m {
			res[k] = t
			delete(live, k)
		}
		s := c.NewSubst(m)
		for _, v := range rest {
			if live[v.Sym] != nil {
				v.Next = s.Apply(v.Next)
			}
		}
		for k, t := range res {
			res[k] = s.Apply(t)
		}
	}
	// attach length streams
	for _, v := range vars {
		if v.lenS == nil {
			continue
		}
		if t := res[v.Sym]; t.Op == "lvc" {
			if d := c.loops[t.Key]; d.len == nil {
				d.len = res[v.lenS]
			}
		}
	}
	return res
}

// setOrKeep makes one update of a sequence that an iteration changes at one
// position or leaves as it is.
func (c *Ctx) setOrKeep(t, sym *Term) *Term {
	var idx *Term
	n := 0
	var val func(t *Term) *Term
	val = func(t *Term) *Term {
		if n++; n > 100 {
			return nil
		}
		switch {
		case t == sym:
			return t
		case t.Op == "set" && t.Args[0] == sym && (idx == nil || idx == t.Args[1]):
			idx = t.Args[1]
			return t.Args[2]
		case t.Op == "ite":
			a, b := val(t.Args[1]), val(t.Args[2])
			if a == nil || b == nil {
				return nil
			}
			if a == sym || b == sym {
				if idx == nil {
					return sym
				}
				keep := c.Get(sym, idx, elemType(sym.Typ))
				if a == sym {
					a = keep
				}
				if b == sym {
					b = keep
				}
			}
			return c.Ite(t.Args[0], a, b)
		}
		return nil
	}
	v := val(t)
	if v == nil || idx == nil || v == sym {
		return nil
	}
	return c.intern(&Term{Op: "set", Kind: KSeq, Args: []*Term{sym, idx, v}})
}

// window recognises the length of a sliding window: it grows by one in every
// iteration up to a limit.
func (c *Ctx) window(level int, v *LV, hasSym func(*Term) bool) *Term {
	if z, ok := v.Init.IntVal(); !ok || z != 0 {
		return nil
	}
	step := c.Sub(v.Next, v.Sym)
	inv := func(t *Term) bool { return !hasSym(t) && !hasLevel(t, level) }
	if step.Op == "ite" {
		g := step.Args[0]
		for i := 1; i <= 2; i++ {
			if z, ok := step.Args[i].IntVal(); ok && z == 0 && inv(g) {
				w := &LV{Sym: v.Sym, Init: v.Init, Next: c.Add(v.Sym, step.Args[3-i])}
				t := c.window(level, w, hasSym)
				if t == nil {
					return nil
				}
				if i == 1 {
					return c.Ite(g, v.Init, t)
				}
				return c.Ite(g, t, v.Init)
			}
		}
		return nil
	}
	// 1 - imax(0, v-h)
	x := c.Sub(c.Int(1), step)
	if x.Op != "imax" {
		return nil
	}
	for i := 0; i < 2; i++ {
		if z, ok := x.Args[i].IntVal(); !ok || z != 0 {
			continue
		}
		if h, ok := c.Sub(v.Sym, x.Args[1-i]).IntVal(); ok && h >= 0 {
			return c.MinMax("imin", c.K(level), c.Int(h+1))
		}
	}
	return nil
}

// shrunk is a sequence that loses elements at its ends in every iteration.
func (c *Ctx) shrunk(level int, v *LV, n *Term, hasSym func(*Term) bool) *Term {
	t := v.Next
	if t.Op != "sub" || t.Args[0] != v.Sym || hasSym(t.Args[1]) || hasSym(t.Args[2]) || hasSym(n) {
		return nil
	}
	lo, ok := t.Args[1].IntVal()
	if !ok || lo < 0 || !c.provLe(t.Args[2], n) {
		return nil
	}
	from := c.Mul(c.Int(lo), c.K(level))
	return c.Sub3(v.Init, from, c.Add(from, n))
}

// windowSeq gives the last n of the elements that a loop appends.
func (c *Ctx) windowSeq(level int, v *LV, n *Term, hasSym func(*Term) bool) *Term {
	if z, ok := c.Len(v.Init).IntVal(); !ok || z != 0 {
		return nil
	}
	K := c.K(level)
	g, next := c.True, v.Next
	if next.Op == "ite" {
		g = next.Args[0]
		if hasSym(g) || hasLevel(g, level) {
			return nil
		}
		switch {
		case next.Args[2] == v.Sym:
			next = next.Args[1]
		case next.Args[1] == v.Sym:
			next = next.Args[2]
			g = c.Not(g)
		default:
			return nil
		}
		if n.Op != "ite" || n != c.Ite(g, n, c.Int(0)) {
			return nil
		}
		for n.Op == "ite" {
			if n.Args[1] != c.Int(0) && n.Args[2] != c.Int(0) {
				return nil
			}
			if n.Args[1] == c.Int(0) {
				n = n.Args[2]
			} else {
				n = n.Args[1]
			}
		}
	}
	if next.Op != "app" || n.Op != "imin" || hasSym(n) {
		return nil
	}
	x, p := next.Args[1], next.Args[0]
	if hasSym(x) || p.Op != "sub" || p.Args[0] != v.Sym || c.Ite(g, p.Args[2], c.Int(0)) != c.Ite(g, n, c.Int(0)) {
		return nil
	}
	// elements that loops compute would be read inside of other loops
	if c.enclosing([]*Term{K}, x) > 0 {
		return nil
	}
	return c.Ite(g, c.Sub3(c.Tab(level, K, x, next.Typ), c.Sub(K, n), K), v.Init)
}

// sumOf gives an integer that grows by independent amounts as its start plus
// one sum for every kind of amount.
func (c *Ctx) sumOf(level int, v *LV) *Term {
	if v.Sym.Kind != KInt || v.Next.Op != "poly" {
		return nil
	}
	g := c.Sub(v.Next, v.Sym)
	if hasFree(g, v.Sym) {
		return nil
	}
	ms := monosOf(g)
	if z, ok := v.Init.IntVal(); ok && z == 0 && len(ms) == 1 && ms[0].c.Cmp(ratOne) == 0 {
		return nil
	}
	res := v.Init
	for _, m := range ms {
		x := c.polyTerm(KInt, []mono{{ratOne, m.fs}})
		k := c.polyTerm(KInt, []mono{{m.c, nil}})
		if !hasLevel(x, level) {
			res = c.Add(res, c.Mul(k, c.Mul(x, c.K(level))))
			continue
		}
		w := &LV{Sym: c.Fresh("sum", KInt, v.Sym.Typ), Init: c.Int(0)}
		w.Next = c.Add(w.Sym, x)
		res = c.Add(res, c.Mul(k, c.closeSCC(level, []*LV{w})[w.Sym]))
	}
	return res
}

func (c *Ctx) closeSCC(level int, comp []*LV) map[*Term]*Term {
	if len(comp) == 1 {
		if t := c.sumOf(level, comp[0]); t != nil {
			return map[*Term]*Term{comp[0].Sym: t}
		}
	}
	// names by refinement
	h := map[*LV]string{}
	for _, v := range comp {
		h[v] = hashKey("h0", string(v.Sym.Kind), v.Init.Key)
	}
	count := func() int {
		s := map[string]bool{}
		for _, v := range comp {
			s[h[v]] = true
		}
		return len(s)
	}
	pv := func() map[*Term]*Term {
		m := map[*Term]*Term{}
		for _, v := range comp {
			m[v.Sym] = c.intern(&Term{Op: "sym", Aux: "~h" + h[v], Kind: v.Sym.Kind, Typ: v.Sym.Typ})
		}
		return m
	}
	if len(comp) > 1 {
		for n := count(); ; {
			s := c.NewSubst(pv())
			nh := map[*LV]string{}
			for _, v := range comp {
				nh[v] = hashKey("h", h[v], s.Apply(v.Next).Key)
			}
			h = nh
			k := count()
			if k == n {
				break
			}
			n = k
		}
	}
	m := pv()
	s := c.NewSubst(m)
	type ent struct {
		v    *LV
		h    string
		next *Term
	}
	var es []ent
	for _, v := range comp {
		if os.Getenv("VG_CONFL") == "2" {
			c.conflCheck(v.Next, m)
		}
		es = append(es, ent{v, h[v], s.Apply(v.Next)})
	}
	sort.Slice(es, func(i, j int) bool { return es[i].h < es[j].h })
	parts := []string{"sys", fmt.Sprint(level)}
	for i, e := range es {
		if i > 0 && e.h == es[i-1].h {
			continue
		}
		parts = append(parts, e.h, e.v.Init.Key, e.next.Key)
	}
	sys := hashKey(parts...)
	out := map[*Term]*Term{}
	back := map[*Term]*Term{} // provisional name -> stream
	for _, e := range es {
		var free []*Term
		for _, e2 := range es {
			free = mergeFree(free, e2.v.Init.Free)
			for _, f := range e2.next.Free {
				if f.Op == "sym" && len(f.Aux) > 2 && f.Aux[:2] == "~h" && m[e2.v.Sym] != nil && isPV(m, f) {
					continue
				}
				free = mergeFree(free, []*Term{f})
			}
		}
		// other variables of this level are bound together with this one
		free = dropLevel(free, level)
		lev := level
		for _, e2 := range es {
			if e2.next.Lev > lev {
				lev = e2.next.Lev
			}
			if e2.v.Init.Lev > lev {
				lev = e2.v.Init.Lev
			}
		}
		t := c.intern(&Term{Op: "lvc", Aux: hashKey("v", e.h, sys), Kind: e.v.Sym.Kind, BL: level, Typ: e.v.Sym.Typ, Free: free, Lev: lev})
		out[e.v.Sym] = t
		back[m[e.v.Sym]] = t
		if c.loops[t.Key] == nil {
			c.loops[t.Key] = &loopDef{self: t, level: level, init: e.v.Init}
		}
	}
	s2 := c.NewSubst(back)
	var fresh []*Term
	for _, e := range es {
		t := out[e.v.Sym]
		d := c.loops[t.Key]
		if d.next == nil {
			d.next = s2.Apply(e.next)
			d.flat = len(es) == 1 && d.next == e.next
			if !d.flat && d.next.Op != "lvc" && hasLevel(d.next, level) && c.byNext[d.next] == nil {
				c.byNext[d.next] = t
			}
			if t.Kind == KInt {
				t.NN = true
				fresh = append(fresh, t)
			}
		}
	}
	// which counters are never negative: greatest fixed point
	for changed := true; changed; {
		changed = false
		for _, t := range fresh {
			if d := c.loops[t.Key]; t.NN && !(c.nonNeg(d.init) && c.nonNeg(d.next)) {
				t.NN = false
				changed = true
			}
		}
	}
	return out
}

func isPV(m map[*Term]*Term, f *Term) bool {
	for _, v := range m {
		if v == f {
			return true
		}
	}
	return false
}

func sccs(vs []*LV, deps func(*LV) []*LV) [][]*LV {
	idx := map[*LV]int{}
	low := map[*LV]int{}
	on := map[*LV]bool{}
	var stack []*LV
	var out [][]*LV
	n := 0
	var visit func(v *LV)
	visit = func(v *LV) {
		n++
		idx[v] = n
		low[v] = n
		stack = append(stack, v)
		on[v] = true
		for _, w := range deps(v) {
			if idx[w] == 0 {
				visit(w)
				if low[w] < low[v] {
					low[v] = low[w]
				}
			} else if on[w] && idx[w] < low[v] {
				low[v] = idx[w]
			}
		}
		if low[v] == idx[v] {
			var comp []*LV
			for {
				w := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[w] = false
				comp = append(comp, w)
				if w == v {
					break
				}
			}
			out = append(out, comp)
		}
	}
	for _, v := range vs {
		if idx[v] == 0 {
			visit(v)
		}
	}
	return out
}

// eachSub visits every subterm (not into stream definitions).
func (c *Ctx) eachSub(t *Term, f func(*Term)) {
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		f(t)
		for _, a := range t.Args {
			walk(a)
		}
		for _, m := range t.Monos {
			for _, x := range m.fs {
				walk(x.t)
			}
		}
	}
	walk(t)
}

// ---------------------------------------------------------------- substitution

type Subst struct {
	c     *Ctx
	m     map[*Term]*Term
	memo  map[*Term]*Term
	deep  bool // keys other than variables: no pruning by free variables
	child map[int]*Subst
	vfree map[int]bool // levels free in the replacement values
	in    map[int]bool // binders this substitution is already inside of
	names bool         // streams for equal streams of the same level, also where bound
	order bool         // bring comparisons of numbers to one form
}

// inOrder writes comparisons of quantities that are numbers in one way.
func (c *Ctx) inOrder(t *Term) *Term {
	s := c.NewSubst(nil)
	s.order = true
	return s.Apply(t)
}

// Rename puts streams in place of equal ones of the same level, except in the
// definitions of other streams.
func (c *Ctx) Rename(t *Term, m map[*Term]*Term) *Term {
	if len(m) == 0 {
		return t
	}
	s := c.NewSubst(m)
	s.names = true
	return s.Apply(t)
}

func (c *Ctx) NewSubst(m map[*Term]*Term) *Subst {
	s := &Subst{c: c, m: m, memo: map[*Term]*Term{}, vfree: map[int]bool{}}
	for k, v := range m {
		if k.Op != "sym" && !isVar(k) {
			s.deep = true
		}
		for _, f := range v.Free {
			if isVar(f) {
				s.vfree[f.BL] = true
			}
		}
	}
	return s
}

func (c *Ctx) Subst(t *Term, m map[*Term]*Term) *Term {
	if len(m) == 0 {
		return t
	}
	return c.NewSubst(m).Apply(t)
}

func (s *Subst) relevant(t *Term) bool {
	if s.names || s.order {
		return true
	}
	for _, f := range t.Free {
		if _, ok := s.m[f]; ok {
			return true
		}
	}
	if s.deep {
	keys:
		for k := range s.m {
			if k.Op == "sym" || isVar(k) {
				continue
			}
			for _, f := range k.Free {
				if !hasFree(t, f) {
					continue keys
				}
			}
			return true
		}
	}
	return false
}

func hasFree(t, f *Term) bool {
	for _, g := range t.Free {
		if g == f {
			return true
		}
	}
	return false
}

// under gives the substitution valid inside a binder of level l.
func (s *Subst) under(l int) *Subst {
	if s.names {
		return s
	}
	need := s.vfree[l]
	for k := range s.m {
		if isVar(k) && k.BL == l {
			need = true
		}
	}
	if !need || s.in[l] {
		return s
	}
	if s.child == nil {
		s.child = map[int]*Subst{}
	}
	if ch := s.child[l]; ch != nil {
		return ch
	}
	m := map[*Term]*Term{}
	for k, v := range s.m {
		if isVar(k) && k.BL == l {
			continue
		}
		m[k] = v
	}
	ch := s.c.NewSubst(m)
	ch.in = map[int]bool{l: true}
	for x := range s.in {
		ch.in[x] = true
	}
	s.child[l] = ch
	return ch
}

func (s *Subst) Apply(t *Term) *Term {
	if r, ok := s.m[t]; ok {
		return r
	}
	if !s.relevant(t) {
		return t
	}
	if r, ok := s.memo[t]; ok {
		return r
	}
	r := s.apply(t)
	s.memo[t] = r
	return r
}

func (s *Subst) apply(t *Term) *Term {
	c := s.c
	switch t.Op {
	case "lvc":
		return s.applyStream(t)
	case "poly":
		r := c.Const(t.Kind, new(big.Rat))
		for _, m := range t.Monos {
			p := c.Const(t.Kind, m.c)
			for _, f := range m.fs {
				x := s.Apply(f.t)
				e := f.e
				if e < 0 {
					x = c.Inv(x)
					e = -e
				}
				for i := 0; i < e; i++ {
					p = c.Mul(p, x)
				}
			}
			r = c.Add(r, p)
		}
		return r
	}
	if len(t.Args) == 0 {
		return t
	}
	args := make([]*Term, len(t.Args))
	ch := false
	for i, a := range t.Args {
		if binds(t.Op, i) {
			u := s.under(t.BL)
			if u != s && s.vfree[t.BL] && u.relevant(a) {
				for _, f := range a.Free {
					if v, ok := u.m[f]; ok && hasLevel(v, t.BL) {
						undecided("variable capture at level %d", t.BL)
					}
				}
			}
			args[i] = u.Apply(a)
		} else {
			args[i] = s.Apply(a)
		}
		ch = ch || args[i] != a
	}
	if !ch && !(s.order && t.Op == "fle") {
		return t
	}
	return c.Rebuild(t, args)
}

// applyStream substitutes inside the definition of a stream.
func (s *Subst) applyStream(t *Term) *Term {
	c := s.c
	if c.loops[t.Key] == nil || s.names {
		return t
	}
	if s.deep {
		u := s.under(t.BL)
		if u != s {
			return u.Apply(t)
		}
	}
	// the group of streams of this level reachable from t
	group := map[*Term]bool{}
	var order []*Term
	var walk func(v *Term)
	walk = func(v *Term) {
		if group[v] {
			return
		}
		group[v] = true
		order = append(order, v)
		d := c.loops[v.Key]
		for _, f := range d.next.Free {
			if f.Op == "lvc" && f.BL == t.BL && f.Aux != "K" {
				walk(f)
			}
		}
		if d.len != nil && false {
			walk(d.len)
		}
	}
	walk(t)
	open := map[*Term]*Term{}
	for _, v := range order {
		open[v] = c.standIn("o", v)
	}
	os := c.NewSubst(open)
	var vars []*LV
	ch := false
	for _, v := range order {
		d := c.loops[v.Key]
		u := s
		for k := range s.m {
			if isVar(k) && k.BL == t.BL {
				u = s.under(t.BL)
				break
			}
		}
		in, nx := u.Apply(d.init), os.Apply(d.next)
		nx2 := u.Apply(nx)
		if in != d.init || nx2 != nx {
			ch = true
		}
		vars = append(vars, &LV{Sym: open[v], Init: in, Next: nx2})
	}
	if !ch {
		for _, v := range order {
			s.memo[v] = v
		}
		return t
	}
	m := c.closeAt(t.BL, vars)
	for _, v := range order {
		s.memo[v] = m[open[v]]
	}
	return s.memo[t]
}

// Rebuild re-normalises a term with new arguments.
func (c *Ctx) Rebuild(t *Term, a []*Term) *Term {
	switch t.Op {
	case "ite", "bdd":
		return c.Ite(a[0], a[1], a[2])
	case "ilt", "flt":
		return c.Lt0(a[0])
	case "fle":
		return c.Le0(a[0])
	case "ieq":
		return c.Eq(a[0], c.Int(0))
	case "feq":
		return c.Eq(a[0], c.Const(a[0].Kind, new(big.Rat)))
	case "isnan":
		return c.IsNaN(a[0])
	case "bit":
		var i int
		fmt.Sscan(t.Aux, &i)
		return c.Bit(a[0], i)
	case "and", "or", "xor":
		return c.Bitwise(t.Op, a[0], a[1])
	case "isnil":
		return c.Eq(a[0], c.Nil())
	case "eq":
		return c.Eq(a[0], a[1])
	case "is":
		return c.IsType(a[0], t.Aux)
	case "unbox":
		return c.Unbox(a[0], t.Aux, t.Typ)
	case "fmin", "fmax", "imin", "imax":
		return c.MinMax(t.Op, a...)
	case "struct":
		return c.Struct(t.Aux, t.Typ, a)
	case "fld":
		if a[0].Op == "struct" || a[0].Op == "ite" {
			return c.fldByName(a[0], t)
		}
	case "ext":
		var i int
		fmt.Sscan(t.Aux, &i)
		return c.Ext(a[0], i, t.Typ)
	case "len":
		return c.Len(a[0])
	case "get":
		return c.Get(a[0], a[1], t.Typ)
	case "sub", "ssub":
		return c.Sub3(a[0], a[1], a[2])
	case "zseq":
		return c.ZSeq(a[0], a[1])
	case "app":
		return c.App(a[0], a[1])
	case "cat":
		return c.Cat(a[0], a[1])
	case "set":
		return c.Set(a[0], a[1], a[2])
	case "copyseq":
		return c.CopySeq(a[0], a[1])
	case "scat":
		return c.SCat(a[0], a[1])
	case "sel":
		return c.Sel(a[0], a[1], t.Aux, t.Typ)
	case "emb":
		return c.rebuildEmb(t, a[0])
	case "store":
		return c.Store(a[0], a[1], a[2], t.Aux, t.Typ)
	case "i2f":
		return c.I2F(a[0], t.Kind)
	case "f32":
		return c.ToF32(a[0])
	case "f64":
		return c.ToF64(a[0])
	case "trunc":
		return c.Trunc(a[0])
	case "quo":
		return c.IDiv(a[0], a[1])
	case "rem":
		return c.IRem(a[0], a[1])
	case "shl":
		return c.Shl(a[0], a[1])
	case "shr":
		return c.Shr(a[0], a[1])
	case "abs":
		return c.Abs(a[0])
	case "call":
		if t.Aux == "math.Pow" {
			return c.Pow(a[0], a[1])
		}
	case "nth":
		if a[0].Op != "lvc" {
			return c.At(a[0], t.BL, a[1])
		}
		return c.Nth(a[0], a[1])
	case "tab":
		return c.Tab(t.BL, a[0], a[1], t.Typ)
	case "first":
		return c.First(t.BL, a[0])
	case "search":
		return c.Search(a[0], a[1])
	case "cdiv":
		r, _ := new(big.Rat).SetString(t.Aux)
		return c.cdiv(a[0], r)
	}
	return c.intern(&Term{Op: t.Op, Aux: t.Aux, Kind: t.Kind, Args: a, BL: t.BL, Typ: t.Typ, Val: t.Val})
}

func (c *Ctx) fldByName(x, t *Term) *Term {
	switch x.Op {
	case "struct":
		if st, ok := under(x.Typ).(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == t.Aux {
					return x.Args[i]
				}
			}
		}
		undecided("field %s not in %s", t.Aux, x.Aux)
	case "ite":
		return c.Ite(x.Args[0], c.fldByName(x.Args[1], t), c.fldByName(x.Args[2], t))
	}
	return c.intern(&Term{Op: "fld", Aux: t.Aux, Kind: t.Kind, Args: []*Term{x}, Typ: t.Typ})
}

func (c *Ctx) rebuildEmb(t, x *Term) *Term {
	switch x.Op {
	case "ite":
		return c.Ite(x.Args[0], c.rebuildEmb(t, x.Args[1]), c.rebuildEmb(t, x.Args[2]))
	case "unbox", "emb":
		for x.Op == "unbox" || x.Op == "emb" {
			x = x.Args[0]
		}
	case "iface":
		x = x.Args[0]
		fallthrough
	case "rec":
		if x.Op == "rec" {
			s := x.Args[0]
			if st, ok := under(s.Typ).(*types.Struct); ok && s.Op == "struct" {
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Name() == t.Aux {
						return c.tieSelf(s.Args[i], x)
					}
				}
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Embedded() {
						return c.rebuildEmb(t, s.Args[i])
					}
				}
			}
		}
	}
	return c.intern(&Term{Op: "emb", Aux: t.Aux, Kind: t.Kind, Args: []*Term{x}, Typ: t.Typ})
}
