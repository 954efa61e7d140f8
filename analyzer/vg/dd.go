package vg

import (
	"fmt"
	"sort"
)

// Decision diagrams over the conditions of a value: a second normal form in
// which no condition is left inside sums, products, minima or unary
// functions.  It does not depend on how the code nests its branches.

type ddNode struct {
	atom   *Term // nil for a leaf
	hi, lo *ddNode
	leaf   *Term
	id     int
}

type ddKey struct {
	atom   *Term
	hi, lo int
	leaf   *Term
}

type ddMaker struct {
	c     *Ctx
	uniq  map[ddKey]*ddNode
	memo  map[*Term]*ddNode
	fail  map[*Term]bool
	asm   map[ddAsm]*ddNode
	limit int // nodes that may still be built
}

type ddAsm struct {
	n    *ddNode
	atom *Term
	v    bool
}

type ddOver struct{}

func newDD(c *Ctx) *ddMaker {
	return &ddMaker{c: c, uniq: map[ddKey]*ddNode{}, memo: map[*Term]*ddNode{}, fail: map[*Term]bool{}, asm: map[ddAsm]*ddNode{}}
}

// of builds the diagram of a term, or nil when it gets too big.
func (d *ddMaker) of(t *Term) (n *ddNode) {
	if d.fail[t] {
		return nil
	}
	if n := d.memo[t]; n != nil {
		return n
	}
	d.limit = 4000
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(ddOver); !ok {
				panic(r)
			}
			d.fail[t] = true
			n = nil
		}
	}()
	return d.build(t)
}

func (d *ddMaker) leaf(t *Term) *ddNode { return d.get(ddKey{leaf: t}, nil, nil) }

func (d *ddMaker) get(k ddKey, hi, lo *ddNode) *ddNode {
	if n := d.uniq[k]; n != nil {
		return n
	}
	if d.limit--; d.limit < 0 {
		panic(ddOver{})
	}
	n := &ddNode{k.atom, hi, lo, k.leaf, len(d.uniq)}
	d.uniq[k] = n
	return n
}

func (d *ddMaker) node(atom *Term, hi, lo *ddNode) *ddNode {
	if hi == lo {
		return hi
	}
	if d.c.famBase(atom) != nil {
		hi, lo = d.assume(hi, atom, true), d.assume(lo, atom, false)
		if hi == lo {
			return hi
		}
		if d.assume(lo, atom, true) == hi {
			return lo
		}
		if d.assume(hi, atom, false) == lo {
			return hi
		}
	}
	return d.get(ddKey{atom: atom, hi: hi.id, lo: lo.id}, hi, lo)
}

func (d *ddMaker) assume(n *ddNode, atom *Term, v bool) *ddNode {
	if n.atom == nil {
		return n
	}
	k := ddAsm{n, atom, v}
	if r := d.asm[k]; r != nil {
		return r
	}
	var r *ddNode
	if lt := d.c.notNaNLess(atom, v, n.atom); lt != nil && lt.Op == "flt" {
		r = d.ite(d.node(lt, d.leaf(d.c.True), d.leaf(d.c.False)), n.lo, n.hi)
		r = d.assume(r, atom, v)
		d.asm[k] = r
		return r
	}
	switch d.c.implied(atom, v, n.atom) {
	case 1:
		r = d.assume(n.hi, atom, v)
	case 0:
		r = d.assume(n.lo, atom, v)
	default:
		hi, lo := d.assume(n.hi, atom, v), d.assume(n.lo, atom, v)
		switch {
		case hi == lo:
			r = hi
		case hi == n.hi && lo == n.lo:
			r = n
		default:
			r = d.get(ddKey{atom: n.atom, hi: hi.id, lo: lo.id}, hi, lo)
		}
	}
	d.asm[k] = r
	return r
}

func ddCof(n *ddNode, atom *Term, v bool) *ddNode {
	if n.atom != atom {
		return n
	}
	if v {
		return n.hi
	}
	return n.lo
}

func ddTop(ns ...*ddNode) *Term {
	var top *Term
	for _, n := range ns {
		if n.atom != nil && (top == nil || n.atom.Key < top.Key) {
			top = n.atom
		}
	}
	return top
}

func (d *ddMaker) ite(f, g, h *ddNode) *ddNode {
	memo := map[[3]*ddNode]*ddNode{}
	var rec func(f, g, h *ddNode) *ddNode
	rec = func(f, g, h *ddNode) *ddNode {
		if g == h {
			return g
		}
		if f.atom == nil {
			if f.leaf == d.c.True {
				return g
			}
			return h
		}
		k := [3]*ddNode{f, g, h}
		if r := memo[k]; r != nil {
			return r
		}
		top := ddTop(f, g, h)
		r := d.node(top,
			rec(ddCof(f, top, true), ddCof(g, top, true), ddCof(h, top, true)),
			rec(ddCof(f, top, false), ddCof(g, top, false), ddCof(h, top, false)))
		memo[k] = r
		return r
	}
	return rec(f, g, h)
}

// apply combines diagrams leaf by leaf.
func (d *ddMaker) apply(g, h *ddNode, op func(a, b *Term) *Term) *ddNode {
	memo := map[[2]*ddNode]*ddNode{}
	var rec func(g, h *ddNode) *ddNode
	rec = func(g, h *ddNode) *ddNode {
		if g.atom == nil && h.atom == nil {
			return d.leaf(op(g.leaf, h.leaf))
		}
		k := [2]*ddNode{g, h}
		if r := memo[k]; r != nil {
			return r
		}
		top := ddTop(g, h)
		r := d.node(top, rec(ddCof(g, top, true), ddCof(h, top, true)), rec(ddCof(g, top, false), ddCof(h, top, false)))
		memo[k] = r
		return r
	}
	return rec(g, h)
}

func (d *ddMaker) mapLeaves(g *ddNode, op func(a *Term) *Term) *ddNode {
	one := d.leaf(d.c.Nil())
	return d.apply(g, one, func(a, _ *Term) *Term { return op(a) })
}

func (d *ddMaker) build(t *Term) *ddNode {
	if n := d.memo[t]; n != nil {
		return n
	}
	n := d.build1(t)
	d.memo[t] = n
	return n
}

// lift takes the conditions out of the arguments of a plain operation.
func (d *ddMaker) lift(t *Term) *ddNode {
	if t.BL != 0 || t.Op == "lvc" || len(t.Args) == 0 || len(t.Args) > 8 || t.Kind == KMem {
		return nil
	}
	some := false
	ns := make([]*ddNode, len(t.Args))
	for i, a := range t.Args {
		if a.Op == "struct" {
			ns[i] = d.lift(a)
			if ns[i] == nil {
				ns[i] = d.leaf(a)
			}
		} else {
			ns[i] = d.build(a)
		}
		if ns[i].atom != nil || ns[i].leaf != a {
			some = true
		}
	}
	if !some {
		return nil
	}
	type key [9]*ddNode
	memo := map[key]*ddNode{}
	var rec func(ns []*ddNode) *ddNode
	rec = func(ns []*ddNode) *ddNode {
		top := ddTop(ns...)
		if top == nil {
			args := make([]*Term, len(ns))
			for i, n := range ns {
				args[i] = n.leaf
			}
			return d.leaf(d.c.Rebuild(t, args))
		}
		var k key
		copy(k[:], ns)
		if r := memo[k]; r != nil {
			return r
		}
		var r [2]*ddNode
		for i, v := range []bool{true, false} {
			sub := make([]*ddNode, len(ns))
			for j, n := range ns {
				sub[j] = ddCof(n, top, v)
			}
			r[i] = rec(sub)
		}
		n := d.node(top, r[0], r[1])
		memo[k] = n
		return n
	}
	return rec(ns)
}

// cond is the diagram of a condition, without conditions inside it.
func (d *ddMaker) cond(t *Term) *ddNode {
	yes, no := d.leaf(d.c.True), d.leaf(d.c.False)
	n := d.lift(t)
	if n == nil {
		return d.node(t, yes, no)
	}
	memo := map[*ddNode]*ddNode{}
	var rec func(n *ddNode) *ddNode
	rec = func(n *ddNode) *ddNode {
		if r := memo[n]; r != nil {
			return r
		}
		var r *ddNode
		if n.atom == nil {
			b := n.leaf
			switch {
			case b == d.c.True:
				r = yes
			case b == d.c.False:
				r = no
			case b.Op == "bdd":
				r = d.build(b)
			default:
				r = d.node(b, yes, no)
			}
		} else {
			r = d.ite(d.node(n.atom, yes, no), rec(n.hi), rec(n.lo))
		}
		memo[n] = r
		return r
	}
	return rec(n)
}

func (d *ddMaker) build1(t *Term) *ddNode {
	c := d.c
	switch t.Op {
	case "true", "false":
		return d.leaf(t)
	case "bdd", "ite":
		if isConnective(t.Args[0]) {
			return d.leaf(t)
		}
		return d.ite(d.cond(t.Args[0]), d.build(t.Args[1]), d.build(t.Args[2]))
	case "poly":
		sum := d.leaf(c.Const(t.Kind, ratZero))
		plain := []mono{}
		for _, m := range t.Monos {
			var p *ddNode
			fs := []factor{}
			for _, f := range m.fs {
				n := d.build(f.t)
				if n.atom == nil && n.leaf == f.t {
					fs = append(fs, f)
					continue
				}
				e := f.e
				n = d.mapLeaves(n, func(x *Term) *Term {
					y := x
					if e < 0 {
						y = c.Inv(x)
					}
					r := y
					for i := 1; i < e || i < -e; i++ {
						r = c.Mul(r, y)
					}
					return r
				})
				if p == nil {
					p = n
				} else {
					p = d.apply(p, n, c.Mul)
				}
			}
			rest := c.polyTerm(t.Kind, []mono{{m.c, fs}})
			if p == nil {
				plain = append(plain, mono{m.c, fs})
				continue
			}
			p = d.mapLeaves(p, func(x *Term) *Term { return c.Mul(rest, x) })
			sum = d.apply(sum, p, c.Add)
		}
		pt := c.polyTerm(t.Kind, plain)
		return d.mapLeaves(sum, func(x *Term) *Term { return c.expand(c.Add(pt, x), 40) })
	case "fmin", "fmax", "imin", "imax":
		var acc *ddNode
		for _, a := range t.Args {
			n := d.build(a)
			if acc == nil {
				acc = n
			} else {
				acc = d.apply(acc, n, func(x, y *Term) *Term { return c.MinMax(t.Op, x, y) })
			}
		}
		return acc
	}
	if t.Op == "struct" {
		return d.leaf(t)
	}
	if n := d.lift(t); n != nil {
		return n
	}
	return d.leaf(t)
}

// byConditions compares two terms condition by condition.
func (m *Cmp) byConditions(a, b *Term, fuel int) (equal, decided bool) {
	if m.dds == nil {
		m.dds = newDD(m.c)
	}
	d := m.dds
	x := d.of(a)
	if x == nil {
		return false, false
	}
	y := d.of(b)
	if y == nil {
		return false, false
	}
	if x == y {
		return true, true
	}
	if fuel == 0 || x.atom == nil && y.atom == nil && x.leaf == a && y.leaf == b {
		return false, false
	}
	y2, mp := m.unifyDD(x, y)
	if y2 == nil {
		return false, false
	} else if y2 == x {
		return true, true
	}
	y = y2
	same := map[*Term][]*Term{} // the conditions of y that were renamed
	for o, n := range mp {
		same[n] = append(same[n], o)
	}
	for _, l := range same {
		sort.Slice(l, func(i, j int) bool { return l[i].Key < l[j].Key })
	}
	done := map[[2]*ddNode]bool{}
	steps := 0
	over := false
	var rec func(x, y *ddNode, path []pathStep) bool
	rec = func(x, y *ddNode, path []pathStep) bool {
		if x == y || done[[2]*ddNode{x, y}] {
			return true
		}
		if steps++; steps > 3000 {
			over = true
			return false
		}
		top := ddTop(x, y)
		if top == nil {
			p, q := x.leaf, y.leaf
			m.quiet++
			n := len(m.trail)
			ok := m.eq(p, q, 0)
			m.quiet--
			if ok {
				done[[2]*ddNode{x, y}] = true
				return true
			}
			m.undo(n)
			conds := append([]pathStep{}, path...)
			for i, s := range conds {
				for _, o := range same[path[i].cond] {
					p, q = m.c.AssumeDeep(p, o, s.val), m.c.AssumeDeep(q, o, s.val)
				}
				switch s.cond {
				case m.c.True, m.c.False:
					if s.val != (s.cond == m.c.True) {
						// these conditions exclude each other; only conditions over
						// the inputs count, the others may be paired wrongly
						plain := true
						for _, o := range path[:i+1] {
							plain = plain && len(o.cond.Free) == 0
						}
						if plain {
							if conflDebug {
								fmt.Println("ABSURD", i, len(path))
								for _, o := range path {
									fmt.Println("   ", o.val, o.cond)
								}
								fmt.Println("  p", p)
								fmt.Println("  q", q)
							}
							return true
						}
					}
					continue
				}
				if o := path[i]; o.cond != s.cond {
					p, q = m.c.AssumeDeep(p, o.cond, o.val), m.c.AssumeDeep(q, o.cond, o.val)
				}
				if s.cond.Kind != KBool || isCond(s.cond) {
					continue
				}
				p, q = m.c.AssumeDeep(p, s.cond, s.val), m.c.AssumeDeep(q, s.cond, s.val)
				for j := i + 1; j < len(conds); j++ {
					conds[j].cond = m.c.AssumeDeep(conds[j].cond, s.cond, s.val)
				}
			}
			m.Splits++
			pl := len(m.path)
			m.path = append(m.path, path...)
			ok = m.eq(p, q, fuel-1)
			if !ok && conflDebug {
				println("LEAF", c2(m.c.Show(p, 5)), "|", c2(m.c.Show(q, 5)), "|", c2(m.c.Show(x.leaf, 5)), "|", c2(m.c.Show(y.leaf, 5)))
				for i, s := range m.path {
					println("     ", i >= pl, s.val, c2(m.c.Show(s.cond, 5)))
				}
			}
			m.path = m.path[:pl]
			return ok
		}
		for _, v := range []bool{true, false} {
			ok := true
			for _, s := range path {
				switch m.c.implied(s.cond, s.val, top) {
				case 1:
					ok = ok && v
				case 0:
					ok = ok && !v
				}
			}
			if !ok {
				continue
			}
			np := append(append([]pathStep{}, path...), pathStep{top, v})
			if !rec(ddCof(x, top, v), ddCof(y, top, v), np) {
				return false
			}
		}
		return true
	}
	ok := rec(x, y, nil)
	if over {
		return false, false
	}
	return ok, true
}

func ddAtoms(n *ddNode) map[*Term]bool {
	out := map[*Term]bool{}
	seen := map[*ddNode]bool{}
	var walk func(n *ddNode)
	walk = func(n *ddNode) {
		if n.atom == nil || seen[n] {
			return
		}
		seen[n] = true
		out[n.atom] = true
		walk(n.hi)
		walk(n.lo)
	}
	walk(n)
	return out
}

// unifyDD renames conditions of y that are equal to conditions of x.
func (m *Cmp) unifyDD(x, y *ddNode) (r *ddNode, mp map[*Term]*Term) {
	mp = m.equalAtoms(ddAtoms(x), ddAtoms(y))
	if len(mp) == 0 {
		return y, mp
	}
	d := m.dds
	d.limit = 4000
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(ddOver); !ok {
				panic(p)
			}
			r = nil
		}
	}()
	memo := map[*ddNode]*ddNode{}
	var rec func(n *ddNode) *ddNode
	rec = func(n *ddNode) *ddNode {
		if n.atom == nil {
			return n
		}
		if r := memo[n]; r != nil {
			return r
		}
		at := n.atom
		if b := mp[at]; b != nil {
			at = b
		}
		r := d.ite(d.node(at, d.leaf(m.c.True), d.leaf(m.c.False)), rec(n.hi), rec(n.lo))
		memo[n] = r
		return r
	}
	return rec(y), mp
}
