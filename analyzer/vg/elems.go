package vg

import (
	"go/types"
	"sort"
)

// elem is a value that a sequence may hold, and when.
type elem struct {
	cond, val *Term
	level     int // of the outermost loop that puts it there, 0 for none
}

// elements gives all values that a sequence may hold; false if it may hold
// others.
func (p *prover) elements(s, cond *Term, level int, seen map[*Term]bool, out *[]elem) bool {
	c := p.c
	if seen[s] {
		return true
	}
	if len(*out) > 40 {
		return false
	}
	switch s.Op {
	case "seq0", "nil":
		return true
	case "ite":
		return p.elements(s.Args[1], c.And(cond, s.Args[0]), level, seen, out) &&
			p.elements(s.Args[2], c.And(cond, c.Not(s.Args[0])), level, seen, out)
	case "ssorted", "sorted", "sub":
		return p.elements(s.Args[0], cond, level, seen, out)
	case "cat":
		for _, a := range s.Args {
			if !p.elements(a, cond, level, seen, out) {
				return false
			}
		}
		return true
	case "app":
		if !p.elements(s.Args[0], cond, level, seen, out) {
			return false
		}
		for _, a := range s.Args[1:] {
			*out = append(*out, elem{cond, a, level})
		}
		return true
	case "nth":
		return p.elements(s.Args[0], c.True, level, seen, out)
	case "lvc":
		d := c.loops[s.Key]
		if d == nil {
			return false
		}
		seen[s] = true
		inner := s.BL
		if level > inner {
			inner = level
		}
		return p.elements(d.init, c.True, level, seen, out) && p.elements(d.next, c.True, inner, seen, out)
	}
	if o := c.permOf[s]; o != nil {
		return p.elements(o, cond, level, seen, out)
	}
	return false
}

// values gives the values that a variable of a loop may have.
func (p *prover) values(t, cond *Term, level int, of *Term, out *[]elem) bool {
	c := p.c
	if len(*out) > 40 {
		return false
	}
	switch t.Op {
	case "ite":
		return p.values(t.Args[1], c.And(cond, t.Args[0]), level, of, out) &&
			p.values(t.Args[2], c.And(cond, c.Not(t.Args[0])), level, of, out)
	case "lvc":
		if t == of {
			return true
		}
		if d := c.loops[t.Key]; of == nil && d != nil {
			// in later iterations what one of the earlier ones left
			return p.values(d.init, cond, level, t, out) && p.values(d.next, c.True, t.BL, t, out)
		}
	}
	*out = append(*out, elem{cond, t, level})
	return true
}

func holder(t *Term) bool {
	if t.Op != "lvc" || t.Typ == nil {
		return false
	}
	switch t.Typ.Underlying().(type) {
	case *types.Pointer, *types.Interface:
		return true
	}
	return false
}

// byElement refutes for each value that an element of a sequence may be.
func (p *prover) byElement(f, g *Term, depth int) bool {
	c := p.c
	if depth > 3 {
		return false
	}
	// the elements that g and then f speak of
	var gets []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Op == "get" && (t.Kind == KPtr || t.Kind == KOther) || holder(t) {
			gets = append(gets, t)
			return
		}
		for _, a := range t.Args {
			walk(a)
		}
		for _, m := range t.Monos {
			for _, x := range m.fs {
				walk(x.t)
			}
		}
	}
	walk(g)
	sort.Slice(gets, func(i, j int) bool { return gets[i].Key < gets[j].Key })
	for _, t := range gets {
		var es []elem
		found := false
		if t.Op == "get" {
			found = p.elements(t.Args[0], c.True, 0, map[*Term]bool{}, &es)
		} else {
			found = p.values(t, c.True, 0, nil, &es)
		}
		if !found {
			if p.Debug {
				println("no elements", c.Show(t, 4))
			}
			continue
		}
		ok := true
		sym := c.Fresh("e", t.Kind, t.Typ)
		abs := c.NewSubst(map[*Term]*Term{t: sym})
		f0, g0 := abs.Apply(f), abs.Apply(g)
		for _, x := range es {
			// put in by some iteration of the loops inside, not by this one
			m := map[*Term]*Term{}
			for _, y := range []*Term{x.val, x.cond} {
				for _, v := range y.Free {
					if isVar(v) && v.BL <= x.level && m[v] == nil {
						m[v] = c.Fresh("v", v.Kind, v.Typ)
					}
				}
			}
			if len(m) > 0 {
				o := c.NewSubst(m)
				x.val, x.cond = o.Apply(x.val), o.Apply(x.cond)
			}
			s := c.NewSubst(map[*Term]*Term{sym: x.val})
			h, y := c.And(s.Apply(f0), x.cond), s.Apply(g0)
			if !p.refute(h, y, nil) && !p.byElement(h, y, depth+1) {
				if p.Debug {
					println("elem", c.Show(x.val, 5), "\n  cond", c.Show(x.cond, 6), "\n  goal", c.Show(y, 6))
				}
				ok = false
				break
			}
		}
		if ok {
			return true
		}
	}
	return false
}
