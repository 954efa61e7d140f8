package vg

import (
	"fmt"
	"math/big"
	"sort"
)

// prover refutes conditions: boolean structure by cases, integers by linear
// arithmetic over what is known of the terms in them.
type prover struct {
	c      *Ctx
	steps  int
	inv    map[*Term]int // integer streams: 1 not negative, 2 being proved, 3 unknown
	proved []*Term       // those with 1, in order
	cont   map[int]*Term // the conditions to go on of the loops around, by level
	tried  map[[3]*Term]int
	lits   map[*Term]map[*Term]*Term
	depth  int
	floats bool // what is known of floats has been added to the goal
	max    int  // depth of proofs by induction inside each other
	Debug  bool
}

func (c *Ctx) newProver(o *Obl) *prover {
	p := &prover{c: c, steps: 4000, inv: map[*Term]int{}, cont: map[int]*Term{}, tried: map[[3]*Term]int{}, lits: map[*Term]map[*Term]*Term{}}
	for _, l := range o.Loops {
		p.cont[l.level] = l.cont
	}
	return p
}

// before: a term is not after a first iteration of some kind.
func (p *prover) before(f, n *Term) *Term {
	if n.Op == "first" {
		return n
	}
	if n.Op != "poly" {
		return nil
	}
	for _, m := range n.Monos {
		if len(m.fs) == 1 && m.fs[0].t.Op == "first" {
			k := m.fs[0].t
			if d, ok := p.c.Sub(k, n).IntVal(); ok && d > 0 && p.refute(f, p.c.Lt0(n), nil) {
				return k
			}
		}
	}
	return nil
}

// implied gives the atoms whose value follows from a decision diagram.
func (p *prover) implied(f *Term) map[*Term]*Term {
	c := p.c
	f = c.asBDD(f)
	if f.Op != "bdd" {
		return nil
	}
	if m, ok := p.lits[f]; ok {
		return m
	}
	out := map[*Term]*Term{}
	a := f.Args[0]
	switch {
	case f.Args[2] == c.False:
		for x, v := range p.implied(f.Args[1]) {
			out[x] = v
		}
		out[a] = c.True
	case f.Args[1] == c.False:
		for x, v := range p.implied(f.Args[2]) {
			out[x] = v
		}
		out[a] = c.False
	default:
		l := p.implied(f.Args[1])
		for x, v := range p.implied(f.Args[2]) {
			if l[x] == v {
				out[x] = v
			}
		}
	}
	p.lits[f] = out
	return out
}

// outer keeps of a condition what does not change in loops of a level.
func (p *prover) outer(f *Term, level int) *Term {
	c := p.c
	out := c.True
	lits := p.implied(f)
	var as []*Term
	for a := range lits {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].Key < as[j].Key })
	for _, a := range as {
		if hasLevel(a, level) {
			continue
		}
		if lits[a] == c.True {
			out = c.And(out, a)
		} else {
			out = c.And(out, c.Not(a))
		}
	}
	return out
}

// invariant: a form over a stream is not negative in any iteration that
// begins while cont holds, by induction.
func (p *prover) invariant(f, v, cont, form *Term) bool {
	c := p.c
	f = p.outer(f, v.BL)
	key := [3]*Term{c.And(f, cont), v, form}
	switch p.tried[key] {
	case 1:
		return true
	case 2:
		return false
	}
	// the streams of the loop in it move together
	first, next := map[*Term]*Term{}, map[*Term]*Term{}
	for _, g := range form.Free {
		if !isVar(g) || g.BL != v.BL {
			continue
		}
		if g.Aux == "K" {
			first[g], next[g] = c.Int(0), c.Add(g, c.Int(1))
			continue
		}
		d := c.loops[g.Key]
		if d == nil || d.next == nil {
			return false
		}
		first[g], next[g] = d.init, d.next
	}
	p.tried[key] = 2
	p.depth++
	if p.Debug {
		fmt.Println("TRY", c.Show(form, 2), "of", c.Show(v, 1), "cont", c.Show(cont, 2))
	}
	// an attempt gets a limited share of the work
	total := p.steps
	if share := 150 >> uint(p.depth); p.steps > share {
		p.steps = share
	}
	given := p.steps
	defer func() {
		p.depth--
		p.steps = total - (given - p.steps)
	}()
	if !p.refute(f, c.Lt0(c.Subst(form, first)), nil) {
		return false
	}
	if !p.refute(c.And(f, cont), c.Lt0(c.Subst(form, next)), []*Term{form}) {
		return false
	}
	p.tried[key] = 1
	return true
}

// invariants finds forms over the streams of a goal that help to refute it.
func (p *prover) invariants(f *Term, vars, goal []*Term, general bool) (out []*Term) {
	c := p.c
	for _, x := range vars {
		v, n, cont := x, (*Term)(nil), (*Term)(nil)
		switch {
		case x.Op == "lvc" && x.Aux != "K":
			cont = p.cont[x.BL]
		case x.Op == "nth" && x.Args[0].Op == "lvc":
			v, n = x.Args[0], x.Args[1]
			if k := p.before(f, n); k != nil && k.BL == v.BL {
				cont = c.Not(k.Args[0])
			}
		}
		if cont == nil || v.Kind != KInt || c.loops[v.Key] == nil {
			continue
		}
		try := func(form *Term) {
			if n != nil {
				// form is over v and what the loop does not change
				for _, g := range form.Free {
					if g != v && isVar(g) && g.BL == v.BL {
						return
					}
				}
			}
			if p.invariant(f, v, cont, form) {
				if n != nil {
					form = c.Subst(form, map[*Term]*Term{v: x})
				}
				out = append(out, form)
			}
		}
		d := c.loops[v.Key]
		if general {
			try(c.Sub(v, d.init))
			try(c.Sub(d.init, v))
			continue
		}
		for _, g := range goal {
			r := p.linear(g)
			if r.co[x] == nil {
				continue
			}
			full := g
			// without what is only taken away
			for y, k := range r.co {
				if y != x && k.Sign() < 0 && p.positive(y) {
					g = c.Sub(g, c.Scale(y, k))
				}
			}
			neg := c.Sub(c.Neg(g), c.Int(1))
			if n == nil && g != full {
				try(c.Sub(c.Neg(full), c.Int(1)))
			}
			if n != nil {
				neg = c.Add(c.Sub(neg, c.Scale(x, new(big.Rat).Neg(r.co[x]))), c.Scale(v, new(big.Rat).Neg(r.co[x])))
			}
			try(neg)
		}
	}
	return
}

// row is a linear form that is not negative.
type row struct {
	co     map[*Term]*big.Rat
	k      *big.Rat
	strict bool // is positive
}

// above marks a form as positive.
func (c *Ctx) above(t *Term) *Term {
	return c.Sub(t, c.In("~eps", KF64, nil))
}

func (p *prover) linear(t *Term) row {
	r := row{map[*Term]*big.Rat{}, new(big.Rat), false}
	for _, m := range monosOf(t) {
		switch {
		case len(m.fs) == 0:
			r.k = new(big.Rat).Add(r.k, m.c)
		default:
			v := m.fs[0].t
			if len(m.fs) > 1 || m.fs[0].e != 1 {
				v = p.c.polyTerm(t.Kind, []mono{{big.NewRat(1, 1), m.fs}})
			}
			if v.Op == "in" && v.Aux == "~eps" {
				r.strict = true
				continue
			}
			x := m.c
			if y := r.co[v]; y != nil {
				x = new(big.Rat).Add(x, y)
			}
			r.co[v] = x
		}
	}
	return r
}

// holds: t >= 0 in all cases where f holds.
func (p *prover) nonneg(f, t *Term) bool {
	return p.refute(f, p.c.Lt0(t), nil)
}

// refute tells whether f and g exclude each other.
func (p *prover) refute(f, g *Term, facts []*Term) bool {
	c := p.c
	if c.And(f, g) == c.False {
		return true
	}
	// the cases of g
	g = c.asBDD(g)
	if g == c.False {
		return true
	}
	var walk func(t *Term, facts, goal []*Term) bool
	walk = func(t *Term, facts, goal []*Term) bool {
		if t == c.False {
			return true
		}
		if t == c.True {
			return p.close(f, facts, goal)
		}
		for i, b := range []bool{true, false} {
			fs := p.literal(t.Args[0], b)
			if !walk(t.Args[1+i], append(facts[:len(facts):len(facts)], fs...), append(goal[:len(goal):len(goal)], fs...)) {
				return false
			}
		}
		return true
	}
	return walk(g, facts, nil)
}

// literal gives what an atom says about integers, as forms >= 0.
func (p *prover) literal(a *Term, val bool) (out []*Term) {
	c := p.c
	switch a.Op {
	case "ilt":
		if val {
			return []*Term{c.Sub(c.Neg(a.Args[0]), c.Int(1))}
		}
		return []*Term{a.Args[0]}
	case "isnil":
		if val && given(a.Args[0]) {
			return []*Term{c.Int(-1)}
		}
	case "flt":
		if val {
			return []*Term{c.above(c.Neg(a.Args[0]))}
		}
	case "fle":
		if val {
			return []*Term{c.Neg(a.Args[0])}
		}
	case "ieq":
		if val {
			return []*Term{a.Args[0], c.Neg(a.Args[0])}
		}
	case "eq":
		if a.Args[0].Kind == KInt && val {
			d := c.Sub(a.Args[0], a.Args[1])
			return []*Term{d, c.Neg(d)}
		}
		for i := range a.Args {
			if s := a.Args[i]; s.Op == "str" && val {
				d := c.Sub(c.Len(a.Args[1-i]), c.Int(int64(len(s.Aux))))
				return []*Term{d, c.Neg(d)}
			}
		}
	}
	if a.Op == "call" && val && len(a.Args) == 2 {
		switch a.Aux {
		case "strings.Contains":
			if s := a.Args[1]; s.Op == "str" && len(s.Aux) > 0 {
				n := c.Call("strings.SplitN", KOther, a.Args[0], s, c.Int(-1))
				return []*Term{c.Sub(c.Len(n), c.Int(2)), c.Sub(c.Len(a.Args[0]), c.Int(int64(len(s.Aux))))}
			}
		case "strings.HasPrefix", "strings.HasSuffix":
			return []*Term{c.Sub(c.Len(a.Args[0]), c.Len(a.Args[1]))}
		}
	}
	return nil
}

// axioms are what holds of a term in any case, as forms >= 0.
func (p *prover) axioms(t *Term) (out []*Term) {
	c := p.c
	if t.Kind == KF64 || t.Kind == KF32 {
		if t.Op == "call" && t.Aux == "math.Ceil" {
			out = append(out, c.Sub(t, t.Args[0]))
		}
		if t.Op == "call" && t.Aux == "math.Floor" {
			out = append(out, c.Sub(t.Args[0], t))
		}
		if t.Op == "lvc" {
			// what only grows
			if d := c.loops[t.Key]; d != nil && d.next != nil && d.init != nil {
				if k := c.Sub(d.next, t); k.IsConst() && k.Rat.Sign() >= 0 {
					out = append(out, c.Sub(t, d.init))
				}
			}
		}
		return
	}
	if t.Kind != KInt {
		return nil
	}
	if c.nonNeg(t) {
		out = append(out, t)
	}
	switch t.Op {
	case "len":
		out = append(out, c.Sub(c.Int(1<<40), t))
		if c.isFilled(t.Args[0]) {
			out = append(out, c.Sub(t, c.Int(1)))
		}
		if x := t.Args[0]; x.Op == "call" && (x.Aux == "strings.SplitN" || x.Aux == "strings.Split") {
			if s := x.Args[1]; s.Op == "str" && len(s.Aux) > 0 {
				if n, ok := c.Int(-1), true; ok && (len(x.Args) < 3 || x.Args[2] == n) {
					out = append(out, c.Sub(t, c.Int(1)))
				}
			}
		}
	case "search":
		out = append(out, c.Sub(t.Args[0], t))
	case "poly":
		// a product is not below a factor if the others are at least one
		if len(t.Monos) == 1 && len(t.Monos[0].fs) == 2 && t.Monos[0].fs[0].e == 1 && t.Monos[0].fs[1].e == 1 && t.Monos[0].c.Cmp(ratOne) == 0 {
			x, y := t.Monos[0].fs[0].t, t.Monos[0].fs[1].t
			if p.positive(x) && p.positive(y) {
				out = append(out, t)
				if p.positive(c.Sub(x, c.Int(1))) {
					out = append(out, c.Sub(t, y))
				}
				if p.positive(c.Sub(y, c.Int(1))) {
					out = append(out, c.Sub(t, x))
				}
			}
		}
	case "imax":
		for _, a := range t.Args {
			out = append(out, c.Sub(t, a))
		}
	case "imin":
		for _, a := range t.Args {
			out = append(out, c.Sub(a, t))
		}
	case "and":
		for _, a := range t.Args {
			if a.IsConst() && a.Rat.Sign() >= 0 {
				out = append(out, c.Sub(a, t))
			}
		}
	case "quo":
		x := t.Args[0]
		if d, ok := t.Args[1].IntVal(); ok && d > 0 && p.positive(x) {
			q := c.Scale(t, big.NewRat(d, 1))
			out = append(out, t, c.Sub(x, q), c.Sub(c.Add(q, c.Int(d-1)), x))
		}
	case "rem":
		if d, ok := t.Args[1].IntVal(); ok && d > 0 {
			out = append(out, c.Sub(c.Int(d-1), t), c.Add(t, c.Int(d-1)))
			if p.positive(t.Args[0]) {
				out = append(out, t)
			}
		}
	case "call":
		if t.Aux == "runelen" {
			out = append(out, c.Sub(t, c.Int(1)), c.Sub(c.Int(4), t))
		}
	case "lvc":
		if p.stream(t) {
			out = append(out, t)
		}
	case "nth":
		if p.stream(t.Args[0]) {
			out = append(out, t)
		}
	case "ite":
		if p.positive(t.Args[1]) && p.positive(t.Args[2]) {
			out = append(out, t)
		}
	}
	return
}

// positive: a term is not negative in any case.
func (p *prover) positive(t *Term) bool {
	if p.c.nonNeg(t) {
		return true
	}
	return p.close(p.c.True, nil, []*Term{p.c.Sub(p.c.Neg(t), p.c.Int(1))})
}

// stream: an integer stream is never negative, by induction.
func (p *prover) stream(v *Term) bool {
	if v.Op != "lvc" || v.Kind != KInt {
		return false
	}
	if v.NN || v.Aux == "K" {
		return true
	}
	switch p.inv[v] {
	case 1, 2:
		return true // 2: the induction hypothesis
	case 3:
		return false
	}
	d := p.c.loops[v.Key]
	if d == nil || !p.c.nonNeg(d.init) {
		p.inv[v] = 3
		return false
	}
	p.inv[v] = 2
	at := len(p.proved)
	ok := p.positive(d.next)
	if ok {
		p.inv[v] = 1
		p.proved = append(p.proved, v)
	} else {
		// what was found with it as a hypothesis is open again
		for _, w := range p.proved[at:] {
			delete(p.inv, w)
		}
		p.proved = p.proved[:at]
		p.inv[v] = 3
	}
	return ok
}

// close refutes facts in all cases of f.
func (p *prover) close(f *Term, facts, goal []*Term) bool {
	c := p.c
	if p.steps--; p.steps < 0 {
		return false
	}
	if f == c.False {
		return true
	}
	var known []*Term
	for a, v := range p.implied(f) {
		known = append(known, p.literal(a, v == c.True)...)
	}
	here := p.given(f)
	known = here(known)
	known = append(known, facts...)
	// what is connected with the goal
	var rows []row
	vars := map[*Term]bool{}
	var order []*Term
	addVars := func(r row) {
		for v := range r.co {
			if !vars[v] {
				vars[v] = true
				order = append(order, v)
			}
		}
	}
	for _, g := range goal {
		r := p.linear(g)
		rows = append(rows, r)
		addVars(r)
	}
	lin := make([]row, len(known))
	used := make([]bool, len(known))
	deep := make([][]*Term, len(known))
	for i, k := range known {
		lin[i] = p.linear(k)
		if len(lin[i].co) == 0 && lin[i].k.Sign() < 0 {
			return true
		}
		deep[i] = p.deep(lin[i], nil)
	}
	done := map[*Term]bool{}
	for more := true; more && len(rows) < 150; {
		more = false
		sort.Slice(order, func(i, j int) bool { return order[i].Key < order[j].Key })
		for _, v := range append([]*Term(nil), order...) {
			if done[v] {
				continue
			}
			done[v] = true
			more = true
			as := p.axioms(v)
			if v.Op == "trunc" && c.And(f, c.Lt0(v.Args[0])) == c.False && c.And(f, c.IsNaN(v.Args[0])) == c.False {
				as = append(as, v)
			}
			if v.Op == "trunc" {
				as = append(as, p.bounds(f, v)...)
			}
			if v.Kind != KInt {
				as = here(as)
			}
			for _, a := range as {
				r := p.linear(a)
				rows = append(rows, r)
				addVars(r)
			}
		}
		for i := range known {
			if used[i] {
				continue
			}
			for _, v := range deep[i] {
				if vars[v] {
					used[i], more = true, true
					rows = append(rows, lin[i])
					addVars(lin[i])
					break
				}
			}
		}
	}
	if infeasible(rows) {
		return true
	}
	if len(goal) > 0 && p.depth < p.max {
		sort.Slice(order, func(i, j int) bool { return order[i].Key < order[j].Key })
		for _, general := range []bool{false, true} {
			more := p.invariants(f, order, goal, general)
			for _, a := range more {
				rows = append(rows, p.linear(a))
			}
			if len(more) > 0 && infeasible(rows) {
				return true
			}
		}
	}
	if p.max > 0 && len(goal) > 0 {
		if more := p.twins(f, order); len(more) > 0 {
			for _, a := range more {
				rows = append(rows, p.linear(a))
			}
			if infeasible(rows) {
				return true
			}
		}
	}
	if p.Debug {
		fmt.Println("OPEN depth", p.depth, "f", c.Show(f, 2))
		for _, v := range order {
			if v.Op == "nth" {
				fmt.Println("   nth", c.ShowDeep(v, 4))
			}
			if v.Op == "lvc" && c.loops[v.Key] != nil && v.Kind != KInt {
				fmt.Println("   stream", c.Show(v, 2), "init", c.Show(c.loops[v.Key].init, 5), "next", c.Show(c.loops[v.Key].next, 3))
			}
		}
		for _, g := range goal {
			fmt.Println("   goal", c.Show(g, 2))
		}
		for _, g := range known {
			fmt.Println("   known", c.Show(g, 2))
		}
	}
	// cases of the values
	sort.Slice(order, func(i, j int) bool { return order[i].Key < order[j].Key })
	with := func(v, a *Term) []*Term {
		d := c.Sub(v, a)
		out := append(goal[:len(goal):len(goal)], d, c.Neg(d))
		for _, g := range goal {
			if x := p.linear(g).co[v]; x != nil {
				out = append(out, c.Sub(g, c.Scale(d, x)))
			}
		}
		return out
	}
	for _, v := range order {
		switch v.Op {
		case "ite":
			if len(v.Args) != 3 {
				continue
			}
			for _, cond := range []*Term{v.Args[0], c.Not(v.Args[0])} {
				h := c.And(f, cond)
				if h == c.False {
					continue
				}
				g := p.given(h)
				if !p.close(h, g(facts), g(goal)) {
					return false
				}
			}
			return true
		case "imax", "imin":
			if fixed(facts, c, v) {
				continue
			}
			for _, a := range v.Args {
				d := c.Sub(v, a)
				if !p.close(f, append(facts[:len(facts):len(facts)], d, c.Neg(d)), with(v, a)) {
					return false
				}
			}
			return true
		}
	}
	// what the loops around say of floats
	if !p.floats {
		var more []*Term
		for _, k := range known {
			if k.Kind != KInt && !has(goal, k) {
				more = append(more, k)
			}
		}
		if len(more) > 0 {
			p.floats = true
			ok := p.close(f, facts, append(goal[:len(goal):len(goal)], more...))
			p.floats = false
			if ok {
				return true
			}
		}
	}
	// cases of f
	if b := c.asBDD(f); b.Op == "bdd" {
		t := b
		for t.Op == "bdd" && (t.Args[1] == c.False || t.Args[2] == c.False) {
			if t.Args[1] == c.False {
				t = t.Args[2]
			} else {
				t = t.Args[1]
			}
		}
		if t.Op == "bdd" {
			return p.close(c.And(f, t.Args[0]), facts, goal) && p.close(c.And(f, c.Not(t.Args[0])), facts, goal)
		}
	}
	return false
}

// bounds of a truncated float from what holds of the float.
func (p *prover) bounds(f, v *Term) (out []*Term) {
	c := p.c
	for a, val := range p.implied(f) {
		if val != c.True || a.Op != "fle" && a.Op != "flt" {
			continue
		}
		// y <= 0 with y = q x + k
		y := p.linear(a.Args[0])
		var q *big.Rat
		for u, n := range p.linear(v.Args[0]).co {
			if y.co[u] == nil {
				q = nil
				break
			}
			q = new(big.Rat).Quo(y.co[u], n)
			break
		}
		if q == nil || q.Sign() == 0 {
			continue
		}
		rest := p.linear(c.Sub(a.Args[0], c.Scale(v.Args[0], q)))
		if len(rest.co) > 0 {
			continue
		}
		k := new(big.Rat).Quo(new(big.Rat).Neg(rest.k), q)
		whole := c.Const(KInt, new(big.Rat).SetInt(new(big.Int).Quo(k.Num(), k.Denom())))
		if q.Sign() > 0 && k.Sign() >= 0 {
			out = append(out, c.Sub(whole, v))
		}
		if q.Sign() < 0 && k.Sign() <= 0 {
			out = append(out, c.Sub(v, whole))
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Key < out[j].Key })
	return
}

// twins: streams that are equal after the same number of iterations.
func (p *prover) twins(f *Term, vars []*Term) (out []*Term) {
	c := p.c
	for i, x := range vars {
		for _, y := range vars[:i] {
			if x.Op != "nth" || y.Op != "nth" || x.Args[1] != y.Args[1] || x.Kind != KInt || x.Args[0].BL != y.Args[0].BL {
				continue
			}
			g := c.True
			for a, v := range p.implied(f) {
				if closed(a) {
					if v != c.True {
						a = c.Not(a)
					}
					g = c.And(g, a)
				}
			}
			key := [3]*Term{g, x, y}
			if p.tried[key] == 0 {
				m := c.NewCmp()
				m.Try = 300
				p.tried[key] = 3
				if m.Equal(c.Ite(g, x, c.Int(0)), c.Ite(g, y, c.Int(0))) {
					p.tried[key] = 1
				}
			}
			if p.tried[key] == 1 {
				d := c.Sub(x, y)
				out = append(out, d, c.Neg(d))
			}
		}
	}
	return
}

// closed: a term is not about an iteration of a loop.
func closed(t *Term) bool {
	for _, v := range t.Free {
		if isVar(v) {
			return false
		}
	}
	return true
}

func has(ts []*Term, t *Term) bool {
	for _, x := range ts {
		if x == t {
			return true
		}
	}
	return false
}

// given simplifies integer forms where a condition holds.
func (p *prover) given(h *Term) func([]*Term) []*Term {
	c := p.c
	known := map[*Term]int{}
	memo := map[*Term]*Term{}
	var value func(t *Term) *Term
	form := func(t *Term) *Term {
		sum := t
		for v, k := range p.linear(t).co {
			if w := value(v); w != v {
				sum = c.Add(sum, c.Scale(c.Sub(w, v), k))
			}
		}
		return sum
	}
	value = func(t *Term) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		r := t
		switch t.Op {
		case "ite":
			a := t.Args[0]
			k, ok := known[a]
			if !ok {
				switch {
				case c.And(h, a) == c.False:
					k = 2
				case c.And(h, c.Not(a)) == c.False:
					k = 1
				}
				known[a] = k
			}
			if k > 0 {
				r = form(t.Args[k])
			} else {
				r = c.Ite(a, form(t.Args[1]), form(t.Args[2]))
			}
		case "poly":
			// a product
			if len(t.Monos) == 1 && t.Kind == KInt {
				m := t.Monos[0]
				r = c.Const(KInt, m.c)
				for _, x := range m.fs {
					if x.e < 1 {
						return t
					}
					for i := 0; i < x.e; i++ {
						r = c.Mul(r, value(x.t))
					}
				}
			}
		case "imax", "imin":
			r = form(t.Args[0])
			for _, x := range t.Args[1:] {
				r = c.MinMax(t.Op, r, form(x))
			}
		}
		memo[t] = r
		return r
	}
	return func(ts []*Term) []*Term {
		out := make([]*Term, len(ts))
		for i, t := range ts {
			out[i] = form(t)
		}
		return out
	}
}

// deep gives the variables of a form and of the cases of its values.
func (p *prover) deep(r row, out []*Term) []*Term {
	for v := range r.co {
		out = append(out, v)
		switch v.Op {
		case "ite", "imax", "imin":
			for _, a := range v.Args {
				if a.Kind == KInt {
					out = p.deep(p.linear(a), out)
				}
			}
		}
	}
	return out
}

// fixed: the case of a value has been chosen.
func fixed(facts []*Term, c *Ctx, v *Term) bool {
	for _, a := range v.Args {
		if a.Kind != v.Kind {
			continue
		}
		d := c.Sub(v, a)
		for _, f := range facts {
			if f == d {
				return true
			}
		}
	}
	return false
}

// infeasible: the rows cannot all be non-negative (Fourier-Motzkin).
func infeasible(rows []row) bool {
	seen := map[string]bool{}
	var cur []row
	add := func(r row) bool { // false: a contradiction
		n := 0
		key := ""
		var ks []*Term
		for v, x := range r.co {
			if x.Sign() == 0 {
				delete(r.co, v)
				continue
			}
			n++
			ks = append(ks, v)
		}
		if n == 0 {
			return r.k.Sign() > 0 || r.k.Sign() == 0 && !r.strict
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i].Key < ks[j].Key })
		lead := new(big.Rat).Abs(r.co[ks[0]])
		inv := new(big.Rat).Inv(lead)
		co := map[*Term]*big.Rat{}
		for _, v := range ks {
			co[v] = new(big.Rat).Mul(r.co[v], inv)
			key += v.Key + co[v].RatString() + ";"
		}
		r = row{co, new(big.Rat).Mul(r.k, inv), r.strict}
		key += r.k.RatString()
		if r.strict {
			key += "+"
		}
		if !seen[key] {
			seen[key] = true
			cur = append(cur, r)
		}
		return true
	}
	for _, r := range rows {
		co := map[*Term]*big.Rat{}
		for v, x := range r.co {
			co[v] = x
		}
		if !add(row{co, r.k, r.strict}) {
			return true
		}
	}
	for {
		// the variable whose elimination is cheapest
		pos, neg := map[*Term]int{}, map[*Term]int{}
		for _, r := range cur {
			for v, x := range r.co {
				if x.Sign() > 0 {
					pos[v]++
				} else {
					neg[v]++
				}
			}
		}
		var best *Term
		cost := 0
		for v := range union(pos, neg) {
			k := pos[v] * neg[v]
			if best == nil || k < cost || k == cost && v.Key < best.Key {
				best, cost = v, k
			}
		}
		if best == nil {
			return false
		}
		old := cur
		cur = nil
		var ps, ns []row
		for _, r := range old {
			x := r.co[best]
			switch {
			case x == nil:
				cur = append(cur, r)
			case x.Sign() > 0:
				ps = append(ps, r)
			default:
				ns = append(ns, r)
			}
		}
		if len(cur)+cost > 3000 {
			return false
		}
		for _, a := range ps {
			for _, b := range ns {
				x, y := a.co[best], new(big.Rat).Neg(b.co[best])
				co := map[*Term]*big.Rat{}
				for v, z := range a.co {
					co[v] = new(big.Rat).Mul(z, y)
				}
				for v, z := range b.co {
					w := new(big.Rat).Mul(z, x)
					if o := co[v]; o != nil {
						w.Add(w, o)
					}
					co[v] = w
				}
				delete(co, best)
				k := new(big.Rat).Add(new(big.Rat).Mul(a.k, y), new(big.Rat).Mul(b.k, x))
				if !add(row{co, k, a.strict || b.strict}) {
					return true
				}
			}
		}
	}
}

func union(a, b map[*Term]int) map[*Term]bool {
	out := map[*Term]bool{}
	for v := range a {
		out[v] = true
	}
	for v := range b {
		out[v] = true
	}
	return out
}
