package vg

import (
	"fmt"
	"go/token"
	"math"
	"math/big"
	"sort"
	"strings"
)

// Cmp decides equality of value graphs.
type Cmp struct {
	c      *Ctx
	memo   map[[2]*Term]bool
	trail  [][2]*Term
	Splits int
	Steps  int
	Limit  int
	Try    int // steps given to an attempt without splitting at the top
	ceil   int
	// the most specific disagreement
	DA, DB *Term
	dd     int
	depth  int
	quiet  int
	path   []pathStep
	Path   []pathStep       // conditions assumed at the disagreement
	neg    map[[2]*Term]int // pairs that differ without case splits, under the hypotheses of a version
	ver    int
	dds    *ddMaker
	hidden map[*Term]*Term
	open   []*Term           // streams whose equality is being proved
	proved map[[2]*Term]bool // streams proved equal without use of those
	reach  map[*Term]map[*Term]bool
}

type pathStep struct {
	cond *Term
	val  bool
}

func (c *Ctx) NewCmp() *Cmp {
	return &Cmp{c: c, memo: map[[2]*Term]bool{}, neg: map[[2]*Term]int{}, proved: map[[2]*Term]bool{}, reach: map[*Term]map[*Term]bool{}, Limit: 400000, Try: 300}
}

func (m *Cmp) set(a, b *Term) {
	k := [2]*Term{a, b}
	if !m.memo[k] {
		m.memo[k] = true
		m.trail = append(m.trail, k)
	}
}

func (m *Cmp) undo(n int) {
	for _, k := range m.trail[n:] {
		delete(m.memo, k)
	}
	m.trail = m.trail[:n]
}

// reaches gives the streams a stream is made from, whatever the loop.
func (m *Cmp) reaches(v *Term) map[*Term]bool {
	if r := m.reach[v]; r != nil {
		return r
	}
	out := map[*Term]bool{v: true}
	for todo := []*Term{v}; len(todo) > 0; {
		d := m.c.loops[todo[0].Key]
		todo = todo[1:]
		if d == nil {
			continue
		}
		for _, t := range []*Term{d.init, d.next} {
			if t == nil {
				continue
			}
			m.c.eachSub(t, func(x *Term) {
				if x.Op == "lvc" && !out[x] {
					out[x] = true
					todo = append(todo, x)
				}
			})
		}
	}
	m.reach[v] = out
	return out
}

func (m *Cmp) note(a, b *Term) {
	if m.quiet == 0 && m.depth >= m.dd {
		m.dd = m.depth
		m.DA, m.DB = a, b
		m.Path = append([]pathStep{}, m.path...)
	}
}

// Equal compares two terms; on failure DA, DB hold a disagreement.
func (m *Cmp) Equal(a, b *Term) bool {
	a, b = m.numbers(a, b)
	a, b = m.normal(a, b)
	b = m.share(a, b)
	if conflDebug {
		m.only(a, b)
	}
	return m.eq(a, b, 80)
}

// reassume applies the assumptions made before to conditions that came up
// with the last one.
func (m *Cmp) reassume(t *Term, n int) *Term {
	for _, st := range m.path[:n] {
		closed := true
		for _, f := range st.cond.Free {
			closed = closed && !isVar(f)
		}
		if !closed {
			continue
		}
		found := false
		m.c.eachSub(t, func(x *Term) { found = found || x == st.cond })
		if found {
			t = m.c.AssumeDeep(t, st.cond, st.val)
		}
	}
	return t
}

// pinned gives the value of an integer that two assumptions together determine.
func (m *Cmp) pinned(at *Term, v bool, n int) map[*Term]*Term {
	if at.Op != "ilt" {
		return nil
	}
	side := func(at *Term, v bool) *atomRange {
		r := m.c.atomRange(at)
		if r == nil || r.flt || r.nan || r.bit > 0 || r.sym != nil {
			return nil
		}
		if v {
			return r
		}
		if k := complement(r); len(k) == 1 {
			return &atomRange{base: r.base, lo: k[0].lo, hi: k[0].hi, loC: k[0].loC, hiC: k[0].hiC}
		}
		return nil
	}
	end := func(k *big.Rat, closed bool, in int64) *big.Rat {
		if k == nil || closed {
			return k
		}
		return new(big.Rat).Add(k, big.NewRat(in, 1))
	}
	r := side(at, v)
	if r == nil || r.base == nil {
		return nil
	}
	x := r.base.Args[0]
	if x.Op == "poly" || x.IsConst() {
		return nil
	}
	lo, hi := end(r.lo, r.loC, 1), end(r.hi, r.hiC, -1)
	if m.c.nonNeg(x) && (lo == nil || lo.Sign() < 0) {
		lo = new(big.Rat)
	}
	for _, st := range m.path[:n] {
		if st.cond.Op != "ilt" {
			continue
		}
		for _, f := range st.cond.Free {
			if isVar(f) {
				return nil
			}
		}
		q := side(st.cond, st.val)
		if q == nil || q.base != r.base {
			continue
		}
		if k := end(q.lo, q.loC, 1); k != nil && (lo == nil || k.Cmp(lo) > 0) {
			lo = k
		}
		if k := end(q.hi, q.hiC, -1); k != nil && (hi == nil || k.Cmp(hi) < 0) {
			hi = k
		}
	}
	if lo == nil || hi == nil || lo.Cmp(hi) != 0 || !lo.IsInt() {
		return nil
	}
	return map[*Term]*Term{x: m.c.Const(KInt, lo)}
}

// share writes the results of loops in b as those of equal loops in a, inner
// ones first, so that conditions on them are the same on both sides.
func (m *Cmp) share(a, b *Term) *Term {
	c := m.c
	find := func(t *Term) []*Term {
		in := map[*Term]bool{}
		var out []*Term
		var walk func(t *Term)
		walk = func(t *Term) {
			c.eachSub(t, func(x *Term) {
				if in[x] {
					return
				}
				in[x] = true
				if x.Op == "lvc" {
					if d := c.loops[x.Key]; d != nil && d.next != nil {
						walk(d.init)
						walk(d.next)
					}
				}
				if x.Op == "nth" || x.Op == "first" {
					for _, f := range x.Free {
						if isVar(f) {
							return
						}
					}
					out = append(out, x)
				}
			})
		}
		walk(t)
		sort.Slice(out, func(i, j int) bool {
			if p, q := c.size(out[i]), c.size(out[j]); p != q {
				return p < q
			}
			return out[i].Key < out[j].Key
		})
		return out
	}
	as := find(a)
	mine := map[*Term]bool{}
	for _, x := range as {
		mine[x] = true
	}
	tried := map[*Term]bool{}
next:
	for len(tried) < 40 {
		for _, y := range find(b) {
			if mine[y] || tried[y] {
				continue
			}
			tried[y] = true
			for _, x := range as {
				if x.Op != y.Op || x.BL != y.BL || x.Kind != y.Kind {
					continue
				}
				if x.Op == "nth" && c.loops[x.Args[0].Key].init != c.loops[y.Args[0].Key].init {
					continue
				}
				n := len(m.trail)
				m.ceil = m.Steps + m.Try
				m.quiet++
				ok := m.eq(x, y, 0)
				m.quiet--
				m.ceil = 0
				if ok {
					b = c.Subst(b, map[*Term]*Term{y: x})
					continue next
				}
				m.undo(n)
			}
		}
		break
	}
	return b
}

// numbers orders all quantities that neither side tests for being a number:
// those are numbers, and x <= y is not y < x.
func (m *Cmp) numbers(a, b *Term) (*Term, *Term) {
	c := m.c
	set := map[string]bool{}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		c.eachSub(t, func(x *Term) {
			switch x.Op {
			case "isnan":
				for _, mo := range monosOf(x.Args[0]) {
					for _, f := range mo.fs {
						set[shape(f.t)] = true
					}
				}
			case "lvc":
				if d := c.loops[x.Key]; d != nil && d.next != nil && !seen[x] {
					seen[x] = true
					walk(d.init)
					walk(d.next)
				}
			}
		})
	}
	walk(a)
	walk(b)
	c.nans = set
	c.nanMemo = map[*Term]bool{}
	c.asmMemo = map[asmKey]*Term{}
	c.iteMemo = map[[3]string]*Term{}
	return c.inOrder(a), c.inOrder(b)
}

// normal writes both sides over the same iterations of their streams.
func (m *Cmp) normal(a, b *Term) (*Term, *Term) {
	for i := 0; i < 4; i++ {
		a, b = m.c.foldSums(a), m.c.foldSums(b)
		a, b = m.unroll(a, b)
		b2 := m.align(a, b)
		a2 := m.align(b2, a)
		if a2 == a && b2 == b {
			break
		}
		a, b = a2, b2
	}
	return a, b
}

// hide replaces results of calls with conditional arguments that both sides
// have by symbols; what holds for any value holds for these.
func (m *Cmp) hide(a, b *Term) (*Term, *Term) {
	c := m.c
	outer := map[*Term]bool{}
	for _, t := range []*Term{a, b} {
		for _, f := range t.Free {
			outer[f] = true
		}
	}
	in := map[*Term]int{}
	for i, t := range []*Term{a, b} {
		c.eachSub(t, func(x *Term) {
			if x.Op != "call" {
				return
			}
			for _, f := range x.Free {
				if isVar(f) && !outer[f] {
					return
				}
			}
			in[x] |= 1 << i
		})
	}
	sub := map[*Term]*Term{}
	var both []*Term
	for x, k := range in {
		if k == 3 {
			both = append(both, x)
		}
	}
	sort.Slice(both, func(i, j int) bool { return both[i].Key < both[j].Key })
	for _, x := range both {
		cond := false
		c.eachSub(x, func(y *Term) { cond = cond || isConnective(y) })
		if cond {
			if m.hidden == nil {
				m.hidden = map[*Term]*Term{}
			}
			if m.hidden[x] == nil {
				m.hidden[x] = c.standIn("call", x)
			}
			sub[x] = m.hidden[x]
		}
	}
	if len(sub) == 0 {
		return a, b
	}
	s := c.NewSubst(sub)
	return s.Apply(a), s.Apply(b)
}

// only prints the smallest subterms that one side has and the other has not.
func (m *Cmp) only(a, b *Term) {
	for s := 0; s < 2; s++ {
		in := map[*Term]bool{}
		m.c.eachSub(b, func(x *Term) { in[x] = true })
		var xs []*Term
		m.c.eachSub(a, func(x *Term) {
			if in[x] {
				return
			}
			xs = append(xs, x)
		})
		sort.Slice(xs, func(i, j int) bool { return m.c.size(xs[i]) < m.c.size(xs[j]) })
		for i := 0; i < len(xs) && i < 25; i++ {
			println("ONLY", s, m.c.size(xs[i]), m.c.Show(xs[i], 4))
		}
		a, b = b, a
	}
}

// foldSums adds the next amount to a sum up to an iteration.
func (c *Ctx) foldSums(t *Term) *Term {
	for i := 0; i < 4; i++ {
		sub := map[*Term]*Term{}
		c.eachSub(t, func(x *Term) {
			if x.Op != "poly" {
				return
			}
			ms := monosOf(x)
			for _, mo := range ms {
				if len(mo.fs) != 1 || mo.fs[0].e != 1 || mo.fs[0].t.Op != "nth" || mo.fs[0].t.Args[0].Op != "lvc" {
					continue
				}
				y := mo.fs[0].t
				v, n := y.Args[0], y.Args[1]
				d := c.loops[v.Key]
				if d == nil || d.next == nil || d.next.Op != "poly" {
					continue
				}
				g := c.Sub(d.next, v)
				if hasFree(g, v) {
					continue
				}
				k := c.polyTerm(x.Kind, []mono{{mo.c, nil}})
				r := c.Add(c.Sub(x, c.Mul(k, c.Add(y, c.At(g, v.BL, n)))), c.Mul(k, c.Nth(v, c.Add(n, c.Int(1)))))
				if len(monosOf(r)) < len(ms) {
					sub[x] = r
					return
				}
			}
		})
		if len(sub) == 0 {
			break
		}
		t = c.Subst(t, sub)
	}
	return t
}

// unroll expresses the value of a stream by the iteration before where that is
// used as well.
func (m *Cmp) unroll(a, b *Term) (*Term, *Term) {
	c := m.c
	for i := 0; i < 3 && a != b; i++ {
		has := map[*Term]bool{}
		var ys []*Term
		for _, t := range []*Term{a, b} {
			c.eachSub(t, func(x *Term) {
				if x.Op == "nth" && x.Args[0].Op == "lvc" && !has[x] {
					has[x] = true
					ys = append(ys, x)
				}
			})
		}
		type level struct {
			bl int
			n  *Term
		}
		in := map[level]bool{}
		for _, y := range ys {
			in[level{y.BL, y.Args[1]}] = true
		}
		sub := map[*Term]*Term{}
		for _, y := range ys {
			v, n := y.Args[0], c.Sub(y.Args[1], c.Int(1))
			d := c.loops[v.Key]
			if d == nil || d.next == nil || !c.nonNeg(n) || !in[level{y.BL, n}] {
				continue
			}
			if d.next.Op == "poly" && v.Kind == KInt && !hasFree(c.Sub(d.next, v), v) {
				continue // see foldSums
			}
			mp := map[*Term]*Term{}
			for _, f := range d.next.Free {
				if isVar(f) && f.BL == v.BL {
					mp[f] = c.Nth(f, n)
				}
			}
			sub[y] = c.Subst(d.next, mp)
		}
		if len(sub) == 0 {
			break
		}
		a, b = c.Subst(a, sub), c.Subst(b, sub)
	}
	return a, b
}

// align makes b read its streams at the iterations at which a reads them, where
// one of the two handles the first iterations outside of its loop.
func (m *Cmp) align(a, b *Term) *Term {
	c := m.c
	if a == b {
		return b
	}
	find := func(t *Term) map[*Term]bool {
		out := map[*Term]bool{}
		c.eachSub(t, func(x *Term) {
			if x.Op == "nth" {
				out[x] = true
			}
		})
		return out
	}
	in, of := find(a), find(b)
	if len(in) == 0 || len(of) == 0 {
		return b
	}
	at := map[*Term]int{}
	var idx []*Term
	for x := range in {
		if !of[x] && at[x.Args[1]] == 0 {
			at[x.Args[1]] = x.BL
			idx = append(idx, x.Args[1])
		}
	}
	sort.Slice(idx, func(i, j int) bool { return idx[i].Key < idx[j].Key })
	sub := map[*Term]*Term{}
	for y := range of {
		if in[y] {
			continue
		}
		n := y.Args[1]
		if at[n] == y.BL {
			continue
		}
		for _, x := range idx {
			if at[x] != y.BL {
				continue
			}
			low := x
			if x.Op == "imax" && len(x.Args) == 2 {
				for i := range x.Args {
					if k, ok := x.Args[i].IntVal(); ok && k == 0 {
						low = x.Args[1-i]
					}
				}
			}
			d, ok := c.Sub(n, low).IntVal()
			if !ok || d <= 0 || d > 3 {
				continue
			}
			if v := c.shift(y.Args[0], int(d)); v != nil {
				sub[y] = c.Ite(c.Lt0(c.Sub(n, c.Int(d))), y, c.At(v, y.BL, x))
				break
			}
		}
	}
	if len(sub) == 0 {
		return b
	}
	return c.Subst(b, sub)
}

func closeTo(x, y float64) bool {
	if x == y {
		return true
	}
	d := math.Abs(x - y)
	return d <= 1e-12*math.Max(math.Abs(x), math.Abs(y))
}

func (m *Cmp) eq(a, b *Term, fuel int) bool {
	if a == b || m.memo[[2]*Term{a, b}] || m.proved[[2]*Term{a, b}] {
		return true
	}
	m.Steps++
	if m.Steps > m.Limit || m.ceil > 0 && m.Steps > m.ceil {
		m.note(a, b)
		return false
	}
	m.depth++
	defer func() { m.depth-- }()
	n := len(m.trail)
	if v, ok := m.neg[[2]*Term{a, b}]; !ok || v != m.ver {
		if m.structural(a, b, 0) {
			m.set(a, b)
			return true
		}
		m.undo(n)
		if ok, _ := m.byConditions(a, b, 0); ok {
			m.set(a, b)
			return true
		}
		if m.ceil == 0 || m.Steps <= m.ceil {
			m.neg[[2]*Term{a, b}] = m.ver
		}
	}
	if fuel > 0 {
		if x, y, ok := m.narrow(a, b); ok {
			if m.eq(x, y, fuel) {
				m.set(a, b)
				return true
			}
			m.undo(n)
			if p, q := m.within(a, b, x, y); (p != x || q != y) && m.eq(p, q, fuel) {
				m.set(a, b)
				return true
			}
			m.undo(n)
			m.note(a, b)
			return false
		}
		if b2 := m.unify(a, b); b2 != b {
			if m.eq(a, b2, fuel) {
				m.set(a, b)
				return true
			}
			m.undo(n)
			m.note(a, b)
			return false
		}
		// a short attempt at splitting further down
		if old := m.ceil; old == 0 || old > m.Steps+m.Try {
			m.ceil = m.Steps + m.Try
			m.quiet++
			ok := m.structural(a, b, fuel)
			m.quiet--
			m.ceil = old
			if ok {
				m.set(a, b)
				return true
			}
			m.undo(n)
		}
		if ok, decided := m.byConditions(a, b, fuel); ok {
			m.set(a, b)
			return true
		} else if decided {
			if conflDebug && m.quiet == 0 {
				println("DECIDED", m.depth, len(m.path), c2(m.c.Show(a, 4)), c2(m.c.Show(b, 4)))
			}
			m.undo(n)
		}
		if conflDebug && m.quiet == 0 {
			println("PICK", m.depth, len(m.path), m.c.size(a), m.c.size(b), a.Op, b.Op)
			if at := m.pickAtom(a, b); at != nil {
				println("  AT", c2(m.c.Show(at, 4)))
			}
		}
		if at := m.pickAtom(a, b); at != nil {
			m.Splits++
			ok := true
			pl := len(m.path)
			for _, v := range []bool{true, false} {
				m.path = append(m.path, pathStep{at, v})
				a1, b1 := m.c.AssumeDeep(a, at, v), m.c.AssumeDeep(b, at, v)
				if a1 == a && b1 == b {
					if conflDebug {
						println("NOEFFECT", c2(m.c.Show(at, 4)))
					}
					ok = false
					break
				}
				a1, b1 = m.reassume(a1, pl), m.reassume(b1, pl)
				if mp := m.pinned(at, v, pl); mp != nil {
					a1, b1 = m.c.Subst(a1, mp), m.c.Subst(b1, mp)
				}
				if !m.eq(a1, b1, fuel-1) {
					ok = false
					break
				}
				m.path = m.path[:len(m.path)-1]
			}
			m.path = m.path[:pl]
			if ok {
				m.set(a, b)
				return true
			}
			m.undo(n)
			m.note(a, b)
			return false
		}
		if m.structural(a, b, fuel) {
			m.set(a, b)
			return true
		}
		m.undo(n)
	}
	m.note(a, b)
	return false
}

// group gives the streams of a's loop that a depends on, a first.
func (c *Ctx) group(a *Term) []*Term {
	in := map[*Term]bool{}
	var out []*Term
	var walk func(v *Term)
	walk = func(v *Term) {
		if in[v] {
			return
		}
		in[v] = true
		out = append(out, v)
		d := c.loops[v.Key]
		if d == nil || d.next == nil {
			return
		}
		for _, f := range d.next.Free {
			if f.Op == "lvc" && f.BL == a.BL && f.Aux != "K" {
				walk(f)
			}
		}
	}
	walk(a)
	return out
}

// shape hashes the subterms of the definition of a stream with the streams
// of its loop made anonymous.
func (c *Ctx) shape(v *Term, anon map[*Term]*Term) map[string]bool {
	out := map[string]bool{}
	d := c.loops[v.Key]
	t := c.Subst(d.next, anon)
	c.eachSub(t, func(x *Term) { out[x.Key] = true })
	self := c.Subst(d.next, map[*Term]*Term{v: c.intern(&Term{Op: "sym", Aux: "~self" + string(v.Kind), Kind: v.Kind, Typ: v.Typ})})
	if self != d.next {
		out["self"] = true
	}
	return out
}

func similar(a, b map[string]bool) float64 {
	n, u := 0, len(b)
	for k := range a {
		if b[k] {
			n++
		} else {
			u++
		}
	}
	if u == 0 {
		return 1
	}
	return float64(n) / float64(u)
}

// eqTidy compares the terms with conditions decided that are tested again.
func (m *Cmp) eqTidy(a, b *Term, fuel int) bool {
	a2, b2 := m.c.tidy(a), m.c.tidy(b)
	return (a2 != a || b2 != b) && m.eq(a2, b2, fuel)
}

// sided tells if the second of a proved pair is equal to this stream only.
func (m *Cmp) sided(p [2]*Term) bool {
	for q := range m.proved {
		if q[1] == p[1] && q[0] != p[0] {
			return false
		}
	}
	return true
}

// streams proves two streams equal by coinduction over a pairing of the
// streams of the two loops.
func (m *Cmp) streams(a, b *Term, fuel int) bool {
	c := m.c
	da, db := c.loops[a.Key], c.loops[b.Key]
	if !m.eq(da.init, db.init, fuel) {
		return false
	}
	ga, gb := c.group(a), c.group(b)
	shared := map[*Term]bool{}
	for _, x := range ga {
		shared[x] = true
	}
	anon := map[*Term]*Term{}
	for _, g := range [][]*Term{ga, gb} {
		for _, x := range g {
			anon[x] = c.intern(&Term{Op: "sym", Aux: "~any" + string(x.Kind), Kind: x.Kind, Typ: x.Typ})
		}
	}
	sh := map[*Term]map[string]bool{}
	shape := func(x *Term) map[string]bool {
		if sh[x] == nil {
			sh[x] = c.shape(x, anon)
		}
		return sh[x]
	}
	var free []*Term // of gb, to be paired
	for _, y := range gb[1:] {
		if !shared[y] && y != a {
			free = append(free, y)
		}
	}
	type cand struct {
		x *Term
		s float64
	}
	used := map[*Term]bool{a: true}
	pairs := [][2]*Term{{a, b}}
	tries := 0
	var try func() bool
	try = func() bool {
		tries++
		known := len(m.proved)
		if conflDebug {
			println("TRY", fuel, len(ga), len(gb))
			for _, p := range pairs {
				println("   ", string(p[0].Kind), c.Show(p[0], 3), c.Show(p[1], 3), similar(shape(p[0]), shape(p[1])))
			}
		}
		n := len(m.trail)
		mp := map[*Term]*Term{}
		for _, p := range pairs {
			mp[p[1]] = p[0]
		}
		equal := map[*Term]*Term{}
		for p := range m.proved {
			if p[0] != p[1] && p[0].BL == p[1].BL && !m.proved[[2]*Term{p[1], p[0]}] && m.sided(p) {
				equal[p[1]] = p[0]
			}
		}
		for _, p := range pairs {
			m.set(p[0], p[1])
		}
		m.ver++
		s := c.NewSubst(mp)
		outer := len(m.open)
		for _, p := range pairs {
			m.open = append(m.open, p[0], p[1])
		}
		defer func() { m.open = m.open[:outer] }()
		for _, p := range pairs {
			x, y := m.normal(c.loops[p[0].Key].next, c.Rename(s.Apply(c.loops[p[1].Key].next), equal))
			if conflDebug {
				m.only(x, y)
			}
			hx, hy := m.hide(x, y)
			if !m.eq(hx, hy, fuel) && (hx == x || !m.eq(x, y, fuel)) && !m.eqTidy(x, y, fuel) {
				if conflDebug {
					println("FAILED", fuel, c.Show(p[0], 3), c.Show(p[1], 3))
					println("LEFT", c.Show(x, 14))
					println("RIGHT", c.Show(y, 14))
				}
				m.undo(n)
				m.ver++
				if len(m.proved) > known {
					m.open = m.open[:outer]
					return try() // with what is known by now
				}
				return false
			}
		}
		// nothing in these streams can have used what is still being proved
		free := true
		for _, o := range m.open[:outer] {
			free = free && !m.reaches(a)[o] && !m.reaches(b)[o]
		}
		if conflDebug {
			println("PROVED", free, c.Show(a, 3), c.Show(b, 3), len(pairs))
		}
		if free {
			for _, p := range pairs {
				m.proved[p] = true
			}
		}
		return true
	}
	var rec func(i int) bool
	rec = func(i int) bool {
		if i == len(free) {
			return try()
		}
		y := free[i]
		var cs []cand
		for _, x := range ga[1:] {
			if used[x] || x.Kind != y.Kind {
				continue
			}
			n := len(m.trail)
			if !m.eq(c.loops[x.Key].init, c.loops[y.Key].init, 0) {
				m.undo(n)
				continue
			}
			cs = append(cs, cand{x, similar(shape(x), shape(y))})
		}
		sort.SliceStable(cs, func(p, q int) bool { return cs[p].s > cs[q].s })
		for _, k := range cs {
			used[k.x] = true
			pairs = append(pairs, [2]*Term{k.x, y})
			if rec(i + 1) {
				return true
			}
			pairs = pairs[:len(pairs)-1]
			used[k.x] = false
			if tries > 6 {
				return false
			}
		}
		if len(cs) == 0 {
			return rec(i + 1)
		}
		return false
	}
	return rec(0)
}

// narrow finds the only place where two terms of the same shape differ.
func (m *Cmp) narrow(a, b *Term) (*Term, *Term, bool) {
	if a.Op != b.Op || a.Aux != b.Aux || len(a.Args) != len(b.Args) || len(a.Args) < 2 || a.BL != b.BL {
		return nil, nil, false
	}
	switch a.Op {
	case "lvc", "fmin", "fmax", "imin", "imax", "and", "or", "xor", "poly":
		return nil, nil, false
	}
	at := -1
	n := len(m.trail)
	for i := range a.Args {
		if a.Args[i] == b.Args[i] {
			continue
		}
		if m.eq(a.Args[i], b.Args[i], 0) {
			continue
		}
		m.undo(n)
		if at >= 0 {
			return nil, nil, false
		}
		at = i
	}
	if at < 0 || (isConnective(a) || a.Op == "nth") && at == 0 {
		return nil, nil, false
	}
	return a.Args[at], b.Args[at], true
}

// within takes over what the place of these parts of a and b tells.
func (m *Cmp) within(a, b, x, y *Term) (*Term, *Term) {
	if isConnective(a) && !isConnective(a.Args[0]) && !isConnective(b.Args[0]) && x != y {
		v := x == a.Args[1]
		for _, t := range []*Term{a.Args[0], b.Args[0]} {
			x, y = m.c.AssumeDeep(x, t, v), m.c.AssumeDeep(y, t, v)
		}
	}
	return x, y
}

func isConnective(t *Term) bool { return t.Op == "bdd" || t.Op == "ite" }

// atoms gives the conditions used in a term that mean the same outside it.
func (m *Cmp) atoms(root *Term) map[*Term]bool {
	out := map[*Term]bool{}
	outer := map[*Term]bool{}
	for _, f := range root.Free {
		outer[f] = true
	}
	m.c.eachSub(root, func(t *Term) {
		if !isConnective(t) {
			return
		}
		at := t.Args[0]
		if isConnective(at) {
			return
		}
		for _, f := range at.Free {
			if isVar(f) && !outer[f] {
				return
			}
		}
		out[at] = true
	})
	return out
}

// unify rewrites conditions of b that are equal to conditions of a.
func (m *Cmp) unify(a, b *Term) *Term {
	mp := m.equalAtoms(m.atoms(a), m.atoms(b))
	if len(mp) == 0 {
		return b
	}
	return m.c.Subst(b, mp)
}

// equalAtoms pairs conditions of b with equal conditions of a.
func (m *Cmp) equalAtoms(sa, sb map[*Term]bool) map[*Term]*Term {
	var oa, ob []*Term
	for t := range sa {
		if !sb[t] {
			oa = append(oa, t)
		}
	}
	for t := range sb {
		if !sa[t] {
			ob = append(ob, t)
		}
	}
	if len(oa) == 0 || len(ob) == 0 || len(oa)*len(ob) > 1600 {
		return nil
	}
	for _, l := range [][]*Term{oa, ob} {
		sort.Slice(l, func(i, j int) bool { return l[i].Key < l[j].Key })
	}
	mp := map[*Term]*Term{}
	m.quiet++
	for _, y := range ob {
		for _, x := range oa {
			if x.Op != y.Op {
				continue
			}
			n := len(m.trail)
			if m.eq(x, y, 0) {
				mp[y] = x
				break
			}
			m.undo(n)
		}
	}
	m.quiet--
	return mp
}

// pickAtom finds a condition to split on.
func (m *Cmp) pickAtom(a, b *Term) *Term {
	sa, sb := m.atoms(a), m.atoms(b)
	var one, both []*Term
	for t := range sa {
		if sb[t] {
			both = append(both, t)
		} else {
			one = append(one, t)
		}
	}
	for t := range sb {
		if !sa[t] {
			one = append(one, t)
		}
	}
	// shared conditions first: they line the two sides up
	for _, l := range [][]*Term{both, one} {
		sort.Slice(l, func(i, j int) bool {
			si, sj := m.c.size(l[i]), m.c.size(l[j])
			if si != sj {
				return si < sj
			}
			return l[i].Key < l[j].Key
		})
		for _, at := range l {
			// a bound variable may only look like a free one
			f := false
			for _, v := range at.Free {
				f = f || isVar(v)
			}
			if !f || m.c.AssumeDeep(a, at, true) != a || m.c.AssumeDeep(b, at, true) != b {
				return at
			}
		}
	}
	if a.Op == "lvc" || b.Op == "lvc" {
		return nil
	}
	// conditions over the inputs inside the loops
	in := m.loopAtoms(a)
	for at := range m.loopAtoms(b) {
		in[at] = true
	}
	var l []*Term
	for at := range in {
		l = append(l, at)
	}
	sort.Slice(l, func(i, j int) bool {
		si, sj := m.c.size(l[i]), m.c.size(l[j])
		if si != sj {
			return si < sj
		}
		return l[i].Key < l[j].Key
	})
	for _, at := range l {
		if m.c.AssumeDeep(a, at, true) != a || m.c.AssumeDeep(b, at, true) != b {
			return at
		}
	}
	return nil
}

// loopAtoms gives the conditions in the definitions of streams that do not
// depend on any iteration.
func (m *Cmp) loopAtoms(root *Term) map[*Term]bool {
	out := map[*Term]bool{}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		m.c.eachSub(t, func(x *Term) {
			if isConnective(x) && t != root {
				at := x.Args[0]
				ok := !isConnective(at)
				for _, f := range at.Free {
					ok = ok && !isVar(f)
				}
				if ok {
					out[at] = true
				}
			}
			if x.Op == "lvc" && !seen[x] {
				seen[x] = true
				if d := m.c.loops[x.Key]; d != nil && d.init != nil {
					walk(d.init)
					walk(d.next)
				}
			}
		})
	}
	walk(root)
	return out
}

func (m *Cmp) all(a, b []*Term, fuel int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !m.eq(a[i], b[i], fuel) {
			return false
		}
	}
	return true
}

func c2(s string) string {
	if len(s) > 200 {
		return s[:200]
	}
	return s
}

func isEmptySeq(t *Term) bool { return t.Op == "seq0" || t.Op == "nil" }

func (m *Cmp) structural(a, b *Term, fuel int) bool {
	c := m.c
	if a.IsConst() && b.IsConst() {
		x, _ := a.Rat.Float64()
		y, _ := b.Rat.Float64()
		return closeTo(x, y) && (a.Kind != KInt || a.Rat.Cmp(b.Rat) == 0)
	}
	if isEmptySeq(a) && isEmptySeq(b) && (a.Kind == KSeq || b.Kind == KSeq) {
		return true
	}
	if a.Op == "rec" && b.Op == "rec" {
		return m.eq(a.Args[0], b.Args[0], fuel)
	}
	if a.Op == "poly" || b.Op == "poly" {
		n := len(m.trail)
		if m.polyEq(a, b, fuel) {
			return true
		}
		m.undo(n)
		x, y := c.expand(a, 200), c.expand(b, 200)
		if x != a || y != b {
			return x == y || m.polyEq(x, y, fuel)
		}
		return false
	}
	if a.Op != b.Op {
		return false
	}
	switch a.Op {
	case "lvc":
		if a.BL != b.BL || a.Kind != b.Kind || a.Aux == "K" || b.Aux == "K" {
			return false
		}
		da, db := c.loops[a.Key], c.loops[b.Key]
		if da == nil || db == nil || da.init == nil || db.init == nil {
			return false
		}
		return m.streams(a, b, fuel)
	case "bdd", "ite":
		if m.eq(a.Args[0], b.Args[0], fuel) {
			return m.eq(a.Args[1], b.Args[1], fuel) && m.eq(a.Args[2], b.Args[2], fuel)
		}
		return false
	case "fmin", "fmax", "imin", "imax", "and", "or", "xor":
		if a.Aux != b.Aux || len(a.Args) != len(b.Args) {
			return false
		}
		return m.match(a.Args, b.Args, fuel)
	case "nth", "tab", "first", "lam":
		if a.BL != b.BL {
			return false
		}
	case "flt", "fle", "ilt", "ieq", "feq":
		if a.Args[0].Op == "poly" && b.Args[0].Op == "poly" && m.eqUpToScale(a.Op, a.Args[0], b.Args[0], fuel) {
			return true
		}
	}
	if a.Aux != b.Aux || a.Kind != b.Kind || len(a.Args) == 0 {
		return false
	}
	if a.Op == "struct" {
		// look at every component for the best report
		ok := len(a.Args) == len(b.Args)
		for i := range a.Args {
			if ok && !m.eq(a.Args[i], b.Args[i], fuel) {
				return false
			}
		}
		return ok
	}
	return m.all(a.Args, b.Args, fuel)
}

func (m *Cmp) eqUpToScale(op string, a, b *Term, fuel int) bool { return false }

// match pairs up unordered arguments.
func (m *Cmp) match(a, b []*Term, fuel int) bool {
	used := make([]bool, len(b))
	var rec func(i int) bool
	rec = func(i int) bool {
		if i == len(a) {
			return true
		}
		for j := range b {
			if used[j] || a[i] != b[j] {
				continue
			}
			used[j] = true
			if rec(i + 1) {
				return true
			}
			used[j] = false
			return false
		}
		for j := range b {
			if used[j] {
				continue
			}
			n := len(m.trail)
			used[j] = true
			if m.eq(a[i], b[j], fuel) && rec(i+1) {
				return true
			}
			m.undo(n)
			used[j] = false
		}
		return false
	}
	if len(a) > 6 {
		return false
	}
	return rec(0)
}

func (m *Cmp) polyEq(a, b *Term, fuel int) bool {
	if a.Kind != b.Kind {
		return false
	}
	am, bm := monosOf(a), monosOf(b)
	left := map[string]int{}
	for i, x := range bm {
		left[fsKey(x.fs)] = i
	}
	usedB := make([]bool, len(bm))
	var ra, rb []mono
	for _, x := range am {
		if i, ok := left[fsKey(x.fs)]; ok {
			f, _ := x.c.Float64()
			g, _ := bm[i].c.Float64()
			if x.c.Cmp(bm[i].c) == 0 || a.Kind != KInt && closeTo(f, g) {
				usedB[i] = true
				continue
			}
		}
		ra = append(ra, x)
	}
	for i, x := range bm {
		if !usedB[i] {
			rb = append(rb, x)
		}
	}
	if len(ra) < len(am) {
		return m.eq(m.c.polyTerm(a.Kind, ra), m.c.polyTerm(a.Kind, rb), fuel)
	}
	if len(ra) == 1 && len(rb) == 1 {
		// common factors
		x, y := ra[0], rb[0]
		var fx, fy []factor
		in := map[factor]bool{}
		for _, f := range x.fs {
			in[f] = true
		}
		both := map[factor]bool{}
		for _, f := range y.fs {
			if in[f] {
				both[f] = true
			} else {
				fy = append(fy, f)
			}
		}
		for _, f := range x.fs {
			if !both[f] {
				fx = append(fx, f)
			}
		}
		if len(both) > 0 {
			return m.eq(m.c.polyTerm(a.Kind, []mono{{x.c, fx}}), m.c.polyTerm(a.Kind, []mono{{y.c, fy}}), fuel)
		}
	}
	if len(ra) != len(rb) || len(ra) > 7 {
		return false
	}
	used := make([]bool, len(rb))
	var rec func(i int) bool
	rec = func(i int) bool {
		if i == len(ra) {
			return true
		}
		for j := range rb {
			if used[j] {
				continue
			}
			f, _ := ra[i].c.Float64()
			g, _ := rb[j].c.Float64()
			if !closeTo(f, g) || a.Kind == KInt && ra[i].c.Cmp(rb[j].c) != 0 {
				continue
			}
			n := len(m.trail)
			used[j] = true
			if m.monoEq(ra[i].fs, rb[j].fs, fuel) && rec(i+1) {
				return true
			}
			m.undo(n)
			used[j] = false
		}
		return false
	}
	return rec(0)
}

func (m *Cmp) monoEq(a, b []factor, fuel int) bool {
	var ra, rb []factor
	used := make([]bool, len(b))
outer:
	for _, x := range a {
		for j, y := range b {
			if !used[j] && x == y {
				used[j] = true
				continue outer
			}
		}
		ra = append(ra, x)
	}
	for j, y := range b {
		if !used[j] {
			rb = append(rb, y)
		}
	}
	if len(ra) != len(rb) || len(ra) > 6 {
		return false
	}
	u := make([]bool, len(rb))
	var rec func(i int) bool
	rec = func(i int) bool {
		if i == len(ra) {
			return true
		}
		for j := range rb {
			if u[j] || ra[i].e != rb[j].e {
				continue
			}
			n := len(m.trail)
			u[j] = true
			if m.eq(ra[i].t, rb[j].t, fuel) && rec(i+1) {
				return true
			}
			m.undo(n)
			u[j] = false
		}
		return false
	}
	return rec(0)
}

// AssumeDeep is t where the condition is known, wherever it is used.
func (c *Ctx) AssumeDeep(t, atom *Term, v bool) *Term {
	val := c.False
	if v {
		val = c.True
	}
	m := map[*Term]*Term{atom: val}
	if v {
		c.solve(atom, m)
	}
	if !v {
		c.solveEnd(atom, m)
	}
	c.firstOf(t, atom, v, m)
	c.eachSub(t, func(x *Term) {
		if x.Op == "fmin" || x.Op == "fmax" {
			if y := c.clampKnown(x, atom, v); y != nil {
				m[x] = y
			}
		}
		if x.Op == "imax" && len(x.Args) == 2 {
			for i, y := range x.Args {
				// what a truncated number that is not negative has
				if k, ok := x.Args[1-i].IntVal(); ok && k == 0 && y.Op == "trunc" {
					if d := c.Lt0(y.Args[0]); c.famBase(d) != nil && c.implied(atom, v, d) == 0 {
						m[x] = y
					}
				}
			}
		}
		if (x.Op == "imin" || x.Op == "imax") && len(x.Args) == 2 {
			for i, d := range []*Term{c.Lt0(c.Sub(x.Args[0], x.Args[1])), c.Lt0(c.Sub(x.Args[1], x.Args[0]))} {
				var r int
				switch {
				case d.Op == "ilt":
					r = c.implied(atom, v, d)
				case d.Op == "bdd" && d.Args[1] == c.False && d.Args[2] == c.True && d.Args[0].Op == "ilt":
					if r = c.implied(atom, v, d.Args[0]); r >= 0 {
						r = 1 - r
					}
				default:
					continue
				}
				if r < 0 {
					continue
				}
				// the smaller argument is known
				small, large := x.Args[i], x.Args[1-i]
				if r == 0 {
					small, large = large, small
				}
				if x.Op == "imin" {
					m[x] = small
				} else {
					m[x] = large
				}
			}
		}
	})
	ordered := false
	if c.nans != nil {
		ordered = c.whetherNumber(atom, v, m)
	}
	// related conditions
	if base := c.famBase(atom); base != nil && !ordered {
		c.eachSub(t, func(x *Term) {
			if !isConnective(x) {
				return
			}
			at := x.Args[0]
			if at != atom && c.famBase(at) == base {
				switch c.implied(atom, v, at) {
				case 1:
					m[at] = c.True
				case 0:
					m[at] = c.False
				default:
					if lt := c.notNaNLess(atom, v, at); lt != nil {
						m[at] = c.Not(lt)
					} else if !v && c.implied(atom, true, at) == 0 && (at.Op == "flt" || at.Op == "fle") && c.covers(atom, at) {
						// neither is true only of what is not a number
						m[at] = c.Not(c.IsNaN(at.Args[0]))
					}
				}
			}
		})
	}
	s := c.NewSubst(m)
	s.order = ordered
	return s.Apply(t)
}

// tidy decides the conditions that are tested again deep inside what depends
// on their value.
func (c *Ctx) tidy(t *Term) *Term {
	if len(t.Args) == 0 && len(t.Monos) == 0 || t.Op == "lvc" {
		return t
	}
	if r, ok := c.tidied[t]; ok {
		return r
	}
	if c.tidied == nil {
		c.tidied = map[*Term]*Term{}
	}
	m := map[*Term]*Term{}
	sub := func(x *Term) {
		if y := c.tidy(x); y != x {
			m[x] = y
		}
	}
	for _, a := range t.Args {
		sub(a)
	}
	for _, mo := range t.Monos {
		for _, f := range mo.fs {
			sub(f.t)
		}
	}
	r := t
	if len(m) > 0 {
		r = c.Subst(t, m)
	}
	if isConnective(r) && !isConnective(r.Args[0]) {
		cond := r.Args[0]
		deep := func(x *Term, v bool) *Term {
			found := false
			c.eachSub(x, func(y *Term) { found = found || y == cond })
			if !found {
				return x
			}
			return c.tidy(c.AssumeDeep(x, cond, v))
		}
		hi, lo := deep(r.Args[1], true), deep(r.Args[2], false)
		if hi != r.Args[1] || lo != r.Args[2] {
			r = c.Ite(cond, hi, lo)
		}
	}
	c.tidied[t] = r
	return r
}

// firstOf: in the first iteration of a loop its streams have their initial
// values; later, a stream may be known by the iteration before.
func (c *Ctx) firstOf(t, atom *Term, v bool, m map[*Term]*Term) {
	for _, K := range atom.Free {
		if K.Op != "lvc" || K.Aux != "K" {
			continue
		}
		switch {
		case atom == c.Lt0(c.Sub(K, c.Int(1))):
		case v && atom == c.Eq(K, c.Int(0)):
		default:
			continue
		}
		for _, s := range t.Free {
			if s.Op != "lvc" || s.BL != K.BL || s == K || m[s] != nil {
				continue
			}
			d := c.loops[s.Key]
			if d == nil || d.next == nil {
				continue
			}
			if v {
				m[s] = d.init
			} else if d.flat {
				m[s] = c.at(d.next, s.BL, c.Sub(K, c.Int(1)))
			}
		}
	}
}

// clampKnown is a minimum or maximum with a constant when the condition tells
// which of them it is.
func (c *Ctx) clampKnown(x, atom *Term, v bool) *Term {
	var k *Term
	for _, a := range x.Args {
		if a.IsConst() {
			k = a
		}
	}
	holds := func(lt *Term) int {
		not := false
		if lt.Op == "bdd" && lt.Args[1] == c.False && lt.Args[2] == c.True {
			lt, not = lt.Args[0], true
		}
		if lt.Op != "flt" && lt.Op != "fle" && lt.Op != "ilt" || c.famBase(lt) != c.famBase(atom) {
			return -1
		}
		r := c.implied(atom, v, lt)
		if r >= 0 && not {
			r = 1 - r
		}
		return r
	}
	if k == nil {
		if atom.Op != "flt" && atom.Op != "ilt" || len(x.Args) > 6 {
			return nil
		}
		for i, p := range x.Args {
			for j, q := range x.Args {
				if i == j || c.mayNaN(p) || c.mayNaN(q) {
					continue
				}
				r := holds(c.Lt0(c.Sub(p, q)))
				drop := -1
				switch {
				case r >= 0 && (r == 1) == strings.HasSuffix(x.Op, "min"):
					drop = j
				case r >= 0:
					drop = i
				}
				if drop < 0 {
					continue
				}
				var rest []*Term
				for n, o := range x.Args {
					if n != drop {
						rest = append(rest, o)
					}
				}
				if len(rest) == 1 {
					return rest[0]
				}
				return c.MinMax(x.Op, rest...)
			}
		}
		return nil
	}
	for i, a := range x.Args {
		if a == k {
			continue
		}
		below, above := holds(c.Lt0(c.Sub(a, k))), holds(c.Lt0(c.Sub(k, a)))
		dropA := x.Op == "fmin" && above == 1 || x.Op == "fmax" && below == 1
		dropK := x.Op == "fmin" && (below == 1 || above == 0) || x.Op == "fmax" && (above == 1 || below == 0)
		if !dropA && !dropK {
			continue
		}
		var rest []*Term
		for j, b := range x.Args {
			if dropA && j != i || !dropA && b != k {
				rest = append(rest, b)
			}
		}
		if len(rest) == 1 {
			return rest[0]
		}
		return c.MinMax(x.Op, rest...)
	}
	return nil
}

// solveEnd: first <= N holds by the condition of the loop, so not first < N
// makes them equal.
func (c *Ctx) solveEnd(atom *Term, m map[*Term]*Term) {
	if atom.Op != "ilt" {
		return
	}
	t := atom.Args[0]
	for _, mo := range monosOf(t) {
		if len(mo.fs) != 1 || mo.fs[0].e != 1 || mo.fs[0].t.Op != "first" || mo.c.Cmp(ratOne) != 0 {
			continue
		}
		f := mo.fs[0].t
		n := c.Sub(f, t) // f >= n
		inside := false
		c.eachSub(n, func(y *Term) { inside = inside || y == f })
		if !inside && c.nonNeg(n) && c.At(f.Args[0], f.BL, n) == c.True {
			m[f] = n
			return
		}
	}
}

// solve adds the values of integer terms that a true condition determines.
func (c *Ctx) solve(atom *Term, m map[*Term]*Term) {
	switch atom.Op {
	case "ieq":
	case "ilt":
		x := c.Add(atom.Args[0], c.Int(1))
		if !c.nonNeg(x) {
			return
		}
		// x >= 0 and x < 1
		ms := monosOf(x)
		all := len(ms) > 0
		for _, mo := range ms {
			if mo.c.Sign() < 0 || len(mo.fs) != 1 || mo.fs[0].e != 1 || !c.nonNeg(mo.fs[0].t) {
				all = false
			}
		}
		if all {
			for _, mo := range ms {
				m[mo.fs[0].t] = c.Int(0)
			}
			return
		}
		c.solve0(x, m)
		return
	default:
		return
	}
	c.solve0(atom.Args[0], m)
}

// solve0 rewrites one quantity of t = 0 by the others.
func (c *Ctx) solve0(t *Term, m map[*Term]*Term) {
	ms := monosOf(t)
	if len(ms) > 3 {
		return
	}
	var best *Term
	var val *Term
	for i, mo := range ms {
		if len(mo.fs) != 1 || mo.fs[0].e != 1 || new(big.Rat).Abs(mo.c).Cmp(ratOne) != 0 {
			continue
		}
		x := mo.fs[0].t
		if x.Op == "poly" || x.Op == "ite" || best != nil && best.Key < x.Key {
			continue
		}
		var rest []mono
		for j, o := range ms {
			if j != i {
				rest = append(rest, mono{new(big.Rat).Neg(new(big.Rat).Mul(o.c, mo.c)), o.fs})
			}
		}
		r := c.polyTerm(KInt, rest)
		inside := false
		c.eachSub(r, func(y *Term) { inside = inside || y == x })
		if inside || len(rest) > 1 && x.Op == "len" {
			continue
		}
		best, val = x, r
	}
	if best != nil {
		m[best] = val
	}
}

// Where finds the source position that best describes a disagreement:
// the smallest subterm of a that b does not have.
func (c *Ctx) Where(a, b *Term, ok func(token.Pos) bool) token.Pos {
	in := map[*Term]bool{}
	seen := map[*Term]bool{}
	var collect func(t *Term, into map[*Term]bool)
	collect = func(t *Term, into map[*Term]bool) {
		if into[t] {
			return
		}
		into[t] = true
		for _, x := range t.Args {
			collect(x, into)
		}
		for _, mo := range t.Monos {
			for _, f := range mo.fs {
				collect(f.t, into)
			}
		}
		if t.Op == "lvc" {
			if d := c.loops[t.Key]; d != nil {
				if d.init != nil {
					collect(d.init, into)
				}
				if d.next != nil {
					collect(d.next, into)
				}
			}
		}
	}
	collect(b, in)
	collect(a, seen)
	best := token.NoPos
	bs := math.MaxInt
	for t := range seen {
		if in[t] || !ok(t.Pos) {
			continue
		}
		if n := c.size(t); n < bs || n == bs && t.Pos < best {
			bs, best = n, t.Pos
		}
	}
	if best != token.NoPos {
		return best
	}
	if ok(a.Pos) {
		return a.Pos
	}
	for t := range seen {
		if ok(t.Pos) && (best == token.NoPos || t.Pos < best) {
			best = t.Pos
		}
	}
	return best
}

// Hash64 identifies a disagreement independent of run.
func Digest(parts ...string) string {
	return fmt.Sprintf("%x", []byte(hashKey(parts...)))[:12]
}

var _ = strings.TrimSpace
