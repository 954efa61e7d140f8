package vg

import (
	"math/big"
	"strconv"
	"strings"
)

// Atoms about the same quantity (x < 3, x == 5; x is A, x is B) are not
// independent.  assume simplifies a decision diagram knowing the value of
// one atom.

type asmKey struct {
	t, a *Term
	v    bool
}

// atomRange is the set of values of base for which the atom holds.
type atomRange struct {
	base *Term
	lo   *big.Rat // nil: unbounded
	hi   *big.Rat
	loC  bool // closed
	hiC  bool
	sym  *Term // for equality with a constant or a type test: the constant
	flt  bool
	bit  int // 1 + bit index
	nan  bool
}

func (c *Ctx) atomRange(a *Term) *atomRange {
	if r, ok := c.rangeOf[a]; ok {
		return r
	}
	r := c.atomRange1(a)
	c.rangeOf[a] = r
	return r
}

func (c *Ctx) atomRange1(a *Term) *atomRange {
	switch a.Op {
	case "is":
		return &atomRange{base: c.mk("fam", "is", KOther, a.Args[0]), sym: a}
	case "eq":
		for i, x := range a.Args {
			if x.Op == "str" {
				return &atomRange{base: c.mk("fam", "eq", KOther, a.Args[1-i]), sym: a}
			}
		}
		return nil
	case "bit":
		if a.Args[0].Op == "poly" {
			return nil
		}
		i, _ := strconv.Atoi(a.Aux)
		return &atomRange{base: c.mk("fam", "num", KOther, a.Args[0]), bit: i + 1}
	case "ilt", "flt", "fle", "ieq", "feq":
	case "isnan":
		return &atomRange{base: c.mk("fam", "num", KOther, a.Args[0]), flt: true, nan: true}
	default:
		return nil
	}
	t := a.Args[0]
	k := new(big.Rat)
	var rest []mono
	for _, m := range monosOf(t) {
		if len(m.fs) == 0 {
			k = m.c
		} else {
			rest = append(rest, m)
		}
	}
	if len(rest) == 0 {
		return nil
	}
	lead := rest[0].c
	s := lead.Sign()
	sc := new(big.Rat).Inv(lead)
	var nm []mono
	for _, m := range rest {
		nm = append(nm, mono{new(big.Rat).Mul(m.c, sc), m.fs})
	}
	base := c.polyTerm(t.Kind, nm)
	// lead*base + k OP 0   <=>  base OP -k/lead (flipped when lead<0)
	v := new(big.Rat).Neg(new(big.Rat).Mul(k, sc))
	r := &atomRange{base: c.mk("fam", "num", KOther, base), flt: t.Kind != KInt}
	switch a.Op {
	case "ieq", "feq":
		r.lo, r.hi, r.loC, r.hiC = v, v, true, true
	case "fle":
		if s > 0 {
			r.hi, r.hiC = v, true
		} else {
			r.lo, r.loC = v, true
		}
	default:
		if s > 0 {
			r.hi = v
		} else {
			r.lo = v
		}
	}
	return r
}

func (c *Ctx) famBase(a *Term) *Term {
	if r := c.atomRange(a); r != nil {
		return r.base
	}
	return nil
}

func hasFam(t *Term, b *Term) bool {
	lo, hi := 0, len(t.fam)
	for lo < hi {
		m := (lo + hi) / 2
		if t.fam[m].Key < b.Key {
			lo = m + 1
		} else {
			hi = m
		}
	}
	return lo < len(t.fam) && t.fam[lo] == b
}

// implied gives the value of atom b when atom a has value v: 1, 0 or -1.
func (c *Ctx) implied(a *Term, v bool, b *Term) int {
	if a == b {
		if v {
			return 1
		}
		return 0
	}
	ra, rb := c.atomRange(a), c.atomRange(b)
	if ra == nil || rb == nil || ra.base != rb.base {
		return -1
	}
	if ra.nan || rb.nan {
		if v {
			return 0
		}
		return -1
	}
	if ra.bit > 0 || rb.bit > 0 {
		point := func(r *atomRange) *big.Rat {
			if r.bit == 0 && r.lo != nil && r.hi != nil && r.lo.Cmp(r.hi) == 0 && r.lo.IsInt() {
				return r.lo
			}
			return nil
		}
		if x := point(ra); x != nil && v && rb.bit > 0 {
			return int(x.Num().Bit(rb.bit - 1))
		}
		if x := point(rb); x != nil && ra.bit > 0 && (x.Num().Bit(ra.bit-1) == 1) != v {
			return 0
		}
		return -1
	}
	if ra.sym != nil || rb.sym != nil {
		if ra.sym != nil && rb.sym != nil && v { // different constants or types
			return 0
		}
		return -1
	}
	if v {
		if subset(ra, rb) {
			return 1
		}
		if disjoint(ra, rb) {
			return 0
		}
		return -1
	}
	if subset(rb, ra) {
		return 0
	}
	if !ra.flt || !c.mayNaN(ra.base.Args[0]) { // complement of a is inside b
		for _, p := range complement(ra) {
			if !subset(p, rb) {
				return -1
			}
		}
		return 1
	}
	return -1
}

// notNaNLess gives -x < 0 for the atom x <= 0 when x is a number.
func (c *Ctx) notNaNLess(atom *Term, v bool, t *Term) *Term {
	if v || atom.Op != "isnan" || t.Op != "fle" || c.famBase(atom) != c.famBase(t) {
		return nil
	}
	return c.Lt0(c.Neg(t.Args[0]))
}

// covers tells if every number satisfies one of two comparisons.
func (c *Ctx) covers(a, b *Term) bool {
	ra, rb := c.atomRange(a), c.atomRange(b)
	if ra == nil || rb == nil || ra.nan || rb.nan || ra.sym != nil || rb.sym != nil || ra.bit > 0 || rb.bit > 0 {
		return false
	}
	for _, p := range complement(ra) {
		if !subset(p, rb) {
			return false
		}
	}
	return true
}

// whetherNumber puts what a test tells about quantities that may not be
// numbers into m; it tells if comparisons have to be brought in order.
func (c *Ctx) whetherNumber(atom *Term, v bool, m map[*Term]*Term) bool {
	if atom.Op == "isnan" && v {
		x := atom.Args[0]
		if x.Op != "poly" && x.Op != "lvc" {
			m[x] = c.mk("nan", "", x.Kind)
		}
		return false
	}
	var leaves []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		switch t.Op {
		case "poly":
			for _, mo := range t.Monos {
				for _, f := range mo.fs {
					walk(f.t)
				}
			}
		case "f32", "f64", "abs":
			walk(t.Args[0])
		case "lvc", "num", "ite", "nan":
		default:
			if c.nans[shape(t)] {
				leaves = append(leaves, t)
			}
		}
	}
	switch {
	case atom.Op == "isnan" && !v && atom.Args[0].Op != "poly":
		if x := atom.Args[0]; x.Op != "lvc" && x.Op != "num" {
			leaves = append(leaves, x)
		}
	case v && (atom.Op == "flt" || atom.Op == "fle" || atom.Op == "feq"):
		walk(atom.Args[0])
	}
	for _, x := range leaves {
		if m[x] == nil {
			m[x] = c.mk("num", "", x.Kind, x)
		}
	}
	return len(leaves) > 0
}

// mayNaN tells if a quantity can be something else than a number.  When two
// terms are compared, these are the ones that either of them tests for it.
func (c *Ctx) mayNaN(t *Term) bool {
	if notNaN(t) {
		return false
	}
	if c.nans == nil {
		return true
	}
	if r, ok := c.nanMemo[t]; ok {
		return r
	}
	r := false
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(x *Term) {
		if r || seen[x] || x.Op == "num" {
			return
		}
		seen[x] = true
		if c.nans[shape(x)] {
			r = true
			return
		}
		for _, a := range x.Args {
			walk(a)
		}
		for _, m := range x.Monos {
			for _, f := range m.fs {
				walk(f.t)
			}
		}
		if x.Op == "lvc" {
			if d := c.loops[x.Key]; d != nil && d.next != nil {
				walk(d.init)
				walk(d.next)
			}
		}
	}
	if len(c.nans) > 0 {
		walk(t)
	}
	c.nanMemo[t] = r
	return r
}

// standIn is a variable in place of a term: a number if that is one.
func (c *Ctx) standIn(hint string, x *Term) *Term {
	v := c.Fresh(hint, x.Kind, x.Typ)
	if c.nans != nil && c.mayNaN(x) {
		c.nans[shape(v)] = true
	}
	return v
}

// shape names the kind of a quantity: the same one at another index has the
// same shape.
func shape(t *Term) string {
	if t.Op == "lvc" {
		return t.Key
	}
	return t.Op + "|" + t.Aux + "|" + string(t.Kind)
}

func subset(a, b *atomRange) bool {
	if b.lo != nil {
		if a.lo == nil {
			return false
		}
		k := a.lo.Cmp(b.lo)
		if k < 0 || k == 0 && a.loC && !b.loC {
			return false
		}
	}
	if b.hi != nil {
		if a.hi == nil {
			return false
		}
		k := a.hi.Cmp(b.hi)
		if k > 0 || k == 0 && a.hiC && !b.hiC {
			return false
		}
	}
	return true
}

func disjoint(a, b *atomRange) bool {
	sep := func(x, y *atomRange) bool { // x entirely below y
		if x.hi == nil || y.lo == nil {
			return false
		}
		k := x.hi.Cmp(y.lo)
		return k < 0 || k == 0 && !(x.hiC && y.loC)
	}
	if sep(a, b) || sep(b, a) {
		return true
	}
	return false
}

func complement(a *atomRange) []*atomRange {
	var out []*atomRange
	if a.lo != nil {
		out = append(out, &atomRange{hi: a.lo, hiC: !a.loC})
	}
	if a.hi != nil {
		out = append(out, &atomRange{lo: a.hi, loC: !a.hiC})
	}
	return out
}

func (c *Ctx) assume(t, atom *Term, v bool, base *Term) *Term {
	if (t.Op != "bdd" && t.Op != "ite") || !hasFam(t, base) {
		return t
	}
	k := asmKey{t, atom, v}
	if r, ok := c.asmMemo[k]; ok {
		return r
	}
	var r *Term
	if lt := c.notNaNLess(atom, v, t.Args[0]); lt != nil {
		r = c.Ite(lt, t.Args[2], t.Args[1])
		if r.Kind == KBool {
			r = c.asBDD(r)
		}
		r = c.assume(r, atom, v, base)
		c.asmMemo[k] = r
		return r
	}
	switch c.implied(atom, v, t.Args[0]) {
	case 1:
		r = c.assume(t.Args[1], atom, v, base)
	case 0:
		r = c.assume(t.Args[2], atom, v, base)
	default:
		hi, lo := c.assume(t.Args[1], atom, v, base), c.assume(t.Args[2], atom, v, base)
		if hi == t.Args[1] && lo == t.Args[2] {
			r = t
		} else if hi == lo {
			r = hi
		} else {
			r = c.Ite(t.Args[0], hi, lo)
			if r.Kind == KBool {
				r = c.asBDD(r)
			}
		}
	}
	c.asmMemo[k] = r
	return r
}

var _ = strings.Contains
