// Package vg builds and compares gated value graphs of SSA functions.
//
// A Term is a node of the (hash-consed) value graph.  All constructors
// normalise, so that two computations that differ only in helper
// extraction, statement order, branch shape, loop form, commutation or
// (real-number) re-association get the same node.
package vg

import (
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type Kind byte

const (
	KBool  Kind = 'b'
	KInt   Kind = 'i'
	KF64   Kind = 'f'
	KF32   Kind = 'g'
	KStr   Kind = 's'
	KSeq   Kind = 'q'
	KMem   Kind = 'm'
	KPtr   Kind = 'p'
	KOther Kind = 'o'
)

type Term struct {
	Op   string
	Aux  string
	Args []*Term
	Kind Kind

	Key  string
	Lev  int     // highest loop/lambda level closed or used inside
	Free []*Term // free variables (syms, outer loop variables), sorted by key
	Obj  bool    // mentions a local object
	NN   bool    // an integer stream that is never negative
	fam  []*Term // bases of related atoms in a decision diagram

	BL int // level bound by a binder (nth, tab, first, lam) or of a variable (lvc, bvc)

	Rat   *big.Rat // Op=="const" numeric
	Monos []mono   // Op=="poly"
	Val   any      // closures, loop definitions
	Typ   types.Type
	Pos   token.Pos
}

type factor struct {
	t *Term
	e int
}

type mono struct {
	c  *big.Rat
	fs []factor // sorted by key
}

// Ctx owns the interning tables.
type Ctx struct {
	permOf  map[*Term]*Term // what a symbol is a reordering of
	facts   []*Term         // integers known not to be negative
	lowered map[lowKey]lowVal
	byNext  map[*Term]*Term // streams by the term of their next value
	tab     map[string]*Term
	CurPos  token.Pos // position attached to newly created terms
	posStr  func(token.Pos) string
	filled  map[string]bool // fields of what a driver is given that are not empty
	symN    int
	iteMemo map[[3]string]*Term
	asmMemo map[asmKey]*Term
	nans    map[string]bool // quantities that may not be numbers, when comparing
	idles   map[*Term]*Term // streams without an idle first iteration
	nanMemo map[*Term]bool
	tidied  map[*Term]*Term
	rangeOf map[*Term]*atomRange
	True    *Term
	False   *Term
	Nodes   int
	Limit   int
	loops   map[string]*loopDef // by key of the lvc term
	objTyp  map[string]types.Type
	Tol     bool
}

func NewCtx() *Ctx {
	c := &Ctx{idles: map[*Term]*Term{}, tab: map[string]*Term{}, iteMemo: map[[3]string]*Term{}, asmMemo: map[asmKey]*Term{}, rangeOf: map[*Term]*atomRange{}, Limit: 6000000, loops: map[string]*loopDef{}, objTyp: map[string]types.Type{}, byNext: map[*Term]*Term{}, lowered: map[lowKey]lowVal{}}
	c.True = c.intern(&Term{Op: "true", Kind: KBool})
	c.False = c.intern(&Term{Op: "false", Kind: KBool})
	return c
}

type Undecided struct{ Msg string }

func (u Undecided) Error() string { return u.Msg }

func undecided(format string, a ...any) {
	panic(Undecided{fmt.Sprintf(format, a...)})
}

func hashKey(parts ...string) string {
	h := sha256.New()
	for _, p := range parts {
		fmt.Fprintf(h, "%d:", len(p))
		h.Write([]byte(p))
	}
	s := h.Sum(nil)
	return string(s[:12])
}

func HexKey(t *Term) string { return hex.EncodeToString([]byte(t.Key))[:8] }

// FConst is a float constant as the shortest decimal that denotes it.
func (c *Ctx) FConst(k Kind, f float64) *Term {
	if math.IsNaN(f) {
		return c.mk("nan", "", k)
	}
	if math.IsInf(f, 0) {
		if f > 0 {
			return c.mk("inf", "+", k)
		}
		return c.Neg(c.mk("inf", "+", k))
	}
	bits := 64
	if k == KF32 {
		bits = 32
	}
	r, ok := new(big.Rat).SetString(strconv.FormatFloat(f, 'g', -1, bits))
	if !ok {
		r = new(big.Rat).SetFloat64(f)
	}
	return c.Const(k, r)
}

func mergeFree(a, b []*Term) []*Term {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	out := make([]*Term, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i] == b[j]:
			out = append(out, a[i])
			i++
			j++
		case a[i].Key < b[j].Key:
			out = append(out, a[i])
			i++
		default:
			out = append(out, b[j])
			j++
		}
	}
	out = append(out, a[i:]...)
	out = append(out, b[j:]...)
	if len(out) == len(a) {
		return a
	}
	if len(out) == len(b) {
		return b
	}
	return out
}

func (c *Ctx) intern(t *Term) *Term {
	parts := []string{t.Op, t.Aux, string(t.Kind), fmt.Sprint(t.BL)}
	for _, a := range t.Args {
		parts = append(parts, a.Key)
	}
	for _, m := range t.Monos {
		parts = append(parts, "m", m.c.RatString())
		for _, f := range m.fs {
			parts = append(parts, f.t.Key, fmt.Sprint(f.e))
		}
	}
	k := hashKey(parts...)
	if t.Op == "bit" { // equal bits of different values are neighbours in decision diagrams
		if i, err := strconv.Atoi(t.Aux); err == nil {
			k = string([]byte{byte(i)}) + k[1:]
		}
	}
	if t.Op == "isnan" { // decided before comparisons of the value
		k = "\x00\x00\x00" + k[3:]
	}
	if o, ok := c.tab[k]; ok {
		return o
	}
	t.Key = k
	if t.Pos == 0 {
		t.Pos = c.CurPos
	}
	t.Obj = t.Op == "obj"
	for i, a := range t.Args {
		if a.Lev > t.Lev {
			t.Lev = a.Lev
		}
		t.Obj = t.Obj || a.Obj
		if binds(t.Op, i) {
			t.Free = mergeFree(t.Free, dropLevel(a.Free, t.BL))
		} else {
			t.Free = mergeFree(t.Free, a.Free)
		}
	}
	if t.BL > t.Lev {
		t.Lev = t.BL
	}
	for _, m := range t.Monos {
		for _, f := range m.fs {
			if f.t.Lev > t.Lev {
				t.Lev = f.t.Lev
			}
			t.Obj = t.Obj || f.t.Obj
			t.Free = mergeFree(t.Free, f.t.Free)
		}
	}
	if t.Op == "sym" || t.Op == "lvc" || t.Op == "bvc" {
		t.Free = mergeFree(t.Free, []*Term{t})
	}
	if t.Op == "bdd" || t.Op == "ite" {
		t.fam = mergeFree(t.Args[1].fam, t.Args[2].fam)
		if b := c.famBase(t.Args[0]); b != nil {
			t.fam = mergeFree(t.fam, []*Term{b})
		}
	}
	c.Nodes++
	if c.Nodes > c.Limit {
		undecided("value graph too large (%d nodes)", c.Nodes)
	}
	c.tab[k] = t
	return t
}

func (c *Ctx) mk(op, aux string, k Kind, args ...*Term) *Term {
	for _, a := range args {
		if a.Op != "nan" {
			continue
		}
		switch op {
		case "flt", "fle", "feq":
			return c.False
		case "f32", "f64", "abs", "num":
			return c.mk("nan", "", k)
		case "call":
			switch aux {
			case "math.Sqrt", "math.Cbrt", "math.Mod", "math.Sin", "math.Cos", "math.Tan", "math.Asin", "math.Acos", "math.Atan", "math.Atan2", "math.Exp", "math.Log", "math.Log10", "math.Log2", "math.Floor", "math.Ceil", "math.Round":
				return c.mk("nan", "", k)
			}
		}
		break
	}
	return c.intern(&Term{Op: op, Aux: aux, Kind: k, Args: args})
}

// binds tells which argument of a binder is under the binder.
func binds(op string, i int) bool {
	switch op {
	case "nth":
		return i == 0
	case "tab":
		return i == 1
	case "first", "lam":
		return i == 0
	}
	return false
}

func isVar(t *Term) bool { return t.Op == "lvc" || t.Op == "bvc" }

func dropLevel(fs []*Term, l int) []*Term {
	n := 0
	for _, f := range fs {
		if isVar(f) && f.BL == l {
			n++
		}
	}
	if n == 0 {
		return fs
	}
	var out []*Term
	for _, f := range fs {
		if !(isVar(f) && f.BL == l) {
			out = append(out, f)
		}
	}
	return out
}

// Sym makes a fresh (provisional) symbol.
func (c *Ctx) Fresh(hint string, k Kind, typ types.Type) *Term {
	c.symN++
	t := c.intern(&Term{Op: "sym", Aux: fmt.Sprintf("%s~%d", hint, c.symN), Kind: k, Typ: typ})
	return t
}

// In is a named input; the same name gives the same term on both sides.
func (c *Ctx) In(name string, k Kind, typ types.Type) *Term {
	return c.intern(&Term{Op: "in", Aux: name, Kind: k, Typ: typ})
}

// ---------------------------------------------------------------- numbers

func (c *Ctx) Const(k Kind, r *big.Rat) *Term {
	return c.intern(&Term{Op: "const", Aux: r.RatString(), Kind: k, Rat: r})
}

func (c *Ctx) Int(n int64) *Term { return c.Const(KInt, new(big.Rat).SetInt64(n)) }

func (c *Ctx) Str(s string) *Term { return c.intern(&Term{Op: "str", Aux: s, Kind: KStr}) }

func isNum(k Kind) bool { return k == KInt || k == KF64 || k == KF32 }

func (t *Term) IsConst() bool { return t.Op == "const" }

func (t *Term) IntVal() (int64, bool) {
	if t.Op == "const" && t.Rat.IsInt() && t.Rat.Num().IsInt64() {
		return t.Rat.Num().Int64(), true
	}
	return 0, false
}

func monosOf(t *Term) []mono {
	switch t.Op {
	case "poly":
		return t.Monos
	case "const":
		if t.Rat.Sign() == 0 {
			return nil
		}
		return []mono{{c: t.Rat}}
	}
	return []mono{{c: ratOne, fs: []factor{{t, 1}}}}
}

var ratOne = big.NewRat(1, 1)
var ratZero = new(big.Rat)

func fsKey(fs []factor) string {
	var b strings.Builder
	for _, f := range fs {
		b.WriteString(f.t.Key)
		fmt.Fprintf(&b, "^%d;", f.e)
	}
	return b.String()
}

func (c *Ctx) polyTerm(k Kind, ms []mono) *Term {
	acc := map[string]*mono{}
	var keys []string
	for _, m := range ms {
		kk := fsKey(m.fs)
		if o, ok := acc[kk]; ok {
			o.c = new(big.Rat).Add(o.c, m.c)
		} else {
			mm := mono{c: m.c, fs: m.fs}
			acc[kk] = &mm
			keys = append(keys, kk)
		}
	}
	sort.Strings(keys)
	var out []mono
	for _, kk := range keys {
		if acc[kk].c.Sign() != 0 {
			out = append(out, *acc[kk])
		}
	}
	if len(out) == 0 {
		return c.Const(k, new(big.Rat))
	}
	for _, m := range out {
		for _, f := range m.fs {
			if f.t.Op == "nan" {
				return c.mk("nan", "", k)
			}
		}
	}
	if len(out) == 1 {
		m := out[0]
		if len(m.fs) == 0 {
			return c.Const(k, m.c)
		}
		if len(m.fs) == 1 && m.fs[0].e == 1 {
			f := m.fs[0].t
			if m.c.Cmp(ratOne) == 0 {
				return f
			}
			if f.Op == "poly" { // c * (sum): distribute
				var ms2 []mono
				for _, fm := range f.Monos {
					ms2 = append(ms2, mono{new(big.Rat).Mul(fm.c, m.c), fm.fs})
				}
				return c.polyTerm(k, ms2)
			}
		}
	}
	if k == KInt && len(out) <= 4 {
		if t := c.stepMax(out); t != nil {
			return t
		}
	}
	return c.intern(&Term{Op: "poly", Kind: k, Monos: out})
}

// stepMax writes x + (x < k ? a+1 : a) for x >= k-1 as max(x, k) + a.
func (c *Ctx) stepMax(ms []mono) *Term {
	for i, m := range ms {
		if len(m.fs) != 1 || m.fs[0].e != 1 || m.fs[0].t.Op != "ite" || m.c.Cmp(ratOne) != 0 {
			continue
		}
		it := m.fs[0].t
		at := it.Args[0]
		if at.Op != "ilt" || !it.Args[1].IsConst() || !it.Args[2].IsConst() {
			continue
		}
		d := new(big.Rat).Sub(it.Args[1].Rat, it.Args[2].Rat)
		if d.Cmp(ratOne) != 0 {
			continue
		}
		// all of x has to be there
		left := append([]mono{}, ms[:i]...)
		left = append(left, ms[i+1:]...)
		var x []mono
		ok := true
		for _, xm := range monosOf(at.Args[0]) {
			if len(xm.fs) == 0 {
				continue
			}
			x = append(x, xm)
			found := false
			for j, l := range left {
				if fsKey(l.fs) == fsKey(xm.fs) && l.c.Cmp(xm.c) == 0 {
					left = append(append([]mono{}, left[:j]...), left[j+1:]...)
					found = true
					break
				}
			}
			ok = ok && found
		}
		if !ok || len(x) == 0 || !c.nonNeg(c.Add(at.Args[0], c.Int(1))) {
			continue
		}
		xt := c.polyTerm(KInt, x)
		kt := c.Sub(xt, at.Args[0])
		return c.Add(c.Add(c.MinMax("imax", xt, kt), it.Args[2]), c.polyTerm(KInt, left))
	}
	return nil
}

func (c *Ctx) Add(a, b *Term) *Term {
	ms := append(append([]mono{}, monosOf(a)...), monosOf(b)...)
	return c.polyTerm(a.Kind, ms)
}

func (c *Ctx) Scale(a *Term, r *big.Rat) *Term {
	var ms []mono
	for _, m := range monosOf(a) {
		ms = append(ms, mono{new(big.Rat).Mul(m.c, r), m.fs})
	}
	return c.polyTerm(a.Kind, ms)
}

func (c *Ctx) Neg(a *Term) *Term    { return c.Scale(a, big.NewRat(-1, 1)) }
func (c *Ctx) Sub(a, b *Term) *Term { return c.Add(a, c.Neg(b)) }

func mulFs(a, b []factor) []factor {
	out := make([]factor, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || (i < len(a) && a[i].t.Key < b[j].t.Key):
			out = append(out, a[i])
			i++
		case i >= len(a) || b[j].t.Key < a[i].t.Key:
			out = append(out, b[j])
			j++
		default:
			if e := a[i].e + b[j].e; e != 0 {
				out = append(out, factor{a[i].t, e})
			}
			i++
			j++
		}
	}
	return out
}

// asMono turns any value into a single monomial; sums become one factor
// with the content (leading coefficient, common factors) taken out.
func (c *Ctx) asMono(t *Term) mono {
	ms := monosOf(t)
	if len(ms) == 0 {
		return mono{c: new(big.Rat)}
	}
	if len(ms) == 1 {
		return ms[0]
	}
	lead := ms[0].c
	common := append([]factor{}, ms[0].fs...)
	for _, m := range ms[1:] {
		var nc []factor
		for _, f := range common {
			for _, g := range m.fs {
				if g.t == f.t {
					e := f.e
					if (e > 0) != (g.e > 0) {
						break
					}
					if e > 0 && g.e < e || e < 0 && g.e > e {
						e = g.e
					}
					nc = append(nc, factor{f.t, e})
					break
				}
			}
		}
		common = nc
	}
	inv := make([]factor, len(common))
	for i, f := range common {
		inv[i] = factor{f.t, -f.e}
	}
	li := new(big.Rat).Inv(lead)
	var rest []mono
	for _, m := range ms {
		rest = append(rest, mono{new(big.Rat).Mul(m.c, li), mulFs(m.fs, inv)})
	}
	r := c.polyTerm(t.Kind, rest)
	if r.Op != "poly" || len(r.Monos) == 1 {
		rm := monosOf(r)
		if len(rm) == 1 {
			return mono{new(big.Rat).Mul(lead, rm[0].c), mulFs(common, rm[0].fs)}
		}
	}
	// leading coefficient of the reduced sum may have changed order: renormalise
	if r.Monos[0].c.Cmp(ratOne) != 0 {
		l2 := r.Monos[0].c
		r = c.Scale(r, new(big.Rat).Inv(l2))
		lead = new(big.Rat).Mul(lead, l2)
	}
	return mono{lead, mulFs(common, []factor{{r, 1}})}
}

func (c *Ctx) Mul(a, b *Term) *Term {
	if a.IsConst() {
		return c.Scale(b, a.Rat)
	}
	if b.IsConst() {
		return c.Scale(a, b.Rat)
	}
	ma, mb := monosOf(a), monosOf(b)
	if a.Kind == KInt && len(ma)*len(mb) <= 64 {
		var out []mono
		for _, x := range ma {
			for _, y := range mb {
				out = append(out, mono{new(big.Rat).Mul(x.c, y.c), mulFs(x.fs, y.fs)})
			}
		}
		return c.polyTerm(a.Kind, out)
	}
	x, y := c.asMono(a), c.asMono(b)
	return c.polyTerm(a.Kind, []mono{{new(big.Rat).Mul(x.c, y.c), mulFs(x.fs, y.fs)}})
}

func (c *Ctx) Inv(a *Term) *Term {
	m := c.asMono(a)
	if m.c.Sign() == 0 {
		return c.mk("inv0", "", a.Kind)
	}
	fs := make([]factor, len(m.fs))
	for i, f := range m.fs {
		fs[i] = factor{f.t, -f.e}
	}
	return c.polyTerm(a.Kind, []mono{{new(big.Rat).Inv(m.c), fs}})
}

func (c *Ctx) FDiv(a, b *Term) *Term { return c.Mul(a, c.Inv(b)) }

// expand multiplies out products of sums (used as a second normal form).
func (c *Ctx) expand(t *Term, budget int) *Term {
	if t.Op != "poly" {
		return t
	}
	var out []mono
	for _, m := range t.Monos {
		cur := []mono{{c: m.c}}
		for _, f := range m.fs {
			if f.e > 0 && f.t.Op == "poly" {
				for i := 0; i < f.e; i++ {
					var nxt []mono
					for _, x := range cur {
						for _, y := range f.t.Monos {
							nxt = append(nxt, mono{new(big.Rat).Mul(x.c, y.c), mulFs(x.fs, y.fs)})
						}
					}
					cur = nxt
					if len(cur) > budget {
						return t
					}
				}
			} else {
				for i := range cur {
					cur[i].fs = mulFs(cur[i].fs, []factor{f})
				}
			}
		}
		out = append(out, cur...)
		if len(out) > budget {
			return t
		}
	}
	r := c.polyTerm(t.Kind, out)
	return r
}

// nonNeg says whether an integer term is certainly >= 0.
// nonNeg: an integer that is known not to be negative.
func (c *Ctx) nonNeg(t *Term) bool {
	if nonNeg(t) {
		return true
	}
	return t.Kind == KInt && c.fromFacts(t, c.facts)
}

// fromFacts: t >= 0 follows from a sum of preconditions.
func (c *Ctx) fromFacts(t *Term, facts []*Term) bool {
	for i, f := range facts {
		r := c.Sub(t, f)
		if nonNeg(r) || i+1 < len(facts) && c.fromFacts(r, facts[i+1:]) {
			return true
		}
	}
	return false
}

func nonNeg(t *Term) bool {
	switch t.Op {
	case "const":
		return t.Rat.Sign() >= 0
	case "len", "search", "lvK":
		return true
	case "and":
		return (t.Args[0].IsConst() && t.Args[0].Rat.Sign() >= 0) || (t.Args[1].IsConst() && t.Args[1].Rat.Sign() >= 0)
	case "exit":
		return t.Args[0].Op == "lvK"
	case "ite":
		return nonNeg(t.Args[1]) && nonNeg(t.Args[2])
	case "lvc":
		return t.Aux == "K" || t.NN // canonical counters
	case "nth":
		return t.Args[0].NN
	case "first":
		return true
	case "poly":
		for _, m := range t.Monos {
			if m.c.Sign() < 0 {
				return false
			}
			for _, f := range m.fs {
				if !nonNeg(f.t) && f.e%2 != 0 {
					return false
				}
			}
		}
		return true
	case "imax":
		for _, a := range t.Args {
			if nonNeg(a) {
				return true
			}
		}
	case "imin":
		for _, a := range t.Args {
			if !nonNeg(a) {
				return false
			}
		}
		return true
	}
	return false
}

// notNaN: float term built only from integers and constants.
func notNaN(t *Term) bool {
	switch t.Op {
	case "const", "i2f":
		return true
	case "poly":
		for _, m := range t.Monos {
			for _, f := range m.fs {
				if f.e < 0 || !notNaN(f.t) {
					return false
				}
			}
		}
		return true
	}
	return false
}

// Lt0 is the condition t < 0.
func (c *Ctx) Lt0(t *Term) *Term {
	if t.IsConst() {
		return c.Bool(t.Rat.Sign() < 0)
	}
	if cd, hi, lo, ok := c.distConst(t); ok {
		return c.Ite(cd, c.Lt0(hi), c.Lt0(lo))
	}
	if t.Kind == KInt {
		if xs, all, ok := c.splitMM(t); ok {
			fold := false
			for _, x := range xs {
				fold = fold || x.IsConst() || c.nonNeg(x) || c.nonNeg(c.Sub(c.Neg(x), c.Int(1)))
			}
			if fold {
				r := c.Bool(all)
				for _, x := range xs {
					if all {
						r = c.And(r, c.Lt0(x))
					} else {
						r = c.Or(r, c.Lt0(x))
					}
				}
				return r
			}
		}
		if c.nonNeg(t) {
			return c.False
		}
		if c.nonNeg(c.Sub(c.Neg(t), c.Int(1))) {
			return c.True
		}
		if r := c.allZero(t); r != nil {
			return r
		}
		if r := c.allZero(c.Sub(c.Neg(t), c.Int(1))); r != nil {
			return c.Not(r)
		}
		// scale by gcd of the non-constant coefficients
		ms := monosOf(t)
		lead := leadMono(ms)
		if lead == nil {
			undecided("internal: lt0 of constant")
		}
		if lead.c.Sign() < 0 {
			// t<0  <=>  !( -t-1 < 0 )
			return c.Not(c.ltIntAtom(c.Sub(c.Neg(t), c.Int(1))))
		}
		return c.ltIntAtom(t)
	}
	if it := c.intForm(t); it != nil {
		return c.Lt0(it)
	}
	if n := c.narrowForm(t); n != nil {
		return c.Lt0(n)
	}
	lead := leadMono(monosOf(t))
	if lead == nil {
		return c.Bool(false)
	}
	s := new(big.Rat).Abs(lead.c)
	t = c.Scale(t, new(big.Rat).Inv(s))
	if t.IsConst() {
		return c.Bool(t.Rat.Sign() < 0)
	}
	return c.mk("flt", "", KBool, t)
}

// allZero is t < 0 where t is one less than a sum of terms that are not
// negative: all of them are zero.
func (c *Ctx) allZero(t *Term) *Term {
	var xs []*Term
	ok := false
	for _, m := range monosOf(t) {
		if len(m.fs) == 0 {
			ok = m.c.Cmp(big.NewRat(-1, 1)) == 0
			continue
		}
		if m.c.Sign() <= 0 {
			return nil
		}
		x := c.polyTerm(KInt, []mono{{ratOne, m.fs}})
		if !c.nonNeg(x) {
			return nil
		}
		xs = append(xs, x)
	}
	if !ok || len(xs) < 2 {
		return nil
	}
	r := c.True
	for _, x := range xs {
		r = c.And(r, c.Lt0(c.Sub(x, c.Int(1))))
	}
	return r
}

// Le0 is t <= 0.
func (c *Ctx) Le0(t *Term) *Term {
	if t.IsConst() {
		return c.Bool(t.Rat.Sign() <= 0)
	}
	if t.Kind == KInt {
		return c.Lt0(c.Sub(t, c.Int(1)))
	}
	if cd, hi, lo, ok := c.distConst(t); ok {
		return c.Ite(cd, c.Le0(hi), c.Le0(lo))
	}
	if !c.mayNaN(t) {
		return c.Not(c.Lt0(c.Neg(t)))
	}
	if n := c.narrowForm(t); n != nil {
		return c.Le0(n)
	}
	lead := leadMono(monosOf(t))
	if lead == nil {
		return c.Bool(true)
	}
	s := new(big.Rat).Abs(lead.c)
	t = c.Scale(t, new(big.Rat).Inv(s))
	if t.IsConst() {
		return c.Bool(t.Rat.Sign() <= 0)
	}
	return c.mk("fle", "", KBool, t)
}

// narrowForm turns a float64 sum of converted float32 values into a float32
// sum with the same sign.
func (c *Ctx) narrowForm(t *Term) *Term {
	if t.Kind != KF64 {
		return nil
	}
	var r *Term
	for _, m := range monosOf(t) {
		x := c.Const(KF32, m.c)
		if len(m.fs) > 0 {
			if len(m.fs) != 1 || m.fs[0].e != 1 || m.fs[0].t.Op != "f64" {
				return nil
			}
			x = c.Mul(x, m.fs[0].t.Args[0])
		}
		if r == nil {
			r = x
		} else {
			r = c.Add(r, x)
		}
	}
	return r
}

// intForm turns a float sum of converted integers into an integer with
// the same sign.
func (c *Ctx) intForm(t *Term) *Term {
	den := big.NewInt(1)
	for _, m := range monosOf(t) {
		for _, f := range m.fs {
			if f.t.Op != "i2f" || f.e < 0 {
				return nil
			}
		}
		g := new(big.Int).GCD(nil, nil, den, m.c.Denom())
		den = new(big.Int).Mul(den, new(big.Int).Quo(m.c.Denom(), g))
	}
	if den.BitLen() > 60 {
		return nil
	}
	r := c.Int(0)
	for _, m := range monosOf(t) {
		p := c.Const(KInt, new(big.Rat).Mul(m.c, new(big.Rat).SetInt(den)))
		for _, f := range m.fs {
			for i := 0; i < f.e; i++ {
				p = c.Mul(p, f.t.Args[0])
			}
		}
		r = c.Add(r, p)
	}
	return r
}

// splitMM splits an integer with one minimum or maximum in it; all says
// whether it is the greatest of the parts, else it is the least.
func (c *Ctx) splitMM(t *Term) (xs []*Term, all, ok bool) {
	var mm *Term
	var co *big.Rat
	for _, m := range monosOf(t) {
		for _, f := range m.fs {
			if f.t.Op != "imax" && f.t.Op != "imin" {
				continue
			}
			if mm != nil || len(m.fs) != 1 || f.e != 1 {
				return nil, false, false
			}
			mm, co = f.t, m.c
		}
	}
	if mm == nil {
		return nil, false, false
	}
	rest := c.Sub(t, c.Scale(mm, co))
	for _, a := range mm.Args {
		xs = append(xs, c.Add(rest, c.Scale(a, co)))
	}
	return xs, (mm.Op == "imax") == (co.Sign() > 0), true
}

// distConst splits k + q*ite(c, const, const) into its two cases; in a sum
// of integers there may be other parts.
func (c *Ctx) distConst(t *Term) (cond, hi, lo *Term, ok bool) {
	var it *mono
	ms := monosOf(t)
	if len(ms) > 2 && t.Kind != KInt {
		return
	}
	for i := range ms {
		if len(ms[i].fs) == 0 {
			continue
		}
		if t.Kind == KInt && (len(ms[i].fs) != 1 || ms[i].fs[0].t.Op != "ite" || it != nil) {
			continue
		}
		if it != nil || len(ms[i].fs) != 1 || ms[i].fs[0].e != 1 || !constLeaves(ms[i].fs[0].t, 8) || ms[i].fs[0].t.Op != "ite" {
			return
		}
		it = &ms[i]
	}
	if it == nil {
		return
	}
	x := it.fs[0].t
	rest := c.Sub(t, c.Scale(x, it.c))
	return x.Args[0], c.Add(rest, c.Scale(x.Args[1], it.c)), c.Add(rest, c.Scale(x.Args[2], it.c)), true
}

func constLeaves(t *Term, d int) bool {
	if d == 0 {
		return false
	}
	if t.Op == "ite" {
		return constLeaves(t.Args[1], d-1) && constLeaves(t.Args[2], d-1)
	}
	return t.Op == "const" || t.Op == "str" || t.Op == "nil"
}

// leadMono is the first non-constant monomial.
func leadMono(ms []mono) *mono {
	for i := range ms {
		if len(ms[i].fs) > 0 {
			return &ms[i]
		}
	}
	return nil
}

// gcdInt returns the gcd of the non-constant integer coefficients.
func gcdInt(ms []mono) *big.Int {
	g := new(big.Int)
	for _, m := range ms {
		if len(m.fs) == 0 {
			continue
		}
		if !m.c.IsInt() {
			return big.NewInt(1)
		}
		g.GCD(nil, nil, g, new(big.Int).Abs(m.c.Num()))
	}
	if g.Sign() == 0 {
		return big.NewInt(1)
	}
	return g
}

func (c *Ctx) ltIntAtom(t *Term) *Term {
	ms := monosOf(t)
	g := gcdInt(ms)
	if g.Cmp(big.NewInt(1)) > 0 {
		// g*x + k < 0  <=>  x < -k/g  <=>  x < ceil(-k/g) <=> x - ceil(-k/g) < 0
		gr := new(big.Rat).SetInt(g)
		var out []mono
		k := new(big.Rat)
		for _, m := range ms {
			if len(m.fs) == 0 {
				k = m.c
				continue
			}
			out = append(out, mono{new(big.Rat).Quo(m.c, gr), m.fs})
		}
		q := new(big.Rat).Quo(new(big.Rat).Neg(k), gr)
		ceil := new(big.Int)
		mod := new(big.Int)
		ceil.DivMod(q.Num(), q.Denom(), mod)
		if mod.Sign() != 0 {
			ceil.Add(ceil, big.NewInt(1))
		}
		out = append(out, mono{c: new(big.Rat).SetInt(new(big.Int).Neg(ceil))})
		t = c.polyTerm(KInt, out)
		ms = t.Monos
		if t.Op != "poly" {
			ms = monosOf(t)
		}
	}
	// bit tests: and(x, const>=0) - 1 < 0   <=>  no bit of the mask set
	if len(ms) <= 2 {
		var kk *big.Rat = new(big.Rat)
		var at *Term
		ok := true
		for _, m := range ms {
			if len(m.fs) == 0 {
				kk = m.c
			} else if len(m.fs) == 1 && m.fs[0].e == 1 && m.c.Cmp(ratOne) == 0 {
				at = m.fs[0].t
			} else {
				ok = false
			}
		}
		if ok && at != nil && (at.Op == "and" || at.Op == "or") && kk.Cmp(big.NewRat(-1, 1)) == 0 {
			if bs, okb := c.bitsOf(at); okb {
				r := c.False
				for _, b := range bs {
					r = c.Or(r, b)
				}
				return c.Not(r)
			}
		}
	}
	return c.mk("ilt", "", KBool, t)
}

// bitsOf lists the possible bits of a masked value: and(x,const) / or of such.
func (c *Ctx) bitsOf(t *Term) ([]*Term, bool) {
	hi, ok := maskBits(t)
	if !ok {
		return nil, false
	}
	var out []*Term
	for i := 0; i < hi.BitLen(); i++ {
		if hi.Bit(i) == 1 {
			out = append(out, c.Bit(t, i))
		}
	}
	return out, true
}

// maskBits: bits that may be non-zero, when bounded and non-negative.
func maskBits(t *Term) (*big.Int, bool) {
	switch t.Op {
	case "const":
		if t.Rat.IsInt() && t.Rat.Sign() >= 0 {
			return t.Rat.Num(), true
		}
	case "and":
		a, oka := maskBits(t.Args[0])
		b, okb := maskBits(t.Args[1])
		if oka && okb {
			return new(big.Int).And(a, b), true
		}
		if oka {
			return a, true
		}
		if okb {
			return b, true
		}
	case "or":
		a, oka := maskBits(t.Args[0])
		b, okb := maskBits(t.Args[1])
		if oka && okb {
			return new(big.Int).Or(a, b), true
		}
	case "ite":
		a, oka := maskBits(t.Args[1])
		b, okb := maskBits(t.Args[2])
		if oka && okb {
			return new(big.Int).Or(a, b), true
		}
	}
	return nil, false
}

// Bit is the i-th bit of an integer term as a condition.
func (c *Ctx) Bit(t *Term, i int) *Term {
	switch t.Op {
	case "const":
		return c.Bool(t.Rat.Num().Bit(i) == 1)
	case "and":
		return c.And(c.Bit(t.Args[0], i), c.Bit(t.Args[1], i))
	case "or":
		return c.Or(c.Bit(t.Args[0], i), c.Bit(t.Args[1], i))
	case "xor":
		a, b := c.Bit(t.Args[0], i), c.Bit(t.Args[1], i)
		return c.Ite(a, c.Not(b), b)
	case "ite":
		return c.Ite(t.Args[0], c.Bit(t.Args[1], i), c.Bit(t.Args[2], i))
	case "shl":
		if n, ok := t.Args[1].IntVal(); ok {
			if int64(i) < n {
				return c.False
			}
			return c.Bit(t.Args[0], i-int(n))
		}
	case "shr":
		if n, ok := t.Args[1].IntVal(); ok && int64(i)+n < 63 {
			return c.Bit(t.Args[0], i+int(n))
		}
	}
	return c.mk("bit", fmt.Sprint(i), KBool, t)
}

// Bitwise builds and/or/xor with flattening and constant folding.
func (c *Ctx) Bitwise(op string, a, b *Term) *Term {
	var leaves []*Term
	var k *big.Int
	var walk func(t *Term)
	fold := func(v *big.Int) {
		if k == nil {
			k = v
			return
		}
		switch op {
		case "and":
			k = new(big.Int).And(k, v)
		case "or":
			k = new(big.Int).Or(k, v)
		case "xor":
			k = new(big.Int).Xor(k, v)
		}
	}
	walk = func(t *Term) {
		if t.Op == op {
			walk(t.Args[0])
			walk(t.Args[1])
			return
		}
		if t.IsConst() && t.Rat.IsInt() {
			fold(t.Rat.Num())
			return
		}
		leaves = append(leaves, t)
	}
	walk(a)
	walk(b)
	if op == "and" && k != nil {
		// and(or(and(x,c1),and(x,c2)),k) etc: push the constant into masked leaves
		for i, l := range leaves {
			if l.Op == "or" || l.Op == "ite" {
				leaves[i] = l
			}
		}
	}
	sort.Slice(leaves, func(i, j int) bool { return leaves[i].Key < leaves[j].Key })
	if op != "xor" {
		var u []*Term
		for i, l := range leaves {
			if i == 0 || l != leaves[i-1] {
				u = append(u, l)
			}
		}
		leaves = u
	}
	// or(and(x,c1), and(x,c2)) -> and(x, c1|c2)
	if op == "or" {
		byBase := map[*Term]*big.Int{}
		var rest []*Term
		var order []*Term
		for _, l := range leaves {
			if l.Op == "and" && l.Args[1].IsConst() {
				b := l.Args[0]
				if o, ok := byBase[b]; ok {
					byBase[b] = new(big.Int).Or(o, l.Args[1].Rat.Num())
				} else {
					byBase[b] = l.Args[1].Rat.Num()
					order = append(order, b)
				}
			} else {
				rest = append(rest, l)
			}
		}
		for _, b := range order {
			rest = append(rest, c.mk("and", "", KInt, b, c.Const(KInt, new(big.Rat).SetInt(byBase[b]))))
		}
		leaves = rest
		sort.Slice(leaves, func(i, j int) bool { return leaves[i].Key < leaves[j].Key })
	}
	if k != nil {
		switch op {
		case "and":
			if k.Sign() == 0 {
				return c.Int(0)
			}
			if k.Cmp(big.NewInt(-1)) == 0 {
				k = nil
			}
		case "or", "xor":
			if k.Sign() == 0 {
				k = nil
			}
		}
	}
	var r *Term
	for _, l := range leaves {
		if r == nil {
			r = l
		} else {
			r = c.mk(op, "", KInt, r, l)
		}
	}
	if k != nil {
		kt := c.Const(KInt, new(big.Rat).SetInt(k))
		if r == nil {
			return kt
		}
		r = c.mk(op, "", KInt, r, kt)
	}
	if r == nil {
		if op == "and" {
			return c.Int(-1)
		}
		return c.Int(0)
	}
	return r
}

// ---------------------------------------------------------------- booleans (ROBDD over atoms)

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

func isCond(t *Term) bool { return t.Op == "bdd" || t.Op == "true" || t.Op == "false" }

// asBDD wraps an atom as decision node.
func (c *Ctx) asBDD(t *Term) *Term {
	if isCond(t) {
		return t
	}
	return c.mk("bdd", "", KBool, t, c.True, c.False)
}

func topAtom(t *Term) *Term {
	if t.Op == "bdd" || t.Op == "ite" {
		return t.Args[0]
	}
	return nil
}

func cof(t, atom *Term, v bool) *Term {
	if (t.Op == "bdd" || t.Op == "ite") && t.Args[0] == atom {
		if v {
			return t.Args[1]
		}
		return t.Args[2]
	}
	return t
}

// unwrap gives back plain atoms where possible.
func (c *Ctx) unwrap(t *Term) *Term {
	if t.Op == "bdd" && t.Args[1] == c.True && t.Args[2] == c.False {
		return t.Args[0]
	}
	return t
}

func (c *Ctx) Not(a *Term) *Term    { return c.Ite(a, c.False, c.True) }
func (c *Ctx) And(a, b *Term) *Term { return c.Ite(a, b, c.False) }
func (c *Ctx) Or(a, b *Term) *Term  { return c.Ite(a, c.True, b) }

// Ite is the gated merge: canonical decision diagram on the conditions,
// for booleans (bdd) and all other values (ite).
func (c *Ctx) Ite(cond, a, b *Term) *Term {
	if cond.Kind == KBool && !isCond(cond) {
		cond = c.asBDD(cond)
	}
	if cond == c.True || a == b {
		return a
	}
	if cond == c.False {
		return b
	}
	if a.Kind == KBool {
		a, b = c.asBDD(a), c.asBDD(b)
		return c.unwrap(c.ite3(cond, a, b))
	}
	return c.ite3(cond, a, b)
}

func (c *Ctx) ite3(f, g, h *Term) *Term {
	if f == c.True || g == h {
		return g
	}
	if f == c.False {
		return h
	}
	if g == c.True && h == c.False {
		return f
	}
	mk := [3]string{f.Key, g.Key, h.Key}
	if r, ok := c.iteMemo[mk]; ok {
		return r
	}
	r := c.ite3x(f, g, h)
	c.iteMemo[mk] = r
	return r
}

func (c *Ctx) ite3x(f, g, h *Term) *Term {
	// structured values merge component-wise
	if g.Op == "struct" && h.Op == "struct" && g.Aux == h.Aux && len(g.Args) == len(h.Args) {
		args := make([]*Term, len(g.Args))
		for i := range args {
			args[i] = c.Ite(f, g.Args[i], h.Args[i])
		}
		return c.Struct(g.Aux, g.Typ, args)
	}
	if (g.Op == "struct") != (h.Op == "struct") && (g.Op == "struct" || h.Op == "struct") {
		s := g
		if h.Op == "struct" {
			s = h
		}
		if s.Typ != nil && !isTuple(s) {
			args := make([]*Term, len(s.Args))
			for i := range args {
				args[i] = c.Ite(f, c.Fld(g, s, i), c.Fld(h, s, i))
			}
			return c.Struct(s.Aux, s.Typ, args)
		}
	}
	if g.Kind == KMem {
		if r := c.iteMem(f, g, h); r != nil {
			return r
		}
	}
	if g.Kind == KStr && h.Kind == KStr || g.Kind == KSeq && h.Kind == KSeq {
		if g.Op == "scat" || h.Op == "scat" {
			if r := c.iteStr(f, g, h); r != nil {
				return r
			}
		}
		if g.Op == "app" || h.Op == "app" || g.Op == "cat" || h.Op == "cat" {
			if r := c.iteSeq(f, g, h); r != nil {
				return r
			}
		}
	}
	if isNum(g.Kind) {
		if r := c.iteNum(f, g, h); r != nil {
			return r
		}
	}
	top := f.Args[0]
	if t := topAtom(g); t != nil && t.Key < top.Key {
		top = t
	}
	if t := topAtom(h); t != nil && t.Key < top.Key {
		top = t
	}
	hi := c.ite3(cof(f, top, true), cof(g, top, true), cof(h, top, true))
	lo := c.ite3(cof(f, top, false), cof(g, top, false), cof(h, top, false))
	if hi == lo {
		return hi
	}
	if b := c.famBase(top); b != nil {
		hi, lo = c.assume(hi, top, true, b), c.assume(lo, top, false, b)
		if hi == lo {
			return hi
		}
		if hasFam(lo, b) && c.assume(lo, top, true, b) == hi {
			return lo
		}
		if hasFam(hi, b) && c.assume(hi, top, false, b) == lo {
			return hi
		}
	}
	if hi.Kind == KBool {
		return c.mk("bdd", "", KBool, top, hi, lo)
	}
	return c.iteNode(top, hi, lo)
}

// iteNode builds the decision node after local value rules.
func (c *Ctx) iteNode(atom, hi, lo *Term) *Term {
	// min/max idioms
	switch atom.Op {
	case "ilt": // d<0 ? hi : lo
		d := atom.Args[0]
		if hi.Kind == KInt {
			df := c.Sub(hi, lo)
			// a<b ? a : b  (d = a-b = hi-lo) -> min
			if df == d || c.Sub(df, d).IsConst() && sameUpToOne(c, df, d, true) {
				return c.MinMax("imin", hi, lo)
			}
			nd := c.Neg(df)
			if nd == d || c.Sub(nd, d).IsConst() && sameUpToOne(c, nd, d, false) {
				return c.MinMax("imax", hi, lo)
			}
		}
	case "flt", "fle":
		// x<k ? k : x -> max(x,k); k<x ? k : x -> min(x,k) for constant k (same for NaN x)
		d := atom.Args[0]
		if hi.IsConst() && !lo.IsConst() && (hi.Kind == KF64 || hi.Kind == KF32) {
			df := c.Sub(lo, hi)
			if c.sameSignScaled(df, d) {
				return c.MinMax("fmax", lo, hi)
			}
			if c.sameSignScaled(c.Neg(df), d) {
				return c.MinMax("fmin", lo, hi)
			}
		}
	}
	if isNum(hi.Kind) {
		if r := c.iteNum(c.asBDD(atom), hi, lo); r != nil {
			return r
		}
	}
	t := &Term{Op: "ite", Kind: hi.Kind, Args: []*Term{atom, hi, lo}}
	if hi.Typ != nil {
		t.Typ = hi.Typ
	} else {
		t.Typ = lo.Typ
	}
	return c.intern(t)
}

// iteNum takes common summands and common factors out of a numeric merge.
func (c *Ctx) iteNum(f, g, h *Term) *Term {
	gm, hm := monosOf(g), monosOf(h)
	if len(gm) > 1 || len(hm) > 1 {
		// common summands
		key := map[string]mono{}
		for _, m := range gm {
			key[fsKey(m.fs)] = m
		}
		var common []mono
		for _, m := range hm {
			if o, ok := key[fsKey(m.fs)]; ok && o.c.Cmp(m.c) == 0 {
				common = append(common, m)
			}
		}
		if len(common) > 0 {
			ct := c.polyTerm(g.Kind, common)
			return c.Add(ct, c.Ite(f, c.Sub(g, ct), c.Sub(h, ct)))
		}
	}
	if g.Kind == KInt {
		return nil
	}
	x, y := c.asMono(g), c.asMono(h)
	if x.c.Sign() == 0 && y.c.Sign() == 0 {
		return nil
	}
	var common []factor
	switch {
	case x.c.Sign() == 0:
		common = y.fs
	case y.c.Sign() == 0:
		common = x.fs
	default:
		for _, a := range x.fs {
			for _, b := range y.fs {
				if a.t == b.t && (a.e > 0) == (b.e > 0) {
					e := a.e
					if e > 0 && b.e < e || e < 0 && b.e > e {
						e = b.e
					}
					common = append(common, factor{a.t, e})
				}
			}
		}
	}
	scale := ratOne
	if y.c.Sign() != 0 {
		scale = y.c
	} else {
		scale = x.c
	}
	// a lone constant (or zero) against a single factor is left alone
	if len(common) == 0 && (scale.Cmp(ratOne) == 0 || len(x.fs) > 0 || len(y.fs) > 0) {
		return nil
	}
	inv := make([]factor, len(common))
	for i, q := range common {
		inv[i] = factor{q.t, -q.e}
	}
	is := new(big.Rat).Inv(scale)
	g2 := c.polyTerm(g.Kind, []mono{{new(big.Rat).Mul(x.c, is), mulFs(x.fs, pick(inv, x))}})
	h2 := c.polyTerm(h.Kind, []mono{{new(big.Rat).Mul(y.c, is), mulFs(y.fs, pick(inv, y))}})
	if g2 == g && h2 == h {
		return nil
	}
	r := c.Ite(f, g2, h2)
	return c.Mul(c.polyTerm(g.Kind, []mono{{scale, common}}), r)
}

func pick(inv []factor, m mono) []factor {
	if m.c.Sign() == 0 {
		return nil
	}
	return inv
}

func (c *Ctx) sameSignScaled(a, b *Term) bool {
	la, lb := leadMono(monosOf(a)), leadMono(monosOf(b))
	if la == nil || lb == nil || la.c.Sign() != lb.c.Sign() {
		return false
	}
	r := new(big.Rat).Quo(lb.c, la.c)
	return c.Scale(a, r) == b
}

// a<b and a<=b choose the same minimum; d may be off by one for integers.
func sameUpToOne(c *Ctx, df, d *Term, min bool) bool {
	k, ok := c.Sub(d, df).IntVal()
	if !ok {
		return false
	}
	// cond: df + k < 0 ; the choice is still the min when k in {0,-1}: df<0 or df<1
	return k == 0 || k == -1
}

// MinMax builds n-ary idempotent AC min/max.
func (c *Ctx) MinMax(op string, ts ...*Term) *Term {
	var leaves []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if t.Op == op {
			for _, a := range t.Args {
				walk(a)
			}
			return
		}
		leaves = append(leaves, t)
	}
	for _, t := range ts {
		walk(t)
	}
	sort.Slice(leaves, func(i, j int) bool { return leaves[i].Key < leaves[j].Key })
	var out []*Term
	var k *Term
	for i, l := range leaves {
		if i > 0 && l == leaves[i-1] {
			continue
		}
		if l.IsConst() {
			if k == nil {
				k = l
			} else {
				cmp := l.Rat.Cmp(k.Rat)
				if (op[1:] == "min") == (cmp < 0) {
					k = l
				}
			}
			continue
		}
		out = append(out, l)
	}
	if k != nil {
		if op == "imax" && k.Rat.Sign() <= 0 {
			for _, l := range out {
				if c.nonNeg(l) {
					k = nil
					break
				}
			}
		}
		if k != nil {
			out = append(out, k)
		}
	}
	if op == "imin" {
		// a min absorbs a max one of whose arguments is not below it
		for i := 0; i < len(out); i++ {
			l := out[i]
			if l.Op != "imax" {
				continue
			}
			drop := false
			for j, o := range out {
				for _, a := range l.Args {
					if i != j && (a == o || a.IsConst() && o.IsConst() && o.Rat.Cmp(a.Rat) <= 0) {
						drop = true
					}
				}
			}
			if drop {
				out = append(out[:i:i], out[i+1:]...)
				i--
			}
		}
	}
	if len(out) == 1 {
		return out[0]
	}
	if op == "imax" {
		// max over min: min over max is the normal form
		n := 1
		for _, l := range out {
			if l.Op == op[:1]+"min" {
				n *= len(l.Args)
			}
		}
		if n > 1 && n <= 16 {
			for i, l := range out {
				if l.Op == op[:1]+"min" {
					rest := append(append([]*Term{}, out[:i]...), out[i+1:]...)
					var ms []*Term
					for _, a := range l.Args {
						ms = append(ms, c.MinMax(op, append([]*Term{a}, rest...)...))
					}
					return c.MinMax(op[:1]+"min", ms...)
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Key < out[j].Key })
	return c.mk(op, "", out[0].Kind, out...)
}

// Eq is equality of two values of any kind.
func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b && !(a.Kind == KF64 || a.Kind == KF32) {
		return c.True
	}
	switch {
	case a.Kind == KBool:
		return c.Ite(a, b, c.Not(b))
	case a.Op == "struct" || b.Op == "struct":
		s := a
		if b.Op == "struct" {
			s = b
		}
		r := c.True
		for i := range s.Args {
			r = c.And(r, c.Eq(c.Fld(a, s, i), c.Fld(b, s, i)))
		}
		return r
	case a.Kind == KInt:
		d := c.Sub(a, b)
		if d.IsConst() {
			return c.Bool(d.Rat.Sign() == 0)
		}
		if cd, hi, lo, ok := c.distConst(d); ok {
			return c.Ite(cd, c.Eq(hi, c.Int(0)), c.Eq(lo, c.Int(0)))
		}
		lead := leadMono(monosOf(d))
		if lead.c.Sign() < 0 {
			d = c.Neg(d)
		}
		if c.nonNeg(d) { // d>=0: d==0 <=> d<1
			return c.Lt0(c.Sub(d, c.Int(1)))
		}
		for _, e := range []*Term{d, c.Neg(d)} {
			// the least of two that are not negative
			if xs, all, ok := c.splitMM(e); ok && !all {
				nn := true
				for _, x := range xs {
					nn = nn && c.nonNeg(x)
				}
				if nn {
					return c.Lt0(c.Sub(e, c.Int(1)))
				}
			}
		}
		g := gcdInt(monosOf(d))
		if g.Cmp(big.NewInt(1)) > 0 {
			// g*x + k == 0
			k := new(big.Rat)
			for _, m := range monosOf(d) {
				if len(m.fs) == 0 {
					k = m.c
				}
			}
			q := new(big.Rat).Quo(k, new(big.Rat).SetInt(g))
			if !q.IsInt() {
				return c.False
			}
			d = c.Scale(d, new(big.Rat).SetFrac(big.NewInt(1), g))
			if c.nonNeg(d) {
				return c.Lt0(c.Sub(d, c.Int(1)))
			}
		}
		// (x&k)==k'  bit tests
		ms := monosOf(d)
		if len(ms) <= 2 {
			var at *Term
			kk := new(big.Rat)
			ok := true
			for _, m := range ms {
				if len(m.fs) == 0 {
					kk = m.c
				} else if len(m.fs) == 1 && m.fs[0].e == 1 && m.c.Cmp(ratOne) == 0 {
					at = m.fs[0].t
				} else {
					ok = false
				}
			}
			if ok && at != nil && (at.Op == "and" || at.Op == "or") {
				if mask, okm := maskBits(at); okm {
					want := new(big.Int).Neg(kk.Num())
					if want.Sign() < 0 {
						return c.False
					}
					if new(big.Int).AndNot(want, mask).Sign() != 0 {
						return c.False
					}
					r := c.True
					for i := 0; i < mask.BitLen(); i++ {
						if mask.Bit(i) == 1 {
							b := c.Bit(at, i)
							if want.Bit(i) == 0 {
								b = c.Not(b)
							}
							r = c.And(r, b)
						}
					}
					return r
				}
			}
		}
		return c.mk("ieq", "", KBool, d)
	case a.Kind == KF64 || a.Kind == KF32:
		if a == b {
			return c.Not(c.IsNaN(a))
		}
		d := c.Sub(a, b)
		if d.IsConst() {
			return c.Bool(d.Rat.Sign() == 0)
		}
		if cd, hi, lo, ok := c.distConst(d); ok {
			z := c.Const(d.Kind, new(big.Rat))
			return c.Ite(cd, c.Eq(hi, z), c.Eq(lo, z))
		}
		if it := c.intForm(d); it != nil {
			return c.Eq(it, c.Int(0))
		}
		if n := c.narrowForm(d); n != nil {
			return c.Eq(n, c.Const(KF32, new(big.Rat)))
		}
		lead := leadMono(monosOf(d))
		if lead == nil {
			return c.Bool(false)
		}
		d = c.Scale(d, new(big.Rat).Inv(lead.c))
		if d.IsConst() {
			return c.Bool(d.Rat.Sign() == 0)
		}
		return c.mk("feq", "", KBool, d)
	case a.Kind == KStr:
		if a.Op == "str" && b.Op == "str" {
			return c.Bool(a.Aux == b.Aux)
		}
		// comparison with "" is a length test
		if b.Op == "str" && b.Aux == "" {
			return c.Lt0(c.Sub(c.Len(a), c.Int(1)))
		}
		if a.Op == "str" && a.Aux == "" {
			return c.Lt0(c.Sub(c.Len(b), c.Int(1)))
		}
	case b.Op == "nil" || a.Op == "nil":
		x := a
		if a.Op == "nil" {
			x = b
		}
		switch x.Op {
		case "nil", "seq0":
			return c.True
		case "ite":
			return c.Ite(x.Args[0], c.Eq(x.Args[1], c.Nil()), c.Eq(x.Args[2], c.Nil()))
		case "obj", "faddr", "iaddr", "rec", "closure", "iface", "app", "cat", "zseq", "glob":
			return c.False
		case "unbox":
			return c.Not(c.IsType(x.Args[0], x.Aux))
		case "call":
			switch x.Aux {
			case "errors.New", "fmt.Errorf":
				return c.False
			}
		}
		return c.mk("isnil", "", KBool, x)
	}
	if a.Op == "ite" && (constLeaves(a, 8)) {
		return c.Ite(a.Args[0], c.Eq(a.Args[1], b), c.Eq(a.Args[2], b))
	}
	if b.Op == "ite" && (constLeaves(b, 8)) {
		return c.Ite(b.Args[0], c.Eq(a, b.Args[1]), c.Eq(a, b.Args[2]))
	}
	if a.Key > b.Key {
		a, b = b, a
	}
	if a.Op == "obj" && b.Op == "obj" {
		return c.Bool(a == b)
	}
	return c.mk("eq", "", KBool, a, b)
}

// IsNaN is the not-a-number test.
func (c *Ctx) IsNaN(a *Term) *Term {
	if notNaN(a) {
		return c.False
	}
	switch a.Op {
	case "ite":
		return c.Ite(a.Args[0], c.IsNaN(a.Args[1]), c.IsNaN(a.Args[2]))
	case "nan":
		return c.True
	case "f32", "f64", "abs":
		return c.IsNaN(a.Args[0])
	case "poly":
		// without the constant, which does not matter
		var rest []mono
		for _, m := range monosOf(a) {
			if len(m.fs) > 0 {
				rest = append(rest, m)
			}
		}
		if len(rest) > 0 {
			inv := new(big.Rat).Inv(rest[0].c)
			for i, m := range rest {
				rest[i] = mono{new(big.Rat).Mul(m.c, inv), m.fs}
			}
			if b := c.polyTerm(a.Kind, rest); b != a {
				return c.IsNaN(b)
			}
		}
	}
	return c.mk("isnan", "", KBool, a)
}

func (c *Ctx) Nil() *Term { return c.mk("nil", "", KPtr) }

// ---------------------------------------------------------------- structs, interfaces

func isTuple(t *Term) bool { return strings.HasPrefix(t.Aux, "tuple") }

func (c *Ctx) Struct(aux string, typ types.Type, args []*Term) *Term {
	// eta: all fields of the same symbolic struct
	if len(args) > 0 && args[0].Op == "fld" && !strings.HasPrefix(aux, "tuple") {
		base := args[0].Args[0]
		same := true
		if st, ok := under(typ).(*types.Struct); ok {
			for i, a := range args {
				if a.Op != "fld" || a.Args[0] != base || a.Aux != st.Field(i).Name() {
					same = false
					break
				}
			}
			if same {
				return base
			}
		}
	}
	return c.intern(&Term{Op: "struct", Aux: aux, Kind: KOther, Args: args, Typ: typ})
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

// Fld selects field i of x; shape is a struct term giving type information.
func (c *Ctx) Fld(x, shape *Term, i int) *Term {
	if x.Op == "struct" {
		return x.Args[i]
	}
	return c.FldT(x, shape.Typ, i)
}

func (c *Ctx) FldT(x *Term, typ types.Type, i int) *Term {
	switch x.Op {
	case "struct":
		return x.Args[i]
	case "ite":
		return c.Ite(x.Args[0], c.FldT(x.Args[1], typ, i), c.FldT(x.Args[2], typ, i))
	}
	st, ok := under(typ).(*types.Struct)
	if !ok {
		undecided("field of non-struct %v", typ)
	}
	f := st.Field(i)
	return c.intern(&Term{Op: "fld", Aux: f.Name(), Kind: kindOf(f.Type()), Args: []*Term{x}, Typ: f.Type()})
}

// Ext selects component i of a multi-value result.
func (c *Ctx) Ext(x *Term, i int, typ types.Type) *Term {
	switch x.Op {
	case "struct":
		return x.Args[i]
	case "ite":
		return c.Ite(x.Args[0], c.Ext(x.Args[1], i, typ), c.Ext(x.Args[2], i, typ))
	case "call":
		if r := c.parsedConst(x, i); r != nil {
			return r
		}
	}
	return c.intern(&Term{Op: "ext", Aux: fmt.Sprint(i), Kind: kindOf(typ), Args: []*Term{x}, Typ: typ})
}

// parsedConst is the value or the nil error of reading a number from a
// constant.
func (c *Ctx) parsedConst(x *Term, i int) *Term {
	if x.Aux != "strconv.ParseInt" || len(x.Args) != 3 {
		return nil
	}
	s, ok := strConst(x.Args[0])
	base, ok1 := x.Args[1].IntVal()
	bits, ok2 := x.Args[2].IntVal()
	if !ok || !ok1 || !ok2 || base != 0 && (base < 2 || base > 36) || bits < 0 || bits > 64 {
		return nil
	}
	n, err := strconv.ParseInt(s, int(base), int(bits))
	if i == 0 {
		return c.Int(n)
	}
	if err == nil {
		return c.Nil()
	}
	return nil
}

func (c *Ctx) IsType(x *Term, tn string) *Term {
	switch x.Op {
	case "iface":
		return c.Bool(x.Aux == tn)
	case "nil":
		return c.False
	case "ite":
		return c.Ite(x.Args[0], c.IsType(x.Args[1], tn), c.IsType(x.Args[2], tn))
	}
	return c.mk("is", tn, KBool, x)
}

func (c *Ctx) Unbox(x *Term, tn string, typ types.Type) *Term {
	switch x.Op {
	case "iface":
		if x.Aux == tn {
			return x.Args[0]
		}
		return c.Nil()
	case "nil":
		return c.Nil()
	case "ite":
		a, b := c.Unbox(x.Args[1], tn, typ), c.Unbox(x.Args[2], tn, typ)
		// a branch on which the type does not match is irrelevant
		if x.Args[1].Op == "iface" && x.Args[1].Aux != tn || x.Args[1].Op == "nil" {
			return b
		}
		if x.Args[2].Op == "iface" && x.Args[2].Aux != tn || x.Args[2].Op == "nil" {
			return a
		}
		return c.Ite(x.Args[0], a, b)
	}
	return c.intern(&Term{Op: "unbox", Aux: tn, Kind: kindOf(typ), Args: []*Term{x}, Typ: typ})
}

func kindOf(t types.Type) Kind {
	if t == nil {
		return KOther
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return KBool
		case u.Info()&types.IsInteger != 0:
			return KInt
		case u.Kind() == types.Float32:
			return KF32
		case u.Info()&types.IsFloat != 0:
			return KF64
		case u.Info()&types.IsString != 0:
			return KStr
		}
	case *types.Slice, *types.Array:
		return KSeq
	case *types.Pointer:
		return KPtr
	}
	return KOther
}
