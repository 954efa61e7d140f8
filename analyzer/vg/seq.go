package vg

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

// ---------------------------------------------------------------- sequences and strings

func (c *Ctx) Seq0() *Term { return c.mk("seq0", "", KSeq) }

func (c *Ctx) Len(s *Term) *Term {
	switch s.Op {
	case "str":
		return c.Int(int64(len(s.Aux)))
	case "seq0", "nil":
		return c.Int(0)
	case "app":
		return c.Add(c.Len(s.Args[0]), c.Int(1))
	case "cat", "scat":
		return c.Add(c.Len(s.Args[0]), c.Len(s.Args[1]))
	case "zseq", "tab":
		return s.Args[0]
	case "set", "copyseq", "sorted", "ssorted":
		return c.Len(s.Args[0])
	case "sub":
		return c.Sub(s.Args[2], s.Args[1])
	case "ite":
		return c.Ite(s.Args[0], c.Len(s.Args[1]), c.Len(s.Args[2]))
	case "lvc":
		if d := c.loops[s.Key]; d != nil && d.len != nil {
			return d.len
		}
	case "nth":
		if d := c.loops[s.Args[0].Key]; d != nil && d.len != nil {
			return c.At(d.len, s.BL, s.Args[1])
		}
	}
	return c.mk("len", "", KInt, s)
}

// provLe: a <= b certainly.
func (c *Ctx) provLe(a, b *Term) bool {
	if a == b || c.nonNeg(c.Sub(b, a)) {
		return true
	}
	if a.Op == "imin" {
		for _, x := range a.Args {
			if c.provLe(x, b) {
				return true
			}
		}
	}
	if b.Op == "imax" {
		for _, x := range b.Args {
			if c.provLe(a, x) {
				return true
			}
		}
	}
	if a.Op == "imax" {
		for _, x := range a.Args {
			if !c.provLe(x, b) {
				return false
			}
		}
		return true
	}
	if b.Op == "imin" {
		for _, x := range b.Args {
			if !c.provLe(a, x) {
				return false
			}
		}
		return true
	}
	if a.Op == "ite" {
		return c.provLe(a.Args[1], b) && c.provLe(a.Args[2], b)
	}
	return false
}

func elemKind(t types.Type) Kind { return kindOf(t) }

// Get is element i of a sequence; et is the element type.
func (c *Ctx) Get(s, i *Term, et types.Type) *Term {
	switch s.Op {
	case "app":
		if s.Args[0].Op == "seq0" {
			return s.Args[1]
		}
		return c.Ite(c.Eq(i, c.Len(s.Args[0])), s.Args[1], c.Get(s.Args[0], i, et))
	case "cat":
		a, b := s.Args[0], s.Args[1]
		la := c.Len(a)
		return c.Ite(c.Lt0(c.Sub(i, la)), c.Get(a, i, et), c.Get(b, c.Sub(i, la), et))
	case "zseq":
		return s.Args[1]
	case "set":
		return c.Ite(c.Eq(i, s.Args[1]), s.Args[2], c.Get(s.Args[0], i, et))
	case "sub":
		return c.Get(s.Args[0], c.Add(i, s.Args[1]), et)
	case "ite":
		return c.Ite(s.Args[0], c.Get(s.Args[1], i, et), c.Get(s.Args[2], i, et))
	case "tab":
		return c.At(s.Args[1], s.BL, i)
	}
	if i.Op == "ite" {
		return c.Ite(i.Args[0], c.Get(s, i.Args[1], et), c.Get(s, i.Args[2], et))
	}
	k := KOther
	if et != nil {
		k = kindOf(et)
	}
	return c.intern(&Term{Op: "get", Kind: k, Args: []*Term{s, i}, Typ: et})
}

func (c *Ctx) Sub3(s, lo, hi *Term) *Term {
	if lo == hi {
		return c.Seq0()
	}
	if z, ok := lo.IntVal(); ok && z == 0 && hi == c.Len(s) {
		return s
	}
	if s.Kind == KStr {
		if s.Op == "str" {
			a, oka := lo.IntVal()
			b, okb := hi.IntVal()
			if oka && okb && a >= 0 && a <= b && int(b) <= len(s.Aux) {
				return c.Str(s.Aux[a:b])
			}
		}
		return c.mk("ssub", "", KStr, s, lo, hi)
	}
	switch s.Op {
	case "sub":
		return c.Sub3(s.Args[0], c.Add(s.Args[1], lo), c.Add(s.Args[1], hi))
	case "ite":
		return c.Ite(s.Args[0], c.Sub3(s.Args[1], lo, hi), c.Sub3(s.Args[2], lo, hi))
	case "zseq":
		return c.ZSeq(c.Sub(hi, lo), s.Args[1])
	case "app":
		n := c.Len(s.Args[0])
		if c.provLe(hi, n) {
			return c.Sub3(s.Args[0], lo, hi)
		}
		if hi == c.Add(n, c.Int(1)) && c.provLe(lo, n) {
			return c.App(c.Sub3(s.Args[0], lo, n), s.Args[1])
		}
	case "cat":
		n := c.Len(s.Args[0])
		if c.provLe(hi, n) {
			return c.Sub3(s.Args[0], lo, hi)
		}
		if c.provLe(n, lo) {
			return c.Sub3(s.Args[1], c.Sub(lo, n), c.Sub(hi, n))
		}
		if c.provLe(lo, n) && c.provLe(n, hi) {
			return c.Cat(c.Sub3(s.Args[0], lo, n), c.Sub3(s.Args[1], c.Int(0), c.Sub(hi, n)))
		}
	case "tab":
		if z, ok := lo.IntVal(); ok && z == 0 {
			return c.Tab(s.BL, hi, s.Args[1], s.Typ)
		}
	case "set":
		i := s.Args[1]
		if c.provLe(hi, i) {
			return c.Sub3(s.Args[0], lo, hi)
		}
		if c.provLe(lo, i) && c.provLe(c.Add(i, c.Int(1)), hi) {
			return c.Set(c.Sub3(s.Args[0], lo, hi), c.Sub(i, lo), s.Args[2])
		}
	}
	return c.intern(&Term{Op: "sub", Kind: KSeq, Args: []*Term{s, lo, hi}, Typ: s.Typ})
}

func (c *Ctx) ZSeq(n, zero *Term) *Term {
	if k, ok := n.IntVal(); ok && k <= 64 {
		s := c.Seq0()
		for i := int64(0); i < k; i++ {
			s = c.App(s, zero)
		}
		return s
	}
	return c.mk("zseq", "", KSeq, n, zero)
}

func (c *Ctx) App(s, x *Term) *Term {
	if s.Op == "nil" {
		s = c.Seq0()
	}
	return c.mk("app", "", KSeq, s, x)
}

func (c *Ctx) Cat(a, b *Term) *Term {
	if a.Op == "seq0" || a.Op == "nil" {
		if b.Op == "nil" {
			return c.Seq0()
		}
		return b
	}
	switch b.Op {
	case "seq0", "nil":
		return a
	case "app":
		return c.App(c.Cat(a, b.Args[0]), b.Args[1])
	}
	if a.Op == "cat" {
		return c.Cat(a.Args[0], c.Cat(a.Args[1], b))
	}
	return c.mk("cat", "", KSeq, a, b)
}

func (c *Ctx) Set(s, i, v *Term) *Term {
	switch s.Op {
	case "app":
		n := c.Len(s.Args[0])
		if i == n {
			return c.App(s.Args[0], v)
		}
		if c.provLe(c.Add(i, c.Int(1)), n) {
			return c.App(c.Set(s.Args[0], i, v), s.Args[1])
		}
	case "set":
		if s.Args[1] == i {
			return c.Set(s.Args[0], i, v)
		}
		d := c.Sub(i, s.Args[1])
		if k, ok := d.IntVal(); ok && k < 0 { // order by index where comparable
			return c.mk("set", "", KSeq, c.Set(s.Args[0], i, v), s.Args[1], s.Args[2])
		}
	case "cat":
		n := c.Len(s.Args[0])
		if c.provLe(n, i) {
			return c.Cat(s.Args[0], c.Set(s.Args[1], c.Sub(i, n), v))
		}
		if c.provLe(c.Add(i, c.Int(1)), n) {
			return c.Cat(c.Set(s.Args[0], i, v), s.Args[1])
		}
	case "ite":
		return c.Ite(s.Args[0], c.Set(s.Args[1], i, v), c.Set(s.Args[2], i, v))
	}
	if i.Op == "ite" {
		return c.Ite(i.Args[0], c.Set(s, i.Args[1], v), c.Set(s, i.Args[2], v))
	}
	if (s.Op == "sub" || s.Op == "nth") && c.Add(i, c.Int(1)) == c.Len(s) { // the last one
		return c.App(c.Sub3(s, c.Int(0), i), v)
	}
	if v.Op == "get" && v.Args[0] == s && v.Args[1] == i {
		return s
	}
	return c.mk("set", "", KSeq, s, i, v)
}

// CopySeq is copy(d, s) as a value.
func (c *Ctx) CopySeq(d, s *Term) *Term {
	ld, ls := c.Len(d), c.Len(s)
	if c.provLe(ls, ld) {
		return c.Cat(s, c.Sub3(d, ls, ld))
	}
	if c.provLe(ld, ls) {
		return c.Sub3(s, c.Int(0), ld)
	}
	return c.mk("copyseq", "", KSeq, d, s)
}

// Tab is the sequence of n elements whose j-th is x at iteration j.
func (c *Ctx) Tab(level int, n, x *Term, typ types.Type) *Term {
	if k, ok := n.IntVal(); ok && k <= 64 {
		s := c.Seq0()
		for i := int64(0); i < k; i++ {
			s = c.App(s, c.At(x, level, c.Int(i)))
		}
		return s
	}
	// identity: get(s, K) for K < len(s)
	if x.Op == "get" && x.Args[1] == c.K(level) && !hasLevel(x.Args[0], level) && c.provLe(n, c.Len(x.Args[0])) {
		return c.Sub3(x.Args[0], c.Int(0), n)
	}
	if w, l := c.lower(x, level); l < level {
		return c.Tab(l, n, w, typ)
	}
	return c.intern(&Term{Op: "tab", Kind: KSeq, Args: []*Term{n, x}, BL: level, Typ: typ})
}

func hasLevel(t *Term, l int) bool {
	for _, f := range t.Free {
		if isVar(f) && f.BL == l {
			return true
		}
	}
	return false
}

// strings

func (c *Ctx) SCat(a, b *Term) *Term {
	if a.Op == "str" && a.Aux == "" {
		return b
	}
	if b.Op == "str" && b.Aux == "" {
		return a
	}
	if a.Op == "str" && b.Op == "str" {
		return c.Str(a.Aux + b.Aux)
	}
	if b.Op == "scat" {
		return c.SCat(c.SCat(a, b.Args[0]), b.Args[1])
	}
	if a.Op == "scat" && a.Args[1].Op == "str" && b.Op == "str" {
		return c.SCat(a.Args[0], c.Str(a.Args[1].Aux+b.Aux))
	}
	return c.mk("scat", "", KStr, a, b)
}

// iteStr: ite(f, p++x, p) = p ++ ite(f, x, "").
func (c *Ctx) iteStr(f, g, h *Term) *Term {
	if g.Kind != KStr {
		return nil
	}
	parts := func(t *Term) []*Term {
		var out []*Term
		for t.Op == "scat" {
			out = append([]*Term{t.Args[1]}, out...)
			t = t.Args[0]
		}
		return append([]*Term{t}, out...)
	}
	gp, hp := parts(g), parts(h)
	if h.Op == "str" && h.Aux == "" {
		hp = nil
	}
	if g.Op == "str" && g.Aux == "" {
		gp = nil
	}
	n := 0
	for n < len(gp) && n < len(hp) && gp[n] == hp[n] {
		n++
	}
	if n == 0 {
		return nil
	}
	join := func(ps []*Term) *Term {
		r := c.Str("")
		for _, p := range ps {
			r = c.SCat(r, p)
		}
		return r
	}
	return c.SCat(join(gp[:n]), c.Ite(f, join(gp[n:]), join(hp[n:])))
}

// iteSeq takes common prefixes out of conditional sequences.
func (c *Ctx) iteSeq(f, g, h *Term) *Term {
	if g.Op == "app" && h.Op == "app" && g.Args[0] == h.Args[0] {
		return c.App(g.Args[0], c.Ite(f, g.Args[1], h.Args[1]))
	}
	type part struct {
		t    *Term
		elem bool
	}
	parts := func(t *Term) []part {
		var out []part
		var walk func(t *Term)
		walk = func(t *Term) {
			switch t.Op {
			case "app":
				walk(t.Args[0])
				out = append(out, part{t.Args[1], true})
			case "cat":
				walk(t.Args[0])
				walk(t.Args[1])
			case "seq0":
			default:
				out = append(out, part{t, false})
			}
		}
		walk(t)
		return out
	}
	gp, hp := parts(g), parts(h)
	n := 0
	for n < len(gp) && n < len(hp) && gp[n] == hp[n] {
		n++
	}
	if n == 0 {
		return nil
	}
	join := func(ps []part) *Term {
		r := c.Seq0()
		for _, p := range ps {
			if p.elem {
				r = c.App(r, p.t)
			} else {
				r = c.Cat(r, p.t)
			}
		}
		return r
	}
	return c.Cat(join(gp[:n]), c.Ite(f, join(gp[n:]), join(hp[n:])))
}

// ---------------------------------------------------------------- class memory

func (c *Ctx) Mem0(class string) *Term { return c.mk("mem0", class, KMem) }

func (c *Ctx) Sel(mem, p *Term, class string, typ types.Type) *Term {
	if p.Op == "ite" {
		a, b := p.Args[1], p.Args[2]
		if a.Op == "nil" {
			return c.Sel(mem, b, class, typ)
		}
		if b.Op == "nil" {
			return c.Sel(mem, a, class, typ)
		}
		return c.Ite(p.Args[0], c.Sel(mem, a, class, typ), c.Sel(mem, b, class, typ))
	}
	switch mem.Op {
	case "store":
		return c.Ite(c.Eq(p, mem.Args[1]), mem.Args[2], c.Sel(mem.Args[0], p, class, typ))
	case "ite":
		return c.Ite(mem.Args[0], c.Sel(mem.Args[1], p, class, typ), c.Sel(mem.Args[2], p, class, typ))
	case "mem0":
		if p.Op == "rec" {
			fn := class[strings.LastIndex(class, ".")+1:]
			s := p.Args[0]
			if st, ok := under(s.Typ).(*types.Struct); ok && s.Op == "struct" {
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Name() == fn {
						return c.tieSelf(s.Args[i], p)
					}
				}
			}
			if class[0] == '*' {
				return s
			}
		}
		if strings.HasPrefix(class, "@") { // embedded pointer field
			fn := class[strings.LastIndex(class, ".")+1:]
			root := p
			for root.Op == "unbox" || root.Op == "emb" {
				root = root.Args[0]
			}
			return c.intern(&Term{Op: "emb", Aux: fn, Kind: KPtr, Args: []*Term{root}, Typ: typ})
		}
	}
	return c.intern(&Term{Op: "sel", Aux: class, Kind: kindOf(typ), Args: []*Term{mem, p}, Typ: typ})
}

func (c *Ctx) Store(mem, p, v *Term, class string, typ types.Type) *Term {
	if p.Op == "ite" {
		// conditional store
		return c.Store(c.Store(mem, p.Args[2], c.Ite(p.Args[0], c.Sel(mem, p.Args[2], class, typ), v), class, typ),
			p.Args[1], c.Ite(p.Args[0], v, c.Sel(mem, p.Args[1], class, typ)), class, typ)
	}
	if p.Op == "nil" {
		return mem
	}
	if mem.Op == "store" && mem.Args[1] == p {
		return c.Store(mem.Args[0], p, v, class, typ)
	}
	if old := c.Sel(mem, p, class, typ); v == old || v.Op == "bdd" && v.Args[0] == old && v.Args[1] == c.True && v.Args[2] == c.False {
		return mem
	}
	return c.intern(&Term{Op: "store", Aux: class, Kind: KMem, Args: []*Term{mem, p, v}, Typ: typ})
}

func (c *Ctx) iteMem(f, g, h *Term) *Term {
	if g.Op == "store" && h.Op == "store" && g.Args[1] == h.Args[1] {
		m := c.Ite(f, g.Args[0], h.Args[0])
		return c.Store(m, g.Args[1], c.Ite(f, g.Args[2], h.Args[2]), g.Aux, g.Typ)
	}
	base := func(t *Term) (*Term, int) {
		n := 0
		for t.Op == "store" {
			t = t.Args[0]
			n++
		}
		return t, n
	}
	bg, ng := base(g)
	bh, nh := base(h)
	if bg == bh {
		if ng > nh {
			return c.Store(c.Ite(f, g.Args[0], h), g.Args[1], c.Ite(f, g.Args[2], c.Sel(c.Ite(f, g.Args[0], h), g.Args[1], g.Aux, g.Typ)), g.Aux, g.Typ)
		}
		if nh > ng {
			return c.Store(c.Ite(f, g, h.Args[0]), h.Args[1], c.Ite(f, c.Sel(c.Ite(f, g, h.Args[0]), h.Args[1], h.Aux, h.Typ), h.Args[2]), h.Aux, h.Typ)
		}
	}
	return nil
}

// tieSelf replaces the marker for the enclosing record.
func (c *Ctx) tieSelf(t, rec *Term) *Term {
	if t.Op == "selfref" {
		return rec
	}
	if t.Op == "closure" {
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = c.tieSelf(a, rec)
			ch = ch || args[i] != a
		}
		if ch {
			return c.intern(&Term{Op: "closure", Aux: t.Aux, Kind: t.Kind, Args: args, Val: t.Val, Typ: t.Typ})
		}
	}
	return t
}

// ---------------------------------------------------------------- numeric operations

// I2F converts an integer to a float.
func (c *Ctx) I2F(t *Term, k Kind) *Term {
	if t.IsConst() {
		f, _ := t.Rat.Float64()
		return c.FConst(k, f)
	}
	switch t.Op {
	case "poly":
		r := c.FConst(k, 0)
		for _, m := range t.Monos {
			p := c.Const(k, m.c)
			for _, f := range m.fs {
				for i := 0; i < f.e; i++ {
					p = c.Mul(p, c.I2F(f.t, k))
				}
			}
			r = c.Add(r, p)
		}
		return r
	case "ite":
		return c.Ite(t.Args[0], c.I2F(t.Args[1], k), c.I2F(t.Args[2], k))
	}
	return c.mk("i2f", "", k, t)
}

func (c *Ctx) ToF32(t *Term) *Term {
	if t.Kind == KF32 {
		return t
	}
	if t.IsConst() {
		f, _ := t.Rat.Float64()
		return c.FConst(KF32, float64(float32(f)))
	}
	switch t.Op {
	case "f64":
		return t.Args[0]
	case "ite":
		return c.Ite(t.Args[0], c.ToF32(t.Args[1]), c.ToF32(t.Args[2]))
	case "nan", "inf":
		return c.mk(t.Op, t.Aux, KF32)
	case "i2f":
		return c.mk("i2f", "", KF32, t.Args[0])
	case "abs":
		return c.Abs(c.ToF32(t.Args[0]))
	case "fmin", "fmax": // rounding is monotonic
		args := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			args[i] = c.ToF32(a)
		}
		return c.MinMax(t.Op, args...)
	}
	if t.Op == "poly" {
		wide := true
		for _, m := range t.Monos {
			for _, f := range m.fs {
				if !narrow(f.t, 6) {
					wide = false
				}
			}
		}
		if wide {
			return c.mapPoly(t, KF32, c.ToF32)
		}
	}
	if n := negOf(t); n {
		return c.Neg(c.ToF32(c.Neg(t)))
	}
	return c.mk("f32", "", KF32, t)
}

// narrow: a float64 value computed from float32 values only.
func narrow(t *Term, d int) bool {
	if d == 0 {
		return false
	}
	switch t.Op {
	case "f64", "const":
		return true
	case "ite":
		return narrow(t.Args[1], d-1) && narrow(t.Args[2], d-1)
	case "fmin", "fmax", "abs":
		for _, a := range t.Args {
			if !narrow(a, d-1) {
				return false
			}
		}
		return true
	case "poly":
		for _, m := range t.Monos {
			for _, f := range m.fs {
				if !narrow(f.t, d-1) {
					return false
				}
			}
		}
		return true
	}
	return false
}

func (c *Ctx) mapPoly(t *Term, k Kind, g func(*Term) *Term) *Term {
	r := c.Const(k, new(big.Rat))
	for _, m := range t.Monos {
		p := c.Const(k, m.c)
		for _, f := range m.fs {
			x := g(f.t)
			e := f.e
			if e < 0 {
				x = c.Inv(x)
				e = -e
			}
			for i := 0; i < e; i++ {
				p = c.Mul(p, x)
			}
		}
		r = c.Add(r, p)
	}
	return r
}

func negOf(t *Term) bool {
	l := leadMono(monosOf(t))
	return l != nil && l.c.Sign() < 0
}

func (c *Ctx) ToF64(t *Term) *Term {
	if t.Kind == KF64 {
		return t
	}
	if t.IsConst() {
		f, _ := t.Rat.Float64()
		return c.FConst(KF64, float64(float32(f)))
	}
	switch t.Op {
	case "ite":
		return c.Ite(t.Args[0], c.ToF64(t.Args[1]), c.ToF64(t.Args[2]))
	case "nan", "inf":
		return c.mk(t.Op, t.Aux, KF64)
	case "abs":
		return c.Abs(c.ToF64(t.Args[0]))
	case "fmin", "fmax":
		args := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			args[i] = c.ToF64(a)
		}
		return c.MinMax(t.Op, args...)
	}
	if t.Op == "poly" { // arithmetic is exact in this model
		return c.mapPoly(t, KF64, c.ToF64)
	}
	return c.mk("f64", "", KF64, t)
}

// Trunc converts a float to an integer.
func (c *Ctx) Trunc(t *Term) *Term {
	if t.IsConst() {
		f, _ := t.Rat.Float64()
		return c.Int(int64(f))
	}
	switch t.Op {
	case "i2f":
		return t.Args[0]
	case "ite":
		return c.Ite(t.Args[0], c.Trunc(t.Args[1]), c.Trunc(t.Args[2]))
	case "f64", "f32":
		if t.Args[0].Op == "i2f" {
			return t.Args[0].Args[0]
		}
	}
	return c.mk("trunc", "", KInt, t)
}

// IDiv and IRem are truncated integer division.
func (c *Ctx) IDiv(a, b *Term) *Term {
	if x, ok := a.IntVal(); ok {
		if y, ok := b.IntVal(); ok && y != 0 {
			return c.Int(x / y)
		}
	}
	if y, ok := b.IntVal(); ok && y == 1 {
		return a
	}
	return c.mk("quo", "", KInt, a, b)
}

func (c *Ctx) IRem(a, b *Term) *Term {
	if x, ok := a.IntVal(); ok {
		if y, ok := b.IntVal(); ok && y != 0 {
			return c.Int(x % y)
		}
	}
	if y, ok := b.IntVal(); ok {
		if y == 1 {
			return c.Int(0)
		}
		if y == 2 && c.nonNeg(a) { // parity
			return c.Bitwise("and", a, c.Int(1))
		}
	}
	return c.mk("rem", "", KInt, a, b)
}

func (c *Ctx) Shl(a, b *Term) *Term {
	if n, ok := b.IntVal(); ok && n >= 0 && n < 62 {
		if a.Op == "and" || a.Op == "or" {
			// keep as mask where possible
			return c.Mul(a, c.Int(1<<uint(n)))
		}
		return c.Mul(a, c.Int(1<<uint(n)))
	}
	if b.Op == "ite" {
		return c.Ite(b.Args[0], c.Shl(a, b.Args[1]), c.Shl(a, b.Args[2]))
	}
	return c.mk("shl", "", KInt, a, b)
}

func (c *Ctx) Shr(a, b *Term) *Term {
	if n, ok := b.IntVal(); ok {
		if n == 0 {
			return a
		}
		if x, ok := a.IntVal(); ok && n < 64 {
			return c.Int(x >> uint(n))
		}
		if a.Op == "shr" {
			return c.Shr(a.Args[0], c.Add(a.Args[1], b))
		}
		if a.Op == "and" || a.Op == "or" {
			// shifts distribute over bit operations
			r := c.Bitwise(a.Op, c.Shr(a.Args[0], b), c.Shr(a.Args[1], b))
			return r
		}
		if a.Op == "ite" {
			return c.Ite(a.Args[0], c.Shr(a.Args[1], b), c.Shr(a.Args[2], b))
		}
	}
	return c.mk("shr", "", KInt, a, b)
}

// Pow, Sqrt and friends

func (c *Ctx) Call(name string, k Kind, args ...*Term) *Term { return c.mk("call", name, k, args...) }

func (c *Ctx) Pow(a, b *Term) *Term {
	if n, ok := b.IntVal(); ok && n >= -8 && n <= 64 {
		r := c.FConst(a.Kind, 1)
		m := n
		if m < 0 {
			m = -m
		}
		for i := int64(0); i < m; i++ {
			r = c.Mul(r, a)
		}
		if n < 0 {
			r = c.Inv(r)
		}
		return r
	}
	if b.IsConst() && a.IsConst() && a.Rat.Sign() > 0 {
		return c.foldF("Pow", a, b)
	}
	if b.Op == "ite" && constLeaves(b, 3) {
		return c.Ite(b.Args[0], c.Pow(a, b.Args[1]), c.Pow(a, b.Args[2]))
	}
	return c.Call("math.Pow", KF64, a, b)
}

func (c *Ctx) Abs(a *Term) *Term {
	if a.IsConst() {
		if a.Rat.Sign() < 0 {
			return c.Neg(a)
		}
		return a
	}
	if a.Op == "abs" {
		return a
	}
	if negOf(a) {
		a = c.Neg(a)
	}
	return c.mk("abs", "", a.Kind, a)
}

var _ = fmt.Sprint

func (c *Ctx) foldF(name string, a ...*Term) *Term {
	var v []float64
	for _, x := range a {
		f, _ := x.Rat.Float64()
		v = append(v, f)
	}
	if r, ok := foldMath(name, v); ok {
		return c.FConst(KF64, r)
	}
	return c.Call("math."+name, KF64, a...)
}
