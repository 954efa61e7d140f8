package vg

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var purePkgs = map[string]bool{
	"math": true, "strings": true, "strconv": true, "unicode": true, "unicode/utf8": true, "bytes": true,
	"math/bits": true, "cmp": true, "errors": true, "fmt": true, "path": true, "path/filepath": true, "io": true, "bufio": true,
	"golang.org/x/text/transform": true, "golang.org/x/text/encoding/unicode": true, "golang.org/x/text/encoding": true, "slices": true, "sort": true,
}

func strConst(t *Term) (string, bool) {
	if t.Op == "str" {
		return t.Aux, true
	}
	return "", false
}

// std models functions outside the repository.
func (e *Ev) std(st *State, fn *ssa.Function, args []*Term) *Term {
	c := e.c
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	sig := fn.Signature
	pure := func() *Term { return e.opaqueCall(st, name, args, sig) }
	fold := func() *Term {
		all := true
		for _, a := range args {
			if !a.IsConst() {
				all = false
			}
		}
		if all {
			return c.foldF(strings.TrimPrefix(name, "math."), args...)
		}
		if len(args) == 1 && args[0].Op == "ite" && constLeaves(args[0], 6) {
			it := args[0]
			return c.Ite(it.Args[0], e.std(st, fn, []*Term{it.Args[1]}), e.std(st, fn, []*Term{it.Args[2]}))
		}
		return c.Call(name, KF64, args...)
	}
	switch name {
	case "math.Max":
		return c.MinMax("fmax", args...)
	case "math.Min":
		return c.MinMax("fmin", args...)
	case "math.Pow":
		return c.Pow(args[0], args[1])
	case "math.Abs":
		return c.Abs(args[0])
	case "math.Sqrt":
		return c.Sqrt(args[0])
	case "math.IsNaN":
		return c.IsNaN(args[0])
	case "math.NaN":
		return c.mk("nan", "", KF64)
	case "math.Inf":
		if n, ok := args[0].IntVal(); ok {
			if n >= 0 {
				return c.FConst(KF64, math.Inf(1))
			}
			return c.FConst(KF64, math.Inf(-1))
		}
	case "math.IsInf":
		if n, ok := args[1].IntVal(); ok {
			p := c.Eq(args[0], c.FConst(KF64, math.Inf(1)))
			m := c.Eq(args[0], c.FConst(KF64, math.Inf(-1)))
			switch {
			case n > 0:
				return p
			case n < 0:
				return m
			}
			return c.Or(p, m)
		}
	case "math.Trunc":
		return fold()
	case "math.Hypot":
		return c.Sqrt(c.Add(c.Mul(args[0], args[0]), c.Mul(args[1], args[1])))
	case "math.Exp2":
		return c.Pow(c.FConst(KF64, 2), args[0])
	case "math.Sin", "math.Tan", "math.Asin", "math.Atan": // odd functions
		if len(args) == 1 && negOf(args[0]) && !args[0].IsConst() && len(monosOf(args[0])) == 1 {
			return c.Neg(e.std(st, fn, []*Term{c.Neg(args[0])}))
		}
		return fold()
	case "math.Cos":
		if negOf(args[0]) && !args[0].IsConst() && len(monosOf(args[0])) == 1 {
			return e.std(st, fn, []*Term{c.Neg(args[0])})
		}
		return fold()
	case "math.Float64bits", "math.Float64frombits", "math.Float32bits", "math.Float32frombits", "math.Signbit":
		return pure()
	case "math.Modf", "math.Frexp", "math.Sincos", "math.Lgamma":
		return pure()

	case "strings.Split":
		return e.opaqueCall(st, "strings.SplitN", []*Term{args[0], args[1], c.Int(-1)}, sig)
	case "strings.Replace":
		if n, ok := args[3].IntVal(); ok && n < 0 {
			return c.Call("strings.ReplaceAll", KStr, args[:3]...)
		}
	case "strings.ReplaceAll":
		return c.Call(name, KStr, args...)
	case "strings.ToLower", "strings.ToUpper", "strings.TrimSpace":
		if s, ok := strConst(args[0]); ok {
			switch name {
			case "strings.ToLower":
				return c.Str(strings.ToLower(s))
			case "strings.ToUpper":
				return c.Str(strings.ToUpper(s))
			}
			return c.Str(strings.TrimSpace(s))
		}
		if args[0].Op == "call" && args[0].Aux == name { // idempotent
			return args[0]
		}
		return c.Call(name, KStr, args...)
	case "strings.HasPrefix":
		return e.hasPrefix(args[0], args[1])
	case "strings.HasSuffix":
		if a, ok := strConst(args[0]); ok {
			if b, ok := strConst(args[1]); ok {
				return c.Bool(strings.HasSuffix(a, b))
			}
		}
		return c.Call(name, KBool, args...)
	case "strings.Contains":
		if a, ok := strConst(args[0]); ok {
			if b, ok := strConst(args[1]); ok {
				return c.Bool(strings.Contains(a, b))
			}
		}
		return c.Call(name, KBool, args...)
	case "strings.Index", "strings.IndexByte", "strings.IndexRune":
		// index < 0 is "does not contain": kept as an opaque number
		return c.Call(name, KInt, args...)
	case "strings.TrimPrefix":
		// s without the prefix if it has it
		p := args[1]
		return c.Ite(e.hasPrefix(args[0], p), c.Sub3(args[0], c.Len(p), c.Len(args[0])), args[0])
	case "strings.TrimSuffix":
		p := args[1]
		return c.Ite(c.Call("strings.HasSuffix", KBool, args...), c.Sub3(args[0], c.Int(0), c.Sub(c.Len(args[0]), c.Len(p))), args[0])
	case "strings.Trim":
		return c.Call("strings.TrimRight", KStr, c.Call("strings.TrimLeft", KStr, args[0], args[1]), args[1])
	case "strings.EqualFold":
		if args[0].Key > args[1].Key {
			args = []*Term{args[1], args[0]}
		}
		return c.Call(name, KBool, args...)
	case "strings.Join":
		return c.Call(name, KStr, e.content(st, args[0]), args[1])
	case "strings.Repeat":
		return c.Call(name, KStr, args...)
	case "strconv.Atoi":
		return e.parseInt(args[0], c.Int(10), c.Int(64), sig.Results())
	case "strconv.ParseInt":
		bs := args[2]
		if n, ok := bs.IntVal(); ok && n == 0 {
			bs = c.Int(64)
		}
		return e.parseInt(args[0], args[1], bs, sig.Results())
	case "strconv.Itoa":
		return c.Call("itoa", KStr, args[0])
	case "strconv.FormatInt":
		if n, ok := args[1].IntVal(); ok && n == 10 {
			return c.Call("itoa", KStr, args[0])
		}
	case "errors.New", "fmt.Errorf":
		// the text of an error is not part of any property
		return c.Call("errors.New", KOther)
	case "fmt.Println", "fmt.Printf", "fmt.Print", "log.Println", "log.Printf", "log.Print", "fmt.Fprintf", "fmt.Fprintln":
		return e.opaqueCall(st, name, nil, sig)

	case "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc":
		return e.sortSlice(st, name, args[0], args[1])
	case "sort.Float64s", "sort.Ints", "sort.Strings", "slices.Sort":
		return e.sortScalars(st, args[0], false)
	case "sort.Sort", "sort.Stable":
		return e.sortIface(st, args[0], false, name == "sort.Stable")
	case "sort.Reverse":
		return e.c.Call(name, KOther, args[0])
	case "sort.Search":
		return e.search(st, args[0], args[1])
	case "slices.Reverse":
		return e.reverse(st, args[0])

	case "bytes.NewReader", "bytes.NewBuffer", "strings.NewReader", "bytes.NewBufferString":
		return e.opaqueCall(st, name, args, sig)
	case "bufio.NewScanner":
		r := e.purify(st, args[0], 0)
		t := c.intern(&Term{Op: "call", Aux: name, Kind: KPtr, Args: []*Term{r}, Typ: sig.Results().At(0).Type()})
		st.eff[t.Key] = c.mk("scan0", "", KOther, t)
		return t
	}
	if strings.HasPrefix(name, "(*bufio.Scanner).") {
		return e.scanner(st, strings.TrimPrefix(name, "(*bufio.Scanner)."), args)
	}
	if strings.HasPrefix(name, "(*strings.Builder).") || strings.HasPrefix(name, "(*bytes.Buffer).") {
		return e.builder(st, name[strings.LastIndex(name, ".")+1:], args, sig)
	}
	if strings.HasPrefix(name, "(*sync.") {
		if strings.HasSuffix(name, ").Do") && strings.Contains(name, "Once") {
			undecided("%s: sync.Once", e.pos(c.CurPos))
		}
		return c.Nil()
	}
	p := fnPkg(fn)
	if p != nil && purePkgs[p.Path()] {
		if p.Path() == "math" {
			if rs := sig.Results(); rs.Len() == 1 && kindOf(rs.At(0).Type()) == KF64 {
				return fold()
			}
		}
		return pure()
	}
	// time, random numbers, files: a value that is never equal to another
	if p != nil {
		switch p.Path() {
		case "time", "math/rand", "math/rand/v2", "os", "runtime", "crypto/rand":
			e.uid++
			return e.opaqueCall(st, fmt.Sprintf("nondeterministic:%s#%d", name, e.uid), args, sig)
		}
	}
	undecided("%s: call of %s is not modelled", e.pos(c.CurPos), name)
	return nil
}

func (e *Ev) hasPrefix(s, p *Term) *Term {
	c := e.c
	if b, ok := strConst(p); ok {
		if b == "" {
			return c.True
		}
		if a, ok := strConst(s); ok {
			return c.Bool(strings.HasPrefix(a, b))
		}
	}
	return c.Call("strings.HasPrefix", KBool, s, p)
}

func (e *Ev) parseInt(s, base, bits *Term, typ types.Type) *Term {
	c := e.c
	tup := types.NewTuple(types.NewVar(0, nil, "", types.Typ[types.Int64]), types.NewVar(0, nil, "", types.Universe.Lookup("error").Type()))
	t := c.intern(&Term{Op: "call", Aux: "strconv.ParseInt", Kind: KOther, Args: []*Term{s, base, bits}, Typ: tup})
	return c.Struct("tuple", tup, []*Term{c.Ext(t, 0, types.Typ[types.Int64]), c.Ext(t, 1, tup.At(1).Type())})
}

// Sqrt of a real.
func (c *Ctx) Sqrt(a *Term) *Term {
	if a.IsConst() && a.Rat.Sign() >= 0 {
		return c.foldF("Sqrt", a)
	}
	return c.Call("math.Sqrt", KF64, a)
}

// ---------------------------------------------------------------- sorting and searching

func (e *Ev) asSlice(st *State, x *Term) *Term {
	if x.Op == "iface" {
		x = x.Args[0]
	}
	switch x.Op {
	case "sl", "nil":
		return x
	}
	if x.Kind == KSeq {
		return e.view(st, x, x.Typ)
	}
	undecided("%s: sort of %s", e.pos(e.c.CurPos), x.Op)
	return nil
}

func (e *Ev) sortSlice(st *State, name string, x, less *Term) *Term {
	c := e.c
	s := e.asSlice(st, x)
	if s.Op == "nil" {
		return c.Nil()
	}
	A := e.content(st, s)
	et := elemType(s.Typ)
	a := c.Fresh("x", kindOf(et), et)
	b := c.Fresh("y", kindOf(et), et)
	var body *Term
	if strings.HasPrefix(name, "slices.") {
		t := st.clone()
		r := e.dyn(t, less, []*Term{a, b}, less.Typ.(*types.Signature))
		body = c.Lt0(r)
	} else {
		S := c.Fresh("S", KSeq, s.Typ)
		i := c.Fresh("i", KInt, nil)
		j := c.Fresh("j", KInt, nil)
		t := st.clone()
		uid := uidOf(s.Args[0])
		t.objs[uid] = S
		if _, ok := e.homes[uid]; ok { // also reachable through its field
			e.noteWrite(t, uid)
		}
		if less.Op != "closure" {
			undecided("%s: sort by an unknown order", e.pos(c.CurPos))
		}
		outer := e.path
		if e.Collect {
			n := c.Sub(s.Args[2], s.Args[1])
			if c.permOf == nil {
				c.permOf = map[*Term]*Term{}
			}
			c.permOf[S] = st.objs[uid]
			e.path = append(outer[:len(outer):len(outer)], c.Eq(c.Len(S), c.Len(st.objs[uid])), c.within(i, n), c.within(j, n))
		}
		r := e.dyn(t, less, []*Term{i, j}, less.Typ.(*types.Signature))
		e.path = outer
		if r == nil {
			undecided("%s: order function never returns", e.pos(c.CurPos))
		}
		sub := c.NewSubst(map[*Term]*Term{
			c.Get(S, c.Add(s.Args[1], i), et): a, c.Get(S, c.Add(s.Args[1], j), et): b})
		body = sub.Apply(r)
		for _, f := range body.Free {
			if f == i || f == j || f == S {
				undecided("%s: sort order depends on positions", e.pos(c.CurPos))
			}
		}
	}
	stable := strings.Contains(name, "Stable")
	if !isNum(kindOf(et)) {
		if S, x, elem := c.mapOver(A); S != nil {
			// sorting the images of a sequence is taking the images of the sorted sequence
			a2, b2 := c.Fresh("x", x.Kind, x.Typ), c.Fresh("y", x.Kind, x.Typ)
			under := c.Subst(body, map[*Term]*Term{a: c.Subst(elem, map[*Term]*Term{x: a2}), b: c.Subst(elem, map[*Term]*Term{x: b2})})
			sorted := e.sortedSeq(S, c.Lam([]*Term{a2, b2}, under), stable, x.Typ, S.Typ)
			level := 1 + c.enclosing([]*Term{x}, elem)
			r := c.Tab(level, c.Len(A), c.Subst(elem, map[*Term]*Term{x: c.Get(sorted, c.K(level), x.Typ)}), s.Typ)
			e.writeRange(st, s, r)
			return c.Nil()
		}
	}
	e.writeSorted(st, s, A, c.Lam([]*Term{a, b}, body), stable, et)
	return c.Nil()
}

// mapOver recognises a sequence that has one element for every element of S,
// which depends on that element only.
func (c *Ctx) mapOver(A *Term) (S, x, elem *Term) {
	if A.Op != "tab" {
		return nil, nil, nil
	}
	n, b, level := A.Args[0], A.Args[1], A.BL
	K := c.K(level)
	c.eachSub(b, func(t *Term) {
		if S == nil && t.Op == "get" && t.Args[1] == K && t.Typ != nil && !hasLevel(t.Args[0], level) && c.Len(t.Args[0]) == n {
			S, x = t.Args[0], t
		}
	})
	if S == nil {
		return nil, nil, nil
	}
	f := c.Fresh("x", x.Kind, x.Typ)
	elem = c.Subst(b, map[*Term]*Term{x: f})
	if hasLevel(elem, level) {
		return nil, nil, nil
	}
	return S, f, elem
}

func (e *Ev) writeSorted(st *State, s, A, lam *Term, stable bool, et types.Type) {
	e.writeRange(st, s, e.sortedSeq(A, lam, stable, et, s.Typ))
}

func (e *Ev) sortedSeq(A, lam *Term, stable bool, et, typ types.Type) *Term {
	c := e.c
	op := "sorted"
	if stable && !isNum(kindOf(et)) {
		op = "ssorted"
	}
	var r *Term
	if A.Op == "seq0" || A.Op == "nil" || A.Op == "app" && A.Args[0].Op == "seq0" {
		r = A
	} else {
		// sorting a permutation of a sequence of numbers
		base := A
		for (base.Op == "sorted") && op == "sorted" && isNum(kindOf(et)) {
			base = base.Args[0]
		}
		r = c.intern(&Term{Op: op, Kind: KSeq, Args: []*Term{base, lam}, Typ: typ})
	}
	return r
}

func (e *Ev) lessLam(k Kind, typ types.Type, desc bool) *Term {
	c := e.c
	a := c.Fresh("x", k, typ)
	b := c.Fresh("y", k, typ)
	x, y := a, b
	if desc {
		x, y = b, a
	}
	var body *Term
	if k == KStr {
		body = c.strLess(x, y)
	} else {
		body = c.Lt0(c.Sub(x, y))
	}
	return c.Lam([]*Term{a, b}, body)
}

func (e *Ev) sortScalars(st *State, x *Term, desc bool) *Term {
	s := e.asSlice(st, x)
	if s.Op == "nil" {
		return e.c.Nil()
	}
	et := elemType(s.Typ)
	e.writeSorted(st, s, e.content(st, s), e.lessLam(kindOf(et), et, desc), false, et)
	return e.c.Nil()
}

func (e *Ev) sortIface(st *State, x *Term, desc, stable bool) *Term {
	c := e.c
	if x.Op == "call" && x.Aux == "sort.Reverse" {
		return e.sortIface(st, x.Args[0], !desc, stable)
	}
	if x.Op == "iface" {
		switch x.Aux {
		case "sort.Float64Slice", "sort.IntSlice", "sort.StringSlice":
			return e.sortScalars(st, x.Args[0], desc)
		}
	}
	undecided("%s: sort of %s", e.pos(c.CurPos), x.Aux)
	return nil
}

func (e *Ev) search(st *State, n, f *Term) *Term {
	c := e.c
	if f.Op != "closure" {
		undecided("%s: search with an unknown test", e.pos(c.CurPos))
	}
	i := c.Fresh("i", KInt, nil)
	t := st.clone()
	outer := e.path
	if e.Collect {
		e.path = append(outer[:len(outer):len(outer)], c.within(i, n))
	}
	r := e.dyn(t, f, []*Term{i}, f.Typ.(*types.Signature))
	e.path = outer
	if r == nil {
		undecided("%s: search test never returns", e.pos(c.CurPos))
	}
	return c.Search(n, c.Lam([]*Term{i}, r))
}

// Search is the first of n indices for which a test holds; the test is only
// made for indices below n.
func (c *Ctx) Search(n, lam *Term) *Term {
	if n.IsConst() && n.Rat.Sign() == 0 {
		return c.Int(0)
	}
	if n.Op == "ite" {
		return c.Ite(n.Args[0], c.Search(n.Args[1], lam), c.Search(n.Args[2], lam))
	}
	i := c.Fresh("i", KInt, nil)
	m := map[*Term]*Term{}
	for _, f := range lam.Args[0].Free {
		if f.Op == "bvc" && f.BL == lam.BL {
			m[f] = i
		}
	}
	body := c.Subst(lam.Args[0], m)
	b := c.assumeLess(body, c.Lt0(c.Sub(i, n)), true)
	b = c.assumeLess(b, c.Lt0(i), false)
	if b != body {
		lam = c.Lam([]*Term{i}, b)
	}
	return c.intern(&Term{Op: "search", Kind: KInt, Args: []*Term{n, lam}})
}

// assumeLess is t when a comparison of integers has the given result.
func (c *Ctx) assumeLess(t, lt *Term, v bool) *Term {
	if lt.Op == "bdd" && lt.Args[1] == c.False && lt.Args[2] == c.True {
		lt, v = lt.Args[0], !v
	}
	if lt.Op != "ilt" {
		return t
	}
	return c.AssumeDeep(t, lt, v)
}

func (e *Ev) reverse(st *State, x *Term) *Term {
	c := e.c
	s := e.asSlice(st, x)
	if s.Op == "nil" {
		return c.Nil()
	}
	A := e.content(st, s)
	e.writeRange(st, s, c.intern(&Term{Op: "call", Aux: "reverse", Kind: KSeq, Args: []*Term{A}, Typ: s.Typ}))
	return c.Nil()
}

// ---------------------------------------------------------------- readers and builders

func (e *Ev) scanner(st *State, m string, args []*Term) *Term {
	c := e.c
	k := args[0].Key
	cur := st.eff[k]
	if cur == nil {
		cur = c.mk("scan0", "", KOther, args[0])
	}
	switch m {
	case "Buffer":
		// lines up to 10 MiB can be read, or up to a shorter limit
		limit := args[2]
		{
			n := e.builtinCap(st, args[1])
			limit = c.Ite(c.Lt0(c.Sub(limit, n)), n, limit)
		}
		if n, ok := limit.IntVal(); ok && n >= 10<<20 {
			limit = c.Int(10 << 20)
		}
		st.eff[k] = c.mk("scanlimit", "", KOther, cur, limit)
		return c.Nil()
	case "Split":
		st.eff[k] = c.mk("scansplit", "", KOther, cur, args[1])
		return c.Nil()
	case "Scan":
		st.eff[k] = c.mk("scanned", "", KOther, cur)
		return c.Call("Scan", KBool, cur)
	case "Text":
		return c.Call("Text", KStr, cur)
	case "Bytes":
		return e.newSlice(st, c.mk("call", "bytes", KSeq, c.Call("Text", KStr, cur)), types.NewSlice(types.Typ[types.Uint8]))
	case "Err":
		return c.Call("ScanErr", KOther, cur)
	}
	undecided("%s: bufio.Scanner.%s", e.pos(c.CurPos), m)
	return nil
}

func (e *Ev) builder(st *State, m string, args []*Term, sig *types.Signature) *Term {
	c := e.c
	if args[0].Op != "obj" {
		undecided("%s: symbolic string builder", e.pos(c.CurPos))
	}
	u := uidOf(args[0])
	cur := st.objs[u]
	if cur.Op == "struct" {
		cur = c.Str("")
	}
	okErr := func(n *Term) *Term {
		if sig.Results().Len() == 2 {
			return c.Struct("tuple", sig.Results(), []*Term{n, c.Nil()})
		}
		return c.Nil()
	}
	switch m {
	case "WriteString":
		st.objs[u] = c.SCat(cur, args[1])
		return okErr(c.Len(args[1]))
	case "WriteByte", "WriteRune":
		x := c.Call("chr", KStr, args[1])
		if n, ok := args[1].IntVal(); ok {
			x = c.Str(string(rune(n)))
		}
		st.objs[u] = c.SCat(cur, x)
		return okErr(c.Int(1))
	case "String":
		return cur
	case "Len":
		return c.Len(cur)
	case "Reset":
		st.objs[u] = c.Str("")
		return c.Nil()
	case "Grow":
		return c.Nil()
	}
	undecided("%s: builder method %s", e.pos(c.CurPos), m)
	return nil
}
