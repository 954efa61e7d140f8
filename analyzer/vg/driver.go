package vg

import (
	"fmt"
	"go/token"
	"go/types"
	"runtime/debug"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Pair is one obligation: two driver functions that must agree.
type Pair struct {
	Name   string
	Impl   *ssa.Function
	Ref    *ssa.Function
	Opaque []string
	Bind   map[string]Bound
	Mark   Bound
	Filled []string // fields of what it is given that are not empty
}

type PairResult struct {
	Name      string
	OK        bool
	Why       string // undecided reason or disagreement
	Undecided bool
	Pos       token.Pos
	ImplT     string
	RefT      string
	Fns       map[string]int
	Calls     int
	Loops     int
	Unrolled  int
	Branches  int
	Nodes     int
	Splits    int
	Steps     int
	Trivial   int // obligations that hold without a proof
	Secs      float64
	Digest    string
	Evals     [2]*Term
}

type Options struct {
	Repo  string
	Hide  string
	Limit int
	Dump  bool
	Depth int
}

// input makes a symbolic argument.
func (e *Ev) input(st *State, name string, t types.Type) *Term {
	c := e.c
	switch u := t.Underlying().(type) {
	case *types.Struct:
		args := make([]*Term, u.NumFields())
		for i := range args {
			args[i] = e.input(st, name+"."+u.Field(i).Name(), u.Field(i).Type())
		}
		return c.Struct(typeName(t), t, args)
	case *types.Slice:
		return e.view(st, c.In(name, KSeq, t), t)
	}
	return c.In(name, kindOf(t), t)
}

func (e *Ev) RunDriver(fn *ssa.Function) []*Term {
	st := e.global0.clone()
	var args []*Term
	for i, p := range fn.Params {
		args = append(args, e.input(st, fmt.Sprintf("%s", paramName(p, i)), p.Type()))
	}
	r := e.callFn(fn, args, nil, st)
	if st.dead {
		undecided("driver %s never returns", fn.Name())
	}
	rs := fn.Signature.Results()
	var out []*Term
	switch rs.Len() {
	case 0:
	case 1:
		out = append(out, e.purify(st, r, 0))
	default:
		for i := 0; i < rs.Len(); i++ {
			out = append(out, e.purify(st, e.c.Ext(r, i, rs.At(i).Type()), 0))
		}
	}
	return out
}

func paramName(p *ssa.Parameter, i int) string { return fmt.Sprintf("p%d", i) }

// Bound is a function called instead of another: which arguments of the other
// it is given, -1 for none.
type Bound struct {
	From, To *ssa.Function
	Args     []int
}

func (e *Ev) callBound(st *State, b Bound, args []*Term) *Term {
	ps := make([]*Term, len(b.Args))
	for i, a := range b.Args {
		if a >= 0 {
			ps[i] = args[a]
		} else {
			ps[i] = e.zero(b.To.Params[i].Type())
		}
	}
	return e.callFn(b.To, ps, nil, st)
}

// RunPair evaluates and compares one pair.
func RunPair(prog *ssa.Program, p Pair, o Options) (res *PairResult) {
	t0 := time.Now()
	res = &PairResult{Name: p.Name}
	c := NewCtx()
	if o.Limit > 0 {
		c.Limit = o.Limit
	}
	e := NewEv(c, prog, o.Repo)
	e.Hide = o.Hide
	for _, n := range p.Opaque {
		e.Opaque[n] = true
	}
	e.Bind, e.Mark = p.Bind, p.Mark
	depth := o.Depth
	if depth == 0 {
		depth = 4
	}
	defer func() {
		res.Secs = time.Since(t0).Seconds()
		res.Fns = e.Fns
		res.Calls, res.Loops, res.Unrolled, res.Branches, res.Nodes = e.CallSites, e.LoopsDone, e.Unrolled, e.Branches, c.Nodes
		if r := recover(); r != nil {
			res.OK = false
			res.Undecided = true
			if u, ok := r.(Undecided); ok {
				res.Why = u.Msg
				if o.Dump {
					res.Why += "\n" + string(debug.Stack())
				}
			} else {
				res.Why = fmt.Sprintf("internal error: %v", r)
				res.Why += "\n" + string(debug.Stack())
			}
			res.Pos = c.CurPos
			if len(e.stack) > 0 {
				var s []string
				for _, f := range e.stack {
					s = append(s, f.String())
				}
				res.Why += " (in " + strings.Join(s, " > ") + ")"
			}
		}
	}()
	e.InitGlobals()
	ia := e.RunDriver(p.Impl)
	e.infos = map[*ssa.Function]*fnInfo{}
	ra := e.RunDriver(p.Ref)
	if len(ia) != len(ra) {
		undecided("result counts differ")
	}
	if o.Dump {
		for i := range ia {
			fmt.Printf("IMPL[%d] %s\n", i, c.ShowDeep(ia[i], depth))
			fmt.Printf("REF [%d] %s\n", i, c.ShowDeep(ra[i], depth))
		}
	}
	res.OK = true
	for i := range ia {
		var m *Cmp
		ok := false
		for _, try := range []int{300, 1500, 6000} {
			m = c.NewCmp()
			m.Try = try
			ok = m.Equal(ia[i], ra[i])
			res.Splits += m.Splits
			res.Steps += m.Steps
			if ok || time.Since(t0) > 100*time.Second {
				break
			}
		}
		if !ok {
			res.OK = false
			in := func(p token.Pos) bool {
				return p.IsValid() && !strings.Contains(prog.Fset.Position(p).Filename, o.Hide)
			}
			a, b := m.DA, m.DB
			if a == nil {
				a, b = ia[i], ra[i]
			}
			res.Pos = c.Where(a, ra[i], in)
			if !res.Pos.IsValid() {
				res.Pos = c.Where(ia[i], ra[i], in)
			}
			res.ImplT = c.ShowDeep(a, depth)
			res.RefT = c.ShowDeep(b, depth)
			res.Why = fmt.Sprintf("result %d differs", i)
			for j, st := range m.Path {
				if j == 0 {
					res.Why += "\nwhen"
				}
				res.Why += fmt.Sprintf("\n  %v: %s", st.val, c.Show(st.cond, 6))
			}
			if o.Dump {
				res.Why += " " + c.Diff(a, b)
			}
			res.Digest = HexKey(a) + HexKey(b)
			break
		}
	}
	return res
}
