package vg

import (
	"fmt"
	"strings"
)

// Show prints a term down to a depth.
func (c *Ctx) Show(t *Term, depth int) string {
	var b strings.Builder
	c.show(&b, t, depth)
	return b.String()
}

func (c *Ctx) show(b *strings.Builder, t *Term, depth int) {
	switch t.Op {
	case "const":
		if t.Kind == KInt {
			b.WriteString(t.Rat.RatString())
			return
		}
		f, _ := t.Rat.Float64()
		fmt.Fprintf(b, "%g", f)
		return
	case "str":
		fmt.Fprintf(b, "%q", t.Aux)
		return
	case "true", "false", "nil", "seq0":
		b.WriteString(t.Op)
		return
	case "in":
		b.WriteString(t.Aux)
		return
	case "sym":
		b.WriteString("?" + t.Aux)
		return
	case "lvc":
		if t.Aux == "K" {
			fmt.Fprintf(b, "k%d", t.BL)
		} else {
			fmt.Fprintf(b, "s%d.%s", t.BL, HexKey(t)[:4])
		}
		return
	case "bvc":
		fmt.Fprintf(b, "v%d.%s", t.BL, t.Aux)
		return
	case "mem0":
		b.WriteString("M0")
		return
	}
	if depth <= 0 {
		fmt.Fprintf(b, "<%s#%s>", t.Op, HexKey(t)[:6])
		return
	}
	if t.Op == "poly" {
		b.WriteString("(")
		for i, m := range t.Monos {
			if i > 0 {
				b.WriteString(" + ")
			}
			first := true
			f64, _ := m.c.Float64()
			if m.c.Cmp(ratOne) != 0 || len(m.fs) == 0 {
				fmt.Fprintf(b, "%g", f64)
				first = false
			}
			for _, f := range m.fs {
				if !first {
					b.WriteString("*")
				}
				first = false
				c.show(b, f.t, depth-1)
				if f.e != 1 {
					fmt.Fprintf(b, "^%d", f.e)
				}
			}
		}
		b.WriteString(")")
		return
	}
	name := t.Op
	switch t.Op {
	case "sel":
		c.show(b, t.Args[1], depth-1)
		x := t.Aux
		if i := strings.LastIndex(x, "."); i >= 0 {
			x = x[i:]
		}
		b.WriteString(x)
		if t.Args[0].Op != "mem0" {
			b.WriteString("@")
			c.show(b, t.Args[0], depth-1)
		}
		return
	case "fld":
		c.show(b, t.Args[0], depth-1)
		b.WriteString("." + t.Aux)
		return
	case "get":
		c.show(b, t.Args[0], depth-1)
		b.WriteString("[")
		c.show(b, t.Args[1], depth-1)
		b.WriteString("]")
		return
	case "call", "is", "ext", "unbox", "iface", "struct", "emb":
		name = t.Op + ":" + t.Aux
		if t.Op == "call" {
			name = t.Aux
		}
		if i := strings.LastIndex(name, "/"); i >= 0 {
			name = t.Op + ":" + name[i+1:]
		}
	case "bit":
		name = "bit" + t.Aux
	}
	b.WriteString(name + "(")
	for i, a := range t.Args {
		if i > 0 {
			b.WriteString(", ")
		}
		if a == nil {
			b.WriteString("<nil>")
			continue
		}
		c.show(b, a, depth-1)
	}
	b.WriteString(")")
}

// ShowDeep also prints the stream definitions reachable from a term.
func (c *Ctx) ShowDeep(t *Term, depth int) string {
	var b strings.Builder
	b.WriteString(c.Show(t, depth))
	seen := map[*Term]bool{}
	var todo []*Term
	add := func(t *Term) {
		c.eachSub(t, func(x *Term) {
			if x.Op == "lvc" && x.Aux != "K" && !seen[x] {
				seen[x] = true
				todo = append(todo, x)
			}
		})
	}
	add(t)
	for len(todo) > 0 && len(seen) < 12 {
		v := todo[0]
		todo = todo[1:]
		d := c.loops[v.Key]
		if d == nil {
			continue
		}
		fmt.Fprintf(&b, "\n    where %s: init %s next %s", c.Show(v, 1), c.Show(d.init, depth), c.Show(d.next, depth))
		add(d.init)
		add(d.next)
	}
	return b.String()
}

// Diff finds a smallest pair of different subterms, for debugging.
func (c *Ctx) Diff(a, b *Term) string {
	if a == b {
		return "same"
	}
	if a.Op == b.Op && len(a.Args) == len(b.Args) {
		for i := range a.Args {
			if a.Args[i] != b.Args[i] {
				return fmt.Sprintf("%s/%d:%s", a.Op, i, c.Diff(a.Args[i], b.Args[i]))
			}
		}
	}
	return fmt.Sprintf("%s|%q|%c|%d|%v vs %s|%q|%c|%d|%v : %s :: %s", a.Op, a.Aux, a.Kind, a.BL, a.Typ, b.Op, b.Aux, b.Kind, b.BL, b.Typ, c.Show(a, 3), c.Show(b, 3))
}
