package vg

import (
	"fmt"
	"os"
)

var conflDebug = os.Getenv("VG_CONFL") != ""

// conflCheck (development) looks for terms whose normal form depends on the
// names of the variables in them.
func (c *Ctx) conflCheck(t *Term, to map[*Term]*Term) {
	for round := 0; round < 3; round++ {
		a, b := map[*Term]*Term{}, map[*Term]*Term{}
		for k, v := range to {
			f := c.Fresh(fmt.Sprint("q", round), k.Kind, k.Typ)
			a[k] = f
			b[f] = v
		}
		s1, s2, s0 := c.NewSubst(a), c.NewSubst(b), c.NewSubst(to)
		ok := func(t *Term) bool { return s2.Apply(s1.Apply(t)) == s0.Apply(t) }
		if ok(t) {
			continue
		}
		seen := map[*Term]bool{}
		var walk func(t *Term)
		walk = func(t *Term) {
			if seen[t] {
				return
			}
			seen[t] = true
			if ok(t) {
				return
			}
			bad := false
			sub := func(x *Term) {
				if !ok(x) {
					bad = true
					walk(x)
				}
			}
			for _, x := range t.Args {
				sub(x)
			}
			for _, m := range t.Monos {
				for _, x := range m.fs {
					sub(x.t)
				}
			}
			if !bad {
				println("NONCONFL", t.Op, c.Show(t, 7), "\n   ", c.Show(s0.Apply(t), 7), "\n   ", c.Show(s2.Apply(s1.Apply(t)), 7))
			}
		}
		walk(t)
		return
	}
}
