// Package c04 states the mod tables.
package c04

import "github.com/Wieku/gosu-pp/beatmap/difficulty"

const (
	nf = 1 << iota
	ez
	td
	hd
	hr
	sd
	dt
	rx
	ht
	nc
	fl
	at
	so
	ap
	pf
)

const (
	tg = 1 << 23
	v2 = 1 << 29
	dc = 1 << 31
)

func Impl_Compatible(m difficulty.Modifier) bool { return m.Compatible() }
func Ref_Compatible(m difficulty.Modifier) bool {
	any := func(x difficulty.Modifier) bool { return m&x != 0 }
	clash := any(tg)
	clash = clash || any(hr) && any(ez)
	clash = clash || any(dt|nc) && any(ht|dc)
	clash = clash || any(sd|pf) && any(nf)
	clash = clash || any(rx) && any(ap)
	clash = clash || any(rx|ap) && any(sd|pf|at|nf)
	clash = clash || any(ap) && any(so)
	return !clash
}

func Impl_Multiplier(m difficulty.Modifier) float64 { return m.GetScoreMultiplier() }
func Ref_Multiplier(m difficulty.Modifier) float64 {
	score2 := m&v2 != 0
	if m&(rx|ap) != 0 {
		return 0
	}
	r := 1.0
	if m&so != 0 {
		r *= 0.9
	}
	if m&fl != 0 {
		r *= 1.12
	}
	if m&dt != 0 {
		if score2 {
			r *= 1.2
		} else {
			r *= 1.12
		}
	}
	if m&hr != 0 {
		if score2 {
			r *= 1.1
		} else {
			r *= 1.06
		}
	}
	if m&hd != 0 {
		r *= 1.06
	}
	if m&ht != 0 {
		r *= 0.3
	}
	if m&ez != 0 {
		r *= 0.5
	}
	if m&nf != 0 && !score2 {
		r *= 0.5
	}
	return r
}

// The mod sets are those of the 32 flags and their unions.
func known(m difficulty.Modifier) difficulty.Modifier {
	return m & (1<<32 - 1)
}

func Impl_Active(m, x difficulty.Modifier) bool {
	m, x = known(m), known(x)
	return m.Active(x)
}
func Ref_Active(m, x difficulty.Modifier) bool {
	m, x = known(m), known(x)
	return m&x != 0
}

func Impl_CheckModActive(d difficulty.Difficulty, x difficulty.Modifier) bool {
	d.Mods, x = known(d.Mods), known(x)
	return d.CheckModActive(x)
}
func Ref_CheckModActive(d difficulty.Difficulty, x difficulty.Modifier) bool {
	d.Mods, x = known(d.Mods), known(x)
	return d.Mods&x != 0
}
