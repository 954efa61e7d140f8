// Package c01 states that the derived difficulty values never depend on
// the history of a Difficulty.
package c01

import "github.com/Wieku/gosu-pp/beatmap/difficulty"

// fresh is a new Difficulty with the given settings.
func fresh(hp, cs, od, ar float64, mods difficulty.Modifier, speed float64) difficulty.Difficulty {
	d := difficulty.NewDifficulty(hp, cs, od, ar)
	d.SetCustomSpeed(speed)
	d.SetMods(mods)
	return *d
}

// In every pair d is a Difficulty in an arbitrary state.

func Impl_SetHP(d difficulty.Difficulty, v float64) difficulty.Difficulty {
	d.SetHP(v)
	return d
}
func Ref_SetHP(d difficulty.Difficulty, v float64) difficulty.Difficulty {
	return fresh(v, d.GetCS(), d.GetOD(), d.GetAR(), d.Mods, d.CustomSpeed)
}

func Impl_SetCS(d difficulty.Difficulty, v float64) difficulty.Difficulty {
	d.SetCS(v)
	return d
}
func Ref_SetCS(d difficulty.Difficulty, v float64) difficulty.Difficulty {
	return fresh(d.GetHP(), v, d.GetOD(), d.GetAR(), d.Mods, d.CustomSpeed)
}

func Impl_SetOD(d difficulty.Difficulty, v float64) difficulty.Difficulty {
	d.SetOD(v)
	return d
}
func Ref_SetOD(d difficulty.Difficulty, v float64) difficulty.Difficulty {
	return fresh(d.GetHP(), d.GetCS(), v, d.GetAR(), d.Mods, d.CustomSpeed)
}

func Impl_SetAR(d difficulty.Difficulty, v float64) difficulty.Difficulty {
	d.SetAR(v)
	return d
}
func Ref_SetAR(d difficulty.Difficulty, v float64) difficulty.Difficulty {
	return fresh(d.GetHP(), d.GetCS(), d.GetOD(), v, d.Mods, d.CustomSpeed)
}

func Impl_SetMods(d difficulty.Difficulty, v difficulty.Modifier) difficulty.Difficulty {
	d.SetMods(v)
	return d
}
func Ref_SetMods(d difficulty.Difficulty, v difficulty.Modifier) difficulty.Difficulty {
	return fresh(d.GetHP(), d.GetCS(), d.GetOD(), d.GetAR(), v, d.CustomSpeed)
}

func Impl_SetCustomSpeed(d difficulty.Difficulty, v float64) difficulty.Difficulty {
	d.SetCustomSpeed(v)
	return d
}
func Ref_SetCustomSpeed(d difficulty.Difficulty, v float64) difficulty.Difficulty {
	return fresh(d.GetHP(), d.GetCS(), d.GetOD(), d.GetAR(), d.Mods, v)
}

// A new Difficulty has no mods and normal speed, and the getters return
// what was set, in whichever order it was set.

func Impl_New(hp, cs, od, ar float64) difficulty.Difficulty {
	return *difficulty.NewDifficulty(hp, cs, od, ar)
}
func Ref_New(hp, cs, od, ar float64) difficulty.Difficulty {
	return fresh(hp, cs, od, ar, difficulty.None, 1)
}

func Impl_Getters(d difficulty.Difficulty, hp, cs, od, ar, speed float64, m difficulty.Modifier) (float64, float64, float64, float64, float64, difficulty.Modifier) {
	d.SetHP(hp)
	d.SetCS(cs)
	d.SetOD(od)
	d.SetAR(ar)
	d.SetCustomSpeed(speed)
	d.SetMods(m)
	return d.GetHP(), d.GetCS(), d.GetOD(), d.GetAR(), d.CustomSpeed, d.Mods
}
func Ref_Getters(d difficulty.Difficulty, hp, cs, od, ar, speed float64, m difficulty.Modifier) (float64, float64, float64, float64, float64, difficulty.Modifier) {
	return hp, cs, od, ar, speed, m
}

func Impl_Chain(d difficulty.Difficulty, hp, cs, od, ar, speed float64, m difficulty.Modifier) difficulty.Difficulty {
	d.SetMods(m)
	d.SetAR(ar)
	d.SetCustomSpeed(speed)
	d.SetOD(od)
	d.SetCS(cs)
	d.SetHP(hp)
	return d
}
func Ref_Chain(d difficulty.Difficulty, hp, cs, od, ar, speed float64, m difficulty.Modifier) difficulty.Difficulty {
	return fresh(hp, cs, od, ar, m, speed)
}
