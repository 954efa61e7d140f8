// Package c02 states the effective difficulty values as formulas over the
// settings, the mods and the custom speed.
package c02

import (
	"github.com/Wieku/gosu-pp/beatmap/difficulty"
)

// Settings for any beatmap, mods and custom speed.
func diff(hp, cs, od, ar float64, mods difficulty.Modifier, speed float64) *difficulty.Difficulty {
	d := difficulty.NewDifficulty(hp, cs, od, ar)
	d.SetCustomSpeed(speed)
	d.SetMods(mods)
	return d
}

const (
	easy = 1 << 1
	hr   = 1 << 4
	dt   = 1 << 6
	ht   = 1 << 8
)

func min(a, b float64) float64 {
	if b < a {
		return b
	}
	return a
}

// adjusted is a setting after EZ and HR.
func adjusted(v, factor float64, mods difficulty.Modifier) float64 {
	if mods&hr != 0 {
		v = min(v*factor, 10)
	}
	if mods&easy != 0 {
		v = v * 0.5
	}
	return v
}

// rate is linear from easiest at 0 over mid at 5 to hardest at 10.
func rate(v, easiest, mid, hardest float64) float64 {
	switch {
	case v > 5:
		return mid + (hardest-mid)*(v-5)/5
	case v < 5:
		return mid - (mid-easiest)*(5-v)/5
	}
	return mid
}

// unrate is the inverse of rate.
func unrate(r, easiest, mid, hardest float64) float64 {
	if r > mid {
		return (easiest - r) / ((easiest - mid) / 5)
	}
	return 5 - (r-mid)/((mid-hardest)/5)
}

func timeScale(mods difficulty.Modifier, speed float64) float64 {
	if mods&dt != 0 {
		return 1.5 * speed
	}
	if mods&ht != 0 {
		return 0.75 * speed
	}
	return speed
}

func Impl_HP(hp, cs, od, ar float64, mods difficulty.Modifier, speed float64) float64 {
	return diff(hp, cs, od, ar, mods, speed).HPMod
}
func Ref_HP(hp, cs, od, ar float64, mods difficulty.Modifier, speed float64) float64 {
	return adjusted(hp, 1.4, mods)
}

func Impl_Radius(hp, cs, od, ar float64, mods difficulty.Modifier, speed float64) float64 {
	return diff(hp, cs, od, ar, mods, speed).CircleRadius
}
func Ref_Radius(hp, cs, od, ar float64, mods difficulty.Modifier, speed float64) float64 {
	return rate(adjusted(cs, 1.3, mods), 54.4, 32, 9.6)
}

func Impl_Preempt(hp, cs, od, ar float64, mods difficulty.Modifier, speed float64) float64 {
	return diff(hp, cs, od, ar, mods, speed).Preempt
}
func Ref_Preempt(hp, cs, od, ar float64, mods difficulty.Modifier, speed float64) float64 {
	return rate(adjusted(ar, 1.4, mods), 1800, 1200, 450)
}

func Impl_Windows(hp, cs, od, ar float64, mods difficulty.Modifier, speed float64) (float64, float64, float64, float64) {
	d := diff(hp, cs, od, ar, mods, speed)
	return d.Hit300, d.Hit100, d.Hit50, d.SpinnerRatio
}
func Ref_Windows(hp, cs, od, ar float64, mods difficulty.Modifier, speed float64) (float64, float64, float64, float64) {
	v := adjusted(od, 1.4, mods)
	return rate(v, 80, 50, 20), rate(v, 140, 100, 60), rate(v, 200, 150, 100), rate(v, 3, 5, 7.5)
}

func Impl_Speed(hp, cs, od, ar float64, mods difficulty.Modifier, speed, t float64) (float64, float64) {
	d := diff(hp, cs, od, ar, mods, speed)
	return d.Speed, d.GetModifiedTime(t)
}
func Ref_Speed(hp, cs, od, ar float64, mods difficulty.Modifier, speed, t float64) (float64, float64) {
	return timeScale(mods, speed), t / timeScale(mods, speed)
}

func Impl_Real(hp, cs, od, ar float64, mods difficulty.Modifier, speed float64) (float64, float64) {
	d := diff(hp, cs, od, ar, mods, speed)
	return d.ARReal, d.ODReal
}
func Ref_Real(hp, cs, od, ar float64, mods difficulty.Modifier, speed float64) (float64, float64) {
	s := timeScale(mods, speed)
	return unrate(rate(adjusted(ar, 1.4, mods), 1800, 1200, 450)/s, 1800, 1200, 450),
		unrate(rate(adjusted(od, 1.4, mods), 80, 50, 20)/s, 80, 50, 20)
}
