// Package c13 is the osu! aim strain formula of November 2021.
package c13

import (
	"math"

	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/beatmap/objects"
	"github.com/Wieku/gosu-pp/performance/osu/preprocessing"
	"github.com/Wieku/gosu-pp/performance/osu/skills"
)

type object = preprocessing.DifficultyObject

func spinner(o *object) bool {
	_, yes := o.BaseObject.(*objects.Spinner)
	return yes
}

func slider(o *object) bool {
	_, yes := o.BaseObject.(*preprocessing.LazySlider)
	return yes
}

func sq(x float64) float64 { return x * x }

// velocity into o, coming from before.
func velocity(o, before *object, sliders bool) float64 {
	v := o.JumpDistance / o.StrainTime
	if sliders && slider(before) {
		v = math.Max(v, o.TravelDistance/o.TravelTime+o.MovementDistance/o.MovementTime)
	}
	return v
}

func wide(angle float64) float64 {
	a := math.Min(math.Pi*5/6, math.Max(math.Pi/6, angle))
	return sq(math.Sin(0.75 * (a - math.Pi/6)))
}

func acute(angle float64) float64 { return 1 - wide(angle) }

func average(o *object) float64 { return (o.JumpDistance + o.TravelDistance) / o.StrainTime }

func strain(cur *object, previous []*object, sliders bool) float64 {
	if len(previous) < 2 || spinner(cur) {
		return 0
	}
	last := previous[len(previous)-1]
	if spinner(last) {
		return 0
	}
	lastLast := previous[len(previous)-2]

	v, pv := velocity(cur, last, sliders), velocity(last, lastLast, sliders)

	shorter, longer := math.Min(cur.StrainTime, last.StrainTime), math.Max(cur.StrainTime, last.StrainTime)

	wideBonus, acuteBonus := 0.0, 0.0
	known := !(math.IsNaN(cur.Angle) || math.IsNaN(last.Angle) || math.IsNaN(lastLast.Angle))
	if longer < 1.25*shorter && known {
		base := math.Min(v, pv)
		w := wide(cur.Angle)

		a := 0.0
		if !(cur.StrainTime > 100) {
			a = acute(cur.Angle) * acute(last.Angle) * math.Min(base, 125/cur.StrainTime)
			a *= sq(math.Sin(math.Pi / 2 * math.Min(1, (100-cur.StrainTime)/25)))
			a *= sq(math.Sin(math.Pi / 2 * (math.Min(100, math.Max(50, cur.JumpDistance)) - 50) / 50))
		}

		wideBonus = w * base * (1 - math.Min(w, math.Pow(wide(last.Angle), 3)))
		acuteBonus = a * (0.5 + 0.5*(1-math.Min(a, math.Pow(acute(lastLast.Angle), 3))))
	}

	change := 0.0
	if math.Max(pv, v) != 0 {
		p, c := average(last), average(cur)
		delta := math.Abs(p - c)
		ratio := sq(math.Sin(math.Pi / 2 * delta / math.Max(p, c)))
		overlap := math.Min(125/shorter, delta)
		apart := delta * sq(math.Sin(math.Pi/2*math.Min(1, math.Min(cur.JumpDistance, last.JumpDistance)/100)))
		change = math.Max(overlap, apart) * ratio * sq(shorter/longer)
	}

	travel := 0.0
	if cur.TravelTime != 0 {
		travel = cur.TravelDistance / cur.TravelTime
	}

	total := v + math.Max(2*acuteBonus, 1.5*wideBonus+0.75*change)
	if sliders {
		total += 1.5 * travel
	}
	return total
}

func Impl_Aim(d *difficulty.Difficulty, cur *object, previous []*object) float64 {
	s := skills.NewAimSkill(d, true)
	s.Previous = previous
	return s.StrainValueOf(cur)
}
func Ref_Aim(d *difficulty.Difficulty, cur *object, previous []*object) float64 {
	return strain(cur, previous, true)
}

func Impl_AimNoSliders(d *difficulty.Difficulty, cur *object, previous []*object) float64 {
	s := skills.NewAimSkill(d, false)
	s.Previous = previous
	return s.StrainValueOf(cur)
}
func Ref_AimNoSliders(d *difficulty.Difficulty, cur *object, previous []*object) float64 {
	return strain(cur, previous, false)
}

// The constants the skill is set up with: decay base, strain multiplier, final
// multiplier, decay weight, reduction, reduced sections, history.
func Impl_Constants(d *difficulty.Difficulty, sliders bool) (float64, float64, float64, float64, float64, int, int) {
	s := skills.NewAimSkill(d, sliders)
	return s.StrainDecayBase, s.SkillMultiplier, s.DifficultyMultiplier, s.DecayWeight, s.ReducedStrainBaseline, s.ReducedSectionCount, s.HistoryLength
}
func Ref_Constants(d *difficulty.Difficulty, sliders bool) (float64, float64, float64, float64, float64, int, int) {
	return 0.15, 23.25, 1.06, 0.9, 0.75, 10, 2
}
