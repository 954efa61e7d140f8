// Package c15 is the osu! flashlight strain formula of November 2021.
package c15

import (
	"math"

	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/beatmap/objects"
	"github.com/Wieku/gosu-pp/performance/osu/preprocessing"
	"github.com/Wieku/gosu-pp/performance/osu/skills"
)

type object = preprocessing.DifficultyObject

func spinner(o *object) bool {
	_, yes := o.BaseObject.(*objects.Spinner)
	return yes
}

func Impl_Strain(d *difficulty.Difficulty, cur *object, previous []*object) float64 {
	s := skills.NewFlashlightSkill(d)
	s.Previous = previous
	return s.StrainValueOf(cur)
}
func Ref_Strain(d *difficulty.Difficulty, cur *object, previous []*object) float64 {
	if spinner(cur) {
		return 0
	}
	scale := 52 / d.CircleRadius
	nerf := 1.0
	elapsed := 0.0
	sum := 0.0
	here := cur.BaseObject.GetStackedStartPositionMod(d.Mods)
	for i := range previous {
		p := previous[len(previous)-1-i]
		if !spinner(p) {
			jump := float64(here.Dst(p.BaseObject.GetStackedEndPositionMod(d.Mods)))
			elapsed += p.StrainTime
			if i == 0 {
				nerf = math.Min(1, jump/75)
			}
			stack := math.Min(1, p.JumpDistance/scale/25)
			sum += scale * jump / elapsed * stack * math.Pow(0.8, float64(i))
		}
	}
	return (sum * nerf) * (sum * nerf)
}

// The constants the skill is set up with: decay base, strain multiplier, final
// multiplier, decay weight, reduction, reduced sections, history.
func Impl_Constants(d *difficulty.Difficulty) (float64, float64, float64, float64, float64, int, int) {
	s := skills.NewFlashlightSkill(d)
	return s.StrainDecayBase, s.SkillMultiplier, s.DifficultyMultiplier, s.DecayWeight, s.ReducedStrainBaseline, s.ReducedSectionCount, s.HistoryLength
}
func Ref_Constants(d *difficulty.Difficulty) (float64, float64, float64, float64, float64, int, int) {
	return 0.15, 0.15, 1.06, 1, 0.75, 10, 10
}
