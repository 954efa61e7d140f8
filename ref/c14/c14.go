// Package c14 is the osu! speed strain and rhythm formula of November 2021.
package c14

import (
	"math"

	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/beatmap/objects"
	"github.com/Wieku/gosu-pp/performance/osu/preprocessing"
	"github.com/Wieku/gosu-pp/performance/osu/skills"
)

type object = preprocessing.DifficultyObject

func spinner(o *object) bool {
	_, yes := o.BaseObject.(*objects.Spinner)
	return yes
}

func slider(o *object) bool {
	_, yes := o.BaseObject.(*preprocessing.LazySlider)
	return yes
}

func Impl_Strain(d *difficulty.Difficulty, cur *object, previous []*object) float64 {
	s := skills.NewSpeedSkill(d)
	s.Previous = previous
	return s.StrainValueOf(cur)
}
func Ref_Strain(d *difficulty.Difficulty, cur *object, previous []*object) float64 {
	if spinner(cur) {
		return 0
	}
	window := 2 * d.Hit300 / d.Speed
	t := cur.StrainTime
	if len(previous) > 0 {
		last := previous[len(previous)-1]
		// doubletaps
		if last != nil && t < window && t < last.StrainTime {
			t = last.StrainTime + (t-last.StrainTime)*(t/window)
		}
	}
	t = t / math.Min(1, math.Max(0.92, t/window/0.93))

	bonus := 1.0
	if t < 75 {
		x := (75 - t) / 40
		bonus += 0.75 * x * x
	}
	dist := math.Min(125, cur.JumpDistance+cur.TravelDistance)
	return bonus * (1 + math.Pow(dist/125, 3.5)) / t
}

func rhythm(d *difficulty.Difficulty, cur *object, previous []*object) float64 {
	if spinner(cur) {
		return 0
	}
	n := len(previous)
	window := 0.6 * (d.Hit300 / d.Speed)

	sum := 0.0
	inIsland := false
	size, lastSize := 1, 0
	start := 0.0

	for j := 2; j < n; j++ { // oldest to newest, with two objects before
		o, p, l := previous[j], previous[j-1], previous[j-2]

		decay := math.Max(0, 5000-(cur.StartTime-o.StartTime)) / 5000
		if decay == 0 {
			continue
		}
		decay = math.Min(float64(j)/float64(n), decay)

		a, b, c := o.StrainTime, p.StrainTime, l.StrainTime

		x := math.Sin(math.Pi / (math.Min(b, a) / math.Max(b, a)))
		ratio := 1 + 6*math.Min(0.5, x*x)
		effective := ratio * math.Min(1, math.Max(0, math.Abs(b-a)-window)/window)

		faster := b > 1.25*a
		slower := b*1.25 < a

		if !inIsland {
			if faster {
				inIsland = true
				size = 1
				start = effective
			}
			continue
		}

		if !faster && !slower {
			if size < 7 {
				size++
			}
			continue
		}

		if slider(o) {
			effective *= 0.125
		}
		if slider(p) {
			effective *= 0.25
		}
		if lastSize == size {
			effective *= 0.25
		}
		if lastSize%2 == size%2 {
			effective *= 0.5
		}
		if c > b+10 && b > a+10 {
			effective *= 0.125
		}

		sum += math.Sqrt(effective*start) * decay * math.Sqrt(float64(4+size)) * math.Sqrt(float64(4+lastSize)) / 4

		start = effective
		lastSize = size
		size = 1
		if slower {
			inIsland = false
		}
	}

	return math.Sqrt(4+0.75*sum) / 2
}

func Impl_Rhythm(d *difficulty.Difficulty, cur *object, previous []*object) (float64, float64) {
	s := skills.NewSpeedSkill(d)
	s.Previous = previous
	r := s.StrainBonusOf(cur)
	return r, s.CurrentRhythm
}
func Ref_Rhythm(d *difficulty.Difficulty, cur *object, previous []*object) (float64, float64) {
	r := rhythm(d, cur, previous)
	return r, r
}

// A new section starts from the decayed strain and the current rhythm.
func Impl_Initial(d *difficulty.Difficulty, strain, rhythm, time float64, previous []*object) float64 {
	s := skills.NewSpeedSkill(d)
	s.Previous = previous
	s.CurrentStrain = strain
	s.CurrentRhythm = rhythm
	return s.CalculateInitialStrain(time)
}
func Ref_Initial(d *difficulty.Difficulty, strain, rhythm, time float64, previous []*object) float64 {
	if len(previous) == 0 {
		panic("no earlier object")
	}
	last := previous[len(previous)-1]
	return strain * rhythm * math.Pow(0.3, (time-last.StartTime)/1000)
}

// The constants the skill is set up with: decay base, strain multiplier, final
// multiplier, decay weight, reduction, reduced sections, history.
func Impl_Constants(d *difficulty.Difficulty) (float64, float64, float64, float64, float64, int, int) {
	s := skills.NewSpeedSkill(d)
	return s.StrainDecayBase, s.SkillMultiplier, s.DifficultyMultiplier, s.DecayWeight, s.ReducedStrainBaseline, s.ReducedSectionCount, s.HistoryLength
}
func Ref_Constants(d *difficulty.Difficulty) (float64, float64, float64, float64, float64, int, int) {
	return 0.3, 1375, 1.04, 0.9, 0.75, 5, 32
}
