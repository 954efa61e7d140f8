// Package c12 is the strain engine of the November 2021 osu! difficulty skills.
package c12

import (
	"math"
	"sort"

	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/performance/osu/preprocessing"
	"github.com/Wieku/gosu-pp/performance/osu/skills"
)

type object = preprocessing.DifficultyObject

//verif:opaque value bonus initial

// value and bonus stand for any skill: they may depend on the object and on
// the history the skill keeps at that moment.
func value(o *object, history []*object) float64 { return 1 }
func bonus(o *object, history []*object) float64 { return 1 }

// initial stands for any way of starting a section.
func initial(time, strain float64, history []*object) float64 { return 1 }

type config struct {
	Base, Multiplier, Final float64
	Weight, Baseline        float64
	Reduced, History        int
	Bonus                   bool
}

func skill(d *difficulty.Difficulty, c config, objs []*object) *skills.Skill {
	s := skills.NewSkill(d)
	s.StrainDecayBase = c.Base
	s.SkillMultiplier = c.Multiplier
	s.HistoryLength = c.History
	s.DecayWeight = c.Weight
	s.DifficultyMultiplier = c.Final
	s.ReducedStrainBaseline = c.Baseline
	s.ReducedSectionCount = c.Reduced
	s.StrainValueOf = func(o *object) float64 { return value(o, s.Previous) }
	if c.Bonus {
		s.StrainBonusOf = func(o *object) float64 { return bonus(o, s.Previous) }
	}
	for _, o := range objs {
		s.Process(o)
	}
	return s
}

type result struct {
	strain  float64
	peaks   []float64
	history []*object
}

func engine(c config, objs []*object) result {
	var closed []float64
	strain, peak, end := 0.0, 0.0, 0.0
	var history []*object
	for _, o := range objs {
		if len(history) > c.History {
			history = history[len(history)-c.History:]
		}
		if len(history) == 0 {
			end = math.Ceil(o.StartTime/400) * 400
		}
		for o.StartTime > end {
			closed = append(closed, peak)
			peak = strain * math.Pow(c.Base, (end-history[len(history)-1].StartTime)/1000)
			end += 400
		}
		strain = strain*math.Pow(c.Base, o.DeltaTime/1000) + c.Multiplier*value(o, history)
		now := strain
		if c.Bonus {
			now *= bonus(o, history)
		}
		peak = math.Max(peak, now)
		history = append(history, o)
	}
	return result{strain, append(closed, peak), history}
}

func Impl_Peaks(d *difficulty.Difficulty, c config, objs []*object) ([]float64, float64) {
	s := skill(d, c, objs)
	return s.GetCurrentStrainPeaks(), s.CurrentStrain
}
func Ref_Peaks(d *difficulty.Difficulty, c config, objs []*object) ([]float64, float64) {
	r := engine(c, objs)
	return r.peaks, r.strain
}

func Impl_Value(d *difficulty.Difficulty, c config, objs []*object) float64 {
	return skill(d, c, objs).DifficultyValue()
}
func Ref_Value(d *difficulty.Difficulty, c config, objs []*object) float64 {
	p := engine(c, objs).peaks
	sort.Slice(p, func(i, j int) bool { return p[i] > p[j] })
	for i := range p {
		if i >= c.Reduced {
			break
		}
		position := math.Min(1, math.Max(0, float64(i)/float64(c.Reduced)))
		scale := math.Log10(1 + 9*position)
		p[i] *= c.Baseline + (1-c.Baseline)*scale
	}
	sort.Slice(p, func(i, j int) bool { return p[i] > p[j] })
	sum, weight := 0.0, 1.0
	for _, x := range p {
		sum += weight * x
		weight *= c.Weight
	}
	return sum * c.Final
}

// settings are what a skill is configured with; SectionLength is fixed.
func settings(s *skills.Skill) (config, float64) {
	return config{s.StrainDecayBase, s.SkillMultiplier, s.DifficultyMultiplier, s.DecayWeight, s.ReducedStrainBaseline, s.ReducedSectionCount, s.HistoryLength, s.StrainBonusOf != nil}, s.SectionLength
}

func Impl_AimSettings(d *difficulty.Difficulty, sliders bool) (config, float64) {
	return settings(skills.NewAimSkill(d, sliders).Skill)
}
func Ref_AimSettings(d *difficulty.Difficulty, sliders bool) (config, float64) {
	return config{Base: 0.15, Multiplier: 23.25, Final: 1.06, Weight: 0.9, Baseline: 0.75, Reduced: 10, History: 2}, 400
}

func Impl_SpeedSettings(d *difficulty.Difficulty) (config, float64) {
	return settings(skills.NewSpeedSkill(d).Skill)
}
func Ref_SpeedSettings(d *difficulty.Difficulty) (config, float64) {
	return config{Base: 0.3, Multiplier: 1375, Final: 1.04, Weight: 0.9, Baseline: 0.75, Reduced: 5, History: 32, Bonus: true}, 400
}

func Impl_FlashlightSettings(d *difficulty.Difficulty) (config, float64) {
	return settings(skills.NewFlashlightSkill(d).Skill)
}
func Ref_FlashlightSettings(d *difficulty.Difficulty) (config, float64) {
	return config{Base: 0.15, Multiplier: 0.15, Final: 1.06, Weight: 1, Baseline: 0.75, Reduced: 10, History: 10}, 400
}
