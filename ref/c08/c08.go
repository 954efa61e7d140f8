// Package c08 counts the objects of a map.
package c08

import (
	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/beatmap/objects"
	"github.com/Wieku/gosu-pp/performance/osu"
)

func assume(bool) {}

type counts struct{ Objects, Circles, Sliders, Spinners, Combo int }

func of(a osu.Attributes) counts {
	return counts{a.ObjectCount, a.Circles, a.Sliders, a.Spinners, a.MaxCombo}
}

func count(list []objects.IHitObject) counts {
	c := counts{Objects: len(list), Combo: len(list)}
	for _, o := range list {
		switch x := o.(type) {
		case *objects.Circle:
			c.Circles++
		case *objects.Slider:
			c.Sliders++
			c.Combo += len(x.ScorePoints)
		case *objects.Spinner:
			c.Spinners++
		}
	}
	return c
}

func Impl_Single(list []objects.IHitObject, d *difficulty.Difficulty) counts {
	return of(osu.CalculateSingle(list, d))
}
func Ref_Single(list []objects.IHitObject, d *difficulty.Difficulty) counts {
	return count(list)
}

func Impl_SinglePeaks(list []objects.IHitObject, d *difficulty.Difficulty) counts {
	a, _ := osu.CalculateSingleWithPeaks(list, d)
	return of(a)
}
func Ref_SinglePeaks(list []objects.IHitObject, d *difficulty.Difficulty) counts {
	return count(list)
}

// The attributes of step i count objects 0 to i.
func Impl_Step(list []objects.IHitObject, d *difficulty.Difficulty, i int) counts {
	assume(i >= 0)
	assume(i < len(list))
	return of(osu.CalculateStep(list, d)[i])
}
func Ref_Step(list []objects.IHitObject, d *difficulty.Difficulty, i int) counts {
	assume(i >= 0)
	assume(i < len(list))
	return count(list[:i+1])
}

func Impl_StepPeaks(list []objects.IHitObject, d *difficulty.Difficulty, i int) counts {
	assume(i >= 0)
	assume(i < len(list))
	a, _ := osu.CalculateStepWithPeaks(list, d)
	return of(a[i])
}
func Ref_StepPeaks(list []objects.IHitObject, d *difficulty.Difficulty, i int) counts {
	assume(i >= 0)
	assume(i < len(list))
	return count(list[:i+1])
}

// There is one step for every object.
func Impl_Steps(list []objects.IHitObject, d *difficulty.Difficulty) int {
	return len(osu.CalculateStep(list, d))
}
func Ref_Steps(list []objects.IHitObject, d *difficulty.Difficulty) int {
	return len(list)
}
