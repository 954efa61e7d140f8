// Package c09 compares the entry points of the calculator with each other.
package c09

import (
	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/beatmap/objects"
	"github.com/Wieku/gosu-pp/performance/osu"
)

//verif:opaque github.com/Wieku/gosu-pp/performance/osu/preprocessing.NewDifficultyObject github.com/Wieku/gosu-pp/performance/osu/preprocessing.NewLazySlider

func assume(bool) {}

// Step i is the map that ends with object i.
func Impl_StepIsPrefix(list []objects.IHitObject, d *difficulty.Difficulty, i int) osu.Attributes {
	assume(i >= 1)
	assume(i < len(list))
	return osu.CalculateStep(list, d)[i]
}
func Ref_StepIsPrefix(list []objects.IHitObject, d *difficulty.Difficulty, i int) osu.Attributes {
	assume(i >= 1)
	assume(i < len(list))
	return osu.CalculateSingle(list[:i+1], d)
}

// Asking for the peaks as well changes nothing else.
func Impl_SingleWithPeaks(list []objects.IHitObject, d *difficulty.Difficulty) osu.Attributes {
	a, _ := osu.CalculateSingleWithPeaks(list, d)
	return a
}
func Ref_SingleWithPeaks(list []objects.IHitObject, d *difficulty.Difficulty) osu.Attributes {
	return osu.CalculateSingle(list, d)
}

func Impl_StepWithPeaks(list []objects.IHitObject, d *difficulty.Difficulty) []osu.Attributes {
	a, _ := osu.CalculateStepWithPeaks(list, d)
	return a
}
func Ref_StepWithPeaks(list []objects.IHitObject, d *difficulty.Difficulty) []osu.Attributes {
	return osu.CalculateStep(list, d)
}

// All three give the same peaks.
func Impl_PeaksOfSingle(list []objects.IHitObject, d *difficulty.Difficulty) osu.StrainPeaks {
	_, p := osu.CalculateSingleWithPeaks(list, d)
	return p
}
func Ref_PeaksOfSingle(list []objects.IHitObject, d *difficulty.Difficulty) osu.StrainPeaks {
	return osu.CalculateStrainPeaks(list, d)
}

func Impl_PeaksOfStep(list []objects.IHitObject, d *difficulty.Difficulty) osu.StrainPeaks {
	_, p := osu.CalculateStepWithPeaks(list, d)
	return p
}
func Ref_PeaksOfStep(list []objects.IHitObject, d *difficulty.Difficulty) osu.StrainPeaks {
	return osu.CalculateStrainPeaks(list, d)
}
