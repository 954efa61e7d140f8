// Package c07 is the November 2021 osu! star rating formula over the skills.
package c07

import (
	"math"

	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/beatmap/objects"
	"github.com/Wieku/gosu-pp/performance/osu"
	"github.com/Wieku/gosu-pp/performance/osu/preprocessing"
	"github.com/Wieku/gosu-pp/performance/osu/skills"
)

//verif:opaque github.com/Wieku/gosu-pp/performance/osu/preprocessing.CreateDifficultyObjects

type ratings struct{ Total, Aim, SliderFactor, Speed, Flashlight float64 }

func stars(aim, noSliders, speed, flashlight float64, d *difficulty.Difficulty) ratings {
	r := ratings{
		Aim:          0.0675 * math.Sqrt(aim),
		Speed:        0.0675 * math.Sqrt(speed),
		Flashlight:   0.0675 * math.Sqrt(flashlight),
		SliderFactor: 1,
	}
	if r.Aim > 0.00001 {
		r.SliderFactor = 0.0675 * math.Sqrt(noSliders) / r.Aim
	}
	if d.CheckModActive(difficulty.Relax) {
		r.Speed = 0
	}
	base := func(x float64) float64 { return math.Pow(5*math.Max(1, x/0.0675)-4, 3) / 100000 }
	sum := math.Pow(base(r.Aim), 1.1) + math.Pow(base(r.Speed), 1.1)
	if d.CheckModActive(difficulty.Flashlight) {
		sum += math.Pow(25*r.Flashlight*r.Flashlight, 1.1)
	} else {
		sum += math.Pow(0, 1.1)
	}
	norm := math.Pow(sum, 1/1.1)
	if norm > 0.00001 {
		r.Total = math.Cbrt(1.12) * 0.027 * (math.Cbrt(100000/math.Pow(2, 1/1.1)*norm) + 4)
	}
	return r
}

func of(a osu.Attributes) ratings {
	return ratings{a.Total, a.Aim, a.SliderFactor, a.Speed, a.Flashlight}
}

func Impl_Single(list []objects.IHitObject, d *difficulty.Difficulty) ratings {
	return of(osu.CalculateSingle(list, d))
}
func Ref_Single(list []objects.IHitObject, d *difficulty.Difficulty) ratings {
	aim, noSliders := skills.NewAimSkill(d, true), skills.NewAimSkill(d, false)
	speed, flashlight := skills.NewSpeedSkill(d), skills.NewFlashlightSkill(d)
	for _, o := range preprocessing.CreateDifficultyObjects(list, d) {
		aim.Process(o)
		noSliders.Process(o)
		speed.Process(o)
		flashlight.Process(o)
	}
	fl := 0.0
	if d.CheckModActive(difficulty.Flashlight) {
		fl = flashlight.DifficultyValue()
	}
	return stars(aim.DifficultyValue(), noSliders.DifficultyValue(), speed.DifficultyValue(), fl, d)
}

func Impl_Peaks(list []objects.IHitObject, d *difficulty.Difficulty) osu.StrainPeaks {
	return osu.CalculateStrainPeaks(list, d)
}
func Ref_Peaks(list []objects.IHitObject, d *difficulty.Difficulty) osu.StrainPeaks {
	aim, speed, flashlight := skills.NewAimSkill(d, true), skills.NewSpeedSkill(d), skills.NewFlashlightSkill(d)
	for _, o := range preprocessing.CreateDifficultyObjects(list, d) {
		aim.Process(o)
		speed.Process(o)
		flashlight.Process(o)
	}
	p := osu.StrainPeaks{Aim: aim.GetCurrentStrainPeaks(), Speed: speed.GetCurrentStrainPeaks()}
	fl := d.CheckModActive(difficulty.Flashlight)
	if fl {
		p.Flashlight = flashlight.GetCurrentStrainPeaks()
	}
	p.Total = make([]float64, len(p.Aim))
	for i := range p.Total {
		x := 0.0
		if fl {
			x = p.Flashlight[i]
		}
		p.Total[i] = stars(p.Aim[i], p.Aim[i], p.Speed[i], x, d).Total
	}
	return p
}
