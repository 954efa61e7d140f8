// Package c26 is what handles input of any kind.
package c26

import (
	"io"

	"github.com/Wieku/gosu-pp/beatmap"
	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/beatmap/objects"
	"github.com/Wieku/gosu-pp/beatmap/timing"
	"github.com/Wieku/gosu-pp/math/curves"
	"github.com/Wieku/gosu-pp/math/vector"
	"github.com/Wieku/gosu-pp/performance/osu"
	"github.com/Wieku/gosu-pp/performance/osu/preprocessing"
)

//verif:opaque Parse: github.com/Wieku/gosu-pp/math/curves.NewMultiCurveT (*github.com/Wieku/gosu-pp/math/curves.MultiCurve).PointAt (*github.com/Wieku/gosu-pp/math/curves.MultiCurve).GetLength @github.com/Wieku/gosu-pp/beatmap.SetStackIndex
//verif:opaque Bytes: github.com/Wieku/gosu-pp/math/curves.NewMultiCurveT (*github.com/Wieku/gosu-pp/math/curves.MultiCurve).PointAt (*github.com/Wieku/gosu-pp/math/curves.MultiCurve).GetLength @github.com/Wieku/gosu-pp/beatmap.SetStackIndex
//verif:opaque Path: github.com/Wieku/gosu-pp/math/curves.ApproximateBezier
//verif:opaque Angles: github.com/Wieku/gosu-pp/math/curves.ApproximateBezier
//verif:opaque Slider: github.com/Wieku/gosu-pp/math/curves.NewMultiCurveT (*github.com/Wieku/gosu-pp/math/curves.MultiCurve).PointAt (*github.com/Wieku/gosu-pp/math/curves.MultiCurve).GetLength
//verif:filled Slider: points
//verif:filled Single: ScorePoints
//verif:filled Peaks: ScorePoints
//verif:filled Step: ScorePoints
//verif:filled Lazy: ScorePoints

// What parsing does to a file.

func Run_Parse(r io.Reader) {
	beatmap.ParseFromReader(r)
}

func Run_Bytes(data []byte) {
	beatmap.ParseFromByte(data)
}

func Run_Mods(text string, m difficulty.Modifier) {
	difficulty.ParseMods(text)
	_ = m.String()
	m.StringFull()
	m.Compatible()
}

// The paths of sliders.

func Run_Path(kind string, start vector.Vector2f, rest []vector.Vector2f, length float64, t float32) {
	points := append([]vector.Vector2f{start}, rest...)
	c := curves.NewMultiCurveT(kind, points, length)
	c.PointAt(t)
	c.GetLength()
}

func Run_Angles(kind string, start vector.Vector2f, rest []vector.Vector2f, length float64, t float32) {
	points := append([]vector.Vector2f{start}, rest...)
	c := curves.NewMultiCurveT(kind, points, length)
	c.GetStartAngle()
	c.GetEndAngle()
	c.GetStartAngleAt(t)
	c.GetEndAngleAt(t)
}

// Objects that have been parsed.

func Run_Slider(text []string, t *timing.Timings, time float64, m difficulty.Modifier) {
	if !objects.HasRequiredFields(text) {
		return
	}
	s, ok := objects.CreateObject(text).(*objects.Slider)
	if !ok {
		return
	}
	s.SetTiming(t)
	s.GetStackedPositionAtMod(time, m)
	s.GetStackedEndPositionMod(m)
	s.IsRetarded()
	_ = s.ScorePoints[len(s.ScorePoints)-1] // what rating needs
}

func Run_Timings(time, other, length float64, inherited bool) {
	t := timing.NewTimings()
	t.AddPoint(time, length, 0, 0, 0, 4, inherited, false, false)
	t.AddPoint(other, length, 0, 0, 0, 4, !inherited, false, false)
	t.FinalizePoints()
	t.GetPointAt(other)
	t.GetOriginalPointAt(time)
}

// Rating objects that are not nil, the sliders with their score points.

func Run_Single(list []objects.IHitObject, d *difficulty.Difficulty) {
	osu.CalculateSingle(list, d)
}

func Run_Peaks(list []objects.IHitObject, d *difficulty.Difficulty) {
	osu.CalculateStrainPeaks(list, d)
}

func Run_Step(list []objects.IHitObject, d *difficulty.Difficulty) {
	osu.CalculateStep(list, d)
}

func Run_Lazy(s *objects.Slider, d *difficulty.Difficulty) {
	preprocessing.NewLazySlider(s, d)
}

func Run_Points(pp *osu.PPv2, a osu.Attributes, combo, n300, n100, n50, nmiss int, d *difficulty.Difficulty) {
	pp.PPv2x(a, combo, n300, n100, n50, nmiss, d)
}
