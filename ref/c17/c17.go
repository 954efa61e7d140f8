// Package c17 is what timing points mean in osu!.
package c17

import (
	"math"
	"sort"

	"github.com/Wieku/gosu-pp/beatmap/timing"
)

type point struct {
	Time, Base, Raw, Ratio, Beat float64
	Set, Index                   int
	Volume                       float64
	Signature                    int
	Inherited, Kiai, Omit        bool
}

func ratio(raw float64) float64 {
	if raw < 0 {
		return float64(float32(math.Min(1000, math.Max(10, -raw))) / 100)
	}
	return 1
}

func seen(p timing.ControlPoint) point {
	return point{p.Time, p.GetBaseBeatLength(), p.GetRawBeatLength(), p.GetRatio(), p.GetBeatLength(), p.SampleSet, p.SampleIndex, p.SampleVolume,
		p.Signature, p.Inherited, p.Kiai, p.OmitFirstBarLine}
}

// line is a timing point of a file.
type line struct {
	Time, Beat      float64
	Set, Index      int
	Volume          float64
	Signature       int
	Inh, Kiai, Omit bool
}

func read(lines []line) *timing.Timings {
	t := timing.NewTimings()
	for _, l := range lines {
		t.AddPoint(l.Time, l.Beat, l.Set, l.Index, l.Volume, l.Signature, l.Inh, l.Kiai, l.Omit)
	}
	t.FinalizePoints()
	return t
}

// points are the timing points in the order they take effect.
func points(lines []line) []point {
	var sorted []line
	for _, l := range lines {
		sorted = append(sorted, l)
	}
	sort.SliceStable(sorted, func(i, j int) bool { return sorted[i].Time < sorted[j].Time })

	var out []point
	base := 0.0
	for i, l := range sorted {
		if i == 0 || !l.Inh {
			base = l.Beat
		}
		out = append(out, point{l.Time, base, l.Beat, ratio(l.Beat), base * ratio(l.Beat), l.Set, l.Index, l.Volume, l.Signature, l.Inh, l.Kiai, l.Omit})
	}
	return out
}

func Impl_At(lines []line, time float64) point {
	return seen(read(lines).GetPointAt(time))
}
func Ref_At(lines []line, time float64) point {
	all := points(lines)
	after := sort.Search(len(all), func(i int) bool { return all[i].Time > time })
	if after == 0 {
		after = 1
	}
	return all[after-1]
}

func Impl_Has(lines []line) bool { return read(lines).HasPoints() }
func Ref_Has(lines []line) bool  { return len(lines) != 0 }

// Speeds at a point.

type speeds struct{ Scoring, Velocity, Tick, Beat float64 }

func Impl_Speeds(mult, rate float64, lines []line, time float64) speeds {
	t := read(lines)
	t.SliderMult, t.TickRate = mult, rate
	p := t.GetPointAt(time)
	return speeds{t.GetScoringDistance(), t.GetVelocity(p), t.GetTickDistance(p), p.GetBeatLength()}
}
func Ref_Speeds(mult, rate float64, lines []line, time float64) speeds {
	p := Ref_At(lines, time)
	s := speeds{Scoring: 100 * mult / rate, Beat: p.Base * p.Ratio, Velocity: 100 * mult}
	if s.Beat >= 0 {
		s.Velocity = 100 * mult * 1000 / s.Beat
	}
	s.Tick = s.Scoring / p.Ratio
	return s
}

func Impl_Duration(mult float64, lines []line, time, length float64) float64 {
	t := read(lines)
	t.SliderMult = mult
	return t.GetSliderTimeP(t.GetPointAt(time), length)
}
func Ref_Duration(mult float64, lines []line, time, length float64) float64 {
	p := Ref_At(lines, time)
	return float64(float32(1000*length) / float32(100*mult*(1000/(p.Base*p.Ratio))))
}
