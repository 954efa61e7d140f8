// Package c18 is the timing of osu! sliders.
package c18

import (
	"math"
	"sort"
	"strconv"
	"strings"

	"github.com/Wieku/gosu-pp/beatmap/objects"
	"github.com/Wieku/gosu-pp/beatmap/timing"
	"github.com/Wieku/gosu-pp/math/curves"
	"github.com/Wieku/gosu-pp/math/vector"
)

func assume(bool) {}

func number(text string, bits int, limit float64) float64 {
	v, _ := strconv.ParseFloat(text, bits)
	if v != v {
		return 0
	}
	return math.Min(limit, math.Max(-limit, v))
}

func coordinate(text string) float32 { return float32(number(text, 32, 131072)) }

// described is what the fields of a slider say.
type described struct {
	Start vector.Vector2f
	Time  float64
	Spans int64
	Width float64
	Path  *curves.MultiCurve
}

func describe(f []string) described {
	d := described{
		Start: vector.Vector2f{X: coordinate(f[0]), Y: coordinate(f[1])},
		Time:  number(f[2], 64, math.MaxInt32),
		Width: number(f[7], 64, 131072),
	}
	n, _ := strconv.ParseInt(f[6], 10, 64)
	switch {
	case n < 1:
		n = 1
	case n > 9000:
		n = 9000
	}
	d.Spans = n

	parts := strings.Split(f[5], "|")
	points := []vector.Vector2f{d.Start}
	for _, p := range parts[1:] {
		if xy := strings.Split(p, ":"); len(xy) >= 2 {
			points = append(points, vector.Vector2f{X: coordinate(xy[0]), Y: coordinate(xy[1])})
		}
	}
	d.Path = curves.NewMultiCurveT(parts[0], points, d.Width)
	return d
}

type timed struct {
	Start, End, Duration float64
	Spans                int64
	First, Last          vector.Vector2f
	Slow                 bool
}

//verif:opaque Times: github.com/Wieku/gosu-pp/math/curves.NewMultiCurveT (*github.com/Wieku/gosu-pp/math/curves.MultiCurve).PointAt (*github.com/Wieku/gosu-pp/math/curves.MultiCurve).GetLength (*github.com/Wieku/gosu-pp/beatmap/timing.Timings).GetPointAt
//verif:opaque Points: github.com/Wieku/gosu-pp/math/curves.NewMultiCurveT (*github.com/Wieku/gosu-pp/math/curves.MultiCurve).PointAt (*github.com/Wieku/gosu-pp/math/curves.MultiCurve).GetLength (*github.com/Wieku/gosu-pp/beatmap/timing.Timings).GetPointAt
//verif:opaque At: github.com/Wieku/gosu-pp/math/curves.NewMultiCurveT (*github.com/Wieku/gosu-pp/math/curves.MultiCurve).PointAt (*github.com/Wieku/gosu-pp/math/curves.MultiCurve).GetLength (*github.com/Wieku/gosu-pp/beatmap/timing.Timings).GetPointAt

func Impl_Times(f []string, t *timing.Timings) timed {
	s := objects.NewSlider(f)
	s.SetTiming(t)
	return timed{s.GetStartTime(), s.GetEndTime(), s.GetDuration(), s.RepeatCount, s.GetStartPosition(), s.GetEndPosition(), s.IsRetarded()}
}
func Ref_Times(f []string, t *timing.Timings) timed {
	d := describe(f)
	p := t.GetPointAt(d.Time)
	length := float64(d.Path.GetLength())
	span := length * 1000 / t.GetVelocity(p)
	end := d.Time + length*1000*float64(d.Spans)/t.GetVelocity(p)
	return timed{d.Time, end, end - d.Time, d.Spans, d.Start, at(d, span, end, end), d.Time == end}
}

// at is where the ball is.
func at(d described, span, end, time float64) vector.Vector2f {
	if end == d.Time {
		return d.Start
	}
	in := math.Mod((math.Min(end, math.Max(d.Time, time))-d.Time)/span, 2)
	if in >= 1 {
		in = 2 - in
	}
	return d.Path.PointAt(float32(in))
}

func Impl_At(f []string, t *timing.Timings, time float64) vector.Vector2f {
	s := objects.NewSlider(f)
	s.SetTiming(t)
	return s.GetPositionAt(time)
}
func Ref_At(f []string, t *timing.Timings, time float64) vector.Vector2f {
	d := describe(f)
	velocity := t.GetVelocity(t.GetPointAt(d.Time))
	length := float64(d.Path.GetLength())
	return at(d, length*1000/velocity, d.Time+length*1000*float64(d.Spans)/velocity, time)
}

func Impl_Points(f []string, t *timing.Timings) []objects.TickPoint {
	s := objects.NewSlider(f)
	s.SetTiming(t)
	return s.ScorePoints
}
func Ref_Points(f []string, t *timing.Timings) []objects.TickPoint {
	d := describe(f)
	point := t.GetPointAt(d.Time)
	velocity := t.GetVelocity(point)
	length := float64(d.Path.GetLength())
	duration := length * 1000 / velocity
	end := d.Time + length*1000*float64(d.Spans)/velocity

	every := t.GetTickDistance(point)
	if length > 0 && every > d.Width {
		every = math.Max(d.Width, length)
	}
	ticks := every > 0 && !math.IsNaN(point.GetRawBeatLength())

	var out []objects.TickPoint
	for n := int64(0); n < d.Spans; n++ {
		from := d.Time + float64(n)*duration
		if ticks {
			for at := every; at <= length && !(at >= length-velocity/100); at += every {
				part := at / length
				if n%2 == 1 {
					part = 1 - part
				}
				out = append(out, objects.TickPoint{Time: from + part*duration})
			}
		}
		if n+1 < d.Spans {
			out = append(out, objects.TickPoint{Time: from + duration, IsReverse: true})
		} else {
			out = append(out, objects.TickPoint{Time: math.Max(d.Time+(end-d.Time)/2, end-36)})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Time < out[j].Time })
	return out
}
