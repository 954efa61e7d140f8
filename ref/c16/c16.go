// Package c16 is the osu! difficulty preprocessing of November 2021.
package c16

import (
	"math"

	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/beatmap/objects"
	"github.com/Wieku/gosu-pp/math/vector"
	"github.com/Wieku/gosu-pp/performance/osu/preprocessing"
)

type measured struct {
	Delta, Start, End, Strain float64
	Jump, Movement, Travel    float64
	MovementTime, TravelTime  float64
	Angle                     float64
}

func length(x, y float32) float32 { return float32(math.Sqrt(float64(x*x + y*y))) }

func spinner(o objects.IHitObject) bool {
	_, yes := o.(*objects.Spinner)
	return yes
}

// leave is where the cursor leaves an object.
func leave(o objects.IHitObject, d *difficulty.Difficulty) vector.Vector2f {
	if s, ok := o.(*preprocessing.LazySlider); ok {
		return s.LazyEndPosition
	}
	return o.GetStackedStartPositionMod(d.Mods)
}

func measure(cur, lastLast, last objects.IHitObject, d *difficulty.Difficulty) measured {
	m := measured{
		Start: cur.GetStartTime() / d.Speed,
		End:   cur.GetEndTime() / d.Speed,
		Angle: math.NaN(),
	}
	m.Delta = m.Start - last.GetStartTime()/d.Speed
	m.Strain = math.Max(25, m.Delta)
	if spinner(cur) || spinner(last) {
		return m
	}

	radius := float32(d.CircleRadius)
	scale := 50 / radius
	if d.CircleRadius < 30 {
		scale *= 1 + float32(math.Min(5, float64(30-radius)))/50
	}

	at := cur.GetStackedStartPositionMod(d.Mods)
	from := leave(last, d)
	m.Jump = float64(length((at.X-from.X)*scale, (at.Y-from.Y)*scale))

	if s, ok := last.(*preprocessing.LazySlider); ok {
		m.Travel = float64(s.LazyTravelDistance)
		m.TravelTime = math.Max(25, s.LazyTravelTime/d.Speed)
		m.MovementTime = math.Max(25, m.Strain-m.TravelTime)
		tail := s.GetStackedEndPositionMod(d.Mods)
		direct := float64(length(at.X-tail.X, at.Y-tail.Y)*scale) - 120
		m.Movement = math.Max(0, math.Min(m.Jump-30, direct))
	} else {
		m.Movement = m.Jump
		m.MovementTime = m.Strain
	}

	if lastLast == nil || spinner(lastLast) {
		return m
	}
	// angle at the last object
	p, q := leave(lastLast, d), last.GetStackedStartPositionMod(d.Mods)
	ax, ay := p.X-q.X, p.Y-q.Y
	bx, by := at.X-from.X, at.Y-from.Y
	m.Angle = math.Abs(float64(float32(math.Atan2(float64(ax*by-ay*bx), float64(ax*bx+ay*by)))))
	return m
}

func of(o *preprocessing.DifficultyObject) measured {
	return measured{
		o.DeltaTime, o.StartTime, o.EndTime, o.StrainTime,
		o.JumpDistance, o.MovementDistance, o.TravelDistance,
		o.MovementTime, o.TravelTime, o.Angle,
	}
}

func Impl_Object(cur, lastLast, last objects.IHitObject, d *difficulty.Difficulty) (measured, objects.IHitObject) {
	o := preprocessing.NewDifficultyObject(cur, lastLast, last, d)
	return of(o), o.BaseObject
}
func Ref_Object(cur, lastLast, last objects.IHitObject, d *difficulty.Difficulty) (measured, objects.IHitObject) {
	return measure(cur, lastLast, last, d), cur
}

type lazy struct {
	Position vector.Vector2f
	Distance float32
	Time     float64
}

func assume(bool) {}

func Impl_Lazy(s *objects.Slider, d *difficulty.Difficulty) lazy {
	assume(len(s.ScorePoints) > 0) // the end of a slider is a score point
	l := preprocessing.NewLazySlider(s, d)
	return lazy{l.LazyEndPosition, l.LazyTravelDistance, l.LazyTravelTime}
}
func Ref_Lazy(s *objects.Slider, d *difficulty.Difficulty) lazy {
	assume(len(s.ScorePoints) > 0)
	return follow(s, d)
}

// follow moves a lazy cursor through the score points of a slider.
func follow(s *objects.Slider, d *difficulty.Difficulty) lazy {
	n := len(s.ScorePoints)
	start := s.GetStartTime()
	var l lazy
	l.Time = s.ScorePoints[n-1].Time - start
	cursor := s.GetStackedStartPositionMod(d.Mods)
	scale := 50 / d.CircleRadius

	for i, point := range s.ScorePoints {
		last := i == n-1
		required := 90.0
		time := point.Time
		if last {
			time = s.EndTime
		} else if point.IsReverse {
			required = 50
		}
		to := s.GetStackedPositionAtMod(time, d.Mods)
		dx, dy := to.X-cursor.X, to.Y-cursor.Y
		if last {
			end := s.GetStackedPositionAtMod(start+l.Time, d.Mods)
			ex, ey := end.X-cursor.X, end.Y-cursor.Y
			if length(ex, ey) < length(dx, dy) {
				dx, dy = ex, ey
			}
		}
		dist := scale * float64(length(dx, dy))
		if dist > required {
			part := (dist - required) / dist
			cursor.X += dx * float32(part)
			cursor.Y += dy * float32(part)
			l.Distance += float32(dist * part)
		}
	}
	l.Position = cursor
	l.Distance *= float32(math.Pow(1+float64(s.RepeatCount-1)/2.5, 0.4))
	return l
}

// The objects of a list are measured from their two predecessors.

//verif:opaque List: github.com/Wieku/gosu-pp/performance/osu/preprocessing.NewDifficultyObject github.com/Wieku/gosu-pp/performance/osu/preprocessing.NewLazySlider

func Impl_List(list []objects.IHitObject, d *difficulty.Difficulty) []*preprocessing.DifficultyObject {
	return preprocessing.CreateDifficultyObjects(list, d)
}
func Ref_List(list []objects.IHitObject, d *difficulty.Difficulty) []*preprocessing.DifficultyObject {
	wrap := func(i int) objects.IHitObject {
		if s, ok := list[i].(*objects.Slider); ok {
			return preprocessing.NewLazySlider(s, d)
		}
		return list[i]
	}
	var out []*preprocessing.DifficultyObject
	for i := 1; i < len(list); i++ {
		var before objects.IHitObject
		if i >= 2 {
			before = wrap(i - 2)
		}
		out = append(out, preprocessing.NewDifficultyObject(wrap(i), before, wrap(i-1), d))
	}
	return out
}
