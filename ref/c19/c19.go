// Package c19 is how osu! builds slider paths.
package c19

import (
	"math"
	"sort"

	"github.com/Wieku/gosu-pp/math/curves"
	"github.com/Wieku/gosu-pp/math/math32"
	"github.com/Wieku/gosu-pp/math/vector"
)

func assume(bool) {}

type at = vector.Vector2f

func between(a, b at) float32 {
	x, y := a.X-b.X, a.Y-b.Y
	return float32(math.Sqrt(float64(x*x + y*y)))
}

func seg(a, b at) curves.Linear { return curves.Linear{Point1: a, Point2: b} }

// Pieces of the paths of every type.

//verif:opaque Linear: github.com/Wieku/gosu-pp/math/curves.ApproximateBezier
//verif:opaque Bezier: github.com/Wieku/gosu-pp/math/curves.ApproximateBezier
//verif:opaque Perfect: github.com/Wieku/gosu-pp/math/curves.ApproximateBezier github.com/Wieku/gosu-pp/math/curves.ApproximateCircularArc
//verif:opaque Catmull: github.com/Wieku/gosu-pp/math/curves.ApproximateCatmullRom

func Impl_Linear(points []at) []curves.Linear {
	assume(len(points) > 0)
	return curves.NewMultiCurve("L", points).GetLines()
}
func Ref_Linear(points []at) []curves.Linear {
	return straight(points)
}

func straight(points []at) (out []curves.Linear) {
	for i := 1; i < len(points); i++ {
		if points[i-1] != points[i] {
			out = append(out, seg(points[i-1], points[i]))
		}
	}
	return
}

func Impl_Perfect(points []at) []curves.Linear {
	assume(len(points) > 0)
	return curves.NewMultiCurve("P", points).GetLines()
}
func Ref_Perfect(points []at) []curves.Linear {
	if len(points) > 3 {
		return smooth(points)
	}
	if len(points) < 3 || flat(points[0], points[1], points[2]) {
		return straight(points)
	}
	return curves.ApproximateCircularArc(points[0], points[1], points[2], 0.125)
}

// flat is the test of osu! for points on a line: almost no area.
func flat(a, b, c at) bool {
	return float32(math.Abs(float64((b.X-a.X)*(c.Y-a.Y)-(c.X-a.X)*(b.Y-a.Y)))) < 0.001
}

func Impl_Bezier(points []at) []curves.Linear {
	assume(len(points) > 0)
	return curves.NewMultiCurve("B", points).GetLines()
}
func Ref_Bezier(points []at) []curves.Linear { return smooth(points) }

// smooth joins Bezier curves, which end at every doubled point.
func smooth(points []at) (out []curves.Linear) {
	first := 0
	for i := 0; i < len(points); i++ {
		double := i+2 < len(points) && points[i] == points[i+1]
		if !double && i+1 != len(points) {
			continue
		}
		if i-first == 1 {
			out = append(out, seg(points[first], points[i]))
		} else {
			out = append(out, curves.ApproximateBezier(points[first:i+1])...)
		}
		if double {
			i++
		}
		first = i
	}
	return
}

func Impl_Catmull(points []at) []curves.Linear {
	assume(len(points) > 0)
	return curves.NewMultiCurve("C", points).GetLines()
}
func Ref_Catmull(points []at) (out []curves.Linear) {
	n := len(points)
	for i := 0; i+1 < n; i++ {
		before, from, to := points[i], points[i], points[i+1]
		if i > 0 {
			before = points[i-1]
		}
		after := at{X: to.X + (to.X - from.X), Y: to.Y + (to.Y - from.Y)}
		if i+2 < n {
			after = points[i+2]
		}
		out = append(out, curves.ApproximateCatmullRom([]at{before, from, to, after}, 50)...)
	}
	return
}

// The declared length.

func total(lines []curves.Linear) (sum float32) {
	for _, l := range lines {
		sum += between(l.Point1, l.Point2)
	}
	return
}

func cut(lines []curves.Linear, want float64) []curves.Linear {
	length := total(lines)
	if !(length > 0) {
		return lines
	}
	over := float64(length) - want
	for n := len(lines); n > 0; n-- {
		last := lines[n-1]
		size := between(last.Point1, last.Point2)
		if float64(size) > over+0.0001 {
			if last.Point1 == last.Point2 {
				return lines[:n]
			}
			part := (size - float32(over)) / size
			end := at{X: last.Point1.X + (last.Point2.X-last.Point1.X)*part, Y: last.Point1.Y + (last.Point2.Y-last.Point1.Y)*part}
			return append(append([]curves.Linear{}, lines[:n-1]...), seg(last.Point1, end))
		}
		over -= float64(size)
	}
	return nil
}

func Impl_Cut(points []at, want float64) []curves.Linear {
	assume(len(points) > 1)
	return curves.NewMultiCurveT("L", points, want).GetLines()
}
func Ref_Cut(points []at, want float64) []curves.Linear {
	return cut(straight(points), want)
}

// Points of a path.

func Impl_PointAt(points []at, want float64, t float32) at {
	assume(len(points) > 0)
	return curves.NewMultiCurveT("L", points, want).PointAt(t)
}
func Ref_PointAt(points []at, want float64, t float32) at {
	lines := cut(straight(points), want)
	length := total(lines)
	if len(lines) == 0 || length == 0 {
		return points[0]
	}
	to := length * float32(math.Min(1, math.Max(0, float64(t))))

	var ends []float32
	sum := float32(0)
	for _, l := range lines {
		sum += between(l.Point1, l.Point2)
		ends = append(ends, sum)
	}
	i := sort.Search(len(ends), func(i int) bool { return to <= ends[i] })
	if i > len(ends)-1 {
		i = len(ends) - 1
	}
	from := float32(0)
	if i > 0 {
		from = ends[i-1]
	}
	l := lines[i]
	if ends[i]-from == 0 {
		return l.Point1
	}
	part := (to - from) / (ends[i] - from)
	return at{X: l.Point1.X + (l.Point2.X-l.Point1.X)*part, Y: l.Point1.Y + (l.Point2.Y-l.Point1.Y)*part}
}

func Impl_Length(points []at, want float64) float32 {
	assume(len(points) > 0)
	return curves.NewMultiCurveT("L", points, want).GetLength()
}
func Ref_Length(points []at, want float64) float32 {
	return total(cut(straight(points), want))
}

// Bezier curves.

func Impl_Binomial(n, k int64) int64 { return curves.BinomialCoefficient(n, k) }
func Ref_Binomial(n, k int64) int64 {
	if k < 0 || k > n {
		return 0
	}
	if k == 0 || k == n {
		return 1
	}
	if n-k < k {
		k = n - k
	}
	r := int64(1)
	for j := int64(0); j < k; j++ {
		r = r * (n - j) / (j + 1)
	}
	return r
}

//verif:opaque BezierAt: github.com/Wieku/gosu-pp/math/curves.BinomialCoefficient

func Impl_BezierAt(points []at, t float32) at {
	return curves.NewBezierNA(points).PointAt(t)
}
func Ref_BezierAt(points []at, t float32) (p at) {
	n := int64(len(points)) - 1
	for i, q := range points {
		up := float32(math.Pow(float64(t), float64(float32(i))))
		down := float32(math.Pow(float64(1-t), float64(float32(n-int64(i)))))
		w := float32(curves.BinomialCoefficient(n, int64(i))) * up * down
		p.X += q.X * w
		p.Y += q.Y * w
	}
	return
}

// Catmull splines and circles.

func Impl_CatmullPart(a, b, c, d at, n int) []curves.Linear {
	assume(n >= 0)
	return curves.ApproximateCatmullRom([]at{a, b, c, d}, n)
}
func Ref_CatmullPart(a, b, c, d at, n int) []curves.Linear {
	one := func(a, b, c, d, t float32) float32 {
		return (2*b + (c-a)*t + (2*a-5*b+4*c-d)*t*t + (3*b-a-3*c+d)*t*t*t) / 2
	}
	on := func(t float32) at { return at{X: one(a.X, b.X, c.X, d.X, t), Y: one(a.Y, b.Y, c.Y, d.Y, t)} }
	var out []curves.Linear
	for i := 0; i < n; i++ {
		out = append(out, seg(on(float32(i)/float32(n)), on(float32(i+1)/float32(n))))
	}
	return out
}

type circle struct {
	From, All, Dir, R float32
	Centre            at
}

func round(a, b, c at) circle {
	var o circle
	d := 2 * (a.X*(b.Y-c.Y) + b.X*(c.Y-a.Y) + c.X*(a.Y-b.Y))
	a2, b2, c2 := a.X*a.X+a.Y*a.Y, b.X*b.X+b.Y*b.Y, c.X*c.X+c.Y*c.Y
	o.Centre = at{
		X: (a2*(b.Y-c.Y) + b2*(c.Y-a.Y) + c2*(a.Y-b.Y)) * (1 / d),
		Y: (a2*(c.X-b.X) + b2*(a.X-c.X) + c2*(b.X-a.X)) * (1 / d),
	}
	o.R = between(a, o.Centre)
	angle := func(p at) float32 { return float32(math.Atan2(float64(p.Y-o.Centre.Y), float64(p.X-o.Centre.X))) }
	o.From = angle(a)
	end := angle(c)
	for end < o.From {
		end += 2 * math32.Pi
	}
	o.Dir, o.All = 1, end-o.From
	if (c.Y-a.Y)*(b.X-a.X)-(c.X-a.X)*(b.Y-a.Y) < 0 {
		o.Dir, o.All = -1, 2*math.Pi-o.All
	}
	return o
}

func (o circle) on(t float32) at {
	angle := o.From + o.Dir*t*o.All
	return at{X: float32(math.Cos(float64(angle)))*o.R + o.Centre.X, Y: float32(math.Sin(float64(angle)))*o.R + o.Centre.Y}
}

func Impl_Circle(a, b, c at, t float32) at { return curves.NewCirArc(a, b, c).PointAt(t) }
func Ref_Circle(a, b, c at, t float32) at  { return round(a, b, c).on(t) }
func Impl_CircleLength(a, b, c at) float32 { return curves.NewCirArc(a, b, c).GetLength() }
func Ref_CircleLength(a, b, c at) float32  { o := round(a, b, c); return o.R * o.All }
func Impl_Arc(a, b, c at, detail float32) []curves.Linear {
	return curves.ApproximateCircularArc(a, b, c, detail)
}
func Ref_Arc(a, b, c at, detail float32) []curves.Linear {
	two := []curves.Linear{seg(a, b), seg(b, c)}
	if flat(a, b, c) {
		return two
	}
	o := round(a, b, c)
	parts := o.R * o.All * detail
	if !(parts >= 0) || !(parts <= 1<<20) {
		return two
	}
	n := int(parts) // not negative
	out := make([]curves.Linear, n)
	for i := range out {
		out[i] = seg(o.on(float32(i)/float32(n)), o.on(float32(i+1)/float32(n)))
	}
	return out
}

// Pieces of Bezier curves: de Casteljau's algorithm, for cubic curves.

func half(a, b at) at { return at{X: (a.X + b.X) / 2, Y: (a.Y + b.Y) / 2} }

func split(a, b, c, d at) (l, r [4]at) {
	ab, bc, cd := half(a, b), half(b, c), half(c, d)
	abc, bcd := half(ab, bc), half(bc, cd)
	mid := half(abc, bcd)
	return [4]at{a, ab, abc, mid}, [4]at{mid, bcd, cd, d}
}

func Impl_Halves(a, b, c, d at) (l, r [4]at) {
	points := []at{a, b, c, d}
	x, y := make([]at, 4), make([]at, 4)
	curves.NewBezierApproximator(points).Subdivide(points, x, y)
	for i := 0; i < 4; i++ {
		l[i], r[i] = x[i], y[i]
	}
	return
}
func Ref_Halves(a, b, c, d at) (l, r [4]at) { return split(a, b, c, d) }

func Impl_Flatten(a, b, c, d at) []at {
	points := []at{a, b, c, d}
	out := make([]at, 0)
	curves.NewBezierApproximator(points).Approximate(points, &out)
	return out
}
func Ref_Flatten(a, b, c, d at) []at {
	l, r := split(a, b, c, d)
	p := [7]at{l[0], l[1], l[2], l[3], r[1], r[2], r[3]}
	on := func(i int) at {
		return at{X: (p[i-1].X + 2*p[i].X + p[i+1].X) / 4, Y: (p[i-1].Y + 2*p[i].Y + p[i+1].Y) / 4}
	}
	return []at{a, on(2), on(4)}
}

func Impl_Flat(points []at) bool { return curves.IsFlatEnough(points) }
func Ref_Flat(points []at) bool {
	for i := 1; i < len(points)-1; i++ {
		x := points[i-1].X - 2*points[i].X + points[i+1].X
		y := points[i-1].Y - 2*points[i].Y + points[i+1].Y
		if x*x+y*y > 0.25 {
			return false
		}
	}
	return true
}

// Curves that are flat enough at once or after one split.

func split3(a, b, c at) (l, r []at) {
	ab, bc := half(a, b), half(b, c)
	mid := half(ab, bc)
	return []at{a, ab, mid}, []at{mid, bc, c}
}

func middle(a, b, c at) at {
	l, r := split3(a, b, c)
	return at{X: (l[1].X + 2*l[2].X + r[1].X) / 4, Y: (l[1].Y + 2*l[2].Y + r[1].Y) / 4}
}

func Impl_Split0(a, b, c at) []curves.Linear {
	points := []at{a, b, c}
	if !curves.IsFlatEnough(points) {
		return nil
	}
	return curves.ApproximateBezier(points)
}
func Ref_Split0(a, b, c at) []curves.Linear {
	if !curves.IsFlatEnough([]at{a, b, c}) {
		return nil
	}
	m := middle(a, b, c)
	return []curves.Linear{seg(a, m), seg(m, c)}
}

func Impl_Split1(a, b, c at) []curves.Linear {
	points := []at{a, b, c}
	l, r := split3(a, b, c)
	if curves.IsFlatEnough(points) || !curves.IsFlatEnough(l) || !curves.IsFlatEnough(r) {
		return nil
	}
	return curves.ApproximateBezier(points)
}
func Ref_Split1(a, b, c at) []curves.Linear {
	points := []at{a, b, c}
	l, r := split3(a, b, c)
	if curves.IsFlatEnough(points) || !curves.IsFlatEnough(l) || !curves.IsFlatEnough(r) {
		return nil
	}
	p, q := middle(l[0], l[1], l[2]), middle(r[0], r[1], r[2])
	return []curves.Linear{seg(a, p), seg(p, r[0]), seg(r[0], q), seg(q, c)}
}

// Curves that need two rounds of splits: the halves of a quadratic curve are
// equally flat.

func Impl_Split2(a, b, c at) []curves.Linear {
	if quarters(a, b, c) == nil {
		return nil
	}
	return curves.ApproximateBezier([]at{a, b, c})
}
func Ref_Split2(a, b, c at) (out []curves.Linear) {
	for _, q := range quarters(a, b, c) {
		m := middle(q[0], q[1], q[2])
		out = append(out, seg(q[0], m), seg(m, q[2]))
	}
	return
}

func quarters(a, b, c at) [][]at {
	l, r := split3(a, b, c)
	if curves.IsFlatEnough([]at{a, b, c}) || curves.IsFlatEnough(l) {
		return nil
	}
	ll, lr := split3(l[0], l[1], l[2])
	if !curves.IsFlatEnough(ll) {
		return nil
	}
	rl, rr := split3(r[0], r[1], r[2])
	return [][]at{ll, lr, rl, rr}
}

// The directions of a path: from its ends, and along the part at a fraction.

type turns struct{ Start, End, StartAt, EndAt float32 }

func heading(from, to at) float32 {
	return float32(math.Atan2(float64(from.Y-to.Y), float64(from.X-to.X)))
}

func Impl_Angles(points []at, want float64, t float32) turns {
	assume(len(points) > 0)
	c := curves.NewMultiCurveT("L", points, want)
	return turns{c.GetStartAngle(), c.GetEndAngle(), c.GetStartAngleAt(t), c.GetEndAngleAt(t)}
}
func Ref_Angles(points []at, want float64, t float32) (out turns) {
	lines := cut(straight(points), want)
	if len(lines) == 0 {
		return
	}
	first, last := lines[0], lines[len(lines)-1]
	out.Start = heading(first.Point1, first.Point2)
	out.End = heading(last.Point2, last.Point1)

	to := total(lines) * float32(math.Min(1, math.Max(0, float64(t))))
	var ends []float32
	sum := float32(0)
	for _, l := range lines {
		sum += between(l.Point1, l.Point2)
		ends = append(ends, sum)
	}
	i := sort.Search(len(ends), func(i int) bool { return to <= ends[i] })
	if i > len(ends)-1 {
		i = len(ends) - 1
	}
	out.StartAt = heading(lines[i].Point1, lines[i].Point2)
	out.EndAt = heading(lines[i].Point2, lines[i].Point1)
	return
}

func Impl_CircleAngles(a, b, c at) (float32, float32) {
	o := curves.NewCirArc(a, b, c)
	return o.GetStartAngle(), o.GetEndAngle()
}
func Ref_CircleAngles(a, b, c at) (float32, float32) {
	o := round(a, b, c)
	length := o.R * o.All
	return heading(a, o.on(1/length)), heading(c, o.on((length-1)/length))
}

// The length and the directions of a Bezier curve, by points on it.

//verif:opaque BezierLength: (*github.com/Wieku/gosu-pp/math/curves.Bezier).PointAt
//verif:opaque BezierAngles: (*github.com/Wieku/gosu-pp/math/curves.Bezier).PointAt

func hull(points []at) (sum float32) {
	for i := 0; i+1 < len(points); i++ {
		sum += between(points[i+1], points[i])
	}
	return
}

func Impl_BezierLength(points []at) (float32, float32) {
	assume(len(points) > 0)
	return curves.NewBezier(points).GetLength(), curves.NewBezierNA(points).GetLength()
}
func Ref_BezierLength(points []at) (sum, rough float32) {
	b := curves.NewBezierNA(points)
	rough = hull(points)
	parts := float32(math.Ceil(float64(rough)))
	last := points[0]
	for i := 0; i < int(parts); i++ {
		p := b.PointAt(float32(i+1) / parts)
		sum += between(last, p)
		last = p
	}
	return
}

func Impl_BezierAngles(points []at) (float32, float32) {
	assume(len(points) > 0)
	b := curves.NewBezierNA(points)
	return b.GetStartAngle(), b.GetEndAngle()
}
func Ref_BezierAngles(points []at) (float32, float32) {
	b := curves.NewBezierNA(points)
	return heading(points[0], b.PointAt(1/hull(points))), heading(points[len(points)-1], b.PointAt(1-1/hull(points)))
}
