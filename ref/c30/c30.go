// Package c30 is what the vector and interpolation helpers are to compute.
package c30

import (
	"math"

	"github.com/Wieku/gosu-pp/math/math32"
	"github.com/Wieku/gosu-pp/math/mutils"
	"github.com/Wieku/gosu-pp/math/vector"
)

type vec = vector.Vector2f

func Impl_New(x, y, rad, length float32) (a, b vec) {
	return vector.NewVec2f(x, y), vector.NewVec2fRad(rad, length)
}
func Ref_New(x, y, rad, length float32) (a, b vec) {
	return vec{X: x, Y: y}, vec{X: float32(math.Cos(float64(rad))) * length, Y: float32(math.Sin(float64(rad))) * length}
}

type parts struct{ X, Y float64 }

func Impl_Parts(v vec) (parts, vec, vec) { return parts{v.X64(), v.Y64()}, v.Copy(), v.Abs() }
func Ref_Parts(v vec) (parts, vec, vec) {
	return parts{float64(v.X), float64(v.Y)}, v, vec{X: float32(math.Abs(float64(v.X))), Y: float32(math.Abs(float64(v.Y)))}
}

type sums struct{ Add, AddS, Sub, SubS, Mult, Mid, Scl vec }

func Impl_Sums(v, w vec, f float32) sums {
	return sums{v.Add(w), v.AddS(w.X, w.Y), v.Sub(w), v.SubS(w.X, w.Y), v.Mult(w), v.Mid(w), v.Scl(f)}
}
func Ref_Sums(v, w vec, f float32) sums {
	sum, difference := vec{X: v.X + w.X, Y: v.Y + w.Y}, vec{X: v.X - w.X, Y: v.Y - w.Y}
	return sums{sum, sum, difference, difference, vec{X: v.X * w.X, Y: v.Y * w.Y}, vec{X: (v.X + w.X) / 2, Y: (v.Y + w.Y) / 2}, vec{X: f * v.X, Y: f * v.Y}}
}

func root(x float32) float32 { return float32(math.Sqrt(float64(x))) }

type widths struct{ Dot, Dst, DstSq, Len, LenSq float32 }

func Impl_Widths(v, w vec) widths {
	return widths{v.Dot(w), v.Dst(w), v.DstSq(w), v.Len(), v.LenSq()}
}
func Ref_Widths(v, w vec) widths {
	dx, dy := w.X-v.X, w.Y-v.Y
	return widths{v.X*w.X + v.Y*w.Y, root(dx*dx + dy*dy), dx*dx + dy*dy, root(v.X*v.X + v.Y*v.Y), v.X*v.X + v.Y*v.Y}
}

type angles struct{ Angle, AngleR, AngleRV float32 }

func Impl_Angles(v, w vec) angles { return angles{v.Angle(), v.AngleR(), v.AngleRV(w)} }
func Ref_Angles(v, w vec) angles {
	a := float32(math.Atan2(float64(v.Y), float64(v.X)))
	return angles{a * 180 / float32(math.Pi), a, float32(math.Atan2(float64(v.Y-w.Y), float64(v.X-w.X)))}
}

func Impl_Between(centre, p, q vec) float32 { return vector.AngleBetween32(centre, p, q) }
func Ref_Between(centre, p, q vec) float32 {
	far := func(a, b vec) float32 {
		dx, dy := b.X-a.X, b.Y-a.Y
		return root(dx*dx + dy*dy)
	}
	a, b, c := far(centre, p), far(centre, q), far(p, q)
	return float32(math.Acos(float64((a*a + b*b - c*c) / (2 * a * b))))
}

func Impl_Unit(v vec) vec { return v.Nor() }
func Ref_Unit(v vec) vec {
	square := v.X*v.X + v.Y*v.Y
	if square < 0.00001 {
		return v
	}
	return vec{X: v.X / root(square), Y: v.Y / root(square)}
}

func Impl_Rotate(v vec, rad float32) vec { return v.Rotate(rad) }
func Ref_Rotate(v vec, rad float32) vec {
	c, s := float32(math.Cos(float64(rad))), float32(math.Sin(float64(rad)))
	return vec{X: v.X*c - v.Y*s, Y: v.X*s + v.Y*c}
}

func Impl_Lerp(v, w vec, t float32, a, b, u float64) (vec, float32, float64) {
	return v.Lerp(w, t), mutils.LerpF32(v.X, w.X, t), mutils.LerpF64(a, b, u)
}
func Ref_Lerp(v, w vec, t float32, a, b, u float64) (vec, float32, float64) {
	return vec{X: v.X + (w.X-v.X)*t, Y: v.Y + (w.Y-v.Y)*t}, v.X + (w.X-v.X)*t, a + (b-a)*u
}

func Impl_Straight(a, b, c vec) bool { return vector.IsStraightLine32(a, b, c) }
func Ref_Straight(a, b, c vec) bool {
	return float32(math.Abs(float64((b.Y-a.Y)*(c.X-a.X)-(b.X-a.X)*(c.Y-a.Y)))) < 0.001
}

type ints struct {
	Min, Max, Clamp       int
	Min64, Max64, Clamp64 int64
}

func Impl_Ints(a, b, c int, d, e, f int64) ints {
	return ints{mutils.MinI(a, b), mutils.MaxI(a, b), mutils.ClampI(a, b, c), mutils.MinI64(d, e), mutils.MaxI64(d, e), mutils.ClampI64(d, e, f)}
}
func Ref_Ints(a, b, c int, d, e, f int64) ints {
	out := ints{a, b, a, d, e, d}
	if b < a {
		out.Min, out.Max, out.Clamp = b, a, a
	} else {
		out.Clamp = b
	}
	if c < out.Clamp {
		out.Clamp = c
	}
	if e < d {
		out.Min64, out.Max64, out.Clamp64 = e, d, d
	} else {
		out.Clamp64 = e
	}
	if f < out.Clamp64 {
		out.Clamp64 = f
	}
	return out
}

func Impl_Clamps(a, b, c float32, d, e, f float64) (float32, float64) {
	return mutils.ClampF32(a, b, c), mutils.ClampF64(d, e, f)
}
func Ref_Clamps(a, b, c float32, d, e, f float64) (float32, float64) {
	return float32(math.Min(float64(c), math.Max(float64(b), float64(a)))), math.Min(f, math.Max(e, d))
}

type floats struct {
	Abs, Acos, Asin, Atan, Ceil, Cos, Floor, Round, Sin, Sqrt, Tan, Atan2, Max, Min, Mod, Pow float32
	NaN                                                                                       bool
}

func Impl_Floats(v, w float32) floats {
	return floats{math32.Abs(v), math32.Acos(v), math32.Asin(v), math32.Atan(v), math32.Ceil(v), math32.Cos(v), math32.Floor(v), math32.Round(v), math32.Sin(v),
		math32.Sqrt(v), math32.Tan(v), math32.Atan2(v, w), math32.Max(v, w), math32.Min(v, w), math32.Mod(v, w), math32.Pow(v, w), math32.IsNaN(v)}
}
func Ref_Floats(v, w float32) floats {
	one := func(f func(float64) float64, x float32) float32 { return float32(f(float64(x))) }
	two := func(f func(a, b float64) float64) float32 { return float32(f(float64(v), float64(w))) }
	return floats{one(math.Abs, v), one(math.Acos, v), one(math.Asin, v), one(math.Atan, v), one(math.Ceil, v), one(math.Cos, v), one(math.Floor, v), one(math.Floor, v+0.5), one(math.Sin, v),
		one(math.Sqrt, v), one(math.Tan, v), two(math.Atan2), two(math.Max), two(math.Min), two(math.Mod), two(math.Pow), math.IsNaN(float64(v))}
}
