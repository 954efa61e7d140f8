package vg

import "math"

// foldMath folds a pure math function on constants.
func foldMath(name string, v []float64) (float64, bool) {
	switch name {
	case "Pow":
		return math.Pow(v[0], v[1]), true
	case "Sqrt":
		return math.Sqrt(v[0]), true
	case "Cbrt":
		return math.Cbrt(v[0]), true
	case "Log10":
		return math.Log10(v[0]), true
	case "Floor":
		return math.Floor(v[0]), true
	case "Ceil":
		return math.Ceil(v[0]), true
	case "Exp":
		return math.Exp(v[0]), true
	case "Log":
		return math.Log(v[0]), true
	case "Sin":
		return math.Sin(v[0]), true
	case "Cos":
		return math.Cos(v[0]), true
	}
	return 0, false
}
