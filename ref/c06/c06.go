// Package c06 states that a pp calculation depends only on its arguments.
package c06

import (
	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/performance/osu"
)

// A calculator in any state gives the results of a new one.
func Impl_History(pp osu.PPv2, a osu.Attributes, combo, n300, n100, n50, nmiss int, d *difficulty.Difficulty) osu.PPv2Results {
	return pp.PPv2x(a, combo, n300, n100, n50, nmiss, d).Results
}
func Ref_History(pp osu.PPv2, a osu.Attributes, combo, n300, n100, n50, nmiss int, d *difficulty.Difficulty) osu.PPv2Results {
	var fresh osu.PPv2
	return fresh.PPv2x(a, combo, n300, n100, n50, nmiss, d).Results
}

// The calculator keeps the results that were returned.
func Impl_Kept(pp osu.PPv2, a osu.Attributes, combo, n300, n100, n50, nmiss int, d *difficulty.Difficulty) osu.PPv2Results {
	pp.PPv2x(a, combo, n300, n100, n50, nmiss, d)
	return pp.Results
}
func Ref_Kept(pp osu.PPv2, a osu.Attributes, combo, n300, n100, n50, nmiss int, d *difficulty.Difficulty) osu.PPv2Results {
	return pp.PPv2x(a, combo, n300, n100, n50, nmiss, d).Results
}

// The difficulty stays as it was.
func Impl_Difficulty(pp osu.PPv2, a osu.Attributes, combo, n300, n100, n50, nmiss int, d *difficulty.Difficulty) difficulty.Difficulty {
	pp.PPv2x(a, combo, n300, n100, n50, nmiss, d)
	return *d
}
func Ref_Difficulty(pp osu.PPv2, a osu.Attributes, combo, n300, n100, n50, nmiss int, d *difficulty.Difficulty) difficulty.Difficulty {
	return *d
}

// A second calculation on the same calculator does not see the first.
func Impl_Twice(pp osu.PPv2, a, a2 osu.Attributes, combo, n300, n100, n50, nmiss, combo2, n3002, n1002, n502, nmiss2 int, d, d2 *difficulty.Difficulty) osu.PPv2Results {
	pp.PPv2x(a2, combo2, n3002, n1002, n502, nmiss2, d2)
	return pp.PPv2x(a, combo, n300, n100, n50, nmiss, d).Results
}
func Ref_Twice(pp osu.PPv2, a, a2 osu.Attributes, combo, n300, n100, n50, nmiss, combo2, n3002, n1002, n502, nmiss2 int, d, d2 *difficulty.Difficulty) osu.PPv2Results {
	var fresh osu.PPv2
	return fresh.PPv2x(a, combo, n300, n100, n50, nmiss, d).Results
}
