// Package c05 is the osu! ppv2 formula of November 2021.
package c05

import (
	"math"

	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/performance/osu"
)

const (
	noFail     = 1 << 0
	touch      = 1 << 2
	hidden     = 1 << 3
	relax      = 1 << 7
	flashlight = 1 << 10
	spunOut    = 1 << 12
	scoreV2    = 1 << 29
)

type score struct {
	a                          osu.Attributes
	maxCombo, combo            int
	great, ok, meh, miss, hits int
	effMiss                    int
	mods                       difficulty.Modifier
	ar, od, acc                float64
	judged                     int
}

func (s score) has(m difficulty.Modifier) bool { return s.mods&m != 0 }

func least(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func most(a, b int) int {
	if a < b {
		return b
	}
	return a
}

func newScore(a osu.Attributes, combo, n300, n100, n50, nmiss int, d *difficulty.Difficulty) score {
	s := score{a: a, combo: combo, great: n300, ok: n100, meh: n50, miss: nmiss, mods: d.Mods, ar: d.ARReal, od: d.ODReal}
	s.maxCombo = most(1, a.MaxCombo)
	if combo < 0 {
		s.combo = s.maxCombo
	}
	if n300 < 0 {
		s.great = a.ObjectCount - n100 - n50 - nmiss
	}
	s.hits = s.great + s.ok + s.meh + s.miss

	// misses and slider breaks guessed from the combo
	guessed := 0.0
	if a.Sliders > 0 {
		full := float64(s.maxCombo) - float64(a.Sliders)/10
		if c := float64(s.combo); c < full {
			guessed = full / math.Max(1, c)
		}
	}
	s.effMiss = most(s.miss, int(math.Floor(math.Min(guessed, float64(s.hits)))))

	s.acc = 0
	if s.hits != 0 {
		points := 300*float64(s.great) + 100*float64(s.ok) + 50*float64(s.meh)
		s.acc = math.Min(1, math.Max(0, points/(300*float64(s.hits))))
	}

	s.judged = a.Circles
	if s.has(scoreV2) {
		s.judged = a.ObjectCount
	}
	return s
}

// relaxed is the score with the misses Relax counts.
func (s score) relaxed() score {
	if s.has(relax) {
		s.effMiss = least(s.effMiss+s.ok+s.meh, s.hits)
	}
	return s
}

func base(stars float64) float64 {
	return math.Pow(5*math.Max(1, stars/0.0675)-4, 3) / 100000
}

func (s score) length() float64 {
	b := 0.95 + 0.4*math.Min(1, float64(s.hits)/2000)
	if s.hits > 2000 {
		b += 0.5 * math.Log10(float64(s.hits)/2000)
	}
	return b
}

func (s score) missed(exponent float64) float64 {
	if s.effMiss <= 0 {
		return 1
	}
	return 0.97 * math.Pow(1-math.Pow(float64(s.effMiss)/float64(s.hits), 0.775), exponent)
}

func (s score) comboScale() float64 {
	if s.maxCombo <= 0 {
		return 1
	}
	return math.Min(math.Pow(float64(s.combo), 0.8)/math.Pow(float64(s.maxCombo), 0.8), 1)
}

func (s score) hd() float64 {
	if s.has(hidden) {
		return 1 + 0.04*(12-s.ar)
	}
	return 1
}

func (s score) aim() float64 {
	raw := s.a.Aim
	if s.has(touch) {
		raw = math.Pow(raw, 0.8)
	}
	v := base(raw) * s.length() * s.missed(float64(s.effMiss)) * s.comboScale()

	f := 0.0
	switch {
	case s.ar > 10.33:
		f = 0.3 * (s.ar - 10.33)
	case s.ar < 8:
		f = 0.1 * (8 - s.ar)
	}
	v *= 1 + f*s.length()
	v *= s.hd()

	if s.a.Sliders > 0 {
		hard := 0.15 * float64(s.a.Sliders)
		dropped := math.Min(hard, math.Max(0, float64(least(s.ok+s.meh+s.miss, s.maxCombo-s.combo))))
		v *= s.a.SliderFactor + (1-s.a.SliderFactor)*math.Pow(1-dropped/hard, 3)
	}

	return v * s.acc * (0.98 + s.od*s.od/2500)
}

func (s score) speed() float64 {
	v := base(s.a.Speed) * s.length() * s.missed(math.Pow(float64(s.effMiss), 0.875)) * s.comboScale()
	if s.ar > 10.33 {
		v *= 1 + 0.3*(s.ar-10.33)*s.length()
	}
	v *= s.hd()
	v *= 0.95 + s.od*s.od/750
	v *= math.Pow(s.acc, (14.5-math.Max(s.od, 8))/2)

	limit := float64(s.hits) / 500
	over := 0.0
	if float64(s.meh) >= limit {
		over = float64(s.meh) - limit
	}
	return v * math.Pow(0.98, over)
}

func (s score) accuracy() float64 {
	if s.has(relax) {
		return 0
	}
	p := 0.0
	if s.judged > 0 {
		p = float64(6*(s.great-(s.hits-s.judged))+2*s.ok+s.meh) / (6 * float64(s.judged))
	}
	if p < 0 {
		p = 0
	}
	v := 2.83 * math.Pow(1.52163, s.od) * math.Pow(p, 24)
	v *= math.Min(1.15, math.Pow(float64(s.judged)/1000, 0.3))
	if s.has(hidden) {
		v *= 1.08
	}
	if s.has(flashlight) {
		v *= 1.02
	}
	return v
}

func (s score) flashlight() float64 {
	if !s.has(flashlight) {
		return 0
	}
	raw := s.a.Flashlight
	if s.has(touch) {
		raw = math.Pow(raw, 0.8)
	}
	v := 25 * raw * raw
	if s.has(hidden) {
		v *= 1.3
	}
	v *= s.missed(math.Pow(float64(s.effMiss), 0.875)) * s.comboScale()

	short := 0.7 + 0.1*math.Min(1, float64(s.hits)/200)
	if s.hits > 200 {
		short += 0.2 * math.Min(1, float64(s.hits-200)/200)
	}
	return v * short * (0.5 + s.acc/2) * (0.98 + s.od*s.od/2500)
}

// multiplier uses the misses before Relax.
func (s score) multiplier() float64 {
	m := 1.12
	if s.has(noFail) {
		m *= math.Max(0.9, 1-0.02*float64(s.effMiss))
	}
	if s.hits > 0 && s.has(spunOut) {
		m *= 1 - math.Pow(float64(s.a.Spinners)/float64(s.hits), 0.85)
	}
	if s.has(relax) {
		m *= 0.6
	}
	return m
}

func run(a osu.Attributes, combo, n300, n100, n50, nmiss int, d *difficulty.Difficulty) osu.PPv2Results {
	var pp osu.PPv2
	return pp.PPv2x(a, combo, n300, n100, n50, nmiss, d).Results
}

func Impl_Aim(a osu.Attributes, combo, n300, n100, n50, nmiss int, d *difficulty.Difficulty) float64 {
	return run(a, combo, n300, n100, n50, nmiss, d).Aim
}
func Ref_Aim(a osu.Attributes, combo, n300, n100, n50, nmiss int, d *difficulty.Difficulty) float64 {
	return newScore(a, combo, n300, n100, n50, nmiss, d).relaxed().aim()
}

func Impl_Speed(a osu.Attributes, combo, n300, n100, n50, nmiss int, d *difficulty.Difficulty) float64 {
	return run(a, combo, n300, n100, n50, nmiss, d).Speed
}
func Ref_Speed(a osu.Attributes, combo, n300, n100, n50, nmiss int, d *difficulty.Difficulty) float64 {
	return newScore(a, combo, n300, n100, n50, nmiss, d).relaxed().speed()
}

func Impl_Acc(a osu.Attributes, combo, n300, n100, n50, nmiss int, d *difficulty.Difficulty) float64 {
	return run(a, combo, n300, n100, n50, nmiss, d).Acc
}
func Ref_Acc(a osu.Attributes, combo, n300, n100, n50, nmiss int, d *difficulty.Difficulty) float64 {
	return newScore(a, combo, n300, n100, n50, nmiss, d).relaxed().accuracy()
}

func Impl_Flashlight(a osu.Attributes, combo, n300, n100, n50, nmiss int, d *difficulty.Difficulty) float64 {
	return run(a, combo, n300, n100, n50, nmiss, d).Flashlight
}
func Ref_Flashlight(a osu.Attributes, combo, n300, n100, n50, nmiss int, d *difficulty.Difficulty) float64 {
	return newScore(a, combo, n300, n100, n50, nmiss, d).relaxed().flashlight()
}

// The total is stated over the parts, which the other pairs decide.
func Impl_Total(a osu.Attributes, combo, n300, n100, n50, nmiss int, d *difficulty.Difficulty) float64 {
	return run(a, combo, n300, n100, n50, nmiss, d).Total
}
func Ref_Total(a osu.Attributes, combo, n300, n100, n50, nmiss int, d *difficulty.Difficulty) float64 {
	r := run(a, combo, n300, n100, n50, nmiss, d)
	sum := math.Pow(r.Aim, 1.1) + math.Pow(r.Speed, 1.1) + math.Pow(r.Acc, 1.1) + math.Pow(r.Flashlight, 1.1)
	return math.Pow(sum, 1/1.1) * newScore(a, combo, n300, n100, n50, nmiss, d).multiplier()
}
