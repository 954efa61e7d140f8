// Package c03 states how mod sets are read and printed.
package c03

import "github.com/Wieku/gosu-pp/beatmap/difficulty"

type mod struct {
	short, full string
	flag        difficulty.Modifier
}

// The 32 mods by their flags.
func table() []mod {
	return []mod{
		{"NF", "NoFail", difficulty.NoFail},
		{"EZ", "Easy", difficulty.Easy},
		{"TD", "TouchDevice", difficulty.TouchDevice},
		{"HD", "Hidden", difficulty.Hidden},
		{"HR", "HardRock", difficulty.HardRock},
		{"SD", "SuddenDeath", difficulty.SuddenDeath},
		{"DT", "DoubleTime", difficulty.DoubleTime},
		{"RX", "Relax", difficulty.Relax},
		{"HT", "HalfTime", difficulty.HalfTime},
		{"NC", "Nightcore", difficulty.Nightcore},
		{"FL", "Flashlight", difficulty.Flashlight},
		{"AT", "Autoplay", difficulty.Autoplay},
		{"SO", "SpunOut", difficulty.SpunOut},
		{"AP", "Relax2", difficulty.Relax2},
		{"PF", "Perfect", difficulty.Perfect},
		{"K4", "Key4", difficulty.Key4},
		{"K5", "Key5", difficulty.Key5},
		{"K6", "Key6", difficulty.Key6},
		{"K7", "Key7", difficulty.Key7},
		{"K8", "Key8", difficulty.Key8},
		{"FI", "FadeIn", difficulty.FadeIn},
		{"RN", "Random", difficulty.Random},
		{"CN", "Cinema", difficulty.Cinema},
		{"TG", "Target", difficulty.Target},
		{"K9", "Key9", difficulty.Key9},
		{"K0", "KeyCoop", difficulty.KeyCoop},
		{"K1", "Key1", difficulty.Key1},
		{"K3", "Key3", difficulty.Key3},
		{"K2", "Key2", difficulty.Key2},
		{"V2", "ScoreV2", difficulty.ScoreV2},
		{"LM", "LastMod", difficulty.LastMod},
		{"DC", "Daycore", difficulty.Daycore},
	}
}

// The flags have the values osu! gives them.
func Impl_Flags() [33]difficulty.Modifier {
	var r [33]difficulty.Modifier
	for i, m := range table() {
		r[i] = m.flag
	}
	r[32] = difficulty.None
	return r
}
func Ref_Flags() [33]difficulty.Modifier {
	var r [33]difficulty.Modifier
	for i := 0; i < 32; i++ {
		r[i] = 1 << i
	}
	return r
}

func implied(m difficulty.Modifier) difficulty.Modifier {
	if m&difficulty.Nightcore != 0 {
		m |= difficulty.DoubleTime
	}
	if m&difficulty.Perfect != 0 {
		m |= difficulty.SuddenDeath
	}
	if m&difficulty.Daycore != 0 {
		m |= difficulty.HalfTime
	}
	return m
}

// visible is the set without what its other mods imply.
func visible(m difficulty.Modifier) difficulty.Modifier {
	if m&difficulty.Nightcore != 0 {
		m &^= difficulty.DoubleTime
	}
	if m&difficulty.Perfect != 0 {
		m &^= difficulty.SuddenDeath
	}
	if m&difficulty.Daycore != 0 {
		m &^= difficulty.HalfTime
	}
	return m
}

// Every acronym alone.
func Impl_ParseOne() [32]difficulty.Modifier {
	var r [32]difficulty.Modifier
	for i, m := range table() {
		r[i] = difficulty.ParseMods(m.short)
	}
	return r
}
func Ref_ParseOne() [32]difficulty.Modifier {
	var r [32]difficulty.Modifier
	for i, m := range table() {
		r[i] = implied(m.flag)
	}
	return r
}

// Every acronym inside other text: after unknown or other mods, before
// others, before half an acronym, in lower case and out of step.

func Impl_ParseAfterUnknown() [32]difficulty.Modifier {
	var r [32]difficulty.Modifier
	for i, m := range table() {
		r[i] = difficulty.ParseMods("QQ" + m.short)
	}
	return r
}
func Ref_ParseAfterUnknown() [32]difficulty.Modifier {
	var r [32]difficulty.Modifier
	for i, m := range table() {
		r[i] = implied(m.flag)
	}
	return r
}

func Impl_ParseAfterMod() [32]difficulty.Modifier {
	var r [32]difficulty.Modifier
	for i, m := range table() {
		r[i] = difficulty.ParseMods("HD" + m.short)
	}
	return r
}
func Ref_ParseAfterMod() [32]difficulty.Modifier {
	var r [32]difficulty.Modifier
	for i, m := range table() {
		r[i] = implied(difficulty.Hidden | m.flag)
	}
	return r
}

func Impl_ParseBeforeMod() [32]difficulty.Modifier {
	var r [32]difficulty.Modifier
	for i, m := range table() {
		r[i] = difficulty.ParseMods(m.short + "HR")
	}
	return r
}
func Ref_ParseBeforeMod() [32]difficulty.Modifier {
	var r [32]difficulty.Modifier
	for i, m := range table() {
		r[i] = implied(m.flag | difficulty.HardRock)
	}
	return r
}

func Impl_ParseBetween() [32]difficulty.Modifier {
	var r [32]difficulty.Modifier
	for i, m := range table() {
		r[i] = difficulty.ParseMods("PF" + m.short + "DC")
	}
	return r
}
func Ref_ParseBetween() [32]difficulty.Modifier {
	var r [32]difficulty.Modifier
	for i, m := range table() {
		r[i] = implied(difficulty.Perfect | m.flag | difficulty.Daycore)
	}
	return r
}

func Impl_ParseBeforeHalf() [32]difficulty.Modifier {
	var r [32]difficulty.Modifier
	for i, m := range table() {
		r[i] = difficulty.ParseMods(m.short + "N")
	}
	return r
}
func Ref_ParseBeforeHalf() [32]difficulty.Modifier {
	var r [32]difficulty.Modifier
	for i, m := range table() {
		r[i] = implied(m.flag)
	}
	return r
}

func Impl_ParseTwice() [32]difficulty.Modifier {
	var r [32]difficulty.Modifier
	for i, m := range table() {
		r[i] = difficulty.ParseMods(m.short + m.short)
	}
	return r
}
func Ref_ParseTwice() [32]difficulty.Modifier {
	var r [32]difficulty.Modifier
	for i, m := range table() {
		r[i] = implied(m.flag)
	}
	return r
}

func Impl_ParseNotFull() [32]difficulty.Modifier {
	var r [32]difficulty.Modifier
	for i, m := range table() {
		r[i] = difficulty.ParseMods(m.full[:1] + "~")
	}
	return r
}
func Ref_ParseNotFull() [32]difficulty.Modifier {
	var r [32]difficulty.Modifier
	for i := range table() {
		r[i] = implied(difficulty.None)
	}
	return r
}

func Impl_ParseHalf() [32]difficulty.Modifier {
	var r [32]difficulty.Modifier
	for i, m := range table() {
		r[i] = difficulty.ParseMods(m.short[1:])
	}
	return r
}
func Ref_ParseHalf() [32]difficulty.Modifier {
	var r [32]difficulty.Modifier
	for i := range table() {
		r[i] = implied(difficulty.None)
	}
	return r
}

func Impl_ParseNothing() difficulty.Modifier { return difficulty.ParseMods("") }
func Ref_ParseNothing() difficulty.Modifier  { return difficulty.None }

// Printing any set.
func Impl_Print(m difficulty.Modifier) string { return m.String() }
func Ref_Print(m difficulty.Modifier) string {
	s := ""
	for _, x := range table() {
		if visible(m)&x.flag != 0 {
			s += x.short
		}
	}
	return s
}

func Impl_PrintFull(m difficulty.Modifier) []string { return m.StringFull() }
func Ref_PrintFull(m difficulty.Modifier) []string {
	var s []string
	for _, x := range table() {
		if visible(m)&x.flag != 0 {
			s = append(s, x.full)
		}
	}
	return s
}
