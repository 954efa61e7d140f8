// Package c21 is the stacking of objects as osu! does it.
package c21

import (
	"io"
	"math"

	"github.com/Wieku/gosu-pp/beatmap"
	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/beatmap/objects"
	"github.com/Wieku/gosu-pp/math/vector"
)

//verif:bind work github.com/Wieku/gosu-pp/beatmap.SetStackIndex
//verif:marks Placed: marked github.com/Wieku/gosu-pp/beatmap.SetStackIndex

// work stands for the function that stacks the objects of a beatmap.
func work(b *beatmap.BeatMap, list []objects.IHitObject, version int, d *difficulty.Difficulty, leniency float64) {
}

func stack(b *beatmap.BeatMap) {
	work(b, b.HitObjects, b.FileVersion, b.Difficulty, b.StackLeniency)
}

// scene is what the stacking depends on and writes.
type scene struct {
	version                  int
	hp, cs, od, ar, leniency float64
	all                      []placed
}

type placed struct {
	circle, slider    bool
	start, end        float64
	from, to          vector.Vector2f
	plain, easy, hard int
}

func sceneOf(list []objects.IHitObject, version int, d *difficulty.Difficulty, leniency float64) scene {
	s := scene{version, d.GetHP(), d.GetCS(), d.GetOD(), d.GetAR(), leniency, nil}
	for _, o := range list {
		_, circle := o.(*objects.Circle)
		_, slider := o.(*objects.Slider)
		s.all = append(s.all, placed{circle, slider, o.GetStartTime(), o.GetEndTime(), o.GetStartPosition(), o.GetEndPosition(),
			o.GetStackIndex(difficulty.None), o.GetStackIndex(difficulty.Easy), o.GetStackIndex(difficulty.HardRock)})
	}
	return s
}

// seen is what the stacking was called with.
var seen *scene

// marked is called instead of the stacking.
func marked(b *beatmap.BeatMap, list []objects.IHitObject, version int, d *difficulty.Difficulty, leniency float64) {
	if b != nil {
		list, version, d, leniency = b.HitObjects, b.FileVersion, b.Difficulty, b.StackLeniency
	}
	s := sceneOf(list, version, d, leniency)
	seen = &s
}

// The stacking is done for every beatmap, of what the beatmap ends up with.
func Impl_Placed(r io.Reader) (scene, bool) {
	_, err := beatmap.ParseFromReader(r)
	if err != nil || seen == nil {
		return scene{}, err == nil
	}
	return *seen, true
}
func Ref_Placed(r io.Reader) (scene, bool) {
	b, err := beatmap.ParseFromReader(r)
	if err != nil {
		return scene{}, false
	}
	return sceneOf(b.HitObjects, b.FileVersion, b.Difficulty, b.StackLeniency), true
}

//verif:opaque Placed: github.com/Wieku/gosu-pp/beatmap/objects.CreateObject

const (
	circle = iota
	slider
	spinner
)

// thing is an object of any kind.
type thing struct {
	start, end float64
	from, to   vector.Vector2f
}

type settings struct {
	hp, cs, od, ar, leniency float64
}

type height struct {
	index  int
	offset vector.Vector2f
}

func object(kind int, t thing) (objects.IHitObject, *objects.HitObject) {
	h := &objects.HitObject{StartTime: t.start, EndTime: t.end, StartPosRaw: t.from, EndPosRaw: t.to}
	switch kind {
	case circle:
		return &objects.Circle{HitObject: h}, h
	case slider:
		return &objects.Slider{HitObject: h}, h
	}
	return &objects.Spinner{HitObject: h}, h
}

func stacked(version int, s settings, mods difficulty.Modifier, kinds []int, things []thing) (out []height) {
	b := &beatmap.BeatMap{FileVersion: version, StackLeniency: s.leniency, Difficulty: difficulty.NewDifficulty(s.hp, s.cs, s.od, s.ar)}
	var all []*objects.HitObject
	for i, t := range things {
		o, h := object(kinds[i], t)
		b.HitObjects = append(b.HitObjects, o)
		all = append(all, h)
	}
	stack(b)
	for _, h := range all {
		switch mods {
		case difficulty.HardRock:
			out = append(out, height{h.StackIndexHR, h.StackOffsetHR})
		case difficulty.Easy:
			out = append(out, height{h.StackIndexEZ, h.StackOffsetEZ})
		default:
			out = append(out, height{h.StackIndex, h.StackOffset})
		}
	}
	return
}

type item struct {
	thing
	kind, height int
}

func close(a, b vector.Vector2f) bool {
	dx, dy := a.X-b.X, a.Y-b.Y
	return float32(math.Sqrt(float64(dx*dx+dy*dy))) < 3
}

func expected(version int, s settings, mods difficulty.Modifier, kinds []int, things []thing) (out []height) {
	d := difficulty.NewDifficulty(s.hp, s.cs, s.od, s.ar)
	if mods != difficulty.None {
		d.SetMods(mods)
	}
	within := math.Floor(d.Preempt * s.leniency)

	var items []*item
	for i, t := range things {
		items = append(items, &item{thing: t, kind: kinds[i]})
	}
	if version < 6 {
		old(items, within)
	} else {
		current(items, within)
	}
	for _, it := range items {
		if it.kind == spinner {
			out = append(out, height{})
			continue
		}
		by := -float32(it.height) * float32(d.CircleRadius) / 10
		out = append(out, height{it.height, vector.Vector2f{X: by, Y: by}})
	}
	return
}

func current(items []*item, within float64) {
	reset := 0
	for i := len(items) - 1; i > 0; i-- {
		on := items[i]
		if on.height != 0 || on.kind == spinner {
			continue
		}
		round := on.kind == circle
		for n := i - 1; n >= 0; n-- {
			under := items[n]
			if under.kind == spinner {
				continue
			}
			from := under.start
			if round {
				from = under.end
			}
			if on.start-from > within {
				break
			}
			if round {
				if n < reset {
					under.height = 0
					reset = n
				}
				if under.kind == slider && close(under.to, on.from) {
					lower := on.height - under.height + 1
					for j := n + 1; j <= i; j++ {
						if close(under.to, items[j].from) {
							items[j].height -= lower
						}
					}
					break
				}
				if close(under.from, on.from) {
					under.height = on.height + 1
					on = under
				}
			} else if close(under.to, on.from) {
				under.height = on.height + 1
				on = under
			}
		}
	}
}

func old(items []*item, within float64) {
	for i, it := range items {
		if it.height != 0 && it.kind != slider {
			continue
		}
		last, below := it.end, 0
		for _, next := range items[i+1:] {
			if next.start-within > last {
				break
			}
			if close(next.from, it.from) {
				it.height++
				last = next.end
			} else if close(next.from, it.to) {
				below++
				next.height -= below
				last = next.end
			}
		}
	}
}
func Impl_AnyC(version int, s settings, a0 thing) []height {
	return stacked(version, s, difficulty.None, []int{0}, []thing{a0})
}
func Ref_AnyC(version int, s settings, a0 thing) []height {
	return expected(version, s, difficulty.None, []int{0}, []thing{a0})
}
func Impl_AnyCEZ(version int, s settings, a0 thing) []height {
	return stacked(version, s, difficulty.Easy, []int{0}, []thing{a0})
}
func Ref_AnyCEZ(version int, s settings, a0 thing) []height {
	return expected(version, s, difficulty.Easy, []int{0}, []thing{a0})
}
func Impl_AnyCHR(version int, s settings, a0 thing) []height {
	return stacked(version, s, difficulty.HardRock, []int{0}, []thing{a0})
}
func Ref_AnyCHR(version int, s settings, a0 thing) []height {
	return expected(version, s, difficulty.HardRock, []int{0}, []thing{a0})
}
func Impl_AnyS(version int, s settings, a0 thing) []height {
	return stacked(version, s, difficulty.None, []int{1}, []thing{a0})
}
func Ref_AnyS(version int, s settings, a0 thing) []height {
	return expected(version, s, difficulty.None, []int{1}, []thing{a0})
}
func Impl_AnySEZ(version int, s settings, a0 thing) []height {
	return stacked(version, s, difficulty.Easy, []int{1}, []thing{a0})
}
func Ref_AnySEZ(version int, s settings, a0 thing) []height {
	return expected(version, s, difficulty.Easy, []int{1}, []thing{a0})
}
func Impl_AnySHR(version int, s settings, a0 thing) []height {
	return stacked(version, s, difficulty.HardRock, []int{1}, []thing{a0})
}
func Ref_AnySHR(version int, s settings, a0 thing) []height {
	return expected(version, s, difficulty.HardRock, []int{1}, []thing{a0})
}
func Impl_AnyO(version int, s settings, a0 thing) []height {
	return stacked(version, s, difficulty.None, []int{2}, []thing{a0})
}
func Ref_AnyO(version int, s settings, a0 thing) []height {
	return expected(version, s, difficulty.None, []int{2}, []thing{a0})
}
func Impl_AnyOEZ(version int, s settings, a0 thing) []height {
	return stacked(version, s, difficulty.Easy, []int{2}, []thing{a0})
}
func Ref_AnyOEZ(version int, s settings, a0 thing) []height {
	return expected(version, s, difficulty.Easy, []int{2}, []thing{a0})
}
func Impl_AnyOHR(version int, s settings, a0 thing) []height {
	return stacked(version, s, difficulty.HardRock, []int{2}, []thing{a0})
}
func Ref_AnyOHR(version int, s settings, a0 thing) []height {
	return expected(version, s, difficulty.HardRock, []int{2}, []thing{a0})
}
func Impl_AnyCC(version int, s settings, a0, a1 thing) []height {
	return stacked(version, s, difficulty.None, []int{0, 0}, []thing{a0, a1})
}
func Ref_AnyCC(version int, s settings, a0, a1 thing) []height {
	return expected(version, s, difficulty.None, []int{0, 0}, []thing{a0, a1})
}
func Impl_AnyCCEZ(version int, s settings, a0, a1 thing) []height {
	return stacked(version, s, difficulty.Easy, []int{0, 0}, []thing{a0, a1})
}
func Ref_AnyCCEZ(version int, s settings, a0, a1 thing) []height {
	return expected(version, s, difficulty.Easy, []int{0, 0}, []thing{a0, a1})
}
func Impl_AnyCCHR(version int, s settings, a0, a1 thing) []height {
	return stacked(version, s, difficulty.HardRock, []int{0, 0}, []thing{a0, a1})
}
func Ref_AnyCCHR(version int, s settings, a0, a1 thing) []height {
	return expected(version, s, difficulty.HardRock, []int{0, 0}, []thing{a0, a1})
}
func Impl_AnyCS(version int, s settings, a0, a1 thing) []height {
	return stacked(version, s, difficulty.None, []int{0, 1}, []thing{a0, a1})
}
func Ref_AnyCS(version int, s settings, a0, a1 thing) []height {
	return expected(version, s, difficulty.None, []int{0, 1}, []thing{a0, a1})
}
func Impl_AnyCSEZ(version int, s settings, a0, a1 thing) []height {
	return stacked(version, s, difficulty.Easy, []int{0, 1}, []thing{a0, a1})
}
func Ref_AnyCSEZ(version int, s settings, a0, a1 thing) []height {
	return expected(version, s, difficulty.Easy, []int{0, 1}, []thing{a0, a1})
}
func Impl_AnyCSHR(version int, s settings, a0, a1 thing) []height {
	return stacked(version, s, difficulty.HardRock, []int{0, 1}, []thing{a0, a1})
}
func Ref_AnyCSHR(version int, s settings, a0, a1 thing) []height {
	return expected(version, s, difficulty.HardRock, []int{0, 1}, []thing{a0, a1})
}
func Impl_AnyCO(version int, s settings, a0, a1 thing) []height {
	return stacked(version, s, difficulty.None, []int{0, 2}, []thing{a0, a1})
}
func Ref_AnyCO(version int, s settings, a0, a1 thing) []height {
	return expected(version, s, difficulty.None, []int{0, 2}, []thing{a0, a1})
}
func Impl_AnyCOEZ(version int, s settings, a0, a1 thing) []height {
	return stacked(version, s, difficulty.Easy, []int{0, 2}, []thing{a0, a1})
}
func Ref_AnyCOEZ(version int, s settings, a0, a1 thing) []height {
	return expected(version, s, difficulty.Easy, []int{0, 2}, []thing{a0, a1})
}
func Impl_AnyCOHR(version int, s settings, a0, a1 thing) []height {
	return stacked(version, s, difficulty.HardRock, []int{0, 2}, []thing{a0, a1})
}
func Ref_AnyCOHR(version int, s settings, a0, a1 thing) []height {
	return expected(version, s, difficulty.HardRock, []int{0, 2}, []thing{a0, a1})
}
func Impl_AnySC(version int, s settings, a0, a1 thing) []height {
	return stacked(version, s, difficulty.None, []int{1, 0}, []thing{a0, a1})
}
func Ref_AnySC(version int, s settings, a0, a1 thing) []height {
	return expected(version, s, difficulty.None, []int{1, 0}, []thing{a0, a1})
}
func Impl_AnySCEZ(version int, s settings, a0, a1 thing) []height {
	return stacked(version, s, difficulty.Easy, []int{1, 0}, []thing{a0, a1})
}
func Ref_AnySCEZ(version int, s settings, a0, a1 thing) []height {
	return expected(version, s, difficulty.Easy, []int{1, 0}, []thing{a0, a1})
}
func Impl_AnySCHR(version int, s settings, a0, a1 thing) []height {
	return stacked(version, s, difficulty.HardRock, []int{1, 0}, []thing{a0, a1})
}
func Ref_AnySCHR(version int, s settings, a0, a1 thing) []height {
	return expected(version, s, difficulty.HardRock, []int{1, 0}, []thing{a0, a1})
}
func Impl_AnySS(version int, s settings, a0, a1 thing) []height {
	return stacked(version, s, difficulty.None, []int{1, 1}, []thing{a0, a1})
}
func Ref_AnySS(version int, s settings, a0, a1 thing) []height {
	return expected(version, s, difficulty.None, []int{1, 1}, []thing{a0, a1})
}
func Impl_AnySSEZ(version int, s settings, a0, a1 thing) []height {
	return stacked(version, s, difficulty.Easy, []int{1, 1}, []thing{a0, a1})
}
func Ref_AnySSEZ(version int, s settings, a0, a1 thing) []height {
	return expected(version, s, difficulty.Easy, []int{1, 1}, []thing{a0, a1})
}
func Impl_AnySSHR(version int, s settings, a0, a1 thing) []height {
	return stacked(version, s, difficulty.HardRock, []int{1, 1}, []thing{a0, a1})
}
func Ref_AnySSHR(version int, s settings, a0, a1 thing) []height {
	return expected(version, s, difficulty.HardRock, []int{1, 1}, []thing{a0, a1})
}
func Impl_AnySO(version int, s settings, a0, a1 thing) []height {
	return stacked(version, s, difficulty.None, []int{1, 2}, []thing{a0, a1})
}
func Ref_AnySO(version int, s settings, a0, a1 thing) []height {
	return expected(version, s, difficulty.None, []int{1, 2}, []thing{a0, a1})
}
func Impl_AnySOEZ(version int, s settings, a0, a1 thing) []height {
	return stacked(version, s, difficulty.Easy, []int{1, 2}, []thing{a0, a1})
}
func Ref_AnySOEZ(version int, s settings, a0, a1 thing) []height {
	return expected(version, s, difficulty.Easy, []int{1, 2}, []thing{a0, a1})
}
func Impl_AnySOHR(version int, s settings, a0, a1 thing) []height {
	return stacked(version, s, difficulty.HardRock, []int{1, 2}, []thing{a0, a1})
}
func Ref_AnySOHR(version int, s settings, a0, a1 thing) []height {
	return expected(version, s, difficulty.HardRock, []int{1, 2}, []thing{a0, a1})
}
func Impl_AnyOC(version int, s settings, a0, a1 thing) []height {
	return stacked(version, s, difficulty.None, []int{2, 0}, []thing{a0, a1})
}
func Ref_AnyOC(version int, s settings, a0, a1 thing) []height {
	return expected(version, s, difficulty.None, []int{2, 0}, []thing{a0, a1})
}
func Impl_AnyOCEZ(version int, s settings, a0, a1 thing) []height {
	return stacked(version, s, difficulty.Easy, []int{2, 0}, []thing{a0, a1})
}
func Ref_AnyOCEZ(version int, s settings, a0, a1 thing) []height {
	return expected(version, s, difficulty.Easy, []int{2, 0}, []thing{a0, a1})
}
func Impl_AnyOCHR(version int, s settings, a0, a1 thing) []height {
	return stacked(version, s, difficulty.HardRock, []int{2, 0}, []thing{a0, a1})
}
func Ref_AnyOCHR(version int, s settings, a0, a1 thing) []height {
	return expected(version, s, difficulty.HardRock, []int{2, 0}, []thing{a0, a1})
}
func Impl_AnyOS(version int, s settings, a0, a1 thing) []height {
	return stacked(version, s, difficulty.None, []int{2, 1}, []thing{a0, a1})
}
func Ref_AnyOS(version int, s settings, a0, a1 thing) []height {
	return expected(version, s, difficulty.None, []int{2, 1}, []thing{a0, a1})
}
func Impl_AnyOSEZ(version int, s settings, a0, a1 thing) []height {
	return stacked(version, s, difficulty.Easy, []int{2, 1}, []thing{a0, a1})
}
func Ref_AnyOSEZ(version int, s settings, a0, a1 thing) []height {
	return expected(version, s, difficulty.Easy, []int{2, 1}, []thing{a0, a1})
}
func Impl_AnyOSHR(version int, s settings, a0, a1 thing) []height {
	return stacked(version, s, difficulty.HardRock, []int{2, 1}, []thing{a0, a1})
}
func Ref_AnyOSHR(version int, s settings, a0, a1 thing) []height {
	return expected(version, s, difficulty.HardRock, []int{2, 1}, []thing{a0, a1})
}
func Impl_AnyOO(version int, s settings, a0, a1 thing) []height {
	return stacked(version, s, difficulty.None, []int{2, 2}, []thing{a0, a1})
}
func Ref_AnyOO(version int, s settings, a0, a1 thing) []height {
	return expected(version, s, difficulty.None, []int{2, 2}, []thing{a0, a1})
}
func Impl_AnyOOEZ(version int, s settings, a0, a1 thing) []height {
	return stacked(version, s, difficulty.Easy, []int{2, 2}, []thing{a0, a1})
}
func Ref_AnyOOEZ(version int, s settings, a0, a1 thing) []height {
	return expected(version, s, difficulty.Easy, []int{2, 2}, []thing{a0, a1})
}
func Impl_AnyOOHR(version int, s settings, a0, a1 thing) []height {
	return stacked(version, s, difficulty.HardRock, []int{2, 2}, []thing{a0, a1})
}
func Ref_AnyOOHR(version int, s settings, a0, a1 thing) []height {
	return expected(version, s, difficulty.HardRock, []int{2, 2}, []thing{a0, a1})
}
func Impl_AnyCCC(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.None, []int{0, 0, 0}, []thing{a0, a1, a2})
}
func Ref_AnyCCC(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.None, []int{0, 0, 0}, []thing{a0, a1, a2})
}
func Impl_AnyCCCEZ(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.Easy, []int{0, 0, 0}, []thing{a0, a1, a2})
}
func Ref_AnyCCCEZ(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.Easy, []int{0, 0, 0}, []thing{a0, a1, a2})
}
func Impl_AnyCCCHR(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.HardRock, []int{0, 0, 0}, []thing{a0, a1, a2})
}
func Ref_AnyCCCHR(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.HardRock, []int{0, 0, 0}, []thing{a0, a1, a2})
}
func Impl_AnyCCS(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.None, []int{0, 0, 1}, []thing{a0, a1, a2})
}
func Ref_AnyCCS(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.None, []int{0, 0, 1}, []thing{a0, a1, a2})
}
func Impl_AnyCCSEZ(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.Easy, []int{0, 0, 1}, []thing{a0, a1, a2})
}
func Ref_AnyCCSEZ(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.Easy, []int{0, 0, 1}, []thing{a0, a1, a2})
}
func Impl_AnyCCSHR(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.HardRock, []int{0, 0, 1}, []thing{a0, a1, a2})
}
func Ref_AnyCCSHR(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.HardRock, []int{0, 0, 1}, []thing{a0, a1, a2})
}
func Impl_AnyCCO(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.None, []int{0, 0, 2}, []thing{a0, a1, a2})
}
func Ref_AnyCCO(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.None, []int{0, 0, 2}, []thing{a0, a1, a2})
}
func Impl_AnyCCOEZ(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.Easy, []int{0, 0, 2}, []thing{a0, a1, a2})
}
func Ref_AnyCCOEZ(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.Easy, []int{0, 0, 2}, []thing{a0, a1, a2})
}
func Impl_AnyCCOHR(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.HardRock, []int{0, 0, 2}, []thing{a0, a1, a2})
}
func Ref_AnyCCOHR(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.HardRock, []int{0, 0, 2}, []thing{a0, a1, a2})
}
func Impl_AnyCSC(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.None, []int{0, 1, 0}, []thing{a0, a1, a2})
}
func Ref_AnyCSC(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.None, []int{0, 1, 0}, []thing{a0, a1, a2})
}
func Impl_AnyCSCEZ(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.Easy, []int{0, 1, 0}, []thing{a0, a1, a2})
}
func Ref_AnyCSCEZ(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.Easy, []int{0, 1, 0}, []thing{a0, a1, a2})
}
func Impl_AnyCSCHR(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.HardRock, []int{0, 1, 0}, []thing{a0, a1, a2})
}
func Ref_AnyCSCHR(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.HardRock, []int{0, 1, 0}, []thing{a0, a1, a2})
}
func Impl_AnyCSS(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.None, []int{0, 1, 1}, []thing{a0, a1, a2})
}
func Ref_AnyCSS(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.None, []int{0, 1, 1}, []thing{a0, a1, a2})
}
func Impl_AnyCSSEZ(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.Easy, []int{0, 1, 1}, []thing{a0, a1, a2})
}
func Ref_AnyCSSEZ(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.Easy, []int{0, 1, 1}, []thing{a0, a1, a2})
}
func Impl_AnyCSSHR(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.HardRock, []int{0, 1, 1}, []thing{a0, a1, a2})
}
func Ref_AnyCSSHR(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.HardRock, []int{0, 1, 1}, []thing{a0, a1, a2})
}
func Impl_AnyCSO(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.None, []int{0, 1, 2}, []thing{a0, a1, a2})
}
func Ref_AnyCSO(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.None, []int{0, 1, 2}, []thing{a0, a1, a2})
}
func Impl_AnyCSOEZ(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.Easy, []int{0, 1, 2}, []thing{a0, a1, a2})
}
func Ref_AnyCSOEZ(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.Easy, []int{0, 1, 2}, []thing{a0, a1, a2})
}
func Impl_AnyCSOHR(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.HardRock, []int{0, 1, 2}, []thing{a0, a1, a2})
}
func Ref_AnyCSOHR(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.HardRock, []int{0, 1, 2}, []thing{a0, a1, a2})
}
func Impl_AnyCOC(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.None, []int{0, 2, 0}, []thing{a0, a1, a2})
}
func Ref_AnyCOC(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.None, []int{0, 2, 0}, []thing{a0, a1, a2})
}
func Impl_AnyCOCEZ(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.Easy, []int{0, 2, 0}, []thing{a0, a1, a2})
}
func Ref_AnyCOCEZ(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.Easy, []int{0, 2, 0}, []thing{a0, a1, a2})
}
func Impl_AnyCOCHR(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.HardRock, []int{0, 2, 0}, []thing{a0, a1, a2})
}
func Ref_AnyCOCHR(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.HardRock, []int{0, 2, 0}, []thing{a0, a1, a2})
}
func Impl_AnyCOS(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.None, []int{0, 2, 1}, []thing{a0, a1, a2})
}
func Ref_AnyCOS(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.None, []int{0, 2, 1}, []thing{a0, a1, a2})
}
func Impl_AnyCOSEZ(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.Easy, []int{0, 2, 1}, []thing{a0, a1, a2})
}
func Ref_AnyCOSEZ(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.Easy, []int{0, 2, 1}, []thing{a0, a1, a2})
}
func Impl_AnyCOSHR(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.HardRock, []int{0, 2, 1}, []thing{a0, a1, a2})
}
func Ref_AnyCOSHR(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.HardRock, []int{0, 2, 1}, []thing{a0, a1, a2})
}
func Impl_AnyCOO(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.None, []int{0, 2, 2}, []thing{a0, a1, a2})
}
func Ref_AnyCOO(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.None, []int{0, 2, 2}, []thing{a0, a1, a2})
}
func Impl_AnyCOOEZ(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.Easy, []int{0, 2, 2}, []thing{a0, a1, a2})
}
func Ref_AnyCOOEZ(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.Easy, []int{0, 2, 2}, []thing{a0, a1, a2})
}
func Impl_AnyCOOHR(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.HardRock, []int{0, 2, 2}, []thing{a0, a1, a2})
}
func Ref_AnyCOOHR(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.HardRock, []int{0, 2, 2}, []thing{a0, a1, a2})
}
func Impl_AnySCC(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.None, []int{1, 0, 0}, []thing{a0, a1, a2})
}
func Ref_AnySCC(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.None, []int{1, 0, 0}, []thing{a0, a1, a2})
}
func Impl_AnySCCEZ(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.Easy, []int{1, 0, 0}, []thing{a0, a1, a2})
}
func Ref_AnySCCEZ(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.Easy, []int{1, 0, 0}, []thing{a0, a1, a2})
}
func Impl_AnySCCHR(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.HardRock, []int{1, 0, 0}, []thing{a0, a1, a2})
}
func Ref_AnySCCHR(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.HardRock, []int{1, 0, 0}, []thing{a0, a1, a2})
}
func Impl_AnySCS(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.None, []int{1, 0, 1}, []thing{a0, a1, a2})
}
func Ref_AnySCS(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.None, []int{1, 0, 1}, []thing{a0, a1, a2})
}
func Impl_AnySCSEZ(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.Easy, []int{1, 0, 1}, []thing{a0, a1, a2})
}
func Ref_AnySCSEZ(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.Easy, []int{1, 0, 1}, []thing{a0, a1, a2})
}
func Impl_AnySCSHR(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.HardRock, []int{1, 0, 1}, []thing{a0, a1, a2})
}
func Ref_AnySCSHR(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.HardRock, []int{1, 0, 1}, []thing{a0, a1, a2})
}
func Impl_AnySCO(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.None, []int{1, 0, 2}, []thing{a0, a1, a2})
}
func Ref_AnySCO(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.None, []int{1, 0, 2}, []thing{a0, a1, a2})
}
func Impl_AnySCOEZ(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.Easy, []int{1, 0, 2}, []thing{a0, a1, a2})
}
func Ref_AnySCOEZ(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.Easy, []int{1, 0, 2}, []thing{a0, a1, a2})
}
func Impl_AnySCOHR(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.HardRock, []int{1, 0, 2}, []thing{a0, a1, a2})
}
func Ref_AnySCOHR(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.HardRock, []int{1, 0, 2}, []thing{a0, a1, a2})
}
func Impl_AnySSC(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.None, []int{1, 1, 0}, []thing{a0, a1, a2})
}
func Ref_AnySSC(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.None, []int{1, 1, 0}, []thing{a0, a1, a2})
}
func Impl_AnySSCEZ(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.Easy, []int{1, 1, 0}, []thing{a0, a1, a2})
}
func Ref_AnySSCEZ(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.Easy, []int{1, 1, 0}, []thing{a0, a1, a2})
}
func Impl_AnySSCHR(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.HardRock, []int{1, 1, 0}, []thing{a0, a1, a2})
}
func Ref_AnySSCHR(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.HardRock, []int{1, 1, 0}, []thing{a0, a1, a2})
}
func Impl_AnySSS(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.None, []int{1, 1, 1}, []thing{a0, a1, a2})
}
func Ref_AnySSS(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.None, []int{1, 1, 1}, []thing{a0, a1, a2})
}
func Impl_AnySSSEZ(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.Easy, []int{1, 1, 1}, []thing{a0, a1, a2})
}
func Ref_AnySSSEZ(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.Easy, []int{1, 1, 1}, []thing{a0, a1, a2})
}
func Impl_AnySSSHR(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.HardRock, []int{1, 1, 1}, []thing{a0, a1, a2})
}
func Ref_AnySSSHR(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.HardRock, []int{1, 1, 1}, []thing{a0, a1, a2})
}
func Impl_AnySSO(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.None, []int{1, 1, 2}, []thing{a0, a1, a2})
}
func Ref_AnySSO(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.None, []int{1, 1, 2}, []thing{a0, a1, a2})
}
func Impl_AnySSOEZ(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.Easy, []int{1, 1, 2}, []thing{a0, a1, a2})
}
func Ref_AnySSOEZ(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.Easy, []int{1, 1, 2}, []thing{a0, a1, a2})
}
func Impl_AnySSOHR(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.HardRock, []int{1, 1, 2}, []thing{a0, a1, a2})
}
func Ref_AnySSOHR(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.HardRock, []int{1, 1, 2}, []thing{a0, a1, a2})
}
func Impl_AnySOC(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.None, []int{1, 2, 0}, []thing{a0, a1, a2})
}
func Ref_AnySOC(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.None, []int{1, 2, 0}, []thing{a0, a1, a2})
}
func Impl_AnySOCEZ(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.Easy, []int{1, 2, 0}, []thing{a0, a1, a2})
}
func Ref_AnySOCEZ(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.Easy, []int{1, 2, 0}, []thing{a0, a1, a2})
}
func Impl_AnySOCHR(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.HardRock, []int{1, 2, 0}, []thing{a0, a1, a2})
}
func Ref_AnySOCHR(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.HardRock, []int{1, 2, 0}, []thing{a0, a1, a2})
}
func Impl_AnySOS(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.None, []int{1, 2, 1}, []thing{a0, a1, a2})
}
func Ref_AnySOS(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.None, []int{1, 2, 1}, []thing{a0, a1, a2})
}
func Impl_AnySOSEZ(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.Easy, []int{1, 2, 1}, []thing{a0, a1, a2})
}
func Ref_AnySOSEZ(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.Easy, []int{1, 2, 1}, []thing{a0, a1, a2})
}
func Impl_AnySOSHR(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.HardRock, []int{1, 2, 1}, []thing{a0, a1, a2})
}
func Ref_AnySOSHR(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.HardRock, []int{1, 2, 1}, []thing{a0, a1, a2})
}
func Impl_AnySOO(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.None, []int{1, 2, 2}, []thing{a0, a1, a2})
}
func Ref_AnySOO(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.None, []int{1, 2, 2}, []thing{a0, a1, a2})
}
func Impl_AnySOOEZ(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.Easy, []int{1, 2, 2}, []thing{a0, a1, a2})
}
func Ref_AnySOOEZ(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.Easy, []int{1, 2, 2}, []thing{a0, a1, a2})
}
func Impl_AnySOOHR(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.HardRock, []int{1, 2, 2}, []thing{a0, a1, a2})
}
func Ref_AnySOOHR(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.HardRock, []int{1, 2, 2}, []thing{a0, a1, a2})
}
func Impl_AnyOCC(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.None, []int{2, 0, 0}, []thing{a0, a1, a2})
}
func Ref_AnyOCC(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.None, []int{2, 0, 0}, []thing{a0, a1, a2})
}
func Impl_AnyOCCEZ(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.Easy, []int{2, 0, 0}, []thing{a0, a1, a2})
}
func Ref_AnyOCCEZ(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.Easy, []int{2, 0, 0}, []thing{a0, a1, a2})
}
func Impl_AnyOCCHR(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.HardRock, []int{2, 0, 0}, []thing{a0, a1, a2})
}
func Ref_AnyOCCHR(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.HardRock, []int{2, 0, 0}, []thing{a0, a1, a2})
}
func Impl_AnyOCS(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.None, []int{2, 0, 1}, []thing{a0, a1, a2})
}
func Ref_AnyOCS(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.None, []int{2, 0, 1}, []thing{a0, a1, a2})
}
func Impl_AnyOCSEZ(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.Easy, []int{2, 0, 1}, []thing{a0, a1, a2})
}
func Ref_AnyOCSEZ(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.Easy, []int{2, 0, 1}, []thing{a0, a1, a2})
}
func Impl_AnyOCSHR(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.HardRock, []int{2, 0, 1}, []thing{a0, a1, a2})
}
func Ref_AnyOCSHR(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.HardRock, []int{2, 0, 1}, []thing{a0, a1, a2})
}
func Impl_AnyOCO(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.None, []int{2, 0, 2}, []thing{a0, a1, a2})
}
func Ref_AnyOCO(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.None, []int{2, 0, 2}, []thing{a0, a1, a2})
}
func Impl_AnyOCOEZ(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.Easy, []int{2, 0, 2}, []thing{a0, a1, a2})
}
func Ref_AnyOCOEZ(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.Easy, []int{2, 0, 2}, []thing{a0, a1, a2})
}
func Impl_AnyOCOHR(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.HardRock, []int{2, 0, 2}, []thing{a0, a1, a2})
}
func Ref_AnyOCOHR(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.HardRock, []int{2, 0, 2}, []thing{a0, a1, a2})
}
func Impl_AnyOSC(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.None, []int{2, 1, 0}, []thing{a0, a1, a2})
}
func Ref_AnyOSC(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.None, []int{2, 1, 0}, []thing{a0, a1, a2})
}
func Impl_AnyOSCEZ(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.Easy, []int{2, 1, 0}, []thing{a0, a1, a2})
}
func Ref_AnyOSCEZ(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.Easy, []int{2, 1, 0}, []thing{a0, a1, a2})
}
func Impl_AnyOSCHR(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.HardRock, []int{2, 1, 0}, []thing{a0, a1, a2})
}
func Ref_AnyOSCHR(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.HardRock, []int{2, 1, 0}, []thing{a0, a1, a2})
}
func Impl_AnyOSS(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.None, []int{2, 1, 1}, []thing{a0, a1, a2})
}
func Ref_AnyOSS(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.None, []int{2, 1, 1}, []thing{a0, a1, a2})
}
func Impl_AnyOSSEZ(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.Easy, []int{2, 1, 1}, []thing{a0, a1, a2})
}
func Ref_AnyOSSEZ(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.Easy, []int{2, 1, 1}, []thing{a0, a1, a2})
}
func Impl_AnyOSSHR(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.HardRock, []int{2, 1, 1}, []thing{a0, a1, a2})
}
func Ref_AnyOSSHR(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.HardRock, []int{2, 1, 1}, []thing{a0, a1, a2})
}
func Impl_AnyOSO(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.None, []int{2, 1, 2}, []thing{a0, a1, a2})
}
func Ref_AnyOSO(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.None, []int{2, 1, 2}, []thing{a0, a1, a2})
}
func Impl_AnyOSOEZ(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.Easy, []int{2, 1, 2}, []thing{a0, a1, a2})
}
func Ref_AnyOSOEZ(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.Easy, []int{2, 1, 2}, []thing{a0, a1, a2})
}
func Impl_AnyOSOHR(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.HardRock, []int{2, 1, 2}, []thing{a0, a1, a2})
}
func Ref_AnyOSOHR(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.HardRock, []int{2, 1, 2}, []thing{a0, a1, a2})
}
func Impl_AnyOOC(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.None, []int{2, 2, 0}, []thing{a0, a1, a2})
}
func Ref_AnyOOC(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.None, []int{2, 2, 0}, []thing{a0, a1, a2})
}
func Impl_AnyOOCEZ(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.Easy, []int{2, 2, 0}, []thing{a0, a1, a2})
}
func Ref_AnyOOCEZ(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.Easy, []int{2, 2, 0}, []thing{a0, a1, a2})
}
func Impl_AnyOOCHR(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.HardRock, []int{2, 2, 0}, []thing{a0, a1, a2})
}
func Ref_AnyOOCHR(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.HardRock, []int{2, 2, 0}, []thing{a0, a1, a2})
}
func Impl_AnyOOS(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.None, []int{2, 2, 1}, []thing{a0, a1, a2})
}
func Ref_AnyOOS(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.None, []int{2, 2, 1}, []thing{a0, a1, a2})
}
func Impl_AnyOOSEZ(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.Easy, []int{2, 2, 1}, []thing{a0, a1, a2})
}
func Ref_AnyOOSEZ(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.Easy, []int{2, 2, 1}, []thing{a0, a1, a2})
}
func Impl_AnyOOSHR(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.HardRock, []int{2, 2, 1}, []thing{a0, a1, a2})
}
func Ref_AnyOOSHR(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.HardRock, []int{2, 2, 1}, []thing{a0, a1, a2})
}
func Impl_AnyOOO(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.None, []int{2, 2, 2}, []thing{a0, a1, a2})
}
func Ref_AnyOOO(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.None, []int{2, 2, 2}, []thing{a0, a1, a2})
}
func Impl_AnyOOOEZ(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.Easy, []int{2, 2, 2}, []thing{a0, a1, a2})
}
func Ref_AnyOOOEZ(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.Easy, []int{2, 2, 2}, []thing{a0, a1, a2})
}
func Impl_AnyOOOHR(version int, s settings, a0, a1, a2 thing) []height {
	return stacked(version, s, difficulty.HardRock, []int{2, 2, 2}, []thing{a0, a1, a2})
}
func Ref_AnyOOOHR(version int, s settings, a0, a1, a2 thing) []height {
	return expected(version, s, difficulty.HardRock, []int{2, 2, 2}, []thing{a0, a1, a2})
}
func Impl_NewCCCC(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(14, s, difficulty.None, []int{0, 0, 0, 0}, []thing{a0, a1, a2, a3})
}
func Ref_NewCCCC(s settings, a0, a1, a2, a3 thing) []height {
	return expected(14, s, difficulty.None, []int{0, 0, 0, 0}, []thing{a0, a1, a2, a3})
}
func Impl_NewCCCCEZ(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(14, s, difficulty.Easy, []int{0, 0, 0, 0}, []thing{a0, a1, a2, a3})
}
func Ref_NewCCCCEZ(s settings, a0, a1, a2, a3 thing) []height {
	return expected(14, s, difficulty.Easy, []int{0, 0, 0, 0}, []thing{a0, a1, a2, a3})
}
func Impl_NewCCCCHR(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(14, s, difficulty.HardRock, []int{0, 0, 0, 0}, []thing{a0, a1, a2, a3})
}
func Ref_NewCCCCHR(s settings, a0, a1, a2, a3 thing) []height {
	return expected(14, s, difficulty.HardRock, []int{0, 0, 0, 0}, []thing{a0, a1, a2, a3})
}
func Impl_OldCCCC(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{0, 0, 0, 0}, []thing{a0, a1, a2, a3})
}
func Ref_OldCCCC(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{0, 0, 0, 0}, []thing{a0, a1, a2, a3})
}
func Impl_OldCCCCEZ(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.Easy, []int{0, 0, 0, 0}, []thing{a0, a1, a2, a3})
}
func Ref_OldCCCCEZ(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.Easy, []int{0, 0, 0, 0}, []thing{a0, a1, a2, a3})
}
func Impl_OldCCCCHR(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.HardRock, []int{0, 0, 0, 0}, []thing{a0, a1, a2, a3})
}
func Ref_OldCCCCHR(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.HardRock, []int{0, 0, 0, 0}, []thing{a0, a1, a2, a3})
}
func Impl_NewCCCS(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(14, s, difficulty.None, []int{0, 0, 0, 1}, []thing{a0, a1, a2, a3})
}
func Ref_NewCCCS(s settings, a0, a1, a2, a3 thing) []height {
	return expected(14, s, difficulty.None, []int{0, 0, 0, 1}, []thing{a0, a1, a2, a3})
}
func Impl_OldCCCS(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{0, 0, 0, 1}, []thing{a0, a1, a2, a3})
}
func Ref_OldCCCS(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{0, 0, 0, 1}, []thing{a0, a1, a2, a3})
}
func Impl_NewCCCO(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(14, s, difficulty.None, []int{0, 0, 0, 2}, []thing{a0, a1, a2, a3})
}
func Ref_NewCCCO(s settings, a0, a1, a2, a3 thing) []height {
	return expected(14, s, difficulty.None, []int{0, 0, 0, 2}, []thing{a0, a1, a2, a3})
}
func Impl_OldCCCO(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{0, 0, 0, 2}, []thing{a0, a1, a2, a3})
}
func Ref_OldCCCO(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{0, 0, 0, 2}, []thing{a0, a1, a2, a3})
}
func Impl_NewCCSC(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(14, s, difficulty.None, []int{0, 0, 1, 0}, []thing{a0, a1, a2, a3})
}
func Ref_NewCCSC(s settings, a0, a1, a2, a3 thing) []height {
	return expected(14, s, difficulty.None, []int{0, 0, 1, 0}, []thing{a0, a1, a2, a3})
}
func Impl_OldCCSC(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{0, 0, 1, 0}, []thing{a0, a1, a2, a3})
}
func Ref_OldCCSC(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{0, 0, 1, 0}, []thing{a0, a1, a2, a3})
}
func Impl_NewCCSS(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(14, s, difficulty.None, []int{0, 0, 1, 1}, []thing{a0, a1, a2, a3})
}
func Ref_NewCCSS(s settings, a0, a1, a2, a3 thing) []height {
	return expected(14, s, difficulty.None, []int{0, 0, 1, 1}, []thing{a0, a1, a2, a3})
}
func Impl_OldCCSS(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{0, 0, 1, 1}, []thing{a0, a1, a2, a3})
}
func Ref_OldCCSS(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{0, 0, 1, 1}, []thing{a0, a1, a2, a3})
}
func Impl_NewCCSO(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(14, s, difficulty.None, []int{0, 0, 1, 2}, []thing{a0, a1, a2, a3})
}
func Ref_NewCCSO(s settings, a0, a1, a2, a3 thing) []height {
	return expected(14, s, difficulty.None, []int{0, 0, 1, 2}, []thing{a0, a1, a2, a3})
}
func Impl_OldCCSO(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{0, 0, 1, 2}, []thing{a0, a1, a2, a3})
}
func Ref_OldCCSO(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{0, 0, 1, 2}, []thing{a0, a1, a2, a3})
}
func Impl_NewCCOC(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(14, s, difficulty.None, []int{0, 0, 2, 0}, []thing{a0, a1, a2, a3})
}
func Ref_NewCCOC(s settings, a0, a1, a2, a3 thing) []height {
	return expected(14, s, difficulty.None, []int{0, 0, 2, 0}, []thing{a0, a1, a2, a3})
}
func Impl_OldCCOC(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{0, 0, 2, 0}, []thing{a0, a1, a2, a3})
}
func Ref_OldCCOC(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{0, 0, 2, 0}, []thing{a0, a1, a2, a3})
}
func Impl_NewCCOS(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(14, s, difficulty.None, []int{0, 0, 2, 1}, []thing{a0, a1, a2, a3})
}
func Ref_NewCCOS(s settings, a0, a1, a2, a3 thing) []height {
	return expected(14, s, difficulty.None, []int{0, 0, 2, 1}, []thing{a0, a1, a2, a3})
}
func Impl_OldCCOS(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{0, 0, 2, 1}, []thing{a0, a1, a2, a3})
}
func Ref_OldCCOS(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{0, 0, 2, 1}, []thing{a0, a1, a2, a3})
}
func Impl_NewCCOO(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(14, s, difficulty.None, []int{0, 0, 2, 2}, []thing{a0, a1, a2, a3})
}
func Ref_NewCCOO(s settings, a0, a1, a2, a3 thing) []height {
	return expected(14, s, difficulty.None, []int{0, 0, 2, 2}, []thing{a0, a1, a2, a3})
}
func Impl_OldCCOO(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{0, 0, 2, 2}, []thing{a0, a1, a2, a3})
}
func Ref_OldCCOO(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{0, 0, 2, 2}, []thing{a0, a1, a2, a3})
}
func Impl_OldCSCC(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{0, 1, 0, 0}, []thing{a0, a1, a2, a3})
}
func Ref_OldCSCC(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{0, 1, 0, 0}, []thing{a0, a1, a2, a3})
}
func Impl_OldCSCS(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{0, 1, 0, 1}, []thing{a0, a1, a2, a3})
}
func Ref_OldCSCS(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{0, 1, 0, 1}, []thing{a0, a1, a2, a3})
}
func Impl_NewCSCO(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(14, s, difficulty.None, []int{0, 1, 0, 2}, []thing{a0, a1, a2, a3})
}
func Ref_NewCSCO(s settings, a0, a1, a2, a3 thing) []height {
	return expected(14, s, difficulty.None, []int{0, 1, 0, 2}, []thing{a0, a1, a2, a3})
}
func Impl_OldCSCO(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{0, 1, 0, 2}, []thing{a0, a1, a2, a3})
}
func Ref_OldCSCO(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{0, 1, 0, 2}, []thing{a0, a1, a2, a3})
}
func Impl_OldCSSC(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{0, 1, 1, 0}, []thing{a0, a1, a2, a3})
}
func Ref_OldCSSC(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{0, 1, 1, 0}, []thing{a0, a1, a2, a3})
}
func Impl_OldCSSS(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{0, 1, 1, 1}, []thing{a0, a1, a2, a3})
}
func Ref_OldCSSS(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{0, 1, 1, 1}, []thing{a0, a1, a2, a3})
}
func Impl_NewCSSO(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(14, s, difficulty.None, []int{0, 1, 1, 2}, []thing{a0, a1, a2, a3})
}
func Ref_NewCSSO(s settings, a0, a1, a2, a3 thing) []height {
	return expected(14, s, difficulty.None, []int{0, 1, 1, 2}, []thing{a0, a1, a2, a3})
}
func Impl_OldCSSO(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{0, 1, 1, 2}, []thing{a0, a1, a2, a3})
}
func Ref_OldCSSO(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{0, 1, 1, 2}, []thing{a0, a1, a2, a3})
}
func Impl_NewCSOC(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(14, s, difficulty.None, []int{0, 1, 2, 0}, []thing{a0, a1, a2, a3})
}
func Ref_NewCSOC(s settings, a0, a1, a2, a3 thing) []height {
	return expected(14, s, difficulty.None, []int{0, 1, 2, 0}, []thing{a0, a1, a2, a3})
}
func Impl_OldCSOC(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{0, 1, 2, 0}, []thing{a0, a1, a2, a3})
}
func Ref_OldCSOC(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{0, 1, 2, 0}, []thing{a0, a1, a2, a3})
}
func Impl_NewCSOS(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(14, s, difficulty.None, []int{0, 1, 2, 1}, []thing{a0, a1, a2, a3})
}
func Ref_NewCSOS(s settings, a0, a1, a2, a3 thing) []height {
	return expected(14, s, difficulty.None, []int{0, 1, 2, 1}, []thing{a0, a1, a2, a3})
}
func Impl_OldCSOS(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{0, 1, 2, 1}, []thing{a0, a1, a2, a3})
}
func Ref_OldCSOS(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{0, 1, 2, 1}, []thing{a0, a1, a2, a3})
}
func Impl_NewCSOO(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(14, s, difficulty.None, []int{0, 1, 2, 2}, []thing{a0, a1, a2, a3})
}
func Ref_NewCSOO(s settings, a0, a1, a2, a3 thing) []height {
	return expected(14, s, difficulty.None, []int{0, 1, 2, 2}, []thing{a0, a1, a2, a3})
}
func Impl_OldCSOO(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{0, 1, 2, 2}, []thing{a0, a1, a2, a3})
}
func Ref_OldCSOO(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{0, 1, 2, 2}, []thing{a0, a1, a2, a3})
}
func Impl_NewCOCC(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(14, s, difficulty.None, []int{0, 2, 0, 0}, []thing{a0, a1, a2, a3})
}
func Ref_NewCOCC(s settings, a0, a1, a2, a3 thing) []height {
	return expected(14, s, difficulty.None, []int{0, 2, 0, 0}, []thing{a0, a1, a2, a3})
}
func Impl_OldCOCC(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{0, 2, 0, 0}, []thing{a0, a1, a2, a3})
}
func Ref_OldCOCC(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{0, 2, 0, 0}, []thing{a0, a1, a2, a3})
}
func Impl_NewCOCS(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(14, s, difficulty.None, []int{0, 2, 0, 1}, []thing{a0, a1, a2, a3})
}
func Ref_NewCOCS(s settings, a0, a1, a2, a3 thing) []height {
	return expected(14, s, difficulty.None, []int{0, 2, 0, 1}, []thing{a0, a1, a2, a3})
}
func Impl_OldCOCS(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{0, 2, 0, 1}, []thing{a0, a1, a2, a3})
}
func Ref_OldCOCS(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{0, 2, 0, 1}, []thing{a0, a1, a2, a3})
}
func Impl_NewCOCO(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(14, s, difficulty.None, []int{0, 2, 0, 2}, []thing{a0, a1, a2, a3})
}
func Ref_NewCOCO(s settings, a0, a1, a2, a3 thing) []height {
	return expected(14, s, difficulty.None, []int{0, 2, 0, 2}, []thing{a0, a1, a2, a3})
}
func Impl_OldCOCO(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{0, 2, 0, 2}, []thing{a0, a1, a2, a3})
}
func Ref_OldCOCO(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{0, 2, 0, 2}, []thing{a0, a1, a2, a3})
}
func Impl_NewCOSC(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(14, s, difficulty.None, []int{0, 2, 1, 0}, []thing{a0, a1, a2, a3})
}
func Ref_NewCOSC(s settings, a0, a1, a2, a3 thing) []height {
	return expected(14, s, difficulty.None, []int{0, 2, 1, 0}, []thing{a0, a1, a2, a3})
}
func Impl_OldCOSC(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{0, 2, 1, 0}, []thing{a0, a1, a2, a3})
}
func Ref_OldCOSC(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{0, 2, 1, 0}, []thing{a0, a1, a2, a3})
}
func Impl_NewCOSS(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(14, s, difficulty.None, []int{0, 2, 1, 1}, []thing{a0, a1, a2, a3})
}
func Ref_NewCOSS(s settings, a0, a1, a2, a3 thing) []height {
	return expected(14, s, difficulty.None, []int{0, 2, 1, 1}, []thing{a0, a1, a2, a3})
}
func Impl_OldCOSS(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{0, 2, 1, 1}, []thing{a0, a1, a2, a3})
}
func Ref_OldCOSS(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{0, 2, 1, 1}, []thing{a0, a1, a2, a3})
}
func Impl_NewCOSO(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(14, s, difficulty.None, []int{0, 2, 1, 2}, []thing{a0, a1, a2, a3})
}
func Ref_NewCOSO(s settings, a0, a1, a2, a3 thing) []height {
	return expected(14, s, difficulty.None, []int{0, 2, 1, 2}, []thing{a0, a1, a2, a3})
}
func Impl_OldCOSO(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{0, 2, 1, 2}, []thing{a0, a1, a2, a3})
}
func Ref_OldCOSO(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{0, 2, 1, 2}, []thing{a0, a1, a2, a3})
}
func Impl_NewCOOC(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(14, s, difficulty.None, []int{0, 2, 2, 0}, []thing{a0, a1, a2, a3})
}
func Ref_NewCOOC(s settings, a0, a1, a2, a3 thing) []height {
	return expected(14, s, difficulty.None, []int{0, 2, 2, 0}, []thing{a0, a1, a2, a3})
}
func Impl_OldCOOC(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{0, 2, 2, 0}, []thing{a0, a1, a2, a3})
}
func Ref_OldCOOC(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{0, 2, 2, 0}, []thing{a0, a1, a2, a3})
}
func Impl_NewCOOS(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(14, s, difficulty.None, []int{0, 2, 2, 1}, []thing{a0, a1, a2, a3})
}
func Ref_NewCOOS(s settings, a0, a1, a2, a3 thing) []height {
	return expected(14, s, difficulty.None, []int{0, 2, 2, 1}, []thing{a0, a1, a2, a3})
}
func Impl_OldCOOS(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{0, 2, 2, 1}, []thing{a0, a1, a2, a3})
}
func Ref_OldCOOS(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{0, 2, 2, 1}, []thing{a0, a1, a2, a3})
}
func Impl_NewCOOO(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(14, s, difficulty.None, []int{0, 2, 2, 2}, []thing{a0, a1, a2, a3})
}
func Ref_NewCOOO(s settings, a0, a1, a2, a3 thing) []height {
	return expected(14, s, difficulty.None, []int{0, 2, 2, 2}, []thing{a0, a1, a2, a3})
}
func Impl_OldCOOO(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{0, 2, 2, 2}, []thing{a0, a1, a2, a3})
}
func Ref_OldCOOO(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{0, 2, 2, 2}, []thing{a0, a1, a2, a3})
}
func Impl_OldSCCC(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{1, 0, 0, 0}, []thing{a0, a1, a2, a3})
}
func Ref_OldSCCC(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{1, 0, 0, 0}, []thing{a0, a1, a2, a3})
}
func Impl_OldSCCS(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{1, 0, 0, 1}, []thing{a0, a1, a2, a3})
}
func Ref_OldSCCS(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{1, 0, 0, 1}, []thing{a0, a1, a2, a3})
}
func Impl_NewSCCO(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(14, s, difficulty.None, []int{1, 0, 0, 2}, []thing{a0, a1, a2, a3})
}
func Ref_NewSCCO(s settings, a0, a1, a2, a3 thing) []height {
	return expected(14, s, difficulty.None, []int{1, 0, 0, 2}, []thing{a0, a1, a2, a3})
}
func Impl_OldSCCO(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{1, 0, 0, 2}, []thing{a0, a1, a2, a3})
}
func Ref_OldSCCO(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{1, 0, 0, 2}, []thing{a0, a1, a2, a3})
}
func Impl_OldSCSC(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{1, 0, 1, 0}, []thing{a0, a1, a2, a3})
}
func Ref_OldSCSC(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{1, 0, 1, 0}, []thing{a0, a1, a2, a3})
}
func Impl_OldSCSS(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{1, 0, 1, 1}, []thing{a0, a1, a2, a3})
}
func Ref_OldSCSS(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{1, 0, 1, 1}, []thing{a0, a1, a2, a3})
}
func Impl_NewSCSO(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(14, s, difficulty.None, []int{1, 0, 1, 2}, []thing{a0, a1, a2, a3})
}
func Ref_NewSCSO(s settings, a0, a1, a2, a3 thing) []height {
	return expected(14, s, difficulty.None, []int{1, 0, 1, 2}, []thing{a0, a1, a2, a3})
}
func Impl_OldSCSO(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{1, 0, 1, 2}, []thing{a0, a1, a2, a3})
}
func Ref_OldSCSO(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{1, 0, 1, 2}, []thing{a0, a1, a2, a3})
}
func Impl_NewSCOC(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(14, s, difficulty.None, []int{1, 0, 2, 0}, []thing{a0, a1, a2, a3})
}
func Ref_NewSCOC(s settings, a0, a1, a2, a3 thing) []height {
	return expected(14, s, difficulty.None, []int{1, 0, 2, 0}, []thing{a0, a1, a2, a3})
}
func Impl_OldSCOC(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{1, 0, 2, 0}, []thing{a0, a1, a2, a3})
}
func Ref_OldSCOC(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{1, 0, 2, 0}, []thing{a0, a1, a2, a3})
}
func Impl_NewSCOS(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(14, s, difficulty.None, []int{1, 0, 2, 1}, []thing{a0, a1, a2, a3})
}
func Ref_NewSCOS(s settings, a0, a1, a2, a3 thing) []height {
	return expected(14, s, difficulty.None, []int{1, 0, 2, 1}, []thing{a0, a1, a2, a3})
}
func Impl_OldSCOS(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{1, 0, 2, 1}, []thing{a0, a1, a2, a3})
}
func Ref_OldSCOS(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{1, 0, 2, 1}, []thing{a0, a1, a2, a3})
}
func Impl_NewSCOO(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(14, s, difficulty.None, []int{1, 0, 2, 2}, []thing{a0, a1, a2, a3})
}
func Ref_NewSCOO(s settings, a0, a1, a2, a3 thing) []height {
	return expected(14, s, difficulty.None, []int{1, 0, 2, 2}, []thing{a0, a1, a2, a3})
}
func Impl_OldSCOO(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{1, 0, 2, 2}, []thing{a0, a1, a2, a3})
}
func Ref_OldSCOO(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{1, 0, 2, 2}, []thing{a0, a1, a2, a3})
}
func Impl_OldSSCC(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{1, 1, 0, 0}, []thing{a0, a1, a2, a3})
}
func Ref_OldSSCC(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{1, 1, 0, 0}, []thing{a0, a1, a2, a3})
}
func Impl_OldSSCS(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{1, 1, 0, 1}, []thing{a0, a1, a2, a3})
}
func Ref_OldSSCS(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{1, 1, 0, 1}, []thing{a0, a1, a2, a3})
}
func Impl_NewSSCO(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(14, s, difficulty.None, []int{1, 1, 0, 2}, []thing{a0, a1, a2, a3})
}
func Ref_NewSSCO(s settings, a0, a1, a2, a3 thing) []height {
	return expected(14, s, difficulty.None, []int{1, 1, 0, 2}, []thing{a0, a1, a2, a3})
}
func Impl_OldSSCO(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{1, 1, 0, 2}, []thing{a0, a1, a2, a3})
}
func Ref_OldSSCO(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{1, 1, 0, 2}, []thing{a0, a1, a2, a3})
}
func Impl_OldSSSC(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{1, 1, 1, 0}, []thing{a0, a1, a2, a3})
}
func Ref_OldSSSC(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{1, 1, 1, 0}, []thing{a0, a1, a2, a3})
}
func Impl_OldSSSS(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{1, 1, 1, 1}, []thing{a0, a1, a2, a3})
}
func Ref_OldSSSS(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{1, 1, 1, 1}, []thing{a0, a1, a2, a3})
}
func Impl_NewSSSO(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(14, s, difficulty.None, []int{1, 1, 1, 2}, []thing{a0, a1, a2, a3})
}
func Ref_NewSSSO(s settings, a0, a1, a2, a3 thing) []height {
	return expected(14, s, difficulty.None, []int{1, 1, 1, 2}, []thing{a0, a1, a2, a3})
}
func Impl_OldSSSO(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{1, 1, 1, 2}, []thing{a0, a1, a2, a3})
}
func Ref_OldSSSO(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{1, 1, 1, 2}, []thing{a0, a1, a2, a3})
}
func Impl_NewSSOC(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(14, s, difficulty.None, []int{1, 1, 2, 0}, []thing{a0, a1, a2, a3})
}
func Ref_NewSSOC(s settings, a0, a1, a2, a3 thing) []height {
	return expected(14, s, difficulty.None, []int{1, 1, 2, 0}, []thing{a0, a1, a2, a3})
}
func Impl_OldSSOC(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{1, 1, 2, 0}, []thing{a0, a1, a2, a3})
}
func Ref_OldSSOC(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{1, 1, 2, 0}, []thing{a0, a1, a2, a3})
}
func Impl_NewSSOS(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(14, s, difficulty.None, []int{1, 1, 2, 1}, []thing{a0, a1, a2, a3})
}
func Ref_NewSSOS(s settings, a0, a1, a2, a3 thing) []height {
	return expected(14, s, difficulty.None, []int{1, 1, 2, 1}, []thing{a0, a1, a2, a3})
}
func Impl_OldSSOS(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{1, 1, 2, 1}, []thing{a0, a1, a2, a3})
}
func Ref_OldSSOS(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{1, 1, 2, 1}, []thing{a0, a1, a2, a3})
}
func Impl_NewSSOO(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(14, s, difficulty.None, []int{1, 1, 2, 2}, []thing{a0, a1, a2, a3})
}
func Ref_NewSSOO(s settings, a0, a1, a2, a3 thing) []height {
	return expected(14, s, difficulty.None, []int{1, 1, 2, 2}, []thing{a0, a1, a2, a3})
}
func Impl_OldSSOO(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{1, 1, 2, 2}, []thing{a0, a1, a2, a3})
}
func Ref_OldSSOO(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{1, 1, 2, 2}, []thing{a0, a1, a2, a3})
}
func Impl_NewSOCC(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(14, s, difficulty.None, []int{1, 2, 0, 0}, []thing{a0, a1, a2, a3})
}
func Ref_NewSOCC(s settings, a0, a1, a2, a3 thing) []height {
	return expected(14, s, difficulty.None, []int{1, 2, 0, 0}, []thing{a0, a1, a2, a3})
}
func Impl_OldSOCC(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{1, 2, 0, 0}, []thing{a0, a1, a2, a3})
}
func Ref_OldSOCC(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{1, 2, 0, 0}, []thing{a0, a1, a2, a3})
}
func Impl_NewSOCS(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(14, s, difficulty.None, []int{1, 2, 0, 1}, []thing{a0, a1, a2, a3})
}
func Ref_NewSOCS(s settings, a0, a1, a2, a3 thing) []height {
	return expected(14, s, difficulty.None, []int{1, 2, 0, 1}, []thing{a0, a1, a2, a3})
}
func Impl_OldSOCS(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{1, 2, 0, 1}, []thing{a0, a1, a2, a3})
}
func Ref_OldSOCS(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{1, 2, 0, 1}, []thing{a0, a1, a2, a3})
}
func Impl_NewSOCO(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(14, s, difficulty.None, []int{1, 2, 0, 2}, []thing{a0, a1, a2, a3})
}
func Ref_NewSOCO(s settings, a0, a1, a2, a3 thing) []height {
	return expected(14, s, difficulty.None, []int{1, 2, 0, 2}, []thing{a0, a1, a2, a3})
}
func Impl_OldSOCO(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{1, 2, 0, 2}, []thing{a0, a1, a2, a3})
}
func Ref_OldSOCO(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{1, 2, 0, 2}, []thing{a0, a1, a2, a3})
}
func Impl_NewSOSC(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(14, s, difficulty.None, []int{1, 2, 1, 0}, []thing{a0, a1, a2, a3})
}
func Ref_NewSOSC(s settings, a0, a1, a2, a3 thing) []height {
	return expected(14, s, difficulty.None, []int{1, 2, 1, 0}, []thing{a0, a1, a2, a3})
}
func Impl_OldSOSC(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{1, 2, 1, 0}, []thing{a0, a1, a2, a3})
}
func Ref_OldSOSC(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{1, 2, 1, 0}, []thing{a0, a1, a2, a3})
}
func Impl_NewSOSS(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(14, s, difficulty.None, []int{1, 2, 1, 1}, []thing{a0, a1, a2, a3})
}
func Ref_NewSOSS(s settings, a0, a1, a2, a3 thing) []height {
	return expected(14, s, difficulty.None, []int{1, 2, 1, 1}, []thing{a0, a1, a2, a3})
}
func Impl_OldSOSS(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{1, 2, 1, 1}, []thing{a0, a1, a2, a3})
}
func Ref_OldSOSS(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{1, 2, 1, 1}, []thing{a0, a1, a2, a3})
}
func Impl_NewSOSO(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(14, s, difficulty.None, []int{1, 2, 1, 2}, []thing{a0, a1, a2, a3})
}
func Ref_NewSOSO(s settings, a0, a1, a2, a3 thing) []height {
	return expected(14, s, difficulty.None, []int{1, 2, 1, 2}, []thing{a0, a1, a2, a3})
}
func Impl_OldSOSO(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{1, 2, 1, 2}, []thing{a0, a1, a2, a3})
}
func Ref_OldSOSO(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{1, 2, 1, 2}, []thing{a0, a1, a2, a3})
}
func Impl_NewSOOC(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(14, s, difficulty.None, []int{1, 2, 2, 0}, []thing{a0, a1, a2, a3})
}
func Ref_NewSOOC(s settings, a0, a1, a2, a3 thing) []height {
	return expected(14, s, difficulty.None, []int{1, 2, 2, 0}, []thing{a0, a1, a2, a3})
}
func Impl_OldSOOC(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{1, 2, 2, 0}, []thing{a0, a1, a2, a3})
}
func Ref_OldSOOC(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{1, 2, 2, 0}, []thing{a0, a1, a2, a3})
}
func Impl_NewSOOS(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(14, s, difficulty.None, []int{1, 2, 2, 1}, []thing{a0, a1, a2, a3})
}
func Ref_NewSOOS(s settings, a0, a1, a2, a3 thing) []height {
	return expected(14, s, difficulty.None, []int{1, 2, 2, 1}, []thing{a0, a1, a2, a3})
}
func Impl_OldSOOS(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{1, 2, 2, 1}, []thing{a0, a1, a2, a3})
}
func Ref_OldSOOS(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{1, 2, 2, 1}, []thing{a0, a1, a2, a3})
}
func Impl_NewSOOO(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(14, s, difficulty.None, []int{1, 2, 2, 2}, []thing{a0, a1, a2, a3})
}
func Ref_NewSOOO(s settings, a0, a1, a2, a3 thing) []height {
	return expected(14, s, difficulty.None, []int{1, 2, 2, 2}, []thing{a0, a1, a2, a3})
}
func Impl_OldSOOO(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{1, 2, 2, 2}, []thing{a0, a1, a2, a3})
}
func Ref_OldSOOO(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{1, 2, 2, 2}, []thing{a0, a1, a2, a3})
}
func Impl_NewOCCC(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(14, s, difficulty.None, []int{2, 0, 0, 0}, []thing{a0, a1, a2, a3})
}
func Ref_NewOCCC(s settings, a0, a1, a2, a3 thing) []height {
	return expected(14, s, difficulty.None, []int{2, 0, 0, 0}, []thing{a0, a1, a2, a3})
}
func Impl_OldOCCC(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{2, 0, 0, 0}, []thing{a0, a1, a2, a3})
}
func Ref_OldOCCC(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{2, 0, 0, 0}, []thing{a0, a1, a2, a3})
}
func Impl_NewOCCS(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(14, s, difficulty.None, []int{2, 0, 0, 1}, []thing{a0, a1, a2, a3})
}
func Ref_NewOCCS(s settings, a0, a1, a2, a3 thing) []height {
	return expected(14, s, difficulty.None, []int{2, 0, 0, 1}, []thing{a0, a1, a2, a3})
}
func Impl_OldOCCS(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{2, 0, 0, 1}, []thing{a0, a1, a2, a3})
}
func Ref_OldOCCS(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{2, 0, 0, 1}, []thing{a0, a1, a2, a3})
}
func Impl_NewOCCO(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(14, s, difficulty.None, []int{2, 0, 0, 2}, []thing{a0, a1, a2, a3})
}
func Ref_NewOCCO(s settings, a0, a1, a2, a3 thing) []height {
	return expected(14, s, difficulty.None, []int{2, 0, 0, 2}, []thing{a0, a1, a2, a3})
}
func Impl_OldOCCO(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{2, 0, 0, 2}, []thing{a0, a1, a2, a3})
}
func Ref_OldOCCO(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{2, 0, 0, 2}, []thing{a0, a1, a2, a3})
}
func Impl_NewOCSC(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(14, s, difficulty.None, []int{2, 0, 1, 0}, []thing{a0, a1, a2, a3})
}
func Ref_NewOCSC(s settings, a0, a1, a2, a3 thing) []height {
	return expected(14, s, difficulty.None, []int{2, 0, 1, 0}, []thing{a0, a1, a2, a3})
}
func Impl_OldOCSC(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{2, 0, 1, 0}, []thing{a0, a1, a2, a3})
}
func Ref_OldOCSC(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{2, 0, 1, 0}, []thing{a0, a1, a2, a3})
}
func Impl_NewOCSS(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(14, s, difficulty.None, []int{2, 0, 1, 1}, []thing{a0, a1, a2, a3})
}
func Ref_NewOCSS(s settings, a0, a1, a2, a3 thing) []height {
	return expected(14, s, difficulty.None, []int{2, 0, 1, 1}, []thing{a0, a1, a2, a3})
}
func Impl_OldOCSS(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{2, 0, 1, 1}, []thing{a0, a1, a2, a3})
}
func Ref_OldOCSS(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{2, 0, 1, 1}, []thing{a0, a1, a2, a3})
}
func Impl_NewOCSO(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(14, s, difficulty.None, []int{2, 0, 1, 2}, []thing{a0, a1, a2, a3})
}
func Ref_NewOCSO(s settings, a0, a1, a2, a3 thing) []height {
	return expected(14, s, difficulty.None, []int{2, 0, 1, 2}, []thing{a0, a1, a2, a3})
}
func Impl_OldOCSO(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{2, 0, 1, 2}, []thing{a0, a1, a2, a3})
}
func Ref_OldOCSO(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{2, 0, 1, 2}, []thing{a0, a1, a2, a3})
}
func Impl_NewOCOC(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(14, s, difficulty.None, []int{2, 0, 2, 0}, []thing{a0, a1, a2, a3})
}
func Ref_NewOCOC(s settings, a0, a1, a2, a3 thing) []height {
	return expected(14, s, difficulty.None, []int{2, 0, 2, 0}, []thing{a0, a1, a2, a3})
}
func Impl_OldOCOC(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{2, 0, 2, 0}, []thing{a0, a1, a2, a3})
}
func Ref_OldOCOC(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{2, 0, 2, 0}, []thing{a0, a1, a2, a3})
}
func Impl_NewOCOS(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(14, s, difficulty.None, []int{2, 0, 2, 1}, []thing{a0, a1, a2, a3})
}
func Ref_NewOCOS(s settings, a0, a1, a2, a3 thing) []height {
	return expected(14, s, difficulty.None, []int{2, 0, 2, 1}, []thing{a0, a1, a2, a3})
}
func Impl_OldOCOS(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{2, 0, 2, 1}, []thing{a0, a1, a2, a3})
}
func Ref_OldOCOS(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{2, 0, 2, 1}, []thing{a0, a1, a2, a3})
}
func Impl_NewOCOO(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(14, s, difficulty.None, []int{2, 0, 2, 2}, []thing{a0, a1, a2, a3})
}
func Ref_NewOCOO(s settings, a0, a1, a2, a3 thing) []height {
	return expected(14, s, difficulty.None, []int{2, 0, 2, 2}, []thing{a0, a1, a2, a3})
}
func Impl_OldOCOO(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{2, 0, 2, 2}, []thing{a0, a1, a2, a3})
}
func Ref_OldOCOO(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{2, 0, 2, 2}, []thing{a0, a1, a2, a3})
}
func Impl_NewOSCC(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(14, s, difficulty.None, []int{2, 1, 0, 0}, []thing{a0, a1, a2, a3})
}
func Ref_NewOSCC(s settings, a0, a1, a2, a3 thing) []height {
	return expected(14, s, difficulty.None, []int{2, 1, 0, 0}, []thing{a0, a1, a2, a3})
}
func Impl_OldOSCC(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{2, 1, 0, 0}, []thing{a0, a1, a2, a3})
}
func Ref_OldOSCC(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{2, 1, 0, 0}, []thing{a0, a1, a2, a3})
}
func Impl_NewOSCS(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(14, s, difficulty.None, []int{2, 1, 0, 1}, []thing{a0, a1, a2, a3})
}
func Ref_NewOSCS(s settings, a0, a1, a2, a3 thing) []height {
	return expected(14, s, difficulty.None, []int{2, 1, 0, 1}, []thing{a0, a1, a2, a3})
}
func Impl_OldOSCS(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{2, 1, 0, 1}, []thing{a0, a1, a2, a3})
}
func Ref_OldOSCS(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{2, 1, 0, 1}, []thing{a0, a1, a2, a3})
}
func Impl_NewOSCO(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(14, s, difficulty.None, []int{2, 1, 0, 2}, []thing{a0, a1, a2, a3})
}
func Ref_NewOSCO(s settings, a0, a1, a2, a3 thing) []height {
	return expected(14, s, difficulty.None, []int{2, 1, 0, 2}, []thing{a0, a1, a2, a3})
}
func Impl_OldOSCO(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{2, 1, 0, 2}, []thing{a0, a1, a2, a3})
}
func Ref_OldOSCO(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{2, 1, 0, 2}, []thing{a0, a1, a2, a3})
}
func Impl_NewOSSC(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(14, s, difficulty.None, []int{2, 1, 1, 0}, []thing{a0, a1, a2, a3})
}
func Ref_NewOSSC(s settings, a0, a1, a2, a3 thing) []height {
	return expected(14, s, difficulty.None, []int{2, 1, 1, 0}, []thing{a0, a1, a2, a3})
}
func Impl_OldOSSC(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{2, 1, 1, 0}, []thing{a0, a1, a2, a3})
}
func Ref_OldOSSC(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{2, 1, 1, 0}, []thing{a0, a1, a2, a3})
}
func Impl_NewOSSS(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(14, s, difficulty.None, []int{2, 1, 1, 1}, []thing{a0, a1, a2, a3})
}
func Ref_NewOSSS(s settings, a0, a1, a2, a3 thing) []height {
	return expected(14, s, difficulty.None, []int{2, 1, 1, 1}, []thing{a0, a1, a2, a3})
}
func Impl_OldOSSS(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{2, 1, 1, 1}, []thing{a0, a1, a2, a3})
}
func Ref_OldOSSS(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{2, 1, 1, 1}, []thing{a0, a1, a2, a3})
}
func Impl_NewOSSO(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(14, s, difficulty.None, []int{2, 1, 1, 2}, []thing{a0, a1, a2, a3})
}
func Ref_NewOSSO(s settings, a0, a1, a2, a3 thing) []height {
	return expected(14, s, difficulty.None, []int{2, 1, 1, 2}, []thing{a0, a1, a2, a3})
}
func Impl_OldOSSO(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{2, 1, 1, 2}, []thing{a0, a1, a2, a3})
}
func Ref_OldOSSO(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{2, 1, 1, 2}, []thing{a0, a1, a2, a3})
}
func Impl_NewOSOC(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(14, s, difficulty.None, []int{2, 1, 2, 0}, []thing{a0, a1, a2, a3})
}
func Ref_NewOSOC(s settings, a0, a1, a2, a3 thing) []height {
	return expected(14, s, difficulty.None, []int{2, 1, 2, 0}, []thing{a0, a1, a2, a3})
}
func Impl_OldOSOC(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{2, 1, 2, 0}, []thing{a0, a1, a2, a3})
}
func Ref_OldOSOC(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{2, 1, 2, 0}, []thing{a0, a1, a2, a3})
}
func Impl_NewOSOS(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(14, s, difficulty.None, []int{2, 1, 2, 1}, []thing{a0, a1, a2, a3})
}
func Ref_NewOSOS(s settings, a0, a1, a2, a3 thing) []height {
	return expected(14, s, difficulty.None, []int{2, 1, 2, 1}, []thing{a0, a1, a2, a3})
}
func Impl_OldOSOS(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{2, 1, 2, 1}, []thing{a0, a1, a2, a3})
}
func Ref_OldOSOS(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{2, 1, 2, 1}, []thing{a0, a1, a2, a3})
}
func Impl_NewOSOO(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(14, s, difficulty.None, []int{2, 1, 2, 2}, []thing{a0, a1, a2, a3})
}
func Ref_NewOSOO(s settings, a0, a1, a2, a3 thing) []height {
	return expected(14, s, difficulty.None, []int{2, 1, 2, 2}, []thing{a0, a1, a2, a3})
}
func Impl_OldOSOO(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{2, 1, 2, 2}, []thing{a0, a1, a2, a3})
}
func Ref_OldOSOO(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{2, 1, 2, 2}, []thing{a0, a1, a2, a3})
}
func Impl_NewOOCC(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(14, s, difficulty.None, []int{2, 2, 0, 0}, []thing{a0, a1, a2, a3})
}
func Ref_NewOOCC(s settings, a0, a1, a2, a3 thing) []height {
	return expected(14, s, difficulty.None, []int{2, 2, 0, 0}, []thing{a0, a1, a2, a3})
}
func Impl_OldOOCC(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{2, 2, 0, 0}, []thing{a0, a1, a2, a3})
}
func Ref_OldOOCC(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{2, 2, 0, 0}, []thing{a0, a1, a2, a3})
}
func Impl_NewOOCS(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(14, s, difficulty.None, []int{2, 2, 0, 1}, []thing{a0, a1, a2, a3})
}
func Ref_NewOOCS(s settings, a0, a1, a2, a3 thing) []height {
	return expected(14, s, difficulty.None, []int{2, 2, 0, 1}, []thing{a0, a1, a2, a3})
}
func Impl_OldOOCS(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{2, 2, 0, 1}, []thing{a0, a1, a2, a3})
}
func Ref_OldOOCS(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{2, 2, 0, 1}, []thing{a0, a1, a2, a3})
}
func Impl_NewOOCO(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(14, s, difficulty.None, []int{2, 2, 0, 2}, []thing{a0, a1, a2, a3})
}
func Ref_NewOOCO(s settings, a0, a1, a2, a3 thing) []height {
	return expected(14, s, difficulty.None, []int{2, 2, 0, 2}, []thing{a0, a1, a2, a3})
}
func Impl_OldOOCO(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{2, 2, 0, 2}, []thing{a0, a1, a2, a3})
}
func Ref_OldOOCO(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{2, 2, 0, 2}, []thing{a0, a1, a2, a3})
}
func Impl_NewOOSC(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(14, s, difficulty.None, []int{2, 2, 1, 0}, []thing{a0, a1, a2, a3})
}
func Ref_NewOOSC(s settings, a0, a1, a2, a3 thing) []height {
	return expected(14, s, difficulty.None, []int{2, 2, 1, 0}, []thing{a0, a1, a2, a3})
}
func Impl_OldOOSC(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{2, 2, 1, 0}, []thing{a0, a1, a2, a3})
}
func Ref_OldOOSC(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{2, 2, 1, 0}, []thing{a0, a1, a2, a3})
}
func Impl_NewOOSS(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(14, s, difficulty.None, []int{2, 2, 1, 1}, []thing{a0, a1, a2, a3})
}
func Ref_NewOOSS(s settings, a0, a1, a2, a3 thing) []height {
	return expected(14, s, difficulty.None, []int{2, 2, 1, 1}, []thing{a0, a1, a2, a3})
}
func Impl_OldOOSS(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{2, 2, 1, 1}, []thing{a0, a1, a2, a3})
}
func Ref_OldOOSS(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{2, 2, 1, 1}, []thing{a0, a1, a2, a3})
}
func Impl_NewOOSO(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(14, s, difficulty.None, []int{2, 2, 1, 2}, []thing{a0, a1, a2, a3})
}
func Ref_NewOOSO(s settings, a0, a1, a2, a3 thing) []height {
	return expected(14, s, difficulty.None, []int{2, 2, 1, 2}, []thing{a0, a1, a2, a3})
}
func Impl_OldOOSO(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{2, 2, 1, 2}, []thing{a0, a1, a2, a3})
}
func Ref_OldOOSO(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{2, 2, 1, 2}, []thing{a0, a1, a2, a3})
}
func Impl_NewOOOC(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(14, s, difficulty.None, []int{2, 2, 2, 0}, []thing{a0, a1, a2, a3})
}
func Ref_NewOOOC(s settings, a0, a1, a2, a3 thing) []height {
	return expected(14, s, difficulty.None, []int{2, 2, 2, 0}, []thing{a0, a1, a2, a3})
}
func Impl_OldOOOC(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{2, 2, 2, 0}, []thing{a0, a1, a2, a3})
}
func Ref_OldOOOC(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{2, 2, 2, 0}, []thing{a0, a1, a2, a3})
}
func Impl_NewOOOS(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(14, s, difficulty.None, []int{2, 2, 2, 1}, []thing{a0, a1, a2, a3})
}
func Ref_NewOOOS(s settings, a0, a1, a2, a3 thing) []height {
	return expected(14, s, difficulty.None, []int{2, 2, 2, 1}, []thing{a0, a1, a2, a3})
}
func Impl_OldOOOS(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{2, 2, 2, 1}, []thing{a0, a1, a2, a3})
}
func Ref_OldOOOS(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{2, 2, 2, 1}, []thing{a0, a1, a2, a3})
}
func Impl_NewOOOO(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(14, s, difficulty.None, []int{2, 2, 2, 2}, []thing{a0, a1, a2, a3})
}
func Ref_NewOOOO(s settings, a0, a1, a2, a3 thing) []height {
	return expected(14, s, difficulty.None, []int{2, 2, 2, 2}, []thing{a0, a1, a2, a3})
}
func Impl_OldOOOO(s settings, a0, a1, a2, a3 thing) []height {
	return stacked(5, s, difficulty.None, []int{2, 2, 2, 2}, []thing{a0, a1, a2, a3})
}
func Ref_OldOOOO(s settings, a0, a1, a2, a3 thing) []height {
	return expected(5, s, difficulty.None, []int{2, 2, 2, 2}, []thing{a0, a1, a2, a3})
}
