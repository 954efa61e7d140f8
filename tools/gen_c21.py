# Writes ref/c21/c21.go: the reference stacking and one pair of functions per kind combination, version and mod
# variant, for lists of the given lengths.
import itertools,os,subprocess,sys
head='''// Package c21 is the stacking of objects as osu! does it.
package c21

import (
	"io"
	"math"

	"github.com/Wieku/gosu-pp/beatmap"
	"github.com/Wieku/gosu-pp/beatmap/difficulty"
	"github.com/Wieku/gosu-pp/beatmap/objects"
	"github.com/Wieku/gosu-pp/math/vector"
)

//verif:bind work github.com/Wieku/gosu-pp/beatmap.SetStackIndex
//verif:marks Placed: marked github.com/Wieku/gosu-pp/beatmap.SetStackIndex

// work stands for the function that stacks the objects of a beatmap.
func work(b *beatmap.BeatMap, list []objects.IHitObject, version int, d *difficulty.Difficulty, leniency float64) {}

func stack(b *beatmap.BeatMap) {
	work(b, b.HitObjects, b.FileVersion, b.Difficulty, b.StackLeniency)
}

// scene is what the stacking depends on and writes.
type scene struct {
	version                  int
	hp, cs, od, ar, leniency float64
	all                      []placed
}

type placed struct {
	circle, slider     bool
	start, end         float64
	from, to           vector.Vector2f
	plain, easy, hard  int
}

func sceneOf(list []objects.IHitObject, version int, d *difficulty.Difficulty, leniency float64) scene {
	s := scene{version, d.GetHP(), d.GetCS(), d.GetOD(), d.GetAR(), leniency, nil}
	for _, o := range list {
		_, circle := o.(*objects.Circle)
		_, slider := o.(*objects.Slider)
		s.all = append(s.all, placed{circle, slider, o.GetStartTime(), o.GetEndTime(), o.GetStartPosition(), o.GetEndPosition(),
			o.GetStackIndex(difficulty.None), o.GetStackIndex(difficulty.Easy), o.GetStackIndex(difficulty.HardRock)})
	}
	return s
}

// seen is what the stacking was called with.
var seen *scene

// marked is called instead of the stacking.
func marked(b *beatmap.BeatMap, list []objects.IHitObject, version int, d *difficulty.Difficulty, leniency float64) {
	if b != nil {
		list, version, d, leniency = b.HitObjects, b.FileVersion, b.Difficulty, b.StackLeniency
	}
	s := sceneOf(list, version, d, leniency)
	seen = &s
}

// The stacking is done for every beatmap, of what the beatmap ends up with.
func Impl_Placed(r io.Reader) (scene, bool) {
	_, err := beatmap.ParseFromReader(r)
	if err != nil || seen == nil {
		return scene{}, err == nil
	}
	return *seen, true
}
func Ref_Placed(r io.Reader) (scene, bool) {
	b, err := beatmap.ParseFromReader(r)
	if err != nil {
		return scene{}, false
	}
	return sceneOf(b.HitObjects, b.FileVersion, b.Difficulty, b.StackLeniency), true
}

//verif:opaque Placed: github.com/Wieku/gosu-pp/beatmap/objects.CreateObject

const (
	circle = iota
	slider
	spinner
)

// thing is an object of any kind.
type thing struct {
	start, end float64
	from, to   vector.Vector2f
}

type settings struct {
	hp, cs, od, ar, leniency float64
}

type height struct {
	index  int
	offset vector.Vector2f
}

func object(kind int, t thing) (objects.IHitObject, *objects.HitObject) {
	h := &objects.HitObject{StartTime: t.start, EndTime: t.end, StartPosRaw: t.from, EndPosRaw: t.to}
	switch kind {
	case circle:
		return &objects.Circle{HitObject: h}, h
	case slider:
		return &objects.Slider{HitObject: h}, h
	}
	return &objects.Spinner{HitObject: h}, h
}

func stacked(version int, s settings, mods difficulty.Modifier, kinds []int, things []thing) (out []height) {
	b := &beatmap.BeatMap{FileVersion: version, StackLeniency: s.leniency, Difficulty: difficulty.NewDifficulty(s.hp, s.cs, s.od, s.ar)}
	var all []*objects.HitObject
	for i, t := range things {
		o, h := object(kinds[i], t)
		b.HitObjects = append(b.HitObjects, o)
		all = append(all, h)
	}
	stack(b)
	for _, h := range all {
		switch mods {
		case difficulty.HardRock:
			out = append(out, height{h.StackIndexHR, h.StackOffsetHR})
		case difficulty.Easy:
			out = append(out, height{h.StackIndexEZ, h.StackOffsetEZ})
		default:
			out = append(out, height{h.StackIndex, h.StackOffset})
		}
	}
	return
}

type item struct {
	thing
	kind, height int
}

func close(a, b vector.Vector2f) bool {
	dx, dy := a.X-b.X, a.Y-b.Y
	return float32(math.Sqrt(float64(dx*dx+dy*dy))) < 3
}

func expected(version int, s settings, mods difficulty.Modifier, kinds []int, things []thing) (out []height) {
	d := difficulty.NewDifficulty(s.hp, s.cs, s.od, s.ar)
	if mods != difficulty.None {
		d.SetMods(mods)
	}
	within := math.Floor(d.Preempt * s.leniency)

	var items []*item
	for i, t := range things {
		items = append(items, &item{thing: t, kind: kinds[i]})
	}
	if version < 6 {
		old(items, within)
	} else {
		current(items, within)
	}
	for _, it := range items {
		if it.kind == spinner {
			out = append(out, height{})
			continue
		}
		by := -float32(it.height) * float32(d.CircleRadius) / 10
		out = append(out, height{it.height, vector.Vector2f{X: by, Y: by}})
	}
	return
}

func current(items []*item, within float64) {
	reset := 0
	for i := len(items) - 1; i > 0; i-- {
		on := items[i]
		if on.height != 0 || on.kind == spinner {
			continue
		}
		round := on.kind == circle
		for n := i - 1; n >= 0; n-- {
			under := items[n]
			if under.kind == spinner {
				continue
			}
			from := under.start
			if round {
				from = under.end
			}
			if on.start-from > within {
				break
			}
			if round {
				if n < reset {
					under.height = 0
					reset = n
				}
				if under.kind == slider && close(under.to, on.from) {
					lower := on.height - under.height + 1
					for j := n + 1; j <= i; j++ {
						if close(under.to, items[j].from) {
							items[j].height -= lower
						}
					}
					break
				}
				if close(under.from, on.from) {
					under.height = on.height + 1
					on = under
				}
			} else if close(under.to, on.from) {
				under.height = on.height + 1
				on = under
			}
		}
	}
}

func old(items []*item, within float64) {
	for i, it := range items {
		if it.height != 0 && it.kind != slider {
			continue
		}
		last, below := it.end, 0
		for _, next := range items[i+1:] {
			if next.start-within > last {
				break
			}
			if close(next.from, it.from) {
				it.height++
				last = next.end
			} else if close(next.from, it.to) {
				below++
				next.height -= below
				last = next.end
			}
		}
	}
}
'''
out=head
LENGTHS=[int(a) for a in sys.argv[1:]] or [1,2,3,4]
slider,spinner=1,2
names='CSO'
for kinds in (k for N in LENGTHS for k in itertools.product(range(3),repeat=N)):
    N=len(kinds)
    for ver in ('New','Old','Any'):
        for m,mn in (('difficulty.None','NM'),('difficulty.Easy','EZ'),('difficulty.HardRock','HR')):
            # four objects of which a slider is one of the first two, and no spinner: too many cases
            if N>3 and ver=='New' and spinner not in kinds and slider in kinds[:2]: continue
            # the version is any one, or for four objects of a new or an old one
            if (ver=='Any')!=(N<4): continue
            if mn!='NM' and N>3 and any(kinds): continue
            n=ver+''.join(names[k] for k in kinds)+('' if mn=='NM' else mn)
            args=', '.join('a%d'%i for i in range(N))
            ks=', '.join(map(str,kinds))
            v={'New':'14','Old':'5','Any':'version'}[ver]
            first='version int, ' if ver=='Any' else ''
            for f,g in (('Impl','stacked'),('Ref','expected')):
                out+=f'func {f}_{n}({first}s settings, {args} thing) []height {{\n\treturn {g}({v}, s, {m}, []int{{{ks}}}, []thing{{{args}}})\n}}\n'
path=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','ref','c21','c21.go')
open(path,'w').write(out)
subprocess.check_call(['gofmt','-w',path])
