// Package c23 is what the lines of hit objects mean.
package c23

import (
	"bufio"
	"io"
	"math"
	"strconv"
	"strings"

	"github.com/Wieku/gosu-pp/beatmap"
	"github.com/Wieku/gosu-pp/beatmap/audio"
	"github.com/Wieku/gosu-pp/beatmap/objects"
	"github.com/Wieku/gosu-pp/math/curves"
	"github.com/Wieku/gosu-pp/math/vector"
	"golang.org/x/text/encoding/unicode"
	"golang.org/x/text/transform"
)

func assume(bool) {}

//verif:opaque github.com/Wieku/gosu-pp/math/curves.NewMultiCurveT (*github.com/Wieku/gosu-pp/math/curves.MultiCurve).PointAt

const (
	none = iota
	circle
	spinner
	slider
	hold
)

func integer(s string) int {
	v, _ := strconv.Atoi(s)
	return v
}

// kind is what a line with a type describes, none without the fields for it.
func kind(f []string) int {
	if len(f) < 5 {
		return none
	}
	t := integer(f[3])
	switch {
	case t&1 != 0:
		return circle
	case t&8 != 0:
		if len(f) > 5 {
			return spinner
		}
	case t&2 != 0:
		if len(f) > 7 {
			return slider
		}
	case t&128 != 0:
		if len(f) > 5 {
			return hold
		}
	}
	return none
}

func number(text string, bits int, limit float64) float64 {
	v, _ := strconv.ParseFloat(text, bits)
	if math.IsNaN(v) {
		return 0
	}
	return math.Min(limit, math.Max(-limit, v))
}

func coordinate(text string) float32 { return float32(number(text, 32, 131072)) }

func moment(text string) float64 { return number(text, 64, 2147483647) }

// line is what a line says of every object.
type line struct {
	Kind       int
	Start, End float64
	At         vector.Vector2f
	Combo      bool
	Skip       int
	ID         int
}

func Impl_Common(f []string) line {
	o := objects.CreateObject(f)
	if o == nil {
		return line{}
	}
	l := line{Start: o.GetStartTime(), End: o.GetEndTime(), At: o.GetStartPosition(), Combo: o.IsNewCombo(), Skip: o.GetColorOffset(), ID: o.GetID()}
	switch o.GetType() {
	case objects.CIRCLE:
		l.Kind = circle
	case objects.SPINNER:
		l.Kind = spinner
	case objects.SLIDER:
		l.Kind = slider
	}
	return l
}
func Ref_Common(f []string) line {
	k := kind(f)
	if k == none || k == hold {
		return line{}
	}
	l := line{Kind: k, Start: moment(f[2]), At: vector.Vector2f{X: coordinate(f[0]), Y: coordinate(f[1])}, ID: -1}
	l.End = l.Start
	if k == spinner {
		l.End = moment(f[5])
	}
	t := integer(f[3])
	l.Combo = t&4 != 0
	l.Skip = t >> 4 & 7
	return l
}

// path is what a line says of a slider.
type path struct {
	Spans int64
	End   vector.Vector2f
}

func Impl_Path(f []string) (path, bool) {
	s, ok := objects.CreateObject(f).(*objects.Slider)
	if !ok {
		return path{}, false
	}
	return path{s.RepeatCount, s.GetEndPosition()}, true
}
func Ref_Path(f []string) (path, bool) {
	if kind(f) != slider {
		return path{}, false
	}
	parts := strings.Split(f[5], "|")
	points := []vector.Vector2f{{X: coordinate(f[0]), Y: coordinate(f[1])}}
	for _, p := range parts[1:] {
		if xy := strings.Split(p, ":"); len(xy) > 1 {
			points = append(points, vector.Vector2f{X: coordinate(xy[0]), Y: coordinate(xy[1])})
		}
	}
	c := curves.NewMultiCurveT(parts[0], points, number(f[7], 64, 131072))
	return path{spans(f), c.PointAt(1)}, true
}

func spans(f []string) int64 {
	n, _ := strconv.ParseInt(f[6], 10, 64)
	switch {
	case n < 1:
		return 1
	case n > 9000:
		return 9000
	}
	return n
}

func Impl_Sounds(f []string) []audio.HitSound {
	o := objects.CreateObject(f)
	if o == nil {
		return nil
	}
	return o.GetSounds()
}
func Ref_Sounds(f []string) []audio.HitSound {
	k := kind(f)
	if k == none || k == hold {
		return nil
	}
	base := audio.HitSound(integer(f[4]))
	if k != slider {
		return []audio.HitSound{base}
	}
	all := make([]audio.HitSound, spans(f)+1)
	for i := range all {
		all[i] = base
	}
	if len(f) > 8 {
		for i, s := range strings.Split(f[8], "|") {
			if i >= len(all) {
				break
			}
			all[i] = audio.HitSound(integer(s))
		}
	}
	return all
}

// counts are the numbers of objects of each kind and the last start of one.
type counts struct{ Circles, Spinners, Sliders, Length int }

//verif:opaque Counts: github.com/Wieku/gosu-pp/beatmap/objects.CreateObject

func Impl_Counts(r io.Reader) (counts, bool) {
	b, err := beatmap.ParseFromReader(r)
	if err != nil {
		return counts{}, false
	}
	return counts{b.Circles, b.Spinners, b.Sliders, b.Length}, true
}
func Ref_Counts(r io.Reader) (n counts, ok bool) {
	s := bufio.NewScanner(transform.NewReader(r, unicode.BOMOverride(unicode.UTF8.NewDecoder())))
	s.Buffer(nil, 10<<20)
	section := ""
	points := 0
	var title, artist, creator string
	for s.Scan() {
		text := s.Text()
		if head := strings.TrimSpace(text); strings.HasPrefix(head, "[") {
			if t := strings.TrimRight(strings.TrimLeft(head, "["), "]"); t != "" {
				section = t
				continue
			}
		}
		if strings.HasPrefix(text, "//") {
			continue
		}
		switch section {
		case "Metadata":
			p := strings.SplitN(text, ":", 2)
			if !strings.Contains(text, ":") || len(p) < 2 {
				continue
			}
			switch strings.TrimSpace(p[0]) {
			case "Title":
				title = strings.TrimSpace(p[1])
			case "Artist":
				artist = strings.TrimSpace(p[1])
			case "Creator":
				creator = strings.TrimSpace(p[1])
			}
		case "TimingPoints":
			if strings.Contains(text, ",") && len(strings.Split(text, ",")) > 1 {
				points++
			}
		case "HitObjects":
			if !strings.Contains(text, ",") {
				continue
			}
			f := strings.Split(text, ",")
			for i := range f {
				f[i] = strings.TrimSpace(f[i])
			}
			at := ""
			switch kind(f) {
			case circle:
				n.Circles++
				at = f[2]
			case spinner:
				n.Spinners++
				at = f[5]
			case slider:
				n.Sliders++
				at = f[2]
			case hold:
				n.Sliders++
				at = strings.Split(f[5], ":")[0]
			}
			if t := integer(at); t > n.Length {
				n.Length = t
			}
		}
	}
	if s.Err() != nil || title+artist+creator == "" || points == 0 {
		return counts{}, false
	}
	return n, true
}
