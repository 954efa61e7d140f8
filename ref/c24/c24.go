// Package c24 is the order and the combos of the objects of a beatmap.
package c24

import (
	"bufio"
	"io"
	"sort"
	"strings"

	"github.com/Wieku/gosu-pp/beatmap"
	"github.com/Wieku/gosu-pp/beatmap/objects"
	"golang.org/x/text/encoding/unicode"
	"golang.org/x/text/transform"
)

func assume(bool) {}

//verif:opaque github.com/Wieku/gosu-pp/beatmap/objects.CreateObject

type numbered struct {
	Start        float64
	ID, Set, Hax int
	New          bool
}

func Impl_Order(r io.Reader) ([]float64, bool) {
	b, err := beatmap.ParseFromReader(r)
	if err != nil {
		return nil, false
	}
	var out []float64
	for _, o := range b.HitObjects {
		out = append(out, o.GetStartTime())
	}
	return out, true
}
func Ref_Order(r io.Reader) ([]float64, bool) {
	all, ok := read(r)
	if !ok {
		return nil, false
	}
	var out []float64
	for _, o := range all {
		out = append(out, o.GetStartTime())
	}
	return out, true
}

// fields gives the values of a line with commas.
func fields(line string) []string {
	if strings.HasPrefix(line, "//") || !strings.Contains(line, ",") {
		return nil
	}
	f := strings.Split(line, ",")
	for i := range f {
		f[i] = strings.TrimSpace(f[i])
	}
	return f
}

// read gives the objects in order.
func read(r io.Reader) (all []objects.IHitObject, ok bool) {
	s := bufio.NewScanner(transform.NewReader(r, unicode.BOMOverride(unicode.UTF8.NewDecoder())))
	s.Buffer(nil, 10<<20)
	section := ""
	points := 0
	var title, artist, creator string
	for s.Scan() {
		text := s.Text()
		if head := strings.TrimSpace(text); strings.HasPrefix(head, "[") {
			if t := strings.TrimRight(strings.TrimLeft(head, "["), "]"); t != "" {
				section = t
				continue
			}
		}
		if strings.HasPrefix(text, "//") {
			continue
		}
		switch section {
		case "Metadata":
			p := strings.SplitN(text, ":", 2)
			if !strings.Contains(text, ":") || len(p) < 2 {
				continue
			}
			switch strings.TrimSpace(p[0]) {
			case "Title":
				title = strings.TrimSpace(p[1])
			case "Artist":
				artist = strings.TrimSpace(p[1])
			case "Creator":
				creator = strings.TrimSpace(p[1])
			}
		case "TimingPoints":
			if strings.Contains(text, ",") && len(strings.Split(text, ",")) > 1 {
				points++
			}
		case "HitObjects":
			if f := fields(text); objects.HasRequiredFields(f) {
				if o := objects.CreateObject(f); o != nil {
					all = append(all, o)
				}
			}
		}
	}
	if s.Err() != nil || title+artist+creator == "" || points == 0 {
		return nil, false
	}
	sort.SliceStable(all, func(i, j int) bool { return all[i].GetStartTime() < all[j].GetStartTime() })
	return all, true
}

func Impl_Combos(r io.Reader) ([]numbered, bool) {
	b, err := beatmap.ParseFromReader(r)
	if err != nil {
		return nil, false
	}
	return list(b.HitObjects), true
}
func Ref_Combos(r io.Reader) ([]numbered, bool) {
	all, ok := read(r)
	if !ok {
		return nil, false
	}
	number, set, hax, after := 1, 0, 0, false
	for i, o := range all {
		switch {
		case o.GetType() == objects.SPINNER:
			after = true
		case after || o.IsNewCombo():
			o.SetNewCombo(true)
			number = 1
			set++
			hax += 1 + o.GetColorOffset()
			after = false
		}
		o.SetID(i)
		o.SetComboNumber(number)
		o.SetComboSet(set)
		o.SetComboSetHax(hax)
		number++
	}
	return list(all), true
}

func list(all []objects.IHitObject) (out []numbered) {
	for _, o := range all {
		out = append(out, numbered{o.GetStartTime(), o.GetID(), o.GetComboSet(), o.GetComboSetHax(), o.IsNewCombo()})
	}
	return
}
