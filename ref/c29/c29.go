// Package c29 is what the timing point lines of a beatmap file mean.
package c29

import (
	"bufio"
	"io"
	"math"
	"strconv"
	"strings"

	"github.com/Wieku/gosu-pp/beatmap"
	"github.com/Wieku/gosu-pp/beatmap/timing"
	"golang.org/x/text/encoding/unicode"
	"golang.org/x/text/transform"
)

//verif:opaque github.com/Wieku/gosu-pp/beatmap/objects.CreateObject

type point struct {
	Time, Raw             float64
	Set, Index            int
	Volume                float64
	Signature             int
	Inherited, Kiai, Omit bool
}

func seen(p timing.ControlPoint) point {
	return point{p.Time, p.GetRawBeatLength(), p.SampleSet, p.SampleIndex, p.SampleVolume, p.Signature, p.Inherited, p.Kiai, p.OmitFirstBarLine}
}

// fields gives the fields of a line with commas.
func fields(line string) []string {
	p := strings.Split(line, ",")
	for i := range p {
		p[i] = strings.TrimSpace(p[i])
	}
	return p
}

// decode gives the point of the fields of a line.
func decode(f []string) (p point) {
	p.Volume = 1
	p.Index = 1
	p.Signature = 4

	if t, _ := strconv.ParseFloat(f[0], 64); !math.IsNaN(t) {
		p.Time = t
	}
	p.Raw, _ = strconv.ParseFloat(f[1], 64)

	if len(f) > 2 {
		if beats, _ := strconv.Atoi(f[2]); beats != 0 {
			p.Signature = beats
		}
	}
	if len(f) > 3 {
		p.Set, _ = strconv.Atoi(f[3])
	}
	if len(f) > 4 {
		p.Index, _ = strconv.Atoi(f[4])
	}
	if len(f) > 5 {
		percent, _ := strconv.Atoi(f[5])
		p.Volume = float64(percent) / 100
	}
	if len(f) > 6 {
		own, _ := strconv.Atoi(f[6])
		p.Inherited = own == 0
	}
	if len(f) > 7 {
		effects, _ := strconv.Atoi(f[7])
		p.Kiai = effects&1 != 0
		p.Omit = effects&8 != 0
	}
	return
}

func Impl_Line(line string, time float64) point {
	b := beatmap.NewBeatMap()
	b.ParsePoint(line)
	b.FinalizePoints()
	return seen(b.Timings.GetPointAt(time))
}
func Ref_Line(line string, time float64) point {
	return decode(fields(line))
}

func add(t *timing.Timings, p point) {
	t.AddPoint(p.Time, p.Raw, p.Set, p.Index, p.Volume, p.Signature, p.Inherited, p.Kiai, p.Omit)
}

func Impl_Lines(lines []string, time float64) point {
	b := beatmap.NewBeatMap()
	for _, line := range lines {
		b.ParsePoint(line)
	}
	b.FinalizePoints()
	return seen(b.Timings.GetPointAt(time))
}
func Ref_Lines(lines []string, time float64) point {
	t := timing.NewTimings()
	for _, line := range lines {
		add(t, decode(fields(line)))
	}
	t.FinalizePoints()
	return seen(t.GetPointAt(time))
}

// next gives the section after a line, and whether the line is a header.
func next(section, line string) (string, bool) {
	line = strings.TrimSpace(line)
	if strings.HasPrefix(line, "[") {
		name := strings.TrimRight(strings.TrimLeft(line, "["), "]")
		if name != "" {
			return name, true
		}
	}
	return section, false
}

func Impl_File(r io.Reader, time float64) (p point, ok bool) {
	b, err := beatmap.ParseFromReader(r)
	if err != nil {
		return
	}
	return seen(b.Timings.GetPointAt(time)), true
}
func Ref_File(r io.Reader, time float64) (p point, ok bool) {
	s := bufio.NewScanner(transform.NewReader(r, unicode.BOMOverride(unicode.UTF8.NewDecoder())))
	s.Buffer(nil, 10<<20)
	t := timing.NewTimings()
	section, named, points := "", "", 0
	var title, artist, creator string
	for s.Scan() {
		line := s.Text()
		now, header := next(section, line)
		if section = now; header {
			continue
		}
		switch section {
		case "Metadata":
			if strings.HasPrefix(line, "//") || !strings.Contains(line, ":") {
				continue
			}
			pair := strings.SplitN(line, ":", 2)
			if len(pair) < 2 {
				continue
			}
			switch strings.TrimSpace(pair[0]) {
			case "Title":
				title = strings.TrimSpace(pair[1])
			case "Artist":
				artist = strings.TrimSpace(pair[1])
			case "Creator":
				creator = strings.TrimSpace(pair[1])
			}
		case "TimingPoints":
			if strings.HasPrefix(line, "//") || !strings.Contains(line, ",") {
				continue
			}
			if f := fields(line); len(f) > 1 {
				add(t, decode(f))
				points++
			}
		}
	}
	named = title + artist + creator
	if s.Err() != nil || named == "" || points == 0 {
		return
	}
	t.FinalizePoints()
	return seen(t.GetPointAt(time)), true
}

// Before any line is read.

func Impl_Default() point { return seen(timing.NewTimings().GetDefault()) }
func Ref_Default() point  { return point{0, 1000, 0, 1, 1, 4, false, false, false} }
