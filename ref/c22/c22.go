// Package c22 is what the keys of a beatmap file mean.
package c22

import (
	"bufio"
	"io"
	"math"
	"strconv"
	"strings"

	"github.com/Wieku/gosu-pp/beatmap"
	"golang.org/x/text/encoding/unicode"
	"golang.org/x/text/transform"
)

func assume(bool) {}

//verif:opaque github.com/Wieku/gosu-pp/beatmap/objects.CreateObject

// lines calls back for every line of the file.
func lines(r io.Reader) *bufio.Scanner {
	s := bufio.NewScanner(transform.NewReader(r, unicode.BOMOverride(unicode.UTF8.NewDecoder())))
	s.Buffer(nil, 10<<20)
	return s
}

// next gives the section after a line, and whether the line is a header.
func next(section, line string) (string, bool) {
	line = strings.TrimSpace(line)
	if strings.HasPrefix(line, "[") {
		name := strings.TrimRight(strings.TrimLeft(line, "["), "]")
		if name != "" {
			return name, true
		}
	}
	return section, false
}

// pair splits a line at the first colon.
func pair(line string) (key, value string, ok bool) {
	if strings.HasPrefix(line, "//") || !strings.Contains(line, ":") {
		return "", "", false
	}
	p := strings.SplitN(line, ":", 2)
	if len(p) < 2 {
		return "", "", false
	}
	return strings.TrimSpace(p[0]), strings.TrimSpace(p[1]), true
}

func number(s string) float64 {
	v, _ := strconv.ParseFloat(s, 64)
	if math.IsNaN(v) {
		return 0
	}
	return v
}

func integer(s string) int {
	v, _ := strconv.Atoi(s)
	return v
}

func integer64(s string) int64 {
	v, _ := strconv.ParseInt(s, 10, 64)
	return v
}

func within(s string, low, high float64) float64 {
	v := number(s)
	if v < low {
		return low
	}
	if v > high {
		return high
	}
	return v
}

// fields gives the number of fields of a line with commas.
func fields(line string) []string {
	if strings.HasPrefix(line, "//") || !strings.Contains(line, ",") {
		return nil
	}
	p := strings.Split(line, ",")
	for i := range p {
		p[i] = strings.TrimSpace(p[i])
	}
	return p
}

type file struct {
	text   words
	plain  numbers
	how    play
	back   string
	breaks []*beatmap.Pause
	low    float64
	high   float64
}

// words are the values that are text.
type words struct {
	Title, TitleUnicode, Artist, ArtistUnicode, Creator, Version, Source, Tags, Audio string
}

type numbers struct {
	Mode, FileVersion int
	MapID, SetID      int64
	PreviewTime       int64
	StackLeniency     float64
}

type play struct {
	HP, CS, OD, AR                    float64
	SliderMultiplier, Timed, TickRate float64
}

// read is a beatmap file, false if it cannot be used.
func read(r io.Reader) (f file, good bool) {
	f.plain.StackLeniency = 0.7
	f.how = play{5, 5, 5, 5, 0, start().Timings.SliderMult, start().Timings.TickRate}
	f.low = math.Inf(1)
	given := false
	section, points := "", 0
	s := lines(r)
	for s.Scan() {
		line := s.Text()
		if strings.HasPrefix(line, "osu file format v") {
			f.plain.FileVersion = integer(strings.TrimPrefix(line, "osu file format v"))
		}
		now, header := next(section, line)
		if section = now; header {
			continue
		}
		switch section {
		case "General":
			if key, value, ok := pair(line); ok {
				switch key {
				case "Mode":
					f.plain.Mode = integer(value)
				case "StackLeniency":
					f.plain.StackLeniency = number(value)
				case "AudioFilename":
					f.text.Audio = value
				case "PreviewTime":
					f.plain.PreviewTime = integer64(value)
				}
			}
		case "Metadata":
			if key, value, ok := pair(line); ok {
				switch key {
				case "Title":
					f.text.Title = value
				case "TitleUnicode":
					f.text.TitleUnicode = value
				case "Artist":
					f.text.Artist = value
				case "ArtistUnicode":
					f.text.ArtistUnicode = value
				case "Creator":
					f.text.Creator = value
				case "Version":
					f.text.Version = value
				case "Source":
					f.text.Source = value
				case "Tags":
					f.text.Tags = value
				case "BeatmapID":
					f.plain.MapID = integer64(value)
				case "BeatmapSetID":
					f.plain.SetID = integer64(value)
				}
			}
		case "Difficulty":
			if key, value, ok := pair(line); ok {
				switch key {
				case "HPDrainRate":
					f.how.HP = within(value, 0, 10)
				case "CircleSize":
					f.how.CS = within(value, 0, 10)
				case "OverallDifficulty":
					f.how.OD = within(value, 0, 10)
					if !given {
						f.how.AR = f.how.OD
					}
				case "ApproachRate":
					f.how.AR = within(value, 0, 10)
					given = true
				case "SliderMultiplier":
					f.how.SliderMultiplier = within(value, 0.4, 3.6)
					f.how.Timed = f.how.SliderMultiplier
				case "SliderTickRate":
					f.how.TickRate = within(value, 0.5, 8)
				}
			}
		case "Events":
			if p := fields(line); len(p) > 2 {
				switch p[0] {
				case "0", "Background":
					f.back = strings.ReplaceAll(p[2], "\"", "")
				case "2", "Break":
					from, _ := strconv.ParseFloat(p[1], 64)
					to, _ := strconv.ParseFloat(p[2], 64)
					f.breaks = append(f.breaks, &beatmap.Pause{StartTime: from, EndTime: to})
				}
			}
		case "TimingPoints":
			if p := fields(line); len(p) > 1 {
				points++
				length, _ := strconv.ParseFloat(p[1], 64)
				if length >= 0 {
					f.low = math.Min(f.low, 60000/length)
					f.high = math.Max(f.high, 60000/length)
				}
			}
		}
	}
	return f, s.Err() == nil && f.text.Title+f.text.Artist+f.text.Creator != "" && points > 0
}

// start is a beatmap before anything is read.
func start() *beatmap.BeatMap { return beatmap.NewBeatMap() }

func parsed(r io.Reader) *beatmap.BeatMap {
	b, err := beatmap.ParseFromReader(r)
	if err != nil {
		return nil
	}
	return b
}

func Impl_Text(r io.Reader) (words, bool) {
	b := parsed(r)
	if b == nil {
		return words{}, false
	}
	return words{b.Title, b.TitleUnicode, b.Artist, b.ArtistUnicode, b.Creator, b.Version, b.Source, b.Tags, b.Audio}, true
}
func Ref_Text(r io.Reader) (words, bool) {
	f, ok := read(r)
	if !ok {
		return words{}, false
	}
	return f.text, true
}

func Impl_Numbers(r io.Reader) (numbers, bool) {
	b := parsed(r)
	if b == nil {
		return numbers{}, false
	}
	return numbers{b.Mode, b.FileVersion, b.MapID, b.SetID, b.PreviewTime, b.StackLeniency}, true
}
func Ref_Numbers(r io.Reader) (numbers, bool) {
	f, ok := read(r)
	if !ok {
		return numbers{}, false
	}
	return f.plain, true
}

func Impl_Difficulty(r io.Reader) (play, bool) {
	b := parsed(r)
	if b == nil {
		return play{}, false
	}
	d := b.Difficulty
	return play{d.GetHP(), d.GetCS(), d.GetOD(), d.GetAR(), b.SliderMultiplier, b.Timings.SliderMult, b.Timings.TickRate}, true
}
func Ref_Difficulty(r io.Reader) (play, bool) {
	f, ok := read(r)
	if !ok {
		return play{}, false
	}
	return f.how, true
}

func Impl_Background(r io.Reader) (string, bool) {
	b := parsed(r)
	if b == nil {
		return "", false
	}
	return b.Bg, true
}
func Ref_Background(r io.Reader) (string, bool) {
	f, ok := read(r)
	if !ok {
		return "", false
	}
	return f.back, true
}

func Impl_Breaks(r io.Reader) ([]float64, bool) {
	b := parsed(r)
	if b == nil {
		return nil, false
	}
	return spans(b.Pauses), true
}
func Ref_Breaks(r io.Reader) ([]float64, bool) {
	f, ok := read(r)
	if !ok {
		return nil, false
	}
	return spans(f.breaks), true
}

func spans(breaks []*beatmap.Pause) (out []float64) {
	for _, p := range breaks {
		out = append(out, p.StartTime, p.EndTime)
	}
	return
}

func Impl_Tempo(r io.Reader) (low, high float64, ok bool) {
	b := parsed(r)
	if b == nil {
		return 0, 0, false
	}
	return b.MinBPM, b.MaxBPM, true
}
func Ref_Tempo(r io.Reader) (low, high float64, ok bool) {
	f, ok := read(r)
	if !ok {
		return 0, 0, false
	}
	return f.low, f.high, true
}
