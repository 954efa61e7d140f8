// Package c25 is when a read gives a beatmap.
package c25

import (
	"bufio"
	"bytes"
	"io"
	"strings"

	"github.com/Wieku/gosu-pp/beatmap"
	"golang.org/x/text/encoding/unicode"
	"golang.org/x/text/transform"
)

func assume(bool) {}

//verif:opaque github.com/Wieku/gosu-pp/beatmap/objects.CreateObject

func Impl_Reader(r io.Reader) (none, failed bool) {
	b, err := beatmap.ParseFromReader(r)
	return b == nil, err != nil
}
func Ref_Reader(r io.Reader) (none, failed bool) {
	ok := usable(r)
	return !ok, !ok
}

func Impl_Bytes(data []byte) (none, failed bool) {
	b, err := beatmap.ParseFromByte(data)
	return b == nil, err != nil
}
func Ref_Bytes(data []byte) (none, failed bool) {
	ok := usable(bytes.NewReader(data))
	return !ok, !ok
}

// usable tells if all of the file can be read and has a name and timing points.
func usable(r io.Reader) bool {
	s := bufio.NewScanner(transform.NewReader(r, unicode.BOMOverride(unicode.UTF8.NewDecoder())))
	s.Buffer(nil, 10<<20)
	section := ""
	points := 0
	var title, artist, creator string
	for s.Scan() {
		text := s.Text()
		if head := strings.TrimSpace(text); strings.HasPrefix(head, "[") {
			if t := strings.TrimRight(strings.TrimLeft(head, "["), "]"); t != "" {
				section = t
				continue
			}
		}
		if strings.HasPrefix(text, "//") {
			continue
		}
		switch section {
		case "Metadata":
			p := strings.SplitN(text, ":", 2)
			if !strings.Contains(text, ":") || len(p) < 2 {
				continue
			}
			switch strings.TrimSpace(p[0]) {
			case "Title":
				title = strings.TrimSpace(p[1])
			case "Artist":
				artist = strings.TrimSpace(p[1])
			case "Creator":
				creator = strings.TrimSpace(p[1])
			}
		case "TimingPoints":
			if strings.Contains(text, ",") && len(strings.Split(text, ",")) > 1 {
				points++
			}
		}
	}
	return s.Err() == nil && title+artist+creator != "" && points > 0
}
