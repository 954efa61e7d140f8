// Package c28 is how the text of a beatmap file is decoded.
package c28

import (
	"bufio"
	"bytes"
	"io"
	"strings"

	"github.com/Wieku/gosu-pp/beatmap"
	"github.com/Wieku/gosu-pp/files"
	"golang.org/x/text/encoding/unicode"
	"golang.org/x/text/transform"
)

func assume(bool) {}

// decoded gives the text of a file saved as UTF-8 or, with a byte order mark,
// as UTF-16.
func decoded(r io.Reader) io.Reader {
	return transform.NewReader(r, unicode.BOMOverride(unicode.UTF8.NewDecoder()))
}

func Impl_Decoder(r io.Reader) io.Reader { return files.NewUnicodeReader(r) }
func Ref_Decoder(r io.Reader) io.Reader  { return decoded(r) }

func Impl_Lines(r io.Reader) ([]string, bool) { return lines(files.NewScanner(r)) }
func Ref_Lines(r io.Reader) ([]string, bool)  { return lines(bufio.NewScanner(decoded(r))) }

func Impl_LongLines(r io.Reader) ([]string, bool) {
	return lines(files.NewScannerBuf(r, 10<<20))
}
func Ref_LongLines(r io.Reader) ([]string, bool) {
	s := bufio.NewScanner(decoded(r))
	s.Buffer(nil, 10<<20)
	return lines(s)
}

func lines(s *bufio.Scanner) (out []string, ok bool) {
	for s.Scan() {
		out = append(out, s.Text())
	}
	return out, s.Err() == nil
}

//verif:opaque Bytes: github.com/Wieku/gosu-pp/beatmap/objects.CreateObject

func Impl_Bytes(data []byte) (*beatmap.BeatMap, error) {
	return beatmap.ParseFromByte(data)
}
func Ref_Bytes(data []byte) (*beatmap.BeatMap, error) {
	return beatmap.ParseFromReader(bytes.NewReader(data))
}

//verif:opaque Parsed: github.com/Wieku/gosu-pp/beatmap/objects.CreateObject

func Impl_Parsed(r io.Reader) (string, string, string, bool) {
	b, err := beatmap.ParseFromReader(r)
	if err != nil {
		return "", "", "", false
	}
	return b.Title, b.Artist, b.Creator, true
}
func Ref_Parsed(r io.Reader) (string, string, string, bool) {
	s := bufio.NewScanner(decoded(r))
	s.Buffer(nil, 10<<20)
	section := ""
	points := 0
	var title, artist, creator string
	for s.Scan() {
		text := s.Text()
		if head := strings.TrimSpace(text); strings.HasPrefix(head, "[") {
			if t := strings.TrimRight(strings.TrimLeft(head, "["), "]"); t != "" {
				section = t
				continue
			}
		}
		if strings.HasPrefix(text, "//") {
			continue
		}
		switch section {
		case "Metadata":
			p := strings.SplitN(text, ":", 2)
			if !strings.Contains(text, ":") || len(p) < 2 {
				continue
			}
			switch strings.TrimSpace(p[0]) {
			case "Title":
				title = strings.TrimSpace(p[1])
			case "Artist":
				artist = strings.TrimSpace(p[1])
			case "Creator":
				creator = strings.TrimSpace(p[1])
			}
		case "TimingPoints":
			if strings.Contains(text, ",") && len(strings.Split(text, ",")) > 1 {
				points++
			}
		}
	}
	if s.Err() != nil || title+artist+creator == "" || points == 0 {
		return "", "", "", false
	}
	return title, artist, creator, true
}
