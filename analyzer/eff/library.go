package eff

import (
	"go/types"
	"strings"
)

// Verdict says what a library function can do.
type Verdict int

const (
	Unknown   Verdict = iota
	Forbidden         // depends on or changes something outside the program's values
	Reads             // only reads its arguments and gives a new result
	Shuffles          // changes the elements of its first argument
	Changes           // may change what its arguments reach and keep it in its result
)

var pkgs = map[string]Verdict{
	"math": Reads, "math/bits": Reads, "math/cmplx": Reads, "strings": Reads, "strconv": Reads, "unicode": Reads, "unicode/utf8": Reads, "unicode/utf16": Reads,
	"errors": Reads, "fmt": Reads, "bytes": Reads, "cmp": Reads, "path": Reads, "path/filepath": Reads, "hash/crc32": Reads, "hash/fnv": Reads,
	"encoding/hex": Reads, "encoding/base64": Reads, "encoding/binary": Changes, "regexp": Reads, "html": Reads, "crypto/md5": Reads, "crypto/sha256": Reads, "crypto/sha1": Reads,
	"sort": Shuffles, "slices": Shuffles,
	"bufio": Changes, "io": Changes, "container/heap": Changes, "container/list": Changes, "container/ring": Changes, "math/big": Changes, "io/ioutil": Changes, "text/scanner": Changes,
	"golang.org/x/text/transform": Changes, "golang.org/x/text/encoding": Reads, "golang.org/x/text/encoding/unicode": Reads, "golang.org/x/text/encoding/charmap": Reads, "golang.org/x/text/encoding/japanese": Reads,
	"": Reads, // error.Error
}

var forbidden = map[string]string{
	"time": "depends on the clock", "math/rand": "gives random numbers", "math/rand/v2": "gives random numbers", "crypto/rand": "gives random numbers",
	"os": "depends on the environment", "os/exec": "depends on the environment", "os/user": "depends on the environment", "os/signal": "depends on the environment",
	"runtime": "depends on the state of the process", "runtime/debug": "depends on the state of the process", "syscall": "depends on the environment",
	"net": "depends on the environment", "net/http": "depends on the environment", "log": "writes outside of the program's values", "log/slog": "writes outside of the program's values",
	"context":      "depends on the clock",
	"hash/maphash": "is seeded at random", "unsafe": "depends on addresses", "maps": "gives elements in a random order", "flag": "depends on the environment",
	"expvar": "is shared state", "testing": "is for tests", "unique": "is shared state", "weak": "depends on the garbage collector", "plugin": "depends on the environment",
}

// Library judges a function of another module.
func Library(f *types.Func) (Verdict, string) {
	path := ""
	if f.Pkg() != nil {
		path = f.Pkg().Path()
	}
	name := f.Name()
	sig, _ := f.Type().(*types.Signature)
	method := sig != nil && sig.Recv() != nil
	if w, ok := forbidden[path]; ok {
		return Forbidden, w
	}
	switch {
	case path == "sync": // a lock of a value of its own is harmless, one of a shared value is written to
		r := ""
		if method {
			r = sig.Recv().Type().String()
		}
		if strings.HasSuffix(r, "sync.Mutex") || strings.HasSuffix(r, "sync.RWMutex") || strings.HasSuffix(r, "sync.Once") || strings.HasSuffix(r, "sync.Locker") {
			return Changes, ""
		}
		return Forbidden, "is for state shared between goroutines"
	case path == "sync/atomic":
		return Changes, ""
	case path == "reflect":
		if name == "DeepEqual" {
			return Reads, ""
		}
		return Unknown, ""
	case path == "fmt":
		switch {
		case strings.HasPrefix(name, "Sprint"), name == "Errorf":
			return Reads, ""
		case strings.HasPrefix(name, "Fprint"), strings.HasPrefix(name, "Sscan"), strings.HasPrefix(name, "Fscan"), strings.HasPrefix(name, "Append"):
			return Changes, ""
		}
		return Forbidden, "uses the standard input or output"
	case path == "io/ioutil":
		if name != "ReadAll" && name != "NopCloser" {
			return Forbidden, "depends on the environment"
		}
	case path == "path/filepath":
		switch name {
		case "Abs", "Glob", "Walk", "WalkDir", "EvalSymlinks":
			return Forbidden, "depends on the environment"
		}
	case path == "strings" || path == "bytes":
		if method || path == "bytes" && strings.HasPrefix(name, "New") || name == "NewReader" || name == "NewReplacer" {
			return Changes, ""
		}
	case path == "regexp":
		if method {
			return Reads, ""
		}
	case path == "strconv":
		if strings.HasPrefix(name, "Append") {
			return Changes, ""
		}
	case path == "sort":
		if strings.HasPrefix(name, "Search") || strings.HasSuffix(name, "AreSorted") || name == "SliceIsSorted" || name == "IsSorted" {
			return Reads, ""
		}
		if name == "Sort" || name == "Stable" || name == "Reverse" || method {
			return Changes, ""
		}
	case path == "slices":
		for _, p := range []string{"Contains", "Index", "Equal", "Max", "Min", "BinarySearch", "IsSorted", "Compare"} {
			if strings.HasPrefix(name, p) {
				return Reads, ""
			}
		}
		if !strings.HasPrefix(name, "Sort") && name != "Reverse" {
			return Changes, ""
		}
	case strings.HasPrefix(path, "hash/"), strings.HasPrefix(path, "crypto/"):
		if method || name == "New" || strings.HasPrefix(name, "New") {
			return Changes, ""
		}
	}
	if v, ok := pkgs[path]; ok {
		return v, ""
	}
	return Unknown, ""
}
