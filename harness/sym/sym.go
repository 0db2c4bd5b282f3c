// Package sym is the interface between harnesses and the symbolic engine.
// The engine intercepts every function here; this code is the native version,
// used to replay a concrete assignment against the compiled repository.
package sym

import (
	"encoding/hex"
	"fmt"
	"os"
	"strconv"
)

// Input is one recorded value.
type Input struct {
	Kind string `json:"k"`
	V    uint64 `json:"v"`
}

// Stop ends a native run.
type Stop struct{ Status, Msg string }

var (
	inputs  []Input
	pos     int
	tier    int
	Obs     [][2]string
	tracked bool
)

// Load starts a native run.
func Load(in []Input, t int) {
	inputs, pos, tier, Obs = in, 0, t, nil
}

func next() uint64 {
	for pos < len(inputs) && inputs[pos].Kind == "maporder" {
		pos++
	}
	if pos >= len(inputs) {
		return 0
	}
	v := inputs[pos].V
	pos++
	return v
}

// Byte is any byte, and so on for the other types.
func Byte() byte     { return byte(next()) }
func Bool() bool     { return next() != 0 }
func Int64() int64   { return int64(next()) }
func Uint64() uint64 { return next() }
func Int32() int32   { return int32(next()) }
func Uint32() uint32 { return uint32(next()) }
func Int16() int16   { return int16(next()) }
func Uint16() uint16 { return uint16(next()) }
func Int8() int8     { return int8(next()) }

// Range is a symbolic int with 0 <= lo <= v <= hi <= 255.
func Range(lo, hi int) int {
	v := int(next())
	if v < lo {
		v = lo
	}
	if v > hi {
		v = hi
	}
	return v
}

// Choose forks into n explicit cases.
func Choose(n int) int {
	v := int(next())
	if n <= 1 {
		return 0
	}
	return v % n
}

// Pick is a symbolic byte out of a set.
func Pick(set string) byte {
	v := byte(next())
	for i := 0; i < len(set); i++ {
		if set[i] == v {
			return v
		}
	}
	return set[0]
}

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		panic(Stop{"assume", ""})
	}
}

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		panic(Stop{"assert", msg})
	}
}

// Cover marks a situation that must be reachable.
func Cover(label string) {}

// Observe records bytes that engine and native run must agree on.
func Observe(label, s string) { Obs = append(Obs, [2]string{label, hex.EncodeToString([]byte(s))}) }

// Debug shows a native replay (VERIF_SHOW=1).
func Debug(label, s string) {
	if Show {
		fmt.Fprintf(os.Stderr, "%s: %q\n", label, s)
	}
}

// Show turns Debug on.
var Show bool

// Fork decides a condition now (no merging).
func Fork(c bool) bool { return c }

// Conc forks over the values of v.
func Conc(v int) int { return v }

// MapOrder makes map iteration order symbolic (first-to-last or last-to-first).
func MapOrder(on bool) {}

// Tier is 0 for quick, 1 for thorough.
func Tier() int { return tier }

// Symbolic tells whether the engine runs the code.
func Symbolic() bool { return false }

// Track records the shared memory touched until TrackEnd under slot i.
func Track(i int) {}

// TrackEnd ends recording.
func TrackEnd() {}

// Disjoint asserts that slots i and j have no conflicting access.
func Disjoint(i, j int, msg string) {}

// Str is a string of n symbolic bytes.
func Str(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = Byte()
	}
	return string(b)
}

// StrOf is a string of n symbolic bytes out of set.
func StrOf(n int, set string) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = Pick(set)
	}
	return string(b)
}

// UpTo is a symbolic string of lo..hi bytes (the length forks).
func UpTo(lo, hi int) string { return Str(lo + Choose(hi-lo+1)) }

// UpToOf is a symbolic string of lo..hi bytes out of set (the length forks).
func UpToOf(lo, hi int, set string) string { return StrOf(lo+Choose(hi-lo+1), set) }

var _ = fmt.Sprint

// Float64 is the float64 nearest to 0.<digits> times 10 to the power exp: for the engine, digits may be
// symbolic, at most 15 of them are significant and the result is in the normal range.
func Float64(neg bool, digits string, exp int) float64 {
	f, err := strconv.ParseFloat("0."+digits+"e"+strconv.Itoa(exp), 64)
	if err != nil {
		panic(err)
	}
	if neg {
		f = -f
	}
	return f
}

// Float32 is the same for float32 and 6 digits.
func Float32(neg bool, digits string, exp int) float32 {
	f, err := strconv.ParseFloat("0."+digits+"e"+strconv.Itoa(exp), 32)
	if err != nil {
		panic(err)
	}
	if neg {
		f = -f
	}
	return float32(f)
}
