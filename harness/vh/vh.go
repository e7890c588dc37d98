// Package vh is the harness library. Under the symbolic engine every function here is an intrinsic; natively the
// functions replay recorded inputs.
package vh

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strconv"
)

// Input is one recorded harness input.
type Input struct {
	Kind  string `json:"kind"`
	Label string `json:"label"`
	Val   string `json:"val"`
}

type Violation struct{ Label string }
type Diverged struct{ Msg string }
type Skip struct{}
type Stopped struct{}

var (
	inputs []Input
	pos    int
	dir    string
)

// Begin starts a native run.
func Begin(in []Input, d string) { inputs, pos, dir = in, 0, d }

func next(kind, label string) string {
	if pos >= len(inputs) {
		panic(Diverged{"no more inputs at " + kind + " " + label})
	}
	in := inputs[pos]
	pos++
	if in.Kind != kind || in.Label != label {
		panic(Diverged{fmt.Sprintf("input %d is %s %s, wanted %s %s", pos-1, in.Kind, in.Label, kind, label)})
	}
	return in.Val
}

func nextInt(kind, label string) int {
	v, err := strconv.Atoi(next(kind, label))
	if err != nil {
		panic(Diverged{err.Error()})
	}
	return v
}

func nextReal(label string) float64 {
	v, err := strconv.ParseFloat(next("real", label), 64)
	if err != nil {
		panic(Diverged{err.Error()})
	}
	return v
}

// Symbolic reports whether the symbolic engine runs the code.
func Symbolic() bool { return false }

// Deep reports whether the thorough tier runs.
func Deep() bool { return next("deep", "") == "true" }

// Choose forks over 0..n-1.
func Choose(label string, n int) int {
	if n == 1 {
		next("choose", label)
		return 0
	}
	return nextInt("choose", label)
}

// Int is a symbolic integer in lo..hi.
func Int(label string, lo, hi int) int { return nextInt("int", label) }

// Rune is a symbolic rune in lo..hi.
func Rune(label string, lo, hi rune) rune { return rune(nextInt("int", label)) }

// Str is a text of n bytes between lo and hi.
func Str(label string, n int, lo, hi byte) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(nextInt("int", label))
	}
	return string(b)
}

// Bool is a symbolic boolean.
func Bool(label string) bool { return next("bool", label) == "true" }

// Real is any real number, Pos a positive and NonNeg a non-negative one.
func Real(label string) float64   { return nextReal(label) }
func Pos(label string) float64    { return nextReal(label) }
func NonNeg(label string) float64 { return nextReal(label) }

// Dist is any distribution over n outcomes with positive probabilities.
func Dist(label string, n int) []float64 {
	out := make([]float64, n)
	sum := 0.0
	for i := 0; i < n-1; i++ {
		out[i] = nextReal(fmt.Sprintf("%s_%d", label, i))
		sum += out[i]
	}
	out[n-1] = 1 - sum
	return out
}

// Assume restricts the inputs considered.
func Assume(b bool) {
	if !b {
		panic(Skip{})
	}
}

// Assert states that b holds for all inputs.
func Assert(b bool, label string) {
	if !b {
		panic(Violation{label})
	}
}

// Fail states that this point is not reachable.
func Fail(label string) { panic(Violation{label}) }

// EqF states that two numbers are equal (NaN equals NaN).
func EqF(a, b float64, label string) {
	if math.IsNaN(a) && math.IsNaN(b) || a == b {
		return
	}
	if math.Abs(a-b) <= 1e-13+1e-9*math.Max(math.Abs(a), math.Abs(b)) {
		return
	}
	panic(Violation{fmt.Sprintf("%s: %v != %v", label, a, b)})
}

// LeF states that a <= b.
func LeF(a, b float64, label string) {
	if a <= b+1e-13+1e-9*math.Max(math.Abs(a), math.Abs(b)) {
		return
	}
	panic(Violation{fmt.Sprintf("%s: %v > %v", label, a, b)})
}

// Reach marks a point that must be reachable for the harness to mean anything.
func Reach(label string) {}

// FloatText is the number as it would be written in a document.
func FloatText(x float64) string { return strconv.FormatFloat(x, 'g', -1, 64) }

// IntText is the integer as it would be written in a document.
func IntText(x int) string { return strconv.Itoa(x) }

// WriteFile writes a file in the run's scratch directory and returns its path.
func WriteFile(name, content string) string {
	p := filepath.Join(dir, name)
	if err := os.WriteFile(p, []byte(content), 0o644); err != nil {
		panic(Diverged{err.Error()})
	}
	return p
}

// Path returns the path of a file in the run's scratch directory.
func Path(name string) string { return filepath.Join(dir, name) }

// ReadFile reads a file of the run's scratch directory.
func ReadFile(name string) (string, bool) {
	b, err := os.ReadFile(filepath.Join(dir, name))
	return string(b), err == nil
}

// Capture runs f and returns what it writes to the standard output.
func Capture(f func()) string {
	old := os.Stdout
	w, err := os.CreateTemp(dir, "out")
	if err != nil {
		panic(Diverged{err.Error()})
	}
	os.Stdout = w
	defer func() {
		os.Stdout = old
		w.Close()
		os.Remove(w.Name())
	}()
	f()
	b, err := os.ReadFile(w.Name())
	if err != nil {
		panic(Diverged{err.Error()})
	}
	return string(b)
}

// Stop ends the path.
func Stop() { panic(Stopped{}) }

// Panics runs f and returns the panic message, or "".
func Panics(f func()) (msg string) {
	defer func() {
		switch x := recover().(type) {
		case nil:
		case Violation, Diverged, Skip, Stopped:
			panic(x)
		default:
			msg = fmt.Sprint(x)
			if msg == "" {
				msg = "panic"
			}
		}
	}()
	f()
	return ""
}

// Ite and IteF are conditional values, And and Or conjunction and disjunction, all without branching.
func Ite(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

func IteF(c bool, a, b float64) float64 {
	if c {
		return a
	}
	return b
}

// Fix splits into one path per possible value.
func Fix(x int) int { return x }

func And(a, b bool) bool { return a && b }
func Or(a, b bool) bool  { return a || b }
