// Package sym is the harness side of the symbolic engine. The engine replaces
// every function here by its own; the bodies below are the native versions,
// which read the recorded input vector during replay.
package sym

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
)

type stop struct {
	kind, msg string
}

var (
	vec      []uint64
	pos      int
	obs      []string
	thorough bool
)

func pop() uint64 {
	if pos >= len(vec) {
		pos++
		return 0
	}
	v := vec[pos]
	pos++
	return v
}

// Byte returns an arbitrary byte.
func Byte() byte { return byte(pop()) }

// U16 returns an arbitrary value.
func U16() uint16 { return uint16(pop()) }

// U32 returns an arbitrary value.
func U32() uint32 { return uint32(pop()) }

// U64 returns an arbitrary value.
func U64() uint64 { return pop() }

// Int returns an arbitrary int.
func Int() int { return int(pop()) }

// Bool returns an arbitrary bool.
func Bool() bool {
	v := pop()
	Assume(v < 2)
	return v == 1
}

// Choose returns an arbitrary int in [0,n).
func Choose(n int) int {
	if n <= 0 {
		Assume(false)
	}
	if n == 1 {
		return 0
	}
	v := pop()
	Assume(v < uint64(n))
	return int(v)
}

// Range returns an arbitrary int in [lo,hi].
func Range(lo, hi int) int { return lo + Choose(hi-lo+1) }

// Bytes returns n arbitrary bytes.
func Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = Byte()
	}
	return b
}

// String returns a string of n arbitrary bytes.
func String(n int) string { return string(Bytes(n)) }

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		panic(stop{"assume", ""})
	}
}

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		panic(stop{"assert", msg})
	}
}

// Reach marks a reachability witness.
func Reach(tag string) {}

// Obs, ObsB and ObsS record observations compared between the encoding and
// the native build.
func Obs(v int) { obs = append(obs, fmt.Sprint(v)) }

// ObsB records a bool.
func ObsB(v bool) {
	if v {
		Obs(1)
	} else {
		Obs(0)
	}
}

// ObsS records a string.
func ObsS(s string) { obs = append(obs, fmt.Sprintf("%q", s)) }

// Thorough tells the tier.
func Thorough() bool { return thorough }

// Pick returns q in the quick tier and t in the thorough tier.
func Pick(q, t int) int {
	if thorough {
		return t
	}
	return q
}

// Note describes the case in the output of a native replay; call it under
// Native only.
func Note(s string) { notes = append(notes, s) }

var notes []string

// File is the content of a file of the repository.
func File(name string) string {
	b, err := os.ReadFile("/repo/" + name)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// Native is true outside the engine.
func Native() bool { return true }

// MapOrder makes the engine explore every iteration order of maps with at
// most n entries, every time one is ranged over. With n < 0 maps with string
// keys and at most -n entries are ranged over in any order, but always the same
// one.
func MapOrder(n int) {}

// Steps sets the instruction limit of this path.
func Steps(n int) {}

// And is a non-forking conjunction.
func And(a, b bool) bool { return a && b }

// Or is a non-forking disjunction.
func Or(a, b bool) bool { return a || b }

// Ite is a non-forking conditional.
func Ite(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// Concrete forks over the values of x.
func Concrete(x int) int { return x }

// ConcreteB forks over the values of x.
func ConcreteB(x byte) byte { return x }

// Decide forks on c.
func Decide(c bool) bool { return c }

// Try reports whether f panics.
func Try(f func()) (panicked bool) {
	defer func() {
		if x := recover(); x != nil {
			if s, ok := x.(stop); ok {
				panic(s)
			}
			panicked = true
		}
	}()
	f()
	return false
}

// Races counts the data races found so far in a native replay.
var Races func() int

type in struct {
	Unit string   `json:"unit"`
	Vec  []uint64 `json:"vec"`
	Tier string   `json:"tier"`
}

type out struct {
	Result string   `json:"result"`
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
	Left   int      `json:"left"`
}

func one(f func()) (o out) {
	defer func() {
		switch x := recover().(type) {
		case nil:
		case stop:
			o = out{Result: x.kind, Msg: x.msg}
		default:
			o = out{Result: "panic", Msg: fmt.Sprint(x)}
			if os.Getenv("SYM_TRACE") != "" {
				fmt.Fprintf(os.Stderr, "%v\n%s\n", x, debug.Stack())
			}
		}
		o.Obs = obs
		if o.Result != "ok" {
			for _, n := range notes {
				o.Msg += "; " + n
			}
		}
	}()
	obs, pos, notes = nil, 0, nil
	if Races != nil {
		n := Races()
		defer func() {
			if Races() > n {
				recover()
				o = out{Result: "assert", Msg: "data race"}
			}
		}()
	}
	f()
	return out{Result: "ok", Left: len(vec) - pos}
}

// ReplayMain runs recorded vectors from standard input.
func ReplayMain(units map[string]func()) {
	debug.SetMaxStack(128 << 20)
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	w := bufio.NewWriter(os.Stdout)
	for sc.Scan() {
		var i in
		if err := json.Unmarshal(sc.Bytes(), &i); err != nil {
			panic(err)
		}
		f := units[i.Unit]
		if f == nil {
			panic("no unit " + i.Unit)
		}
		vec, thorough = i.Vec, i.Tier == "thorough"
		j, _ := json.Marshal(one(f))
		w.Write(j)
		w.WriteByte('\n')
		w.Flush()
	}
}

type wrapError struct {
	msg string
	err error
}

func (w *wrapError) Error() string { return w.msg }
func (w *wrapError) Unwrap() error { return w.err }

// WrapError is what the engine makes of fmt.Errorf with %w.
func WrapError(msg string, err error) error { return &wrapError{msg, err} }
