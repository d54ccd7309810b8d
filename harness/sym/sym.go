// Package sym is the interface between the harnesses and the checker. Under
// the symbolic engine the functions marked [engine] are intercepted; compiled
// natively they read a recorded assignment and re-run one concrete case.
package sym

import (
	"fmt"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
)

// Vars is the assignment of a native run.
var Vars map[string]uint64

// Observations, notes and reached labels of a native run.
var Observations []string
var Notes []string
var Reached []string

// Stop is the panic value that ends a native run.
type Stop struct {
	Kind string
	Msg  string
}

var thorough = os.Getenv("VERIF_TIER") == "thorough"

// Thorough reports the tier; harnesses widen their bounds with it. [engine]
func Thorough() bool { return thorough }

// Byte is one arbitrary byte. [engine]
func Byte(name string) byte { return byte(Vars[name]) }

// Bool is an arbitrary boolean. [engine]
func Bool(name string) bool { return Vars[name] == 1 }

// U64 is an arbitrary 64-bit value. [engine]
func U64(name string) uint64 { return Vars[name] }

// Rune is an arbitrary 21-bit value. [engine]
func Rune(name string) rune { return rune(Vars[name]) }

// Bytes is an arbitrary byte string of length n. [engine]
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(Vars[name+"."+strconv.Itoa(i)])
	}
	return b
}

// Str is an arbitrary string of length n. [engine]
func Str(name string, n int) string { return string(Bytes(name, n)) }

// Int is an arbitrary integer in [lo, hi]. [engine]
func Int(name string, lo, hi int) int {
	if hi <= lo {
		return lo
	}
	return lo + int(Vars[name])
}

// Choice is an arbitrary integer in [0, n), explored by case split. [engine]
func Choice(name string, n int) int { return int(Vars[name]) }

// Assume restricts the inputs considered. [engine]
func Assume(c bool) {
	if !c {
		panic(Stop{"assume", ""})
	}
}

// Assert states the property. [engine]
func Assert(c bool, msg string) {
	if !c {
		panic(Stop{"assert", msg})
	}
}

// Fail is Assert(false, msg). [engine]
func Fail(msg string) { panic(Stop{"assert", msg}) }

// Reach marks a point that must be reachable. [engine]
func Reach(label string) { Reached = append(Reached, label) }

// Obs records an observation compared between engine and native run. [engine]
func Obs(k, v string) { Observations = append(Observations, k+"="+v) }

// ObsInt records an integer observation. [engine]
func ObsInt(k string, v int) { Observations = append(Observations, fmt.Sprintf("%s=%d", k, v)) }

// Known splits off the inputs of a recorded finding. [engine]
func Known(id string, cond bool) {
	if cond {
		panic(Stop{"known", id})
	}
}

// MapOrder turns exploration of map iteration orders on or off. [engine]
func MapOrder(on bool) {}

// Isolated runs f, which other goroutines may run at the same time: nothing is written, unless under a lock, to
// what package variables or roots refer to, nor is anything used that lies in a pool. Natively it is run by several
// goroutines, under the race detector. [engine]
func Isolated(f func(), roots ...interface{}) {
	const n = 4
	errs := make([]interface{}, n)
	var ready int32
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() { errs[i] = recover() }()
			atomic.AddInt32(&ready, 1)
			for atomic.LoadInt32(&ready) < n {
				runtime.Gosched()
			}
			for k := 0; k < 25; k++ {
				f()
			}
		}(i)
	}
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			panic(e)
		}
	}
}

// Symbolic is true under the engine. [engine]
func Symbolic() bool { return false }

// Split makes n concrete by case split. [engine]
func Split(n int) int { return n }

// And, Or, Ite and Eq combine values without splitting cases. [engine]
func And(a, b bool) bool { return a && b }

// Or is a || b without a case split. [engine]
func Or(a, b bool) bool { return a || b }

// Ite is c ? a : b without a case split. [engine]
func Ite(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// Eq is a == b as one term. [engine]
func Eq(a, b string) bool { return a == b }

// Note records a concrete text shown with a violation (native only). [engine]
func Note(k, v string) { Notes = append(Notes, k+"="+v) }

// In reports whether b is one of the bytes of set, without a case split.
func In(b byte, set string) bool {
	r := false
	for i := 0; i < len(set); i++ {
		r = Or(r, b == set[i])
	}
	return r
}

// Between reports lo <= b <= hi without a case split.
func Between(b, lo, hi byte) bool { return And(lo <= b, b <= hi) }

// StrUpTo is an arbitrary string of length lo..hi (case split on the length).
func StrUpTo(name string, lo, hi int) string {
	if lo == hi {
		return Str(name, lo)
	}
	return Str(name, lo+Choice(name+".len", hi-lo+1))
}

// Pick is one of the alternatives, by case split.
func Pick(name string, alts ...string) string { return alts[Choice(name, len(alts))] }

// Contains reports whether s contains sub, as one term.
func Contains(s, sub string) bool {
	r := false
	for i := 0; i+len(sub) <= len(s); i++ {
		r = Or(r, Eq(s[i:i+len(sub)], sub))
	}
	return r
}

// HasPrefix as one term.
func HasPrefix(s, p string) bool { return len(s) >= len(p) && Eq(s[:len(p)], p) }

// Quote is only used for notes.
func Quote(s string) string { return strings.Replace(fmt.Sprintf("%q", s), "\n", "\\n", -1) }

// CatchExit runs f as a process, up to its end or a call of os.Exit, and returns its exit code. [engine]
func CatchExit(f func()) int { panic("CatchExit is not for native runs") }

// Sprintf is fmt.Sprintf. [engine]
func Sprintf(format string, a ...interface{}) string { return fmt.Sprintf(format, a...) }
