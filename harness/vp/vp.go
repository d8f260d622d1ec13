// Package vp is the interface between the harnesses and the symbolic engine. The engine intercepts
// every function of this package; the bodies below are what runs natively when a counterexample is
// replayed against the real code (values come from the file named by VP_MODEL).
package vp

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"strconv"
	"sync"
	"time"
)

var (
	mu    sync.Mutex
	model map[string]uint64
	cnt   = map[string]int{}
	pause = 30 * time.Millisecond
)

func init() {
	if f := os.Getenv("VP_MODEL"); f != "" {
		b, err := os.ReadFile(f)
		if err == nil {
			json.Unmarshal(b, &model)
		}
	}
	if s := os.Getenv("VP_PAUSE_MS"); s != "" {
		n, _ := strconv.Atoi(s)
		pause = time.Duration(n) * time.Millisecond
	}
}

func next(name string) string {
	mu.Lock()
	defer mu.Unlock()
	k := cnt[name]
	cnt[name]++
	return name + "#" + strconv.Itoa(k)
}

// Bool returns an arbitrary bool.
func Bool(name string) bool { return model[next(name)] != 0 }

// Byte returns an arbitrary byte.
func Byte(name string) byte { return byte(model[next(name)]) }

// U16 returns an arbitrary uint16.
func U16(name string) uint16 { return uint16(model[next(name)]) }

// U32 returns an arbitrary uint32.
func U32(name string) uint32 { return uint32(model[next(name)]) }

// U64 returns an arbitrary uint64.
func U64(name string) uint64 { return model[next(name)] }

// Int returns an arbitrary int in [lo,hi].
func Int(name string, lo, hi int) int {
	v, ok := model[next(name)]
	if !ok || int(v) < lo || int(v) > hi {
		return lo
	}
	return int(v)
}

// Choose returns an arbitrary int in [0,n), one path per value.
func Choose(name string, n int) int {
	v := int(model[next(name)])
	if v < 0 || v >= n {
		return 0
	}
	return v
}

// Concrete splits the path over the values of v.
func Concrete(v int) int { return v }

// Bytes returns n arbitrary bytes.
func Bytes(name string, n int) []byte {
	k := next(name)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(model[k+"["+strconv.Itoa(i)+"]"])
	}
	return b
}

// Str returns an arbitrary string of n bytes.
func Str(name string, n int) string { return string(Bytes(name, n)) }

// Symbolic reports whether the engine is running the harness.
func Symbolic() bool { return false }

// Assume restricts the explored inputs.
func Assume(c bool) {
	if !c {
		fmt.Println("VP-ASSUME-FAILED")
		os.Exit(0)
	}
}

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		Fail(msg)
	}
}

// Fail reports a violation.
func Fail(msg string) {
	fmt.Println("VP-VIOLATION: " + msg)
	os.Exit(42)
}

// Reach marks a point that must be reachable (vacuity witness).
func Reach(label string) {}

// Quiesce waits until every other goroutine is blocked (timers and sleeps may be pending).
func Quiesce() { time.Sleep(pause) }

// Settle waits until every other goroutine is blocked and no timer or sleep is pending.
func Settle() { time.Sleep(pause*10 + 1300*time.Millisecond) }

// Yield is a scheduling point.
func Yield() { runtime.Gosched() }

// Begin ends the deterministic setup phase.
func Begin() {}

// SameArray reports whether two slices share their backing array.
func SameArray(a, b []byte) bool {
	return cap(a) > 0 && cap(b) > 0 && &a[:cap(a)][cap(a)-1] == &b[:cap(b)][cap(b)-1]
}

// Goroutines returns the number of live goroutines.
func Goroutines() int { return runtime.NumGoroutine() }

// And is a non-branching conjunction.
func And(a, b bool) bool { return a && b }

// Or is a non-branching disjunction.
func Or(a, b bool) bool { return a || b }

// EqBytes compares without branching.
func EqBytes(a, b []byte) bool { return bytes.Equal(a, b) }

// EqStr compares without branching.
func EqStr(a, b string) bool { return a == b }

// Note adds a line to the trace.
func Note(f string, a ...interface{}) {}
