// Package sym is the interface between harnesses and the checker.
//
// Executed symbolically, every function here is intercepted by the engine: inputs are symbolic
// variables, Assume constrains the path, Assert is decided by the solver.  Compiled natively, the
// same functions read a concrete assignment, so that every counterexample (and a sample of the
// explored paths) can be run against the real build.
package sym

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"
)

// State of one native run.
type State struct {
	Inputs  map[string]uint64
	Missing []string
	Obs     []string
	Fails   []string
	TierN   int
	names   map[string]int
	allocAt uint64
	allocN  int64
	allocM  string
	mu      sync.Mutex
}

var cur *State

// Begin starts a native run with the given assignment.
func Begin(in map[string]uint64, tier int) *State {
	cur = &State{Inputs: in, names: map[string]int{}, TierN: tier}
	return cur
}

type stop struct{}

func get(name string) uint64 {
	cur.mu.Lock()
	defer cur.mu.Unlock()
	k := cur.names[name]
	cur.names[name] = k + 1
	if k > 0 {
		name = fmt.Sprintf("%s#%d", name, k)
	}
	v, ok := cur.Inputs[name]
	if !ok {
		cur.Missing = append(cur.Missing, name)
	}
	return v
}

func Byte(name string) byte   { return byte(get(name)) }
func U16(name string) uint16  { return uint16(get(name)) }
func U32(name string) uint32  { return uint32(get(name)) }
func U64(name string) uint64  { return get(name) }
func I32(name string) int32   { return int32(uint32(get(name))) }
func Bool(name string) bool   { return get(name) != 0 }
func F32(name string) float32 { return math.Float32frombits(uint32(get(name))) }
func F64(name string) float64 { return math.Float64frombits(get(name)) }

// Int is an integer variable in lo..hi (inclusive).
func Int(name string, lo, hi int) int { return int(int64(get(name))) }

// Choose is a choice among 0..n-1 that is enumerated by the engine.
func Choose(name string, n int) int { return int(get(name)) }

// Bytes is a slice of n variable bytes.
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(get(fmt.Sprintf("%s[%d]", name, i)))
	}
	return b
}

// Str is a string of n variable bytes.
func Str(name string, n int) string { return string(Bytes(name, n)) }

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		panic(stop{})
	}
}

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		cur.mu.Lock()
		cur.Fails = append(cur.Fails, "assert: "+msg)
		cur.mu.Unlock()
		panic(stop{})
	}
}

// Check is Assert that lets the native run go on.
func Fail(msg string) { Assert(false, msg) }

// Reach marks a place every run of the check must be able to get to (guard against vacuity).
func Reach(label string) {}

// Observe records a value for the comparison of symbolic and native execution.
func Observe(name string, v interface{}) {
	s := obs(reflect.ValueOf(v))
	cur.mu.Lock()
	cur.Obs = append(cur.Obs, name+"="+s)
	cur.mu.Unlock()
}

func obs(v reflect.Value) string {
	if !v.IsValid() {
		return "nil"
	}
	switch v.Kind() {
	case reflect.Bool:
		return fmt.Sprint(v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprint(v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return fmt.Sprint(v.Uint())
	case reflect.Float32:
		return fmt.Sprintf("f%08x", math.Float32bits(float32(v.Float())))
	case reflect.Float64:
		return fmt.Sprintf("f%016x", math.Float64bits(v.Float()))
	case reflect.String:
		return fmt.Sprintf("%q", v.String())
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			return "[]"
		}
		var p []string
		for i := 0; i < v.Len(); i++ {
			p = append(p, obs(v.Index(i)))
		}
		return "[" + strings.Join(p, " ") + "]"
	case reflect.Struct:
		var p []string
		for i := 0; i < v.NumField(); i++ {
			p = append(p, obs(v.Field(i)))
		}
		return "{" + strings.Join(p, " ") + "}"
	case reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return obs(v.Elem())
	case reflect.Ptr:
		if v.IsNil() {
			return "nil"
		}
		if v.Type().Implements(reflect.TypeOf((*error)(nil)).Elem()) {
			return "err"
		}
		return "&" + obs(v.Elem())
	}
	return "?"
}

// AllocLimit: from here to AllocEnd no more than n bytes may be allocated.
func AllocLimit(msg string, n int) {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	cur.allocAt, cur.allocN, cur.allocM = m.TotalAlloc, int64(n), msg
}

func AllocEnd() {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	if int64(m.TotalAlloc-cur.allocAt) > cur.allocN {
		cur.mu.Lock()
		cur.Fails = append(cur.Fails, fmt.Sprintf("alloc: %s: %d bytes allocated, limit %d", cur.allocM, m.TotalAlloc-cur.allocAt, cur.allocN))
		cur.mu.Unlock()
	}
}

// Bound returns the bound for the running tier and records it.
func Bound(name string, quick, thorough int) int {
	if cur.TierN > 0 {
		return thorough
	}
	return quick
}

// Quiesce lets all other goroutines run until nothing more can happen and returns the number of
// goroutines still blocked (natively: a best effort).
func Quiesce() int {
	last, same := -1, 0
	for i := 0; i < 400 && same < 40; i++ {
		time.Sleep(5 * time.Millisecond)
		n := runtime.NumGoroutine()
		if n == last {
			same++
		} else {
			same = 0
		}
		last = n
	}
	n := runtime.NumGoroutine() - Base
	if n < 0 {
		n = 0
	}
	return n
}

// Idle takes the goroutines that wait now for the background of what is under test: Quiesce does
// not count them.
func Idle() {
	Settle()
	Base = runtime.NumGoroutine()
}

// Settle lets all other goroutines run until only the advance of the clock could make more happen
// (natively: a short wait).
func Settle() { time.Sleep(4 * time.Millisecond) }

// Base is the number of goroutines of the native runner itself.
var Base = 1

// MapOrders makes the iteration order of maps part of the exploration.
func MapOrders() {}

// Preempt sets the bounds of the schedule exploration: preemptions and early timer expiries.
// A negative number of preemptions means one fixed schedule, in turn.
func Preempt(preempt, timers int) {}

// Race switches on the detection of unsynchronised accesses (natively: build with -race).
func Race() {}

// Steps sets the step limit that counts as non-termination.
func Steps(n int) {}

// Daemon marks the calling goroutine as one that may stay blocked for ever.
func Daemon() { Base++ }

// Symbolic reports whether the engine runs the harness.
func Symbolic() bool { return false }

// Run executes one harness natively and reports what happened.
func Run(fn func()) (outcome string) {
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(stop); ok {
				outcome = "assume"
				if len(cur.Fails) > 0 {
					outcome = cur.Fails[0]
				}
				return
			}
			if e, ok := x.(error); ok {
				outcome = "panic: " + e.Error()
			} else {
				outcome = fmt.Sprint("panic: ", x)
			}
			if os.Getenv("SYM_STACK") != "" {
				buf := make([]byte, 1<<14)
				os.Stderr.Write(buf[:runtime.Stack(buf, false)])
			}
		}
	}()
	fn()
	if len(cur.Fails) > 0 {
		return cur.Fails[0]
	}
	return "ok"
}

// Main is the native runner: jobs file, first job, tier.
func Main(reg map[string]func()) {
	type job struct {
		H  string            `json:"h"`
		In map[string]uint64 `json:"in"`
	}
	var jobs []job
	b, err := os.ReadFile(os.Args[1])
	if err == nil {
		err = json.Unmarshal(b, &jobs)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	start, _ := strconv.Atoi(os.Args[2])
	tier, _ := strconv.Atoi(os.Args[3])
	out := os.NewFile(3, "results")
	for i := start; i < len(jobs); i++ {
		st := Begin(jobs[i].In, tier)
		Base = runtime.NumGoroutine()
		oc := "error: no such harness " + jobs[i].H
		if fn := reg[jobs[i].H]; fn != nil {
			oc = Run(fn)
		}
		st.mu.Lock()
		l, _ := json.Marshal(map[string]interface{}{"i": i, "outcome": oc, "obs": st.Obs, "missing": st.Missing})
		st.mu.Unlock()
		out.Write(append(l, '\n'))
	}
}
