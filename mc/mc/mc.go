// Package mc is a small stateless model checker: a property is a set of units,
// a unit is a deterministic body that asks its explorer for every choice it
// makes (operation, operand, level, party, index, schedule ...), and the
// explorer enumerates the complete choice tree of the body, depth first, by
// re-executing it.
package mc

import (
	"fmt"
	"hash/fnv"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"time"

	"verifmc/drbg"
)

// Failure is the panic value of a violated property.
type Failure struct{ Msg string }

func (f Failure) Error() string { return f.Msg }

// X is handed to a body: one execution of one choice sequence.
type X struct {
	Tier    string
	prefix  []int
	widths  []int
	taken   []int
	labels  []string
	steps   int
	states  map[uint64]struct{}
	sample  []string
	trace   []string
	skipped bool
}

// Detached returns an explorer that nobody looks at, for threads of a body.
func Detached(tier string) *X { return &X{Tier: tier, states: map[uint64]struct{}{}} }

// Segments, if set, runs a piece of a thread in a goroutine of its own: the
// history that the race detector keeps is limited, but per goroutine.
var Segments func(f func())

// Segment runs a piece of a thread.
//
//go:norace
func Segment(f func()) {
	if Segments == nil {
		f()
	} else {
		Segments(f)
	}
}

// Choose returns a value in [0,n); the explorer enumerates all of them.
func (x *X) Choose(label string, n int) int {
	if n <= 0 {
		panic(fmt.Sprintf("mc: empty choice %s", label))
	}
	d := len(x.taken)
	c := 0
	if d < len(x.prefix) {
		c = x.prefix[d]
		if c >= n {
			panic(fmt.Sprintf("mc: non deterministic body: choice %s: %d of %d", label, c, n))
		}
	}
	x.taken = append(x.taken, c)
	x.widths = append(x.widths, n)
	x.labels = append(x.labels, label)
	return c
}

// Bool chooses false, then true.
func (x *X) Bool(label string) bool { return x.Choose(label, 2) == 1 }

// Step records one transition (one operation of the code under test).
func (x *X) Step(format string, a ...interface{}) {
	x.steps++
	if len(x.trace) < 64 {
		x.trace = append(x.trace, fmt.Sprintf(format, a...))
	}
}

// Count records n transitions without a trace line.
func (x *X) Count(n int) { x.steps += n }

// State records a reached state, identified by the rendering of its parts.
func (x *X) State(parts ...interface{}) {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	x.states[h.Sum64()] = struct{}{}
}

// StateHash records a reached state by its hash.
func (x *X) StateHash(h uint64) { x.states[h] = struct{}{} }

// Skip abandons the execution (a choice combination outside the property's domain).
func (x *X) Skip() { x.skipped = true; panic(skip{}) }

type skip struct{}

// Fail reports a violation.
func (x *X) Fail(format string, a ...interface{}) {
	panic(Failure{fmt.Sprintf(format, a...)})
}

// Assert fails unless ok.
func (x *X) Assert(ok bool, format string, a ...interface{}) {
	if !ok {
		x.Fail(format, a...)
	}
}

// Panics reports whether f panics. Violations inside f still propagate.
func Panics(f func()) (p bool, val interface{}) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case Failure, skip:
				panic(r)
			}
			p, val = true, r
		}
	}()
	f()
	return false, nil
}

// Unit is an independent part of the search space.
type Unit struct {
	Name string
	Body func(x *X)
	Race bool // runs in the binary built with the race detector
	Cold bool // runs in a process of its own
}

// Violation is one failing execution.
type Violation struct {
	Unit    string   `json:"unit"`
	Choices []int    `json:"choices"`
	Labels  []string `json:"labels"`
	Trace   []string `json:"trace"`
	Msg     string   `json:"msg"`
	Stack   string   `json:"stack,omitempty"`
	Key     string   `json:"key"`
}

// Result is what exploring a unit gave.
type Result struct {
	Unit        string      `json:"unit"`
	Executions  int         `json:"executions"`
	Skipped     int         `json:"skipped"`
	Transitions int         `json:"transitions"`
	States      []uint64    `json:"states"`
	NStates     int         `json:"nstates"`
	Violations  []Violation `json:"violations"`
	Samples     []string    `json:"samples"`
	Complete    bool        `json:"complete"`
	WallS       float64     `json:"wall_s"`
}

// Seed is the seed of the run.
var Seed = "1"

// ExecStart is the start time of the running execution (0 if none), for the watchdog.
var ExecStart atomic.Int64

var current atomic.Pointer[X]

// CurrentAsViolation describes the running execution as a violation.
func CurrentAsViolation(unit, msg string) Violation {
	v := Violation{Unit: unit, Msg: msg, Key: unit + ":hang"}
	if x := current.Load(); x != nil {
		v.Choices = append([]int{}, x.taken...)
		v.Labels = append([]string{}, x.labels...)
		v.Trace = append([]string{}, x.trace...)
		v.Key = unit + ":" + strings.Trim(strings.Join(strings.Fields(fmt.Sprint(x.taken)), ","), "[]")
	}
	return v
}

func runOnce(u Unit, tier, seed string, prefix []int, states map[uint64]struct{}) (x *X, v *Violation) {
	x = &X{Tier: tier, prefix: prefix, states: states}
	drbg.Seed(seed + "/" + u.Name)
	current.Store(x)
	ExecStart.Store(time.Now().UnixNano())
	defer func() {
		ExecStart.Store(0)
		if r := recover(); r != nil {
			switch f := r.(type) {
			case skip:
				return
			case Failure:
				v = &Violation{Msg: f.Msg}
			default:
				v = &Violation{Msg: fmt.Sprintf("panic on valid input: %v", r), Stack: trim(string(debug.Stack()))}
			}
			v.Unit, v.Choices, v.Labels, v.Trace = u.Name, x.taken, x.labels, x.trace
			v.Key = u.Name + ":" + strings.Trim(strings.Join(strings.Fields(fmt.Sprint(x.taken)), ","), "[]")
		}
	}()
	u.Body(x)
	return x, nil
}

func trim(s string) string {
	if len(s) > 6000 {
		s = s[:6000]
	}
	return s
}

// Explore enumerates the choice tree of u. It stops early at the deadline or
// after maxViol violations.
func Explore(u Unit, tier, seed string, deadline time.Time, maxViol int) Result {
	start := time.Now()
	res := Result{Unit: u.Name}
	states := map[uint64]struct{}{}
	var prefix []int
	for {
		x, v := runOnce(u, tier, seed, prefix, states)
		if x.skipped {
			res.Skipped++
		} else {
			res.Executions++
		}
		res.Transitions += x.steps
		if v != nil {
			res.Violations = append(res.Violations, *v)
			if len(res.Violations) >= maxViol {
				break
			}
		} else if !x.skipped && len(res.Samples) < 1 {
			res.Samples = append(res.Samples, u.Name+": "+strings.Join(x.trace, "; "))
		}
		// next leaf
		i := len(x.taken) - 1
		for i >= 0 && x.taken[i]+1 >= x.widths[i] {
			i--
		}
		if i < 0 {
			res.Complete = true
			break
		}
		prefix = append(append([]int(nil), x.taken[:i]...), x.taken[i]+1)
		if time.Now().After(deadline) {
			break
		}
	}
	res.NStates = len(states)
	if len(states) <= 200000 {
		for s := range states {
			res.States = append(res.States, s)
		}
	}
	res.WallS = time.Since(start).Seconds()
	return res
}

// Replay executes one choice sequence.
func Replay(u Unit, tier, seed string, choices []int) *Violation {
	_, v := runOnce(u, tier, seed, choices, map[uint64]struct{}{})
	return v
}

// Property is a named check.
type Property struct {
	ID string
	// Units lists the search space of a tier.
	Units func(tier string) []Unit
	// Budget is the wall-clock budget in seconds of the search, per tier.
	Budget map[string]float64
	// Bounds describes the bounds of the search for the evidence file.
	Bounds map[string]string
	// Assumptions for the evidence file.
	Assumptions []string
	// MaxExec bounds one execution, in seconds (150 by default): beyond it the
	// operation is reported as not terminating.
	MaxExec int
	// Workers bounds the number of worker processes (0: no bound).
	Workers int
}

var registry = map[string]*Property{}

func Register(p *Property) { registry[p.ID] = p }

func Get(id string) *Property { return registry[id] }

func All() map[string]*Property { return registry }
