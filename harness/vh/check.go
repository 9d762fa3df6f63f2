// Package vh runs checks: a parent process shards deterministic cases over
// worker processes that run the real code next to the workload and oracle.
package vh

import (
	"fmt"
	"hash/fnv"
	"math/rand"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// Check is one property's workload and oracle.
type Check struct {
	ID          string
	Quick       int // number of cases
	Thorough    int
	Race        bool // needs a -race build
	Workers     int  // processes (default 8)
	Rule        string
	Assumptions []string
	Technique   string
	LevelNote   string
	// CaseTimeout is the watchdog of one case (a generous hang deadline).
	CaseTimeout time.Duration
	// MemLimit in bytes of resident memory of a worker.
	MemLimit int64
	// Setup runs once per worker process, before its first case.
	Setup func(w *Worker)
	// Run runs case c.Idx. It reports through c.
	Run func(c *C)
	// Finish runs in the worker once after its last case (optional).
	Finish func(w *Worker)
}

var registry = map[string]*Check{}

func Register(c *Check) {
	if c.Workers == 0 {
		c.Workers = 8
	}
	if c.CaseTimeout == 0 {
		c.CaseTimeout = 100 * time.Second
	}
	if c.MemLimit == 0 {
		c.MemLimit = 2 << 30
	}
	if c.Thorough == 0 {
		c.Thorough = c.Quick * 15
	}
	if registry[c.ID] != nil {
		panic("duplicate " + c.ID)
	}
	registry[c.ID] = c
}

func IDs() (ids []string) {
	for k := range registry {
		ids = append(ids, k)
	}
	sort.Strings(ids)
	return
}

func Get(id string) *Check { return registry[id] }

// Worker is the state of one worker process.
type Worker struct {
	Check   *Check
	Shard   int
	Seed    int64
	Tier    string
	Attempt int
	Scratch string
	IP      string // a loopback address of its own
	State   interface{}
	Counts  map[string]int64
}

// Failure is a refuted property on one case.
type Failure struct {
	Key   string `json:"key"`
	Msg   string `json:"msg"`
	Timed bool   `json:"timed"` // depends on a deadline: needs confirmation
	Stack string `json:"stack,omitempty"`
}

// C is a running case.
type C struct {
	*Worker
	Idx    int
	R      *rand.Rand
	counts map[string]int64
	keys   map[uint64]struct{}
	sample string
	fail   *Failure
	inconc string
	trace  []string
}

type stopCase struct{}

func NewCase(w *Worker, idx int) *C {
	return &C{Worker: w, Idx: idx, R: Rand(w.Seed, w.Check.ID, idx), counts: map[string]int64{}, keys: map[uint64]struct{}{}}
}

// Rand derives the generator of one case.
func Rand(seed int64, id string, idx int) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", seed, id, idx)
	return rand.New(rand.NewSource(int64(h.Sum64())))
}

// Fail records a violation and ends the case.
func (c *C) Fail(key, format string, a ...interface{}) {
	if c.fail == nil {
		c.fail = &Failure{Key: key, Msg: c.withTrace(fmt.Sprintf(format, a...))}
	}
	panic(stopCase{})
}

// FailTimed records a violation that depends on a deadline having passed.
func (c *C) FailTimed(key, format string, a ...interface{}) {
	if c.fail == nil {
		c.fail = &Failure{Key: key, Msg: c.withTrace(fmt.Sprintf(format, a...)), Timed: true}
	}
	panic(stopCase{})
}

// Inconclusive ends the case without a verdict.
func (c *C) Inconclusive(format string, a ...interface{}) {
	c.inconc = fmt.Sprintf(format, a...)
	panic(stopCase{})
}

// Trace adds a line to the case's description (kept for replay and samples).
func (c *C) Trace(format string, a ...interface{}) {
	if len(c.trace) < 400 {
		c.trace = append(c.trace, fmt.Sprintf(format, a...))
	}
}

func (c *C) withTrace(m string) string {
	if len(c.trace) == 0 {
		return m
	}
	t := c.trace
	if len(t) > 60 {
		t = append(append([]string{}, t[:30]...), append([]string{"..."}, t[len(t)-30:]...)...)
	}
	return m + "\n  case: " + strings.Join(t, "\n        ")
}

// Count adds to a named counter of observed events.
func (c *C) Count(name string, n int) {
	if !strings.HasPrefix(name, "max_") {
		c.counts[name] += int64(n)
	} else if int64(n) > c.counts[name] {
		c.counts[name] = int64(n)
	}
}

// Sub is a case of its own for a concurrent actor of this one; Merge takes
// over what it counted.
func (c *C) Sub(seed int64) *C {
	s := NewCase(c.Worker, c.Idx)
	s.R = rand.New(rand.NewSource(seed))
	return s
}

func (c *C) Merge(s *C) {
	for k, n := range s.counts {
		c.Count(k, int(n))
	}
	for k := range s.keys {
		c.keys[k] = struct{}{}
	}
}

// Nontrivial marks this case (or part of it) as non-trivial, distinct by key.
func (c *C) Nontrivial(format string, a ...interface{}) {
	h := fnv.New64a()
	fmt.Fprintf(h, format, a...)
	c.keys[h.Sum64()] = struct{}{}
}

// Sample offers a written-out case for the evidence.
func (c *C) Sample(format string, a ...interface{}) {
	if c.sample == "" {
		s := fmt.Sprintf(format, a...)
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		c.sample = s
	}
}

// D scales a deadline: confirmation runs wait longer.
func (c *C) D(d time.Duration) time.Duration {
	if c.Attempt > 0 {
		return 4 * d
	}
	return d
}

// Call runs f (library code under test) and turns a panic into a violation.
func (c *C) Call(what string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stopCase); ok {
				panic(r)
			}
			st := string(debug.Stack())
			if c.fail == nil {
				c.fail = &Failure{Key: "panic:" + what, Msg: c.withTrace(fmt.Sprintf("%s panicked: %v", what, r)), Stack: st}
			}
			panic(stopCase{})
		}
	}()
	f()
}

// Try runs f and reports whether it returned without panicking.
func Try(f func()) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	f()
	return true
}

// Within runs f in a goroutine and reports whether it returned in time.
func Within(d time.Duration, f func()) bool {
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
		return true
	case <-time.After(d):
		return false
	}
}

// Eventually polls cond until it holds or the (scaled) deadline passes.
func (c *C) Eventually(d time.Duration, cond func() bool) bool {
	end := time.Now().Add(c.D(d))
	step := time.Millisecond
	for {
		if cond() {
			return true
		}
		if time.Now().After(end) {
			return cond()
		}
		time.Sleep(step)
		if step < 50*time.Millisecond {
			step += step / 2
		}
	}
}
