package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
)

// Check is one monitored property: a workload plus the oracle that judges what it observes.
type Check struct {
	ID       string
	Race     bool   // the deciding monitor includes the race detector
	Level    string // evidence level
	Rule     string // how cases are made and what makes one non-trivial
	MinEvals int64  // fewer observations than this is inconclusive
	Need     []string
	Assume   []string
	Run      func(c *C)
}

var checks = map[string]*Check{}

func register(ch *Check) {
	if ch.Level == "" {
		ch.Level = "exploration"
	}
	if ch.MinEvals == 0 {
		ch.MinEvals = 50
	}
	checks[ch.ID] = ch
}

// Violation is a witness.
type Violation struct {
	Key    string   `json:"key"`  // stable identification of what failed
	What   string   `json:"what"` // one line
	Group  string   `json:"group,omitempty"`
	Index  int64    `json:"index"`
	Detail []string `json:"detail,omitempty"`
}

// Result is what a worker hands to its supervisor.
type Result struct {
	Evals      int64            `json:"evals"`
	Distinct   int64            `json:"distinct"`
	Counters   map[string]int64 `json:"counters"`
	Samples    []string         `json:"samples"`
	Violations []Violation      `json:"violations"`
	KnownSeen  []Violation      `json:"known_seen"`
	Done       bool             `json:"done"`
}

// C is the context of one run of a check.
type C struct {
	ID       string
	Tier     string
	Seed     int64
	OnlyGrp  string
	Only     int64
	Scratch  string
	known    map[string]string
	progress atomic.Int64
	evals    atomic.Int64
	stop     atomic.Bool

	mu       sync.Mutex
	distinct map[uint64]struct{}
	counters map[string]*atomic.Int64
	samples  []string
	viols    []Violation
	knownHit map[string]Violation
	journal  *os.File
}

const maxViolations = 8

func newC(id, tier string, seed int64) *C {
	return &C{ID: id, Tier: tier, Seed: seed, Only: -1,
		distinct: map[uint64]struct{}{}, counters: map[string]*atomic.Int64{}, known: map[string]string{}, knownHit: map[string]Violation{}}
}

// N picks a case count by tier.
func (c *C) N(quick, thorough int) int {
	if c.Tier == "thorough" {
		return thorough
	}
	return quick
}

func (c *C) counter(name string) *atomic.Int64 {
	c.mu.Lock()
	defer c.mu.Unlock()
	a := c.counters[name]
	if a == nil {
		a = new(atomic.Int64)
		c.counters[name] = a
	}
	return a
}

// Count records observed events of a kind.
func (c *C) Count(name string, n int64) { c.counter(name).Add(n) }

// Max records the largest value seen.
func (c *C) Max(name string, n int64) {
	a := c.counter(name)
	for {
		o := a.Load()
		if n <= o || a.CompareAndSwap(o, n) {
			return
		}
	}
}

// Eval counts one execution that the oracle judged.
func (c *C) Eval() { c.evals.Add(1); c.progress.Add(1) }

// Progress tells the watchdog that something moves.
func (c *C) Progress() { c.progress.Add(1) }

// Distinct registers a non-trivial case by its content.
func (c *C) Distinct(parts ...string) {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0})
	}
	c.mu.Lock()
	c.distinct[h.Sum64()] = struct{}{}
	c.mu.Unlock()
}

// Sample keeps a few written out cases.
func (c *C) Sample(s string) {
	c.mu.Lock()
	if len(c.samples) < 5 {
		if len(s) > 1500 {
			s = s[:1500] + "..."
		}
		c.samples = append(c.samples, strings.ToValidUTF8(s, "?"))
	}
	c.mu.Unlock()
}

// Stopped tells that enough violations have been found.
func (c *C) Stopped() bool { return c.stop.Load() }

func (c *C) addViolation(v Violation) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if _, ok := c.known[v.Key]; ok {
		c.knownHit[v.Key] = v
		return
	}
	for i, d := range v.Detail {
		if len(d) > 8000 {
			v.Detail[i] = d[:8000] + "...(cut)"
		}
	}
	c.viols = append(c.viols, v)
	if len(c.viols) >= maxViolations {
		c.stop.Store(true)
	}
}

func (c *C) result(done bool) *Result {
	c.mu.Lock()
	defer c.mu.Unlock()
	r := &Result{Evals: c.evals.Load(), Distinct: int64(len(c.distinct)), Counters: map[string]int64{}, Samples: c.samples, Violations: c.viols, Done: done}
	for k, v := range c.counters {
		r.Counters[k] = v.Load()
	}
	for _, v := range c.knownHit {
		r.KnownSeen = append(r.KnownSeen, v)
	}
	sort.Slice(r.KnownSeen, func(i, j int) bool { return r.KnownSeen[i].Key < r.KnownSeen[j].Key })
	return r
}

func (c *C) writeResult(path string, done bool) {
	b, err := json.Marshal(c.result(done))
	if err == nil {
		err = os.WriteFile(path, b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness: cannot write result:", err)
		os.Exit(3)
	}
}

// T is one generated case.
type T struct {
	*C
	Group  string
	Index  int64
	R      *rand.Rand
	log    []string
	failed bool
	mu     sync.Mutex
}

// Logf adds a line to the witness of the case.
func (t *T) Logf(format string, args ...interface{}) {
	t.mu.Lock()
	if len(t.log) < 400 {
		t.log = append(t.log, fmt.Sprintf(format, args...))
	}
	t.mu.Unlock()
}

// Failf reports a violation. key says what kind of thing failed.
func (t *T) Failf(key, format string, args ...interface{}) {
	t.mu.Lock()
	if t.failed {
		t.mu.Unlock()
		return
	}
	t.failed = true
	d := append([]string(nil), t.log...)
	t.mu.Unlock()
	t.addViolation(Violation{Key: key, What: fmt.Sprintf(format, args...), Group: t.Group, Index: t.Index, Detail: d})
}

// Failed tells whether the case has failed already.
func (t *T) Failed() bool { t.mu.Lock(); defer t.mu.Unlock(); return t.failed }

// Guard runs f; a panic in it is a violation.
func (t *T) Guard(what string, f func()) {
	defer func() {
		if e := recover(); e != nil {
			t.Logf("%s", debug.Stack())
			t.Failf("panic:"+what, "panic in %s: %v", what, e)
		}
	}()
	f()
}

func caseSeed(seed int64, id, group string, idx int64) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%s/%d", seed, id, group, idx)
	return int64(h.Sum64())
}

// Cases runs n generated cases, par at a time. The list of cases is determined by the seed alone.
func (c *C) Cases(group string, n, par int, f func(t *T)) {
	if c.OnlyGrp != "" && c.OnlyGrp != group {
		return
	}
	run := func(slot int, idx int64) {
		t := &T{C: c, Group: group, Index: idx, R: rand.New(rand.NewSource(caseSeed(c.Seed, c.ID, group, idx)))}
		c.note(slot, group, idx)
		t.Guard("case", func() { f(t) })
		c.Progress()
	}
	if c.Only >= 0 {
		run(0, c.Only)
		return
	}
	if par <= 1 {
		for i := 0; i < n && !c.Stopped(); i++ {
			run(0, int64(i))
		}
		return
	}
	var next atomic.Int64
	var wg sync.WaitGroup
	for s := 0; s < par; s++ {
		wg.Add(1)
		go func(slot int) {
			defer wg.Done()
			for !c.Stopped() {
				i := next.Add(1) - 1
				if i >= int64(n) {
					return
				}
				run(slot, i)
			}
		}(s)
	}
	wg.Wait()
}

// note journals the case in flight, so that a crash of the process can be attributed.
func (c *C) note(slot int, group string, idx int64) {
	if c.journal == nil {
		return
	}
	var b [64]byte
	for i := range b {
		b[i] = ' '
	}
	copy(b[:63], fmt.Sprintf("%s %d", group, idx))
	b[63] = '\n'
	c.journal.WriteAt(b[:], int64(slot)*64)
}

const ncpu = 8

// par is the number of cases run at a time.
func par() int {
	n := runtime.GOMAXPROCS(0)
	if n > ncpu {
		n = ncpu
	}
	return n
}
