//go:build go1.22

// Package vlib is the common part of all the monitors: bookkeeping of what was observed, verdicts,
// the progress watchdog and the result file. It depends on the standard library only.
package vlib

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

const (
	maxViolations = 5
	maxSamples    = 12
	// stallLimit is how long a single step of a monitored workload may take. A step takes normally
	// a few milliseconds.
	stallLimit = 150 * time.Second
	// afterLife is how long a monitor goes on after its first violation. The code under test may be broken
	// in a way that makes every further step wait for something that never happens.
	afterLife = 20 * time.Second
	// heapLimit is how much memory may be live. Monitors normally stay below a fifth of it.
	heapLimit = 6 << 30
)

// Violation is a refuted property with everything needed to reproduce it.
type Violation struct {
	Kind   string `json:"kind"`
	Detail string `json:"detail"`
	Case   any    `json:"case,omitempty"`
	Stack  string `json:"stack,omitempty"`
}

type result struct {
	Property   string           `json:"property"`
	Evals      int64            `json:"evaluations"`
	Distinct   int64            `json:"distinct_nontrivial"`
	Rule       string           `json:"rule"`
	Exhaustive bool             `json:"exhaustive"`
	Counters   map[string]int64 `json:"counters"`
	Samples    []any            `json:"samples"`
	Violations []Violation      `json:"violations"`
	Known      []string         `json:"known"`
	Inconcl    []string         `json:"inconclusive"`
	Assume     []string         `json:"assumptions"`
}

// Run is one execution of a monitor.
type Run struct {
	Seed     int64
	Thorough bool
	Scratch  string
	Repo     string

	mu      sync.Mutex
	res     result
	seen    map[uint64]struct{}
	floors  map[string]int64
	known   map[string]bool
	sampled map[string]int

	progress atomic.Int64
	current  atomic.Value // string
	out      string
	peak     uint64 // of the heap; only memdog touches it
}

// Main runs a monitor and writes its result file.
func Main(property, rule string, body func(r *Run)) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	r := &Run{
		Seed:     seed,
		Thorough: os.Getenv("VERIF_TIER") == "thorough",
		Scratch:  os.Getenv("VERIF_SCRATCH"),
		Repo:     os.Getenv("VERIF_REPO"),
		seen:     make(map[uint64]struct{}),
		floors:   make(map[string]int64),
		known:    make(map[string]bool),
		sampled:  make(map[string]int),
		out:      os.Getenv("VERIF_OUT"),
	}
	if r.out == "" {
		r.out = "/dev/stdout"
	}
	if r.Scratch == "" {
		dir, err := os.MkdirTemp("", "verif-scratch-")
		if err != nil {
			panic(err)
		}
		r.Scratch = dir
	}
	for _, k := range strings.Split(os.Getenv("VERIF_KNOWN"), "\n") {
		if k != "" {
			r.known[k] = true
		}
	}
	r.res.Property, r.res.Rule = property, rule
	r.res.Counters = make(map[string]int64)
	r.current.Store("start")
	r.beat()
	go r.watchdog()
	go r.memdog()
	r.Guard("run", nil, func() { body(r) })
	r.finish(0)
}

func (r *Run) beat() { r.progress.Store(time.Now().UnixNano()) }

func (r *Run) watchdog() {
	for {
		time.Sleep(time.Second)
		idle := time.Since(time.Unix(0, r.progress.Load()))
		if idle > stallLimit {
			buf := make([]byte, 1<<20)
			buf = buf[:runtime.Stack(buf, true)]
			r.mu.Lock()
			r.res.Violations = append(r.res.Violations, Violation{
				Kind:   "hang",
				Detail: fmt.Sprintf("no progress for %v in step %v", stallLimit, r.current.Load()),
				Stack:  clip(string(buf), 20000),
			})
			r.mu.Unlock()
			r.finish(0)
		}
	}
}

// memdog ends a run in which the monitored code allocates without an end, before the system does.
func (r *Run) memdog() {
	m := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		time.Sleep(50 * time.Millisecond)
		metrics.Read(m)
		n := m[0].Value.Uint64()
		if n > r.peak {
			r.peak = n
		}
		if n > heapLimit {
			buf := make([]byte, 1<<20)
			buf = buf[:runtime.Stack(buf, true)]
			r.mu.Lock()
			r.res.Violations = append(r.res.Violations, Violation{
				Kind:   "runaway",
				Detail: fmt.Sprintf("%d bytes of live memory in step %v", n, r.current.Load()),
				Stack:  clip(string(buf), 20000),
			})
			r.mu.Unlock()
			r.finish(0)
		}
	}
}

// Step names the step being executed (shown if it never ends) and counts as progress.
func (r *Run) Step(format string, args ...any) {
	r.current.Store(fmt.Sprintf(format, args...))
	r.beat()
}

// Rng is an own generator per label, determined by the seed only.
func (r *Run) Rng(label string) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s", r.Seed, label)
	return rand.New(rand.NewSource(int64(h.Sum64() >> 1)))
}

// N picks a case count by tier.
func (r *Run) N(quick, thorough int) int {
	if r.Thorough {
		return thorough
	}
	return quick
}

// Eval counts one executed case; key identifies it when it is non-trivial (empty: trivial).
func (r *Run) Eval(key string) {
	r.beat()
	r.mu.Lock()
	r.res.Evals++
	if key != "" && len(r.seen) < 4_000_000 {
		h := fnv.New64a()
		_, _ = h.Write([]byte(key))
		k := h.Sum64()
		if _, ok := r.seen[k]; !ok {
			r.seen[k] = struct{}{}
			r.res.Distinct++
		}
	}
	r.mu.Unlock()
}

// Count adds to a counter of observed events.
func (r *Run) Count(name string, n int64) {
	r.mu.Lock()
	r.res.Counters[name] += n
	r.mu.Unlock()
}

// Floor demands a minimal value of a counter at the end: less means the monitor saw too little to decide.
func (r *Run) Floor(name string, min int64) {
	r.mu.Lock()
	r.floors[name] = min
	r.mu.Unlock()
}

// Sample keeps a few of the cases of each kind.
func (r *Run) Sample(kind string, v any) {
	r.mu.Lock()
	if r.sampled[kind] < 2 && len(r.res.Samples) < maxSamples {
		r.sampled[kind]++
		r.res.Samples = append(r.res.Samples, map[string]any{"kind": kind, "case": v})
	}
	r.mu.Unlock()
}

// Exhaustive declares that this run enumerated its declared space completely.
func (r *Run) Exhaustive() { r.res.Exhaustive = true }

// Assume records an assumption.
func (r *Run) Assume(s string) { r.res.Assume = append(r.res.Assume, s) }

// Inconclusive records that something could not be decided.
func (r *Run) Inconclusive(format string, args ...any) {
	r.mu.Lock()
	r.res.Inconcl = append(r.res.Inconcl, fmt.Sprintf(format, args...))
	r.mu.Unlock()
}

// Violate reports a refutation. Kind is a stable, specific identification of what fails (known
// findings are matched by it).
func (r *Run) Violate(kind string, c any, format string, args ...any) {
	r.mu.Lock()
	if r.known[kind] {
		for _, k := range r.res.Known {
			if k == kind {
				r.mu.Unlock()
				return
			}
		}
		r.res.Known = append(r.res.Known, kind)
		r.mu.Unlock()
		return
	}
	for _, v := range r.res.Violations {
		if v.Kind == kind && len(r.res.Violations) >= 2 {
			// one example per kind is enough once there are some
			n := len(r.res.Violations)
			r.res.Counters["suppressed_violations"]++
			enough := n >= maxViolations || r.res.Counters["suppressed_violations"] > 200
			r.mu.Unlock()
			if enough {
				r.finish(0)
			}
			return
		}
	}
	r.res.Violations = append(r.res.Violations, Violation{
		Kind: kind, Detail: clip(fmt.Sprintf(format, args...), 4000), Case: c,
	})
	n := len(r.res.Violations)
	r.mu.Unlock()
	if n == 1 {
		time.AfterFunc(afterLife, func() { r.finish(0) })
	}
	if n >= maxViolations {
		r.finish(0)
	}
}

// Failed tells whether a violation was already reported.
func (r *Run) Failed() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.res.Violations) > 0
}

// Guard runs f; a panic coming out of the monitored code is a violation.
func (r *Run) Guard(kind string, c any, f func()) (ok bool) {
	defer func() {
		if p := recover(); p != nil {
			ok = false
			stack := string(debug.Stack())
			if s, isStop := p.(Stop); isStop {
				r.Violate(kind+"/"+s.Kind, c, "%s", s.Detail)
				return
			}
			if !repoFrames(stack) {
				// The monitor's own code, e.g. a handler, cannot cope with what it was given: nothing like that happens
				// as long as the code under test behaves.
				r.Violate(kind+"/unusable", c, "what the monitored code gave makes its user panic: %v\n%s", p, clip(stack, 3500))
				return
			}
			r.mu.Lock()
			r.res.Counters["panics"]++
			r.mu.Unlock()
			r.Violate(kind+"/panic", c, "panic: %v\n%s", p, clip(stack, 3500))
		}
	}()
	f()
	return true
}

// Stop is panicked with by instrumented objects to end a run that went astray.
type Stop struct{ Kind, Detail string }

func (s Stop) Error() string { return s.Kind + ": " + s.Detail }

// repoFrames tells whether the panic was raised below the monitored code, i.e. whether a frame of the
// repository is between the panic and the monitor's frame that called it.
func repoFrames(stack string) bool {
	lines := strings.Split(stack, "\n")
	after := false
	for _, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			after = true
			continue
		}
		if !after || strings.HasPrefix(l, "\t") {
			continue
		}
		if strings.HasPrefix(l, "github.com/indigo-web/indigo/") && strings.Contains(l, "zzverif") {
			return false
		}
		if strings.HasPrefix(l, "github.com/indigo-web/indigo") {
			return true
		}
	}
	return false
}

func (r *Run) finish(code int) {
	r.mu.Lock()
	for name, min := range r.floors {
		if got := r.res.Counters[name]; got < min {
			r.res.Inconcl = append(r.res.Inconcl, fmt.Sprintf("too few observations of %s: %d < %d", name, got, min))
		}
	}
	sort.Strings(r.res.Inconcl)
	data, err := json.Marshal(r.res)
	if err != nil {
		// cases that cannot be marshalled
		for i := range r.res.Violations {
			r.res.Violations[i].Case = fmt.Sprintf("%#v", r.res.Violations[i].Case)
		}
		for i := range r.res.Samples {
			r.res.Samples[i] = fmt.Sprintf("%#v", r.res.Samples[i])
		}
		data, _ = json.Marshal(r.res)
	}
	if err := os.WriteFile(r.out, data, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "cannot write the result:", err)
		os.Exit(3)
	}
	os.Exit(code)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "...(clipped)"
	}
	return s
}

// Q quotes bytes for reports.
func Q[T ~string | ~[]byte](s T) string {
	if len(s) > 10000 {
		return clip(strconv.Quote(string(s[:4000])), 3000) + fmt.Sprintf(" (%d bytes)", len(s))
	}
	return clip(strconv.Quote(string(s)), 3000)
}
