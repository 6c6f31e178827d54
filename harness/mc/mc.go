// Package mc is the explorer behind every check: a stateless model checker that enumerates, depth first
// and in parallel, every execution of a scenario within a bound on deviations from a default choice.
//
// A scenario is a function of a Ch. Whatever it asks the Ch to pick is nondeterminism owned by the explorer:
// field values, operations, operands, schedules, truncation points. The scenario runs the real code of the
// repository on the history it picked and a reference model next to it, and returns a Fail when they differ.
package mc

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Fail describes a disagreement between the real code and the property.
type Fail struct {
	Key  string // what fails, without the values: identifies the finding
	Desc string // what happened
}

func Failf(key, format string, a ...interface{}) *Fail {
	return &Fail{Key: key, Desc: fmt.Sprintf(format, a...)}
}

// Ch hands out the choices of one execution.
type Ch struct {
	prefix  []uint16
	choices []uint16
	alts    []uint16 // number of alternatives at each point
	costs   []uint8  // cost of any non-default alternative at each point
	trace   []string
	tracing bool
	Worker  int
	Steps   int64 // operations performed on the real code, counted by the scenario
	Inner   int64 // cases enumerated inside the execution, besides the execution itself
	Local   map[string]interface{}
}

// Pick returns a number in [0,n). 0 is the default; anything else is a deviation of the given cost.
func (c *Ch) Pick(n int, cost int) int {
	if n <= 0 || n > 65535 {
		panic(fmt.Sprintf("mc: Pick(%d)", n))
	}
	i := len(c.choices)
	v := 0
	if i < len(c.prefix) {
		v = int(c.prefix[i])
		if v >= n {
			panic(divergence{fmt.Sprintf("replay diverged at choice %d: %d of %d", i, v, n)})
		}
	}
	c.choices = append(c.choices, uint16(v))
	c.alts = append(c.alts, uint16(n))
	c.costs = append(c.costs, uint8(cost))
	return v
}

// All returns a number in [0,n), every one of them explored whatever the bound.
func (c *Ch) All(n int) int { return c.Pick(n, 0) }

// Note adds a line to the written form of the execution. The arguments are only evaluated when tracing.
func (c *Ch) Note(format string, a ...interface{}) {
	if c.tracing {
		c.trace = append(c.trace, fmt.Sprintf(format, a...))
	}
}

func (c *Ch) Tracing() bool { return c.tracing }

type divergence struct{ s string }

// Diverged tells whether a recovered panic is the explorer's own, to be passed on.
func Diverged(e interface{}) bool { _, ok := e.(divergence); return ok }

// Scenario is a family of executions.
type Scenario struct {
	Name  string
	Bound int // sum of deviation costs allowed in one execution
	Run   func(c *Ch) *Fail
	// Serial runs one execution at a time, for scenarios that look for memory shared between decoders.
	Serial bool
}

type item struct {
	base []uint16
	at   int
	alt  uint16
	cost int // deviations spent in base[:at] plus this one
}

// Report collects what a run covered and what it found.
type Report struct {
	Property string
	Tier     string
	Seed     int64
	evidence string
	replays  string
	known    []knownEntry

	start    time.Time
	deadline time.Time

	States, Transitions, Traces, ImplSteps int64

	mu          sync.Mutex
	samples     []interface{}
	assumptions []string
	bounds      []string
	scen        []map[string]interface{}
	exhaustive  bool
	fails       map[string]*found
	knownHit    map[string]string
	outcomes    map[string]int64
	replayFile  string
}

type found struct {
	fail     *Fail
	scenario string
	choices  []uint16
	trace    []string
}

type knownEntry struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
	Status   string `json:"status"`
}

// Start reads the command line: PROPERTY TIER VERIFDIR [REPLAYFILE].
func Start() *Report {
	if len(os.Args) < 4 {
		fmt.Fprintln(os.Stderr, "usage: check PROPERTY quick|thorough VERIFDIR [REPLAY]")
		os.Exit(2)
	}
	r := &Report{Property: os.Args[1], Tier: os.Args[2], start: time.Now(), exhaustive: true,
		fails: map[string]*found{}, knownHit: map[string]string{}, outcomes: map[string]int64{}}
	dir := os.Args[3]
	r.evidence = filepath.Join(dir, "evidence", r.Property+".json")
	r.replays = filepath.Join(dir, "replays")
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		r.Seed = s
	} else {
		r.Seed = 1
	}
	limit := 150 * time.Second
	if r.Thorough() {
		limit = 720 * time.Second
	}
	r.deadline = r.start.Add(limit)
	if len(os.Args) > 4 {
		r.replayFile = os.Args[4]
	}
	if b, err := os.ReadFile(filepath.Join(dir, "known-findings.jsonl")); err == nil {
		for _, line := range strings.Split(string(b), "\n") {
			var k knownEntry
			if json.Unmarshal([]byte(line), &k) == nil && k.Property == r.Property && k.Status == "known" {
				r.known = append(r.known, k)
			}
		}
	}
	debug.SetGCPercent(800)
	debug.SetMemoryLimit(10 << 30)
	return r
}

func (r *Report) Thorough() bool { return r.Tier == "thorough" }

// Assume records what the verdict takes for granted.
func (r *Report) Assume(s ...string) { r.assumptions = append(r.assumptions, s...) }

// Outcome counts distinct observed outcomes, to show that the exploration is not vacuous.
func (r *Report) Outcome(s string) {
	r.mu.Lock()
	r.outcomes[s]++
	r.mu.Unlock()
}

// Catch runs f and returns what it panicked with, or nil.
func Catch(f func()) (p interface{}) {
	defer func() {
		if e := recover(); e != nil {
			if d, ok := e.(divergence); ok {
				panic(d)
			}
			p = e
		}
	}()
	f()
	return nil
}

type slot struct {
	mu      sync.Mutex
	busy    bool
	since   time.Time
	scen    *Scenario
	choices []uint16
	ch      *Ch
}

// Explore enumerates every execution of each scenario within its bound.
func (r *Report) Explore(scs ...Scenario) {
	if r.replayFile != "" {
		r.replay(scs)
		return
	}
	for i := range scs {
		r.explore(&scs[i])
		if len(r.fails) >= 8 {
			return
		}
	}
}

func (r *Report) runOnce(sc *Scenario, prefix []uint16, tracing bool, worker int, local map[string]interface{}, sl *slot) (c *Ch, f *Fail) {
	c = &Ch{prefix: prefix, tracing: tracing, Worker: worker, Local: local}
	if sl != nil {
		sl.mu.Lock()
		sl.busy, sl.since, sl.scen, sl.choices, sl.ch = true, time.Now(), sc, prefix, c
		sl.mu.Unlock()
		defer func() { sl.mu.Lock(); sl.busy = false; sl.mu.Unlock() }()
	}
	defer func() {
		if e := recover(); e != nil {
			if d, ok := e.(divergence); ok {
				f = Failf("not repeatable", "the same history does not go the same way again: %s", d.s)
				return
			}
			f = Failf("panic", "unexpected failure: %v\n%s", e, debug.Stack())
		}
	}()
	f = sc.Run(c)
	return
}

func (r *Report) explore(sc *Scenario) {
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if sc.Serial {
		n = 1
	}
	var (
		mu     sync.Mutex
		cond   = sync.NewCond(&mu)
		stack  = []item{{base: nil, at: -1}}
		idle   int
		done   bool
		execs  int64
		capped bool
		nodes  int64
		steps  int64
		inner  int64
		maxLen int64
		wg     sync.WaitGroup
	)
	slots := make([]*slot, n)
	stopWatch := make(chan struct{})
	for i := range slots {
		slots[i] = &slot{}
	}
	go r.watch(slots, stopWatch)
	t0 := time.Now()
	work := func(w int) {
		defer wg.Done()
		var local []item
		store := map[string]interface{}{}
		for {
			if len(local) == 0 {
				mu.Lock()
				idle++
				for len(stack) == 0 && !done {
					if idle == n {
						done = true
						cond.Broadcast()
						break
					}
					cond.Wait()
				}
				if done {
					mu.Unlock()
					return
				}
				idle--
				k := (len(stack) + n - 1) / n
				if k > 64 {
					k = 64
				}
				local = append(local, stack[len(stack)-k:]...)
				stack = stack[:len(stack)-k]
				mu.Unlock()
			}
			it := local[len(local)-1]
			local = local[:len(local)-1]
			var prefix []uint16
			if it.at >= 0 {
				prefix = make([]uint16, it.at+1)
				copy(prefix, it.base[:it.at])
				prefix[it.at] = it.alt
			}
			c, f := r.runOnce(sc, prefix, false, w, store, slots[w])
			if len(c.choices) < len(prefix) && f == nil {
				panic(fmt.Sprintf("mc: %s: execution shorter than its prefix: the scenario is not deterministic", sc.Name))
			}
			e := atomic.AddInt64(&execs, 1)
			atomic.AddInt64(&nodes, int64(len(c.choices)-len(prefix)+1))
			atomic.AddInt64(&steps, c.Steps)
			atomic.AddInt64(&inner, c.Inner)
			if l := int64(len(c.choices)); l > atomic.LoadInt64(&maxLen) {
				atomic.StoreInt64(&maxLen, l)
			}
			if e == 1 || e == 7 || e == 1000 {
				c2, _ := r.runOnce(sc, c.choices, true, w, store, nil)
				r.mu.Lock()
				if len(r.samples) < 12 {
					r.samples = append(r.samples, sample(sc, c2))
				}
				r.mu.Unlock()
			}
			if f != nil {
				r.found(sc, c, f, w, store)
				r.mu.Lock()
				full := len(r.fails) >= 8
				r.mu.Unlock()
				if full {
					mu.Lock()
					done = true
					capped = true
					cond.Broadcast()
					mu.Unlock()
					return
				}
			}
			if e&255 == 0 && time.Now().After(r.deadline) {
				mu.Lock()
				done = true
				capped = true
				cond.Broadcast()
				mu.Unlock()
				return
			}
			before := len(local)
			if f != nil && f.Key == "not repeatable" {
				continue
			}
			for i := len(c.choices) - 1; i >= len(prefix); i-- {
				if c.alts[i] < 2 {
					continue
				}
				cost := it.cost + int(c.costs[i])
				if cost > sc.Bound {
					continue
				}
				for a := int(c.alts[i]) - 1; a >= 1; a-- {
					local = append(local, item{c.choices, i, uint16(a), cost})
				}
			}
			_ = before
			mu.Lock()
			if done {
				mu.Unlock()
				return
			}
			if idle > 0 && len(stack) == 0 && len(local) > 1 {
				half := len(local) / 2
				stack = append(stack, local[:half]...)
				local = append([]item{}, local[half:]...)
				cond.Broadcast()
			}
			mu.Unlock()
		}
	}
	for w := 0; w < n; w++ {
		wg.Add(1)
		go work(w)
	}
	wg.Wait()
	close(stopWatch)
	// A case enumerated inside an execution is a leaf below it: one state, one transition, one history.
	atomic.AddInt64(&r.States, nodes+inner)
	atomic.AddInt64(&r.Transitions, nodes-1+inner)
	atomic.AddInt64(&r.Traces, execs+inner)
	atomic.AddInt64(&r.ImplSteps, steps)
	if capped {
		r.exhaustive = false
	}
	r.scen = append(r.scen, map[string]interface{}{"scenario": sc.Name, "deviation_bound": sc.Bound, "executions": execs, "cases_inside_executions": inner,
		"choice_tree_nodes": nodes, "longest_execution": maxLen, "complete": !capped, "wall_s": time.Since(t0).Seconds()})
}

func sample(sc *Scenario, c *Ch) interface{} {
	t := c.trace
	if len(t) > 60 {
		t = append(append([]string{}, t[:60]...), fmt.Sprintf("... %d more", len(c.trace)-60))
	}
	return map[string]interface{}{"scenario": sc.Name, "choices": c.choices, "execution": t}
}

// watch reports an execution that does not come back: those of the unchanged code take microseconds.
func (r *Report) watch(slots []*slot, stop chan struct{}) {
	tick := time.NewTicker(time.Second)
	defer tick.Stop()
	for {
		select {
		case <-stop:
			return
		case <-tick.C:
		}
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		for _, s := range slots {
			s.mu.Lock()
			stuck := s.busy && (time.Since(s.since) > 60*time.Second || (m.HeapAlloc > 10<<30 && time.Since(s.since) > 5*time.Second))
			if stuck {
				r.mu.Lock()
				r.fails["hang"] = &found{fail: Failf("hang", "the code under test does not return (running for %v, heap %d MB)", time.Since(s.since).Round(time.Second), m.HeapAlloc>>20), scenario: s.scen.Name, choices: append([]uint16{}, s.choices...)}
				r.exhaustive = false
				r.mu.Unlock()
				s.mu.Unlock()
				r.Finish()
			}
			s.mu.Unlock()
		}
	}
}

// found confirms a failure by re-running the very same choices, then keeps the shortest per key.
func (r *Report) found(sc *Scenario, c *Ch, f *Fail, w int, store map[string]interface{}) {
	r.mu.Lock()
	if old := r.fails[f.Key]; old != nil && len(old.choices) <= len(c.choices) {
		r.mu.Unlock()
		return
	}
	r.mu.Unlock()
	var last *Ch
	for i := 0; i < 5; i++ {
		c2, f2 := r.runOnce(sc, c.choices, true, w, store, nil)
		if f2 == nil {
			r.mu.Lock()
			r.assumptions = append(r.assumptions, "dropped an unconfirmed failure of "+sc.Name+": "+f.Key)
			r.mu.Unlock()
			return
		}
		last = c2
	}
	for _, k := range r.known {
		if k.Key == f.Key {
			r.mu.Lock()
			r.knownHit[f.Key] = k.What
			r.mu.Unlock()
			return
		}
	}
	r.mu.Lock()
	r.fails[f.Key] = &found{fail: f, scenario: sc.Name, choices: append([]uint16{}, c.choices...), trace: last.trace}
	r.mu.Unlock()
}

func (r *Report) replay(scs []Scenario) {
	b, err := os.ReadFile(r.replayFile)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var in struct {
		Scenario string
		Choices  []uint16
	}
	if err := json.Unmarshal(b, &in); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	for i := range scs {
		if scs[i].Name == in.Scenario {
			c, f := r.runOnce(&scs[i], in.Choices, true, 0, map[string]interface{}{}, nil)
			for _, l := range c.trace {
				fmt.Println("  " + l)
			}
			if f == nil {
				fmt.Println("REPLAY: no disagreement")
				os.Exit(0)
			}
			fmt.Printf("REPLAY: %s: %s\n", f.Key, f.Desc)
			os.Exit(1)
		}
	}
}

// Bound states a bound of the exploration in words, for the evidence.
func (r *Report) Bound(s string, a ...interface{}) { r.bounds = append(r.bounds, fmt.Sprintf(s, a...)) }

var profStop = func() {}

// Finish writes the evidence and ends the process.
func (r *Report) Finish() {
	profStop()
	if r.replayFile != "" {
		fmt.Fprintln(os.Stderr, "scenario of the replay file not found")
		os.Exit(2)
	}
	r.mu.Lock()
	if len(r.samples) == 0 {
		r.samples = append(r.samples, "none recorded")
	}
	out := map[string]interface{}{
		"property": r.Property, "tier": r.Tier, "seed": r.Seed, "level": "model_checking",
		"coverage": map[string]interface{}{
			"states": r.States, "transitions": r.Transitions, "traces_validated_against_impl": r.Traces,
			"impl_operations": r.ImplSteps, "exhaustive": r.exhaustive, "scenarios": r.scen, "bounds": r.bounds,
			"samples": r.samples,
			"rule": "states and transitions are the nodes and edges of the tree of choices, each explored once; every leaf is one history that was run on the reference model and replayed on the real code, with all observations compared",
		},
		"assumptions": append([]string{}, r.assumptions...), "wall_s": time.Since(r.start).Seconds(), "violations": len(r.fails),
	}
	if len(r.outcomes) > 0 {
		out["coverage"].(map[string]interface{})["distinct_outcomes"] = len(r.outcomes)
	}
	os.MkdirAll(filepath.Dir(r.evidence), 0o755)
	b, _ := json.MarshalIndent(out, "", " ")
	if err := os.WriteFile(r.evidence, append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var kk []string
	for k := range r.knownHit {
		kk = append(kk, k)
	}
	sort.Strings(kk)
	for _, k := range kk {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.Property, r.knownHit[k])
	}
	if len(r.fails) == 0 {
		fmt.Printf("OK property=%s states=%d transitions=%d executions=%d exhaustive=%v wall=%.1fs\n", r.Property, r.States, r.Transitions, r.Traces, r.exhaustive, time.Since(r.start).Seconds())
		os.Exit(0)
	}
	os.MkdirAll(r.replays, 0o755)
	keys := []string{}
	for k := range r.fails {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for i, k := range keys {
		f := r.fails[k]
		p := filepath.Join(r.replays, fmt.Sprintf("%s-%d.json", r.Property, i))
		b, _ := json.MarshalIndent(map[string]interface{}{"property": r.Property, "scenario": f.scenario, "choices": f.choices,
			"key": f.fail.Key, "what": f.fail.Desc, "execution": f.trace}, "", " ")
		os.WriteFile(p, append(b, '\n'), 0o644)
		fmt.Printf("%s: %s (%s)\n", f.fail.Key, f.fail.Desc, f.scenario)
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, p)
	}
	os.Exit(1)
}
