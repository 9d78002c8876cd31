// Package kit is the explorer's driver: it enumerates indexed case spaces in
// parallel, counts what was covered, confirms and records violations, watches
// for executions that never finish, and writes the evidence file.
package kit

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Check describes the machinery of one property.
type Check struct {
	ID          string
	Level       string // "exploration", "fault_enumeration" or "model_checking"
	Rule        string // how cases are made and what makes one non-trivial
	Bounds      string // the bounds explored, in words
	Assumptions []string
	Run         func(r *Run)
}

var registry = map[string]*Check{}

// Register adds a check.
func Register(c *Check) { registry[c.ID] = c }

// Lookup finds a check.
func Lookup(id string) *Check { return registry[id] }

var auxes = map[string]func(arg string) string{}

// RegisterAux adds a helper that runs in a process of its own.
func RegisterAux(name string, f func(arg string) string) { auxes[name] = f }

// RunAux runs "name:arg" and prints its result.
func RunAux(a string) {
	p := strings.Index(a, ":")
	fmt.Print(auxes[a[:p]](a[p+1:]))
}

// Aux runs a helper in a fresh process and returns what it prints.
func Aux(name, arg string) (string, error) {
	cmd := exec.Command(os.Args[0])
	cmd.Env = append(os.Environ(), "MC_AUX="+name+":"+arg)
	out, err := cmd.Output()
	return string(out), err
}

// IDs lists all checks.
func IDs() []string {
	var ids []string
	for k := range registry {
		ids = append(ids, k)
	}
	sort.Strings(ids)
	return ids
}

type violation struct {
	Sub   string `json:"sub"`
	Index int    `json:"index"`
	Case  string `json:"case"`
	Msg   string `json:"message"`
	Repro string `json:"reproduced"`
}

type subStat struct {
	Name        string `json:"name"`
	Cases       int64  `json:"cases"`
	Evaluations int64  `json:"evaluations"`
	Exhaustive  bool   `json:"exhaustive"`
	WallMs      int64  `json:"wall_ms"`
}

// Run is one run of one check.
type Run struct {
	Check    *Check
	Thorough bool
	Seed     int
	OutDir   string // /verif
	Only     string // "sub#index": run that case only

	start    time.Time
	deadline time.Time

	mu          sync.Mutex
	subs        []subStat
	samples     []string
	evals       int64
	nontrivial  int64
	states      int64
	transitions int64
	skipped     int64
	outcomes    map[uint64]struct{}
	exhaustive  bool
	extra       map[string]interface{}
	known       map[string]string
	knownHit    map[string]bool
	workers     []*W
	inSub       atomic.Bool
	finished    bool
}

// W is one worker.
type W struct {
	R       *Run
	sub     string
	idx     int
	beat    uint64 // atomically incremented
	desc    func() string
	outcome func() string
	fail    string
	failed  bool
	confirm bool

	evals, nontrivial, states, transitions, skipped int64
	outcomes                                        map[uint64]struct{}
}

// Desc sets the description of the current case (evaluated lazily).
func (w *W) Desc(f func() string) { w.desc = f }

// Descf sets the description from a format.
func (w *W) Descf(f string, a ...interface{}) {
	w.desc = func() string { return fmt.Sprintf(f, a...) }
}

// Outcome sets the text shown for a sampled case.
func (w *W) Outcome(f func() string) { w.outcome = f }

// Eval counts one execution of the implementation (and is the heartbeat).
func (w *W) Eval() { w.evals++; atomic.AddUint64(&w.beat, 1) }

// Nontrivial counts the current case as non-trivial.
func (w *W) Nontrivial() { w.nontrivial++ }

// States and Transitions count model states and steps.
func (w *W) States(n int)      { w.states += int64(n) }
func (w *W) Transitions(n int) { w.transitions += int64(n) }

// Skip counts a case outside the property's precondition.
func (w *W) Skip() { w.skipped++ }

// See records an observed outcome (to show that the exploration is not vacuous).
func (w *W) See(h uint64) {
	if len(w.outcomes) < 1<<16 {
		w.outcomes[h] = struct{}{}
	}
}

// SeeStr records an observed outcome.
func (w *W) SeeStr(s string) { w.See(Hash(s)) }

// Hash is FNV-1a.
func Hash(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

// Fail reports that the property does not hold in the current case.
func (w *W) Fail(f string, a ...interface{}) {
	if !w.failed {
		w.failed = true
		w.fail = fmt.Sprintf(f, a...)
	}
}

// Failed tells whether the current case already failed.
func (w *W) Failed() bool { return w.failed }

// FailKnown reports a failure under a stable key: if the key is listed as a known
// finding it is announced as such, otherwise it is a violation.
func (w *W) FailKnown(key string, f string, a ...interface{}) {
	w.R.mu.Lock()
	what, ok := w.R.known[key]
	if ok && !w.R.knownHit[key] {
		w.R.knownHit[key] = true
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", w.R.Check.ID, what)
	}
	w.R.mu.Unlock()
	if !ok {
		w.Fail("["+key+"] "+f, a...)
	}
}

func (r *Run) newW() *W { return &W{R: r, outcomes: map[uint64]struct{}{}} }

func (w *W) runCase(fn func(w *W, i int), i int) {
	w.idx, w.failed, w.fail, w.desc, w.outcome = i, false, "", nil, nil
	defer func() {
		if x := recover(); x != nil {
			w.Fail("panic: %v\n%s", x, trimStack(string(debug.Stack())))
		}
		atomic.AddUint64(&w.beat, 1)
	}()
	fn(w, i)
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "/repo/") || strings.Contains(l, "takenoco/") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) >= 12 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func (w *W) describe() (s string) {
	defer func() {
		if x := recover(); x != nil {
			s = fmt.Sprintf("(description failed: %v)", x)
		}
	}()
	if w.desc == nil {
		return fmt.Sprintf("index %d", w.idx)
	}
	return w.desc()
}

// Exhausted tells whether the time budget is used up.
func (r *Run) Exhausted() bool { return time.Now().After(r.deadline) }

// Partial marks the run as not exhaustive.
func (r *Run) Partial() { r.mu.Lock(); r.exhaustive = false; r.mu.Unlock() }

// Count adds work done outside Sub to the evidence.
func (r *Run) Count(name string, cases, executions, nontrivial, states, transitions int64, exhaustive bool, wall time.Duration) {
	r.mu.Lock()
	r.subs = append(r.subs, subStat{Name: name, Cases: cases, Evaluations: executions, Exhaustive: exhaustive, WallMs: wall.Milliseconds()})
	r.evals += executions
	r.nontrivial += nontrivial
	r.states += states
	r.transitions += transitions
	if !exhaustive {
		r.exhaustive = false
	}
	r.mu.Unlock()
}

// Sample adds an example of what was explored.
func (r *Run) Sample(s string) {
	r.mu.Lock()
	if len(r.samples) < 60 {
		r.samples = append(r.samples, clip(s, 400))
	}
	r.mu.Unlock()
}

// Saw records observed outcomes.
func (r *Run) Saw(s string) {
	r.mu.Lock()
	r.outcomes[Hash(s)] = struct{}{}
	r.mu.Unlock()
}

// Note adds a key to the evidence coverage.
func (r *Run) Note(key string, v interface{}) {
	r.mu.Lock()
	r.extra[key] = v
	r.mu.Unlock()
}

// Sub explores the case space [0,total): fn is called once for every index.
func (r *Run) Sub(name string, total int, fn func(w *W, i int)) {
	t0 := time.Now()
	only := -1
	if r.Only != "" {
		p := strings.LastIndex(r.Only, "#")
		if r.Only[:p] != name {
			return
		}
		fmt.Sscanf(r.Only[p+1:], "%d", &only)
	}
	n := runtime.GOMAXPROCS(0)
	chunk := total / (n * 64)
	if chunk < 1 {
		chunk = 1
	}
	if chunk > 256 {
		chunk = 256
	}
	var next, best int64
	best = int64(total)
	var vmu sync.Mutex
	var v *violation
	timedOut := false
	ws := make([]*W, n)
	for k := range ws {
		ws[k] = r.newW()
		ws[k].sub = name
	}
	r.mu.Lock()
	r.workers = ws
	r.mu.Unlock()
	r.inSub.Store(true)
	sampleAt := map[int]bool{0: true, total / 2: true, total - 1: true, total / 3: true}
	var wg sync.WaitGroup
	for k := range ws {
		w := ws[k]
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { atomic.StoreUint64(&w.beat, 0) }()
			atomic.AddUint64(&w.beat, 1)
			for {
				lo := int(atomic.AddInt64(&next, int64(chunk))) - chunk
				if lo >= total {
					return
				}
				if time.Now().After(r.deadline) {
					vmu.Lock()
					timedOut = true
					vmu.Unlock()
					return
				}
				for i := lo; i < lo+chunk && i < total; i++ {
					if int64(i) >= atomic.LoadInt64(&best) {
						return
					}
					if only >= 0 && i != only {
						continue
					}
					w.runCase(fn, i)
					if w.failed {
						vmu.Lock()
						if int64(i) < best {
							atomic.StoreInt64(&best, int64(i))
							v = &violation{Sub: name, Index: i, Case: w.describe(), Msg: w.fail}
						}
						vmu.Unlock()
						return
					}
					if sampleAt[i] && w.desc != nil {
						s := name + ": " + w.describe()
						if w.outcome != nil {
							s += " => " + w.outcome()
						}
						r.mu.Lock()
						if len(r.samples) < 40 {
							r.samples = append(r.samples, clip(s, 400))
						}
						r.mu.Unlock()
					}
				}
			}
		}()
	}
	wg.Wait()
	r.inSub.Store(false)
	st := subStat{Name: name, Cases: int64(total), Exhaustive: !timedOut, WallMs: time.Since(t0).Milliseconds()}
	r.mu.Lock()
	for _, w := range ws {
		st.Evaluations += w.evals
		r.evals += w.evals
		r.nontrivial += w.nontrivial
		r.states += w.states
		r.transitions += w.transitions
		r.skipped += w.skipped
		for h := range w.outcomes {
			if len(r.outcomes) < 1<<18 {
				r.outcomes[h] = struct{}{}
			}
		}
	}
	if timedOut {
		r.exhaustive = false
	}
	r.subs = append(r.subs, st)
	r.mu.Unlock()
	if v != nil {
		// Run the failing case again to see whether it fails every time.
		ok := 0
		for k := 0; k < 5; k++ {
			w := r.newW()
			w.sub = name
			w.confirm = true
			w.runCase(fn, v.Index)
			if w.failed {
				ok++
			}
		}
		v.Repro = fmt.Sprintf("%d/5", ok)
		r.violate(v)
	}
}

// One explores a single case.
func (r *Run) One(name string, fn func(w *W)) { r.Sub(name, 1, func(w *W, _ int) { fn(w) }) }

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// Violate reports a violation found outside Sub (for instance by a helper process).
func (r *Run) Violate(sub, desc, msg string) {
	r.violate(&violation{Sub: sub, Index: -1, Case: desc, Msg: msg, Repro: "n/a"})
}

func (r *Run) violate(v *violation) {
	dir := filepath.Join(r.OutDir, "out", "replay")
	os.MkdirAll(dir, 0o755)
	tier := "quick"
	if r.Thorough {
		tier = "thorough"
	}
	path := filepath.Join(dir, r.Check.ID+".json")
	js, _ := json.MarshalIndent(map[string]interface{}{
		"property": r.Check.ID, "tier": tier, "sub": v.Sub, "index": v.Index,
		"case": v.Case, "message": v.Msg, "reproduced": v.Repro,
		"replay_cmd": fmt.Sprintf("VERIF_TIER=%s ./check.sh %s -only '%s#%d'", tier, r.Check.ID, v.Sub, v.Index),
	}, "", " ")
	os.WriteFile(path, append(js, '\n'), 0o644)
	fmt.Printf("violated in %s#%d: %s\n  %s\n  reproduced %s\n", v.Sub, v.Index, clip(v.Case, 2000), clip(v.Msg, 4000), v.Repro)
	r.evidence(1)
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Check.ID, path)
	os.Exit(1)
}

func (r *Run) evidence(violations int) {
	r.mu.Lock()
	defer r.mu.Unlock()
	tier := "quick"
	if r.Thorough {
		tier = "thorough"
	}
	cov := map[string]interface{}{
		"exhaustive":                   r.exhaustive && violations == 0,
		"samples":                      r.samples,
		"distinct_outcomes":            len(r.outcomes),
		"bounds":                       r.Check.Bounds,
		"subspaces":                    r.subs,
		"outside_precondition_skipped": r.skipped,
	}
	if r.samples == nil {
		cov["samples"] = []string{}
	}
	if r.Check.Level == "model_checking" {
		cov["states"] = r.states
		cov["transitions"] = r.transitions
		cov["traces_validated_against_impl"] = r.evals
	} else {
		cov["evaluations"] = r.evals
		cov["distinct_nontrivial"] = r.nontrivial
		cov["rule"] = r.Check.Rule
	}
	for k, v := range r.extra {
		cov[k] = v
	}
	ev := map[string]interface{}{
		"property": r.Check.ID, "tier": tier, "seed": r.Seed, "level": r.Check.Level,
		"coverage": cov, "assumptions": r.Check.Assumptions,
		"wall_s": time.Since(r.start).Seconds(), "violations": violations,
	}
	if r.Check.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	js, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		os.Exit(2)
	}
	os.MkdirAll(filepath.Join(r.OutDir, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(r.OutDir, "evidence", r.Check.ID+".json"), append(js, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		os.Exit(2)
	}
}

func (r *Run) loadKnown() {
	r.known = map[string]string{}
	r.knownHit = map[string]bool{}
	b, err := os.ReadFile(filepath.Join(r.OutDir, "known_findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		// finding: property=C25 case=<key> <what>
		if !strings.HasPrefix(l, "finding: property="+r.Check.ID+" case=") {
			continue
		}
		rest := strings.TrimPrefix(l, "finding: property="+r.Check.ID+" case=")
		if p := strings.Index(rest, " "); p > 0 {
			r.known[rest[:p]] = rest[p+1:]
		}
	}
}

// monitor turns executions that never finish, or eat all memory, into violations.
// The limits are far beyond anything a terminating case can need.
func (r *Run) monitor() {
	const stall = 150 * time.Second
	const maxHeap, maxLive = 14 << 30, 9 << 30
	type seen struct {
		beat uint64
		at   time.Time
	}
	last := map[*W]seen{}
	ms := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}, {Name: "/gc/heap/live:bytes"}}
	for {
		time.Sleep(20 * time.Millisecond)
		if !r.inSub.Load() {
			continue
		}
		metrics.Read(ms)
		heap, live := ms[0].Value.Uint64(), ms[1].Value.Uint64()
		now := time.Now()
		r.mu.Lock()
		ws := r.workers
		r.mu.Unlock()
		var oldest *W
		var oldestAt time.Time
		for _, w := range ws {
			b := atomic.LoadUint64(&w.beat)
			if b == 0 {
				delete(last, w)
				continue
			}
			s, ok := last[w]
			if !ok || s.beat != b {
				last[w] = seen{b, now}
				continue
			}
			if oldest == nil || s.at.Before(oldestAt) {
				oldest, oldestAt = w, s.at
			}
		}
		if oldest == nil {
			continue
		}
		if now.Sub(oldestAt) > stall {
			r.violate(&violation{Sub: oldest.sub, Index: oldest.idx, Case: oldest.describe(),
				Msg: fmt.Sprintf("does not terminate (no progress for %v)", stall), Repro: "n/a"})
		}
		if heap > maxHeap || live > maxLive {
			r.violate(&violation{Sub: oldest.sub, Index: oldest.idx, Case: oldest.describe(),
				Msg: fmt.Sprintf("unbounded memory growth (%d bytes, %d live)", heap, live), Repro: "n/a"})
		}
	}
}

// Main runs one check and exits.
func Main(c *Check, thorough bool, seed int, outDir, only string) {
	debug.SetMaxStack(512 << 20)
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(6 << 30)
	r := &Run{Check: c, Thorough: thorough, Seed: seed, OutDir: outDir, Only: only,
		start: time.Now(), outcomes: map[uint64]struct{}{}, exhaustive: true, extra: map[string]interface{}{}}
	budget := 400 * time.Second
	if thorough {
		budget = 800 * time.Second
	}
	r.deadline = r.start.Add(budget)
	r.loadKnown()
	go r.monitor()
	c.Run(r)
	for key, what := range r.known {
		if !r.knownHit[key] {
			fmt.Printf("note: known finding %s (%s) did not show up in this run\n", key, what)
		}
	}
	r.evidence(0)
	r.mu.Lock()
	fmt.Printf("%s held: %d executions, %d non-trivial, %d states, %d transitions, %d distinct outcomes, exhaustive=%v, %.1fs\n",
		c.ID, r.evals, r.nontrivial, r.states, r.transitions, len(r.outcomes), r.exhaustive, time.Since(r.start).Seconds())
	for _, s := range r.subs {
		fmt.Printf("  %-28s cases=%d executions=%d %dms exhaustive=%v\n", s.Name, s.Cases, s.Evaluations, s.WallMs, s.Exhaustive)
	}
	r.mu.Unlock()
	os.Exit(0)
}

// Strings enumerates all strings over an alphabet, shortest first.
type Strings struct {
	Alpha  []string
	MaxLen int
	total  int
}

// NewStrings makes the space of all concatenations of at most maxLen symbols.
func NewStrings(maxLen int, alpha ...string) *Strings {
	s := &Strings{Alpha: alpha, MaxLen: maxLen}
	p := 1
	for l := 0; l <= maxLen; l++ {
		s.total += p
		p *= len(alpha)
	}
	return s
}

// Len is the number of strings.
func (s *Strings) Len() int { return s.total }

// Digits returns the symbol indices of string i.
func (s *Strings) Digits(i int) []int {
	n := len(s.Alpha)
	l, p := 0, 1
	for i >= p {
		i -= p
		p *= n
		l++
	}
	d := make([]int, l)
	for k := l - 1; k >= 0; k-- {
		d[k] = i % n
		i /= n
	}
	return d
}

// At returns string i.
func (s *Strings) At(i int) string {
	d := s.Digits(i)
	b := make([]byte, 0, 16)
	for _, k := range d {
		b = append(b, s.Alpha[k]...)
	}
	return string(b)
}

// All returns all strings.
func (s *Strings) All() []string {
	out := make([]string, s.total)
	for i := range out {
		out[i] = s.At(i)
	}
	return out
}
