// Package vsched is a cooperative scheduler. The code under test is rebuilt with a call
// of P before every statement; while an execution is being explored exactly one thread
// runs at a time, and the others continue where the plan says.
package vsched

import (
	"runtime"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"
)

var active bool

// P is a scheduling point.
func P() {
	if active {
		the.point()
	}
}

// Switch is one preemption of a plan: when Step points have been passed, thread To continues.
type Switch struct{ Step, To int }

// Result of one execution.
type Result struct {
	Steps    int    // scheduling points passed
	Done     int    // preemptions of the plan that took place
	Per      []int  // points passed by each thread
	Deadlock string // set when no thread can continue
	Blocks   int    // times a thread was found blocked
	Owner    []int8 `json:"-"` // the thread that passed each point
}

type thread struct {
	wake                   chan struct{}
	gid                    string
	id                     int8
	steps                  int
	waiting, blocked, done bool
}

type sched struct {
	mu       sync.Mutex
	ts       []*thread
	cur      *thread
	nblocked int
	steps    int
	burst    int
	plan     []Switch
	at       int
	blocks   int
	live     int
	owner    []int8
	over     chan struct{}
}

var the = &sched{}

// maxBurst is how long a thread may run without a switch: a thread that spins until
// another one acts has to let it.
const maxBurst = 2000000

// maxSteps is far beyond what a terminating execution passes.
const maxSteps = 30000000

const maxOwner = 1 << 20

//go:linkname setLabel runtime/pprof.runtime_setProfLabel
func setLabel(p unsafe.Pointer)

//go:linkname getLabel runtime/pprof.runtime_getProfLabel
func getLabel() unsafe.Pointer

func goid() string {
	var b [64]byte
	s := string(b[:runtime.Stack(b[:], false)])
	s = strings.TrimPrefix(s, "goroutine ")
	return s[:strings.IndexByte(s, ' ')]
}

func (s *sched) self() *thread {
	if s.nblocked == 0 {
		return s.cur
	}
	p := getLabel()
	for _, t := range s.ts {
		if unsafe.Pointer(t) == p {
			return t
		}
	}
	return nil
}

// resume makes a thread the running one; mu is held.
func (s *sched) resume(t *thread) {
	s.cur = t
	s.burst = 0
	t.waiting = false
	t.wake <- struct{}{}
}

// next finds a waiting thread behind t; mu is held.
func (s *sched) next(t *thread) *thread {
	k := 0
	for i := range s.ts {
		if s.ts[i] == t {
			k = i
		}
	}
	for i := 1; i <= len(s.ts); i++ {
		if q := s.ts[(k+i)%len(s.ts)]; q.waiting {
			return q
		}
	}
	return nil
}

func (s *sched) point() {
	s.mu.Lock()
	t := s.self()
	if t == nil {
		s.mu.Unlock()
		return
	}
	if t.blocked {
		// it could go on after all
		t.blocked = false
		s.nblocked--
		if s.cur == nil {
			s.cur = t
			s.burst = 0
		} else {
			t.waiting = true
			s.mu.Unlock()
			<-t.wake
			s.mu.Lock()
		}
	}
	s.burst++
	var to *thread
	if s.at < len(s.plan) && s.steps >= s.plan[s.at].Step {
		if q := s.ts[s.plan[s.at].To]; q.waiting {
			to = q
			s.at++
		}
	}
	s.steps++
	t.steps++
	if len(s.owner) < maxOwner {
		s.owner = append(s.owner, t.id)
	}
	if to == nil && s.burst > maxBurst {
		to = s.next(t)
		s.burst = 0
	}
	if to == nil {
		s.mu.Unlock()
		return
	}
	t.waiting = true
	s.resume(to)
	s.mu.Unlock()
	<-t.wake
}

func (s *sched) end(t *thread) {
	s.mu.Lock()
	defer s.mu.Unlock()
	t.done = true
	s.live--
	if t.blocked {
		t.blocked = false
		s.nblocked--
	}
	if s.cur == t {
		s.cur = nil
		if q := s.next(t); q != nil {
			s.resume(q)
		}
	}
	if s.live == 0 {
		close(s.over)
	}
}

var blockedStates = []string{"chan receive", "chan send", "select", "sync.Mutex.Lock", "sync.RWMutex", "sync.Cond.Wait", "semacquire", "sync.WaitGroup.Wait"}

// isBlocked looks at the state of a goroutine.
func isBlocked(all, gid string) bool {
	p := strings.Index(all, "goroutine "+gid+" [")
	if p < 0 {
		return false
	}
	st := all[p+len("goroutine "+gid+" ["):]
	frames := st
	if q := strings.Index(st, "\n\n"); q >= 0 {
		frames = st[:q]
	}
	if strings.Contains(frames, "vsched.(*sched)") || strings.Contains(frames, "vsched.Run.func") && strings.Count(frames, "\n") < 5 {
		return false
	}
	for _, b := range blockedStates {
		if strings.HasPrefix(st, b) {
			return true
		}
	}
	return false
}

var stackBuf = make([]byte, 1<<16)

func stacks() string {
	for {
		n := runtime.Stack(stackBuf, true)
		if n < len(stackBuf) || n >= 1<<22 {
			return string(stackBuf[:n])
		}
		stackBuf = make([]byte, 2*len(stackBuf))
	}
}

// Run executes the threads under a plan; thread first begins.
func Run(first int, plan []Switch, bodies ...func()) Result {
	s := &sched{plan: plan, over: make(chan struct{}), live: len(bodies)}
	ready := make(chan struct{})
	for i := range bodies {
		s.ts = append(s.ts, &thread{id: int8(i), wake: make(chan struct{}, 1), waiting: true})
	}
	for i := range bodies {
		t, body := s.ts[i], bodies[i]
		go func() {
			t.gid = goid()
			setLabel(unsafe.Pointer(t)) // tells the goroutine apart, cheaply
			ready <- struct{}{}
			<-t.wake
			defer s.end(t)
			body()
		}()
	}
	for range bodies {
		<-ready
	}
	the = s
	active = true
	s.mu.Lock()
	s.resume(s.ts[first])
	s.mu.Unlock()
	last, idle := -1, 0
	tick := time.NewTimer(120 * time.Microsecond)
	defer tick.Stop()
	woke := false
loop:
	for {
		if woke {
			// the timer's granularity is a millisecond when nothing runs
			ts := syscall.NsecToTimespec(30000)
			syscall.Nanosleep(&ts, nil)
			select {
			case <-s.over:
				break loop
			default:
			}
		} else {
			select {
			case <-s.over:
				break loop
			case <-tick.C:
				woke = true
			}
		}
		s.mu.Lock()
		if s.steps != last {
			last = s.steps
			idle = 0
			if s.steps > maxSteps {
				active = false
				r := s.result()
				r.Deadlock = "endless execution\n" + stacks()
				s.mu.Unlock()
				return r
			}
			s.mu.Unlock()
			continue
		}
		idle++
		if s.live > 0 {
			if s.cur != nil {
				// without the lock: the thread may be about to take it
				t := s.cur
				s.mu.Unlock()
				is := isBlocked(stacks(), t.gid)
				s.mu.Lock()
				if is && s.cur == t && s.steps == last {
					t.blocked = true
					s.nblocked++
					s.blocks++
					s.cur = nil
					if q := s.next(t); q != nil {
						s.resume(q)
					}
					idle = 0
				}
			} else if q := s.next(nil2(s)); q != nil {
				s.resume(q)
			} else if idle > 12000 {
				// every living thread has been blocked for a second
				all := stacks()
				stuck := true
				for _, t := range s.ts {
					if !t.done && !isBlocked(all, t.gid) {
						stuck = false
					}
				}
				if stuck {
					active = false
					r := s.result()
					r.Deadlock = all
					s.mu.Unlock()
					return r
				}
				idle = 0
			}
		}
		s.mu.Unlock()
	}
	active = false
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.result()
}

func nil2(s *sched) *thread { return s.ts[len(s.ts)-1] }

func (s *sched) result() Result {
	r := Result{Steps: s.steps, Done: s.at, Blocks: s.blocks, Owner: s.owner}
	for _, t := range s.ts {
		r.Per = append(r.Per, t.steps)
	}
	return r
}

// ParsePlan reads "step>thread,step>thread".
func ParsePlan(t string) (plan []Switch) {
	for _, f := range strings.Split(t, ",") {
		if p := strings.IndexByte(f, '>'); p > 0 {
			a, _ := strconv.Atoi(f[:p])
			b, _ := strconv.Atoi(f[p+1:])
			plan = append(plan, Switch{a, b})
		}
	}
	return plan
}

// FormatPlan writes a plan.
func FormatPlan(plan []Switch) string {
	var f []string
	for _, s := range plan {
		f = append(f, strconv.Itoa(s.Step)+">"+strconv.Itoa(s.To))
	}
	return strings.Join(f, ",")
}
