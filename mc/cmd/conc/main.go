// Command conc explores interleavings of threads that share a parser instance.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"runtime/debug"
	"sort"
	"sync"
	"time"

	"verif/mc/conc"
	"verif/mc/vsched"
)

type expect map[string][]string // scenario -> outcome of each thread alone

type violation struct {
	Scenario string
	First    int
	Plan     string
	Fresh    bool
	Msg      string
}

type stat struct {
	Scenario  string
	Threads   int
	Points    int // scheduling points of a run without preemptions
	Schedules int
	Steps     int
	Blocked   int
	From      int // preemptions of the schedules counted here: From..Bound
	Bound     int
	Fresh     bool
	Complete  bool
}

type report struct {
	Violation *violation
	Stats     []stat
}

func find(name string) conc.Scenario {
	for _, s := range conc.Scenarios() {
		if s.Name == name {
			return s
		}
	}
	fmt.Fprintln(os.Stderr, "no scenario", name)
	os.Exit(2)
	panic(0)
}

// execute runs a scenario once under a plan and compares every thread's outcome.
func execute(s conc.Scenario, first int, plan []vsched.Switch, want []string) (vsched.Result, string) {
	ts := s.Make()
	outs := make([]func() string, len(ts))
	now := make([]string, len(ts))
	var bodies []func()
	for i := range ts {
		i := i
		bodies = append(bodies, func() {
			outs[i] = conc.Guard(ts[i])
		})
	}
	res := vsched.Run(first, plan, bodies...)
	if res.Deadlock != "" {
		return res, "the threads do not end\n" + res.Deadlock
	}
	for i := range ts {
		now[i] = outs[i]()
		if now[i] != want[i] {
			return res, fmt.Sprintf("thread %d\n   got %s\n  alone %s", i, now[i], want[i])
		}
	}
	return res, ""
}

type explorer struct {
	want         expect
	shard, of    int
	exe          string
	thorough     bool
	rep          report
	deadline     time.Time
	count        int
	from         int // schedules with at most that many preemptions were explored before
	expectedFile string
}

func (e *explorer) fail(s conc.Scenario, first int, plan []vsched.Switch, fresh bool, msg string) {
	if e.rep.Violation == nil {
		e.rep.Violation = &violation{s.Name, first, vsched.FormatPlan(plan), fresh, msg}
	}
}

func (e *explorer) dfs(s conc.Scenario, first int, plan []vsched.Switch, bound int, st *stat, n int) {
	if e.rep.Violation != nil || !st.Complete {
		return
	}
	if time.Now().After(e.deadline) {
		st.Complete = false
		return
	}
	mine := true
	if len(plan) == 0 {
		mine = e.shard == 0
	}
	res, msg := execute(s, first, plan, e.want[s.Name])
	if mine && len(plan) > e.from {
		st.Schedules++
		st.Steps += res.Steps
		st.Blocked += res.Blocks
	}
	if msg != "" {
		e.fail(s, first, plan, false, msg)
		return
	}
	if len(plan) == 0 && first == 0 {
		st.Points = res.Steps
	}
	if res.Done < len(plan) || len(plan) == bound {
		return
	}
	from := 0
	if len(plan) > 0 {
		from = plan[len(plan)-1].Step + 1
	}
	for k := from; k < res.Steps; k++ {
		for to := 0; to < n; to++ {
			if k < len(res.Owner) && int(res.Owner[k]) == to {
				continue
			}
			if len(plan) == 0 {
				e.count++
				if e.count%e.of != e.shard {
					continue
				}
			}
			q := append(append([]vsched.Switch{}, plan...), vsched.Switch{Step: k, To: to})
			e.dfs(s, first, q, bound, st, n)
		}
	}
}

// explore runs every schedule with more than from and at most bound preemptions.
func (e *explorer) explore(s conc.Scenario, from, bound int) stat {
	n := len(s.Make())
	st := stat{Scenario: s.Name, Threads: n, Bound: bound, From: from + 1, Complete: true}
	e.from = from
	for first := 0; first < n; first++ {
		e.dfs(s, first, nil, bound, &st, n)
	}
	e.rep.Stats = append(e.rep.Stats, st)
	return st
}

// deeper raises the bounds, cheapest first, until the time is used up.
func (e *explorer) deeper(all []conc.Scenario, points map[string]int, reached map[string]int) {
	type job struct {
		s    conc.Scenario
		k    int
		cost float64
	}
	var jobs []job
	for _, s := range all {
		n := float64(len(s.Make()))
		p := float64(points[s.Name])
		for k := reached[s.Name] + 1; k <= 5; k++ {
			c := n * p
			for i := 1; i <= k; i++ {
				c *= p * (n - 1) / float64(i)
			}
			if c < 3e10 {
				jobs = append(jobs, job{s, k, c})
			}
		}
	}
	sort.SliceStable(jobs, func(i, j int) bool { return jobs[i].cost < jobs[j].cost })
	for _, j := range jobs {
		if e.rep.Violation == nil && time.Now().Before(e.deadline) {
			e.explore(j.s, j.k-1, j.k)
		}
	}
}

// fresh explores the first use of package-level instances, one process per schedule.
func (e *explorer) fresh(s conc.Scenario) {
	n := len(s.Make())
	st := stat{Scenario: s.Name, Threads: n, Bound: 1, Fresh: true, Complete: true}
	run := func(first int, plan []vsched.Switch) one {
		b, err := exec.Command(e.exe, "-mode", "one", "-scenario", s.Name, "-first", fmt.Sprint(first), "-plan", vsched.FormatPlan(plan), "-expect", e.expectedFile).CombinedOutput()
		var o one
		if err != nil || json.Unmarshal(b, &o) != nil {
			o.Msg = fmt.Sprintf("process: %v: %s", err, b)
		}
		st.Schedules++
		st.Steps += o.Res.Steps
		st.Blocked += o.Res.Blocks
		if o.Msg != "" {
			e.fail(s, first, plan, true, o.Msg)
		}
		return o
	}
	for first := 0; first < n; first++ {
		o := run(first, nil)
		if first == 0 {
			st.Points = o.Res.Steps
		}
		// the first thread's own points, until it ends
		limit := 0
		if first < len(o.Res.Per) {
			limit = o.Res.Per[first]
		}
		step := 1
		if !e.thorough {
			// every point of the beginning, where the instance is used first, then every 7th
			step = 7
		}
		for k := 0; k < limit; k++ {
			if k > 40 && k%step != 0 {
				continue
			}
			for to := 0; to < n; to++ {
				e.count++
				if to == first || e.count%e.of != e.shard || e.rep.Violation != nil {
					continue
				}
				if time.Now().After(e.deadline) {
					st.Complete = false
					continue
				}
				run(first, []vsched.Switch{{Step: k, To: to}})
			}
		}
	}
	e.rep.Stats = append(e.rep.Stats, st)
}

type one struct {
	Res vsched.Result
	Msg string
}

func main() {
	mode := flag.String("mode", "explore", "explore, one, alone or race")
	scenario := flag.String("scenario", "", "scenario")
	thread := flag.Int("thread", 0, "thread")
	first := flag.Int("first", 0, "thread that begins")
	plan := flag.String("plan", "", "preemptions")
	expected := flag.String("expect", "", "outcomes of the threads alone")
	shard := flag.Int("shard", 0, "shard")
	of := flag.Int("of", 1, "shards")
	thorough := flag.Bool("thorough", false, "deeper bounds")
	rounds := flag.Int("rounds", 30, "rounds of the race mode")
	budget := flag.Int("budget", 300, "seconds")
	flag.Parse()
	debug.SetGCPercent(400)
	want := expect{}
	if *expected != "" {
		b, err := os.ReadFile(*expected)
		if err == nil {
			err = json.Unmarshal(b, &want)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	switch *mode {
	case "list":
		var l []stat
		for _, s := range conc.Scenarios() {
			l = append(l, stat{Scenario: s.Name, Threads: len(s.Make())})
		}
		json.NewEncoder(os.Stdout).Encode(l)
	case "alone":
		s := find(*scenario)
		fmt.Print(conc.Guard(s.Make()[*thread])())
	case "one":
		s := find(*scenario)
		var o one
		o.Res, o.Msg = execute(s, *first, vsched.ParsePlan(*plan), want[s.Name])
		json.NewEncoder(os.Stdout).Encode(o)
	case "race":
		s := find(*scenario)
		for r := 0; r < *rounds; r++ {
			ts := s.Make()
			outs := make([][]func() string, 3)
			var wg sync.WaitGroup
			start := make(chan struct{})
			for c := range outs {
				outs[c] = make([]func() string, len(ts))
				for i := range ts {
					c, i := c, i
					wg.Add(1)
					go func() {
						defer wg.Done()
						<-start
						outs[c][i] = conc.Guard(ts[i])
					}()
				}
			}
			close(start)
			wg.Wait()
			for c := range outs {
				for i := range ts {
					if got := outs[c][i](); got != want[s.Name][i] {
						fmt.Printf("thread %d\n   got %s\n  alone %s\n", i, got, want[s.Name][i])
						os.Exit(3)
					}
				}
			}
		}
	case "explore":
		exe, _ := os.Executable()
		e := &explorer{want: want, shard: *shard, of: *of, exe: exe, thorough: *thorough, deadline: time.Now().Add(time.Duration(*budget) * time.Second), expectedFile: *expected}
		var all []conc.Scenario
		points, reached := map[string]int{}, map[string]int{}
		for _, s := range conc.Scenarios() {
			if _, ok := want[s.Name]; !ok || *scenario != "" && s.Name != *scenario || e.rep.Violation != nil {
				continue
			}
			all = append(all, s)
			if s.Global {
				e.fresh(s)
			}
			if e.rep.Violation == nil {
				probe, _ := execute(s, 0, nil, want[s.Name])
				bound := 1
				if len(s.Make()) == 2 && probe.Steps <= 260 {
					bound = 2
				}
				e.explore(s, -1, bound)
				points[s.Name], reached[s.Name] = probe.Steps, bound
			}
		}
		if e.thorough {
			e.deeper(all, points, reached)
		}
		json.NewEncoder(os.Stdout).Encode(e.rep)
	}
}
