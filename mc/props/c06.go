package props

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif/mc/kit"
)

func init() {
	kit.Register(&kit.Check{
		ID: "C06", Level: "model_checking",
		Bounds: "2 and 3 threads per instance; all schedules with one preemption at any statement for every scenario, with two for the short ones (thorough: more, up to five, cheapest first, as far as the time allows; the evidence lists the bound of each scenario), with every thread beginning; first uses of package-level instances in fresh processes; happens-before race detection of every scenario in its own process",
		Assumptions: []string{
			"interleavings are explored at statement granularity in sequentially consistent order; what a weaker order adds needs a data race, which the race detector's happens-before analysis of the same programs looks for",
			"DebugTrace's construction is documented as not thread safe and happens before the threads start",
		},
		Run: run06,
	})
}

type stat06 struct {
	Scenario  string
	Threads   int
	Points    int
	Schedules int64
	Steps     int64
	Blocked   int64
	From      int
	Bound     int
	Fresh     bool
	Complete  bool
}

type viol06 struct {
	Scenario string
	First    int
	Plan     string
	Fresh    bool
	Msg      string
}

// run runs a program with a time limit and without the address space limit, which
// the race detector cannot live with.
func cmd06(limit time.Duration, env []string, arg ...string) (out []byte, err error, slow bool) {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, "/bin/sh", append([]string{"-c", `ulimit -S -v unlimited; exec "$@"`, "sh"}, arg...)...)
	cmd.Env = append(os.Environ(), env...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	cmd.WaitDelay = 5 * time.Second
	var b, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &e
	err = cmd.Run()
	if err != nil {
		return append(b.Bytes(), e.Bytes()...), err, ctx.Err() != nil
	}
	return b.Bytes(), nil, false
}

func killed06(err error) bool {
	x, ok := err.(*exec.ExitError)
	if !ok {
		return true // could not be started
	}
	ws := x.Sys().(syscall.WaitStatus)
	return ws.Signaled() && ws.Signal() == syscall.SIGKILL
}

func fatal06(what string, out []byte, err error) {
	fmt.Fprintf(os.Stderr, "%s: %v\n%s\n", what, err, out)
	os.Exit(2)
}

func run06(r *kit.Run) {
	only := ""
	if p := strings.LastIndex(r.Only, "#"); p >= 0 {
		only = r.Only[:p]
	}
	scratch := os.Getenv("MC_SCRATCH")
	if scratch == "" {
		d, err := os.MkdirTemp("", "mc06")
		if err != nil {
			fatal06("scratch", nil, err)
		}
		defer os.RemoveAll(d)
		scratch = d
	}
	dir := filepath.Join(scratch, "woven")
	os.MkdirAll(dir, 0o755)
	build := 600 * time.Second
	root, err, _ := cmd06(build, nil, "go", "list", "-m", "-f", "{{.Dir}}", "github.com/shellyln/takenoco")
	if err != nil {
		fatal06("go list", root, err)
	}
	exe, race := filepath.Join(scratch, "conc"), filepath.Join(scratch, "conc-race")
	t0 := time.Now()

	var wg sync.WaitGroup
	var raceOut []byte
	var raceErr error
	wg.Add(1)
	go func() {
		defer wg.Done()
		raceOut, raceErr, _ = cmd06(build, []string{"CGO_ENABLED=1"}, "go", "build", "-race", "-o", race, "./cmd/conc")
	}()
	points := "0"
	woven := false
	if out, err, _ := cmd06(build, nil, "go", "run", "./cmd/weave", "-root", strings.TrimSpace(string(root)), "-out", dir); err == nil {
		points = strings.TrimSpace(string(out))
		_, err, _ = cmd06(build, nil, "go", "build", "-overlay", filepath.Join(dir, "overlay.json"), "-o", exe, "./cmd/conc")
		woven = err == nil
	}
	if !woven {
		// the tree uses something the weaver cannot handle: only the programs' own points are left
		if out, err, _ := cmd06(build, nil, "go", "build", "-o", exe, "./cmd/conc"); err != nil {
			fatal06("building the programs", out, err)
		}
		r.Partial()
	}
	wg.Wait()
	if raceErr != nil {
		fatal06("building the programs with the race detector", raceOut, raceErr)
	}
	r.Note("scheduling_points_in_source", points)
	r.Note("woven", woven)
	buildTime := time.Since(t0)

	// what every thread does alone
	t1 := time.Now()
	out, err, _ := cmd06(60*time.Second, nil, exe, "-mode", "list")
	var list []stat06
	if err == nil {
		err = json.Unmarshal(out, &list)
	}
	if err != nil {
		r.Violate("list", "making the scenarios' parsers", fmt.Sprintf("%v\n%s", err, out))
	}
	want := map[string][]string{}
	type job struct {
		s stat06
		t int
	}
	var jobs []job
	for _, s := range list {
		want[s.Scenario] = make([]string, s.Threads)
		for t := 0; t < s.Threads; t++ {
			jobs = append(jobs, job{s, t})
		}
	}
	bad := map[string]string{}
	var mu sync.Mutex
	parallel(len(jobs), func(i int) {
		j := jobs[i]
		for try := 0; try < 3; try++ {
			out, err, _ := cmd06(60*time.Second, nil, exe, "-mode", "alone", "-scenario", j.s.Scenario, "-thread", fmt.Sprint(j.t))
			mu.Lock()
			if err != nil {
				bad[j.s.Scenario] = fmt.Sprintf("thread %d alone: %v\n%.2000s", j.t, err, out)
				mu.Unlock()
				continue
			}
			delete(bad, j.s.Scenario)
			want[j.s.Scenario][j.t] = string(out)
			mu.Unlock()
			r.Saw(string(out))
			break
		}
	})
	for s, m := range bad {
		// not this property's business: a thread that does not even end alone
		fmt.Printf("note: scenario %s left out: %s\n", s, m)
		r.Partial()
		delete(want, s)
	}
	r.Note("scenarios_left_out", len(bad))
	js, _ := json.Marshal(want)
	expect := filepath.Join(scratch, "expect.json")
	os.WriteFile(expect, js, 0o644)
	r.Count("alone", int64(len(jobs)), int64(len(jobs)), 0, 0, 0, true, time.Since(t1))

	// all schedules within the bounds, in 8 processes
	const shards = 8
	budget := 300
	if r.Thorough {
		budget = 560
	}
	t2 := time.Now()
	type rep struct {
		Violation *viol06
		Stats     []stat06
	}
	reps := make([]rep, shards)
	fails := make([]string, shards)
	parallel(shards, func(i int) {
		arg := []string{exe, "-mode", "explore", "-expect", expect, "-shard", fmt.Sprint(i), "-of", fmt.Sprint(shards), "-budget", fmt.Sprint(budget)}
		if r.Thorough {
			arg = append(arg, "-thorough")
		}
		if only != "" {
			arg = append(arg, "-scenario", only)
		}
		for try := 0; try < 2; try++ {
			out, err, slow := cmd06(time.Duration(budget+100)*time.Second, nil, arg...)
			if err == nil {
				err = json.Unmarshal(out, &reps[i])
			}
			if err == nil {
				fails[i] = ""
				return
			}
			fails[i] = fmt.Sprintf("%v\n%.4000s", err, out)
			if !slow && !killed06(err) {
				return
			}
			if slow {
				fails[i] = "an execution does not end\n" + fails[i]
				return
			}
		}
	})
	total := map[string]*stat06{}
	var order []string
	var first *viol06
	for i, p := range reps {
		if fails[i] != "" {
			r.Violate("explore", fmt.Sprintf("shard %d of the schedules", i), fails[i])
		}
		if p.Violation != nil && first == nil {
			first = p.Violation
		}
		for _, s := range p.Stats {
			k := fmt.Sprint(s.Scenario, s.Fresh, s.From)
			q := total[k]
			if q == nil {
				c := s
				total[k] = &c
				order = append(order, k)
				continue
			}
			q.Schedules += s.Schedules
			q.Steps += s.Steps
			q.Blocked += s.Blocked
			q.Complete = q.Complete && s.Complete
		}
	}
	var detail []string
	for _, k := range order {
		s := total[k]
		name := s.Scenario
		if s.Fresh {
			name += " (first use)"
		}
		if s.From > 0 {
			name += fmt.Sprintf(" (%d preemptions)", s.Bound)
		}
		detail = append(detail, fmt.Sprintf("%s: %d threads, %d points, bound %d, %d schedules, %d steps, %d blocked", name, s.Threads, s.Points, s.Bound, s.Schedules, s.Steps, s.Blocked))
		// a schedule is a state of the tree of scheduling decisions; its steps are transitions
		r.Count(name, s.Schedules, s.Schedules, s.Schedules, s.Schedules, s.Steps, s.Complete, 0)
		r.Sample(fmt.Sprintf("%s: threads alone give %q; one preemption at any of %d points gives the same", name, want[s.Scenario], s.Points))
	}
	r.Note("schedules", detail)
	explore := time.Since(t2)
	if first != nil {
		// the same schedule again, in processes of their own
		again := 0
		for i := 0; i < 5; i++ {
			out, err, _ := cmd06(100*time.Second, nil, exe, "-mode", "one", "-scenario", first.Scenario, "-first", fmt.Sprint(first.First), "-plan", first.Plan, "-expect", expect)
			var o struct{ Msg string }
			if err != nil || json.Unmarshal(out, &o) != nil || o.Msg != "" {
				again++
			}
		}
		r.Violate(first.Scenario, fmt.Sprintf("scenario %s (mc/conc/conc.go), thread %d begins, preemptions (point>thread) %q", first.Scenario, first.First, first.Plan),
			fmt.Sprintf("%s\n  the schedule alone in a fresh process fails %d/5 times", first.Msg, again))
	}

	// unsynchronised accesses, free running
	t3 := time.Now()
	rounds := 25
	if r.Thorough {
		rounds = 400
	}
	msgs := make([]string, len(list))
	parallel(len(list), func(i int) {
		s := list[i].Scenario
		if _, ok := want[s]; !ok || only != "" && only != s {
			return
		}
		for try := 0; try < 2; try++ {
			out, err, slow := cmd06(200*time.Second, []string{"GORACE=halt_on_error=1 exitcode=66"}, race, "-mode", "race", "-scenario", s, "-expect", expect, "-rounds", fmt.Sprint(rounds))
			if err == nil {
				return
			}
			if slow {
				msgs[i] = fmt.Sprintf("the threads do not end\n%.4000s", out)
				return
			}
			if killed06(err) {
				msgs[i] = ""
				continue
			}
			msgs[i] = fmt.Sprintf("%v\n%.6000s", err, out)
			return
		}
		r.Partial()
	})
	n := int64(len(list))
	r.Count("race detector", n, n*int64(rounds), 0, 0, 0, true, time.Since(t3))
	r.Note("seconds", fmt.Sprintf("build %.1f, alone %.1f, schedules %.1f, race detector %.1f", buildTime.Seconds(), t2.Sub(t1).Seconds(), explore.Seconds(), time.Since(t3).Seconds()))
	for i, m := range msgs {
		if m != "" {
			r.Violate(list[i].Scenario, fmt.Sprintf("scenario %s (mc/conc/conc.go) under the race detector", list[i].Scenario), m)
		}
	}
}

// parallel runs f for 0..n-1, eight at a time.
func parallel(n int, f func(i int)) {
	sem := make(chan struct{}, 8)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		i := i
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			f(i)
			<-sem
		}()
	}
	wg.Wait()
}
