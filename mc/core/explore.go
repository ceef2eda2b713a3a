package core

import (
	"fmt"
	"os"
	"runtime/debug"
	"time"

	"vmc/vsched"
)

// Scenario is one concurrent program whose schedules are enumerated
type Scenario struct {
	Name  string
	Bound int           // largest number of deviations from the default schedule
	Secs  time.Duration // time for this scenario
	Opts  vsched.Opts
	// Setup makes a fresh body; check is called after the execution ended
	// without a finding of the scheduler, and returns what is wrong with the
	// observed behaviour. obs describes the observed outcome.
	Setup func() (body func(), check func() (key, bad, obs string))
	// Expect allows an outcome of the scheduler (a deadlock, say)
	Expect func(o *vsched.Outcome) bool
}

// Explore enumerates the schedules of a scenario: first the default schedule,
// then every schedule with one deviation from it, then two, and so on. The
// schedules are divided over the shards by their first deviation.
func (r *R) Explore(sc Scenario) {
	end := time.Now().Add(sc.Secs)
	if end.After(r.Deadline) {
		end = r.Deadline
	}
	if dl := os.Getenv("VMC_NOTIME"); dl != "" {
		end = time.Now().Add(time.Hour)
	}
	b := Bound{Name: sc.Name, Done: -1, Want: sc.Bound}
	run := func(devs []vsched.Dev) *vsched.Outcome {
		var body func()
		var check func() (string, string, string)
		body, check = sc.Setup()
		g := guard{what: func() string { return fmt.Sprintf("%s: schedule %v", sc.Name, devs) }, since: time.Now()}
		id := guards.add(&g)
		o := vsched.Run(body, devs, sc.Opts)
		guards.del(id)
		r.Evaluations.Add(1)
		r.Transitions.Add(int64(o.Steps))
		r.Validated.Add(1)
		b.Execs++
		b.MaxAlts = max(b.MaxAlts, len(o.Alts))
		b.MaxSteps = max(b.MaxSteps, o.Steps)
		if o.Diverged {
			r.Cap(sc.Name + ": a schedule could not be replayed")
		}
		rep := map[string]interface{}{"scenario": sc.Name, "deviations": devs}
		switch {
		case o.Kind != "" && sc.Expect != nil && sc.Expect(o):
			r.Outcome(sc.Name + o.Kind)
		case o.Kind != "":
			rep["stack"] = o.Stack
			r.Violate(fmt.Sprintf("%s: %s: %s", sc.Name, o.Kind, PanicKey(o.Text)),
				fmt.Sprintf("schedule %v ends in a %s: %s\n%s", devs, o.Kind, o.Text, trim(o.Stack)), rep)
		default:
			k, bad, obs := check()
			if bad != "" {
				r.Violate(fmt.Sprintf("%s: %s", sc.Name, k), fmt.Sprintf("schedule %v: %s", devs, bad), rep)
			}
			r.Outcome(sc.Name + obs)
		}
		return o
	}
	gc := debug.SetGCPercent(400)
	defer debug.SetGCPercent(gc)
	stop := func() bool { return time.Now().After(end) || r.Full() }
	var rec func(devs []vsched.Dev, left int) bool
	rec = func(devs []vsched.Dev, left int) bool {
		o := run(devs)
		if left == 0 {
			return !stop()
		}
		from := 0
		if len(devs) > 0 {
			from = devs[len(devs)-1].Pos + 1
		}
		n := 0
		for pos := from; pos < len(o.Alts); pos++ {
			for alt := 1; alt < int(o.Alts[pos]); alt++ {
				n++
				if len(devs) == 0 && r.Shards > 1 && n%r.Shards != r.Shard {
					continue
				}
				d := append(append([]vsched.Dev(nil), devs...), vsched.Dev{Pos: pos, Alt: alt})
				if !rec(d, left-1) {
					return false
				}
			}
		}
		return true
	}
	for d := 0; d <= sc.Bound; d++ {
		if !rec(nil, d) {
			r.Cap(fmt.Sprintf("%s: time, within %d deviations", sc.Name, d))
			break
		}
		b.Done = d
	}
	r.States.Add(b.Execs)
	r.mx.Lock()
	r.sbounds = append(r.sbounds, b)
	r.mx.Unlock()
	if r.Shard == 0 {
		r.Sample("%s: default schedule with %d choice points", sc.Name, b.MaxAlts)
	}
}
