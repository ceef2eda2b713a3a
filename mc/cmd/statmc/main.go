// Check S02: rolling averages under concurrent use, every schedule within a
// deviation bound, statement by statement, with data race detection.
package main

import (
	"fmt"
	"math"
	"time"

	"github.com/skycoin/cxo/skyobject/statutil"

	"vmc/core"
	"vmc/vsched"
)

func main() {
	core.Main(map[string]core.Check{
		"S02": {Level: "model_checking", Run: s02, Sharded: true, Quick: 100 * time.Second},
	})
}

// op is Add(x), or Value() for x == read, or AddStartTime for x == start
const (
	read  = -1
	start = -2
)

type ev struct {
	x         float64
	got       float64
	call, ret int
}

func s02(r *core.R) {
	r.Rule("a case is one schedule of a small concurrent program over a rolling average; the observed results must be those of some sequential order of the calls that respects real time (linearizability), and no two accesses to a variable may be unordered")
	r.Assume("statements of package statutil are the unit of interleaving; reordering inside a statement is covered by the data race detection")
	type prog struct {
		n    int
		init []float64
		thr  [][]float64
	}
	progs := []prog{
		{2, nil, [][]float64{{10}, {100}}},
		{1, nil, [][]float64{{10, read}, {100}}},
		{2, []float64{6}, [][]float64{{10, 20}, {100}}},
		{2, []float64{6, 8}, [][]float64{{10}, {read, read}}},
		{3, []float64{6, 8, 1}, [][]float64{{10, read}, {100, read}}},
		{2, []float64{6}, [][]float64{{10}, {100}, {read}}},
		{3, []float64{6}, [][]float64{{10, read}, {100}, {1000}}},
		{2, nil, [][]float64{{10, 20}, {100, 200}}},
		{4, nil, [][]float64{{10, 20, 30}, {100, 200}}},
	}
	for _, kind := range []string{"Duration", "Float"} {
		for _, p := range progs {
			r.Explore(core.Scenario{
				Name:  fmt.Sprintf("%s window %d start %v threads %v", kind, p.n, p.init, p.thr),
				Bound: r.Pick(4, 8), Secs: time.Duration(r.Pick(5, 80)) * time.Second,
				Opts: vsched.Opts{Race: true, MaxSteps: 20000},
				Setup: func() (func(), func() (string, string, string)) {
					var evs []*ev
					clock := 0
					var final float64
					body := func() {
						var add func(float64) float64
						var val func() float64
						if kind == "Duration" {
							d := statutil.NewDuration(p.n)
							add = func(x float64) float64 { return float64(d.Add(time.Duration(x))) }
							val = func() float64 { return float64(d.Value()) }
						} else {
							f := statutil.NewFloat(p.n)
							add, val = f.Add, f.Value
						}
						for _, x := range p.init {
							add(x)
						}
						left := len(p.thr)
						for _, ops := range p.thr {
							vsched.Go(func() {
								for _, x := range ops {
									e := &ev{x: x, call: clock}
									clock++
									if x == read {
										e.got = val()
									} else {
										e.got = add(x)
									}
									e.ret = clock
									clock++
									evs = append(evs, e)
								}
								left--
							})
						}
						vsched.Block("join", func() bool { return left == 0 })
						e := &ev{x: read, call: clock, ret: clock + 1}
						e.got = val()
						final = e.got
						evs = append(evs, e)
					}
					check := func() (string, string, string) {
						obs := fmt.Sprint(final)
						for _, e := range evs {
							obs += fmt.Sprint(";", e.x, e.got)
						}
						if !linear(evs, p.init, p.n, kind == "Duration") {
							s := ""
							for _, e := range evs {
								s += fmt.Sprintf(" [%d,%d] %s -> %v", e.call, e.ret, name(e.x), e.got)
							}
							return "not linearizable", "no sequential order of the calls explains the results:" + s, obs
						}
						return "", "", obs
					}
					return body, check
				},
			})
		}
	}
}

func name(x float64) string {
	if x == read {
		return "Value()"
	}
	return fmt.Sprintf("Add(%v)", x)
}

func linear(evs []*ev, state []float64, n int, dur bool) bool {
	if len(evs) == 0 {
		return true
	}
	for i, e := range evs {
		first := true
		for j, o := range evs {
			if j != i && o.ret < e.call {
				first = false
			}
		}
		if !first {
			continue
		}
		st := state
		if e.x != read {
			st = append(append([]float64(nil), state...), e.x)
		}
		w := st
		if len(w) > n {
			w = w[len(w)-n:]
		}
		m := 0.0
		for _, x := range w {
			m += x
		}
		if len(w) > 0 {
			m /= float64(len(w))
		}
		d := math.Abs(m - e.got)
		if d > 1e-6 && (!dur || d > 1) {
			continue
		}
		rest := append(append([]*ev(nil), evs[:i]...), evs[i+1:]...)
		if linear(rest, st, n, dur) {
			return true
		}
	}
	return false
}
