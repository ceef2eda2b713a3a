// Checks S01 and S03: rolling averages, amount and volume strings.
package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/skycoin/cxo/skyobject/statutil"

	"vmc/core"
)

func main() {
	core.Main(map[string]core.Check{
		"S01": {Level: "model_checking", Run: s01},
		"S03": {Level: "model_checking", Run: s03},
	})
}

// mean of the last n of the samples
func mean(xs []float64, n int) float64 {
	if len(xs) > n {
		xs = xs[len(xs)-n:]
	}
	if len(xs) == 0 {
		return 0
	}
	s := 0.0
	for _, x := range xs {
		s += x
	}
	return s / float64(len(xs))
}

func near(a, b, scale float64) bool {
	return math.Abs(a-b) <= 1e-9*math.Max(scale, 1e-300) || a == b || math.IsNaN(a) && math.IsNaN(b)
}

func s01(r *core.R) {
	r.Rule("a case is a sequence of samples fed to a fresh average of window n; after every sample the returned and the read value are compared with the mean of the last min(n,count) samples")
	r.Assume("results are compared with relative tolerance 1e-9 of the largest sample of the window (plus 1ns for durations)")
	one := func(kind string, n int, xs []float64) string {
		return oneAverage(r, kind, n, xs)
	}
	// every sequence over an alphabet
	type expl struct {
		alpha []float64
		depth int
		nmax  int
	}
	ex := []expl{
		{[]float64{0, 7, 30, -12}, r.Pick(7, 9), 4},
		{[]float64{10, 1000003}, r.Pick(12, 16), 6},
		{[]float64{1, 1e15, -1e15}, r.Pick(8, 11), 3},
		{[]float64{3600e9, 1, 0}, r.Pick(8, 11), 5},
		{[]float64{1 << 62, -(1 << 62), 1 << 61, 5}, r.Pick(6, 8), 3},
		{[]float64{1 << 60, 3, -1, 0}, r.Pick(7, 9), 4},
		{[]float64{math.Inf(1), math.NaN(), 3, 0}, r.Pick(6, 8), 3}, // floats only
		{[]float64{1e300, 1e-300, -1}, r.Pick(7, 9), 3},             // floats only
		{[]float64{0.1, 0.25, -3.75, 1e-12}, r.Pick(6, 8), 3},       // durations: truncated
	}
	for _, e := range ex {
		for _, kind := range []string{"Duration", "Float"} {
			if kind == "Duration" && (math.IsInf(e.alpha[0], 0) || e.alpha[0] == 1e300) {
				continue
			}
			for n := 1; n <= e.nmax; n++ {
				names := make([]string, len(e.alpha))
				for i := range names {
					names[i] = fmt.Sprint(e.alpha[i])
				}
				// the whole tree is covered by its leaves: every prefix is checked on the way
				total := 1
				for i := 0; i < e.depth; i++ {
					total *= len(e.alpha)
				}
				r.Parallel(64, func(sh int) {
					xs := make([]float64, e.depth)
					for k := sh; k < total; k += 64 {
						for i, y := 0, k; i < e.depth; i, y = i+1, y/len(e.alpha) {
							xs[i] = e.alpha[y%len(e.alpha)]
						}
						var bad string
						p := core.Catch(func() { bad = one(kind, n, xs) })
						r.Evaluations.Add(1)
						r.Transitions.Add(int64(e.depth))
						r.Validated.Add(1)
						if p != "" {
							bad = p
						}
						if bad != "" {
							r.Violate(fmt.Sprintf("%s window %d: %v", kind, n, xs), bad, map[string]interface{}{"kind": kind, "window": n, "samples": fmt.Sprint(xs)})
						}
						if r.Full() {
							return
						}
					}
				})
				r.States.Add(int64(total))
				r.Bound("%s, window %d: every sequence of %d samples over %v", kind, n, e.depth, e.alpha)
			}
		}
	}
	// long histories: periodic sequences, all periods and windows
	per := r.Pick(6, 9)
	r.Parallel(40, func(n0 int) {
		n := n0 + 1
		core.Seqs(3, 1, per, func(h []int) bool {
			xs := make([]float64, 3*n+25)
			for i := range xs {
				xs[i] = []float64{5, 117, 2000000}[h[i%len(h)]]
			}
			for _, kind := range []string{"Duration", "Float"} {
				var bad string
				p := core.Catch(func() { bad = one(kind, n, xs) })
				r.Evaluations.Add(1)
				r.Transitions.Add(int64(len(xs)))
				r.Validated.Add(1)
				if p != "" {
					bad = p
				}
				if bad != "" {
					r.Violate(fmt.Sprintf("%s window %d: period %v", kind, n, h), bad, fmt.Sprint(xs))
				}
			}
			return !r.Full()
		})
	})
	r.Bound("every periodic history of period up to %d over 3 samples, windows 1..40, length 3n+25", per)
	// long histories and large windows, against exact integer sums
	long := r.Pick(70000, 300000)
	wins := []int{1, 2, 3, 5, 7, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000}
	if r.Thorough() {
		wins = append(wins, 4095, 4096, 4097, 70000)
	}
	r.Parallel(len(wins)*2, func(j int) {
		n, dur := wins[j/2], j%2 == 0
		steps := long
		if n > 300 { // cost of one Add may be linear in the window
			steps = 3*n + 5000
		}
		var add func(int64) float64
		if dur {
			d := statutil.NewDuration(n)
			add = func(x int64) float64 { return float64(d.Add(time.Duration(x))) }
		} else {
			f := statutil.NewFloat(n)
			add = func(x int64) float64 { return f.Add(float64(x)) }
		}
		ring := make([]int64, n)
		var sum int64
		for i := 0; i < steps; i++ {
			x := int64(uint64(i)*2654435761%1000003) - 200000
			sum += x - ring[i%n]
			ring[i%n] = x
			c := min(i+1, n)
			got, want := add(x), float64(sum)/float64(c)
			if math.Abs(got-want) > 1+1e-9*1e6 && dur || math.Abs(got-want) > 1e-9*1e6 && !dur {
				r.Violate(fmt.Sprintf("long history duration=%v window %d", dur, n), fmt.Sprintf("after %d samples: average %v, mean of the last %d is %v", i+1, got, c, want), nil)
				return
			}
		}
		r.Evaluations.Add(1)
		r.Validated.Add(1)
		r.Transitions.Add(int64(steps))
	})
	r.Bound("windows %v: one aperiodic history of %d samples each", wins, long)
	// the start-time variant
	d := statutil.NewDuration(2)
	if v := d.AddStartTime(time.Now().Add(-time.Hour)); v < time.Hour || v > time.Hour+time.Minute || d.Value() != v {
		r.Violate("Duration AddStartTime", fmt.Sprintf("an hour ago gives %v, read %v", v, d.Value()), nil)
	}
	for _, n := range []int{0, -1} {
		for _, f := range []func(){func() { statutil.NewDuration(n) }, func() { statutil.NewFloat(n) }} {
			if core.Catch(f) == "" {
				r.Violate(fmt.Sprint("window ", n), "a window of no samples is accepted", nil)
			}
		}
	}
}

func oneAverage(r *core.R, kind string, n int, xs []float64) string {
	var add func(float64) float64
	var val func() float64
	slack := 0.0
	if kind == "Duration" {
		d := statutil.NewDuration(n)
		ys := make([]float64, len(xs))
		for i := range xs {
			ys[i] = float64(time.Duration(xs[i]))
		}
		xs = ys
		add = func(x float64) float64 { return float64(d.Add(time.Duration(x))) }
		val = func() float64 { return float64(d.Value()) }
		slack = 1.0
	} else {
		f := statutil.NewFloat(n)
		add, val = f.Add, f.Value
	}
	if v := val(); v != 0 {
		return fmt.Sprintf("fresh average reads %v", v)
	}
	for i := range xs {
		a := add(xs[i])
		v := val()
		if a != v && !(math.IsNaN(a) && math.IsNaN(v)) {
			return fmt.Sprintf("after sample %d: added value returned %v, read gives %v", i, a, v)
		}
		w := mean(xs[:i+1], n)
		scale := 0.0
		for _, x := range xs[max(0, i+1-n) : i+1] {
			scale = math.Max(scale, math.Abs(x))
		}
		if !near(a, w, scale) && math.Abs(a-w) > slack {
			return fmt.Sprintf("window %d, samples %v: average %v, mean of the last samples is %v", n, xs[:i+1], a, w)
		}
	}
	r.Outcome(strconv.FormatFloat(val(), 'g', -1, 64))
	return ""
}

// ---- S03

// parse "12.34M[B]" into hundredths and a unit index
func parse(s string, volume bool) (hund int64, unit int, bad string) {
	if volume {
		if !strings.HasSuffix(s, "B") {
			return 0, 0, "no B"
		}
		s = s[:len(s)-1]
	}
	units := "kMGTPEZY"
	if n := len(s); n > 0 {
		if i := strings.IndexByte(units, s[n-1]); i >= 0 {
			unit = i + 1
			s = s[:n-1]
		}
	}
	if s == "" {
		return 0, 0, "no digits"
	}
	ip, fp := s, ""
	if i := strings.IndexByte(s, '.'); i >= 0 {
		ip, fp = s[:i], s[i+1:]
		if fp == "" || len(fp) > 2 || fp[len(fp)-1] == '0' {
			return 0, 0, "untrimmed fraction"
		}
	}
	if ip == "" || (len(ip) > 1 && ip[0] == '0') {
		return 0, 0, "bad integer part"
	}
	for len(fp) < 2 {
		fp += "0"
	}
	for _, c := range ip + fp {
		if c < '0' || c > '9' {
			return 0, 0, "bad digit"
		}
		hund = hund*10 + int64(c-'0')
	}
	return
}

// checkString returns the quantity (in hundredths of one) the text denotes
func checkString(s string, v uint32, volume bool) (q int64, bad string) {
	base := int64(1000)
	if volume {
		base = 1024
	}
	h, unit, bad := parse(s, volume)
	if bad != "" {
		return 0, bad
	}
	// largest unit not exceeding the value
	wu, u := 0, int64(1)
	for u*base <= int64(v) {
		u *= base
		wu++
	}
	if unit != wu {
		return 0, fmt.Sprintf("unit number %d, want %d", unit, wu)
	}
	q = h * u // hundredths
	diff := q - int64(v)*100
	if diff < 0 {
		diff = -diff
	}
	if diff*2 > u+u/1000 {
		return 0, fmt.Sprintf("denotes %d/100", q)
	}
	return
}

func s03(r *core.R) {
	r.Rule("a case is one uint32 value; its text is parsed back and compared with the value, and with the text of the preceding value in the enumeration (monotony)")
	str := func(v uint32, volume bool) string {
		if volume {
			return statutil.Volume(v).String()
		}
		return statutil.Amount(v).String()
	}
	span := func(lo, hi, step uint64, volume bool) {
		var prev int64 = -1
		name := "Amount"
		if volume {
			name = "Volume"
		}
		n := int64(0)
		for x := lo; x <= hi; x += step {
			v := uint32(x)
			var s string
			if p := core.Catch(func() { s = str(v, volume) }); p != "" {
				r.Violate(fmt.Sprint(name, " ", v), p, v)
				return
			}
			q, bad := checkString(s, v, volume)
			if bad == "" && q < prev {
				bad = "denotes less than a smaller number"
			}
			if bad != "" {
				r.Violate(fmt.Sprint(name, " ", v), fmt.Sprintf("%s(%d) prints %q: %s", name, v, s, bad), v)
				return
			}
			prev = q
			n++
		}
		r.Evaluations.Add(n)
		r.States.Add(n)
		r.Transitions.Add(n)
		r.Validated.Add(n)
	}
	var mx sync.Mutex
	_ = &mx
	for _, volume := range []bool{true, false} {
		base := uint64(1000)
		if volume {
			base = 1024
		}
		if r.Thorough() {
			const sh = 4096
			r.Parallel(sh, func(i int) {
				w := uint64(1) << 32 / sh
				lo := uint64(i) * w
				if lo > 0 {
					lo-- // overlap, for monotony
				}
				span(lo, uint64(i+1)*w-1, 1, volume)
			})
			r.Bound("volume=%v: all 2^32 values", volume)
			continue
		}
		small := uint64(1 << 22)
		r.Parallel(64, func(i int) {
			w := small / 64
			lo := uint64(i) * w
			if lo > 0 {
				lo--
			}
			span(lo, uint64(i+1)*w-1, 1, volume)
		})
		r.Bound("volume=%v: all values below %d", volume, small)
		// around every hundredth of every unit
		for u := base; u < 1<<32; u *= base {
			u := u
			top := base * 100
			if m := (uint64(1)<<32 - 1) * 100 / u; top > m {
				top = m
			}
			r.Parallel(64, func(sh int) {
				for k := top * uint64(sh) / 64; k < top*uint64(sh+1)/64; k++ {
					// the value, the halfway point to the next, and neighbours
					for _, c := range []uint64{k * u / 100, (2*k + 1) * u / 200} {
						lo, hi := c, c+2
						if lo > 1 {
							lo -= 2
						}
						if hi > math.MaxUint32 {
							hi = math.MaxUint32
						}
						if lo <= hi {
							span(lo, hi, 1, volume)
						}
					}
				}
			})
			// a lattice over the unit, for monotony over long distances
			span(u, min(u*base-1, math.MaxUint32), u/509+1, volume)
			span(u-3, u+3, 1, volume)
			r.Bound("volume=%v: unit %d: every hundredth and every rounding boundary, each with its neighbours", volume, u)
		}
		span(math.MaxUint32-1000, math.MaxUint32, 1, volume)
		r.Parallel(64, func(i int) { span(uint64(i)<<26, uint64(i+1)<<26-1, 37, volume) })
		r.Bound("volume=%v: every 37th value of the whole range", volume)
		for b := uint64(1); b < 1<<32; b <<= 1 {
			span(b-1, min(b+1, math.MaxUint32), 1, volume)
		}
	}
	for _, v := range []uint32{0, 1, 999, 1000, 1023, 1024, 1048575, 4294967295} {
		r.Sample("%d: amount %q volume %q", v, str(v, false), str(v, true))
		r.Outcome(str(v, false))
	}
}
