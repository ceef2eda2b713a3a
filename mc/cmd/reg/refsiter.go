package main

import (
	"fmt"

	"github.com/skycoin/skycoin/src/cipher"

	"github.com/skycoin/cxo/skyobject/registry"

	"vmc/core"
)

// a change made by the callback of an iteration at index i
type imod struct {
	name string
	run  func(l *list, i int) string
}

func iterMods() (ms []imod) {
	add := func(n string, f func(l *list, i int) string) { ms = append(ms, imod{n, f}) }
	app := func(l *list, xs ...int) string {
		l.m = append(append([]int{}, l.m...), xs...)
		return expErr("AppendHashes", l.r.AppendHashes(l.p, hashes(xs)...), nil)
	}
	add("append 1", func(l *list, i int) string { return app(l, 9) })
	add("append 6", func(l *list, i int) string { return app(l, 9, 8, 7, 9, 8, 7) })
	add("append a list", func(l *list, i int) string {
		var o registry.Refs
		q := *l.p
		q.flags = 0
		if err := o.AppendHashes(&q, hashes([]int{9, 8, 7, 9, 8, 7})...); err != nil {
			return err.Error()
		}
		l.m = append(append([]int{}, l.m...), 9, 8, 7, 9, 8, 7)
		return expErr("Append", l.r.Append(l.p, &o), nil)
	})
	delAt := func(l *list, j int) string {
		if j < 0 || j >= len(l.m) {
			return expErr("DeleteByIndex", l.r.DeleteByIndex(l.p, j), registry.ErrIndexOutOfRange)
		}
		l.m = del(l.m, j)
		return expErr("DeleteByIndex", l.r.DeleteByIndex(l.p, j), nil)
	}
	add("delete this", func(l *list, i int) string { return delAt(l, i) })
	add("delete the next", func(l *list, i int) string { return delAt(l, i+1) })
	add("delete the previous", func(l *list, i int) string { return delAt(l, i-1) })
	add("delete the first three", func(l *list, i int) string {
		for k := 0; k < 3; k++ {
			if bad := delAt(l, 0); bad != "" {
				return bad
			}
		}
		return ""
	})
	add("delete the last three", func(l *list, i int) string {
		for k := 0; k < 3; k++ {
			if bad := delAt(l, len(l.m)-1); bad != "" {
				return bad
			}
		}
		return ""
	})
	add("delete all like this", func(l *list, i int) string {
		if i >= len(l.m) {
			return ""
		}
		x := l.m[i]
		l.m = without(l.m, x)
		return expErr("DeleteByHash", l.r.DeleteByHash(l.p, hashOf(x)), nil)
	})
	for _, d := range []int{0, 1, -1} {
		add(fmt.Sprintf("set at %+d", d), func(l *list, i int) string {
			j := i + d
			err := l.r.SetHashByIndex(l.p, j, hashOf(6))
			if j < 0 || j >= len(l.m) {
				return expErr("SetHashByIndex", err, registry.ErrIndexOutOfRange)
			}
			l.m = append([]int{}, l.m...)
			l.m[j] = 6
			return expErr("SetHashByIndex", err, nil)
		})
	}
	add("other degree", func(l *list, i int) string {
		if l.deg = 2; i%2 == 0 {
			l.deg = 3
		}
		return expErr("SetDegree", l.r.SetDegree(l.p, l.deg), nil)
	})
	add("clear", func(l *list, i int) string {
		l.r.Clear()
		l.m, l.deg = nil, l.p.deg
		return ""
	})
	add("clear, append 4", func(l *list, i int) string {
		l.r.Clear()
		l.m, l.deg = nil, l.p.deg
		return app(l, 8, 9, 8, 7)
	})
	add("reset", func(l *list, i int) string {
		return expErr("Reset", l.r.Reset(), registry.ErrRefsIterating)
	})
	add("rebuild", func(l *list, i int) string {
		return expErr("Rebuild", l.r.Rebuild(l.p), registry.ErrRefsIterating)
	})
	add("slice and reads", func(l *list, i int) string {
		if _, err := l.r.Slice(l.p, 0, len(l.m)); err != nil {
			return err.Error()
		}
		return checkListContent(l.p, l.r, l.m, l.deg)
	})
	return
}

func checkListContent(p *pack, r *registry.Refs, m []int, deg registry.Degree) string {
	n, err := r.Len(p)
	if err != nil || n != len(m) {
		return fmt.Sprintf("Len is %d (%v), want %d", n, err, len(m))
	}
	if g, err := r.Degree(p); err != nil || g != deg {
		return fmt.Sprintf("Degree is %d (%v), want %d", g, err, deg)
	}
	if got, bad := ascend(p, r); bad != "" || fmt.Sprint(got) != fmt.Sprint(m) {
		return fmt.Sprintf("the list holds %v %s, want %v", got, bad, m)
	}
	for i, x := range m {
		if h, err := r.HashByIndex(p, i); err != nil || h != hashOf(x) {
			return fmt.Sprintf("HashByIndex(%d) gives %d (%v), want %d", i, elem(h), err, x)
		}
	}
	return ""
}

// what the callback does at the n-th visit
type action struct {
	at  int
	mod int // index of a modification, -1 stop, -2 error, -3 inner iteration
	in  *iter
}

type iter struct {
	down bool
	from int // -1: the method without index
	acts []action
}

func (it iter) String(ms []imod) string {
	s := "ascend"
	if it.down {
		s = "descend"
	}
	if it.from >= 0 {
		s += fmt.Sprintf(" from %d", it.from)
	}
	for _, a := range it.acts {
		s += fmt.Sprintf(", at visit %d ", a.at)
		switch a.mod {
		case -1:
			s += "stop"
		case -2:
			s += "error"
		case -3:
			s += "{" + a.in.String(ms) + "}"
		default:
			s += ms[a.mod].name
		}
	}
	return s
}

// run an iteration and check every visit
func (it iter) run(l *list, ms []imod, outer *int) (bad string) {
	n := len(l.m)
	from := it.from
	if from < 0 {
		if from = 0; it.down {
			from = n - 1
		}
	}
	step := 1
	if it.down {
		step = -1
	}
	next := from
	visits := 0
	var stopped, failed bool
	cb := func(i int, h cipher.SHA256) error {
		if bad != "" {
			return errTest
		}
		if stopped || failed {
			bad = "called again after it asked to stop"
			return errTest
		}
		if i != next {
			bad = fmt.Sprintf("visit of index %d, want %d", i, next)
			return errTest
		}
		if i < 0 || i >= len(l.m) || hashOf(l.m[i]) != h {
			bad = fmt.Sprintf("visit of %d at %d, the list is %v", elem(h), i, l.m)
			return errTest
		}
		next += step
		visits++
		if *outer++; *outer > 400 {
			bad = "the iteration does not end"
			return errTest
		}
		for _, a := range it.acts {
			if a.at != visits-1 {
				continue
			}
			switch a.mod {
			case -1:
				stopped = true
			case -2:
				failed = true
			case -3:
				if b := a.in.run(l, ms, outer); b != "" {
					bad = "inner iteration: " + b
				}
			default:
				if b := ms[a.mod].run(l, i); b != "" {
					bad = ms[a.mod].name + ": " + b
				}
			}
		}
		switch {
		case bad != "", failed:
			return errTest
		case stopped:
			return registry.ErrStopIteration
		}
		return nil
	}
	var err error
	switch {
	case it.from < 0 && !it.down:
		err = l.r.Ascend(l.p, cb)
	case it.from < 0:
		err = l.r.Descend(l.p, cb)
	case !it.down:
		err = l.r.AscendFrom(l.p, it.from, cb)
	default:
		err = l.r.DescendFrom(l.p, it.from, cb)
	}
	if bad != "" {
		return
	}
	switch {
	case failed:
		return expErr("the iteration", err, errTest)
	case stopped:
		return expErr("the iteration", err, nil)
	case it.from >= n && n > 0 || it.from > 0 && n == 0:
		return expErr("the iteration", err, registry.ErrIndexOutOfRange)
	case n == 0:
		if visits > 0 {
			return "visits in an empty list"
		}
		if it.from == 0 && err == registry.ErrIndexOutOfRange {
			return "" // there is no element 0
		}
		return expErr("the iteration", err, nil)
	case err != nil:
		if it.down && err == registry.ErrIndexOutOfRange && next >= len(l.m) {
			return "" // the list got shorter than the next index
		}
		return "the iteration ended with: " + err.Error()
	}
	if next >= 0 && next < len(l.m) {
		return fmt.Sprintf("the iteration ended before index %d of %v", next, l.m)
	}
	return
}

func r06(r *core.R) {
	r.Rule("a case is a list, an iteration and what its callback does at one or two visits; every visit is compared with a plain slice at that moment")
	r.Assume("an iteration sees elements appended behind it while it runs, as the documentation says")
	ms := iterMods()
	maxN := r.Pick(9, 10)
	degs := []registry.Degree{2, 3}
	var cfgs []listCfg
	for n := 0; n <= maxN; n++ {
		cfgs = append(cfgs, listConfigs([]int{n}, degs)...)
	}
	cfgs = append(cfgs, listConfigs([]int{17}, []registry.Degree{2, 4})...)
	one := func(c listCfg, it iter) bool {
		what := func() string { return c.String() + ": " + it.String(ms) }
		var bad string
		var l *list
		p := r.Guard(what, func() {
			if l, bad = c.make(); bad != "" {
				return
			}
			var total int
			if bad = it.run(l, ms, &total); bad != "" {
				return
			}
			if bad = checkListContent(l.p, l.r, l.m, l.deg); bad != "" {
				bad = "after the iteration: " + bad
				return
			}
			if err := l.r.Rebuild(l.p); err != nil {
				bad = "Rebuild after the iteration: " + err.Error()
				return
			}
			if bad = loadable(l.p, l.r.Hash, l.m, l.deg); bad != "" {
				bad = "after the iteration and Rebuild: " + bad
			}
		})
		if p != "" {
			bad = p
		}
		r.Transitions.Add(1)
		if bad != "" {
			r.Violate(what(), bad, nil)
			return false
		}
		r.Outcome(fmt.Sprint(l.m, l.deg))
		return true
	}
	r.Parallel(len(cfgs), func(ci int) {
		c := cfgs[ci]
		n := len(c.start)
		r.States.Add(1)
		for _, down := range []bool{false, true} {
			for from := -1; from <= n+1; from++ {
				visits := n - max(from, 0)
				if down {
					visits = from + 1
					if from < 0 {
						visits = n
					}
				}
				if !one(c, iter{down, from, nil}) {
					return
				}
				for at := 0; at < visits; at++ {
					for m := -2; m < len(ms); m++ {
						if !one(c, iter{down, from, []action{{at, m, nil}}}) {
							return
						}
						if r.Expired() {
							r.Cap("time")
							return
						}
					}
				}
			}
		}
	})
	r.Bound("lists of 0..%d and 17 elements in every mode, every starting index, both directions, one of %d actions at every visit", maxN, len(ms)+2)
	// two actions, and an iteration inside an iteration
	var small []listCfg
	for _, n := range pickInts(r, []int{1, 3, 5}, []int{1, 2, 3, 4, 5, 7}) {
		small = append(small, listConfigs([]int{n}, degs)...)
	}
	r.Parallel(len(small)*len(ms), func(i int) {
		c, m1 := small[i/len(ms)], i%len(ms)
		n := len(c.start)
		for _, down := range []bool{false, true} {
			for at := 0; at < n; at++ {
				for m2 := -2; m2 < len(ms); m2++ {
					for at2 := at; at2 < n+4; at2++ {
						if !one(c, iter{down, -1, []action{{at, m1, nil}, {at2, m2, nil}}}) {
							return
						}
					}
				}
				for _, down2 := range []bool{false, true} {
					for _, from2 := range []int{-1, 0, n - 1, n / 2} {
						for at2 := 0; at2 < n; at2++ {
							for _, end := range [][]action{nil, {{at2, -1, nil}}, {{at2, -2, nil}}, {{at2 + 1, m1, nil}}} {
								in := &iter{down2, from2, append([]action{{at2, m1, nil}}, end...)}
								if !one(c, iter{down, -1, []action{{at, -3, in}}}) {
									return
								}
							}
						}
					}
					if r.Expired() {
						r.Cap("time")
						return
					}
				}
			}
		}
	})
	r.Bound("short lists in every mode: every two of the actions at every two visits, and inner iterations with an action at every visit that continue, stop, fail or act again")
	r.Validated.Store(r.Evaluations.Load())
}

func pickInts(r *core.R, quick, thorough []int) []int {
	if r.Thorough() {
		return thorough
	}
	return quick
}
