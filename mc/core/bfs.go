package core

import (
	"fmt"
	"strings"
	"sync"
)

// A Step is the outcome of executing one history
type Step struct {
	Canon string // canonical form of the reached state; "" prunes
	Key   string // violation key
	Bad   string // violation text, "" if none
}

// BFS explores every history over ops up to depth. run executes a complete
// history (indices into ops) on fresh objects. With dedup, histories reaching
// an already seen canonical state are not extended. Returns completed depth.
func (r *R) BFS(name string, ops []string, depth int, dedup bool, run func(h []int) Step) int {
	return r.BFSFrom(name, ops, [][]int{{}}, depth, dedup, run)
}

// BFSFrom is BFS that starts from given histories
func (r *R) BFSFrom(name string, ops []string, start [][]int, depth int, dedup bool, run func(h []int) Step) int {
	seen := map[string]bool{}
	front := start
	states, trans := 0, 0
	do := func(h []int) Step {
		var s Step
		p := r.Guard(func() string { return name + ": " + Show(ops, h) }, func() { s = run(h) })
		if p != "" {
			s.Key, s.Bad = "", p
		}
		if s.Bad != "" {
			k := s.Key
			if k == "" {
				k = name + ": " + Show(ops, h)
			}
			r.Violate(k, s.Bad, map[string]interface{}{"exploration": name, "history": Show(ops, h)})
			s.Canon = ""
		}
		return s
	}
	for _, h := range front {
		s := do(h)
		if s.Bad != "" {
			return 0
		}
		seen[s.Canon] = true
		states++
	}
	done := 0
	for d := 1; d <= depth && len(front) > 0; d++ {
		n := len(front) * len(ops)
		next := make([][]int, n)
		canon := make([]string, n)
		r.Parallel(n, func(i int) {
			h := append(append(make([]int, 0, d), front[i/len(ops)]...), i%len(ops))
			s := do(h)
			if s.Bad == "" && s.Canon != "" {
				next[i], canon[i] = h, s.Canon
			}
		})
		front = front[:0:0]
		for i := range next {
			if next[i] == nil {
				continue
			}
			trans++
			if dedup {
				if seen[canon[i]] {
					continue
				}
			}
			if !seen[canon[i]] {
				seen[canon[i]] = true
				states++
			}
			front = append(front, next[i])
		}
		if r.Expired() {
			r.Cap(fmt.Sprintf("%s: stopped in depth %d", name, d))
			break
		}
		done = d
	}
	r.States.Add(int64(states))
	r.Transitions.Add(int64(trans))
	r.Bound("%s: every history of up to %d operations over %d operations (dedup=%v): %d states, %d transitions",
		name, done, len(ops), dedup, states, trans)
	if len(front) > 0 {
		r.Sample("%s: %s", name, Show(ops, front[len(front)/2]))
	}
	return done
}

// DFS explores every history over ops up to depth without merging states, in
// parallel over the first two operations.
func (r *R) DFS(name string, ops []string, depth int, run func(h []int) Step) {
	r.BFS(name, ops, depth, false, run)
}

// Show a history
func Show(ops []string, h []int) string {
	var b strings.Builder
	for i, x := range h {
		if i > 0 {
			b.WriteString("; ")
		}
		b.WriteString(ops[x])
	}
	return b.String()
}

// Seqs enumerates all sequences over [0,k) of lengths lo..hi
func Seqs(k, lo, hi int, fn func(h []int) bool) {
	var h []int
	var rec func() bool
	rec = func() bool {
		if len(h) >= lo && !fn(h) {
			return false
		}
		if len(h) == hi {
			return true
		}
		for i := 0; i < k; i++ {
			h = append(h, i)
			if !rec() {
				return false
			}
			h = h[:len(h)-1]
		}
		return true
	}
	rec()
}

// Set of strings, safe for concurrent use
type Set struct {
	mx sync.Mutex
	m  map[string]int
}

// Add reports whether the string is new
func (s *Set) Add(x string) bool {
	s.mx.Lock()
	defer s.mx.Unlock()
	if s.m == nil {
		s.m = map[string]int{}
	}
	s.m[x]++
	return s.m[x] == 1
}

// Len of the set
func (s *Set) Len() int {
	s.mx.Lock()
	defer s.mx.Unlock()
	return len(s.m)
}
