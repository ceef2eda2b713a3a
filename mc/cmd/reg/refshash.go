package main

import (
	"fmt"
	"sync"

	"github.com/skycoin/skycoin/src/cipher"

	"github.com/skycoin/cxo/skyobject/registry"

	"vmc/core"
)

// the hash names a stored object from which the same list can be loaded
func loadable(p *pack, h cipher.SHA256, m []int, deg registry.Degree) string {
	if (h == cipher.SHA256{}) != (len(m) == 0) {
		return fmt.Sprintf("the hash of %v is %s", m, h.Hex())
	}
	if len(m) == 0 {
		return ""
	}
	if _, ok := p.m[h]; !ok {
		return "the hash names nothing stored"
	}
	for f := registry.Flags(0); f < 4; f++ {
		q := *p
		q.flags, q.deg = f, 5
		o := &registry.Refs{Hash: h}
		if n, err := o.Len(&q); err != nil || n != len(m) {
			return fmt.Sprintf("the loaded list has length %d (%v), want %d", n, err, len(m))
		}
		if d, err := o.Degree(&q); err != nil || d != deg {
			return fmt.Sprintf("the loaded list has degree %d (%v), want %d", d, err, deg)
		}
		got, bad := ascend(&q, o)
		if bad != "" || fmt.Sprint(got) != fmt.Sprint(m) {
			return fmt.Sprintf("the loaded list holds %v %s, want %v", got, bad, m)
		}
		for i, x := range m {
			if g, err := o.HashByIndex(&q, i); err != nil || g != hashOf(x) {
				return fmt.Sprintf("element %d of the loaded list is %d (%v), want %d", i, elem(g), err, x)
			}
		}
	}
	return ""
}

func r05(r *core.R) {
	r.Rule("a case is a history of list operations in one mode; the hash after it is loaded as a new list and compared with a plain slice, and hashes of different histories are compared with each other")
	r.Assume("SHA256 has no collisions among the objects made")
	ops := listOps()
	play := func(c listCfg, h []int) (l *list, bad string) {
		if l, bad = c.make(); bad != "" {
			return
		}
		if l.p.flags&registry.LazyUpdating == 0 {
			if bad = loadable(l.p, l.r.Hash, l.m, l.deg); bad != "" {
				return
			}
		}
		for _, x := range h {
			if bad = ops[x].run(l); bad != "" {
				return l, ops[x].name + ": " + bad
			}
			if l.p.flags&registry.LazyUpdating == 0 {
				if bad = loadable(l.p, l.r.Hash, l.m, l.deg); bad != "" {
					return l, "after " + ops[x].name + ": " + bad
				}
			}
		}
		if bad = l.update(); bad != "" {
			return
		}
		if bad = loadable(l.p, l.r.Hash, l.m, l.deg); bad != "" {
			return l, "after Rebuild: " + bad
		}
		was := l.r.Hash
		if bad = l.update(); bad != "" {
			return
		}
		if was != l.r.Hash {
			bad = "a second Rebuild changes the hash"
		}
		return
	}
	run := func(c listCfg) func(h []int) core.Step {
		return func(h []int) core.Step {
			l, bad := play(c, h)
			if bad != "" {
				return core.Step{Bad: bad}
			}
			lc := c
			lc.flags |= registry.LazyUpdating
			z, bad := play(lc, h)
			if bad != "" {
				return core.Step{Bad: "lazy: " + bad}
			}
			if l.r.Hash != z.r.Hash {
				t1, _ := l.r.Tree(l.p, true)
				t2, _ := z.r.Tree(z.p, true)
				return core.Step{Bad: "the hash is another with lazy updating:\n" + t1 + "\n" + t2}
			}
			r.Outcome(l.r.Hash.Hex())
			tree, _ := l.r.Tree(l.p, false)
			return core.Step{Canon: fmt.Sprint(l.m, l.deg, l.r.Hash.Hex(), tree)}
		}
	}
	var eager []listCfg
	for _, c := range listConfigs([]int{0}, []registry.Degree{2, 3}) {
		if c.flags&registry.LazyUpdating == 0 {
			eager = append(eager, c)
		}
	}
	for _, c := range eager {
		r.BFS(c.String(), listNames(ops), r.Pick(3, 4), false, run(c))
	}
	eager = nil
	for _, c := range listConfigs([]int{3, 4, 8, 9}, []registry.Degree{2, 3}) {
		if c.flags&registry.LazyUpdating == 0 {
			eager = append(eager, c)
		}
	}
	for _, c := range eager {
		r.BFS(c.String(), listNames(ops), r.Pick(2, 3), false, run(c))
	}

	// the same content appended in every way
	var mx sync.Mutex
	byHash := map[cipher.SHA256]string{}
	N := r.Pick(6, 8)
	var lists [][]int
	core.Seqs(3, 1, N, func(h []int) bool {
		lists = append(lists, append([]int{}, h...))
		return true
	})
	for _, n := range []int{9, 10, 13, 17, 20} { // longer ones
		var xs []int
		for i := 0; i < n; i++ {
			xs = append(xs, []int{1, 2, 0, 3, 2, 1, 4}[i%7])
		}
		lists = append(lists, xs)
	}
	var total int64
	r.Parallel(len(lists), func(li int) {
		m := lists[li]
		for _, deg := range []registry.Degree{2, 3, 4} {
			var first cipher.SHA256
			var seen bool
			cuts := 1 << (len(m) - 1)
			step := 1
			if len(m) > 6 {
				step = max(1, cuts/61)
			}
			for cut := 0; cut < cuts; cut += step {
				for way := 0; way < 4; way++ {
					for _, f := range []registry.Flags{0, registry.HashTableIndex, registry.LazyUpdating, registry.EntireRefs} {
						var h cipher.SHA256
						var bad string
						what := func() string {
							return fmt.Sprintf("degree %d flags %b %v cut %b way %d", deg, f, m, cut, way)
						}
						p := r.Guard(what, func() { h, bad = appendInChunks(deg, f, m, cut, way) })
						if p != "" {
							bad = p
						}
						if bad == "" && seen && h != first {
							bad = fmt.Sprintf("the hash is %s, in another way of appending %s", h.Hex(), first.Hex())
						}
						if bad != "" {
							r.Violate(what(), bad, nil)
							return
						}
						first, seen = h, true
					}
				}
			}
			for before := 0; before < 4; before++ {
				for after := 0; after < 4; after++ {
					for _, f := range []registry.Flags{0, registry.HashTableIndex, registry.LazyUpdating, registry.EntireRefs} {
						var h cipher.SHA256
						var bad string
						what := func() string {
							return fmt.Sprintf("degree %d flags %b %v, slice of a list with %d before and %d after", deg, f, m, before, after)
						}
						if p := r.Guard(what, func() { h, bad = sliced(deg, f, m, before, after) }); p != "" {
							bad = p
						}
						if bad == "" && h != first {
							bad = fmt.Sprintf("the hash of the slice is %s, of the appended list %s", h.Hex(), first.Hex())
						}
						if bad != "" {
							r.Violate(what(), bad, nil)
							return
						}
					}
				}
			}
			id := fmt.Sprint(deg, m)
			mx.Lock()
			total += int64(cuts/step)*16 + 64
			if o, ok := byHash[first]; ok {
				r.Violate("same hash: "+id, "has the same hash as "+o, nil)
			}
			byHash[first] = id
			mx.Unlock()
		}
	})
	r.Bound("every sequence of up to %d elements over 3 values (and some up to 20), every way to cut it into appended chunks up to length 6 (61 ways above), appended directly, as lists, with reloading and as values, and as a slice of a longer list (up to 3 elements before and after), 4 modes, degrees 2-4: %d", N, total)
	r.States.Add(int64(len(byHash)))
	r.Validated.Store(r.Evaluations.Load())
}

func appendInChunks(deg registry.Degree, f registry.Flags, m []int, cut, way int) (h cipher.SHA256, bad string) {
	p := newElemPack(deg, f)
	r := &registry.Refs{}
	for i := 0; i < len(m); {
		j := i + 1
		for j < len(m) && cut&(1<<(j-1)) == 0 {
			j++
		}
		var err error
		switch way {
		case 0:
			err = r.AppendHashes(p, hashes(m[i:j])...)
		case 1: // as another list
			var o registry.Refs
			q := *p
			q.flags = 0
			q.deg = 2
			if err = o.AppendHashes(&q, hashes(m[i:j])...); err == nil {
				err = r.Append(p, &registry.Refs{Hash: o.Hash})
			}
		case 2: // loaded again before each
			if err = r.Rebuild(p); err == nil {
				r = &registry.Refs{Hash: r.Hash}
				err = r.AppendHashes(p, hashes(m[i:j])...)
			}
		case 3:
			var vs []interface{}
			for _, x := range m[i:j] {
				if x == 0 {
					vs = append(vs, nil)
				} else {
					v := uint64(x)
					vs = append(vs, &v)
				}
			}
			err = r.AppendValues(p, vs...)
		}
		if err != nil {
			return h, err.Error()
		}
		i = j
	}
	was := r.Hash
	if err := r.Rebuild(p); err != nil {
		return h, err.Error()
	}
	if f&registry.LazyUpdating == 0 && was != r.Hash {
		return h, "the hash of an up to date list changes with Rebuild"
	}
	return r.Hash, loadable(p, r.Hash, m, deg)
}

// sliced is the same content as a part of a longer list
func sliced(deg registry.Degree, f registry.Flags, m []int, before, after int) (h cipher.SHA256, bad string) {
	p := newElemPack(deg, f)
	all := append(make([]int, before), m...)
	all = append(all, make([]int, after)...)
	for i := range all {
		if i < before || i >= before+len(m) {
			all[i] = 1 + i%3
		}
	}
	r := &registry.Refs{}
	if err := r.AppendHashes(p, hashes(all)...); err != nil {
		return h, err.Error()
	}
	s, err := r.Slice(p, before, before+len(m))
	if err != nil {
		return h, err.Error()
	}
	was := s.Hash
	if err := s.Rebuild(p); err != nil {
		return h, err.Error()
	}
	if f&registry.LazyUpdating == 0 && was != s.Hash {
		return h, "the hash of an up to date slice changes with Rebuild"
	}
	return s.Hash, loadable(p, s.Hash, m, deg)
}
