package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/skycoin/skycoin/src/cipher"
	"github.com/skycoin/skycoin/src/cipher/encoder"

	"github.com/skycoin/cxo/skyobject/registry"

	"vmc/core"
)

// elements are small numbers; 0 is the blank hash
func hashOf(x int) (h cipher.SHA256) {
	if x != 0 {
		h = cipher.SumSHA256(valOf(x))
	}
	return
}

func valOf(x int) []byte { return encoder.Serialize(uint64(x)) }

var elemIndex = func() map[cipher.SHA256]int {
	m := map[cipher.SHA256]int{}
	for i := 0; i < 200; i++ {
		m[hashOf(i)] = i
	}
	return m
}()

func elem(h cipher.SHA256) int {
	if i, ok := elemIndex[h]; ok {
		return i
	}
	return -1
}

func newElemPack(deg registry.Degree, flags registry.Flags) *pack {
	p := newPack(deg, flags)
	for i := 1; i < 200; i++ {
		p.m[hashOf(i)] = valOf(i)
	}
	return p
}

func hashes(xs []int) (hs []cipher.SHA256) {
	for _, x := range xs {
		hs = append(hs, hashOf(x))
	}
	return
}

// a list under test with its model
type list struct {
	p    *pack
	r    *registry.Refs
	m    []int
	deg  registry.Degree // degree the list has now
	lazy bool            // hash may be outdated
}

type lop struct {
	name string
	run  func(l *list) string
}

func expErr(what string, err, want error) string {
	if err != want {
		return fmt.Sprintf("%s gives error %v, want %v", what, err, want)
	}
	return ""
}

func del(m []int, i int) []int { return append(append([]int{}, m[:i]...), m[i+1:]...) }

func without(m []int, x int) (o []int) {
	for _, y := range m {
		if y != x {
			o = append(o, y)
		}
	}
	return
}

func (l *list) isLazy() bool { return l.p.flags&registry.LazyUpdating != 0 }

func (l *list) update() string {
	if err := l.r.Rebuild(l.p); err != nil {
		return "Rebuild: " + err.Error()
	}
	return ""
}

func where(n, at int) int {
	switch at {
	case 1:
		return n / 2
	case 2:
		return n - 1
	}
	return 0
}

var whereName = []string{"first", "middle", "last"}

func listOps() (ops []lop) {
	add := func(name string, run func(l *list) string) { ops = append(ops, lop{name, run}) }
	for _, xs := range [][]int{{1}, {2, 1}, {0}, {3, 3, 1, 2, 3}} {
		add(fmt.Sprintf("append %v", xs), func(l *list) string {
			l.m = append(append([]int{}, l.m...), xs...)
			return expErr("AppendHashes", l.r.AppendHashes(l.p, hashes(xs)...), nil)
		})
	}
	add("append values [4 nil]", func(l *list) string {
		l.m = append(append([]int{}, l.m...), 4, 0)
		x := uint64(4)
		return expErr("AppendValues", l.r.AppendValues(l.p, &x, nil), nil)
	})
	for _, n := range []int{0, 1, 4} {
		add(fmt.Sprintf("append a list of %d", n), func(l *list) string {
			var o registry.Refs
			var xs []int
			for i := 0; i < n; i++ {
				xs = append(xs, 1+i%3)
			}
			op := *l.p
			op.flags &^= registry.LazyUpdating
			if err := o.AppendHashes(&op, hashes(xs)...); err != nil {
				return "appending to the other list: " + err.Error()
			}
			l.m = append(append([]int{}, l.m...), xs...)
			return expErr("Append", l.r.Append(l.p, &registry.Refs{Hash: o.Hash}), nil)
		})
	}
	for at := range whereName {
		add("delete the "+whereName[at], func(l *list) string {
			err := l.r.DeleteByIndex(l.p, where(len(l.m), at))
			if len(l.m) == 0 {
				return expErr("DeleteByIndex", err, registry.ErrIndexOutOfRange)
			}
			l.m = del(l.m, where(len(l.m), at))
			return expErr("DeleteByIndex", err, nil)
		})
		for _, x := range []int{0, 2} {
			add(fmt.Sprintf("set the %s to %d", whereName[at], x), func(l *list) string {
				i := where(len(l.m), at)
				err := l.r.SetHashByIndex(l.p, i, hashOf(x))
				if len(l.m) == 0 {
					return expErr("SetHashByIndex", err, registry.ErrIndexOutOfRange)
				}
				l.m = append([]int{}, l.m...)
				l.m[i] = x
				return expErr("SetHashByIndex", err, nil)
			})
		}
	}
	add("set value of the last", func(l *list) string {
		x := uint64(5)
		i := len(l.m) - 1
		err := l.r.SetValueByIndex(l.p, i, &x)
		if i < 0 {
			return expErr("SetValueByIndex", err, registry.ErrIndexOutOfRange)
		}
		l.m = append([]int{}, l.m...)
		l.m[i] = 5
		return expErr("SetValueByIndex", err, nil)
	})
	for _, x := range []int{0, 1, 2, 3} {
		add(fmt.Sprintf("delete all %d", x), func(l *list) string {
			err := l.r.DeleteByHash(l.p, hashOf(x))
			o := without(l.m, x)
			if len(o) == len(l.m) {
				return expErr("DeleteByHash", err, registry.ErrNotFound)
			}
			l.m = o
			return expErr("DeleteByHash", err, nil)
		})
	}
	add("out of range", func(l *list) string {
		n := len(l.m)
		for _, i := range []int{-1, n, n + 1, 1 << 40} {
			if err := l.r.DeleteByIndex(l.p, i); err != registry.ErrIndexOutOfRange {
				return fmt.Sprintf("DeleteByIndex(%d) of %d: %v", i, n, err)
			}
			if err := l.r.SetHashByIndex(l.p, i, hashOf(1)); err != registry.ErrIndexOutOfRange {
				return fmt.Sprintf("SetHashByIndex(%d) of %d: %v", i, n, err)
			}
			if _, err := l.r.HashByIndex(l.p, i); err != registry.ErrIndexOutOfRange {
				return fmt.Sprintf("HashByIndex(%d) of %d: %v", i, n, err)
			}
			var x uint64
			if _, err := l.r.ValueByIndex(l.p, i, &x); err != registry.ErrIndexOutOfRange {
				return fmt.Sprintf("ValueByIndex(%d) of %d: %v", i, n, err)
			}
			if i > n || i < 0 {
				if _, err := l.r.Slice(l.p, 0, i); err == nil {
					return fmt.Sprintf("Slice(0,%d) of %d is possible", i, n)
				}
				if _, err := l.r.Slice(l.p, i, n); err == nil {
					return fmt.Sprintf("Slice(%d,%d) of %d is possible", i, n, n)
				}
			}
		}
		if n > 0 {
			if _, err := l.r.Slice(l.p, 1, 0); err == nil {
				return "Slice(1,0) is possible"
			}
		}
		if err := l.r.DeleteByHash(l.p, hashOf(99)); err != registry.ErrNotFound {
			return fmt.Sprintf("DeleteByHash of a missing hash: %v", err)
		}
		return ""
	})
	add("take the slice without the first", func(l *list) string {
		i := min(1, len(l.m))
		s, err := l.r.Slice(l.p, i, len(l.m))
		if err != nil {
			return "Slice: " + err.Error()
		}
		l.m = l.m[i:]
		l.r = s
		if l.m = append([]int{}, l.m...); len(l.m) == 0 {
			l.m = nil
		}
		return ""
	})
	add("take the slice without the last two", func(l *list) string {
		j := max(0, len(l.m)-2)
		s, err := l.r.Slice(l.p, 0, j)
		if err != nil {
			return "Slice: " + err.Error()
		}
		l.m = append([]int{}, l.m[:j]...)
		l.r = s
		return ""
	})
	for _, d := range []registry.Degree{2, 3} {
		add(fmt.Sprintf("degree %d", d), func(l *list) string {
			if err := l.r.SetDegree(l.p, d); err != nil {
				return "SetDegree: " + err.Error()
			}
			l.deg = d
			if g, err := l.r.Degree(l.p); err != nil || g != d {
				return fmt.Sprintf("Degree gives %d %v", g, err)
			}
			return ""
		})
	}
	add("invalid degree", func(l *list) string {
		for _, d := range []registry.Degree{0, 1, -1, registry.MaxDegree + 1} {
			if err := l.r.SetDegree(l.p, d); err == nil {
				return fmt.Sprintf("degree %d is possible", d)
			}
		}
		return ""
	})
	add("clear", func(l *list) string {
		l.r.Clear()
		l.m, l.deg = nil, l.p.deg
		return ""
	})
	add("rebuild", func(l *list) string { return l.update() })
	add("rebuild, load again", func(l *list) string {
		if bad := l.update(); bad != "" {
			return bad
		}
		l.r = &registry.Refs{Hash: l.r.Hash}
		if len(l.m) == 0 {
			l.deg = l.p.deg
		}
		return ""
	})
	add("rebuild, reset", func(l *list) string {
		if bad := l.update(); bad != "" {
			return bad
		}
		if err := l.r.Reset(); err != nil {
			return "Reset: " + err.Error()
		}
		if len(l.m) == 0 {
			l.deg = l.p.deg
		}
		return ""
	})
	return
}

func listNames(ops []lop) (ns []string) {
	for _, o := range ops {
		ns = append(ns, o.name)
	}
	return
}

// a list with everything asked; expensive, and it loads everything
func checkList(p *pack, r *registry.Refs, m []int, deg registry.Degree) string {
	n, err := r.Len(p)
	if err != nil || n != len(m) {
		return fmt.Sprintf("Len is %d (%v), want %d", n, err, len(m))
	}
	if g, err := r.Degree(p); err != nil || g != deg {
		return fmt.Sprintf("Degree is %d (%v), want %d", g, err, deg)
	}
	got, bad := ascend(p, r)
	if bad != "" {
		return "Ascend: " + bad
	}
	if fmt.Sprint(got) != fmt.Sprint(m) {
		return fmt.Sprintf("the list holds %v, want %v", got, m)
	}
	for i, x := range m {
		h, err := r.HashByIndex(p, i)
		if err != nil || h != hashOf(x) {
			return fmt.Sprintf("HashByIndex(%d) gives %d (%v), want %d", i, elem(h), err, x)
		}
		var v uint64
		h, err = r.ValueByIndex(p, i, &v)
		if x == 0 && err != registry.ErrRefsElementIsNil || x != 0 && (err != nil || v != uint64(x)) || h != hashOf(x) {
			return fmt.Sprintf("ValueByIndex(%d) gives %d, %v, want %d", i, v, err, x)
		}
	}
	for _, x := range []int{0, 1, 2, 3, 4, 5, 99} {
		var is []int
		for i, y := range m {
			if y == x {
				is = append(is, i)
			}
		}
		ok, err := r.HasHash(p, hashOf(x))
		if err != nil || ok != (len(is) > 0) {
			return fmt.Sprintf("HasHash(%d) is %v (%v), want %v", x, ok, err, len(is) > 0)
		}
		i, err := r.IndexOfHash(p, hashOf(x))
		if len(is) == 0 {
			if err != registry.ErrNotFound {
				return fmt.Sprintf("IndexOfHash(%d) gives %v", x, err)
			}
		} else if err != nil || i < 0 || i >= len(m) || m[i] != x {
			return fmt.Sprintf("IndexOfHash(%d) gives %d, %v, want one of %v", x, i, err, is)
		}
		gi, err := r.IndicesByHash(p, hashOf(x))
		if len(is) == 0 && err != registry.ErrNotFound || len(is) > 0 && err != nil {
			return fmt.Sprintf("IndicesByHash(%d) gives %v", x, err)
		}
		sort.Ints(gi)
		if fmt.Sprint(gi) != fmt.Sprint(is) {
			return fmt.Sprintf("IndicesByHash(%d) gives %v, want %v", x, gi, is)
		}
		var v uint64
		err = r.ValueByHash(p, hashOf(x), &v)
		switch {
		case len(is) == 0 && err != registry.ErrNotFound, len(is) > 0 && x == 0 && err != registry.ErrRefsElementIsNil,
			len(is) > 0 && x > 0 && (err != nil || v != uint64(x)):
			return fmt.Sprintf("ValueByHash(%d) gives %d, %v", x, v, err)
		}
		i, err = r.ValueOfHashWithIndex(p, hashOf(x), &v)
		switch {
		case len(is) == 0 && err != registry.ErrNotFound, len(is) > 0 && x == 0 && (err != registry.ErrRefsElementIsNil || m[i] != 0),
			len(is) > 0 && x > 0 && (err != nil || v != uint64(x) || m[i] != x):
			return fmt.Sprintf("ValueOfHashWithIndex(%d) gives %d, %d, %v", x, i, v, err)
		}
	}
	return ""
}

func ascend(p *pack, r *registry.Refs) (got []int, bad string) {
	err := r.Ascend(p, func(i int, h cipher.SHA256) error {
		if i != len(got) {
			bad = fmt.Sprintf("index %d, want %d", i, len(got))
			return errTest
		}
		if got = append(got, elem(h)); len(got) > 1000 {
			return errTest
		}
		return nil
	})
	if bad == "" && err != nil {
		bad = err.Error()
	}
	return
}

func checkSlices(p *pack, r *registry.Refs, m []int, deg registry.Degree) string {
	for i := 0; i <= len(m); i++ {
		for j := i; j <= len(m); j++ {
			if len(m) > 5 && i > 2 && j < len(m)-2 {
				continue
			}
			s, err := r.Slice(p, i, j)
			if err != nil {
				return fmt.Sprintf("Slice(%d,%d): %v", i, j, err)
			}
			if bad := checkList(p, s, m[i:j], deg); bad != "" {
				return fmt.Sprintf("Slice(%d,%d): %s", i, j, bad)
			}
		}
	}
	return ""
}

type listCfg struct {
	deg   registry.Degree
	flags registry.Flags
	start []int // built before, saved and loaded again
	fresh bool  // start is built by appending in this list, not loaded
}

func (c listCfg) String() string {
	var f []string
	for i, n := range []string{"index", "entire", "lazy"} {
		if c.flags&(1<<i) != 0 {
			f = append(f, n)
		}
	}
	s := fmt.Sprintf("degree %d flags [%s]", c.deg, strings.Join(f, " "))
	if len(c.start) > 0 {
		s += fmt.Sprintf(", %v ", c.start)
		s += map[bool]string{true: "appended", false: "loaded"}[c.fresh]
	}
	return s
}

func (c listCfg) make() (l *list, bad string) {
	l = &list{p: newElemPack(c.deg, c.flags), r: &registry.Refs{}, deg: c.deg}
	if len(c.start) == 0 {
		return
	}
	l.m = c.start
	if !c.fresh {
		l.p.flags = 0
	}
	err := l.r.AppendHashes(l.p, hashes(c.start)...)
	if err != nil {
		bad = "AppendHashes: " + err.Error()
	}
	if !c.fresh {
		l.p.flags = c.flags
		l.r = &registry.Refs{Hash: l.r.Hash}
	}
	return
}

func listConfigs(lens []int, degs []registry.Degree) (cs []listCfg) {
	for _, d := range degs {
		for f := registry.Flags(0); f < 8; f++ {
			for _, n := range lens {
				var xs []int
				for i := 0; i < n; i++ {
					xs = append(xs, []int{1, 2, 0, 3, 2, 1, 4}[i%7])
				}
				cs = append(cs, listCfg{d, f, xs, false})
				if n > 0 {
					cs = append(cs, listCfg{d, f, xs, true})
				}
			}
		}
	}
	return
}

func r04(r *core.R) {
	r.Rule("a case is a history of list operations in one mode; results, and at the end everything that can be asked, are compared with a plain slice")
	r.Assume("the order in which equal elements are found by hash is not specified")
	ops := listOps()
	run := func(c listCfg) func(h []int) core.Step {
		return func(h []int) core.Step {
			l, bad := c.make()
			if bad != "" {
				return core.Step{Bad: bad}
			}
			for _, x := range h {
				if bad := ops[x].run(l); bad != "" {
					return core.Step{Bad: ops[x].name + ": " + bad}
				}
			}
			// the state before it is looked at
			tree, _ := l.r.Tree(l.p, false)
			canon := fmt.Sprint(l.m, l.deg, l.r.Hash.Hex(), tree)
			if len(h) > 0 {
				canon += ops[h[len(h)-1]].name // some internal marks are not shown by the tree
			}
			if bad := checkList(l.p, l.r, l.m, l.deg); bad != "" {
				return core.Step{Bad: bad}
			}
			if bad := checkSlices(l.p, l.r, l.m, l.deg); bad != "" {
				return core.Step{Bad: bad}
			}
			// saved and loaded again, with any flags
			if bad := l.update(); bad != "" {
				return core.Step{Bad: bad}
			}
			if bad := checkList(l.p, l.r, l.m, l.deg); bad != "" {
				return core.Step{Bad: "after Rebuild: " + bad}
			}
			for _, f := range []registry.Flags{0, registry.HashTableIndex} {
				p := *l.p
				p.flags = f
				d := l.deg
				if len(l.m) == 0 {
					d = p.deg
				}
				if bad := checkList(&p, &registry.Refs{Hash: l.r.Hash}, l.m, d); bad != "" {
					return core.Step{Bad: "loaded again: " + bad}
				}
			}
			r.Outcome(fmt.Sprint(l.m, l.deg))
			return core.Step{Canon: canon}
		}
	}
	for _, c := range listConfigs([]int{0}, []registry.Degree{2, 3}) {
		r.BFS(c.String(), listNames(ops), r.Pick(2, 4), false, run(c))
	}
	for _, c := range listConfigs([]int{3, 4, 8, 9}, []registry.Degree{2, 3}) {
		r.BFS(c.String(), listNames(ops), r.Pick(2, 3), false, run(c))
	}
	for _, c := range listConfigs([]int{5}, []registry.Degree{2}) {
		r.BFS(c.String()+" (states merged)", listNames(ops), r.Pick(3, 6), true, run(c))
	}
	r.Validated.Store(r.Evaluations.Load())
}
