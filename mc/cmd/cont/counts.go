package main

import (
	"fmt"
	"strings"

	"github.com/skycoin/cxo/cxoutils"
	"github.com/skycoin/cxo/data"
	"github.com/skycoin/cxo/skyobject"
	"github.com/skycoin/cxo/skyobject/registry"

	"vmc/core"
)

type wop struct {
	name string
	run  func(x *worldRun) string
}

func (x *worldRun) dynamics(k int) []registry.Dynamic {
	return append([]registry.Dynamic(nil), cat.contents[k].refs...)
}

// saveOp saves content k with a new Unpack
func (x *worldRun) saveOp(f, n, k int) string {
	up, err := x.c.Unpack(idents[f].sk, cat.reg)
	if err != nil {
		return "Unpack: " + err.Error()
	}
	if err = put(up, k); err != nil {
		return "Set: " + err.Error()
	}
	x.added(cat.contents[k].objs...)
	r := &registry.Root{Pub: idents[f].pk, Nonce: x.cf.nonces[n], Refs: x.dynamics(k)}
	bad := x.saveWith(up, f, n, k, r)
	if err = up.Close(); err != nil && bad == "" {
		bad = "Close of the Unpack: " + err.Error()
	}
	return bad
}

func (x *worldRun) saveWith(up *skyobject.Unpack, f, n, k int, r *registry.Root) string {
	err := x.c.Save(up, r)
	switch {
	case !x.feed[f]:
		return wantErr("Save", err, data.ErrNoSuchFeed)
	case !x.complete(k):
		if err == nil {
			return "Save succeeds, but an object is missing"
		}
		return ""
	case err != nil:
		return "Save: " + err.Error()
	}
	return x.saved(f, n, k, r)
}

func worldOps(cf wconf, which ...string) (ops []wop) {
	add := func(name string, run func(x *worldRun) string) {
		for _, w := range which {
			if name == w || strings.HasPrefix(name, w+"(") {
				ops = append(ops, wop{name, run})
			}
		}
	}
	for f := 0; f < cf.feeds; f++ {
		pk := idents[f].pk
		for n, nonce := range cf.nonces {
			for _, k := range cf.contents {
				add(fmt.Sprintf("Save(%d,%d,%s)", f, nonce, cat.contents[k].name), func(x *worldRun) string { return x.saveOp(f, n, k) })
				add(fmt.Sprintf("SaveU(%d,%d,%s)", f, nonce, cat.contents[k].name), func(x *worldRun) string {
					if x.u == nil || f != 0 {
						return "-"
					}
					bad := x.saveWith(x.u, f, n, k, &registry.Root{Pub: pk, Nonce: nonce, Refs: x.dynamics(k)})
					if bad == "" && x.complete(k) && x.feed[f] {
						x.pins = map[hash]int{}
					}
					return bad
				})
				add(fmt.Sprintf("Fill(%d,%d,%s)", f, nonce, cat.contents[k].name), func(x *worldRun) string {
					seq := uint64(0)
					if l := x.last(f, n); l != nil {
						seq = l.seq + 2
					}
					return x.fillOp(f, n, k, 2, seq, hash{})
				})
				add(fmt.Sprintf("FillAgain(%d,%d,%s)", f, nonce, cat.contents[k].name), func(x *worldRun) string {
					l := x.last(f, n)
					if l == nil {
						return "-"
					}
					return x.fillOp(f, n, k, 0, l.seq, hash{})
				})
				for i, w := range append([]hash{cat.regHash}, cat.reach(k)...) {
					add(fmt.Sprintf("FillWithout(%d,%d,%s,%d)", f, nonce, cat.contents[k].name, i), func(x *worldRun) string {
						return x.fillOp(f, n, k, 1, 7, w)
					})
				}
			}
			add(fmt.Sprintf("DelFirst(%d,%d)", f, nonce), func(x *worldRun) string { return x.delOp(f, n, false) })
			add(fmt.Sprintf("DelLast(%d,%d)", f, nonce), func(x *worldRun) string { return x.delOp(f, n, true) })
			add(fmt.Sprintf("DelHead(%d,%d)", f, nonce), func(x *worldRun) string {
				var want error
				if !x.feed[f] {
					want = data.ErrNoSuchFeed
				} else if !x.heads[[2]int{f, n}] {
					want = data.ErrNoSuchHead
				}
				x.drop(func(r *mroot) bool { return r.f == f && r.n == n })
				x.heads[[2]int{f, n}] = false
				return wantErr("DelHead", x.c.DelHead(pk, nonce), want)
			})
		}
		add(fmt.Sprintf("DelFeed(%d)", f), func(x *worldRun) string {
			var want error
			if !x.feed[f] {
				want = data.ErrNoSuchFeed
			}
			x.drop(func(r *mroot) bool { return r.f == f })
			x.feed[f] = false
			for n := range cf.nonces {
				x.heads[[2]int{f, n}] = false
			}
			return wantErr("DelFeed", x.c.DelFeed(pk), want)
		})
		add(fmt.Sprintf("AddFeed(%d)", f), func(x *worldRun) string {
			if x.feed[f] {
				return "-"
			}
			x.feed[f] = true
			return wantErr("AddFeed", x.c.AddFeed(pk), nil)
		})
	}
	for _, k := range cf.contents {
		add(fmt.Sprintf("Put(%s)", cat.contents[k].name), func(x *worldRun) string {
			if x.u == nil {
				u, err := x.c.Unpack(idents[0].sk, cat.reg)
				if err != nil {
					return "Unpack: " + err.Error()
				}
				x.u = u
			}
			for _, h := range cat.contents[k].objs {
				x.pins[h] = 1
			}
			x.added(cat.contents[k].objs...)
			return wantErr("Set", put(x.u, k), nil)
		})
		add(fmt.Sprintf("Abandon(%s)", cat.contents[k].name), func(x *worldRun) string {
			u, err := x.c.Unpack(idents[0].sk, cat.reg)
			if err == nil {
				err = put(u, k)
			}
			if err == nil {
				err = u.Close()
			}
			x.added(cat.contents[k].objs...)
			return wantErr("Unpack, Set, Close", err, nil)
		})
	}
	add("CloseU", func(x *worldRun) string {
		if x.u == nil {
			return "-"
		}
		err := x.u.Close()
		x.u, x.pins = nil, map[hash]int{}
		return wantErr("Close of the Unpack", err, nil)
	})
	add("Clean", func(x *worldRun) string {
		x.clean()
		return wantErr("RemoveObjects", cxoutils.RemoveObjects(x.c), nil)
	})
	for keep := -1; keep <= 3; keep++ {
		add(fmt.Sprintf("Keep(%d)", keep), func(x *worldRun) string {
			x.keep(keep)
			return wantErr("RemoveRootObjects", cxoutils.RemoveRootObjects(x.c, keep), nil)
		})
	}
	add("Reopen", func(x *worldRun) string {
		x.end()
		x.u, x.pins = nil, map[hash]int{}
		return wantErr("opening again", x.open(), nil)
	})
	return
}

// keep last n roots of every head in the model
func (x *worldRun) keep(keep int) {
	if keep < 0 {
		return
	}
	x.drop(func(r *mroot) bool {
		newer := 0
		for _, o := range x.roots {
			if o.f == r.f && o.n == r.n && o.seq > r.seq {
				newer++
			}
		}
		return newer >= keep
	})
}

func (x *worldRun) delOp(f, n int, last bool) string {
	var m *mroot
	for _, r := range x.roots {
		if r.f == f && r.n == n && (m == nil || (r.seq > m.seq) == last) {
			m = r
		}
	}
	if m == nil {
		return "-"
	}
	x.drop(func(r *mroot) bool { return r == m })
	return wantErr("DelRoot", x.c.DelRoot(idents[f].pk, x.cf.nonces[n], m.seq), nil)
}

func worldExplore(r *core.R, name string, cf wconf, depth int, dedup bool, ops []wop) {
	var names []string
	for _, o := range ops {
		names = append(names, o.name)
	}
	r.BFS(name+", "+cf.name, names, depth, dedup, func(h []int) core.Step {
		x, err := newWorldRun(cf)
		if err != nil {
			return core.Step{Bad: err.Error()}
		}
		defer func() { x.end() }()
		for i, op := range h {
			bad := ops[op].run(x)
			if bad == "-" {
				return core.Step{} // not applicable
			}
			if bad == "" && i == len(h)-1 {
				bad = x.compare()
			}
			if bad != "" {
				return core.Step{Bad: bad}
			}
		}
		s := x.state()
		if bad := x.closed(); bad != "" {
			return core.Step{Bad: bad}
		}
		r.Validated.Add(1)
		r.Outcome(cf.name + s)
		return core.Step{Canon: s}
	})
}

func worldConfs() []wconf {
	return []wconf{
		{name: "no cache"},
		{name: "large cache", amount: 1000, volume: 1000000},
		{name: "2 items cached", amount: 2, volume: 1000000, policy: skyobject.LFU},
	}
}

func c05(r *core.R) {
	r.Rule("a case is one history of saving, filling, abandoning, deleting and cleaning on a fresh container; after its last operation the count of every object ever used is compared with the number of references to it from the stored roots, and again in the store after Close")
	for i, cf := range worldConfs() {
		cf.feeds, cf.nonces = 1, []uint64{1, 2}
		cf.contents = []int{1, 2, 3, 4, 5}
		worldExplore(r, "one feed, saving and deleting", cf, r.Pick(3, 4), false, worldOps(cf, "Save", "DelFirst", "DelLast", "DelHead", "DelFeed", "Clean"))
		cf.nonces = []uint64{1}
		worldExplore(r, "one head, everything", cf, r.Pick(3, 4), false,
			worldOps(cf, "Save", "SaveU", "Put", "CloseU", "Abandon", "Fill", "FillAgain", "DelFirst", "DelLast", "DelFeed", "AddFeed", "Clean", "Reopen"))
		cf.contents = []int{2, 3, 4}
		worldExplore(r, "one head, three contents", cf, r.Pick(5, 6), true,
			worldOps(cf, "Save", "SaveU", "Put", "CloseU", "Fill", "DelFirst", "DelLast", "DelHead", "Clean", "Reopen"))
		cf.contents = []int{0, 1, 4, 6}
		worldExplore(r, "fillings that fail", cf, r.Pick(3, 4), true,
			worldOps(cf, "Save", "Put", "SaveU", "FillWithout", "Fill", "DelLast", "Clean"))
		if i != 1 && !r.Thorough() {
			continue
		}
		cf.feeds, cf.contents = 2, []int{4, 5}
		worldExplore(r, "two feeds", cf, r.Pick(5, 6), true,
			worldOps(cf, "Save", "Fill", "DelFirst", "DelLast", "DelFeed", "AddFeed", "Clean"))
	}
}
