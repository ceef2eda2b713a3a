package main

import (
	"fmt"

	"vmc/core"
)

// readable reads all roots completely
func (x *worldRun) readable() string {
	for _, m := range x.roots {
		r, err := x.c.Root(idents[m.f].pk, x.cf.nonces[m.n], m.seq)
		if err != nil {
			return fmt.Sprintf("root (%d,%d,%d): %v", m.f, x.cf.nonces[m.n], m.seq, err)
		}
		seen := map[hash]bool{}
		err = x.c.Walk(r, func(h hash, _ int) (bool, error) {
			if h == (hash{}) {
				return false, nil
			}
			seen[h] = true
			_, rc, err := x.c.Get(h, 0)
			if err == nil && rc == 0 {
				err = fmt.Errorf("%s has no references", x.nameOf(h))
			}
			return true, err
		})
		if err != nil {
			return fmt.Sprintf("reading root (%d,%d,%d): %v", m.f, x.cf.nonces[m.n], m.seq, err)
		}
		for _, h := range append(cat.reach(m.k), m.hash, cat.regHash) {
			if !seen[h] {
				return fmt.Sprintf("walking root (%d,%d,%d) misses %s", m.f, x.cf.nonces[m.n], m.seq, x.nameOf(h))
			}
		}
	}
	return ""
}

func c10(r *core.R) {
	r.Rule("a case is one history of saving, filling, deleting, keeping the last n roots and removing objects on a fresh container; after it, the set of objects, counts, roots and heads must equal the model's, and every remaining root is read completely")
	then := func(ops []wop) (out []wop) {
		for _, o := range ops {
			out = append(out, wop{o.name, func(x *worldRun) string {
				bad := o.run(x)
				if bad == "" {
					bad = x.readable()
				}
				return bad
			}})
		}
		return
	}
	for _, cf := range worldConfs() {
		cf.feeds, cf.nonces, cf.contents = 1, []uint64{1, 2}, []int{1, 3, 4}
		worldExplore(r, "one feed, two heads", cf, r.Pick(4, 6), true,
			then(worldOps(cf, "Save", "Fill", "DelFirst", "DelLast", "DelHead", "Keep", "Clean", "Abandon")))
		cf.feeds, cf.nonces, cf.contents = 2, []uint64{1}, []int{4, 5}
		worldExplore(r, "two feeds", cf, r.Pick(4, 6), true,
			then(worldOps(cf, "Save", "Fill", "DelFirst", "DelFeed", "AddFeed", "Keep", "Clean", "Put", "SaveU", "CloseU", "Reopen")))
		cf.feeds, cf.nonces, cf.contents = 1, []uint64{1}, []int{1, 2, 3, 4, 5, 6}
		worldExplore(r, "one head, all contents", cf, r.Pick(3, 4), false,
			then(worldOps(cf, "Save", "Fill", "FillWithout", "DelFirst", "Keep", "Clean", "Put", "CloseU")))
	}
}
