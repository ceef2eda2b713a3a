package main

import (
	"bytes"
	"fmt"
	"sort"

	"github.com/skycoin/skycoin/src/cipher/encoder"

	"github.com/skycoin/cxo/skyobject"
	"github.com/skycoin/cxo/skyobject/registry"

	"vmc/core"
)

// peer is a skyobject.Getter that counts
type peer struct {
	asked map[hash]int
	n     int
	fail  int // fails at this request
	order []hash
}

func (p *peer) Get(key hash) (val []byte, err error) {
	p.asked[key]++
	p.order = append(p.order, key)
	if p.n++; p.n == p.fail {
		return nil, errInjected
	}
	if v, ok := cat.val[key]; ok {
		return append([]byte(nil), v...), nil
	}
	return nil, fmt.Errorf("the peer does not have %s", key.Hex()[:6])
}

// everything reads a root through a pack the ways a user does, noting what was read
func everything(pack registry.Pack, ro *registry.Root, tree bool) (got map[hash][]byte, err error) {
	got = map[hash][]byte{}
	err = ro.Walk(pack, func(h hash, _ int) (bool, error) {
		if h == (hash{}) {
			return false, nil
		}
		v, err := pack.Get(h)
		got[h] = v
		return true, err
	})
	if err != nil {
		return
	}
	read := func(h hash, obj interface{}) error {
		v, err := pack.Get(h)
		if err == nil {
			_, err = encoder.DeserializeRaw(v, obj)
		}
		return err
	}
	for _, d := range ro.Refs {
		if d.Hash == (hash{}) {
			continue
		}
		var t Top
		switch cat.name[d.Hash][:3] {
		case "top":
			if err = read(d.Hash, &t); err != nil {
				return
			}
			n := 0
			if n, err = t.L.Len(pack); err != nil {
				return
			}
			for i := 0; i < n; i++ {
				var l Leaf
				if _, err = t.L.ValueByIndex(pack, i, &l); err != nil {
					return
				}
			}
			var pr Pair
			if err = t.P.Value(pack, &pr); err != nil {
				return
			}
			if err = t.Q.Ascend(pack, func(int, hash) error { return nil }); err != nil {
				return
			}
			if t.D.Hash != (hash{}) {
				if err = t.D.Value(pack, &pr); err != nil {
					return
				}
			}
		case "pai":
			var pr Pair
			err = read(d.Hash, &pr)
		case "lea":
			var l Leaf
			err = read(d.Hash, &l)
		}
		if err != nil {
			return
		}
	}
	if tree {
		_, err = ro.Tree(pack)
	}
	return
}

// previewOp previews content k; the peer fails at a request
func (x *worldRun) previewOp(k, fail int) (bad string, done bool) {
	g := &peer{asked: map[hash]int{}, fail: fail}
	ro := x.remoteRoot(0, 0, k, 9)
	before := x.dump()
	writes := x.cx.Writes
	p, err := x.c.Preview(ro, g)
	var got map[hash][]byte
	if err == nil {
		if p.Root() != ro {
			return "the preview has another root", true
		}
		got, err = everything(p, ro, true)
	}
	need := append([]hash{cat.regHash}, cat.reach(k)...)
	hit := fail > 0 && g.n >= fail
	for h, n := range g.asked {
		if x.has[h] {
			return fmt.Sprintf("the preview requests %s, which is in the store", x.nameOf(h)), true
		}
		if n > 1 && !hit {
			return fmt.Sprintf("the preview requests %s %d times", x.nameOf(h), n), true
		}
		ok := false
		for _, w := range need {
			ok = ok || w == h
		}
		if !ok {
			return "the preview requests " + x.nameOf(h) + ", which the root does not need", true
		}
	}
	switch {
	case hit && err == nil:
		return fmt.Sprintf("no error, but request %d of the peer failed", fail), true
	case !hit && err != nil:
		return "the preview fails: " + err.Error(), true
	}
	if !hit {
		for _, h := range cat.reach(k) {
			if !bytes.Equal(got[h], cat.val[h]) {
				return fmt.Sprintf("%s is not the one of the owner", x.nameOf(h)), true
			}
		}
		// once more, without any request
		n := g.n
		if _, err = everything(p, ro, true); err != nil {
			return "reading again: " + err.Error(), true
		}
		if g.n != n {
			return "reading again makes requests", true
		}
	}
	if x.cf.amount == 0 && (x.cx.Writes != writes || x.dump() != before) {
		return "the preview changes the store", true
	}
	if bad = x.compare(); bad != "" {
		return "after the preview: " + bad, true
	}
	return "", !hit
}

func (x *worldRun) dump() string {
	var s []string
	x.cx.CXDS.Iterate(func(h hash, rc uint32, val []byte) error {
		s = append(s, fmt.Sprintf("%x %d %x", h, rc, val))
		return nil
	})
	sort.Strings(s)
	return fmt.Sprint(s)
}

func c09(r *core.R) {
	r.Rule("a case is one history on a fresh container, so that part of a root's objects is local, then a preview of a root: the registry and all objects are read by walking, by the lists and references and as a tree; once without failure and once with every request of the peer failing")
	for _, cf := range worldConfs() {
		cf.feeds, cf.nonces, cf.contents = 1, []uint64{1}, []int{0, 1, 2, 3, 4, 5, 6}
		pre := worldOps(cf, "Save", "Fill", "Put", "Abandon", "DelLast", "DelFeed", "Clean", "CloseU", "FillWithout")
		faults(r, "previews, "+cf.name, cf, pre, len(cf.contents), r.Pick(2, 3), func(x *worldRun, op, at int) (string, bool) {
			bad, done := x.previewOp(cf.contents[op], at)
			if bad == "" && done {
				bad = x.closed()
			}
			return bad, done
		})
		// the store fails instead
		faults(r, "previews with a failing store, "+cf.name, cf, pre, len(cf.contents), 1, func(x *worldRun, op, at int) (string, bool) {
			return x.previewStoreFault(cf.contents[op], at)
		})
	}
	var _ skyobject.Getter = (*peer)(nil)
}

// previewStoreFault previews while a call of the store fails
func (x *worldRun) previewStoreFault(k, at int) (bad string, done bool) {
	g := &peer{asked: map[hash]int{}}
	ro := x.remoteRoot(0, 0, k, 9)
	calls := 0
	x.cx.Fail = func(op string, h hash) error {
		if calls++; calls == at {
			return errInjected
		}
		return nil
	}
	p, err := x.c.Preview(ro, g)
	if err == nil {
		_, err = everything(p, ro, false) // a tree shows errors
	}
	x.cx.Fail = nil
	hit := calls >= at
	if hit && err == nil && x.cf.amount == 0 {
		return "no error, but the store failed", true
	}
	for h := range g.asked {
		if x.has[h] {
			return fmt.Sprintf("the preview requests %s, which is in the store", x.nameOf(h)), true
		}
	}
	if bad = x.compare(); bad != "" {
		return "after the preview: " + bad, true
	}
	return "", !hit
}
