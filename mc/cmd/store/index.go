package main

import (
	"errors"
	"fmt"
	"math"
	"os"
	"sort"
	"strings"

	"github.com/skycoin/skycoin/src/cipher"

	"github.com/skycoin/cxo/data"
	"github.com/skycoin/cxo/data/idxdb"

	"vmc/core"
)

func pk(i int) (p cipher.PubKey) {
	switch i {
	case 0:
	case 1:
		for j := range p {
			p[j] = 0xff
		}
	default:
		p[0], p[32] = byte(i), 0xff
	}
	return
}

func feedOf(p cipher.PubKey) int {
	for i := 0; i < 10; i++ {
		if pk(i) == p {
			return i
		}
	}
	return -1
}

var nonces = []uint64{0, math.MaxUint64, 255, 7}
var seqs = []uint64{0, math.MaxUint64, 255, 256, 1}

func root(seq uint64) *data.Root {
	r := &data.Root{Seq: seq, Time: int64(seq%1000) + 5}
	if seq > 0 {
		r.Prev = cipher.SumSHA256([]byte(fmt.Sprint("prev", seq)))
	}
	r.Hash = cipher.SumSHA256([]byte(fmt.Sprint("hash", seq)))
	r.Sig[3], r.Sig[4] = byte(seq), 1
	return r
}

// idx is the model: feed -> nonce -> seq -> encoded root without times
type idx map[int]map[uint64]map[uint64]bool

func (m idx) clone() idx {
	c := idx{}
	for f, hs := range m {
		c[f] = map[uint64]map[uint64]bool{}
		for n, rs := range hs {
			c[f][n] = map[uint64]bool{}
			for s := range rs {
				c[f][n][s] = true
			}
		}
	}
	return c
}

func (m idx) String() string {
	var s []string
	for f, hs := range m {
		s = append(s, fmt.Sprintf("f%d", f))
		for n, rs := range hs {
			s = append(s, fmt.Sprintf("f%d/%d", f, n))
			for q := range rs {
				s = append(s, fmt.Sprintf("f%d/%d/%d", f, n, q))
			}
		}
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

// dump the real index, checking the enumerations against each other
func dump(fs data.Feeds) (m idx, bad string) {
	m = idx{}
	err := fs.Iterate(func(p cipher.PubKey) error {
		f := feedOf(p)
		if _, ok := m[f]; ok || f < 0 {
			bad = "a feed is shown twice or unknown"
			return data.ErrStopIteration
		}
		m[f] = map[uint64]map[uint64]bool{}
		return nil
	})
	if err != nil || bad != "" {
		return m, fmt.Sprint(bad, err)
	}
	if n := fs.Len(); n != len(m) {
		return m, fmt.Sprintf("Feeds.Len is %d, %d feeds are enumerated", n, len(m))
	}
	for f := range m {
		hs, err := fs.Heads(pk(f))
		if err != nil {
			return m, "Heads: " + err.Error()
		}
		calls := 0
		err = hs.Iterate(func(n uint64) error {
			if calls++; calls > 100 {
				return errTest
			}
			if _, ok := m[f][n]; ok {
				bad = "a head is shown twice"
			}
			m[f][n] = map[uint64]bool{}
			return nil
		})
		if err != nil || bad != "" {
			return m, fmt.Sprint("heads: ", bad, err)
		}
		if n := hs.Len(); n != len(m[f]) {
			return m, fmt.Sprintf("Heads.Len is %d, %d heads are enumerated", n, len(m[f]))
		}
		for n := range m[f] {
			rs, err := hs.Roots(n)
			if err != nil {
				return m, "Roots: " + err.Error()
			}
			var up, down []uint64
			visit := func(to *[]uint64) func(r *data.Root) error {
				return func(r *data.Root) error {
					*to = append(*to, r.Seq)
					w := root(r.Seq)
					if r.Hash != w.Hash || r.Prev != w.Prev || r.Sig != w.Sig || r.Time != w.Time || r.Access < r.Create || r.Create == 0 {
						bad = fmt.Sprintf("root %d has changed: %+v", r.Seq, r)
					}
					if len(*to) > 100 {
						return errTest
					}
					return nil
				}
			}
			if err := rs.Ascend(visit(&up)); err != nil {
				return m, "Ascend does not end: " + err.Error()
			}
			if err := rs.Descend(visit(&down)); err != nil {
				return m, "Descend does not end: " + err.Error()
			}
			if bad != "" {
				return m, bad
			}
			for i := range up {
				if i > 0 && up[i-1] >= up[i] {
					return m, fmt.Sprintf("Ascend gives %v", up)
				}
				if len(down) != len(up) || down[len(down)-1-i] != up[i] {
					return m, fmt.Sprintf("Ascend gives %v, Descend %v", up, down)
				}
				m[f][n][up[i]] = true
			}
			if len(down) != len(up) {
				return m, fmt.Sprintf("Ascend gives %v, Descend %v", up, down)
			}
			if n := rs.Len(); n != len(up) {
				return m, fmt.Sprintf("Roots.Len is %d, %d roots are enumerated", n, len(up))
			}
		}
	}
	return
}

type iop struct {
	name string
	run  func(fs data.Feeds, m idx) string
}

func expErr(what string, err, want error) string {
	if err != want {
		return fmt.Sprintf("%s gives error %v, want %v", what, err, want)
	}
	return ""
}

func idxOps(feeds, heads, roots int) (ops []iop) {
	add := func(name string, run func(fs data.Feeds, m idx) string) { ops = append(ops, iop{name, run}) }
	for f := 0; f < feeds; f++ {
		add(fmt.Sprintf("AddFeed(f%d)", f), func(fs data.Feeds, m idx) string {
			if m[f] == nil {
				m[f] = map[uint64]map[uint64]bool{}
			}
			return expErr("Add", fs.Add(pk(f)), nil)
		})
		add(fmt.Sprintf("DelFeed(f%d)", f), func(fs data.Feeds, m idx) string {
			var want error
			if m[f] == nil {
				want = data.ErrNoSuchFeed
			}
			delete(m, f)
			return expErr("Del", fs.Del(pk(f)), want)
		})
		for h := 0; h < heads; h++ {
			n := nonces[h]
			withHeads := func(name string, fn func(hs data.Heads, m map[uint64]map[uint64]bool) string) {
				add(fmt.Sprintf("%s(f%d,%d)", name, f, n), func(fs data.Feeds, m idx) string {
					ok, err := fs.Has(pk(f))
					if err != nil || ok != (m[f] != nil) {
						return fmt.Sprintf("Feeds.Has is %v %v", ok, err)
					}
					hs, err := fs.Heads(pk(f))
					if m[f] == nil {
						return expErr("Heads", err, data.ErrNoSuchFeed)
					}
					if err != nil {
						return "Heads: " + err.Error()
					}
					return fn(hs, m[f])
				})
			}
			withHeads("AddHead", func(hs data.Heads, m map[uint64]map[uint64]bool) string {
				if m[n] == nil {
					m[n] = map[uint64]bool{}
				}
				rs, err := hs.Add(n)
				if err == nil && rs.Len() != len(m[n]) {
					return fmt.Sprintf("Add gives %d roots, want %d", rs.Len(), len(m[n]))
				}
				return expErr("Heads.Add", err, nil)
			})
			withHeads("DelHead", func(hs data.Heads, m map[uint64]map[uint64]bool) string {
				var want error
				if m[n] == nil {
					want = data.ErrNoSuchHead
				}
				delete(m, n)
				return expErr("Heads.Del", hs.Del(n), want)
			})
			withRoots := func(name string, fn func(rs data.Roots, m map[uint64]bool) string) {
				withHeads(name, func(hs data.Heads, m map[uint64]map[uint64]bool) string {
					ok, err := hs.Has(n)
					if err != nil || ok != (m[n] != nil) {
						return fmt.Sprintf("Heads.Has is %v %v", ok, err)
					}
					rs, err := hs.Roots(n)
					if m[n] == nil {
						return expErr("Roots", err, data.ErrNoSuchHead)
					}
					if err != nil {
						return "Roots: " + err.Error()
					}
					return fn(rs, m[n])
				})
			}
			for q := 0; q < roots; q++ {
				seq := seqs[q]
				withRoots(fmt.Sprintf("Set %d", seq), func(rs data.Roots, m map[uint64]bool) string {
					r := root(seq)
					var old *data.Root
					if m[seq] {
						old = peekRoot(rs, seq)
					}
					err := rs.Set(r)
					if err != nil {
						return "Set: " + err.Error()
					}
					now := peekRoot(rs, seq)
					if now == nil {
						return "the root set is not there"
					}
					if old == nil {
						if r.Create == 0 || r.Access != r.Create || now.Create != r.Create || now.Access != r.Access {
							return fmt.Sprintf("times of a new root: %d %d, stored %d %d", r.Create, r.Access, now.Create, now.Access)
						}
					} else {
						if r.Create != old.Create || r.Access != old.Access || now.Create != old.Create || now.Access < old.Access {
							return fmt.Sprintf("times of a touched root: given %d %d, before %d %d, stored %d %d", r.Create, r.Access, old.Create, old.Access, now.Create, now.Access)
						}
						// another record with the same sequence number changes nothing
						x := root(seq)
						x.Hash[0]++
						x.Time++
						if err := rs.Set(x); err != nil {
							return "Set again: " + err.Error()
						}
						now = peekRoot(rs, seq)
						if w := root(seq); now.Hash != w.Hash || now.Time != w.Time {
							return "setting a root again replaced it"
						}
					}
					m[seq] = true
					return ""
				})
				withRoots(fmt.Sprintf("Del %d", seq), func(rs data.Roots, m map[uint64]bool) string {
					delete(m, seq)
					return expErr("Roots.Del", rs.Del(seq), nil)
				})
				withRoots(fmt.Sprintf("Get %d", seq), func(rs data.Roots, m map[uint64]bool) string {
					ok, err := rs.Has(seq)
					if err != nil || ok != m[seq] {
						return fmt.Sprintf("Roots.Has is %v %v", ok, err)
					}
					old := peekRoot(rs, seq)
					r, err := rs.Get(seq)
					if !m[seq] {
						return expErr("Get", err, data.ErrNotFound)
					}
					if err != nil {
						return "Get: " + err.Error()
					}
					if *r != *old {
						return fmt.Sprintf("Get gives %+v, stored was %+v", r, old)
					}
					now := peekRoot(rs, seq)
					if now.Access < old.Access || now.Create != old.Create || now.Hash != old.Hash {
						return "Get changed the stored record"
					}
					return ""
				})
			}
			if f == 0 && h == 0 {
				withRoots("SetInvalid", func(rs data.Roots, m map[uint64]bool) string {
					for i, mod := range []func(r *data.Root){
						func(r *data.Root) { r.Hash = cipher.SHA256{} },
						func(r *data.Root) { r.Sig = cipher.Sig{} },
						func(r *data.Root) { r.Time = 0 },
						func(r *data.Root) { r.Prev = cipher.SHA256{} },
						func(r *data.Root) { r.Seq = 0 },
					} {
						r := root(77)
						mod(r)
						if err := rs.Set(r); err == nil {
							return fmt.Sprint("an invalid root is accepted, case ", i)
						}
					}
					return ""
				})
				withRoots("Stop", func(rs data.Roots, m map[uint64]bool) string {
					for _, e := range []error{data.ErrStopIteration, errTest} {
						var want error
						if e == errTest && len(m) > 0 {
							want = e
						}
						n := 0
						cb := func(*data.Root) error { n++; return e }
						if err := rs.Ascend(cb); err != want {
							return fmt.Sprintf("Ascend gives %v, want %v", err, want)
						}
						if err := rs.Descend(cb); err != want {
							return fmt.Sprintf("Descend gives %v, want %v", err, want)
						}
						if n != 2*min(1, len(m)) {
							return fmt.Sprintf("%d calls", n)
						}
					}
					return ""
				})
				// delete during iteration
				for _, asc := range []bool{true, false} {
					withRoots(fmt.Sprintf("delete while iterating, ascending %v", asc), func(rs data.Roots, m map[uint64]bool) string {
						var got []uint64
						cb := func(r *data.Root) error {
							got = append(got, r.Seq)
							if len(got) > 50 {
								return errTest
							}
							return rs.Del(r.Seq)
						}
						var err error
						if asc {
							err = rs.Ascend(cb)
						} else {
							err = rs.Descend(cb)
						}
						n := len(m)
						for k := range m {
							delete(m, k)
						}
						if err != nil || len(got) != n {
							return fmt.Sprintf("%d of %d roots visited: %v, error %v", len(got), n, got, err)
						}
						return ""
					})
				}
			}
		}
	}
	add("StopFeeds", func(fs data.Feeds, m idx) string {
		for _, e := range []error{data.ErrStopIteration, errTest} {
			var want error
			if e == errTest && len(m) > 0 {
				want = e
			}
			n := 0
			if err := fs.Iterate(func(cipher.PubKey) error { n++; return e }); err != want {
				return fmt.Sprintf("Iterate gives %v, want %v", err, want)
			}
			if n != min(1, len(m)) {
				return fmt.Sprintf("%d calls", n)
			}
			for f := range m {
				hs, err := fs.Heads(pk(f))
				if err != nil {
					return err.Error()
				}
				want = nil
				if e == errTest && len(m[f]) > 0 {
					want = e
				}
				n = 0
				if err := hs.Iterate(func(uint64) error { n++; return e }); err != want {
					return fmt.Sprintf("Heads.Iterate gives %v, want %v", err, want)
				}
				if n != min(1, len(m[f])) {
					return fmt.Sprintf("%d calls", n)
				}
			}
		}
		return ""
	})
	add("delete feeds while iterating", func(fs data.Feeds, m idx) string {
		var got []int
		err := fs.Iterate(func(p cipher.PubKey) error {
			got = append(got, feedOf(p))
			if len(got) > 50 {
				return errTest
			}
			return fs.Del(p)
		})
		n := len(m)
		for f := range m {
			delete(m, f)
		}
		if err != nil || len(got) != n {
			return fmt.Sprintf("%d of %d feeds visited: %v, error %v", len(got), n, got, err)
		}
		return ""
	})
	return
}

func peekRoot(rs data.Roots, seq uint64) (r *data.Root) {
	n := 0
	rs.Ascend(func(x *data.Root) error {
		if x.Seq == seq {
			c := *x
			r = &c
		}
		if n++; n > 50 {
			return errTest
		}
		return nil
	})
	return
}

func openIdx(name string) (data.IdxDB, error) { return idxdb.NewDriveIdxDB(name) }

func idxNames(ops []iop) (ns []string) {
	for _, o := range ops {
		ns = append(ns, o.name)
	}
	return
}

func d04(r *core.R) {
	r.Rule("a case is a history of index operations, in one or in several transactions, possibly with reopening; results and the whole content are compared with a plain model")
	run := func(ops []iop) func(h []int) core.Step {
		return func(h []int) core.Step {
			name := tempName()
			defer os.Remove(name)
			db, err := openIdx(name)
			if err != nil {
				return core.Step{Bad: err.Error()}
			}
			defer func() { db.Close() }()
			m := idx{}
			for k, x := range h {
				bad := ""
				err := db.Tx(func(fs data.Feeds) error {
					if bad = ops[x].run(fs, m); bad == "" && k == len(h)-1 {
						var d idx
						if d, bad = dump(fs); bad == "" && d.String() != m.String() {
							bad = fmt.Sprintf("inside the transaction the index holds {%v}, want {%v}", d, m)
						}
					}
					return nil
				})
				if bad == "" && err != nil {
					bad = "Tx: " + err.Error()
				}
				if bad != "" {
					return core.Step{Bad: ops[x].name + ": " + bad}
				}
			}
			for i := 0; i < 2; i++ {
				bad := ""
				err := db.Tx(func(fs data.Feeds) error {
					var d idx
					if d, bad = dump(fs); bad == "" && d.String() != m.String() {
						bad = fmt.Sprintf("the index holds {%v}, want {%v}", d, m)
					}
					return nil
				})
				if err != nil || bad != "" {
					return core.Step{Bad: fmt.Sprint(map[int]string{0: "", 1: "after reopening: "}[i], bad, err)}
				}
				if i == 0 {
					if err := db.Close(); err != nil {
						return core.Step{Bad: "Close: " + err.Error()}
					}
					if db, err = openIdx(name); err != nil {
						return core.Step{Bad: "reopening: " + err.Error()}
					}
				}
			}
			r.Outcome(m.String())
			return core.Step{Canon: "state " + m.String()}
		}
	}
	ops := idxOps(2, 1, 2)
	r.BFS("2 feeds, 1 head, 2 roots", idxNames(ops), r.Pick(8, 14), true, run(ops))
	ops = idxOps(1, 2, 3)
	r.BFS("1 feed, 2 heads, 3 roots", idxNames(ops), r.Pick(8, 14), true, run(ops))
	ops = idxOps(1, 1, 5)
	r.BFS("1 feed, 1 head, 5 roots", idxNames(ops), r.Pick(8, 14), true, run(ops))
	ops = idxOps(1, 1, 2)
	r.BFS("1 feed, 1 head, 2 roots, no merging", idxNames(ops), r.Pick(3, 4), false, run(ops))
	// many roots: several pages
	n := r.Pick(300, 1500)
	bad := ""
	p := r.Guard(func() string { return "many roots" }, func() { bad = manyRoots(n) })
	if p+bad != "" {
		r.Violate(fmt.Sprintf("%d roots", n), p+bad, nil)
	}
	r.Bound("%d roots in one head, set in a scattered order, enumerated, deleted", n)
	nearFeeds(r)
	setValidated(r)
}

func manyRoots(n int) (bad string) {
	name := tempName()
	defer os.Remove(name)
	db, err := openIdx(name)
	if err != nil {
		return err.Error()
	}
	defer db.Close()
	var rs data.Roots
	step := func(fn func() string) {
		if bad != "" {
			return
		}
		err := db.Tx(func(fs data.Feeds) error {
			if err := fs.Add(pk(3)); err != nil {
				return err
			}
			hs, err := fs.Heads(pk(3))
			if err != nil {
				return err
			}
			if rs, err = hs.Add(7); err != nil {
				return err
			}
			bad = fn()
			return nil
		})
		if err != nil {
			bad = err.Error()
		}
	}
	count := func(want int, from uint64) string {
		next := from
		c := 0
		err := rs.Ascend(func(r *data.Root) error {
			if r.Seq != next || r.Hash != root(r.Seq).Hash {
				return fmt.Errorf("root %d, want %d", r.Seq, next)
			}
			next++
			c++
			return nil
		})
		if err != nil || c != want || rs.Len() != want {
			return fmt.Sprintf("Ascend: %v, %d roots, Len %d, want %d", err, c, rs.Len(), want)
		}
		c = 0
		err = rs.Descend(func(r *data.Root) error {
			next--
			c++
			if r.Seq != next {
				return fmt.Errorf("root %d, want %d", r.Seq, next)
			}
			return nil
		})
		if err != nil || c != want {
			return fmt.Sprintf("Descend: %v, %d roots, want %d", err, c, want)
		}
		return ""
	}
	for b := 0; b < 3; b++ {
		step(func() string {
			for i := b; i < n; i += 3 {
				if err := rs.Set(root(uint64(i))); err != nil {
					return err.Error()
				}
			}
			if b == 2 {
				return count(n, 0)
			}
			return ""
		})
	}
	step(func() string { return count(n, 0) })
	step(func() string {
		for i := 0; i < n/2; i++ {
			if err := rs.Del(uint64(i)); err != nil {
				return err.Error()
			}
		}
		return count(n-n/2, uint64(n/2))
	})
	step(func() string { return count(n-n/2, uint64(n/2)) })
	return
}

func d05(r *core.R) {
	r.Rule("a case is a committed history followed by one transaction of several operations that ends with nil, an error or a panic; visibility during and after it is compared with the model")
	ops := idxOps(2, 1, 2)
	var use []iop
	for _, o := range ops {
		if !strings.HasPrefix(o.name, "Get") && !strings.HasPrefix(o.name, "Stop") && !strings.Contains(o.name, "iterating") && o.name != "SetInvalid(f0,0)" {
			use = append(use, o)
		}
	}
	names := idxNames(use)
	// prefixes: representative committed states
	find := func(n string) int {
		for i := range names {
			if names[i] == n {
				return i
			}
		}
		panic("no operation " + n)
	}
	var prefixes [][]int
	for _, p := range [][]string{{}, {"AddFeed(f0)"}, {"AddFeed(f0)", "AddHead(f0,0)"}, {"AddFeed(f0)", "AddHead(f0,0)", "Set 0(f0,0)"},
		{"AddFeed(f1)", "AddHead(f1,0)", "Set 0(f1,0)", "AddFeed(f0)", "AddHead(f0,0)", "Set 0(f0,0)", fmt.Sprintf("Set %d(f0,0)", seqs[1])}} {
		var h []int
		for _, x := range p {
			h = append(h, find(x))
		}
		prefixes = append(prefixes, h)
	}
	for pi, pre := range prefixes {
		for _, end := range []string{"nil", "error", "stop", "panic"} {
			depth := r.Pick(3, 4)
			if end != "error" {
				depth--
			}
			name := fmt.Sprintf("prefix %d, transaction ends with %s", pi, end)
			r.BFS(name, names, depth, false, func(h []int) core.Step {
				fn := tempName()
				defer os.Remove(fn)
				db, err := openIdx(fn)
				if err != nil {
					return core.Step{Bad: err.Error()}
				}
				defer func() { db.Close() }()
				m := idx{}
				bad := ""
				for _, x := range pre {
					if err := db.Tx(func(fs data.Feeds) error { bad += use[x].run(fs, m); return nil }); err != nil || bad != "" {
						return core.Step{Bad: fmt.Sprint("prefix: ", bad, err)}
					}
				}
				before := m.clone()
				var times string
				db.Tx(func(fs data.Feeds) error { times = stamps(fs); return nil })
				var werr error
				switch end {
				case "error":
					werr = errors.New("the transaction fails")
				case "stop":
					werr = data.ErrStopIteration
				}
				body := func() {
					err = db.Tx(func(fs data.Feeds) error {
						for _, x := range h {
							if bad = use[x].run(fs, m); bad != "" {
								return nil
							}
						}
						d, b := dump(fs)
						if bad = b; bad == "" && d.String() != m.String() {
							bad = fmt.Sprintf("inside the transaction the index holds {%v}, want {%v}", d, m)
						}
						if end == "panic" {
							panic(errTest)
						}
						return werr
					})
				}
				if end == "panic" {
					core.Catch(body)
				} else {
					body()
					if bad == "" && err != werr {
						bad = fmt.Sprintf("Tx returns %v, want %v", err, werr)
					}
				}
				if bad != "" {
					return core.Step{Bad: bad}
				}
				want := m
				if end != "nil" {
					want = before
				}
				for i := 0; i < 2; i++ {
					var ts string
					err = db.Tx(func(fs data.Feeds) error {
						d, b := dump(fs)
						ts = stamps(fs)
						if bad = b; bad == "" && d.String() != want.String() {
							bad = fmt.Sprintf("after the transaction the index holds {%v}, want {%v}", d, want)
						}
						return nil
					})
					if bad == "" && err != nil {
						bad = err.Error()
					}
					if bad == "" && end != "nil" && ts != times {
						bad = "an aborted transaction changed records"
					}
					if bad != "" {
						return core.Step{Bad: bad}
					}
					db.Close()
					if db, err = openIdx(fn); err != nil {
						return core.Step{Bad: "reopening: " + err.Error()}
					}
				}
				r.Outcome(end + want.String())
				return core.Step{Canon: "state " + want.String()}
			})
		}
	}
	faults(r, idxFaults(), r.Pick(4, 5))
	setValidated(r)
}

func stamps(fs data.Feeds) string {
	var s strings.Builder
	fs.Iterate(func(p cipher.PubKey) error {
		hs, _ := fs.Heads(p)
		return hs.Iterate(func(n uint64) error {
			rs, _ := hs.Roots(n)
			c := 0
			return rs.Ascend(func(r *data.Root) error {
				fmt.Fprintf(&s, "%v", *r)
				if c++; c > 50 {
					return errTest
				}
				return nil
			})
		})
	})
	return s.String()
}
