package main

import (
	"errors"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/skycoin/skycoin/src/cipher"

	"github.com/skycoin/cxo/data"
	"github.com/skycoin/cxo/data/cxds"
	"github.com/skycoin/cxo/data/idxdb"
	"github.com/skycoin/cxo/skyobject"
	"github.com/skycoin/cxo/skyobject/registry"

	"vmc/core"
	"vmc/fake"
)

// identity of a feed
type ident struct {
	pk cipher.PubKey
	sk cipher.SecKey
}

var idents = func() (ids []ident) {
	for i := 0; i < 4; i++ {
		pk, sk, err := cipher.GenerateDeterministicKeyPair([]byte{'f', byte(i)})
		if err != nil {
			panic(err)
		}
		ids = append(ids, ident{pk, sk})
	}
	return
}()

// blank roots of the index check, by feed, head, seq
type iroot struct {
	r   *registry.Root
	val []byte
}

type iconf struct {
	name   string
	feeds  int
	nonces []uint64
	seqs   []uint64
	time   func(f, n, s int) int64
	files  bool
	only   []string
	depth  int
	dedup  bool
}

func mkIroot(f int, nonce, seq uint64, time int64) iroot {
	r := &registry.Root{Pub: idents[f].pk, Nonce: nonce, Seq: seq, Time: time, Reg: registryN(0).Reference(), Descriptor: []byte("d")}
	if seq > 0 {
		r.Prev = cipher.SumSHA256([]byte(fmt.Sprint(f, nonce, seq)))
	}
	val := r.Encode()
	r.Hash = cipher.SumSHA256(val)
	sig, err := cipher.SignHash(r.Hash, idents[f].sk)
	if err != nil {
		panic(err)
	}
	r.Sig = sig
	return iroot{r, val}
}

// indexRun is one execution
type indexRun struct {
	cf    iconf
	roots [][][]iroot // feed, head, seq
	c     *skyobject.Container
	cx    *fake.CXDS
	ix    *fake.Idx
	dir   string
	m     []map[int]map[int]bool // feed -> head -> seq; nil if no such feed
}

func (x *indexRun) open() (err error) {
	conf := skyobject.NewConfig()
	conf.DataDir = ""
	conf.CacheMaxAmount, conf.CacheMaxVolume = 0, 0
	if x.cf.files {
		var cx data.CXDS
		var ix data.IdxDB
		if cx, err = cxds.NewDriveCXDS(filepath.Join(x.dir, "cx")); err != nil {
			return
		}
		if ix, err = idxdb.NewDriveIdxDB(filepath.Join(x.dir, "ix")); err != nil {
			return
		}
		conf.DB = data.NewDB(cx, ix)
	} else {
		conf.DB = data.NewDB(x.cx, x.ix)
	}
	x.c, err = skyobject.NewContainer(conf)
	return
}

func (x *indexRun) close() {
	if x.c != nil {
		x.c.Close()
		x.c.Index.Close()
	}
}

type iop struct {
	name string
	run  func(x *indexRun) string
}

var errInjected = errors.New("injected failure")

func wantErr(what string, err, want error) string {
	if (err == nil) != (want == nil) || want != nil && err != want && err.Error() != want.Error() {
		return fmt.Sprintf("%s returns %v, want %v", what, err, want)
	}
	return ""
}

// exist returns the error for a missing feed or head
func (x *indexRun) exist(f, n int) error {
	switch {
	case x.m[f] == nil:
		return data.ErrNoSuchFeed
	case n >= 0 && x.m[f][n] == nil:
		return data.ErrNoSuchHead
	}
	return nil
}

func (cf iconf) ops() (ops []iop) {
	add := func(name string, run func(x *indexRun) string) {
		if cf.only != nil {
			ok := false
			for _, p := range cf.only {
				ok = ok || strings.HasPrefix(name, p)
			}
			if !ok {
				return
			}
		}
		ops = append(ops, iop{name, run})
	}
	for f := 0; f < cf.feeds; f++ {
		pk := idents[f].pk
		add(fmt.Sprintf("AddFeed(%d)", f), func(x *indexRun) string {
			if x.m[f] == nil {
				x.m[f] = map[int]map[int]bool{}
			}
			return wantErr("AddFeed", x.c.AddFeed(pk), nil)
		})
		add(fmt.Sprintf("DelFeed(%d)", f), func(x *indexRun) string {
			want := x.exist(f, -1)
			x.m[f] = nil
			return wantErr("DelFeed", x.c.DelFeed(pk), want)
		})
		for n, nonce := range cf.nonces {
			add(fmt.Sprintf("AddHead(%d,%d)", f, nonce), func(x *indexRun) string {
				want := x.exist(f, -1)
				if want == nil && x.m[f][n] == nil {
					x.m[f][n] = map[int]bool{}
				}
				return wantErr("AddHead", x.c.AddHead(pk, nonce), want)
			})
			add(fmt.Sprintf("DelHead(%d,%d)", f, nonce), func(x *indexRun) string {
				want := x.exist(f, n)
				if want == nil {
					delete(x.m[f], n)
				}
				return wantErr("DelHead", x.c.DelHead(pk, nonce), want)
			})
			for s, seq := range cf.seqs {
				add(fmt.Sprintf("AddRoot(%d,%d,%d)", f, nonce, seq), func(x *indexRun) string {
					want := x.exist(f, -1)
					have := want == nil && x.m[f][n][s]
					ir := x.roots[f][n][s]
					r := *ir.r
					r.IsFull = true
					if want == nil && !have {
						// who adds a root has its objects
						if _, err := x.c.Set(r.Hash, ir.val, 1); err != nil {
							return err.Error()
						}
						reg := registryN(0)
						if _, err := x.c.Set(cipher.SHA256(reg.Reference()), reg.Encode(), 1); err != nil {
							return err.Error()
						}
						if x.m[f][n] == nil {
							x.m[f][n] = map[int]bool{}
						}
						x.m[f][n][s] = true
					}
					already, err := x.c.AddRoot(&r)
					if err == nil && want == nil && already != have {
						return fmt.Sprintf("AddRoot says alreadyHave=%v, want %v", already, have)
					}
					return wantErr("AddRoot", err, want)
				})
				add(fmt.Sprintf("DelRoot(%d,%d,%d)", f, nonce, seq), func(x *indexRun) string {
					want := x.exist(f, n)
					if want == nil && !x.m[f][n][s] {
						want = data.ErrNotFound
					}
					if want == nil {
						delete(x.m[f][n], s)
					}
					return wantErr("DelRoot", x.c.DelRoot(pk, nonce, seq), want)
				})
			}
		}
	}
	add("Reopen", func(x *indexRun) string {
		x.close()
		if err := x.open(); err != nil {
			return "opening again: " + err.Error()
		}
		return ""
	})
	return
}

func sorted[K int | uint64](m []K) string {
	sort.Slice(m, func(i, j int) bool { return m[i] < m[j] })
	return fmt.Sprint(m)
}

func (x *indexRun) last(f, n int) (s int) {
	s = -1
	for q := range x.m[f][n] {
		if s < 0 || x.cf.seqs[q] > x.cf.seqs[s] {
			s = q
		}
	}
	return
}

func sameRoot(what string, r *registry.Root, err error, w *registry.Root, werr error) string {
	if bad := wantErr(what, err, werr); bad != "" || werr != nil {
		return bad
	}
	if r == nil || r.Hash != w.Hash || r.Sig != w.Sig || !r.IsFull || string(r.Encode()) != string(w.Encode()) {
		return fmt.Sprintf("%s returns root %+v, want %+v (full)", what, r, w)
	}
	return ""
}

// observe compares everything the container reports with the model
func (x *indexRun) observe() string {
	c, cf := x.c, x.cf
	var feeds []int
	for f := range x.m {
		if x.m[f] != nil {
			feeds = append(feeds, f)
		}
	}
	var have []int
	for _, pk := range c.Feeds() {
		k := -1
		for f := 0; f < cf.feeds; f++ {
			if idents[f].pk == pk {
				k = f
			}
		}
		have = append(have, k)
	}
	if h, w := sorted(have), sorted(feeds); h != w {
		return fmt.Sprintf("Feeds returns %s, want %s", h, w)
	}
	if r, err := c.RootByHash(cipher.SHA256(registryN(0).Reference())); err == nil {
		return fmt.Sprintf("RootByHash returns %+v for an object that is not a root", r)
	}
	st := c.Stat()
	if len(st.Feeds) != len(feeds) {
		return fmt.Sprintf("Stat has %d feeds, want %d", len(st.Feeds), len(feeds))
	}
	for f := range x.m {
		pk := idents[f].pk
		if h := c.HasFeed(pk); h != (x.m[f] != nil) {
			return fmt.Sprintf("HasFeed(%d) is %v", f, h)
		}
		var heads []uint64
		for n := range x.m[f] {
			heads = append(heads, cf.nonces[n])
		}
		hh, err := c.Heads(pk)
		if bad := wantErr("Heads", err, x.exist(f, -1)); bad != "" {
			return bad
		}
		if h, w := sorted(hh), sorted(heads); h != w {
			return fmt.Sprintf("Heads(%d) returns %s, want %s", f, h, w)
		}
		if sh := st.Feeds[pk].Heads; len(sh) != len(heads) {
			return fmt.Sprintf("Stat has %d heads of feed %d, want %d", len(sh), f, len(heads))
		}
		active := map[uint64]bool{}
		newest := int64(math.MinInt64)
		for n, nonce := range cf.nonces {
			if h := c.HasHead(pk, nonce); h != (x.m[f][n] != nil) {
				return fmt.Sprintf("HasHead(%d,%d) is %v", f, nonce, h)
			}
			want := x.exist(f, n)
			s := x.last(f, n)
			if want == nil && s < 0 {
				want = data.ErrNotFound
			}
			seq, err := c.LastRootSeq(pk, nonce)
			if bad := wantErr("LastRootSeq", err, want); bad != "" {
				return bad
			}
			if want == nil && seq != cf.seqs[s] {
				return fmt.Sprintf("LastRootSeq(%d,%d) is %d, want %d", f, nonce, seq, cf.seqs[s])
			}
			var w *registry.Root
			if want == nil {
				w = x.roots[f][n][s].r
				if w.Time > newest {
					newest, active = w.Time, map[uint64]bool{}
				}
				if w.Time == newest {
					active[nonce] = true
				}
			}
			r, err := c.LastRoot(pk, nonce)
			if bad := sameRoot(fmt.Sprintf("LastRoot(%d,%d)", f, nonce), r, err, w, want); bad != "" {
				return bad
			}
			sh := st.Feeds[pk].Heads[nonce]
			if sh.Len != len(x.m[f][n]) {
				return fmt.Sprintf("Stat says that head (%d,%d) has %d roots, want %d", f, nonce, sh.Len, len(x.m[f][n]))
			}
			if w != nil && (sh.Last.Seq != w.Seq || sh.Last.Hash != w.Hash || sh.Last.Time.UnixNano() != w.Time) {
				return fmt.Sprintf("Stat says that the last root of head (%d,%d) is %v, want %s", f, nonce, sh.Last, w.Short())
			}
			first := -1
			for q, seq := range cf.seqs {
				ir := x.roots[f][n][q]
				in := x.m[f][n][q]
				want := x.exist(f, n)
				if want == nil && !in {
					want = data.ErrNotFound
				}
				if in && (first < 0 || seq < cf.seqs[first]) {
					first = q
				}
				r, err := c.Root(pk, nonce, seq)
				if bad := sameRoot(fmt.Sprintf("Root(%d,%d,%d)", f, nonce, seq), r, err, ir.r, want); bad != "" {
					return bad
				}
				if r, err = c.RootByHash(ir.r.Hash); in {
					if bad := sameRoot(fmt.Sprintf("RootByHash(%d,%d,%d)", f, nonce, seq), r, err, ir.r, nil); bad != "" {
						return bad
					}
				} else if err == nil {
					return fmt.Sprintf("RootByHash finds the root (%d,%d,%d)", f, nonce, seq)
				}
				r, err = c.ReceivedRoot(pk, ir.r.Sig, ir.val)
				want = x.exist(f, -1)
				if bad := wantErr("ReceivedRoot", err, want); bad != "" {
					return bad
				}
				if want == nil && (r.IsFull != in || r.Hash != ir.r.Hash || r.Sig != ir.r.Sig) {
					return fmt.Sprintf("ReceivedRoot(%d,%d,%d) returns %v IsFull=%v", f, nonce, seq, r, r.IsFull)
				}
			}
			if first >= 0 && sh.Len > 1 && (sh.First.Seq != cf.seqs[first] || sh.First.Hash != x.roots[f][n][first].r.Hash) {
				return fmt.Sprintf("Stat says that the first root of head (%d,%d) is %v", f, nonce, sh.First)
			}
		}
		if a := c.ActiveHead(pk); !active[a] && !(a == 0 && len(active) == 0) {
			return fmt.Sprintf("ActiveHead(%d) is %d, want one of %v", f, a, active)
		}
	}
	// the index DB has the same
	bad := ""
	db := func(err error) bool {
		if err != nil && bad == "" {
			bad = "index DB: " + err.Error()
		}
		return bad == ""
	}
	db(c.DB().IdxDB().Tx(func(fs data.Feeds) (err error) {
		if fs.Len() != len(feeds) {
			bad = fmt.Sprintf("the index DB has %d feeds, want %d", fs.Len(), len(feeds))
		}
		for _, f := range feeds {
			hs, err := fs.Heads(idents[f].pk)
			if !db(err) {
				return nil
			}
			if hs.Len() != len(x.m[f]) {
				bad = fmt.Sprintf("the index DB has %d heads of feed %d, want %d", hs.Len(), f, len(x.m[f]))
			}
			for n, qs := range x.m[f] {
				rs, err := hs.Roots(cf.nonces[n])
				if !db(err) {
					return nil
				}
				if rs.Len() != len(qs) {
					bad = fmt.Sprintf("the index DB has %d roots of head (%d,%d), want %d", rs.Len(), f, cf.nonces[n], len(qs))
				}
				for q := range qs {
					dr, err := rs.Get(cf.seqs[q])
					if !db(err) {
						return nil
					}
					if r := x.roots[f][n][q].r; dr.Hash != r.Hash || dr.Sig != r.Sig || dr.Prev != r.Prev || dr.Time != r.Time || dr.Seq != r.Seq {
						bad = fmt.Sprintf("the index DB has %+v, want %+v", dr, r)
					}
				}
			}
		}
		return
	}))
	return bad
}

func (x *indexRun) state() string {
	var b strings.Builder
	for f := range x.m {
		if x.m[f] == nil {
			b.WriteString("-;")
			continue
		}
		for n := range x.cf.nonces {
			if x.m[f][n] == nil {
				b.WriteString("-,")
				continue
			}
			for s := range x.cf.seqs {
				if x.m[f][n][s] {
					fmt.Fprint(&b, s)
				}
			}
			b.WriteString(",")
		}
		b.WriteString(";")
	}
	return b.String()
}

func (x *indexRun) clone() (m []map[int]map[int]bool) {
	for _, hs := range x.m {
		var ch map[int]map[int]bool
		if hs != nil {
			ch = map[int]map[int]bool{}
			for n, qs := range hs {
				ch[n] = map[int]bool{}
				for q := range qs {
					ch[n][q] = true
				}
			}
		}
		m = append(m, ch)
	}
	return
}

func indexExplore(r *core.R, cf iconf) {
	var names []string
	ops := cf.ops()
	for _, o := range ops {
		names = append(names, o.name)
	}
	var roots [][][]iroot
	for f := 0; f < cf.feeds; f++ {
		var hs [][]iroot
		for n, nonce := range cf.nonces {
			var qs []iroot
			for s, seq := range cf.seqs {
				qs = append(qs, mkIroot(f, nonce, seq, cf.time(f, n, s)))
			}
			hs = append(hs, qs)
		}
		roots = append(roots, hs)
	}
	var start []int
	for i, o := range ops { // all feeds exist first
		if strings.HasPrefix(o.name, "AddFeed") {
			start = append(start, i)
		}
	}
	starts := [][]int{{}, start}
	if cf.only != nil {
		starts = [][]int{start}
	}
	r.BFSFrom("index, "+cf.name, names, starts, cf.depth, cf.dedup, func(h []int) core.Step {
		x := &indexRun{cf: cf, roots: roots, cx: fake.NewCXDS(), ix: fake.NewIdx(), m: make([]map[int]map[int]bool, cf.feeds)}
		if cf.files {
			x.dir = core.Scratch()
			defer os.RemoveAll(x.dir)
		}
		if err := x.open(); err != nil {
			return core.Step{Bad: err.Error()}
		}
		defer x.close()
		for i, op := range h {
			lastOp := i == len(h)-1
			if lastOp && !cf.files && ops[op].name != "Reopen" {
				// the index DB fails
				m, txs := x.clone(), x.ix.Txs
				x.ix.Fail = func() error { return errInjected }
				x.m = x.clone()
				ops[op].run(x)
				x.ix.Fail = nil
				if x.ix.Txs > txs {
					x.m = m
					if bad := x.observe(); bad != "" {
						return core.Step{Bad: "after " + ops[op].name + " that failed since the index DB fails: " + bad}
					}
				} else {
					x.m = m
				}
			}
			bad := ops[op].run(x)
			if bad == "" && lastOp {
				bad = x.observe()
			}
			if bad != "" {
				return core.Step{Bad: bad}
			}
		}
		if len(h) > 0 && !cf.files {
			// what a new container on the same DBs reports
			old := x.c
			defer old.Index.Close()
			if err := x.open(); err != nil {
				return core.Step{Bad: "opening again: " + err.Error()}
			}
			if bad := x.observe(); bad != "" {
				return core.Step{Bad: "after opening again: " + bad}
			}
		}
		r.Validated.Add(1)
		s := x.state()
		r.Outcome(cf.name + s)
		return core.Step{Canon: s}
	})
}

func c06(r *core.R) {
	r.Rule("a case is one history of changes of the index on a fresh container; after its last operation every report of the container, and the index DB, are compared with a plain model; then again after the same operation with a failing index DB and in a container opened again")
	up := func(f, n, s int) int64 { return int64(1000 + 10*s + n) }
	down := func(f, n, s int) int64 { return int64(1000 - 10*s + n) }
	cross := func(f, n, s int) int64 { return int64(1000 + 10*(s*(1-2*n)) + n) }
	same := func(f, n, s int) int64 { return 1000 }
	past := func(f, n, s int) int64 { return int64(10*(s-1) - n - 1) } // negative, then positive
	type tf struct {
		name string
		fn   func(f, n, s int) int64
	}
	// operations remembers nothing but the state, if the code does: both
	for i, t := range []tf{{"dated up", up}, {"dated down", down}, {"one head up, one down", cross}, {"same date", same}, {"dated before 1970", past}} {
		indexExplore(r, iconf{name: "one feed, two heads, every history, " + t.name, feeds: 1, nonces: []uint64{1, 2}, seqs: []uint64{0, 1, 2}, time: t.fn, depth: r.Pick(3+i%2, 5)})
		indexExplore(r, iconf{name: "one feed, two heads, by state, " + t.name, feeds: 1, nonces: []uint64{1, 2}, seqs: []uint64{0, 1, 2}, time: t.fn, depth: 12, dedup: true})
	}
	indexExplore(r, iconf{name: "one feed, roots of two heads", feeds: 1, nonces: []uint64{1, 2}, seqs: []uint64{0, 1}, time: cross, depth: r.Pick(5, 7), only: []string{"AddFeed", "AddRoot", "DelRoot", "DelHead"}})
	indexExplore(r, iconf{name: "two feeds, extreme numbers, every history", feeds: 2, nonces: []uint64{0, ^uint64(0)}, seqs: []uint64{1, ^uint64(0)}, time: cross, depth: r.Pick(3, 4)})
	indexExplore(r, iconf{name: "two feeds, extreme numbers, by state", feeds: 2, nonces: []uint64{0, ^uint64(0)}, seqs: []uint64{1, ^uint64(0)}, time: cross, depth: 14, dedup: true})
	indexExplore(r, iconf{name: "files", feeds: 1, nonces: []uint64{1, 2}, seqs: []uint64{0, 1}, time: cross, depth: r.Pick(3, 4), files: true})
}
