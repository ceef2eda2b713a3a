package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	"github.com/skycoin/skycoin/src/cipher"

	"github.com/skycoin/cxo/cxoutils"
	"github.com/skycoin/cxo/data"
	"github.com/skycoin/cxo/skyobject"
	"github.com/skycoin/cxo/skyobject/registry"

	"vmc/core"
	"vmc/vsched"
)

// an operation that runs while others run
type cop2 struct {
	name string
	run  func(y *concRun) *cev
}

// what was observed of an operation
type cev struct {
	name      string
	call, ret int
	err       error
	add       *mroot              // root that is stored if err is nil
	clean     bool                // removes objects nothing refers to
	seq       *mroot              // root with a given seq
	fill      *registry.Root      // the filled one
	match     func(r *mroot) bool // roots an operation deletes
	exact     bool                // deletes them all if err is nil
	may       func(err error) bool
	bad       string
}

type concRun struct {
	*worldRun
	clock  int
	faults bool
	hit    bool
	evs    []*cev
}

func (y *concRun) tick() int { y.clock++; return y.clock }

// noErr is an operation that can't fail
func noErr(err error) bool { return false }

func oneOf(errs ...error) func(err error) bool {
	return func(err error) bool {
		for _, e := range errs {
			if err == e {
				return true
			}
		}
		return false
	}
}

func (y *concRun) fault() error {
	if y.faults && !y.hit && vsched.Choose(2) == 1 {
		y.hit = true
		return errInjected
	}
	return nil
}

// cSave saves content k
func cSave(f, n, k int) cop2 {
	return cop2{fmt.Sprintf("Save(%d,%d,%s)", f, n, cat.contents[k].name), func(y *concRun) (e *cev) {
		e = &cev{call: y.tick(), may: oneOf(data.ErrNoSuchFeed)}
		r := y.newRoot(f, n, k)
		up, err := y.c.Unpack(idents[f].sk, cat.reg)
		if err == nil {
			if err = put(up, k); err == nil {
				err = y.c.Save(up, r)
			}
			for i := 0; i < 2; i++ {
				if cerr := up.Close(); cerr == nil {
					break
				} else if !y.hit || i == 1 {
					e.bad = "Close of the Unpack: " + cerr.Error()
				}
			}
		}
		e.err, e.ret = err, y.tick()
		if r.Hash != (hash{}) {
			e.add = &mroot{f, n, r.Seq, k, r.Hash, r.Encode()}
		}
		if err == nil {
			if verr := cipher.VerifyPubKeySignedHash(idents[f].pk, r.Sig, r.Hash); verr != nil || !r.IsFull {
				e.bad = fmt.Sprintf("the saved root is not signed or not full: %v", verr)
			}
		}
		return
	}}
}

// fconf configures a filling
type fconf struct {
	f, n, k int
	seq     uint64
	parall  int
	without hash // never arrives, the filling is closed
	stop    bool // closed at any time
	twice   bool // everything arrives twice
}

// cFill fills a root from a remote that answers in any order
func cFill(c fconf) cop2 {
	name := fmt.Sprintf("Fill(%d,%d,%s,seq %d, %d in parallel", c.f, c.n, cat.contents[c.k].name, c.seq, c.parall)
	if c.without != (hash{}) {
		name += ", without " + cat.name[c.without]
	}
	if c.stop {
		name += ", closed"
	}
	if c.twice {
		name += ", twice"
	}
	return cop2{name + ")", func(y *concRun) (e *cev) {
		r := y.remoteRoot(c.f, c.n, c.k, c.seq)
		e = &cev{call: y.tick(), fill: r, add: &mroot{c.f, c.n, c.seq, c.k, r.Hash, r.Encode()}}
		e.seq = e.add
		rq, stop := make(chan hash), make(chan struct{})
		f := y.c.Fill(r, rq, c.parall)
		closed := false
		left := 0
		goes := func(fn func()) {
			left++
			vsched.Go(func() { fn(); left-- })
		}
		shut := func() { closed = true; f.Close() }
		goes(func() {
			for {
				s := vsched.Select(false, vsched.RCase(stop), vsched.RCase(rq))
				if s.I == 0 {
					return
				}
				key := vsched.Val(rq, s)
				if key == c.without {
					goes(shut)
					continue
				}
				val, ok := cat.val[key]
				if !ok {
					e.bad = "the filler requests an unknown object"
					goes(shut)
					continue
				}
				for i := 0; i < 1+btoi(c.twice); i++ {
					goes(func() {
						if _, err := y.c.SetWanted(key, append([]byte(nil), val...)); err != nil {
							shut() // the object will never be there
						}
					})
				}
			}
		})
		if c.stop {
			goes(shut)
		}
		e.err = f.Run()
		vsched.Close(stop)
		f.Close()
		e.ret = y.tick()
		vsched.Block("end of the filling", func() bool { return left == 0 })
		e.may = func(err error) bool { return closed || err == data.ErrNoSuchFeed }
		if (e.err == nil) != r.IsFull {
			e.bad = fmt.Sprintf("the filling returns %v, and IsFull is %v", e.err, r.IsFull)
		}
		return
	}}
}

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}

// cDel deletes a root
func cDel(f, n int, seq uint64) cop2 {
	return cop2{fmt.Sprintf("DelRoot(%d,%d,%d)", f, n, seq), func(y *concRun) (e *cev) {
		e = &cev{call: y.tick(), exact: true, may: oneOf(data.ErrNotFound, data.ErrNoSuchHead, data.ErrNoSuchFeed),
			match: func(r *mroot) bool { return r.f == f && r.n == n && r.seq == seq }}
		e.err = y.c.DelRoot(idents[f].pk, y.cf.nonces[n], seq)
		e.ret = y.tick()
		return
	}}
}

func cDelHead(f, n int) cop2 {
	return cop2{fmt.Sprintf("DelHead(%d,%d)", f, n), func(y *concRun) (e *cev) {
		e = &cev{call: y.tick(), exact: true, may: oneOf(data.ErrNoSuchHead, data.ErrNoSuchFeed),
			match: func(r *mroot) bool { return r.f == f && r.n == n }}
		e.err = y.c.DelHead(idents[f].pk, y.cf.nonces[n])
		e.ret = y.tick()
		return
	}}
}

func cDelFeed(f int) cop2 {
	return cop2{fmt.Sprintf("DelFeed(%d)", f), func(y *concRun) (e *cev) {
		e = &cev{call: y.tick(), exact: true, may: oneOf(data.ErrNoSuchFeed),
			match: func(r *mroot) bool { return r.f == f }}
		e.err = y.c.DelFeed(idents[f].pk)
		e.ret = y.tick()
		return
	}}
}

func cKeep(n int) cop2 {
	return cop2{fmt.Sprintf("Keep(%d)", n), func(y *concRun) (e *cev) {
		// how many are newer is not known while others run
		e = &cev{call: y.tick(), may: noErr, match: func(r *mroot) bool { return true }}
		e.err = cxoutils.RemoveRootObjects(y.c, n)
		e.ret = y.tick()
		return
	}}
}

func cClean() cop2 {
	return cop2{"Clean", func(y *concRun) (e *cev) {
		e = &cev{call: y.tick(), may: noErr, clean: true}
		e.err = cxoutils.RemoveObjects(y.c)
		e.ret = y.tick()
		return
	}}
}

// cRead reads the last root of a head completely
func cRead(f, n int, sure bool) cop2 {
	return cop2{fmt.Sprintf("Read(%d,%d)", f, n), func(y *concRun) (e *cev) {
		e = &cev{call: y.tick(), may: oneOf(data.ErrNotFound, data.ErrNoSuchFeed, data.ErrNoSuchHead)}
		r, err := y.c.LastRoot(idents[f].pk, y.cf.nonces[n])
		if err == nil {
			if verr := cipher.VerifyPubKeySignedHash(idents[f].pk, r.Sig, cipher.SumSHA256(r.Encode())); verr != nil {
				e.bad = "the last root is not authentic"
			}
			err = y.c.Walk(r, func(h hash, _ int) (bool, error) {
				if h == (hash{}) {
					return false, nil
				}
				v, rc, err := y.c.Get(h, 0)
				if err == nil && cipher.SumSHA256(v) != h {
					e.bad = "wrong value"
				}
				if err == nil && rc == 0 && sure {
					e.bad = y.nameOf(h) + " of the last root has no references"
				}
				return true, err
			})
			if err != nil && sure {
				e.bad = "reading the last root: " + err.Error()
			}
		}
		e.err, e.ret = err, y.tick()
		return
	}}
}

// cIndex queries the index
func cIndex(f, n int) cop2 {
	return cop2{fmt.Sprintf("Index(%d,%d)", f, n), func(y *concRun) (e *cev) {
		e = &cev{call: y.tick(), may: noErr}
		pk, nonce := idents[f].pk, y.cf.nonces[n]
		y.c.Feeds()
		y.c.Heads(pk)
		y.c.HasHead(pk, nonce)
		y.c.ActiveHead(pk)
		s1, err1 := y.c.LastRootSeq(pk, nonce)
		r, err := y.c.Root(pk, nonce, s1)
		if err1 == nil && err == nil && r.Seq != s1 {
			e.bad = "Root returns another root"
		}
		y.c.Stat()
		e.ret = y.tick()
		return
	}}
}

// cReceive receives a root as the node does
func cReceive(f, n, k int, seq uint64) cop2 {
	return cop2{fmt.Sprintf("Receive(%d,%d,%d)", f, n, seq), func(y *concRun) (e *cev) {
		e = &cev{call: y.tick(), may: oneOf(data.ErrNoSuchFeed)}
		r := y.remoteRoot(f, n, k, seq)
		e.seq = &mroot{f, n, seq, k, r.Hash, nil}
		_, e.err = y.c.ReceivedRoot(r.Pub, r.Sig, r.Encode())
		e.ret = y.tick()
		return
	}}
}

// cPreview previews content k
func cPreview(k int) cop2 {
	return cop2{fmt.Sprintf("Preview(%s)", cat.contents[k].name), func(y *concRun) (e *cev) {
		e = &cev{call: y.tick(), may: noErr}
		g := &peer{asked: map[hash]int{}}
		r := y.remoteRoot(0, 0, k, 9)
		p, err := y.c.Preview(r, g)
		if err == nil {
			_, err = everything(p, r, false)
		}
		e.err, e.ret = err, y.tick()
		return
	}}
}

// taken says that another root may have taken the seq of the root
func (y *concRun) taken(e *cev) bool {
	if e.seq == nil {
		return false
	}
	same := func(m *mroot) bool {
		return m.f == e.seq.f && m.n == e.seq.n && m.seq == e.seq.seq && m.hash != e.seq.hash
	}
	for _, m := range y.roots {
		if same(m) {
			return true
		}
	}
	for _, o := range y.evs {
		if o != e && o.add != nil && o.err == nil && same(o.add) {
			return true
		}
	}
	return false
}

// removed says that objects a filling relied on were removed while it ran:
// it did not request them, because a full root had them
func (y *concRun) removed(e *cev) bool {
	del, clean := false, false
	for _, o := range y.evs {
		if o != e && o.call < e.ret && o.ret > e.call {
			del = del || o.match != nil
			clean = clean || o.clean
		}
	}
	return e.fill != nil && e.err == data.ErrNotFound && del && clean
}

// judge the end of an execution
func (y *concRun) judge() string {
	x := y.worldRun
	y.cx.Fail, y.ix.Fail = nil, nil
	for _, e := range y.evs {
		if e.bad != "" {
			return e.bad
		}
		if e.err != nil && !y.hit && !e.may(e.err) && !y.taken(e) && !y.removed(e) {
			return fmt.Sprintf("unexpected error of %s: %v", e.name, e.err)
		}
	}
	// what is in the index now
	have := map[hash]bool{}
	for f := range x.feed {
		x.feed[f] = false
	}
	x.heads = map[[2]int]bool{}
	bad := ""
	y.ix.Tx(func(fs data.Feeds) error {
		return fs.Iterate(func(pk cipher.PubKey) error {
			f := -1
			for i := range x.feed {
				if idents[i].pk == pk {
					f, x.feed[i] = i, true
				}
			}
			hs, err := fs.Heads(pk)
			if err != nil || f < 0 {
				bad = "unknown feed in the index"
				return nil
			}
			return hs.Iterate(func(nonce uint64) error {
				for n, m := range x.cf.nonces {
					if m == nonce {
						x.heads[[2]int{f, n}] = true
					}
				}
				rs, _ := hs.Roots(nonce)
				return rs.Ascend(func(dr *data.Root) error {
					if have[dr.Hash] {
						bad = "a root is in the index twice"
					}
					have[dr.Hash] = true
					return nil
				})
			})
		})
	})
	if bad != "" {
		return bad
	}
	type cand struct {
		r   *mroot
		ret int // added
	}
	var all []cand
	for _, m := range x.roots {
		all = append(all, cand{m, 0})
	}
	for _, e := range y.evs {
		if e.add == nil {
			continue
		}
		dup := false
		for _, c := range all {
			dup = dup || c.r.hash == e.add.hash
		}
		if e.err == nil && !dup {
			all = append(all, cand{e.add, e.ret})
		}
		if e.err != nil && !dup {
			x.gone = append(x.gone, e.add)
			x.look(e.add.hash)
		}
	}
	var present []*mroot
	for _, c := range all {
		must, mustnt := true, false
		for _, e := range y.evs {
			if e.match == nil || !e.match(c.r) {
				continue
			}
			if e.err == nil || y.hit {
				must = false
				if e.exact && e.call > c.ret && !y.hit {
					mustnt = true
				}
			}
		}
		name := x.nameOf(c.r.hash)
		for _, e := range y.evs {
			if e.add == c.r {
				name = fmt.Sprintf("the added root (%d,%d,%d)", c.r.f, x.cf.nonces[c.r.n], c.r.seq)
			}
		}
		switch {
		case have[c.r.hash] && mustnt:
			return name + " was deleted, but is there"
		case !have[c.r.hash] && must:
			return name + " is not there"
		}
		if have[c.r.hash] {
			present = append(present, c.r)
			delete(have, c.r.hash)
		} else {
			x.gone = append(x.gone, c.r)
		}
	}
	for h := range have {
		return "a root is in the index, but was not added with success: " + h.Hex()[:6]
	}
	x.roots = present
	// chain
	for _, c := range all {
		r, ok := parseRoot(c.r.val)
		if !ok {
			return "a root can't be parsed"
		}
		for _, e := range y.evs {
			if e.add != c.r || e.fill != nil {
				continue // chains of filled roots are not known here
			}
			if r.Seq == 0 && r.Prev != (hash{}) {
				return "the first root of a head has Prev"
			}
			if r.Seq > 0 {
				found := false
				for _, o := range all {
					found = found || o.r.hash == r.Prev && o.r.seq == r.Seq-1 && o.r.f == c.r.f && o.r.n == c.r.n
				}
				if !found {
					return fmt.Sprintf("the saved root with seq %d does not follow another one", r.Seq)
				}
			}
		}
	}
	// objects: those with references must be there, the others may
	want := x.counts()
	x.has = map[hash]bool{}
	for _, h := range x.all() {
		if want[h] > 0 {
			x.has[h] = true
		}
	}
	x.look(x.all()...)
	if bad = x.compare(); bad != "" {
		return bad
	}
	if bad = x.readable(); bad != "" {
		return bad
	}
	if x.cf.amount == 0 && !y.hit {
		// nothing can be kept, but what is referred to
		if err := cxoutils.RemoveObjects(x.c); err != nil {
			return "cleaning: " + err.Error()
		}
		for _, h := range x.all() {
			if want[h] == 0 {
				delete(x.has, h)
			}
			if x.c.IsCached(h) {
				return fmt.Sprintf("%s is still held or wanted", x.nameOf(h))
			}
		}
		if bad = x.compare(); bad != "" {
			return bad
		}
	}
	return x.closed()
}

// program explores the schedules of threads after init
func program(r *core.R, cf wconf, init []string, thr [][]cop2, faults bool, bound int, secs time.Duration) {
	var tn []string
	for _, t := range thr {
		var s []string
		for _, o := range t {
			s = append(s, o.name)
		}
		tn = append(tn, strings.Join(s, "; "))
	}
	name := fmt.Sprintf("%s, [%s] then %s", cf.name, strings.Join(init, "; "), strings.Join(tn, " || "))
	if faults {
		name += " with a failing storage call"
	}
	if o := os.Getenv("VMC_ONLY"); o != "" && !strings.Contains(name, o) {
		return // debugging
	}
	ops := map[string]wop{}
	for _, o := range worldOps(cf, "Save", "Fill", "Put", "DelFirst", "DelLast", "Abandon") {
		ops[o.name] = o
	}
	r.Explore(core.Scenario{
		Name: name, Bound: bound, Secs: secs, Opts: vsched.Opts{Race: true, MaxSteps: 200000, SyncOnly: true},
		Setup: func() (func(), func() (string, string, string)) {
			var bad, obs string
			body := func() {
				y := &concRun{faults: faults}
				base := 0
				vsched.Free(func() {
					base = vsched.NumG()
					y.worldRun = must(newWorldRun(cf))
					for _, o := range init {
						if b := ops[o].run(y.worldRun); b != "" {
							panic("harness: " + o + ": " + b)
						}
					}
				})
				vsched.SetFree(true)
				vsched.Idle()
				vsched.SetFree(false)
				live := vsched.NumG()
				y.cx.Fail, y.ix.Fail = func(string, hash) error { return y.fault() }, y.fault
				left := len(thr)
				for _, t := range thr {
					vsched.Go(func() {
						for _, o := range t {
							e := o.run(y)
							e.name = o.name
							y.evs = append(y.evs, e)
						}
						left--
					})
				}
				vsched.Block("join", func() bool { return left == 0 })
				vsched.SetFree(true)
				vsched.Idle()
				if n := vsched.NumG(); n > live {
					bad = fmt.Sprintf("goroutines are left: %v", vsched.Goroutines())
				}
				if bad == "" {
					bad = y.judge()
				}
				var s []string
				for _, e := range y.evs {
					s = append(s, fmt.Sprint(e.err))
				}
				sort.Strings(s)
				obs = fmt.Sprint(s, y.hit, len(y.worldRun.roots))
				y.end()
				vsched.Idle()
				if n := vsched.NumG(); n > base && bad == "" {
					bad = fmt.Sprintf("goroutines are left after Close: %v", vsched.Goroutines())
				}
			}
			check := func() (string, string, string) { return bad, bad, obs }
			return body, check
		},
	})
}

type prog struct {
	init   []string
	thr    [][]cop2
	faults bool
	bound  int
}

func programs(r *core.R, cfs []wconf, ps []prog) {
	n := len(cfs) * len(ps)
	for i, p := range ps {
		for j, cf := range cfs {
			left := n - i*len(cfs) - j
			secs := time.Until(r.Deadline) / time.Duration(left) * 2
			b := p.bound
			if r.Tier == "quick" && j != len(cfs)-1 && b > 1 {
				b = 1 // one cache configuration goes deeper
			}
			program(r, cf, p.init, p.thr, p.faults, b, secs)
		}
	}
}

func concConfs() (cfs []wconf) {
	for _, cf := range worldConfs() {
		cf.feeds, cf.nonces, cf.contents = 1, []uint64{1, 2}, []int{0, 1, 2, 3, 4, 5}
		cfs = append(cfs, cf)
	}
	return
}

func one(o ...cop2) []cop2 { return o }

func c07(r *core.R) {
	r.Rule("a case is one schedule of a filling: the order in which the filler's goroutines run and requested objects arrive, the moment it is closed, the storage call that fails; the root must be available exactly if the filling succeeds, with everything it refers to, all counts must equal the references from the stored roots, and no goroutine may be left")
	r.Assume("synchronisation operations are the unit of interleaving; that statements between them do not interfere is checked on every execution by the data race detection")
	b := r.Pick(1, 2)
	var ps []prog
	add := func(bound int, faults bool, init []string, thr ...[]cop2) {
		ps = append(ps, prog{init, thr, faults, bound})
	}
	inits := [][]string{{}, {"Save(0,1,pair of one leaf)"}, {"Abandon(everything)"}, {"Save(0,1,one top twice)"}}
	for _, in := range inits {
		for _, k := range []int{1, 3, 4} {
			for _, par := range []int{0, 1, 2} {
				m := b
				if len(in) == 0 || r.Tier != "quick" {
					m = b + 1
				}
				add(m, false, in, one(cFill(fconf{f: 0, n: 1, k: k, seq: 3, parall: par})))
				add(m, false, in, one(cFill(fconf{f: 0, n: 1, k: k, seq: 3, parall: par, stop: true})))
				add(b, true, in, one(cFill(fconf{f: 0, n: 1, k: k, seq: 3, parall: par})))
				if len(in) == 0 {
					for _, h := range append(cat.reach(k), cat.regHash) {
						add(b, false, in, one(cFill(fconf{f: 0, n: 1, k: k, seq: 3, parall: par, without: h, twice: true})))
					}
				}
			}
		}
	}
	leaf0, leaf2 := cat.order[0], hash{}
	for h, n := range cat.name {
		if n == "leaf2" {
			leaf2 = h
		}
	}
	_ = leaf0
	for _, in := range inits[:2] {
		for _, k := range []int{3, 5} {
			a := fconf{f: 0, n: 1, k: k, seq: 3, parall: 1}
			for _, o := range []fconf{{f: 0, n: 1, k: 4, seq: 4, parall: 1}, {f: 0, n: 1, k: 4, seq: 4, parall: 0, without: leaf2}, {f: 0, n: 1, k: k, seq: 3, parall: 1}, {f: 0, n: 1, k: 4, seq: 3, parall: 1}, {f: 0, n: 1, k: 5, seq: 5, stop: true}} {
				add(b, false, in, one(cFill(a)), one(cFill(o)))
			}
			add(b, false, in, one(cFill(a)), one(cDelFeed(0)))
		}
	}
	programs(r, concConfs(), ps)
}

func c11(r *core.R) {
	r.Rule("a case is one schedule of a small program of concurrent operations on one container; results must be possible, the roots present must be those added and not deleted, saved roots must chain, all counts must equal the references from the stored roots, and there must be no deadlock, no data race and no goroutine left")
	r.Assume("synchronisation operations are the unit of interleaving; that statements between them do not interfere is checked on every execution by the data race detection")
	b := r.Pick(2, 3)
	var ps []prog
	add := func(bound int, init []string, thr ...[]cop2) { ps = append(ps, prog{init, thr, false, bound}) }
	fill := func(k int, seq uint64) cop2 { return cFill(fconf{f: 0, n: 0, k: k, seq: seq, parall: 1}) }
	for _, in := range [][]string{{}, {"Save(0,1,pair and its leaf)"}, {"Save(0,1,everything)", "Save(0,1,one top twice)"}} {
		progs := [][][]cop2{
			{one(cSave(0, 0, 3)), one(cSave(0, 0, 3))},
			{one(cSave(0, 0, 3)), one(cSave(0, 1, 5))},
			{one(cSave(0, 0, 4)), one(cDel(0, 0, 0))},
			{one(cSave(0, 0, 3)), one(cDel(0, 0, 0)), one(cClean())},
			{one(cSave(0, 0, 3)), one(cRead(0, 0, true)), one(cIndex(0, 0))},
			{one(cSave(0, 0, 3)), one(cPreview(4))},
			{one(cSave(0, 0, 3)), one(cDelFeed(0))},
			{one(cSave(0, 0, 3)), one(cDelHead(0, 0))},
			{one(cSave(0, 0, 2), cSave(0, 0, 3)), one(cKeep(1), cClean())},
			{one(fill(5, 4)), one(cSave(0, 0, 3))},
			{one(fill(5, 4)), one(cDel(0, 0, 0), cClean())},
			{one(fill(3, 1)), one(cSave(0, 0, 4)), one(cReceive(0, 0, 3, 1))},
			{one(fill(5, 4)), one(cKeep(0)), one(cRead(0, 0, false))},
			{one(cDel(0, 0, 0)), one(cDel(0, 0, 0)), one(cIndex(0, 0))},
			{one(cDel(0, 0, 0)), one(cDelFeed(0))},
			{one(cDelHead(0, 0)), one(cDelFeed(0)), one(cRead(0, 0, false))},
			{one(cKeep(0)), one(cKeep(1)), one(cClean())},
			{one(cDel(0, 0, 1)), one(cRead(0, 0, false)), one(cClean())},
		}
		for _, p := range progs {
			add(b, in, p...)
		}
	}
	programs(r, concConfs(), ps)
	var _ skyobject.Object
}
