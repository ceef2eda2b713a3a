package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"sort"
	"strings"
	"sync"

	"github.com/skycoin/skycoin/src/cipher"
	"github.com/skycoin/skycoin/src/cipher/encoder"

	"github.com/skycoin/cxo/data"
	"github.com/skycoin/cxo/skyobject"
	"github.com/skycoin/cxo/skyobject/registry"

	"vmc/fake"
)

type hash = cipher.SHA256

type (
	// Leaf has no references
	Leaf struct{ N uint32 }
	// Pair of references
	Pair struct {
		A registry.Ref `skyobject:"schema=test.Leaf"`
		B registry.Ref `skyobject:"schema=test.Leaf"`
		N uint32
	}
	// Top has references of all kinds
	Top struct {
		P registry.Ref  `skyobject:"schema=test.Pair"`
		L registry.Refs `skyobject:"schema=test.Leaf"`
		Q registry.Refs `skyobject:"schema=test.Pair"`
		D registry.Dynamic
		N uint32
	}
)

func worldRegistry() *registry.Registry {
	return registry.NewRegistry(func(r *registry.Reg) {
		r.Register("test.Leaf", Leaf{})
		r.Register("test.Pair", Pair{})
		r.Register("test.Top", Top{})
	})
}

// catalog of objects and of contents of roots, with the references noted
// when they are made
type catalog struct {
	reg      *registry.Registry
	regHash  hash
	val      map[hash][]byte
	kids     map[hash][]hash
	name     map[hash]string
	order    []hash
	contents []content
}

type content struct {
	name string
	refs []registry.Dynamic
	objs []hash // in the order they are made
}

// recorder is a pack that notes what is set
type recorder struct {
	registry.Pack // nil
	c             *catalog
	deg           registry.Degree
	log           *[]hash
}

func (p *recorder) Registry() *registry.Registry { return p.c.reg }
func (p *recorder) Get(k hash) ([]byte, error) {
	if v, ok := p.c.val[k]; ok {
		return v, nil
	}
	return nil, data.ErrNotFound
}
func (p *recorder) Set(k hash, v []byte) error {
	if _, ok := p.c.val[k]; !ok {
		p.c.order = append(p.c.order, k)
	}
	p.c.val[k] = v
	*p.log = append(*p.log, k)
	return nil
}
func (p *recorder) Add(v []byte) (hash, error) {
	k := cipher.SumSHA256(v)
	return k, p.Set(k, v)
}
func (p *recorder) Degree() registry.Degree           { return p.deg }
func (p *recorder) SetDegree(d registry.Degree) error { return nil }
func (p *recorder) Flags() registry.Flags             { return 0 }
func (p *recorder) AddFlags(registry.Flags)           {}
func (p *recorder) ClearFlags(registry.Flags)         {}

const worldDegree = 2

func must[T any](v T, err error) T {
	if err != nil {
		panic("harness: " + err.Error())
	}
	return v
}

func (c *catalog) note(h hash, name string, kids ...hash) hash {
	if c.name[h] == "" {
		c.name[h] = name
	}
	var ks []hash
	for _, k := range kids {
		if k != (hash{}) {
			ks = append(ks, k)
		}
	}
	c.kids[h] = ks
	return h
}

func (c *catalog) noteNode(h hash, b []byte, depth int, name string) {
	n := int(binary.LittleEndian.Uint32(b))
	var es []hash
	for i := 0; i < n; i++ {
		var e hash
		copy(e[:], b[4+32*i:])
		es = append(es, e)
		if depth > 0 {
			c.noteNode(e, c.val[e][4:], depth-1, "node")
		}
	}
	c.note(h, name, es...)
}

// newCatalog makes the contents; each is built on its own pack
func newCatalog() (c *catalog) {
	c = &catalog{reg: worldRegistry(), val: map[hash][]byte{}, kids: map[hash][]hash{}, name: map[hash]string{}}
	c.regHash = hash(c.reg.Reference())
	var log []hash
	p := &recorder{c: c, deg: worldDegree, log: &log}
	leaf := func(n int) hash {
		return c.note(must(p.Add(encoder.Serialize(Leaf{uint32(n)}))), fmt.Sprint("leaf", n))
	}
	pair := func(n int, a, b hash) hash {
		return c.note(must(p.Add(encoder.Serialize(Pair{registry.Ref{Hash: a}, registry.Ref{Hash: b}, uint32(n)}))), fmt.Sprint("pair", n), a, b)
	}
	list := func(es ...hash) registry.Refs {
		var r registry.Refs
		if err := r.AppendHashes(p, es...); err != nil {
			panic(err)
		}
		if r.Hash != (hash{}) {
			b := c.val[r.Hash]
			c.noteNode(r.Hash, b[12:], int(binary.LittleEndian.Uint32(b)), "list")
		}
		return registry.Refs{Hash: r.Hash}
	}
	dyn := func(name string, h hash) registry.Dynamic {
		return registry.Dynamic{Hash: h, Schema: must(c.reg.SchemaByName(name)).Reference()}
	}
	top := func(n int, pr hash, l, q registry.Refs, d registry.Dynamic) hash {
		return c.note(must(p.Add(encoder.Serialize(Top{registry.Ref{Hash: pr}, l, q, d, uint32(n)}))), fmt.Sprint("top", n), pr, l.Hash, q.Hash, d.Hash)
	}
	add := func(name string, refs ...registry.Dynamic) {
		c.contents = append(c.contents, content{name, refs, log})
		log = nil
	}
	add("nothing")
	add("leaf", dyn("test.Leaf", leaf(0)))
	l0 := leaf(0)
	add("pair of one leaf", dyn("test.Pair", pair(0, l0, l0)))
	l0, l1 := leaf(0), leaf(1)
	add("pair and its leaf", dyn("test.Pair", pair(1, l0, l1)), dyn("test.Leaf", l1))
	l0, l1 = leaf(0), leaf(1)
	l2 := leaf(2)
	p0, p1 := pair(0, l0, l0), pair(1, l0, l1)
	t := top(0, p1, list(l0, l1, l0, l2, l2), list(p0), dyn("test.Pair", p0))
	add("everything", dyn("test.Top", t))
	l0, l1 = leaf(0), leaf(1)
	p1 = pair(1, l0, l1)
	t = top(1, p1, list(l1), registry.Refs{}, registry.Dynamic{})
	add("one top twice", dyn("test.Top", t), registry.Dynamic{}, dyn("test.Top", t))
	l0 = leaf(0)
	p2 := pair(2, l0, hash{})
	add("half of a pair", dyn("test.Pair", p2), dyn("test.Leaf", hash{}))
	for h, v := range c.val {
		if c.name[h] == "" {
			// an inner state of a list while it grows
			c.name[h] = "list part"
			_ = v
		}
	}
	c.name[c.regHash] = "registry"
	something := cipher.SumSHA256([]byte("something"))
	c.val[something], c.name[something] = []byte("something"), "something"
	c.order = append(c.order, something)
	c.val[c.regHash] = c.reg.Encode()
	return
}

var cat = newCatalog()

// reach lists everything a content refers to
func (c *catalog) reach(k int) (hs []hash) {
	seen := map[hash]bool{}
	var rec func(h hash)
	rec = func(h hash) {
		if h == (hash{}) || seen[h] {
			return
		}
		seen[h] = true
		hs = append(hs, h)
		for _, x := range c.kids[h] {
			rec(x)
		}
	}
	for _, d := range c.contents[k].refs {
		rec(d.Hash)
	}
	return
}

// mroot is a root the model has
type mroot struct {
	f, n int
	seq  uint64
	k    int
	hash hash
	val  []byte
}

// wconf configures a run
type wconf struct {
	name           string
	amount, volume int // of the cache
	policy         skyobject.CachePolicy
	feeds          int
	nonces         []uint64
	contents       []int
}

// worldRun is a container and its model
type worldRun struct {
	cf    wconf
	c     *skyobject.Container
	cx    *fake.CXDS
	ix    *fake.Idx
	feed  []bool
	heads map[[2]int]bool
	roots []*mroot // in order of adding
	gone  []*mroot // deleted
	has   map[hash]bool

	u    *skyobject.Unpack // kept open
	pins map[hash]int
}

func newWorldRun(cf wconf) (x *worldRun, err error) {
	x = &worldRun{cf: cf, cx: fake.NewCXDS(), ix: fake.NewIdx(), feed: make([]bool, cf.feeds),
		heads: map[[2]int]bool{}, has: map[hash]bool{}, pins: map[hash]int{}}
	if err = x.open(); err != nil {
		return
	}
	for f := range x.feed {
		if err = x.c.AddFeed(idents[f].pk); err != nil {
			return
		}
		x.feed[f] = true
	}
	return
}

func (x *worldRun) config() *skyobject.Config {
	conf := skyobject.NewConfig()
	conf.DataDir = ""
	conf.Degree = worldDegree
	conf.CacheMaxAmount, conf.CacheMaxVolume = x.cf.amount, x.cf.volume
	conf.CachePolicy = x.cf.policy
	conf.CacheCleaning = 0.5
	conf.MaxObjectSize = 4096
	conf.DB = data.NewDB(x.cx, x.ix)
	return conf
}

func (x *worldRun) open() (err error) {
	x.c, err = skyobject.NewContainer(x.config())
	return
}

func (x *worldRun) end() {
	x.c.Close()
	x.c.Index.Close()
}

// put the objects of a content
func put(p registry.Pack, k int) error {
	for _, h := range cat.contents[k].objs {
		if err := p.Set(h, append([]byte(nil), cat.val[h]...)); err != nil {
			return err
		}
	}
	return nil
}

func (x *worldRun) added(hs ...hash) {
	for _, h := range hs {
		x.has[h] = true
	}
}

func (x *worldRun) last(f, n int) (l *mroot) {
	for _, r := range x.roots {
		if r.f == f && r.n == n && (l == nil || r.seq > l.seq) {
			l = r
		}
	}
	return
}

// counts of all references from stored roots
func (x *worldRun) counts() (m map[hash]int) {
	m = map[hash]int{}
	var inc func(h hash)
	inc = func(h hash) {
		if h == (hash{}) {
			return
		}
		m[h]++
		if m[h] == 1 {
			for _, k := range cat.kids[h] {
				inc(k)
			}
		}
	}
	for _, r := range x.roots {
		inc(r.hash)
		inc(cat.regHash)
		for _, d := range cat.contents[r.k].refs {
			inc(d.Hash)
		}
	}
	return
}

func (x *worldRun) nameOf(h hash) string {
	if n := cat.name[h]; n != "" {
		return n + " " + h.Hex()[:6]
	}
	for _, r := range append(append([]*mroot(nil), x.roots...), x.gone...) {
		if r.hash == h {
			return fmt.Sprintf("root (%d,%d,%d)", r.f, x.cf.nonces[r.n], r.seq)
		}
	}
	return "object " + h.Hex()[:6]
}

// all hashes ever used
func (x *worldRun) all() (hs []hash) {
	hs = append(hs, cat.order...)
	hs = append(hs, cat.regHash)
	for _, r := range x.roots {
		hs = append(hs, r.hash)
	}
	for _, r := range x.gone {
		hs = append(hs, r.hash)
	}
	return
}

func (x *worldRun) valOf(h hash) []byte {
	if v, ok := cat.val[h]; ok {
		return v
	}
	for _, r := range append(append([]*mroot(nil), x.roots...), x.gone...) {
		if r.hash == h {
			return r.val
		}
	}
	return nil
}

// compare the container with the model
func (x *worldRun) compare() string {
	want := x.counts()
	for _, h := range x.all() {
		val, rc, err := x.c.Get(h, 0)
		switch {
		case !x.has[h]:
			if err != data.ErrNotFound {
				return fmt.Sprintf("%s is in the store (%v)", x.nameOf(h), err)
			}
		case err != nil:
			return fmt.Sprintf("%s: %v (it has %d references)", x.nameOf(h), err, want[h])
		case rc != want[h]:
			return fmt.Sprintf("%s has count %d, and %d references", x.nameOf(h), rc, want[h])
		case !bytes.Equal(val, x.valOf(h)):
			return x.nameOf(h) + " has another value"
		}
	}
	for f := range x.feed {
		pk := idents[f].pk
		if x.c.HasFeed(pk) != x.feed[f] {
			return fmt.Sprintf("HasFeed(%d) is not %v", f, x.feed[f])
		}
		for n, nonce := range x.cf.nonces {
			if x.c.HasHead(pk, nonce) != x.heads[[2]int{f, n}] {
				return fmt.Sprintf("HasHead(%d,%d) is not %v", f, nonce, x.heads[[2]int{f, n}])
			}
			l := x.last(f, n)
			r, err := x.c.LastRoot(pk, nonce)
			if l == nil && err == nil {
				return fmt.Sprintf("head (%d,%d) has last root %s", f, nonce, r.Short())
			}
			if l != nil && (err != nil || r.Hash != l.hash || r.Seq != l.seq) {
				return fmt.Sprintf("last root of head (%d,%d) is %v, %v, want seq %d", f, nonce, r, err, l.seq)
			}
		}
	}
	for _, m := range x.roots {
		if r, err := x.c.Root(idents[m.f].pk, x.cf.nonces[m.n], m.seq); err != nil || r.Hash != m.hash {
			return fmt.Sprintf("root (%d,%d,%d): %v", m.f, x.cf.nonces[m.n], m.seq, err)
		}
	}
	for _, m := range x.gone {
		for _, r := range x.roots {
			if r.hash == m.hash {
				m = nil // added again
				break
			}
		}
		if m == nil {
			continue
		}
		if x.c.HasHead(idents[m.f].pk, x.cf.nonces[m.n]) {
			if r, err := x.c.Root(idents[m.f].pk, x.cf.nonces[m.n], m.seq); err == nil && r.Hash == m.hash {
				return fmt.Sprintf("root (%d,%d,%d) is still there", m.f, x.cf.nonces[m.n], m.seq)
			}
		}
	}
	return ""
}

// closed closes the container and compares the store with the model
func (x *worldRun) closed() string {
	if err := x.c.Close(); err != nil {
		return "Close: " + err.Error()
	}
	x.pins = map[hash]int{}
	want := x.counts()
	known := map[hash]bool{}
	for _, h := range x.all() {
		known[h] = true
	}
	bad := ""
	x.cx.Iterate(func(h hash, rc uint32, val []byte) error {
		switch {
		case !known[h]:
			bad = "the store has an unknown object " + h.Hex()[:6]
		case !x.has[h]:
			bad = fmt.Sprintf("after Close the store has %s", x.nameOf(h))
		case int(rc) != want[h]:
			bad = fmt.Sprintf("after Close %s has count %d, and %d references", x.nameOf(h), rc, want[h])
		}
		return nil
	})
	if bad != "" {
		return bad
	}
	for h := range x.has {
		if _, _, err := x.cx.CXDS.Get(h, 0); err != nil && x.has[h] {
			return fmt.Sprintf("after Close %s: %v", x.nameOf(h), err)
		}
	}
	return ""
}

func (x *worldRun) state() string {
	var b strings.Builder
	fmt.Fprint(&b, x.feed)
	var s []string
	for h, ok := range x.heads {
		if ok {
			s = append(s, fmt.Sprint(h))
		}
	}
	sort.Strings(s)
	fmt.Fprint(&b, s)
	s = nil
	rname := map[hash]string{}
	for _, r := range append(append([]*mroot(nil), x.gone...), x.roots...) {
		rname[r.hash] = fmt.Sprint(r.f, r.n, r.seq, r.k)
	}
	for _, r := range x.roots {
		s = append(s, rname[r.hash])
	}
	sort.Strings(s)
	fmt.Fprint(&b, s)
	s = nil
	nm := func(h hash) string {
		if n := rname[h]; n != "" {
			return n
		}
		return h.Hex()[:6]
	}
	for h, ok := range x.has {
		if ok {
			s = append(s, fmt.Sprint(nm(h), x.pins[h]))
		}
	}
	sort.Strings(s)
	fmt.Fprint(&b, s, x.u != nil)
	return b.String()
}

// drop roots from the model
func (x *worldRun) drop(which func(r *mroot) bool) {
	var keep []*mroot
	for _, r := range x.roots {
		if which(r) {
			x.gone = append(x.gone, r)
		} else {
			keep = append(keep, r)
		}
	}
	x.roots = keep
}

// clean removes objects without references from the model
func (x *worldRun) clean() {
	want := x.counts()
	for h := range x.has {
		if want[h] == 0 && x.pins[h] == 0 {
			delete(x.has, h)
		}
	}
}

// complete reports whether all objects of a content exist
func (x *worldRun) complete(k int) bool {
	for _, h := range cat.reach(k) {
		if !x.has[h] {
			return false
		}
	}
	return true
}

// saved checks a root returned by Save, and adds it to the model
func (x *worldRun) saved(f, n, k int, r *registry.Root) string {
	pk := idents[f].pk
	nonce := x.cf.nonces[n]
	l := x.last(f, n)
	wseq, wprev := uint64(0), hash{}
	if l != nil {
		wseq, wprev = l.seq+1, l.hash
	}
	val := r.Encode()
	h := cipher.SumSHA256(val)
	switch {
	case r.Pub != pk || r.Nonce != nonce:
		return "Save changed the feed or the head of the root"
	case r.Seq != wseq || r.Prev != wprev:
		return fmt.Sprintf("the saved root has seq %d and Prev %s, want %d and %s", r.Seq, r.Prev.Hex()[:6], wseq, wprev.Hex()[:6])
	case r.Hash != h:
		return "the saved root has wrong hash"
	case !r.IsFull:
		return "the saved root is not full"
	case r.Time == 0:
		return "the saved root has no time"
	case hash(r.Reg) != cat.regHash:
		return "the saved root has wrong registry"
	}
	if err := cipher.VerifyPubKeySignedHash(pk, r.Sig, h); err != nil {
		return "the saved root has bad signature: " + err.Error()
	}
	if len(r.Refs) != len(cat.contents[k].refs) {
		return "Save changed the references"
	}
	for i, d := range r.Refs {
		if d != cat.contents[k].refs[i] {
			return "Save changed the references"
		}
	}
	lr, err := x.c.LastRoot(pk, nonce)
	if err != nil || lr.Hash != h || lr.Sig != r.Sig || !bytes.Equal(lr.Encode(), val) {
		return fmt.Sprintf("the saved root is not the last root of its head: %v, %v", lr, err)
	}
	x.roots = append(x.roots, &mroot{f, n, wseq, k, h, val})
	x.heads[[2]int{f, n}] = true
	x.added(h, cat.regHash)
	for _, h := range cat.reach(k) {
		val, rc, err := x.c.Get(h, 0)
		if err != nil || !bytes.Equal(val, cat.val[h]) || rc < 1 {
			return fmt.Sprintf("%s of the saved root can't be read: %v, count %d", x.nameOf(h), err, rc)
		}
	}
	if val, _, err := x.c.Get(cat.regHash, 0); err != nil || !bytes.Equal(val, cat.val[cat.regHash]) {
		return fmt.Sprintf("the registry of the saved root can't be read: %v", err)
	}
	return ""
}

// remoteRoot makes a root of content k that follows the last root of a head
func (x *worldRun) remoteRoot(f, n, k int, seq uint64) *registry.Root {
	r := &registry.Root{Pub: idents[f].pk, Nonce: x.cf.nonces[n], Seq: seq, Reg: cat.reg.Reference(),
		Refs: cat.contents[k].refs, Time: int64(1000 + seq)}
	if seq > 0 {
		r.Prev = cipher.SumSHA256([]byte(fmt.Sprint(f, n, seq)))
	}
	r.Hash = cipher.SumSHA256(r.Encode())
	r.Sig = must(cipher.SignHash(r.Hash, idents[f].sk))
	return r
}

// fill a root from a remote that has everything but one object; the filler
// is closed when this object is requested. Returns the requested objects.
func (x *worldRun) fill(r *registry.Root, parall int, without hash) (err error, asked map[hash]int) {
	rq := make(chan hash)
	f := x.c.Fill(r, rq, parall)
	asked = map[hash]int{}
	var wg sync.WaitGroup
	stop := make(chan struct{})
	wg.Add(1)
	go func() {
		defer wg.Done()
		for {
			select {
			case key := <-rq:
				asked[key]++
				if key == without {
					wg.Add(1)
					go func() { defer wg.Done(); f.Close() }()
					continue
				}
				if val, ok := cat.val[key]; ok {
					x.c.SetWanted(key, append([]byte(nil), val...))
				}
			case <-stop:
				return
			}
		}
	}()
	err = f.Run()
	close(stop)
	wg.Wait()
	f.Close()
	return
}

// filled checks a fill and adds the root to the model
func (x *worldRun) fillOp(f, n, k, parall int, seq uint64, without hash) string {
	r := x.remoteRoot(f, n, k, seq)
	var had *mroot
	for _, m := range x.roots {
		if m.f == f && m.n == n && m.seq == seq {
			had = m
		}
	}
	need := []hash{cat.regHash}
	need = append(need, cat.reach(k)...)
	missing := false
	hard := x.counts()
	for _, h := range need {
		missing = missing || h == without && !x.has[h]
	}
	err, asked := x.fill(r, parall, without)
	for h := range asked {
		if x.has[h] {
			return fmt.Sprintf("the filler requests %s, which is in the store", x.nameOf(h))
		}
		ok := false
		for _, w := range need {
			ok = ok || w == h
		}
		if !ok {
			return "the filler requests " + x.nameOf(h) + ", which the root does not need"
		}
		if hard[h] > 0 {
			return "the filler requests a full object"
		}
	}
	// whatever was received stays until cleaning, even if not used
	arrived := []hash{r.Hash}
	for h := range asked {
		if h != without {
			arrived = append(arrived, h)
		}
	}
	x.added(arrived...)
	if err != nil {
		// which of the requested objects came before the end is not specified
		for _, h := range arrived {
			_, rc, gerr := x.c.Get(h, 0)
			x.has[h] = gerr == nil
			if gerr == nil && rc > 0 && hard[h] == 0 {
				return fmt.Sprintf("%s has count %d after failed filling", x.nameOf(h), rc)
			}
		}
	}
	val := r.Encode()
	m := &mroot{f, n, seq, k, r.Hash, val}
	switch {
	case had != nil && had.hash != r.Hash, !x.feed[f], missing:
		if err == nil {
			return fmt.Sprintf("the filling succeeds, but it can't (missing=%v, another root of the seq=%v, no feed=%v)", missing, had != nil, !x.feed[f])
		}
		if r.IsFull {
			return "the root is full after failed filling"
		}
		x.gone = append(x.gone, m)
	case err != nil:
		return "the filling fails: " + err.Error()
	case had == nil:
		x.roots = append(x.roots, m)
		x.heads[[2]int{f, n}] = true
		if !r.IsFull {
			return "the root is not full after filling"
		}
	}
	return ""
}
