package main

import (
	"encoding/binary"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/skycoin/skycoin/src/cipher"
	"github.com/skycoin/skycoin/src/cipher/encoder"

	"github.com/skycoin/cxo/skyobject/registry"

	"vmc/core"
)

type hash = cipher.SHA256

// world: a store of objects that knows which objects each of them refers to
type world struct {
	p     *pack
	edges map[hash][]hash
	names map[hash]string
	reg   *registry.Registry
	dec   *registry.Registry // the same, decoded
}

func (w *world) add(name string, v interface{}, edges []hash) hash {
	h, err := w.p.Add(encoder.Serialize(v))
	if err != nil {
		panic(err)
	}
	w.edges[h] = edges
	w.names[h] = name
	return h
}

// refs makes a list and notes its inner nodes
func (w *world) refs(deg registry.Degree, elems ...hash) (r registry.Refs) {
	q := *w.p
	q.deg, q.flags = deg, 0
	if err := r.AppendHashes(&q, elems...); err != nil {
		panic(err)
	}
	w.noteRefs(r.Hash)
	return registry.Refs{Hash: r.Hash}
}

// noteRefs reads the encoded nodes without the code under test
func (w *world) noteRefs(h hash) {
	if h == (hash{}) {
		return
	}
	b := w.p.m[h]
	depth := binary.LittleEndian.Uint32(b)
	w.noteNode(h, b[12:], int(depth), "list")
}

func (w *world) noteNode(h hash, b []byte, depth int, name string) {
	n := int(binary.LittleEndian.Uint32(b))
	var es []hash
	for i := 0; i < n; i++ {
		var e hash
		copy(e[:], b[4+32*i:])
		es = append(es, e)
		if depth > 0 {
			w.noteNode(e, w.p.m[e][4:], depth-1, "node")
		}
	}
	w.edges[h] = es
	w.names[h] = name
}

// reach from some objects without passing through skip
func (w *world) reach(from []hash, skip hash) map[hash]bool {
	got := map[hash]bool{}
	var rec func(hs []hash)
	rec = func(hs []hash) {
		for _, h := range hs {
			if h == (hash{}) || got[h] {
				continue
			}
			got[h] = true
			if h != skip {
				rec(w.edges[h])
			}
		}
	}
	rec(from)
	return got
}

func (w *world) show(m map[hash]bool) string {
	var s []string
	for h := range m {
		n := w.names[h]
		if n == "" {
			n = "?"
		}
		s = append(s, n+":"+h.Hex()[:6])
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

func same(a, b map[hash]bool) bool {
	if len(a) != len(b) {
		return false
	}
	for h := range a {
		if !b[h] {
			return false
		}
	}
	return true
}

// a shape of a field and some of its values
type shape struct {
	desc string
	tag  string
	typ  reflect.Type
	vals []value
}

type value struct {
	v     reflect.Value
	edges []hash
}

func sliceShape(s shape) shape {
	o := shape{desc: "[]" + s.desc, typ: reflect.SliceOf(s.typ)}
	mk := func(is ...int) {
		v := value{v: reflect.MakeSlice(o.typ, 0, 0)}
		for _, i := range is {
			x := s.vals[i%len(s.vals)]
			v.v = reflect.Append(v.v, x.v)
			v.edges = append(v.edges, x.edges...)
		}
		o.vals = append(o.vals, v)
	}
	k := len(s.vals)
	mk()
	mk(k - 1)
	mk(k-1, k-2+k, k-3+2*k)
	mk(0, k-1)
	return o
}

func arrayShape(n int, s shape) shape {
	o := shape{desc: fmt.Sprintf("[%d]%s", n, s.desc), typ: reflect.ArrayOf(n, s.typ)}
	for first := 0; first < min(3, len(s.vals)); first++ {
		v := value{v: reflect.New(o.typ).Elem()}
		for i := 0; i < n; i++ {
			x := s.vals[(len(s.vals)*3-1-first-i)%len(s.vals)]
			v.v.Index(i).Set(x.v)
			v.edges = append(v.edges, x.edges...)
		}
		o.vals = append(o.vals, v)
		if n == 0 {
			break
		}
	}
	return o
}

func structShape(ss ...shape) shape {
	o := shape{desc: "{"}
	var fs []reflect.StructField
	for i, s := range ss {
		fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: s.typ, Tag: reflect.StructTag(s.tag)})
		o.desc += s.desc + ";"
	}
	o.desc += "}"
	o.typ = reflect.StructOf(fs)
	n := 0
	for _, s := range ss {
		n = max(n, len(s.vals))
	}
	for k := 0; k < n; k++ {
		v := value{v: reflect.New(o.typ).Elem()}
		for i, s := range ss {
			x := s.vals[(k+i)%len(s.vals)]
			v.v.Field(i).Set(x.v)
			v.edges = append(v.edges, x.edges...)
		}
		o.vals = append(o.vals, v)
	}
	return o
}

type walkLeaf struct{ X uint32 }

type walkMid struct {
	Name string
	R    registry.Ref  `skyobject:"schema=Leaf"`
	S    registry.Refs `skyobject:"schema=Leaf"`
	D    registry.Dynamic
}

type walkDeep struct {
	M  registry.Ref  `skyobject:"schema=Mid"`
	Ms registry.Refs `skyobject:"schema=Mid"`
	Ds []registry.Dynamic
}

// node refers to itself
type walkNode struct {
	Next registry.Ref  `skyobject:"schema=Node"`
	Kids registry.Refs `skyobject:"schema=Node"`
}

func newWorld() (w *world, atoms []shape) {
	w = &world{p: newPack(2, 0), edges: map[hash][]hash{}, names: map[hash]string{}}
	base := func(t *registry.Reg) {
		t.Register("Leaf", walkLeaf{})
		t.Register("Mid", walkMid{})
		t.Register("Deep", walkDeep{})
		t.Register("Node", walkNode{})
	}
	reg := registry.NewRegistry(base)
	sch := func(n string) registry.SchemaRef {
		s, err := reg.SchemaByName(n)
		if err != nil {
			panic(err)
		}
		return s.Reference()
	}
	var leafs []hash
	for i := 0; i < 6; i++ {
		leafs = append(leafs, w.add(fmt.Sprint("leaf", i), walkLeaf{uint32(i + 1)}, nil))
	}
	dyn := func(n string, h hash) registry.Dynamic { return registry.Dynamic{Hash: h, Schema: sch(n)} }
	mid := func(name string, r hash, s registry.Refs, d registry.Dynamic) hash {
		return w.add("mid "+name, walkMid{name, registry.Ref{Hash: r}, s, d}, []hash{r, s.Hash, d.Hash})
	}
	var none hash
	mids := []hash{
		mid("", none, registry.Refs{}, registry.Dynamic{}),
		mid("a", leafs[0], w.refs(2, leafs[1]), dyn("Leaf", leafs[2])),
		mid("bb", none, w.refs(2, leafs[1], none, leafs[2], leafs[3], leafs[1]), dyn("Leaf", none)),
	}
	deep := func(m hash, ms registry.Refs, ds ...registry.Dynamic) hash {
		es := []hash{m, ms.Hash}
		for _, d := range ds {
			es = append(es, d.Hash)
		}
		return w.add("deep", walkDeep{registry.Ref{Hash: m}, ms, ds}, es)
	}
	deeps := []hash{
		deep(mids[1], w.refs(2, mids[2], mids[0], mids[1]), dyn("Mid", mids[2]), registry.Dynamic{}, dyn("Leaf", leafs[4])),
		deep(none, w.refs(3, none, mids[1])),
	}
	node := func(n hash, ks ...hash) hash {
		s := registry.Refs{}
		if len(ks) > 0 {
			s = w.refs(2, ks...)
		}
		return w.add("node", walkNode{registry.Ref{Hash: n}, s}, []hash{n, s.Hash})
	}
	n0 := node(none)
	n1 := node(n0, n0, n0, n0)
	n2 := node(n1, n1, n0, none, n1, n0)

	val := func(v interface{}, es ...hash) value { return value{reflect.ValueOf(v), es} }
	refVals := func(hs ...hash) (vs []value) {
		vs = append(vs, val(registry.Ref{}))
		for _, h := range hs {
			vs = append(vs, val(registry.Ref{Hash: h}, h))
		}
		return
	}
	lists := func(rs ...registry.Refs) (vs []value) {
		vs = append(vs, val(registry.Refs{}))
		for _, r := range rs {
			vs = append(vs, val(r, r.Hash))
		}
		return
	}
	dyns := func(ds ...registry.Dynamic) (vs []value) {
		for _, d := range ds {
			vs = append(vs, val(d, d.Hash))
		}
		return
	}
	tag := func(n string) string { return `skyobject:"schema=` + n + `"` }
	tRef, tRefs, tDyn := reflect.TypeOf(registry.Ref{}), reflect.TypeOf(registry.Refs{}), reflect.TypeOf(registry.Dynamic{})
	atoms = []shape{
		{"uint32", "", reflect.TypeOf(uint32(0)), []value{val(uint32(7)), val(uint32(0xffffffff))}},
		{"string", "", reflect.TypeOf(""), []value{val(""), val("abc")}},
		{"[]byte", "", reflect.TypeOf([]byte(nil)), []value{val([]byte{}), val([]byte{1, 2, 3})}},
		{"Ref Leaf", tag("Leaf"), tRef, refVals(leafs[0], leafs[5])},
		{"Ref Mid", tag("Mid"), tRef, refVals(mids...)},
		{"Ref Deep", tag("Deep"), tRef, refVals(deeps...)},
		{"Ref Node", tag("Node"), tRef, refVals(n0, n2)},
		{"Refs Leaf", tag("Leaf"), tRefs, lists(w.refs(2, leafs[5]), w.refs(3, leafs[0], none, leafs[1], leafs[0]), w.refs(2, leafs[0], leafs[1], leafs[2], leafs[3], leafs[4]), w.refs(2, none, none, none))},
		{"Refs Mid", tag("Mid"), tRefs, lists(w.refs(2, mids...), w.refs(4, mids[1], mids[2]))},
		{"Refs Node", tag("Node"), tRefs, lists(w.refs(2, n1), w.refs(2, n2, n0, n1))},
		{"Dynamic", "", tDyn, dyns(registry.Dynamic{}, dyn("Leaf", leafs[4]), dyn("Mid", mids[2]), dyn("Deep", deeps[0]), dyn("Leaf", none), dyn("Node", n1))},
	}
	// registered types held by value
	mv := shape{desc: "Mid", typ: reflect.TypeOf(walkMid{})}
	for _, x := range []walkMid{{}, {"q", registry.Ref{Hash: leafs[3]}, w.refs(2, leafs[0], leafs[5], leafs[1]), dyn("Mid", mids[1])}} {
		mv.vals = append(mv.vals, val(x, x.R.Hash, x.S.Hash, x.D.Hash))
	}
	lv := shape{desc: "Leaf", typ: reflect.TypeOf(walkLeaf{}), vals: []value{val(walkLeaf{1}), val(walkLeaf{2})}}
	atoms = append(atoms, mv, lv)
	return
}

// splitter with a choice of the order of tasks
type splitter struct {
	w     *world
	reg   *registry.Registry
	seen  map[hash]bool
	known hash // an object that is full already
	miss  hash // an object nobody has
	fail  error
	tasks []func()
	mode  int
	order []int // choices of the order, mode 3
	alts  []int
}

func (s *splitter) Registry() *registry.Registry { return s.reg }
func (s *splitter) look(h hash) (v []byte, rc int, err error) {
	s.seen[h] = true
	v, ok := s.w.p.m[h]
	if !ok || h == s.miss {
		return nil, 0, errMissing
	}
	if h == s.known {
		rc = 2
	}
	return
}
func (s *splitter) Pre(h hash) (rc int, err error) {
	_, rc, err = s.look(h)
	return
}
func (s *splitter) Get(h hash) ([]byte, int, error) { return s.look(h) }
func (s *splitter) Fail(err error) {
	if s.fail == nil {
		s.fail = err
	}
}
func (s *splitter) Go(fn func()) {
	if s.mode == 0 {
		fn()
		return
	}
	s.tasks = append(s.tasks, fn)
}
func (s *splitter) run() {
	for n := 0; len(s.tasks) > 0; n++ {
		k := 0
		switch s.mode {
		case 2:
			k = len(s.tasks) - 1
		case 3:
			if n < len(s.order) {
				k = s.order[n]
			}
			s.alts = append(s.alts, len(s.tasks))
		}
		fn := s.tasks[k]
		s.tasks = append(append([]func(){}, s.tasks[:k]...), s.tasks[k+1:]...)
		fn()
	}
}

var splitModes = []string{"inline", "in order", "in reverse", "chosen order"}

type walkCase struct {
	w    *world
	reg  *registry.Registry
	root *registry.Root
}

func (c walkCase) heads() (hs []hash) {
	for _, d := range c.root.Refs {
		hs = append(hs, d.Hash)
	}
	return
}

func (c walkCase) walk(flags registry.Flags, prune, miss, fail hash) (map[hash]bool, error) {
	p := *c.w.p
	p.reg, p.flags = c.reg, flags
	if miss != (hash{}) {
		p.m = map[hash][]byte{}
		for k, v := range c.w.p.m {
			if k != miss {
				p.m[k] = v
			}
		}
	}
	got := map[hash]bool{}
	n := 0
	err := c.root.Walk(&p, func(h hash, depth int) (bool, error) {
		if n++; n > 100000 {
			return false, errors.New("the walk does not end")
		}
		if h != (hash{}) {
			got[h] = true
			if h == fail {
				return true, errTest
			}
		}
		return h != prune, nil
	})
	return got, err
}

func (c walkCase) split(mode int, known, miss hash, order []int) (s *splitter) {
	s = &splitter{w: c.w, reg: c.reg, seen: map[hash]bool{}, known: known, miss: miss, mode: mode, order: order}
	for i := range c.root.Refs {
		d := c.root.Refs[i]
		s.Go(func() { d.Split(s) })
	}
	s.run()
	return
}

func (c walkCase) check(full bool) string {
	w := c.w
	all := w.reach(c.heads(), hash{})
	diff := func(what string, got, want map[hash]bool) string {
		return fmt.Sprintf("%s visits\n %s\nwant\n %s", what, w.show(got), w.show(want))
	}
	flagsList := []registry.Flags{0}
	if full {
		flagsList = []registry.Flags{0, registry.HashTableIndex, registry.EntireRefs, registry.LazyUpdating}
	}
	for _, f := range flagsList {
		got, err := c.walk(f, hash{}, hash{}, hash{})
		if err != nil {
			return "Walk: " + err.Error()
		}
		if !same(got, all) {
			return diff("Walk", got, all)
		}
	}
	for mode := 0; mode < 3; mode++ {
		s := c.split(mode, hash{}, hash{}, nil)
		if s.fail != nil {
			return "Split: " + s.fail.Error()
		}
		if !same(s.seen, all) {
			return diff("Split "+splitModes[mode], s.seen, all)
		}
	}
	if !full {
		return ""
	}
	for h := range all {
		want := w.reach(c.heads(), h)
		got, err := c.walk(0, h, hash{}, hash{})
		if err != nil {
			return "Walk not deeper: " + err.Error()
		}
		if !same(got, want) {
			return diff("Walk not deeper than "+w.names[h], got, want)
		}
		s := c.split(1, h, hash{}, nil)
		if s.fail != nil {
			return "Split with a known object: " + s.fail.Error()
		}
		if !same(s.seen, want) {
			return diff("Split with known "+w.names[h], s.seen, want)
		}
		// nobody has the object
		if s = c.split(1, hash{}, h, nil); s.fail == nil {
			return "Split does not fail if " + w.names[h] + " is missing"
		}
		if _, err = c.walk(0, hash{}, h, hash{}); err == nil && len(w.edges[h]) > 0 {
			return "Walk does not fail if " + w.names[h] + " is missing"
		}
		if _, err = c.walk(0, hash{}, hash{}, h); err != errTest {
			return fmt.Sprintf("Walk gives %v for an error of the callback", err)
		}
	}
	return ""
}

// all orders of the tasks of a split
func (c walkCase) orders(limit int, count func()) (bad string, complete bool) {
	all := c.w.reach(c.heads(), hash{})
	var order []int
	for n := 0; n < limit; n++ {
		s := c.split(3, hash{}, hash{}, order)
		count()
		if s.fail != nil || !same(s.seen, all) {
			return fmt.Sprintf("Split with task order %v: %v, visits %s", order, s.fail, c.w.show(s.seen)), false
		}
		// next order
		for len(order) < len(s.alts) {
			order = append(order, 0)
		}
		i := len(s.alts) - 1
		for ; i >= 0; i-- {
			if order[i]+1 < s.alts[i] {
				order = append([]int{}, order[:i+1]...)
				order[i]++
				break
			}
		}
		if i < 0 {
			return "", true
		}
	}
	return "", false
}

func r02(r *core.R) {
	r.Rule("a case is a tree of typed values; the objects visited are compared with those noted while the tree was made")
	r.Assume("tasks of a split are run one at a time in the orders enumerated; they share nothing but the splitter and lists being loaded")
	w, atoms := newWorld()
	var shapes []shape
	shapes = append(shapes, atoms...)
	nm := func(s shape) bool { return s.tag == "" } // allowed as an element
	var elems []shape
	for _, a := range atoms {
		if nm(a) {
			elems = append(elems, a)
		}
	}
	find := func(d string) shape {
		for _, a := range atoms {
			if a.desc == d {
				return a
			}
		}
		panic(d)
	}
	s1 := structShape(find("uint32"), find("Refs Leaf"), find("Dynamic"))
	s2 := structShape(find("Ref Mid"), find("string"))
	s3 := structShape(find("Ref Deep"))
	s4 := structShape(find("string"), find("Mid"), find("Refs Mid"))
	elems = append(elems, s1, s2, s3, s4)
	shapes = append(shapes, s1, s2, s3, s4)
	level1 := len(elems)
	for i := 0; i < level1; i++ {
		e := elems[i]
		for _, x := range []shape{sliceShape(e), arrayShape(0, e), arrayShape(1, e), arrayShape(2, e), arrayShape(3, e)} {
			shapes = append(shapes, x)
			elems = append(elems, x)
		}
	}
	level2 := len(shapes)
	for _, e := range elems[level1:] {
		shapes = append(shapes, sliceShape(e), arrayShape(2, e), structShape(find("string"), e, find("Ref Leaf")))
	}
	if r.Thorough() {
		for _, e := range shapes[level2:] {
			if nm(e) {
				shapes = append(shapes, sliceShape(e), arrayShape(2, e))
			}
		}
	}
	type job struct{ ss []shape }
	var jobs []job
	for _, s := range shapes {
		jobs = append(jobs, job{[]shape{s}})
	}
	pairs := shapes[:level2]
	for _, a := range pairs {
		for _, b := range pairs {
			jobs = append(jobs, job{[]shape{a, b}})
		}
	}
	core.Seqs(len(atoms), 3, 3, func(h []int) bool {
		jobs = append(jobs, job{[]shape{atoms[h[0]], atoms[h[1]], atoms[h[2]]}})
		return true
	})
	base := func(t *registry.Reg) {
		t.Register("Leaf", walkLeaf{})
		t.Register("Mid", walkMid{})
		t.Register("Deep", walkDeep{})
		t.Register("Node", walkNode{})
	}
	r.Parallel(len(jobs), func(i int) {
		j := jobs[i]
		var fs []reflect.StructField
		desc := "T{"
		for k, s := range j.ss {
			fs = append(fs, reflect.StructField{Name: fmt.Sprintf("X%d", k), Type: s.typ, Tag: reflect.StructTag(s.tag)})
			desc += s.desc + "; "
		}
		desc += "}"
		typ := reflect.StructOf(fs)
		reg := registry.NewRegistry(func(t *registry.Reg) {
			base(t)
			t.Register("T", reflect.Zero(typ).Interface())
		})
		dec, err := registry.DecodeRegistry(reg.Encode())
		if err != nil {
			r.Violate(desc, "DecodeRegistry: "+err.Error(), nil)
			return
		}
		sch, _ := reg.SchemaByName("T")
		r.States.Add(1)
		n := 1
		for _, s := range j.ss {
			n *= len(s.vals)
		}
		for k := 0; k < n; k++ {
			if len(j.ss) == 3 && k%3 != 0 && !r.Thorough() {
				continue
			}
			v := reflect.New(typ).Elem()
			var es []hash
			x := k
			for q, s := range j.ss {
				val := s.vals[x%len(s.vals)]
				x /= len(s.vals)
				v.Field(q).Set(val.v)
				es = append(es, val.edges...)
			}
			what := func() string { return fmt.Sprintf("%s value %d: %+v", desc, k, v.Interface()) }
			var bad string
			p := r.Guard(what, func() {
				b := encoder.Serialize(v.Interface())
				// a world of its own for the new object
				lw := &world{p: &pack{m: map[hash][]byte{}, deg: 2}, edges: map[hash][]hash{}, names: map[hash]string{}}
				for h := range w.reach(es, hash{}) {
					lw.p.m[h], lw.edges[h], lw.names[h] = w.p.m[h], w.edges[h], w.names[h]
				}
				th := lw.add("T", v.Interface(), es)
				for ri, g := range []*registry.Registry{reg, dec} {
					ts, err := g.SchemaByName("T")
					if err != nil {
						bad = err.Error()
						return
					}
					if m, err := ts.Size(b); err != nil || m != len(b) {
						bad = fmt.Sprintf("Size gives %d (%v), want %d", m, err, len(b))
						return
					}
					if ri > 0 && len(j.ss) > 1 && k > 0 {
						continue
					}
					root := &registry.Root{Refs: []registry.Dynamic{{}, {Hash: th, Schema: sch.Reference()}}}
					if bad = (walkCase{lw, g, root}).check(ri == 0 && (len(j.ss) == 1 || k == n-1)); bad != "" {
						return
					}
				}
			})
			if p != "" {
				bad = p
			}
			r.Transitions.Add(1)
			if bad != "" {
				r.Violate(what(), bad, nil)
				return
			}
			r.Outcome(fmt.Sprint(len(es), es))
		}
	})
	r.Bound("%d types of one field (nested up to 3 deep), every pair of %d shapes, every triple of %d atoms; several values each", len(shapes), len(pairs), len(atoms))

	// orders of tasks, and roots of several references
	reg := registry.NewRegistry(base)
	sch := func(n string) registry.SchemaRef {
		s, _ := reg.SchemaByName(n)
		return s.Reference()
	}
	dyns := find("Dynamic").vals
	var roots [][]registry.Dynamic
	core.Seqs(len(dyns), 0, 3, func(h []int) bool {
		var ds []registry.Dynamic
		for _, x := range h {
			ds = append(ds, dyns[x].v.Interface().(registry.Dynamic))
		}
		roots = append(roots, ds)
		return true
	})
	for _, n := range []string{"Ref Deep", "Ref Node", "Ref Mid"} {
		for _, v := range find(n).vals {
			roots = append(roots, []registry.Dynamic{{Hash: v.v.Interface().(registry.Ref).Hash, Schema: sch(n[4:])}})
		}
	}
	limit := r.Pick(3000, 20000)
	complete := 0
	mx := make(chan struct{}, 1)
	mx <- struct{}{}
	r.Parallel(len(roots), func(i int) {
		what := func() string { return fmt.Sprintf("root of %v", roots[i]) }
		var bad string
		var done bool
		p := r.Guard(what, func() {
			c := walkCase{w, reg, &registry.Root{Refs: roots[i]}}
			if bad = c.check(true); bad == "" {
				bad, done = c.orders(limit, func() { r.Transitions.Add(1) })
			}
		})
		if p != "" {
			bad = p
		}
		if bad != "" {
			r.Violate(what(), bad, nil)
		}
		if done {
			<-mx
			complete++
			mx <- struct{}{}
		}
	})
	r.Bound("%d roots of up to 3 references; every order of the tasks of a split for %d of them, the first %d orders for the others", len(roots), complete, limit)

	// lists in memory, with unsaved changes
	ops := listOps()
	leafSchema, _ := reg.SchemaByName("Leaf")
	for _, cfg := range listConfigs([]int{0, 5}, []registry.Degree{2, 3}) {
		r.BFS("walk of a list, "+cfg.String(), listNames(ops), r.Pick(1, 2), false, func(h []int) (st core.Step) {
			l, bad := cfg.make()
			if bad != "" {
				return core.Step{Bad: bad}
			}
			for _, x := range h {
				if bad := ops[x].run(l); bad != "" {
					return core.Step{Bad: ops[x].name + ": " + bad}
				}
			}
			l.p.reg = reg
			got := map[hash]bool{}
			elems := map[hash]bool{}
			err := l.r.Walk(l.p, leafSchema, func(h hash, depth int) (bool, error) {
				if h != (hash{}) {
					got[h] = true
				}
				if depth == 0 {
					elems[h] = true
				}
				return depth > 0, nil
			})
			if err != nil {
				return core.Step{Bad: "Walk: " + err.Error()}
			}
			lw := &world{p: l.p, edges: map[hash][]hash{}, names: map[hash]string{}}
			if (l.r.Hash == hash{}) != (len(l.m) == 0) {
				return core.Step{Bad: fmt.Sprintf("after Walk the hash of %v is %s", l.m, l.r.Hash.Hex())}
			}
			lw.noteRefs(l.r.Hash)
			want := lw.reach([]hash{l.r.Hash}, hash{})
			if !same(got, want) {
				return core.Step{Bad: fmt.Sprintf("Walk visits %s, want %s", lw.show(got), lw.show(want))}
			}
			we := map[hash]bool{}
			for _, x := range l.m {
				we[hashOf(x)] = true
			}
			if !same(elems, we) {
				return core.Step{Bad: fmt.Sprintf("Walk visits the elements %v, want those of %v", elems, l.m)}
			}
			if bad := checkList(l.p, l.r, l.m, l.deg); bad != "" && len(l.m) > 0 {
				return core.Step{Bad: "after Walk: " + bad}
			}
			return core.Step{Canon: fmt.Sprint(h)}
		})
	}
	r.Validated.Store(r.Evaluations.Load())
}
