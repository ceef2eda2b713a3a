package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"reflect"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"syscall"
	"time"

	"github.com/skycoin/skycoin/src/cipher"
	"github.com/skycoin/skycoin/src/cipher/encoder"

	"github.com/skycoin/cxo/skyobject/registry"

	"vmc/core"
)

// the wire format of a registry, written down independently
type wireSchema struct {
	ReferenceType uint32
	Kind          uint32
	Name          []byte
	Len           uint32
	Fields        [][]byte
	Elem          []byte
}

type wireField struct {
	Name   []byte
	Tag    []byte
	Kind   uint32
	Schema []byte
}

type wireEntity struct {
	Name   string
	Schema []byte
}

type frag struct {
	desc string
	b    []byte
}

func sch(desc string, x wireSchema) frag { return frag{desc, encoder.Serialize(x)} }
func fieldOf(name string, f frag) []byte {
	return encoder.Serialize(wireField{Name: []byte(name), Schema: f.b})
}

func kindFrag(k reflect.Kind, name string) frag {
	return sch(k.String()+" "+name, wireSchema{Kind: uint32(k), Name: []byte(name)})
}
func sliceFrag(e frag) frag {
	return sch("[]"+e.desc, wireSchema{Kind: uint32(reflect.Slice), Elem: e.b})
}
func arrayFrag(n uint32, e frag) frag {
	return sch(fmt.Sprintf("[%d]%s", n, e.desc), wireSchema{Kind: uint32(reflect.Array), Len: n, Elem: e.b})
}
func structFrag(name string, es ...frag) frag {
	x := wireSchema{Kind: uint32(reflect.Struct), Name: []byte(name)}
	d := "struct " + name + "{"
	for i, e := range es {
		x.Fields = append(x.Fields, fieldOf(fmt.Sprintf("F%d", i), e))
		d += e.desc + ";"
	}
	return sch(d+"}", x)
}
func refFrag(typ uint32, e frag) frag {
	return sch(fmt.Sprintf("ref%d(%s)", typ, e.desc), wireSchema{ReferenceType: typ, Elem: e.b})
}

func registryOf(es ...wireEntity) []byte { return encoder.Serialize(es) }

// limits of one case
type limiter struct {
	r   *core.R
	s   []metrics.Sample
	cpu syscall.Rusage
}

const (
	maxAlloc = 48 << 20
	maxCPU   = 4 * time.Second
)

func newLimiter(r *core.R) *limiter {
	runtime.LockOSThread()
	return &limiter{r: r, s: []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}}
}

func (l *limiter) alloc() uint64 {
	metrics.Read(l.s)
	return l.s[0].Value.Uint64()
}

func (l *limiter) time() time.Duration {
	syscall.Getrusage(1 /* RUSAGE_THREAD */, &l.cpu)
	return time.Duration(l.cpu.Utime.Nano() + l.cpu.Stime.Nano())
}

// run one case within the limits; fn gives what is wrong
func (l *limiter) run(what string, input interface{}, fn func() string) {
	size := len(fmt.Sprint(input))
	core.Case(what)
	a, t := l.alloc(), l.time()
	var bad string
	if p := l.r.Guard(func() string { return what }, func() { bad = fn() }); p != "" {
		bad = p
	}
	if d := l.time() - t; bad == "" && d > maxCPU {
		bad = fmt.Sprintf("took %v of CPU time", d.Round(time.Second))
	}
	if d := l.alloc() - a; bad == "" && d > maxAlloc+8192*uint64(size) {
		bad = fmt.Sprintf("allocated %d MB", d>>20)
	}
	if bad != "" {
		l.r.Violate(what, bad, input)
	}
}

// everything that can be done with a schema and a value
type prober struct {
	w    *world
	vals [][]byte
	deep bool
}

func (q *prober) schema(reg *registry.Registry, s registry.Schema) string {
	s.String()
	s.HasReferences()
	s.Reference()
	s.Encode()
	for _, f := range s.Fields() {
		f.String()
		f.Tag()
		f.Kind()
	}
	s.Elem()
	for _, v := range q.vals {
		if n, err := s.Size(v); err == nil && (n < 0 || n > len(v)) {
			return fmt.Sprintf("size of %x is %d", v, n)
		}
		q.object(reg, s.Reference(), v)
	}
	return ""
}

func (q *prober) object(reg *registry.Registry, sr registry.SchemaRef, v []byte) {
	h := cipher.SumSHA256(v)
	if _, ok := q.w.p.m[h]; !ok {
		q.w.p.m[h] = v
		defer delete(q.w.p.m, h)
	}
	q.root(reg, &registry.Root{Refs: []registry.Dynamic{{Hash: h, Schema: sr}}})
}

func (q *prober) root(reg *registry.Registry, root *registry.Root) {
	p := *q.w.p
	p.reg = reg
	n := 0
	root.Walk(&p, func(hash, int) (bool, error) {
		if n++; n > 5000 {
			return false, errTest
		}
		return true, nil
	})
	s := &splitter{w: q.w, reg: reg, seen: map[hash]bool{}, mode: 1}
	for i := range root.Refs {
		d := root.Refs[i]
		s.Go(func() { d.Split(s) })
	}
	for k := 0; k < 5000 && len(s.tasks) > 0; k++ {
		fn := s.tasks[0]
		s.tasks = s.tasks[1:]
		fn()
	}
	root.Tree(&p)
	root.Encode()
	_ = root.String() + root.Short()
}

func (q *prober) registry(b []byte) (bad string) {
	reg, err := registry.DecodeRegistry(b)
	if err != nil {
		return
	}
	if reg == nil {
		return "no registry and no error"
	}
	reg.Encode()
	reg.Reference()
	reg.Types()
	var es []wireEntity
	encoder.DeserializeRaw(b, &es)
	for _, e := range es {
		s, err := reg.SchemaByName(e.Name)
		if err != nil {
			continue
		}
		if bad = q.schema(reg, s); bad != "" {
			return
		}
	}
	return
}

// mutants of an encoding, one at a time
func mutants(b []byte, all bool, fn func(desc string, m []byte) bool) {
	for n := 0; n < len(b); n++ {
		if !fn(fmt.Sprintf("cut to %d bytes", n), b[:n:n]) {
			return
		}
	}
	for _, x := range [][]byte{{0}, {255}, {1, 0, 0, 0}, bytes.Repeat([]byte{255}, 64)} {
		if !fn(fmt.Sprintf("with %x appended", x), append(append([]byte{}, b...), x...)) {
			return
		}
	}
	for i := range b {
		xs := []byte{0, 1, 2, 3, 4, 0x7f, 0x80, 0xfe, 0xff, b[i] + 1, b[i] - 1, b[i] ^ 0x20}
		if all {
			xs = xs[:0]
			for x := 0; x < 256; x++ {
				xs = append(xs, byte(x))
			}
		}
		for _, x := range xs {
			if x == b[i] {
				continue
			}
			m := append([]byte{}, b...)
			m[i] = x
			if !fn(fmt.Sprintf("byte %d is %d", i, x), m) {
				return
			}
		}
	}
	for i := 0; i+4 <= len(b); i++ {
		for _, x := range []uint32{0, 1, 2, 17, 18, 22, 23, 24, 25, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff, uint32(len(b)), uint32(len(b) - i - 4)} {
			m := append([]byte{}, b...)
			binary.LittleEndian.PutUint32(m[i:], x)
			if !fn(fmt.Sprintf("%d at byte %d", x, i), m) {
				return
			}
		}
	}
	// remove and double a piece
	for i := range b {
		for _, n := range []int{1, 4, 16} {
			if i+n <= len(b) {
				if !fn(fmt.Sprintf("without %d bytes at %d", n, i), append(append([]byte{}, b[:i]...), b[i+n:]...)) ||
					!fn(fmt.Sprintf("with %d bytes at %d doubled", n, i), append(append([]byte{}, b[:i+n]...), b[i:]...)) {
					return
				}
			}
		}
	}
}

func r03(r *core.R) {
	debug.SetMaxStack(64 << 20)
	syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 12 << 30, Max: 12 << 30})
	r.Rule("a case is a byte string given to the decoders, and everything that can be read from what they accept")
	r.Assume("a case may use 4 s of CPU time and 48 MB of memory, inputs being a few hundred bytes")
	l := newLimiter(r)
	seq := 0
	mine := func() bool { seq++; return seq%r.Shards == r.Shard }
	count := func(p *int) { *p++; r.Transitions.Add(1); r.States.Add(1) }

	w, atoms := newWorld()
	leaf := hash{}
	for h, n := range w.names {
		if n == "leaf0" {
			leaf = h
		}
	}
	rep := func(b []byte, n int) []byte { return bytes.Repeat(b, n) }
	vals := [][]byte{{}, {1}, {0, 0, 0, 0}, {255, 255, 255, 255}, {1, 0, 0, 0}, {1, 0, 0, 0, 2, 0, 0, 0, 1},
		rep([]byte{0}, 300), rep([]byte{255}, 300), rep([]byte{1, 0, 0, 0}, 80), append([]byte{3, 0, 0, 0}, rep(leaf[:], 9)...), rep(leaf[:], 9),
		{0, 0, 0, 255, 255, 255, 255, 255, 1, 0, 0}, append([]byte{0, 0, 1, 0}, rep([]byte{0}, 260)...)}
	q := &prober{w: w, vals: vals}

	// 1. structured registries
	nReg := 0
	try := func(desc string, b []byte) bool {
		if r.Expired() {
			return false
		}
		if mine() {
			count(&nReg)
			r.Outcome("registry " + desc)
			l.run("registry "+desc, fmt.Sprintf("%x", b), func() string { return q.registry(b) })
		}
		return true
	}
	var l0 []frag
	l0 = append(l0, frag{"nothing", nil}, frag{"3 bytes", []byte{1, 2, 3}})
	for _, k := range []reflect.Kind{0, reflect.Bool, reflect.Uint8, reflect.Int64, reflect.Float32, reflect.String, reflect.Ptr, reflect.Map, 1000} {
		l0 = append(l0, kindFrag(k, ""))
	}
	for _, n := range []string{"", "A", "B", "C"} {
		l0 = append(l0, kindFrag(reflect.Struct, n))
	}
	l0 = append(l0, kindFrag(reflect.Uint8, "A"), kindFrag(reflect.Slice, "A"), kindFrag(reflect.Array, ""))
	for _, t := range []uint32{1, 2} {
		for _, e := range []frag{kindFrag(reflect.Struct, "A"), kindFrag(reflect.Struct, "B"), kindFrag(reflect.Struct, "C"), kindFrag(reflect.Struct, ""), {"nothing", nil}, {"bad", []byte{9}}, sliceFrag(kindFrag(reflect.Uint8, "")), kindFrag(reflect.String, "A")} {
			l0 = append(l0, refFrag(t, e))
		}
	}
	l0 = append(l0, refFrag(3, frag{}), refFrag(3, kindFrag(reflect.Struct, "A")), refFrag(4, frag{}), refFrag(0xffffffff, frag{}))
	var l1 []frag
	nest := func(e frag) (fs []frag) {
		fs = append(fs, sliceFrag(e), structFrag("", e), structFrag("A", e), refFrag(1, e))
		for _, n := range []uint32{0, 1, 3, 0x7fffffff, 0xffffffff} {
			fs = append(fs, arrayFrag(n, e))
		}
		return
	}
	for _, e := range l0 {
		l1 = append(l1, nest(e)...)
	}
	var l2 []frag
	for _, e := range l1 {
		l2 = append(l2, nest(e)...)
	}
	var one []frag
	one = append(append(append(one, l0...), l1...), l2...)
	plainB := wireEntity{"B", structFrag("B", kindFrag(reflect.Uint32, "")).b}
	backB := wireEntity{"B", structFrag("B", kindFrag(reflect.Struct, "A")).b}
	for _, e := range one {
		a := structFrag("A", e)
		try(a.desc, registryOf(wireEntity{"A", a.b}))
		try(a.desc+" and B{uint32}", registryOf(wireEntity{"A", a.b}, plainB))
		try(a.desc+" and B{A}", registryOf(wireEntity{"A", a.b}, backB))
		try("A is "+e.desc, registryOf(wireEntity{"A", e.b}))
		try("A is "+e.desc+" and B{A}", registryOf(wireEntity{"A", e.b}, backB))
	}
	two := append(append([]frag{}, l0...), l1...)
	if !r.Thorough() {
		two = l0
		for i := 0; i < len(l1); i += 3 {
			two = append(two, l1[i])
		}
	}
	for _, e := range two {
		for _, f := range two {
			a := structFrag("A", e, f)
			if !try(a.desc+" and B{uint32}", registryOf(wireEntity{"A", a.b}, plainB)) {
				break
			}
		}
	}
	for _, e := range two {
		for _, f := range two {
			a, b := structFrag("A", e), structFrag("B", f)
			if !try(a.desc+" and "+b.desc, registryOf(wireEntity{"A", a.b}, wireEntity{"B", b.b})) {
				break
			}
		}
	}
	ok := structFrag("A", kindFrag(reflect.Uint32, ""))
	try("twice", registryOf(wireEntity{"A", ok.b}, wireEntity{"A", structFrag("A", kindFrag(reflect.String, "")).b}))
	try("other name", registryOf(wireEntity{"X", ok.b}))
	try("no name", registryOf(wireEntity{"", ok.b}))
	for _, n := range []int{2, 8, 40} {
		e := kindFrag(reflect.Uint8, "")
		for i := 0; i < n; i++ {
			e = arrayFrag(0xffff, e)
		}
		try(fmt.Sprintf("%d nested arrays", n), registryOf(wireEntity{"A", structFrag("A", e).b}))
		e = kindFrag(reflect.Struct, "")
		for i := 0; i < n; i++ {
			e = arrayFrag(0xffff, e)
		}
		try(fmt.Sprintf("%d nested arrays of nothing", n), registryOf(wireEntity{"A", structFrag("A", e).b}))
		e = structFrag("")
		for i := 0; i < n; i++ {
			e = structFrag("", e, e)
			if len(e.b) > 1<<14 {
				break
			}
		}
		try(fmt.Sprintf("%d nested structs", n), registryOf(wireEntity{"A", structFrag("A", e).b}))
	}
	r.Bound("%d registries of one or two types with one or two fields, schemas nested up to 3 deep out of %d pieces; %d values for each", seq, len(one), len(vals))
	seq = 0

	// 2. mutants of valid registries
	base := func(t *registry.Reg) {
		t.Register("Leaf", walkLeaf{})
		t.Register("Mid", walkMid{})
		t.Register("Deep", walkDeep{})
		t.Register("Node", walkNode{})
	}
	worldReg := registry.NewRegistry(base)
	type one1 struct {
		A [2]uint8
		B []string
		C struct{ X bool }
	}
	regs := []*registry.Registry{
		registry.NewRegistry(func(t *registry.Reg) {}),
		registry.NewRegistry(func(t *registry.Reg) { t.Register("Leaf", walkLeaf{}) }),
		registry.NewRegistry(func(t *registry.Reg) { t.Register("O", one1{}) }),
		registry.NewRegistry(func(t *registry.Reg) { t.Register("Node", walkNode{}) }),
		worldReg,
	}
	short := &prober{w: w, vals: vals[:11]}
	for i, g := range regs {
		b := g.Encode()
		mutants(b, r.Thorough() && i < 4, func(desc string, m []byte) bool {
			return !r.Expired() && func() bool {
				if mine() {
					count(&nReg)
					l.run(fmt.Sprintf("registry %d %s", i, desc), fmt.Sprintf("%x", m), func() string { return short.registry(m) })
				}
				return true
			}()
		})
		if r.Thorough() && i < 4 {
			for x := range b {
				for y := 0; y < x; y++ {
					for _, c := range []byte{0, 1, 2, 255} {
						for _, d := range []byte{0, 1, 2, 255} {
							if mine() && !r.Expired() {
								m := append([]byte{}, b...)
								m[x], m[y] = c, d
								count(&nReg)
								l.run(fmt.Sprintf("registry %d bytes %d and %d are %d and %d", i, x, y, c, d), fmt.Sprintf("%x", m), func() string { return short.registry(m) })
							}
						}
					}
				}
			}
		}
	}
	short2 := &prober{w: w, vals: vals[:2]}
	alphabet := []byte{0, 1, 2, 4, 255}
	core.Seqs(len(alphabet), 0, r.Pick(5, 7), func(h []int) bool {
		if mine() {
			var m []byte
			for _, x := range h {
				m = append(m, alphabet[x])
			}
			l.run(fmt.Sprintf("registry bytes %v", m), m, func() string {
				registry.DecodeRoot(m)
				return short2.registry(m)
			})
		}
		return !r.Expired()
	})
	r.Bound("%d mutants of %d valid registries (cuts, bytes, words, pieces removed and doubled), short byte strings", seq, len(regs))
	seq = 0

	// 3. mutants of roots
	sref := func(n string) registry.SchemaRef {
		s, _ := worldReg.SchemaByName(n)
		return s.Reference()
	}
	pk, _, _ := cipher.GenerateDeterministicKeyPair([]byte("r03"))
	root := &registry.Root{Refs: []registry.Dynamic{{}, {Hash: leaf, Schema: sref("Leaf")}}, Descriptor: []byte("abc"), Reg: worldReg.Reference(), Pub: pk, Nonce: 7, Seq: 3, Time: 12345}
	for _, ro := range []*registry.Root{{}, root} {
		mutants(ro.Encode(), r.Thorough(), func(desc string, m []byte) bool {
			if mine() {
				l.run("root "+desc, fmt.Sprintf("%x", m), func() string {
					x, err := registry.DecodeRoot(m)
					if (err == nil) == (x == nil) {
						return fmt.Sprintf("DecodeRoot gives %v and %v", x, err)
					}
					if err == nil {
						q.root(worldReg, x)
					}
					return ""
				})
			}
			return !r.Expired()
		})
	}
	r.Bound("%d mutants of roots", seq)
	seq = 0

	// 4. mutants of values
	elems := []shape{}
	for _, a := range atoms {
		elems = append(elems, a)
		if a.tag == "" {
			elems = append(elems, sliceShape(a), arrayShape(2, a), arrayShape(0, a), sliceShape(sliceShape(a)), sliceShape(arrayShape(2, a)), arrayShape(2, sliceShape(a)))
			elems = append(elems, structShape(atoms[1], a, atoms[3]), sliceShape(structShape(a, atoms[2])))
		}
	}
	for _, s := range elems {
		typ := reflect.StructOf([]reflect.StructField{{Name: "X", Type: s.typ, Tag: reflect.StructTag(s.tag)}, {Name: "Y", Type: atoms[1].typ}})
		reg := registry.NewRegistry(func(t *registry.Reg) {
			base(t)
			t.Register("T", reflect.Zero(typ).Interface())
		})
		ts, _ := reg.SchemaByName("T")
		vs := s.vals
		if len(vs) > 2 && !r.Thorough() {
			vs = vs[len(vs)-2:]
		}
		for k, v := range vs {
			x := reflect.New(typ).Elem()
			x.Field(0).Set(v.v)
			x.Field(1).Set(atoms[1].vals[1].v)
			mutants(encoder.Serialize(x.Interface()), r.Thorough(), func(desc string, m []byte) bool {
				if mine() {
					l.run(fmt.Sprintf("value %d of {%s; string} %s", k, s.desc, desc), fmt.Sprintf("%x", m), func() string {
						if n, err := ts.Size(m); err == nil && n > len(m) {
							return fmt.Sprintf("size is %d", n)
						}
						q.object(reg, ts.Reference(), m)
						return ""
					})
				}
				return !r.Expired()
			})
			r.Outcome(fmt.Sprintf("value %s %d", s.desc, k))
		}
	}
	r.Bound("%d mutants of values of %d types", seq, len(elems))
	seq = 0
	r03lists(r, l, mine)
	r.Validated.Store(r.Evaluations.Load())
}

type wireRefs struct {
	Depth, Degree, Length uint32
	Elements              []cipher.SHA256
}

type wireNode struct {
	Length   uint32
	Elements []cipher.SHA256
}

// 5. malformed lists
func r03lists(r *core.R, l *limiter, mine func() bool) {
	leafs := hashes([]int{1, 2, 3})
	store := newElemPack(2, 0)
	add := func(v interface{}) hash {
		h, _ := store.Add(encoder.Serialize(v))
		return h
	}
	// nodes
	nodes := []hash{{}, leafs[0], hashOf(199)}
	delete(store.m, hashOf(199))
	var els [][]hash
	els = append(els, nil, []hash{{}}, leafs[:1], leafs[:2], leafs)
	for _, n := range []uint32{0, 1, 2, 0xffffffff} {
		for _, e := range els {
			nodes = append(nodes, add(wireNode{n, e}))
		}
	}
	good1, good2 := add(wireNode{1, leafs[:1]}), add(wireNode{2, leafs[:2]})
	for _, n := range []uint32{1, 2, 3, 4, 0x80000000} {
		for _, e := range [][]hash{{good1}, {good2, good1}, {good2, good2}, {good1, {}}, {hashOf(199)}, {good2, leafs[0]}} {
			nodes = append(nodes, add(wireNode{n, e}))
		}
	}
	schemaPack := registry.NewRegistry(func(t *registry.Reg) { t.Register("Leaf", walkLeaf{}) })
	leafSch, _ := schemaPack.SchemaByName("Leaf")
	store.reg = schemaPack
	type method struct {
		name string
		run  func(p *pack, x *registry.Refs)
	}
	cb := func(int, hash) error { return nil }
	seqOps := []method{
		{"Len", func(p *pack, x *registry.Refs) { x.Len(p); x.Depth(p); x.Degree(p) }},
		{"HashByIndex", func(p *pack, x *registry.Refs) {
			for _, i := range []int{0, 1, 2, 3, 5, 1 << 20, -1} {
				x.HashByIndex(p, i)
			}
		}},
		{"by hash", func(p *pack, x *registry.Refs) {
			for _, h := range leafs {
				x.HasHash(p, h)
				x.IndexOfHash(p, h)
				x.IndicesByHash(p, h)
			}
		}},
		{"iterate", func(p *pack, x *registry.Refs) {
			x.Ascend(p, cb)
			x.Descend(p, cb)
			for _, i := range []int{0, 1, 3} {
				x.AscendFrom(p, i, cb)
				x.DescendFrom(p, i, cb)
			}
		}},
		{"walk", func(p *pack, x *registry.Refs) {
			x.Walk(p, leafSch, func(hash, int) (bool, error) { return true, nil })
		}},
		{"tree", func(p *pack, x *registry.Refs) { x.Tree(p, true); (&registry.Refs{Hash: x.Hash}).Tree(p, false) }},
		{"slice", func(p *pack, x *registry.Refs) {
			for _, ij := range [][2]int{{0, 1}, {0, 2}, {1, 2}, {1, 3}, {2, 4}} {
				x.Slice(p, ij[0], ij[1])
			}
		}},
		{"append", func(p *pack, x *registry.Refs) {
			x.AppendHashes(p, leafs[0])
			x.AppendHashes(p, leafs...)
		}},
		{"append to another", func(p *pack, x *registry.Refs) {
			var o registry.Refs
			o.AppendHashes(p, leafs...)
			o.Append(p, x)
		}},
		{"set", func(p *pack, x *registry.Refs) {
			for i := 0; i < 4; i++ {
				x.SetHashByIndex(p, i, leafs[2])
			}
		}},
		{"delete by index", func(p *pack, x *registry.Refs) {
			for _, i := range []int{2, 0, 0, 0, 0, 0} {
				x.DeleteByIndex(p, i)
			}
		}},
		{"delete by hash", func(p *pack, x *registry.Refs) {
			for _, h := range leafs {
				x.DeleteByHash(p, h)
			}
		}},
		{"degree", func(p *pack, x *registry.Refs) { x.SetDegree(p, 3) }},
		{"rebuild", func(p *pack, x *registry.Refs) { x.Rebuild(p); x.Clear(); x.Rebuild(p) }},
		{"split", func(p *pack, x *registry.Refs) {
			s := &splitter{w: &world{p: p}, reg: p.reg, seen: map[hash]bool{}, mode: 1}
			x.Split(s, leafSch)
			for k := 0; k < 1000 && len(s.tasks) > 0; k++ {
				fn := s.tasks[0]
				s.tasks = s.tasks[1:]
				fn()
			}
		}},
	}
	flagsList := []registry.Flags{0, registry.HashTableIndex, registry.EntireRefs, registry.LazyUpdating}
	n := 0
	try := func(desc string, b []byte) {
		if !mine() || r.Expired() {
			return
		}
		n++
		r.Transitions.Add(1)
		r.States.Add(1)
		r.Outcome("list " + desc)
		h := cipher.SumSHA256(b)
		for _, f := range flagsList {
			for _, op := range seqOps {
				l.run(fmt.Sprintf("list %s; flags %d, %s", desc, f, op.name), fmt.Sprintf("%x", b), func() string {
					p := *store
					p.flags = f
					p.m = make(map[hash][]byte, len(store.m))
					for k, v := range store.m {
						p.m[k] = v
					}
					p.m[h] = b
					op.run(&p, &registry.Refs{Hash: h})
					return ""
				})
			}
		}
	}
	deps := []uint32{0, 1, 2, 3, 31, 32, 0x7fffffff, 0xffffffff}
	degs := []uint32{0, 1, 2, 3, 0x7fffffff, 0xffffffff}
	lens := []uint32{0, 1, 2, 3, 4, 5, 0x7fffffff, 0xffffffff}
	lists := append([][]hash{}, els...)
	for _, x := range nodes {
		lists = append(lists, []hash{x})
	}
	for i, x := range nodes {
		for j, y := range nodes {
			if r.Thorough() || i%3 == 0 && j%4 == 0 {
				lists = append(lists, []hash{x, y})
			}
		}
	}
	for _, dep := range deps {
		for _, deg := range degs {
			if deg != 2 && dep > 2 {
				continue
			}
			for _, ln := range lens {
				for i, e := range lists {
					if len(e) > 1 && i >= len(els) && !r.Thorough() && (deg != 2 || dep > 2 || ln > 4) {
						continue
					}
					try(fmt.Sprintf("depth %d degree %d length %d elements %v", dep, deg, ln, shortHashes(e)), encoder.Serialize(wireRefs{dep, deg, ln, e}))
				}
			}
		}
	}
	ok := encoder.Serialize(wireRefs{1, 2, 3, []hash{good2, good1}})
	mutants(ok, false, func(desc string, m []byte) bool {
		try(desc, m)
		return !r.Expired()
	})
	r.Bound("malformed lists: depths %v, degrees %v, lengths %v, up to 2 of %d nodes; %d operations, 4 flags", deps, degs, lens, len(nodes), len(seqOps))
}

func shortHashes(hs []hash) (s []string) {
	for _, h := range hs {
		s = append(s, h.Hex()[:6])
	}
	return
}
