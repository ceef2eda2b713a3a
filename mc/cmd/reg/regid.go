package main

import (
	"bytes"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"sync"

	"github.com/skycoin/skycoin/src/cipher"

	"github.com/skycoin/cxo/skyobject/registry"

	"vmc/core"
)

type (
	namedUint   uint32
	namedString string
	namedBytes  []byte
)

// a type of a field: its description and how to make it; env holds the
// registered types made before
type ftype struct {
	desc string
	tag  string
	need string // registered type it holds by value
	make func(env map[string]reflect.Type) reflect.Type
	skip bool // not a part of the schema
	name string
}

func plain(v interface{}) func(map[string]reflect.Type) reflect.Type {
	t := reflect.TypeOf(v)
	return func(map[string]reflect.Type) reflect.Type { return t }
}

// field types; own and others are names of registered types that may be referred to
func fieldTypes(refs []string, values []string) (fs []ftype) {
	add := func(desc string, v interface{}) { fs = append(fs, ftype{desc: desc, make: plain(v)}) }
	add("bool", false)
	add("int8", int8(0))
	add("uint8", uint8(0))
	add("int16", int16(0))
	add("uint16", uint16(0))
	add("int32", int32(0))
	add("uint32", uint32(0))
	add("int64", int64(0))
	add("uint64", uint64(0))
	add("float32", float32(0))
	add("float64", float64(0))
	add("string", "")
	add("uint32:namedUint", namedUint(0))
	add("string:namedString", namedString(""))
	add("[]uint8", []byte(nil))
	add("[]uint8:namedBytes", namedBytes(nil))
	add("[]int32", []int32(nil))
	add("[][]string", [][]string(nil))
	add("[0]uint8", [0]byte{})
	add("[1]uint8", [1]byte{})
	add("[2]uint8", [2]byte{})
	add("[2][3]uint16", [2][3]uint16{})
	add("[3][2]uint16", [3][2]uint16{})
	add("[][2]bool", [][2]bool(nil))
	add("[2][]bool", [2][]bool{})
	add("{X uint32 ``}", struct{ X uint32 }{})
	add("{X uint32 `a`}", struct {
		X uint32 `a`
	}{})
	add("{X,Y uint32}", struct{ X, Y uint32 }{})
	add("[]{X uint32}", []struct{ X uint32 }(nil))
	add("Dynamic", registry.Dynamic{})
	add("[]Dynamic", []registry.Dynamic(nil))
	add("[2]Dynamic", [2]registry.Dynamic{})
	for _, n := range refs {
		fs = append(fs,
			ftype{desc: "Ref " + n, tag: `skyobject:"schema=` + n + `"`, make: plain(registry.Ref{})},
			ftype{desc: "Refs " + n, tag: `skyobject:"schema=` + n + `"`, make: plain(registry.Refs{})},
			ftype{desc: "Ref " + n + " other tag", tag: `json:"x" skyobject:"schema=` + n + `"`, make: plain(registry.Ref{})},
		)
	}
	for _, n := range values {
		fs = append(fs,
			ftype{desc: "value " + n, need: n, make: func(e map[string]reflect.Type) reflect.Type { return e[n] }},
			ftype{desc: "[]" + n, need: n, make: func(e map[string]reflect.Type) reflect.Type { return reflect.SliceOf(e[n]) }},
			ftype{desc: "[2]" + n, need: n, make: func(e map[string]reflect.Type) reflect.Type { return reflect.ArrayOf(2, e[n]) }},
		)
	}
	return
}

// definition of a registered type
type typeDef struct {
	name   string
	fields []ftype
}

func (d typeDef) String() string {
	s := d.name + "{"
	for _, f := range d.fields {
		if !f.skip {
			s += fmt.Sprintf("%s %s `%s`; ", f.name, f.desc, f.tag)
		}
	}
	return s + "}"
}

// makeTypes of the definitions; a definition holds by value only types that precede it
func makeTypes(ds []typeDef) map[string]reflect.Type {
	env := map[string]reflect.Type{}
	for _, d := range ds {
		var fs []reflect.StructField
		for _, f := range d.fields {
			sf := reflect.StructField{Name: f.name, Type: f.make(env), Tag: reflect.StructTag(f.tag)}
			if f.name[0] >= 'a' {
				sf.PkgPath = "main"
			}
			fs = append(fs, sf)
		}
		env[d.name] = reflect.StructOf(fs)
	}
	return env
}

func perms(n int) (ps [][]int) {
	var rec func(p []int, used int)
	rec = func(p []int, used int) {
		if len(p) == n {
			ps = append(ps, append([]int{}, p...))
			return
		}
		for i := 0; i < n; i++ {
			if used&(1<<i) == 0 {
				rec(append(p, i), used|1<<i)
			}
		}
	}
	rec(nil, 0)
	return
}

func newRegistry(ds []typeDef, env map[string]reflect.Type, order []int) *registry.Registry {
	return registry.NewRegistry(func(t *registry.Reg) {
		for _, i := range order {
			t.Register(ds[i].name, reflect.Zero(env[ds[i].name]).Interface())
		}
	})
}

// show a schema; registered types inside are shown by name
func showSchema(s registry.Schema, top bool, depth int) string {
	if s == nil {
		return "nil"
	}
	if depth > 20 {
		return "..."
	}
	h := fmt.Sprintf("%v:%s:%d:refs=%v:reg=%v", s.Kind(), s.Name(), s.Len(), s.HasReferences(), s.IsRegistered())
	if s.Name() != string(s.RawName()) {
		h += "!name"
	}
	if s.IsReference() {
		h += fmt.Sprintf(" reference %d", s.ReferenceType())
		if s.ReferenceType() != registry.ReferenceTypeDynamic {
			h += " to " + s.Elem().Name() + " " + s.Elem().Kind().String()
		}
		return h
	}
	if s.IsRegistered() && !top {
		return h
	}
	if e := s.Elem(); e != nil {
		h += "[" + showSchema(e, false, depth+1) + "]"
	}
	for _, f := range s.Fields() {
		h += fmt.Sprintf("(%s `%s` %v %s)", f.Name(), f.Tag(), f.Kind(), showSchema(f.Schema(), false, depth+1))
	}
	return h
}

// the same from the definition
func wantSchema(t reflect.Type, names map[reflect.Type]string, tag reflect.StructTag, top bool, refs func(reflect.Type) bool) string {
	name := names[t]
	if name == "" {
		name = t.Name()
	}
	switch t {
	case reflect.TypeOf(registry.Dynamic{}):
		return fmt.Sprintf("%v::0:refs=true:reg=false reference 3", reflect.Interface)
	case reflect.TypeOf(registry.Ref{}), reflect.TypeOf(registry.Refs{}):
		k := 1
		if t == reflect.TypeOf(registry.Refs{}) {
			k = 2
		}
		to := tag.Get("skyobject")
		to = to[strings.Index(to, "schema=")+7:]
		return fmt.Sprintf("%v::0:refs=true:reg=false reference %d to %s struct", reflect.Ptr, k, to)
	}
	ln := 0
	if t.Kind() == reflect.Array {
		ln = t.Len()
	}
	h := fmt.Sprintf("%v:%s:%d:refs=%v:reg=%v", t.Kind(), name, ln, refs(t), t.Kind() == reflect.Struct && name != "")
	if t.Kind() == reflect.Struct && name != "" && !top {
		return h
	}
	switch t.Kind() {
	case reflect.Array, reflect.Slice:
		h += "[" + wantSchema(t.Elem(), names, "", false, refs) + "]"
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if f.PkgPath != "" || f.Tag.Get("enc") == "-" || f.Name == "_" {
				continue
			}
			x := wantSchema(f.Type, names, f.Tag, false, refs)
			h += fmt.Sprintf("(%s `%s` %s %s)", f.Name, f.Tag, x[:strings.Index(x, ":")], x)
		}
	}
	return h
}

func holdsRefs(t reflect.Type) bool {
	switch t {
	case reflect.TypeOf(registry.Dynamic{}), reflect.TypeOf(registry.Ref{}), reflect.TypeOf(registry.Refs{}):
		return true
	}
	switch t.Kind() {
	case reflect.Array, reflect.Slice:
		return holdsRefs(t.Elem())
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if f.PkgPath == "" && f.Tag.Get("enc") != "-" && f.Name != "_" && holdsRefs(f.Type) {
				return true
			}
		}
	}
	return false
}

type regCheck struct {
	mx    sync.Mutex
	byRef map[registry.RegistryRef]string
	byDef map[string]registry.RegistryRef
	refs  map[registry.SchemaRef]string
}

func (c *regCheck) one(ds []typeDef) (bad string, regs int) {
	var all []string
	for _, d := range ds {
		all = append(all, d.String())
	}
	sort.Strings(all)
	def := strings.Join(all, " ")
	env := makeTypes(ds)
	names := map[reflect.Type]string{}
	for n, t := range env {
		names[t] = n
	}
	if len(names) != len(ds) {
		return // two names for one type
	}
	want := map[string]string{}
	for _, d := range ds {
		want[d.name] = wantSchema(env[d.name], names, "", true, holdsRefs)
	}
	var enc []byte
	for _, order := range perms(len(ds)) {
		g := newRegistry(ds, env, order)
		regs++
		e := g.Encode()
		if enc == nil {
			enc = e
		}
		if !bytes.Equal(e, enc) || !bytes.Equal(g.Encode(), enc) {
			return "the encoding depends on the order of registration", regs
		}
		if g.Reference() != registry.RegistryRef(cipher.SumSHA256(enc)) {
			return "the reference is not the hash of the encoding", regs
		}
		d, err := registry.DecodeRegistry(enc)
		if err != nil {
			return "decoding: " + err.Error(), regs
		}
		if d.Reference() != g.Reference() || !bytes.Equal(d.Encode(), enc) {
			return "the decoded registry has another reference or encoding", regs
		}
		for n, t := range env {
			ts := g.Types()
			if ts.Direct[n] != t || ts.Inverse[t] != n {
				return "Types does not hold " + n, regs
			}
			s, err := g.SchemaByName(n)
			if err != nil {
				return err.Error(), regs
			}
			sd, err := d.SchemaByName(n)
			if err != nil {
				return "decoded: " + err.Error(), regs
			}
			if got := showSchema(s, true, 0); got != want[n] {
				return fmt.Sprintf("schema %s is\n%s want\n%s", n, got, want[n]), regs
			}
			if got := showSchema(sd, true, 0); got != want[n] {
				return fmt.Sprintf("the decoded schema %s is\n%s want\n%s", n, got, want[n]), regs
			}
			if s.Reference() != sd.Reference() || s.Reference() != registry.SchemaRef(cipher.SumSHA256(s.Encode())) || !bytes.Equal(s.Encode(), sd.Encode()) {
				return "reference or encoding of the decoded schema differ", regs
			}
			for _, q := range []*registry.Registry{g, d} {
				x, err := q.SchemaByReference(s.Reference())
				if err != nil || x.Name() != n {
					return fmt.Sprintf("SchemaByReference of %s gives %v %v", n, x, err), regs
				}
				if _, err = q.SchemaByName(n + "x"); err == nil {
					return "a schema by a wrong name", regs
				}
				if _, err = q.SchemaByReference(registry.SchemaRef{1}); err == nil {
					return "a schema by a wrong reference", regs
				}
			}
			c.mx.Lock()
			id := strings.NewReplacer("refs=true", "", "refs=false", "").Replace(want[n])
			o, ok := c.refs[s.Reference()]
			c.refs[s.Reference()] = id
			c.mx.Unlock()
			if ok && o != id {
				return "the schema has the reference of another: " + o, regs
			}
		}
		// a schema of a type held by value or referred to is the registered one
		for n := range env {
			for _, q := range []*registry.Registry{g, d} {
				s, _ := q.SchemaByName(n)
				if bad := linked(q, s); bad != "" {
					return bad, regs
				}
			}
		}
	}
	ref := registry.RegistryRef(cipher.SumSHA256(enc))
	c.mx.Lock()
	defer c.mx.Unlock()
	if o, ok := c.byRef[ref]; ok && o != def {
		return "has the reference of " + o, regs
	}
	c.byRef[ref] = def
	if o, ok := c.byDef[def]; ok && o != ref {
		return "another reference for the same types", regs
	}
	c.byDef[def] = ref
	return
}

func linked(q *registry.Registry, s registry.Schema) string {
	if s == nil {
		return ""
	}
	check := func(x registry.Schema) string {
		if x.IsRegistered() {
			y, err := q.SchemaByName(x.Name())
			if err != nil || x != y {
				return "a type inside is not the registered " + x.Name()
			}
			return ""
		}
		return linked(q, x)
	}
	if s.IsReference() && s.ReferenceType() == registry.ReferenceTypeDynamic {
		return ""
	}
	if e := s.Elem(); e != nil {
		if bad := check(e); bad != "" {
			return bad
		}
	}
	for _, f := range s.Fields() {
		if bad := check(f.Schema()); bad != "" {
			return bad
		}
	}
	return ""
}

func named(f ftype, n string) ftype {
	f.name = n
	return f
}

func r01(r *core.R) {
	r.Rule("a case is a set of registered types; all orders of registration are made, encoded, decoded and compared with the definition, and all sets with each other")
	r.Assume("SHA256 has no collisions among the registries made; the iteration order of Go maps inside the registry is not controlled")
	c := &regCheck{byRef: map[registry.RegistryRef]string{}, byDef: map[string]registry.RegistryRef{}, refs: map[registry.SchemaRef]string{}}
	var cases [][]typeDef
	leaf := func(n string) typeDef {
		return typeDef{n, []ftype{named(ftype{desc: "uint8", make: plain(uint8(0))}, n+"leaf")}}
	}
	one := fieldTypes([]string{"A", "B"}, []string{"B"})
	// type A of up to two fields beside a simple B, fields with other names
	cases = append(cases, []typeDef{}, []typeDef{{"A", nil}}, []typeDef{{"B", nil}})
	for _, b := range []string{"B"} {
		for i, f := range one {
			for _, n := range []string{"X", "Y", "Xx"} {
				cases = append(cases, []typeDef{leaf(b), {"A", []ftype{named(f, n)}}})
			}
			cases = append(cases, []typeDef{leaf(b), {"C", []ftype{named(f, "X")}}, {"A", nil}})
			// fields that are not a part of the schema
			cases = append(cases, []typeDef{leaf(b), {"A", []ftype{named(f, "X"),
				{desc: "-", name: "Y", tag: `enc:"-"`, skip: true, make: plain(map[int]int{})},
				{desc: "-", name: "hidden", skip: true, make: plain(make(chan int))}}}})
			for j, g := range one {
				cases = append(cases, []typeDef{leaf(b), {"A", []ftype{named(f, "X"), named(g, "Y")}}})
				if i != j {
					cases = append(cases, []typeDef{leaf(b), {"A", []ftype{named(f, "Y"), named(g, "X")}}})
				}
			}
		}
	}
	// two and three types that hold or refer to each other
	fa := fieldTypes([]string{"A", "B", "C"}, nil)
	fb := fieldTypes([]string{"A", "C"}, []string{"A"})
	fc := fieldTypes([]string{"A", "B"}, []string{"A", "B"})
	for _, a := range fa {
		for _, b := range fb {
			cases = append(cases, []typeDef{{"A", []ftype{named(a, "AX")}}, {"B", []ftype{named(b, "BX")}}, leaf("C")})
			for _, x := range fc {
				cases = append(cases, []typeDef{{"A", []ftype{named(a, "AX")}}, {"B", []ftype{named(b, "BX")}}, {"C", []ftype{named(x, "CX")}}})
			}
		}
	}
	if r.Thorough() {
		// three fields
		for _, f := range one {
			for _, g := range one {
				for _, h := range one {
					cases = append(cases, []typeDef{leaf("B"), {"A", []ftype{named(f, "X"), named(g, "Y"), named(h, "Z")}}})
				}
			}
		}
	}
	var regs, sets int64
	r.Parallel(len(cases), func(i int) {
		var bad string
		var n int
		what := func() string { return fmt.Sprint(cases[i]) }
		if p := r.Guard(what, func() { bad, n = c.one(cases[i]) }); p != "" {
			bad = p
		}
		c.mx.Lock()
		regs += int64(n)
		sets++
		c.mx.Unlock()
		if bad != "" {
			r.Violate(what(), bad, nil)
		}
	})
	for d := range c.byDef {
		r.Outcome(d)
	}
	r.States.Add(int64(len(c.byDef)))
	r.Transitions.Add(regs)
	r.Validated.Store(regs)
	r.Bound("%d sets of up to 3 types of up to %d fields over %d field types, every order of registration: %d registries, %d distinct", sets, r.Pick(2, 3), len(one), regs, len(c.byDef))
	r.Sample("%v", cases[len(cases)/2])
}
