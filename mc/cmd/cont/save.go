package main

import (
	"fmt"

	"github.com/skycoin/skycoin/src/cipher"

	"github.com/skycoin/cxo/skyobject"
	"github.com/skycoin/cxo/skyobject/registry"

	"vmc/core"
)

// look which of given objects are in the store, which is not specified
// for objects without references
func (x *worldRun) look(hs ...hash) {
	want := x.counts()
	for _, h := range hs {
		if want[h] == 0 {
			_, _, err := x.c.Get(h, 0)
			x.has[h] = err == nil
		}
	}
}

// unsaved notes the root of a Save that failed
func (x *worldRun) unsaved(f, n, k int, r *registry.Root) {
	if r.Hash == (hash{}) {
		return
	}
	for _, m := range append(append([]*mroot(nil), x.roots...), x.gone...) {
		if m.hash == r.Hash {
			return
		}
	}
	x.gone = append(x.gone, &mroot{f, n, r.Seq, k, r.Hash, r.Encode()})
	x.look(r.Hash)
}

// mustFail a Save
func (x *worldRun) mustFail(why string, up *skyobject.Unpack, f, n, k int, r *registry.Root) string {
	if err := x.c.Save(up, r); err == nil {
		return "Save succeeds with " + why
	}
	x.unsaved(f, n, k, r)
	return ""
}

type svariant struct {
	name string
	run  func(x *worldRun, up *skyobject.Unpack, f, n, k int) string
}

func (x *worldRun) newRoot(f, n, k int) *registry.Root {
	return &registry.Root{Pub: idents[f].pk, Nonce: x.cf.nonces[n], Refs: x.dynamics(k)}
}

func otherRegistry() *registry.Registry {
	return registry.NewRegistry(func(r *registry.Reg) { r.Register("test.Leaf", Leaf{}) })
}

// variants of saving; a variant that fails is followed by a good one with the same Unpack
var svariants = []svariant{
	{"plain", func(x *worldRun, up *skyobject.Unpack, f, n, k int) string {
		return x.saveWith(up, f, n, k, x.newRoot(f, n, k))
	}},
	{"garbage fields", func(x *worldRun, up *skyobject.Unpack, f, n, k int) string {
		r := x.newRoot(f, n, k)
		r.Seq, r.Time, r.Prev = 77, -5, cipher.SumSHA256([]byte("prev"))
		r.Hash, r.Sig, r.IsFull = cipher.SumSHA256([]byte("hash")), cipher.Sig{1, 2, 3}, true
		r.Reg = cat.reg.Reference()
		return x.saveWith(up, f, n, k, r)
	}},
	{"old root and Unpack again", func(x *worldRun, up *skyobject.Unpack, f, n, k int) string {
		r := x.newRoot(f, n, k)
		if bad := x.saveWith(up, f, n, k, r); bad != "" || !x.feed[f] {
			return bad
		}
		return x.saveWith(up, f, n, k, r)
	}},
	{"other content in the old root", func(x *worldRun, up *skyobject.Unpack, f, n, k int) string {
		r := x.newRoot(f, n, k)
		if bad := x.saveWith(up, f, n, k, r); bad != "" || !x.feed[f] {
			return bad
		}
		r.Refs = nil
		if bad := x.saveWith(up, f, n, 0, r); bad != "" {
			return bad
		}
		r.Refs = x.dynamics(k)
		return x.saveWith(up, f, n, k, r)
	}},
	{"registry of an empty root changes", func(x *worldRun, up *skyobject.Unpack, f, n, k int) string {
		r := x.newRoot(f, n, k)
		r.Refs, r.Reg = nil, otherRegistry().Reference()
		return x.saveWith(up, f, n, 0, r)
	}},
	{"blank feed", func(x *worldRun, up *skyobject.Unpack, f, n, k int) string {
		r := x.newRoot(f, n, k)
		r.Pub = cipher.PubKey{}
		return x.mustFail("blank feed", up, f, n, k, r)
	}},
	{"zero nonce", func(x *worldRun, up *skyobject.Unpack, f, n, k int) string {
		r := x.newRoot(f, n, k)
		r.Nonce = 0
		return x.mustFail("zero nonce", up, f, n, k, r)
	}},
	{"other registry", func(x *worldRun, up *skyobject.Unpack, f, n, k int) string {
		r := x.newRoot(f, n, k)
		r.Reg = otherRegistry().Reference()
		if len(r.Refs) == 0 {
			return "-"
		}
		return x.mustFail("another registry", up, f, n, k, r)
	}},
	{"key of another feed", func(x *worldRun, up *skyobject.Unpack, f, n, k int) string {
		u2, err := x.c.Unpack(idents[3].sk, cat.reg)
		if err != nil {
			return "Unpack: " + err.Error()
		}
		bad := x.mustFail("the key of another feed", u2, f, n, k, x.newRoot(f, n, k))
		if err = u2.Close(); err != nil && bad == "" {
			bad = "Close: " + err.Error()
		}
		return bad
	}},
	{"missing object", func(x *worldRun, up *skyobject.Unpack, f, n, k int) string {
		r := x.newRoot(f, n, k)
		r.Refs = append(r.Refs, registry.Dynamic{Hash: cipher.SumSHA256([]byte("missing")), Schema: must(cat.reg.SchemaByName("test.Leaf")).Reference()})
		return x.mustFail("a missing object", up, f, n, k, r)
	}},
	{"missing schema", func(x *worldRun, up *skyobject.Unpack, f, n, k int) string {
		r := x.newRoot(f, n, k)
		if len(r.Refs) == 0 {
			return "-"
		}
		r.Refs = append(r.Refs, registry.Dynamic{Hash: r.Refs[0].Hash})
		return x.mustFail("a reference without schema", up, f, n, k, r)
	}},
	{"schema of no registry", func(x *worldRun, up *skyobject.Unpack, f, n, k int) string {
		r := x.newRoot(f, n, k)
		h, err := up.Add([]byte("something"))
		if err != nil {
			return "Add: " + err.Error()
		}
		x.has[h] = true
		r.Refs = append(r.Refs, registry.Dynamic{Hash: h, Schema: registry.SchemaRef(cipher.SumSHA256([]byte("schema")))})
		return x.mustFail("a reference with unknown schema", up, f, n, k, r)
	}},
	{"too large", func(x *worldRun, up *skyobject.Unpack, f, n, k int) string {
		r := x.newRoot(f, n, k)
		r.Descriptor = make([]byte, 4096)
		return x.mustFail("a value larger than the limit", up, f, n, k, r)
	}},
}

// saveVariant runs a variant, then a plain Save with the same Unpack
func (x *worldRun) saveVariant(f, n, k int, v svariant, then bool) string {
	up, err := x.c.Unpack(idents[f].sk, cat.reg)
	if err != nil {
		return "Unpack: " + err.Error()
	}
	defer up.Close()
	if err = put(up, k); err != nil {
		return "Set: " + err.Error()
	}
	x.added(cat.contents[k].objs...)
	if bad := v.run(x, up, f, n, k); bad != "" {
		return bad
	}
	if then {
		if bad := x.compare(); bad != "" {
			return "after the first Save: " + bad
		}
		if bad := x.saveWith(up, f, n, k, x.newRoot(f, n, k)); bad != "" {
			return "Save after it: " + bad
		}
	}
	if err = up.Close(); err != nil {
		return "Close of the Unpack: " + err.Error()
	}
	return ""
}

// faults of one Save: the call at fails
func (x *worldRun) saveFault(f, n, k, at int) (bad string, done bool) {
	calls, hit := 0, false
	fail := func() error {
		calls++
		if calls == at {
			hit = true
			return errInjected
		}
		return nil
	}
	arm := func(on bool) {
		if on {
			x.cx.Fail, x.ix.Fail = func(string, hash) error { return fail() }, fail
		} else {
			x.cx.Fail, x.ix.Fail = nil, nil
		}
	}
	arm(true)
	up, err := x.c.Unpack(idents[f].sk, cat.reg)
	if err != nil {
		return "Unpack: " + err.Error(), true
	}
	r := x.newRoot(f, n, k)
	if err = put(up, k); err == nil {
		err = x.c.Save(up, r)
	}
	wasHit := hit
	if err == nil {
		arm(false) // to check the Root
		x.added(cat.contents[k].objs...)
		if bad = x.saved(f, n, k, r); bad != "" {
			return
		}
		arm(true)
	}
	cerr := up.Close()
	arm(false)
	switch {
	case !wasHit && err != nil:
		return "Save fails without a fault: " + err.Error(), true
	case cerr != nil && wasHit:
		return "Close of the Unpack: " + cerr.Error(), true
	case cerr != nil:
		if cerr = up.Close(); cerr != nil {
			return "second Close of the Unpack: " + cerr.Error(), true
		}
	}
	if err != nil {
		x.unsaved(f, n, k, r)
		x.look(cat.contents[k].objs...)
		x.look(cat.regHash)
		if bad = x.compare(); bad != "" {
			return fmt.Sprintf("after a failed Save (call %d): %s", at, bad), true
		}
	} else if bad = x.compare(); bad != "" {
		return fmt.Sprintf("after Save (failed call %d): %s", at, bad), true
	}
	// and now without a fault
	if bad = x.saveOp(f, n, k); bad == "" {
		bad = x.compare()
	}
	if bad != "" {
		return fmt.Sprintf("Save after failed call %d: %s", at, bad), true
	}
	if bad = x.closed(); bad != "" {
		return fmt.Sprintf("failed call %d: %s", at, bad), true
	}
	return "", !hit
}

func c04(r *core.R) {
	r.Rule("a case is one history on a fresh container: earlier saves, fillings and deletions, then a Save in one of the variants, or with one failing storage call at every position; the saved root is verified (signature, seq, Prev, Hash, references and registry can be read back, last of its head), the failed one must leave index, counts and values as they were and not disturb the next Save")
	for i, cf := range worldConfs() {
		cf.feeds, cf.nonces = 2, []uint64{1, 2}
		cf.contents = []int{0, 1, 3, 4}
		if i == 0 || r.Thorough() {
			worldExplore(r, "saving on two feeds", cf, r.Pick(3, 4), false, worldOps(cf, "Save", "DelLast", "DelFirst"))
		}

		// variants
		cf.feeds = 1
		pre := worldOps(cf, "Save", "SaveU", "Put", "Fill", "DelLast", "DelHead", "Clean", "DelFeed", "AddFeed")
		var ops []wop
		for _, v := range svariants {
			for n := range cf.nonces[:1] {
				for _, k := range cf.contents {
					for _, then := range []bool{false, true} {
						ops = append(ops, wop{fmt.Sprintf("Save %s (%d, %s, %v)", v.name, cf.nonces[n], cat.contents[k].name, then),
							func(x *worldRun) string { return x.saveVariant(0, n, k, v, then) }})
					}
				}
			}
		}
		twoPhases(r, "variants, "+cf.name, cf, pre, ops, r.Pick(2, 3), r.Pick(1, 2))

		// faults
		cf.contents = []int{1, 2, 4, 5}
		pre = worldOps(cf, "Save", "Put", "Fill", "DelLast", "Abandon")
		var fops []wop
		for _, k := range cf.contents {
			fops = append(fops, wop{fmt.Sprintf("failing Save(%s)", cat.contents[k].name), nil})
		}
		faults(r, "faults, "+cf.name, cf, pre, len(fops), r.Pick(2, 3), func(x *worldRun, op, at int) (string, bool) {
			return x.saveFault(0, 0, cf.contents[op], at)
		})
	}
}

// twoPhases explores every history of up to d1 operations pre followed by up to d2 ops
func twoPhases(r *core.R, name string, cf wconf, pre, ops []wop, d1, d2 int) {
	all := append(append([]wop(nil), pre...), ops...)
	var names []string
	for _, o := range all {
		names = append(names, o.name)
	}
	seen := core.Set{}
	run := func(h []int) core.Step {
		for i := 1; i < len(h); i++ {
			if h[i] < len(pre) && h[i-1] >= len(pre) {
				return core.Step{}
			}
		}
		np := 0
		for _, o := range h {
			if o < len(pre) {
				np++
			}
		}
		if np > d1 || len(h)-np > d2 {
			return core.Step{}
		}
		x, err := newWorldRun(cf)
		if err != nil {
			return core.Step{Bad: err.Error()}
		}
		defer func() { x.end() }()
		for i, op := range h {
			bad := all[op].run(x)
			if bad == "-" {
				return core.Step{}
			}
			if bad == "" && i == len(h)-1 {
				bad = x.compare()
			}
			if bad != "" {
				return core.Step{Bad: bad}
			}
		}
		s := x.state()
		if bad := x.closed(); bad != "" {
			return core.Step{Bad: bad}
		}
		r.Validated.Add(1)
		r.Outcome(name + s)
		seen.Add(s)
		return core.Step{Canon: s}
	}
	r.BFS(name, names, d1+d2, false, run)
}

// faults runs, after every history of pre up to depth, every operation with a fault at each call
func faults(r *core.R, name string, cf wconf, pre []wop, nops, depth int, op func(x *worldRun, op, at int) (string, bool)) {
	var names []string
	for _, o := range pre {
		names = append(names, o.name)
	}
	n := 0
	var hist [][]int
	core.Seqs(len(pre), 0, depth, func(h []int) bool {
		hist = append(hist, append([]int(nil), h...))
		return true
	})
	var points core.Set
	r.Parallel(len(hist)*nops, func(i int) {
		h, o := hist[i/nops], i%nops
		for at := 1; ; at++ {
			what := fmt.Sprintf("%s: %s; operation %d with failing call %d", name, core.Show(names, h), o, at)
			var bad string
			var done bool
			p := r.Guard(func() string { return what }, func() {
				x, err := newWorldRun(cf)
				if err != nil {
					bad = err.Error()
					return
				}
				defer x.end()
				for _, q := range h {
					if bad = pre[q].run(x); bad == "-" {
						bad, done = "", true
						return
					} else if bad != "" {
						return
					}
				}
				bad, done = op(x, o, at)
				r.Outcome(fmt.Sprint(name, o, at, x.state()))
			})
			if p != "" {
				bad = p
			}
			if bad != "" {
				r.Violate(what, bad, map[string]interface{}{"history": core.Show(names, h), "operation": o, "failing call": at})
				return
			}
			r.Validated.Add(1)
			points.Add(fmt.Sprint(o, at))
			if done || r.Full() {
				return
			}
		}
	})
	n = points.Len()
	r.States.Add(int64(n))
	r.Transitions.Add(int64(len(hist) * nops))
	r.Bound("%s: after every history of up to %d operations of %d, each of %d operations with every single failing storage call (%d places)", name, depth, len(pre), nops, n)
}
