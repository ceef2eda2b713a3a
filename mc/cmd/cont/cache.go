package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"github.com/skycoin/skycoin/src/cipher"

	"github.com/skycoin/cxo/data"
	"github.com/skycoin/cxo/skyobject"
	"github.com/skycoin/cxo/skyobject/registry"

	"vmc/core"
	"vmc/fake"
)

// objects of the cache checks: small, middle, larger than the cache takes,
// larger than the container takes
type tobj struct {
	name string
	key  cipher.SHA256
	val  []byte
}

func mkObj(name string, n int) tobj {
	v := bytes.Repeat([]byte(name), n)[:n]
	return tobj{name, cipher.SumSHA256(v), v}
}

const (
	maxItem   = 20
	maxObject = 30
)

var tobjs = []tobj{mkObj("a", 4), mkObj("b", 9), mkObj("c", 13), mkObj("L", 25), mkObj("X", 31), mkObj("d", 10)}

// one object of the model: a plain reference-counted store, the counts held
// by fillers, and the askers
type mobj struct {
	exists bool
	rc, f  int
	wants  map[int]int
}

func (m *mobj) String() string {
	return fmt.Sprint(m.exists, m.rc, m.f, m.wants)
}

// what an asker receives
type got struct {
	ch  int
	rc  int
	val string
	err bool
}

type cacheConf struct {
	name                 string
	amount, volume, item int
	policy               skyobject.CachePolicy
	cleaning             float64
	only                 []string // operations to explore, if not all
}

// cacheRun is one execution of a history
type cacheRun struct {
	cf   cacheConf
	c    *skyobject.Container
	cx   *fake.CXDS
	m    []*mobj
	chs  []chan skyobject.Object
	want []got // expected deliveries of current operation

	hits []int // number of uses since the object is cached
}

func newCacheRun(cf cacheConf, chans int) (x *cacheRun, err error) {
	x = &cacheRun{cf: cf, cx: fake.NewCXDS()}
	conf := skyobject.NewConfig()
	conf.DataDir = ""
	conf.CacheMaxAmount, conf.CacheMaxVolume = cf.amount, cf.volume
	conf.CachePolicy, conf.CacheCleaning = cf.policy, cf.cleaning
	conf.CacheMaxItemSize, conf.MaxObjectSize = cf.item, maxObject
	conf.DB = data.NewDB(x.cx, fake.NewIdx())
	if x.c, err = skyobject.NewContainer(conf); err != nil {
		return
	}
	for range tobjs {
		x.m = append(x.m, &mobj{wants: map[int]int{}})
	}
	for i := 0; i < chans; i++ {
		x.chs = append(x.chs, make(chan skyobject.Object, 8))
	}
	return
}

func (x *cacheRun) end() {
	x.c.Close()
	x.c.Index.Close()
}

type cop struct {
	name string
	key  int
	pre  func(x *cacheRun) bool
	run  func(x *cacheRun) string
}

func clamp(n int) int {
	if n < 0 {
		return 0
	}
	return n
}

func rcErr(what string, rc int, err error, wrc int, werr error) string {
	if fmt.Sprint(err) != fmt.Sprint(werr) {
		return fmt.Sprintf("%s returns error %v, want %v", what, err, werr)
	}
	if err == nil && rc != wrc {
		return fmt.Sprintf("%s returns count %d, want %d", what, rc, wrc)
	}
	return ""
}

func (x *cacheRun) deliver(k, ch int, err bool) {
	o, m := tobjs[k], x.m[k]
	g := got{ch: ch, err: err}
	if !err {
		g.rc, g.val = m.rc-m.f, string(o.val)
	}
	x.want = append(x.want, g)
}

// store the object while askers are waiting
func (x *cacheRun) setWanted(k, inc int) (rc int, err error) {
	o, m := tobjs[k], x.m[k]
	if len(o.val) > maxObject {
		for ch := range m.wants {
			x.deliver(k, ch, true)
		}
		m.wants = map[int]int{}
		return 0, errTooLarge(o)
	}
	sum := 0
	for _, w := range m.wants {
		sum += w
	}
	if inc+sum > 0 {
		m.exists = true
	}
	m.rc += inc + sum
	m.f += sum
	for ch := range m.wants {
		x.deliver(k, ch, false)
	}
	m.wants = map[int]int{}
	return m.rc - m.f, nil
}

type tooLarge string

func (t tooLarge) Error() string { return string(t) }
func errTooLarge(o tobj) error {
	return tooLarge("object is too large: " + o.key.Hex()[:7])
}

func cacheOps(keys []int, chans int, thin bool) (ops []cop) {
	for _, k := range keys {
		o := tobjs[k]
		add := func(name string, pre func(m *mobj) bool, run func(x *cacheRun, m *mobj) string) {
			ops = append(ops, cop{name + "(" + o.name + ")", k, func(x *cacheRun) bool { return pre(x.m[k]) },
				func(x *cacheRun) string { return run(x, x.m[k]) }})
		}
		always := func(*mobj) bool { return true }
		// a count is given back only by who has it
		owns := func(m *mobj) bool { return m.f == 0 || m.rc-m.f > 0 }
		large := len(o.val) > maxObject
		for _, d := range []int{0, 1, -1} {
			pre := always
			if d < 0 {
				pre = owns
			}
			if !large || d == 0 {
				add(fmt.Sprintf("Get%+d", d), pre, func(x *cacheRun, m *mobj) string {
					val, rc, err := x.c.Get(o.key, d)
					if !m.exists {
						return rcErr("Get", rc, err, 0, data.ErrNotFound)
					}
					m.rc = clamp(m.rc + d)
					if err == nil && !bytes.Equal(val, o.val) {
						return fmt.Sprintf("Get returns value %q, want %q", val, o.val)
					}
					return rcErr("Get", rc, err, m.rc-m.f, nil)
				})
			}
			if large || thin && d == 0 {
				continue
			}
			add(fmt.Sprintf("Inc%+d", d), pre, func(x *cacheRun, m *mobj) string {
				rc, err := x.c.Inc(o.key, d)
				if !m.exists {
					return rcErr("Inc", rc, err, 0, data.ErrNotFound)
				}
				m.rc = clamp(m.rc + d)
				return rcErr("Inc", rc, err, m.rc-m.f, nil)
			})
		}
		for _, d := range []int{1, 2} {
			if d == 2 && thin {
				continue
			}
			add(fmt.Sprintf("Set%+d", d), always, func(x *cacheRun, m *mobj) string {
				rc, err := x.c.Set(o.key, append([]byte(nil), o.val...), d)
				if len(m.wants) > 0 {
					wrc, werr := x.setWanted(k, d)
					return rcErr("Set", rc, err, wrc, werr)
				}
				if large {
					return rcErr("Set", rc, err, 0, errTooLarge(o))
				}
				m.exists = true
				m.rc += d
				return rcErr("Set", rc, err, m.rc-m.f, nil)
			})
		}
		for ch := 0; ch < chans; ch++ {
			for _, d := range []int{0, 1} {
				if d == 0 && ch > 0 {
					continue
				}
				add(fmt.Sprintf("Want%+d[%d]", d, ch), always, func(x *cacheRun, m *mobj) string {
					err := x.c.Want(o.key, x.chs[ch], d)
					if !m.exists {
						m.wants[ch] += d
					} else {
						m.rc += d
						m.f += d
						x.deliver(k, ch, false)
					}
					return rcErr("Want", 0, err, 0, nil)
				})
			}
			add(fmt.Sprintf("Unwant[%d]", ch), func(m *mobj) bool { _, ok := m.wants[ch]; return ok || !thin }, func(x *cacheRun, m *mobj) string {
				x.c.Unwant(o.key, x.chs[ch])
				delete(m.wants, ch)
				return ""
			})
		}
		if chans > 0 {
			add("SetWanted", always, func(x *cacheRun, m *mobj) string {
				rc, err := x.c.SetWanted(o.key, append([]byte(nil), o.val...))
				if len(m.wants) == 0 {
					return rcErr("SetWanted", rc, err, rc, nil)
				}
				wrc, werr := x.setWanted(k, 0)
				return rcErr("SetWanted", rc, err, wrc, werr)
			})
			for _, d := range []int{1, -1, 2, -2} {
				n := max(d, -d)
				if n == 2 && thin {
					continue
				}
				add(fmt.Sprintf("Finc%+d", d), func(m *mobj) bool { return m.f >= n || m.f == 0 && n == 1 }, func(x *cacheRun, m *mobj) string {
					err := x.c.Finc(o.key, d)
					if m.f >= n {
						m.f -= n
						if d < 0 {
							m.rc -= n
						}
					}
					return rcErr("Finc", 0, err, 0, nil)
				})
			}
		}
	}
	return
}

// received checks deliveries of the last operation
func (x *cacheRun) received() string {
	var have []got
	for i, ch := range x.chs {
		for len(ch) > 0 {
			o := <-ch
			have = append(have, got{i, o.RC, string(o.Val), o.Err != nil})
		}
	}
	less := func(s []got) func(i, j int) bool {
		return func(i, j int) bool { return fmt.Sprint(s[i]) < fmt.Sprint(s[j]) }
	}
	sort.Slice(have, less(have))
	sort.Slice(x.want, less(x.want))
	h, w := fmt.Sprint(have), fmt.Sprint(x.want)
	x.want = nil
	if h != w {
		return fmt.Sprintf("delivered %s, want %s (asker count value error)", h, w)
	}
	return ""
}

func (x *cacheRun) enabled() bool { return x.cf.amount > 0 && x.cf.volume > 0 }

// limits checks C02
func (x *cacheRun) limits() string {
	st := x.c.Stat()
	a, v := int(st.CacheObjects.Amount), int(st.CacheObjects.Volume)
	if a < 0 || v < 0 || a > x.cf.amount || v > x.cf.volume {
		return fmt.Sprintf("the cache holds %d objects of %d bytes, the limits are %d and %d", a, v, x.cf.amount, x.cf.volume)
	}
	minA, minV, maxA, maxV := 0, 0, 0, 0
	for k, m := range x.m {
		o := tobjs[k]
		in := x.c.IsCached(o.key)
		held := m.f > 0 || len(m.wants) > 0
		n := len(o.val)
		cacheable := x.enabled() && n <= x.cf.item && n <= x.cf.volume && m.rc > 0
		switch {
		case held:
			if !in {
				return fmt.Sprintf("%s is wanted or held by a filler, but IsCached is false", o.name)
			}
			if cacheable {
				maxA, maxV = maxA+1, maxV+n
			}
		case in && !cacheable:
			return fmt.Sprintf("%s (%d bytes, count %d) is kept in the cache", o.name, n, m.rc)
		case in:
			minA, minV, maxA, maxV = minA+1, minV+n, maxA+1, maxV+n
		}
	}
	if a < minA || a > maxA || v < minV || v > maxV {
		return fmt.Sprintf("statistics say %d objects of %d bytes, the cache has %d..%d of %d..%d bytes", a, v, minA, maxA, minV, maxV)
	}
	return ""
}

// closed closes the container and compares the store with the model
func (x *cacheRun) closed() string {
	if err := x.c.Close(); err != nil {
		return "Close returns " + err.Error()
	}
	for _, m := range x.m {
		m.rc -= m.f // held by fillers which never finished
		m.f = 0
	}
	n := 0
	var bad string
	err := x.cx.Iterate(func(key cipher.SHA256, rc uint32, val []byte) error {
		for k, o := range tobjs {
			if o.key == key {
				n++
				if m := x.m[k]; !m.exists || int(rc) != m.rc || !bytes.Equal(val, o.val) {
					bad = fmt.Sprintf("after Close the store has %s with count %d, want %v", o.name, rc, m)
				}
				return nil
			}
		}
		bad = "unknown object"
		return nil
	})
	if err != nil {
		return err.Error()
	}
	for k, m := range x.m {
		if m.exists {
			n--
			_ = k
		}
	}
	if bad == "" && n != 0 {
		bad = fmt.Sprintf("after Close the store has %d objects more than stored", n)
	}
	return bad
}

// policy checks which objects are dropped by the LFU cache; there are no
// askers and fillers
func (x *cacheRun) policy(k int) string {
	if x.hits == nil {
		x.hits = make([]int, len(tobjs))
	}
	was := append([]int(nil), x.hits...)
	for i, o := range tobjs {
		switch in := x.c.IsCached(o.key); {
		case !in:
			x.hits[i] = 0
		case i == k:
			x.hits[i]++
		}
	}
	for e := range tobjs {
		if e == k || was[e] == 0 || x.hits[e] > 0 {
			continue // not dropped
		}
		for l := range tobjs {
			if l != k && x.hits[l] > 0 && was[e] > was[l] {
				return fmt.Sprintf("%s, used %d times, is dropped to place %s, while %s, used %d times, is kept",
					tobjs[e].name, was[e], tobjs[k].name, tobjs[l].name, was[l])
			}
		}
	}
	return ""
}

func (x *cacheRun) state() string {
	var b strings.Builder
	for _, m := range x.m {
		b.WriteString(m.String())
	}
	return b.String()
}

func cacheConfs() (cs []cacheConf) {
	for _, p := range []skyobject.CachePolicy{skyobject.LRU, skyobject.LFU} {
		add := func(name string, a, v, item int, cl float64) {
			cs = append(cs, cacheConf{fmt.Sprintf("%s, %v", name, p), a, v, item, p, cl, nil})
		}
		if p == skyobject.LRU {
			add("no cache", 0, 1000, maxItem, 0.8)
			add("no volume", 10, 0, 0, 0.8)
			add("room for all", 10, 1000, maxItem, 0.8)
			add("2 items", 2, 1000, maxItem, 0.5)
			add("3 items", 3, 1000, maxItem, 0.9)
		}
		add("1 item", 1, 1000, maxItem, 0.8)
		add("2 items, 26 bytes", 2, 26, 13, 0.5)
		add("20 bytes", 10, 20, 10, 0.5)
		add("26 bytes", 10, 26, 13, 0.5)
		add("26 bytes, cleaned to 23", 10, 26, 13, 0.1)
		add("13 bytes, cleaned to 12", 10, 13, 13, 0.01)
	}
	return
}

func cacheExplore(r *core.R, name string, cf cacheConf, keys []int, chans, depth int, thin bool, each func(x *cacheRun) string, every func(x *cacheRun, k int) string, last func(x *cacheRun) string) {
	ops := cacheOps(keys, chans, thin)
	if cf.only != nil {
		all := ops
		ops = nil
		for _, o := range all {
			for _, p := range cf.only {
				if strings.HasPrefix(o.name, p) {
					ops = append(ops, o)
				}
			}
		}
	}
	var names []string
	for _, o := range ops {
		names = append(names, o.name)
	}
	r.BFS(name+": "+cf.name, names, depth, false, func(h []int) core.Step {
		x, err := newCacheRun(cf, chans)
		if err != nil {
			return core.Step{Bad: err.Error()}
		}
		defer x.end()
		for i, op := range h {
			if !ops[op].pre(x) {
				return core.Step{}
			}
			bad := ops[op].run(x)
			if b := x.received(); bad == "" {
				bad = b
			}
			if bad == "" && each != nil && i == len(h)-1 {
				bad = each(x)
			}
			if bad == "" && every != nil {
				bad = every(x, ops[op].key)
			}
			if bad != "" {
				return core.Step{Bad: bad}
			}
		}
		s := x.state()
		if last != nil {
			if bad := last(x); bad != "" {
				return core.Step{Bad: bad}
			}
		}
		r.Validated.Add(1)
		r.Outcome(cf.name + s)
		return core.Step{Canon: s}
	})
}

func c01(r *core.R) {
	r.Rule("a case is one history of cache operations on a fresh container over a memory store; every result and delivery, and the store after Close, is compared with a plain reference-counted store")
	for _, cf := range cacheConfs() {
		cacheExplore(r, "two objects, fillers", cf, []int{0, 1}, 1, r.Pick(4, 5), true, nil, nil, (*cacheRun).closed)
		cacheExplore(r, "all objects", cf, []int{0, 1, 2, 3, 4, 5}, 0, r.Pick(4, 5), true, nil, nil, (*cacheRun).closed)
		cacheExplore(r, "one object, two fillers", cf, []int{1}, 2, r.Pick(5, 6), true, nil, nil, (*cacheRun).closed)
	}
}

func c02(r *core.R) {
	r.Rule("a case is one history of cache operations on a fresh container; after each operation the statistics and the presence of every object are compared with the limits")
	few := []string{"Get+0", "Set+1", "Inc-1"}
	cacheExplore(r, "which are dropped", cacheConf{"2 items, LFU", 2, 1000, maxItem, skyobject.LFU, 0.5, few}, []int{0, 1, 5}, 0, r.Pick(6, 7), true, nil, (*cacheRun).policy, nil)
	cacheExplore(r, "which are dropped", cacheConf{"26 bytes, LFU", 10, 26, 13, skyobject.LFU, 0.5, few}, []int{0, 1, 5}, 0, r.Pick(6, 7), true, nil, (*cacheRun).policy, nil)
	cachedRegistries(r)
	for _, cf := range cacheConfs() {
		cacheExplore(r, "all objects", cf, []int{0, 1, 2, 3, 4, 5}, 0, r.Pick(4, 5), true, (*cacheRun).limits, nil, nil)
		cacheExplore(r, "three objects, fillers", cf, []int{0, 1, 5}, 1, r.Pick(3, 4), true, (*cacheRun).limits, nil, nil)
		cacheExplore(r, "one object, two fillers", cf, []int{1}, 2, r.Pick(5, 6), true, (*cacheRun).limits, nil, nil)
	}
}

type (
	tRegA struct{ A uint8 }
	tRegB struct{ B uint16 }
	tRegC struct{ C uint32 }
	tRegD struct{ D string }
)

// registry number i
func registryN(i int) *registry.Registry {
	return registry.NewRegistry(func(t *registry.Reg) {
		t.Register("test.Type", []interface{}{tRegA{}, tRegB{}, tRegC{}, tRegD{}}[i])
	})
}

// cachedRegistries explores histories of the cache of registries
func cachedRegistries(r *core.R) {
	const n = 4
	var regs []*registry.Registry
	var names []string
	for i := 0; i < n; i++ {
		regs = append(regs, registryN(i))
		names = append(names, fmt.Sprintf("AddRegistryToCache(%d)", i), fmt.Sprintf("Registry(%d)", i))
	}
	for _, p := range []skyobject.CachePolicy{skyobject.LRU, skyobject.LFU} {
		for size := 0; size <= 3; size++ {
			for _, stored := range []bool{false, true} {
				name := fmt.Sprintf("registries, %v, %d cached, stored=%v", p, size, stored)
				r.BFS(name, names, r.Pick(5, 6), false, func(h []int) core.Step {
					conf := skyobject.NewConfig()
					conf.DataDir, conf.CachePolicy, conf.CacheRegistries, conf.CacheMaxAmount = "", p, size, 0
					cx := fake.NewCXDS()
					conf.DB = data.NewDB(cx, fake.NewIdx())
					c, err := skyobject.NewContainer(conf)
					if err != nil {
						return core.Step{Bad: err.Error()}
					}
					defer func() { c.Close(); c.Index.Close() }()
					if stored {
						for _, g := range regs {
							c.Set(cipher.SHA256(g.Reference()), g.Encode(), 1)
						}
					}
					// possible contents of the cache: number of uses of each
					poss := map[[n]int]bool{{}: true}
					for _, op := range h {
						i, get := op/2, op%2 == 1
						g := regs[i]
						next := map[[n]int]bool{}
						var have *registry.Registry
						var gerr error
						gets := cx.Gets
						if get {
							if have, gerr = c.Registry(g.Reference()); gerr == nil && have.Reference() != g.Reference() {
								return core.Step{Bad: "Registry returns another registry"}
							}
							if gerr != nil && gerr != data.ErrNotFound {
								return core.Step{Bad: gerr.Error()}
							}
						} else {
							c.AddRegistryToCache(g)
						}
						hit := gerr == nil && cx.Gets == gets
						for s := range poss {
							if get && hit != (s[i] > 0) {
								continue // not this content
							}
							if get && !stored && s[i] == 0 || size == 0 {
								next[s] = true
								continue
							}
							full, least := 0, 0
							for _, u := range s {
								if u > 0 {
									full++
									if least == 0 || u < least {
										least = u
									}
								}
							}
							if s[i] > 0 || full < size {
								s[i]++
								next[s] = true
								continue
							}
							for j, u := range s {
								if u > 0 && (u == least || p == skyobject.LRU) {
									t := s
									t[j], t[i] = 0, 1
									next[t] = true
								}
							}
						}
						if len(next) == 0 {
							return core.Step{Bad: fmt.Sprintf("the last Registry finds cached=%v, error %v, which a cache of %d registries can't", hit, gerr, size)}
						}
						poss = next
					}
					r.Validated.Add(1)
					return core.Step{Canon: fmt.Sprint(poss)}
				})
			}
		}
	}
}
