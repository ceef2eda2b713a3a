package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/skycoin/skycoin/src/cipher"

	"github.com/skycoin/cxo/data"
	"github.com/skycoin/cxo/skyobject"

	"vmc/core"
	"vmc/fake"
	"vmc/vsched"
)

// an operation of a program over object a (and b, which only moves a out of a
// small cache)
type askOp struct {
	kind byte // W want, U unwant, S set, s set wanted, G get, F finc, E get of b
	ch   int
	n    int
}

func (o askOp) String() string {
	switch o.kind {
	case 'W':
		return fmt.Sprintf("Want%+d[%d]", o.n, o.ch)
	case 'U':
		return fmt.Sprintf("Unwant[%d]", o.ch)
	case 'S':
		return fmt.Sprintf("Set%+d", o.n)
	case 's':
		return "SetWanted"
	case 'G':
		return fmt.Sprintf("Get%+d", o.n)
	case 'F':
		return fmt.Sprintf("Finc%+d", o.n)
	}
	return "evict"
}

// model of object a
type wmodel struct {
	exists bool
	rc, f  int
	wants  [3]int // 1 + inc of the asker, 0 if not asking
	dlv    [3]string
}

func (m *wmodel) deliver(ch int) { m.dlv[ch] += fmt.Sprintf("(%d)", m.rc-m.f) }

func (m *wmodel) set(inc int) {
	for _, w := range m.wants {
		if w > 0 {
			m.rc += w - 1
			m.f += w - 1
		}
	}
	m.rc += inc
	m.exists = m.rc > 0 || m.exists
	for ch, w := range m.wants {
		if w > 0 {
			m.deliver(ch)
		}
	}
	m.wants = [3]int{}
}

// step returns what the operation returns
func (m *wmodel) step(o askOp) string {
	switch o.kind {
	case 'W':
		if m.exists {
			m.rc += o.n
			m.f += o.n
			m.deliver(o.ch)
		} else if m.wants[o.ch] == 0 {
			m.wants[o.ch] = 1 + o.n
		} else {
			m.wants[o.ch] += o.n
		}
	case 'U':
		m.wants[o.ch] = 0
	case 'S':
		m.set(o.n)
		return fmt.Sprint(m.rc - m.f)
	case 's':
		if m.wants != [3]int{} {
			m.set(0)
			return fmt.Sprint(m.rc - m.f)
		}
		return "?"
	case 'G':
		if !m.exists {
			return data.ErrNotFound.Error()
		}
		m.rc += o.n
		return fmt.Sprint(m.rc - m.f)
	case 'F':
		n := max(o.n, -o.n)
		if m.f < n {
			return "not held" // not possible in programs, pruned
		}
		m.f -= n
		if o.n < 0 {
			m.rc -= n
		}
	}
	return ""
}

type wev struct {
	op        askOp
	got       string
	call, ret int
}

// explains looks for an order of the calls that gives what was observed
func explains(evs []*wev, m wmodel, obs string) bool {
	if len(evs) == 0 {
		return m.final() == obs
	}
	for i, e := range evs {
		first := true
		for j, o := range evs {
			if j != i && o.ret < e.call {
				first = false
			}
		}
		if !first {
			continue
		}
		n := m
		w := n.step(e.op)
		if w == "not held" || w != "?" && w != e.got {
			continue
		}
		rest := append(append([]*wev(nil), evs[:i]...), evs[i+1:]...)
		if explains(rest, n, obs) {
			return true
		}
	}
	return false
}

func (m wmodel) final() string {
	return fmt.Sprintf("deliveries %v, stored=%v count %d after Close", m.dlv, m.exists, m.rc-m.f)
}

type wobj struct {
	key cipher.SHA256
	val []byte
}

func newObj(s string) wobj { return wobj{cipher.SumSHA256([]byte(s)), []byte(s)} }

var objA, objB = newObj("the object"), newObj("another one")

func newAskContainer(cache int) (*skyobject.Container, *fake.CXDS, error) {
	conf := skyobject.NewConfig()
	conf.DataDir = ""
	conf.CacheMaxAmount = cache
	cx := fake.NewCXDS()
	conf.DB = data.NewDB(cx, fake.NewIdx())
	c, err := skyobject.NewContainer(conf)
	return c, cx, err
}

func runAsk(c *skyobject.Container, chs []chan skyobject.Object, o askOp) string {
	ret := func(rc int, err error) string {
		if err != nil {
			return err.Error()
		}
		return fmt.Sprint(rc)
	}
	e := func(err error) string {
		if err != nil {
			return err.Error()
		}
		return ""
	}
	switch o.kind {
	case 'W':
		return e(c.Want(objA.key, chs[o.ch], o.n))
	case 'U':
		c.Unwant(objA.key, chs[o.ch])
	case 'S':
		return ret(c.Set(objA.key, objA.val, o.n))
	case 's':
		return ret(c.SetWanted(objA.key, objA.val))
	case 'G':
		v, rc, err := c.Get(objA.key, o.n)
		if err == nil && string(v) != string(objA.val) {
			return "wrong value"
		}
		return ret(rc, err)
	case 'F':
		return e(c.Finc(objA.key, o.n))
	case 'E':
		_, _, err := c.Get(objB.key, 0)
		return e(err)
	}
	return ""
}

func askers(r *core.R, cache int, init []askOp, thr [][]askOp, bound int, secs time.Duration) {
	name := fmt.Sprintf("cache of %d, %v then %v", cache, init, thr)
	r.Explore(core.Scenario{
		Name: name, Bound: bound, Secs: secs, Opts: vsched.Opts{Race: true, MaxSteps: 40000},
		Setup: func() (func(), func() (string, string, string)) {
			var evs []*wev
			var obs, bad string
			clock := 0
			body := func() {
				var c *skyobject.Container
				var cx *fake.CXDS
				var chs []chan skyobject.Object
				vsched.Free(func() {
					var err error
					if c, cx, err = newAskContainer(cache); err != nil {
						panic(err)
					}
					if _, err = c.Set(objB.key, objB.val, 1); err != nil {
						panic(err)
					}
					for range 3 {
						chs = append(chs, make(chan skyobject.Object, 4))
					}
					for _, o := range init {
						e := &wev{op: o, call: clock, ret: clock + 1}
						e.got = runAsk(c, chs, o)
						clock += 2
						evs = append(evs, e)
					}
				})
				left := len(thr)
				for _, ops := range thr {
					vsched.Go(func() {
						for _, o := range ops {
							e := &wev{op: o, call: clock}
							clock++
							e.got = runAsk(c, chs, o)
							e.ret = clock
							clock++
							evs = append(evs, e)
						}
						left--
					})
				}
				vsched.Block("join", func() bool { return left == 0 })
				vsched.SetFree(true)
				var m wmodel
				for i, ch := range chs {
					for vsched.Len(ch) > 0 {
						o := vsched.Recv(ch)
						if o.Err != nil || o.Key != objA.key || string(o.Val) != string(objA.val) {
							bad = fmt.Sprintf("delivered %v %q %v", o.Key.Hex()[:7], o.Val, o.Err)
						}
						m.dlv[i] += fmt.Sprintf("(%d)", o.RC)
					}
				}
				if err := c.Close(); err != nil {
					bad = "Close: " + err.Error()
				}
				c.Index.Close()
				n := 0
				cx.Iterate(func(k cipher.SHA256, rc uint32, v []byte) error {
					if k == objA.key {
						m.exists, m.rc = true, int(rc)
					} else if rc != 1 {
						bad = "count of another object has changed"
					}
					n++
					return nil
				})
				obs = m.final()
			}
			check := func() (string, string, string) {
				if bad != "" {
					return bad, bad, obs
				}
				var s []string
				for _, e := range evs {
					s = append(s, fmt.Sprintf("[%d,%d] %v -> %s", e.call, e.ret, e.op, e.got))
				}
				o := strings.Join(s, "; ") + "; " + obs
				if !explains(evs, wmodel{}, obs) {
					return "no order explains it", "no order of the calls explains: " + o, o
				}
				return "", "", obs
			}
			return body, check
		},
	})
}

func c03(r *core.R) {
	r.Rule("a case is one schedule of a small program of askers, storing and eviction over the cache of a container; results, deliveries (who, how many times, value, count) and the final count must be those of some sequential order of the calls, and no two accesses to a variable may be unordered")
	r.Assume("statements of package skyobject are the unit of interleaving; reordering inside a statement is covered by the data race detection")
	w := func(ch, n int) askOp { return askOp{'W', ch, n} }
	u := func(ch int) askOp { return askOp{'U', ch, 0} }
	set, setw, get, fin, rej, ev := askOp{'S', 0, 1}, askOp{'s', 0, 0}, askOp{'G', 0, 0}, askOp{'F', 0, 1}, askOp{'F', 0, -1}, askOp{'E', 0, 0}
	inits := [][]askOp{{}, {w(0, 1)}, {w(0, 1), w(1, 1)}, {set}, {set, ev}, {w(0, 1), setw}, {w(0, 0)}, {w(0, 1), setw, ev}}
	progs := [][][]askOp{
		{{w(0, 1)}, {set}},
		{{w(0, 1), u(0)}, {set}},
		{{u(0)}, {set}},
		{{u(0)}, {setw}, {w(1, 1)}},
		{{w(1, 1)}, {setw}, {w(2, 1)}},
		{{w(0, 1)}, {w(1, 0)}, {set}},
		{{w(1, 1), u(1)}, {w(2, 1)}, {setw, ev}},
		{{w(1, 1)}, {ev}, {get, set}},
		{{setw}, {set}, {w(1, 1)}},
		{{setw, ev}, {setw}, {w(0, 1), u(0)}},
	}
	bound := r.Pick(2, 4)
	n := len(inits) * len(progs) * 3
	secs := time.Until(r.Deadline) / time.Duration(n) * 2
	for _, cache := range []int{0, 1, 4} {
		for _, in := range inits {
			for _, p := range progs {
				askers(r, cache, in, p, bound, secs)
			}
			for _, f := range []askOp{fin, rej} {
				if len(in) > 1 && in[1] == setw {
					askers(r, cache, in, [][]askOp{{f}, {w(1, 1)}, {set, ev}}, bound, secs)
					askers(r, cache, in, [][]askOp{{f}, {get, ev}}, bound, secs)
				}
			}
		}
	}
}
