package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/skycoin/cxo/node"
	"github.com/skycoin/cxo/node/msg"
	"github.com/skycoin/cxo/skyobject/registry"

	"vmc/core"
	"vmc/vsched"
)

// Replication: along every history of connecting, subscribing, publishing
// and leaving, all nodes joined by subscriptions end with the newest root,
// and it is complete

// lastOf a feed in a container: seq+1, or 0
func lastOf(t *tnode, f int, nonce uint64) (n uint64, bad string) {
	r, err := t.c.LastRoot(owners[f].pk, nonce)
	if err != nil {
		return 0, ""
	}
	return r.Seq + 1, complete(t, r)
}

// complete root: all that it refers to is in the DB
func complete(t *tnode, r *registry.Root) string {
	k := -1
	for i := range contents {
		if fmt.Sprint(contents[i]) == fmt.Sprint(r.Refs) {
			k = i
		}
	}
	if k < 0 {
		return "a root that nobody published"
	}
	hs := append([]hash{r.Hash, hash(r.Reg)}, contObjs[k]...)
	for _, h := range hs {
		val, rc, err := t.cx.Get(h, 0)
		if err != nil || rc == 0 {
			return fmt.Sprintf("root %d misses %s: %v", r.Seq, objName[h], err)
		}
		if v, ok := objects[h]; ok && string(v) != string(val) {
			return "a wrong value of " + objName[h]
		}
		if _, _, err = t.c.Get(h, 0); err != nil {
			return fmt.Sprintf("root %d: can't get %s: %v", r.Seq, objName[h], err)
		}
	}
	return ""
}

// cmodel of three nodes
type cmodel struct {
	share [3]bool
	link  [3]int // 0 none, 1 connected, 2 subscribed; of 0-1, 1-2, 0-2
	have  [3]uint64
	pubs  int
}

var linkEnds = [3][2]int{{0, 1}, {1, 2}, {0, 2}}

type cop struct {
	name string
	kind int
	l, i int
}

const (
	cConnect = iota
	cDisconnect
	cSub
	cUnsub
	cPublish
	cDontShare
	cShare
)

func cops() (ops []cop) {
	for l, e := range linkEnds {
		n := fmt.Sprintf(" %d-%d", e[0], e[1])
		ops = append(ops, cop{"connect" + n, cConnect, l, 0}, cop{"disconnect" + n, cDisconnect, l, 0})
		for _, i := range e {
			if l == 2 && i == 2 {
				continue
			}
			ops = append(ops, cop{fmt.Sprintf("Subscribe%s by %d", n, i), cSub, l, i})
		}
		ops = append(ops, cop{fmt.Sprintf("Unsubscribe%s by %d", n, e[1]), cUnsub, l, e[1]})
	}
	return append(ops, cop{"publish", cPublish, 0, 0}, cop{"DontShare 1", cDontShare, 0, 1}, cop{"Share 1", cShare, 0, 1})
}

func (m *cmodel) step(o cop) bool {
	switch o.kind {
	case cConnect:
		if m.link[o.l] != 0 {
			return false
		}
		m.link[o.l] = 1
	case cDisconnect:
		if m.link[o.l] == 0 {
			return false
		}
		m.link[o.l] = 0
	case cSub:
		if m.link[o.l] != 1 {
			return false
		}
		m.share[o.i] = true
		if e := linkEnds[o.l]; m.share[e[0]] && m.share[e[1]] {
			m.link[o.l] = 2
		}
	case cUnsub:
		if m.link[o.l] != 2 {
			return false
		}
		m.link[o.l] = 1
	case cPublish:
		if m.pubs++; m.pubs > 4 {
			return false
		}
		m.have[0]++
	case cDontShare:
		if !m.share[o.i] {
			return false
		}
		m.share[o.i] = false
		for l, e := range linkEnds {
			if m.link[l] == 2 && (e[0] == o.i || e[1] == o.i) {
				m.link[l] = 1
			}
		}
	case cShare:
		if m.share[o.i] {
			return false
		}
		m.share[o.i] = true
	}
	for range linkEnds { // everybody gets the newest root
		for l, e := range linkEnds {
			if m.link[l] == 2 {
				n := max(m.have[e[0]], m.have[e[1]])
				m.have[e[0]], m.have[e[1]] = n, n
			}
		}
	}
	return true
}

// nodes linked somehow
func convRun(ops []cop, h []int) string {
	return once(func() string {
		var ts [3]*tnode
		for i := range ts {
			ts[i] = newNode(i, nil)
			if err := ts[i].Share(owners[0].pk); err != nil {
				return err.Error()
			}
		}
		m := cmodel{share: [3]bool{true, true, true}}
		for _, k := range h {
			o := ops[k]
			m.step(o)
			e := linkEnds[o.l]
			conn := func(i int) *node.Conn { return connOf(ts[i], ids[e[0]+e[1]-i].pk) }
			var err error
			switch o.kind {
			case cConnect:
				_, err = ts[e[0]].TCP().Connect(nodeAddr(e[1]))
			case cDisconnect:
				conn(e[0]).Close()
			case cSub:
				err = conn(o.i).Subscribe(owners[0].pk)
				if (err == nil) != (m.link[o.l] == 2) {
					return fmt.Sprintf("Subscribe: %v after %q", err, o.name)
				}
				err = nil
			case cUnsub:
				conn(o.i).Unsubscribe(owners[0].pk)
			case cPublish:
				ts[0].Publish(saveRoot(ts[0], 0, m.pubs%3))
			case cDontShare:
				err = ts[o.i].DontShare(owners[0].pk)
			case cShare:
				err = ts[o.i].Share(owners[0].pk)
			}
			if err != nil {
				return fmt.Sprintf("%v after %q", err, o.name)
			}
			vsched.Sleep(300 * time.Second) // nodes can wait for each other
			vsched.Idle()
			for i := range ts {
				n, bad := lastOf(ts[i], 0, 7)
				if bad == "" && n != m.have[i] {
					bad = fmt.Sprintf("has %d roots instead of %d", n, m.have[i])
				}
				if bad != "" {
					return fmt.Sprintf("node %d %s after %q", i, bad, o.name)
				}
			}
		}
		return finish(ts[:]...)
	})
}

// ways a peer serves objects
const (
	sGood = iota
	sSlow
	sErr
	sSilent
	sWrong
	sPart
	sLeaves
)

var sNames = []string{"serves", "is slow", "refuses", "is silent", "gives wrong objects", "gives only a registry", "leaves when asked"}

// filling from two peers that serve in different ways: the newest root is
// filled if somebody who has it stays and serves
func fromPeers(r *core.R, w0, w1, depth int) {
	ways := [2]int{w0, w1}
	type op struct {
		name string
		kind int // 0 announce, 1 leave, 2 time
		i, s int
	}
	var ops []op
	for i := range ways {
		for s := 0; s < 3; s++ {
			ops = append(ops, op{fmt.Sprintf("peer %d announces root %d", i, s), 0, i, s})
		}
		ops = append(ops, op{fmt.Sprintf("peer %d leaves", i), 1, i, 0})
	}
	ops = append(ops, op{"5 s pass", 2, 0, 5}, op{"200 s pass", 2, 0, 200})
	name := fmt.Sprintf("filling from a peer that %s and another that %s", sNames[w0], sNames[w1])
	history(r, name, len(ops), depth, func(o int) string { return ops[o].name }, func(h []int) string {
		return once(func() string {
			var filled, broken []uint64
			t := newNode(0, func(c *node.Config) {
				c.OnRootFilled = func(n *node.Node, r *registry.Root) { filled = append(filled, r.Seq) }
				c.OnFillingBreaks = func(n *node.Node, r *registry.Root, err error) { broken = append(broken, r.Seq) }
			})
			if err := t.Share(owners[0].pk); err != nil {
				return err.Error()
			}
			var ps [2]*peer
			for i := range ps {
				ps[i] = join(t, ids[2+i].pk, func(p *peer, f frame) {
					m, ok := f.m.(*msg.RqObject)
					if !ok {
						return
					}
					w := ways[i]
					if w == sPart {
						if w = sErr; objName[m.Key] == "registry" {
							w = sGood
						}
					}
					switch w {
					case sGood:
						serve(p, f)
					case sSlow:
						vsched.Go(func() { vsched.Sleep(8 * time.Second); serve(p, f) })
					case sErr:
						p.send(f.seq, &msg.Err{Err: "not found"})
					case sWrong:
						p.send(f.seq, &msg.Object{Value: []byte("wrong")})
					case sLeaves:
						p.close()
					}
				})
				vsched.Idle()
				ps[i].send(0, &msg.Sub{Feed: owners[0].pk})
			}
			vsched.Idle()
			newest := -1
			var left [2]bool
			var told [2][3]bool
			for _, k := range h {
				o := ops[k]
				switch o.kind {
				case 0:
					if ps[o.i].closed {
						return skip
					}
					ps[o.i].send(0, rootMsg(remoteRoot(0, 7, uint64(o.s), o.s)))
					told[o.i][o.s] = true
					newest = max(newest, o.s)
				case 1:
					if left[o.i] {
						return skip
					}
					left[o.i] = true
					ps[o.i].close()
				case 2:
					vsched.Sleep(time.Duration(o.s) * time.Second)
				}
				vsched.Idle()
			}
			vsched.Sleep(400 * time.Second)
			vsched.Idle()
			last := -1
			if r, err := t.c.LastRoot(owners[0].pk, 7); err == nil {
				last = int(r.Seq)
				if bad := complete(t, r); bad != "" {
					return bad
				}
			}
			if last > newest {
				return "a root nobody announced"
			}
			for i := range ps {
				if newest >= 0 && told[i][newest] && !left[i] && ways[i] <= sSlow && last != newest {
					return fmt.Sprintf("the last root is %d, though peer %d has %d", last, i, newest)
				}
				if bad := ways[i] == sWrong || ways[i] == sLeaves; ps[i].closed && !left[i] && !bad {
					return fmt.Sprintf("peer %d is disconnected", i)
				}
			}
			for i := range filled {
				if i > 0 && filled[i] <= filled[i-1] {
					return fmt.Sprintf("roots are filled in order %v", filled)
				}
			}
			if len(filled) > 0 && int(filled[len(filled)-1]) != last {
				return fmt.Sprintf("roots %v are filled, and the last one is %d", filled, last)
			}
			if bad := noOrphans(t); bad != "" {
				return bad
			}
			return finish(t)
		})
	})
}

// noOrphans of fillings that failed
func noOrphans(t *tnode) string {
	want := map[hash]bool{}
	pk := owners[0].pk
	last, err := t.c.LastRootSeq(pk, 7)
	for s := uint64(0); err == nil && s <= last; s++ {
		r, err := t.c.Root(pk, 7, s)
		if err != nil {
			continue
		}
		want[r.Hash], want[hash(r.Reg)] = true, true
		for i := range contents {
			if fmt.Sprint(contents[i]) == fmt.Sprint(r.Refs) {
				for _, h := range contObjs[i] {
					want[h] = true
				}
			}
		}
	}
	bad := ""
	t.cx.Iterate(func(h hash, rc uint32, val []byte) error {
		if rc > 0 && !want[h] && bad == "" {
			n := objName[h]
			if n == "" {
				r, _ := registry.DecodeRoot(val)
				n = r.String()
			}
			bad = fmt.Sprintf("%s is kept (%d times), but nothing refers to it", n, rc)
		}
		return nil
	})
	return bad
}

// simultaneous publishing, subscribing and leaving
func convMeets() (ms []meet) {
	feed := owners[0].pk
	look := func(ts []*tnode, want uint64) string {
		vsched.Sleep(200 * time.Second)
		vsched.Idle()
		for i, t := range ts {
			n, bad := lastOf(t, 0, 7)
			if bad == "" && n != want {
				bad = fmt.Sprintf("has %d roots instead of %d", n, want)
			}
			if bad != "" {
				return fmt.Sprintf("node %d %s", i, bad)
			}
		}
		return finish(ts...)
	}
	start := func(n int, links ...int) (ts []*tnode) {
		free(func() {
			for i := 0; i < n; i++ {
				ts = append(ts, newNode(i, nil))
				ts[i].Share(feed)
			}
			for _, l := range links {
				e := linkEnds[l%3]
				c, err := ts[e[0]].TCP().Connect(nodeAddr(e[1]))
				if err != nil {
					panic("harness: " + err.Error())
				}
				if vsched.Idle(); l < 3 {
					if err = c.Subscribe(feed); err != nil {
						panic("harness: " + err.Error())
					}
				}
				vsched.Idle()
			}
		})
		return
	}
	publish := func(t *tnode, k int) { t.Publish(saveRoot(t, 0, k)) }
	add := func(name string, bound int, run func() string) {
		ms = append(ms, meet{name: name, bound: bound, run: run})
	}
	for _, side := range []int{0, 1} {
		add(fmt.Sprintf("publish | Subscribe by %d", side), 1, func() string {
			ts := start(2, 3)
			waitAll(func() { publish(ts[0], 1) }, func() { connOf(ts[side], ids[1-side].pk).Subscribe(feed) })
			return look(ts, 1)
		})
	}
	add("publish | Subscribe by both", 1, func() string {
		ts := start(2, 3)
		waitAll(func() { publish(ts[0], 0) }, func() { connOf(ts[0], ids[1].pk).Subscribe(feed) }, func() { connOf(ts[1], ids[0].pk).Subscribe(feed) })
		return look(ts, 1)
	})
	add("publish twice, subscribed", 1, func() string {
		ts := start(2, 0)
		waitAll(func() { publish(ts[0], 1); publish(ts[0], 2) })
		return look(ts, 2)
	})
	add("publish twice, a chain", 1, func() string {
		ts := start(3, 0, 1)
		waitAll(func() { publish(ts[0], 1); publish(ts[0], 2) })
		return look(ts, 2)
	})
	add("publish, a triangle", 1, func() string {
		ts := start(3, 0, 1, 2)
		waitAll(func() { publish(ts[0], 1) })
		return look(ts, 1)
	})
	add("publish | Subscribe of the last node of a chain", 1, func() string {
		ts := start(3, 0, 4)
		waitAll(func() { publish(ts[0], 1) }, func() { connOf(ts[2], ids[1].pk).Subscribe(feed) })
		return look(ts, 1)
	})
	add("publish | a shortcut closes", 1, func() string {
		ts := start(3, 0, 1, 2)
		waitAll(func() { publish(ts[0], 1) }, func() { connOf(ts[2], ids[0].pk).Close() })
		return look(ts, 1)
	})
	add("publish | connect and Subscribe", 1, func() string {
		ts := start(2)
		waitAll(func() { publish(ts[0], 1) }, func() {
			if c, err := ts[1].TCP().Connect(nodeAddr(0)); err == nil {
				c.Subscribe(feed)
			}
		})
		return look(ts, 1)
	})
	// objects are requested while one of peers leaves
	for _, w := range []int{sGood, sErr, sWrong, sLeaves} {
		add(fmt.Sprintf("two peers announce a root, one of them %s and leaves", sNames[w]), 1, func() string {
			var t *tnode
			var ps [2]*peer
			free(func() {
				t = newNode(0, nil)
				t.Share(feed)
				for i := range ps {
					ps[i] = join(t, ids[2+i].pk, func(p *peer, f frame) {
						if _, ok := f.m.(*msg.RqObject); !ok {
							return
						}
						switch {
						case i == 1 || w == sGood:
							serve(p, f)
						case w == sErr:
							p.send(f.seq, &msg.Err{Err: "not found"})
						case w == sWrong:
							p.send(f.seq, &msg.Object{Value: []byte("wrong")})
						case w == sLeaves:
							p.close()
						}
					})
					vsched.Idle()
					ps[i].send(0, &msg.Sub{Feed: feed})
					vsched.Idle()
				}
			})
			r := rootMsg(remoteRoot(0, 7, 0, 1))
			waitAll(func() { ps[0].send(0, r); ps[0].close() }, func() { ps[1].send(0, r) })
			return look([]*tnode{t}, 1)
		})
	}
	return
}

func n04(r *core.R) {
	r.Rule("a case is a history of connections, subscriptions, publishing and leaving of three nodes; or of announcements, leaving and time for a node with two peers that serve objects in one of seven ways each; or a schedule of simultaneous publishing, subscribing and leaving")
	ops := cops()
	if only := envOnly(); only == "" || strings.Contains("three nodes", only) {
		replays(r, "three nodes", len(ops), r.Pick(1, 2), r.Pick(4, 5), func(h []int) string {
			var ss []string
			for _, i := range h {
				ss = append(ss, ops[i].name)
			}
			return strings.Join(ss, "; ")
		}, func(h []int) (string, bool) {
			m := cmodel{share: [3]bool{true, true, true}}
			for _, i := range h {
				if !m.step(ops[i]) {
					return "", false
				}
			}
			return fmt.Sprint(m.share[1], m.link, m.have[0] > 0, m.have[1] == m.have[0], m.have[2] == m.have[0], m.pubs > 2), true
		}, func(h []int) string { return convRun(ops, h) })
	}
	for w0 := sGood; w0 <= sLeaves; w0++ {
		for w1 := sGood; w1 <= sLeaves; w1++ {
			if w1 < w0 {
				continue
			}
			d := r.Pick(3, 4)
			if w0 == sGood {
				d++
			}
			fromPeers(r, w0, w1, d)
		}
	}
	explore(r, convMeets(), true, r.Pick(7, 60), r.Pick(0, 1))
}
