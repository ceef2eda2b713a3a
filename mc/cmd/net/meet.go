package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/skycoin/cxo/node"
	"github.com/skycoin/cxo/node/msg"

	"github.com/skycoin/net/factory"

	"vmc/core"
	"vmc/vsched"
)

// skip is not an execution: an event is not possible
const skip = "skip"

// limits on all and on pending connections, for histories of three peers
func limits(r *core.R) {
	type op struct {
		name string
		kind int
		i, j int
	}
	var ops []op
	for i := 0; i < 3; i++ {
		ops = append(ops, op{fmt.Sprintf("peer %d opens a connection", i), 0, i, 0},
			op{fmt.Sprintf("peer %d says Syn", i), 1, i, i},
			op{fmt.Sprintf("peer %d says Syn as peer %d", i, (i+1)%3), 1, i, (i + 1) % 3},
			op{fmt.Sprintf("peer %d closes", i), 2, i, 0})
	}
	ops = append(ops, op{"the node closes a connection", 3, 0, 0}, op{"time passes", 4, 0, 0})
	depth := r.Pick(4, 5)
	confs := [][2]int{{1, 1}, {2, 1}, {2, 2}, {3, 2}, {0, 1}, {2, 0}}
	n := 0
	for _, cf := range confs {
		mc, mp := cf[0], cf[1]
		core.Seqs(len(ops), depth, depth, func(h []int) bool {
			n++
			if n%max(r.Shards, 1) != r.Shard {
				return true
			}
			name := fmt.Sprintf("at most %d connections, %d of them pending:", mc, mp)
			for _, i := range h {
				name += " " + ops[i].name + ";"
			}
			run := func() (bad string) {
				return once(func() string {
					t := newNode(0, func(c *node.Config) {
						c.MaxConnections, c.MaxPendingConnections = mc, mp
						c.TCP.ResponseTimeout = hTimeout
					})
					var ps [3]*peer
					var st [3]int // 0 none, 1 pending, 2 established
					var as [3]int
					count := func(s int) (k int) {
						for i := range st {
							if st[i] == s {
								k++
							}
						}
						return
					}
					for _, oi := range h {
						o := ops[oi]
						switch o.kind {
						case 0:
							if st[o.i] != 0 {
								return skip
							}
							ps[o.i] = dial(t, ids[2+o.i].pk, nil)
							if (mc == 0 || count(1)+count(2) < mc) && (mp == 0 || count(1) < mp) {
								st[o.i] = 1
							}
						case 1:
							if st[o.i] == 0 {
								return skip
							}
							ps[o.i].send(0, &msg.Syn{Protocol: msg.Version, NodeID: ids[2+o.j].pk})
							if st[o.i] == 2 {
								st[o.i] = 0
								break
							}
							st[o.i], as[o.i] = 2, o.j
							for k := range st {
								if k != o.i && st[k] == 2 && as[k] == o.j {
									st[o.i] = 0 // have one with this identity
								}
							}
						case 2:
							if st[o.i] == 0 {
								return skip
							}
							ps[o.i].close()
							st[o.i] = 0
						case 3:
							cs := t.Connections()
							if len(cs) == 0 {
								return skip
							}
							for k := range st {
								if st[k] == 2 && ids[2+as[k]].pk == cs[0].PeerID() {
									st[k] = 0
								}
							}
							cs[0].Close()
						case 4:
							vsched.Sleep(2 * hTimeout)
							for k := range st {
								if st[k] == 1 {
									st[k] = 0
								}
							}
						}
						vsched.Idle()
						for k := range ps {
							if ps[k] == nil {
								continue
							}
							c := connOf(t, ids[2+as[k]].pk)
							switch {
							case st[k] == 0 && !ps[k].closed:
								return fmt.Sprintf("the connection of peer %d is open after %q", k, o.name)
							case st[k] != 0 && ps[k].closed:
								return fmt.Sprintf("the connection of peer %d is closed after %q", k, o.name)
							case st[k] == 2 && c == nil:
								return fmt.Sprintf("peer %d is not connected after %q", k, o.name)
							}
						}
						if len(t.Connections()) != count(2) {
							return fmt.Sprintf("%d connections instead of %d after %q", len(t.Connections()), count(2), o.name)
						}
					}
					if s := t.end(); s != "" {
						return s
					}
					vsched.Idle()
					for k := range ps {
						if ps[k] != nil && !ps[k].closed {
							return "a connection is open after closing the node"
						}
					}
					return leftovers()
				})
			}
			var bad string
			if p := r.Guard(func() string { return name }, func() { bad = run() }); p != "" {
				bad = "panic: " + p
			}
			if bad == skip {
				return true
			}
			r.States.Add(1)
			r.Validated.Add(1)
			r.Transitions.Add(int64(len(h)))
			if bad != "" {
				r.Violate("limits: "+key(bad), name+" "+bad, map[string]interface{}{"history": name})
			}
			return !r.Full() && !r.Expired()
		})
	}
	if r.Expired() {
		r.Cap("time")
	} else {
		r.Bound("every history of %d events of three peers, for %d pairs of limits", depth, len(confs))
	}
}

// meet is a program of simultaneous connections
type meet struct {
	name  string
	bound int
	run   func() string
	obs   func() string
}

// sides observed at the end: pairwise agreement of two nodes
func agree(a, b *tnode) string {
	ca, cb := connOf(a, ids[b.i].pk), connOf(b, ids[a.i].pk)
	if (ca == nil) != (cb == nil) {
		return fmt.Sprintf("node %d has a connection with node %d: %v, and the other way round: %v", a.i, b.i, ca != nil, cb != nil)
	}
	return ""
}

func distinct(t *tnode, limit int) string {
	seenID, seenAddr := map[string]bool{}, map[string]bool{}
	for _, c := range t.Connections() {
		i, a := idName(c.PeerID()), c.Address()
		if seenID[i] || seenAddr[a] {
			return fmt.Sprintf("two connections with %s at %s", i, a)
		}
		seenID[i], seenAddr[a] = true, true
		if c.PeerID() == t.ID() {
			return "a connection to itself"
		}
	}
	if limit > 0 && len(t.Connections()) > limit {
		return fmt.Sprintf("%d connections with limit %d", len(t.Connections()), limit)
	}
	return ""
}

// waitAll runs functions at the same time and waits for all of them
func waitAll(fns ...func()) {
	left := len(fns)
	for _, fn := range fns {
		vsched.Go(func() { fn(); left-- })
	}
	vsched.Block("all of them", func() bool { return left == 0 })
}

func finish(ts ...*tnode) string {
	for _, t := range ts {
		if s := t.end(); s != "" {
			return s
		}
	}
	return leftovers()
}

// free runs a set-up without choices
func free(fn func()) {
	vsched.SetFree(true)
	fn()
	vsched.Idle()
	vsched.SetFree(false)
}

func meets() (ms []meet) {
	// two peers with one identity
	for _, addr := range []bool{false, true} {
		name := "two connections with one identity"
		if addr {
			name = "two connections with one address"
		}
		ms = append(ms, meet{name: name, bound: 2, run: func() string {
			var t *tnode
			free(func() { t = newNode(0, nil) })
			var p [2]*peer
			waitAll(
				func() {
					p[0] = dialFrom(t, "10.0.0.1:1", ids[2].pk, nil)
					p[0].send(0, &msg.Syn{Protocol: msg.Version, NodeID: ids[2].pk})
				},
				func() {
					a, id := "10.0.0.2:1", 2
					if addr {
						a, id = "10.0.0.1:1", 3
					}
					p[1] = dialFrom(t, a, ids[id].pk, nil)
					p[1].send(0, &msg.Syn{Protocol: msg.Version, NodeID: ids[id].pk})
				})
			vsched.Idle()
			if s := distinct(t, 0); s != "" {
				return s
			}
			if len(t.Connections()) != 1 || p[0].closed == p[1].closed {
				return fmt.Sprintf("%d connections, closed are %v and %v", len(t.Connections()), p[0].closed, p[1].closed)
			}
			return finish(t)
		}})
	}
	// limits under simultaneous connections
	for _, cf := range [][2]int{{1, 1}, {1, 3}, {2, 1}, {2, 3}} {
		ms = append(ms, meet{name: fmt.Sprintf("three peers, at most %d connections, %d pending", cf[0], cf[1]), bound: 2, run: func() string {
			var t *tnode
			most := 0
			free(func() {
				t = newNode(0, func(c *node.Config) {
					c.MaxConnections, c.MaxPendingConnections = cf[0], cf[1]
					c.OnConnect = func(c *node.Conn) error { most = max(most, len(c.Node().Connections())); return nil }
				})
			})
			var p [3]*peer
			var fns []func()
			for i := range p {
				fns = append(fns, func() { p[i] = join(t, ids[2+i].pk, nil) })
			}
			waitAll(fns...)
			vsched.Idle()
			if s := distinct(t, cf[0]); s != "" {
				return s
			}
			open := 0
			for i := range p {
				if !p[i].closed {
					open++
				}
			}
			if n := len(t.Connections()); n == 0 || n != open || most > cf[0] {
				return fmt.Sprintf("%d connections, %d are open, and there were %d", n, open, most)
			}
			for i := range p {
				p[i].close()
			}
			vsched.Idle()
			q := join(t, ids[6].pk, nil)
			vsched.Idle()
			if connOf(t, ids[6].pk) == nil || len(t.Connections()) != 1 {
				return "nobody can connect after all have left"
			}
			q.close()
			return finish(t)
		}})
	}
	// two nodes connect to each other
	ms = append(ms, meet{name: "two nodes connect to each other", bound: 2, run: func() string {
		var a, b *tnode
		free(func() { a, b = newNode(0, nil), newNode(1, nil) })
		waitAll(func() { a.TCP().Connect(nodeAddr(1)) }, func() { b.TCP().Connect(nodeAddr(0)) })
		vsched.Idle()
		for _, t := range []*tnode{a, b} {
			if s := distinct(t, 0); s != "" {
				return s
			}
		}
		if s := agree(a, b); s != "" {
			return s
		}
		// once the dust settles they can connect
		if _, err := a.TCP().Connect(nodeAddr(1)); err != nil && connOf(a, ids[1].pk) == nil {
			return "can't connect: " + err.Error()
		}
		vsched.Idle()
		if connOf(a, ids[1].pk) == nil || connOf(b, ids[0].pk) == nil {
			return "the nodes are not connected"
		}
		return finish(a, b)
	}})
	// a node connects twice to one address
	ms = append(ms, meet{name: "one address twice", bound: 2, run: func() string {
		var a, b *tnode
		free(func() { a, b = newNode(0, nil), newNode(1, nil) })
		var cs [2]*node.Conn
		var errs [2]error
		waitAll(func() { cs[0], errs[0] = a.TCP().Connect(nodeAddr(1)) }, func() { cs[1], errs[1] = a.TCP().Connect(nodeAddr(1)) })
		vsched.Idle()
		for _, t := range []*tnode{a, b} {
			if s := distinct(t, 0); s != "" {
				return s
			}
		}
		if errs[0] != nil || errs[1] != nil || cs[0] != cs[1] {
			return fmt.Sprintf("Connect returns %v and %v, one connection: %v", errs[0], errs[1], cs[0] == cs[1])
		}
		if s := agree(a, b); s != "" {
			return s
		}
		return finish(a, b)
	}})
	// tcp and udp
	ms = append(ms, meet{name: "one peer over TCP and UDP", bound: 2, run: func() string {
		var a, b *tnode
		free(func() {
			a, b = newNode(0, nil), newNode(1, nil)
			if err := b.UDP().Listen("127.0.0.1:8001"); err != nil {
				panic(err)
			}
		})
		waitAll(func() { a.TCP().Connect(nodeAddr(1)) }, func() { a.UDP().Connect("127.0.0.1:8001") })
		vsched.Idle()
		for _, t := range []*tnode{a, b} {
			if s := distinct(t, 0); s != "" {
				return s
			}
		}
		if s := agree(a, b); s != "" {
			return s
		}
		return finish(a, b)
	}})
	// connect to itself
	ms = append(ms, meet{name: "connects to itself", bound: 2, run: func() string {
		var a *tnode
		free(func() { a = newNode(0, nil) })
		if _, err := a.TCP().Connect(nodeAddr(0)); err == nil {
			return "connects to itself"
		}
		vsched.Idle()
		if n := len(a.Connections()); n != 0 {
			return "a connection to itself"
		}
		return finish(a)
	}})
	// closing while connecting
	for _, who := range []string{"the peer", "the node", "the connection"} {
		ms = append(ms, meet{name: who + " closes while connecting", bound: 2, run: func() string {
			var a, b *tnode
			cons := map[string]int{}
			free(func() {
				a, b = newNode(0, func(c *node.Config) {
					c.OnConnect = func(c *node.Conn) error { cons[idName(c.PeerID())]++; return nil }
					c.OnDisconnect = func(c *node.Conn, _ error) { cons[idName(c.PeerID())]-- }
				}), newNode(1, nil)
			})
			waitAll(func() { a.TCP().Connect(nodeAddr(1)) }, func() {
				switch who {
				case "the peer":
					b.Close()
				case "the node":
					a.Close()
				default:
					for _, c := range b.Connections() {
						c.Close()
					}
				}
			})
			vsched.Idle()
			if s := agree(a, b); s != "" {
				return s
			}
			if who != "the connection" && len(a.Connections())+len(b.Connections()) != 0 {
				return "a connection with a closed node"
			}
			if n := cons["id1"]; n != len(a.Connections()) {
				return fmt.Sprintf("%d connections, and callbacks say %d", len(a.Connections()), n)
			}
			return finish(a, b)
		}})
	}
	// reconnecting while the old connection goes away
	ms = append(ms, meet{name: "reconnecting", bound: 2, run: func() string {
		var t *tnode
		var p, q *peer
		free(func() {
			t = newNode(0, nil)
			p = dialFrom(t, "10.0.0.1:1", ids[2].pk, nil)
			p.send(0, &msg.Syn{Protocol: msg.Version, NodeID: ids[2].pk})
		})
		waitAll(p.close, func() {
			q = dialFrom(t, "10.0.0.1:1", ids[2].pk, nil)
			q.send(0, &msg.Syn{Protocol: msg.Version, NodeID: ids[2].pk})
		})
		vsched.Idle()
		if s := distinct(t, 0); s != "" {
			return s
		}
		if n := len(t.Connections()); n > 1 || (n == 1) == q.closed {
			return fmt.Sprintf("%d connections, closed: %v", n, q.closed)
		}
		if q.closed {
			q = dialFrom(t, "10.0.0.1:1", ids[2].pk, nil)
			q.send(0, &msg.Syn{Protocol: msg.Version, NodeID: ids[2].pk})
			vsched.Idle()
			if connOf(t, ids[2].pk) == nil {
				return "can't connect again"
			}
		}
		return finish(t)
	}})
	// a callback refuses
	ms = append(ms, meet{name: "OnConnect refuses", bound: 1, run: func() string {
		var t *tnode
		left := 0
		free(func() {
			t = newNode(0, func(c *node.Config) {
				c.MaxConnections = 1
				c.OnConnect = func(c *node.Conn) error {
					if c.PeerID() == ids[2].pk {
						return errNo
					}
					return nil
				}
				c.OnDisconnect = func(c *node.Conn, err error) {
					if err == errNo {
						left++
					}
				}
			})
		})
		p := join(t, ids[2].pk, nil)
		vsched.Idle()
		if !p.closed || len(t.Connections()) != 0 || left != 1 {
			return fmt.Sprintf("closed %v, %d connections, OnDisconnect %d times", p.closed, len(t.Connections()), left)
		}
		p = join(t, ids[3].pk, nil)
		vsched.Idle()
		if p.closed || len(t.Connections()) != 1 {
			return "a refused connection counts against the limit"
		}
		return finish(t)
	}})
	return
}

// explore the schedules of programs
func explore(r *core.R, ms []meet, race bool, secs, deeper int) {
	for _, m := range ms {
		if only := envOnly(); only != "" && !strings.Contains(m.name, only) {
			continue
		}
		sc := core.Scenario{Name: m.name, Bound: m.bound + deeper, Secs: time.Duration(secs) * time.Second,
			Opts: vsched.Opts{SyncOnly: true, Race: race}}
		sc.Setup = func() (func(), func() (string, string, string)) {
			factory.Reset()
			var bad string
			return func() { bad = m.run() }, func() (string, string, string) {
				obs := ""
				if m.obs != nil {
					obs = m.obs()
				}
				return key(bad), bad, obs
			}
		}
		r.Explore(sc)
	}
}

func meetings(r *core.R) {
	explore(r, meets(), true, r.Pick(7, 60), r.Pick(0, 1))
}
