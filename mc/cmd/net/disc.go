package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/skycoin/skycoin/src/cipher"

	"github.com/skycoin/net/factory"
	discovery "github.com/skycoin/net/skycoin-messenger/factory"

	"github.com/skycoin/cxo/node"

	"vmc/core"
	"vmc/vsched"
)

const (
	discAddr = "127.0.0.1:7000" // of a server connected over TCP
	discUDP  = "127.0.0.1:7001" // over UDP
	wireAddr = "127.0.0.1:9500" // of the node, UDP
)

// dmodel of a node and its discovery servers
type dmodel struct {
	public  bool
	listen  [2]bool // TCP, UDP
	known   [2]bool // connected to the server
	shared  [2]bool
	conn    [2]bool // to the nodes 1 and 2
	over    [2]int  // of which transport
	sub     [2][2]bool
	stopped bool
}

type dop struct {
	name string
	kind int
	a, b int
	t    int // transport of the server
}

const (
	dShare = iota
	dDont
	dServer  // connect to the server of a transport
	dListen  // start listening
	dFound   // the server has found node a, that shares feed b
	dNowhere // the server has found feed b where nobody is, at node a, at the node itself
	dDrop    // the server drops connections, and the node reconnects
	dClose   // a connection with node a
	dDown    // the server is down for two minutes
)

func dops() (ops []dop) {
	add := func(kind, a, b int, f string, args ...interface{}) {
		ops = append(ops, dop{fmt.Sprintf(f, args...), kind, a, b, 0})
	}
	for f := 0; f < 2; f++ {
		add(dShare, f, 0, "Share %d", f)
		add(dDont, f, 0, "DontShare %d", f)
	}
	for t, n := range []string{"TCP", "UDP"} {
		add(dServer, t, 0, "connect to the server over %s", n)
		add(dListen, t, 0, "listen on %s", n)
	}
	for i := 0; i < 2; i++ {
		add(dFound, i, i, "found: feed %d at node %d", i, i+1)
	}
	add(dFound, 0, 1, "found: feed 1 at node 1")
	for i := 0; i < 2; i++ {
		ops = append(ops, dop{fmt.Sprintf("found over UDP: feed %d at node %d", 1-i, i+1), dFound, i, 1 - i, 1})
	}
	add(dNowhere, 1, 0, "found: nobody, itself, nothing, and feed 0 at node 2")
	add(dDrop, 0, 0, "the servers drop connections")
	add(dDown, 0, 0, "the servers are down for two minutes")
	add(dClose, 0, 0, "the connection with node 1 is closed")
	return
}

// step of the model; false if it can't happen
func (m *dmodel) step(o dop) bool {
	switch o.kind {
	case dShare:
		m.shared[o.a] = true
	case dDont:
		m.shared[o.a] = false
		m.sub[0][o.a], m.sub[1][o.a] = false, false
	case dServer:
		if m.known[o.a] {
			return false
		}
		m.known[o.a] = true
	case dListen:
		if m.listen[o.a] {
			return false
		}
		m.listen[o.a] = true
	case dFound, dNowhere:
		if !m.known[o.t] {
			return false
		}
		if !m.shared[o.b] {
			return true // connecting is not needed, and harmless
		}
		if !m.conn[o.a] {
			m.over[o.a] = o.t
		}
		m.conn[o.a], m.sub[o.a][o.b] = true, true
	case dDrop, dDown:
		if !m.known[0] && !m.known[1] {
			return false
		}
	case dClose:
		if !m.conn[o.a] {
			return false
		}
		m.conn[o.a], m.over[o.a], m.sub[o.a] = false, 0, [2]bool{}
	}
	return true
}

func (m dmodel) canon() string { return fmt.Sprint(m) }

func feedsOf(b [2]bool) string {
	var ss []string
	for f, ok := range b {
		if ok {
			ss = append(ss, idName(owners[f].pk))
		}
	}
	return strings.Join(ss, ",")
}

// told says what the server at the other end of a connection is told
func told(c *discovery.Connection) (query, services, address string) {
	query, services = "nothing", "nothing"
	if q := c.Queries(); len(q) > 0 {
		query = names(q[len(q)-1])
	}
	if s := c.Services(); len(s) > 0 {
		var pks []cipher.PubKey
		for _, x := range s[len(s)-1].Services {
			pks = append(pks, x.Key)
		}
		services, address = names(pks), s[len(s)-1].ServiceAddress
	}
	return
}

// dlook compares what a server knows with what the node shares
func dlook(t *tnode, s *discovery.Server, known, tell bool, shared, addr string) string {
	cs := s.Conns()
	if !known {
		if len(cs) != 0 {
			return "connected to an unknown discovery server"
		}
		return ""
	}
	if len(cs) != 1 {
		return fmt.Sprintf("%d connections with a discovery server", len(cs))
	}
	if cs[0].Identity().PublicKey != t.ID().Hex() {
		return "another identity of the node for the discovery server"
	}
	q, sv, a := told(cs[0])
	if q != shared && q+shared != "nothing" {
		return fmt.Sprintf("the server is asked for feeds {%s}, and the node shares {%s}", q, shared)
	}
	if !tell {
		if sv != "nothing" {
			return "a node that is not public, or doesn't listen, tells the server its feeds"
		}
		return ""
	}
	if sv+shared == "nothing" {
		return ""
	}
	if sv != shared {
		return fmt.Sprintf("the server is told the feeds {%s}, and the node shares {%s}", sv, shared)
	}
	if a != addr {
		return fmt.Sprintf("the server is told the address %q instead of %q", a, addr)
	}
	return ""
}

// quietNode doesn't listen
func quietNode(public bool) (t *tnode) {
	noListen = true
	defer func() { noListen = false }()
	return newNode(0, func(c *node.Config) { c.Public = public })
}

func otherUDP(i int) string { return fmt.Sprintf("127.0.0.1:%d", 9600+i) }

// other nodes share both feeds
func otherNode(i int) (t *tnode) {
	t = newNode(i, nil)
	must(0, t.UDP().Listen(otherUDP(i)))
	for f := range owners[:2] {
		must(0, t.Share(owners[f].pk))
	}
	return
}

func found(f int, n cipher.PubKey, addr string) *discovery.ServiceInfo {
	return &discovery.ServiceInfo{PubKey: owners[f].pk, Nodes: []*discovery.NodeInfo{{PubKey: n, Address: addr}}}
}

func discRun(public bool, ops []dop, h []int) (bad string) {
	return once(func() string {
		discovery.Reset()
		srv := [2]*discovery.Server{discovery.NewServer(discAddr), discovery.NewServer(discUDP)}
		m := dmodel{public: public}
		t := quietNode(public)
		others := [2]*tnode{otherNode(1), otherNode(2)}
		look := func() string {
			for k, s := range srv {
				addr := [2]string{nodeAddr(0), wireAddr}[k]
				if b := dlook(t, s, m.known[k], public && m.listen[k], feedsOf(m.shared), addr); b != "" {
					return [2]string{"TCP", "UDP"}[k] + ": " + b
				}
			}
			if have := names(t.Feeds()); have != feedsOf(m.shared) {
				return fmt.Sprintf("the node shares {%s} instead of {%s}", have, feedsOf(m.shared))
			}
			for i, o := range others {
				c, oc := connOf(t, ids[i+1].pk), connOf(o, t.ID())
				if m.conn[i] && (c == nil || oc == nil) {
					return fmt.Sprintf("not connected to node %d", i+1)
				}
				if m.conn[i] && c.IsTCP() != (m.over[i] == 0) {
					return fmt.Sprintf("connected to node %d over another transport", i+1)
				}
				var have, ohave string
				if c != nil {
					have = names(c.Feeds())
				}
				if oc != nil {
					ohave = names(oc.Feeds())
				}
				if want := feedsOf(m.sub[i]); have != want || ohave != want {
					return fmt.Sprintf("the connection with node %d is subscribed to {%s}, at the other end to {%s}, instead of {%s}", i+1, have, ohave, want)
				}
			}
			return ""
		}
		for _, i := range h {
			o := ops[i]
			m.step(o)
			var err error
			switch o.kind {
			case dShare:
				err = t.Share(owners[o.a].pk)
			case dDont:
				err = t.DontShare(owners[o.a].pk)
			case dServer:
				if o.a == 0 {
					err = t.TCP().ConnectToDiscoveryServer(discAddr)
				} else {
					err = t.UDP().ConnectToDiscoveryServer(discUDP)
				}
			case dListen:
				if o.a == 0 {
					err = t.TCP().Listen(nodeAddr(0))
				} else {
					err = t.UDP().Listen(wireAddr)
				}
			case dFound:
				addr := [2]string{nodeAddr(o.a + 1), otherUDP(o.a + 1)}[o.t]
				srv[o.t].Conns()[0].Respond(&discovery.QueryResp{Result: []*discovery.ServiceInfo{found(o.b, ids[o.a+1].pk, addr)}})
			case dNowhere:
				none := found(o.b, ids[5].pk, "127.0.0.1:1")
				itself := found(o.b, t.ID(), nodeAddr(0))
				last := found(o.b, ids[o.a+1].pk, nodeAddr(o.a+1))
				last.Nodes = append([]*discovery.NodeInfo{none.Nodes[0], nil}, last.Nodes...)
				srv[0].Conns()[0].Respond(&discovery.QueryResp{Result: []*discovery.ServiceInfo{none, nil, itself, {PubKey: owners[o.b].pk}, last}})
			case dDrop, dDown:
				for _, s := range srv {
					if o.kind == dDown {
						s.Stop()
						continue
					}
					for _, c := range s.Conns() {
						c.Close()
					}
				}
				if o.kind == dDown {
					vsched.Sleep(2 * time.Minute)
					srv = [2]*discovery.Server{discovery.NewServer(discAddr), discovery.NewServer(discUDP)}
				}
				vsched.Sleep(time.Minute)
			case dClose:
				if c := connOf(t, ids[o.a+1].pk); c != nil {
					err = c.Close()
				}
			}
			if err != nil {
				return o.name + ": " + err.Error()
			}
			vsched.Idle()
			if bad := look(); bad != "" {
				return "after " + o.name + ": " + bad
			}
		}
		if s := t.end(); s != "" {
			return s
		}
		vsched.Idle()
		for _, s := range srv {
			if len(s.Conns()) != 0 {
				return "a closed node is connected to a discovery server"
			}
		}
		return finish(others[0], others[1])
	})
}

// discMeets are simultaneous events
func discMeets() (ms []meet) {
	f0, f1 := owners[0].pk, owners[1].pk
	type world struct {
		t, o *tnode
		s    *discovery.Server
	}
	type act struct {
		name string
		do   func(w *world)
	}
	share := func(pk cipher.PubKey) func(w *world) { return func(w *world) { w.t.Share(pk) } }
	dont := func(pk cipher.PubKey) func(w *world) { return func(w *world) { w.t.DontShare(pk) } }
	acts := []act{
		{"Share 0", share(f0)}, {"Share 1", share(f1)}, {"DontShare 0", dont(f0)},
		{"connect to the server", func(w *world) { w.t.TCP().ConnectToDiscoveryServer(discAddr) }},
		{"Listen", func(w *world) { w.t.TCP().Listen(nodeAddr(0)) }},
		{"found: feed 0 at node 1", func(w *world) {
			for _, c := range w.s.Conns() {
				c.Respond(&discovery.QueryResp{Result: []*discovery.ServiceInfo{found(0, ids[1].pk, nodeAddr(1))}})
			}
		}},
		{"the server drops the connection", func(w *world) {
			for _, c := range w.s.Conns() {
				c.Close()
			}
		}},
		{"Close", func(w *world) { w.t.Close() }},
	}
	const con, lis, fnd, drp, cls = 3, 4, 5, 6, 7
	prog := func(is ...int) {
		has := map[int]bool{}
		var ss []string
		for _, i := range is {
			has[i] = true
			ss = append(ss, acts[i].name)
		}
		if has[lis] && !has[con] && !has[0] && !has[1] && !has[2] && !has[drp] {
			return
		}
		ms = append(ms, meet{name: strings.Join(ss, " | "), bound: 1, run: func() string {
			w := new(world)
			free(func() {
				discovery.Reset()
				w.s = discovery.NewServer(discAddr)
				w.t = quietNode(true)
				if !has[0] {
					w.t.Share(f0)
				}
				if !has[lis] {
					must(0, w.t.TCP().Listen(nodeAddr(0)))
				}
				if has[fnd] {
					w.o = otherNode(1)
				}
				if !has[con] {
					must(0, w.t.TCP().ConnectToDiscoveryServer(discAddr))
				}
			})
			var fns []func()
			for _, i := range is {
				fns = append(fns, func() { acts[i].do(w) })
			}
			waitAll(fns...)
			vsched.Idle()
			if has[drp] {
				vsched.Sleep(time.Minute)
				vsched.Idle()
			}
			if has[cls] {
				if n := len(w.s.Conns()); n != 0 {
					return "a closed node is connected to a discovery server"
				}
				if err := factory.NewTCPFactory().Listen(nodeAddr(0)); err != nil {
					return "a closed node listens"
				}
			} else {
				if b := dlook(w.t, w.s, true, true, names(w.t.Feeds()), nodeAddr(0)); b != "" {
					return b
				}
				want := [2]bool{true, has[1]}
				if has[2] && !has[0] {
					want[0] = false
				}
				if have := names(w.t.Feeds()); have != feedsOf(want) && !(has[0] && has[2]) {
					return fmt.Sprintf("the node shares {%s} instead of {%s}", have, feedsOf(want))
				}
			}
			ts := []*tnode{w.t}
			if w.o != nil {
				if !has[cls] {
					if s := subAgree(w.t, w.o, 0); s != "" {
						return s
					}
					if c := connOf(w.t, ids[1].pk); !has[0] && !has[2] && !has[drp] && !has[con] && (c == nil || names(c.Feeds()) != idName(f0)) {
						return "the node that was found is not subscribed to"
					}
				}
				ts = append(ts, w.o)
			}
			return finish(ts...)
		}})
	}
	for i := range acts {
		for j := i + 1; j < len(acts); j++ {
			if i == con && (j == fnd || j == drp) {
				continue // there is no connection
			}
			prog(i, j)
		}
	}
	prog(0, 1, con)
	prog(1, 2, con)
	prog(1, 2, fnd)
	prog(1, con, lis)
	return
}

func n09(r *core.R) {
	r.Rule("a case is a history of calls, of answers of discovery servers and of their failures, replayed from a model of what every server should know (every state and transition of it), or a schedule of simultaneous ones; what the servers are asked and told, the feeds, and the connections and subscriptions at both ends are compared")
	ops := dops()
	for i, name := range []string{"a public node", "a node that is not public"} {
		public := i == 0
		replays(r, name, len(ops), r.Pick(1, 2), r.Pick(3, 4), func(h []int) string {
			var ss []string
			for _, i := range h {
				ss = append(ss, ops[i].name)
			}
			return strings.Join(ss, "; ")
		}, func(h []int) (string, bool) {
			m := dmodel{public: public}
			for _, i := range h {
				if !m.step(ops[i]) {
					return "", false
				}
			}
			return m.canon(), true
		}, func(h []int) string { return discRun(public, ops, h) })
	}
	explore(r, discMeets(), true, r.Pick(10, 90), r.Pick(1, 2))
}
