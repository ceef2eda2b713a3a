package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/skycoin/net/factory"
	"github.com/skycoin/skycoin/src/cipher"

	"github.com/skycoin/cxo/node"
	"github.com/skycoin/cxo/node/msg"

	"vmc/core"
	"vmc/vsched"
)

// Swarms: what a node knows about peers of a feed, whom it tells, and whom
// it connects to, along every history of calls, announcements and time

const never = 1000000 * time.Hour

const variants = 5

// information about peer i: b differs from a in everything, c and d and e in
// one of the metadata and the addresses
func pinfo(i, v int) msg.PeerInfo {
	p := msg.PeerInfo{PubKey: ids[i].pk, Metadata: []byte("a"), TCPAddr: fmt.Sprintf("10.0.0.%d:1000", i)}
	if v == 1 || v == 2 {
		p.Metadata = []byte{byte('a' + v)}
	}
	if v == 1 || v == 3 {
		p.TCPAddr = fmt.Sprintf("10.0.0.%d:%d", i, 1000*(v+1))
	}
	if v == 1 || v == 4 {
		p.UDPAddr = fmt.Sprintf("10.0.0.%d:300%d", i, v)
	}
	return p
}

type mpeer struct {
	v       int
	seen    time.Duration
	retries uint64
}

// the model of a swarm
type mswarm struct {
	peers map[int]mpeer
	calls []string // callbacks
}

func showPeers(ps map[int]mpeer) string {
	var ss []string
	for i, p := range ps {
		ss = append(ss, fmt.Sprintf("%d%c seen at %v after %d failures", i, 'a'+p.v, p.seen, p.retries))
	}
	sort.Strings(ss)
	return strings.Join(ss, ", ")
}

// peersOf a swarm, as in the model
func peersOf(s *node.Swarm, start time.Time) (ps map[int]mpeer, bad string) {
	ps = map[int]mpeer{}
	for _, p := range s.Peers() {
		i, v, bad := known(msg.PeerInfo{PubKey: p.PubKey, Metadata: p.Metadata, TCPAddr: p.TCPAddr, UDPAddr: p.UDPAddr})
		if bad != "" {
			return nil, "Peers: " + bad
		}
		if _, ok := ps[i]; ok {
			return nil, "Peers: a peer is there twice"
		}
		ps[i] = mpeer{v, p.LastSeen.Sub(start).Round(10 * time.Millisecond), p.RetryTimes}
	}
	return
}

func known(p msg.PeerInfo) (i, v int, bad string) {
	for i := range ids {
		for v := 0; v < variants; v++ {
			q := pinfo(i, v)
			if p.PubKey == q.PubKey && string(p.Metadata) == string(q.Metadata) && p.TCPAddr == q.TCPAddr && p.UDPAddr == q.UDPAddr {
				return i, v, ""
			}
		}
	}
	return 0, 0, fmt.Sprintf("a peer that nobody announced: %s %q %q %q", idName(p.PubKey), p.Metadata, p.TCPAddr, p.UDPAddr)
}

// announcement
type announce struct {
	name string
	m    msg.Msg
	list [][2]int // good peers: i, v
}

func announces(short bool) (as []announce) {
	good := func(name string, extra []msg.PeerInfo, l ...[2]int) announce {
		m := &msg.Peers{Feed: owners[0].pk, List: append([]msg.PeerInfo(nil), extra...)}
		for _, x := range l {
			m.List = append(m.List, pinfo(x[0], x[1]))
		}
		return announce{name, m, l}
	}
	as = []announce{
		{"nothing", nil, nil},
		good("3a", nil, [2]int{3, 0}),
		good("3b and 4a", nil, [2]int{3, 1}, [2]int{4, 0}),
		good("3a, 4a and 5a", nil, [2]int{3, 0}, [2]int{4, 0}, [2]int{5, 0}),
		good("2a", nil, [2]int{2, 0}),
	}
	bad := func(f func(p *msg.PeerInfo)) msg.PeerInfo {
		p := pinfo(5, 0)
		f(&p)
		return p
	}
	junk := []msg.PeerInfo{
		pinfo(0, 0), // the node itself
		bad(func(p *msg.PeerInfo) { p.PubKey = cipher.PubKey{} }),
		bad(func(p *msg.PeerInfo) { p.TCPAddr = nodeAddr(0) }),
		bad(func(p *msg.PeerInfo) { p.TCPAddr = "nowhere" }),
		bad(func(p *msg.PeerInfo) { p.TCPAddr = "10.0.0.1:70000" }),
		bad(func(p *msg.PeerInfo) { p.UDPAddr = "somewhere:1000" }),
		bad(func(p *msg.PeerInfo) { p.UDPAddr = "10.0.0.1000:10" }),
	}
	as = append(as, good("junk and 4b", junk, [2]int{4, 1}))
	if short {
		return
	}
	wrong := &msg.Peers{Feed: owners[1].pk, List: []msg.PeerInfo{pinfo(3, 0)}}
	return append(as, announce{"an error", &msg.Err{Err: "not in swarm"}, nil},
		announce{"peers of another feed", wrong, nil}, announce{"something else", &msg.List{Feeds: []cipher.PubKey{owners[0].pk}}, nil},
		good("nobody", nil))
}

func (m *mswarm) clear(now, expire time.Duration) {
	for i, p := range m.peers {
		if now-p.seen > expire {
			delete(m.peers, i)
			m.calls = append(m.calls, fmt.Sprintf("removed %d%c", i, 'a'+p.v))
		}
	}
}

// add announced peers; those which do not fit are chosen by the node
func (m *mswarm) add(l [][2]int, now time.Duration, max int, have map[int]mpeer) string {
	var fresh [][2]int
	for _, x := range l {
		p, ok := m.peers[x[0]]
		if !ok {
			fresh = append(fresh, x)
			continue
		}
		if p.v != x[1] {
			m.calls = append(m.calls, fmt.Sprintf("updated %d%c", x[0], 'a'+x[1]))
		}
		p.v, p.seen = x[1], now
		m.peers[x[0]] = p
	}
	n := min(max-len(m.peers), len(fresh))
	if n < 0 {
		n = 0
	}
	if n == len(fresh) {
		have = nil
	}
	for _, x := range fresh {
		if have != nil {
			if _, ok := have[x[0]]; !ok {
				continue
			}
		}
		if n--; n < 0 {
			return "more peers than allowed"
		}
		m.peers[x[0]] = mpeer{x[1], now, 0}
		m.calls = append(m.calls, fmt.Sprintf("added %d%c", x[0], 'a'+x[1]))
	}
	if n > 0 {
		return "peers are not added, though there is a place"
	}
	return ""
}

// exchange of peers
func exchange(r *core.R, max, per, depth int, short, one bool) {
	const (
		kAdd = iota
		kBad
		kRemove
		kPass
		kAsk
		kAskOther
		kLeave
	)
	type op struct {
		name string
		kind int
		i, v int
	}
	as := announces(short)
	var ops []op
	if one {
		as = as[:1]
		for v := 0; v < variants; v++ {
			as = append(as, announce{fmt.Sprintf("3%c", 'a'+v), &msg.Peers{Feed: owners[0].pk, List: []msg.PeerInfo{pinfo(3, v)}}, [][2]int{{3, v}}})
			ops = append(ops, op{fmt.Sprintf("AddPeer 3%c", 'a'+v), kAdd, 3, v})
		}
	}
	for i := 2; i < 5 && !one; i++ {
		ops = append(ops, op{fmt.Sprintf("AddPeer %da", i), kAdd, i, 0})
		if i == 3 || !short {
			ops = append(ops, op{fmt.Sprintf("AddPeer %db", i), kAdd, i, 1})
		}
		ops = append(ops, op{fmt.Sprintf("RemovePeer %d", i), kRemove, i, 0})
	}
	if !short && !one {
		for v := 0; v < 5; v++ {
			ops = append(ops, op{fmt.Sprintf("AddPeer of junk %d", v), kBad, 0, v})
		}
	}
	for i := range as {
		ops = append(ops, op{"10 s pass and the peer tells about " + as[i].name, kPass, i, 0})
	}
	ops = append(ops, op{"the peer asks", kAsk, 0, 0})
	if !one {
		ops = append(ops, op{"the peer asks about another feed", kAskOther, 0, 0}, op{"leave and join", kLeave, 0, 0})
	}
	name := fmt.Sprintf("exchange of peers, at most %d, %d at once", max, per)
	if one {
		name = "exchange of versions of one peer"
	}
	history(r, name, len(ops), depth, func(o int) string { return ops[o].name }, func(h []int) string {
		return once(func() string {
			var calls []string
			m := &mswarm{peers: map[int]mpeer{}}
			saw := func(what string) func(f cipher.PubKey, p node.Peer) {
				return func(f cipher.PubKey, p node.Peer) {
					i, v, bad := known(msg.PeerInfo{PubKey: p.PubKey, Metadata: p.Metadata, TCPAddr: p.TCPAddr, UDPAddr: p.UDPAddr})
					if f != owners[0].pk {
						bad = "another feed"
					}
					calls = append(calls, fmt.Sprintf("%s%s %d%c", bad, what, i, 'a'+v))
				}
			}
			t := newNode(0, func(c *node.Config) {
				c.OnPeerAdded, c.OnPeerUpdated, c.OnPeerRemoved = saw("added"), saw("updated"), saw("removed")
				c.TCP.ResponseTimeout = 5 * time.Second
			})
			ann := as[0]
			asked := 0
			p := join(t, ids[2].pk, func(p *peer, f frame) {
				if x, ok := f.m.(*msg.RqPeers); ok && x.Feed == owners[0].pk {
					if asked++; ann.m != nil {
						p.send(f.seq, ann.m)
					}
				}
			})
			vsched.Idle()
			if err := t.Share(owners[0].pk); err != nil {
				return err.Error()
			}
			p.send(0, &msg.Sub{Feed: owners[0].pk})
			vsched.Idle()
			start := vsched.Now()
			cfg := node.SwarmConfig{MaxPeers: uint64(max), RequestPeerRate: 10 * time.Second, PeerExpirePeriod: 15 * time.Second,
				ClearOldPeersRate: 7 * time.Second, OutgoingConnRate: never, PeersPerResponse: uint64(per)}
			s := must(t.JoinSwarm(owners[0].pk, cfg))
			var now, base time.Duration
			pass := func(d time.Duration) { now += d; vsched.Sleep(d); vsched.Idle() }
			pass(1500 * time.Millisecond)
			asks := 0
			for _, k := range h {
				o := ops[k]
				switch o.kind {
				case kAdd:
					q := pinfo(o.i, o.v)
					err := s.AddPeer(q.PubKey, q.Metadata, q.TCPAddr, q.UDPAddr)
					_, ok := m.peers[o.i]
					if want := ok || len(m.peers) < max; (err == nil) != want {
						return fmt.Sprintf("AddPeer: %v after %q", err, o.name)
					} else if want {
						m.peers[o.i] = mpeer{o.v, now, 0}
					}
				case kBad:
					q := pinfo(3, 0)
					switch o.v {
					case 0:
						q.PubKey = cipher.PubKey{}
					case 1:
						q.PubKey = ids[0].pk
					case 2:
						q.TCPAddr = nodeAddr(0)
					case 3:
						q.TCPAddr = "10.0.0.1"
					case 4:
						q.UDPAddr = "10.0.0.300:1"
					}
					if err := s.AddPeer(q.PubKey, q.Metadata, q.TCPAddr, q.UDPAddr); err == nil {
						return "AddPeer accepts " + o.name
					}
				case kRemove:
					_, ok := m.peers[o.i]
					if err := s.RemovePeer(ids[o.i].pk); (err == nil) != ok {
						return fmt.Sprintf("RemovePeer: %v after %q", err, o.name)
					}
					delete(m.peers, o.i)
				case kPass:
					ann = as[o.i]
					from := now
					pass(10 * time.Second)
					have, bad := peersOf(s, start)
					if bad != "" {
						return bad
					}
					for at := from - base + 500*time.Millisecond; at <= now-base; at += 500 * time.Millisecond {
						if at%(10*time.Second) == 0 && len(m.peers) < max {
							asks++
							if bad := m.add(ann.list, base+at, max, have); bad != "" {
								return bad + fmt.Sprintf(" after %q", o.name)
							}
						} else if at%(7*time.Second) == 0 {
							m.clear(base+at, 15*time.Second)
						}
					}
				case kAsk:
					n := len(p.got)
					p.send(0, &msg.RqPeers{Feed: owners[0].pk})
					vsched.Idle()
					if bad := toldPeers(p.since(n), m.peers, 2, per); bad != "" {
						return bad
					}
				case kAskOther:
					n := len(p.got)
					p.send(0, &msg.RqPeers{Feed: owners[1].pk})
					vsched.Idle()
					if fs := p.since(n); len(fs) != 1 || !strings.HasPrefix(fs[0].String(), "Err") {
						return fmt.Sprintf("a request about another feed gets %v", fs)
					}
				case kLeave:
					if err := t.LeaveSwarm(owners[0].pk); err != nil {
						return "LeaveSwarm: " + err.Error()
					}
					if err := t.LeaveSwarm(owners[0].pk); err == nil {
						return "LeaveSwarm of a swarm that is left"
					}
					if _, ok := t.InSwarm(owners[0].pk); ok {
						return "in the swarm that is left"
					}
					n := len(p.got)
					p.send(0, &msg.RqPeers{Feed: owners[0].pk})
					pass(8500 * time.Millisecond)
					if fs := p.since(n); len(fs) != 1 || !strings.HasPrefix(fs[0].String(), "Err") {
						return fmt.Sprintf("out of the swarm: a request gets %v", fs)
					}
					base = now
					s = must(t.JoinSwarm(owners[0].pk, cfg))
					if x, err := t.JoinSwarm(owners[0].pk, cfg); x != s || err != nil {
						return "joined twice"
					}
					m.peers = map[int]mpeer{}
					pass(1500 * time.Millisecond)
				}
				if x, ok := t.InSwarm(owners[0].pk); !ok || x != s {
					return "not in the swarm"
				}
				have, bad := peersOf(s, start)
				if bad == "" && showPeers(have) != showPeers(m.peers) {
					bad = fmt.Sprintf("peers are %s instead of %s", showPeers(have), showPeers(m.peers))
				}
				if bad == "" && asked != asks {
					bad = fmt.Sprintf("the node asked %d times instead of %d", asked, asks)
				}
				sort.Strings(calls)
				sort.Strings(m.calls)
				if bad == "" && fmt.Sprint(calls) != fmt.Sprint(m.calls) {
					bad = fmt.Sprintf("callbacks %v instead of %v", calls, m.calls)
				}
				if bad != "" {
					return bad + fmt.Sprintf(" after %q", o.name)
				}
			}
			if p.closed {
				return "the connection is closed"
			}
			if s := t.end(); s != "" {
				return s
			}
			if _, ok := t.InSwarm(owners[0].pk); ok {
				return "a closed node is in the swarm"
			}
			return leftovers()
		})
	})
}

// toldPeers is the reply to a request of peer who
func toldPeers(fs []frame, peers map[int]mpeer, who, per int) string {
	if len(fs) != 1 {
		return fmt.Sprintf("a request of peers gets %v", fs)
	}
	l, ok := fs[0].m.(*msg.Peers)
	if !ok || l.Feed != owners[0].pk {
		return fmt.Sprintf("a request of peers gets %v", fs)
	}
	n := 0
	for i, p := range peers {
		if i != who && p.retries == 0 {
			n++
		}
	}
	told := map[int]bool{}
	for _, x := range l.List {
		i, v, bad := known(x)
		if bad != "" {
			return "tells about " + bad
		}
		p, ok := peers[i]
		if !ok || p.v != v || told[i] || i == who || p.retries > 0 {
			return fmt.Sprintf("tells about %d%c", i, 'a'+v)
		}
		told[i] = true
	}
	if len(told) != min(n, per) {
		return fmt.Sprintf("tells about %d peers instead of %d", len(told), min(n, per))
	}
	return ""
}

// history runs every sequence of a length
func history(r *core.R, name string, nops, depth int, op func(o int) string, run func(h []int) string) {
	if only := envOnly(); only != "" && !strings.Contains(name, only) {
		return
	}
	n, ok := 0, true
	core.Seqs(nops, depth, depth, func(h []int) bool {
		if n++; n%max(r.Shards, 1) != r.Shard {
			return true
		}
		h = append([]int(nil), h...)
		show := func() string {
			s := name + ":"
			for _, o := range h {
				s += " " + op(o) + ";"
			}
			return s
		}
		bad := ""
		if p := r.Guard(show, func() { bad = run(h) }); p != "" {
			bad = "panic: " + p
		}
		if bad == skip {
			return true
		}
		r.Validated.Add(1)
		r.Transitions.Add(int64(len(h)))
		if bad != "" {
			r.Violate(name+": "+key(bad), show()+" "+bad, map[string]interface{}{"history": show()})
		}
		ok = !r.Full() && !r.Expired()
		return ok
	})
	if !ok {
		if r.Expired() {
			r.Cap(name + ": time")
		}
		return
	}
	if r.Shard == 0 {
		r.Bound("%s: every history of %d of %d events", name, depth, nops)
	}
}

// ways to meet a node
const (
	wGood = iota
	wRefuse
	wStranger // refuses the handshake
	wSilent
	wNobody // doesn't listen
)

var wNames = []string{"accepts", "refuses to subscribe", "refuses", "says nothing", "doesn't listen"}

// listener is a peer that waits for the node
type listener struct {
	i     int
	way   int
	ps    []*peer
	l     *factory.TCPFactory
	dials int
}

func newListener(i, way int) (w *listener) {
	w = &listener{i: i}
	w.set(way)
	return
}

func (w *listener) set(way int) {
	w.way = way
	if way == wNobody {
		if w.l != nil {
			w.l.Close()
			w.l = nil
		}
		return
	}
	if w.l != nil {
		return
	}
	w.l = factory.NewTCPFactory()
	w.l.AcceptedCallback = func(y *factory.Connection) {
		w.dials++
		w.ps = append(w.ps, newPeer(y, ids[w.i].pk, func(p *peer, f frame) {
			switch f.m.(type) {
			case *msg.Syn:
				switch w.way {
				case wStranger:
					p.send(f.seq, &msg.Err{Err: "go away"})
				case wSilent:
				default:
					p.send(f.seq, &msg.Ack{NodeID: ids[w.i].pk})
				}
			case *msg.Sub:
				switch w.way {
				case wGood:
					p.send(f.seq, &msg.Ok{})
				case wRefuse:
					p.send(f.seq, &msg.Err{Err: "no"})
				}
			}
		}))
	}
	if err := w.l.Listen(pinfo(w.i, 0).TCPAddr); err != nil {
		panic(err)
	}
}

// outgoing connections
func outgoing(r *core.R, conns, limit, depth int) {
	const (
		kTick = iota
		kWay
		kLeave
		kRemove
		kAsk
	)
	type op struct {
		name string
		kind int
		i, v int
	}
	ops := []op{{"9 s pass", kTick, 0, 0}, {"peer 2 asks", kAsk, 0, 0}}
	for i := 3; i < 6; i++ {
		ops = append(ops, op{fmt.Sprintf("peer %d leaves", i), kLeave, i, 0})
		for w := range wNames {
			if i < 5 && (i == 3 || w == wGood || w == wStranger) {
				ops = append(ops, op{fmt.Sprintf("peer %d now %s", i, wNames[w]), kWay, i, w})
			}
		}
	}
	ops = append(ops, op{"RemovePeer 4", kRemove, 4, 0})
	name := fmt.Sprintf("outgoing connections, %d for the feed, %d of the node", conns, limit)
	history(r, name, len(ops), depth, func(o int) string { return ops[o].name }, func(h []int) string {
		if ops[h[0]].kind > kWay {
			return skip
		}
		return once(func() string {
			t := newNode(0, func(c *node.Config) {
				c.TCP.ResponseTimeout = 4 * time.Second
				c.MaxConnections = limit
			})
			p := join(t, ids[2].pk, nil) // is not subscribed
			vsched.Idle()
			start := vsched.Now()
			s := must(t.JoinSwarm(owners[0].pk, node.SwarmConfig{MaxPeers: 5, RequestPeerRate: never, PeerExpirePeriod: never,
				ClearOldPeersRate: never, MaxConns: uint64(conns), OutgoingConnRate: 9 * time.Second}))
			ws := map[int]*listener{}
			m := map[int]mpeer{}
			for i := 3; i < 6; i++ {
				ws[i] = newListener(i, wGood)
				if i == 5 {
					ws[i].set(wNobody)
				}
				q := pinfo(i, 0)
				if err := s.AddPeer(q.PubKey, q.Metadata, q.TCPAddr, q.UDPAddr); err != nil {
					return err.Error()
				}
				m[i] = mpeer{}
			}
			vsched.Sleep(5 * time.Second) // attempts of a tick end within the event
			vsched.Idle()
			up := map[int]bool{}  // connected
			sub := map[int]bool{} // and subscribed
			for _, k := range h {
				o := ops[k]
				switch o.kind {
				case kTick:
					need := min(max(conns-len(sub), 0), limit-1-len(up))
					var avail []int
					for i := range m {
						if !up[i] {
							avail = append(avail, i)
						}
					}
					dials := map[int]int{}
					for i, w := range ws {
						dials[i] = w.dials
					}
					vsched.Sleep(9 * time.Second)
					vsched.Idle()
					have, bad := peersOf(s, start)
					if bad != "" {
						return bad
					}
					tried := 0
					for _, i := range avail {
						x, w := m[i], ws[i]
						d := w.dials - dials[i]
						if w.way == wNobody {
							d = int(have[i].retries - x.retries)
						}
						if d > 1 || d < 0 {
							return fmt.Sprintf("%d connections to peer %d", d, i)
						}
						if d == 1 {
							tried++
							switch w.way {
							case wGood:
								up[i], sub[i] = true, true
								x.retries = 0
							case wRefuse:
								up[i] = true
								x.retries++
							default:
								x.retries++
							}
							m[i] = x
						}
					}
					if want := min(max(need, 0), len(avail)); tried != want {
						return fmt.Sprintf("connects to %d peers instead of %d", tried, want)
					}
				case kWay:
					if ws[o.i].way == o.v {
						return skip
					}
					ws[o.i].set(o.v)
					if o.v == wNobody { // drops everything
						delete(up, o.i)
						delete(sub, o.i)
					}
					vsched.Idle()
				case kLeave:
					if !up[o.i] {
						return skip
					}
					for _, q := range ws[o.i].ps {
						q.close()
					}
					delete(up, o.i)
					delete(sub, o.i)
					vsched.Idle()
				case kRemove:
					_, ok := m[o.i]
					if err := s.RemovePeer(ids[o.i].pk); (err == nil) != ok {
						return fmt.Sprintf("RemovePeer: %v", err)
					}
					delete(m, o.i)
				case kAsk:
					n := len(p.got)
					p.send(0, &msg.RqPeers{Feed: owners[0].pk})
					vsched.Idle()
					if bad := toldPeers(p.since(n), m, 2, 30); bad != "" {
						return bad + fmt.Sprintf(" of %s", showPeers(m))
					}
				}
				have, bad := peersOf(s, start)
				if bad == "" && showPeers(have) != showPeers(m) {
					bad = fmt.Sprintf("peers are %s instead of %s", showPeers(have), showPeers(m))
				}
				if len(t.Connections()) != len(up)+1 {
					bad = fmt.Sprintf("%d connections instead of %d", len(t.Connections()), len(up)+1)
				}
				if len(t.ConnectionsOfFeed(owners[0].pk)) != len(sub) {
					bad = fmt.Sprintf("%d connections of the feed instead of %d", len(t.ConnectionsOfFeed(owners[0].pk)), len(sub))
				}
				for i := range ws {
					if (connOf(t, ids[i].pk) != nil) != up[i] {
						bad = fmt.Sprintf("connected to peer %d: %v", i, !up[i])
					}
				}
				if bad != "" {
					return bad + fmt.Sprintf(" after %q", o.name)
				}
			}
			if s := t.end(); s != "" {
				return s
			}
			for _, w := range ws {
				if w.l != nil {
					w.l.Close()
				}
			}
			return leftovers()
		})
	})
}

// swarms used by many
func swarmMeets() (ms []meet) {
	feed := owners[0].pk
	cfg := node.SwarmConfig{MaxPeers: 2, RequestPeerRate: 5 * time.Second, PeerExpirePeriod: 5 * time.Second,
		ClearOldPeersRate: 5 * time.Second, OutgoingConnRate: 5 * time.Second, MaxConns: 2}
	add := func(s *node.Swarm, i int) {
		q := pinfo(i, 0)
		s.AddPeer(q.PubKey, q.Metadata, q.TCPAddr, q.UDPAddr)
	}
	type act struct {
		name string
		do   func(t *tnode, s *node.Swarm, p *peer)
	}
	acts := []act{
		{"AddPeer", func(t *tnode, s *node.Swarm, p *peer) { add(s, 3); add(s, 4) }},
		{"RemovePeer", func(t *tnode, s *node.Swarm, p *peer) { s.RemovePeer(ids[2].pk); s.RemovePeer(ids[3].pk) }},
		{"LeaveSwarm", func(t *tnode, s *node.Swarm, p *peer) { t.LeaveSwarm(feed) }},
		{"LeaveSwarm and JoinSwarm", func(t *tnode, s *node.Swarm, p *peer) { t.LeaveSwarm(feed); t.JoinSwarm(feed, cfg) }},
		{"JoinSwarm", func(t *tnode, s *node.Swarm, p *peer) { t.JoinSwarm(feed, cfg) }},
		{"a request of the peer", func(t *tnode, s *node.Swarm, p *peer) { p.send(0, &msg.RqPeers{Feed: feed}) }},
		{"the peer leaves", func(t *tnode, s *node.Swarm, p *peer) { p.close() }},
		{"Close of the node", func(t *tnode, s *node.Swarm, p *peer) { t.Close() }},
		{"time", func(t *tnode, s *node.Swarm, p *peer) { vsched.Sleep(5 * time.Second) }},
	}
	prog := func(at time.Duration, x ...act) meet {
		name := "swarm: "
		if at > 0 {
			name = "swarm, as it works: "
		}
		for i, a := range x {
			if i > 0 {
				name += " | "
			}
			name += a.name
		}
		return meet{name: name, bound: 1, run: func() string {
			var t *tnode
			var p *peer
			var s *node.Swarm
			free(func() {
				t = newNode(0, func(c *node.Config) { c.TCP.ResponseTimeout = 4 * time.Second })
				p = join(t, ids[2].pk, func(p *peer, f frame) {
					if _, ok := f.m.(*msg.RqPeers); ok {
						p.send(f.seq, &msg.Peers{Feed: feed, List: []msg.PeerInfo{pinfo(3, 1), pinfo(5, 0)}})
					}
				})
				newListener(3, wGood)
				vsched.Idle()
				t.Share(feed)
				p.send(0, &msg.Sub{Feed: feed})
				vsched.Idle()
				s = must(t.JoinSwarm(feed, cfg))
				add(s, 3)
				vsched.Idle()
			})
			var fns []func()
			for _, a := range x {
				fns = append(fns, func() {
					if at > 0 {
						vsched.Sleep(at)
					}
					a.do(t, s, p)
				})
			}
			waitAll(fns...)
			vsched.Sleep(11 * time.Second)
			vsched.Idle()
			ps := s.Peers()
			if len(ps) > 2 {
				return fmt.Sprintf("%d peers, at most 2 are allowed", len(ps))
			}
			for _, x := range ps {
				if _, _, bad := known(msg.PeerInfo{PubKey: x.PubKey, Metadata: x.Metadata, TCPAddr: x.TCPAddr, UDPAddr: x.UDPAddr}); bad != "" {
					return bad
				}
				if x.RetryTimes > 4 {
					return fmt.Sprintf("%d failures to connect", x.RetryTimes)
				}
			}
			if !p.closed {
				n := len(p.got)
				p.send(0, &msg.RqPeers{Feed: feed})
				vsched.Idle()
				if len(p.since(n)) == 0 {
					return "requests are not served"
				}
			}
			return finish(t)
		}}
	}
	for i := range acts {
		for j := i; j < len(acts); j++ {
			if i == j && (i < 2 || i > 4) {
				continue
			}
			if j < len(acts)-1 {
				ms = append(ms, prog(0, acts[i], acts[j]))
			}
			if i < 4 || j > 5 {
				ms = append(ms, prog(5*time.Second, acts[i], acts[j]))
			}
		}
	}
	return
}

func n07(r *core.R) {
	r.Rule("a case is a history of calls, of announcements and requests of a peer, of time (ticks of the swarm) and of how peers meet the node, or a schedule of simultaneous ones; peers of the swarm, callbacks, replies and connections are compared with a model")
	exchange(r, 2, 2, r.Pick(3, 4), false, false)
	exchange(r, 3, 1, r.Pick(4, 4), true, false)
	exchange(r, 2, 2, r.Pick(3, 4), false, true)
	outgoing(r, 1, 10, r.Pick(5, 6))
	outgoing(r, 2, 10, r.Pick(4, 5))
	outgoing(r, 3, 3, r.Pick(4, 5))
	explore(r, swarmMeets(), true, r.Pick(5, 60), r.Pick(0, 1))
}
