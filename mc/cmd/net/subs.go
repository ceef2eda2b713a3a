package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/skycoin/skycoin/src/cipher"

	"github.com/skycoin/cxo/node"
	"github.com/skycoin/cxo/node/msg"
	"github.com/skycoin/cxo/skyobject/registry"

	"vmc/core"
	"vmc/vsched"
)

// smodel is what subscriptions should be
type smodel struct {
	open   [2]bool
	shared [2]bool
	sub    [2][2]bool // connection, feed
	seq    [2]uint64  // number of roots in the container
}

func (m *smodel) canon() string {
	return fmt.Sprint(m.open, m.shared, m.sub, m.seq[0] > 0, m.seq[1] > 0)
}

// expected of an event: messages to every peer, result of a call
type sexp struct {
	msgs    [2][]string
	err     string // "" no call or success
	closes  bool   // the connection
	unsubCB bool   // OnUnsubscribeRemote is called
}

type sop struct {
	name string
	kind int
	c, f int
}

const (
	oShare = iota
	oDontShare
	oSub       // Subscribe, accepted
	oSubNo     // refused
	oSubSilent // not answered
	oSubNoise  // answered with something else
	oUnsub
	oRemoteSub
	oRemoteUnsub
	oRemoteBlank
	oRemoteBlankUn
	oLeave
	oLeave2 // the node closes
	oJoin
	oPublish
	oList
)

// configurations of a node
type sconf struct {
	name   string
	public bool
	cb     int // OnSubscribeRemote: 0 none, 1 accepts, 2 refuses feed 1, 3 shares feed 1
}

func (m *smodel) root(f int) string { return fmt.Sprintf("Root(feed%d,%d)", f, m.seq[f]-1) }

// step of the model; false if the event is not possible
func (m *smodel) step(cf sconf, o sop) (e sexp, ok bool) {
	say := func(c int, s string) { e.msgs[c] = append(e.msgs[c], s) }
	fd := fmt.Sprintf("(feed%d)", o.f)
	switch o.kind {
	case oShare:
		m.shared[o.f] = true
	case oDontShare:
		for c := range m.sub {
			if m.sub[c][o.f] {
				say(c, "Unsub"+fd)
				m.sub[c][o.f] = false
			}
		}
		m.shared[o.f] = false
	case oSub, oSubNo, oSubSilent, oSubNoise:
		m.shared[o.f] = true
		if !m.open[o.c] {
			e.err = "closed"
			break
		}
		say(o.c, "Sub"+fd)
		switch o.kind {
		case oSub:
			if m.sub[o.c][o.f] = true; m.seq[o.f] > 0 {
				say(o.c, m.root(o.f))
			}
		case oSubNo:
			e.err, m.sub[o.c][o.f] = "refused", false
		case oSubSilent:
			if e.err = "timeout"; !m.sub[o.c][o.f] {
				say(o.c, "Unsub"+fd)
			}
		case oSubNoise:
			e.err, m.sub[o.c][o.f] = "invalid response type", false
		}
	case oUnsub:
		if !m.open[o.c] {
			return
		}
		say(o.c, "Unsub"+fd)
		m.sub[o.c][o.f] = false
	case oRemoteSub:
		if !m.open[o.c] {
			return
		}
		if m.sub[o.c][o.f] {
			say(o.c, "Ok")
			break
		}
		if cf.cb == 2 && o.f == 1 {
			say(o.c, "Err(no)")
			break
		}
		if cf.cb == 3 && o.f == 1 {
			m.shared[1] = true
		}
		if !m.shared[o.f] {
			say(o.c, "Err(do not share the feed)")
			break
		}
		m.sub[o.c][o.f] = true
		say(o.c, "Ok")
		if m.seq[o.f] > 0 {
			say(o.c, m.root(o.f))
		}
	case oRemoteUnsub:
		if !m.open[o.c] {
			return
		}
		e.unsubCB = m.sub[o.c][o.f]
		m.sub[o.c][o.f] = false
	case oRemoteBlank, oRemoteBlankUn, oLeave, oLeave2:
		if !m.open[o.c] {
			return
		}
		m.open[o.c], m.sub[o.c] = false, [2]bool{}
	case oJoin:
		if m.open[o.c] {
			return
		}
		m.open[o.c] = true
		say(o.c, "Ack")
	case oPublish:
		m.seq[o.f]++
		for c := range m.sub {
			if m.sub[c][o.f] {
				say(c, m.root(o.f))
			}
		}
	case oList:
		if !m.open[o.c] {
			return
		}
		if !cf.public {
			say(o.c, "Err(not a public server)")
			break
		}
		say(o.c, "List("+m.feeds(func(f int) bool { return m.shared[f] })+")")
	}
	return e, true
}

func (m *smodel) feeds(is func(f int) bool) string {
	var fs []string
	for f := range m.shared {
		if is(f) {
			fs = append(fs, fmt.Sprint("feed", f))
		}
	}
	return strings.Join(fs, ",")
}

func sops() (ops []sop) {
	add := func(kind int, name string, perC, perF bool) {
		for c := 0; c < 2; c++ {
			for f := 0; f < 2; f++ {
				if c > 0 && !perC || f > 0 && !perF {
					continue
				}
				n := name
				if perC {
					n += fmt.Sprintf(" peer %d", c)
				}
				if perF {
					n += fmt.Sprintf(" feed %d", f)
				}
				ops = append(ops, sop{n, kind, c, f})
			}
		}
	}
	add(oShare, "Share", false, true)
	add(oDontShare, "DontShare", false, true)
	add(oSub, "Subscribe", true, true)
	add(oSubNo, "Subscribe (refused)", true, true)
	add(oSubSilent, "Subscribe (not answered)", true, true)
	add(oSubNoise, "Subscribe (wrong answer)", true, true)
	add(oUnsub, "Unsubscribe", true, true)
	add(oRemoteSub, "Sub of", true, true)
	add(oRemoteUnsub, "Unsub of", true, true)
	add(oRemoteBlank, "blank Sub of", true, false)
	add(oRemoteBlankUn, "blank Unsub of", true, false)
	add(oLeave, "leaves", true, false)
	add(oLeave2, "the node disconnects", true, false)
	add(oJoin, "joins", true, false)
	add(oPublish, "Publish", false, true)
	add(oList, "list of feeds to", true, false)
	return
}

// msgName describes a message
func msgName(f frame) string {
	switch m := f.m.(type) {
	case *msg.Sub:
		return "Sub(" + idName(m.Feed) + ")"
	case *msg.Unsub:
		return "Unsub(" + idName(m.Feed) + ")"
	case *msg.Root:
		r, err := registry.DecodeRoot(m.Value)
		if err != nil || r.Pub != m.Feed || r.Seq != m.Seq || r.Nonce != m.Nonce {
			return "broken Root"
		}
		return fmt.Sprintf("Root(%s,%d)", idName(m.Feed), m.Seq)
	case *msg.List:
		return "List(" + names(m.Feeds) + ")"
	case *msg.RqObject:
		n, ok := objName[m.Key]
		if !ok {
			n = m.Key.Hex()[:8]
		}
		return "RqObject(" + n + ")"
	}
	return f.String()
}

// publisher stores roots of a feed in a container
func saveRoot(t *tnode, f int, k int) *registry.Root {
	pk := owners[f].pk
	if err := t.c.AddFeed(pk); err != nil {
		panic("harness: " + err.Error())
	}
	up := must(t.c.Unpack(owners[f].sk, reg))
	defer up.Close()
	for _, h := range contObjs[k] {
		if err := up.Set(h, append([]byte(nil), objects[h]...)); err != nil {
			panic("harness: " + err.Error())
		}
	}
	r := &registry.Root{Pub: pk, Nonce: 7, Refs: contents[k]}
	if err := t.c.Save(up, r); err != nil {
		panic("harness: " + err.Error())
	}
	return r
}

func subsRun(cf sconf, ops []sop, h []int) (bad string) {
	return once(func() string {
		var t *tnode
		unsubs := 0
		t = newNode(0, func(c *node.Config) {
			c.Public = cf.public
			if cf.cb > 0 {
				c.OnSubscribeRemote = func(c *node.Conn, f cipher.PubKey) error {
					if f == owners[1].pk && cf.cb == 2 {
						return errNo
					}
					if f == owners[1].pk && cf.cb == 3 {
						return c.Node().Share(f)
					}
					return nil
				}
			}
			c.OnUnsubscribeRemote = func(c *node.Conn, f cipher.PubKey) { unsubs++ }
		})
		var ps [2]*peer
		mode := 0
		enter := func(c int) {
			ps[c] = join(t, ids[2+c].pk, func(p *peer, f frame) {
				if m, ok := f.m.(*msg.Sub); ok {
					switch mode {
					case oSub:
						p.send(f.seq, &msg.Ok{})
					case oSubNo:
						p.send(f.seq, &msg.Err{Err: "refused"})
					case oSubNoise:
						p.send(f.seq, &msg.List{Feeds: []cipher.PubKey{m.Feed}})
					}
				}
			})
			vsched.Idle()
		}
		enter(0)
		enter(1)
		conns := [2]*node.Conn{connOf(t, ids[2].pk), connOf(t, ids[3].pk)}
		m := smodel{open: [2]bool{true, true}}
		for _, i := range h {
			o := ops[i]
			var n [2]int
			for c := range ps {
				n[c] = len(ps[c].got)
			}
			u := unsubs
			e, _ := m.step(cf, o)
			feed := owners[o.f].pk
			var err error
			mode = o.kind
			switch o.kind {
			case oShare:
				err = t.Share(feed)
			case oDontShare:
				err = t.DontShare(feed)
			case oSub, oSubNo, oSubSilent, oSubNoise:
				err = conns[o.c].Subscribe(feed)
			case oUnsub:
				conns[o.c].Unsubscribe(feed)
			case oRemoteSub:
				ps[o.c].send(0, &msg.Sub{Feed: feed})
			case oRemoteUnsub:
				ps[o.c].send(0, &msg.Unsub{Feed: feed})
			case oRemoteBlank:
				ps[o.c].send(0, &msg.Sub{})
			case oRemoteBlankUn:
				ps[o.c].send(0, &msg.Unsub{})
			case oLeave:
				ps[o.c].close()
			case oLeave2:
				conns[o.c].Close()
			case oJoin:
				n[o.c] = 0
				enter(o.c)
				conns[o.c] = connOf(t, ids[2+o.c].pk)
			case oPublish:
				t.Publish(saveRoot(t, o.f, 0))
			case oList:
				ps[o.c].send(0, &msg.RqList{})
			}
			vsched.Idle()
			es := ""
			if err != nil {
				es = err.Error()
			}
			if (e.err == "") != (es == "") || !strings.HasPrefix(es, e.err) {
				return fmt.Sprintf("returns %q instead of %q after %q", es, e.err, o.name)
			}
			if (unsubs-u == 1) != e.unsubCB {
				return fmt.Sprintf("OnUnsubscribeRemote is called %d times after %q", unsubs-u, o.name)
			}
			for c := range ps {
				var got []string
				for _, f := range ps[c].since(n[c]) {
					got = append(got, msgName(f))
				}
				if fmt.Sprint(got) != fmt.Sprint(e.msgs[c]) {
					return fmt.Sprintf("peer %d gets %v instead of %v after %q", c, got, e.msgs[c], o.name)
				}
			}
			if s := subsLook(t, &m, ps, conns); s != "" {
				return s + fmt.Sprintf(" after %q", o.name)
			}
		}
		if s := t.end(); s != "" {
			return s
		}
		return leftovers()
	})
}

// subsLook compares everything a node tells with the model
func subsLook(t *tnode, m *smodel, ps [2]*peer, conns [2]*node.Conn) string {
	if have, want := names(t.Feeds()), m.feeds(func(f int) bool { return m.shared[f] }); have != want {
		return fmt.Sprintf("Feeds returns %q instead of %q", have, want)
	}
	ofFeed := func(pk cipher.PubKey) string {
		var ss []string
		for _, c := range t.ConnectionsOfFeed(pk) {
			n := "a closed one"
			for i := range conns {
				if conns[i] == c {
					n = fmt.Sprint(i)
				}
			}
			ss = append(ss, n)
		}
		sort.Strings(ss)
		return strings.Join(ss, ",")
	}
	conOf := func(is func(c int) bool) string {
		var ss []string
		for c := range conns {
			if is(c) {
				ss = append(ss, fmt.Sprint(c))
			}
		}
		return strings.Join(ss, ",")
	}
	for f := range m.shared {
		if t.IsSharing(owners[f].pk) != m.shared[f] {
			return fmt.Sprintf("IsSharing of feed %d is %v", f, !m.shared[f])
		}
		if have, want := ofFeed(owners[f].pk), conOf(func(c int) bool { return m.sub[c][f] }); have != want {
			return fmt.Sprintf("connections of feed %d are %q instead of %q", f, have, want)
		}
	}
	if have, want := ofFeed(cipher.PubKey{}), conOf(func(c int) bool { return m.open[c] && !m.sub[c][0] && !m.sub[c][1] }); have != want {
		return fmt.Sprintf("connections without a feed are %q instead of %q", have, want)
	}
	open := 0
	for c := range conns {
		if have, want := names(conns[c].Feeds()), m.feeds(func(f int) bool { return m.sub[c][f] }); have != want {
			return fmt.Sprintf("feeds of connection %d are %q instead of %q", c, have, want)
		}
		if ps[c].closed == m.open[c] {
			return fmt.Sprintf("connection %d is closed: %v", c, ps[c].closed)
		}
		if m.open[c] {
			open++
		}
	}
	if len(t.Connections()) != open {
		return fmt.Sprintf("%d connections instead of %d", len(t.Connections()), open)
	}
	return ""
}

// histories of a model: one history to every reachable state, followed by
// every sequence of tail events; and every sequence of depth events
func replays(r *core.R, name string, nops, tail, depth int, show func(h []int) string, canon func(h []int) (string, bool), run func(h []int) string) {
	var reps [][]int
	seen := map[string]bool{}
	front := [][]int{nil}
	c0, _ := canon(nil)
	seen[c0] = true
	reps = append(reps, nil)
	for len(front) > 0 {
		var next [][]int
		for _, h := range front {
			for o := 0; o < nops; o++ {
				g := append(append([]int(nil), h...), o)
				if c, ok := canon(g); ok && !seen[c] {
					seen[c] = true
					next = append(next, g)
				}
			}
		}
		reps = append(reps, next...)
		front = next
	}
	n, ran := 0, 0
	do := func(h []int) bool {
		if _, ok := canon(h); !ok {
			return true
		}
		if n++; n%max(r.Shards, 1) != r.Shard {
			return true
		}
		h = append([]int(nil), h...)
		var bad string
		if p := r.Guard(func() string { return name + ": " + show(h) }, func() { bad = run(h) }); p != "" {
			bad = "panic: " + p
		}
		ran++
		r.Validated.Add(1)
		r.Transitions.Add(int64(len(h)))
		if bad != "" {
			r.Violate(name+": "+key(bad), show(h)+": "+bad, map[string]interface{}{"history": show(h)})
		}
		return !r.Full() && !r.Expired()
	}
	ok := true
	for _, h := range reps {
		core.Seqs(nops, tail, tail, func(t []int) bool {
			ok = do(append(append([]int(nil), h...), t...))
			return ok
		})
		if !ok {
			break
		}
	}
	if r.Shard == 0 {
		r.States.Add(int64(len(reps)))
	}
	if ok {
		core.Seqs(nops, depth, depth, func(h []int) bool { ok = do(h); return ok })
	}
	if !ok && r.Expired() {
		r.Cap(name + ": time")
		return
	}
	if r.Shard == 0 {
		r.Bound("%s: every sequence of %d events from each of %d states of the model, and every sequence of %d events; %d histories (all processes), %d events", name, tail, len(reps), depth, n, nops)
	}
}

func n03(r *core.R) {
	r.Rule("a case is a history of calls and of messages of two peers over two feeds, replayed from the model of subscriptions (every state and transition of it), or a schedule of simultaneous ones; lists of feeds, of connections, and every message to the peers are compared")
	ops := sops()
	confs := []sconf{{"a public node", true, 0}, {"callbacks refuse a feed", false, 2}, {"callbacks share a feed", true, 3}}
	if r.Thorough() {
		confs = append(confs, sconf{"callbacks accept", false, 1})
	}
	for i, cf := range confs {
		tail := 1
		if i == 0 || r.Thorough() {
			tail = 2
		}
		replays(r, cf.name, len(ops), tail, r.Pick(2, 3), func(h []int) string {
			var ss []string
			for _, i := range h {
				ss = append(ss, ops[i].name)
			}
			return strings.Join(ss, "; ")
		}, func(h []int) (string, bool) {
			m := smodel{open: [2]bool{true, true}}
			for _, i := range h {
				if _, ok := m.step(cf, ops[i]); !ok {
					return "", false
				}
			}
			return m.canon(), true
		}, func(h []int) string { return subsRun(cf, ops, h) })
	}
	explore(r, subMeets(), true, r.Pick(7, 60), r.Pick(0, 1))
}
