package main

import (
	"fmt"
	"strings"

	"github.com/skycoin/net/factory"
	"github.com/skycoin/skycoin/src/cipher"

	"github.com/skycoin/cxo/node"
	"github.com/skycoin/cxo/skyobject/registry"

	"vmc/core"
)

const (
	oShare = iota
	oDont
	oConnect
	oDisconnect
	oSub
	oUnsub
	oIncoming // a peer connects to the node
	oAway     // a peer closes the connection
	oStranger // connects and says nothing
)

type op struct {
	name       string
	kind       int
	t, p, f    int
	rpcRefuses bool
}

var netNames = [2]string{"TCP", "UDP"}

func ops(deep bool) (os []op) {
	add := func(kind, t, p, f int, s string, args ...interface{}) {
		os = append(os, op{fmt.Sprintf(s, args...), kind, t, p, f, false})
	}
	for f := 0; f < 2; f++ {
		add(oShare, 0, 0, f, "Share feed%d", f)
		add(oDont, 0, 0, f, "DontShare feed%d", f)
	}
	for t, n := range netNames {
		for p := 0; p < 3; p++ {
			where := fmt.Sprint("node", p+1)
			if p == 2 {
				where = "nowhere"
			}
			add(oConnect, t, p, 0, "%s Connect %s", n, where)
			add(oDisconnect, t, p, 0, "%s Disconnect %s", n, where)
			for f := 0; f < 2; f++ {
				if p == 2 && f == 1 {
					continue
				}
				add(oSub, t, p, f, "%s Subscribe %s feed%d", n, where, f)
				add(oUnsub, t, p, f, "%s Unsubscribe %s feed%d", n, where, f)
			}
		}
		for p := 0; p < 2; p++ {
			add(oIncoming, t, p, 0, "node%d connects over %s", p+1, n)
		}
	}
	for p := 0; p < 2; p++ {
		add(oAway, 0, p, 0, "node%d closes connections", p+1)
	}
	add(oStranger, 0, 0, 0, "a stranger connects over TCP")
	add(oStranger, 1, 0, 0, "a stranger connects over UDP")
	return
}

// address of the connection with a peer, or of the peer
func (w *world) peerAddr(t, p int) string {
	if p == 2 {
		return nowhere
	}
	for _, c := range w.n.Connections() {
		if c.IsTCP() == (t == 0) && c.PeerID() == ids[1+p].pk {
			return c.Address()
		}
	}
	return w.addr(1+p, t)
}

const anyError = "error: *"

// do an operation, over RPC or locally; what returns is compared
func (w *world) do(o op, listens bool) (res string, ok bool) {
	var (
		err  error
		addr = w.peerAddr(o.t, o.p)
		pk   = owners[o.f].pk
	)
	switch o.kind {
	case oIncoming:
		if !listens {
			return "", false
		}
		if o.t == 0 {
			_, err = w.p[o.p].TCP().Connect(w.addr(0, 0))
		} else {
			_, err = w.p[o.p].UDP().Connect(w.addr(0, 1))
		}
		return errText(w, err), true
	case oAway:
		for _, c := range w.p[o.p].Connections() {
			if c.PeerID() == ids[0].pk {
				c.Close()
			}
		}
		await(func() bool { return len(w.p[o.p].Connections()) == 0 })
		return "", true
	case oStranger:
		if len(w.mute) == 2 {
			return "", false
		}
		x, y := factory.NewPipe(o.t == 0, fmt.Sprintf("w%d-stranger%d:1", w.id, len(w.mute)), "node0")
		w.mute = append(w.mute, x)
		if o.t == 0 {
			go w.n.TCP().AcceptedCallback(y)
		} else {
			go w.n.UDP().AcceptedCallback(y)
		}
		return "", true
	}
	if w.cli {
		return w.cliDo(o, addr, pk.Hex()), true
	}
	if w.c != nil {
		switch o.kind {
		case oShare:
			err = w.c.Node().Share(pk)
		case oDont:
			err = w.c.Node().DontShare(pk)
		case oConnect:
			if o.t == 0 {
				err = w.c.TCP().Connect(addr)
			} else {
				err = w.c.UDP().Connect(addr)
			}
		case oDisconnect:
			if o.t == 0 {
				err = w.c.TCP().Disconnect(addr)
			} else {
				err = w.c.UDP().Disconnect(addr)
			}
		case oSub:
			if o.t == 0 {
				err = w.c.TCP().Subscribe(addr, pk)
			} else {
				err = w.c.UDP().Subscribe(addr, pk)
			}
		case oUnsub:
			if o.t == 0 {
				err = w.c.TCP().Unsubscribe(addr, pk)
			} else {
				err = w.c.UDP().Unsubscribe(addr, pk)
			}
		}
		if err == nil && !w.done(o, addr) {
			return "success, but it isn't done yet", true
		}
		return errText(w, err), true
	}
	c := w.conn(o.t, addr)
	switch o.kind {
	case oShare:
		err = w.n.Share(pk)
	case oDont:
		err = w.n.DontShare(pk)
	case oConnect:
		if o.t == 0 {
			_, err = w.n.TCP().Connect(addr)
		} else {
			_, err = w.n.UDP().Connect(addr)
		}
	case oDisconnect:
		if c == nil {
			return "*", true // an error, or nothing to do
		}
		err = c.Close()
		await(func() bool { return w.conn(o.t, addr) == nil })
	case oSub:
		if c == nil {
			return anyError, true
		}
		err = c.Subscribe(pk)
	case oUnsub:
		if c == nil {
			return anyError, true
		}
		c.Unsubscribe(pk)
	}
	return errText(w, err), true
}

// done: the effect of a call is there when it returns
func (w *world) done(o op, addr string) bool {
	pk := owners[o.f].pk
	switch o.kind {
	case oShare, oDont:
		return w.n.IsSharing(pk) == (o.kind == oShare)
	case oConnect:
		return w.conn(o.t, addr) != nil
	case oSub, oUnsub:
		c, has := w.conn(o.t, addr), false
		if c != nil {
			for _, f := range c.Feeds() {
				has = has || f == pk
			}
		}
		return has == (o.kind == oSub)
	}
	return true
}

func sameResult(rpc, local string) bool {
	switch local {
	case "*":
		return true
	case anyError:
		return strings.HasPrefix(rpc, "error: ")
	}
	const hs = "error: handshake failed: " // the peer's refusal may be lost, when it closes the connection
	return rpc == local || strings.HasPrefix(rpc, hs) && strings.HasPrefix(local, hs)
}

func run(os []op, listens, cli bool, h []int) (s core.Step) {
	a, b := newWorld(true, listens), newWorld(false, listens)
	a.cli = cli
	defer func() {
		for _, w := range []*world{a, b} {
			if bad := w.close(); bad != "" && s.Bad == "" {
				s.Bad = bad
			}
		}
	}()
	for i, k := range h {
		o := os[k]
		x, ok := a.do(o, listens)
		y, _ := b.do(o, listens)
		if !ok {
			return
		}
		if !sameResult(x, y) {
			s.Key = "result of " + o.name[:strings.LastIndexByte(o.name, ' ')]
			s.Bad = fmt.Sprintf("after %d operations, %s returns %q over RPC and %q locally", i, o.name, x, y)
			return
		}
		if !await(func() bool { return b.agree() && a.state() == b.state() && a.agree() }) {
			s.Key = "effect of " + o.name[:strings.LastIndexByte(o.name, ' ')]
			s.Bad = fmt.Sprintf("after %d operations, after %s over RPC:\n%s\nafter the same locally:\n%s", i, o.name, a.state(), b.state())
			return
		}
	}
	look := a.look
	if cli {
		look = a.lookCLI
	}
	if bad := look(); bad != "" {
		s.Key, s.Bad = "look: "+strings.SplitN(bad, ":", 2)[0], bad
		return
	}
	s.Canon = a.state()
	return
}

var sels = []sel{{2, 1, 0}, {2, 1, 1}, {2, 2, 0}, {2, 1, 2}, {2, 2, 1}, {2, 3, 0}, {0, 1, 0}, {1, 0, 0}}

// look compares every answer of the RPC with the one of the local API
func (w *world) look() string {
	n, c := w.n, w.c.Node()
	fs, err := c.Feeds()
	if err != nil || feedNames(fs) != feedNames(n.Feeds()) {
		return fmt.Sprintf("Feeds: %s %v over RPC, %s locally", feedNames(fs), err, feedNames(n.Feeds()))
	}
	for i, o := range owners {
		if yep, err := c.IsSharing(o.pk); err != nil || yep != n.IsSharing(o.pk) {
			return fmt.Sprintf("IsSharing: feed%d: %v %v over RPC", i, yep, err)
		}
	}
	var have, rpc []string
	if !await(func() bool { // a stranger is noticed
		have = nil
		for _, x := range n.Connections() {
			have = append(have, x.String()+"(✓)")
		}
		for _, x := range w.mute {
			have = append(have, "↓ "+x.GetLocalAddr().Network()+"://"+x.GetLocalAddr().String()+"(⌛)")
		}
		rpc, err = c.Connections()
		return err != nil || fmt.Sprint(w.names(have)) == fmt.Sprint(w.names(rpc))
	}) || err != nil {
		return fmt.Sprintf("Connections: %v %v over RPC, %v locally", rpc, err, have)
	}
	for _, pk := range []cipher.PubKey{owners[0].pk, owners[1].pk, owners[2].pk, {}} {
		have = nil
		for _, x := range n.ConnectionsOfFeed(pk) {
			have = append(have, x.String())
		}
		if rpc, err = c.ConnectionsOfFeed(pk); err != nil || fmt.Sprint(w.names(have)) != fmt.Sprint(w.names(rpc)) {
			return fmt.Sprintf("ConnectionsOfFeed: %s: %v %v over RPC, %v locally", feedNames([]cipher.PubKey{pk}), rpc, err, have)
		}
	}
	conf, err := c.Config()
	if err != nil || !same(conf, n.Config()) {
		return fmt.Sprintf("Config: %+v %v over RPC, %+v locally", conf, err, n.Config())
	}
	var ls, ls2, rs *node.Stat
	if !await(func() bool {
		ls = n.Stat()
		rs, err = c.Stat()
		ls2 = n.Stat()
		return err != nil || same(rs, ls) || same(rs, ls2)
	}) || err != nil {
		return fmt.Sprintf("Stat: %+v %+v %v over RPC, %+v %+v locally", rs, rs.Stat, err, ls, ls.Stat)
	}
	for t, name := range netNames {
		var local string
		var have string
		if t == 0 {
			have, err = w.c.TCP().Address()
			local = n.TCP().Address()
		} else {
			have, err = w.c.UDP().Address()
			local = n.UDP().Address()
		}
		if have != local || err != nil && local != "" {
			return fmt.Sprintf("%s Address: %q %v over RPC, %q locally", name, have, err, local)
		}
		for p := 0; p < 3; p++ {
			addr := w.peerAddr(t, p)
			x := w.conn(t, addr)
			var lf, rf []cipher.PubKey
			lerr := fmt.Errorf("no such connection")
			if x != nil {
				lf, lerr = x.RemoteFeeds()
			}
			if t == 0 {
				rf, err = w.c.TCP().RemoteFeeds(addr)
			} else {
				rf, err = w.c.UDP().RemoteFeeds(addr)
			}
			if x == nil && err != nil {
				continue
			}
			if feedNames(rf) != feedNames(lf) || errText(w, err) != errText(w, lerr) {
				return fmt.Sprintf("%s RemoteFeeds of node%d: %s %v over RPC, %s %v locally", name, p+1, feedNames(rf), err, feedNames(lf), lerr)
			}
		}
	}
	return w.lookRoots()
}

func (w *world) lookRoots() string {
	c := w.n.Container()
	for _, s := range sels {
		pk := owners[s.f].pk
		lr, lerr := c.Root(pk, s.nonce, s.seq)
		rr, err := w.c.Root().Show(pk, s.nonce, s.seq)
		if errText(w, lerr) != errText(w, err) || err == nil && !same(lr, rr) {
			return fmt.Sprintf("Show: %+v: %+v %v over RPC, %+v %v locally", s, rr, err, lr, lerr)
		}
		tree := ""
		if lerr == nil {
			var p registry.Pack
			if p, lerr = c.Pack(lr, nil); lerr == nil {
				tree, lerr = lr.Tree(p)
			}
		}
		rt, err := w.c.Root().Tree(pk, s.nonce, s.seq)
		if errText(w, lerr) != errText(w, err) || rt != tree {
			return fmt.Sprintf("Tree: %+v: %q %v over RPC, %q %v locally", s, rt, err, tree, lerr)
		}
	}
	for i, o := range append(owners[:], ident{}) {
		lr, lerr := c.LastRoot(o.pk, c.ActiveHead(o.pk))
		rr, err := w.c.Root().Last(o.pk)
		if errText(w, lerr) != errText(w, err) || err == nil && !same(lr, rr) {
			return fmt.Sprintf("Last: feed%d: %+v %v over RPC, %+v %v locally", i, rr, err, lr, lerr)
		}
	}
	return ""
}

func n08(r *core.R) {
	r.Rule("every answer and effect of an RPC call is the one of the local call")
	r.Assume("the transports of the nodes are the in-memory stand-ins; the RPC uses the real net/rpc and loopback connections")
	sequences := func(listens, cli bool, depth int) {
		name := fmt.Sprintf("RPC, node listens=%v", listens)
		if cli {
			name = "cxocli"
		}
		if !want(name) {
			return
		}
		os := ops(r.Thorough())
		names := make([]string, len(os))
		for i, o := range os {
			names[i] = o.name
		}
		r.BFS(name, names, depth, true, func(h []int) core.Step { return run(os, listens, cli, h) })
	}
	sequences(true, false, r.Pick(4, 7))
	sequences(false, false, r.Pick(4, 6))
	sequences(true, true, r.Pick(3, 4))
	if want("commands") {
		commands(r)
	}
	if want("while") {
		during(r)
	}
}
