package main

import (
	"fmt"

	"github.com/skycoin/cxo/node"
	"github.com/skycoin/cxo/node/msg"

	"vmc/vsched"
)

// sideways: both ends of a connection say the same about a feed
func subAgree(a, b *tnode, f int) string {
	ca, cb := connOf(a, ids[b.i].pk), connOf(b, ids[a.i].pk)
	if (ca == nil) != (cb == nil) {
		return "one end is connected"
	}
	in := func(t *tnode, c *node.Conn) (x, y bool) {
		for _, pk := range c.Feeds() {
			x = x || pk == owners[f].pk
		}
		for _, d := range t.ConnectionsOfFeed(owners[f].pk) {
			y = y || d == c
		}
		return
	}
	if ca == nil {
		for _, t := range []*tnode{a, b} {
			if len(t.ConnectionsOfFeed(owners[f].pk)) != 0 {
				return "a closed connection is subscribed"
			}
		}
		return ""
	}
	ax, ay := in(a, ca)
	bx, by := in(b, cb)
	if ax != ay || bx != by {
		return "Feeds of a connection and connections of a feed disagree"
	}
	if ax != bx {
		return fmt.Sprintf("node %d is subscribed: %v, node %d: %v", a.i, ax, b.i, bx)
	}
	if ax && (!a.IsSharing(owners[f].pk) || !b.IsSharing(owners[f].pk)) {
		return "subscribed to a feed that is not shared"
	}
	return ""
}

// subMeets are simultaneous changes of subscriptions
func subMeets() (ms []meet) {
	feed := owners[0].pk
	type act struct {
		name string
		side int
		do   func(t *tnode, c *node.Conn)
	}
	acts := func(side int) []act {
		s := fmt.Sprintf(" of node %d", side)
		return []act{
			{"Subscribe" + s, side, func(t *tnode, c *node.Conn) { c.Subscribe(feed) }},
			{"Unsubscribe" + s, side, func(t *tnode, c *node.Conn) { c.Unsubscribe(feed) }},
			{"DontShare" + s, side, func(t *tnode, c *node.Conn) { t.DontShare(feed) }},
			{"Share" + s, side, func(t *tnode, c *node.Conn) { t.Share(feed) }},
			{"Close of a connection" + s, side, func(t *tnode, c *node.Conn) { c.Close() }},
			{"Publish" + s, side, func(t *tnode, c *node.Conn) { t.Publish(remoteRoot(0, 7, 0, 3)) }},
		}
	}
	a0, a1 := acts(0), acts(1)
	prog := func(start int, x ...act) meet {
		name := [...]string{"not shared", "shared", "subscribed"}[start] + ": "
		for i, a := range x {
			if i > 0 {
				name += " | "
			}
			name += a.name
		}
		return meet{name: name, bound: 1, run: func() string {
			var ts [2]*tnode
			var cs [2]*node.Conn
			var bad string
			free(func() {
				ts[0], ts[1] = newNode(0, nil), newNode(1, nil)
				c, err := ts[0].TCP().Connect(nodeAddr(1))
				if err != nil {
					bad = err.Error()
					return
				}
				vsched.Idle()
				cs[0], cs[1] = c, connOf(ts[1], ids[0].pk)
				if start > 0 {
					ts[0].Share(feed)
					ts[1].Share(feed)
				}
				if start > 1 {
					if err := c.Subscribe(feed); err != nil {
						bad = err.Error()
					}
				}
			})
			if bad != "" {
				return bad
			}
			var fns []func()
			for _, a := range x {
				fns = append(fns, func() { a.do(ts[a.side], cs[a.side]) })
			}
			waitAll(fns...)
			vsched.Idle()
			if s := subAgree(ts[0], ts[1], 0); s != "" {
				return s
			}
			if s := subAgree(ts[1], ts[0], 0); s != "" {
				return s
			}
			return finish(ts[0], ts[1])
		}}
	}
	for start := 0; start < 3; start++ {
		for i := 0; i < len(a0); i++ {
			for j := 0; j < len(a1); j++ {
				if i >= 3 && j >= 3 && i != 4 && j != 4 {
					continue
				}
				if j < i && start != 1 {
					continue // the sides differ only in who connected
				}
				ms = append(ms, prog(start, a0[i], a1[j]))
			}
			for j := i + 1; j < len(a0); j++ {
				if start == 0 && i > 0 {
					continue
				}
				ms = append(ms, prog(start, a0[i], a0[j]))
			}
		}
	}
	// a peer subscribes while the node stops sharing
	ms = append(ms, meet{name: "Sub of a peer | DontShare", bound: 2, run: func() string {
		var t *tnode
		var p *peer
		free(func() { t = newNode(0, nil); t.Share(feed); p = join(t, ids[2].pk, nil) })
		waitAll(func() { p.send(0, &msg.Sub{Feed: feed}) }, func() { t.DontShare(feed) })
		vsched.Idle()
		told := false
		for _, f := range p.got {
			switch f.m.(type) {
			case *msg.Ok:
				told = true
			case *msg.Unsub:
				told = false
			}
		}
		if told {
			return "the peer is told that it is subscribed to a feed that is not shared"
		}
		if len(t.ConnectionsOfFeed(feed)) != 0 || t.IsSharing(feed) {
			return "the feed is still shared"
		}
		return finish(t)
	}})
	return
}
