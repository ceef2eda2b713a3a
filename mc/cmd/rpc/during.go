package main

import (
	"fmt"
	"net"
	"time"

	"github.com/skycoin/net/factory"

	"github.com/skycoin/cxo/node"

	"vmc/core"
)

// calls of every method, whatever they return
func allCalls(w *world, c *node.RPCClient) (names []string, fns []func()) {
	add := func(name string, fn func()) { names, fns = append(names, name), append(fns, fn) }
	pk, p2 := owners[0].pk, owners[2].pk
	add("Share", func() { c.Node().Share(pk) })
	add("DontShare", func() { c.Node().DontShare(pk) })
	add("Feeds", func() { c.Node().Feeds() })
	add("IsSharing", func() { c.Node().IsSharing(pk) })
	add("Connections", func() { c.Node().Connections() })
	add("ConnectionsOfFeed", func() { c.Node().ConnectionsOfFeed(pk) })
	add("Config", func() { c.Node().Config() })
	add("Stat", func() { c.Node().Stat() })
	add("TCP Connect", func() { c.TCP().Connect(w.addr(1, 0)) })
	add("TCP Subscribe", func() { c.TCP().Subscribe(w.addr(1, 0), pk) })
	add("TCP RemoteFeeds", func() { c.TCP().RemoteFeeds(w.addr(1, 0)) })
	add("TCP Unsubscribe", func() { c.TCP().Unsubscribe(w.addr(1, 0), pk) })
	add("TCP Disconnect", func() { c.TCP().Disconnect(w.addr(1, 0)) })
	add("TCP Address", func() { c.TCP().Address() })
	add("UDP Connect", func() { c.UDP().Connect(w.addr(2, 1)) })
	add("UDP Subscribe", func() { c.UDP().Subscribe(w.addr(2, 1), pk) })
	add("UDP RemoteFeeds", func() { c.UDP().RemoteFeeds(w.addr(2, 1)) })
	add("UDP Unsubscribe", func() { c.UDP().Unsubscribe(w.addr(2, 1), pk) })
	add("UDP Disconnect", func() { c.UDP().Disconnect(w.addr(2, 1)) })
	add("UDP Address", func() { c.UDP().Address() })
	add("Show", func() { c.Root().Show(p2, 1, 0) })
	add("Tree", func() { c.Root().Tree(p2, 1, 0) })
	add("Last", func() { c.Root().Last(p2) })
	return
}

func returns(fn func()) bool {
	done := make(chan struct{})
	go func() { defer close(done); fn() }()
	select {
	case <-done:
		return true
	case <-time.After(8 * time.Second):
		return false
	}
}

// during a call that takes long, after the node is closed, and after nonsense
func during(r *core.R) {
	n := 0
	one := func(name string, fn func() string) {
		n++
		core.Case(name)
		bad := ""
		if p := r.Guard(func() string { return name }, func() { bad = fn() }); p != "" {
			bad = p
		}
		if bad != "" {
			r.Violate("while: "+name, name+": "+bad, nil)
		}
		r.Validated.Add(1)
	}
	// the peer doesn't answer
	for t, tn := range netNames {
		for _, what := range []string{"Connect", "Subscribe"} {
			one("during "+tn+" "+what, func() string {
				w := newWorld(true, true)
				silent := w.addr(9, t)
				var stop func() error
				if t == 0 {
					f := factory.NewTCPFactory()
					stop = f.Close
					f.Listen(silent)
				} else {
					f := factory.NewUDPFactory()
					stop = f.Close
					f.Listen(silent)
				}
				defer stop()
				blocked := make(chan error, 1)
				hold := make(chan struct{})
				switch what {
				case "Connect":
					go func() {
						if t == 0 {
							blocked <- w.c.TCP().Connect(silent)
						} else {
							blocked <- w.c.UDP().Connect(silent)
						}
					}()
				case "Subscribe":
					// the callback of the peer waits
					q := newNode(1, "", fakeStore, func(c *node.Config) {
						c.Public = true
						c.OnSubscribeRemote = func(*node.Conn, pubKey) error { <-hold; return nil }
					})
					defer q.Close()
					w.p[0].Close()
					w.p[0] = q
					var err error
					if t == 0 {
						_, err = q.TCP().Connect(w.addr(0, 0))
					} else {
						_, err = q.UDP().Connect(w.addr(0, 1))
					}
					if err != nil {
						return "harness: " + err.Error()
					}
					if !await(func() bool { return len(w.n.Connections()) == 1 }) {
						return "no connection"
					}
					go func() {
						if t == 0 {
							blocked <- w.c.TCP().Subscribe(w.peerAddr(t, 0), owners[0].pk)
						} else {
							blocked <- w.c.UDP().Subscribe(w.peerAddr(t, 0), owners[0].pk)
						}
					}()
				}
				time.Sleep(20 * time.Millisecond)
				select {
				case err := <-blocked:
					return fmt.Sprintf("the call returned %v", err)
				default:
				}
				other := must(node.NewRPCClient(w.rpc))
				defer other.Close()
				for i, c := range []*node.RPCClient{w.c, other} {
					names, fns := allCalls(w, c)
					for k, fn := range fns {
						if what == "Subscribe" && (names[k] == "TCP RemoteFeeds" || names[k] == "UDP RemoteFeeds") {
							continue // waits for the same peer
						}
						if !returns(fn) {
							return fmt.Sprintf("%s of client %d doesn't return", names[k], i)
						}
					}
				}
				close(hold)
				if !returns(func() { w.close() }) {
					return "Close doesn't return"
				}
				return ""
			})
		}
	}
	// after the node is closed; with a store that is closed then
	one("after Close", func() string {
		w := newWorld(true, true)
		defer w.close()
		c := must(node.NewRPCClient(w.rpc))
		defer c.Close()
		if err := w.n.Close(); err != nil {
			return err.Error()
		}
		names, fns := allCalls(w, c)
		for k, fn := range fns {
			if !returns(fn) {
				return names[k] + " doesn't return"
			}
		}
		if cs := w.n.Connections(); len(cs) > 0 {
			return fmt.Sprint("connections: ", cs)
		}
		if x, err := node.NewRPCClient(w.rpc); err == nil {
			x.Close()
			return "the RPC is still listening"
		}
		return ""
	})
	// nonsense, then everything works
	for _, msg := range nonsense() {
		one(fmt.Sprintf("after nonsense %.20q", msg), func() string {
			w := newWorld(true, true)
			defer w.close()
			x, err := net.Dial("tcp", w.rpc)
			if err != nil {
				return err.Error()
			}
			x.Write([]byte(msg))
			x.(*net.TCPConn).CloseWrite()
			x.SetReadDeadline(time.Now().Add(2 * time.Second))
			buf := make([]byte, 1024)
			for {
				if _, err := x.Read(buf); err != nil {
					break
				}
			}
			x.Close()
			if bad := w.look(); bad != "" {
				return bad
			}
			return ""
		})
	}
	r.Bound("while: %d situations (calls that wait for a peer, a closed node, nonsense from another client), every method of the RPC in each", n)
}
