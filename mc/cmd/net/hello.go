package main

import (
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/skycoin/cxo/node"
	"github.com/skycoin/cxo/node/msg"

	"github.com/skycoin/net/factory"

	"vmc/core"
	"vmc/vsched"
)

// step of a handshake script
type hstep struct {
	name string
	send func(p *peer, rseq uint32) // nil: close
	// what the node does with it as the first message of an incoming, or of
	// an outgoing connection, or later
	in, out, later bool // it is fine
	wait           bool // silence
}

func hsteps() []hstep {
	syn := func(v uint16, id int) func(p *peer, _ uint32) {
		return func(p *peer, _ uint32) { p.send(0, &msg.Syn{Protocol: v, NodeID: ids[id].pk}) }
	}
	ack := func(id int, d uint32) func(p *peer, rseq uint32) {
		return func(p *peer, rseq uint32) { p.send(rseq+d, &msg.Ack{NodeID: ids[id].pk}) }
	}
	raw := func(b ...byte) func(p *peer, _ uint32) {
		return func(p *peer, _ uint32) { p.raw(b) }
	}
	return []hstep{
		{name: "Syn", send: syn(msg.Version, 2), in: true},
		{name: "Syn of an older version", send: syn(msg.Version-1, 2)},
		{name: "Syn of a newer version", send: syn(msg.Version+1, 2)},
		{name: "Syn of the node itself", send: syn(msg.Version, 0)},
		{name: "Syn of another peer", send: syn(msg.Version, 1)},
		{name: "Ack", send: ack(2, 0), out: true},
		{name: "Ack to something else", send: ack(2, 1)},
		{name: "Ack of the node itself", send: ack(0, 0)},
		{name: "Ack of another peer", send: ack(1, 0)},
		{name: "Err", send: func(p *peer, rseq uint32) { p.send(rseq, &msg.Err{Err: "no"}) }, later: true},
		{name: "Ok", send: func(p *peer, rseq uint32) { p.send(rseq, &msg.Ok{}) }, later: true},
		{name: "short frame", send: raw(1, 2, 3)},
		{name: "frame without a message", send: raw(1, 0, 0, 0, 0, 0, 0, 0)},
		{name: "empty frame", send: raw()},
		{name: "frame of an unknown type", send: raw(1, 0, 0, 0, 1, 0, 0, 0, 0xee)},
		{name: "cut Syn", send: raw(1, 0, 0, 0, 0, 0, 0, 0, 1, 3, 0, 7)},
		{name: "close"},
		{name: "silence", wait: true, later: true},
	}
}

const hTimeout = 10 * time.Second

// handshake script of a peer with identity 2; identity 1 is connected
func helloScript(steps []hstep, outgoing bool, timeout time.Duration, udp bool) (bad string) {
	return once(func() string {
		ds := map[string]int{} // connections by state of callbacks
		n := newNode(0, func(c *node.Config) {
			c.MaxConnections = 2
			c.MaxPendingConnections = 1
			c.TCP.ResponseTimeout = timeout
			c.OnConnect = func(c *node.Conn) error { ds["+"+idName(c.PeerID())]++; return nil }
			c.OnDisconnect = func(c *node.Conn, _ error) { ds["-"+idName(c.PeerID())]++ }
		})
		other := join(n, ids[1].pk, nil)
		vsched.Idle()
		if connOf(n, ids[1].pk) == nil {
			return "a well-behaved peer can't connect"
		}
		var p *peer
		var rseq uint32
		var out struct {
			c    *node.Conn
			err  error
			done bool
		}
		const addr = "127.0.0.1:9105"
		if outgoing {
			l := factory.NewTCPFactory()
			l.AcceptedCallback = func(y *factory.Connection) { p = newPeer(y, ids[2].pk, nil) }
			if err := l.Listen(addr); err != nil {
				return err.Error()
			}
			vsched.Go(func() {
				out.c, out.err = n.TCP().Connect(addr)
				out.done = true
			})
			vsched.Idle()
			if len(p.got) != 1 {
				return fmt.Sprintf("the node starts a handshake with %v", p.got)
			}
			if s, ok := p.got[0].m.(*msg.Syn); !ok || s.NodeID != ids[0].pk || s.Protocol != msg.Version {
				return fmt.Sprintf("the node starts a handshake with %v", p.got[0])
			}
			rseq = p.got[0].seq
		} else {
			p = dialFrom(n, "10.0.0.2:7", ids[2].pk, nil)
			vsched.Idle()
		}
		// pending, established or over
		const (
			pending = iota
			established
			over
		)
		state, was := pending, false
		for i, s := range steps {
			switch {
			case s.wait:
				vsched.Sleep(hTimeout + time.Second)
				if state == pending && timeout > 0 {
					state = over
				}
			case s.send == nil:
				p.close()
				state = over
			default:
				first := len(p.got)
				s.send(p, rseq)
				switch {
				case state == pending && (s.in && !outgoing || s.out && outgoing):
					state, was = established, true
				case state == pending || state == established && !s.later:
					state = over
				}
				vsched.Idle()
				if state == established && i == 0 && !outgoing {
					fs := p.since(first)
					if len(fs) != 1 {
						return fmt.Sprintf("the node answers the Syn with %v", fs)
					}
					if a, ok := fs[0].m.(*msg.Ack); !ok || a.NodeID != ids[0].pk || fs[0].rseq != p.seq {
						return fmt.Sprintf("the node answers the Syn with %v", fs[0])
					}
				}
			}
			vsched.Idle()
			c := connOf(n, ids[2].pk)
			switch {
			case state == established && (c == nil || p.closed):
				return fmt.Sprintf("no connection after %q", s.name)
			case state != established && c != nil:
				return fmt.Sprintf("connected after %q", s.name)
			case state == over && !p.closed:
				return fmt.Sprintf("the connection is not closed after %q", s.name)
			case state == pending && p.closed:
				return fmt.Sprintf("the handshake is over after %q", s.name)
			}
			if connOf(n, ids[1].pk) == nil || other.closed {
				return fmt.Sprintf("another connection is gone after %q", s.name)
			}
			if outgoing && out.done == (state == pending) {
				return fmt.Sprintf("Connect is over: %v after %q", out.done, s.name)
			}
			if outgoing && out.done && was != (out.err == nil) {
				return fmt.Sprintf("Connect returns %v after %q", out.err, s.name)
			}
		}
		// what counts against the limits now
		try := func(what string, want bool) string {
			f := join(n, ids[3].pk, nil)
			vsched.Idle()
			if have := connOf(n, ids[3].pk) != nil; have != want {
				return fmt.Sprintf("%s: a new peer is connected: %v", what, have)
			}
			f.close()
			vsched.Idle()
			return ""
		}
		if s := try("in the end", state == over); s != "" {
			return s
		}
		p.close()
		vsched.Idle()
		if s := try("after closing", true); s != "" {
			return s
		}
		// the same identity and address can connect again
		if !outgoing {
			p = dialFrom(n, "10.0.0.2:7", ids[2].pk, nil)
			p.send(0, &msg.Syn{Protocol: msg.Version, NodeID: ids[2].pk})
			vsched.Idle()
			if connOf(n, ids[2].pk) == nil {
				return "the peer can't connect again"
			}
			p.close()
		} else {
			vsched.Go(func() { out.c, out.err = n.TCP().Connect(addr) })
			vsched.Idle()
			p.send(p.got[0].seq, &msg.Ack{NodeID: ids[2].pk})
			vsched.Idle()
			if connOf(n, ids[2].pk) == nil {
				return fmt.Sprintf("can't connect to the peer again: %v", out.err)
			}
			p.close()
		}
		other.close()
		vsched.Idle()
		if len(n.Connections()) != 0 {
			return "closed connections are listed"
		}
		for _, id := range []string{"id1", "id2", "id3", "blank"} {
			if ds["+"+id] != ds["-"+id] {
				return fmt.Sprintf("%d times connected and %d times disconnected: %s", ds["+"+id], ds["-"+id], id)
			}
		}
		if s := n.end(); s != "" {
			return s
		}
		return leftovers()
	})
}

// n02 checks handshakes
func n02(r *core.R) {
	r.Rule("a case is a script of one peer, a history of several peers under small limits, or a schedule of simultaneous connections; a model says who is connected, who is refused, and what counts against the limits")
	st := hsteps()
	depth := r.Pick(2, 3)
	n := 0
	for _, outgoing := range []bool{false, true} {
		for _, tm := range []time.Duration{hTimeout, 0} {
			core.Seqs(len(st), 1, depth, func(h []int) bool {
				n++
				if n%max(r.Shards, 1) != r.Shard {
					return true
				}
				var ss []hstep
				var nm []string
				for _, i := range h {
					ss, nm = append(ss, st[i]), append(nm, st[i].name)
				}
				name := fmt.Sprintf("outgoing %v, timeout %v: %s", outgoing, tm, strings.Join(nm, ", "))
				var bad string
				if p := r.Guard(func() string { return name }, func() { bad = helloScript(ss, outgoing, tm, false) }); p != "" {
					bad = "panic: " + p
				}
				r.States.Add(1)
				r.Validated.Add(1)
				r.Transitions.Add(int64(len(h)))
				if bad != "" {
					r.Violate("script: "+key(bad), name+": "+bad, map[string]interface{}{"script": name})
				}
				return !r.Full() && !r.Expired()
			})
		}
	}
	if r.Expired() {
		r.Cap("time")
	} else {
		r.Bound("every handshake script of at most %d of %d steps, incoming and outgoing, with and without a timeout", depth, len(st))
	}
	limits(r)
	meetings(r)
}

func key(bad string) string {
	if i := strings.IndexByte(bad, '\n'); i > 0 {
		bad = bad[:i]
	}
	if i := strings.Index(bad, " after \""); i > 0 {
		bad = bad[:i]
	}
	return core.PanicKey(bad)
}

var errNo = errors.New("no")
