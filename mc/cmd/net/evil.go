package main

import (
	"fmt"
	"time"

	"github.com/skycoin/skycoin/src/cipher"
	"github.com/skycoin/skycoin/src/cipher/encoder"

	"github.com/skycoin/cxo/node"
	"github.com/skycoin/cxo/node/msg"
	"github.com/skycoin/cxo/skyobject/registry"

	"vmc/core"
	"vmc/vsched"
)

// Peers that misbehave: every sequence of frames to a depth, from several
// states of a connection; other connections and local calls keep working,
// and only authentic complete roots are kept

// roots the owner signed, that can't be filled or make no sense
const (
	kLarge   = 4 + iota // an object larger than allowed
	kBroken             // an object that can't be decoded
	kBadReg             // a registry that can't be decoded
	kNoReg              // no registry
	kNoSchem            // a schema that is not in the registry
)

const farName = "Root of a far future"

var badReg = []byte{1, 2, 3}

// called by init of world.go
func evilInit() {
	leaf := must(reg.SchemaByName("test.Leaf")).Reference()
	pair := must(reg.SchemaByName("test.Pair")).Reference()
	obj := func(name string, b []byte) hash {
		h := cipher.SumSHA256(b)
		objects[h], objName[h] = b, name
		return h
	}
	add := func(h hash, d registry.SchemaRef) {
		contents, contObjs = append(contents, []registry.Dynamic{{Hash: h, Schema: d}}), append(contObjs, []hash{h})
	}
	add(obj("large", make([]byte, 5000)), leaf)
	add(obj("broken", []byte{7}), pair)
	add(obj("leaf7", encoder.Serialize(Leaf{7})), leaf)
	add(obj("leaf8", encoder.Serialize(Leaf{8})), leaf)
	add(obj("leaf9", encoder.Serialize(Leaf{9})), registry.SchemaRef(cipher.SumSHA256([]byte("x"))))
	objects[cipher.SumSHA256(badReg)], objName[cipher.SumSHA256(badReg)] = badReg, "bad registry"
}

func evilRoot(seq uint64, k int) *registry.Root {
	r := remoteRoot(0, 7, seq, k)
	switch k {
	case kBadReg:
		r.Reg = registry.RegistryRef(cipher.SumSHA256(badReg))
	case kNoReg:
		r.Reg = registry.RegistryRef{}
	}
	r.Hash = cipher.SumSHA256(r.Encode())
	r.Sig = must(cipher.SignHash(r.Hash, owners[0].sk))
	return r
}

// move of a peer
type move struct {
	name string
	do   func(e *evil)
}

// evil peer and the node it plays with
type evil struct {
	t *tnode
	*peer
	asked []frame // for objects
}

// last request of the node, rseq of nothing if there is none
func (e *evil) last() (rseq uint32, key hash) {
	if len(e.asked) == 0 {
		return 0xfffffff0, hash{}
	}
	f := e.asked[len(e.asked)-1]
	return f.seq, f.m.(*msg.RqObject).Key
}

func moves() (ms []move) {
	say := func(name string, m msg.Msg) { ms = append(ms, move{name, func(e *evil) { e.send(0, m) }}) }
	raw := func(name string, b []byte) { ms = append(ms, move{name, func(e *evil) { e.raw(b) }}) }
	f0, f1 := owners[0].pk, owners[1].pk
	say("Sub", &msg.Sub{Feed: f0})
	say("Sub of another feed", &msg.Sub{Feed: f1})
	say("blank Sub", &msg.Sub{})
	say("Unsub", &msg.Unsub{Feed: f0})
	say("blank Unsub", &msg.Unsub{})
	say("RqList", &msg.RqList{})
	say("List", &msg.List{Feeds: []cipher.PubKey{f1}})
	say("Ok", &msg.Ok{})
	say("Err", &msg.Err{Err: "%s"})
	say("Object", &msg.Object{Value: []byte("object")})
	say("Object without a value", &msg.Object{})
	say("Peers", &msg.Peers{Feed: f0, List: []msg.PeerInfo{pinfo(3, 0)}})
	say("RqPeers", &msg.RqPeers{Feed: f0})
	say("RqPreview", &msg.RqPreview{Feed: f0})
	say("RqPreview of a blank feed", &msg.RqPreview{})
	say("Syn", &msg.Syn{Protocol: msg.Version, NodeID: ids[3].pk})
	say("Ack", &msg.Ack{NodeID: ids[4].pk})
	for h, n := range objName {
		if n == "leaf0" {
			say("RqObject", &msg.RqObject{Key: h})
		}
	}
	say("RqObject of nothing", &msg.RqObject{Key: cipher.SumSHA256([]byte("nothing"))})
	say("blank RqObject", &msg.RqObject{})
	for _, r := range []struct {
		k    int
		name string
	}{{1, "Root"}, {kLarge, "Root with a large object"}, {kBroken, "Root with a broken object"}, {kBadReg, "Root with a broken registry"}, {kNoReg, "Root without a registry"}, {kNoSchem, "Root with an unknown schema"}} {
		k, n := r.k, r.name
		say(n, rootMsg(evilRoot(uint64(1+k%2), k)))
	}
	say("old Root", rootMsg(evilRoot(0, 0)))
	say(farName, rootMsg(evilRoot(1<<63, 1)))
	m := rootMsg(evilRoot(3, 1))
	m.Sig[10] ^= 1
	say("forged Root", m)
	r := remoteRoot(0, 7, 3, 1)
	r.Sig = must(cipher.SignHash(r.Hash, owners[1].sk))
	say("Root signed by another owner", rootMsg(r))
	m = rootMsg(evilRoot(3, 1))
	m.Seq = 4
	say("Root with a wrong seq", m)
	m = rootMsg(remoteRoot(1, 7, 3, 1))
	m.Feed = f0
	say("Root of another feed as this one", m)
	say("Root of a feed that is not shared", rootMsg(remoteRoot(1, 7, 3, 1)))
	bad := []byte{1, 2, 3}
	say("Root that can't be decoded", &msg.Root{Feed: f0, Nonce: 7, Seq: 4, Value: bad, Sig: must(cipher.SignHash(cipher.SumSHA256(bad), owners[0].sk))})
	say("blank Root", &msg.Root{})
	raw("an empty frame", nil)
	raw("a short frame", []byte{1, 2, 3})
	raw("a frame without a message", make([]byte, 8))
	raw("an unknown message", []byte{1, 0, 0, 0, 0, 0, 0, 0, 99})
	x := encFrame(1, 0, rootMsg(evilRoot(1, 1)))
	raw("half a Root", x[:len(x)/2])
	raw("a Root and more", append(append([]byte(nil), x...), 1, 2, 3))
	answer := func(name string, f func(k hash) msg.Msg, times int) {
		ms = append(ms, move{name, func(e *evil) {
			s, k := e.last()
			for i := 0; i < times; i++ {
				e.send(s, f(k))
			}
		}})
	}
	right := func(k hash) msg.Msg { return &msg.Object{Value: objects[k]} }
	answer("the object", right, 1)
	answer("the object, three times", right, 3)
	answer("a wrong object", func(hash) msg.Msg { return &msg.Object{Value: []byte("wrong")} }, 1)
	answer("Err as the answer", func(hash) msg.Msg { return &msg.Err{Err: "no"} }, 1)
	answer("Ok as the answer", func(hash) msg.Msg { return &msg.Ok{} }, 1)
	ms = append(ms, move{"all objects", func(e *evil) {
		e.on = func(f frame) { serve(e.peer, f) }
		for _, f := range e.asked {
			serve(e.peer, f)
		}
	}}, move{"leaves", func(e *evil) { e.close() }}, move{"waits", func(e *evil) { vsched.Sleep(15 * time.Second) }})
	return
}

const (
	eFresh = iota // no handshake
	eIdle         // connected
	eSub          // subscribed
	eFill         // announced a root, and the node asks for its registry
)

var eNames = []string{"no handshake", "connected", "subscribed", "a filling goes on"}

// friend is a peer that behaves
func friend(t *tnode, i int) (g *peer) {
	g = join(t, ids[i].pk, serve)
	vsched.Idle()
	g.send(0, &msg.Sub{Feed: owners[0].pk})
	g.send(0, &msg.Sub{Feed: owners[2].pk})
	vsched.Idle()
	return
}

func evilNode() (t *tnode) {
	t = newNode(0, nil)
	t.Share(owners[0].pk)
	t.Share(owners[2].pk)
	saveRoot(t, 0, 0)
	return
}

func newEvil(t *tnode, state int) (e *evil) {
	e = &evil{t: t}
	e.peer = dial(t, ids[3].pk, func(p *peer, f frame) {
		if _, ok := f.m.(*msg.RqObject); ok {
			e.asked = append(e.asked, f)
		}
	})
	if state >= eIdle {
		e.send(0, &msg.Syn{Protocol: msg.Version, NodeID: ids[3].pk})
		vsched.Idle()
	}
	if state >= eSub {
		e.send(0, &msg.Sub{Feed: owners[0].pk})
		vsched.Idle()
	}
	if state >= eFill {
		e.send(0, rootMsg(evilRoot(1, 1)))
		vsched.Idle()
	}
	return
}

// works says what doesn't work any more
func works(t *tnode, g *peer, far bool) string {
	ask := func(m msg.Msg) string {
		n := len(g.got)
		s := g.send(0, m)
		vsched.Idle()
		for _, f := range g.since(n) {
			if f.rseq == s {
				return msgName(f)
			}
		}
		return "no answer"
	}
	if g.closed {
		return "another connection is closed"
	}
	if s := ask(&msg.RqList{}); s != "List(feed0,feed2)" {
		return "another peer asks for feeds and gets " + s
	}
	for h, n := range objName {
		if n == "leaf0" {
			if s := ask(&msg.RqObject{Key: h}); s != "Object" {
				return "another peer asks for an object and gets " + s
			}
		}
	}
	if s := ask(&msg.RqPreview{Feed: owners[0].pk}); s == "no answer" || s[:4] != "Root" {
		return "another peer asks for a preview and gets " + s
	}
	n := len(g.got)
	t.Publish(saveRoot(t, 2, 2))
	vsched.Idle()
	seen := false
	for _, f := range g.since(n) {
		seen = seen || msgName(f) == "Root(feed2,0)"
	}
	if !seen {
		return "another peer doesn't get what is published"
	}
	if !t.IsSharing(owners[0].pk) || names(t.Feeds()) != "feed0,feed2" {
		return "Feeds returns " + names(t.Feeds())
	}
	// a newer root, unless there was one from a far future
	next := uint64(9)
	if far {
		next = 1<<63 + 1
	}
	g.send(0, rootMsg(remoteRoot(0, 7, next, 2)))
	vsched.Sleep(400 * time.Second)
	vsched.Idle()
	r, err := t.c.LastRoot(owners[0].pk, 7)
	if err != nil || r.Seq < next {
		return fmt.Sprintf("a root of another peer is not filled: %v", err)
	}
	return authentic(t)
}

// authentic roots only, complete, and nothing else
func authentic(t *tnode) (bad string) {
	want := map[hash]bool{}
	for f, seqs := range map[int][]uint64{0: {0, 1, 2, 3, 4, 9, 1 << 63, 1<<63 + 1}, 1: {3}, 2: {0}} {
		for _, s := range seqs {
			r, err := t.c.Root(owners[f].pk, 7, s)
			if err != nil {
				continue
			}
			if f == 1 {
				return "a root of a feed that is not shared"
			}
			if r.Pub != owners[f].pk || r.Seq != s || cipher.SumSHA256(r.Encode()) != r.Hash || cipher.VerifySignature(r.Pub, r.Sig, r.Hash) != nil {
				return "a root that is not authentic"
			}
			if bad := complete(t, r); bad != "" {
				return bad
			}
			want[r.Hash], want[hash(r.Reg)] = true, true
			for i := range contents {
				if fmt.Sprint(contents[i]) == fmt.Sprint(r.Refs) {
					for _, h := range contObjs[i] {
						want[h] = true
					}
				}
			}
		}
	}
	t.cx.Iterate(func(h hash, rc uint32, val []byte) error {
		if rc > 0 && !want[h] && bad == "" {
			bad = fmt.Sprintf("%s (%d bytes) is kept, but nothing refers to it", objName[h], len(val))
		}
		return nil
	})
	return
}

func evilPeers(r *core.R, state, depth int) {
	ms := moves()
	history(r, "a peer, "+eNames[state], len(ms), depth, func(o int) string { return ms[o].name }, func(h []int) string {
		return once(func() string {
			t := evilNode()
			g := friend(t, 2)
			e := newEvil(t, state)
			vsched.Idle()
			c, far := connOf(t, ids[3].pk), false
			for _, k := range h {
				if e.closed && k != h[len(h)-1] {
					return skip // the rest says nothing
				}
				ms[k].do(e)
				far = far || ms[k].name == farName
				vsched.Idle()
			}
			bad := works(t, g, far)
			if bad == "" && c != nil {
				back := false
				vsched.Go(func() { c.RemoteFeeds(); c.Subscribe(owners[2].pk); c.Close(); back = true })
				vsched.Sleep(60 * time.Second)
				vsched.Idle()
				if !back {
					bad = "calls of the connection don't return"
				}
			}
			if bad != "" {
				return bad
			}
			return finish(t)
		})
	})
}

// floods of messages, from peers that read nothing
func floods(r *core.R) {
	type flood struct {
		name string
		do   func(t *tnode, x *peer)
	}
	many := func(m msg.Msg) func(t *tnode, x *peer) {
		return func(t *tnode, x *peer) {
			vsched.Go(func() {
				for i := 0; i < 400; i++ {
					x.send(0, m)
				}
			})
		}
	}
	var leaf hash
	for h, n := range objName {
		if n == "leaf0" {
			leaf = h
		}
	}
	fs := []flood{
		{"the node publishes 200 times", func(t *tnode, x *peer) {
			for i := 0; i < 200; i++ {
				t.Publish(saveRoot(t, 0, i%3))
			}
		}},
		{"RqList", many(&msg.RqList{})},
		{"RqObject", many(&msg.RqObject{Key: leaf})},
		{"RqObject of nothing", many(&msg.RqObject{Key: cipher.SumSHA256([]byte("nothing"))})},
		{"RqPreview", many(&msg.RqPreview{Feed: owners[0].pk})},
		{"RqPeers", many(&msg.RqPeers{Feed: owners[0].pk})},
		{"Sub", many(&msg.Sub{Feed: owners[0].pk})},
		{"Root", many(rootMsg(evilRoot(1, 1)))},
		{"Root of another feed", many(rootMsg(remoteRoot(1, 7, 3, 1)))},
	}
	type act struct {
		name string
		do   func(t *tnode)
	}
	acts := []act{
		{"nothing else", func(t *tnode) {}},
		{"Share and DontShare", func(t *tnode) { t.Share(owners[1].pk); t.DontShare(owners[1].pk) }},
		{"DontShare and Share of the feed", func(t *tnode) { t.DontShare(owners[0].pk); t.Share(owners[0].pk) }},
		{"Close of the connection", func(t *tnode) {
			if c := connOf(t, ids[3].pk); c != nil {
				c.Close()
			}
		}},
		{"Close of the node", func(t *tnode) { t.Close() }},
	}
	n := 0
	for _, reads := range []bool{false, true} {
		for _, f := range fs {
			for ai, a := range acts {
				if n++; n%max(r.Shards, 1) != r.Shard {
					continue
				}
				name := "a peer that reads nothing: "
				if reads {
					name = "a peer: "
				}
				name += f.name + ", " + a.name
				bad := ""
				run := func() string {
					return once(func() string {
						t := evilNode()
						g := friend(t, 2)
						x := newPeer(dialX(t), ids[3].pk, nil)
						x.deaf = !reads
						x.send(0, &msg.Syn{Protocol: msg.Version, NodeID: ids[3].pk})
						vsched.Idle()
						x.send(0, &msg.Sub{Feed: owners[0].pk})
						vsched.Idle()
						f.do(t, x)
						vsched.Idle()
						back := false
						vsched.Go(func() { a.do(t); back = true })
						vsched.Idle()
						if !back {
							vsched.Sleep(60 * time.Second)
						}
						if !back {
							return a.name + " doesn't return"
						}
						if ai == 2 { // the friend is told to unsubscribe
							g.send(0, &msg.Sub{Feed: owners[0].pk})
							vsched.Idle()
						}
						if ai < 4 {
							if g.closed {
								return "another connection is closed"
							}
							k := len(g.got)
							t.Publish(saveRoot(t, 2, 2))
							vsched.Idle()
							ok := false
							for _, f := range g.since(k) {
								ok = ok || msgName(f) == "Root(feed2,0)"
							}
							if !ok {
								return "another peer doesn't get what is published"
							}
							g.send(0, rootMsg(remoteRoot(0, 7, 900, 2)))
							vsched.Sleep(400 * time.Second)
							vsched.Idle()
							if l, _ := t.c.LastRootSeq(owners[0].pk, 7); l != 900 {
								return "a root of another peer is not filled"
							}
						}
						x.close()
						return finish(t)
					})
				}
				if p := r.Guard(func() string { return name }, func() { bad = run() }); p != "" {
					bad = "panic: " + p
				}
				r.Validated.Add(1)
				if bad != "" {
					r.Violate(name+": "+key(bad), name+": "+bad, map[string]interface{}{"case": name})
				}
			}
		}
	}
	if r.Shard == 0 {
		r.Bound("floods of 400 messages of 8 kinds and 200 publications, with a peer that reads and one that does not, with each of 5 local calls meanwhile")
	}
}

// frames of a peer at the same time with calls
func evilMeets() (ms []meet) {
	f0 := owners[0].pk
	type side struct {
		name string
		do   func(t *tnode, e *evil, g *peer)
	}
	peers := []side{
		{"a Root and its objects, three times", func(t *tnode, e *evil, g *peer) {
			e.on = func(f frame) { serve(e.peer, f); serve(e.peer, f); serve(e.peer, f) }
			e.send(0, rootMsg(evilRoot(1, 1)))
		}},
		{"a Root, and leaves when asked", func(t *tnode, e *evil, g *peer) {
			e.on = func(f frame) { e.close() }
			e.send(0, rootMsg(evilRoot(1, 1)))
		}},
		{"a Root and wrong objects", func(t *tnode, e *evil, g *peer) {
			e.on = func(f frame) { e.send(f.seq, &msg.Object{Value: []byte("wrong")}) }
			e.send(0, rootMsg(evilRoot(1, 1)))
		}},
		{"a Root with a large object", func(t *tnode, e *evil, g *peer) {
			e.on = func(f frame) { serve(e.peer, f) }
			e.send(0, rootMsg(evilRoot(1, kLarge)))
		}},
		{"two roots, objects of one are refused", func(t *tnode, e *evil, g *peer) {
			n := 0
			e.on = func(f frame) {
				if n++; n < 3 {
					e.send(f.seq, &msg.Err{Err: "no"})
				} else {
					serve(e.peer, f)
				}
			}
			e.send(0, rootMsg(evilRoot(1, 1)))
			e.send(0, rootMsg(evilRoot(2, 2)))
		}},
		{"Unsub, Sub", func(t *tnode, e *evil, g *peer) { e.send(0, &msg.Unsub{Feed: f0}); e.send(0, &msg.Sub{Feed: f0}) }},
		{"a blank Sub", func(t *tnode, e *evil, g *peer) { e.send(0, &msg.Sub{}) }},
	}
	locals := []side{
		{"a Root of another peer", func(t *tnode, e *evil, g *peer) { g.send(0, rootMsg(remoteRoot(0, 7, 1, 1))) }},
		{"DontShare, Share", func(t *tnode, e *evil, g *peer) { t.DontShare(f0); t.Share(f0); g.send(0, &msg.Sub{Feed: f0}) }},
		{"Close of the connection", func(t *tnode, e *evil, g *peer) {
			if c := connOf(t, ids[3].pk); c != nil {
				c.Close()
			}
		}},
		{"Close of the node", func(t *tnode, e *evil, g *peer) { t.Close() }},
		{"publish", func(t *tnode, e *evil, g *peer) { t.Publish(saveRoot(t, 0, 2)) }},
		{"a request of another peer", func(t *tnode, e *evil, g *peer) {
			for h, n := range objName {
				if n == "leaf1" {
					g.send(0, &msg.RqObject{Key: h})
				}
			}
		}},
	}
	for _, p := range peers {
		for li, l := range locals {
			ms = append(ms, meet{name: p.name + " | " + l.name, bound: 1, run: func() string {
				var t *tnode
				var g *peer
				var e *evil
				free(func() {
					t = evilNode()
					g = friend(t, 2)
					e = newEvil(t, eSub)
				})
				waitAll(func() { p.do(t, e, g) }, func() { l.do(t, e, g) })
				vsched.Sleep(200 * time.Second)
				vsched.Idle()
				if li != 3 {
					if li == 1 {
						g.send(0, &msg.Sub{Feed: f0})
						vsched.Idle()
					}
					if bad := works(t, g, false); bad != "" {
						return bad
					}
				}
				return finish(t)
			}})
		}
	}
	return
}

func n05(r *core.R) {
	r.Rule("a case is a sequence of frames of a misbehaving peer from a state of its connection, a flood, or a schedule of frames and simultaneous calls; then another peer, local calls, the stored roots and objects, and closing are checked")
	_ = node.ErrClosed
	evilPeers(r, eFresh, 2)
	evilPeers(r, eIdle, r.Pick(2, 3))
	evilPeers(r, eSub, r.Pick(2, 3))
	evilPeers(r, eFill, r.Pick(3, 3))
	floods(r)
	explore(r, evilMeets(), true, r.Pick(5, 60), r.Pick(0, 1))
}
