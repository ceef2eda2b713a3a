package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/skycoin/skycoin/src/cipher"

	"github.com/skycoin/cxo/node"
	"github.com/skycoin/cxo/node/msg"
	"github.com/skycoin/cxo/skyobject/registry"

	"vmc/core"
	"vmc/vsched"
)

// Requests of a node, answered by a peer in every order and way

// replies a peer can give to anything
type reply struct {
	name string
	m    msg.Msg
}

const (
	rList = iota
	rOk
	rErr
	rRoot0
	rRoot1
	rForged
	rReg
	rLeaf0
	rLeaf1
	rPeers
)

func replies() (rs []reply) {
	var leaf [2]msg.Msg
	for h, n := range objName {
		if n == "leaf0" {
			leaf[0] = &msg.Object{Value: objects[h]}
		} else if n == "leaf1" {
			leaf[1] = &msg.Object{Value: objects[h]}
		}
	}
	forged := rootMsg(remoteRoot(0, 7, 3, 0))
	forged.Sig = remoteRoot(1, 7, 3, 0).Sig
	return []reply{
		{"List", &msg.List{Feeds: []cipher.PubKey{owners[0].pk, owners[2].pk}}},
		{"Ok", &msg.Ok{}},
		{"Err", &msg.Err{Err: "refused"}},
		{"Root of feed 0", rootMsg(remoteRoot(0, 7, 3, 0))},
		{"Root of feed 1", rootMsg(remoteRoot(1, 7, 3, 0))},
		{"forged Root of feed 0", forged},
		{"registry", &msg.Object{Value: reg.Encode()}},
		{"leaf0", leaf[0]},
		{"leaf1", leaf[1]},
		{"Peers", &msg.Peers{Feed: owners[0].pk}},
	}
}

// calls of the node
const (
	qList     = iota // RemoteFeeds
	qSub             // Subscribe to feed 2
	qPreview0        // Preview of feed 0, that gets leaf 0
	qPreview1
)

var qNames = []string{"RemoteFeeds", "Subscribe", "Preview of feed 0", "Preview of feed 1"}

func isQuestion(kind, stage int, m msg.Msg) bool {
	switch x := m.(type) {
	case *msg.RqList:
		return kind == qList && stage == 0
	case *msg.Sub:
		return kind == qSub && stage == 0 && x.Feed == owners[2].pk
	case *msg.RqPreview:
		return (kind == qPreview0 && x.Feed == owners[0].pk || kind == qPreview1 && x.Feed == owners[1].pk) && stage == 0
	case *msg.RqObject:
		return kind >= qPreview0 && (stage == 1 && objName[x.Key] == "registry" || stage == 2 && objName[x.Key] == "leaf0")
	}
	return false
}

// the model of a call
type qcall struct {
	kind, stage int
	done        bool
	res         string
	deadline    time.Duration
}

const qTimeout = 10 * time.Second

func (q *qcall) end(res string) { q.done, q.res = true, res }

// stop with an error
func (q *qcall) fail(err string) {
	if q.stage == 2 { // of the Get inside of the function, that goes on
		q.end("get: " + err)
		return
	}
	q.end("error: " + err)
}

func (q *qcall) reply(what int, now time.Duration) {
	if q.done {
		return
	}
	next := func() { q.stage++; q.deadline = now + qTimeout }
	if what == rErr {
		q.fail("refused")
		return
	}
	switch {
	case q.kind == qList && what == rList:
		q.end("feed0,feed2")
	case q.kind == qSub && what == rOk:
		q.end("ok")
	case q.kind >= qPreview0 && q.stage == 0 && what == rRoot0+q.kind-qPreview0:
		next()
	case q.kind >= qPreview0 && q.stage == 1 && what == rReg:
		next()
	case q.kind >= qPreview0 && q.stage == 2 && what == rLeaf0:
		q.end("leaf0")
	default:
		q.fail("")
	}
}

func (q *qcall) same(have string) bool {
	if !q.done {
		return have == ""
	}
	if strings.HasSuffix(q.res, ": ") { // any error
		return strings.HasPrefix(have, q.res)
	}
	if i := strings.Index(q.res, ": "); i >= 0 && q.res[i+2:] == "refused" {
		return strings.HasPrefix(have, q.res[:i+2]) && strings.HasSuffix(have, "refused")
	}
	return have == q.res
}

// start a call
func startCall(c *node.Conn, kind int, res *string) {
	vsched.Go(func() {
		var err error
		out := ""
		switch kind {
		case qList:
			var fs []cipher.PubKey
			fs, err = c.RemoteFeeds()
			out = names(fs)
		case qSub:
			err = c.Subscribe(owners[2].pk)
			out = "ok"
		default:
			f := kind - qPreview0
			called := 0
			err = c.Preview(owners[f].pk, func(p registry.Pack, r *registry.Root) bool {
				called++
				if r.Pub != owners[f].pk {
					out = "a root of another feed"
					return false
				}
				val, err := p.Get(r.Refs[0].Hash)
				if err != nil {
					out = "get: " + err.Error()
				} else if out = objName[cipher.SumSHA256(val)]; out == "" {
					out = "a wrong object"
				}
				return false
			})
			if err == nil && called != 1 {
				out = "the function is not called"
			}
		}
		if err != nil {
			out = "error: " + err.Error()
		}
		*res = out
	})
}

type qop struct {
	name string
	kind int
	i    int // call
	what int // reply
}

const (
	qReply = iota
	qStranger
	qWait
	qLeave
	qClose
)

// every history of a peer for calls that are made together; a call is made
// before the event start[i]
func requests(r *core.R, kinds []int, start []int, depth int) {
	rs := replies()
	var ops []qop
	name := "requests"
	for i, k := range kinds {
		name += ", " + qNames[k]
		if start[i] > 0 {
			name += fmt.Sprintf(" after %d events", start[i])
		}
		for w := range rs {
			if len(kinds) > 2 && w != rList && w != rOk && w != rErr && w != rRoot0 && w != rReg && w != rLeaf0 {
				continue
			}
			ops = append(ops, qop{fmt.Sprintf("%s to %d", rs[w].name, i), qReply, i, w})
		}
	}
	if only := envOnly(); only != "" && !strings.Contains(name, only) {
		return
	}
	ops = append(ops, qop{"List to a request nobody made", qStranger, 0, rList}, qop{"6 s pass", qWait, 0, 0},
		qop{"the peer leaves", qLeave, 0, 0}, qop{"the connection is closed", qClose, 0, 0})
	n := 0
	ok := true
	core.Seqs(len(ops), depth, depth, func(h []int) bool {
		if n++; n%max(r.Shards, 1) != r.Shard {
			return true
		}
		h = append([]int(nil), h...)
		show := func() string {
			s := name + ":"
			for _, o := range h {
				s += " " + ops[o].name + ";"
			}
			return s
		}
		bad := ""
		if p := r.Guard(show, func() { bad = requestsRun(rs, kinds, start, ops, h) }); p != "" {
			bad = "panic: " + p
		}
		if bad == skip {
			return true
		}
		r.Validated.Add(1)
		r.Transitions.Add(int64(len(h)))
		if bad != "" {
			r.Violate(name+": "+key(bad), show()+" "+bad, map[string]interface{}{"history": show()})
		}
		ok = !r.Full() && !r.Expired()
		return ok
	})
	if !ok {
		if r.Expired() {
			r.Cap(name + ": time")
		}
		return
	}
	if r.Shard == 0 {
		r.Bound("%s: every history of %d of %d events (replies of every kind to every call, time, closing)", name, depth, len(ops))
	}
}

func requestsRun(rs []reply, kinds, start []int, ops []qop, h []int) string {
	return once(func() string {
		t := newNode(0, func(c *node.Config) { c.TCP.ResponseTimeout = qTimeout })
		p := join(t, ids[2].pk, nil)
		vsched.Idle()
		c := connOf(t, ids[2].pk)
		res := make([]string, len(kinds))
		qs := make([]*qcall, len(kinds))
		seqs := make([]uint32, len(kinds)) // the last request of a call
		asked := make([]int, len(kinds))   // stage it belongs to
		var now time.Duration
		open, seen := true, len(p.got)
		look := func(after string) string {
			vsched.Idle()
			for ; seen < len(p.got); seen++ {
				f := p.got[seen]
				found := false
				for i, q := range qs {
					if q != nil && !q.done && !found && asked[i] <= q.stage && isQuestion(q.kind, q.stage, f.m) {
						seqs[i], asked[i], found = f.seq, q.stage+1, true
					}
				}
				if u, ok := f.m.(*msg.Unsub); ok && u.Feed == owners[2].pk {
					found = true
				}
				if !found {
					return fmt.Sprintf("an unexpected %s after %q", msgName(f), after)
				}
			}
			for i, q := range qs {
				if q == nil {
					continue
				}
				if !q.same(res[i]) {
					return fmt.Sprintf("call %d returns %q instead of %q after %q", i, res[i], q.res, after)
				}
				if !q.done && asked[i] <= q.stage {
					return fmt.Sprintf("call %d doesn't send a request after %q", i, after)
				}
			}
			if p.closed == open {
				return fmt.Sprintf("the connection is closed: %v, after %q", p.closed, after)
			}
			return ""
		}
		for e := 0; e <= len(h); e++ {
			for i := range kinds {
				if start[i] != e {
					continue
				}
				q := &qcall{kind: kinds[i], deadline: now + qTimeout}
				qs[i] = q
				if !open {
					q.fail(node.ErrClosed.Error())
				}
				startCall(c, kinds[i], &res[i])
				if s := look("a call"); s != "" {
					return s
				}
			}
			if e == len(h) {
				break
			}
			o := ops[h[e]]
			if !open && o.kind != qWait {
				return skip
			}
			switch o.kind {
			case qReply:
				q := qs[o.i]
				if q == nil {
					return skip
				}
				if q.done && (o.what == rRoot0 || o.what == rRoot1 || o.what == rForged) {
					return skip // a root is not only a reply
				}
				q.reply(o.what, now)
				p.send(seqs[o.i], rs[o.what].m)
			case qStranger:
				p.send(0xffff0000, rs[o.what].m)
			case qWait:
				now += 6 * time.Second
				for _, q := range qs {
					if q != nil && !q.done && q.deadline < now {
						q.fail(node.ErrTimeout.Error())
					}
				}
				vsched.Sleep(6 * time.Second)
			case qLeave, qClose:
				open = false
				for _, q := range qs {
					if q != nil && !q.done {
						q.fail(node.ErrClosed.Error())
					}
				}
				if o.kind == qLeave {
					p.close()
				} else {
					c.Close()
				}
			}
			if s := look(o.name); s != "" {
				return s
			}
		}
		if open { // and it works
			n := len(p.got)
			p.send(0, &msg.RqList{})
			vsched.Idle()
			if f := p.since(n); len(f) != 1 || !strings.HasPrefix(msgName(f[0]), "List(") {
				return fmt.Sprintf("requests of the peer are not served: %v", f)
			}
			var last string
			startCall(c, qList, &last)
			vsched.Idle()
			if f := p.since(n + 1); len(f) != 1 {
				return fmt.Sprintf("a new request: %v", f)
			} else {
				p.send(f[0].seq, rs[rList].m)
			}
			vsched.Idle()
			if last != "feed0,feed2" {
				return "a new request fails: " + last
			}
		}
		if s := t.end(); s != "" {
			return s
		}
		vsched.Idle()
		for i, q := range qs {
			if q != nil && !q.done {
				q.fail(node.ErrClosed.Error())
			}
			if q != nil && !q.same(res[i]) {
				return fmt.Sprintf("call %d returns %q instead of %q when the node closes", i, res[i], q.res)
			}
		}
		return leftovers()
	})
}

// simultaneous requests, replies and closing
func reqMeets() (ms []meet) {
	rs := replies()
	auto := func(p *peer, f frame) {
		switch m := f.m.(type) {
		case *msg.RqList:
			p.send(f.seq, rs[rList].m)
		case *msg.Sub:
			p.send(f.seq, rs[rOk].m)
		case *msg.RqPreview:
			if m.Feed == owners[0].pk {
				p.send(f.seq, rs[rRoot0].m)
			} else {
				p.send(f.seq, rs[rRoot1].m)
			}
		case *msg.RqObject:
			p.send(f.seq, &msg.Object{Value: objects[m.Key]})
		}
	}
	good := []string{"feed0,feed2", "ok", "leaf0", "leaf0"}
	thrice := func(p *peer, f frame) { auto(p, f); auto(p, f); auto(p, f) }
	late := func(p *peer, f frame) {
		vsched.Go(func() { vsched.Sleep(qTimeout); auto(p, f) })
	}
	for _, ks := range [][]int{{qList}, {qList, qSub, qPreview0}, {qPreview0, qPreview1}, {qList, qList}, {qSub, qPreview1}} {
		name := ""
		for _, k := range ks {
			name += qNames[k] + " | "
		}
		bound := 1
		if len(ks) == 1 {
			bound = 2
		}
		for _, v := range []struct {
			name string
			on   func(p *peer, f frame)
			end  func(t *tnode, c *node.Conn, p *peer)
			may  []string // other results
		}{
			{"every reply comes once", auto, nil, nil},
			{"every reply comes three times", thrice, nil, nil},
			{"replies come in the last moment", late, nil, []string{"timeout"}},
			{"the peer leaves", auto, func(t *tnode, c *node.Conn, p *peer) { p.close() }, []string{"closed"}},
			{"the connection is closed", auto, func(t *tnode, c *node.Conn, p *peer) { c.Close() }, []string{"closed"}},
			{"the node closes", auto, func(t *tnode, c *node.Conn, p *peer) { t.Close() }, []string{"closed"}},
		} {
			ms = append(ms, meet{name: name + v.name, bound: bound, run: func() string {
				var t *tnode
				var p *peer
				var c *node.Conn
				free(func() {
					t = newNode(0, func(c *node.Config) { c.TCP.ResponseTimeout = qTimeout })
					p = join(t, ids[2].pk, v.on)
					vsched.Idle()
					c = connOf(t, ids[2].pk)
				})
				res := make([]string, len(ks))
				for i, k := range ks {
					startCall(c, k, &res[i])
				}
				if v.end != nil {
					v.end(t, c, p)
				}
				vsched.Sleep(60 * time.Second)
				vsched.Idle()
				for i, k := range ks {
					ok := res[i] == good[k]
					for _, m := range v.may {
						ok = ok || strings.Contains(res[i], m)
					}
					if v.end != nil && k == qSub {
						ok = res[i] != "" // the node can be not sharing already
					}
					if !ok {
						return fmt.Sprintf("%s returns %q", qNames[k], res[i])
					}
				}
				if v.end == nil {
					var last string
					p.on = func(f frame) { auto(p, f) }
					startCall(c, qList, &last)
					vsched.Idle()
					if last != good[0] {
						return "a new request fails: " + last
					}
				}
				return finish(t)
			}})
		}
	}
	return
}

func n06(r *core.R) {
	r.Rule("a case is a history of replies (of every kind, to every request, answered or not), of time and of closing a connection while calls wait, or a schedule of simultaneous ones; results of the calls are compared with the first reply to the request of the call")
	all := [][]int{{qList}, {qSub}, {qPreview0}, {qPreview1}}
	for _, ks := range all {
		requests(r, ks, []int{0}, r.Pick(4, 5))
	}
	requests(r, []int{qList, qList}, []int{0, 0}, r.Pick(3, 4))
	requests(r, []int{qList, qPreview0}, []int{0, 1}, r.Pick(3, 4))
	requests(r, []int{qPreview0, qPreview1}, []int{0, 0}, r.Pick(3, 4))
	requests(r, []int{qSub, qPreview0}, []int{1, 0}, r.Pick(3, 4))
	requests(r, []int{qList, qSub, qPreview0}, []int{0, 0, 0}, r.Pick(3, 4))
	explore(r, reqMeets(), true, r.Pick(7, 60), r.Pick(0, 1))
}
