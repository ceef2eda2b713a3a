package main

import (
	"encoding/binary"
	"fmt"
	"io"
	"sort"
	"strings"
	"time"

	"github.com/skycoin/skycoin/src/cipher"
	"github.com/skycoin/skycoin/src/cipher/encoder"

	"github.com/skycoin/net/factory"

	"github.com/skycoin/cxo/data"
	"github.com/skycoin/cxo/node"
	"github.com/skycoin/cxo/node/log"
	"github.com/skycoin/cxo/node/msg"
	"github.com/skycoin/cxo/skyobject"
	"github.com/skycoin/cxo/skyobject/registry"

	"vmc/fake"
	"vmc/vsched"
)

type (
	hash = cipher.SHA256
	// Leaf has no references
	Leaf struct{ N uint32 }
	// Pair of references
	Pair struct {
		A registry.Ref `skyobject:"schema=test.Leaf"`
		B registry.Ref `skyobject:"schema=test.Leaf"`
		N uint32
	}
)

type ident struct {
	pk cipher.PubKey
	sk cipher.SecKey
}

func identity(n int) (i ident) {
	i.sk[0], i.sk[31] = 1, byte(n+1)
	i.pk = cipher.MustPubKeyFromSecKey(i.sk)
	return
}

func must[T any](v T, err error) T {
	if err != nil {
		panic("harness: " + err.Error())
	}
	return v
}

var (
	owners = [3]ident{identity(1), identity(2), identity(3)} // of feeds
	ids    [8]ident                                          // of nodes and peers

	reg      = registry.NewRegistry(func(r *registry.Reg) { r.Register("test.Leaf", Leaf{}); r.Register("test.Pair", Pair{}) })
	objects  = map[hash][]byte{} // every object, the registry too
	objName  = map[hash]string{}
	contents [][]registry.Dynamic
	contObjs [][]hash // in the order they are made
)

func init() {
	for i := range ids {
		ids[i] = identity(10 + i)
	}
	rh := hash(reg.Reference())
	objects[rh], objName[rh] = reg.Encode(), "registry"
	obj := func(name string, v interface{}) hash {
		b := encoder.Serialize(v)
		h := cipher.SumSHA256(b)
		objects[h], objName[h] = b, name
		return h
	}
	dyn := func(name string, h hash) registry.Dynamic {
		return registry.Dynamic{Hash: h, Schema: must(reg.SchemaByName(name)).Reference()}
	}
	leaf := func(n int) hash { return obj(fmt.Sprint("leaf", n), Leaf{uint32(n)}) }
	pair := func(n int, a, b hash) hash {
		return obj(fmt.Sprint("pair", n), Pair{registry.Ref{Hash: a}, registry.Ref{Hash: b}, uint32(n)})
	}
	add := func(hs []hash, refs ...registry.Dynamic) {
		contents, contObjs = append(contents, refs), append(contObjs, hs)
	}
	l0, l1, l2 := leaf(0), leaf(1), leaf(2)
	add([]hash{l0}, dyn("test.Leaf", l0))
	p := pair(0, l0, l1)
	add([]hash{l0, l1, p}, dyn("test.Pair", p))
	q := pair(1, l2, l1)
	add([]hash{l2, l1, q}, dyn("test.Pair", q), dyn("test.Leaf", l2))
	add(nil)
	evilInit()
}

// remote root of a feed
func remoteRoot(f int, nonce, seq uint64, k int) *registry.Root {
	r := &registry.Root{Pub: owners[f].pk, Nonce: nonce, Seq: seq, Reg: reg.Reference(), Refs: contents[k], Time: int64(1000 + seq)}
	if seq > 0 {
		r.Prev = cipher.SumSHA256([]byte(fmt.Sprint(f, nonce, seq)))
	}
	r.Hash = cipher.SumSHA256(r.Encode())
	r.Sig = must(cipher.SignHash(r.Hash, owners[f].sk))
	return r
}

func rootMsg(r *registry.Root) *msg.Root {
	return &msg.Root{Feed: r.Pub, Nonce: r.Nonce, Seq: r.Seq, Value: r.Encode(), Sig: r.Sig}
}

// quiet logger that doesn't exit the process
type quiet struct{}

func (quiet) Pins() log.Pin                          { return 0 }
func (quiet) SetPrefix(string)                       {}
func (quiet) SetFlags(int)                           {}
func (quiet) SetOutput(io.Writer)                    {}
func (quiet) Print(...interface{})                   {}
func (quiet) Println(...interface{})                 {}
func (quiet) Printf(string, ...interface{})          {}
func (quiet) Panic(a ...interface{})                 { panic(fmt.Sprint(a...)) }
func (quiet) Panicln(a ...interface{})               { panic(fmt.Sprint(a...)) }
func (quiet) Panicf(f string, a ...interface{})      { panic(fmt.Sprintf(f, a...)) }
func (quiet) Fatal(a ...interface{})                 { vsched.Fail("exit of the process", fmt.Sprint(a...)) }
func (q quiet) Fatalln(a ...interface{})             { q.Fatal(a...) }
func (q quiet) Fatalf(f string, a ...interface{})    { q.Fatal(fmt.Sprintf(f, a...)) }
func (quiet) Debug(log.Pin, ...interface{})          {}
func (quiet) Debugln(log.Pin, ...interface{})        {}
func (quiet) Debugf(log.Pin, string, ...interface{}) {}
func (quiet) Error(error, ...interface{})            {}
func (quiet) Errorln(error, ...interface{})          {}
func (quiet) Errorf(error, string, ...interface{})   {}

// tnode is a node under test
type tnode struct {
	*node.Node
	i      int
	c      *skyobject.Container
	cx     *fake.CXDS
	ix     *fake.Idx
	closed bool
}

func nodeAddr(i int) string { return fmt.Sprintf("127.0.0.1:%d", 9000+i) }

var noListen bool // new nodes don't listen

// newNode with identity i, that listens
func newNode(i int, tweak func(c *node.Config)) (t *tnode) {
	t = &tnode{i: i, cx: fake.NewCXDS(), ix: fake.NewIdx()}
	cc := skyobject.NewConfig()
	cc.DataDir = ""
	cc.Degree = 2
	cc.MaxObjectSize = 4096
	cc.MaxFillingParallel = 2
	cc.DB = data.NewDB(t.cx, t.ix)
	t.c = must(skyobject.NewContainer(cc))
	conf := node.NewConfig()
	conf.SecKey = ids[i].sk
	conf.Config = cc
	conf.Logger.Output = io.Discard
	conf.TCP.Listen = ""
	conf.UDP.Listen = ""
	conf.RPC = ""
	conf.Public = true
	conf.TCP.ResponseTimeout = 10 * time.Second
	conf.UDP.ResponseTimeout = 10 * time.Second
	conf.MaxFillingTime = 100 * time.Second
	if tweak != nil {
		tweak(conf)
	}
	t.Node = must(node.NewNodeContainer(conf, t.c))
	t.Node.Logger = quiet{}
	if noListen {
		return
	}
	if err := t.TCP().Listen(nodeAddr(i)); err != nil {
		panic(err)
	}
	return
}

// end of the node: nothing of it may go on
func (t *tnode) end() string {
	if err := t.Close(); err != nil {
		return "Close: " + err.Error()
	}
	t.c.Index.Close()
	return ""
}

// frame is a message of a peer
type frame struct {
	seq, rseq uint32
	m         msg.Msg
	raw       []byte
}

func (f frame) String() string {
	if f.m == nil {
		return fmt.Sprintf("%x", f.raw)
	}
	s := strings.TrimPrefix(fmt.Sprintf("%T", f.m), "*msg.")
	if e, ok := f.m.(*msg.Err); ok {
		s += "(" + e.Err + ")"
	}
	return s
}

func encFrame(seq, rseq uint32, m msg.Msg) []byte {
	b := make([]byte, 8)
	binary.LittleEndian.PutUint32(b, seq)
	binary.LittleEndian.PutUint32(b[4:], rseq)
	return append(b, m.Encode()...)
}

// peer is played by the harness, frame by frame
type peer struct {
	x      *factory.Connection
	id     cipher.PubKey
	seq    uint32
	got    []frame
	closed bool // the connection is closed
	on     func(f frame)
	deaf   bool // reads nothing
}

// newPeer over one end of a connection
func newPeer(x *factory.Connection, id cipher.PubKey, on func(p *peer, f frame)) (p *peer) {
	p = &peer{x: x, id: id}
	if on != nil {
		p.on = func(f frame) { on(p, f) }
	}
	vsched.Go(func() {
		for {
			if p.deaf {
				vsched.Block("a deaf peer", func() bool { return x.IsClosed() })
				p.closed = true
				return
			}
			raw, ok := vsched.Recv2(x.GetChanIn())
			if !ok {
				p.closed = true
				return
			}
			f := frame{raw: raw}
			if len(raw) >= 9 {
				f.seq, f.rseq = binary.LittleEndian.Uint32(raw), binary.LittleEndian.Uint32(raw[4:])
				f.m, _ = msg.Decode(raw[8:])
			}
			p.got = append(p.got, f)
			if p.on != nil {
				p.on(f)
			}
		}
	})
	return
}

// dial a node
func dial(t *tnode, id cipher.PubKey, on func(p *peer, f frame)) *peer {
	return newPeer(must(factory.NewTCPFactory().Connect(nodeAddr(t.i))), id, on)
}

func dialX(t *tnode) *factory.Connection {
	return must(factory.NewTCPFactory().Connect(nodeAddr(t.i)))
}

// dialFrom an address
func dialFrom(t *tnode, addr string, id cipher.PubKey, on func(p *peer, f frame)) *peer {
	x, y := factory.NewPipe(true, addr, nodeAddr(t.i))
	vsched.Go(func() { t.TCP().AcceptedCallback(y) })
	return newPeer(x, id, on)
}

func (p *peer) raw(b []byte) {
	vsched.To(p.x.GetChanOut()).Send(b)
}

// send a message, return its seq
func (p *peer) send(rseq uint32, m msg.Msg) uint32 {
	p.seq++
	p.raw(encFrame(p.seq, rseq, m))
	return p.seq
}

func (p *peer) close() { p.x.Close() }

// of messages received since a point
func (p *peer) since(n int) (fs []frame) { return p.got[n:] }

func (p *peer) reply(to uint32) (f *frame) {
	for i := range p.got {
		if p.got[i].rseq == to {
			return &p.got[i]
		}
	}
	return nil
}

// join performs a handshake
func join(t *tnode, id cipher.PubKey, on func(p *peer, f frame)) (p *peer) {
	p = dial(t, id, on)
	p.send(0, &msg.Syn{Protocol: msg.Version, NodeID: id})
	return
}

func connOf(t *tnode, id cipher.PubKey) (c *node.Conn) {
	for _, x := range t.Connections() {
		if x.PeerID() == id {
			return x
		}
	}
	return nil
}

// serve answers requests for objects
func serve(p *peer, f frame) {
	switch m := f.m.(type) {
	case *msg.RqObject:
		if v, ok := objects[m.Key]; ok {
			p.send(f.seq, &msg.Object{Value: v})
		} else {
			p.send(f.seq, &msg.Err{Err: "not found"})
		}
	case *msg.Sub:
		p.send(f.seq, &msg.Ok{})
	}
}

// idName of a node or a feed
func idName(pk cipher.PubKey) string {
	for i := range ids {
		if ids[i].pk == pk {
			return fmt.Sprint("id", i)
		}
	}
	for i := range owners {
		if owners[i].pk == pk {
			return fmt.Sprint("feed", i)
		}
	}
	if pk == (cipher.PubKey{}) {
		return "blank"
	}
	return pk.Hex()[:8]
}

func names(pks []cipher.PubKey) string {
	var ss []string
	for _, pk := range pks {
		ss = append(ss, idName(pk))
	}
	sort.Strings(ss)
	return strings.Join(ss, ",")
}

// leftovers of goroutines but the current one
func leftovers() string {
	vsched.Idle()
	if vsched.NumG() > 1 {
		return "goroutines go on: " + strings.Join(vsched.Goroutines(), "; ")
	}
	return ""
}

// run one execution under the default schedule
func once(fn func() string) (bad string) {
	factory.Reset()
	o := vsched.Run(func() { bad = fn() }, nil, vsched.Opts{SyncOnly: true})
	if o.Kind != "" {
		bad = o.Kind + ": " + o.Text + "\n" + o.Stack
	}
	return
}
