package main

import (
	"fmt"
	"io"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"github.com/skycoin/net/factory"
	"github.com/skycoin/skycoin/src/cipher"

	"github.com/skycoin/cxo/data"
	"github.com/skycoin/cxo/node"
	"github.com/skycoin/cxo/skyobject"
	"github.com/skycoin/cxo/skyobject/registry"

	"vmc/fake"
)

type (
	// Leaf of a tree
	Leaf struct{ N uint32 }
	// Pair of references
	Pair struct {
		A registry.Ref `skyobject:"schema=test.Leaf"`
		B registry.Ref `skyobject:"schema=test.Leaf"`
		N uint32
	}
)

type ident struct {
	pk cipher.PubKey
	sk cipher.SecKey
}

func identity(n int) (i ident) {
	i.sk[0], i.sk[31] = 1, byte(n+1)
	i.pk = cipher.MustPubKeyFromSecKey(i.sk)
	return
}

func must[T any](v T, err error) T {
	if err != nil {
		panic("harness: " + err.Error())
	}
	return v
}

var (
	owners [3]ident // of feeds; the third has Root objects
	ids    [3]ident // of the node and its peers
	reg    = registry.NewRegistry(func(r *registry.Reg) { r.Register("test.Leaf", Leaf{}); r.Register("test.Pair", Pair{}) })
	worlds atomic.Int64
)

func init() {
	for i := range owners {
		owners[i], ids[i] = identity(1+i), identity(10+i)
	}
}

// world of a node and two peers
type world struct {
	id   int64
	rpc  string
	n    *node.Node
	p    [2]*node.Node
	c    *node.RPCClient // nil: local calls
	cli  bool            // operations are commands of cxocli
	mute []*factory.Connection
}

// the address a node listens on
func (w *world) addr(i, t int) string { return fmt.Sprintf("w%d-node%d-%d:1", w.id, i, t) }

const nowhere = "nowhere:1"

func newNode(i int, rpc string, store func() *data.DB, tweak func(c *node.Config)) *node.Node {
	cc := skyobject.NewConfig()
	cc.DataDir = ""
	cc.Degree = 2
	cc.RollAvgSamples = 3
	cc.DB = store()
	conf := node.NewConfig()
	conf.SecKey = ids[i].sk
	conf.Config = cc
	conf.Logger.Output = io.Discard
	conf.TCP.Listen, conf.UDP.Listen, conf.RPC = "", "", rpc
	conf.TCP.ResponseTimeout, conf.UDP.ResponseTimeout = 10*time.Second, 11*time.Second
	if tweak != nil {
		tweak(conf)
	}
	return must(node.NewNode(conf))
}

func fakeStore() *data.DB { return data.NewDB(fake.NewCXDS(), fake.NewIdx()) }

func newWorld(overRPC, listens bool) (w *world) {
	w = &world{id: worlds.Add(1)}
	for i := range w.p {
		w.p[i] = newNode(1+i, "", fakeStore, func(c *node.Config) {
			c.Public = i == 0
			c.TCP.Listen, c.UDP.Listen = w.addr(1+i, 0), w.addr(1+i, 1)
		})
		for f := 0; f <= 1-i; f++ { // the first one shares two feeds, the other one one
			if err := w.p[i].Share(owners[f].pk); err != nil {
				panic(err)
			}
		}
	}
	if overRPC {
		w.rpc = fmt.Sprintf("127.%d.%d.1:8871", 10+w.id%200, w.id/200%200)
	}
	w.n = newNode(0, w.rpc, fakeStore, func(c *node.Config) {
		c.Public = true
		if listens {
			c.TCP.Listen, c.UDP.Listen = w.addr(0, 0), w.addr(0, 1)
		}
	})
	w.roots()
	if overRPC {
		w.c = must(node.NewRPCClient(w.rpc))
	}
	return
}

type sel struct {
	f          int
	nonce, seq uint64
}

// roots of the third feed: nonce 1 with two, nonce 2 with one; the feed isn't shared
func (w *world) roots() {
	c := w.n.Container()
	pk := owners[2].pk
	if err := c.AddFeed(pk); err != nil {
		panic(err)
	}
	for _, nonce := range []uint64{1, 2} {
		up := must(c.Unpack(owners[2].sk, reg))
		r := &registry.Root{Pub: pk, Nonce: nonce, Descriptor: []byte("desc")}
		for s := uint64(0); s < 3-nonce; s++ {
			var d registry.Dynamic
			p := Pair{N: uint32(10*nonce + s)}
			for k, ref := range []*registry.Ref{&p.A, &p.B} {
				if err := ref.SetValue(up, &Leaf{uint32(s) + uint32(k)}); err != nil {
					panic(err)
				}
			}
			d.Schema = must(reg.SchemaByName("test.Pair")).Reference()
			if err := d.SetValue(up, &p); err != nil {
				panic(err)
			}
			r.Refs = append(r.Refs, d)
			if err := c.Save(up, r); err != nil {
				panic(err)
			}
		}
	}
}

func (w *world) close() (bad string) {
	if w.c != nil {
		w.c.Close()
	}
	for _, n := range append([]*node.Node{w.n}, w.p[:]...) {
		if err := n.Close(); err != nil {
			bad = "Close: " + err.Error()
		}
	}
	for _, x := range w.mute {
		x.Close()
	}
	return
}

var ports = regexp.MustCompile(`127\.0\.0\.1:\d+`)

// name addresses of the world
func (w *world) name(s string) string {
	return ports.ReplaceAllString(strings.ReplaceAll(s, fmt.Sprintf("w%d-", w.id), ""), "ADDR")
}

func (w *world) names(ss []string) (out []string) {
	for _, s := range ss {
		out = append(out, w.name(s))
	}
	sort.Strings(out)
	return
}

func feedNames(fs []cipher.PubKey) string {
	var out []string
	for _, f := range fs {
		s := f.Hex()
		for i, o := range owners {
			if o.pk == f {
				s = fmt.Sprint("feed", i)
			}
		}
		out = append(out, s)
	}
	sort.Strings(out)
	return fmt.Sprint(out)
}

func errText(w *world, err error) string {
	if err == nil {
		return ""
	}
	return "error: " + w.name(err.Error())
}

// connsOf a node, by peer
func connsOf(w *world, n *node.Node) string {
	var out []string
	for _, c := range n.Connections() {
		s := c.PeerID().Hex()
		for i, o := range ids {
			if o.pk == c.PeerID() {
				s = fmt.Sprint("node", i)
			}
		}
		out = append(out, fmt.Sprint(s, " tcp=", c.IsTCP(), " in=", c.IsIncoming(), feedNames(c.Feeds())))
	}
	sort.Strings(out)
	return fmt.Sprint(out)
}

// state of the world, as the local API tells it
func (w *world) state() (s string) {
	for i, n := range append([]*node.Node{w.n}, w.p[:]...) {
		s += fmt.Sprintf("node%d: feeds %s connections %s\n", i, feedNames(n.Feeds()), connsOf(w, n))
	}
	return s + fmt.Sprint("container: ", feedNames(w.n.Container().Feeds()), w.pending())
}

// pending connections
func (w *world) pending() (s string) { return fmt.Sprint(" strangers: ", len(w.mute)) }

// agree: both ends of every connection exist, with the same feeds
func (w *world) agree() bool {
	have := map[string]int{}
	for i, n := range append([]*node.Node{w.n}, w.p[:]...) {
		for _, c := range n.Connections() {
			j := -1
			for k := range ids {
				if ids[k].pk == c.PeerID() {
					j = k
				}
			}
			if j < 0 {
				continue
			}
			have[fmt.Sprint(min(i, j), max(i, j), c.IsTCP(), feedNames(c.Feeds()))]++
		}
	}
	for _, v := range have {
		if v != 2 {
			return false
		}
	}
	return true
}

// conn of the node on a transport with an address
func (w *world) conn(t int, addr string) *node.Conn {
	for _, c := range w.n.Connections() {
		if c.IsTCP() == (t == 0) && c.Address() == addr {
			return c
		}
	}
	return nil
}

// await a condition
func await(fn func() bool) bool {
	for end, pause := time.Now().Add(5*time.Second), 20*time.Microsecond; ; {
		if fn() {
			return true
		}
		if time.Now().After(end) {
			return false
		}
		time.Sleep(pause)
		if pause < 5*time.Millisecond {
			pause *= 2
		}
	}
}

// eq compares what can be transmitted
func eq(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.Func, reflect.Chan, reflect.Interface:
		return true
	case reflect.Ptr:
		if _, ok := a.Interface().(*data.DB); ok {
			return true
		}
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return eq(a.Elem(), b.Elem())
	case reflect.Struct:
		if t, ok := a.Interface().(time.Time); ok {
			return t.Equal(b.Interface().(time.Time))
		}
		for i := 0; i < a.NumField(); i++ {
			if a.Type().Field(i).IsExported() && !eq(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Slice:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !eq(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			if v := b.MapIndex(k); !v.IsValid() || !eq(a.MapIndex(k), v) {
				return false
			}
		}
		return true
	default:
		return reflect.DeepEqual(a.Interface(), b.Interface())
	}
}

func same(a, b interface{}) bool { return eq(reflect.ValueOf(a), reflect.ValueOf(b)) }
