package main

import (
	"bytes"
	"flag"
	"fmt"
	"io"
	"net"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/boltdb/bolt"
	"github.com/skycoin/net/factory"
	"github.com/skycoin/skycoin/src/cipher"

	"github.com/skycoin/cxo/data"
	"github.com/skycoin/cxo/node"
	"github.com/skycoin/cxo/skyobject"
	"github.com/skycoin/cxo/skyobject/registry"

	"vmc/core"
)

// a flag, the field it sets and values
type flagCase struct {
	name, field string
	values      []string
}

var flagCases = []flagCase{
	{"max-connections", "MaxConnections", []string{"0", "7", "-1"}},
	{"max-filling-time", "MaxFillingTime", []string{"0s", "1m1s"}},
	{"max-heads", "MaxHeads", []string{"0", "9"}},
	{"rpc", "RPC", []string{"", ":17"}},
	{"tcp", "TCP.Listen", []string{"", "127.0.0.1:18"}},
	{"tcp-response-timeout", "TCP.ResponseTimeout", []string{"0s", "19s"}},
	{"tcp-pings", "TCP.Pings", []string{"0s", "20s"}},
	{"udp", "UDP.Listen", []string{"", "127.0.0.1:21"}},
	{"udp-response-timeout", "UDP.ResponseTimeout", []string{"0s", "22s"}},
	{"udp-pings", "UDP.Pings", []string{"0s", "23s"}},
	{"public", "Public", []string{"true", "false"}},
	{"mem-db", "Config.InMemoryDB", []string{"true", "false"}},
	{"data-dir", "Config.DataDir", []string{"", "/nonexistent/24"}},
	{"db-path", "Config.DBPath", []string{"", "/nonexistent/25"}},
	{"log-prefix", "Logger.Prefix", []string{"", "[26] "}},
	{"debug", "Logger.Debug", []string{"true", "false"}},
}

// fields of a config by path
func fields(v reflect.Value, path string, m map[string]string) {
	for v.Kind() == reflect.Ptr && !v.IsNil() && v.Type() != reflect.TypeOf((*data.DB)(nil)) {
		v = v.Elem()
	}
	if v.Kind() != reflect.Struct {
		switch v.Kind() {
		case reflect.Func, reflect.Ptr, reflect.Interface:
			m[path] = fmt.Sprint(v.IsNil())
		default:
			m[path] = fmt.Sprint(v.Interface())
		}
		return
	}
	for i := 0; i < v.NumField(); i++ {
		fields(v.Field(i), strings.TrimPrefix(path+"."+v.Type().Field(i).Name, "."), m)
	}
}

func fieldsOf(c *node.Config) map[string]string {
	m := map[string]string{}
	fields(reflect.ValueOf(c), "", m)
	return m
}

// configs to start from: defaults, and everything else
func otherConfig(k int) *node.Config {
	c := node.NewConfig()
	if k == 1 {
		c.MaxConnections, c.MaxFillingTime, c.MaxHeads, c.MaxPendingConnections = 31, 32, 33, 34
		c.RPC, c.TCP.Listen, c.UDP.Listen, c.Public = "r:1", "t:1", "u:1", true
		c.TCP.ResponseTimeout, c.TCP.Pings, c.UDP.ResponseTimeout, c.UDP.Pings = 35, 36, 37, 38
		c.InMemoryDB, c.DataDir, c.DBPath = true, "/nonexistent/d", "/nonexistent/p"
		c.Logger.Prefix, c.Logger.Debug = "[x]", true
	}
	return c
}

// flags set exactly what they name
func flagsCheck(r *core.R) {
	n := 0
	old := flag.CommandLine
	defer func() { flag.CommandLine = old }()
	parse := func(k int, args []string) (before, after map[string]string, err error) {
		flag.CommandLine = flag.NewFlagSet("x", flag.ContinueOnError)
		flag.CommandLine.SetOutput(io.Discard)
		c := otherConfig(k)
		before = fieldsOf(c)
		c.FromFlags()
		err = flag.CommandLine.Parse(args)
		return before, fieldsOf(c), err
	}
	one := func(k int, cs []flagCase, vs []string) {
		n++
		r.Evaluations.Add(1)
		var args []string
		for i, c := range cs {
			args = append(args, "-"+c.name+"="+vs[i])
		}
		core.Case(fmt.Sprint("flags ", args))
		before, after, err := parse(k, args)
		if err != nil {
			r.Violate(fmt.Sprint("flags: ", cs[0].name), fmt.Sprintf("%v: %v", args, err), nil)
			return
		}
		for i, c := range cs {
			before[c.field] = vs[i]
		}
		if _, ok := before["Logger.Pins"]; ok { // depends on -debug
			delete(before, "Logger.Pins")
			delete(after, "Logger.Pins")
		}
		if !reflect.DeepEqual(before, after) {
			var diff []string
			for f, v := range after {
				if before[f] != v {
					diff = append(diff, fmt.Sprintf("%s=%s instead of %s", f, v, before[f]))
				}
			}
			sort.Strings(diff)
			names := ""
			for _, c := range cs {
				names += c.name + " "
			}
			r.Violate("flags: "+names, fmt.Sprintf("config %d, flags %q: %v", k, args, diff), nil)
		}
	}
	for k := 0; k < 2; k++ {
		one(k, nil, nil)
		for i, c := range flagCases {
			for _, v := range c.values {
				one(k, []flagCase{c}, []string{v})
				for _, d := range flagCases[i+1:] {
					for _, u := range d.values {
						one(k, []flagCase{c, d}, []string{v, u})
						one(k, []flagCase{d, c}, []string{u, v})
					}
				}
			}
		}
	}
	r.Validated.Add(int64(n))
	r.Bound("flags: %d command lines: every flag, and every pair in both orders, with several values, from two configurations", n)
}

// variant of a configuration
type variant struct {
	name  string
	set   func(c *skyobject.Config)
	valid bool
}

func variants() (vs []variant) {
	add := func(valid bool, name string, set func(c *skyobject.Config)) {
		vs = append(vs, variant{name, set, valid})
	}
	for _, d := range []int{-1, 0, 1, 2, 3, 255} {
		add(registry.Degree(d).Validate() == nil && d >= 2, fmt.Sprint("Degree ", d), func(c *skyobject.Config) { c.Degree = registry.Degree(d) })
	}
	for _, n := range []int{-5, 0, 1, 2} {
		add(n >= 1, fmt.Sprint("RollAvgSamples ", n), func(c *skyobject.Config) { c.RollAvgSamples = n })
	}
	for _, n := range []int{-1, 0, 1} {
		add(n >= 0, fmt.Sprint("CacheMaxAmount ", n), func(c *skyobject.Config) { c.CacheMaxAmount = n })
		add(n >= 0, fmt.Sprint("CacheMaxVolume ", n), func(c *skyobject.Config) { c.CacheMaxVolume, c.CacheMaxItemSize = n, 0 })
	}
	for _, p := range []skyobject.CachePolicy{skyobject.LRU, skyobject.LFU, skyobject.LFU + 1, -1} {
		add(p == skyobject.LRU || p == skyobject.LFU, fmt.Sprint("CachePolicy ", int(p)), func(c *skyobject.Config) { c.CachePolicy = p })
	}
	for _, f := range []float64{-1, 0, 0.499, 0.5, 0.8, 0.9, 0.901, 2} {
		add(f >= 0.5 && f <= 0.9, fmt.Sprint("CacheCleaning ", f), func(c *skyobject.Config) {
			c.CacheCleaning = f
			c.CacheMaxItemSize = 0
		})
	}
	for _, n := range []int{0, 1000, 190000, 210000} { // 20% of 1000000
		add(n <= 200000, fmt.Sprint("CacheMaxItemSize ", n, " of 1000000"), func(c *skyobject.Config) {
			c.CacheMaxVolume, c.CacheMaxItemSize, c.CacheCleaning = 1000000, n, 0.8
		})
	}
	for _, n := range []int{-1, 0, 1023, 1024, 1025} {
		add(n >= 1024, fmt.Sprint("MaxObjectSize ", n), func(c *skyobject.Config) { c.MaxObjectSize = n })
	}
	return
}

// stale goroutines of the code under test
func running() (n int, stacks string) {
	buf := make([]byte, 1<<20)
	for _, g := range bytes.Split(buf[:runtime.Stack(buf, true)], []byte("\n\n")) {
		if bytes.Contains(g, []byte("github.com/skycoin/")) && !bytes.Contains(g, []byte("main.running")) {
			n++
			stacks += string(g) + "\n"
		}
	}
	return
}

// validity of configurations, and whether nodes start with them
func validCheck(r *core.R) {
	n := 0
	vs := variants()
	one := func(names string, valid bool, set ...func(c *skyobject.Config)) {
		n++
		core.Case("configuration " + names)
		what := func() string { return "configuration " + names }
		bad := ""
		if p := r.Guard(what, func() {
			cc := skyobject.NewConfig()
			cc.InMemoryDB, cc.DataDir = true, ""
			for _, s := range set {
				s(cc)
			}
			if err := cc.Validate(); (err == nil) != valid {
				bad = fmt.Sprintf("Validate of the container's: %v", err)
				return
			}
			conf := node.NewConfig()
			conf.Config = cc
			conf.Logger.Output = io.Discard
			conf.TCP.Listen, conf.UDP.Listen, conf.RPC = "", "", ""
			if err := conf.Validate(); (err == nil) != valid {
				bad = fmt.Sprintf("Validate of the node's: %v", err)
				return
			}
			t, err := node.NewNode(conf)
			if (err == nil) != valid {
				bad = fmt.Sprintf("NewNode: %v", err)
			}
			if err != nil {
				return
			}
			if t.Container().Config() != cc && !same(t.Container().Config(), cc) {
				bad = "the container has another configuration"
			}
			if b := usable(t); b != "" {
				bad = b
			}
			if err := t.Close(); err != nil && bad == "" {
				bad = fmt.Sprint("Close: ", err)
			}
		}); p != "" {
			bad = p
		}
		if bad != "" {
			r.Violate("configuration: "+names, names+": "+bad, nil)
		}
	}
	for i, a := range vs {
		one(a.name, a.valid, a.set)
		for _, b := range vs[i+1:] {
			x, y := strings.Fields(a.name)[0], strings.Fields(b.name)[0]
			if x == y || strings.HasPrefix(x, "CacheM") && strings.HasPrefix(y, "CacheM") || strings.HasPrefix(x, "CacheM") && y == "CacheCleaning" || x == "CacheCleaning" && strings.HasPrefix(y, "CacheM") {
				continue
			}
			one(a.name+", "+b.name, a.valid && b.valid, a.set, b.set)
		}
	}
	if !await(func() bool { k, _ := running(); return k == 0 }) {
		_, s := running()
		r.Violate("configuration: goroutines", "goroutines that go on after Close:\n"+s, nil)
	}
	r.Validated.Add(int64(n))
	r.Bound("configuration: %d configurations with one or two fields at, and on both sides of, every limit", n)
}

// usable: a Root can be saved, walked and read
func usable(t *node.Node) string {
	c := t.Container()
	pk, sk := owners[0].pk, owners[0].sk
	if err := t.Share(pk); err != nil {
		return fmt.Sprint("Share: ", err)
	}
	h, err := saveOne(c, sk, pk, 5)
	if err != nil {
		return fmt.Sprint("Save: ", err)
	}
	return hasRoot(c, h)
}

func saveOne(c *skyobject.Container, sk cipher.SecKey, pk cipher.PubKey, n uint32) (h cipher.SHA256, err error) {
	up, err := c.Unpack(sk, reg)
	if err != nil {
		return
	}
	var p Pair
	if err = p.A.SetValue(up, &Leaf{n}); err != nil {
		return
	}
	if err = p.B.SetValue(up, &Leaf{n + 1}); err != nil {
		return
	}
	d := registry.Dynamic{Schema: must(reg.SchemaByName("test.Pair")).Reference()}
	if err = d.SetValue(up, &p); err != nil {
		return
	}
	r := &registry.Root{Pub: pk, Nonce: 1, Refs: []registry.Dynamic{d}}
	if err = c.Save(up, r); err == nil {
		h = r.Hash
	}
	return
}

// hasRoot checks the last Root and its objects
func hasRoot(c *skyobject.Container, h cipher.SHA256) string {
	pk := owners[0].pk
	r, err := c.LastRoot(pk, c.ActiveHead(pk))
	if err != nil || r.Hash != h {
		return fmt.Sprintf("the last Root: %v, %v", r, err)
	}
	n := 0
	if err := c.Walk(r, func(k cipher.SHA256, _ int) (bool, error) {
		n++
		_, _, err := c.Get(k, 0)
		return true, err
	}); err != nil || n != 5 {
		return fmt.Sprintf("walking the last Root: %d objects, %v", n, err)
	}
	return ""
}

// one thing that makes a start fail
type fault struct {
	name string
	// make changes the configuration and surroundings; undo reverts these
	make  func(s *start) (undo func())
	kinds string // of stores
	group string // of which one is made
}

// start of a node in a scratch directory
type start struct {
	dir  string
	kind byte // d: data dir, p: db path, g: given, m: memory
	conf *node.Config
	cc   *skyobject.Config
	db   *data.DB
	addr [2]string

	changed string // a file that is refused, but changed
}

func (s *start) files() (cx, ix string) {
	if s.kind == 'p' {
		return filepath.Join(s.dir, "p.cxds"), filepath.Join(s.dir, "p.idx")
	}
	return filepath.Join(s.dir, skyobject.CXDS), filepath.Join(s.dir, skyobject.IdxDB)
}

// config that works
func (s *start) config(k int64) {
	s.cc = skyobject.NewConfig()
	s.cc.MaxObjectSize = 2048
	s.cc.DataDir = s.dir
	switch s.kind {
	case 'p':
		s.cc.DBPath = filepath.Join(s.dir, "p")
	case 'm':
		s.cc.InMemoryDB = true
	case 'g':
		s.db = fakeStore()
		s.cc.DB = s.db
	}
	c := node.NewConfig()
	c.Config = s.cc
	c.SecKey = ids[0].sk
	c.Logger.Output = io.Discard
	s.addr = [2]string{fmt.Sprintf("s%d-t:1", k), fmt.Sprintf("s%d-u:1", k)}
	c.TCP.Listen, c.UDP.Listen = s.addr[0], s.addr[1]
	c.RPC = fmt.Sprintf("127.%d.%d.3:8871", 10+k%200, k/200%200)
	s.conf = c
}

// spoil a file, in place if it stays a file: it may be locked
func (s *start) spoil(f string, with func(f string)) func() {
	old, err := os.ReadFile(f)
	with(f)
	bad, _ := os.ReadFile(f)
	return func() {
		if now, _ := os.ReadFile(f); !bytes.Equal(now, bad) {
			s.changed = f
		}
		if i, e := os.Stat(f); e == nil && i.IsDir() {
			os.Remove(f)
		}
		if err == nil {
			os.WriteFile(f, old, 0644)
		} else {
			os.Remove(f)
		}
	}
}

// withBolt changes a file as a database
func withBolt(f string, fn func(tx *bolt.Tx) error) {
	b := must(bolt.Open(f, 0644, &bolt.Options{Timeout: time.Second}))
	defer b.Close()
	if err := b.Update(fn); err != nil {
		panic("harness: " + err.Error())
	}
}

// version of a store
func version(v byte) func(f string) {
	return func(f string) {
		withBolt(f, func(tx *bolt.Tx) error {
			return tx.ForEach(func(name []byte, b *bolt.Bucket) error {
				if k, _ := b.Cursor().Seek([]byte("version")); string(k) != "version" {
					return nil
				}
				return b.Put([]byte("version"), []byte{v, v, v, v})
			})
		})
	}
}

func foreign(f string) {
	withBolt(f, func(tx *bolt.Tx) error {
		var names [][]byte
		tx.ForEach(func(name []byte, _ *bolt.Bucket) error {
			names = append(names, append([]byte(nil), name...))
			return nil
		})
		for _, n := range names {
			if err := tx.DeleteBucket(n); err != nil {
				return err
			}
		}
		b, err := tx.CreateBucket([]byte("something else"))
		if err != nil {
			return err
		}
		return b.Put([]byte("key"), []byte("value"))
	})
}

func faults() (fs []fault) {
	group := ""
	add := func(name, kinds string, make func(s *start) func()) {
		g := group
		if g == "" {
			g = name
		}
		fs = append(fs, fault{name, make, kinds, g})
	}
	nop := func() {}
	add("invalid degree", "dpmg", func(s *start) func() { s.cc.Degree = 1; return nop })
	add("invalid secret key", "dpmg", func(s *start) func() {
		for i := range s.conf.SecKey {
			s.conf.SecKey[i] = 0xff
		}
		return nop
	})
	add("the TCP address is used", "dpmg", func(s *start) func() {
		f := factory.NewTCPFactory()
		f.Listen(s.addr[0])
		return func() { f.Close() }
	})
	add("the UDP address is used", "dpmg", func(s *start) func() {
		f := factory.NewUDPFactory()
		f.Listen(s.addr[1])
		return func() { f.Close() }
	})
	group = "rpc"
	add("the RPC address is used", "dpmg", func(s *start) func() {
		l := must(net.Listen("tcp", s.conf.RPC))
		return func() { l.Close() }
	})
	add("no such RPC address", "dpmg", func(s *start) func() { s.conf.RPC = "no address"; return nop })
	group = "files"
	add("the data directory is a file", "d", func(s *start) func() {
		f := filepath.Join(s.dir, "file")
		os.WriteFile(f, []byte("x"), 0600)
		s.cc.DataDir = filepath.Join(f, "x")
		return func() { os.Remove(f) }
	})
	add("no directory of the path", "p", func(s *start) func() { s.cc.DBPath = filepath.Join(s.dir, "no", "p"); return nop })
	garbage := func(f string) { os.WriteFile(f, bytes.Repeat([]byte("garbage "), 2048), 0644) }
	dir := func(f string) { os.Remove(f); os.Mkdir(f, 0755) }
	for k, n := range []string{"CXDS", "IdxDB"} {
		file := func(s *start) string {
			cx, ix := s.files()
			if k == 0 {
				return cx
			}
			return ix
		}
		add(n+" is garbage", "dp", func(s *start) func() { return s.spoil(file(s), garbage) })
		add(n+" is another database", "dp", func(s *start) func() { return s.spoil(file(s), foreign) })
		add(n+" of an old version", "dp", func(s *start) func() { return s.spoil(file(s), version(0)) })
		add(n+" of a new version", "dp", func(s *start) func() { return s.spoil(file(s), version(0x7f)) })
		add(n+" is a directory", "dp", func(s *start) func() { return s.spoil(file(s), dir) })
	}
	add("used by another container", "dp", func(s *start) func() {
		cc := *s.cc
		c := must(skyobject.NewContainer(&cc))
		return func() { c.Close() }
	})
	add("too large an object", "dp", func(s *start) func() {
		cc := *s.cc
		cc.MaxObjectSize = 1 << 20
		c := must(skyobject.NewContainer(&cc))
		v := bytes.Repeat([]byte("large"), 1000)
		must(c.Set(cipher.SumSHA256(v), v, 1))
		if err := c.Close(); err != nil {
			panic("harness: " + err.Error())
		}
		s.cc.CheckSizes = true
		return nop
	})
	return
}

// startCheck makes starts fail, in one or two ways, then starts for good
func startCheck(r *core.R) {
	fs := faults()
	n := 0
	run := func(kind byte, which ...fault) (bad string) {
		n++
		base, _ := running()
		dir := must(os.MkdirTemp(core.Scratch(), "start"))
		temps := func() (ns string) { // temporary files
			es, _ := os.ReadDir(os.TempDir())
			for _, e := range es {
				ns += e.Name() + " "
			}
			return
		}
		before := temps()
		defer os.RemoveAll(dir)
		s := &start{dir: dir, kind: kind}
		k := worlds.Add(1)
		s.config(k)
		var last cipher.SHA256
		if kind == 'd' || kind == 'p' { // there is something already
			cc := *s.cc
			c := must(skyobject.NewContainer(&cc))
			if err := c.AddFeed(owners[0].pk); err != nil {
				return err.Error()
			}
			last = must(saveOne(c, owners[0].sk, owners[0].pk, 1))
			if err := c.Close(); err != nil {
				return err.Error()
			}
		}
		var undo []func()
		for _, f := range which {
			undo = append(undo, f.make(s))
		}
		if len(which) > 0 {
			var t *node.Node
			var err error
			if !returns(func() { t, err = node.NewNode(s.conf) }) {
				return "NewNode doesn't return"
			}
			for i := len(undo) - 1; i >= 0; i-- {
				undo[i]()
			}
			if err == nil {
				t.Close()
				return "NewNode succeeds"
			}
			if s.changed != "" {
				return s.changed + " was refused and changed"
			}
			if !await(func() bool { k, _ := running(); return k <= base }) {
				_, st := running()
				return "goroutines of a node that failed to start:\n" + st
			}
			if now := temps(); now != before {
				return fmt.Sprintf("temporary files of a node that failed to start: %q, before %q", now, before)
			}
		}
		// everything is free
		s.config(k)
		t, err := node.NewNode(s.conf)
		if err != nil {
			return "afterwards a node can't be started: " + err.Error()
		}
		defer func() {
			if err := t.Close(); err != nil && bad == "" {
				bad = "Close: " + err.Error()
			}
			if l, err := net.Listen("tcp", s.conf.RPC); err == nil {
				l.Close()
			} else if bad == "" {
				bad = "the RPC of a closed node: " + err.Error()
			}
			if f, u := factory.NewTCPFactory(), factory.NewUDPFactory(); f.Listen(s.addr[0]) != nil || u.Listen(s.addr[1]) != nil {
				bad = "a closed node is listening"
			} else {
				f.Close()
				u.Close()
			}
			if !await(func() bool { k, _ := running(); return k <= base }) && bad == "" {
				_, st := running()
				bad = "goroutines of a closed node:\n" + st
			}
			if now := temps(); now != before && bad == "" {
				bad = fmt.Sprintf("temporary files of a closed node: %q, before %q", now, before)
			}
		}()
		if last != (cipher.SHA256{}) {
			if b := hasRoot(t.Container(), last); b != "" {
				return "afterwards " + b
			}
		}
		if t.ID() != ids[0].pk || t.TCP().Address() != s.addr[0] || t.UDP().Address() != s.addr[1] {
			return fmt.Sprintf("the node has ID %s and addresses %q and %q", t.ID().Hex(), t.TCP().Address(), t.UDP().Address())
		}
		c, err := node.NewRPCClient(s.conf.RPC)
		if err != nil {
			return "the RPC doesn't listen: " + err.Error()
		}
		defer c.Close()
		if conf, err := c.Node().Config(); err != nil || !same(conf, s.conf) {
			return fmt.Sprintf("the node has another configuration: %+v, %v", conf, err)
		}
		if b := usable(t); b != "" {
			return b
		}
		// the stores are where they should be
		var have []string
		filepath.Walk(dir, func(p string, i os.FileInfo, _ error) error {
			if i != nil && !i.IsDir() {
				have = append(have, p)
			}
			return nil
		})
		var want []string
		if kind == 'd' || kind == 'p' {
			cx, ix := s.files()
			want = append(want, cx, ix)
		}
		if fmt.Sprint(have) != fmt.Sprint(want) {
			return fmt.Sprintf("files %v instead of %v", have, want)
		}
		return
	}
	do := func(kind byte, which ...fault) {
		if r.Full() || r.Expired() {
			r.Cap("start: stopped")
			return
		}
		name := "start with the store " + map[byte]string{'d': "in a directory", 'p': "at a path", 'm': "in memory", 'g': "given"}[kind]
		for _, f := range which {
			if !strings.Contains(f.kinds, string(kind)) {
				return
			}
			name += ", " + f.name
		}
		core.Case(name)
		bad := ""
		if p := r.Guard(func() string { return name }, func() { bad = run(kind, which...) }); p != "" {
			bad = p
		}
		if bad != "" {
			r.Violate("start: "+name, name+": "+bad, nil)
		}
	}
	for _, kind := range []byte("dpmg") {
		do(kind)
		for i, f := range fs {
			do(kind, f)
			for _, g := range fs[i+1:] {
				if f.group == g.group {
					continue
				}
				do(kind, f, g)
			}
		}
	}
	r.Validated.Add(int64(n))
	r.Bound("start: %d starts with every kind of store, that fail in every single way and in every two ways, each followed by one that works", n)
}

// defaults are the documented ones
func defaultsCheck(r *core.R) {
	c := node.NewConfig()
	for name, ok := range map[string]bool{
		"MaxConnections":     c.MaxConnections == node.MaxConnections,
		"MaxFillingTime":     c.MaxFillingTime == node.MaxFillingTime,
		"MaxHeads":           c.MaxHeads == node.MaxHeads,
		"RPC":                c.RPC == node.RPCAddress,
		"TCP":                c.TCP.Listen == node.ListenTCP && c.TCP.Pings == node.Pings && c.TCP.ResponseTimeout == node.ResponseTimeout,
		"UDP":                c.UDP.Listen == node.ListenUDP && c.UDP.ResponseTimeout == node.ResponseTimeout,
		"Public":             c.Public == node.Public,
		"Degree":             c.Degree == skyobject.Degree,
		"RollAvgSamples":     c.RollAvgSamples == skyobject.RollAvgSamples,
		"CacheMaxAmount":     c.CacheMaxAmount == skyobject.CacheMaxAmount,
		"CacheMaxVolume":     c.CacheMaxVolume == skyobject.CacheMaxVolume,
		"CacheRegistries":    c.CacheRegistries == skyobject.CacheRegistries,
		"CacheCleaning":      c.CacheCleaning == skyobject.CacheCleaning,
		"CacheMaxItemSize":   c.CacheMaxItemSize == skyobject.CacheMaxItemSize,
		"CachePolicy":        c.CachePolicy == skyobject.LRU,
		"MaxObjectSize":      c.MaxObjectSize == skyobject.MaxObjectSize,
		"MaxFillingParallel": c.MaxFillingParallel == skyobject.MaxFillingParallel,
		"DataDir":            c.DataDir == skyobject.DataDir(),
		"others":             !c.InMemoryDB && !c.CheckSizes && c.DBPath == "" && c.DB == nil && c.SecKey == cipher.SecKey{},
		"Validate":           c.Validate() == nil,
	} {
		if !ok {
			r.Violate("defaults: "+name, fmt.Sprintf("%s isn't the default: %+v %+v", name, c, c.Config), nil)
		}
	}
	// nil configurations
	home := must(os.MkdirTemp(core.Scratch(), "home"))
	defer os.RemoveAll(home)
	old := os.Getenv("HOME")
	os.Setenv("HOME", home)
	defer os.Setenv("HOME", old)
	core.Case("nil configuration")
	quietly(func() {
		t, err := node.NewNode(nil)
		if err != nil {
			r.Violate("defaults: nil", "NewNode(nil): "+err.Error(), nil)
			return
		}
		if bad := usable(t); bad != "" {
			r.Violate("defaults: nil", "NewNode(nil): "+bad, nil)
		}
		if !same(t.Config(), node.NewConfig()) {
			r.Violate("defaults: nil", fmt.Sprintf("NewNode(nil): %+v", t.Config()), nil)
		}
		if err := t.Close(); err != nil {
			r.Violate("defaults: nil", "Close: "+err.Error(), nil)
		}
		if _, err := os.Stat(filepath.Join(skyobject.DataDir(), skyobject.CXDS)); err != nil || !strings.HasPrefix(skyobject.DataDir(), home) {
			r.Violate("defaults: nil", fmt.Sprint("the default store: ", err), nil)
		}
	})
	r.Validated.Add(1)
	r.Bound("defaults: every default value, and a node without a configuration")
}

// quietly hides what a node prints
func quietly(fn func()) {
	old := os.Stdout
	os.Stdout = must(os.OpenFile(os.DevNull, os.O_WRONLY, 0))
	defer func() { os.Stdout.Close(); os.Stdout = old }()
	fn()
}

func n10(r *core.R) {
	r.Rule("a start succeeds with exactly the given configuration, or fails and leaves nothing")
	r.Assume("the transports of the nodes are the in-memory stand-ins; stores and RPC are real")
	for name, fn := range map[string]func(*core.R){"flags": flagsCheck, "configuration": validCheck, "defaults": defaultsCheck, "start": startCheck} {
		if want(name) {
			fn(r)
		}
	}
}
