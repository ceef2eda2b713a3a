// Package factory is an offline stand-in for the discovery client of
// github.com/skycoin/net/skycoin-messenger/factory. A discovery server lives
// in this process, at an address; a harness plays it. A connection of a client
// delivers responses one by one, from a goroutine of its own, and a client that
// asked to reconnect does it after the time to wait.
package factory

import (
	"errors"
	"sync"
	"time"

	"github.com/skycoin/skycoin/src/cipher"
)

// Level of logs
type Level uint32

// levels
const (
	PanicLevel Level = iota
	FatalLevel
	ErrorLevel
	WarnLevel
	InfoLevel
	DebugLevel
)

// SeedConfig is an identity
type SeedConfig struct {
	Seed      string
	SecKey    string
	PublicKey string
}

// NewSeedConfig makes a fresh identity
func NewSeedConfig() (*SeedConfig, error) {
	pk, sk := cipher.GenerateKeyPair()
	return &SeedConfig{SecKey: sk.Hex(), PublicKey: pk.Hex()}, nil
}

// SecKeyToSeedConfig makes an identity of a key
func SecKeyToSeedConfig(sk cipher.SecKey) (*SeedConfig, error) {
	if err := sk.Verify(); err != nil {
		return nil, err
	}
	return &SeedConfig{SecKey: sk.Hex(), PublicKey: cipher.MustPubKeyFromSecKey(sk).Hex()}, nil
}

// Service of a node
type Service struct {
	Key               cipher.PubKey
	Attributes        []string
	Address           string
	HideFromDiscovery bool
	AllowNodes        []string
}

// NodeServices of a node
type NodeServices struct {
	Services       []*Service
	ServiceAddress string
	Location       string
	Version        []string
}

// NodeInfo of a node
type NodeInfo struct {
	PubKey  cipher.PubKey
	Address string
}

// ServiceInfo of a service
type ServiceInfo struct {
	PubKey cipher.PubKey
	Nodes  []*NodeInfo
}

// QueryResp of discovery
type QueryResp struct {
	Seq    uint32
	Result []*ServiceInfo
}

// Server is a discovery server played by a harness
type Server struct {
	mx      sync.Mutex
	address string
	conns   []*Connection
	OnQuery func(c *Connection, keys []cipher.PubKey) // optional
}

var table = struct {
	sync.Mutex
	ss map[string]*Server
}{ss: map[string]*Server{}}

// Reset forgets all servers; harnesses call it between executions
func Reset() { table.ss = map[string]*Server{} }

// NewServer at an address
func NewServer(address string) (s *Server) {
	s = &Server{address: address}
	table.Lock()
	defer table.Unlock()
	table.ss[address] = s
	return
}

// Conns that are open
func (s *Server) Conns() []*Connection {
	s.mx.Lock()
	defer s.mx.Unlock()
	return append([]*Connection(nil), s.conns...)
}

// Stop the server
func (s *Server) Stop() {
	table.Lock()
	delete(table.ss, s.address)
	table.Unlock()
	for _, c := range s.Conns() {
		c.Close()
	}
}

// Connection to a discovery server
type Connection struct {
	f *MessengerFactory
	s *Server
	a string
	k *ConnConfig

	mx       sync.Mutex
	cond     *sync.Cond
	closed   bool
	resps    []*QueryResp
	queries  [][]cipher.PubKey
	services []*NodeServices
}

var errClosed = errors.New("connection closed")

// FindServiceNodesByKeys asks the server
func (c *Connection) FindServiceNodesByKeys(keys []cipher.PubKey) error {
	keys = append([]cipher.PubKey(nil), keys...)
	c.mx.Lock()
	if c.closed {
		c.mx.Unlock()
		return errClosed
	}
	c.queries = append(c.queries, keys)
	on := c.s.OnQuery
	c.mx.Unlock()
	if on != nil {
		on(c, keys)
	}
	return nil
}

// UpdateServices tells the server
func (c *Connection) UpdateServices(ns *NodeServices) error {
	c.mx.Lock()
	defer c.mx.Unlock()
	if c.closed {
		return errClosed
	}
	c.services = append(c.services, ns)
	return nil
}

// Queries so far
func (c *Connection) Queries() [][]cipher.PubKey {
	c.mx.Lock()
	defer c.mx.Unlock()
	return append([][]cipher.PubKey(nil), c.queries...)
}

// Services told so far
func (c *Connection) Services() []*NodeServices {
	c.mx.Lock()
	defer c.mx.Unlock()
	return append([]*NodeServices(nil), c.services...)
}

// Identity of the client
func (c *Connection) Identity() *SeedConfig { return c.k.SeedConfig }

// Respond to a query
func (c *Connection) Respond(resp *QueryResp) {
	c.mx.Lock()
	defer c.mx.Unlock()
	c.resps = append(c.resps, resp)
	c.cond.Signal()
}

// Close the connection
func (c *Connection) Close() {
	c.mx.Lock()
	if c.closed {
		c.mx.Unlock()
		return
	}
	c.closed = true
	c.cond.Signal()
	c.mx.Unlock()
	c.s.mx.Lock()
	for i, x := range c.s.conns {
		if x == c {
			c.s.conns = append(c.s.conns[:i], c.s.conns[i+1:]...)
			break
		}
	}
	c.s.mx.Unlock()
	if c.f.remove(c) {
		return
	}
	if c.k.OnDisconnected != nil {
		c.k.OnDisconnected(c)
	}
	if c.k.Reconnect {
		go c.f.reconnect(c.a, c.k)
	}
}

func (c *Connection) run() {
	for {
		c.mx.Lock()
		for len(c.resps) == 0 && !c.closed {
			c.cond.Wait()
		}
		if c.closed {
			c.mx.Unlock()
			return
		}
		r := c.resps[0]
		c.resps = c.resps[1:]
		c.mx.Unlock()
		if cb := c.k.FindServiceNodesByKeysCallback; cb != nil {
			cb(r)
		}
	}
}

// ConnConfig of a connection
type ConnConfig struct {
	SeedConfig                     *SeedConfig
	SeedConfigPath                 string
	Reconnect                      bool
	ReconnectWait                  time.Duration
	FindServiceNodesByKeysCallback func(resp *QueryResp)
	OnConnected                    func(connection *Connection)
	OnDisconnected                 func(connection *Connection)
}

// MessengerFactory client
type MessengerFactory struct {
	mx     sync.Mutex
	conns  []*Connection
	closed bool
	quit   chan struct{}
}

// NewMessengerFactory creates
func NewMessengerFactory() *MessengerFactory {
	return &MessengerFactory{quit: make(chan struct{})}
}

// SetLoggerLevel does nothing
func (m *MessengerFactory) SetLoggerLevel(l Level) {}

func (m *MessengerFactory) remove(c *Connection) (closed bool) {
	m.mx.Lock()
	defer m.mx.Unlock()
	for i, x := range m.conns {
		if x == c {
			m.conns = append(m.conns[:i], m.conns[i+1:]...)
			break
		}
	}
	return m.closed
}

func (m *MessengerFactory) reconnect(address string, k *ConnConfig) {
	tm := time.NewTimer(k.ReconnectWait)
	defer tm.Stop()
	select {
	case <-tm.C:
		m.ConnectWithConfig(address, k)
	case <-m.quit:
	}
}

// ConnectWithConfig to a server
func (m *MessengerFactory) ConnectWithConfig(address string, k *ConnConfig) error {
	table.Lock()
	s := table.ss[address]
	table.Unlock()
	if s == nil {
		if k.Reconnect {
			go m.reconnect(address, k)
		}
		return errors.New("dial " + address + ": connection refused")
	}
	c := &Connection{f: m, s: s, a: address, k: k}
	c.cond = sync.NewCond(&c.mx)
	m.mx.Lock()
	if m.closed {
		m.mx.Unlock()
		return errClosed
	}
	m.conns = append(m.conns, c)
	m.mx.Unlock()
	s.mx.Lock()
	c.mx.Lock()
	if c.closed {
		c.mx.Unlock()
		s.mx.Unlock()
		return errClosed
	}
	s.conns = append(s.conns, c)
	c.mx.Unlock()
	s.mx.Unlock()
	go c.run()
	if k.OnConnected != nil {
		k.OnConnected(c)
	}
	return nil
}

// ForEachConn calls fn for every open connection
func (m *MessengerFactory) ForEachConn(fn func(connection *Connection)) {
	m.mx.Lock()
	cs := append([]*Connection(nil), m.conns...)
	m.mx.Unlock()
	for _, c := range cs {
		fn(c)
	}
}

// SetDefaultSeedConfig does nothing
func (m *MessengerFactory) SetDefaultSeedConfig(sc *SeedConfig) error { return nil }

// Listen fails
func (m *MessengerFactory) Listen(address string) error {
	return errors.New("a discovery server is played by a harness")
}

// Close all connections
func (m *MessengerFactory) Close() error {
	m.mx.Lock()
	if m.closed {
		m.mx.Unlock()
		return nil
	}
	m.closed = true
	close(m.quit)
	cs := append([]*Connection(nil), m.conns...)
	m.mx.Unlock()
	for _, c := range cs {
		c.Close()
	}
	return nil
}
