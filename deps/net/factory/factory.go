// Package factory is an offline in-memory stand-in for
// github.com/skycoin/net/factory. Addresses live in one process-wide table;
// a connection is a pair of reliable ordered message pipes.
package factory

import (
	"errors"
	"fmt"
	"net"
	"sync"
)

type addr struct{ network, s string }

func (a addr) Network() string { return a.network }
func (a addr) String() string  { return a.s }

// A Connection is one end of a message pipe
type Connection struct {
	tcp    bool
	remote addr
	local  addr
	in     chan []byte
	out    chan []byte
	pipe   *pipe
}

type pipe struct {
	once   sync.Once
	closed chan struct{}
}

func (p *pipe) close() { p.once.Do(func() { close(p.closed) }) }

// NewPipe makes two connected ends; the harness uses it to play a peer
func NewPipe(tcp bool, a, b string) (x, y *Connection) {
	p := &pipe{closed: make(chan struct{})}
	n := "udp"
	if tcp {
		n = "tcp"
	}
	mk := func(l, r string) *Connection {
		return &Connection{tcp: tcp, local: addr{n, l}, remote: addr{n, r},
			in: make(chan []byte, 128), out: make(chan []byte, 128), pipe: p}
	}
	x, y = mk(a, b), mk(b, a)
	go pump(x.out, y.in, p)
	go pump(y.out, x.in, p)
	return
}

func pump(out <-chan []byte, in chan<- []byte, p *pipe) {
	defer close(in)
	for {
		select {
		case <-p.closed:
			// what was sent before is delivered
			for {
				select {
				case m := <-out:
					select {
					case in <- m:
						continue
					default:
					}
				default:
				}
				return
			}
		case m := <-out:
			select {
			case in <- m:
			case <-p.closed:
				return
			}
		}
	}
}

// GetChanIn of received messages; closed when the connection is closed
func (c *Connection) GetChanIn() <-chan []byte { return c.in }

// GetChanOut of messages to send
func (c *Connection) GetChanOut() chan<- []byte { return c.out }

// GetRemoteAddr of the peer
func (c *Connection) GetRemoteAddr() net.Addr { return c.remote }

// GetLocalAddr of this end
func (c *Connection) GetLocalAddr() net.Addr { return c.local }

// IsTCP or UDP
func (c *Connection) IsTCP() bool { return c.tcp }

// IsUDP or TCP
func (c *Connection) IsUDP() bool { return !c.tcp }

// IsClosed by either end
func (c *Connection) IsClosed() bool {
	select {
	case <-c.pipe.closed:
		return true
	default:
		return false
	}
}

// Close both ends
func (c *Connection) Close() { c.pipe.close() }

// Write a message
func (c *Connection) Write(b []byte) error {
	select {
	case c.out <- b:
		return nil
	case <-c.pipe.closed:
		return errors.New("connection closed")
	}
}

type common struct {
	AcceptedCallback func(connection *Connection)

	tcp    bool
	mx     sync.Mutex
	listen string
	conns  []*Connection
	closed bool
}

var table = struct {
	sync.Mutex
	ls   map[string]*common
	port int
}{ls: map[string]*common{}, port: 40000}

// Reset forgets all listeners; harnesses call it between executions
func Reset() { table.ls, table.port = map[string]*common{}, 40000 }

func key(tcp bool, a string) string {
	if len(a) > 0 && a[0] == ':' {
		a = "127.0.0.1" + a
	}
	return fmt.Sprint(tcp, a)
}

// Listen on an address
func (f *common) Listen(address string) error {
	table.Lock()
	defer table.Unlock()
	k := key(f.tcp, address)
	if _, ok := table.ls[k]; ok {
		return errors.New("listen " + address + ": address already in use")
	}
	table.ls[k] = f
	f.mx.Lock()
	f.listen = k
	f.mx.Unlock()
	return nil
}

// Connect to a listening address
func (f *common) Connect(address string) (*Connection, error) {
	table.Lock()
	l, ok := table.ls[key(f.tcp, address)]
	table.port++
	local := fmt.Sprintf("127.0.0.1:%d", table.port)
	table.Unlock()
	if !ok {
		return nil, errors.New("dial " + address + ": connection refused")
	}
	x, y := NewPipe(f.tcp, local, address)
	f.add(x)
	l.add(y)
	if cb := l.AcceptedCallback; cb != nil {
		go cb(y)
	}
	return x, nil
}

func (f *common) add(c *Connection) {
	f.mx.Lock()
	defer f.mx.Unlock()
	f.conns = append(f.conns, c)
	if f.closed {
		c.Close()
	}
}

// Close listener and all connections
func (f *common) Close() error {
	table.Lock()
	f.mx.Lock()
	if f.listen != "" {
		delete(table.ls, f.listen)
		f.listen = ""
	}
	f.closed = true
	cs := f.conns
	f.conns = nil
	f.mx.Unlock()
	table.Unlock()
	for _, c := range cs {
		c.Close()
	}
	return nil
}

// ForEachConn calls fn for every open connection
func (f *common) ForEachConn(fn func(connection *Connection)) {
	f.mx.Lock()
	cs := append([]*Connection(nil), f.conns...)
	f.mx.Unlock()
	for _, c := range cs {
		if !c.IsClosed() {
			fn(c)
		}
	}
}

// TCPFactory of connections
type TCPFactory struct{ common }

// NewTCPFactory creates
func NewTCPFactory() *TCPFactory { return &TCPFactory{common{tcp: true}} }

// UDPFactory of connections
type UDPFactory struct{ common }

// NewUDPFactory creates
func NewUDPFactory() *UDPFactory { return &UDPFactory{common{}} }
