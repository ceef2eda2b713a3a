// Package vsync stands in for package sync in instrumented code.
package vsync

import (
	"vmc/vsched"
)

// Locker as in sync
type Locker interface {
	Lock()
	Unlock()
}

// Mutex as sync.Mutex
type Mutex struct {
	locked bool
	epoch  uint64
	vc     vsched.VC
}

func (m *Mutex) fresh() {
	if e := vsched.Epoch(); m.epoch != e {
		*m = Mutex{epoch: e}
	}
}

// Lock waits
func (m *Mutex) Lock() {
	vsched.Point("Lock")
	m.fresh()
	if m.locked {
		vsched.Block("Lock", func() bool { return !m.locked })
	}
	m.locked = true
	vsched.Acquire(&m.vc)
}

// TryLock does not
func (m *Mutex) TryLock() bool {
	vsched.Point("TryLock")
	m.fresh()
	if m.locked {
		return false
	}
	m.locked = true
	vsched.Acquire(&m.vc)
	return true
}

// Unlock it
func (m *Mutex) Unlock() {
	if vsched.Aborting() {
		return
	}
	m.fresh()
	if !m.locked {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	vsched.Release(&m.vc)
	m.locked = false
}

// RWMutex as sync.RWMutex: a waiting writer keeps new readers out
type RWMutex struct {
	w, ww   bool
	waiting int
	readers int
	epoch   uint64
	vc      vsched.VC // of writers
	rvc     vsched.VC // of readers
}

func (m *RWMutex) fresh() {
	if e := vsched.Epoch(); m.epoch != e {
		*m = RWMutex{epoch: e}
	}
}

// Lock for writing
func (m *RWMutex) Lock() {
	vsched.Point("RWMutex.Lock")
	m.fresh()
	if m.w || m.readers > 0 {
		m.waiting++
		vsched.Block("RWMutex.Lock", func() bool { return !m.w && m.readers == 0 })
		m.waiting--
	}
	m.w = true
	vsched.Acquire(&m.vc)
	vsched.Acquire(&m.rvc)
}

// TryLock for writing
func (m *RWMutex) TryLock() bool {
	vsched.Point("RWMutex.TryLock")
	m.fresh()
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	vsched.Acquire(&m.vc)
	vsched.Acquire(&m.rvc)
	return true
}

// Unlock for writing
func (m *RWMutex) Unlock() {
	if vsched.Aborting() {
		return
	}
	m.fresh()
	if !m.w {
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	vsched.Release(&m.vc)
	m.w = false
}

// RLock for reading
func (m *RWMutex) RLock() {
	vsched.Point("RLock")
	m.fresh()
	if m.w || m.waiting > 0 {
		vsched.Block("RLock", func() bool { return !m.w && m.waiting == 0 })
	}
	m.readers++
	vsched.Acquire(&m.vc)
}

// TryRLock for reading
func (m *RWMutex) TryRLock() bool {
	vsched.Point("TryRLock")
	m.fresh()
	if m.w || m.waiting > 0 {
		return false
	}
	m.readers++
	vsched.Acquire(&m.vc)
	return true
}

// RUnlock for reading
func (m *RWMutex) RUnlock() {
	if vsched.Aborting() {
		return
	}
	m.fresh()
	if m.readers == 0 {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	vsched.Release(&m.rvc)
	m.readers--
}

// RLocker as sync
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// WaitGroup as sync.WaitGroup
type WaitGroup struct {
	n     int
	epoch uint64
	vc    vsched.VC
}

func (w *WaitGroup) fresh() {
	if e := vsched.Epoch(); w.epoch != e {
		*w = WaitGroup{epoch: e}
	}
}

// Add to it
func (w *WaitGroup) Add(d int) {
	if vsched.Aborting() {
		return
	}
	w.fresh()
	vsched.Release(&w.vc)
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

// Done one
func (w *WaitGroup) Done() { w.Add(-1) }

// Wait for zero
func (w *WaitGroup) Wait() {
	vsched.Point("WaitGroup.Wait")
	w.fresh()
	if w.n != 0 {
		vsched.Block("WaitGroup.Wait", func() bool { return w.n == 0 })
	}
	vsched.Acquire(&w.vc)
}

// Go as sync
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vsched.Go(func() {
		defer w.Done()
		f()
	})
}

// Once as sync.Once
type Once struct {
	done  bool
	m     Mutex
	epoch uint64
	vc    vsched.VC
}

// Do it once
func (o *Once) Do(f func()) {
	if o.done {
		vsched.Acquire(&o.vc)
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			o.done = true
			vsched.Release(&o.vc)
		}()
		f()
	}
}

// Cond as sync.Cond
type Cond struct {
	L  Locker
	q  []*bool
	vc vsched.VC
}

// NewCond as sync
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait as sync
func (c *Cond) Wait() {
	w := new(bool)
	c.q = append(c.q, w)
	c.L.Unlock()
	vsched.Block("Cond.Wait", func() bool { return *w })
	vsched.Acquire(&c.vc)
	c.L.Lock()
}

// Signal as sync
func (c *Cond) Signal() {
	vsched.Release(&c.vc)
	if len(c.q) > 0 {
		*c.q[0] = true
		c.q = c.q[1:]
	}
}

// Broadcast as sync
func (c *Cond) Broadcast() {
	for len(c.q) > 0 {
		c.Signal()
	}
}

// Pool as sync.Pool
type Pool struct {
	New func() interface{}
	xs  []interface{}
}

// Get as sync
func (p *Pool) Get() interface{} {
	if n := len(p.xs); n > 0 {
		x := p.xs[n-1]
		p.xs = p.xs[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put as sync
func (p *Pool) Put(x interface{}) { p.xs = append(p.xs, x) }

// Map as sync.Map
type Map struct {
	m Mutex
	k []interface{}
	v map[interface{}]interface{}
}

// Load as sync
func (m *Map) Load(k interface{}) (v interface{}, ok bool) {
	m.m.Lock()
	defer m.m.Unlock()
	v, ok = m.v[k]
	return
}

// Store as sync
func (m *Map) Store(k, v interface{}) {
	m.m.Lock()
	defer m.m.Unlock()
	m.set(k, v)
}

func (m *Map) set(k, v interface{}) {
	if m.v == nil {
		m.v = map[interface{}]interface{}{}
	}
	if _, ok := m.v[k]; !ok {
		m.k = append(m.k, k)
	}
	m.v[k] = v
}

// LoadOrStore as sync
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	m.m.Lock()
	defer m.m.Unlock()
	if x, ok := m.v[k]; ok {
		return x, true
	}
	m.set(k, v)
	return v, false
}

// LoadAndDelete as sync
func (m *Map) LoadAndDelete(k interface{}) (v interface{}, ok bool) {
	m.m.Lock()
	defer m.m.Unlock()
	v, ok = m.v[k]
	delete(m.v, k)
	for i := range m.k {
		if m.k[i] == k {
			m.k = append(m.k[:i:i], m.k[i+1:]...)
			break
		}
	}
	return
}

// Delete as sync
func (m *Map) Delete(k interface{}) { m.LoadAndDelete(k) }

// Range as sync
func (m *Map) Range(f func(k, v interface{}) bool) {
	m.m.Lock()
	ks := append([]interface{}(nil), m.k...)
	m.m.Unlock()
	for _, k := range ks {
		if v, ok := m.Load(k); ok && !f(k, v) {
			return
		}
	}
}

// OnceFunc as sync
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue as sync
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues as sync
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

// Swap as sync
func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	m.m.Lock()
	defer m.m.Unlock()
	x, ok := m.v[k]
	m.set(k, v)
	return x, ok
}

// CompareAndSwap as sync
func (m *Map) CompareAndSwap(k, o, n interface{}) bool {
	m.m.Lock()
	defer m.m.Unlock()
	if x, ok := m.v[k]; !ok || x != o {
		return false
	}
	m.set(k, n)
	return true
}

// CompareAndDelete as sync
func (m *Map) CompareAndDelete(k, o interface{}) bool {
	if x, ok := m.Load(k); !ok || x != o {
		return false
	}
	m.Delete(k)
	return true
}

// Clear as sync
func (m *Map) Clear() {
	m.m.Lock()
	defer m.m.Unlock()
	m.k, m.v = nil, nil
}
