// Package fake has stand-ins for the stores below a container.
package fake

import (
	"bytes"
	"sort"
	"time"

	"github.com/skycoin/skycoin/src/cipher"

	"github.com/skycoin/cxo/data"
)

// Idx is an in-memory index DB: the model of a data.IdxDB. It has no locks,
// since the container runs transactions one at a time, and reports if not.
type Idx struct {
	m      map[cipher.PubKey]map[uint64]map[uint64]data.Root
	busy   bool
	Closed bool
	Fail   func() error // if set, asked before a transaction is committed
	Txs    int
}

// NewIdx makes a blank index
func NewIdx() *Idx { return &Idx{m: map[cipher.PubKey]map[uint64]map[uint64]data.Root{}} }

func (d *Idx) clone() (c map[cipher.PubKey]map[uint64]map[uint64]data.Root) {
	c = map[cipher.PubKey]map[uint64]map[uint64]data.Root{}
	for p, hs := range d.m {
		c[p] = map[uint64]map[uint64]data.Root{}
		for n, rs := range hs {
			c[p][n] = map[uint64]data.Root{}
			for s, r := range rs {
				c[p][n][s] = r
			}
		}
	}
	return
}

// Tx runs a transaction
func (d *Idx) Tx(fn func(data.Feeds) error) (err error) {
	if d.busy {
		panic("fake: transactions overlap")
	}
	d.busy = true
	d.Txs++
	old := d.clone()
	defer func() { // also if fn panics
		d.busy = false
		if err != nil {
			d.m = old
		}
	}()
	if err = fn(feeds{d}); err == nil && d.Fail != nil {
		err = d.Fail()
	}
	return
}

// Close the index
func (d *Idx) Close() error { d.Closed = true; return nil }

type feeds struct{ d *Idx }

func (f feeds) Add(pk cipher.PubKey) error {
	if f.d.m[pk] == nil {
		f.d.m[pk] = map[uint64]map[uint64]data.Root{}
	}
	return nil
}
func (f feeds) Del(pk cipher.PubKey) error {
	if f.d.m[pk] == nil {
		return data.ErrNoSuchFeed
	}
	delete(f.d.m, pk)
	return nil
}
func stop(err error) error {
	if err == data.ErrStopIteration {
		return nil
	}
	return err
}
func (f feeds) Iterate(fn data.IterateFeedsFunc) (err error) {
	var last cipher.PubKey
	first := true
	for {
		var best cipher.PubKey
		found := false
		for pk := range f.d.m {
			if (first || bytes.Compare(pk[:], last[:]) > 0) && (!found || bytes.Compare(pk[:], best[:]) < 0) {
				best, found = pk, true
			}
		}
		if !found {
			return nil
		}
		if err = fn(best); err != nil {
			return stop(err)
		}
		last, first = best, false
	}
}
func (f feeds) Has(pk cipher.PubKey) (bool, error) { return f.d.m[pk] != nil, nil }
func (f feeds) Heads(pk cipher.PubKey) (data.Heads, error) {
	if hs := f.d.m[pk]; hs != nil {
		return heads{hs}, nil
	}
	return nil, data.ErrNoSuchFeed
}
func (f feeds) Len() int { return len(f.d.m) }

type heads struct {
	m map[uint64]map[uint64]data.Root
}

func (h heads) Roots(n uint64) (data.Roots, error) {
	if rs := h.m[n]; rs != nil {
		return roots{rs}, nil
	}
	return nil, data.ErrNoSuchHead
}
func (h heads) Add(n uint64) (data.Roots, error) {
	if h.m[n] == nil {
		h.m[n] = map[uint64]data.Root{}
	}
	return roots{h.m[n]}, nil
}
func (h heads) Del(n uint64) error {
	if h.m[n] == nil {
		return data.ErrNoSuchHead
	}
	delete(h.m, n)
	return nil
}
func (h heads) Has(n uint64) (bool, error) { return h.m[n] != nil, nil }
func (h heads) Iterate(fn data.IterateHeadsFunc) error {
	var ns []uint64
	for n := range h.m {
		ns = append(ns, n)
	}
	sort.Slice(ns, func(i, j int) bool { return ns[i] < ns[j] })
	for _, n := range ns {
		if err := fn(n); err != nil {
			return stop(err)
		}
	}
	return nil
}
func (h heads) Len() int { return len(h.m) }

type roots struct{ m map[uint64]data.Root }

func (r roots) sorted() (s []uint64) {
	for q := range r.m {
		s = append(s, q)
	}
	sort.Slice(s, func(i, j int) bool { return s[i] < s[j] })
	return
}
func (r roots) Ascend(fn data.IterateRootsFunc) error {
	for _, q := range r.sorted() {
		if d, ok := r.m[q]; ok {
			if err := fn(&d); err != nil {
				return stop(err)
			}
		}
	}
	return nil
}
func (r roots) Descend(fn data.IterateRootsFunc) error {
	s := r.sorted()
	for i := range s {
		if d, ok := r.m[s[len(s)-1-i]]; ok {
			if err := fn(&d); err != nil {
				return stop(err)
			}
		}
	}
	return nil
}
func (r roots) Set(d *data.Root) error {
	if err := d.Validate(); err != nil {
		return err
	}
	old, ok := r.m[d.Seq]
	if ok {
		d.Create, d.Access = old.Create, old.Access
		old.Access = time.Now().UnixNano()
		r.m[d.Seq] = old
		return nil
	}
	d.Access = time.Now().UnixNano()
	d.Create = d.Access
	r.m[d.Seq] = *d
	return nil
}
func (r roots) Del(q uint64) error { delete(r.m, q); return nil }
func (r roots) Get(q uint64) (*data.Root, error) {
	d, ok := r.m[q]
	if !ok {
		return nil, data.ErrNotFound
	}
	n := d
	n.Access = time.Now().UnixNano()
	r.m[q] = n
	return &d, nil
}
func (r roots) Has(q uint64) (bool, error) { _, ok := r.m[q]; return ok, nil }
func (r roots) Len() int                   { return len(r.m) }
