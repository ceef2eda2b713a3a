package fake

import (
	"github.com/skycoin/skycoin/src/cipher"

	"github.com/skycoin/cxo/data"
	"github.com/skycoin/cxo/data/cxds"
)

// CXDS is the memory CXDS of the repository that survives Close, counts calls
// and fails on demand.
type CXDS struct {
	data.CXDS
	Gets   int // successful or not, for any object
	Writes int
	Closed int
	Fail   func(op string, key cipher.SHA256) error // if set, asked before each call
}

// NewCXDS makes an empty store
func NewCXDS() *CXDS { return &CXDS{CXDS: cxds.NewMemoryCXDS()} }

func (d *CXDS) fail(op string, key cipher.SHA256) error {
	if d.Fail != nil {
		return d.Fail(op, key)
	}
	return nil
}

// Get a value
func (d *CXDS) Get(key cipher.SHA256, inc int) (val []byte, rc uint32, err error) {
	d.Gets++
	if inc != 0 {
		d.Writes++
	}
	if err = d.fail("Get", key); err != nil {
		return
	}
	return d.CXDS.Get(key, inc)
}

// Set a value
func (d *CXDS) Set(key cipher.SHA256, val []byte, inc int) (rc uint32, err error) {
	d.Writes++
	if err = d.fail("Set", key); err != nil {
		return
	}
	return d.CXDS.Set(key, val, inc)
}

// Inc a count
func (d *CXDS) Inc(key cipher.SHA256, inc int) (rc uint32, err error) {
	d.Writes++
	if err = d.fail("Inc", key); err != nil {
		return
	}
	return d.CXDS.Inc(key, inc)
}

// Close keeps the objects
func (d *CXDS) Close() error { d.Closed++; return nil }
