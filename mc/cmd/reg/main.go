// Checks R01-R06: registry, tree traversal, malformed data and reference lists.
package main

import (
	"errors"
	"time"

	"github.com/skycoin/skycoin/src/cipher"

	"github.com/skycoin/cxo/skyobject/registry"

	"vmc/core"
)

func main() {
	core.Main(map[string]core.Check{
		"R01": {Level: "model_checking", Run: r01},
		"R02": {Level: "model_checking", Run: r02},
		"R03": {Level: "model_checking", Run: r03, Sharded: true},
		"R04": {Level: "model_checking", Run: r04, Quick: 200 * time.Second},
		"R05": {Level: "model_checking", Run: r05},
		"R06": {Level: "model_checking", Run: r06},
	})
}

var (
	errTest    = errors.New("error of the callback")
	errMissing = errors.New("no such object")
)

// pack is a plain store of objects
type pack struct {
	reg   *registry.Registry
	m     map[cipher.SHA256][]byte
	deg   registry.Degree
	flags registry.Flags
	gets  int
}

func newPack(deg registry.Degree, flags registry.Flags) *pack {
	return &pack{m: map[cipher.SHA256][]byte{}, deg: deg, flags: flags}
}

func (p *pack) Registry() *registry.Registry { return p.reg }
func (p *pack) Get(k cipher.SHA256) ([]byte, error) {
	p.gets++
	if v, ok := p.m[k]; ok {
		return v, nil
	}
	return nil, errMissing
}
func (p *pack) Set(k cipher.SHA256, v []byte) error {
	if k != cipher.SumSHA256(v) {
		return errors.New("wrong hash of a value")
	}
	p.m[k] = append([]byte(nil), v...)
	return nil
}
func (p *pack) Add(v []byte) (k cipher.SHA256, err error) {
	k = cipher.SumSHA256(v)
	return k, p.Set(k, v)
}
func (p *pack) Degree() registry.Degree { return p.deg }
func (p *pack) SetDegree(d registry.Degree) error {
	if err := d.Validate(); err != nil {
		return err
	}
	p.deg = d
	return nil
}
func (p *pack) Flags() registry.Flags       { return p.flags }
func (p *pack) AddFlags(f registry.Flags)   { p.flags |= f }
func (p *pack) ClearFlags(f registry.Flags) { p.flags &^= f }
