package main

import (
	"bytes"
	"fmt"

	"github.com/skycoin/skycoin/src/cipher"

	"github.com/skycoin/cxo/data"
	"github.com/skycoin/cxo/skyobject/registry"

	"vmc/core"
)

// a received root
type recv struct {
	name string
	f    int // presented for this feed
	sig  cipher.Sig
	val  []byte
}

func signed(f int, val []byte) cipher.Sig {
	return must(cipher.SignHash(cipher.SumSHA256(val), idents[f].sk))
}

// authentic tells whether a received root has to be accepted; it decides from
// the bytes only, with a decoder of its own
func (v recv) authentic() (r *registry.Root, ok bool) {
	if cipher.VerifyPubKeySignedHash(idents[v.f].pk, v.sig, cipher.SumSHA256(v.val)) != nil {
		return
	}
	if r, ok = parseRoot(v.val); !ok || r.Pub != idents[v.f].pk {
		return nil, false
	}
	return
}

// parseRoot is the wire format of a root
func parseRoot(b []byte) (r *registry.Root, ok bool) {
	r = new(registry.Root)
	bad := false
	take := func(n int) []byte {
		if bad || n < 0 || n > len(b) {
			bad = true
			return make([]byte, max(0, min(n, 64)))
		}
		x := b[:n]
		b = b[n:]
		return x
	}
	le := func(n int) (u uint64) {
		for i, c := range take(n) {
			u |= uint64(c) << (8 * i)
		}
		return
	}
	n := int(uint32(le(4)))
	for i := 0; i < n && !bad; i++ {
		var d registry.Dynamic
		copy(d.Hash[:], take(len(d.Hash)))
		copy(d.Schema[:], take(len(d.Schema)))
		r.Refs = append(r.Refs, d)
	}
	r.Descriptor = append([]byte(nil), take(int(uint32(le(4))))...)
	copy(r.Reg[:], take(len(r.Reg)))
	copy(r.Pub[:], take(len(r.Pub)))
	r.Nonce = le(8)
	r.Seq = le(8)
	r.Time = int64(le(8))
	copy(r.Prev[:], take(len(r.Prev)))
	return r, !bad && len(b) == 0
}

// mutations of a valid value
func mutated(val []byte, every int) (ms [][]byte) {
	for n := 0; n < len(val); n++ {
		ms = append(ms, val[:n:n])
	}
	for i := range val {
		for bit := 0; bit < 8; bit++ {
			if every > 1 && (i*8+bit)%every != 0 && i > 7 && i < len(val)-60 {
				continue
			}
			m := append([]byte(nil), val...)
			m[i] ^= 1 << bit
			ms = append(ms, m)
		}
		for _, c := range []byte{0, 1, 0x7f, 0x80, 0xff} {
			m := append([]byte(nil), val...)
			m[i] = c
			ms = append(ms, m)
		}
	}
	for _, t := range [][]byte{{0}, {1}, {0, 0, 0, 0}, val[:4:4], val} {
		ms = append(ms, append(append([]byte(nil), val...), t...))
		ms = append(ms, append(append([]byte(nil), t...), val...))
	}
	return
}

func equalRoots(a, b *registry.Root) bool {
	if len(a.Refs) != len(b.Refs) || !bytes.Equal(a.Descriptor, b.Descriptor) {
		return false
	}
	for i := range a.Refs {
		if a.Refs[i] != b.Refs[i] {
			return false
		}
	}
	return a.Reg == b.Reg && a.Pub == b.Pub && a.Nonce == b.Nonce && a.Seq == b.Seq && a.Time == b.Time && a.Prev == b.Prev
}

// receive a root and compare with the model; the container must not change
func (x *worldRun) receive(v recv) string {
	want, ok := v.authentic()
	writes := x.cx.Writes
	val := append([]byte(nil), v.val...)
	pr, perr := x.c.PreviewRoot(idents[v.f].pk, v.sig, val)
	r, err := x.c.ReceivedRoot(idents[v.f].pk, v.sig, val)
	if x.cx.Writes != writes {
		return "receiving a root writes to the store"
	}
	if !bytes.Equal(val, v.val) {
		return "the received value is modified"
	}
	check := func(what string, g *registry.Root) string {
		switch {
		case !equalRoots(g, want):
			return what + " returns another root"
		case g.Hash != cipher.SumSHA256(v.val):
			return what + " returns wrong hash"
		case g.Sig != v.sig:
			return what + " returns wrong signature"
		case !bytes.Equal(g.Encode(), v.val):
			return what + ": the root has another encoded form than the signed one"
		}
		return ""
	}
	switch {
	case !ok && perr == nil:
		return "PreviewRoot accepts it"
	case !ok && err == nil:
		return "ReceivedRoot accepts it"
	case !ok:
		return ""
	case perr != nil:
		return "PreviewRoot refuses it: " + perr.Error()
	}
	if bad := check("PreviewRoot", pr); bad != "" {
		return bad
	}
	if pr.IsFull {
		return "PreviewRoot says it is full"
	}
	if !x.feed[v.f] {
		return wantErr("ReceivedRoot", err, data.ErrNoSuchFeed)
	}
	if err != nil {
		return "ReceivedRoot refuses it: " + err.Error()
	}
	if bad := check("ReceivedRoot", r); bad != "" {
		return bad
	}
	held := false
	for _, m := range x.roots {
		held = held || m.hash == r.Hash
	}
	if r.IsFull != held {
		return fmt.Sprintf("ReceivedRoot says IsFull=%v, want %v", r.IsFull, held)
	}
	return ""
}

// again adds a held root, or a variant that must be refused
func (x *worldRun) addAgain() string {
	for _, m := range x.roots {
		base, _ := parseRoot(m.val)
		base.Hash, base.Sig, base.IsFull = m.hash, signed(m.f, m.val), true
		type tc struct {
			name string
			f    func(r *registry.Root)
			err  bool
		}
		for _, c := range []tc{
			{"held root", func(r *registry.Root) {}, false},
			{"root that is not full", func(r *registry.Root) { r.IsFull = false }, true},
			{"root without feed", func(r *registry.Root) { r.Pub = cipher.PubKey{} }, true},
			{"root without hash", func(r *registry.Root) { r.Hash = hash{} }, true},
			{"root without signature", func(r *registry.Root) { r.Sig = cipher.Sig{} }, true},
			{"root of an unknown feed", func(r *registry.Root) { r.Pub = idents[3].pk }, true},
			{"another root with the same seq", func(r *registry.Root) { r.Time++; r.Hash = cipher.SumSHA256(r.Encode()) }, true},
			{"blank root that is not full", func(r *registry.Root) { *r = registry.Root{} }, true},
		} {
			r := *base
			c.f(&r)
			have, err := x.c.AddRoot(&r)
			if c.err && (err == nil || have) {
				return fmt.Sprintf("AddRoot of a %s: %v, %v", c.name, have, err)
			}
			if !c.err && (err != nil || !have) {
				return fmt.Sprintf("AddRoot of a %s: alreadyHave=%v, %v", c.name, have, err)
			}
			if bad := x.compare(); bad != "" {
				return fmt.Sprintf("after AddRoot of a %s: %s", c.name, bad)
			}
		}
	}
	return ""
}

func c08(r *core.R) {
	r.Rule("a case is a received root (feed it is presented for, signature, bytes) given to ReceivedRoot and PreviewRoot of a container with some history; an independent decoder of the format and the signature decide whether it is authentic; afterwards index, counts and values must be unchanged")
	confs := worldConfs()
	cf := confs[0]
	cf.feeds, cf.nonces, cf.contents = 2, []uint64{1, 2}, []int{0, 1, 3}
	pre := worldOps(cf, "Save", "Fill", "DelLast", "DelHead", "DelFeed")
	var hist [][]int
	core.Seqs(len(pre), 0, r.Pick(3, 4), func(h []int) bool {
		hist = append(hist, append([]int(nil), h...))
		return true
	})
	var names []string
	for _, o := range pre {
		names = append(names, o.name)
	}
	sample := func(x *worldRun) (vs []recv) {
		add := func(name string, f int, val []byte, sf int) {
			vs = append(vs, recv{name, f, signed(sf, val), val})
		}
		// what it holds, or held
		for _, m := range append(append([]*mroot(nil), x.roots...), x.gone...) {
			for f := range x.feed {
				add("stored root", f, m.val, m.f)
				add("stored root, other signature", f, m.val, 1-m.f)
			}
			r, _ := parseRoot(m.val)
			r.Time++
			add("another root with seq of a stored one", m.f, r.Encode(), m.f)
			r.Time--
			r.Seq += 5
			add("next root", m.f, r.Encode(), m.f)
		}
		for f := range x.feed {
			for n := range x.cf.nonces {
				for _, k := range x.cf.contents {
					for _, seq := range []uint64{0, 1, 2, 1<<64 - 1} {
						ro := x.remoteRoot(f, n, k, seq)
						for g := range x.feed {
							add("root", g, ro.Encode(), f)
							add("root, signed by the presenter", g, ro.Encode(), g)
							add("root, signed by a stranger", g, ro.Encode(), 3)
						}
					}
				}
			}
			vs = append(vs, recv{"nothing", f, signed(f, nil), nil}, recv{"blank signature", f, cipher.Sig{}, x.remoteRoot(f, 0, 1, 0).Encode()})
		}
		return
	}
	do := func(name string, pre []wop, h []int, vs func(x *worldRun) []recv, cmp bool) {
		var what string
		var bad string
		p := r.Guard(func() string { return name }, func() {
			x, err := newWorldRun(cf)
			if err != nil {
				bad = err.Error()
				return
			}
			defer x.end()
			for _, q := range h {
				if bad = pre[q].run(x); bad != "" {
					if bad == "-" {
						bad = ""
					}
					return
				}
			}
			list := vs(x)
			for _, v := range list {
				what = fmt.Sprintf("%s for feed %d, %x", v.name, v.f, cipher.SumSHA256(v.val))
				if bad = x.receive(v); bad != "" {
					return
				}
				r.Validated.Add(1)
				a, _ := v.authentic()
				r.Outcome(fmt.Sprint(v.name, v.f, a != nil, x.state()))
			}
			what = "all"
			if bad = x.compare(); bad == "" && cmp {
				what = "AddRoot"
				bad = x.addAgain()
			}
			if bad == "" {
				bad = x.closed()
			}
			r.Transitions.Add(int64(len(list)))
			r.States.Add(1)
		})
		if p != "" {
			bad = p
		}
		if bad != "" {
			r.Violate(name+": "+what, bad, map[string]interface{}{"history": core.Show(names, h), "received": what})
		}
	}
	r.Parallel(len(hist), func(i int) {
		do("after "+core.Show(names, hist[i]), pre, hist[i], sample, true)
	})
	r.Bound("after every history of up to %d operations of %d: stored, deleted, next and conflicting roots, roots of both feeds and heads, presented for either feed, signed by either feed or a stranger", r.Pick(3, 4), len(pre))

	// mutations
	type mc struct {
		k    int
		f, s int
	}
	var mcs []mc
	for _, k := range []int{0, 1, 3} {
		for _, s := range []int{0, 1, -1} {
			mcs = append(mcs, mc{k, 0, s})
		}
	}
	n := 0
	r.Parallel(len(mcs)*64, func(i int) {
		c, part := mcs[i/64], i%64
		do(fmt.Sprintf("mutations of %s (signer %d)", cat.contents[c.k].name, c.s), worldOps(cf, "Save(0,1,leaf)"), []int{0}, func(x *worldRun) (vs []recv) {
			ro := x.remoteRoot(0, 0, c.k, 1)
			ro.Descriptor = []byte("desc")
			val := ro.Encode()
			ms := mutated(val, r.Pick(1, 1))
			for j, m := range ms {
				if j%64 != part {
					continue
				}
				sig := signed(0, val) // of the original
				if c.s >= 0 {
					sig = signed(c.s, m)
				}
				vs = append(vs, recv{fmt.Sprint("mutation ", j), 0, sig, m})
			}
			if part == 0 {
				n += len(ms)
				sig := signed(0, val)
				for j := range sig {
					for bit := 0; bit < 8; bit++ {
						g := sig
						g[j] ^= 1 << bit
						vs = append(vs, recv{fmt.Sprint("signature bit ", j, bit), 0, g, val})
					}
				}
			}
			return
		}, false)
	})
	r.Bound("every cut, bit, byte and appended-piece mutation of roots of three contents, with the old signature, signed again by the owner and by another feed, and every bit of the signature")
}
