package vsched

import (
	"fmt"
	"runtime"
	"unsafe"
)

// VC is a vector clock
type VC []uint32

func (v VC) clone() VC { return append(VC(nil), v...) }

func (v *VC) grow(n int) {
	for len(*v) <= n {
		*v = append(*v, 0)
	}
}

func (v *VC) tick(i int) { v.grow(i); (*v)[i]++ }

func (v *VC) join(o VC) {
	if len(o) == 0 {
		return
	}
	v.grow(len(o) - 1)
	for i, x := range o {
		if x > (*v)[i] {
			(*v)[i] = x
		}
	}
}

func (v VC) get(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

// Acquire and Release order goroutines through a synchronisation object
func Acquire(v *VC) {
	if S != nil && S.opts.Race && !S.aborting {
		S.cur.vc.join(*v)
	}
}

// Release see Acquire
func Release(v *VC) {
	if S != nil && S.opts.Race && !S.aborting {
		v.join(S.cur.vc)
		S.cur.vc.tick(S.cur.id)
	}
}

type access struct {
	g    int
	c    uint32
	what string
}

type shadow struct {
	p  unsafe.Pointer // keeps the variable alive: its address is not reused
	w  access
	rs []access
}

// R records a read of the variable the function points at
func R(what string, f func() unsafe.Pointer) { acc(what, f, false) }

// W records a write
func W(what string, f func() unsafe.Pointer) { acc(what, f, true) }

func ptr(f func() unsafe.Pointer) (p unsafe.Pointer) {
	defer func() { recover() }()
	return f()
}

func acc(what string, f func() unsafe.Pointer, write bool) {
	s := S
	if s == nil || !s.opts.Race || s.aborting {
		return
	}
	up := ptr(f)
	p := uintptr(up)
	if p == 0 {
		return
	}
	g := s.cur
	sh := s.shadow[p]
	if sh == nil {
		sh = &shadow{p: up}
		s.shadow[p] = sh
	}
	me := access{g.id, g.vc.get(g.id), what}
	hb := func(a access) bool { return a.g == 0 || a.g == g.id || a.c <= g.vc.get(a.g) }
	bad := ""
	if !hb(sh.w) {
		bad = fmt.Sprintf("write of %s and access of %s", sh.w.what, what)
	}
	if write {
		for _, r := range sh.rs {
			if !hb(r) {
				bad = fmt.Sprintf("read of %s and write of %s", r.what, what)
			}
		}
		sh.w, sh.rs = me, sh.rs[:0]
	} else {
		for i := range sh.rs {
			if sh.rs[i].g == g.id {
				sh.rs[i] = me
				goto done
			}
		}
		sh.rs = append(sh.rs, me)
	}
done:
	if bad != "" {
		_, file, line, _ := runtime.Caller(2)
		Fail("race", fmt.Sprintf("unordered accesses (data race): %s (%s:%d)", bad, file, line))
	}
}
