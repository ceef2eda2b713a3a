// Checks D01-D05: object stores and the root index.
package main

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"github.com/skycoin/skycoin/src/cipher"

	"github.com/skycoin/cxo/data"
	"github.com/skycoin/cxo/data/cxds"

	"vmc/core"
)

func main() {
	core.Main(map[string]core.Check{
		"D01": {Level: "model_checking", Run: d01},
		"D02": {Level: "model_checking", Run: d02},
		"D03": {Level: "fault_enumeration", Run: d03},
		"D04": {Level: "model_checking", Run: d04},
		"D05": {Level: "model_checking", Run: d05},
	})
}

var fileN atomic.Int64

func tempName() string {
	return filepath.Join(core.Scratch(), fmt.Sprintf("db%d", fileN.Add(1)))
}

// ---- object stores

func key(i int) (k cipher.SHA256) {
	switch i {
	case 0:
		// all zero
	case 1:
		for j := range k {
			k[j] = 0xff
		}
	default:
		k[0], k[31] = byte(i), 0xff
	}
	return
}

func val(i int) []byte {
	if i == 2 {
		return []byte(strings.Repeat("v", 300))
	}
	return []byte(fmt.Sprint("value ", i))
}

type obj struct {
	rc uint32
	v  string
}

type model map[int]obj

func (m model) clone() model {
	c := model{}
	for k, v := range m {
		c[k] = v
	}
	return c
}

func (m model) String() string {
	var s []string
	for k, v := range m {
		s = append(s, fmt.Sprintf("%d=%d:%d", k, v.rc, len(v.v)))
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

var errTest = errors.New("error of the callback")

// a store under test
type store struct {
	drive bool
	name  string
	s     data.CXDS
}

func newStore(drive bool) (st *store, err error) {
	st = &store{drive: drive}
	if !drive {
		st.s = cxds.NewMemoryCXDS()
		return
	}
	st.name = tempName()
	st.s, err = cxds.NewDriveCXDS(st.name)
	return
}

func (st *store) close() {
	if st.s != nil {
		st.s.Close()
	}
	if st.name != "" {
		os.Remove(st.name)
	}
}

func inc(rc uint32, n int) uint32 {
	if n < 0 && uint32(-n) >= rc {
		return 0
	}
	return uint32(int64(rc) + int64(n))
}

// op on a store: run performs it, and returns a description of what is wrong
type op struct {
	name string
	run  func(st *store, m model) string
	mem  bool // also for the store in memory
}

func rcErr(what string, rc uint32, err error, want uint32, werr error) string {
	if werr != nil {
		if err == nil {
			return fmt.Sprintf("%s gives no error, want %v", what, werr)
		}
		if werr == data.ErrNotFound && err != werr {
			return fmt.Sprintf("%s gives error %q, want %q", what, err, werr)
		}
		return ""
	}
	if err != nil {
		return fmt.Sprintf("%s gives error %q", what, err)
	}
	if rc != want {
		return fmt.Sprintf("%s gives count %d, want %d", what, rc, want)
	}
	return ""
}

func objOps(keys int) (ops []op) {
	add := func(mem bool, name string, run func(st *store, m model) string) {
		ops = append(ops, op{name, run, mem})
	}
	for i := 0; i < keys; i++ {
		k := key(i)
		for _, n := range []int{1, 3} {
			add(true, fmt.Sprintf("Set(k%d,+%d)", i, n), func(st *store, m model) string {
				v := val(i)
				rc, err := st.s.Set(k, v, n)
				w := inc(m[i].rc, n)
				m[i] = obj{w, string(v)}
				return rcErr("Set", rc, err, w, nil)
			})
		}
		incs := []int{0, 2, -1, -9}
		if i > 0 {
			incs = []int{-1}
		}
		for _, n := range incs {
			add(true, fmt.Sprintf("Inc(k%d,%+d)", i, n), func(st *store, m model) string {
				rc, err := st.s.Inc(k, n)
				o, ok := m[i]
				if !ok {
					return rcErr("Inc", rc, err, 0, data.ErrNotFound)
				}
				o.rc = inc(o.rc, n)
				m[i] = o
				return rcErr("Inc", rc, err, o.rc, nil)
			})
		}
		incs = []int{0, 1, -2}
		if i > 0 {
			incs = []int{-2}
		}
		for _, n := range incs {
			add(true, fmt.Sprintf("Get(k%d,%+d)", i, n), func(st *store, m model) string {
				v, rc, err := st.s.Get(k, n)
				o, ok := m[i]
				if !ok {
					return rcErr("Get", rc, err, 0, data.ErrNotFound)
				}
				o.rc = inc(o.rc, n)
				m[i] = o
				if err == nil && string(v) != o.v {
					return fmt.Sprintf("Get gives value %q, want %q", v, o.v)
				}
				return rcErr("Get", rc, err, o.rc, nil)
			})
		}
		add(true, fmt.Sprintf("Del(k%d)", i), func(st *store, m model) string {
			err := st.s.Del(k)
			delete(m, i)
			if err != nil {
				return fmt.Sprintf("Del gives error %q", err)
			}
			return ""
		})
	}
	add(true, "Set(k0,blank)", func(st *store, m model) string {
		if _, err := st.s.Set(key(0), nil, 1); err == nil {
			return "a blank value is accepted"
		}
		if _, err := st.s.Set(key(9), []byte{}, 1); err == nil {
			return "a blank value is accepted"
		}
		return ""
	})
	for _, stop := range []int{0, 1} {
		add(true, fmt.Sprintf("Iterate(stop after %d)", stop), func(st *store, m model) string {
			for _, e := range []error{data.ErrStopIteration, errTest} {
				n := 0
				err := st.s.Iterate(func(cipher.SHA256, uint32, []byte) error {
					n++
					if n > stop {
						return e
					}
					return nil
				})
				want := error(nil)
				if e == errTest && len(m) > stop {
					want = e
				}
				if err != want {
					return fmt.Sprintf("Iterate gives error %v, want %v", err, want)
				}
				if n != min(len(m), stop+1) {
					return fmt.Sprintf("Iterate makes %d calls, want %d", n, min(len(m), stop+1))
				}
			}
			return ""
		})
	}
	// iterate with delete: by a predicate over key and count; the callback sees everything once
	for _, d := range []struct {
		name string
		del  func(i int, o obj) bool
	}{
		{"none", func(int, obj) bool { return false }},
		{"all", func(int, obj) bool { return true }},
		{"unused", func(i int, o obj) bool { return o.rc == 0 }},
		{"even", func(i int, o obj) bool { return i%2 == 0 }},
	} {
		add(true, "IterateDel("+d.name+")", func(st *store, m model) string {
			seen := model{}
			bad := ""
			calls := 0
			err := st.s.IterateDel(func(k cipher.SHA256, rc uint32, v []byte) (bool, error) {
				if calls++; calls > 1000 {
					return false, errTest
				}
				i := index(k)
				if _, ok := seen[i]; ok {
					bad = "an object is shown twice"
				}
				seen[i] = obj{rc, string(v)}
				return d.del(i, obj{rc, string(v)}), nil
			})
			if bad == "" && seen.String() != m.String() {
				bad = fmt.Sprintf("IterateDel shows %v, want %v", seen, m)
			}
			for i, o := range m {
				if d.del(i, o) {
					delete(m, i)
				}
			}
			if err != nil {
				bad = fmt.Sprintf("IterateDel gives error %v", err)
			}
			return bad
		})
	}
	add(true, "IterateDel(first, then stop)", func(st *store, m model) string {
		n := 0
		var gone []int
		err := st.s.IterateDel(func(k cipher.SHA256, rc uint32, v []byte) (bool, error) {
			if n++; n > 1 {
				return false, data.ErrStopIteration
			}
			gone = append(gone, index(k))
			return true, nil
		})
		for _, i := range gone {
			delete(m, i)
		}
		if err != nil {
			return fmt.Sprintf("IterateDel gives error %v", err)
		}
		return ""
	})
	// an error of the callback is returned; what was chosen for deletion so far
	// is either gone or still there (entirely)
	add(true, "IterateDel(first, then error)", func(st *store, m model) string {
		n := 0
		var gone []int
		err := st.s.IterateDel(func(k cipher.SHA256, rc uint32, v []byte) (bool, error) {
			if n++; n > 1 {
				return false, errTest
			}
			gone = append(gone, index(k))
			return true, nil
		})
		if len(m) > 1 && err != errTest || len(m) <= 1 && err != nil {
			return fmt.Sprintf("IterateDel gives error %v with %d objects", err, len(m))
		}
		for _, i := range gone {
			if _, _, err := st.s.Get(key(i), 0); err != nil {
				delete(m, i)
			} else if len(m) == 1 {
				return "the object is not deleted"
			}
		}
		return ""
	})
	add(false, "reopen", func(st *store, m model) string {
		if err := st.s.Close(); err != nil {
			return fmt.Sprintf("Close gives error %v", err)
		}
		var err error
		if st.s, err = cxds.NewDriveCXDS(st.name); err != nil {
			return fmt.Sprintf("reopening gives error %v", err)
		}
		return ""
	})
	return
}

func index(k cipher.SHA256) int {
	if i := int(k[0]); i >= 2 && i < 255 && key(i) == k {
		return i
	}
	for i := 0; i < 2; i++ {
		if key(i) == k {
			return i
		}
	}
	return -1
}

// content by enumeration
func content(s data.CXDS) (m model, bad string) {
	m = model{}
	err := s.Iterate(func(k cipher.SHA256, rc uint32, v []byte) error {
		i := index(k)
		if _, ok := m[i]; ok {
			bad = "Iterate shows an object twice"
		}
		m[i] = obj{rc, string(v)}
		return nil
	})
	if err != nil {
		bad = fmt.Sprintf("Iterate gives error %v", err)
	}
	return
}

func compare(s data.CXDS, m model, keys int) string {
	c, bad := content(s)
	if bad != "" {
		return bad
	}
	if c.String() != m.String() {
		return fmt.Sprintf("the store holds {%v}, want {%v}", c, m)
	}
	for i, o := range m {
		if c[i].v != o.v {
			return fmt.Sprintf("object %d is %q, want %q", i, c[i].v, o.v)
		}
	}
	for i := 0; i <= keys; i++ {
		v, rc, err := s.Get(key(i), 0)
		o, ok := m[i]
		if !ok {
			if err != data.ErrNotFound {
				return fmt.Sprintf("Get of missing object %d gives %v", i, err)
			}
			if _, err = s.Inc(key(i), 0); err != data.ErrNotFound {
				return fmt.Sprintf("Inc of missing object %d gives %v", i, err)
			}
			continue
		}
		if err != nil || rc != o.rc || string(v) != o.v {
			return fmt.Sprintf("Get of object %d gives %q, %d, %v; want %q, %d", i, v, rc, err, o.v, o.rc)
		}
	}
	return ""
}

func stats(s data.CXDS) string {
	var n, un, vol, uvol int
	s.Iterate(func(k cipher.SHA256, rc uint32, v []byte) error {
		n++
		vol += len(v)
		if rc > 0 {
			un++
			uvol += len(v)
		}
		return nil
	})
	a, ua := s.Amount()
	v, uv := s.Volume()
	if a != n || ua != un || v != vol || uv != uvol {
		return fmt.Sprintf("reported amount %d/%d volume %d/%d, stored %d/%d and %d/%d", a, ua, v, uv, n, un, vol, uvol)
	}
	return ""
}

func storeRunner(r *core.R, drive, stat bool, ops []op, keys int) func(h []int) core.Step {
	return func(h []int) core.Step {
		st, err := newStore(drive)
		if err != nil {
			return core.Step{Bad: "open: " + err.Error()}
		}
		defer st.close()
		m := model{}
		for k, x := range h {
			bad := ops[x].run(st, m)
			if bad != "" && !stat {
				return core.Step{Bad: ops[x].name + ": " + bad}
			}
			if st.s == nil {
				return core.Step{}
			}
			if stat {
				if k < len(h)-1 {
					continue
				}
				bad = stats(st.s)
			} else if k == len(h)-1 {
				bad = compare(st.s, m, keys)
			}
			if bad != "" {
				return core.Step{Bad: ops[x].name + ": " + bad}
			}
		}
		// stored statistics are part of the state
		a, ua := st.s.Amount()
		v, uv := st.s.Volume()
		c := fmt.Sprint(m, a, ua, v, uv)
		r.Outcome(c)
		return core.Step{Canon: c}
	}
}

func objRun(r *core.R, stat bool) {
	r.Assume("one value per key, as the keys are hashes of the values; counts stay below 2^32")
	for _, drive := range []bool{false, true} {
		name := "in memory"
		if drive {
			name = "on disk"
		}
		names := func(ops []op) (ns []string) {
			for _, o := range ops {
				ns = append(ns, o.name)
			}
			return
		}
		filter := func(ops []op) (fs []op) {
			for _, o := range ops {
				if drive || o.mem {
					fs = append(fs, o)
				}
			}
			return
		}
		ops := filter(objOps(2))
		r.BFS(name+", 2 keys", names(ops), r.Pick(3, 4), false, storeRunner(r, drive, stat, ops, 2))
		ops = filter(objOps(3))
		r.BFS(name+", 3 keys", names(ops), r.Pick(5, 9), true, storeRunner(r, drive, stat, ops, 3))
		many(r, name, drive, stat)
	}
}

// many objects: enough for several pages; deletions by every periodic pattern
func many(r *core.R, name string, drive, stat bool) {
	per := r.Pick(4, 7)
	var pats [][]int
	core.Seqs(2, 1, per, func(h []int) bool { pats = append(pats, append([]int(nil), h...)); return true })
	n := r.Pick(120, 400)
	kk := func(i int) (k cipher.SHA256) { return cipher.SumSHA256([]byte(fmt.Sprint("k", i))) }
	r.Parallel(len(pats), func(x int) {
		p := pats[x]
		what := fmt.Sprintf("%s: %d objects, delete by pattern %v", name, n, p)
		var bad string
		pn := r.Guard(func() string { return what }, func() {
			st, err := newStore(drive)
			if err != nil {
				bad = err.Error()
				return
			}
			defer st.close()
			m := map[cipher.SHA256]string{}
			for i := 0; i < n; i++ {
				v := strings.Repeat("x", 1+i*37%500)
				if _, err := st.s.Set(kk(i), []byte(v), 1+i%3); err != nil {
					bad = err.Error()
				}
				m[kk(i)] = v
				if i%3 == 1 {
					st.s.Inc(kk(i), -5)
				}
			}
			i, calls := 0, 0
			seen := map[cipher.SHA256]bool{}
			err = st.s.IterateDel(func(k cipher.SHA256, rc uint32, v []byte) (bool, error) {
				if calls++; calls > 2*n {
					return false, errTest
				}
				if seen[k] || m[k] != string(v) {
					bad = "an object is shown twice or with a wrong value"
				}
				seen[k] = true
				d := p[i%len(p)] == 1
				i++
				if d {
					delete(m, k)
				}
				return d, nil
			})
			if err != nil || len(seen) != n {
				bad = fmt.Sprintf("IterateDel shows %d of %d objects, error %v", len(seen), n, err)
			}
			left := map[cipher.SHA256]bool{}
			st.s.Iterate(func(k cipher.SHA256, rc uint32, v []byte) error { left[k] = m[k] == string(v); return nil })
			if len(left) != len(m) {
				bad = fmt.Sprintf("%d objects left, want %d", len(left), len(m))
			}
			for k := range m {
				if !left[k] {
					bad = "a wrong object was deleted or a value changed"
				}
			}
			if stat && bad == "" {
				bad = stats(st.s)
			}
		})
		r.Transitions.Add(int64(n))
		r.States.Add(1)
		r.Validated.Add(1)
		if pn != "" {
			bad = pn
		}
		if bad != "" {
			r.Violate(what, bad, nil)
		}
	})
	r.Bound("%s: %d objects, iterate with delete by every pattern of period up to %d", name, n, per)
}

func d01(r *core.R) {
	r.Rule("a case is a history of store operations; every result, and at the end the whole content, is compared with a plain map model")
	objRun(r, false)
	// panics of Set with a count that makes no sense
	for _, drive := range []bool{false, true} {
		for _, n := range []int{0, -1} {
			st, err := newStore(drive)
			if err != nil {
				r.Violate("open", err.Error(), nil)
				return
			}
			if core.Catch(func() { st.s.Set(key(2), val(2), n) }) == "" {
				if _, _, err := st.s.Get(key(2), 0); err != data.ErrNotFound {
					r.Violate(fmt.Sprintf("Set with %d", n), "a value is stored with a count that makes no sense", nil)
				}
			}
			st.close()
		}
	}
	nearObjects(r)
	setValidated(r)
}

func setValidated(r *core.R) { r.Validated.Store(r.Evaluations.Load()) }

func d02(r *core.R) {
	r.Rule("a case is a history of store operations; the reported statistics are compared with an enumeration of the store")
	objRun(r, true)
	faults(r, objFaults(), r.Pick(4, 5))
	setValidated(r)
}

var _ = time.Now
