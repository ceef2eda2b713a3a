package main

import (
	"fmt"
	"os"
	"strings"
	"sync"

	"github.com/boltdb/bolt"

	"github.com/skycoin/skycoin/src/cipher"

	"github.com/skycoin/cxo/data"
	"github.com/skycoin/cxo/data/cxds"

	"vmc/core"
)

// the writes of one file, in order
type wr struct {
	op  string // write, sync, truncate
	off int64
	b   []byte
	n   int // during which operation (0: creation)
}

type recorder struct {
	log  []wr
	n    int
	fail func(op string) error
}

var recorders sync.Map // path -> *recorder

func trace(path, op string, off int64, b []byte) error {
	if x, ok := recorders.Load(path); ok {
		r := x.(*recorder)
		if r.fail != nil {
			return r.fail(op)
		}
		r.log = append(r.log, wr{op, off, append([]byte(nil), b...), r.n})
	}
	return nil
}

func apply(img []byte, w wr) []byte {
	switch w.op {
	case "truncate":
		for int64(len(img)) < w.off {
			img = append(img, make([]byte, w.off-int64(len(img)))...)
		}
		return img[:w.off]
	case "write":
		end := w.off + int64(len(w.b))
		if int64(len(img)) < end {
			img = append(img, make([]byte, end-int64(len(img)))...)
		}
		copy(img[w.off:], w.b)
	}
	return img
}

func torn(n int) (ls []int) {
	seen := map[int]bool{0: true, n: true}
	for _, x := range []int{1, 16, 64, 80, 512, n / 2, n - 512, n - 1} {
		if x > 0 && x < n && !seen[x] {
			seen[x] = true
			ls = append(ls, x)
		}
	}
	return
}

// images of the file a crash within the operation n can leave, with the text of the crash point
func images(log []wr, n int, yield func(what string, img []byte) bool) {
	// persisted: everything before the last sync; epoch: what was written since
	var base []byte
	var epoch []wr
	start := 0
	for start < len(log) && log[start].n < n {
		w := log[start]
		if w.op == "sync" {
			for _, e := range epoch {
				base = apply(base, e)
			}
			epoch = nil
		} else {
			epoch = append(epoch, w)
		}
		start++
	}
	if n == 0 {
		// the first write and its sync belong to bolt: a file without them is blank
		if !yield("blank file", nil) {
			return
		}
		for start < len(log) && log[start].op != "sync" {
			base = apply(base, log[start])
			start++
		}
	}
	all := func() []byte {
		img := append([]byte(nil), base...)
		for _, e := range epoch {
			img = apply(img, e)
		}
		return img
	}
	for i := start; ; i++ {
		end := i >= len(log) || log[i].n > n
		at := fmt.Sprintf("before write %d", i-start)
		if end {
			at = "after the operation"
		}
		// process death: what was written is there
		if !yield(at, all()) {
			return
		}
		// power failure: any of the writes since the last sync are lost
		if k := len(epoch); k > 0 && k <= 6 {
			for s := 0; s < 1<<k-1; s++ {
				img := append([]byte(nil), base...)
				for j, e := range epoch {
					if s>>j&1 == 1 {
						img = apply(img, e)
					}
				}
				if !yield(fmt.Sprintf("%s, writes kept %b", at, s), img) {
					return
				}
			}
		} else if k > 6 {
			for _, inv := range []bool{false, true} {
				for j := range epoch {
					img := append([]byte(nil), base...)
					for x, e := range epoch {
						if (x == j) != inv {
							img = apply(img, e)
						}
					}
					if !yield(fmt.Sprintf("%s, write %d kept is %v, others not", at, j, !inv), img) {
						return
					}
				}
			}
		}
		if end {
			return
		}
		w := log[i]
		if w.op == "sync" {
			base, epoch = all(), nil
			continue
		}
		if w.op == "write" {
			for _, l := range torn(len(w.b)) {
				t := w
				t.b = w.b[:l]
				if !yield(fmt.Sprintf("%s, torn after %d of %d bytes", at, l, len(w.b)), apply(all(), t)) {
					return
				}
				// the tail arrived, the head did not
				t.b, t.off = w.b[l:], w.off+int64(l)
				if !yield(fmt.Sprintf("%s, only the bytes from %d of %d written", at, l, len(w.b)), apply(all(), t)) {
					return
				}
			}
		}
		epoch = append(epoch, w)
	}
}

// a kind of file: objects or index
type crashKind struct {
	name string
	ops  []string
	// run a history on a file, calling at before every operation and at the end; states before (i) and after
	// the last operation are returned
	run func(name string, h []int, at func(i int)) (before, after, bad string)
	// reopen a file and describe its content
	read func(name string) (state, bad string)
}

func d03(r *core.R) {
	bolt.Trace = trace
	r.Rule("a case is a crash image: the file as left by a crash point within the last operation of a history, opened by the real code and compared with the states before and after that operation")
	r.Assume("the very first write, by which bolt formats a new file, is atomic (it is bolt's own and precedes every operation)")
	r.Assume("a file system keeps the order of writes and syncs: what was synced stays, what was not may be lost in any combination")
	for _, k := range []crashKind{objCrash(), idxCrash()} {
		r.BFS(k.name, k.ops, r.Pick(4, 5), false, func(h []int) core.Step { return crashRun(r, k, h) })
	}
	setValidated(r)
}

func crashRun(r *core.R, k crashKind, h []int) (s core.Step) {
	name := tempName()
	rec := &recorder{}
	recorders.Store(name, rec)
	before, after, bad := k.run(name, h, func(i int) { rec.n = i })
	recorders.Delete(name)
	os.Remove(name)
	if bad != "" {
		return core.Step{Bad: bad}
	}
	img := tempName()
	defer os.Remove(img)
	points := int64(0)
	prev := ""
	images(rec.log, len(h), func(what string, b []byte) bool {
		if string(b) == prev {
			return true
		}
		prev = string(b)
		points++
		if err := os.WriteFile(img, b, 0o644); err != nil {
			panic("harness: " + err.Error())
		}
		st, bad := k.read(img)
		if bad == "" && st != before && st != after {
			bad = fmt.Sprintf("after the crash there is {%s}; before the operation {%s}, after it {%s}", st, before, after)
		}
		if bad == "" && what == "after the operation" && st != after {
			bad = fmt.Sprintf("the operation had returned, but after the crash there is {%s}, want {%s}", st, after)
		}
		if bad != "" {
			s = core.Step{Bad: what + ": " + bad}
			return false
		}
		return true
	})
	r.Evaluations.Add(points)
	if s.Bad != "" {
		return
	}
	r.Outcome(k.name + after)
	return core.Step{Canon: "state " + after}
}

func objState(s data.CXDS) (state, bad string) {
	m, bad := content(s)
	if bad == "" {
		bad = stats(s)
	}
	return m.String(), bad
}

type cop struct {
	name string
	run  func(s *store) error
}

func objCrashOps() []cop {
	big := []byte(strings.Repeat("big", 3000))
	set := func(i int, v []byte, n int) func(s *store) error {
		return func(s *store) error { _, err := s.s.Set(key(i), v, n); return err }
	}
	return []cop{
		{"Set k0", set(0, val(0), 1)},
		{"Set k1, 9000 bytes", set(1, big, 2)},
		{"Inc k0 -1", func(s *store) error {
			_, err := s.s.Inc(key(0), -1)
			if err == data.ErrNotFound {
				err = nil
			}
			return err
		}},
		{"Get k1 +1", func(s *store) error {
			_, _, err := s.s.Get(key(1), 1)
			if err == data.ErrNotFound {
				err = nil
			}
			return err
		}},
		{"Del k1", func(s *store) error { return s.s.Del(key(1)) }},
		{"Set, with 60 objects put there before", set(69, []byte(strings.Repeat("o", 700)), 1)},
		{"IterateDel all", func(s *store) error {
			return s.s.IterateDel(func(_ cipher.SHA256, _ uint32, _ []byte) (bool, error) { return true, nil })
		}},
		{"reopen", func(s *store) (err error) {
			if err = s.s.Close(); err == nil {
				s.s, err = cxds.NewDriveCXDS(s.name)
			}
			return
		}},
	}
}

func objCrash() crashKind {
	ops := objCrashOps()
	k := crashKind{name: "objects"}
	for _, o := range ops {
		k.ops = append(k.ops, o.name)
	}
	k.run = func(name string, h []int, at func(i int)) (before, after, bad string) {
		s := &store{drive: true, name: name}
		var err error
		if s.s, err = cxds.NewDriveCXDS(name); err != nil {
			return "", "", err.Error()
		}
		defer func() {
			if s.s != nil {
				at(len(h) + 1) // not part of it
				s.s.Close()
			}
		}()
		for i, x := range h {
			if strings.Contains(ops[x].name, "60 objects") {
				for j := 10; j < 69; j++ {
					if _, err := s.s.Set(key(j), []byte(strings.Repeat("o", j*10)), 1); err != nil {
						return "", "", err.Error()
					}
				}
			}
			if before, bad = objState(s.s); bad != "" {
				return
			}
			at(i + 1)
			if err := ops[x].run(s); err != nil {
				return "", "", ops[x].name + ": " + err.Error()
			}
		}
		after, bad = objState(s.s)
		return
	}
	k.read = func(name string) (state, bad string) {
		s, err := cxds.NewDriveCXDS(name)
		if err != nil {
			return "", "opening gives error " + err.Error()
		}
		defer s.Close()
		if state, bad = objState(s); bad != "" {
			return
		}
		// it can be used
		if _, err = s.Set(key(5), val(5), 1); err != nil {
			return "", "Set after the crash: " + err.Error()
		}
		if v, _, err := s.Get(key(5), 0); err != nil || string(v) != string(val(5)) {
			return "", fmt.Sprintf("Get after the crash: %q %v", v, err)
		}
		return
	}
	return k
}

func idxCrashTxs() ([][]string, map[string]iop) {
	all := idxOps(1, 1, 2)
	byName := map[string]iop{}
	for _, o := range all {
		byName[o.name] = o
	}
	tx := [][]string{
		{"AddFeed(f0)", "AddHead(f0,0)", "Set 0(f0,0)"},
		{fmt.Sprintf("Set %d(f0,0)", seqs[1])},
		{"Set 0(f0,0)", "!"},
		{"Del 0(f0,0)"},
		{"DelHead(f0,0)"},
		{"DelFeed(f0)", "AddFeed(f0)"},
		{"many"},
		{"reopen"},
	}
	return tx, byName
}

func idxState(db data.IdxDB) (st, bad string) {
	err := db.Tx(func(fs data.Feeds) error {
		var d idx
		d, bad = dump(fs)
		st = d.String()
		return nil
	})
	if err != nil {
		bad = err.Error()
	}
	return
}

// idxTx is the body of a transaction of given operations
func idxTx(fs data.Feeds, m idx, tx []string, byName map[string]iop) (bad string, _ error) {
	for _, o := range tx {
		switch o {
		case "!":
			return "", errTest
		case "many":
			if m[0] == nil || m[0][0] == nil {
				return "", nil
			}
			hs, err := fs.Heads(pk(0))
			if err != nil {
				return "", err
			}
			rs, err := hs.Roots(0)
			if err != nil {
				return "", err
			}
			for q := uint64(1); q < 40; q++ {
				if err = rs.Set(root(q)); err != nil {
					return "", err
				}
				m[0][0][q] = true
			}
		default:
			if bad = byName[o].run(fs, m); bad != "" {
				return bad, nil
			}
		}
	}
	return "", nil
}

func idxCrash() crashKind {
	tx, byName := idxCrashTxs()
	k := crashKind{name: "index"}
	for _, t := range tx {
		k.ops = append(k.ops, strings.Join(t, "+"))
	}
	k.run = func(name string, h []int, at func(i int)) (before, after, bad string) {
		db, err := openIdx(name)
		if err != nil {
			return "", "", err.Error()
		}
		defer func() {
			if db != nil {
				at(len(h) + 1)
				db.Close()
			}
		}()
		m := idx{}
		for i, x := range h {
			before = m.String()
			at(i + 1)
			if tx[x][0] == "reopen" {
				if err = db.Close(); err == nil {
					db, err = openIdx(name)
				}
				if err != nil {
					return "", "", "reopening: " + err.Error()
				}
				continue
			}
			was := m.clone()
			err = db.Tx(func(fs data.Feeds) (err error) {
				bad, err = idxTx(fs, m, tx[x], byName)
				return
			})
			if err == errTest {
				m, err = was, nil
			}
			if err != nil || bad != "" {
				return "", "", fmt.Sprint(k.ops[x], ": ", bad, err)
			}
		}
		return before, m.String(), ""
	}
	k.read = func(name string) (st, bad string) {
		db, err := openIdx(name)
		if err != nil {
			return "", "opening gives error " + err.Error()
		}
		defer db.Close()
		if st, bad = idxState(db); bad != "" {
			return
		}
		err = db.Tx(func(fs data.Feeds) error {
			if err := fs.Add(pk(5)); err != nil {
				return err
			}
			_, err := fs.Heads(pk(5))
			return err
		})
		if err != nil {
			bad = "a transaction after the crash gives error " + err.Error()
		}
		return
	}
	return k
}
