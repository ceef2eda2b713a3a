package main

import (
	"errors"
	"fmt"
	"os"
	"strings"

	"github.com/boltdb/bolt"

	"github.com/skycoin/cxo/data"
	"github.com/skycoin/cxo/data/cxds"

	"vmc/core"
)

// Failing writes, syncs and truncates of a database file: an operation that
// fails changes nothing, neither what is stored nor the statistics

var errDisk = errors.New("no space left on device")

// a store on a file
type fileStore interface {
	run(op int) error
	state() (string, string)
	close() error
}

type faultKind struct {
	name string
	ops  []string
	open func(name string) (fileStore, error)
	// the last sync of a transaction doesn't fail: bolt reports its failure,
	// but the changes are made, which the store can not know
	strict bool
}

type objFile struct {
	store
	ops []cop
}

func (f *objFile) run(op int) error        { return f.ops[op].run(&f.store) }
func (f *objFile) state() (string, string) { return objState(f.s) }
func (f *objFile) close() error            { return f.s.Close() }

type idxFile struct {
	db  data.IdxDB
	m   idx
	txs [][]string
	ops map[string]iop
}

func (f *idxFile) close() error            { return f.db.Close() }
func (f *idxFile) state() (string, string) { return idxState(f.db) }
func (f *idxFile) run(op int) (err error) {
	was := f.m.clone()
	bad := ""
	err = f.db.Tx(func(fs data.Feeds) (err error) {
		bad, err = idxTx(fs, f.m, f.txs[op], f.ops)
		return
	})
	if err != nil {
		f.m = was
	}
	if bad != "" {
		panic(bad)
	}
	if err == errTest {
		err = nil
	}
	return
}

func faults(r *core.R, k faultKind, depth int) {
	bolt.Trace = trace
	if k.strict {
		r.Assume("the last sync of a bolt transaction succeeds (bolt shows the changes, but reports a failure)")
	}
	places := func(n int64) { r.Evaluations.Add(n) }
	r.BFS(k.name+", a failing disk", k.ops, depth, false, func(h []int) (s core.Step) {
		if p := core.Catch(func() { s.Canon, s.Bad = faultRun(k, h, places) }); p != "" {
			s.Bad += p
		}
		r.Outcome(k.name + s.Canon)
		return
	})
	r.Bound("%s: every single failing write, sync or growth of the file in the last operation of every history of up to %d, in opening and in closing", k.name, depth)
}

// attempt runs the history on a new file; the at-th access to the disk of the
// n-th operation (0: opening, len(h)+1: closing) fails unless at is negative
func attempt(name string, k faultKind, h []int, n, at int) (ss []string, total int, bad string) {
	var s fileStore
	rec := &recorder{}
	recorders.Store(name, rec)
	count := 0
	fail := func(i int) {
		rec.n, rec.fail = i, nil
		if i == n {
			rec.fail = func(op string) error {
				count++
				if count-1 == at {
					return errDisk
				}
				return nil
			}
		}
	}
	defer func() {
		recorders.Delete(name)
		total = count
		if s != nil {
			s.close()
		}
		os.Remove(name)
	}()
	see := func(what string) bool {
		var st, b string
		st, b = s.state()
		if b != "" {
			bad = what + ": " + b
		}
		ss = append(ss, st)
		return b == ""
	}
	fail(0)
	var err error
	if s, err = k.open(name); err != nil {
		s = nil
		if n != 0 || at < 0 {
			return nil, 0, "open: " + err.Error()
		}
		fail(-1)
		if s, err = k.open(name); err != nil {
			s = nil
			return nil, 0, "opening again after a failure: " + err.Error()
		}
	}
	fail(-1)
	if !see("opened") {
		return
	}
	for i, x := range h {
		fail(i + 1)
		err = s.run(x)
		fail(-1)
		if err != nil && (n != i+1 || at < 0) {
			return ss, 0, k.ops[x] + ": " + err.Error()
		}
		if !see(k.ops[x]) {
			return
		}
		if err != nil {
			ss[len(ss)-1] = "error: " + ss[len(ss)-1]
		}
	}
	fail(len(h) + 1)
	err = s.close()
	s = nil
	fail(-1)
	if err != nil && (n != len(h)+1 || at < 0) {
		return ss, 0, "close: " + err.Error()
	}
	fail(len(h) + 2)
	s, err = k.open(name)
	fail(-1)
	if err != nil && n == len(h)+2 && at >= 0 {
		s, err = k.open(name)
	}
	if err != nil {
		s = nil
		return ss, 0, "opening again: " + err.Error()
	}
	see("opened again")
	return
}

func faultRun(k faultKind, h []int, places func(int64)) (state, bad string) {
	ok, _, bad := attempt(tempName(), k, h, -1, -1)
	if bad != "" {
		return "", bad
	}
	state = "state " + ok[len(h)]
	for n := len(h); n <= len(h)+2; n++ {
		_, total, bad := attempt(tempName(), k, h, n, -1)
		if bad != "" {
			return "", bad
		}
		for at := 0; at < total; at++ {
			if n == 0 && at < 2 {
				continue // bolt formats a new file
			}
			if n == len(h) && at == total-1 && k.strict {
				continue // bolt reports a failure of what it did
			}
			places(1)
			ss, _, bad := attempt(tempName(), k, h, n, at)
			where := fmt.Sprintf("access %d of %d to the disk fails", at, total)
			where += [...]string{"", " in closing", " in opening again"}[n-len(h)]
			if bad != "" {
				return "", where + ": " + bad
			}
			// the last but one is the state after the last operation,
			// the last is the state when opened again
			l := len(h)
			got, again := ss[l], ss[l+1]
			want := []string{ok[l]}
			if n == l && l > 0 && strings.HasPrefix(got, "error: ") {
				got = got[7:]
				want = []string{ok[l-1]}
				if at == total-1 {
					want = append(want, ok[l]) // everything has been written
				}
			}
			found := false
			for _, w := range want {
				found = found || w == got
			}
			if !found {
				return "", fmt.Sprintf("%s: there is {%s}, want {%s}", where, got, strings.Join(want, "} or {"))
			}
			if again != got {
				return "", fmt.Sprintf("%s: there is {%s}, but when opened again {%s}", where, got, again)
			}
		}
	}
	return
}

func objFaults() faultKind {
	var ops []cop
	for _, o := range objCrashOps() {
		if o.name != "reopen" && !strings.Contains(o.name, "60 objects") {
			ops = append(ops, o)
		}
	}
	k := faultKind{name: "objects", strict: true}
	for _, o := range ops {
		k.ops = append(k.ops, o.name)
	}
	k.open = func(name string) (fileStore, error) {
		f := &objFile{ops: ops}
		f.drive, f.name = true, name
		var err error
		f.s, err = cxds.NewDriveCXDS(name)
		return f, err
	}
	return k
}

func idxFaults() faultKind {
	all, byName := idxCrashTxs()
	var txs [][]string
	for _, t := range all {
		if t[0] != "reopen" {
			txs = append(txs, t)
		}
	}
	k := faultKind{name: "index"}
	for _, t := range txs {
		k.ops = append(k.ops, strings.Join(t, "+"))
	}
	k.open = func(name string) (fileStore, error) {
		db, err := openIdx(name)
		return &idxFile{db: db, m: idx{}, txs: txs, ops: byName}, err
	}
	return k
}
