package main

import (
	"bytes"
	"fmt"
	"os"
	"sort"

	"github.com/skycoin/skycoin/src/cipher"

	"github.com/skycoin/cxo/data"
	"github.com/skycoin/cxo/data/cxds"

	"vmc/core"
)

// nearKeys are keys of n bytes that follow each other closely around byte j:
// neighbours, the carry, and keys that differ in the bytes before and after
func nearKeys(n, j int) (ks [][]byte) {
	mk := func(set func(k []byte)) {
		k := bytes.Repeat([]byte{0x41}, n)
		set(k)
		for _, x := range ks {
			if bytes.Equal(x, k) {
				return
			}
		}
		ks = append(ks, k)
	}
	mk(func(k []byte) { k[j] = 1 })
	mk(func(k []byte) { k[j] = 2 })
	mk(func(k []byte) { // the greatest with this prefix
		k[j] = 1
		for i := j + 1; i < n; i++ {
			k[i] = 0xff
		}
	})
	mk(func(k []byte) { // the one after
		k[j] = 2
		for i := j + 1; i < n; i++ {
			k[i] = 0
		}
	})
	mk(func(k []byte) { k[j], k[n-1] = 1, 0x42 })
	mk(func(k []byte) { k[max(0, j-1)]++; k[j] = 0 })
	return
}

func eachNear(r *core.R, n int, what string, run func(ks [][]byte, del int) string) {
	cases := 0
	for j := 0; j < n; j++ {
		all := nearKeys(n, j)
		for set := 1; set < 1<<len(all); set++ {
			var ks [][]byte
			for i := range all {
				if set>>i&1 == 1 {
					ks = append(ks, all[i])
				}
			}
			if len(ks) > 4 && !r.Thorough() {
				continue
			}
			sort.Slice(ks, func(a, b int) bool { return bytes.Compare(ks[a], ks[b]) < 0 })
			cases += 1 << len(ks)
			name := fmt.Sprintf("%s around byte %d: %x", what, j, ks)
			var bad string
			p := r.Guard(func() string { return name }, func() {
				for del := 0; del < 1<<len(ks) && bad == ""; del++ {
					bad = run(ks, del)
				}
			})
			r.Transitions.Add(int64(len(ks) << len(ks)))
			if p+bad != "" {
				r.Violate(name, p+bad, nil)
			}
			if r.Full() {
				return
			}
		}
	}
	r.Bound("%s: every set of keys close to each other around every byte, every subset deleted while enumerating (%d cases)", what, cases)
}

// nearObjects checks enumeration and deletion of objects with close keys
func nearObjects(r *core.R) {
	for _, drive := range []bool{false, true} {
		var s data.CXDS
		if drive {
			name := tempName()
			defer os.Remove(name)
			var err error
			if s, err = cxds.NewDriveCXDS(name); err != nil {
				r.Violate("open", err.Error(), nil)
				return
			}
		} else {
			s = cxds.NewMemoryCXDS()
		}
		defer s.Close()
		if drive && !r.Thorough() {
			// the transactions are slow; the same sets, deleted entirely or not at all
			eachNear(r, 32, "objects on disk", func(ks [][]byte, del int) string {
				if del != 0 && del != 1 && del != 1<<len(ks)-2 && del != 1<<len(ks)-1 {
					return ""
				}
				return nearCase(s, ks, del, true)
			})
			continue
		}
		eachNear(r, 32, fmt.Sprintf("objects, on disk: %v", drive), func(ks [][]byte, del int) string { return nearCase(s, ks, del, drive) })
	}
}

func nearCase(s data.CXDS, ks [][]byte, del int, ordered bool) string {
	have := func(want [][]byte) string {
		var got [][]byte
		err := s.Iterate(func(k cipher.SHA256, rc uint32, v []byte) error {
			got = append(got, append([]byte(nil), k[:]...))
			if string(v) != fmt.Sprintf("%x", k[:]) || rc != 1 {
				return fmt.Errorf("object %x is %q with count %d", k[:], v, rc)
			}
			return nil
		})
		if err != nil {
			return "Iterate: " + err.Error()
		}
		sort.Slice(got, func(a, b int) bool { return bytes.Compare(got[a], got[b]) < 0 })
		if fmt.Sprintf("%x", got) != fmt.Sprintf("%x", want) {
			return fmt.Sprintf("the store shows %x, want %x", got, want)
		}
		return ""
	}
	for _, k := range ks {
		var key cipher.SHA256
		copy(key[:], k)
		if _, err := s.Set(key, []byte(fmt.Sprintf("%x", k)), 1); err != nil {
			return err.Error()
		}
	}
	if bad := have(ks); bad != "" {
		return bad
	}
	var left [][]byte
	seen := 0
	err := s.IterateDel(func(k cipher.SHA256, rc uint32, v []byte) (bool, error) {
		if seen++; seen > 20 {
			return false, errTest
		}
		for i := range ks {
			if bytes.Equal(ks[i], k[:]) {
				return del>>i&1 == 1, nil
			}
		}
		return false, fmt.Errorf("unknown object %x", k[:])
	})
	if err != nil || seen != len(ks) {
		return fmt.Sprintf("IterateDel shows %d of %d objects, error %v", seen, len(ks), err)
	}
	for i := range ks {
		if del>>i&1 == 0 {
			left = append(left, ks[i])
		}
	}
	if bad := have(left); bad != "" {
		return fmt.Sprintf("after deleting %b: %s", del, bad)
	}
	if bad := stats(s); bad != "" {
		return bad
	}
	return wipe(s)
}

func wipe(s data.CXDS) string {
	if err := s.IterateDel(func(cipher.SHA256, uint32, []byte) (bool, error) { return true, nil }); err != nil {
		return err.Error()
	}
	return ""
}

// nearFeeds: the same for feeds of the index
func nearFeeds(r *core.R) {
	name := tempName()
	defer os.Remove(name)
	db, err := openIdx(name)
	if err != nil {
		r.Violate("open", err.Error(), nil)
		return
	}
	defer db.Close()
	eachNear(r, 33, "feeds", func(ks [][]byte, del int) (bad string) {
		err := db.Tx(func(fs data.Feeds) error {
			pub := func(i int) (p cipher.PubKey) { copy(p[:], ks[i]); return }
			have := func(want string) string {
				got := ""
				n := 0
				err := fs.Iterate(func(p cipher.PubKey) error {
					got += fmt.Sprintf("%x ", p[:])
					if n++; n > 20 {
						return errTest
					}
					return nil
				})
				if err != nil || got != want {
					return fmt.Sprintf("feeds are %s, want %s, error %v", got, want, err)
				}
				return ""
			}
			want := ""
			for i := range ks {
				if err := fs.Add(pub(i)); err != nil {
					return err
				}
				want += fmt.Sprintf("%x ", ks[i])
			}
			if bad = have(want); bad != "" {
				return errTest
			}
			seen := 0
			want = ""
			err := fs.Iterate(func(p cipher.PubKey) error {
				if seen++; seen > 20 {
					return errTest
				}
				for i := range ks {
					if pub(i) == p && del>>i&1 == 1 {
						return fs.Del(p)
					}
				}
				want += fmt.Sprintf("%x ", p[:])
				return nil
			})
			if err != nil || seen != len(ks) {
				bad = fmt.Sprintf("%d of %d feeds shown while deleting %b, error %v", seen, len(ks), del, err)
				return errTest
			}
			if bad = have(want); bad != "" {
				bad = fmt.Sprintf("after deleting %b: %s", del, bad)
			}
			return errTest // roll back
		})
		if bad == "" && err != errTest {
			bad = fmt.Sprint("Tx: ", err)
		}
		return
	})
}
