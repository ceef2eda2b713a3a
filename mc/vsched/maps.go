package vsched

import (
	"fmt"
	"reflect"
	"sort"
)

// Keys of a map in a deterministic order
func Keys[M ~map[K]V, K comparable, V any](m M) []K {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	if len(ks) < 2 {
		return ks
	}
	var sk []string
	var si []int
	for _, k := range ks {
		n, ok := 0, false
		if t, is := any(k).(reflect.Type); is {
			si, sk = append(si, 0), append(sk, t.String())
			continue
		}
		if S != nil {
			n, ok = S.seen[any(k)]
		}
		switch {
		case ok:
			si = append(si, n)
		default:
			switch reflect.ValueOf(k).Kind() {
			case reflect.Ptr, reflect.Chan, reflect.UnsafePointer, reflect.Func:
				if S != nil {
					Seen(k)
					n = S.seen[any(k)]
				}
			default:
				n = 1 << 30
			}
			si = append(si, n)
		}
		if n == 1<<30 {
			sk = append(sk, fmt.Sprintf("%020v", any(k)))
		} else {
			sk = append(sk, "")
		}
	}
	ix := make([]int, len(ks))
	for i := range ix {
		ix[i] = i
	}
	sort.SliceStable(ix, func(a, b int) bool {
		a, b = ix[a], ix[b]
		if si[a] != si[b] {
			return si[a] < si[b]
		}
		return sk[a] < sk[b]
	})
	out := make([]K, len(ks))
	for i, x := range ix {
		out[i] = ks[x]
	}
	return out
}
