package main

import (
	"bytes"
	"fmt"
	"reflect"

	"github.com/skycoin/skycoin/src/cipher"

	"github.com/skycoin/cxo/node/msg"

	"vmc/core"
)

// number of types of messages
const msgTypes = 16

func ex(m msg.Msg) string { return fmt.Sprintf("%T%+v", m, reflect.ValueOf(m).Elem()) }

// allMsgs over small domains of fields
func allMsgs(deep bool) (ms []msg.Msg) {
	var k1, k2 cipher.PubKey
	for i := range k1 {
		k1[i], k2[i] = byte(i+1), 255-byte(i)
	}
	keys := []cipher.PubKey{{}, k1, k2}
	var h1 cipher.SHA256
	var s1 cipher.Sig
	for i := range h1 {
		h1[i] = byte(7 * i)
	}
	for i := range s1 {
		s1[i] = byte(200 - i)
	}
	long := bytes.Repeat([]byte{0, 1, 2, 0xff}, 75) // a length that needs two bytes
	vals := [][]byte{nil, {0}, {1, 2, 3}, {0xff, 0xff, 0xff, 0xff}, long}
	strs := []string{"", "a", "\x00", "не разделяю", string(long)}
	nums := []uint64{0, 1, 255, 256, 1 << 32, 1<<64 - 1}
	ms = append(ms, &msg.Ping{}, &msg.Pong{}, &msg.Ok{}, &msg.RqList{})
	for _, s := range strs {
		ms = append(ms, &msg.Err{Err: s})
	}
	for _, v := range vals {
		ms = append(ms, &msg.Object{Value: v})
	}
	for _, h := range []cipher.SHA256{{}, h1} {
		ms = append(ms, &msg.RqObject{Key: h})
	}
	for _, k := range keys {
		for _, p := range []uint16{0, 1, 3, 255, 256, 65535} {
			ms = append(ms, &msg.Syn{Protocol: p, NodeID: k})
		}
		ms = append(ms, &msg.Ack{NodeID: k}, &msg.Sub{Feed: k}, &msg.Unsub{Feed: k}, &msg.RqPreview{Feed: k}, &msg.RqPeers{Feed: k})
		for _, n := range nums {
			for _, q := range nums {
				if !deep && n != q && n != 1 {
					continue
				}
				for _, v := range vals {
					for _, s := range []cipher.Sig{{}, s1} {
						ms = append(ms, &msg.Root{Feed: k, Nonce: n, Seq: q, Value: v, Sig: s})
					}
				}
			}
		}
	}
	ls := [][]cipher.PubKey{nil}
	for i := 0; i < 3; i++ {
		for _, l := range ls[len(ls)-pow(3, i):] {
			for _, k := range keys {
				ls = append(ls, append(append([]cipher.PubKey(nil), l...), k))
			}
		}
	}
	for _, l := range ls {
		ms = append(ms, &msg.List{Feeds: l})
	}
	var pis []msg.PeerInfo
	for _, k := range keys[:2] {
		for _, v := range vals[:3] {
			for _, t := range strs[:3] {
				for _, u := range strs[:3] {
					pis = append(pis, msg.PeerInfo{PubKey: k, Metadata: v, TCPAddr: t, UDPAddr: u})
				}
			}
		}
	}
	for _, k := range keys {
		ms = append(ms, &msg.Peers{Feed: k})
		for _, p := range pis {
			ms = append(ms, &msg.Peers{Feed: k, List: []msg.PeerInfo{p}})
			if deep || k == k1 {
				for _, q := range pis {
					ms = append(ms, &msg.Peers{Feed: k, List: []msg.PeerInfo{p, q}})
				}
			}
		}
	}
	return
}

func pow(a, b int) int {
	n := 1
	for ; b > 0; b-- {
		n *= a
	}
	return n
}

// same messages, an empty slice equals nil
func same(a, b reflect.Value) bool {
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Ptr:
		return same(a.Elem(), b.Elem())
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !same(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Slice:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !same(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	}
	return a.Interface() == b.Interface()
}

func short(p []byte) string {
	if len(p) > 40 {
		return fmt.Sprintf("%x... (%d bytes)", p[:40], len(p))
	}
	return fmt.Sprintf("%x", p)
}

// decode must not panic, and accept nothing, but encodings
func decode(r *core.R, p []byte, refuse string) (m msg.Msg, bad string) {
	in := append([]byte(nil), p...)
	if pan := r.Guard(func() string { return "Decode " + short(p) }, func() {
		var err error
		if m, err = msg.Decode(p); err == nil && m == nil {
			bad = "neither a message nor an error"
		} else if err != nil && m != nil {
			bad = "a message and an error"
		} else if err != nil && err.Error() == "" {
			bad = "an error without text"
		}
	}); pan != "" {
		return nil, pan
	}
	switch {
	case bad != "":
	case !bytes.Equal(in, p):
		bad = "the input is modified"
	case m != nil && refuse != "":
		bad = fmt.Sprintf("%s is accepted as %s", refuse, ex(m))
	case m != nil && !bytes.Equal(m.Encode(), in):
		bad = fmt.Sprintf("accepted as %s, which encodes to %s", ex(m), short(m.Encode()))
	case m != nil && byte(m.Type()) != in[0]:
		bad = fmt.Sprintf("accepted as message of type %d", m.Type())
	}
	return
}

func n01(r *core.R) {
	r.Rule("a case is one byte string given to Decode: an encoded message, one cut short, extended, with a byte replaced, or any short string; an encoded message must decode to an equal one of its type, and anything else that is accepted must be the encoding of the message it is accepted as")
	ms := allMsgs(r.Thorough())
	names, codes := map[string]bool{}, map[string]msg.Type{}
	for t := 1; t <= 255; t++ {
		s := msg.Type(t).String()
		if s == "" || names[s] {
			r.Violate("names", fmt.Sprintf("type %d has the name %q, as another one or none", t, s), t)
		}
		names[s] = true
	}
	encs := make([][]byte, len(ms))
	byEnc := map[string]int{}
	for i, m := range ms {
		tn := reflect.TypeOf(m).Elem().Name()
		if c, ok := codes[tn]; ok && c != m.Type() {
			r.Violate("code", "two codes of "+tn, tn)
		}
		codes[tn] = m.Type()
		if m.Type().String() != tn {
			r.Violate("name of "+tn, fmt.Sprintf("%s is named %s", tn, m.Type()), tn)
		}
		encs[i] = m.Encode()
		if !bytes.Equal(encs[i], m.Encode()) {
			r.Violate("encodes twice "+ex(m), "two encodings differ", ex(m))
		}
		if j, ok := byEnc[string(encs[i])]; ok {
			r.Violate("encoding of "+ex(m), "has the same encoding as "+ex(ms[j]), ex(m))
		}
		byEnc[string(encs[i])] = i
	}
	inv := map[msg.Type]string{}
	for n, c := range codes {
		if o, ok := inv[c]; ok {
			r.Violate("codes", fmt.Sprintf("%s and %s have one code", n, o), c)
		}
		inv[c] = n
	}
	if len(codes) != msgTypes {
		r.Violate("types", fmt.Sprintf("%d types of messages, want %d", len(codes), msgTypes), nil)
	}
	fail := func(i int, what string, p []byte, bad string) {
		k := what + " of " + ex(ms[i])
		if len(k) > 300 {
			k = k[:300]
		}
		r.Violate(k, bad, fmt.Sprintf("Decode(%x)", p))
	}
	r.Parallel(len(ms), func(i int) {
		m, e := ms[i], encs[i]
		got, bad := decode(r, e, "")
		if bad == "" && (got == nil || !same(reflect.ValueOf(m), reflect.ValueOf(got))) {
			bad = fmt.Sprintf("decoded as %v", got)
		}
		r.States.Add(1)
		if bad != "" {
			fail(i, "encoding", e, bad)
			return
		}
		for n := 0; n < len(e); n++ {
			if _, bad = decode(r, e[:n:n], "a truncated message"); bad != "" {
				fail(i, fmt.Sprintf("first %d bytes", n), e[:n], bad)
				return
			}
			r.Transitions.Add(1)
		}
		for _, b := range []string{"\x00", "\x01", "\xff", "\x00\x00", "\x00\x00\x00\x00", string(e), "\x00\x00\x00\x00\x00\x00\x00\x00"} {
			p := append(append([]byte(nil), e...), b...)
			if _, bad = decode(r, p, "a message followed by extra bytes"); bad != "" {
				fail(i, fmt.Sprintf("extension by %x", b), p, bad)
				return
			}
			r.Transitions.Add(1)
		}
		p := append([]byte(nil), e...)
		for n := 0; n < len(e); n++ {
			if n > 80 && n < len(e)-80 {
				continue // inside of a long value
			}
			for b := 0; b < 256; b++ {
				if n > 0 && !r.Thorough() && b&(b-1) != 0 && b&(b+1) != 0 {
					continue
				}
				p[n] = byte(b)
				if _, bad = decode(r, p, ""); bad == "" && n == 0 && (b == 0 || b > msgTypes) {
					_, bad = decode(r, p, "an unknown type")
				}
				if bad != "" {
					fail(i, fmt.Sprintf("byte %d set to %d", n, b), p, bad)
					return
				}
				r.Transitions.Add(1)
			}
			p[n] = e[n]
		}
		r.Outcome(fmt.Sprintf("%T %d", m, len(e)))
	})
	r.Bound("%d messages of %d types: every truncation, 7 extensions, %s at every position (of the first and last 80)", len(ms), len(codes), map[bool]string{true: "every byte", false: "18 byte values (every type code)"}[r.Thorough()])
	// every short string
	max := r.Pick(2, 3)
	r.Parallel(256, func(b int) {
		var rec func(p []byte)
		rec = func(p []byte) {
			if _, bad := decode(r, p, ""); bad != "" {
				r.Violate(fmt.Sprintf("Decode(%x)", p), bad, fmt.Sprintf("Decode(%x)", p))
				return
			}
			r.Transitions.Add(1)
			if len(p) < max {
				for c := 0; c < 256; c++ {
					rec(append(p[:len(p):len(p)], byte(c)))
				}
			}
		}
		rec([]byte{byte(b)})
	})
	if _, bad := decode(r, nil, "nothing"); bad != "" {
		r.Violate("Decode()", bad, nil)
	}
	r.Bound("every byte string of at most %d bytes", max)
	// lengths that lie
	for _, t := range []byte{msg.ErrType, msg.ListType, msg.RootType, msg.ObjectType, msg.PeersType} {
		for _, l := range []uint32{1, 255, 1 << 16, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 1} {
			for pad := 0; pad < 120; pad++ {
				p := append([]byte{t}, make([]byte, pad)...)
				p = append(p, byte(l), byte(l>>8), byte(l>>16), byte(l>>24))
				if _, bad := decode(r, p, ""); bad != "" {
					r.Violate(fmt.Sprintf("Decode(%x)", p), bad, fmt.Sprintf("Decode(%x)", p))
				}
				r.Transitions.Add(1)
			}
		}
	}
	r.Bound("5 types with a lying length of 7 values at 120 offsets")
	r.Sample("%s = %s", ex(ms[5]), short(encs[5]))
}
