package main

import (
	"bytes"
	"encoding/gob"
	"net/rpc"
	"strings"

	"github.com/skycoin/skycoin/src/cipher"

	"github.com/skycoin/cxo/node"
)

type pubKey = cipher.PubKey

// nonsense that a client can send
func nonsense() (ms []string) {
	ms = append(ms, "GET / HTTP/1.1\r\n\r\n", "\x00", "\xff\xff\xff\xff\xff\xff\xff\xff\xff", strings.Repeat("\x01", 4096))
	req := func(method string, body interface{}) string {
		var b bytes.Buffer
		e := gob.NewEncoder(&b)
		e.Encode(&rpc.Request{ServiceMethod: method, Seq: 1})
		e.Encode(body)
		return b.String()
	}
	good := req("node.Share", owners[0].pk)
	ms = append(ms, good[:len(good)/3], good[:len(good)-1])
	ms = append(ms,
		req("node.Nothing", owners[0].pk), req("nothing", 1), req("node.", 1), req("", 1),
		req("node.Share", "text"), req("node.Share", 5), req("node.Feeds", 7), req("node.IsSharing", []int{1}),
		req("tcp.Connect", 7), req("tcp.Connect", ""), req("tcp.Subscribe", "addr"), req("udp.Subscribe", node.ConnFeed{}),
		req("root.Show", "x"), req("root.Show", node.RootSelector{}), req("root.Last", pubKey{}), req("node.Stat", "x"))
	return
}
