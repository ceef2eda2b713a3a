module vmc

go 1.25

require (
	github.com/DiSiqueira/GoTree v0.0.0
	github.com/boltdb/bolt v1.3.1
	github.com/peterh/liner v0.0.0
	github.com/skycoin/cxo v0.0.0
	github.com/skycoin/net v0.0.0
	github.com/skycoin/skycoin v0.0.0
)

replace (
	github.com/DiSiqueira/GoTree => ../deps/gotree
	github.com/boltdb/bolt => ../deps/bolt
	github.com/peterh/liner => ../deps/liner
	github.com/skycoin/cxo => /repo
	github.com/skycoin/net => ../deps/net
	github.com/skycoin/skycoin => ../deps/skycoin
)
