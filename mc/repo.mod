module github.com/skycoin/cxo

go 1.23

require (
	github.com/DiSiqueira/GoTree v0.0.0
	github.com/boltdb/bolt v1.3.1
	github.com/peterh/liner v0.0.0
	github.com/skycoin/net v0.0.0
	github.com/skycoin/skycoin v0.0.0
)
