// Checks N01-N07: messages, connections, subscriptions, replication, requests
// and swarms of a node. All but N01 run instrumented sources under the
// scheduler, which also owns the clock.
package main

import (
	"os"

	"vmc/core"
)

func main() {
	core.Main(map[string]core.Check{
		"N01": {Level: "model_checking", Run: n01},
		"N02": {Level: "model_checking", Run: n02, Sharded: true},
		"N03": {Level: "model_checking", Run: n03, Sharded: true},
		"N07": {Level: "model_checking", Run: n07, Sharded: true},
		"N04": {Level: "model_checking", Run: n04, Sharded: true},
		"N05": {Level: "model_checking", Run: n05, Sharded: true},
		"N09": {Level: "model_checking", Run: n09, Sharded: true},
		"N06": {Level: "model_checking", Run: n06, Sharded: true},
	})
}

func envOnly() string { return os.Getenv("VMC_ONLY") }
