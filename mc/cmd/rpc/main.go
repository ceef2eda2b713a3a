// Checks N08 and N10: configurations and starts; the RPC of a node and the command line tool, over real loopback
// connections, compared with the local API. Transports of the nodes are the
// in-memory ones.
package main

import (
	"os"
	"strings"

	"vmc/core"
)

func main() {
	core.Main(map[string]core.Check{
		"N08": {Level: "model_checking", Run: n08},
		"N10": {Level: "model_checking", Run: n10},
	})
}

func want(name string) bool {
	only := os.Getenv("VMC_ONLY")
	return only == "" || strings.Contains(name, only)
}
