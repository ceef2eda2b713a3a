// Checks C01-C11: the container of objects, its cache, index, saving, filling,
// previewing and clean-up. C03, C07 and C11 explore schedules and are built
// from instrumented sources.
package main

import (
	"vmc/core"
)

func main() {
	core.Main(map[string]core.Check{
		"C01": {Level: "model_checking", Run: c01},
		"C02": {Level: "model_checking", Run: c02},
		"C03": {Level: "model_checking", Run: c03, Sharded: true},
		"C04": {Level: "fault_enumeration", Run: c04},
		"C05": {Level: "model_checking", Run: c05},
		"C06": {Level: "model_checking", Run: c06},
		"C07": {Level: "model_checking", Run: c07, Sharded: true},
		"C08": {Level: "model_checking", Run: c08},
		"C09": {Level: "fault_enumeration", Run: c09},
		"C10": {Level: "model_checking", Run: c10},
		"C11": {Level: "model_checking", Run: c11, Sharded: true},
	})
}
