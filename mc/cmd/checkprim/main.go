// Command checkprim decides the properties about the exported arithmetic primitives.
package main

import (
	_ "verifmc/prim"
	"verifmc/runner"
)

func main() { runner.Main() }
