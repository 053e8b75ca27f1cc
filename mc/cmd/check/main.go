// Command check decides the properties about the schemes' public behaviour.
package main

import (
	_ "verifmc/props"
	"verifmc/runner"
)

func main() { runner.Main() }
