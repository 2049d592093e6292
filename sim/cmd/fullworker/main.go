// fullworker runs the engine harness over the real store backends.
package main

import (
	_ "verif.local/sim/hf"
	"verif.local/sim/w"
)

func main() { w.Main() }
