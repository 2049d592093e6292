// worker runs the engine, indexer and ranker harnesses.
package main

import (
	_ "verif.local/sim/h"
	"verif.local/sim/w"
)

func main() { w.Main() }
