// storeworker runs the store harness.
package main

import (
	_ "verif.local/sim/hs"
	"verif.local/sim/w"
)

func main() { w.Main() }
