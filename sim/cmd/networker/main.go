// networker runs the network-layer and heartbeat harnesses.
package main

import (
	_ "verif.local/sim/hn"
	"verif.local/sim/w"
)

func main() { w.Main() }
