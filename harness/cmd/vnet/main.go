// vnet decides the properties of layers, neurons and networks.
package main

import (
	"os"

	"goslideverif/mc"
)

func main() {
	if len(os.Args) == 3 && os.Args[1] == "race" {
		raceRun(os.Args[2])
		return
	}
	mc.Main([]mc.Prop{c09, c10, c11, c12, c13, c14, c15, c16, c22, c23, c24, c25, c27, c28, c29, c30, c33})
}
