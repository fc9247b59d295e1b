// Command genworker runs the generator world.
package main

import (
	"verif/genworld"
	"verif/runner"
)

func main() {
	runner.Main(func() runner.World { return genworld.New() })
}
