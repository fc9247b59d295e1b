// Command worker runs the codec and cluster worlds.
package main

import (
	"verif/gentypes"
	_ "verif/gentypes/alt/gentypes"
	"verif/runner"
	"verif/world"
)

func main() {
	runner.Main(func() runner.World { return world.LoadTypes(gentypes.CatKind, gentypes.CatSeed, gentypes.CatExtra) })
}
