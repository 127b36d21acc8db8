//go:build race

package vs

import "runtime"

// RaceBuild tells whether the race detector is compiled in.
const RaceBuild = true

//go:norace
func raceOff() { runtime.RaceDisable() }

//go:norace
func raceOn() { runtime.RaceEnable() }

// RaceErrors is the number of races reported so far.
func RaceErrors() int { return runtime.RaceErrors() }
