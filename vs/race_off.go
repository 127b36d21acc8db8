//go:build !race

package vs

const RaceBuild = false

func raceOff() {}
func raceOn()  {}

func RaceErrors() int { return 0 }
