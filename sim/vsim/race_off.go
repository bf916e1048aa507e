//go:build !race

package vsim

const RaceBuild = false

func raceOff() {}
func raceOn()  {}

// RaceOff and RaceOn enclose what is not to order threads in the eyes of the race detector
func RaceOff() { raceOff() }
func RaceOn()  { raceOn() }
