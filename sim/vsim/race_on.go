//go:build race

package vsim

import "runtime"

const RaceBuild = true

func raceOff() { runtime.RaceDisable() }
func raceOn()  { runtime.RaceEnable() }

// RaceOff and RaceOn enclose what is not to order threads in the eyes of the race detector
func RaceOff() { raceOff() }
func RaceOn()  { raceOn() }
