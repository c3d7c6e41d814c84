//go:build race

package vsched

import "runtime"

const Race = true

func raceDisable() { runtime.RaceDisable() }
func raceEnable()  { runtime.RaceEnable() }
