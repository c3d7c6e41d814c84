//go:build !race

package vsched

const Race = false

func raceDisable() {}
func raceEnable()  {}
