//go:build !race

package vsched

const RaceBuild = false

func raceDisable() {}
func raceEnable()  {}
