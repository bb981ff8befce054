//go:build !race

package kernel

// RaceBuild tells whether the race detector is compiled in.
const RaceBuild = false

// RaceErrors counts the data races reported so far.
func RaceErrors() int { return 0 }
