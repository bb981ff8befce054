//go:build race

package kernel

import "runtime"

// RaceBuild tells whether the race detector is compiled in.
const RaceBuild = true

// RaceErrors counts the data races reported so far.
func RaceErrors() int { return runtime.RaceErrors() }
