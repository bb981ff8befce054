// Package simtime replaces the clock functions of package time inside the
// instrumented copy of libsv by the simulated clock.
package simtime

import (
	"time"

	"verif.local/sim/hook"
)

// Now returns the simulated time.
func Now() time.Time                  { return time.Unix(1600000000, hook.NowNs()).UTC() }
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }
func Sleep(d time.Duration)           { hook.Wait(int(min(max(d/time.Microsecond, 0), 100_000))) }
