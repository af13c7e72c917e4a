// Package time is package time on the simulated clock.
package time

import (
	real "time"

	"verif.sim/simrt"
)

// Sleep sleeps in simulated time.
func Sleep(d real.Duration) { simrt.Sleep(d) }

// AfterFunc runs f as a simulated goroutine.
func AfterFunc(d real.Duration, f func()) *real.Timer { return simrt.AfterFunc(d, f) }
