package scen

import (
	"crypto/rand"
	"net/http"

	"verif.sim/simworld"
)

// setup replaces the process-wide seams of the standard library.
func setup() {
	// uninstrumented code that draws randomness sees the same stream
	rand.Reader = simworld.RandReader
	// net/http's client runs real code on top of simulated round trips
	http.DefaultTransport = simHTTP{}
}
