// Package rand hands out the simulated machine's randomness.
package rand

import (
	real "crypto/rand"
	"io"
	"math/big"

	"verif.sim/simworld"
)

// Reader is the source.
var Reader io.Reader = simworld.RandReader

// Read fills b.
func Read(b []byte) (int, error) { return io.ReadFull(Reader, b) }

// Int is crypto/rand.Int.
func Int(r io.Reader, max *big.Int) (*big.Int, error) { return real.Int(r, max) }

// Text is crypto/rand.Text.
func Text() string {
	const a = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"
	b := make([]byte, 26)
	Read(b)
	for i := range b {
		b[i] = a[b[i]%32]
	}
	return string(b)
}
