// Package pbkdf2 is golang.org/x/crypto/pbkdf2 at reduced cost: the real
// function for few iterations; for others the result is a deterministic
// function of all its arguments, but not the standard one.
package pbkdf2

import (
	"fmt"
	"hash"

	real "golang.org/x/crypto/pbkdf2"

	"verif.sim/simworld"
)

// Key derives a key.
func Key(password, salt []byte, iter, keyLen int, h func() hash.Hash) []byte {
	if iter > 1<<31 {
		panic(fmt.Sprintf("simulated hang: pbkdf2 with %d iterations", iter))
	}
	if iter < 1 {
		iter = 1 // as the real function
	}
	if iter <= 64 && keyLen < 1<<16 {
		return real.Key(password, salt, iter, keyLen, h)
	}
	if keyLen > 1<<34 {
		panic(fmt.Sprintf("simulated out of memory: pbkdf2 key of %d bytes", keyLen))
	}
	x := h()
	return simworld.Stretch(password, salt, fmt.Sprintf("pbkdf2 %d %T %d", iter, x, x.Size()), keyLen)
}
