// Package scrypt is golang.org/x/crypto/scrypt at reduced cost: the real
// function for small parameters; for others the result is a deterministic
// function of all its arguments, but not the standard one.
package scrypt

import (
	"errors"
	"fmt"

	real "golang.org/x/crypto/scrypt"

	"verif.sim/simworld"
)

const maxInt = int(^uint(0) >> 1)

// Key derives a key; parameter validation is that of the real package.
func Key(password, salt []byte, N, r, p, keyLen int) ([]byte, error) {
	if N <= 1 || N&(N-1) != 0 {
		return nil, errors.New("scrypt: N must be > 1 and a power of 2")
	}
	if uint64(r)*uint64(p) >= 1<<30 || r > maxInt/128/p || r > maxInt/256 || N > maxInt/128/r {
		return nil, errors.New("scrypt: parameters are too large")
	}
	if mem := 128 * uint64(r) * uint64(N); mem > 16<<30 {
		// the real function would exhaust the machine's memory
		panic(fmt.Sprintf("simulated out of memory: scrypt needs %d bytes", mem))
	}
	if keyLen > 1<<34 {
		panic(fmt.Sprintf("simulated out of memory: scrypt key of %d bytes", keyLen))
	}
	if w := uint64(N) * uint64(r) * uint64(p); w > 1<<34 {
		panic(fmt.Sprintf("simulated hang: scrypt work factor %d", w))
	}
	if r > 0 && p > 0 && uint64(N)*uint64(r)*uint64(p) <= 1<<7 && keyLen < 1<<16 {
		return real.Key(password, salt, N, r, p, keyLen)
	}
	return simworld.Stretch(password, salt, fmt.Sprintf("scrypt %d %d %d", N, r, p), keyLen), nil
}
