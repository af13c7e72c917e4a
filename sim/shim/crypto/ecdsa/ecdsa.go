// Package ecdsa is crypto/ecdsa with key generation that is a function of the
// bytes read: the real one reads an extra byte at random.
package ecdsa

import (
	real "crypto/ecdsa"
	"crypto/elliptic"
	"io"
	"math/big"
)

// GenerateKey generates a key pair.
func GenerateKey(c elliptic.Curve, r io.Reader) (*real.PrivateKey, error) {
	n := c.Params().N
	b := make([]byte, (n.BitLen()+7)/8)
	for {
		if _, err := io.ReadFull(r, b); err != nil {
			return nil, err
		}
		if x := n.BitLen() % 8; x > 0 {
			b[0] >>= 8 - uint(x)
		}
		k := new(big.Int).SetBytes(b)
		if k.Sign() == 0 || k.Cmp(n) >= 0 {
			continue
		}
		p := &real.PrivateKey{D: k}
		p.Curve = c
		p.X, p.Y = c.ScalarBaseMult(k.Bytes())
		return p, nil
	}
}
