// Code generated by genshim; DO NOT EDIT.

package ecdsa

import real "crypto/ecdsa"

var ParseRawPrivateKey = real.ParseRawPrivateKey
var ParseUncompressedPublicKey = real.ParseUncompressedPublicKey

type PrivateKey = real.PrivateKey
type PublicKey = real.PublicKey

var Sign = real.Sign
var SignASN1 = real.SignASN1
var Verify = real.Verify
var VerifyASN1 = real.VerifyASN1
