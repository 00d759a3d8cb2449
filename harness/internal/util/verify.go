package util

import (
	"bytes"
	"crypto/ed25519"
)

//verif:replace crypto/ed25519.Verify verifVerify

// VerifSigned is what was signed, by the key of ones, with a signature of VerifSignature bytes
var VerifSigned []byte

const VerifSignature = 0x5a

func verifVerify(pk ed25519.PublicKey, msg []byte, sig []byte) bool {
	if len(pk) != ed25519.PublicKeySize {
		panic("ed25519: bad public key length")
	}
	return bytes.Equal(pk, bytes.Repeat([]byte{1}, 32)) && bytes.Equal(msg, VerifSigned) && len(sig) == 64 && sig[0] == VerifSignature
}
