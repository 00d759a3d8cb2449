package util

import (
	"bytes"
	"encoding/hex"
	"hash"
	"strings"
)

//verif:fs .
//verif:replace crypto/sha256.New verifHasher

// VerifSums are the bytes the checksums of known contents are made of
var VerifSums = map[string]byte{}

type verifHash struct {
	hash.Hash
	seen []byte
}

func verifHasher() hash.Hash { return &verifHash{} }

func (h *verifHash) Write(b []byte) (int, error) {
	h.seen = append(h.seen, b...)
	return len(b), nil
}

func (h *verifHash) Sum(b []byte) []byte {
	return append(b, bytes.Repeat([]byte{verifByte(h.seen)}, 32)...)
}

func verifByte(content []byte) byte {
	if len(content) == 1 {
		return content[0]
	}
	d, ok := VerifSums[string(content)]
	if !ok {
		return 255
	}
	return d
}

// VerifSum models SHA256, contents of one byte and the known ones have different sums and all others share one
func VerifSum(content string) string {
	return strings.Repeat(hex.EncodeToString([]byte{verifByte([]byte(content))}), 32)
}
