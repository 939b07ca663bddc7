// Package vsha1 stands for crypto/sha1.
package vsha1

import (
	"hash"

	"github.com/flu-network/client/zzverif/sym"
)

const Size = 20
const BlockSize = 64

func Sum(data []byte) [Size]byte { return sym.SHA1(data) }

type digest struct{ buf []byte }

func New() hash.Hash { return &digest{} }

func (d *digest) Write(p []byte) (int, error) {
	d.buf = append(d.buf, p...)
	return len(p), nil
}
func (d *digest) Sum(b []byte) []byte {
	h := sym.SHA1(d.buf)
	return append(b, h[:]...)
}
func (d *digest) Reset()         { d.buf = nil }
func (d *digest) Size() int      { return Size }
func (d *digest) BlockSize() int { return BlockSize }
func (d *digest) WriteString(s string) (int, error) {
	d.buf = append(d.buf, s...)
	return len(s), nil
}
