// Package rand is the simulated crypto/rand: the seed of the simulation decides.
package rand

import (
	"io"

	"sim/rt"
)

type reader struct{}

func (reader) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(rt.RandU64() >> 7)
	}
	return len(p), nil
}

var Reader io.Reader = reader{}

func Read(p []byte) (int, error) { return Reader.Read(p) }
func Text() string {
	const a = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"
	b := make([]byte, 26)
	Read(b)
	for i := range b {
		b[i] = a[b[i]%32]
	}
	return string(b)
}
