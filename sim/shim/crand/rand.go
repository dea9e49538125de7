// Package rand replaces crypto/rand inside the simulator.
package rand

import (
	"io"

	"verif/simrt"
)

type reader struct{}

func (reader) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(simrt.AuxU64() >> 56)
	}
	return len(p), nil
}

var Reader io.Reader = reader{}

func Read(p []byte) (int, error) { return Reader.Read(p) }
