// Package rand is the simulated stand-in for crypto/rand.
package rand

import (
	std "crypto/rand"
	"errors"
	"io"
	"simrt"
)

// ErrSim is the injected failure of the system's randomness source.
var ErrSim = errors.New("simulated: randomness source unavailable")

func Read(p []byte) (int, error) {
	if !simrt.Active() {
		return std.Read(p)
	}
	simrt.YS()
	if !simrt.CryptoOK {
		return 0, ErrSim
	}
	for i := 0; i < len(p); i += 8 {
		v := simrt.Rand64()
		for j := i; j < i+8 && j < len(p); j++ {
			p[j] = byte(v)
			v >>= 8
		}
	}
	return len(p), nil
}

type reader struct{}

func (reader) Read(p []byte) (int, error) { return Read(p) }

var Reader io.Reader = reader{}
