// Package simcrand replaces crypto/rand.
package simcrand

import (
	"io"
	"math/big"
	"simrt"
)

type rd struct{}

func (rd) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(simrt.AppR.U64())
	}
	return len(b), nil
}

var Reader io.Reader = rd{}

func Read(b []byte) (int, error) { return Reader.Read(b) }
func Int(r io.Reader, max *big.Int) (*big.Int, error) {
	n := new(big.Int).SetUint64(simrt.AppR.U64())
	return n.Mod(n, max), nil
}
