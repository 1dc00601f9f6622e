// Package simrand replaces the global functions of math/rand.
package simrand

import (
	"math/rand"
	"simrt"
)

type src struct{}

func (src) Int63() int64    { return int64(simrt.AppR.U64() >> 1) }
func (src) Uint64() uint64  { return simrt.AppR.U64() }
func (src) Seed(seed int64) {}

var g = rand.New(src{})

// edge draws a boundary value of a range now and then, if the run asks for it.
func edge(n int64) (int64, bool) {
	if simrt.Opt.DiceEdge == 0 || n <= 0 {
		return 0, false
	}
	u := simrt.AppR.U64()
	if float64(u>>11)/(1<<53) >= simrt.Opt.DiceEdge {
		return 0, false
	}
	return int64(u&1) * (n - 1), true
}

func Seed(seed int64) {}
func Int63() int64    { return g.Int63() }
func Uint32() uint32  { return g.Uint32() }
func Uint64() uint64  { return g.Uint64() }
func Int31() int32    { return g.Int31() }
func Int() int        { return g.Int() }
func Int63n(n int64) int64 {
	if v, ok := edge(n); ok {
		return int64(v)
	}
	return g.Int63n(n)
}
func Int31n(n int32) int32 {
	if v, ok := edge(int64(n)); ok {
		return int32(v)
	}
	return g.Int31n(n)
}
func Intn(n int) int {
	if v, ok := edge(int64(n)); ok {
		return int(v)
	}
	return g.Intn(n)
}
func Float64() float64                   { return g.Float64() }
func Float32() float32                   { return g.Float32() }
func Perm(n int) []int                   { return g.Perm(n) }
func Shuffle(n int, swap func(i, j int)) { g.Shuffle(n, swap) }
func Read(p []byte) (n int, err error)   { return g.Read(p) }
func NormFloat64() float64               { return g.NormFloat64() }
func ExpFloat64() float64                { return g.ExpFloat64() }
