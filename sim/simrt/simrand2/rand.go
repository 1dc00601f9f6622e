// Package simrand2 replaces the global functions of math/rand/v2.
package simrand2

import (
	"math/rand/v2"
	"simrt"
)

type src struct{}

func (src) Uint64() uint64 { return simrt.AppR.U64() }

var g = rand.New(src{})

func edge(n int64) (int64, bool) {
	if simrt.Opt.DiceEdge == 0 || n <= 0 {
		return 0, false
	}
	u := simrt.AppR.U64()
	if float64(u>>11)/(1<<53) >= simrt.Opt.DiceEdge {
		return 0, false
	}
	return int64(u&1) * (n - 1), true
}

func Int64() int64   { return g.Int64() }
func Uint32() uint32 { return g.Uint32() }
func Uint64() uint64 { return g.Uint64() }
func Int32() int32   { return g.Int32() }
func Int() int       { return g.Int() }
func Uint() uint     { return g.Uint() }
func Int64N(n int64) int64 {
	if v, ok := edge(n); ok {
		return int64(v)
	}
	return g.Int64N(n)
}
func Uint64N(n uint64) uint64 { return g.Uint64N(n) }
func Int32N(n int32) int32 {
	if v, ok := edge(int64(n)); ok {
		return int32(v)
	}
	return g.Int32N(n)
}
func Uint32N(n uint32) uint32 { return g.Uint32N(n) }
func IntN(n int) int {
	if v, ok := edge(int64(n)); ok {
		return int(v)
	}
	return g.IntN(n)
}
func UintN(n uint) uint                  { return g.UintN(n) }
func Float64() float64                   { return g.Float64() }
func Float32() float32                   { return g.Float32() }
func Perm(n int) []int                   { return g.Perm(n) }
func Shuffle(n int, swap func(i, j int)) { g.Shuffle(n, swap) }
func NormFloat64() float64               { return g.NormFloat64() }
func ExpFloat64() float64                { return g.ExpFloat64() }

func N[Int interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}](n Int) Int {
	if n <= 0 {
		panic("invalid argument to N")
	}
	return Int(g.Uint64N(uint64(n)))
}
