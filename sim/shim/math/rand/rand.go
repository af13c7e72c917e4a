// Package rand is math/rand with a deterministic global source.
package rand

import (
	real "math/rand"

	"verif.sim/simworld"
)

type src struct{}

func (src) Int63() int64 {
	var b [8]byte
	simworld.PseudoRead(b[:])
	var v uint64
	for _, x := range b {
		v = v<<8 | uint64(x)
	}
	return int64(v >> 1)
}
func (src) Seed(int64) {}

var g = real.New(src{})

func Seed(int64)                      {}
func Int63() int64                    { return g.Int63() }
func Uint32() uint32                  { return g.Uint32() }
func Uint64() uint64                  { return uint64(g.Int63())<<1 ^ uint64(g.Int63()) }
func Int31() int32                    { return g.Int31() }
func Int() int                        { return g.Int() }
func Int63n(n int64) int64            { return g.Int63n(n) }
func Int31n(n int32) int32            { return g.Int31n(n) }
func Intn(n int) int                  { return g.Intn(n) }
func Float64() float64                { return g.Float64() }
func Float32() float32                { return g.Float32() }
func Perm(n int) []int                { return g.Perm(n) }
func Shuffle(n int, f func(i, j int)) { g.Shuffle(n, f) }
func Read(b []byte) (int, error)      { simworld.PseudoRead(b); return len(b), nil }
func NormFloat64() float64            { return g.NormFloat64() }
func ExpFloat64() float64             { return g.ExpFloat64() }
