// Package rand replaces math/rand: every draw comes from the run's seed.
package rand

import (
	real "math/rand"

	"uniswap-simulator/zsim/simrt"
)

type (
	Rand   = real.Rand
	Source = real.Source
)

var global = real.New(real.NewSource(1))

// Seeded is called by the simulator at the start of a run.
func Seeded(s int64) { global = real.New(real.NewSource(s)) }

func New(s Source) *Rand              { return real.New(s) }
func NewSource(s int64) Source        { return real.NewSource(s) }
func Seed(s int64)                    {}
func Int() int                        { simrt.Y(); return global.Int() }
func Intn(n int) int                  { simrt.Y(); return global.Intn(n) }
func Int63() int64                    { simrt.Y(); return global.Int63() }
func Int63n(n int64) int64            { simrt.Y(); return global.Int63n(n) }
func Int31n(n int32) int32            { simrt.Y(); return global.Int31n(n) }
func Uint32() uint32                  { simrt.Y(); return global.Uint32() }
func Uint64() uint64                  { simrt.Y(); return global.Uint64() }
func Float64() float64                { simrt.Y(); return global.Float64() }
func Perm(n int) []int                { simrt.Y(); return global.Perm(n) }
func Shuffle(n int, f func(i, j int)) { simrt.Y(); global.Shuffle(n, f) }

func Int31() int32         { simrt.Y(); return global.Int31() }
func Float32() float32     { simrt.Y(); return global.Float32() }
func NormFloat64() float64 { simrt.Y(); return global.NormFloat64() }
func ExpFloat64() float64  { simrt.Y(); return global.ExpFloat64() }
func Read(b []byte) (int, error) {
	simrt.Y()
	return global.Read(b)
}
