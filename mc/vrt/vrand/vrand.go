// Package vrand replaces math/rand in the instrumented copy: every draw is
// resolved by the explorer.
package vrand

import (
	"math/rand"

	"verif/vrt"
)

type Source = rand.Source

func Seed(int64) {}

func Intn(n int) int {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	return int(vrt.Rand("int", int64(n)))
}
func Int63n(n int64) int64 {
	if n <= 0 {
		panic("invalid argument to Int63n")
	}
	return vrt.Rand("int", n)
}
func Int31n(n int32) int32 {
	if n <= 0 {
		panic("invalid argument to Int31n")
	}
	return int32(vrt.Rand("int", int64(n)))
}
func Int() int       { return int(vrt.Rand("int", 1<<62)) }
func Int63() int64   { return vrt.Rand("int", 1<<62) }
func Int31() int32   { return int32(vrt.Rand("int", 1<<31-1)) }
func Uint32() uint32 { return uint32(vrt.Rand("int", 1<<32-1)) }

// Float64 draws from a grid of 1000 values in [0,1).
func Float64() float64 { return float64(vrt.Rand("float", 1000)) / 1000 }
func Float32() float32 { return float32(Float64()) }

func Perm(n int) []int {
	m := make([]int, n)
	for i := range m {
		j := Intn(i + 1)
		m[i] = m[j]
		m[j] = i
	}
	return m
}

func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, Intn(i+1))
	}
}

type Rand struct{}

func New(Source) *Rand                        { return &Rand{} }
func NewSource(seed int64) Source             { return rand.NewSource(seed) }
func (*Rand) Seed(int64)                      {}
func (*Rand) Intn(n int) int                  { return Intn(n) }
func (*Rand) Int63n(n int64) int64            { return Int63n(n) }
func (*Rand) Int31n(n int32) int32            { return Int31n(n) }
func (*Rand) Int() int                        { return Int() }
func (*Rand) Int63() int64                    { return Int63() }
func (*Rand) Float64() float64                { return Float64() }
func (*Rand) Perm(n int) []int                { return Perm(n) }
func (*Rand) Shuffle(n int, f func(i, j int)) { Shuffle(n, f) }
