// Package vrand replaces "math/rand": every drawn number is a symbolic input.
package vrand

import "verif.local/sym"

func Seed(int64) {}
func Intn(n int) int {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	v := sym.IntRange("rand", 0, 1<<62)
	sym.Assume(v < n)
	return v
}
func Int63n(n int64) int64 {
	if n <= 0 {
		panic("invalid argument to Int63n")
	}
	v := sym.Int64Range("rand", 0, 1<<62) // keeps sums linear; every n in use is smaller
	sym.Assume(v < n)
	return v
}
func Int31n(n int32) int32 { return int32(Int63n(int64(n))) }
func Int63() int64 {
	v := sym.Int64("rand")
	sym.Assume(v >= 0)
	return v
}
func Int() int { return int(Int63()) }

// Float64 draws one of 18 values that reach every side of a comparison with constants that
// are more than 1/16 apart, and both ends of the range.
func Float64() float64 {
	k := sym.Choose("randf", 18)
	switch k {
	case 16:
		return 1e-12
	case 17:
		return 1 - 1e-12
	}
	return float64(k) / 16
}
func Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	Shuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p
}
func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		j := sym.Pin(Intn(i + 1))
		swap(i, j)
	}
}
