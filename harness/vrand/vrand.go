// Package vrand stands in for github.com/zhangyunhao116/fastrand in the package under test:
// in a controlled run it draws from the run's PRNG (with the configured bias towards tall or
// flat towers), otherwise from the real generator.
package vrand

import (
	"github.com/zhangyunhao116/fastrand"

	"verif/vsched"
)

var Uint32 = func() uint32 {
	if v, ok := vsched.Draw(0); ok {
		return v
	}
	return fastrand.Uint32()
}

func Uint32n(n uint32) uint32 {
	if n > 0 {
		if v, ok := vsched.Draw(n); ok {
			return v
		}
	}
	return fastrand.Uint32n(n)
}

func Uint64() uint64 {
	a, ok := vsched.Draw(0)
	if !ok {
		return fastrand.Uint64()
	}
	b, _ := vsched.Draw(0)
	return uint64(b)<<32 | uint64(a)
}

func Uint64n(n uint64) uint64 {
	if n > 0 && n < 1<<32 {
		return uint64(Uint32n(uint32(n)))
	}
	if n == 0 {
		return fastrand.Uint64n(n)
	}
	return Uint64() % n
}

func Int() int     { return int(uint(Uint64()) << 1 >> 1) }
func Int31() int32 { return int32(Uint32() & (1<<31 - 1)) }
func Int63() int64 { return int64(Uint64() & (1<<63 - 1)) }

func Int31n(n int32) int32 {
	if n <= 0 {
		panic("invalid argument to Int31n")
	}
	return int32(Uint32n(uint32(n)))
}

func Int63n(n int64) int64 {
	if n <= 0 {
		panic("invalid argument to Int63n")
	}
	return int64(Uint64n(uint64(n)))
}

func Intn(n int) int {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	return int(Uint64n(uint64(n)))
}

func Float64() float64 { return float64(Int63n(1<<53)) / (1 << 53) }
func Float32() float32 { return float32(Int31n(1<<24)) / (1 << 24) }

func Read(p []byte) (int, error)         { return fastrand.Read(p) }
func Perm(n int) []int                   { return fastrand.Perm(n) }
func Shuffle(n int, swap func(i, j int)) { fastrand.Shuffle(n, swap) }
