package vf

import (
	"math"
	"math/rand"

	"verif/dict"
)

// Dict has the constants of the package under test.
var Dict = &dict.Runtime

// floats are the bits of a number made of u.
func floats(r *rand.Rand, k Kind, u uint64) uint64 {
	f := float64(u)
	if r.Intn(3) == 0 {
		f = -f
	}
	switch {
	case r.Intn(3) == 0: // the bits themselves
		return quiet(k, Canon(k, u))
	case k == Float:
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}
