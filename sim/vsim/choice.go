package vsim

import "strconv"

// All randomness of a run, schedule and faults and inputs alike, is one recorded sequence of bounded choices.
// A choice of 0 is always the simplest alternative, so a sequence that runs out continues with 0, and a recorded
// sequence can be minimised without knowing what its entries mean.

var (
	prng     uint64
	replay   []uint32 // nil: draw from the generator
	replayed bool
	choices  []uint32
)

func next64() uint64 {
	prng += 0x9e3779b97f4a7c15
	z := prng
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Mix64 is a stateless hash step.
func Mix64(z uint64) uint64 {
	z += 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

const maxChoices = 1 << 20

// Draw returns a choice in [0, n).
func Draw(n int) int {
	if n <= 1 {
		return 0
	}
	var v uint32
	if replayed {
		if len(choices) < len(replay) {
			v = replay[len(choices)] % uint32(n)
		}
	} else {
		v = uint32(next64()>>33) % uint32(n)
	}
	if len(choices) >= maxChoices {
		return 0
	}
	choices = append(choices, v)
	if Sink != 0 {
		sink("C " + strconv.Itoa(int(v)) + "\n")
	}
	return int(v)
}
