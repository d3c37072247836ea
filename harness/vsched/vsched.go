// Package vsched perturbs the schedule of instrumented code. Inside a synctest bubble P sleeps a random amount
// of virtual time, so the interleaving of all goroutines is decided by a seeded random number generator.
package vsched

import (
	"math/rand/v2"
	"sync"
	"sync/atomic"
	"time"
)

var (
	on   atomic.Bool
	mu   sync.Mutex
	rng  *rand.Rand
	mode int
)

// Start enables perturbation. mode selects the shape of the delay distribution.
func Start(seed uint64, m int) {
	mu.Lock()
	rng = rand.New(rand.NewPCG(seed, 0x9e3779b97f4a7c15))
	mode = m
	mu.Unlock()
	on.Store(true)
}

// Stop disables perturbation: P returns at once.
func Stop() { on.Store(false) }

// Rand returns a pseudo-random number below n from the same stream.
func Rand(n int) int {
	mu.Lock()
	defer mu.Unlock()
	if rng == nil {
		return 0
	}
	return rng.IntN(n)
}

// P is called before every statement of the instrumented packages.
func P() {
	if !on.Load() {
		return
	}
	mu.Lock()
	var d int
	r := rng.IntN(100)
	switch mode {
	case 0: // everybody equally fast
		d = rng.IntN(8)
	case 1: // mostly fast, sometimes stalled for a long time
		if r < 80 {
			d = rng.IntN(3)
		} else if r < 95 {
			d = 5 + rng.IntN(40)
		} else {
			d = 50 + rng.IntN(400)
		}
	case 2: // run in bursts: mostly no delay at all
		if r < 88 {
			d = 0
		} else {
			d = 1 + rng.IntN(100)
		}
	}
	mu.Unlock()
	if d > 0 {
		time.Sleep(time.Duration(d))
	}
}

// Now is the current (virtual, inside a bubble) time in nanoseconds.
func Now() int64 { return time.Now().UnixNano() }
