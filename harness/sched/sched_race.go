//go:build race

package sched

// In the race-detector build the yield points must not synchronise the goroutines that visit them (that would hide
// races), so they use no shared state: decisions come from the runtime's per-thread generator.

import (
	"math/rand/v2"
	"os"
	"runtime"
	"strconv"
	"time"
)

var noise, maxSleep = func() (uint32, uint32) {
	n, _ := strconv.Atoi(os.Getenv("VERIF_NOISE"))
	return uint32(n), 300
}()

// Start does nothing in this build.
func Start(Plan) {}

// Stop does nothing in this build.
func Stop() {}

var never = make(chan struct{})

// Triggered never happens in this build.
func Triggered() <-chan struct{} { return never }

// Instrumented tells whether this build can hold a plan.
const Instrumented = false

// Stats has nothing to report in this build.
func Stats() (map[int]int, uint64, int64, int64) { return nil, 0, 0, 0 }

// Y is a yield point.
func Y(site int) {
	if noise == 0 {
		return
	}
	r := rand.Uint32()
	if r&0xffff < noise {
		if r&0x10000 != 0 {
			runtime.Gosched()
		} else {
			time.Sleep(time.Duration(r>>17%maxSleep) * time.Microsecond)
		}
	}
}
