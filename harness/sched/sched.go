//go:build !race

package sched

import (
	"runtime"
	"sync/atomic"
	"time"
)

type state struct {
	plan   Plan
	bySite map[int][]Point
	hits   [MaxSites]int32
	rnd    uint64
	hash   uint64
	trig   chan struct{}
	fired  int32
	total  int64
	naps   int64
}

var cur atomic.Pointer[state]

// Start installs a plan and resets the counters.
func Start(p Plan) {
	s := &state{plan: p, bySite: map[int][]Point{}, trig: make(chan struct{}), rnd: p.Seed*2654435761 + 1, hash: 14695981039346656037}
	for _, pt := range p.Points {
		s.bySite[pt.Site] = append(s.bySite[pt.Site], pt)
	}
	cur.Store(s)
}

// Stop removes the plan.
func Stop() { cur.Store(nil) }

// Triggered is closed by a trigger point.
func Triggered() <-chan struct{} {
	if s := cur.Load(); s != nil {
		return s.trig
	}
	return nil
}

// Instrumented tells whether this build can hold a plan.
const Instrumented = true

// Stats returns visits per site, hash of the visit order, number of visits and number of delays.
func Stats() (map[int]int, uint64, int64, int64) {
	s := cur.Load()
	if s == nil {
		return nil, 0, 0, 0
	}
	m := map[int]int{}
	for i := range s.hits {
		if n := atomic.LoadInt32(&s.hits[i]); n > 0 {
			m[i] = int(n)
		}
	}
	return m, atomic.LoadUint64(&s.hash), atomic.LoadInt64(&s.total), atomic.LoadInt64(&s.naps)
}

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// Y is a yield point.
func Y(site int) {
	s := cur.Load()
	if s == nil || site >= MaxSites {
		return
	}
	n := int(atomic.AddInt32(&s.hits[site], 1))
	atomic.AddInt64(&s.total, 1)
	for {
		h := atomic.LoadUint64(&s.hash)
		if atomic.CompareAndSwapUint64(&s.hash, h, (h^uint64(site+1))*1099511628211) {
			break
		}
	}
	for _, p := range s.bySite[site] {
		if n >= p.First && n < p.First+p.Count {
			if p.Trigger && atomic.CompareAndSwapInt32(&s.fired, 0, 1) {
				close(s.trig)
			}
			atomic.AddInt64(&s.naps, 1)
			time.Sleep(time.Duration(p.DelayUS) * time.Microsecond)
			return
		}
	}
	if s.plan.Noise > 0 {
		r := mix(atomic.AddUint64(&s.rnd, 1))
		if int(r&0xffff) < s.plan.Noise {
			atomic.AddInt64(&s.naps, 1)
			if r&0x10000 != 0 || s.plan.MaxSleepUS == 0 {
				runtime.Gosched()
			} else {
				time.Sleep(time.Duration((r>>20)%uint64(s.plan.MaxSleepUS)+1) * time.Microsecond)
			}
		}
	}
}
