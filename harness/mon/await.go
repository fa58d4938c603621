package mon

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"regexp"
	"runtime"
	"strings"
	"syscall"
	"time"
)

// Goroutine is one entry of a stack snapshot.
type Goroutine struct {
	ID    string
	State string
	Text  string
}

var header = regexp.MustCompile(`^goroutine (\d+)(?: gp=\S+)?(?: m=\S+)?(?: mp=\S+)? \[([^\],]*)[^\]]*\]:`)

// Snapshot returns all goroutines except the caller.
func Snapshot() []Goroutine {
	buf := make([]byte, 1<<18)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	var gs []Goroutine
	for i, b := range bytes.Split(buf, []byte("\n\n")) {
		if i == 0 {
			continue // the caller
		}
		m := header.FindSubmatch(b)
		if m == nil {
			continue
		}
		gs = append(gs, Goroutine{ID: string(m[1]), State: string(m[2]), Text: string(b)})
	}
	return gs
}

var parked = map[string]bool{
	"chan receive": true, "chan send": true, "select": true, "select (no cases)": true,
	"chan receive (nil chan)": true, "chan send (nil chan)": true,
	"sync.Mutex.Lock": true, "sync.RWMutex.RLock": true, "sync.RWMutex.Lock": true, "sync.WaitGroup.Wait": true,
	"semacquire": true, "sync.Cond.Wait": true, "IO wait": true, "finalizer wait": true, "cleanup wait": true,
	"force gc (idle)": true, "GC sweep wait": true, "GC scavenge wait": true, "GC worker (idle)": true,
	"GC assist wait": false, "debug call": false, "coroutine": true,
}

// quiet tells whether no goroutine can take a step, and a signature of the state.
func quiet(gs []Goroutine) (bool, uint64) {
	h := fnv.New64a()
	for _, g := range gs {
		ok := parked[g.State]
		if g.State == "syscall" && (strings.Contains(g.Text, "unix.EpollWait") || strings.Contains(g.Text, "os/signal.signal_recv")) {
			ok = true
		}
		if !ok {
			return false, 0
		}
		t := g.Text
		if i := strings.IndexByte(t, '\n'); i > 0 {
			t = t[i:]
		}
		_, _ = h.Write([]byte(g.ID + g.State + t))
	}
	return true, h.Sum64()
}

// connecting tells whether a goroutine waits for the kernel to make a TCP connection.
func connecting(gs []Goroutine) bool {
	for _, g := range gs {
		if strings.Contains(g.Text, "net.(*netFD).connect(") {
			return true
		}
	}
	return false
}

const (
	sampleEvery = 50 * time.Millisecond
	needSamples = 40 // identical quiet samples in a row: two seconds in which nothing could move
	watchdog    = 60 * time.Second
)

// AwaitResult of AwaitSoft.
type AwaitResult int

// The outcomes of waiting.
const (
	Happened AwaitResult = iota
	Stuck
	TimedOut
)

// AwaitSoft waits for cond. It returns Stuck with the stacks if the process reached a state in which no goroutine
// can take a step, and TimedOut (no verdict) if neither happens.
func (t *T) AwaitSoft(cond func() bool) (AwaitResult, string) {
	begin, cpu := time.Now(), cpuTime()
	for i := 0; i < 200; i++ {
		if cond() {
			return Happened, ""
		}
		if i < 50 {
			runtime.Gosched()
		} else {
			time.Sleep(100 * time.Microsecond)
		}
	}
	var last uint64
	same := 0
	nextSample := time.Now()
	prev := time.Now()
	for time.Since(begin) < watchdog {
		if cond() {
			return Happened, ""
		}
		now := time.Now()
		if now.Sub(prev) > 500*time.Millisecond {
			same = 0 // this process was not being scheduled
		}
		prev = now
		if now.After(nextSample) {
			nextSample = now.Add(sampleEvery)
			gs := Snapshot()
			ok, sig := quiet(gs)
			switch {
			case !ok:
				same = 0
			case sig != last:
				last, same = sig, 1
			default:
				same++
			}
			need := needSamples
			if connecting(gs) {
				need *= 6 // the kernel may have to send a lost or refused SYN again, after 1, 3 and 7 seconds
			}
			if same >= need && !cond() {
				return Stuck, Dump(gs)
			}
		}
		time.Sleep(time.Millisecond)
	}
	// Nothing here needs that much: some goroutine runs in circles.
	t.mu.Lock()
	t.spun = cpuTime()-cpu > watchdog*6/10
	t.mu.Unlock()
	return TimedOut, Dump(Snapshot())
}

// cpuTime is what this process has used.
func cpuTime() time.Duration {
	var u syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &u) != nil {
		return 0
	}
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

// Await waits for cond; a stuck process is a violation.
func (t *T) Await(key, what string, cond func() bool) {
	r, dump := t.AwaitSoft(cond)
	switch r {
	case Stuck:
		t.report(key, "never happens (every goroutine is parked): "+what, dump)
		panic(stop{})
	case TimedOut:
		t.mu.Lock()
		t.res.Notes["dump"] = dump
		if t.spun {
			t.res.Spinning = key
		}
		t.mu.Unlock()
		t.Inconclusive("watchdog while waiting for: %s\n%s", what, dump)
	}
}

// AwaitChan waits until ch can be received from or is closed.
func (t *T) AwaitChan(key, what string, ch <-chan struct{}) {
	t.Await(key, what, func() bool {
		select {
		case <-ch:
			return true
		default:
			return false
		}
	})
}

// Product lists the goroutines that execute product code.
func Product() []Goroutine {
	var out []Goroutine
	for _, g := range Snapshot() {
		if strings.Contains(g.Text, "github.com/hired/gevulot") {
			out = append(out, g)
		}
	}
	return out
}

// Dump renders goroutines that execute product or harness code.
func Dump(gs []Goroutine) string {
	var b strings.Builder
	for _, g := range gs {
		if strings.Contains(g.Text, "hired/gevulot") || strings.Contains(g.Text, "verif.local") {
			fmt.Fprintf(&b, "%s\n\n", g.Text)
		}
	}
	return b.String()
}

// NoProductGoroutines waits until no goroutine executes product code any more.
func (t *T) NoProductGoroutines(key, when string) {
	t.Await(key, "goroutines of the product end "+when, func() bool { return len(Product()) == 0 })
}

// AwaitSoftly waits for cond or until nothing moves any more.
func (t *T) AwaitSoftly(cond func() bool) {
	if r, dump := t.AwaitSoft(cond); r == TimedOut {
		t.Inconclusive("watchdog\n%s", dump)
	}
}
