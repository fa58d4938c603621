package mon

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"strings"
	"syscall"
	"time"

	log "github.com/sirupsen/logrus"
)

// Property is a check.
type Property struct {
	ID          string
	Rule        string
	Assumptions []string
	Scenarios   map[string]func(*T)
	Plan        func(*Run)

	NeedProgram bool // the check runs the built program
	Race        bool // the check is built with the race detector
	MinDistinct int  // fewer distinct non-trivial cases than this make the run an error
	Workers     int  // number of child processes, 0: number of cores
	KeepLog     bool // do not discard the product's log
	Forgetful   bool // collect no garbage before there is a lot: it would close forgotten connections
}

// Registry of all properties.
var Registry = map[string]*Property{}

// Register adds a property.
func Register(p *Property) { Registry[p.ID] = p }

// ChildMain runs the tasks the parent sends.
func ChildMain(id string) {
	p := Registry[id]
	var env Env
	if err := json.Unmarshal([]byte(os.Getenv("VERIF_CHILD_ENV")), &env); err != nil {
		fmt.Fprintln(os.Stderr, "child:", err)
		os.Exit(3)
	}
	if !p.Race {
		lim := syscall.Rlimit{Cur: 24 << 30, Max: 24 << 30}
		_ = syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	debug.SetTraceback("all")
	if !p.Race {
		go guardMemory()
	}
	if p.Forgetful {
		debug.SetMemoryLimit(1 << 30)
		debug.SetGCPercent(-1)
	}
	if !p.KeepLog {
		log.SetOutput(io.Discard)
	}
	out := os.NewFile(3, "results")
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			os.Exit(0)
		}
		var task Task
		if err := json.Unmarshal(line, &task); err != nil {
			fmt.Fprintln(os.Stderr, "child:", err)
			os.Exit(3)
		}
		f := p.Scenarios[task.Scenario]
		if f == nil {
			fmt.Fprintln(os.Stderr, "child: no scenario", task.Scenario)
			os.Exit(3)
		}
		t := newT(task, env)
		over := make(chan struct{})
		if !p.Race {
			go t.watch(over, out)
		}
		res := t.run(f)
		close(over)
		if !send(out, res) {
			os.Exit(0)
		}
		if len(res.Violations) > 0 || res.Inconclusive != "" {
			os.Exit(0) // leftovers of this task must not disturb another one
		}
	}
}

// maxHeap is far beyond what the workloads and a server that serves them need.
const maxHeap = 3 << 30

// guardMemory ends a process that eats all memory before the system does.
func guardMemory() {
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		<-time.After(50 * time.Millisecond) // parked, not sleeping, for the sake of quiet
		if metrics.Read(s); s[0].Value.Uint64() < maxHeap {
			continue
		}
		runtime.GC()
		if metrics.Read(s); s[0].Value.Uint64() < maxHeap {
			continue
		}
		fmt.Fprintf(os.Stderr, "fatal error: out of memory: %d bytes in use\n\n", s[0].Value.Uint64())
		for _, g := range Product() {
			fmt.Fprintf(os.Stderr, "%s\n", g.Text)
		}
		os.Exit(2)
	}
}

func send(out *os.File, res Result) bool {
	b, err := json.Marshal(res)
	if err != nil {
		fmt.Fprintln(os.Stderr, "child:", err)
		os.Exit(3)
	}
	_, err = out.Write(append(b, '\n'))
	return err == nil
}

const (
	watchAfter = 20 * time.Second
	hangQuiet  = 35                // identical quiet samples, one a second
	hangBusy   = 100 * time.Second // a task that still computes in one and the same call
)

// watch ends a task that hangs in a call of the product's code: every goroutine is parked for a long time (the
// call never returns), or the call computes without an end.
func (t *T) watch(over chan struct{}, out *os.File) {
	select {
	case <-over:
		return
	case <-time.After(watchAfter):
	}
	begin, cpu := time.Now(), cpuTime()
	var last uint64
	same := 0
	stuck := map[string]bool{} // goroutines that computed in the same product call in every sample
	for n := 0; ; n++ {
		select {
		case <-over:
			return
		case <-time.After(time.Second):
		}
		gs := Snapshot()
		ok, sig := quiet(gs)
		switch {
		case !ok:
			same = 0
		case sig != last:
			last, same = sig, 1
		default:
			same++
		}
		now := map[string]bool{}
		what, busy := "", ""
		for _, g := range gs {
			c := callOf(g.Text)
			if c == "" {
				continue
			}
			what = c
			if !parked[g.State] && (n == 0 || stuck[g.ID+c]) {
				now[g.ID+c] = true
				busy = c
			}
		}
		stuck = now
		if busy == "" {
			begin, cpu, n = time.Now(), cpuTime(), -1
		} else {
			what = busy
		}
		hang := same >= hangQuiet && what != ""
		spin := busy != "" && time.Since(begin) > hangBusy && cpuTime()-cpu > hangBusy*6/10
		if !hang && !spin {
			continue
		}
		select {
		case <-over:
			return
		default:
		}
		t.mu.Lock()
		res := t.res
		if len(res.Violations) == 0 {
			if hang {
				res.Violations = append(res.Violations, Violation{Key: "call-hangs", Message: "a call never returns (every goroutine is parked): " + what, Witness: Dump(gs)})
			} else {
				res.Inconclusive, res.Spinning = "a call does not return but computes: "+what+"\n"+Dump(gs), "call-spins"
			}
		}
		send(out, res)
		os.Exit(0)
	}
}

// callOf names the product function a harness goroutine has called, if it is in one.
func callOf(stack string) string {
	call := ""
	for _, l := range strings.Split(stack, "\n") {
		switch {
		case strings.HasPrefix(l, "verif.local/harness/sched"):
		case strings.HasPrefix(l, "github.com/hired/gevulot"):
			call = l
			if i := strings.LastIndexByte(call, '('); i > 0 {
				call = call[:i]
			}
		case strings.HasPrefix(l, "verif.local/harness"), strings.HasPrefix(l, "created by verif.local/harness"):
			return call
		}
	}
	return ""
}
