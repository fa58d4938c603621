// Package mon runs scenarios in child processes and turns what their monitors observe into verdicts and evidence.
package mon

import (
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"sync"

	"verif.local/harness/sched"
)

// Task is one unit of work for a child process. It is a complete, replayable description.
type Task struct {
	Property string
	Scenario string
	Seed     uint64
	P        map[string]int    `json:",omitempty"`
	S        map[string]string `json:",omitempty"`
	Plan     sched.Plan
}

// Violation is one refutation of the property.
type Violation struct {
	Key     string // identifies what failed, stable over runs
	Message string
	Witness string
}

// Result is what a task observed.
type Result struct {
	Task         Task
	Evals        int
	Hashes       []uint64 // distinct non-trivial cases
	Events       map[string]int64
	Violations   []Violation
	Inconclusive string
	Spinning     string // key of what was waited for while the process computed all the time
	Samples      []string
	Sites        map[int]int
	Order        uint64
	Visits       int64
	Naps         int64
	Notes        map[string]string // free-form output for the planner
}

// T is the context of a running task.
type T struct {
	Task
	Rand *rand.Rand
	Env  Env

	mu      sync.Mutex
	res     Result
	seen    map[uint64]bool
	spun    bool
	cleanup []func()
}

// Env is what the parent prepared for the children.
type Env struct {
	Tier    string
	Program string // path of the built gevulot program, "" if the check does not need it
	Work    string // scratch directory
	Sites   map[int]string
}

func newT(task Task, env Env) *T {
	return &T{Task: task, Env: env, Rand: NewRand(task.Seed), seen: map[uint64]bool{},
		res: Result{Task: task, Events: map[string]int64{}, Notes: map[string]string{}}}
}

// NewRand returns the generator for a seed.
func NewRand(seed uint64) *rand.Rand { return rand.New(rand.NewPCG(seed, seed^0x5bf03635)) }

// Hash hashes anything printable.
func Hash(parts ...any) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		switch v := p.(type) {
		case []byte:
			_ = binary.Write(h, binary.BigEndian, int64(len(v)))
			_, _ = h.Write(v)
		case string:
			_ = binary.Write(h, binary.BigEndian, int64(len(v)))
			_, _ = h.Write([]byte(v))
		default:
			_, _ = fmt.Fprintf(h, "%v|", v)
		}
	}
	return h.Sum64()
}

// Case counts an evaluation; nontrivial ones are counted as distinct by their hash.
func (t *T) Case(nontrivial bool, parts ...any) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.res.Evals++
	if nontrivial {
		h := Hash(parts...)
		if !t.seen[h] {
			t.seen[h] = true
			t.res.Hashes = append(t.res.Hashes, h)
		}
	}
}

// Count counts observed events.
func (t *T) Count(name string, n int) {
	t.mu.Lock()
	t.res.Events[name] += int64(n)
	t.mu.Unlock()
}

// Sample keeps a written-out case (a few per task).
func (t *T) Sample(format string, args ...any) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.res.Samples) < 2 {
		s := fmt.Sprintf(format, args...)
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		t.res.Samples = append(t.res.Samples, s)
	}
}

// Note passes a value to the planner.
func (t *T) Note(k, v string) {
	t.mu.Lock()
	t.res.Notes[k] = v
	t.mu.Unlock()
}

type stop struct{}

// Report records a violation and goes on.
func (t *T) Report(key, format string, args ...any) {
	t.report(key, fmt.Sprintf(format, args...), "")
}

func (t *T) report(key, msg, witness string) {
	if len(msg) > 4000 {
		msg = msg[:4000] + "..."
	}
	if len(witness) > 60000 {
		witness = witness[:60000] + "..."
	}
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.res.Violations) < 5 {
		t.res.Violations = append(t.res.Violations, Violation{Key: key, Message: msg, Witness: witness})
	}
}

// Fail records a violation and ends the task. It may only be called by the task's main goroutine.
func (t *T) Fail(key, format string, args ...any) {
	t.Report(key, format, args...)
	panic(stop{})
}

// Inconclusive ends the task without a verdict.
func (t *T) Inconclusive(format string, args ...any) {
	t.mu.Lock()
	t.res.Inconclusive = fmt.Sprintf(format, args...)
	t.mu.Unlock()
	panic(stop{})
}

// Failed tells whether the task has already recorded a violation.
func (t *T) Failed() bool {
	t.mu.Lock()
	defer t.mu.Unlock()
	return len(t.res.Violations) > 0
}

// Defer runs f when the task ends.
func (t *T) Defer(f func()) { t.cleanup = append(t.cleanup, f) }

// Int returns a parameter.
func (t *T) Int(name string) int { return t.P[name] }

func (t *T) run(f func(*T)) Result {
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stop); !ok {
					panic(r)
				}
			}
		}()
		sched.Start(t.Plan)
		f(t)
	}()
	t.res.Sites, t.res.Order, t.res.Visits, t.res.Naps = sched.Stats()
	sched.Stop()
	for i := len(t.cleanup) - 1; i >= 0; i-- {
		t.cleanup[i]()
	}
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.res
}
