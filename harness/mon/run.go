package mon

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Run is one check run in the parent.
type Run struct {
	Prop  *Property
	Env   Env
	Seed  uint64
	Tier  string
	Rand  *rand.Rand
	Verif string

	begin        time.Time
	evals        int
	hashes       map[uint64]bool
	events       map[string]int64
	orders       map[uint64]bool
	sites        map[int]int
	visits, naps int64
	samples      []string
	violations   []Found
	inconclusive []string
	broken       []string
	tasks        int
	crashes      int
	races        map[string]string
	maxViol      int
	firstViol    time.Time
	skipped      int
}

const (
	deadline  = 560 * time.Second // of a quick run, a check has 900 s
	afterViol = 60 * time.Second  // how long the search goes on once something was found
)

// late tells that no further task is to be started, with the lock held.
func (r *Run) late() bool {
	if len(r.violations) > 0 {
		if r.firstViol.IsZero() {
			r.firstViol = time.Now()
		}
		if time.Since(r.firstViol) > afterViol {
			return true
		}
	}
	return !r.Thorough() && time.Since(r.begin) > deadline
}

// Found is a violation with its task.
type Found struct {
	Violation
	Task Task
}

// Thorough tells whether this is the thorough tier.
func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// Pick returns q in the quick tier and th in the thorough one.
func (r *Run) Pick(q, th int) int {
	if r.Thorough() {
		return th
	}
	return q
}

// Task makes a task with a fresh seed.
func (r *Run) Task(scenario string, p map[string]int) Task {
	return Task{Property: r.Prop.ID, Scenario: scenario, Seed: r.Rand.Uint64(), P: p}
}

type worker struct {
	cmd    *exec.Cmd
	in     *os.File
	out    *bufio.Reader
	outF   *os.File
	stderr *bytes.Buffer
	log    string
}

func (r *Run) spawn(n int) (*worker, error) {
	inR, inW, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	outR, outW, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	exe, err := os.Executable()
	if err != nil {
		return nil, err
	}
	envJSON, _ := json.Marshal(r.Env)
	w := &worker{cmd: exec.Command(exe, "child", r.Prop.ID), stderr: &bytes.Buffer{}}
	w.cmd.Stdin = inR
	w.cmd.Stdout = w.stderr
	w.cmd.Stderr = w.stderr
	w.cmd.ExtraFiles = []*os.File{outW}
	w.cmd.Env = append(os.Environ(), "VERIF_CHILD_ENV="+string(envJSON), fmt.Sprintf("VERIF_SLOT=%d", n), fmt.Sprintf("VERIF_NET=%d", os.Getpid()))
	w.cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if r.Prop.Race {
		w.log = filepath.Join(r.Env.Work, fmt.Sprintf("race.%d.%d", n, time.Now().UnixNano()))
		w.cmd.Env = append(w.cmd.Env, "GORACE=halt_on_error=0 log_path="+w.log, "VERIF_NOISE=600")
	}
	if err := w.cmd.Start(); err != nil {
		return nil, err
	}
	inR.Close()
	outW.Close()
	w.in, w.outF, w.out = inW, outR, bufio.NewReaderSize(outR, 1<<20)
	return w, nil
}

func (w *worker) stop() {
	w.in.Close()
	done := make(chan struct{})
	go func() { _ = w.cmd.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		_ = syscall.Kill(-w.cmd.Process.Pid, syscall.SIGKILL)
		<-done
	}
	_ = syscall.Kill(-w.cmd.Process.Pid, syscall.SIGKILL)
	w.outF.Close()
}

var taskTimeout = 180 * time.Second

func init() {
	if n, err := strconv.Atoi(os.Getenv("VERIF_TASK_TIMEOUT")); err == nil {
		taskTimeout = time.Duration(n) * time.Second
	}
}

// do runs one task; crashed tells that the worker is gone.
func (w *worker) do(task Task) (res *Result, crash string, err error) {
	b, err := json.Marshal(task)
	if err != nil {
		return nil, "", err
	}
	if _, err := w.in.Write(append(b, '\n')); err != nil {
		return nil, "", err
	}
	timer := time.AfterFunc(taskTimeout, func() { _ = w.cmd.Process.Signal(syscall.SIGQUIT) })
	line, err := w.out.ReadBytes('\n')
	fired := !timer.Stop()
	if err != nil {
		_ = w.cmd.Wait()
		s := w.stderr.String()
		if fired {
			return &Result{Task: task, Inconclusive: "task watchdog\n" + tail(s, 20000)}, "", nil
		}
		return nil, "exit: " + w.cmd.ProcessState.String() + "\n" + s, nil
	}
	res = &Result{}
	if err := json.Unmarshal(line, res); err != nil {
		return nil, "", err
	}
	return res, "", nil
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// Do runs tasks on all workers and returns their results in order (nil for crashed ones).
func (r *Run) Do(tasks []Task) []*Result {
	n := r.Prop.Workers
	if n == 0 {
		n = runtime.NumCPU()
	}
	if n > len(tasks) {
		n = len(tasks)
	}
	results := make([]*Result, len(tasks))
	next := make(chan int, len(tasks))
	for i := range tasks {
		next <- i
	}
	close(next)
	var mu sync.Mutex
	var wg sync.WaitGroup
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			var w *worker
			retire := func() {
				if w != nil {
					w.stop()
					if w.log != "" {
						mu.Lock()
						r.scanRaces(w.log)
						mu.Unlock()
					}
					w = nil
				}
			}
			defer retire()
			for i := range next {
				mu.Lock()
				full := len(r.violations) >= r.maxViol || len(r.broken) > 3 || len(r.inconclusive) > 5+len(tasks)/100 || r.late()
				if full {
					r.skipped++
				}
				mu.Unlock()
				if full {
					continue
				}
				var res *Result
				suspects, spins := 0, 0
				for attempt := 0; attempt < 3; attempt++ {
					if w == nil {
						var err error
						if w, err = r.spawn(k); err != nil {
							mu.Lock()
							r.broken = append(r.broken, err.Error())
							mu.Unlock()
							return
						}
					}
					rr, crash, err := w.do(tasks[i])
					if err != nil {
						rr, crash = nil, "protocol: "+err.Error()+"\n"+w.stderr.String()
					}
					if crash != "" {
						retire()
						if r.Prop.Race {
							// Only races count here; the other monitors have their own checks.
							mu.Lock()
							if v, blame := crashVerdict(crash); blame && strings.Contains(v.Message, "concurrent map") {
								r.violations = append(r.violations, Found{v, tasks[i]})
							} else {
								r.events["ended_early"]++
							}
							mu.Unlock()
							break
						}
						v, blame := crashVerdict(crash)
						if strings.Contains(v.Message, "goroutines are still running") {
							// The server's own wall-clock watchdog: a loaded machine may trigger it, so it must repeat.
							if suspects++; suspects < 2 && attempt < 2 {
								continue
							}
							blame = blame && suspects >= 2
						}
						if !blame && strings.Contains(crash, "signal: killed") && attempt < 2 {
							time.Sleep(3 * time.Second) // memory ran out, perhaps because of other processes
							continue
						}
						mu.Lock()
						r.crashes++
						if blame {
							r.violations = append(r.violations, Found{v, tasks[i]})
						} else {
							r.broken = append(r.broken, "child crashed: "+tail(crash, 6000))
						}
						mu.Unlock()
						break
					}
					if r.Prop.Race && (rr.Inconclusive != "" || len(rr.Violations) > 0) {
						retire()
						mu.Lock()
						r.events["other_findings"]++
						mu.Unlock()
						rr.Inconclusive, rr.Violations = "", nil
					}
					if rr.Inconclusive != "" {
						retire()
						if rr.Spinning != "" {
							spins++
						}
						mu.Lock()
						late := r.late()
						mu.Unlock()
						if late {
							rr = nil // no time for another attempt, nothing is known about this task
							mu.Lock()
							r.skipped++
							mu.Unlock()
							break
						}
						if attempt < 2 {
							continue
						}
						if spins == 3 {
							rr.Violations = []Violation{{Key: rr.Spinning, Message: "in three runs not within a minute although the process computes all the time: " + rr.Inconclusive, Witness: rr.Notes["dump"]}}
						}
					}
					res = rr
					if len(rr.Violations) > 0 {
						retire()
					}
					break
				}
				if res != nil {
					mu.Lock()
					r.absorb(res)
					mu.Unlock()
					results[i] = res
				}
			}
		}(k)
	}
	wg.Wait()
	return results
}

var frame = regexp.MustCompile(`(?m)^(github\.com/hired/gevulot[^\s(]*|verif\.local/harness[^\s(]*)`)

// crashVerdict decides whether the product or the harness crashed the child.
func crashVerdict(s string) (Violation, bool) {
	var at int = -1
	for _, mark := range []string{"panic: ", "fatal error: ", "runtime: goroutine stack exceeds", "SIGSEGV"} {
		if i := strings.Index(s, mark); i >= 0 && (at < 0 || i < at) {
			at = i
		}
	}
	if at < 0 {
		return Violation{}, false
	}
	head := s[at:]
	line := head
	if i := strings.IndexByte(line, '\n'); i >= 0 {
		line = line[:i]
	}
	// The first goroutine block belongs to the one that crashed.
	block := head
	if i := strings.Index(block, "goroutine "); i >= 0 {
		block = block[i:]
	}
	if i := strings.Index(block, "\n\n"); i >= 0 {
		block = block[:i]
	}
	who := ""
	for _, f := range frame.FindAllString(block, -1) {
		if strings.HasPrefix(f, "verif.local/harness/sched") {
			continue
		}
		who = f
		break
	}
	if !strings.HasPrefix(who, "github.com/hired/gevulot") {
		if !(strings.Contains(head, "out of memory") && strings.Contains(block, "hired/gevulot")) {
			return Violation{}, false
		}
	}
	w := head
	if len(w) > 20000 {
		w = w[:20000]
	}
	return Violation{Key: "crash", Message: "the process crashed: " + line + " in " + who, Witness: w}, true
}

func (r *Run) absorb(res *Result) {
	r.tasks++
	r.evals += res.Evals
	for _, h := range res.Hashes {
		r.hashes[h] = true
	}
	for k, v := range res.Events {
		r.events[k] += v
	}
	if res.Visits > 0 {
		r.orders[res.Order] = true
	}
	for s, n := range res.Sites {
		r.sites[s] += n
	}
	r.visits += res.Visits
	r.naps += res.Naps
	if len(r.samples) < 6 || (len(r.samples) < 12 && r.tasks%37 == 0) {
		for _, s := range res.Samples {
			if len(r.samples) < 12 {
				r.samples = append(r.samples, res.Task.Scenario+": "+s)
			}
		}
	}
	for _, v := range res.Violations {
		r.violations = append(r.violations, Found{v, res.Task})
	}
	if res.Inconclusive != "" && len(res.Violations) == 0 {
		r.inconclusive = append(r.inconclusive, fmt.Sprintf("%s %v: %s", res.Task.Scenario, res.Task.P, res.Inconclusive))
	}
}

// scanRaces collects race reports, deduplicated by the product's functions involved.
func (r *Run) scanRaces(prefix string) {
	files, _ := filepath.Glob(prefix + "*")
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, rep := range strings.Split(string(b), "==================") {
			if !strings.Contains(rep, "WARNING: DATA RACE") {
				continue
			}
			r.events["race_reports"]++
			k := raceKey(rep)
			if k == "" {
				r.events["harness_races"]++
				if os.Getenv("VERIF_DEBUG") != "" {
					fmt.Println("race in the harness itself:\n" + rep)
				}
				continue
			}
			r.races[k] = rep
		}
		_ = os.Remove(f)
	}
}

var raceAccess = regexp.MustCompile(`(?m)^(?:Read|Write|Previous read|Previous write|Atomic read|Atomic write|Previous atomic read|Previous atomic write)[^\n]* by [^\n]*:\n((?:  .*\n)*)`)

// raceKey names the two product functions that access the memory, or "" if no product code is involved.
func raceKey(rep string) string {
	var fns []string
	product := false
	for _, m := range raceAccess.FindAllStringSubmatch(rep, -1) {
		fn := ""
		for _, l := range strings.Split(m[1], "\n") {
			l = strings.TrimSpace(l)
			if strings.HasPrefix(l, "verif.local/harness/sched") {
				continue
			}
			if strings.HasPrefix(l, "github.com/hired/gevulot") {
				fn = l
				product = true
				break
			}
			if strings.HasPrefix(l, "verif.local/harness") {
				fn = l
				break
			}
		}
		if i := strings.LastIndexByte(fn, '('); i > 0 {
			fn = fn[:i]
		}
		fns = append(fns, fn)
	}
	if !product {
		return ""
	}
	sort.Strings(fns)
	return strings.Join(fns, " / ")
}

// Known findings are lines "known: property=<id> key=<key> <text>".
func knownFindings(verif, id string) map[string]string {
	m := map[string]string{}
	b, _ := os.ReadFile(filepath.Join(verif, "KNOWN_FINDINGS.txt"))
	re := regexp.MustCompile(`^known: property=(\S+) key=(\S+) (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if g := re.FindStringSubmatch(l); g != nil && g[1] == id {
			m[g[2]] = g[3]
		}
	}
	return m
}

// CheckMain runs a check and returns the exit code.
func CheckMain(id, verif, work, program string) int {
	p := Registry[id]
	if p == nil {
		fmt.Println("no such property", id)
		return 2
	}
	seed, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	r := &Run{Prop: p, Seed: seed, Tier: tier, Rand: NewRand(seed*1000003 + Hash(id)), Verif: verif, begin: time.Now(),
		Env:    Env{Tier: tier, Program: program, Work: work, Sites: loadSites()},
		hashes: map[uint64]bool{}, events: map[string]int64{}, orders: map[uint64]bool{}, sites: map[int]int{},
		races: map[string]string{}, maxViol: 4}
	if f := os.Getenv("VERIF_REPLAY"); f != "" {
		return r.replay(f)
	}
	p.Plan(r)
	return r.finish()
}

func loadSites() map[int]string {
	m := map[int]string{}
	b, err := os.ReadFile(os.Getenv("VERIF_SITES"))
	if err == nil {
		var s map[string]string
		if json.Unmarshal(b, &s) == nil {
			for k, v := range s {
				if n, err := strconv.Atoi(k); err == nil {
					m[n] = v
				}
			}
		}
	}
	return m
}

func (r *Run) replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var f Found
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Println(err)
		return 2
	}
	for i := 0; i < 10 && len(r.violations) == 0; i++ {
		r.Do([]Task{f.Task})
	}
	for _, v := range r.violations {
		fmt.Printf("REPRODUCED %s: %s\n%s\n", v.Key, v.Message, v.Witness)
		return 1
	}
	fmt.Println("not reproduced in 10 runs")
	return 0
}

func (r *Run) finish() int {
	for k, rep := range r.races {
		r.violations = append(r.violations, Found{Violation{Key: "race:" + k, Message: "data race between " + k, Witness: rep}, Task{Property: r.Prop.ID}})
	}
	known := knownFindings(r.Verif, r.Prop.ID)
	var fresh []Found
	printed := map[string]bool{}
	for _, v := range r.violations {
		key := strings.ReplaceAll(v.Key, " ", "")
		if text, ok := known[key]; ok {
			if !printed[key] {
				printed[key] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.Prop.ID, text)
			}
			continue
		}
		fresh = append(fresh, v)
	}
	code := 0
	evidence := filepath.Join(r.Verif, "evidence")
	_ = os.MkdirAll(evidence, 0o755)
	old, _ := filepath.Glob(filepath.Join(evidence, r.Prop.ID+".violation-*"))
	for _, f := range old {
		_ = os.Remove(f)
	}
	if len(fresh) > 0 {
		code = 1
		for i, v := range fresh {
			if i == 5 {
				break
			}
			path := filepath.Join(evidence, fmt.Sprintf("%s.violation-%d.json", r.Prop.ID, i+1))
			b, _ := json.MarshalIndent(v, "", " ")
			_ = os.WriteFile(path, b, 0o644)
			fmt.Printf("%s [%s] %s\n", v.Task.Scenario, v.Key, v.Message)
			fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop.ID, path)
		}
	}
	distinct := len(r.hashes)
	var siteNames []string
	for s := range r.sites {
		siteNames = append(siteNames, r.Env.Sites[s])
	}
	sort.Strings(siteNames)
	cov := map[string]any{
		"evaluations": r.evals, "distinct_nontrivial": distinct, "rule": r.Prop.Rule, "samples": r.samples,
		"tasks": r.tasks, "tasks_skipped": r.skipped, "observed_events": r.events, "inconclusive_tasks": len(r.inconclusive),
	}
	if r.visits > 0 {
		cov["distinct_interleavings"] = len(r.orders)
		cov["yield_points_reached"] = len(r.sites)
		cov["yield_points_total"] = len(r.Env.Sites)
		cov["yield_point_visits"] = r.visits
		cov["delays_injected"] = r.naps
	}
	ev := map[string]any{
		"property": r.Prop.ID, "tier": r.Tier, "seed": r.Seed, "level": "exploration", "coverage": cov,
		"assumptions": r.Prop.Assumptions, "wall_s": time.Since(r.begin).Seconds(), "violations": len(fresh),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evidence, r.Prop.ID+".json"), b, 0o644); err != nil {
		fmt.Println(err)
		return 2
	}
	fmt.Printf("%s %s seed=%d: %d tasks, %d evaluations, %d distinct, %d interleavings, %d/%d yield points, events %v, %.1fs\n", r.Prop.ID, r.Tier, r.Seed,
		r.tasks, r.evals, distinct, len(r.orders), len(r.sites), len(r.Env.Sites), r.events, time.Since(r.begin).Seconds())
	if code == 1 {
		return 1
	}
	if len(r.broken) > 0 {
		fmt.Println("ERROR: the check itself failed:", r.broken[0])
		return 2
	}
	if n := len(r.inconclusive); n > 0 && n <= max(1, r.tasks/200) {
		fmt.Printf("note: %d inconclusive tasks of %d, first: %.300s\n", n, r.tasks, r.inconclusive[0])
	} else if n > 0 {
		fmt.Printf("ERROR: %d inconclusive tasks, first: %s\n", len(r.inconclusive), r.inconclusive[0])
		return 2
	}
	if r.skipped > 0 {
		fmt.Printf("note: %d tasks skipped, the time was up\n", r.skipped)
	} else if distinct < r.Prop.MinDistinct {
		fmt.Printf("ERROR: observed only %d distinct non-trivial cases, expected at least %d\n", distinct, r.Prop.MinDistinct)
		return 2
	}
	return 0
}
