package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif.local/harness/mon"
	"verif.local/harness/sched"
	"verif.local/harness/wire"
)

// lockedBuffer collects the output of a process.
type lockedBuffer struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (b *lockedBuffer) Write(p []byte) (int, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	if b.b.Len() < 1<<20 {
		b.b.Write(p)
	}
	return len(p), nil
}

func (b *lockedBuffer) String() string { b.mu.Lock(); defer b.mu.Unlock(); return b.b.String() }

// Prog is a running gevulot program.
type Prog struct {
	t        *mon.T
	cmd      *exec.Cmd
	out, err lockedBuffer
	exited   chan struct{}
	code     int
	what     string
}

// misleading are environment variables that mean nothing to the program: its settings come from its file and arguments.
var misleading = []string{"LISTEN=127.0.0.1:1", "PORT=1", "HOST=127.0.0.1", "DATABASE_URL=postgres://env@127.0.0.1:1/env", "PGHOST=127.0.0.1", "PGPORT=1", "PGDATABASE=env", "PGUSER=env",
	"GEVULOT_LISTEN=127.0.0.1:1", "GEVULOT_DATABASE_URL=postgres://env@127.0.0.1:1/env", "CONFIG=/nonexistent/env.toml", "GEVULOT_CONFIG=/nonexistent/env.toml", "VERBOSE=1", "DEBUG=1", "word=env"}

// startProg runs the program in dir. With a plan it is the instrumented build.
func startProg(t *mon.T, program, dir string, plan *sched.Plan, args ...string) *Prog {
	p := &Prog{t: t, exited: make(chan struct{}), what: fmt.Sprintf("gevulot %q", args)}
	p.cmd = exec.Command(program, args...)
	p.cmd.Args[0] = program
	env := append(os.Environ(), misleading...)
	p.cmd.Env = env
	if plan != nil {
		exe, err := os.Executable()
		if err != nil {
			t.Inconclusive("%v", err)
		}
		b, _ := json.Marshal(plan)
		p.cmd = exec.Command(exe, args...)
		p.cmd.Env = append(env, "VERIF_PLAN="+string(b))
	}
	p.cmd.Dir = dir
	p.cmd.Stdout, p.cmd.Stderr = &p.out, &p.err
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := p.cmd.Start(); err != nil {
		t.Inconclusive("start: %v", err)
	}
	go func() {
		_ = p.cmd.Wait()
		p.code = p.cmd.ProcessState.ExitCode()
		close(p.exited)
	}()
	t.Defer(p.Kill)
	return p
}

// Exited tells whether the program ended.
func (p *Prog) Exited() bool {
	select {
	case <-p.exited:
		return true
	default:
		return false
	}
}

// Kill ends it.
func (p *Prog) Kill() {
	_ = p.cmd.Process.Kill()
	<-p.exited
}

// Listening lists the addresses this process listens on.
func (p *Prog) Listening() []string {
	mine := map[string]bool{}
	dir := fmt.Sprintf("/proc/%d/fd", p.cmd.Process.Pid)
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		if l, err := os.Readlink(filepath.Join(dir, e.Name())); err == nil && strings.HasPrefix(l, "socket:[") {
			mine[strings.TrimSuffix(l[8:], "]")] = true
		}
	}
	var out []string
	if len(mine) == 0 {
		return nil
	}
	for a, inode := range listening() {
		if mine[inode] {
			out = append(out, a)
		}
	}
	sort.Strings(out)
	return out
}

// ran is a signature of how much the threads of the process have run.
func (p *Prog) ran() (string, bool) {
	dir := fmt.Sprintf("/proc/%d/task", p.cmd.Process.Pid)
	es, _ := os.ReadDir(dir)
	sig := ""
	for _, e := range es {
		b, err := os.ReadFile(filepath.Join(dir, e.Name(), "schedstat"))
		if err != nil {
			return "", false
		}
		st, err := os.ReadFile(filepath.Join(dir, e.Name(), "stat"))
		if err != nil {
			return "", false
		}
		i := bytes.LastIndexByte(st, ')')
		if i < 0 || i+2 >= len(st) || st[i+2] != 'S' {
			return "", false
		}
		sig += string(b)
	}
	return sig, sig != ""
}

// Wait waits until cond. If no thread of the program has run for several seconds, or for a very long time, it is a
// violation that cond does not hold. It returns early when the program exits.
func (p *Prog) Wait(key, what string, cond func() bool) {
	begin := time.Now()
	quietSince := begin
	last, prev := "", begin
	for i := 0; !cond(); i++ {
		if p.Exited() {
			if cond() {
				return
			}
			p.t.Fail(key, "the program ended (exit code %d, %s) before: %s\n%s", p.code, p.what, what, tailOf(p.err.String()+p.out.String()))
		}
		now := time.Now()
		sig, ok := p.ran()
		if !ok || sig != last || now.Sub(prev) > 500*time.Millisecond {
			quietSince, last = now, sig
		}
		prev = now
		if now.Sub(quietSince) > 5*time.Second {
			p.t.Fail(key, "never happens (no thread of the program has run for 5 s, %s): %s; it listens on %v\n%s", p.what, what, p.Listening(), tailOf(p.err.String()+p.out.String()))
		}
		if now.Sub(begin) > 90*time.Second {
			p.t.Fail(key, "does not happen within 90 s (%s): %s; it listens on %v\n%s", p.what, what, p.Listening(), tailOf(p.err.String()+p.out.String()))
		}
		time.Sleep(time.Duration(min(300+i*20, 5000)) * time.Microsecond)
	}
}

func tailOf(s string) string {
	if len(s) > 1500 {
		return "..." + s[len(s)-1500:]
	}
	return s
}

// ListensOn waits until the program listens exactly on addr.
func (p *Prog) ListensOn(key, addr, when string) {
	p.Wait(key, "the program listens exactly on "+addr+" "+when, func() bool {
		l := p.Listening()
		return len(l) == 1 && l[0] == addr
	})
}

// Reaches checks that a new client which asks for database name reaches db. When try is set, other outcomes are
// tolerated until nothing moves any more.
func (p *Prog) Reaches(key, addr string, db *FakeDB, name, when string) (*End, *End) {
	t := p.t
	st := wire.Startup(wire.V3, []wire.Param{{Name: "user", Value: "u"}, {Name: "database", Value: name}, {Name: "tag", Value: fmt.Sprint(t.Rand.Uint64())}})
	var c, d *End
	next := time.Now()
	begin, refused := time.Now(), 0
	p.Wait(key, fmt.Sprintf("a client that asks for database %q at %s reaches the database server on port %d %s", name, addr, db.Port(), when), func() bool {
		if c == nil || c.Over() {
			if c != nil {
				c.Close()
				c = nil
				if refused++; refused >= 30 && time.Since(begin) > 15*time.Second {
					t.Fail(key, "the last %d clients that asked for database %q at %s were disconnected %s; the program logs\n%s", refused, name, addr, when, tailOf(p.err.String()+p.out.String()))
				}
			}
			if time.Now().Before(next) {
				return false
			}
			next = time.Now().Add(200 * time.Millisecond)
			conn, err := net.DialTimeout("tcp", addr, 5*time.Second)
			if err != nil {
				return false
			}
			c = newEnd(conn, "client", false)
			c.Send(st, pieces(t.Rand, 0))
		}
		for _, e := range db.Conns() {
			if bytes.Equal(e.Got(), st) {
				d = e
				return true
			}
		}
		return false
	})
	t.Defer(c.Close)
	return c, d
}

// scratch makes a directory that is removed afterwards.
func scratch(t *mon.T) string {
	dir, err := os.MkdirTemp(t.Env.Work, "s.")
	if err != nil {
		t.Inconclusive("%v", err)
	}
	t.Defer(func() { _ = os.RemoveAll(dir) })
	return dir
}

// ---- TOML ----

// tomlString spells s in one of TOML's ways.
func tomlString(r *rand.Rand, s string) string {
	basic := func(multi bool) string {
		var b strings.Builder
		for _, c := range s {
			switch {
			case c == '"' || c == '\\':
				b.WriteByte('\\')
				b.WriteRune(c)
			case c == '\t':
				b.WriteString(`\t`)
			case c < 0x20:
				fmt.Fprintf(&b, `\u%04x`, c)
			case r.IntN(8) == 0 && c < 0x10000:
				fmt.Fprintf(&b, `\u%04X`, c)
			case r.IntN(12) == 0:
				fmt.Fprintf(&b, `\U%08X`, c)
			default:
				b.WriteRune(c)
			}
			if multi && r.IntN(12) == 0 {
				b.WriteString("\\\n   ")
			}
		}
		return b.String()
	}
	literal := !strings.ContainsAny(s, "'\n\r")
	switch k := r.IntN(6); {
	case k < 2 && literal:
		return "'" + s + "'"
	case k == 2 && literal:
		return "'''" + s + "'''"
	case k == 3 && literal:
		return "'''\n" + s + "'''"
	case k == 4 && !strings.HasPrefix(s, " ") && !strings.Contains(s, " "):
		return `"""` + basic(true) + `"""`
	default:
		return `"` + basic(false) + `"`
	}
}

// tomlFile writes settings as a TOML file with other things around.
func tomlFile(r *rand.Rand, listen, url string) string {
	nl := "\n"
	if r.IntN(5) == 0 {
		nl = "\r\n"
	}
	sp := func() string { return []string{" ", "", "  ", "\t"}[r.IntN(4)] }
	key := func(k string) string {
		if r.IntN(4) == 0 {
			return `"` + k + `"`
		}
		return k
	}
	line := func(k, v string) string {
		l := sp() + key(k) + sp() + "=" + sp() + tomlString(r, v)
		if r.IntN(4) == 0 {
			l += sp() + "# comment = \"x\""
		}
		return strings.ReplaceAll(l, "\n", nl) + nl
	}
	noise := func() string {
		switch r.IntN(6) {
		case 0:
			return "# listen = \"0.0.0.0:1\"" + nl
		case 1:
			return nl
		case 2:
			return fmt.Sprintf("other%d = %s%s", r.IntN(1<<30), []string{"1", "true", "[1, 2]", `"x"`, "1.5", "1979-05-27T07:32:00Z"}[r.IntN(6)], nl)
		}
		return ""
	}
	a, b := line("listen", listen), line("database-url", url)
	if r.IntN(2) == 0 {
		a, b = b, a
	}
	s := noise() + a + noise() + b + noise()
	if r.IntN(24) == 0 {
		s = noise() + padding(r, nl) + a + noise() + b
		switch r.IntN(3) {
		case 0:
			s = a + padding(r, nl) + b
		case 1:
			s = a + b + padding(r, nl)
		}
	}
	if r.IntN(4) == 0 {
		s += "[section]" + nl + `listen = "127.0.0.1:1"` + nl + `database-url = "postgres://wrong:1/wrong"` + nl
	}
	if r.IntN(5) == 0 {
		s = strings.TrimSuffix(s, nl)
	}
	return s
}

// padding is a lot of text without a meaning in a TOML file.
func padding(r *rand.Rand, nl string) string {
	n := around(r, 1000, 1<<20)
	switch r.IntN(4) {
	case 0:
		return "#" + strings.Repeat("x", n) + nl
	case 1:
		return strings.Repeat(nl, min(n, 1<<17))
	case 2:
		n = min(n, 1<<18)
		var b strings.Builder
		for i := 0; b.Len() < n; i++ {
			fmt.Fprintf(&b, "padding%d = %d%s", i, i, nl)
		}
		return b.String()
	}
	line := "# listen = \"127.0.0.1:1\" " + strings.Repeat("y", r.IntN(100)) + nl
	return strings.Repeat(line, n/len(line)+1)
}

// Freeze stops the program (as a debugger or an overloaded machine would) until Thaw.
func (p *Prog) Freeze() bool {
	_ = p.cmd.Process.Signal(syscall.SIGSTOP)
	for i := 0; i < 2000; i++ {
		stopped := true
		tasks, _ := filepath.Glob(fmt.Sprintf("/proc/%d/task/*/stat", p.cmd.Process.Pid))
		for _, f := range tasks {
			b, err := os.ReadFile(f)
			if err != nil {
				continue
			}
			s := string(b[bytes.LastIndexByte(b, ')')+1:])
			if !strings.HasPrefix(strings.TrimSpace(s), "T") {
				stopped = false
			}
		}
		if stopped && len(tasks) > 0 {
			return true
		}
		time.Sleep(time.Millisecond)
	}
	return false
}

// Thaw lets the program go on.
func (p *Prog) Thaw() { _ = p.cmd.Process.Signal(syscall.SIGCONT) }
