package props

import (
	"encoding/json"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"os"
	"path/filepath"
	"runtime"
	"time"

	"github.com/hired/gevulot/pkg/pgmeta"
	"github.com/hired/gevulot/pkg/server"

	"verif.local/harness/mon"
	"verif.local/harness/sched"
	"verif.local/harness/vtime"
	"verif.local/harness/wire"
)

// ---- C29: time alone changes nothing ----

// ServeClock lets a harness process move the clock of this process.
func ServeClock(path string) error {
	l, err := net.Listen("unix", path)
	if err != nil {
		return err
	}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go func() {
				defer c.Close()
				in, out := json.NewDecoder(c), json.NewEncoder(c)
				for {
					var d time.Duration
					if in.Decode(&d) != nil {
						return
					}
					vtime.Advance(d)
					armed, fired := vtime.Stats()
					if out.Encode([]int64{armed, fired}) != nil {
						return
					}
				}
			}()
		}
	}()
	return nil
}

// stepsOf cuts total into steps that become longer.
func stepsOf(r *rand.Rand, total time.Duration, most time.Duration) []time.Duration {
	var out []time.Duration
	d := []time.Duration{time.Millisecond, 50 * time.Millisecond, 400 * time.Millisecond, time.Second}[r.IntN(4)]
	grow := []int{105, 115, 140, 200}[r.IntN(4)] // percent
	plain := r.IntN(30)
	for past := time.Duration(0); past < total; past += d {
		if len(out) > plain {
			d = min(d*time.Duration(grow)/100+time.Millisecond, most)
		}
		out = append(out, d)
	}
	return out
}

// pass lets time pass. In every step it calls each.
type pass struct {
	t    *mon.T
	move func(time.Duration)
}

func (p pass) long(r *rand.Rand, each func()) time.Duration {
	total := []time.Duration{time.Minute, 10 * time.Minute, 2 * time.Hour, 3 * 24 * time.Hour, 60 * 24 * time.Hour}[r.IntN(5)]
	past := time.Duration(0)
	for _, d := range stepsOf(r, total, max(total/40, time.Second)) {
		p.move(d)
		past += d
		each()
	}
	p.t.Count("seconds_passed", int(past/time.Second))
	return past
}

func virtually(d time.Duration) {
	vtime.Advance(d)
	for i := 0; i < 3; i++ {
		time.Sleep(500 * time.Microsecond)
		runtime.Gosched()
	}
}

// clockOf is how time passes in this task: truly (t.P real seconds), or by moving the clock.
func clockOf(t *mon.T) pass {
	if n := t.Int("real"); n > 0 {
		return pass{t, func(d time.Duration) { time.Sleep(d) }}
	}
	return pass{t, virtually}
}

func (p pass) some(r *rand.Rand, each func()) time.Duration {
	n := p.t.Int("real")
	if n == 0 {
		return p.long(r, each)
	}
	for i := 0; i < n; i++ {
		p.move(time.Second)
		each()
	}
	p.t.Count("seconds_waited", n)
	return time.Duration(n) * time.Second
}

var idleKinds = []string{"silent", "silent after an exchange", "client inside a message", "database inside a message", "client does not read",
	"database does not read", "nobody reads", "only the database talks", "only the client talks", "the client sends single bytes",
	"the database sends single bytes", "both talk", "silent since SSL was refused", "client inside a header", "large messages half way"}

type idler struct {
	*talker
	kind     int
	inC, inD []byte // rest of the message that was begun
	dripping bool
	r        *rand.Rand
}

func (k *idler) message(dir string, big bool) []byte {
	s := k.tag(k.r, dir)
	if big {
		b := make([]byte, 100000+k.r.IntN(400000))
		for i := range b {
			b[i] = byte('a' + (i+k.id)%23)
		}
		s += string(b)
	}
	return wire.Std('d', []byte(s))
}

func (k *idler) fromClient(b []byte) {
	k.cs = append(k.cs, b...)
	k.c.Send(b, pieces(k.r, 0))
}

func (k *idler) fromDB(b []byte) {
	k.ds = append(k.ds, b...)
	k.d.Send(b, pieces(k.r, 0))
}

// begin brings the session into its state.
func (k *idler) begin(t *mon.T) {
	r := k.r
	switch idleKinds[k.kind] {
	case "silent after an exchange":
		k.step(t, r)
		k.check(t)
	case "client inside a message", "client inside a header", "the client sends single bytes":
		m := k.message("client", r.IntN(3) == 0)
		n := 5 + r.IntN(len(m)-5)
		if idleKinds[k.kind] == "client inside a header" {
			n = 1 + r.IntN(4)
		}
		k.inC = m[n:]
		k.fromClient(m[:n])
	case "database inside a message", "the database sends single bytes":
		m := k.message("database", r.IntN(3) == 0)
		n := 1 + r.IntN(len(m)-1)
		k.inD = m[n:]
		k.fromDB(m[:n])
	case "large messages half way":
		a, b := k.message("client", true), k.message("database", true)
		n, m := r.IntN(len(a)), r.IntN(len(b))
		k.inC, k.inD = a[n:], b[m:]
		k.fromClient(a[:n])
		k.fromDB(b[:m])
	case "client does not read", "database does not read", "nobody reads":
		if idleKinds[k.kind] != "database does not read" {
			k.c.Pause()
			k.fromDB(k.many("database"))
		}
		if idleKinds[k.kind] != "client does not read" {
			k.d.Pause()
			k.fromClient(k.many("client"))
		}
	}
}

// many makes more than the buffers of the connections and the proxy hold, or less.
func (k *idler) many(dir string) []byte {
	var b []byte
	for n := 3 + k.r.IntN(120); n > 0; n-- {
		b = append(b, k.message(dir, true)...)
	}
	return b
}

// during is what the session does while time passes.
func (k *idler) during(t *mon.T) {
	r := k.r
	switch idleKinds[k.kind] {
	case "only the database talks":
		if k.d.Idle() {
			k.fromDB(k.message("database", false))
		}
	case "only the client talks":
		if k.c.Idle() {
			k.fromClient(k.message("client", false))
		}
	case "both talk":
		if k.c.Idle() && k.d.Idle() {
			k.step(t, r)
		}
	case "the client sends single bytes":
		if len(k.inC) > 1 && k.c.Idle() {
			k.fromClient(k.inC[:1])
			k.inC = k.inC[1:]
		}
	case "the database sends single bytes":
		if len(k.inD) > 1 && k.d.Idle() {
			k.fromDB(k.inD[:1])
			k.inD = k.inD[1:]
		}
	}
}

// finish completes what was begun and checks that the session works.
func (k *idler) finish(t *mon.T, past time.Duration) {
	what := fmt.Sprintf("session %d (%s) after %v", k.id, idleKinds[k.kind], past)
	if k.c.Over() || k.d.Over() {
		t.Fail("cut", "%s has ended: client %v, database %v", what, k.c.Err(), k.d.Err())
	}
	k.c.Resume()
	k.d.Resume()
	drained(t, k.c)
	drained(t, k.d)
	if len(k.inC) > 0 {
		k.fromClient(k.inC)
	}
	if len(k.inD) > 0 {
		k.fromDB(k.inD)
	}
	k.inC, k.inD = nil, nil
	k.arrived(t, what)
	k.step(t, k.r)
	k.arrived(t, what+", new messages")
	if k.c.Over() || k.d.Over() {
		t.Fail("cut", "%s has ended: client %v, database %v", what, k.c.Err(), k.d.Err())
	}
}

func (k *idler) arrived(t *mon.T, what string) {
	drained(t, k.c)
	drained(t, k.d)
	deliver(t, "idle-to-database", what+" at its database connection", k.d, k.cs)
	deliver(t, "idle-to-client", what+" at its client", k.c, k.ds)
}

// idleConnect makes a session of the given kind.
func idleConnect(t *mon.T, addr string, db *FakeDB, id, kind int) *idler {
	conn, err := net.Dial("tcp", addr)
	if err != nil {
		t.Fail("accepts", "no connection to %s: %v", addr, err)
	}
	c := newEnd(conn, fmt.Sprint("client ", id), false)
	t.Defer(c.Close)
	k := &idler{talker: &talker{c: c, id: id}, kind: kind, r: mon.NewRand(t.Rand.Uint64())}
	if idleKinds[kind] == "silent since SSL was refused" {
		c.Send(wire.SSLRequest(), pieces(k.r, 0))
		t.Await("ssl", "the SSL request is answered", func() bool { return c.Over() || c.Len() > 0 })
		k.ds = []byte("N")
	}
	n := db.N()
	st := wire.Startup(wire.V3, []wire.Param{{Name: "user", Value: fmt.Sprint("u", id)}, {Name: "database", Value: "db"}})
	c.Send(st, pieces(k.r, 0))
	t.Await("serves", "a client is connected to the database", func() bool {
		return c.Over() || db.N() > n && db.Conns()[n].Len() >= len(st)
	})
	if c.Over() {
		t.Fail("serves", "a client of %s is disconnected: %v", addr, c.Err())
	}
	k.d = db.Conns()[n]
	k.cs = append([]byte{}, st...)
	return k
}

func c29Sessions(t *mon.T) {
	r := t.Rand
	clock := clockOf(t)
	before, _ := vtime.Stats()
	db := newFakeDB(t)
	src := make(chan *server.Config)
	dist := server.NewConfigDistributor(src)
	srv := server.NewServer(dist)
	returned := make(chan struct{})
	addr := fmt.Sprintf("%s:%d", slotIP(0), slotPort())
	serial := 0
	keep := make(chan *server.Config, 1000)
	if err := dist.Subscribe(keep); err != nil {
		t.Fail("subscribe", "Subscribe: %v", err)
	}
	push := func(a string) {
		serial++
		done := make(chan struct{})
		go func() {
			src <- &server.Config{Listen: a, DatabaseURL: dbURL(r, db.Port(), "db") + fmt.Sprintf("?application_name=%d", serial)}
			close(done)
		}()
		t.AwaitChan("taken", "the distributor takes a configuration", done)
		t.Await("update", "a subscriber receives the configuration", func() bool {
			select {
			case c := <-keep:
				return serialOf(c) == serial
			default:
				return false
			}
		})
	}
	// Either the server listens by itself or it is given a listener.
	own := r.IntN(2) == 0
	var early chan error
	if own {
		go func() { _ = srv.Start(); close(returned) }()
	} else {
		l, err := net.Listen("tcp", addr)
		if err != nil {
			t.Inconclusive("listen: %v", err)
		}
		go func() { _ = srv.Serve(l); close(returned) }()
	}
	var subs []chan *server.Config
	if r.IntN(2) == 0 { // the first configuration is late
		early = make(chan error, 1)
		go func() { _, err := dist.Get(); early <- err }()
		for i := 0; i < 3; i++ {
			ch := make(chan *server.Config, i)
			if err := dist.Subscribe(ch); err != nil {
				t.Fail("subscribe", "Subscribe: %v", err)
			}
			subs = append(subs, ch)
		}
		past := clock.some(r, func() {
			if len(early) > 0 {
				t.Fail("early-read", "a read returns (%v) though there is no configuration yet", <-early)
			}
		})
		push(addr)
		t.Await("read", fmt.Sprintf("a read that waited %v for the first configuration returns", past), func() bool { return len(early) > 0 })
		if err := <-early; err != nil {
			t.Fail("read", "a read that waited %v for the first configuration fails: %v", past, err)
		}
		t.Case(true, "first", past, own)
	} else {
		push(addr)
	}
	listens := func(a string, when string) {
		t.Await("listens", "the server listens on "+a+" "+when, func() bool {
			ino, ok := listening()[a]
			return ok && ownSockets()[ino]
		})
	}
	listens(addr, "after the start")
	var ks []*idler
	add := func(n int) {
		for i := 0; i < n; i++ {
			ks = append(ks, idleConnect(t, addr, db, len(ks), r.IntN(len(idleKinds))))
		}
	}
	for round := 0; round < t.Int("n"); round++ {
		if len(ks) > 8 { // the eldest hang up
			for _, k := range ks[:4] {
				if r.IntN(2) == 0 {
					k.c.Close()
				} else {
					k.d.Close()
				}
				k := k
				t.Await("ends", "a session ends when one of its ends hangs up, however late", func() bool { return k.c.Over() && k.d.Over() })
				k.c.Close()
				k.d.Close()
			}
			ks = ks[4:]
		}
		add(1 + r.IntN(6))
		for _, k := range ks {
			k.kind = r.IntN(len(idleKinds))
			k.begin(t)
		}
		past := clock.some(r, func() {
			for _, k := range ks {
				k.during(t)
			}
		})
		for _, k := range ks {
			k.finish(t, past)
			t.Case(true, idleKinds[k.kind], past, k.id, t.Seed, round)
			t.Count("idle: "+idleKinds[k.kind], 1)
		}
		if round == 0 {
			t.Sample("%d sessions (%s, ...) live and work after %v", len(ks), idleKinds[ks[0].kind], past)
		}
		// The listener and the distributor are there too.
		if own && r.IntN(2) == 0 {
			addr = fmt.Sprintf("%s:%d", slotIP(r.IntN(2)), slotPort())
			push(addr)
			listens(addr, fmt.Sprintf("after %v", past))
		} else if r.IntN(2) == 0 {
			push(addr)
		}
		got := make(chan error, 1)
		go func() {
			c, err := dist.Get()
			if err == nil && c.Listen != addr {
				err = fmt.Errorf("the configuration is that of %s", c.Listen)
			}
			got <- err
		}()
		t.Await("read", fmt.Sprintf("a read returns after %v", past), func() bool { return len(got) > 0 })
		if err := <-got; err != nil {
			t.Fail("read", "after %v: %v", past, err)
		}
		for i, ch := range subs {
			if r.IntN(2) == 0 {
				continue
			}
			for { // all updates are there, the last one in the end
				var c *server.Config
				t.Await("update", fmt.Sprintf("subscriber %d receives the updates after %v", i, past), func() bool {
					select {
					case c = <-ch:
						return true
					default:
						return false
					}
				})
				if c == nil {
					t.Fail("update", "subscriber %d receives nothing", i)
				}
				if serialOf(c) == serial {
					break
				}
			}
			subs[i] = ch
			push(addr) // and there is one for the next time
		}
	}
	for _, k := range ks {
		if r.IntN(2) == 0 {
			k.c.Close()
		}
	}
	done := make(chan struct{})
	go func() { _ = srv.Close(); dist.Close(); close(done) }()
	t.AwaitChan("close", "Close returns", done)
	t.AwaitChan("start-ends", "Start or Serve returns after Close", returned)
	t.NoProductGoroutines("goroutines", "after everything was closed")
	// What has been closed stays quiet.
	clock.some(r, func() {})
	t.NoProductGoroutines("goroutines", "a while after everything was closed")
	armed, _ := vtime.Stats()
	t.Count("timers_and_deadlines_set", int(armed-before))
}

func serialOf(c *server.Config) int {
	n := 0
	for i := len(c.DatabaseURL) - 1; i >= 0; i-- {
		if c.DatabaseURL[i] == '=' {
			_, _ = fmt.Sscan(c.DatabaseURL[i+1:], &n)
			break
		}
	}
	return n
}

// c29Inspector: an inspector that is used once in a while.
func c29Inspector(t *mon.T) {
	clock := clockOf(t)
	r := t.Rand
	s := newPGServer(t, r, 5)
	s.Listen()
	in, err := pgmeta.Inspect(s.DSN(r))
	if err != nil {
		t.Fail("inspect", "Inspect of a healthy server: %v", err)
	}
	for i := 0; i < t.Int("n"); i++ {
		past := clock.some(r, func() {})
		k := &pgCheck{t, s}
		pgGuard(func() {
			if r.IntN(2) == 0 {
				k.name(in, true)
			}
			k.tables(in, true)
		})
		t.Case(true, "inspector", past, t.Seed, i)
	}
	_ = in.Close()
	s.Stop()
}

// c29Program: the program itself.
func c29Program(t *mon.T) {
	r := t.Rand
	dir := scratch(t)
	db := newFakeDB(t)
	addr := fmt.Sprintf("%s:%d", slotIP(0), slotPort())
	path := filepath.Join(dir, "gevulot.toml")
	text := func(a string) string {
		return fmt.Sprintf("listen = %q\ndatabase-url = \"postgres://u@127.0.0.1:%d/db\"\n", a, db.Port())
	}
	if err := os.WriteFile(path, []byte(text(addr)), 0o644); err != nil {
		t.Inconclusive("%v", err)
	}
	var p *Prog
	var clock pass
	if t.Int("real") > 0 {
		p = startProg(t, t.Env.Program, dir, nil)
		clock = clockOf(t)
	} else {
		sock := filepath.Join(dir, "clock")
		_ = os.Setenv("VERIF_CLOCK", sock)
		p = startProg(t, t.Env.Program, dir, &sched.Plan{})
		_ = os.Unsetenv("VERIF_CLOCK")
		p.ListensOn("listen", addr, "after the start")
		c, err := net.DialTimeout("unix", sock, 10*time.Second)
		if err != nil {
			t.Inconclusive("clock: %v", err)
		}
		defer c.Close()
		in, out := json.NewDecoder(c), json.NewEncoder(c)
		clock = pass{t, func(d time.Duration) {
			var st []int64
			_ = c.SetDeadline(time.Now().Add(20 * time.Second))
			err := out.Encode(d)
			if err == nil {
				err = in.Decode(&st)
			}
			if err != nil {
				if p.Exited() || err == io.EOF {
					time.Sleep(100 * time.Millisecond)
					t.Fail("ends", "the program ends by itself: %s", tailOf(p.err.String()+p.out.String()))
				}
				t.Inconclusive("clock: %v", err)
			}
			time.Sleep(3 * time.Millisecond)
		}}
	}
	p.ListensOn("listen", addr, "after the start")
	var ks []*idler
	for i := 0; i < 4; i++ {
		ks = append(ks, idleConnect(t, addr, db, i, 0))
	}
	for round := 0; round < t.Int("n"); round++ {
		for _, k := range ks {
			k.kind = r.IntN(len(idleKinds))
			k.begin(t)
		}
		past := clock.some(r, func() {
			for _, k := range ks {
				k.during(t)
			}
		})
		if p.Exited() {
			t.Fail("ends", "the program ended (exit code %d) by itself within %v: %s", p.code, past, tailOf(p.err.String()+p.out.String()))
		}
		for _, k := range ks {
			k.finishAt(p, past)
			t.Case(true, "program", idleKinds[k.kind], past, k.id, t.Seed, round)
			t.Count("idle: "+idleKinds[k.kind], 1)
		}
		p.ListensOn("listen", addr, fmt.Sprintf("after %v without a change", past))
		// It reloads.
		s := &saver{t: t, path: path, dir: dir, aside: dir}
		if round > 0 || r.IntN(2) == 0 {
			addr = fmt.Sprintf("%s:%d", slotIP(r.IntN(2)), slotPort())
			s.save(r, []string{"rewrite", "rename", "recreate", "backup"}[r.IntN(4)], text(addr))
			p.ListensOn("reload", addr, fmt.Sprintf("after a reload after %v", past))
		}
		k := idleConnect(t, addr, db, 100+round, 0)
		ks = append(ks, k)
	}
}

// finishAt is finish for a session of another process.
func (k *idler) finishAt(p *Prog, past time.Duration) {
	t := k.r
	what := fmt.Sprintf("session %d (%s) after %v", k.id, idleKinds[k.kind], past)
	over := func() {
		if k.c.Over() || k.d.Over() {
			p.t.Fail("cut", "%s has ended: client %v, database %v\n%s", what, k.c.Err(), k.d.Err(), tailOf(p.err.String()))
		}
	}
	over()
	k.c.Resume()
	k.d.Resume()
	idle := func() bool { over(); return k.c.Idle() && k.d.Idle() }
	p.Wait("idle-delivery", what+" takes what was sent", idle)
	if len(k.inC) > 0 {
		k.fromClient(k.inC)
	}
	if len(k.inD) > 0 {
		k.fromDB(k.inD)
	}
	k.inC, k.inD = nil, nil
	for i := 0; i < 2; i++ {
		p.Wait("idle-delivery", what+" relays everything", func() bool { return idle() && k.c.Len() >= len(k.ds) && k.d.Len() >= len(k.cs) })
		sameStream(p.t, "idle-to-database", what+" at its database connection", k.d.Got(), k.cs)
		sameStream(p.t, "idle-to-client", what+" at its client", k.c.Got(), k.ds)
		if i == 0 {
			k.step(p.t, t)
		}
	}
}

func init() {
	mon.Register(&mon.Property{
		ID: "C29",
		Rule: "sessions in 15 states (silent, in the middle of a message or header of either side, one or both sides not reading with full buffers, one-way traffic, single bytes, both talking) of servers that listen by themselves or were given a listener, readers and subscribers that wait for a first or next configuration, closed servers, inspectors, and the program itself with reloads; meanwhile a minute to 60 days pass: the product's time package, connection deadlines and context deadlines are bound at build time to a clock that the harness moves in small growing steps, and some tasks wait truly. A case is a session (reader, inspector) and a period, distinct by state and length. " +
			"Oracle: nothing is cut in the meantime, what was begun is completed and delivered byte for byte, new messages, new clients, new configurations, reads and reloads work, nothing crashes or returns early, closed servers stay quiet.",
		Assumptions: []string{"How long a client may take for its start-up packet and a database to accept a connection is not judged.", "Clocks that code outside the repository (libraries, kernel) reads are moved only truly, for the seconds a task waits."},
		Scenarios:   map[string]func(*mon.T){"sessions": c29Sessions, "inspector": c29Inspector, "program": c29Program},
		MinDistinct: 100,
		NeedProgram: true,
		Forgetful:   true,
		Plan: func(r *mon.Run) {
			wait := r.Pick(40, 330)
			ts := []mon.Task{r.Task("program", map[string]int{"n": 1, "real": wait}), r.Task("sessions", map[string]int{"n": 1, "real": wait / 2}), r.Task("inspector", map[string]int{"n": 1, "real": wait})}
			for i := 0; i < r.Pick(40, 600); i++ {
				tk := r.Task("sessions", map[string]int{"n": 4})
				tk.Plan = randomPlan(r.Rand, sitesOf(r, "pkg/server/"))
				ts = append(ts, tk)
			}
			for i := 0; i < r.Pick(6, 60); i++ {
				ts = append(ts, r.Task("program", map[string]int{"n": 4}), r.Task("inspector", map[string]int{"n": 4}))
			}
			r.Do(ts)
		},
	})
}
