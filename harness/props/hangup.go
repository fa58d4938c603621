package props

import (
	"bytes"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"os"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/hired/gevulot/pkg/server"

	"verif.local/harness/mon"
	"verif.local/harness/sched"
	"verif.local/harness/wire"
)

// ---- C11 ----

// ways to hang up
const (
	byFin = iota
	byHalfClose
	byReset
)

var hangNames = []string{"close", "half-close", "reset"}

func hang(e *End, how int) {
	switch how {
	case byFin:
		e.Close()
	case byHalfClose:
		e.CloseWrite()
	default:
		e.Reset()
	}
}

// drained waits until all sends of e are done.
func drained(t *mon.T, e *End) { t.Await("idle", e.Name+" can send", e.Idle) }

// someStream makes a stream of whole messages and possibly the beginning of another.
func someStream(r *rand.Rand, backend bool) (whole []byte, part []byte) {
	n, size := r.IntN(12), []int{0, 50, 3000, 70000}[r.IntN(4)]
	if r.IntN(5) == 0 {
		n, size = 200+r.IntN(200), 40
	}
	if r.IntN(25) == 0 {
		n, size = 60, 70000
	}
	whole = wire.GenStream(r, backend, n, size).Bytes()
	if r.IntN(3) == 0 {
		m := wire.GenStream(r, backend, 1, 300).Bytes()
		part = m[:1+r.IntN(len(m)-1)]
	}
	return whole, part
}

// c11Hangup plays sessions in which a side hangs up at some moment.
func c11Hangup(t *mon.T) {
	r := t.Rand
	w := newWorld(t, "db")
	base := countFDs()
	trig := sched.Triggered()
	st := wire.Startup(wire.V3, []wire.Param{{Name: "user", Value: "u"}, {Name: "database", Value: "db"}})

	gone := func(label string) {
		t.Await("session-ends", "the session ends: "+label, func() bool { return sessionsLeft() == 0 })
		w.DB.CatchUp(t)
		t.Await("sockets", "all sockets are closed: "+label, func() bool {
			for _, d := range w.DB.Conns() { // one may be accepted only now
				if d.Over() {
					d.Close()
				}
			}
			return countFDs() <= base
		})
		if n := countFDs(); n != base {
			t.Inconclusive("%d sockets, %d at the start", n, base)
		}
	}

	for i := 0; i < t.Int("n"); i++ {
		how := r.IntN(3)
		n := w.DB.N()
		label := ""
		phase := r.IntN(12)
		if t.Int("phase") > 0 {
			phase = t.Int("phase")
		}
		switch phase {
		case 0, 1: // the client, before the start-up packet is complete
			c := w.Dial("client", false)
			var sent []byte
			if r.IntN(3) == 0 {
				sent = append(sent, wire.SSLRequest()...)
			}
			sent = append(sent, st[:r.IntN(len(st))]...)
			if r.IntN(4) == 0 {
				sent = nil
			}
			label = fmt.Sprintf("client sends %d bytes of its start-up, then %s", len(sent), hangNames[how])
			c.Send(sent, pieces(r, r.IntN(5)))
			drained(t, c)
			hang(c, how)
			if how == byHalfClose {
				t.Await("client-closed", "the client connection is closed: "+label, c.Over)
				c.Close()
			}
			gone(label)
			if w.DB.N() != n {
				t.Fail("contact", "the database is contacted: %s", label)
			}
		case 2: // the client, right behind the start-up packet
			c := w.Dial("client", false)
			whole, part := someStream(r, false)
			whole = append(append([]byte{}, st...), whole...)
			label = fmt.Sprintf("client sends start-up, %d bytes of messages and %d of another, then %s", len(whole)-len(st), len(part), hangNames[how])
			c.Send(append(whole[:len(whole):len(whole)], part...), pieces(r, r.IntN(5)))
			drained(t, c)
			hang(c, how)
			if how != byReset {
				t.Await("delivery", "everything is delivered: "+label, func() bool { return w.DB.N() > n && w.DB.Conns()[n].Over() })
				d := w.DB.Conns()[n]
				wholeAndMaybe(t, label, d.Got(), whole, part)
				d.Close()
			}
			if how == byHalfClose {
				t.Await("client-closed", "the client connection is closed: "+label, c.Over)
				c.Close()
			}
			t.Await("session-ends", "the session ends: "+label, func() bool { return sessionsLeft() == 0 })
			for _, d := range w.DB.Conns()[n:] {
				t.Await("db-closed", "the database connection is closed: "+label, d.Over)
				prefixOf(t, label, d.Got(), append(whole[:len(whole):len(whole)], part...))
				d.Close()
			}
			gone(label)
		case 3: // the database, right after accepting
			label = "database " + hangNames[how] + " on accept"
			w.DB.mu.Lock()
			w.DB.OnConn = func(_ int, e *End) { hang(e, how) }
			w.DB.mu.Unlock()
			c := w.Dial("client", false)
			c.Send(append(append([]byte{}, st...), wire.GenStream(r, false, r.IntN(5), 100).Bytes()...), pieces(r, r.IntN(5)))
			t.Await("client-closed", "the client connection is closed: "+label, c.Over)
			w.DB.mu.Lock()
			w.DB.OnConn = nil
			w.DB.mu.Unlock()
			if c.Len() > 0 {
				t.Fail("surplus", "the client receives %s: %s", clip(c.Got()), label)
			}
			c.Close()
			for _, d := range w.DB.Conns()[n:] {
				t.Await("db-closed", "the database connection is closed: "+label, d.Over)
				d.Close()
			}
			gone(label)
		case 4: // no database at all
			label = "nothing listens on the database port"
			good := w.Cfg.cfg
			w.Cfg.Set(&server.Config{DatabaseURL: dbURL(r, closedPort(), "db")})
			c := w.Dial("client", false)
			c.Send(st, pieces(r, r.IntN(5)))
			t.Await("client-closed", "the client connection is closed: "+label, c.Over)
			w.Cfg.Set(good)
			c.Close()
			gone(label)
		default:
			label = c11Established(t, w, how, trig)
			gone(label)
		}
		t.Case(true, label)
		t.Count("hangups_"+hangNames[how], 1)
		if i < 2 {
			t.Sample("%s", label)
		}
	}
	w.Shutdown()
	w.DB.Close()
	t.Await("sockets", "all sockets are closed after the server was closed", func() bool { return countFDs() <= w.fds })
}

func wholeAndMaybe(t *mon.T, label string, got, whole, part []byte) {
	if !bytes.HasPrefix(got, whole) || !bytes.HasPrefix(append(whole[:len(whole):len(whole)], part...), got) {
		t.Fail("lost", "not everything sent before the hang-up is delivered (%d of %d bytes): %s: %s", len(got), len(whole), firstDiff(got, whole), label)
	}
}

func prefixOf(t *mon.T, label string, got, sent []byte) {
	if !bytes.HasPrefix(sent, got) {
		t.Fail("altered", "something else than what was sent arrives: %s: %s", firstDiff(got, sent), label)
	}
}

// c11Established hangs up an established session.
func c11Established(t *mon.T, w *World, how int, trig <-chan struct{}) string {
	r := t.Rand
	c, d := w.Connect("db")
	h, o, fromDB := c, d, false
	if r.IntN(2) == 0 {
		h, o, fromDB = d, c, true
	}
	mode := r.IntN(8)
	modeName := []string{"reads", "reads", "reads", "sends too", "reads later", "never reads, leaves", "hangs up too", "sends too"}[mode]
	label := fmt.Sprintf("%s %s (%s), the other side %s", h.Name, hangNames[how], map[bool]string{true: "database", false: "client"}[fromDB], modeName)
	var hSent, oSent []byte
	// Some ordinary traffic first.
	for k := r.IntN(3); k > 0; k-- {
		a, b := wire.GenStream(r, fromDB, 1+r.IntN(4), 500).Bytes(), wire.GenStream(r, !fromDB, 1+r.IntN(4), 500).Bytes()
		hSent, oSent = append(hSent, a...), append(oSent, b...)
		h.Send(a, pieces(r, r.IntN(5)))
		o.Send(b, pieces(r, r.IntN(5)))
		deliver(t, "warm-up", "traffic", o, hSent)
		deliver(t, "warm-up", "traffic", h, oSent)
		drained(t, h)
		drained(t, o)
	}
	whole, part := someStream(r, fromDB)
	stalled := mode == 4 || mode == 5
	if stalled {
		o.Pause()
		if r.IntN(2) == 0 && mode == 5 { // more than all buffers hold
			whole = append(whole, bytes.Repeat(wire.Std('d', make([]byte, 60000)), 300)...)
			part = nil
		} else if r.IntN(2) == 0 {
			whole = append(whole, bytes.Repeat(wire.Std('d', make([]byte, 30000)), 30)...)
		}
	}
	if mode == 3 || mode == 7 {
		b := wire.GenStream(r, !fromDB, 1+r.IntN(100), 2000).Bytes()
		oSent = append(oSent, b...)
		o.Send(b, pieces(r, 4))
	}
	all := append(append([]byte{}, whole...), part...)
	h.Send(all, pieces(r, r.IntN(5)))
	exact := how != byReset
	switch {
	case trig != nil && t.Int("trigger") == 1:
		// Hang up when the chosen statement is reached, or when all is quiet.
		exact = exact && false
		t.AwaitSoftly(func() bool {
			select {
			case <-trig:
				return true
			default:
				return h.Idle() && o.Len() >= len(hSent)+len(whole)
			}
		})
		if h.Idle() {
			exact = how != byReset
		}
	case mode == 5:
		// The proxy may be unable to take it all.
		sleepUS(r.IntN(20000))
	default:
		drained(t, h)
	}
	if mode == 5 && !h.Idle() {
		exact = false
	}
	if mode == 3 || mode == 7 {
		exact = false
	}
	hSent = append(hSent, whole...)
	if exact && how == byFin && h.Len() < len(oSent) {
		t.Inconclusive("traffic was not delivered")
	}
	hang(h, how)
	switch mode {
	case 4:
		sleepUS(r.IntN(8000))
		o.Resume()
	case 5:
		sleepUS(r.IntN(8000))
		hang(o, []int{byFin, byReset}[r.IntN(2)])
		exact = false
	case 6:
		hang(o, r.IntN(3))
		exact = false
	}
	if mode != 5 && mode != 6 {
		t.Await("hangup-passed-on", "the other side's connection is closed: "+label, o.Over)
	}
	if how == byHalfClose && mode != 5 {
		t.Await("both-closed", "the half-closed connection is closed: "+label, h.Over)
	}
	if mode == 6 {
		t.Await("session-ends", "the session ends: "+label, func() bool { return sessionsLeft() == 0 })
	}
	if exact {
		wholeAndMaybe(t, label, o.Got(), hSent, part)
		t.Count("exact_deliveries", 1)
	} else {
		prefixOf(t, label, o.Got(), append(append([]byte{}, hSent...), part...))
		prefixOf(t, label, h.Got(), oSent)
	}
	c.Close()
	d.Close()
	return label + fmt.Sprintf(" after %d bytes and a part of %d", len(hSent), len(part))
}

// endingConn is a client connection whose stream ends in a chosen manner once everything in it has been read.
type endingConn struct {
	mu     sync.Mutex
	data   []byte
	chunk  int
	end    error
	with   bool // the error comes along with the last bytes
	once   sync.Once
	closed chan struct{}
}

func (c *endingConn) Read(p []byte) (int, error) {
	select {
	case <-c.closed:
		return 0, &net.OpError{Op: "read", Net: "tcp", Err: net.ErrClosed}
	default:
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.data) == 0 {
		return 0, c.end
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := copy(p, c.data[:min(len(c.data), c.chunk)])
	c.data = c.data[n:]
	if len(c.data) == 0 && c.with {
		return n, c.end
	}
	return n, nil
}

func (c *endingConn) Write(p []byte) (int, error) {
	select {
	case <-c.closed:
		return 0, &net.OpError{Op: "write", Net: "tcp", Err: net.ErrClosed}
	default:
	}
	return len(p), nil
}
func (c *endingConn) Close() error                     { c.once.Do(func() { close(c.closed) }); return nil }
func (c *endingConn) LocalAddr() net.Addr              { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1} }
func (c *endingConn) RemoteAddr() net.Addr             { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 2} }
func (c *endingConn) SetDeadline(time.Time) error      { return nil }
func (c *endingConn) SetReadDeadline(time.Time) error  { return nil }
func (c *endingConn) SetWriteDeadline(time.Time) error { return nil }

// c11Ending: what the proxy has read from a client before the connection failed, in whatever manner, is delivered.
func c11Ending(t *mon.T) {
	r := t.Rand
	w := newWorld(t, "db")
	st := wire.Startup(wire.V3, []wire.Param{{Name: "user", Value: "u"}, {Name: "database", Value: "db"}})
	for i := 0; i < t.Int("n"); i++ {
		ends := []error{io.EOF, io.ErrUnexpectedEOF, syscall.ECONNRESET, syscall.ETIMEDOUT, syscall.EPIPE, syscall.EHOSTUNREACH}
		k := r.IntN(len(ends))
		end := ends[k]
		if k >= 2 {
			end = &net.OpError{Op: "read", Net: "tcp", Err: os.NewSyscallError("read", end)}
		}
		whole, part := someStream(r, false)
		whole = append(append([]byte{}, st...), whole...)
		c := &endingConn{data: append(append([]byte{}, whole...), part...), chunk: []int{1 << 20, 1000, 7}[r.IntN(3)], end: end, with: r.IntN(4) == 0, closed: make(chan struct{})}
		if len(c.data) > 100000 {
			c.chunk = 1 << 20
		}
		late := r.IntN(2) == 0
		label := fmt.Sprintf("the client's connection ends with %q behind %d bytes of messages and %d of another, database reads late: %v", end, len(whole)-len(st), len(part), late)
		n := w.DB.N()
		w.DB.mu.Lock()
		w.DB.OnConn = nil
		if late {
			w.DB.OnConn = func(_ int, e *End) { e.Pause() }
		}
		w.DB.mu.Unlock()
		done := make(chan struct{})
		go func() { _ = w.Srv.ServeConn(c); close(done) }()
		t.Await("connect", "the database is contacted: "+label, func() bool { return w.DB.N() > n })
		d := w.DB.Conns()[n]
		if late {
			sleepUS(r.IntN(8000))
			d.Resume()
		}
		t.Await("hangup-passed-on", "the database connection is closed: "+label, d.Over)
		wholeAndMaybe(t, label, d.Got(), whole, part)
		d.Close()
		t.AwaitChan("client-closed", "the client connection is closed: "+label, c.closed)
		t.AwaitChan("session-ends", "the session ends: "+label, done)
		t.Count("endings", 1)
		t.Case(true, label)
	}
	w.Shutdown()
	w.DB.Close()
	t.Await("sockets", "all sockets are closed after the server was closed", func() bool { return countFDs() <= w.fds })
}

// ---- C27 ----

func c27Switch(t *mon.T) {
	r := t.Rand
	type target struct {
		db   *FakeDB
		name string
		cfg  *server.Config
	}
	var dbs []*target
	for i := 0; i < 4; i++ {
		db := newFakeDBSomewhere(t)
		name := fmt.Sprintf("db%d", i)
		if i == 3 {
			name = "db0" // the same name elsewhere
		}
		dbs = append(dbs, &target{db, name, nil})
	}
	src := make(chan *server.Config)
	dist := server.NewConfigDistributor(src)
	srv := server.NewServer(dist)
	var addr string
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Inconclusive("listen: %v", err)
	}
	addr = l.Addr().String()
	served := make(chan struct{})
	viaStart := t.Int("start") == 1
	if viaStart {
		l.Close()
		addr = fmt.Sprintf("%s:%d", slotIP(0), slotPort()) // nobody else takes it
		go func() { _ = srv.Start(); close(served) }()
	} else {
		go func() { _ = srv.Serve(l); close(served) }()
	}
	type item struct {
		cfg  *server.Config
		to   *target // nil: sessions fail
		name string
	}
	set := func(it item) {
		it.cfg.Listen = addr
		res, dump := t.AwaitSoft(func() bool {
			select {
			case src <- it.cfg:
				return true
			default:
				return false
			}
		})
		if res != mon.Happened {
			t.Inconclusive("the configuration is not taken\n%s", dump)
		}
		got := make(chan *server.Config, 1)
		t.Await("effective", "the configuration takes effect", func() bool {
			go func() {
				c, _ := dist.Get()
				select {
				case got <- c:
				default:
				}
			}()
			select {
			case c := <-got:
				return c == it.cfg
			default:
				return false
			}
		})
	}
	if !viaStart {
		// Get subscribes and starts the distributor.
		go func() { _, _ = dist.Get() }()
	}
	mk := func() item {
		if r.IntN(5) == 0 {
			bad := []string{"", "mysql://u@127.0.0.1/db0", "postgres://u@127.0.0.1:notaport/db0", "::::", "postgres://u@127.0.0.1:1/db0", "postgres://u@127.0.0.1:" + fmt.Sprint(closedPort()) + "/db0", "postgres://u@no.such.host.invalid:5432/db0"}
			return item{&server.Config{DatabaseURL: bad[r.IntN(len(bad))]}, nil, "db0"}
		}
		k := dbs[r.IntN(len(dbs))]
		return item{&server.Config{DatabaseURL: k.db.URL(r, k.name)}, k, k.name}
	}
	total := func() int {
		n := 0
		for _, k := range dbs {
			n += k.db.N()
		}
		return n
	}
	dial := func() *End {
		var c net.Conn
		t.Await("dial", "the server accepts a client", func() bool {
			var err error
			c, err = net.Dial("tcp", addr)
			return err == nil
		})
		e := newEnd(c, "client", false)
		t.Defer(e.Close)
		return e
	}
	id := 0
	var old []*talker
	start := func(name string) (*End, []byte) {
		id++
		c := dial()
		st := wire.Startup(wire.V3, []wire.Param{{Name: "user", Value: fmt.Sprintf("user%05d", id)}, {Name: "database", Value: name}})
		c.Send(st, pieces(r, r.IntN(5)))
		return c, st
	}
	find := func(st []byte) (*target, *End) {
		for _, k := range dbs {
			for _, d := range k.db.Conns() {
				if bytes.HasPrefix(d.Got(), st) {
					return k, d
				}
			}
		}
		return nil, nil
	}
	expect := func(it item, name, history string) {
		n := total()
		c, st := start(name)
		if it.to == nil || it.name != name {
			t.Await("refused", "the client is disconnected: "+history, c.Over)
			if total() != n {
				t.Fail("stale", "a client that asks for %q is connected to a database although the configuration says %s: %s", name, it.cfg.DatabaseURL, history)
			}
			c.Close()
			t.Count("refused", 1)
			return
		}
		var d *End
		var k *target
		t.Await("admitted", "the client is connected: "+history, func() bool { k, d = find(st); return d != nil || c.Over() })
		if d == nil {
			t.Fail("refused", "a client that asks for %q is disconnected although the configuration says %s: %s", name, it.cfg.DatabaseURL, history)
		}
		if k != it.to {
			t.Fail("stale", "the client is connected to %s (port %d) although the configuration says %s: %s", k.name, k.db.Port(), it.cfg.DatabaseURL, history)
		}
		old = append(old, &talker{c: c, d: d, id: id, cs: append([]byte{}, st...)})
		t.Count("connected", 1)
	}
	history := ""
	cur := item{&server.Config{DatabaseURL: dbs[0].db.URL(r, "db0")}, dbs[0], "db0"}
	set(cur)
	for i := 0; i < t.Int("n"); i++ {
		expect(cur, cur.name, history)
		if r.IntN(2) == 0 {
			expect(cur, "db1", history)
		}
		// Clients that connect while the configuration changes get the old one or the new one, nothing in between.
		next := mk()
		var racing []*End
		var rst [][]byte
		var rname []string
		if t.Int("race") == 1 {
			for k := 1 + r.IntN(3); k > 0; k-- {
				nm := []string{cur.name, next.name}[r.IntN(2)]
				c, st := start(nm)
				racing, rst, rname = append(racing, c), append(rst, st), append(rname, nm)
			}
			sleepUS(r.IntN(1500))
		}
		history += fmt.Sprintf("-> %s ", strings.ReplaceAll(next.cfg.DatabaseURL, "127.0.0.1", "local"))
		prev := cur
		cur = next
		set(cur)
		for k, c := range racing {
			var d *End
			var at *target
			t.Await("racing", "a client that connects during the change is admitted or disconnected: "+history, func() bool { at, d = find(rst[k]); return d != nil || c.Over() })
			if d != nil {
				okOld := prev.to == at && prev.name == rname[k]
				okNew := cur.to == at && cur.name == rname[k]
				if !okOld && !okNew {
					t.Fail("mixed", "a client asking for %q during the change from %s to %s is connected to %s on port %d", rname[k], prev.cfg.DatabaseURL, cur.cfg.DatabaseURL, at.name, at.db.Port())
				}
				d.Close()
			}
			c.Close()
			t.Count("racing", 1)
		}
		for _, k := range old {
			k.step(t, r)
		}
		for _, k := range old {
			k.check(t)
			drained(t, k.c)
			drained(t, k.d)
		}
		t.Count("old_sessions_checked", len(old))
		if len(old) > 6 {
			old[0].c.Close()
			t.Await("end", "the database connection of a client that left ends", old[0].d.Over)
			old[0].d.Close()
			old = old[1:]
		}
		t.Case(true, history)
	}
	expect(cur, cur.name, history)
	for _, k := range old {
		if k.c.Over() || k.d.Over() {
			t.Fail("disturbed", "session %d ended because of a configuration change: %s", k.id, history)
		}
	}
	t.Sample("%s", history)
	done := make(chan struct{})
	go func() { _ = srv.Close(); dist.Close(); close(done) }()
	t.AwaitChan("close", "closing", done)
	t.AwaitChan("close", "serving ends", served)
	t.NoProductGoroutines("leak", "after the server was closed")
}

func init() {
	mon.Register(&mon.Property{
		ID:        "C11",
		Forgetful: true,
		Rule: "sessions in which the client or the database hangs up (close, half-close, reset) before, during and after start-up, between messages or inside one, with the other side reading, sending, stalled or leaving too, under random schedules and at chosen statements of the session; distinct by description. " +
			"Oracle: received bytes equal (or, when data may be discarded by TCP itself, are a prefix of) what was sent; the other connection is closed; no session goroutine and no socket is left.",
		Assumptions: []string{"a peer that is itself still sending may lose data to TCP's reset", "when the remaining data cannot be delivered because the receiver neither reads nor leaves, the session may wait for it"},
		Scenarios:   map[string]func(*mon.T){"hangup": c11Hangup, "ending": c11Ending},
		MinDistinct: 300,
		Plan: func(r *mon.Run) {
			sites := sitesOf(r, "pkg/server/session.go", "pkg/server/server.go")
			ses := sitesOf(r, "pkg/server/session.go")
			var ts []mon.Task
			for i := 0; i < r.Pick(160, 3000); i++ {
				tk := r.Task("hangup", map[string]int{"n": 24})
				tk.Plan = randomPlan(r.Rand, sites)
				if i%3 == 0 && len(ses) > 0 {
					tk.P["n"] = 2
					tk.P["phase"] = 9
					tk.P["trigger"] = 1
					tk.Plan.Points = append(tk.Plan.Points, sched.Point{Site: ses[r.Rand.IntN(len(ses))], First: 1 + r.Rand.IntN(12), Count: 1, DelayUS: 20000, Trigger: true})
				}
				ts = append(ts, tk)
			}
			for i := 0; i < r.Pick(24, 400); i++ {
				tk := r.Task("ending", map[string]int{"n": 20})
				tk.Plan = randomPlan(r.Rand, sites)
				ts = append(ts, tk)
			}
			r.Do(ts)
		},
	})
	mon.Register(&mon.Property{
		ID:        "C27",
		Forgetful: true,
		Rule: "histories of database settings (four databases, two of the same name, unusable and unreachable ones) fed to a real configuration distributor while clients connect before, during and after every change and earlier sessions go on talking; distinct by history. " +
			"Oracle: the fake database that receives the client's start-up packet is the one the current (during a change: the previous or the next) configuration names, and the client asked for its name.",
		Scenarios:   map[string]func(*mon.T){"switch": c27Switch},
		MinDistinct: 200,
		Plan: func(r *mon.Run) {
			sites := sitesOf(r, "pkg/server/")
			var ts []mon.Task
			for i := 0; i < r.Pick(64, 1000); i++ {
				tk := r.Task("switch", map[string]int{"n": 12, "start": i % 2, "race": i / 2 % 2})
				tk.Plan = randomPlan(r.Rand, sites)
				ts = append(ts, tk)
			}
			r.Do(ts)
		},
	})
}
