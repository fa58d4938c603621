package props

import (
	"bufio"
	"bytes"
	"context"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/hired/gevulot/pkg/server"

	"verif.local/harness/mon"
	"verif.local/harness/sched"
	"verif.local/harness/wire"
)

// ---- addresses ----

// Every worker has its own loopback addresses and ports below the ephemeral range.
var slot = func() int { n, _ := strconv.Atoi(os.Getenv("VERIF_SLOT")); return n }()

// Runs at the same time have their own network.
var network = func() int { n, _ := strconv.Atoi(os.Getenv("VERIF_NET")); return n%200 + 1 }()

func slotIP(n int) string { return fmt.Sprintf("127.%d.%d.%d", network, slot%200+1, n+1) }

var portCounter atomic.Int32

// slotPort returns a port nobody uses on any address.
func slotPort() int {
	for i := 0; i < 2000; i++ {
		p := 12000 + slot%14*1400 + (int(portCounter.Add(1))+network*61)%1400
		l, err := net.Listen("tcp", fmt.Sprintf(":%d", p))
		if err == nil {
			l.Close()
			return p
		}
	}
	panic("no free port")
}

// listening lists the listening sockets of the machine: "ip:port" -> inode.
func listening() map[string]string {
	m := map[string]string{}
	for _, f := range []string{"/proc/self/net/tcp", "/proc/self/net/tcp6"} {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, l := range strings.Split(string(b), "\n") {
			fs := strings.Fields(l)
			if len(fs) < 10 || fs[3] != "0A" {
				continue
			}
			i := strings.IndexByte(fs[1], ':')
			if i < 0 {
				continue
			}
			raw, err := hex.DecodeString(fs[1][:i])
			if err != nil {
				continue
			}
			port, err := strconv.ParseUint(fs[1][i+1:], 16, 16)
			if err != nil {
				continue
			}
			for k := 0; k+4 <= len(raw); k += 4 {
				raw[k], raw[k+1], raw[k+2], raw[k+3] = raw[k+3], raw[k+2], raw[k+1], raw[k]
			}
			ip := net.IP(raw).String()
			if ip == "::" { // that is how Go listens on 0.0.0.0
				ip = "0.0.0.0"
			}
			m[net.JoinHostPort(ip, fmt.Sprint(port))] = fs[9]
		}
	}
	return m
}

// ownSockets are the inodes of this process's sockets.
func ownSockets() map[string]bool {
	m := map[string]bool{}
	es, _ := os.ReadDir("/proc/self/fd")
	for _, e := range es {
		if l, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(l, "socket:[") {
			m[strings.Trim(l[7:], "[]")] = true
		}
	}
	return m
}

// socketsAt lists this process's connections with one of the local addresses.
func socketsAt(addrs []string) []string {
	var left []string
	es, _ := os.ReadDir("/proc/self/fd")
	for _, e := range es {
		fd, err := strconv.Atoi(e.Name())
		if err != nil {
			continue
		}
		sa, err := syscall.Getsockname(fd)
		if err != nil {
			continue
		}
		in, ok := sa.(*syscall.SockaddrInet4)
		if !ok {
			continue
		}
		if _, err := syscall.Getpeername(fd); err != nil {
			continue // a listener, maybe of a Start that is about to return
		}
		at := net.JoinHostPort(net.IP(in.Addr[:]).String(), fmt.Sprint(in.Port))
		if slices.Contains(addrs, at) {
			left = append(left, fmt.Sprintf("%s (fd %d)", at, fd))
		}
	}
	return left
}

// held tells whether a process holds the other end of a connection to this machine. A connection can lack one: when a
// listener is closed in the middle of a handshake, Linux may forget the half-open connection without a word to a client
// that considers itself connected; such a client hears of it when it sends something.
func held(c net.Conn) bool {
	key := func(a net.Addr) string {
		t, ok := a.(*net.TCPAddr)
		ip := net.IP{}
		if ok {
			ip = t.IP.To4()
		}
		if len(ip) != 4 {
			return ""
		}
		return fmt.Sprintf("%02X%02X%02X%02X:%04X", ip[3], ip[2], ip[1], ip[0], t.Port)
	}
	l, r := key(c.LocalAddr()), key(c.RemoteAddr())
	b, err := os.ReadFile("/proc/self/net/tcp")
	if err != nil || l == "" || r == "" {
		return true
	}
	for _, ln := range strings.Split(string(b), "\n") {
		if fs := strings.Fields(ln); len(fs) >= 10 && fs[1] == r && fs[2] == l && fs[9] != "0" {
			return true
		}
	}
	return false
}

// ---- C14 ----

// yard keeps everything a workload makes.
type yard struct {
	mu    sync.Mutex
	ends  []*End
	addrs []string
	r     *rand.Rand
	stop  atomic.Bool
	calls sync.WaitGroup // Serve, ServeConn and Start calls
}

func (y *yard) add(e *End) *End { y.mu.Lock(); y.ends = append(y.ends, e); y.mu.Unlock(); return e }

func (y *yard) all() []*End { y.mu.Lock(); defer y.mu.Unlock(); return append([]*End{}, y.ends...) }

// dial connects to the server if it can.
func (y *yard) dial(addr string) *End {
	c, err := net.DialTimeout("tcp", addr, 2*time.Second)
	if err != nil {
		return nil
	}
	return y.add(newEnd(c, "client", false))
}

func (y *yard) handOver(srv *server.Server) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return
	}
	defer l.Close()
	c, err := net.Dial("tcp", l.Addr().String())
	if err != nil {
		return
	}
	s, err := l.Accept()
	if err != nil {
		c.Close()
		return
	}
	e := y.add(newEnd(c, "handed-over client", false))
	y.calls.Add(1)
	go func() { defer y.calls.Done(); _ = srv.ServeConn(s) }()
	y.use(e)
}

// use makes the client do something.
func (y *yard) use(e *End) {
	st := wire.Startup(wire.V3, []wire.Param{{Name: "user", Value: "u"}, {Name: "database", Value: "db"}})
	r := y.r
	switch r.IntN(7) {
	case 0: // silence
	case 1:
		e.Send(wire.SSLRequest(), pieces(r, 0))
	case 2:
		e.Send(st[:r.IntN(len(st))], pieces(r, 0))
	case 3:
		e.Send(wire.Startup(wire.V3, []wire.Param{{Name: "database", Value: "other"}}), pieces(r, 0))
	case 4:
		e.Send(append(st, bytes.Repeat(wire.Std('d', make([]byte, 50000)), 200)...), pieces(r, 0))
	default:
		e.Send(append(st, wire.GenStream(r, false, 1+r.IntN(20), 500).Bytes()...), pieces(r, r.IntN(5)))
	}
}

func c14Close(t *mon.T) {
	r := t.Rand
	fds := countFDs()
	y := &yard{r: mon.NewRand(t.Seed ^ 77)}
	db := newFakeDB(t)
	answers := mon.NewRand(t.Seed ^ 78)
	var amu sync.Mutex
	db.OnConn = func(i int, e *End) {
		amu.Lock()
		defer amu.Unlock()
		switch answers.IntN(4) {
		case 0:
			e.paused = true
		case 1:
			e.Send(wire.GenStream(answers, true, 1+answers.IntN(10), 300).Bytes(), pieces(answers, 0))
		case 2:
			e.Send(bytes.Repeat(wire.Std('d', make([]byte, 50000)), 200), pieces(answers, 0))
		}
	}
	variant := t.Int("v")
	port := db.Port()
	if variant == 3 {
		port = newBacklog(t)
		fds = countFDs() - 1 // the fake database's listener is gone at the end, the other one is not
	}
	src := make(chan *server.Config)
	dist := server.NewConfigDistributor(src)
	fixed := &fixedConfig{cfg: &server.Config{DatabaseURL: dbURL(r, port, "db")}}
	var store server.ConfigStore = fixed
	if variant == 0 || variant == 2 {
		store = dist
	}
	srv := server.NewServer(store)
	var startErr, lateErr error
	workDone := make(chan struct{})
	ip := slotIP(0)
	p0 := slotPort()
	wr := mon.NewRand(t.Seed ^ 79)
	sleep := func() {
		switch wr.IntN(3) {
		case 0:
			sleepUS(wr.IntN(300))
		case 1:
			sleepUS(wr.IntN(4000))
		}
	}
	newListener := func() net.Listener {
		l, err := net.Listen("tcp", ip+":0")
		if err != nil {
			return nil
		}
		y.mu.Lock()
		y.addrs = append(y.addrs, l.Addr().String())
		y.mu.Unlock()
		y.calls.Add(1)
		go func() { defer y.calls.Done(); _ = srv.Serve(l) }()
		return l
	}
	go func() {
		defer close(workDone)
		if variant == 0 {
			y.mu.Lock()
			for i := 0; i < 3; i++ {
				y.addrs = append(y.addrs, fmt.Sprintf("%s:%d", ip, p0+i))
			}
			y.mu.Unlock()
			y.calls.Add(1)
			go func() { defer y.calls.Done(); startErr = srv.Start() }()
		} else {
			newListener()
		}
		for i := 0; i < 6 && !y.stop.Load(); i++ {
			y.mu.Lock()
			addr := ""
			if len(y.addrs) > 0 {
				addr = y.addrs[len(y.addrs)-1]
				if variant == 0 {
					addr = y.addrs[i/2%3]
				}
			}
			y.mu.Unlock()
			if variant == 0 && i%2 == 0 {
				cfg := &server.Config{Listen: fmt.Sprintf("%s:%d", ip, p0+i/2%3), DatabaseURL: fixed.cfg.DatabaseURL}
				tm := time.NewTimer(2 * time.Second)
				select {
				case src <- cfg:
				case <-tm.C:
				}
				tm.Stop()
			}
			for k := wr.IntN(3); k >= 0; k-- {
				if e := y.dial(addr); e != nil {
					y.use(e)
				}
			}
			sleep()
			if wr.IntN(2) == 0 {
				y.handOver(srv)
			}
			if variant == 1 && i%3 == 2 {
				newListener()
			}
			if wr.IntN(3) == 0 {
				if es := y.all(); len(es) > 0 {
					hang(es[wr.IntN(len(es))], wr.IntN(3))
				}
			}
			sleep()
		}
	}()
	// The moment.
	trig := sched.Triggered()
	if t.Int("trigger") == 1 && trig != nil {
		t.AwaitSoftly(func() bool {
			select {
			case <-trig:
				return true
			case <-workDone:
				return true
			default:
				return false
			}
		})
	} else {
		sleepUS(r.IntN([]int{200, 3000, 20000}[r.IntN(3)]))
	}
	n := 1 + r.IntN(3)
	var closers sync.WaitGroup
	for i := 0; i < n; i++ {
		closers.Add(1)
		go func() { defer closers.Done(); _ = srv.Close() }()
		if r.IntN(2) == 0 {
			sleepUS(r.IntN(500))
		}
	}
	closed := make(chan struct{})
	go func() { closers.Wait(); close(closed) }()
	t.AwaitChan("close-returns", "Close returns", closed)
	if variant == 0 {
		// These connections were accepted by the server itself: they are closed by now.
		y.mu.Lock()
		own := append([]string{}, y.addrs...)
		y.mu.Unlock()
		if left := socketsAt(own); len(left) > 0 {
			t.Fail("open-after-close", "after Close has returned the server still holds %v\n%s", left, mon.Dump(mon.Snapshot()))
		}
	}
	if err := srv.Close(); err != nil {
		t.Fail("close-again", "another Close returns %v", err)
	}
	// Late arrivals.
	y.stop.Store(true)
	t.AwaitChan("workload", "the workload ends", workDone)
	l, err := net.Listen("tcp", ip+":0")
	if err != nil {
		t.Inconclusive("listen: %v", err)
	}
	lateErr = srv.Serve(l)
	if !errors.Is(lateErr, server.ErrServerClosed) {
		t.Fail("late-serve", "Serve after Close returns %v", lateErr)
	}
	y.mu.Lock()
	y.addrs = append(y.addrs, l.Addr().String())
	y.mu.Unlock()
	a, b := net.Pipe()
	if err := srv.ServeConn(b); !errors.Is(err, server.ErrServerClosed) {
		t.Fail("late-conn", "ServeConn after Close returns %v", err)
	}
	if _, err := b.Write([]byte("x")); err == nil || !strings.Contains(err.Error(), "closed") {
		t.Fail("late-conn", "a connection handed over after Close is not closed")
	}
	a.Close()
	y.handOver(srv)
	// Everything is closed.
	t.Await("listeners", "no listener of the server accepts after Close", func() bool {
		ls := listening()
		y.mu.Lock()
		defer y.mu.Unlock()
		for _, a := range y.addrs {
			if ls[a] != "" {
				return false
			}
		}
		return true
	})
	calls := make(chan struct{})
	go func() { y.calls.Wait(); close(calls) }()
	t.AwaitChan("serve-returns", "Start, Serve and ServeConn return after Close", calls)
	if variant == 0 && !errors.Is(startErr, server.ErrServerClosed) {
		t.Fail("start", "Start returns %v after Close", startErr)
	}
	for _, e := range y.all() {
		e.Resume()
		polls := 0
		t.Await("clients", "every client connection is closed after Close", func() bool {
			if polls++; e.Over() {
				return true
			}
			if polls%16 == 0 && !held(e.C) {
				t.Count("clients_of_no_socket", 1)
				return true
			}
			return false
		})
	}
	for _, d := range db.Conns() {
		d.Resume()
		t.Await("databases", "every database connection is closed after Close", func() bool { return d.Over() })
	}
	t.Case(true, variant, len(y.all()), db.N(), n, t.Plan.Points, r.Uint32())
	t.Count("clients", len(y.all()))
	t.Count("database_connections", db.N())
	t.Count("listeners", len(y.addrs))
	t.Sample("variant %d: %d listeners, %d clients, %d database connections, %d concurrent Close calls at %v", variant, len(y.addrs), len(y.all()), db.N(), n, t.Plan.Points)
	// A session that waited for a configuration may have left a reader of the distributor.
	dist.Close()
	t.NoProductGoroutines("leak", "after Close")
	for _, e := range y.all() {
		e.Close()
	}
	t.Await("sockets", "no socket is left after Close", func() bool {
		db.Close()
		return countFDs() <= fds
	})
}

// ---- C15 ----

// c15Thief: the server gives up its address for a moment (to try another host of the same port); somebody else takes it
// meanwhile and leaves again. From then on a configuration with any usable address, the old one as well, must do.
func c15Thief(t *mon.T) {
	r := t.Rand
	db := newFakeDB(t)
	src := make(chan *server.Config)
	dist := server.NewConfigDistributor(src)
	srv := server.NewServer(dist)
	returned := make(chan struct{})
	go func() { _ = srv.Start(); close(returned) }()
	port, other := slotPort(), slotPort()
	first, wild, elsewhere := fmt.Sprintf("%s:%d", slotIP(0), port), fmt.Sprintf("0.0.0.0:%d", port), fmt.Sprintf("%s:%d", slotIP(1), other)
	nconf := 0
	push := func(addr string) {
		nconf++
		cfg := &server.Config{Listen: addr, DatabaseURL: dbURL(r, db.Port(), "db") + fmt.Sprintf("?application_name=%d", nconf)}
		done := make(chan struct{})
		go func() { src <- cfg; close(done) }()
		t.AwaitChan("taken", "the distributor takes a configuration", done)
	}
	on := func(addr, after string) {
		t.Await("converges", "the server listens on "+addr+" "+after, func() bool {
			own, m := ownSockets(), listening()
			for _, a := range []string{first, wild, elsewhere} {
				if (m[a] != "" && own[m[a]]) != (a == addr) {
					return false
				}
			}
			return true
		})
	}
	for i := 0; i < t.Int("n"); i++ {
		push(first)
		on(first, "at first")
		blocker, err := net.Listen("tcp", fmt.Sprintf("%s:%d", slotIP(2), port)) // 0.0.0.0 is not possible
		if err != nil {
			t.Inconclusive("occupy: %v", err)
		}
		stop, loot := make(chan struct{}), make(chan net.Listener, 1)
		go func() {
			for {
				if l, err := net.Listen("tcp", first); err == nil {
					loot <- l
					return
				}
				select {
				case <-stop:
					loot <- nil
					return
				default:
					runtime.Gosched()
				}
			}
		}()
		push(wild)
		sleepUS(2000 + r.IntN(30000))
		close(stop)
		l := <-loot
		sleepUS(r.IntN(10000))
		blocker.Close()
		if l != nil {
			l.Close()
			t.Count("stolen", 1)
		} else {
			t.Count("not_stolen", 1)
		}
		next := []string{first, first, elsewhere}[r.IntN(3)]
		push(next)
		on(next, fmt.Sprintf("after %s, %s (impossible; own address taken by somebody meanwhile: %v) and %s again", first, wild, l != nil, next))
		t.Case(true, "thief", l != nil, next, t.Seed, i)
	}
	done := make(chan struct{})
	go func() { _ = srv.Close(); close(done) }()
	t.AwaitChan("close", "Close returns", done)
	t.AwaitChan("start", "Start returns after Close", returned)
	dist.Close()
	close(src)
}

func c15Listen(t *mon.T) {
	r := t.Rand
	db := newFakeDB(t)
	src := make(chan *server.Config)
	dist := server.NewConfigDistributor(src)
	srv := server.NewServer(dist)
	returned := make(chan struct{})
	go func() { _ = srv.Start(); close(returned) }()
	ports := []int{slotPort(), slotPort(), slotPort()}
	var usable []string
	for i, p := range ports {
		usable = append(usable, fmt.Sprintf("%s:%d", slotIP(i%2), p))
	}
	wild := fmt.Sprintf("0.0.0.0:%d", ports[0])
	twin := fmt.Sprintf("%s:%d", slotIP(1), ports[0])
	if t.Int("twin") == 1 {
		usable = append(usable, wild, twin)
	}
	busyAddr := fmt.Sprintf("%s:%d", slotIP(0), slotPort())
	var busy net.Listener
	occupy := func() {
		l, err := net.Listen("tcp", busyAddr)
		if err != nil {
			t.Inconclusive("occupy: %v", err)
		}
		busy = l
	}
	occupy()
	defer func() {
		if busy != nil {
			busy.Close()
		}
	}()
	bad := []string{"nonsense", "127.0.0.1", slotIP(0) + ":99999", "300.1.1.1:80", slotIP(0) + ":http-nonsense", "no.such.host.invalid:4242", "192.0.2.1:4242"}
	nconf := 0
	push := func(addr string) {
		nconf++
		cfg := &server.Config{Listen: addr, DatabaseURL: dbURL(r, db.Port(), "db") + fmt.Sprintf("?application_name=%d", nconf)}
		done := make(chan struct{})
		go func() { src <- cfg; close(done) }()
		t.AwaitChan("taken", "the distributor takes a configuration", done)
	}
	mine := func() map[string]string {
		m := map[string]string{}
		own := ownSockets()
		for a, ino := range listening() {
			if !own[ino] {
				continue
			}
			_, p, _ := net.SplitHostPort(a)
			n, _ := strconv.Atoi(p)
			for _, q := range ports {
				if n == q {
					m[a] = ino
				}
			}
			if a == busyAddr && busy == nil {
				m[a] = ino
			}
		}
		return m
	}
	var talk []*talker
	var waiting []*End // accepted, but in the middle of their start-up
	current := ""
	history := ""
	// After a detour (the address left the latest one and came back) the server may still be on its way.
	connect := func(detour bool) {
		host, port, _ := net.SplitHostPort(current)
		if host == "0.0.0.0" {
			host = slotIP(r.IntN(3))
		}
		id := len(talk)
		n := db.N()
		st := wire.Startup(wire.V3, []wire.Param{{Name: "user", Value: fmt.Sprint(id)}, {Name: "database", Value: "db"}})
		begin := time.Now()
		patience := func(k int) bool { return detour && (k < 30 || time.Since(begin) < 15*time.Second) }
		var e *End
		for k := 0; ; k++ {
			if k > 0 {
				sleepUS(1000 * k)
			}
			c, err := net.Dial("tcp", net.JoinHostPort(host, port))
			if err != nil {
				if patience(k) {
					continue
				}
				t.Fail("accepts", "no connection to %s: %v; after %s", current, err, history)
			}
			e = newEnd(c, "client", false)
			t.Defer(e.Close)
			e.Send(st, pieces(r, 0))
			t.Await("serves", "a client of "+current+" is served after "+history, func() bool { return e.Over() || db.N() > n && db.Conns()[n].Len() >= len(st) })
			if db.N() > n {
				break
			}
			if !patience(k) {
				t.Fail("serves", "a client of %s is disconnected after %s", current, history)
			}
			e.Close()
		}
		if r.IntN(2) == 0 && len(waiting) < 6 {
			if c, err := net.Dial("tcp", net.JoinHostPort(host, port)); err == nil {
				x := newEnd(c, "waiting client", false)
				t.Defer(x.Close)
				x.Send(wire.SSLRequest(), pieces(r, 0))
				t.AwaitSoftly(func() bool { return x.Len() > 0 || x.Over() })
				if x.Len() > 0 {
					waiting = append(waiting, x)
				} else {
					x.Close()
				}
			}
		}
		talk = append(talk, &talker{c: e, d: db.Conns()[n], id: id, cs: append([]byte{}, st...)})
	}
	for i := 0; i < t.Int("n"); i++ {
		// A burst of changes.
		before := mine()
		var burst []string
		last := current
		same := current != ""
		failing := true
		for k := 1 + r.IntN(4); k > 0; k-- {
			var a string
			switch x := r.IntN(10); {
			case x < 2 && current != "":
				a = current
				if len(burst) > 0 {
					a = burst[len(burst)-1]
				}
			case x < 3:
				a = bad[r.IntN(len(bad))]
			case x < 5:
				a = busyAddr
			default:
				a = usable[r.IntN(len(usable))]
			}
			burst = append(burst, a)
		}
		if r.IntN(3) == 0 && current != "" { // nothing but the same address
			for k := range burst {
				burst[k] = current
			}
		}
		ok := func(a string) bool {
			for _, u := range usable {
				if a == u {
					return true
				}
			}
			return a == busyAddr && busy == nil
		}
		for _, a := range burst {
			if ok(a) {
				last = a
			}
			same = same && a == current
			failing = failing && !ok(a)
		}
		if t.Int("early") == 1 && i == 0 && last == "" {
			burst = append(burst, usable[0])
			last, failing = usable[0], false
		}
		if len(history) > 1500 {
			history = "... " + history[len(history)-1200:]
		}
		history += fmt.Sprintf("%q ", burst)
		for _, k := range talk {
			k.step(t, r)
		}
		for _, a := range burst {
			push(a)
			if r.IntN(4) == 0 {
				sleepUS(r.IntN(3000))
			}
		}
		final := burst[len(burst)-1]
		if last == "" {
			// No usable address yet: nothing may listen.
			t.Count("nothing_usable", 1)
			continue
		}
		t.Await("converges", fmt.Sprintf("the server listens on the latest usable address %s only, after %s", last, history), func() bool {
			m := mine()
			return len(m) == 1 && m[last] != ""
		})
		if same || failing && current != "" && before[current] != "" && !(t.Int("twin") == 1) {
			// The listening socket must be the same one.
			if m := mine(); before[current] != m[current] && before[current] != "" {
				t.Fail("interrupted", "the listening socket of %s was replaced although the address did not change: %s", current, history)
			}
			t.Count("unchanged", 1)
		}
		// It stays like that (a late listener change would show).
		sleepUS(r.IntN(2000))
		seen, detour := current == last, false
		for _, a := range burst {
			if ok(a) && a != last && seen {
				detour = true
			}
			seen = seen || a == last
		}
		current = last
		connect(detour)
		for _, k := range talk {
			drained(t, k.c)
			drained(t, k.d)
			k.check(t)
		}
		if detour {
			t.Await("converges", fmt.Sprintf("the server listens on the latest usable address %s only, after %s", last, history), func() bool {
				m := mine()
				return len(m) == 1 && m[last] != ""
			})
			t.Count("detours", 1)
		} else if m := mine(); len(m) != 1 || m[current] == "" {
			t.Fail("converges", "the server listens on %v, not %s, after %s", m, current, history)
		}
		t.Count("changes", len(burst))
		t.Case(true, history)
		if len(talk) > 6 {
			talk[0].c.Close()
			t.Await("end", "the database connection of a client that left ends", talk[0].d.Over)
			talk[0].d.Close()
			talk = talk[1:]
		}
		// The busy address becomes free or busy.
		if current != busyAddr && r.IntN(2) == 0 {
			if busy != nil {
				busy.Close()
				busy = nil
				history += "(free " + busyAddr + ") "
				if final == busyAddr { // the latest configuration's address is usable now: the next configuration with it must do
					history += "again "
					push(busyAddr)
					t.Await("retry", "the server listens on the address that became usable after "+history, func() bool { m := mine(); return len(m) == 1 && m[busyAddr] != "" })
					current = busyAddr
				}
			} else {
				occupy()
				history += "(occupy " + busyAddr + ") "
			}
		}
	}
	for _, k := range talk {
		if k.c.Over() || k.d.Over() {
			t.Fail("disturbed", "an established session ended because of a listener change: %s", history)
		}
	}
	for k, x := range waiting {
		n := db.N()
		st := wire.Startup(wire.V3, []wire.Param{{Name: "user", Value: fmt.Sprint("waiting", k)}, {Name: "database", Value: "db"}})
		if x.Over() {
			t.Fail("disturbed-waiting", "a client the server had begun to talk to is disconnected because of a listener change: %s", history)
		}
		x.Send(st, pieces(r, 0))
		t.Await("serves-waiting", "a client the server had begun to talk to before listener changes is served: "+history, func() bool { return x.Over() || db.N() > n && db.Conns()[n].Len() >= len(st) })
		if db.N() == n {
			t.Fail("disturbed-waiting", "a client the server had begun to talk to before listener changes is disconnected: %s", history)
		}
		t.Count("waiting_clients", 1)
	}
	t.Sample("%s", history)
	done := make(chan struct{})
	go func() { _ = srv.Close(); dist.Close(); close(done) }()
	t.AwaitChan("close", "closing", done)
	t.AwaitChan("close", "Start returns", returned)
	if m := mine(); len(m) > 0 {
		t.Fail("leftover", "the server listens on %v after Close: %s", m, history)
	}
}

// ---- C16 ----

type acceptItem struct {
	conn net.Conn
	err  error
}

// scripted is a listener that returns what it is told.
type scripted struct {
	items  chan acceptItem
	closed chan struct{}
	once   sync.Once
	calls  atomic.Int64
}

func (s *scripted) Accept() (net.Conn, error) {
	s.calls.Add(1)
	select {
	case it := <-s.items:
		return it.conn, it.err
	case <-s.closed:
		return nil, &net.OpError{Op: "accept", Net: "tcp", Err: errors.New("use of closed network connection")}
	}
}
func (s *scripted) Close() error   { s.once.Do(func() { close(s.closed) }); return nil }
func (s *scripted) Addr() net.Addr { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 4} }

type tempErr struct{ timeout bool }

func (e tempErr) Error() string   { return "temporary trouble" }
func (e tempErr) Timeout() bool   { return e.timeout }
func (e tempErr) Temporary() bool { return true }

type permErr struct{ timeout bool }

func (e permErr) Error() string   { return "permanent trouble" }
func (e permErr) Timeout() bool   { return e.timeout }
func (e permErr) Temporary() bool { return false }

func tempError(r *rand.Rand) error {
	switch r.IntN(8) {
	case 6, 7:
		return known(r, true)
	case 0:
		return &net.OpError{Op: "accept", Net: "tcp", Err: os.NewSyscallError("accept4", syscall.EMFILE)}
	case 1:
		return &net.OpError{Op: "accept", Net: "tcp", Err: syscall.ECONNABORTED}
	case 2:
		return &net.OpError{Op: "accept", Net: "tcp", Err: os.NewSyscallError("accept4", syscall.ENFILE)}
	case 3:
		return tempErr{true}
	case 4:
		return fmt.Errorf("wrapped: %w", tempErr{})
	default:
		return tempErr{}
	}
}

// knownErrors are errors a listener may return that code likes to treat specially.
var knownErrors = []error{io.EOF, io.ErrUnexpectedEOF, io.ErrClosedPipe, net.ErrClosed, os.ErrDeadlineExceeded, os.ErrClosed, os.ErrPermission, context.Canceled, context.DeadlineExceeded, net.ErrWriteToConnected,
	syscall.EINTR, syscall.EAGAIN, syscall.EBADF, syscall.EINVAL, syscall.ENOTSOCK, syscall.EOPNOTSUPP, syscall.EPROTO, syscall.EPERM, syscall.ENOBUFS, syscall.ENOMEM, syscall.EMFILE, syscall.ENFILE, syscall.ECONNABORTED,
	syscall.ECONNRESET, syscall.ETIMEDOUT, syscall.EPIPE, syscall.ENETDOWN, syscall.EFAULT, syscall.EIO, server.ErrServerClosed, server.ErrConfigDistributorClosed}

// known picks one of them, bare or as the net package reports it, that is temporary or not.
func known(r *rand.Rand, temporary bool) error {
	for {
		err := knownErrors[r.IntN(len(knownErrors))]
		switch r.IntN(4) {
		case 0:
			err = &net.OpError{Op: "accept", Net: "tcp", Err: err}
		case 1:
			err = &net.OpError{Op: "accept", Net: "tcp", Err: os.NewSyscallError("accept4", err)}
		case 2:
			err = fmt.Errorf("listener: %w", err)
		}
		var ne net.Error
		if temporary == (errors.As(err, &ne) && ne.Temporary()) {
			return err
		}
	}
}

func permError(r *rand.Rand) error {
	switch r.IntN(12) {
	case 6, 7, 8, 9, 10, 11:
		return known(r, false)
	case 0:
		return &net.OpError{Op: "accept", Net: "tcp", Err: os.NewSyscallError("accept4", syscall.EINVAL)}
	case 1:
		return errors.New("listener is broken")
	case 2:
		return permErr{}
	case 3:
		return permErr{true}
	case 4:
		return &net.OpError{Op: "accept", Net: "tcp", Err: errors.New("use of closed network connection")}
	default:
		return fmt.Errorf("wrapped: %w", permErr{})
	}
}

func pipeConn(t *mon.T) (net.Conn, net.Conn) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Inconclusive("listen: %v", err)
	}
	defer l.Close()
	a, err := net.Dial("tcp", l.Addr().String())
	if err != nil {
		t.Inconclusive("dial: %v", err)
	}
	b, err := l.Accept()
	if err != nil {
		t.Inconclusive("accept: %v", err)
	}
	return a, b
}

func c16Accept(t *mon.T) {
	r := t.Rand
	w := &World{t: t, fds: countFDs()}
	w.DB = newFakeDB(t)
	w.Cfg = &fixedConfig{cfg: &server.Config{DatabaseURL: dbURL(r, w.DB.Port(), "db")}}
	srv := server.NewServer(w.Cfg)
	l := &scripted{items: make(chan acceptItem), closed: make(chan struct{})}
	served := make(chan struct{})
	var result error
	go func() { result = srv.Serve(l); close(served) }()
	// moving waits for ch. The server may take its time between errors: the clock is moved for it, by up to two minutes.
	moving := func(ch <-chan struct{}) {
		begin, waited := time.Now(), time.Duration(0)
		for waited < 2*time.Minute {
			select {
			case <-ch:
				return
			default:
			}
			if time.Since(begin) < 30*time.Millisecond {
				time.Sleep(50 * time.Microsecond)
				continue
			}
			if waited == 0 {
				t.Count("waits_between_errors", 1)
			}
			d := 100*time.Millisecond + waited/4
			virtually(d)
			waited += d
		}
	}
	hand := func(it acceptItem, what, history string) {
		done := make(chan struct{})
		go func() {
			defer close(done)
			select {
			case l.items <- it:
			case <-served:
			}
		}()
		moving(done)
		t.AwaitChan("accept-loop", "Accept is called again, within two minutes, after "+what+": "+history, done)
		select {
		case <-served:
			t.Fail("stopped", "serving stopped with %v after %s", result, history)
		default:
		}
	}
	var talk []*talker
	var stuck []*End
	history := ""
	id := 0
	if t.Int("many") > 0 { // a long row of errors; given up where the server takes its time between them
		n := wire.Beyond(r, 200, t.Int("many"))
		end := time.Now().Add(5 * time.Second)
		for k := 0; k < n && time.Now().Before(end); k++ {
			hand(acceptItem{err: tempError(r)}, fmt.Sprintf("%d temporary errors in a row", k), history)
			t.Count("temporary_errors", 1)
		}
	}
	for i := 0; i < t.Int("n"); i++ {
		for k := r.IntN(4); k > 0; k-- {
			err := tempError(r)
			hand(acceptItem{err: err}, "what came before", history)
			history += fmt.Sprintf("[%v] ", err)
			t.Count("temporary_errors", 1)
		}
		a, b := pipeConn(t)
		hand(acceptItem{conn: b}, "a temporary error or a client", history)
		e := newEnd(a, "client", false)
		t.Defer(e.Close)
		switch r.IntN(3) {
		case 0: // one that never says anything
			stuck = append(stuck, e)
			history += "silent "
		default:
			id++
			n := w.DB.N()
			st := wire.Startup(wire.V3, []wire.Param{{Name: "user", Value: fmt.Sprint(id)}, {Name: "database", Value: "db"}})
			if r.IntN(3) == 0 && i+1 < t.Int("n") { // more errors before it speaks
				err := tempError(r)
				hand(acceptItem{err: err}, "a client", history)
				history += fmt.Sprintf("[%v] ", err)
			}
			e.Send(st, pieces(r, r.IntN(5)))
			history += "client "
			t.Await("served", "an accepted client is served: "+history, func() bool { return e.Over() || w.DB.N() > n && w.DB.Conns()[n].Len() >= len(st) })
			if w.DB.N() == n {
				t.Fail("served", "an accepted client is disconnected: %s", history)
			}
			talk = append(talk, &talker{c: e, d: w.DB.Conns()[n], id: id, cs: append([]byte{}, st...)})
		}
		t.Count("clients", 1)
		if len(history) > 1200 {
			history = "... " + history[len(history)-1000:]
		}
		t.Case(true, history, i)
	}
	perm := permError(r)
	hand2 := make(chan struct{})
	go func() { defer close(hand2); l.items <- acceptItem{err: perm} }()
	moving(hand2)
	t.AwaitChan("accept-loop", "Accept is called again: "+history, hand2)
	t.AwaitChan("permanent", fmt.Sprintf("Serve returns after the permanent error %v", perm), served)
	if result != perm {
		t.Fail("permanent", "Serve returns %v instead of the permanent error %v", result, perm)
	}
	calls := l.calls.Load()
	for round := 0; round < 2; round++ {
		for _, k := range talk {
			k.step(t, r)
		}
		for _, k := range talk {
			k.check(t)
			drained(t, k.c)
			drained(t, k.d)
		}
	}
	for _, e := range stuck {
		if e.Over() {
			t.Fail("disturbed", "a client that is connected but silent is disconnected after the permanent error: %s", history)
		}
		e.Send(wire.SSLRequest(), pieces(r, 0))
		t.Await("served", "a client that was silent so far is served: "+history, func() bool { return e.Len() > 0 || e.Over() })
		if e.Len() == 0 {
			t.Fail("disturbed", "a client that was silent so far is disconnected: %s", history)
		}
	}
	if n := l.calls.Load(); n != calls {
		t.Fail("permanent", "Accept is called %d times after the permanent error", n-calls)
	}
	t.Sample("%s [%v]", history, perm)
	done := make(chan struct{})
	go func() { _ = srv.Close(); close(done) }()
	t.AwaitChan("close", "Close returns", done)
	t.NoProductGoroutines("leak", "after Close")
}

// c16Descriptors runs the real program short of file descriptors.
func c16Descriptors(t *mon.T) {
	r := t.Rand
	db := newFakeDB(t)
	dir, err := os.MkdirTemp(t.Env.Work, "c16.")
	if err != nil {
		t.Inconclusive("%v", err)
	}
	defer os.RemoveAll(dir)
	addr := fmt.Sprintf("%s:%d", slotIP(0), slotPort())
	_ = os.WriteFile(filepath.Join(dir, "g.toml"), []byte(fmt.Sprintf("listen = %q\ndatabase-url = %q\n", addr, dbURL(r, db.Port(), "db"))), 0o600)
	limit := 18 + r.IntN(14)
	cmd := exec.Command("bash", "-c", fmt.Sprintf("ulimit -n %d; exec %q -c %q", limit, t.Env.Program, filepath.Join(dir, "g.toml")))
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	out, _ := cmd.StdoutPipe()
	if err := cmd.Start(); err != nil {
		t.Inconclusive("%v", err)
	}
	exited := make(chan struct{})
	var errorsSeen atomic.Int64
	go func() {
		s := bufio.NewReader(out)
		for {
			l, err := s.ReadString('\n')
			if strings.Contains(l, "too many open files") {
				errorsSeen.Add(1)
			}
			if err != nil {
				break
			}
		}
		_ = cmd.Wait()
		close(exited)
	}()
	t.Defer(func() { _ = cmd.Process.Kill(); <-exited })
	// This waits for another process, so only the watchdog limits it.
	poll := func(key, what string, f func() bool) {
		end := time.Now().Add(40 * time.Second)
		for !f() {
			select {
			case <-exited:
				t.Fail(key, "the program ended: %s", what)
			default:
			}
			if time.Now().After(end) {
				t.Fail(key, "does not happen within 40 s: %s", what)
			}
			time.Sleep(2 * time.Millisecond)
		}
	}
	st := wire.Startup(wire.V3, []wire.Param{{Name: "user", Value: "u"}, {Name: "database", Value: "db"}})
	var all []*End
	dial := func() *End {
		var c net.Conn
		poll("dial", "the program accepts connections", func() bool { var err error; c, err = net.Dial("tcp", addr); return err == nil })
		e := newEnd(c, "client", false)
		all = append(all, e)
		return e
	}
	for i := 0; i < limit+10; i++ {
		e := dial()
		if r.IntN(3) == 0 {
			e.Send(st, pieces(r, 0))
		}
	}
	poll("errors", "the program runs short of descriptors", func() bool { return errorsSeen.Load() > int64(r.IntN(30)) })
	for _, e := range all {
		e.Close()
	}
	for _, d := range db.Conns() {
		d.Close()
	}
	n := db.N()
	e := dial()
	e.Send(st, pieces(r, 0))
	var d *End
	poll("served", "a client is served after the shortage of descriptors", func() bool {
		for _, x := range db.Conns()[n:] {
			if x.Len() >= len(st) && !x.Over() {
				d = x
			} else if x.Over() {
				x.Close()
			}
		}
		if e.Over() && d == nil { // the shortage may not have been over yet
			e.Close()
			e = dial()
			e.Send(st, pieces(r, 0))
		}
		return d != nil
	})
	e.Close()
	t.Count("accept_errors_in_program", int(errorsSeen.Load()))
	t.Case(true, limit, len(all), errorsSeen.Load())
	t.Sample("limit of %d descriptors, %d clients", limit, len(all))
}

// ---- C17 ----

func c17Start(t *mon.T) {
	r := t.Rand
	src := make(chan *server.Config)
	dist := server.NewConfigDistributor(src)
	srv := server.NewServer(dist)
	ip := slotIP(0)
	p0 := slotPort()
	addr := fmt.Sprintf("%s:%d", ip, p0)
	k := 1 + r.IntN(6)
	when := r.IntN(4) // 0: close first, 1: close at the same time, 2: close later, 3: close at the trigger
	if t.Int("trigger") == 1 {
		when = 3
	}
	push := func(c *server.Config) {
		tm := time.NewTimer(5 * time.Second)
		defer tm.Stop()
		select {
		case src <- c:
		case <-tm.C:
		}
	}
	var results []error
	var mu sync.Mutex
	pending := int64(k)
	start := func() {
		err := srv.Start()
		mu.Lock()
		results = append(results, err)
		mu.Unlock()
		atomic.AddInt64(&pending, -1)
	}
	count := func(want error) int {
		mu.Lock()
		defer mu.Unlock()
		n := 0
		for _, e := range results {
			if e == want {
				n++
			}
		}
		return n
	}
	closed := make(chan struct{})
	closes := 1 + r.IntN(3)
	doClose := func() {
		var wg sync.WaitGroup
		for i := 0; i < closes; i++ {
			wg.Add(1)
			go func() { defer wg.Done(); _ = srv.Close() }()
		}
		go func() { wg.Wait(); close(closed) }()
	}
	// Another subscriber.
	other := make(chan *server.Config, 100)
	if err := dist.Subscribe(other); err != nil {
		t.Inconclusive("subscribe: %v", err)
	}
	first := &server.Config{Listen: addr}
	pushed := 0
	if r.IntN(2) == 0 {
		push(first)
		pushed++
	}
	if when == 0 {
		doClose()
		t.AwaitChan("close", "Close returns", closed)
	}
	for i := 0; i < k; i++ {
		go start()
		if r.IntN(3) == 0 {
			sleepUS(r.IntN(300))
		}
	}
	if when == 1 {
		doClose()
	}
	if pushed == 0 {
		push(first)
		pushed++
	}
	switch when {
	case 2:
		t.Await("already", "all starts but one return", func() bool { return atomic.LoadInt64(&pending) == 1 })
		if n := count(server.ErrServerAlreadyStarted); n != k-1 {
			t.Fail("already", "%d of %d starts return the already-started error while one runs: %v", n, k, results)
		}
		t.Await("listens", "the started server listens", func() bool { return listening()[addr] != "" })
		if err := srv.Start(); err != server.ErrServerAlreadyStarted {
			t.Fail("already", "another Start returns %v", err)
		}
		if atomic.LoadInt64(&pending) != 1 {
			t.Fail("ends", "the running Start returned before Close: %v", results)
		}
		doClose()
	case 3:
		if trig := sched.Triggered(); trig != nil {
			t.AwaitSoftly(func() bool {
				select {
				case <-trig:
					return true
				default:
					return atomic.LoadInt64(&pending) <= 1 && listening()[addr] != ""
				}
			})
		}
		doClose()
	}
	t.AwaitChan("close", "Close returns", closed)
	t.Await("start-returns", "every Start returns after Close", func() bool { return atomic.LoadInt64(&pending) == 0 })
	if n, m := count(server.ErrServerClosed), count(server.ErrServerAlreadyStarted); n+m != k || m > k-1 || (when == 0 && m > 0) || (when == 2 && n != 1) {
		t.Fail("results", "starts return %v (close mode %d)", results, when)
	}
	// After Close.
	if err := srv.Start(); err != server.ErrServerClosed {
		t.Fail("after-close", "Start after Close returns %v", err)
	}
	l, err := net.Listen("tcp", ip+":0")
	if err != nil {
		t.Inconclusive("listen: %v", err)
	}
	if err := srv.Serve(l); err != server.ErrServerClosed {
		t.Fail("after-close", "Serve after Close returns %v", err)
	}
	l.Close()
	a, b := net.Pipe()
	if err := srv.ServeConn(b); err != server.ErrServerClosed {
		t.Fail("after-close", "ServeConn after Close returns %v", err)
	}
	a.Close()
	b.Close()
	for i := r.IntN(3); i >= 0; i-- {
		if err := srv.Close(); err != nil {
			t.Fail("after-close", "Close after Close returns %v", err)
		}
	}
	// Configuration changes are harmless and reach the other subscriber.
	for i := 0; i < 3; i++ {
		c := &server.Config{Listen: fmt.Sprintf("%s:%d", ip, p0+1+i%2)}
		done := make(chan struct{})
		go func() { src <- c; close(done) }()
		t.AwaitChan("config-after-close", "a configuration is taken after the server was closed", done)
		pushed++
	}
	t.Await("others", "the other subscriber gets every configuration", func() bool { return len(other) == pushed })
	if got, err := dist.Get(); err != nil || got.Listen != fmt.Sprintf("%s:%d", ip, p0+1) {
		t.Fail("others", "the distributor says %v, %v", got, err)
	}
	t.Await("no-listener", "nothing listens after Close", func() bool {
		ls := listening()
		for i := 0; i < 4; i++ {
			if ls[fmt.Sprintf("%s:%d", ip, p0+i)] != "" {
				return false
			}
		}
		return true
	})
	dist.Close()
	t.NoProductGoroutines("leak", "after the server and the distributor were closed")
	t.Case(true, k, when, closes, t.Plan.Points, r.Uint32())
	t.Count("starts", k)
	t.Count("closes", closes)
	t.Sample("%d starts, close mode %d, %d closes, results %v", k, when, closes, results)
}

// sweep makes tasks that stop a goroutine at every reached statement while the scenario's moment comes.
func sweep(r *mon.Run, files []string, profile []mon.Task, hits int, delayUS int) []mon.Task {
	in := map[int]bool{}
	for _, s := range sitesOf(r, files...) {
		in[s] = true
	}
	var ts []mon.Task
	for i, res := range r.Do(profile) {
		if res == nil {
			continue
		}
		for s, n := range res.Sites {
			if !in[s] {
				continue
			}
			for h := 1; h <= min(n, hits); h++ {
				tk := profile[i]
				p := map[string]int{"trigger": 1}
				for k, v := range tk.P {
					p[k] = v
				}
				tk.P = p
				tk.Plan = sched.Plan{Seed: tk.Seed, Points: []sched.Point{{Site: s, First: h, Count: 1, DelayUS: delayUS, Trigger: true}}}
				ts = append(ts, tk)
			}
		}
	}
	// The order must not depend on map iteration.
	sortTasks(ts)
	return ts
}

func init() {
	files := []string{"pkg/server/session.go", "pkg/server/server.go"}
	mon.Register(&mon.Property{
		ID:        "C14",
		Forgetful: true,
		Rule: "workloads (listener changes, clients in every phase, handed-over connections, missing configuration, hanging database host) on which 1-3 Close calls fall at random moments, and exactly while a goroutine stands at each statement of the server and session code the workload reaches (site sweep); distinct by workload and moment. " +
			"Oracle: Close returns; kernel's list of listening sockets; end of every client and database connection; no goroutine, no socket left; results of late calls; no panic.",
		Assumptions: []string{"the server's own 5 s watchdog panic counts when it repeats in a re-run"},
		Scenarios:   map[string]func(*mon.T){"close": c14Close, "crowd": c14Crowd, "states": c14States},
		MinDistinct: 200,
		Plan: func(r *mon.Run) {
			var profile []mon.Task
			for v := 0; v < 4; v++ {
				for k := 0; k < r.Pick(1, 6); k++ {
					profile = append(profile, r.Task("close", map[string]int{"v": v, "trigger": 1}))
				}
			}
			ts := sweep(r, append(files, "pkg/server/config_distributor.go", "pkg/server/event.go"), profile, r.Pick(2, 6), 25000)
			sites := sitesOf(r, "pkg/server/")
			for i := 0; i < r.Pick(240, 6000); i++ {
				tk := r.Task("close", map[string]int{"v": i % 4})
				tk.Plan = randomPlan(r.Rand, sites)
				ts = append(ts, tk)
			}
			for i := 0; i < r.Pick(160, 3000); i++ {
				tk := r.Task("states", map[string]int{"n": []int{1, 3, 8}[i%3]})
				if i%2 == 0 {
					tk.Plan = randomPlan(r.Rand, sites)
				}
				ts = append(ts, tk)
			}
			for i := 0; i < r.Pick(6, 40); i++ {
				ts = append(ts, r.Task("crowd", map[string]int{"n": []int{270, 1100, 600}[i%3], "established": []int{1100, 130, 270}[i%3]}))
			}
			r.Do(ts)
		},
	})
	mon.Register(&mon.Property{
		ID:        "C15",
		Forgetful: true,
		Rule: "bursts of configurations (usable, busy, impossible, unchanged addresses; same port on another host; busy ones that become free) pushed quickly into a real distributor with a started server, under random schedules; distinct by history. " +
			"Oracle: kernel's list of listening sockets (address and socket identity) at quiescence, connections to it, sessions from before.",
		Scenarios:   map[string]func(*mon.T){"listen": c15Listen, "thief": c15Thief},
		MinDistinct: 200,
		Plan: func(r *mon.Run) {
			sites := sitesOf(r, "pkg/server/server.go", "pkg/server/config_distributor.go")
			var ts []mon.Task
			for i := 0; i < r.Pick(96, 2000); i++ {
				tk := r.Task("listen", map[string]int{"n": 12, "twin": i % 2, "early": 1})
				tk.Plan = randomPlan(r.Rand, sites)
				ts = append(ts, tk)
			}
			for i := 0; i < r.Pick(12, 200); i++ {
				tk := r.Task("thief", map[string]int{"n": 8})
				tk.Plan = randomPlan(r.Rand, sites)
				ts = append(ts, tk)
			}
			r.Do(ts)
		},
	})
	mon.Register(&mon.Property{
		ID:        "C16",
		Forgetful: true,
		Rule: "scripted listeners that hand out clients (speaking, silent, late) mixed with temporary errors of six kinds and ended by a permanent error of six kinds, under random schedules; and the real program short of file descriptors; distinct by script. " +
			"Oracle: every client is served, Serve's result is the permanent error, Accept is not called again, running sessions go on.",
		Scenarios:   map[string]func(*mon.T){"accept": c16Accept, "descriptors": c16Descriptors},
		MinDistinct: 300,
		NeedProgram: true,
		Plan: func(r *mon.Run) {
			sites := sitesOf(r, files...)
			var ts []mon.Task
			for i := 0; i < r.Pick(120, 2400); i++ {
				tk := r.Task("accept", map[string]int{"n": 2 + i%14})
				if i%16 == 15 {
					tk.P["many"] = []int{300, 1100, 5000}[i/16%3]
				}
				tk.Plan = randomPlan(r.Rand, sites)
				ts = append(ts, tk)
			}
			for i := 0; i < r.Pick(8, 60); i++ {
				ts = append(ts, r.Task("descriptors", nil))
			}
			r.Do(ts)
		},
	})
	mon.Register(&mon.Property{
		ID:        "C17",
		Forgetful: true,
		Rule: "1-6 concurrent Start calls with 1-3 Close calls before, at the same time, later, or exactly while a goroutine stands at each statement of the server code (site sweep); then calls after Close and configuration changes; distinct by number of calls, moment and seed. " +
			"Oracle: a model of the allowed results, listening sockets, the other subscriber, no panic.",
		Scenarios:   map[string]func(*mon.T){"start": c17Start},
		MinDistinct: 200,
		Plan: func(r *mon.Run) {
			var profile []mon.Task
			for k := 0; k < r.Pick(4, 24); k++ {
				profile = append(profile, r.Task("start", map[string]int{"trigger": 1}))
			}
			ts := sweep(r, []string{"pkg/server/server.go", "pkg/server/config_distributor.go", "pkg/server/event.go"}, profile, r.Pick(2, 6), 20000)
			sites := sitesOf(r, "pkg/server/")
			for i := 0; i < r.Pick(400, 10000); i++ {
				tk := r.Task("start", nil)
				tk.Plan = randomPlan(r.Rand, sites)
				ts = append(ts, tk)
			}
			r.Do(ts)
		},
	})
}

func sortTasks(ts []mon.Task) {
	key := func(t mon.Task) string {
		p := t.Plan.Points[0]
		return fmt.Sprintf("%020d %06d %03d", t.Seed, p.Site, p.First)
	}
	sort.SliceStable(ts, func(i, j int) bool { return key(ts[i]) < key(ts[j]) })
}
