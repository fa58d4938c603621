package props

import (
	"bytes"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/hired/gevulot/pkg/server"

	"verif.local/harness/mon"
	"verif.local/harness/sched"
	"verif.local/harness/wire"
)

// End is one endpoint of a TCP connection whose input is recorded by a background reader.
type End struct {
	C    net.Conn
	Name string

	mu     sync.Mutex
	cond   *sync.Cond
	got    []byte
	over   bool // the peer ended or reset the connection
	err    error
	paused bool
	closed bool

	sent     int
	sending  int
	sendErr  error
	sendDone bool
}

func newEnd(c net.Conn, name string, paused bool) *End {
	e := &End{C: c, Name: name, paused: paused}
	e.cond = sync.NewCond(&e.mu)
	go e.read()
	return e
}

func (e *End) read() {
	buf := make([]byte, 64<<10)
	for {
		e.mu.Lock()
		for e.paused && !e.closed {
			e.cond.Wait()
		}
		e.mu.Unlock()
		n, err := e.C.Read(buf)
		e.mu.Lock()
		e.got = append(e.got, buf[:n]...)
		if err != nil {
			e.over, e.err = true, err
			e.mu.Unlock()
			return
		}
		e.mu.Unlock()
	}
}

// Pause stops reading before the next read call.
func (e *End) Pause() { e.mu.Lock(); e.paused = true; e.mu.Unlock() }

// Resume goes on reading.
func (e *End) Resume() { e.mu.Lock(); e.paused = false; e.mu.Unlock(); e.cond.Broadcast() }

// Got returns what has arrived.
func (e *End) Got() []byte { e.mu.Lock(); defer e.mu.Unlock(); return e.got[:len(e.got):len(e.got)] }

// Len returns how much has arrived.
func (e *End) Len() int { e.mu.Lock(); defer e.mu.Unlock(); return len(e.got) }

// Over tells whether the connection ended, from this side's point of view.
func (e *End) Over() bool { e.mu.Lock(); defer e.mu.Unlock(); return e.over }

// Err is how it ended.
func (e *End) Err() error { e.mu.Lock(); defer e.mu.Unlock(); return e.err }

// Sent returns the number of bytes the kernel took.
func (e *End) Sent() int { e.mu.Lock(); defer e.mu.Unlock(); return e.sent }

// Idle tells whether all sends are done.
func (e *End) Idle() bool { e.mu.Lock(); defer e.mu.Unlock(); return e.sending == 0 }

// SendErr is the first send error.
func (e *End) SendErr() error { e.mu.Lock(); defer e.mu.Unlock(); return e.sendErr }

// Send writes b in the background in pieces. One send at a time.
func (e *End) Send(b []byte, piece func() int) {
	e.mu.Lock()
	e.sending++
	e.mu.Unlock()
	go func() {
		for len(b) > 0 {
			n := min(piece(), len(b))
			k, err := e.C.Write(b[:n])
			e.mu.Lock()
			e.sent += k
			if err != nil {
				if e.sendErr == nil {
					e.sendErr = err
				}
				e.sending--
				e.mu.Unlock()
				return
			}
			e.mu.Unlock()
			b = b[n:]
		}
		e.mu.Lock()
		e.sending--
		e.mu.Unlock()
	}()
}

// Close closes the connection normally.
func (e *End) Close() {
	e.mu.Lock()
	e.closed = true
	e.mu.Unlock()
	e.cond.Broadcast()
	_ = e.C.Close()
}

// CloseWrite sends FIN only.
func (e *End) CloseWrite() {
	if c, ok := e.C.(*net.TCPConn); ok {
		_ = c.CloseWrite()
	}
}

// Reset sends RST.
func (e *End) Reset() {
	if c, ok := e.C.(*net.TCPConn); ok {
		_ = c.SetLinger(0)
	}
	e.Close()
}

// pieces returns a chunking.
func pieces(r *rand.Rand, mode int) func() int {
	seed := r.Uint64()
	p := mon.NewRand(seed)
	switch mode % 5 {
	case 0:
		return func() int { return 1 << 30 }
	case 1:
		return func() int { return 1 + p.IntN(9) }
	case 2:
		return func() int { return 1 + p.IntN(2000) }
	case 3:
		return func() int { return 1 + p.IntN(60000) }
	default:
		return func() int {
			if p.IntN(4) == 0 {
				return 1 + p.IntN(6)
			}
			return 1 + p.IntN(9000)
		}
	}
}

// FakeDB is the database end of the proxy at the byte level.
type FakeDB struct {
	L net.Listener
	// Host is how the URL names its address.
	Host  string
	more  []net.Listener
	mu    sync.Mutex
	conns []*End
	// Paused makes new connections start paused.
	Paused bool
	// OnConn, when set, is called for every new connection before anything is read.
	OnConn func(i int, e *End)
}

func newFakeDB(t *mon.T) *FakeDB {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Inconclusive("listen: %v", err)
	}
	d := &FakeDB{L: l, Host: "127.0.0.1"}
	d.serve(l)
	t.Defer(d.Close)
	return d
}

// newFakeDBSomewhere makes a database at one of the addresses of this machine.
func newFakeDBSomewhere(t *mon.T) *FakeDB {
	r := t.Rand
	switch r.IntN(6) {
	case 0:
		if l, err := net.Listen("tcp", "[::1]:0"); err == nil {
			d := &FakeDB{L: l, Host: "[::1]"}
			d.serve(l)
			t.Defer(d.Close)
			return d
		}
	case 1: // the name may stand for both addresses
		d := newFakeDB(t)
		l, err := net.Listen("tcp", fmt.Sprintf("[::1]:%d", d.Port()))
		if err == nil {
			d.more = append(d.more, l)
			d.Host = "localhost"
			d.serve(l)
		}
		return d
	case 2:
		host := fmt.Sprintf("127.%d.%d.%d", 1+r.IntN(100), r.IntN(256), 1+r.IntN(254))
		if l, err := net.Listen("tcp", host+":0"); err == nil {
			d := &FakeDB{L: l, Host: host}
			d.serve(l)
			t.Defer(d.Close)
			return d
		}
	}
	return newFakeDB(t)
}

// URL is one of the ways to name a database of this server.
func (d *FakeDB) URL(r *rand.Rand, name string) string {
	scheme := []string{"postgres", "postgresql"}[r.IntN(2)]
	enc := pct(r, name, "")
	bare := strings.Trim(d.Host, "[]")
	switch r.IntN(8) {
	case 0: // everything in the query
		return fmt.Sprintf("%s:///?host=%s&port=%d&user=u&dbname=%s", scheme, pct(r, bare, ""), d.Port(), enc)
	case 1: // the query overrides
		return fmt.Sprintf("%s://u@127.0.0.1:1/%s?port=%d&host=%s", scheme, enc, d.Port(), pct(r, bare, ""))
	case 2: // the name of the user
		return fmt.Sprintf("%s://%s@%s:%d", scheme, enc, d.Host, d.Port())
	case 3:
		return fmt.Sprintf("%s://u:secret@%s:%d/other?dbname=%s&sslmode=disable", scheme, d.Host, d.Port(), enc)
	case 4: // the default host
		if d.Host == "localhost" {
			return fmt.Sprintf("%s://:%d/%s", scheme, d.Port(), enc)
		}
	}
	return fmt.Sprintf("%s://u@%s:%d/%s", scheme, d.Host, d.Port(), enc)
}

func (d *FakeDB) serve(l net.Listener) {
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			d.mu.Lock()
			e := newEnd(c, fmt.Sprintf("db%d", len(d.conns)), d.Paused)
			f := d.OnConn
			if f != nil {
				f(len(d.conns), e)
			}
			d.conns = append(d.conns, e)
			d.mu.Unlock()
		}
	}()
}

// Port of the fake database.
func (d *FakeDB) Port() int { return d.L.Addr().(*net.TCPAddr).Port }

// Conns lists the connections so far.
func (d *FakeDB) Conns() []*End {
	d.mu.Lock()
	defer d.mu.Unlock()
	return append([]*End{}, d.conns...)
}

// N is the number of connections so far.
func (d *FakeDB) N() int { d.mu.Lock(); defer d.mu.Unlock(); return len(d.conns) }

// CatchUp waits until everything that connected before has been accepted: connections are accepted in order.
func (d *FakeDB) CatchUp(t *mon.T) {
	for _, l := range append([]net.Listener{d.L}, d.more...) {
		d.catchUp(t, l.Addr().String())
	}
}

func (d *FakeDB) catchUp(t *mon.T, addr string) {
	c, err := net.Dial("tcp", addr)
	if err != nil {
		t.Inconclusive("dial: %v", err)
	}
	defer c.Close()
	t.Await("catch-up", "the database accepts", func() bool {
		d.mu.Lock()
		defer d.mu.Unlock()
		for i, e := range d.conns {
			if e.C.RemoteAddr().String() == c.LocalAddr().String() {
				e.Close()
				d.conns = append(d.conns[:i:i], d.conns[i+1:]...)
				return true
			}
		}
		return false
	})
}

// Close ends everything.
func (d *FakeDB) Close() {
	_ = d.L.Close()
	for _, l := range d.more {
		_ = l.Close()
	}
	for _, e := range d.Conns() {
		e.Close()
	}
}

// fixedConfig is a ConfigStore of the harness.
type fixedConfig struct {
	mu   sync.Mutex
	cfg  *server.Config
	err  error
	gets int
}

func (c *fixedConfig) Get() (*server.Config, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.gets++
	return c.cfg, c.err
}
func (c *fixedConfig) Set(cfg *server.Config) { c.mu.Lock(); c.cfg = cfg; c.mu.Unlock() }
func (c *fixedConfig) Gets() int              { c.mu.Lock(); defer c.mu.Unlock(); return c.gets }
func (c *fixedConfig) Subscribe(ch chan<- *server.Config, checks ...server.ConfigChangedCheckFn) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.cfg != nil {
		select {
		case ch <- c.cfg:
		default:
		}
	}
	return nil
}
func (c *fixedConfig) Unsubscribe(ch chan<- *server.Config) {}

// World is a server in front of a fake database.
type World struct {
	t      *mon.T
	DB     *FakeDB
	Cfg    *fixedConfig
	Srv    *server.Server
	L      net.Listener
	served chan struct{}
	err    error
	fds    int
}

func newWorld(t *mon.T, dbName string) *World {
	w := &World{t: t, fds: countFDs()}
	w.DB = newFakeDBSomewhere(t)
	w.Cfg = &fixedConfig{cfg: &server.Config{DatabaseURL: w.DB.URL(t.Rand, dbName)}}
	w.serve()
	return w
}

func dbURL(r *rand.Rand, port int, name string) string {
	return fmt.Sprintf("postgres://u@127.0.0.1:%d/%s", port, pct(r, name, ""))
}

func (w *World) serve() {
	w.Srv = server.NewServer(w.Cfg)
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		w.t.Inconclusive("listen: %v", err)
	}
	w.L = l
	w.served = make(chan struct{})
	go func() { w.err = w.Srv.Serve(l); close(w.served) }()
}

// Dial makes a client.
func (w *World) Dial(name string, paused bool) *End {
	c, err := net.Dial("tcp", w.L.Addr().String())
	if err != nil {
		w.t.Fail("dial", "the server does not accept a client: %v", err)
	}
	e := newEnd(c, name, paused)
	w.t.Defer(e.Close)
	return e
}

// Connect makes an established session: client and database endpoints, start-up packet delivered.
func (w *World) Connect(dbName string) (*End, *End) {
	n := w.DB.N()
	c := w.Dial("client", false)
	st := wire.Startup(wire.V3, []wire.Param{{Name: "user", Value: "u"}, {Name: "database", Value: dbName}})
	c.Send(st, pieces(w.t.Rand, 0))
	w.t.Await("connect", "the start-up packet reaches the database", func() bool {
		return c.Over() || w.DB.N() > n && w.DB.Conns()[n].Len() >= len(st)
	})
	if c.Over() {
		w.t.Fail("connect", "the client is disconnected: %v", c.Err())
	}
	d := w.DB.Conns()[n]
	if !bytes.Equal(d.Got(), st) {
		w.t.Fail("startup", "the database receives another start-up packet: %s", firstDiff(d.Got(), st))
	}
	d.mu.Lock()
	d.got = nil
	d.mu.Unlock()
	return c, d
}

// Shutdown closes the server and checks that nothing is left.
func (w *World) Shutdown() {
	done := make(chan struct{})
	go func() { _ = w.Srv.Close(); close(done) }()
	w.t.AwaitChan("close", "Close returns", done)
	w.t.AwaitChan("serve-ends", "Serve returns after Close", w.served)
	w.t.NoProductGoroutines("leak", "after the server was closed")
}

// countFDs counts open sockets of this process.
func countFDs() int {
	n := 0
	es, _ := os.ReadDir("/proc/self/fd")
	for _, e := range es {
		if l, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && len(l) > 7 && l[:7] == "socket:" {
			n++
		}
	}
	return n
}

// sitesOf lists the yield points of the given files, in order.
func sitesOf(r *mon.Run, prefixes ...string) []int {
	var out []int
	for s, name := range r.Env.Sites {
		for _, p := range prefixes {
			if len(name) >= len(p) && name[:len(p)] == p {
				out = append(out, s)
				break
			}
		}
	}
	sort.Ints(out)
	return out
}

// randomPlan makes a schedule: noise and some delayed sites.
func randomPlan(r *rand.Rand, sites []int) sched.Plan {
	p := sched.Plan{Seed: r.Uint64()}
	switch r.IntN(5) {
	case 0:
	case 1:
		p.Noise, p.MaxSleepUS = 300, 300
	case 2:
		p.Noise, p.MaxSleepUS = 4000, 60
	case 3:
		p.Noise = 20000
	default:
		p.Noise, p.MaxSleepUS = 60, 5000
	}
	if len(sites) > 0 {
		for k := r.IntN(4); k > 0; k-- {
			p.Points = append(p.Points, sched.Point{Site: sites[r.IntN(len(sites))], First: 1 + r.IntN(6), Count: 1 + r.IntN(4), DelayUS: 500 + r.IntN(30000)})
		}
	}
	return p
}

// sameStream checks that got is exactly want.
func sameStream(t *mon.T, key, what string, got, want []byte) {
	if !bytes.Equal(got, want) {
		t.Fail(key, "%s: got/want %s", what, firstDiff(got, want))
	}
}

// deliver waits until e has received want (which comes after skip bytes) or something that is no prefix of it.
func deliver(t *mon.T, key, what string, e *End, want []byte) {
	checked := 0
	t.Await(key+":delivery", what+" is delivered", func() bool {
		got := e.Got()
		n := min(len(got), len(want))
		if !bytes.Equal(got[checked:n], want[checked:n]) {
			return true
		}
		checked = n
		return len(got) >= len(want) || e.Over()
	})
	got := e.Got()
	if len(got) > len(want) {
		t.Fail(key, "%s: more than was sent arrives: %s", what, firstDiff(got, want))
	}
	sameStream(t, key, what, got, want)
}

var errEOF = io.EOF

func sleepUS(n int) { time.Sleep(time.Duration(n) * time.Microsecond) }
