package props

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"net"
	"runtime/metrics"
	"strings"
	"sync/atomic"

	"github.com/hired/gevulot/pkg/server"

	"verif.local/harness/mon"
	"verif.local/harness/wire"
)

// ---- C07 ----

// relay drives one established session.
func relay(t *mon.T, w *World, c, d *End, dbName string) (int, int) {
	r := t.Rand
	maxLen := []int{40, 600, 6000, 70000}[r.IntN(4)]
	if t.Int("big") == 1 {
		maxLen = 200000
	}
	var cs, ds []byte
	key := func(dir string) string { return "relay-" + dir }
	msgs := 0
	one := func(backend bool) wire.Stream {
		n := 1 + r.IntN(8)
		if maxLen >= 70000 {
			n = 1 + r.IntN(4)
		}
		s := wire.GenStream(r, backend, n, maxLen)
		if r.IntN(6) == 0 { // a burst larger than any queue
			for k := 0; k < 300; k++ {
				s = append(s, wire.GenStream(r, backend, 1, 30)...)
			}
		}
		if t.Int("big") == 1 && r.IntN(2) == 0 {
			s = append(s, wire.Gen{Kind: "CopyData", Bytes: wire.Std('d', bytes.Repeat([]byte{byte(r.Uint32())}, 1<<20+r.IntN(1000)))})
		}
		msgs += len(s)
		for _, m := range s {
			t.Case(len(m.Bytes) > 5, m.Kind, m.Bytes)
		}
		return s
	}
	lock := r.IntN(3) > 0
	turns := 2 + r.IntN(6)
	var cAll, dAll []byte
	if lock {
		for i := 0; i < turns; i++ {
			if i > 0 || r.IntN(2) == 0 {
				s := one(false)
				cs = append(cs, s.Bytes()...)
				t.Await("client-idle", "the client can send", c.Idle)
				c.Send(s.Bytes(), pieces(r, r.IntN(5)))
				deliver(t, key("to-database"), fmt.Sprintf("turn %d: %s", i, s), d, cs)
			}
			s := one(true)
			ds = append(ds, s.Bytes()...)
			t.Await("database-idle", "the database can send", d.Idle)
			d.Send(s.Bytes(), pieces(r, r.IntN(5)))
			if r.IntN(4) == 0 { // something from the client at the same time
				s := one(false)
				cs = append(cs, s.Bytes()...)
				t.Await("client-idle", "the client can send", c.Idle)
				c.Send(s.Bytes(), pieces(r, r.IntN(5)))
			}
			deliver(t, key("to-client"), fmt.Sprintf("turn %d: %s", i, s), c, ds)
			t.Count("turns", 1)
		}
		deliver(t, key("to-database"), "everything", d, cs)
	} else {
		var csm, dsm wire.Stream
		for i := 0; i < turns; i++ {
			csm = append(csm, one(false)...)
			dsm = append(dsm, one(true)...)
		}
		cAll, dAll = csm.Bytes(), dsm.Bytes()
		c.Send(cAll, pieces(r, r.IntN(5)))
		d.Send(dAll, pieces(r, r.IntN(5)))
		deliver(t, key("to-database"), csm.String(), d, cAll)
		deliver(t, key("to-client"), dsm.String(), c, dAll)
		cs, ds = cAll, dAll
		t.Count("free_running", 1)
	}
	t.Count("messages", msgs)
	t.Count("bytes_relayed", len(cs)+len(ds))
	t.Sample("lock-step %v, %d turns, %d messages, %d+%d bytes", lock, turns, msgs, len(cs), len(ds))
	return len(cs), len(ds)
}

func c07Relay(t *mon.T) {
	w := newWorld(t, "db")
	for i := 0; i < t.Int("n"); i++ {
		c, d := w.Connect("db")
		nc, nd := relay(t, w, c, d, "db")
		// The client says goodbye.
		x := wire.Std('X', nil)
		c.Send(x, pieces(t.Rand, 0))
		t.Await("terminate", "Terminate reaches the database", func() bool { return d.Len() >= nc+5 || d.Over() })
		if got := d.Got(); len(got) != nc+5 || !bytes.Equal(got[nc:], x) {
			t.Fail("terminate", "Terminate arrives as %s", clip(got[min(nc, len(got)):]))
		}
		if t.Rand.IntN(3) == 0 {
			// Terminate is a message like any other for a proxy: what either side sends after it is relayed, too.
			late := wire.GenStream(t.Rand, true, 1+t.Rand.IntN(4), 600)
			had := append([]byte(nil), c.Got()...)
			t.Await("database-idle", "the database can send", d.Idle)
			d.Send(late.Bytes(), pieces(t.Rand, t.Rand.IntN(5)))
			deliver(t, "relay-to-client", "after Terminate: "+late.String(), c, append(had, late.Bytes()...))
			nd += len(late.Bytes())
			more := wire.GenStream(t.Rand, false, 1+t.Rand.IntN(4), 600)
			had = append([]byte(nil), d.Got()...)
			t.Await("client-idle", "the client can send", c.Idle)
			c.Send(more.Bytes(), pieces(t.Rand, t.Rand.IntN(5)))
			deliver(t, "relay-to-database", "after Terminate: "+more.String(), d, append(had, more.Bytes()...))
			t.Count("after_terminate", 1)
		}
		if c.Len() != nd {
			t.Fail("relay-to-client", "%d surplus bytes arrive at the client", c.Len()-nd)
		}
		d.Close()
		t.Await("end", "the client is disconnected", c.Over)
		c.Close()
	}
	w.Shutdown()
}

// ---- C08, C09, C10: start-up ----

type startup struct {
	version int
	params  []wire.Param
}

func randomParams(r *rand.Rand, n int) []wire.Param {
	var ps []wire.Param
	for i := 0; i < n; i++ {
		name := []string{"user", "application_name", "client_encoding", "options", "replication", "DateStyle", "search_path", "_pq_.x", "Database", "databas", "database2", "DATABASE", "dbname", "db", "User", "database\t"}[r.IntN(16)]
		switch r.IntN(6) {
		case 0, 1:
			name = wire.Text(r, 30)
		case 2:
			name = wire.Word(r)
		}
		if name == "" || name == "database" {
			name = "x"
		}
		ps = append(ps, wire.Param{Name: name, Value: wire.Text(r, 300)})
	}
	return ps
}

func dbNames(r *rand.Rand) string {
	for {
		s := uriText(r)
		switch r.IntN(6) {
		case 0:
			s = wire.Word(r)
		case 1, 2:
			s = []string{"hired_dev", "postgres", "Db", "db", "my db", "žluť", "a/b", "db%41", "db+x", "\"q\"", "template1"}[r.IntN(11)]
		}
		if s != "" && !strings.HasPrefix(s, "/") && strings.IndexByte(s, 0) < 0 {
			return s
		}
	}
}

func shuffle(r *rand.Rand, ps []wire.Param) {
	r.Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
}

func c08Startup(t *mon.T) {
	r := t.Rand
	name := dbNames(r)
	w := newWorld(t, name)
	greet := t.Int("greet") == 1
	for i := 0; i < t.Int("n"); i++ {
		ps := randomParams(r, wire.Count(r, 40))
		if r.IntN(40) == 0 { // more parameters than any limit the code knows
			k := wire.Thresholds(1, 3000)
			for j := max(0, k[r.IntN(len(k))]+r.IntN(5)-2); j > 0; j-- {
				ps = append(ps, wire.Param{Name: fmt.Sprintf("p%d", j), Value: []string{"", "v", "on"}[r.IntN(3)]})
			}
			t.Count("many_parameters", 1)
		}
		ps = append(ps, wire.Param{Name: "database", Value: name})
		if r.IntN(8) == 0 {
			ps = append(ps, wire.Param{Name: "database", Value: name})
		}
		if r.IntN(6) == 0 { // repeated parameters
			ps = append(ps, ps[r.IntN(len(ps))], ps[r.IntN(len(ps))])
		}
		if r.IntN(10) == 0 {
			ps = append(ps, wire.Param{Name: "options", Value: strings.Repeat("-c x=y ", 1000+r.IntN(9000))})
		}
		if r.IntN(10) > 0 {
			ps = append(ps, wire.Param{Name: "user", Value: wire.Text(r, 30)})
		}
		if r.IntN(3) > 0 {
			shuffle(r, ps)
		}
		st := wire.Startup(wire.V3, ps)
		label := fmt.Sprintf("database %q, start-up packet %s", name, clip(st))
		n := w.DB.N()
		hello := wire.GenStream(r, true, 1+r.IntN(4), 200).Bytes()
		w.DB.mu.Lock()
		w.DB.OnConn = nil
		if greet { // the database speaks first
			w.DB.OnConn = func(_ int, e *End) { e.Send(hello, pieces(mon.NewRand(t.Seed), 0)) }
		}
		w.DB.mu.Unlock()
		c := w.Dial("client", false)
		var want []byte
		if r.IntN(2) == 0 {
			c.Send(wire.SSLRequest(), pieces(r, r.IntN(5)))
			t.Await("ssl", "the SSL request is answered", func() bool { return c.Len() > 0 || c.Over() })
			if !bytes.Equal(c.Got(), []byte("N")) {
				t.Fail("ssl", "the SSL request is answered with %q (connection over: %v)", c.Got(), c.Over())
			}
			want = []byte("N")
			if w.DB.N() != n {
				t.Fail("early", "the database is contacted before the start-up packet arrived")
			}
		}
		// The client may go on without waiting.
		ahead := []byte{}
		if r.IntN(3) == 0 {
			ahead = wire.GenStream(r, false, 1+r.IntN(4), 300).Bytes()
		}
		t.Await("client-idle", "the client can send", c.Idle)
		c.Send(append(append([]byte{}, st...), ahead...), pieces(r, r.IntN(5)))
		t.Await("startup", "the start-up packet reaches the database: "+label, func() bool {
			return c.Over() || w.DB.N() > n && w.DB.Conns()[n].Len() >= len(st)
		})
		if w.DB.N() != n+1 {
			t.Fail("admit", "%d database connections instead of one, client disconnected: %v; %s", w.DB.N()-n, c.Over(), label)
		}
		d := w.DB.Conns()[n]
		deliver(t, "startup", "start-up packet (and what follows) at the database", d, append(append([]byte{}, st...), ahead...))
		if !greet {
			d.Send(hello, pieces(r, r.IntN(5)))
		}
		want = append(want, hello...)
		deliver(t, "answer", "the database's answer at the client", c, want)
		t.Count("startup_packets", 1)
		t.Count("startup_parameters", len(ps))
		t.Case(len(ps) > 1, st)
		if i < 2 {
			t.Sample("%s", label)
		}
		c.Close()
		t.Await("end", "the database connection ends", d.Over)
		d.Close()
	}
	w.Shutdown()
}

// nearMiss makes a name similar to a name.
func nearMiss(r *rand.Rand, s string) string {
	switch r.IntN(15) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return s + " "
	case 2:
		return " " + s
	case 3:
		return s[:len(s)-1]
	case 4:
		return s + string(byte('a'+r.IntN(26)))
	case 5:
		return s + s
	case 6:
		return pct(r, s, "")
	case 7:
		return "/" + s
	case 8:
		return strings.ToLower(s)
	case 9:
		b := []byte(s)
		b[r.IntN(len(b))] ^= 1 << r.IntN(7)
		if bytes.IndexByte(b, 0) >= 0 {
			return s + "x"
		}
		return string(b)
	case 10:
		return "postgres"
	case 11:
		return s[1:]
	case 12:
		return "\"" + s + "\""
	case 14:
		if w := wire.Word(r); w != s {
			return w
		}
		return s + "_"
	default:
		return strings.TrimSpace(s)
	}
}

func c09Gate(t *mon.T) {
	r := t.Rand
	name := dbNames(r)
	w := newWorld(t, name)
	for i := 0; i < t.Int("n"); i++ {
		ps := randomParams(r, r.IntN(5))
		for k := range ps { // the right name in the wrong place
			if r.IntN(3) == 0 && ps[k].Name != "user" {
				ps[k].Value = []string{name, "database=" + name, "-c database=" + name, "dbname=" + name}[max(0, r.IntN(6)-2)]
			}
		}
		how := ""
		var dbs []string
		switch r.IntN(8) {
		case 0:
			how = "exact"
			dbs = []string{name}
		case 1:
			how = "missing"
		case 2:
			how = "empty"
			dbs = []string{""}
		case 3:
			how = "other then exact"
			dbs = []string{nearMiss(r, name), name}
		case 4:
			how = "exact then other"
			dbs = []string{name, nearMiss(r, name)}
		case 5:
			how = "exact then empty"
			dbs = []string{name, ""}
			if r.IntN(2) == 0 {
				how, dbs = "exact, other, exact, other", []string{name, nearMiss(r, name), name, nearMiss(r, name)}
			}
		default:
			how = "near miss"
			dbs = []string{nearMiss(r, name)}
		}
		user := "someone"
		if r.IntN(3) == 0 {
			user = nearMiss(r, name)
		}
		if r.IntN(6) > 0 {
			ps = append(ps, wire.Param{Name: "user", Value: user})
		}
		shuffle(r, ps)
		for _, d := range dbs { // keep their order, at random positions
			at := r.IntN(len(ps) + 1)
			last := 0
			for k, p := range ps {
				if p.Name == "database" {
					last = k + 1
				}
			}
			at = max(at, last)
			ps = append(ps[:at:at], append([]wire.Param{{Name: "database", Value: d}}, ps[at:]...)...)
		}
		st := wire.Startup(wire.V3, ps)
		// PostgreSQL: the last database parameter counts; an empty or missing one means the user's name. Values end at
		// the first parameter with an empty name.
		pick, seen, who := "", 0, ""
		for _, p := range ps {
			switch p.Name {
			case "database":
				pick = p.Value
				seen++
			case "user":
				who = p.Value
			}
		}
		implied := pick == ""
		if implied {
			pick = who
		}
		allowed := pick == name
		must := seen > 0 && !implied && allowed
		for _, d := range dbs {
			must = must && d == name
		}
		label := fmt.Sprintf("configured %q, %s: parameters %.300q", name, how, ps)
		n := w.DB.N()
		c := w.Dial("client", false)
		want := 0
		if r.IntN(3) == 0 {
			c.Send(wire.SSLRequest(), pieces(r, 0))
			t.Await("ssl", "the SSL request is answered", func() bool { return c.Len() > 0 || c.Over() })
			want = 1
		}
		t.Await("client-idle", "the client can send", c.Idle)
		payload := append([]byte{}, st...)
		if r.IntN(2) == 0 {
			payload = append(payload, wire.Std('Q', wire.B{}.Str("SELECT secret"))...)
		}
		c.Send(payload, pieces(r, r.IntN(5)))
		t.Await("decision", "the client is admitted or disconnected: "+label, func() bool {
			return c.Over() || w.DB.N() > n && w.DB.Conns()[n].Len() >= len(st)
		})
		if !allowed {
			t.Await("refuse", "the client is disconnected: "+label, c.Over)
			if w.DB.N() > n {
				d := w.DB.Conns()[n]
				t.Await("db-end", "the database connection ends", d.Over)
				if d.Len() > 0 {
					t.Fail("gate", "a client that asks for %q reaches the database (%d bytes): %s", pick, d.Len(), label)
				}
			}
			if g := c.Got(); len(g) > want {
				t.Fail("answer", "the refused client receives %s: %s", clip(g), label)
			}
			t.Count("refused", 1)
		} else if w.DB.N() > n {
			d := w.DB.Conns()[n]
			t.Count("admitted", 1)
			c.Close()
			t.Await("db-end", "the database connection ends", d.Over)
			d.Close()
		} else {
			if must {
				t.Fail("locked-out", "a client that asks for the configured database is disconnected: %s", label)
			}
			t.Count("refused_ambiguous", 1)
		}
		c.Close()
		t.Case(true, name, st)
		if i < 2 {
			t.Sample("%s -> allowed %v", label, allowed)
		}
	}
	w.Shutdown()
}

func stackBytes() uint64 {
	s := []metrics.Sample{{Name: "/memory/classes/heap/stacks:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

// c10Negotiate sends sequences of negotiation packets.
func c10Negotiate(t *mon.T) {
	r := t.Rand
	w := newWorld(t, "db")
	good := wire.Startup(wire.V3, []wire.Param{{Name: "user", Value: "u"}, {Name: "database", Value: "db"}})
	for i := 0; i < t.Int("n"); i++ {
		n := w.DB.N()
		c := w.Dial("client", false)
		ssl := r.IntN(3)
		if ssl == 2 {
			ssl = r.IntN(2)
		}
		for k := 0; k < ssl; k++ {
			req := wire.SSLRequest()
			if r.IntN(4) == 0 { // with something behind the code, as a later protocol might send
				req = wire.Startup(wire.SSLReq, []wire.Param{{Name: "user", Value: "u"}, {Name: "database", Value: wire.Text(r, 20)}})
			}
			c.Send(req, pieces(r, r.IntN(5)))
			t.Await("ssl", "the SSL request is answered", func() bool { return c.Len() > k || c.Over() })
			if got := string(c.Got()); got != strings.Repeat("N", k+1) {
				t.Fail("ssl", "SSL request %d is answered with %q in total, connection over: %v", k+1, got, c.Over())
			}
			t.Await("client-idle", "the client can send", c.Idle)
		}
		kind := r.IntN(9)
		var p []byte
		how := ""
		accept, partial := false, false
		switch kind {
		case 0, 1:
			p, how, accept = good, "valid start-up", true
		case 2:
			v := []int{wire.GSSReq, wire.Cancel, wire.V2, wire.V3dot2, 0, -1, 196607, 196609, 0x00030000 + 1 + r.IntN(9998), 80877102, 80877105, 0x00040000}[r.IntN(12)]
			if r.IntN(3) == 0 {
				v = int(int32(wire.Number(r)))
				if v == wire.V3 || v == wire.SSLReq {
					v++
				}
			}
			if r.IntN(2) == 0 {
				p = wire.Startup(v, []wire.Param{{Name: "user", Value: "u"}, {Name: "database", Value: "db"}})
			} else {
				p = wire.Start(wire.B{}.I32(v))
			}
			how = fmt.Sprintf("version %d", v)
		case 3:
			p, how = wire.Start(wire.B{}.I32(wire.Cancel).I32(1234).I32(5678)), "cancel request"
		case 4:
			p, how = wire.B{}.I32([]int{0, 1, 2, 3, -1, -1 << 31, -4}[r.IntN(7)]).Raw(wire.Bytes(r, 30)), "impossible length"
		case 5:
			p, how = wire.Start(wire.B{}.Raw(wire.Bytes(r, 3))), "no version"
			if len(p) > 7 {
				p = wire.Start(p[4:7])
			}
		case 6: // a valid packet damaged
			body := append([]byte{}, good[4:]...)
			switch r.IntN(4) {
			case 0:
				p = wire.Start(body[:4+r.IntN(len(body)-4-1)+1])
				if bytes.HasSuffix(p, []byte{0, 0}) || len(p) == 8 {
					p = wire.Start(body[:9])
				}
			case 1:
				p = wire.Start(append(body, wire.Bytes(r, 20)...))
				if len(p) == len(good) {
					p = wire.Start(append(body, 'x'))
				}
			case 2:
				p = wire.Start(body[:len(body)-1])
			default:
				p = wire.Start(append(wire.B{}.I32(wire.V3), "user"...))
			}
			how = "malformed parameters"
		case 7: // stops in the middle
			p, how, partial = good[:r.IntN(len(good))], "half a packet, then the client leaves", true
		default:
			p, how = []byte("GET / HTTP/1.1\r\nHost: example.com\r\n\r\n"), "HTTP"
			partial = true // its length field is huge: the proxy may wait for the rest
		}
		label := fmt.Sprintf("%d SSL requests, then %s %s", ssl, how, clip(p))
		c.Send(p, pieces(r, r.IntN(5)))
		if partial {
			t.Await("client-idle", "the client can send", func() bool { return c.Idle() })
			if r.IntN(2) == 0 {
				c.Close()
			} else {
				c.CloseWrite()
			}
		}
		if accept {
			t.Await("accept", "the client is admitted: "+label, func() bool { return c.Over() || w.DB.N() > n && w.DB.Conns()[n].Len() >= len(p) })
			if w.DB.N() == n {
				t.Fail("accept", "the client is disconnected: %s", label)
			}
			d := w.DB.Conns()[n]
			sameStream(t, "accept", "start-up packet at the database", d.Got(), p)
			d.Send([]byte(wire.Std('R', wire.B{}.I32(0))), pieces(r, 0))
			deliver(t, "accept-answer", "answer at the client", c, append(bytes.Repeat([]byte("N"), ssl), wire.Std('R', wire.B{}.I32(0))...))
			c.Close()
			t.Await("db-end", "the database connection ends", d.Over)
			d.Close()
			t.Count("accepted", 1)
		} else {
			t.Await("refuse", "the client is disconnected: "+label, c.Over)
			if w.DB.N() != n {
				t.Fail("contact", "the database is contacted: %s", label)
			}
			if got := c.Got(); len(got) > ssl || strings.Trim(string(got), "N") != "" {
				t.Fail("answer", "the client receives %s: %s", clip(got), label)
			}
			t.Count("refused", 1)
		}
		c.Close()
		t.Case(true, label, p)
		if i < 3 {
			t.Sample("%s", label)
		}
	}
	t.Await("gone", "no session is left", func() bool { return sessionsLeft() == 0 })
	w.Shutdown()
}

// sessionsLeft counts goroutines of sessions.
func sessionsLeft() int {
	n := 0
	for _, g := range mon.Product() {
		if strings.Contains(g.Text, "server.(*Session)") {
			n++
		}
	}
	return n
}

// c10Flood repeats SSL requests for ever.
func c10Flood(t *mon.T) {
	r := t.Rand
	w := newWorld(t, "db")
	c := w.Dial("client", false)
	base := stackBytes()
	limit := t.Int("n")
	burst := []int{1, 10, 1000}[r.IntN(3)]
	sent := 0
	for sent < limit && !c.Over() {
		k := min(burst, limit-sent)
		c.Send(bytes.Repeat(wire.SSLRequest(), k), pieces(r, 0))
		sent += k
		t.Await("ssl", "SSL requests are answered or the connection ends", func() bool { return c.Over() || c.Idle() && c.Len() >= sent })
		if b := stackBytes(); b > base+(64<<20) {
			t.Fail("resources", "after %d SSL requests the goroutine stacks take %d bytes (%d at the start)", sent, b, base)
		}
		if got := c.Got(); len(got) > sent || strings.Trim(string(got), "N") != "" {
			t.Fail("answer", "%d SSL requests are answered with %s", sent, clip(got))
		}
	}
	t.Case(true, burst, sent, c.Len())
	t.Count("ssl_requests", sent)
	t.Sample("bursts of %d, %d SSL requests sent, %d answered", burst, sent, c.Len())
	if !c.Over() {
		t.Fail("endless", "the connection is still negotiating after %d SSL requests", sent)
	}
	if w.DB.N() > 0 {
		t.Fail("contact", "the database is contacted")
	}
	c.Close()
	t.Await("gone", "the session ends", func() bool { return sessionsLeft() == 0 })
	w.Shutdown()
}

// ---- C12 ----

// talker is a good session that checks every byte.
type talker struct {
	c, d   *End
	cs, ds []byte
	id     int
	turn   int
}

func (k *talker) tag(r *rand.Rand, dir string) string {
	k.turn++
	return fmt.Sprintf("<%s session %d turn %d %s>", dir, k.id, k.turn, strings.Repeat(string(rune('a'+k.id%26)), r.IntN(500)))
}

// step sends tagged messages both ways and waits for them.
func (k *talker) step(t *mon.T, r *rand.Rand) {
	q := wire.Std('Q', wire.B{}.Str(k.tag(r, "client")))
	for n := r.IntN(20); n > 0; n-- {
		q = append(q, wire.Std('d', []byte(k.tag(r, "client")))...)
	}
	a := wire.Std('C', wire.B{}.Str(k.tag(r, "database")))
	for n := r.IntN(20); n > 0; n-- {
		a = append(a, wire.Std('D', wire.B{}.I16(1).I32(3).Raw([]byte(fmt.Sprintf("%03d", k.id%1000))))...)
	}
	k.cs, k.ds = append(k.cs, q...), append(k.ds, a...)
	k.c.Send(q, pieces(r, r.IntN(5)))
	k.d.Send(a, pieces(r, r.IntN(5)))
}

func (k *talker) check(t *mon.T) {
	deliver(t, "isolation-to-database", fmt.Sprintf("session %d at its database connection", k.id), k.d, k.cs)
	deliver(t, "isolation-to-client", fmt.Sprintf("session %d at its client", k.id), k.c, k.ds)
}

func c12Isolation(t *mon.T) {
	r := t.Rand
	w := newWorld(t, "db")
	var good []*talker
	var bad []*End
	id := 0
	goodCfg := w.Cfg.cfg
	closedPort := func() int {
		l, _ := net.Listen("tcp", "127.0.0.1:0")
		p := l.Addr().(*net.TCPAddr).Port
		l.Close()
		return p
	}
	hang := newBacklog(t)
	newGood := func() {
		// Several clients at once, told apart by their start-up packets.
		n := w.DB.N()
		k := 1 + r.IntN(4)
		var cs []*End
		var sts [][]byte
		for i := 0; i < k; i++ {
			id++
			c := w.Dial(fmt.Sprintf("client %d", id), false)
			st := wire.Startup(wire.V3, []wire.Param{{Name: "user", Value: fmt.Sprintf("user%06d", id)}, {Name: "database", Value: "db"}})
			cs, sts = append(cs, c), append(sts, st)
			good = append(good, &talker{c: c, id: id})
		}
		for i, c := range cs {
			c.Send(sts[i], pieces(r, r.IntN(5)))
		}
		match := map[int]*End{}
		t.Await("connect", "all clients are connected to the database", func() bool {
			for _, d := range w.DB.Conns()[n:] {
				got := d.Got()
				for i, st := range sts {
					if match[i] == nil && bytes.Equal(got, st) {
						match[i] = d
					}
				}
			}
			return len(match) == k
		})
		if w.DB.N() != n+k {
			t.Fail("connect", "%d database connections for %d clients", w.DB.N()-n, k)
		}
		for i := range cs {
			g := good[len(good)-k+i]
			g.d = match[i]
			g.cs = append([]byte{}, sts[i]...)
		}
	}
	misbehave := func() string {
		mode := r.IntN(11)
		what := ""
		switch mode {
		case 0: // garbage instead of a start-up packet
			c := w.Dial("bad", false)
			b, k := hostile(r)
			what = "hostile start " + k
			c.Send(b, pieces(r, r.IntN(5)))
			bad = append(bad, c)
		case 1: // refused database
			c := w.Dial("bad", false)
			what = "other database"
			c.Send(wire.Startup(wire.V3, []wire.Param{{Name: "database", Value: "other"}}), pieces(r, 0))
			t.Await("refuse", "client is refused", c.Over)
			bad = append(bad, c)
		case 2, 3, 4, 5, 6, 7: // established, then something odd
			c, d := w.Connect("db")
			bad = append(bad, c)
			switch mode {
			case 2:
				b, k := hostile(r)
				what = "hostile client bytes " + k
				c.Send(b, pieces(r, r.IntN(5)))
			case 3:
				b, k := hostile(r)
				what = "hostile database bytes " + k
				d.Send(b, pieces(r, r.IntN(5)))
			case 4:
				what = "client reset"
				c.Send(wire.GenStream(r, false, 5, 100).Bytes(), pieces(r, 0))
				c.Reset()
			case 5:
				what = "database reset"
				d.Send(wire.GenStream(r, true, 5, 100).Bytes(), pieces(r, 0))
				d.Reset()
			case 6: // stalled for ever
				what = "stalled client"
				c.Pause()
				d.Send(bytes.Repeat(wire.Std('d', make([]byte, 60000)), 400), pieces(r, 0))
			default:
				what = "stalled database"
				d.Pause()
				c.Send(bytes.Repeat(wire.Std('d', make([]byte, 60000)), 400), pieces(r, 0))
			}
		case 8: // unreachable database
			what = "unreachable database"
			w.Cfg.Set(&server.Config{DatabaseURL: dbURL(r, closedPort(), "db")})
			c := w.Dial("bad", false)
			c.Send(wire.Startup(wire.V3, []wire.Param{{Name: "database", Value: "db"}}), pieces(r, 0))
			t.Await("refuse", "client of an unreachable database is disconnected", c.Over)
			w.Cfg.Set(goodCfg)
			bad = append(bad, c)
		case 9: // silent database host: the dial hangs
			what = "unresponsive database host"
			g := w.Cfg.Gets()
			w.Cfg.Set(&server.Config{DatabaseURL: dbURL(r, hang, "db")})
			c := w.Dial("bad", false)
			c.Send(wire.Startup(wire.V3, []wire.Param{{Name: "database", Value: "db"}}), pieces(r, 0))
			t.Await("get", "the session reads its configuration", func() bool { return w.Cfg.Gets() > g || c.Over() })
			w.Cfg.Set(goodCfg)
			bad = append(bad, c)
		default: // silence, or half a start-up packet
			what = "silent client"
			c := w.Dial("bad", false)
			if r.IntN(2) == 0 {
				c.Send(wire.SSLRequest()[:5], pieces(r, 0))
			}
			bad = append(bad, c)
		}
		return what
	}
	newGood()
	history := ""
	for i := 0; i < t.Int("n"); i++ {
		for _, k := range good {
			if r.IntN(3) > 0 {
				k.step(t, r)
			}
		}
		what := misbehave()
		history += what + "; "
		t.Count("misbehaviours", 1)
		for _, k := range good {
			k.check(t)
		}
		if len(good) < 12 && r.IntN(2) == 0 {
			newGood()
		}
		if r.IntN(5) == 0 && len(good) > 2 { // a good one leaves
			k := good[0]
			good = good[1:]
			k.c.Close()
			t.Await("end", "the database connection of a client that left ends", k.d.Over)
			k.d.Close()
		}
		t.Case(true, history)
	}
	newGood()
	for _, k := range good {
		k.step(t, r)
	}
	for _, k := range good {
		k.check(t)
	}
	t.Count("good_sessions", id)
	t.Sample("%d good sessions; %s", id, history)
	for _, k := range good {
		if k.c.Over() || k.d.Over() {
			t.Fail("disturbed", "session %d is ended although nothing is wrong with it", k.id)
		}
	}
	w.Shutdown()
}

// newBacklog returns a port whose backlog is full: connecting hangs.
func newBacklog(t *mon.T) int {
	port, closeFn, err := fullBacklog()
	if err != nil {
		t.Inconclusive("backlog: %v", err)
	}
	t.Defer(closeFn)
	return port
}

// ---- C13 ----

// messagesOf makes n messages of a size in one direction.
func messagesOf(n, size int, typ byte) []byte {
	var b []byte
	for i := 0; i < n; i++ {
		p := bytes.Repeat([]byte{byte(i)}, size)
		b = append(b, wire.Std(typ, p)...)
	}
	return b
}

const boundBytes = 192 << 20

func c13Stall(t *mon.T) {
	r := t.Rand
	w := newWorld(t, "db")
	c, d := w.Connect("db")
	from, to, dir := c, d, "client to database"
	if t.Int("rev") == 1 {
		from, to, dir = d, c, "database to client"
	}
	to.Pause() // takes effect after the read that is under way
	size := []int{1000, 16 << 10, 60 << 10, 700}[r.IntN(4)]
	unit := messagesOf(64, size, 'd')
	total := boundBytes / len(unit) * len(unit)
	// One write per unit, until told to stop.
	var stopped atomic.Bool
	var taken atomic.Int64
	done := make(chan struct{})
	go func() {
		defer close(done)
		for n := 0; n < total && !stopped.Load(); n += len(unit) {
			if _, err := from.C.Write(unit); err != nil {
				return
			}
			taken.Add(int64(len(unit)))
		}
	}()
	// The other direction works all the while.
	var back []byte
	for i := 0; i < 30; i++ {
		m := wire.GenStream(r, t.Int("rev") == 0, 1+r.IntN(10), 3000).Bytes()
		back = append(back, m...)
		t.Await("idle", "the other side can send", to.Idle)
		to.Send(m, pieces(r, r.IntN(5)))
		deliver(t, "blocked-by-other-direction", "messages in the other direction while "+dir+" is stalled", from, back)
		t.Count("messages_against_stall", 1)
		if i == 10 { // saturate first
			res, _ := t.AwaitSoft(func() bool {
				select {
				case <-done:
					return true
				default:
					return false
				}
			})
			if res == mon.TimedOut {
				t.Inconclusive("saturation")
			}
			if res == mon.Happened {
				t.Fail("unbounded", "with a receiver that does not read, the proxy takes all of %d bytes (%s)", total, dir)
			}
			t.Count("bytes_taken_while_stalled", int(taken.Load()))
		}
	}
	stopped.Store(true)
	to.Resume()
	t.AwaitChan("resume", "the sender goes on after the receiver resumed", done)
	sent := int(taken.Load())
	t.Await("resume-delivery", "everything is delivered after resuming", func() bool { return to.Len() >= sent || to.Over() })
	got := to.Got()
	if len(got) != sent {
		t.Fail("resume", "%d of %d bytes are delivered after resuming", len(got), sent)
	}
	for at := 0; at < len(got); at += len(unit) {
		if !bytes.Equal(got[at:at+len(unit)], unit) {
			t.Fail("resume", "the stream differs after resuming at byte %d: %s", at, firstDiff(got[at:at+len(unit)], unit))
		}
	}
	t.Case(true, dir, size, sent)
	t.Sample("%s stalled, messages of %d bytes: %d bytes taken, then all delivered", dir, size, sent)
	c.Close()
	t.Await("end", "the database connection ends", d.Over)
	w.Shutdown()
}

// c13Pipeline: the client sends everything while it reads; the database answers each message before it reads the next.
func c13Pipeline(t *mon.T) {
	r := t.Rand
	w := newWorld(t, "db")
	c, d := w.Connect("db")
	d.Pause()
	d.mu.Lock()
	d.closed = false
	d.mu.Unlock()
	// A first message lets the background reader of the database end park; it is read by hand from then on.
	n := t.Int("n")
	size := []int{5, 200, 3000}[r.IntN(3)]
	factor := []int{1, 3, 20}[r.IntN(3)]
	var q, want []byte
	for i := 0; i < n; i++ {
		q = append(q, wire.Std('Q', wire.B{}.Str(fmt.Sprintf("%d %s", i, strings.Repeat("q", r.IntN(size+1)))))...)
	}
	frames, _, _ := wire.Frames(q)
	answer := func(f []byte) []byte {
		var a []byte
		for k := 0; k < factor; k++ {
			a = append(a, wire.Std('d', f[5:])...)
		}
		return append(a, wire.Std('Z', []byte{'I'})...)
	}
	for _, f := range frames {
		want = append(want, answer(f)...)
	}
	d.Resume()
	answered := 0
	stop := make(chan struct{})
	t.Defer(func() { close(stop) })
	// The database's loop works on what its end has received so far, one message at a time, and blocks in its own writes.
	d.Pause()
	go func() {
		var buf []byte
		at := 0
		tmp := make([]byte, 4096)
		for answered < n {
			fs, _, ok := wire.Frames(buf[at:])
			if !ok {
				return
			}
			if len(fs) == 0 {
				// bytes read by the background reader before it was paused come first
				k := 0
				var err error
				if g := d.Len(); g > len(buf) {
					buf = append(buf[:0:0], d.Got()...)
					continue
				}
				k, err = d.C.Read(tmp)
				d.mu.Lock()
				d.got = append(d.got, tmp[:k]...)
				buf = append(buf[:0:0], d.got...)
				d.mu.Unlock()
				if err != nil {
					return
				}
				continue
			}
			for _, f := range fs {
				if _, err := d.C.Write(answer(f)); err != nil {
					return
				}
				at += len(f)
				answered++
			}
		}
	}()
	c.Send(q, pieces(r, r.IntN(5)))
	deliver(t, "pipeline", fmt.Sprintf("answers to %d pipelined requests (database answers each before it reads on, answers %d times larger)", n, factor), c, want)
	t.Count("pipelined_requests", n)
	t.Case(true, n, size, factor, len(want))
	t.Sample("%d pipelined requests of up to %d bytes, answers %d times", n, size, factor)
	c.Close()
	d.Close()
	w.Shutdown()
}

func init() {
	files := []string{"pkg/server/session.go"}
	mon.Register(&mon.Property{
		ID: "C07",
		Rule: "sessions over loopback TCP with generated streams of all frontend/backend message kinds, lock-step and free-running, random chunking, under random schedule plans (noise, delayed statements); every message with a body is a case, distinct by bytes. " +
			"Oracle: byte equality of both streams; completeness by quiescence.",
		Assumptions: []string{"loopback TCP delivers"},
		Scenarios:   map[string]func(*mon.T){"relay": c07Relay, "sizes": c07Sizes},
		MinDistinct: 2000,
		Plan: func(r *mon.Run) {
			sites := sitesOf(r, files...)
			var ts []mon.Task
			for i := 0; i < r.Pick(480, 5000); i++ {
				tk := r.Task("relay", map[string]int{"n": 4})
				if i%16 == 0 {
					tk.P["big"] = 1
					tk.P["n"] = 1
				}
				tk.Plan = randomPlan(r.Rand, sites)
				ts = append(ts, tk)
			}
			for i := 0; i < r.Pick(64, 640); i++ {
				tk := r.Task("sizes", map[string]int{"n": 6})
				if i%8 == 0 {
					tk.P = map[string]int{"n": 1, "tiny": r.Pick(70000, 300000)}
				}
				if i%32 == 1 {
					tk.P = map[string]int{"n": 1, "huge": 1}
				}
				ts = append(ts, tk)
			}
			r.Do(ts)
		},
	})
	mon.Register(&mon.Property{
		ID:          "C08",
		Rule:        "generated start-up packets naming the configured database (number, order, repetition, size, encoding of parameters; with/without SSL request; pipelined messages behind; database greeting first); distinct by packet. Oracle: bytes and connections at the fake database, bytes at the client.",
		Scenarios:   map[string]func(*mon.T){"startup": c08Startup},
		MinDistinct: 500,
		Plan: func(r *mon.Run) {
			sites := sitesOf(r, files...)
			var ts []mon.Task
			for i := 0; i < r.Pick(600, 6000); i++ {
				tk := r.Task("startup", map[string]int{"n": 12, "greet": i % 3 / 2})
				tk.Plan = randomPlan(r.Rand, sites)
				ts = append(ts, tk)
			}
			r.Do(ts)
		},
	})
	mon.Register(&mon.Property{
		ID:          "C09",
		Forgetful:   true,
		Rule:        "configured names (plain, percent-encoded, non-ASCII) x start-up packets naming it exactly, nearly (case, padding, prefix, encoding), not at all, empty, repeatedly; distinct by name and packet. Oracle: PostgreSQL's selection rule; bytes at the fake database; end of the client connection.",
		Assumptions: []string{"a name implied by the user name, and a repeated parameter whose last value is right, may be admitted or refused"},
		Scenarios:   map[string]func(*mon.T){"gate": c09Gate},
		MinDistinct: 1000,
		Plan: func(r *mon.Run) {
			sites := sitesOf(r, files...)
			var ts []mon.Task
			for i := 0; i < r.Pick(640, 6000); i++ {
				tk := r.Task("gate", map[string]int{"n": 40})
				if i%2 == 0 {
					tk.Plan = randomPlan(r.Rand, sites)
				}
				ts = append(ts, tk)
			}
			r.Do(ts)
		},
	})
	mon.Register(&mon.Property{
		ID:          "C10",
		Forgetful:   true,
		Rule:        "sequences of up to one SSL request followed by a valid, unsupported, malformed or truncated packet; and endless SSL requests; distinct by sequence. Oracle: client-side state machine, connections at the fake database, stack memory, end of the connection.",
		Scenarios:   map[string]func(*mon.T){"negotiate": c10Negotiate, "flood": c10Flood},
		MinDistinct: 500,
		Plan: func(r *mon.Run) {
			sites := sitesOf(r, files...)
			var ts []mon.Task
			for i := 0; i < r.Pick(480, 5000); i++ {
				tk := r.Task("negotiate", map[string]int{"n": 40})
				if i%2 == 0 {
					tk.Plan = randomPlan(r.Rand, sites)
				}
				ts = append(ts, tk)
			}
			for i := 0; i < r.Pick(6, 24); i++ {
				ts = append(ts, r.Task("flood", map[string]int{"n": r.Pick(20000, 200000)}))
			}
			r.Do(ts)
		},
	})
	mon.Register(&mon.Property{
		ID:          "C12",
		Rule:        "up to 12 concurrent well-behaved sessions with per-session payload tags while others misbehave (11 kinds); distinct by history of misbehaviours. Oracle: byte equality at every good endpoint after every step; new sessions work.",
		Scenarios:   map[string]func(*mon.T){"isolation": c12Isolation, "crowd": c12Crowd},
		MinDistinct: 200,
		Plan: func(r *mon.Run) {
			sites := sitesOf(r, files...)
			var ts []mon.Task
			for i := 0; i < r.Pick(128, 1200); i++ {
				tk := r.Task("isolation", map[string]int{"n": 14})
				tk.Plan = randomPlan(r.Rand, sites)
				ts = append(ts, tk)
			}
			for i := 0; i < r.Pick(8, 60); i++ {
				ts = append(ts, r.Task("crowd", map[string]int{"n": []int{1100, 300, 2100, 600}[i%4], "established": []int{20, 270, 50, 600}[i%4]}))
			}
			r.Do(ts)
		},
	})
	mon.Register(&mon.Property{
		ID:          "C13",
		Rule:        "one direction stalled (receiver does not read) until the proxy takes no more, the other one in use; then resumed; and pipelining clients against a database that answers each request before reading on; distinct by direction, sizes and bytes taken. " + fmt.Sprintf("Oracle: quiescence for blocked directions, fewer than %d bytes taken, exact delivery after resuming.", boundBytes),
		Assumptions: []string{"kernel socket buffers of the sandbox are far below the bound"},
		Scenarios:   map[string]func(*mon.T){"stall": c13Stall, "pipeline": c13Pipeline},
		MinDistinct: 20,
		Plan: func(r *mon.Run) {
			sites := sitesOf(r, files...)
			var ts []mon.Task
			for i := 0; i < r.Pick(20, 300); i++ {
				tk := r.Task("stall", map[string]int{"rev": i % 2})
				if i%3 == 0 {
					tk.Plan = randomPlan(r.Rand, sites)
					tk.Plan.Noise = min(tk.Plan.Noise, 300)
				}
				ts = append(ts, tk)
				tk = r.Task("pipeline", map[string]int{"n": []int{300, 3000, 10000}[i%3]})
				if i%3 == 0 {
					tk.Plan = randomPlan(r.Rand, sites)
				}
				ts = append(ts, tk)
			}
			r.Do(ts)
		},
	})
}
