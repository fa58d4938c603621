package props

import (
	"bytes"
	"crypto/md5"
	"encoding/binary"
	"fmt"
	"math/rand/v2"
	"net"
	"net/url"
	"regexp"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	"github.com/hired/gevulot/pkg/pgmeta"
	"github.com/lib/pq/oid"

	"verif.local/harness/mon"
	"verif.local/harness/wire"
)

// pgFault says where a fake server's exchange goes wrong.
type pgFault struct {
	Stage string // startup, ping, name, tables
	Msg   int    // message of the response, in order
	Kind  string // cut, rst, error, fatal, badrow
	Off   int    // bytes of the message delivered before a cut
	How   int    // which malformed row
	All   bool   // every time, not only the first time
}

func (f pgFault) String() string {
	if f.Stage == "" {
		return "no fault"
	}
	return fmt.Sprintf("%s at message %d byte %d of the %s response (how %d, always: %v)", f.Kind, f.Msg, f.Off, f.Stage, f.How, f.All)
}

// pgServer is a fake PostgreSQL server with a catalogue.
type pgServer struct {
	t     *mon.T
	L     net.Listener
	db    string
	cat   sqlCatalog
	truth map[oid.Oid]pgmeta.Table
	order []oid.Oid
	fault pgFault
	user  string
	pass  string
	auth  int // 0: trust, 1: clear text, 2: MD5
	ssl   bool
	noise bool // notices and parameter changes in between
	slow  int  // microseconds between pieces, at most
	mode  int  // pieces

	mu        sync.Mutex
	hits      int
	open      int
	conns     int
	all       []net.Conn
	responses map[string]int // messages of the last response of each stage
	sizes     map[string][]int
	foreign   string // a query beyond the interpreter
	seen      map[string]int
}

func (s *pgServer) hit() { s.mu.Lock(); s.hits++; s.mu.Unlock() }

// Hits is the number of faults so far.
func (s *pgServer) Hits() int { s.mu.Lock(); defer s.mu.Unlock(); return s.hits }

// Open is the number of open connections.
func (s *pgServer) Open() int { s.mu.Lock(); defer s.mu.Unlock(); return s.open }

// Foreign is a query that was not understood.
func (s *pgServer) Foreign() string { s.mu.Lock(); defer s.mu.Unlock(); return s.foreign }

func pgIdent(r *rand.Rand) string {
	switch r.IntN(9) {
	case 3, 4:
		for {
			w := wire.Word(r)
			if len(w) > 63 {
				w = w[:63]
			}
			if w != "" && utf8.ValidString(w) {
				return w
			}
		}
	case 0:
		return []string{"Users", "a b", "select", "ž", "\"quoted\"", "x'y", "a,b", "\\back", "naïve_表", "$1", "%", "NULL", "t", "{}", "\t", "-", "0"}[r.IntN(17)]
	case 1:
		return strings.Repeat("x", 1+r.IntN(63))
	case 2:
		s := ""
		for i := 1 + r.IntN(20); i > 0; i-- {
			s += string(rune([]int{'a', 'Z', '_', ' ', 0x17d, 0x4e2d, '"', '\\', '\n', '\r', 1, '7'}[r.IntN(12)]))
		}
		return s
	default:
		s := ""
		for i := 1 + r.IntN(12); i > 0; i-- {
			s += string(rune('a' + r.IntN(26)))
		}
		return s
	}
}

var userSchemas = []string{"public", "app", "pgboss", "pgx", "pga", "pg", "p", "information_schema2", "informationXschema", "Information_Schema", "PG_upper", "my_pg_x", "tmp", "pgq", "crypto_pg", "pg.x", "pg-x"}
var systemSchemas = []string{"pg_catalog", "information_schema", "pg_toast", "pg_temp_3", "pg_toast_temp_3"}

func newPGServer(t *mon.T, r *rand.Rand, nTables int) *pgServer {
	s := &pgServer{t: t, db: pgIdent(r), truth: map[oid.Oid]pgmeta.Table{}, user: "u" + strconv.Itoa(r.IntN(100)), responses: map[string]int{}, sizes: map[string][]int{}, seen: map[string]int{}}
	if r.IntN(3) == 0 {
		s.db = "app"
	}
	ns := &sqlTable{cols: []string{"oid", "nspname", "nspowner"}, types: map[string]int{"oid": 26, "nspname": 19, "nspowner": 26}}
	cl := &sqlTable{
		cols:  []string{"oid", "relname", "relnamespace", "relkind", "relowner", "relpersistence", "relispartition", "relpages", "reltype", "reloftype", "relam", "relfilenode", "reltablespace", "reltoastrelid", "relhasindex", "relisshared", "relnatts", "relchecks", "relhasrules", "relhastriggers", "relhassubclass", "relrowsecurity", "relforcerowsecurity", "relispopulated", "relreplident", "relallvisible"},
		types: map[string]int{"oid": 26, "relname": 19, "relnamespace": 26, "relkind": 18, "relowner": 26, "relpersistence": 18, "relispartition": 16, "relpages": 23, "reltype": 26, "reloftype": 26, "relam": 26, "relfilenode": 26, "reltablespace": 26, "reltoastrelid": 26, "relhasindex": 16, "relisshared": 16, "relnatts": 21, "relchecks": 21, "relhasrules": 16, "relhastriggers": 16, "relhassubclass": 16, "relrowsecurity": 16, "relforcerowsecurity": 16, "relispopulated": 16, "relreplident": 18, "relallvisible": 23},
	}
	rest := func(kind rune) []any { // the columns behind relpersistence
		some := func(n int) int64 { return int64(r.IntN(2) * r.IntN(n)) }
		stored := kind == 'r' || kind == 'm'
		am, file := int64(0), int64(0)
		if stored {
			am, file = 2, some(1<<20)
		}
		return []any{kind == 'r' && r.IntN(3) == 0, some(100), some(1 << 20), some(3) * 16400, am, file, some(3) * 1663, some(1 << 20), r.IntN(2) == 0, false, some(5), some(3), kind == 'v' || r.IntN(5) == 0, r.IntN(2) == 0, r.IntN(4) == 0, r.IntN(4) == 0, r.IntN(4) == 0, kind != 'm' || r.IntN(2) == 0, []string{"d", "n", "f", "i"}[r.IntN(4)], some(50)}
	}
	used := map[int64]bool{}
	newOID := func() int64 {
		for {
			var v int64
			switch r.IntN(4) {
			case 0:
				v = int64(r.Uint32())
			case 1:
				v = []int64{1, 2, 1 << 31, 1<<31 - 1, 1<<32 - 1, 65535, 65536}[r.IntN(7)]
			default:
				v = 16384 + int64(r.IntN(1<<20))
			}
			if v != 0 && !used[v] {
				used[v] = true
				return v
			}
		}
	}
	type schema struct {
		oid    int64
		name   string
		system bool
	}
	var schemas []schema
	names := map[string]bool{}
	add := func(n string, sys bool) {
		if names[n] || strings.HasPrefix(n, "pg_") && !sys {
			return
		}
		names[n] = true
		o := newOID()
		schemas = append(schemas, schema{o, n, sys})
		ns.rows = append(ns.rows, []any{o, n, int64(10)})
	}
	for _, n := range systemSchemas {
		add(n, true)
	}
	add("public", false)
	for i := r.IntN(6); i > 0; i-- {
		add(userSchemas[r.IntN(len(userSchemas))], false)
	}
	for i := r.IntN(4); i > 0; i-- {
		add(pgIdent(r), false)
	}
	r.Shuffle(len(schemas), func(i, j int) { schemas[i], schemas[j] = schemas[j], schemas[i] })
	rel := map[string]bool{}
	kinds := "rmvrmvrrriSctIpf"
	user := 0
	for tries := 0; user < nTables && tries < 100*nTables+100; tries++ {
		sc := schemas[r.IntN(len(schemas))]
		k := kinds[r.IntN(len(kinds))]
		n := pgIdent(r)
		if r.IntN(6) == 0 && len(cl.rows) > 0 {
			n = cl.rows[r.IntN(len(cl.rows))][1].(string) // the same name in another schema
		}
		key := fmt.Sprint(sc.oid, " ", n)
		if rel[key] {
			continue
		}
		rel[key] = true
		o := newOID()
		cl.rows = append(cl.rows, append([]any{o, n, sc.oid, string(k), int64(10 + r.IntN(2)*r.IntN(1000)), []string{"p", "u", "t"}[r.IntN(3)]}, rest(rune(k))...))
		if !sc.system && (k == 'r' || k == 'm' || k == 'v') {
			s.truth[oid.Oid(o)] = pgmeta.Table{Schema: sc.name, Name: n}
			s.order = append(s.order, oid.Oid(o))
			user++
		}
	}
	if nTables == 0 {
		cl.rows = append(cl.rows, append([]any{newOID(), "pg_class", schemas[0].oid, "i", int64(10), "p"}, rest('i')...))
	}
	dbs := &sqlTable{cols: []string{"oid", "datname", "datdba", "datistemplate", "datallowconn", "datconnlimit"}, types: map[string]int{"oid": 26, "datname": 19, "datdba": 26, "datistemplate": 16, "datallowconn": 16, "datconnlimit": 23}}
	for i, n := range []string{"template1", "template0", "postgres", s.db, "z" + s.db} {
		if i < 3 && n == s.db {
			continue
		}
		dbs.rows = append(dbs.rows, []any{newOID(), n, int64(10), i < 2, i != 1, int64(-1)})
	}
	r.Shuffle(len(dbs.rows), func(i, j int) { dbs.rows[i], dbs.rows[j] = dbs.rows[j], dbs.rows[i] })
	s.cat = sqlCatalog{"pg_class": cl, "pg_namespace": ns, "pg_database": dbs}
	return s
}

// Listen starts the server.
func (s *pgServer) Listen() {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		s.t.Inconclusive("listen: %v", err)
	}
	s.L = l
	r := mon.NewRand(s.t.Rand.Uint64())
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			s.mu.Lock()
			s.open++
			s.conns++
			s.all = append(s.all, c)
			s.mu.Unlock()
			x := &pgConn{s: s, c: c, r: mon.NewRand(r.Uint64())}
			go x.serve()
		}
	}()
}

// Stop ends it.
func (s *pgServer) Stop() {
	if s.L != nil {
		_ = s.L.Close()
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, c := range s.all {
		_ = c.Close()
	}
}

// DSN of the server.
func (s *pgServer) DSN(r *rand.Rand) string {
	port := s.L.Addr().(*net.TCPAddr).Port
	mode := "disable"
	if s.ssl {
		mode = []string{"require", "verify-full", ""}[r.IntN(3)]
	}
	if r.IntN(2) == 0 {
		q := ""
		if mode != "" {
			q = "?sslmode=" + mode
		}
		u := url.UserPassword(s.user, s.pass)
		if s.pass == "" {
			u = url.User(s.user)
		}
		return (&url.URL{Scheme: []string{"postgres", "postgresql"}[r.IntN(2)], User: u, Host: fmt.Sprintf("127.0.0.1:%d", port), Path: "/x"}).String() + q
	}
	d := fmt.Sprintf("host=127.0.0.1 port=%d user=%s dbname=x", port, s.user)
	if s.pass != "" {
		d += " password='" + strings.ReplaceAll(strings.ReplaceAll(s.pass, `\`, `\\`), `'`, `\'`) + "'"
	}
	if mode != "" {
		d += " sslmode=" + mode
	}
	return d
}

type pgConn struct {
	s *pgServer
	c net.Conn
	r *rand.Rand

	query    string
	stmts    map[string]string
	describe bool
	args     []string
	binary   bool
	tx       byte
}

type pgGone struct{}

func (x *pgConn) serve() {
	defer func() {
		_ = x.c.Close()
		x.s.mu.Lock()
		x.s.open--
		x.s.mu.Unlock()
		if e := recover(); e != nil {
			if _, ok := e.(pgGone); !ok {
				x.s.mu.Lock()
				x.s.foreign = fmt.Sprintf("the fake server fails: %v\n%s", e, debug.Stack())
				x.s.mu.Unlock()
			}
		}
	}()
	x.tx = 'I'
	if !x.startup() {
		return
	}
	for {
		ty, body := x.message()
		switch ty {
		case 'Q':
			q := string(bytes.TrimRight(body, "\x00"))
			x.respond(x.run(q, nil, false, true))
		case 'P':
			parts := bytes.SplitN(body, []byte{0}, 3)
			if x.stmts == nil {
				x.stmts = map[string]string{}
			}
			x.stmts[string(parts[0])] = string(parts[1])
			x.send([][]byte{wire.Std('1', nil)})
		case 'B':
			x.bind(body)
			x.send([][]byte{wire.Std('2', nil)})
		case 'D':
			q, args := x.query, x.args
			n := 0
			if body[0] == 'S' {
				q, args = x.stmts[string(bytes.TrimRight(body[1:], "\x00"))], nil
				for strings.Contains(q, "$"+strconv.Itoa(n+1)) {
					n++
					args = append(args, "0")
				}
			}
			x.describe = true
			_, msgs := x.run(q, args, x.binary, false)
			x.describe = false
			var out [][]byte
			if body[0] == 'S' {
				b := wire.B{}.I16(n)
				for i := 0; i < n; i++ {
					b = b.I32(25)
				}
				out = append(out, wire.Std('t', b))
			}
			if len(msgs) > 0 && msgs[0][0] == 'T' {
				out = append(out, msgs[0])
			} else {
				out = append(out, wire.Std('n', nil))
			}
			x.send(out)
		case 'E':
			stage, msgs := x.run(x.query, x.args, x.binary, false)
			if len(msgs) > 0 && msgs[0][0] == 'T' {
				msgs = msgs[1:]
			}
			if !x.respond(stage, msgs) {
				for { // after an error: skip to Sync
					ty, _ := x.message()
					if ty == 'S' {
						break
					}
				}
				x.send([][]byte{wire.Std('Z', []byte{x.tx})})
			}
		case 'C':
			x.send([][]byte{wire.Std('3', nil)})
		case 'S':
			x.send([][]byte{wire.Std('Z', []byte{x.tx})})
		case 'H':
		case 'X':
			return
		}
	}
}

func (x *pgConn) bind(body []byte) {
	parts := bytes.SplitN(body, []byte{0}, 3)
	b := parts[2]
	x.query = x.stmts[string(parts[1])]
	u16 := func() int { v := int(binary.BigEndian.Uint16(b)); b = b[2:]; return v }
	for i := u16(); i > 0; i-- {
		u16()
	}
	x.args = nil
	for i := u16(); i > 0; i-- {
		n := int(int32(binary.BigEndian.Uint32(b)))
		b = b[4:]
		if n < 0 {
			x.args = append(x.args, "")
			continue
		}
		x.args = append(x.args, string(b[:n]))
		b = b[n:]
	}
	x.binary = false
	for i := u16(); i > 0; i-- {
		x.binary = u16() == 1
	}
}

func (x *pgConn) read(b []byte) {
	for n := 0; n < len(b); {
		k, err := x.c.Read(b[n:])
		n += k
		if err != nil {
			panic(pgGone{})
		}
	}
}

func (x *pgConn) message() (byte, []byte) {
	h := make([]byte, 5)
	x.read(h)
	b := make([]byte, binary.BigEndian.Uint32(h[1:])-4)
	x.read(b)
	return h[0], b
}

func (x *pgConn) startMessage() []byte {
	h := make([]byte, 4)
	x.read(h)
	b := make([]byte, binary.BigEndian.Uint32(h)-4)
	x.read(b)
	return b
}

func (x *pgConn) startup() bool {
	b := x.startMessage()
	for binary.BigEndian.Uint32(b) == 80877103 || binary.BigEndian.Uint32(b) == 80877104 {
		x.raw([]byte{'N'})
		b = x.startMessage()
	}
	if binary.BigEndian.Uint32(b) != 196608 {
		return false
	}
	msgs := [][]byte{}
	switch x.s.auth {
	case 1:
		if !x.respond("startup", [][]byte{wire.Std('R', wire.B{}.I32(3))}) {
			return false
		}
	case 2:
		if !x.respond("startup", [][]byte{wire.Std('R', wire.B{}.I32(5).Raw([]byte("salt")))}) {
			return false
		}
	}
	if x.s.auth != 0 {
		ty, b := x.message()
		want := x.s.pass
		if x.s.auth == 2 {
			h := fmt.Sprintf("%x", md5.Sum([]byte(x.s.pass+x.s.user)))
			want = "md5" + fmt.Sprintf("%x", md5.Sum([]byte(h+"salt")))
		}
		if ty != 'p' || string(bytes.TrimRight(b, "\x00")) != want {
			x.s.mu.Lock()
			x.s.hits++ // not what this property is about
			x.s.mu.Unlock()
			x.raw(x.errMsg("FATAL", "28P01"))
			return false
		}
	}
	msgs = append(msgs, wire.Std('R', wire.B{}.I32(0)),
		wire.Std('S', wire.B{}.Str("server_version").Str("12.1")),
		wire.Std('S', wire.B{}.Str("TimeZone").Str("UTC")),
		wire.Std('K', wire.B{}.I32(42).I32(4711)),
		wire.Std('Z', []byte{'I'}))
	return x.respond("startup", msgs)
}

func (x *pgConn) errMsg(severity, code string) []byte {
	return wire.Std('E', wire.B{}.Byte('S').Str(severity).Byte('V').Str(severity).Byte('C').Str(code).Byte('M').Str("fault").Byte(0))
}

var pgFaults = []struct{ code, text string }{
	{"57P01", "terminating connection due to administrator command"},
	{"57P02", "terminating connection because of crash of another server process"},
	{"57P03", "the database system is starting up"},
	{"57P03", "the database system is shutting down"},
	{"57P03", "the database system is in recovery mode"},
	{"53300", "sorry, too many clients already"},
	{"53300", "remaining connection slots are reserved for non-replication superuser connections"},
	{"53200", "out of memory"},
	{"42501", "permission denied for table pg_class"},
	{"42P01", "relation \"pg_class\" does not exist"},
	{"28000", "no pg_hba.conf entry for host"},
	{"28P01", "password authentication failed for user"},
	{"3D000", "database does not exist"},
	{"57014", "canceling statement due to statement timeout"},
	{"57014", "canceling statement due to user request"},
	{"40001", "could not serialize access due to concurrent update"},
	{"40P01", "deadlock detected"},
	{"25006", "cannot execute SELECT in a read-only transaction"},
	{"25P02", "current transaction is aborted, commands ignored until end of transaction block"},
	{"26000", "prepared statement does not exist"},
	{"0A000", "cached plan must not change result type"},
	{"08006", "connection failure"},
	{"XX000", "fault"},
	{"XX001", "invalid page in block 0 of relation base/1/1259"},
	{"02000", "no data"},
	{"00000", "successful completion"},
	{"01000", "warning"},
}

// faultMsg is a message of an error that a server may report.
func (x *pgConn) faultMsg(severity string, how int) []byte {
	f := pgFaults[how%len(pgFaults)]
	text := f.text
	if how%3 == 0 {
		text = strings.ReplaceAll(wire.Word(mon.NewRand(uint64(how))), "\x00", "")
	}
	return wire.Std('E', wire.B{}.Byte('S').Str(severity).Byte('V').Str(severity).Byte('C').Str(f.code).Byte('M').Str(text).Byte(0))
}

// raw writes in pieces.
func (x *pgConn) raw(b []byte) {
	for len(b) > 0 {
		n := len(b)
		switch x.s.mode {
		case 1:
			n = 1 + x.r.IntN(5)
		case 2:
			n = 1 + x.r.IntN(200)
		}
		n = min(n, len(b))
		if x.s.slow > 0 && x.r.IntN(8) == 0 {
			time.Sleep(time.Duration(x.r.IntN(x.s.slow)) * time.Microsecond)
		}
		if _, err := x.c.Write(b[:n]); err != nil {
			panic(pgGone{})
		}
		b = b[n:]
	}
}

func (x *pgConn) send(msgs [][]byte) { x.raw(bytes.Join(msgs, nil)) }

// respond sends a response with its fault. It returns false if the server reports an error to an Execute.
func (x *pgConn) respond(stage string, msgs [][]byte) bool {
	s := x.s
	s.mu.Lock()
	s.responses[stage] = len(msgs)
	var sizes []int
	for _, m := range msgs {
		sizes = append(sizes, len(m))
	}
	s.sizes[stage] = sizes
	s.seen[stage]++
	f := s.fault
	fires := f.Stage == stage && f.Msg <= len(msgs) && (f.All || s.hits == 0)
	if fires && (f.Kind == "badrow" || f.Kind == "norow" || f.Kind == "nullrow") && (f.Msg >= len(msgs) || msgs[f.Msg][0] != 'D') {
		fires = false
	}
	if fires {
		s.hits++
	}
	s.mu.Unlock()
	var out []byte
	for i := 0; i <= len(msgs); i++ {
		if s.noise && stage != "startup" && x.r.IntN(4) == 0 && i < len(msgs) {
			out = append(out, wire.Std('N', wire.B{}.Byte('S').Str("NOTICE").Byte('C').Str("00000").Byte('M').Str("x").Byte(0))...)
			if x.r.IntN(2) == 0 {
				out = append(out, wire.Std('S', wire.B{}.Str("application_name").Str("y"))...)
			}
		}
		if fires && i == f.Msg {
			switch f.Kind {
			case "cut", "rst":
				if i < len(msgs) {
					out = append(out, msgs[i][:min(f.Off, len(msgs[i]))]...)
				}
				x.raw(out)
				if f.Kind == "rst" {
					if c, ok := x.c.(*net.TCPConn); ok {
						_ = c.SetLinger(0)
					}
				}
				panic(pgGone{})
			case "fatal":
				x.raw(append(out, x.faultMsg([]string{"FATAL", "FATAL", "FATAL", "PANIC"}[f.How%4], f.How)...))
				panic(pgGone{})
			case "error":
				out = append(out, x.faultMsg("ERROR", f.How)...)
				if stage == "startup" {
					x.raw(out)
					panic(pgGone{})
				}
				if msgs[len(msgs)-1][0] != 'Z' {
					x.raw(out)
					return false
				}
				if x.tx == 'T' {
					x.tx = 'E'
				}
				x.raw(append(out, wire.Std('Z', []byte{x.tx})...))
				return true
			case "norow":
				continue
			case "nullrow":
				out = append(out, wire.Std('D', wire.B{}.I16(1).I32(-1))...)
				continue
			case "badrow":
				out = append(out, badRow(msgs[i], f.How)...)
				continue
			}
		}
		if i < len(msgs) {
			out = append(out, msgs[i]...)
		}
	}
	x.raw(out)
	return true
}

// badRow makes a row of the message that no reader can accept.
func badRow(m []byte, how int) []byte {
	b := m[5:]
	n := int(binary.BigEndian.Uint16(b))
	b = b[2:]
	var cols [][]byte
	for i := 0; i < n; i++ {
		k := int(int32(binary.BigEndian.Uint32(b)))
		b = b[4:]
		if k < 0 {
			cols = append(cols, nil)
			continue
		}
		cols = append(cols, b[:k:k])
		b = b[k:]
	}
	c := how % max(1, n)
	digits := 0
	for _, v := range cols {
		if isDigits(v) {
			digits++
		}
	}
	switch {
	case n == 1:
		cols[0] = nil
	case how/n%2 == 0 || !isDigits(cols[c]) || digits > 1:
		cols[c] = nil
	default:
		cols[c] = []byte([]string{"x", "-1", "4294967296", "99999999999999999999", "1.5", ""}[how/n/2%6])
	}
	out := wire.B{}.I16(n)
	for _, v := range cols {
		if v == nil {
			out = out.I32(-1)
		} else {
			out = out.I32(len(v)).Raw(v)
		}
	}
	return wire.Std('D', out)
}

func isDigits(b []byte) bool {
	for _, c := range b {
		if c < '0' || c > '9' {
			return false
		}
	}
	return len(b) > 0
}

var (
	tablesQuery = regexp.MustCompile(`(?i)pg_class|relname|pg_tables|information_schema`)
	nameQuery   = regexp.MustCompile(`(?i)current_database|current_catalog|pg_database`)
	wordQuery   = regexp.MustCompile(`(?i)^\s*([a-z]+)`)
)

// run answers a query.
func (x *pgConn) run(q string, args []string, binaryFormat, ready bool) (string, [][]byte) {
	end := func(tag string, msgs [][]byte) [][]byte {
		msgs = append(msgs, wire.Std('C', wire.B{}.Str(tag)))
		if ready {
			msgs = append(msgs, wire.Std('Z', []byte{x.tx}))
		}
		return msgs
	}
	word := ""
	if m := wordQuery.FindStringSubmatch(q); m != nil {
		word = strings.ToUpper(m[1])
	}
	stage := "ping"
	switch {
	case tablesQuery.MatchString(q):
		stage = "tables"
	case nameQuery.MatchString(q):
		stage = "name"
	}
	if strings.Trim(q, " \t\r\n;") == "" {
		msgs := [][]byte{wire.Std('I', nil)}
		if ready {
			msgs = append(msgs, wire.Std('Z', []byte{x.tx}))
		}
		return stage, msgs
	}
	if word != "SELECT" {
		switch word {
		case "BEGIN", "START":
			x.tx = 'T'
		case "COMMIT", "ROLLBACK", "END":
			x.tx = 'I'
		case "WITH", "TABLE", "VALUES":
			x.s.notUnderstood(q)
		}
		return stage, end(word, nil)
	}
	cat := x.s.cat
	if x.describe { // the columns are the same without rows
		cat = sqlCatalog{}
		for k, v := range x.s.cat {
			cat[k] = &sqlTable{cols: v.cols, types: v.types, rows: v.rows[:min(1, len(v.rows))]}
		}
	}
	res, err := runSQL(cat, x.s.db, x.s.user, q, args)
	if err != nil {
		x.s.notUnderstood(fmt.Sprintf("%v: %s", err, q))
		res = &sqlResult{cols: []string{"x"}, types: []int{25}}
	}
	d := wire.B{}.I16(len(res.cols))
	for i, c := range res.cols {
		f := 0
		if binaryFormat {
			f = 1
		}
		d = d.Str(c).I32(0).I16(0).I32(res.types[i]).I16(-1).I32(-1).I16(f)
	}
	msgs := [][]byte{wire.Std('T', d)}
	for _, row := range res.rows {
		b := wire.B{}.I16(len(row))
		for _, v := range row {
			switch v := v.(type) {
			case nil:
				b = b.I32(-1)
			default:
				tx := []byte(text(v))
				if n, ok := v.(int64); ok && binaryFormat {
					tx = wire.B{}.I32(int(n))
				}
				b = b.I32(len(tx)).Raw(tx)
			}
		}
		msgs = append(msgs, wire.Std('D', b))
	}
	return stage, end(fmt.Sprintf("SELECT %d", len(res.rows)), msgs)
}

func (s *pgServer) notUnderstood(q string) {
	s.mu.Lock()
	if s.foreign == "" {
		s.foreign = q
	}
	s.hits++
	s.mu.Unlock()
}

// pgCheck judges calls of one inspector.
type pgCheck struct {
	t *mon.T
	s *pgServer
}

// failing reports a violation unless the server did not understand a query.
func (k *pgCheck) failing(key, format string, args ...any) {
	if q := k.s.Foreign(); q != "" {
		k.t.Count("not-judged", 1)
		k.t.Note("foreign", q)
		panic(pgForeign{})
	}
	k.t.Fail(key, "%s (%s)", fmt.Sprintf(format, args...), k.s.fault)
}

type pgForeign struct{}

func (k *pgCheck) name(i *pgmeta.Inspector, mustWork bool) bool {
	n, err := i.DatabaseName()
	k.t.Count("calls", 1)
	if err != nil {
		if mustWork {
			k.failing("name-error", "DatabaseName fails although the server is healthy: %v", err)
		}
		k.t.Count("errors", 1)
		return false
	}
	if n != k.s.db {
		k.failing("name", "DatabaseName returns %q, the database is %q", n, k.s.db)
	}
	return true
}

func (k *pgCheck) tables(i *pgmeta.Inspector, mustWork bool) bool {
	m, err := i.OIDTableMapping()
	k.t.Count("calls", 1)
	if err != nil {
		if mustWork {
			k.failing("tables-error", "OIDTableMapping fails although the server is healthy: %v", err)
		}
		k.t.Count("errors", 1)
		return false
	}
	var diff []string
	for o, w := range k.s.truth {
		if g, ok := m[o]; !ok {
			diff = append(diff, fmt.Sprintf("missing %d %q", o, w))
		} else if g != w {
			diff = append(diff, fmt.Sprintf("%d is %q instead of %q", o, g, w))
		}
	}
	for o, g := range m {
		if _, ok := k.s.truth[o]; !ok {
			diff = append(diff, fmt.Sprintf("unexpected %d %q", o, g))
		}
	}
	if len(diff) > 0 {
		sort.Strings(diff)
		k.failing("tables", "the mapping of %d tables without an error: %s", len(k.s.truth), strings.Join(diff[:min(4, len(diff))], "; "))
	}
	k.t.Count("tables", len(m))
	return true
}

// closed checks what must hold after Close.
func (k *pgCheck) closed(i *pgmeta.Inspector) {
	if n, err := i.DatabaseName(); err == nil {
		k.failing("after-close", "DatabaseName returns %q after Close", n)
	}
	if m, err := i.OIDTableMapping(); err == nil {
		k.failing("after-close", "OIDTableMapping returns %d tables after Close", len(m))
	}
	k.gone("after Close")
}

func (k *pgCheck) gone(when string) {
	r, dump := k.t.AwaitSoft(func() bool { return k.s.Open() == 0 })
	switch r {
	case mon.Stuck:
		k.failing("open", "%d connections stay open %s", k.s.Open(), when)
	case mon.TimedOut:
		k.t.Inconclusive("connections %s\n%s", when, dump)
	}
}

func pgSetUp(t *mon.T, s *pgServer, r *rand.Rand) {
	s.auth = r.IntN(3)
	if s.auth > 0 {
		s.pass = []string{"secret", "p@ss/w:rd", `it's \ a`, "ž"}[r.IntN(4)]
	}
	s.mode = r.IntN(3)
	s.noise = r.IntN(3) == 0
	if s.mode != 1 && r.IntN(3) == 0 {
		s.slow = 300
	}
}

// guard ends a case quietly if the server met a query it cannot judge.
func pgGuard(f func()) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(pgForeign); !ok {
				panic(e)
			}
		}
	}()
	f()
}

// c25Case runs one inspector against one fault.
func c25Case(t *mon.T, seed uint64, nTables int, f pgFault) *pgServer {
	r := mon.NewRand(seed)
	s := newPGServer(t, r, nTables)
	pgSetUp(t, s, r)
	s.fault = f
	s.Listen()
	defer s.Stop()
	pgGuard(func() {
		k := &pgCheck{t, s}
		i, err := pgmeta.Inspect(s.DSN(r))
		t.Count("inspectors", 1)
		if err != nil {
			if i != nil {
				k.failing("half", "Inspect returns an inspector together with the error %v", err)
			}
			if s.Hits() == 0 {
				k.failing("inspect", "Inspect fails on a healthy server: %v", err)
			}
			k.gone("after Inspect failed")
			t.Count("refused", 1)
			return
		}
		if i == nil {
			k.failing("nil", "Inspect returns neither an inspector nor an error")
		}
		if f.Stage == "startup" && f.All && f.Msg < s.responses["startup"] {
			k.failing("inspect-ok", "Inspect succeeds although every connection fails")
		}
		if f.Stage == "ping" && f.All && s.Hits() > 0 && f.Msg == 0 {
			k.failing("inspect-ok", "Inspect succeeds although the server does not answer")
		}
		calls := 1 + r.IntN(4)
		if f.Stage == "tables" || f.Stage == "name" {
			calls = 2 + r.IntN(2)
		}
		for c := 0; c < calls; c++ {
			before := s.Hits()
			isName := r.IntN(2) == 0
			if c == 0 && f.Stage != "" {
				isName = f.Stage == "name"
			}
			var ok bool
			if isName {
				ok = k.name(i, before == 0 && f.Stage != "name")
			} else {
				ok = k.tables(i, before == 0 && f.Stage != "tables")
			}
			if !ok && s.Hits() == before && before == 0 {
				k.failing("spurious", "a call fails although nothing has happened")
			}
			if ok && !isName && f.Stage == "tables" && f.All && s.Hits() > before {
				// The result was complete only with the end of the rows.
				s.mu.Lock()
				last := -1
				n := s.responses["tables"]
				s.mu.Unlock()
				last = n - 2 // CommandComplete
				if f.Msg <= last && f.Kind != "badrow" && n > 2 {
					k.failing("tables-partial", "OIDTableMapping succeeds although its result was not completed")
				}
				if f.Kind == "badrow" {
					k.failing("tables-badrow", "OIDTableMapping succeeds although a row is malformed")
				}
			}
		}
		if !f.All {
			// The server is healthy again: a few broken connections may be left.
			for c := 0; ; c++ {
				if k.tables(i, c == 4) {
					break
				}
			}
			for c := 0; ; c++ {
				if k.name(i, c == 4) {
					break
				}
			}
		}
		_ = i.Close()
		k.closed(i)
		if r.IntN(4) == 0 {
			_ = i.Close()
		}
	})
	if s.Foreign() != "" {
		t.Note("foreign", s.Foreign())
		t.Count("not-judged", 1)
	}
	t.Count("faults", s.Hits())
	return s
}

func c25Faults(t *mon.T) {
	r := t.Rand
	n := t.Int("tables")
	seed := r.Uint64()
	s := c25Case(t, seed, n, pgFault{})
	if s.Foreign() != "" {
		t.Case(true, seed)
		return
	}
	t.Case(true, n, seed, "healthy")
	dense := t.Int("dense")
	stages := []string{"startup", "ping", "name", "tables"}
	for _, st := range stages {
		s.mu.Lock()
		sizes := append([]int{}, s.sizes[st]...)
		s.mu.Unlock()
		if len(sizes) == 0 {
			continue
		}
		for m := 0; m <= len(sizes); m++ {
			var fs []pgFault
			for _, all := range []bool{false, true} {
				offs := []int{0}
				if m < len(sizes) {
					offs = append(offs, 1+r.IntN(4), 5, sizes[m]-1)
					if dense > 0 {
						offs = offs[:0]
						for o := 0; o < sizes[m]; o++ {
							offs = append(offs, o)
						}
					}
				}
				for _, o := range offs {
					fs = append(fs, pgFault{Stage: st, Msg: m, Kind: "cut", Off: o, All: all})
				}
				fs = append(fs, pgFault{Stage: st, Msg: m, Kind: "rst", Off: 0, All: all})
				if m < len(sizes) {
					fs = append(fs, pgFault{Stage: st, Msg: m, Kind: "rst", Off: r.IntN(sizes[m]), All: all})
					if st == "startup" || m < len(sizes)-1 {
						fs = append(fs, pgFault{Stage: st, Msg: m, Kind: "fatal", How: r.IntN(1 << 20), All: all}, pgFault{Stage: st, Msg: m, Kind: "error", How: r.IntN(1 << 20), All: all})
						if m == 0 {
							for h := 0; h < 4; h++ {
								fs = append(fs, pgFault{Stage: st, Kind: []string{"fatal", "error"}[h%2], How: r.IntN(1 << 20), All: all})
							}
						}
					}
					if st == "name" && m > 0 && m < len(sizes)-2 {
						fs = append(fs, pgFault{Stage: st, Msg: m, Kind: "norow", All: all}, pgFault{Stage: st, Msg: m, Kind: "nullrow", All: all})
					}
					if st == "tables" && m > 0 && m < len(sizes)-2 {
						for h := 0; h < 4; h++ {
							fs = append(fs, pgFault{Stage: st, Msg: m, Kind: "badrow", How: r.IntN(36), All: all})
						}
					}
				}
			}
			if dense == 0 && len(sizes) > 12 && m > 3 && m < len(sizes)-4 && m%5 != 0 {
				continue // long results: a part of the rows
			}
			for _, f := range fs {
				c25Case(t, seed, n, f)
				t.Case(true, n, seed, f)
			}
		}
	}
	t.Sample("database %q with %d tables: every fault of %d messages", s.db, len(s.truth), len(s.sizes["startup"])+len(s.sizes["ping"])+len(s.sizes["name"])+len(s.sizes["tables"]))
}

// c25Healthy looks at many databases.
func c25Healthy(t *mon.T) {
	r := t.Rand
	for k := 0; k < t.Int("n"); k++ {
		n := r.IntN(60)
		switch r.IntN(6) {
		case 0:
			n = 0
		case 1:
			n = 1
		case 2:
			n = 300 + r.IntN(t.Int("big"))
			if r.IntN(4) == 0 {
				n = wire.Beyond(r, 300, 10*t.Int("big"))
			}
		}
		if v := t.Int("crowd"); v > 0 {
			n = wire.Beyond(r, 300, v)
		}
		seed := r.Uint64()
		s := c25Case(t, seed, n, pgFault{})
		t.Case(true, seed, n)
		if k == 0 {
			t.Sample("database %q with tables %.300q", s.db, fmt.Sprint(s.truth))
		}
	}
}

// c25Refused looks at servers that cannot be inspected.
func c25Refused(t *mon.T) {
	r := t.Rand
	for k := 0; k < t.Int("n"); k++ {
		s := newPGServer(t, r, 2)
		pgSetUp(t, s, r)
		how := r.IntN(5)
		var dsn string
		switch how {
		case 0: // nothing listens
			s.Listen()
			_ = s.L.Close()
			s.L = deadListener{}
			dsn = s.DSN(r)
		case 1: // hangs up
			s.Listen()
			s.fault = pgFault{Stage: "startup", Kind: []string{"cut", "rst"}[r.IntN(2)], All: true}
			dsn = s.DSN(r)
		case 2: // no TLS
			s.ssl = true
			s.Listen()
			dsn = s.DSN(r)
		case 3: // wrong password
			s.auth = 1 + r.IntN(2)
			s.pass = "right"
			s.Listen()
			s2 := pgServer{L: s.L, user: s.user, pass: "wrong"}
			dsn = s2.DSN(r)
		default: // no connection string
			s.Listen()
			port := s.L.Addr().(*net.TCPAddr).Port
			dsn = []string{"postgres://%zz", fmt.Sprintf("host=127.0.0.1 port=%d user", port), fmt.Sprintf("host=127.0.0.1 port=%d user=u sslmode=wrong", port), fmt.Sprintf("postgres://u@127.0.0.1:%d/x?sslmode=nope", port), "host=127.0.0.1 port=x user=u sslmode=disable", "user='u"}[r.IntN(6)]
		}
		i, err := pgmeta.Inspect(dsn)
		if err == nil || i != nil {
			t.Fail("refused", "Inspect(%q) returns %v, %v although the server cannot be used (way %d)", dsn, i, err, how)
		}
		k := &pgCheck{t, s}
		k.gone("after Inspect failed")
		s.Stop()
		t.Case(true, how, dsn)
		t.Count("refused", 1)
	}
}

// c25Together uses one inspector from many goroutines and closes it at some moment.
func c25Together(t *mon.T) {
	r := t.Rand
	for n := 0; n < t.Int("n"); n++ {
		s := newPGServer(t, r, r.IntN(30))
		pgSetUp(t, s, r)
		s.slow = 200
		s.Listen()
		i, err := pgmeta.Inspect(s.DSN(r))
		if err != nil {
			if s.Foreign() == "" {
				t.Fail("inspect", "Inspect fails on a healthy server: %v", err)
			}
			s.Stop()
			continue
		}
		early := r.IntN(2) == 0
		var wg sync.WaitGroup
		workers := 1 + r.IntN(8)
		var mu sync.Mutex
		var bad []string
		closing := false
		calls := 0
		for w := 0; w < workers; w++ {
			wr := mon.NewRand(r.Uint64())
			wg.Add(1)
			go func() {
				defer wg.Done()
				for c := 1 + wr.IntN(6); c > 0; c-- {
					var msg string
					var err error
					if wr.IntN(2) == 0 {
						var name string
						if name, err = i.DatabaseName(); err == nil && name != s.db {
							msg = fmt.Sprintf("DatabaseName returns %q, the database is %q", name, s.db)
						}
					} else {
						var m map[oid.Oid]pgmeta.Table
						if m, err = i.OIDTableMapping(); err == nil {
							if len(m) != len(s.truth) {
								msg = fmt.Sprintf("%d tables instead of %d without an error", len(m), len(s.truth))
							}
							for o, w := range s.truth {
								if m[o] != w {
									msg = fmt.Sprintf("%d is %q instead of %q", o, m[o], w)
								}
							}
						}
					}
					mu.Lock()
					calls++
					if err != nil && !closing {
						msg = fmt.Sprintf("a call fails on a healthy server: %v", err)
					}
					if msg != "" {
						bad = append(bad, msg)
					}
					mu.Unlock()
				}
			}()
		}
		if early {
			sleepUS(r.IntN(4000))
			mu.Lock()
			closing = true
			mu.Unlock()
			_ = i.Close()
		}
		done := make(chan struct{})
		go func() { wg.Wait(); close(done) }()
		t.AwaitChan("calls", "concurrent calls return", done)
		if len(bad) > 0 && s.Foreign() == "" {
			t.Fail("together", "%s", strings.Join(bad[:min(3, len(bad))], "; "))
		}
		k := &pgCheck{t, s}
		pgGuard(func() {
			if !early {
				_ = i.Close()
			}
			k.closed(i)
		})
		s.Stop()
		t.Count("calls", calls)
		t.Case(true, t.Seed, n)
	}
}

func init() {
	mon.Register(&mon.Property{
		ID:        "C25",
		Forgetful: true,
		Rule: "a scripted PostgreSQL server with a generated catalogue (schemas with look-alike names, all kinds of relations, any identifier, OIDs up to 2^32-1, 0 to 1500 tables), an SQL interpreter, three authentication methods, any chunking, notices in between. For small databases every message of every response of the exchange is a fault point: cut at byte positions, reset, ERROR, FATAL, malformed row; once and always. Concurrent use with Close at any moment; unusable servers. Distinct by database and fault. " +
			"Oracle: a call without an error returned exactly the catalogue's user tables (or its name); calls fail only after a fault; unfinished results are errors; after Close or a failed Inspect calls fail and the server has no open connection.",
		Assumptions: []string{"the server answers queries as the SQL interpreter of harness/props/sql.go does; a query beyond it is not judged (counted as not-judged)"},
		Scenarios:   map[string]func(*mon.T){"faults": c25Faults, "healthy": c25Healthy, "refused": c25Refused, "together": c25Together},
		MinDistinct: 100,
		Plan: func(r *mon.Run) {
			var ts []mon.Task
			for i := 0; i < r.Pick(24, 300); i++ {
				ts = append(ts, r.Task("faults", map[string]int{"tables": []int{3, 0, 1, 8, 2, 40}[i%6]}))
			}
			for i := 0; i < r.Pick(0, 24); i++ {
				ts = append(ts, r.Task("faults", map[string]int{"tables": i % 4, "dense": 1}))
			}
			for i := 0; i < r.Pick(1, 4); i++ {
				ts = append(ts, r.Task("healthy", map[string]int{"n": 1, "big": 300, "crowd": 11000}))
			}
			for i := 0; i < r.Pick(40, 1000); i++ {
				ts = append(ts, r.Task("healthy", map[string]int{"n": 20, "big": r.Pick(300, 1200)}))
				ts = append(ts, r.Task("refused", map[string]int{"n": 20}))
			}
			for i := 0; i < r.Pick(60, 1500); i++ {
				tk := r.Task("together", map[string]int{"n": 10})
				tk.Plan = randomPlan(r.Rand, sitesOf(r, "pkg/pgmeta/"))
				ts = append(ts, tk)
			}
			r.Do(ts)
		},
	})
}
