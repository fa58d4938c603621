package props

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unicode/utf8"

	"verif.local/harness/mon"
	"verif.local/harness/sched"
	"verif.local/harness/wire"
)

// listenSpec is a listen address and how it appears among the listening sockets.
type listenSpec struct{ spelled, listed, dial string }

func listenSpecFor(r *rand.Rand) listenSpec {
	port := slotPort()
	switch r.IntN(6) {
	case 0:
		return listenSpec{fmt.Sprintf(":%d", port), fmt.Sprintf("0.0.0.0:%d", port), fmt.Sprintf("127.0.0.1:%d", port)}
	case 1:
		return listenSpec{fmt.Sprintf("0.0.0.0:%d", port), fmt.Sprintf("0.0.0.0:%d", port), fmt.Sprintf("127.0.0.1:%d", port)}
	case 2:
		return listenSpec{fmt.Sprintf("localhost:%d", port), fmt.Sprintf("127.0.0.1:%d", port), fmt.Sprintf("127.0.0.1:%d", port)}
	default:
		a := fmt.Sprintf("%s:%d", slotIP(r.IntN(200)), port)
		return listenSpec{a, a, a}
	}
}

// dbNameFor makes a database name that is awkward in TOML or in a URI.
func dbNameFor(r *rand.Rand) string {
	pool := []string{"db", "hired_dev", "a b", `q"uote`, "o'brien", `back\slash`, "žluť", "100%", "x/y", "#hash", "Tab\tbed", "名前", "=eq=", "[t]", "a?b&c=d",
		"$HOME", "a${PATH}b", "pa$$word", "$1", "~root", "{{.Name}}", "`id`", "%s%d", "100%%", "CamelCase", "a+b", "..", "a/../b", "/lead", "e\u0301", "İ", " lead", "trail ", "!x", "*", "null", "true", "0", strings.Repeat("long", 80)}
	if r.IntN(4) == 0 {
		return pool[r.IntN(len(pool))] + pool[r.IntN(len(pool))]
	}
	return pool[r.IntN(len(pool))]
}

// urlFor spells the URI of a fake database, with as much left unescaped as a URI allows.
func urlFor(r *rand.Rand, port int, name string) string {
	keep := "!$&'()*+,;=:@"
	raw := r.IntN(2) == 0
	if r.IntN(3) == 0 {
		keep = ""
	}
	var enc strings.Builder
	for _, c := range name { // a character is either escaped as a whole or not at all
		if raw && c >= 0x80 {
			enc.WriteRune(c)
		} else {
			enc.WriteString(pct(r, string(c), keep))
		}
	}
	return fmt.Sprintf("%s://u%s@127.0.0.1:%d/%s", []string{"postgres", "postgresql"}[r.IntN(2)], []string{"", ":pw", ":p%20w"}[r.IntN(3)], port, enc.String())
}

// place puts content somewhere and returns the working directory and the path to name on the command line
// ("" for the default).
func place(t *mon.T, root, content string) (cwd, arg string) {
	r := t.Rand
	must := func(err error) {
		if err != nil {
			t.Inconclusive("%v", err)
		}
	}
	cwd = filepath.Join(root, "cwd")
	must(os.MkdirAll(cwd, 0o755))
	write := func(p string) string {
		must(os.MkdirAll(filepath.Dir(p), 0o755))
		must(os.WriteFile(p, []byte(content), 0o644))
		if r.IntN(3) == 0 {
			must(os.Chmod(p, anyMode(r)))
		}
		if r.IntN(6) == 0 {
			must(os.Chtimes(p, time.Time{}, anyTime(r)))
		}
		return p
	}
	switch r.IntN(11) {
	case 8: // a name that a shell, an editor or a program might treat specially
		n := oddName(r)
		write(filepath.Join(cwd, n))
		return cwd, n
	case 9:
		n := oddName(r)
		for i := r.IntN(3); i > 0; i-- {
			n = filepath.Join(oddName(r), n)
		}
		return cwd, write(filepath.Join(root, "odd", n))
	case 10: // symlinks one after the other
		n := oddName(r)
		to := write(filepath.Join(root, "chain", n))
		for i := 1 + r.IntN(4); i > 0; i-- {
			l := filepath.Join(root, []string{"chain", "cwd", "c3"}[r.IntN(3)], fmt.Sprintf("%d%s", i, n))
			if len(filepath.Base(l)) > 255 {
				l = filepath.Join(filepath.Dir(l), strconv.Itoa(i))
			}
			must(os.MkdirAll(filepath.Dir(l), 0o755))
			if r.IntN(2) == 0 {
				if rel, err := filepath.Rel(filepath.Dir(l), to); err == nil {
					to = rel
				}
			}
			must(os.Symlink(to, l))
			to = l
		}
		return cwd, to
	case 0:
		write(filepath.Join(cwd, "gevulot.toml"))
		return cwd, ""
	case 1:
		return cwd, write(filepath.Join(root, "etc", "conf with space.toml"))
	case 2:
		write(filepath.Join(cwd, "sub", "g.conf"))
		return cwd, "sub/g.conf"
	case 3:
		write(filepath.Join(root, "other", "žluť"))
		return cwd, "../other/žluť"
	case 4: // symlink to a file elsewhere
		p := write(filepath.Join(root, "real", "file"))
		must(os.Symlink(p, filepath.Join(cwd, "link.toml")))
		return cwd, "link.toml"
	case 5: // directory reached through a symlink
		write(filepath.Join(root, "d1", "g.toml"))
		must(os.Symlink("../d1", filepath.Join(cwd, "dlink")))
		return cwd, "./dlink/../dlink/g.toml"
	case 6:
		write(filepath.Join(cwd, "-dash=x"))
		return cwd, "-dash=x"
	default:
		return cwd, write(filepath.Join(root, "g.toml"))
	}
}

// brief is what is shown of a file.
func brief(s string) string {
	if len(s) > 1200 {
		return s[:600] + fmt.Sprintf("... [%d bytes] ...", len(s)) + s[len(s)-500:]
	}
	return s
}

// anyMode is a mode of a file that root can read.
func anyMode(r *rand.Rand) os.FileMode {
	return []os.FileMode{0o600, 0o640, 0o644, 0o664, 0o666, 0o444, 0o400, 0o755, 0o777, 0o440}[r.IntN(10)]
}

// anyTime is a modification time.
func anyTime(r *rand.Rand) time.Time {
	now := time.Now()
	return []time.Time{time.Unix(0, 0), time.Unix(1, 0), now.Add(-time.Hour), now.Add(time.Hour), now.AddDate(-10, 0, 0), now.AddDate(5, 0, 0), now.Truncate(time.Second), now.Add(-time.Minute)}[r.IntN(8)]
}

// oddName is an unusual name of a file.
func oddName(r *rand.Rand) string {
	if r.IntN(4) == 0 {
		for i := 0; i < 100; i++ {
			w := strings.TrimSpace(strings.ReplaceAll(wire.Word(r), "/", ""))
			if w != "" && len(w) < 200 && strings.Trim(w, ".") != "" && !strings.HasPrefix(w, "-") && utf8.ValidString(w) {
				return "_" + w[1:] + []string{"", ".toml"}[r.IntN(2)]
			}
		}
	}
	names := []string{
		"gevulot.toml~", ".gevulot.toml", ".#gevulot.toml", "#gevulot.toml#", "gevulot.toml.bak", "gevulot.toml.swp", ".gevulot.toml.swp", "gevulot.toml.tmp",
		"gevulot.toml.old", "gevulot.toml.1", "gevulot", "gevulot.json", "gevulot.yaml", "gevulot.TOML", "GEVULOT.TOML", "gevulot.conf", "4913", "...", "..toml",
		"~", "$HOME", "${word}", "%s", "%2e", "a*b?", "[x]", "a:b", "a,b", "a;b", "file:x", "\\", "\"", "'", "\t", "\n", " lead", "trail ", "tmp", "temp", "e\u0301", "\xff\xfe",
		strings.Repeat("n", 200), "gevulot.toml.lock", "gevulot.toml.new", "gevulot.toml.swx", "x.toml.toml", "a.b.c.d",
	}
	return names[r.IntN(len(names))]
}

func configArgs(r *rand.Rand, arg string) []string {
	if arg == "" {
		return nil
	}
	switch r.IntN(4) {
	case 0:
		if !strings.HasPrefix(arg, "-") {
			return []string{"--config", arg}
		}
		return []string{"--config=" + arg}
	case 1:
		if !strings.HasPrefix(arg, "-") && !strings.HasPrefix(arg, "=") {
			return []string{"-c", arg}
		}
		return []string{"--config=" + arg}
	case 2:
		return []string{"-v", "--config=" + arg}
	default:
		return []string{"--config=" + arg}
	}
}

// ---- C22 ----

func c22Good(t *mon.T) {
	r := t.Rand
	db := newFakeDB(t)
	name := dbNameFor(r)
	ls := listenSpecFor(r)
	url := urlFor(r, db.Port(), name)
	content := tomlFile(r, ls.spelled, url)
	cwd, arg := place(t, scratch(t), content)
	p := startProg(t, t.Env.Program, cwd, nil, configArgs(r, arg)...)
	p.ListensOn("listen", ls.listed, "as its configuration says:\n"+brief(content))
	c, d := p.Reaches("database", ls.dial, db, name, "as its configuration says:\n"+brief(content))
	// Another database is not reached.
	other := wire.Startup(wire.V3, []wire.Param{{Name: "user", Value: "u"}, {Name: "database", Value: name + "x"}})
	n := db.N()
	if conn, err := net.DialTimeout("tcp", ls.dial, 5*time.Second); err == nil {
		e := newEnd(conn, "other", false)
		e.Send(other, pieces(r, 0))
		p.Wait("other", "a client that asks for another database is disconnected", e.Over)
		e.Close()
	}
	if db.N() != n && !bytes.Equal(db.Conns()[n].Got(), []byte{}) {
		t.Fail("other", "a client that asks for %q reaches a server configured with %q", name+"x", url)
	}
	c.Close()
	p.Wait("session", "the session ends", d.Over)
	if p.Exited() {
		t.Fail("exit", "the program ended: %s", tailOf(p.err.String()))
	}
	t.Count("served", 1)
	t.Case(true, content, arg)
	t.Sample("%q at %q: listens on %s, reaches %q", brief(content), arg, ls.listed, name)
}

// badFile makes a configuration that must prevent serving; prepare returns false when the file does not exist.
func badFile(r *rand.Rand, good, listen, url string) (content string, kind string) {
	ll, dl := "listen = "+tomlString(r, listen)+"\n", "database-url = "+tomlString(r, url)+"\n"
	type bad struct{ kind, content string }
	all := []bad{
		{"empty", ""},
		{"blank", "\n  \n\t\n"},
		{"only a comment", "# nothing\n"},
		{"no listen", dl},
		{"no database-url", ll},
		{"empty listen", "listen = \"\"\n" + dl},
		{"empty database-url", ll + "database-url = ''\n"},
		{"listen commented out", "#" + ll + dl},
		{"database-url commented out", ll + "# " + dl},
		{"listen misspelled", "listne = '" + listen + "'\n" + dl},
		{"database-url misspelled", ll + "database_url = \"postgres://127.0.0.1/x\"\n"},
		{"database-url misspelled", ll + "databaseurl = \"postgres://127.0.0.1/x\"\n"},
		{"settings in a section", "[gevulot]\n" + ll + dl},
		{"database-url in a section", ll + "[database]\n" + dl},
		{"listen is a number", "listen = 4242\n" + dl},
		{"listen is a boolean", "listen = true\n" + dl},
		{"listen is a list", "listen = ['" + listen + "']\n" + dl},
		{"database-url is a number", ll + "database-url = 1\n"},
		{"database-url is a table", ll + "[database-url]\nx = 1\n"},
		{"listen is a date", "listen = 1979-05-27T07:32:00Z\n" + dl},
		{"duplicate key", ll + dl + "listen = \"127.0.0.1:1\"\n"},
		{"garbage at the end", good + "\n}{\n"},
		{"garbage at the start", "}{\n" + good},
		{"bare value", "listen = localhost\n" + dl},
		{"unterminated string", ll + "database-url = \"postgres://127.0.0.1/x\n"},
		{"unterminated string at the end", ll + "database-url = \"postgres://127.0.0.1/x"},
		{"no equals sign", ll + "database-url 'x'\n"},
		{"bad escape", "listen = \"127.0.0.1\\q:1\"\n" + dl},
		{"two values on a line", "listen = \"127.0.0.1:1\" \"x\"\n" + dl},
		{"unterminated section", good + "\n[x\n"},
		{"JSON", `{"listen": "127.0.0.1:1", "database-url": "postgres://127.0.0.1/x"}`},
		{"YAML", "listen: 127.0.0.1:1\ndatabase-url: postgres://127.0.0.1/x\n"},
		{"ini without quotes", "listen=127.0.0.1:1\ndatabase-url=postgres://127.0.0.1/x\n"},
		{"zeros", string(make([]byte, 100))},
		{"binary", "\x7fELF\x02\x01\x01\x00\x00\x00"},
		{"trouble in an escape", "x = \"\"\"a\\\r  b\"\"\"\n" + ll + dl},
		{"trouble in a short escape", "x = \"\"\"\\\\\n  ub\"\"\"\n" + ll + dl},
		{"trouble in an inline table", ll + dl + "[[t]]\nb={#x=1}\n"},
		{"newline in a string", "listen = \"127.0.0.1\n:1\"\n" + dl},
	}
	if r.IntN(6) == 0 { // cut inside one of the values
		s := ll + dl
		if r.IntN(2) == 0 {
			s = dl + ll
		}
		s = "listen = \"" + listen + "\"\ndatabase-url = \"" + strings.NewReplacer(`\`, "", `"`, "", "\t", "").Replace(url) + "\"\n"
		cut := 1 + r.IntN(len(s)-3)
		return s[:cut], fmt.Sprintf("cut after %d bytes", cut)
	}
	b := all[r.IntN(len(all))]
	return b.content, b.kind
}

func c22Bad(t *mon.T) {
	r := t.Rand
	for i := 0; i < t.Int("n"); i++ {
		db := newFakeDB(t)
		ls := listenSpecFor(r)
		url := urlFor(r, db.Port(), "db")
		good := tomlFile(r, ls.spelled, url)
		content, kind := badFile(r, good, ls.spelled, url)
		root := scratch(t)
		cwd, arg := "", ""
		switch r.IntN(12) {
		case 0:
			kind, content = "missing file", ""
			cwd, arg = root, filepath.Join(root, "nothing.toml")
			if r.IntN(2) == 0 {
				arg = ""
			}
		case 1:
			kind, content = "a directory", ""
			cwd, arg = root, root
		case 2:
			kind, content = "dangling symlink", ""
			_ = os.Symlink("nowhere", filepath.Join(root, "l"))
			cwd, arg = root, "l"
		case 3:
			kind, content = "missing directory", ""
			cwd, arg = root, "no/such/dir/g.toml"
		case 4:
			kind, content = "path through a file", ""
			_ = os.WriteFile(filepath.Join(root, "f"), []byte(good), 0o644)
			cwd, arg = root, "f/g.toml"
		case 5:
			kind, content = "symlink loop", ""
			_ = os.Symlink("l2", filepath.Join(root, "l1"))
			_ = os.Symlink("l1", filepath.Join(root, "l2"))
			cwd, arg = root, "l1"
		default:
			cwd, arg = place(t, root, content)
		}
		p := startProg(t, t.Env.Program, cwd, nil, configArgs(r, arg)...)
		polls := 0
		begin := time.Now()
		for !p.Exited() {
			polls++
			if l := p.Listening(); len(l) > 0 {
				t.Fail("serves", "the program listens on %v although its configuration is bad (%s): %q", l, kind, brief(content))
			}
			if time.Since(begin) > 5*time.Second {
				p.Wait("exits", fmt.Sprintf("the program exits because its configuration is bad (%s): %q", kind, brief(content)), p.Exited)
			}
			time.Sleep(200 * time.Microsecond)
		}
		if p.code <= 0 {
			t.Fail("exit-code", "the program exits with code %d although its configuration is bad (%s): %q", p.code, kind, brief(content))
		}
		if len(strings.TrimSpace(p.err.String())) == 0 {
			t.Fail("message", "the program prints no error although its configuration is bad (%s): %q", kind, brief(content))
		}
		if strings.Contains(p.err.String(), "goroutine ") && strings.Contains(p.err.String(), "panic") {
			t.Fail("panic", "the program panics on a bad configuration (%s) %q: %s", kind, brief(content), tailOf(p.err.String()))
		}
		if db.N() > 0 {
			t.Fail("serves", "the program connects to the database although its configuration is bad (%s): %q", kind, brief(content))
		}
		db.Close()
		t.Count("refused", 1)
		t.Count("socket_polls", polls)
		t.Case(true, kind, content, arg)
		t.Sample("%s: %q -> exit code %d, %q", kind, brief(content), p.code, strings.TrimSpace(p.err.String()))
	}
}

// ---- C23 ----

// saver writes a configuration file in different ways.
type saver struct {
	t     *mon.T
	path  string // what is saved (may be a symlink)
	dir   string // directory of path
	aside string // another directory of the same file system
	n     int
}

func (s *saver) must(err error) {
	if err != nil {
		s.t.Inconclusive("save: %v", err)
	}
}

func (s *saver) temp(dir, content string) string {
	s.n++
	p := filepath.Join(dir, fmt.Sprintf(".tmp%d~", s.n))
	s.must(os.WriteFile(p, []byte(content), 0o644))
	switch r := s.t.Rand; r.IntN(6) {
	case 0:
		s.must(os.Chmod(p, anyMode(r)))
	case 1: // an archive or a copy keeps the time of its contents
		s.must(os.Chtimes(p, time.Time{}, anyTime(r)))
	}
	return p
}

var saveWays = []string{"rewrite", "pieces", "overwrite", "rename", "rename-aside", "recreate", "backup", "link", "sync-rename", "k8s", "symlink-swap", "cp", "cp-p", "shell", "real-file", "chmod", "touched"}

func (s *saver) pause(r *rand.Rand) {
	switch r.IntN(4) {
	case 0:
	case 1:
		sleepUS(r.IntN(100))
	case 2:
		sleepUS(r.IntN(3000))
	default:
		sleepUS(r.IntN(20000))
	}
}

// save makes content the content of the file.
func (s *saver) save(r *rand.Rand, way, content string) {
	isLink := func() bool { fi, err := os.Lstat(s.path); return err == nil && fi.Mode()&os.ModeSymlink != 0 }
	if fi, err := os.Stat(s.path); err == nil && fi.IsDir() { // someone put a directory there
		s.must(os.Remove(s.path))
	}
	switch way {
	case "rewrite":
		s.must(os.WriteFile(s.path, []byte(content), 0o644))
	case "pieces":
		f, err := os.OpenFile(s.path, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0o644)
		s.must(err)
		for rest := content; len(rest) > 0; {
			n := 1 + r.IntN(len(rest))
			_, err := f.WriteString(rest[:n])
			s.must(err)
			rest = rest[n:]
			s.pause(r)
		}
		s.must(f.Close())
	case "overwrite": // in place, the length is adjusted last
		f, err := os.OpenFile(s.path, os.O_WRONLY|os.O_CREATE, 0o644)
		s.must(err)
		_, err = f.WriteAt([]byte(content), 0)
		s.must(err)
		s.pause(r)
		s.must(f.Truncate(int64(len(content))))
		s.must(f.Close())
	case "rename":
		s.must(os.Rename(s.temp(s.dir, content), s.path))
	case "rename-aside":
		s.must(os.Rename(s.temp(s.aside, content), s.path))
	case "sync-rename":
		p := s.temp(s.dir, content)
		if f, err := os.Open(p); err == nil {
			_ = f.Sync()
			f.Close()
		}
		s.must(os.Rename(p, s.path))
	case "recreate":
		_ = os.Remove(s.path)
		s.pause(r)
		s.must(os.WriteFile(s.path, []byte(content), 0o644))
	case "backup": // like an editor: move the old one away, write a new one, delete the old one
		old := s.path + "~"
		_ = os.Rename(s.path, old)
		s.pause(r)
		s.must(os.WriteFile(s.path, []byte(content), 0o644))
		s.pause(r)
		_ = os.Remove(old)
	case "link":
		p := s.temp(s.dir, content)
		_ = os.Remove(s.path)
		s.must(os.Link(p, s.path))
		_ = os.Remove(p)
	case "symlink-swap": // the path becomes a symlink to a new file, atomically
		s.n++
		real := filepath.Join(s.aside, fmt.Sprintf("real%d", s.n))
		s.must(os.WriteFile(real, []byte(content), 0o644))
		l := filepath.Join(s.dir, fmt.Sprintf(".l%d", s.n))
		s.must(os.Symlink(real, l))
		s.must(os.Rename(l, s.path))
	case "k8s": // path -> ..data/conf, ..data -> versioned directory
		s.n++
		ver := filepath.Join(s.dir, fmt.Sprintf("..v%d", s.n))
		s.must(os.Mkdir(ver, 0o755))
		s.must(os.WriteFile(filepath.Join(ver, "conf"), []byte(content), 0o644))
		data := filepath.Join(s.dir, "..data")
		if _, err := os.Lstat(data); err == nil {
			if l, err := os.Readlink(s.path); err == nil && l == "..data/conf" {
				tmp := filepath.Join(s.dir, "..data_tmp")
				_ = os.Remove(tmp)
				s.must(os.Symlink(filepath.Base(ver), tmp))
				old, _ := os.Readlink(data)
				s.must(os.Rename(tmp, data))
				if r.IntN(2) == 0 && old != "" {
					s.must(os.RemoveAll(filepath.Join(s.dir, old)))
				}
				return
			}
		}
		tmp := filepath.Join(s.dir, "..data_tmp")
		_ = os.Remove(tmp)
		s.must(os.Symlink(filepath.Base(ver), tmp))
		s.must(os.Rename(tmp, data))
		l := filepath.Join(s.dir, fmt.Sprintf(".l%d", s.n))
		s.must(os.Symlink("..data/conf", l))
		s.must(os.Rename(l, s.path))
	case "cp":
		p := s.temp(s.aside, content)
		out, err := exec.Command("cp", p, s.path).CombinedOutput()
		if err != nil {
			s.t.Inconclusive("cp: %v %s", err, out)
		}
	case "cp-p": // with the time and the mode of the original
		p := s.temp(s.aside, content)
		out, err := exec.Command("cp", "-p", p, s.path).CombinedOutput()
		if err != nil {
			s.t.Inconclusive("cp: %v %s", err, out)
		}
	case "chmod": // contents and mode one after the other
		s.must(os.WriteFile(s.path, []byte(content), 0o644))
		s.pause(r)
		s.must(os.Chmod(s.path, anyMode(r)))
	case "touched": // contents and time one after the other
		s.must(os.WriteFile(s.path, []byte(content), 0o644))
		s.pause(r)
		s.must(os.Chtimes(s.path, time.Time{}, anyTime(r)))
	case "shell":
		c := exec.Command("bash", "-c", `cat > "$1"`, "x", s.path)
		c.Stdin = strings.NewReader(content)
		s.must(c.Run())
	case "real-file": // the file behind a symlink is written
		p := s.path
		if isLink() {
			if q, err := filepath.EvalSymlinks(s.path); err == nil {
				p = q
			}
		}
		s.must(os.WriteFile(p, []byte(content), 0o644))
	}
}

var badSaves = []string{"empty", "syntax", "no-listen", "half", "missing", "directory", "wrong-type", "empty-listen"}

func (s *saver) spoil(r *rand.Rand, how, good string) {
	way := []string{"rewrite", "pieces", "rename", "rename-aside", "recreate", "backup"}[r.IntN(6)] // "overwrite" would mix old and new to something usable
	switch how {
	case "empty":
		s.save(r, way, "")
	case "syntax":
		s.save(r, way, good+[]string{"\n= = =\n", "\n[x\n", "\nx = \"\"\"\\\\\n  ub\"\"\"\n", "\n[[t]]\nb={#x=1}\n", "\nx = '"}[r.IntN(5)])
	case "no-listen":
		s.save(r, way, "database-url = \"postgres://u@127.0.0.1:1/none\"\n")
	case "empty-listen":
		s.save(r, way, "listen = \"\"\ndatabase-url = \"postgres://u@127.0.0.1:1/none\"\n")
	case "half":
		s.save(r, way, "database-url = \"postgres://u@127.0.0.1:1/none\"\nlisten = \"127.0.")
	case "wrong-type":
		s.save(r, way, "listen = 12\ndatabase-url = \"postgres://u@127.0.0.1:1/none\"\n")
	case "missing":
		_ = os.Remove(s.path)
	case "directory":
		_ = os.Remove(s.path)
		s.must(os.Mkdir(s.path, 0o755))
	}
}

type setting struct {
	addr string
	db   *FakeDB
	name string
}

func c23Reload(t *mon.T) {
	r := t.Rand
	root := scratch(t)
	aside := filepath.Join(root, "aside")
	_ = os.Mkdir(aside, 0o755)
	var addrs []string
	for i := 0; i < 3; i++ {
		addrs = append(addrs, fmt.Sprintf("%s:%d", slotIP(i), slotPort()))
	}
	dbs := []*FakeDB{newFakeDB(t), newFakeDB(t)}
	serial := 0
	fresh := func() setting {
		serial++
		return setting{addrs[r.IntN(len(addrs))], dbs[r.IntN(len(dbs))], fmt.Sprintf("db%d", serial)}
	}
	text := func(s setting) string {
		if r.IntN(2) == 0 {
			return fmt.Sprintf("listen = %q\ndatabase-url = \"postgres://u@127.0.0.1:%d/%s\"\n", s.addr, s.db.Port(), s.name)
		}
		return tomlFile(r, s.addr, fmt.Sprintf("postgres://u@127.0.0.1:%d/%s", s.db.Port(), s.name))
	}
	cur := fresh()
	cwd, arg := place(t, root, text(cur))
	path := filepath.Join(cwd, arg)
	if filepath.IsAbs(arg) {
		path = arg
	}
	if arg == "" {
		path = filepath.Join(cwd, "gevulot.toml")
	}
	s := &saver{t: t, path: path, dir: filepath.Dir(path), aside: aside}
	var plan *sched.Plan
	if t.Int("instrumented") == 1 {
		pl := t.Plan
		plan = &pl
	}
	history := fmt.Sprintf("(path %q) ", arg)
	ways := func() string {
		if n := t.Int("way"); n > 0 && r.IntN(2) == 0 {
			return saveWays[n-1]
		}
		return saveWays[r.IntN(len(saveWays))]
	}
	p := startProg(t, t.Env.Program, cwd, plan, configArgs(r, arg)...)
	if t.Int("early") == 1 { // save while it starts
		for k := 1 + r.IntN(3); k > 0; k-- {
			sleepUS(r.IntN([]int{200, 4000, 30000}[r.IntN(3)]))
			cur = fresh()
			// The program must always find a file, so the replacement is atomic.
			s.save(r, []string{"rename", "rename-aside", "symlink-swap", "symlink-swap", "sync-rename"}[r.IntN(5)], text(cur))
			history += "early save; "
			t.Count("saves", 1)
		}
	}
	p.ListensOn("listen", cur.addr, "after the start; "+history)
	type pair struct{ c, d *End }
	var sessions []pair
	check := func(when string) {
		p.ListensOn("listen", cur.addr, when)
		c, d := p.Reaches("database", cur.addr, cur.db, cur.name, when)
		if l := p.Listening(); len(l) != 1 || l[0] != cur.addr {
			t.Fail("listen", "the program listens on %v instead of %s %s", l, cur.addr, when)
		}
		sessions = append(sessions, pair{c, d})
		if len(sessions) > 3 {
			sessions[0].c.Close()
			sessions = sessions[1:]
		}
		for _, q := range sessions {
			msg := wire.Std('Q', append([]byte(fmt.Sprintf("select %d", r.Uint32())), 0))
			n := q.d.Len()
			q.c.Send(msg, pieces(r, 0))
			p.Wait("session", "an established session survives "+when, func() bool { return q.d.Len() >= n+len(msg) || q.c.Over() })
			if q.c.Over() {
				t.Fail("session", "an established session is disconnected %s", when)
			}
		}
		t.Count("converged", 1)
	}
	check("after the start; " + history)
	settled := true
	for k := 0; k < t.Int("n"); k++ {
		switch r.IntN(5) {
		case 0: // contents that cannot be loaded
			if !settled && r.IntN(4) > 0 {
				check("after saving it: " + history)
				settled = true
			}
			how := badSaves[r.IntN(len(badSaves))]
			s.spoil(r, how, text(cur))
			history += "spoiled (" + how + "); "
			if len(history) > 1500 {
				history = "... " + history[len(history)-1000:]
			}
			if r.IntN(2) == 0 {
				sleepUS(r.IntN(60000))
				if p.Exited() {
					t.Fail("exits", "the program exits when its configuration file is %s: %s", how, tailOf(p.err.String()))
				}
				if settled {
					check("after its file was made unusable; " + history)
				}
			}
			t.Count("spoiled", 1)
			s.restore(r, text, cur)
			continue
		case 1: // a burst
			n := 2 + r.IntN(20)
			for i := 0; i < n; i++ {
				cur = fresh()
				w := ways()
				s.save(r, w, text(cur))
				if i > n-4 {
					history += "burst " + w + "; "
				}
				if r.IntN(3) == 0 {
					s.pause(r)
				}
			}
			t.Count("saves", n)
		default:
			cur = fresh()
			w := ways()
			s.save(r, w, text(cur))
			history += w + "; "
			t.Count("saves", 1)
		}
		if len(history) > 1500 {
			history = "... " + history[len(history)-1000:]
		}
		settled = false
		if r.IntN(3) > 0 || k == t.Int("n")-1 {
			settled = true
			check("after saving it: " + history)
		}
	}
	check("at the end: " + history)
	t.Case(true, history, t.Plan.Points)
	t.Sample("%s", history)
}

// restore brings back a usable file after it was spoiled.
func (s *saver) restore(r *rand.Rand, text func(setting) string, cur setting) {
	s.save(r, saveWays[r.IntN(len(saveWays))], text(cur))
}

// c23Flood loses file system events before the last save.
func c23Flood(t *mon.T) {
	r := t.Rand
	dir := scratch(t)
	path := filepath.Join(dir, "g.toml")
	db := newFakeDB(t)
	a, b := fmt.Sprintf("%s:%d", slotIP(0), slotPort()), fmt.Sprintf("%s:%d", slotIP(1), slotPort())
	text := func(addr, name string) []byte {
		return []byte(fmt.Sprintf("listen = %q\ndatabase-url = \"postgres://u@127.0.0.1:%d/%s\"\n", addr, db.Port(), name))
	}
	if err := os.WriteFile(path, text(a, "one"), 0o644); err != nil {
		t.Inconclusive("%v", err)
	}
	plan := &t.Plan
	if t.Int("plain") == 1 {
		plan = nil
	}
	p := startProg(t, t.Env.Program, dir, plan, "-c", path)
	p.ListensOn("listen", a, "after the start")
	// The queue of the kernel holds 16384 events.
	// Mostly events of another file, so that only the overflow itself tells about the save.
	noisy := path
	if t.Int("own") == 0 {
		noisy = filepath.Join(dir, "noise")
	}
	f, err := os.OpenFile(noisy, os.O_WRONLY|os.O_CREATE, 0o644)
	if err != nil {
		t.Inconclusive("%v", err)
	}
	defer f.Close()
	c := text(a, "one")
	events := 20000 + 2*r.IntN(20000)
	if !p.Freeze() {
		t.Inconclusive("cannot stop the program")
	}
	for i := 0; i < events/2; i++ {
		_, _ = f.WriteAt(c[:1], 0)
		_ = f.Chmod(os.FileMode(0o600 + i%2*0o44))
	}
	if r.IntN(2) == 0 {
		if err := os.WriteFile(path, text(b, "two"), 0o644); err != nil {
			t.Inconclusive("%v", err)
		}
	} else {
		tmp := filepath.Join(dir, "t")
		if err := os.WriteFile(tmp, text(b, "two"), 0o644); err != nil {
			t.Inconclusive("%v", err)
		}
		_ = os.Rename(tmp, path)
	}
	p.Thaw()
	p.ListensOn("listen", b, "although file system events were lost")
	p.Reaches("database", b, db, "two", "although file system events were lost")
	if err := os.WriteFile(path, text(a, "three"), 0o644); err != nil {
		t.Inconclusive("%v", err)
	}
	p.ListensOn("listen", a, "after file system events had been lost")
	p.Reaches("database", a, db, "three", "after file system events had been lost")
	t.Count("floods", 1)
	if strings.Contains(p.out.String()+p.err.String(), "overflow") {
		t.Count("overflows_logged", 1)
	}
	t.Case(true, t.Plan.Points)
}

// ---- C24 ----

func c24Info(t *mon.T) {
	r := t.Rand
	for i := 0; i < t.Int("n"); i++ {
		root := scratch(t)
		ls := listenSpecFor(r)
		good := filepath.Join(root, "gevulot.toml")
		_ = os.WriteFile(good, []byte(tomlFile(r, ls.spelled, "postgres://u@127.0.0.1:1/x")), 0o644)
		fifo := filepath.Join(root, "fifo")
		_ = syscall.Mkfifo(fifo, 0o644)
		var args []string
		kind := []string{"--help", "--version"}[r.IntN(2)]
		args = append(args, kind)
		switch r.IntN(6) {
		case 0:
			args = append(args, "--config="+fifo) // reading it would hang
		case 1:
			args = append(args, "-c", "nothing.toml")
		case 2:
			args = append(args, "-c"+good)
		case 3:
			args = append(args, "--config", root)
		}
		if r.IntN(2) == 0 {
			args = append(args, []string{"-v", "--verbose"}[r.IntN(2)])
		}
		if len(args) > 2 && strings.HasPrefix(args[1], "-c") && len(args[1]) == 2 {
			// keep the value behind its flag
			if r.IntN(2) == 0 {
				args = append(args[1:3:3], append(args[3:], args[0])...)
			}
		} else if r.IntN(2) == 0 && !contains(args, "--config") {
			r.Shuffle(len(args), func(i, j int) { args[i], args[j] = args[j], args[i] })
		}
		p := startProg(t, t.Env.Program, root, nil, args...)
		for !p.Exited() {
			if l := p.Listening(); len(l) > 0 {
				t.Fail("serves", "%q listens on %v", args, l)
			}
			if w, err := os.OpenFile(fifo, os.O_WRONLY|syscall.O_NONBLOCK, 0); err == nil {
				w.Close()
				t.Fail("reads", "%q reads the configuration", args)
			}
			sleepUS(100)
			if p.t.Failed() {
				break
			}
			p.waitABit()
		}
		text := p.out.String() + p.err.String()
		if p.code != 0 {
			t.Fail("exit-code", "%q exits with %d: %s", args, p.code, tailOf(text))
		}
		if kind == "--help" && !(strings.Contains(text, "usage: gevulot") && strings.Contains(text, "--config") && strings.Contains(text, "--verbose") && strings.Contains(text, "--version")) {
			t.Fail("text", "%q does not print the help: %s", args, tailOf(text))
		}
		if kind == "--version" && !regexp.MustCompile(`gevulot version \S+ \(.*\) built on \S+`).MatchString(text) {
			t.Fail("text", "%q does not print the version: %s", args, tailOf(text))
		}
		t.Count("information", 1)
		t.Case(true, args)
		t.Sample("%q: exit code 0", args)
	}
}

func (p *Prog) waitABit() {
	n := 0
	p.Wait("exits", "the program exits", func() bool { n++; return p.Exited() || n > 3 })
}

func contains(a []string, s string) bool {
	for _, x := range a {
		if x == s {
			return true
		}
	}
	return false
}

func c24Invalid(t *mon.T) {
	r := t.Rand
	for i := 0; i < t.Int("n"); i++ {
		root := scratch(t)
		ls := listenSpecFor(r)
		good := filepath.Join(root, "gevulot.toml")
		_ = os.WriteFile(good, []byte(tomlFile(r, ls.spelled, "postgres://u@127.0.0.1:1/x")), 0o644)
		invalid := [][]string{
			{"--bogus"}, {"--bogus=1"}, {"-x"}, {"-vx"}, {"serve"}, {"gevulot.toml"}, {""}, {" "}, {"--verbose=maybe"}, {"--verbose", "yes"},
			{"--config"}, {"-c"}, {"-vc"}, {"--config=gevulot.toml", "--config=gevulot.toml"}, {"-c", "gevulot.toml", "-c", "gevulot.toml"},
			{"--conf=gevulot.toml"}, {"---verbose"}, {"-config=gevulot.toml"}, {"--Verbose"}, {"--CONFIG=gevulot.toml"}, {"--", "-v"}, {"-V"}, {"-h"},
			{"--config=gevulot.toml", "extra"}, {"--listen=127.0.0.1:1"}, {"--no-config"}, {"--version=1"},
			{fmt.Sprintf("--%c%c", 'a'+r.IntN(26), 'a'+r.IntN(26))}, {fmt.Sprintf("word%d", r.IntN(1000))},
		}
		args := invalid[r.IntN(len(invalid))]
		if r.IntN(3) == 0 && !contains(args, "-c") && !contains(args, "--config") && !contains(args, "-vc") {
			args = append(append([]string{}, args...), []string{"-v", "--config=" + good}[r.IntN(2)])
			if n := strings.Count(strings.Join(args, " "), "--config="); n > 1 && !strings.Contains(args[0], "--") {
				continue
			}
		}
		p := startProg(t, t.Env.Program, root, nil, args...)
		for !p.Exited() {
			if l := p.Listening(); len(l) > 0 {
				t.Fail("serves", "%q serves on %v", args, l)
			}
			sleepUS(100)
			p.waitABit()
		}
		if p.code <= 0 {
			t.Fail("exit-code", "%q exits with %d", args, p.code)
		}
		if strings.TrimSpace(p.err.String()) == "" {
			t.Fail("message", "%q prints nothing on standard error", args)
		}
		t.Count("invalid", 1)
		t.Case(true, args)
		t.Sample("%q: exit code %d, %q", args, p.code, strings.TrimSpace(p.err.String()))
	}
}

var logNoise = regexp.MustCompile(`\d+`)

// logLines returns the log lines without numbers, debug ones apart.
func logLines(s string) (debug, others []string) {
	for _, l := range strings.Split(s, "\n") {
		if l == "" {
			continue
		}
		n := logNoise.ReplaceAllString(l, "N")
		if strings.Contains(l, "level=debug") {
			debug = append(debug, n)
		} else {
			others = append(others, n)
		}
	}
	sort.Strings(others)
	return
}

func c24Serve(t *mon.T) {
	r := t.Rand
	root := scratch(t)
	db := newFakeDB(t)
	bin := filepath.Join(root, "bin")
	cwd := filepath.Join(root, "cwd")
	_ = os.Mkdir(bin, 0o755)
	_ = os.Mkdir(cwd, 0o755)
	prog := filepath.Join(bin, "gevulot")
	if err := os.Link(t.Env.Program, prog); err != nil {
		b, err := os.ReadFile(t.Env.Program)
		if err == nil {
			err = os.WriteFile(prog, b, 0o755)
		}
		if err != nil {
			t.Inconclusive("%v", err)
		}
	}
	_ = os.Chmod(prog, 0o755)
	here, decoy, third := listenSpecFor(r), listenSpecFor(r), listenSpecFor(r)
	url := fmt.Sprintf("postgres://u@127.0.0.1:%d/db", db.Port())
	write := func(p string, ls listenSpec) { _ = os.WriteFile(p, []byte(tomlFile(r, ls.spelled, url)), 0o644) }
	hasHere, hasDecoy := r.IntN(4) > 0, r.IntN(4) > 0
	if hasHere {
		write(filepath.Join(cwd, "gevulot.toml"), here)
	}
	if hasDecoy {
		write(filepath.Join(bin, "gevulot.toml"), decoy)
	}
	other := "third.toml"
	if r.IntN(2) == 0 {
		other = oddName(r)
	}
	write(filepath.Join(root, other), third)
	var args []string
	want, ok := here, hasHere
	switch r.IntN(5) {
	case 0:
		args, want, ok = []string{"-c", "../" + other}, third, true
	case 1:
		args, want, ok = []string{"--config=" + filepath.Join(root, other)}, third, true
	}
	how := r.IntN(3)
	call := prog
	switch how {
	case 1:
		call = "../bin/gevulot"
	case 2:
		call = filepath.Join(cwd, "link")
		_ = os.Symlink(prog, call)
	}
	describe := fmt.Sprintf("%q %q (configuration in the current directory: %v, beside the program: %v)", call, args, hasHere, hasDecoy)
	run := func(args []string) (stdout, stderr string, code int) {
		p := startProg(t, call, cwd, nil, args...)
		if !ok {
			p.Wait("exits", describe+" exits since there is no configuration", func() bool {
				if l := p.Listening(); len(l) > 0 {
					t.Fail("serves", "%s serves on %v without a configuration", describe, l)
				}
				return p.Exited()
			})
			return p.out.String(), p.err.String(), p.code
		}
		p.ListensOn("listen", want.listed, "when called as "+describe)
		n := db.N()
		c, d := p.Reaches("database", want.dial, db, "db", "when called as "+describe)
		msg := wire.Std('Q', []byte("x\x00"))
		k := d.Len()
		c.Send(msg, pieces(r, 0))
		p.Wait("session", "traffic", func() bool { return d.Len() >= k+len(msg) })
		c.Close()
		p.Wait("session", "the session ends", d.Over)
		_ = n
		// Let it write its log.
		last, since := "", time.Now()
		p.Wait("session", "the log ends", func() bool {
			if s := p.out.String(); s != last {
				last, since = s, time.Now()
			}
			return time.Since(since) > 150*time.Millisecond
		})
		if p.Exited() {
			t.Fail("exit", "%s ends: %s", describe, tailOf(p.err.String()))
		}
		p.Kill()
		p.Wait("freed", "the address is free again", func() bool { return listening()[want.listed] == "" })
		return p.out.String(), p.err.String(), -1
	}
	o1, e1, code := run(args)
	if !ok && (code <= 0 || strings.TrimSpace(e1) == "") {
		t.Fail("exit-code", "%s exits with %d and message %q", describe, code, e1)
	}
	o2, e2, code2 := run(append([]string{[]string{"-v", "--verbose"}[r.IntN(2)]}, args...))
	if code != code2 {
		t.Fail("verbose", "%s: exit code %d, with --verbose %d", describe, code, code2)
	}
	d1, l1 := logLines(o1 + e1)
	d2, l2 := logLines(o2 + e2)
	if len(d1) > 0 {
		t.Fail("verbose", "%s: debug output without --verbose: %q", describe, d1)
	}
	if len(d2) == 0 {
		t.Fail("verbose", "%s: no debug output with --verbose", describe)
	}
	// What else is printed stays on the stream it is printed on.
	for _, s := range []struct{ name, without, with string }{{"output", o1, o2}, {"error", e1, e2}} {
		_, l1 := logLines(s.without)
		_, l2 := logLines(s.with)
		if len(l1) == 0 != (len(l2) == 0) || !ok && strings.Join(l1, "\n") != strings.Join(l2, "\n") {
			t.Fail("verbose", "%s: --verbose changes what else is printed to standard %s:\n%s\n---\n%s", describe, s.name, strings.Join(l1, "\n"), strings.Join(l2, "\n"))
		}
	}
	if !ok && strings.Join(l1, "\n") != strings.Join(l2, "\n") {
		t.Fail("verbose", "%s: --verbose changes more than debug output:\n%s\n---\n%s", describe, strings.Join(l1, "\n"), strings.Join(l2, "\n"))
	}
	t.Count("debug_lines", len(d2))
	if ok {
		t.Count("served", 1)
	}
	t.Case(true, how, args, hasHere, hasDecoy, r.Uint32())
	t.Sample("%s: serves: %v, listens on %s", describe, ok, want.listed)
}

func init() {
	mon.Register(&mon.Property{
		ID: "C22",
		Rule: "TOML files with both settings in any order, spelling (basic, literal, multi-line strings, escapes), keys quoted, comments, other keys, sections with the same names, CRLF; at eight kinds of places; and files with 40 kinds of defects, cut at every point, missing or unreadable in six ways; the real program is run on each. Distinct by file and place. " +
			"Oracle: listening sockets of the process (kernel), the database endpoint and name reached, exit code, standard error.",
		Scenarios:   map[string]func(*mon.T){"good": c22Good, "bad": c22Bad},
		MinDistinct: 300,
		NeedProgram: true,
		Plan: func(r *mon.Run) {
			var ts []mon.Task
			for i := 0; i < r.Pick(1600, 12000); i++ {
				ts = append(ts, r.Task("good", nil))
			}
			for i := 0; i < r.Pick(400, 4000); i++ {
				ts = append(ts, r.Task("bad", map[string]int{"n": 8}))
			}
			r.Do(ts)
		},
	})
	mon.Register(&mon.Property{
		ID: "C23",
		Rule: "histories of saves of the configuration of the running program in 14 ways (in place, pieces, rename, delete and create, symlinks, hard links, tools), single and in bursts of up to 21, during the start, with contents that cannot be loaded in 8 ways in between; real program and instrumented build with delays at each statement of the reload code; and histories that overflow the kernel's event queue. Distinct by history and delays. " +
			"Oracle: after the last save the process listens exactly on the last address and a new client reaches the last database and name, or no thread runs any more; established sessions go on; after unusable contents the previous settings hold.",
		Scenarios:   map[string]func(*mon.T){"reload": c23Reload, "flood": c23Flood},
		MinDistinct: 150,
		NeedProgram: true,
		Plan: func(r *mon.Run) {
			sites := sitesOf(r, "pkg/cli/")
			var ts []mon.Task
			for _, s := range sites {
				for k := 0; k < r.Pick(5, 40); k++ {
					tk := r.Task("reload", map[string]int{"n": 1, "early": 1, "instrumented": 1})
					tk.Plan = sched.Plan{Points: []sched.Point{{Site: s, First: 1, Count: 1 + k%2, DelayUS: []int{15000, 40000, 4000}[k%3]}}}
					ts = append(ts, tk)
				}
			}
			for w := range saveWays {
				for k := 0; k < r.Pick(4, 100); k++ {
					ts = append(ts, r.Task("reload", map[string]int{"n": r.Pick(10, 20), "way": w + 1, "early": k % 2}))
				}
			}
			for k := 0; k < r.Pick(40, 1500); k++ {
				tk := r.Task("reload", map[string]int{"n": 8, "early": k % 2, "instrumented": 1})
				tk.Plan = randomPlan(r.Rand, sites)
				ts = append(ts, tk)
			}
			for _, s := range sitesOf(r, "pkg/cli/file_watcher", "pkg/cli/watch_server_config", "pkg/cli/read_server_config") {
				for h := 1; h <= r.Pick(1, 4); h++ {
					tk := r.Task("flood", map[string]int{"own": h / 4})
					tk.Plan = sched.Plan{Points: []sched.Point{{Site: s, First: h + 1, Count: 1, DelayUS: 2000 + 30000*(h%2)}}}
					ts = append(ts, tk)
				}
			}
			// Plain program.
			for k := 0; k < r.Pick(4, 100); k++ {
				ts = append(ts, r.Task("flood", map[string]int{"plain": 1, "own": k % 2}))
			}
			r.Do(ts)
		},
	})
	mon.Register(&mon.Property{
		ID: "C24",
		Rule: "generated command lines of the real program: information flags with all other valid flags in any order, with a FIFO, a directory, a missing and a good file as configuration; 29 kinds of invalid arguments beside a good configuration; serving calls by absolute path, relative path and symlink with configurations in the current directory, beside the program and elsewhere, with and without --verbose. Distinct by arguments (and seed for serving calls). " +
			"Oracle: exit code, output, listening sockets, whether the FIFO is opened, comparison of outputs with and without --verbose.",
		Scenarios:   map[string]func(*mon.T){"info": c24Info, "invalid": c24Invalid, "serve": c24Serve},
		MinDistinct: 60,
		NeedProgram: true,
		Plan: func(r *mon.Run) {
			var ts []mon.Task
			for i := 0; i < r.Pick(24, 400); i++ {
				ts = append(ts, r.Task("info", map[string]int{"n": 10}), r.Task("invalid", map[string]int{"n": 12}))
			}
			for i := 0; i < r.Pick(96, 2000); i++ {
				ts = append(ts, r.Task("serve", nil))
			}
			r.Do(ts)
		},
	})
}
