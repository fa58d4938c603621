package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand/v2"
	"net/url"
	"os/user"
	"runtime"
	"runtime/metrics"
	"slices"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/hired/gevulot/pkg/pg"

	"verif.local/harness/mon"
	"verif.local/harness/wire"
)

// ---- C03 ----

// Allocation allowance: linear in the bytes received plus a constant.
const (
	allocPerByte = 128
	allocConst   = 256 << 10
)

func allocated() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

func cpuTime() time.Duration {
	var u syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

// spin runs f(step) for step = 0..n-1 in a goroutine and reports a step that burns CPU time without ending.
func spin(t *mon.T, n int, what func(int) string, f func(int)) {
	var at atomic.Int64
	done := make(chan any, 1)
	go func() {
		defer func() { done <- recover() }()
		for i := 0; i < n; i++ {
			at.Store(int64(i))
			f(i)
		}
	}()
	last, since := int64(-1), cpuTime()
	tick := time.NewTicker(50 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case r := <-done:
			if r != nil {
				panic(r)
			}
			return
		case <-tick.C:
			if i := at.Load(); i != last {
				last, since = i, cpuTime()
			} else if cpuTime()-since > 15*time.Second {
				t.Fail("loop", "does not end although all input is there (15 s of CPU time): %s", what(int(i)))
			}
		}
	}
}

// hostile makes a byte string.
func hostile(r *rand.Rand) ([]byte, string) {
	edge := func() int {
		e := []int{-1, -2, -4, -5, 0, 1, 2, 3, 4, 5, 8, 255, 256, 1000, 32767, 32768, 65535, 1 << 20, 1 << 24, 1<<31 - 1, -1 << 31, 1 << 30, 0x01000000}
		return e[r.IntN(len(e))]
	}
	types := "RvKSpZQTDCIENXdcfFPBHG1@"
	switch r.IntN(6) {
	case 0:
		return wire.Bytes(r, 3000), "random"
	case 1: // a type, a hostile length, some bytes
		return wire.B{types[r.IntN(len(types))]}.I32(edge()).Raw(wire.Bytes(r, 600)), "length"
	case 2: // right length, hostile counts
		b := wire.B{}
		typ := "vTDvTDRKSZ"[r.IntN(10)]
		switch typ {
		case 'v':
			b = b.I32(wire.V3).I32(edge())
		case 'T':
			b = b.I16(edge())
		case 'D':
			b = b.I16(edge())
			if r.IntN(2) == 0 {
				b = wire.B{}.I16(1 + r.IntN(3)).I32(edge())
			}
		}
		b = b.Raw(wire.Bytes(r, 400))
		return wire.Std(typ, b), "count"
	case 3: // mutated valid message
		v := genValue(r, valueKinds[r.IntN(len(valueKinds))], 500, false)
		b := v.bytes
		for k := 1 + r.IntN(3); k > 0; k-- {
			b, _ = mutate(r, b)
		}
		return b, "mutated " + v.kind
	case 4: // start-up packet
		b := wire.B{}.I32(edge()).I32([]int{wire.V3, wire.SSLReq, wire.Cancel, wire.GSSReq, edge()}[r.IntN(5)]).Raw(wire.Bytes(r, 400))
		if r.IntN(2) == 0 {
			b = wire.Start(b[4:])
		}
		return b, "startup"
	default: // many tiny elements
		n := r.IntN(30000)
		switch r.IntN(5) {
		case 0:
			return wire.Std("EN"[r.IntN(2)], append(bytes.Repeat([]byte{'M', 0}, n), 0)), "tiny fields"
		case 1:
			return wire.Start(append(wire.B{}.I32(wire.V3).Raw(bytes.Repeat([]byte{'a', 0, 0}, n)), 0)), "tiny parameters"
		case 2:
			return wire.Std('v', wire.B{}.I32(0).I32(n).Raw(make([]byte, n))), "tiny options"
		case 3:
			return wire.Std('D', wire.B{}.I16(n).Raw(bytes.Repeat([]byte{255, 255, 255, 255}, n))), "nulls"
		default:
			return wire.Std('D', wire.B{}.I16(n).Raw(make([]byte, 4*n))), "empty columns"
		}
	}
}

func c03Hostile(t *mon.T) {
	r := t.Rand
	n := t.Int("n")
	var cur atomic.Pointer[string]
	names := []string{}
	for k := range parsers {
		names = append(names, k)
	}
	worst := 0.0
	spin(t, n, func(int) string { return *cur.Load() }, func(i int) {
		in, kind := hostile(r)
		label := kind + " " + clip(in)
		cur.Store(&label)
		measure := func(what string, size int, f func()) {
			before := allocated()
			guard(t, "panic:"+what, what+" of "+label, f)
			got := allocated() - before
			limit := uint64(allocPerByte*size + allocConst)
			if got > limit {
				// The cheap counter lags: measure again exactly, the lowest of three.
				t.Count("exact_measurements", 1)
				for k := 0; k < 3; k++ {
					var a, b runtime.MemStats
					runtime.ReadMemStats(&a)
					guard(t, "panic:"+what, what+" of "+label, f)
					runtime.ReadMemStats(&b)
					got = min(got, b.TotalAlloc-a.TotalAlloc)
				}
			}
			if got > limit {
				t.Fail("alloc:"+what, "%s allocates %d bytes for %d received: %s", what, got, size, label)
			}
			if size > 2000 {
				worst = max(worst, float64(got)/float64(size))
			}
			t.Count("calls_measured", 1)
		}
		read := func(what string, f func(c *pg.Conn) error) {
			measure(what, len(in), func() {
				rd := &countReader{b: in}
				c := pg.NewConn(&bytesConn{Reader: rd})
				for k := 0; ; k++ {
					before := rd.taken
					err := f(c)
					if err != nil {
						break
					}
					t.Count("messages_decoded", 1)
					if rd.taken == before && k > len(in) {
						t.Fail("no-progress:"+what, "%s keeps returning messages without reading: %s", what, label)
					}
				}
			})
		}
		read("RecvMessage", func(c *pg.Conn) error { _, err := c.RecvMessage(); return err })
		read("RecvStartupMessage", func(c *pg.Conn) error { _, err := c.RecvStartupMessage(); return err })
		for _, extra := range extraReceivers {
			read(extra.name, extra.f)
		}
		// The parsers themselves, on a frame of the right type and with the hostile bytes as the body.
		body := in
		if len(in) > 5 {
			body = in[5:]
		}
		for j := 0; j < 4; j++ {
			p := names[r.IntN(len(names))]
			typ := typeOf[p]
			if typ == 0 {
				typ = 'd'
			}
			f := asFrame(p == "Startup", wire.Std(typ, body))
			if p == "Startup" {
				f = asFrame(true, wire.Start(body))
			}
			measure("parse:"+p, len(body)+5, func() { _, _ = parsers[p](f) })
		}
		t.Case(true, in)
		if i < 2 {
			t.Sample("%s", label)
		}
	})
	t.Sample("worst allocation per received byte: %.1f", worst)
}

// extraReceivers are further receive calls of the connection type.
var extraReceivers []struct {
	name string
	f    func(c *pg.Conn) error
}

// frontendReceiver is what a connection offers for messages that a client sends.
type frontendReceiver interface {
	RecvFrontendMessage() (pg.Message, error)
}

// recvFrom receives a message of a direction.
func recvFrom(c *pg.Conn, backend bool) (pg.Message, error) {
	if f, ok := any(c).(frontendReceiver); ok && !backend {
		return f.RecvFrontendMessage()
	}
	return c.RecvMessage()
}

func init() {
	if _, ok := any(&pg.Conn{}).(frontendReceiver); ok {
		extraReceivers = append(extraReceivers, struct {
			name string
			f    func(c *pg.Conn) error
		}{"RecvFrontendMessage", func(c *pg.Conn) error { _, err := recvFrom(c, false); return err }})
	}
}

// countReader counts what is taken from it.
type countReader struct {
	b     []byte
	taken int
}

func (c *countReader) Read(p []byte) (int, error) {
	if c.taken == len(c.b) {
		return 0, io.EOF
	}
	n := copy(p, c.b[c.taken:])
	c.taken += n
	return n, nil
}

// ---- C04 ----

// script is a reader that delivers a stream in given pieces and then fails.
type script struct {
	b        []byte
	at       int
	r        *rand.Rand
	mode     int
	err      error
	together bool // the error comes with the last bytes
	reads    int
}

func (s *script) Read(p []byte) (int, error) {
	s.reads++
	if s.at == len(s.b) {
		return 0, s.err
	}
	n := len(s.b) - s.at
	switch s.mode {
	case 0:
		n = 1
	case 1:
		n = 1 + s.r.IntN(7)
	case 2:
		n = 1 + s.r.IntN(600)
	case 3:
		n = []int{1, 4, 5, 6, 251, 507, 512, 513, 1024, 4096}[s.r.IntN(10)]
	}
	n = min(n, len(p), len(s.b)-s.at)
	copy(p, s.b[s.at:s.at+n])
	s.at += n
	if s.together && s.at == len(s.b) {
		return n, s.err
	}
	return n, nil
}

func c04Frames(t *mon.T) {
	r := t.Rand
	for i := 0; i < t.Int("n"); i++ {
		start := r.IntN(4) == 0
		var frames [][]byte
		for k := 1 + r.IntN(6); k > 0; k-- {
			body := wire.Bytes(r, 70000)
			switch r.IntN(8) {
			case 0:
				body = nil
			case 1:
				body = wire.Bytes(r, 300000)
				if r.IntN(4) == 0 {
					body = append(body, make([]byte, 200000)...)
				}
			}
			if start {
				frames = append(frames, wire.Start(body))
			} else {
				frames = append(frames, wire.Std(byte(r.Uint32()), body))
			}
		}
		all := bytes.Join(frames, nil)
		cut, cutErr, how := len(all), io.EOF, "end"
		if r.IntN(3) > 0 {
			how = "cut"
			cut = r.IntN(len(all) + 1)
			if r.IntN(2) == 0 { // near a frame boundary
				at := 0
				for _, f := range frames[:r.IntN(len(frames)+1)] {
					at += len(f)
				}
				cut = min(max(0, at+r.IntN(13)-6), len(all))
			}
		}
		if r.IntN(3) == 0 {
			cutErr = errInjected
		}
		tail := []byte{}
		if cut == len(all) && r.IntN(2) == 0 {
			tail = wire.Bytes(r, 100) // what follows must stay in the stream
		}
		sr := &script{b: append(append([]byte{}, all[:cut]...), tail...), r: r, mode: r.IntN(5), err: cutErr, together: r.IntN(2) == 0}
		label := fmt.Sprintf("%d frames (start-up: %v), %d of %d bytes, chunk mode %d, then %v", len(frames), start, cut, len(all), sr.mode, cutErr)
		at := 0
		var got [][]byte
		guard(t, "panic", label, func() {
			for k := 0; ; k++ {
				if len(tail) > 0 && k == len(frames) {
					break // whatever follows is not ours
				}
				var f pg.Frame
				var err error
				if start {
					var sf pg.StartupFrame
					sf, err = pg.ReadStartupFrame(sr)
					f = sf
				} else {
					var sf pg.StandardFrame
					sf, err = pg.ReadStandardFrame(sr)
					f = sf
				}
				whole := k < len(frames) && at+len(frames[k]) <= cut
				if err != nil {
					if whole && !(sr.together && cutErr == errInjected && at+len(frames[k]) == cut) {
						t.Fail("refused", "frame %d is refused with %v: %s", k, err, label)
					}
					if at == cut && cutErr == io.EOF && err != io.EOF {
						t.Fail("eof", "a clean end between frames gives %v: %s", err, label)
					}
					if at < cut && at+len(frames[min(k, len(frames)-1)]) > cut {
						t.Count("ends_inside_frame", 1)
					} else {
						t.Count("ends_between_frames", 1)
					}
					break
				}
				if !whole {
					t.Fail("partial", "frame %d is returned although the stream ends inside it: %s", k, label)
				}
				if !bytes.Equal(f.Bytes(), frames[k]) {
					t.Fail("content", "frame %d differs: %s (%s)", k, firstDiff(f.Bytes(), frames[k]), label)
				}
				at += len(frames[k])
				if sr.at != at {
					t.Fail("consumed", "after frame %d, %d bytes are consumed instead of %d: %s", k, sr.at, at, label)
				}
				got = append(got, f.Bytes())
			}
			for k, f := range got {
				if !bytes.Equal(f, frames[k]) {
					t.Fail("aliasing", "frame %d changed while later frames were read: %s", k, label)
				}
			}
		})
		t.Count("frames", len(got))
		t.Count("reads", sr.reads)
		t.Case(sr.mode != 4 || how == "cut", label, all[:min(len(all), 64)])
		if i < 2 {
			t.Sample("%s", label)
		}
		// A length that does not even count itself.
		l := []int{0, 1, 2, 3, -1, -4, -1 << 31, -5}[r.IntN(8)]
		bad := wire.B{}.I32(l)
		if !start {
			bad = wire.B{byte(r.Uint32())}.I32(l)
		}
		bad = append(bad, wire.Bytes(r, 40)...)
		guard(t, "panic-length", clip(bad), func() {
			var err error
			var n int
			if start {
				var f pg.StartupFrame
				f, err = pg.ReadStartupFrame(bytes.NewReader(bad))
				n = len(f)
			} else {
				var f pg.StandardFrame
				f, err = pg.ReadStandardFrame(bytes.NewReader(bad))
				n = len(f)
			}
			if err == nil {
				t.Fail("short-length", "a frame with length %d is accepted as %d bytes: %s", l, n, clip(bad))
			}
		})
		t.Case(true, bad)
		t.Count("impossible_lengths", 1)
	}
}

// c04Conn reads messages of a chunked stream through the connection type.
func c04Conn(t *mon.T) {
	r := t.Rand
	for i := 0; i < t.Int("n"); i++ {
		backend := r.IntN(3) > 0
		s := wire.GenStream(r, backend, 1+r.IntN(12), 3000)
		params := []wire.Param{{Name: "user", Value: wire.Text(r, 400)}, {Name: "database", Value: wire.Text(r, 400)}}
		first := wire.Startup(wire.V3, params)
		sr := &script{b: append(append([]byte{}, first...), s.Bytes()...), r: r, mode: r.IntN(5), err: io.EOF, together: r.IntN(2) == 0}
		c := pg.NewConn(&bytesConn{Reader: sr})
		label := fmt.Sprintf("start-up packet and %s, chunk mode %d", s, sr.mode)
		guard(t, "panic", label, func() {
			m, err := c.RecvStartupMessage()
			if err != nil || !bytes.Equal(m.Frame().Bytes(), first) {
				t.Fail("conn-startup", "start-up packet: %v: %s", err, label)
			}
			for k, g := range s {
				m, err := recvFrom(c, backend)
				if err != nil {
					t.Fail("conn:"+g.Kind, "message %d (%s): %v: %s", k, g.Kind, err, label)
				}
				if !bytes.Equal(m.Frame().Bytes(), g.Bytes) {
					t.Fail("conn:"+g.Kind, "message %d: %s: %s", k, firstDiff(m.Frame().Bytes(), g.Bytes), label)
				}
			}
			if _, err := recvFrom(c, backend); err != io.EOF {
				t.Fail("conn-eof", "after the last message: %v", err)
			}
		})
		t.Count("messages_over_connections", len(s))
		t.Case(true, label, s.Bytes())
	}
}

// ---- C05 ----

func c05Read(t *mon.T) {
	r := t.Rand
	for i := 0; i < t.Int("n"); i++ {
		content := wire.Bytes(r, 400)
		if r.IntN(2) == 0 {
			b := wire.B{}
			for k := r.IntN(8); k > 0; k-- {
				switch r.IntN(3) {
				case 0:
					b = b.Str(wire.Text(r, 40))
				case 1:
					b = b.I32(int(wire.Int32(r)))
				default:
					b = b.I16(int(wire.Int16(r)))
				}
			}
			content = b
		}
		orig := append([]byte{}, content...)
		buf := pg.ReadBuffer(content)
		rest := orig
		var log []string
		type handed struct{ got, want []byte }
		var outs []handed
		guard(t, "panic", fmt.Sprintf("reading %s after %v", clip(orig), log), func() {
			for k := 3 + r.IntN(25); k > 0; k-- {
				if buf.Len() != len(rest) {
					t.Fail("len", "Len is %d instead of %d after %v on %s", buf.Len(), len(rest), log, clip(orig))
				}
				if !bytes.Equal([]byte(buf), rest) {
					t.Fail("rest", "the remaining contents differ after %v on %s: %s", log, clip(orig), firstDiff(buf, rest))
				}
				size := func() int {
					switch r.IntN(9) {
					case 8: // sizes whose number of bytes does not fit a machine word
						v := math.MaxInt / []int{1, 2, 4, 8}[r.IntN(4)]
						if r.IntN(2) == 0 {
							v = -v
						}
						return v + r.IntN(len(rest)/2+4)*(2*r.IntN(2)-1)
					case 0:
						return len(rest)
					case 1:
						return len(rest) + 1
					case 2:
						return -1 - r.IntN(5)
					case 3:
						return r.IntN(1_000_000)
					case 4:
						return -r.IntN(1_000_000)
					}
					return r.IntN(len(rest) + 2)
				}
				op := r.IntN(7)
				name, arg, need := "", 0, 0
				var err error
				var got, want any
				switch op {
				case 0:
					arg = size()
					name, need = "ReadBytes", arg
					var g []byte
					g, err = buf.ReadBytes(arg)
					if err == nil && arg >= 0 && arg <= len(rest) {
						if !bytes.Equal(g, rest[:arg]) {
							t.Fail("value:ReadBytes", "ReadBytes(%d) gives %s after %v on %s", arg, clip(g), log, clip(orig))
						}
						outs = append(outs, handed{g, append([]byte{}, rest[:arg]...)})
					}
				case 1:
					name, need = "ReadByte", 1
					got, err = buf.ReadByte()
					if len(rest) >= 1 {
						want = rest[0]
					}
				case 2:
					name, need = "ReadInt32", 4
					got, err = buf.ReadInt32()
					if len(rest) >= 4 {
						want = be32(rest)
					}
				case 3:
					name, need = "ReadInt16", 2
					got, err = buf.ReadInt16()
					if len(rest) >= 2 {
						want = be16(rest)
					}
				case 4:
					name = "ReadString"
					z := bytes.IndexByte(rest, 0)
					need = z + 1
					if z < 0 {
						need = len(rest) + 1
					} else {
						want = string(rest[:z])
					}
					got, err = buf.ReadString()
				case 5:
					arg = size()
					name, need = "ReadInt32Array", times(4, arg)
					var g []int32
					g, err = buf.ReadInt32Array(arg)
					if arg >= 0 && need <= len(rest) {
						w := []int32{}
						for j := 0; j < arg; j++ {
							w = append(w, be32(rest[4*j:]))
						}
						got, want = fmt.Sprint(g), fmt.Sprint(w)
					}
				default:
					arg = size()
					name, need = "ReadInt16Array", times(2, arg)
					var g []int16
					g, err = buf.ReadInt16Array(arg)
					if arg >= 0 && need <= len(rest) {
						w := []int16{}
						for j := 0; j < arg; j++ {
							w = append(w, be16(rest[2*j:]))
						}
						got, want = fmt.Sprint(g), fmt.Sprint(w)
					}
				}
				log = append(log, fmt.Sprintf("%s(%d)", name, arg))
				possible := need >= 0 && need <= len(rest)
				switch {
				case possible && err != nil:
					t.Fail("refused:"+name, "%s(%d) fails with %v with %d bytes left, after %v on %s", name, arg, err, len(rest), log, clip(orig))
				case possible:
					if want != nil && got != want {
						t.Fail("value:"+name, "%s(%d) gives %v instead of %v, after %v on %s", name, arg, got, want, log, clip(orig))
					}
					rest = rest[need:]
					t.Count("reads", 1)
				case err == nil:
					t.Fail("accepted:"+name, "%s(%d) succeeds with %d bytes left, after %v on %s", name, arg, len(rest), log, clip(orig))
				case need >= 0 && name != "ReadString" && err != io.EOF:
					t.Fail("error:"+name, "%s(%d) with %d bytes left fails with %v instead of io.EOF", name, arg, len(rest), err)
				default:
					t.Count("failed_reads", 1)
				}
				t.Case(true, orig, fmt.Sprint(log))
			}
		})
		for _, o := range outs {
			if !bytes.Equal(o.got, o.want) {
				t.Fail("aliasing", "bytes returned earlier changed")
			}
		}
		if !bytes.Equal(content, orig) {
			t.Fail("source", "reading changed the underlying bytes")
		}
		if i < 2 {
			t.Sample("read %s: %v", clip(orig), log)
		}
	}
}

// times multiplies without overflow: what is too large becomes one more than any buffer has.
func times(w, n int) int {
	if n > math.MaxInt/w {
		return math.MaxInt
	}
	if n < 0 {
		return -1
	}
	return w * n
}

func be32(b []byte) int32 {
	return int32(uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3]))
}
func be16(b []byte) int16 { return int16(uint16(b[0])<<8 | uint16(b[1])) }

func c05Write(t *mon.T) {
	r := t.Rand
	for i := 0; i < t.Int("n"); i++ {
		var buf pg.WriteBuffer
		var want wire.B
		if r.IntN(3) == 0 {
			init := wire.Bytes(r, 100)
			buf, want = append(pg.WriteBuffer{}, init...), append(wire.B{}, init...)
			if r.IntN(2) == 0 {
				buf = append(make(pg.WriteBuffer, 0, len(init)+r.IntN(200)), init...)
			}
		}
		var log []string
		guard(t, "panic", "writing", func() {
			for k := 1 + r.IntN(25); k > 0; k-- {
				switch op := r.IntN(7); op {
				case 0:
					v := wire.Bytes(r, 300)
					c := append([]byte{}, v...)
					buf.WriteBytes(v)
					want = want.Raw(c)
					for j := range v {
						v[j] ^= 0xff // the caller may reuse its slice
					}
					log = append(log, fmt.Sprintf("WriteBytes(%d)", len(v)))
				case 1:
					c := byte(r.Uint32())
					buf.WriteByte(c)
					want = want.Byte(c)
					log = append(log, fmt.Sprintf("WriteByte(%d)", c))
				case 2:
					v := wire.Int32(r)
					buf.WriteInt32(v)
					want = want.I32(int(v))
					log = append(log, fmt.Sprintf("WriteInt32(%d)", v))
				case 3:
					v := wire.Int16(r)
					buf.WriteInt16(v)
					want = want.I16(int(v))
					log = append(log, fmt.Sprintf("WriteInt16(%d)", v))
				case 4:
					s := wire.Text(r, 300)
					buf.WriteString(s)
					want = want.Str(s)
					log = append(log, fmt.Sprintf("WriteString(%d)", len(s)))
				case 5:
					a := make([]int32, wire.Count(r, 60))
					for j := range a {
						a[j] = wire.Int32(r)
						want = want.I32(int(a[j]))
					}
					buf.WriteInt32Array(a)
					log = append(log, fmt.Sprintf("WriteInt32Array(%d)", len(a)))
				default:
					a := make([]int16, wire.Count(r, 60))
					for j := range a {
						a[j] = wire.Int16(r)
						want = want.I16(int(a[j]))
					}
					buf.WriteInt16Array(a)
					log = append(log, fmt.Sprintf("WriteInt16Array(%d)", len(a)))
				}
				if buf.Len() != len(want) {
					t.Fail("write-len", "Len is %d instead of %d after %v", buf.Len(), len(want), log)
				}
				if !bytes.Equal(buf, want) {
					t.Fail("write", "wrong contents after %v: %s", log, firstDiff(buf, want))
				}
				t.Count("writes", 1)
				t.Case(true, []byte(want))
			}
		})
	}
}

// ---- C06 ----

type uriCase struct {
	uri  string
	want map[string]string
	any  map[string][]string // acceptable values
	// keys that may or may not be there
	loose map[string]bool
}

const unreserved = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~"

// pct encodes a component, more than necessary at random.
func pct(r *rand.Rand, s string, keep string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		if (strings.IndexByte(unreserved, c) >= 0 || strings.IndexByte(keep, c) >= 0) && r.IntN(12) > 0 {
			b.WriteByte(c)
			continue
		}
		if r.IntN(2) == 0 {
			fmt.Fprintf(&b, "%%%02X", c)
		} else {
			fmt.Fprintf(&b, "%%%02x", c)
		}
	}
	return b.String()
}

func uriText(r *rand.Rand) string {
	switch r.IntN(10) {
	case 9:
		if s := wire.Word(r); s != "" {
			return s
		}
		return "w"
	case 0:
		return []string{"/x", "//", "a/b", "?", "#frag", "%41", "a%2Fb", "p@ss:w/rd", "žluť", " ", "a b", "+", "a+b", "&=", ";", "[::1]", "..", ".", "\\"}[r.IntN(19)]
	case 1:
		n := 1 + r.IntN(6)
		p := make([]byte, n)
		for i := range p {
			p[i] = byte(1 + r.IntN(255))
		}
		return string(p)
	default:
		n := 1 + r.IntN(12)
		p := make([]byte, n)
		for i := range p {
			p[i] = unreserved[r.IntN(len(unreserved))]
		}
		return string(p)
	}
}

func genURI(r *rand.Rand, osUser string) uriCase {
	c := uriCase{want: map[string]string{}, any: map[string][]string{}, loose: map[string]bool{}}
	var b strings.Builder
	b.WriteString([]string{"postgres", "postgresql"}[r.IntN(2)] + "://")
	userName, db := "", ""
	// Characters that need no encoding where they are (RFC 3986): mostly encoded all the same, sometimes not.
	keep := func(s string) string {
		if r.IntN(3) == 0 {
			return s
		}
		return ""
	}
	if r.IntN(3) > 0 {
		userName = uriText(r)
		if r.IntN(12) == 0 {
			userName = ""
		}
		b.WriteString(pct(r, userName, keep("!$&'()*+,;=")))
		if r.IntN(2) == 0 {
			pw := uriText(r)
			if r.IntN(8) == 0 {
				pw = ""
			}
			c.want["password"] = pw
			b.WriteString(":" + pct(r, pw, keep("!$&'()*+,;=")))
		}
		b.WriteString("@")
	}
	c.want["host"], c.want["port"] = "localhost", "5432"
	switch r.IntN(6) {
	case 0:
	case 1:
		h := []string{"::1", "fe80::1", "2001:db8::7334", "::ffff:10.0.0.1", "::", "2001:DB8::AbC", "fe80::1%eth0", "FE80::2%Wlan1"}[r.IntN(8)]
		c.want["host"] = h
		b.WriteString("[" + strings.Replace(h, "%", "%25", 1) + "]")
	case 2:
		h := fmt.Sprintf("%d.%d.%d.%d", r.IntN(256), r.IntN(256), r.IntN(256), r.IntN(256))
		c.want["host"] = h
		b.WriteString(h)
	default:
		h := ""
		switch r.IntN(6) {
		case 0: // an internationalised name, its bytes percent-encoded or not
			for i := 1 + r.IntN(3); i > 0; i-- {
				x := []string{"ž", "日本", "ü", "example", "."}[r.IntN(5)]
				h += x
				for k := 0; k < len(x); k++ {
					if x[k] >= 0x80 {
						fmt.Fprintf(&b, "%%%02X", x[k])
					} else {
						b.WriteByte(x[k])
					}
				}
			}
		default:
			for i := 1 + r.IntN(12); i > 0; i-- {
				h += string("abcdefghijklmnopqrstuvwxyz0123456789-._ABCXYZ"[r.IntN(45)])
			}
			b.WriteString(h)
		}
		c.want["host"] = h
	}
	if r.IntN(2) == 0 {
		p := fmt.Sprint(1 + r.IntN(65535))
		c.want["port"] = p
		b.WriteString(":" + p)
	}
	switch r.IntN(5) {
	case 0:
	case 1:
		b.WriteString("/")
	default:
		db = uriText(r)
		b.WriteString("/" + pct(r, db, keep("!$&'()*+,;=:@")+"/"))
	}
	query := map[string][]string{}
	var order []string
	if r.IntN(2) == 0 {
		for i := 1 + r.IntN(4); i > 0; i-- {
			k := []string{"sslmode", "connect_timeout", "application_name", "host", "port", "user", "password", "dbname", "options", "client_encoding",
				"TimeZone", "DateStyle", "timezone", "SSLMode", "search_path", "sslrootcert", "hostaddr", "target_session_attrs", "keepalives"}[r.IntN(19)]
			if r.IntN(10) == 0 {
				if k = uriText(r); k == "" || k == "database" {
					k = "fallback_application_name"
				}
			}
			v := uriText(r)
			if _, dup := query[k]; dup && r.IntN(3) > 0 {
				continue
			}
			if r.IntN(12) == 0 && k != "dbname" {
				v = ""
			}
			query[k] = append(query[k], v)
			order = append(order, pct(r, k, keep("!$'()*+,;@/:?"))+"="+pct(r, v, keep("!$'()*+,;@")+"/:?"))
		}
		b.WriteString("?" + strings.Join(order, "&"))
	}
	if userName == "" {
		userName = osUser
	}
	c.want["user"] = userName
	dbs := []string{db}
	for k, vs := range query {
		switch k {
		case "dbname":
			dbs = vs
			c.loose["dbname"] = true
		default:
			before, ok := c.want[k]
			delete(c.want, k)
			c.any[k] = vs
			if ok && k != "password" && slices.Contains(vs, "") {
				c.any[k] = append(slices.Clone(vs), before) // empty or not given: both make sense here
			}
		}
	}
	if dbs[0] == "" && len(dbs) == 1 {
		if us, ok := c.any["user"]; ok {
			dbs = us
			if slices.Contains(us, "") {
				dbs = append(slices.Clone(us), userName)
			}
		} else {
			dbs = []string{userName}
		}
	}
	c.any["database"] = dbs
	c.uri = b.String()
	return c
}

func checkURI(t *mon.T, c uriCase, got pg.ConnectionParams, err error) {
	if err != nil {
		t.Fail("refused", "%q is refused: %v", c.uri, err)
	}
	for k, v := range c.want {
		if got[k] != v {
			t.Fail("value:"+k, "%q: %s is %q, expected %q", c.uri, k, got[k], v)
		}
		if _, ok := got[k]; !ok {
			t.Fail("missing:"+k, "%q: %s is missing", c.uri, k)
		}
	}
	for k, vs := range c.any {
		ok := false
		for _, v := range vs {
			ok = ok || got[k] == v
		}
		if !ok {
			t.Fail("value:"+k, "%q: %s is %q, expected one of %q", c.uri, k, got[k], vs)
		}
	}
	for k := range got {
		_, a := c.want[k]
		_, b := c.any[k]
		if !a && !b && !c.loose[k] {
			t.Fail("extra", "%q: unexpected parameter %q = %q", c.uri, k, got[k])
		}
	}
}

func c06URIs(t *mon.T) {
	r := t.Rand
	u, err := user.Current()
	if err != nil {
		t.Inconclusive("no user: %v", err)
	}
	for i := 0; i < t.Int("n"); i++ {
		c := genURI(r, u.Username)
		guard(t, "panic", c.uri, func() {
			got, err := pg.ParseDatabaseURI(c.uri)
			checkURI(t, c, got, err)
			// Changing one result must not influence another call.
			for k := range got {
				got[k] = "poison"
			}
			got["poison"] = "x"
			if i%7 == 0 {
				got, err = pg.ParseDatabaseURI(c.uri)
				checkURI(t, c, got, err)
			}
		})
		t.Count("valid_uris", 1)
		t.Case(len(c.uri) > 13, c.uri)
		if i < 2 {
			t.Sample("%s -> %v", c.uri, c.want)
		}
		// Other schemes and malformed escapes.
		bad := ""
		switch r.IntN(5) {
		case 0:
			_, rest, _ := strings.Cut(c.uri, ":")
			bad = []string{"mysql", "http", "postgre", "postgresqls", "Xpostgres", "postgres1", ""}[r.IntN(7)] + ":" + rest
		case 1:
			e := []string{"%", "%4", "%zz", "%G0", "%-1"}[r.IntN(5)]
			if strings.Contains(c.uri, "?") {
				bad = c.uri + e
			} else {
				bad = c.uri + "?application_name=x" + e
			}
		case 2:
			bad = "postgres://host/db" + []string{"%", "%4", "%zz", "%G0"}[r.IntN(4)]
		case 3:
			bad = "postgres://u:p" + []string{"%zz", "%4"}[r.IntN(2)] + "@host:5432/db"
		default:
			bad = "postgres://host:" + []string{"abc", "54x", "-1", "5432 "}[r.IntN(4)] + "/db"
		}
		guard(t, "panic", bad, func() {
			if got, err := pg.ParseDatabaseURI(bad); err == nil {
				t.Fail("accepted", "%q is accepted as %v", bad, got)
			}
		})
		t.Count("invalid_uris", 1)
		t.Case(true, bad)
		// Anything at all.
		any := []byte(c.uri)
		for k := r.IntN(4); k >= 0; k-- {
			any, _ = mutate(r, any)
		}
		guard(t, "panic", fmt.Sprintf("%q", any), func() {
			got, err := pg.ParseDatabaseURI(string(any))
			if err == nil {
				p, perr := url.Parse(string(any))
				if perr == nil && p.Scheme != "postgres" && p.Scheme != "postgresql" {
					t.Fail("scheme", "%q is accepted as %v", any, got)
				}
			}
		})
		t.Case(true, any)
	}
}

func c06Concurrent(t *mon.T) {
	u, err := user.Current()
	if err != nil {
		t.Inconclusive("no user: %v", err)
	}
	var wg sync.WaitGroup
	fail := make(chan string, 64)
	for g := 0; g < 8; g++ {
		r := mon.NewRand(t.Seed + uint64(g))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < t.Int("n"); i++ {
				c := genURI(r, u.Username)
				got, err := pg.ParseDatabaseURI(c.uri)
				if err == nil && c.want["host"] != "" && got["host"] != c.want["host"] {
					err = errors.New("wrong host " + got["host"])
				}
				if err != nil {
					select {
					case fail <- fmt.Sprintf("%q concurrently: %v", c.uri, err):
					default:
					}
				}
				t.Case(true, c.uri)
				if i%50 == 0 {
					runtime.Gosched()
				}
			}
		}()
	}
	wg.Wait()
	select {
	case f := <-fail:
		t.Fail("concurrent", "%s", f)
	default:
	}
	t.Count("concurrent_calls", 8*t.Int("n"))
}

func init() {
	mon.Register(&mon.Property{
		ID: "C03",
		Rule: "random bytes, hostile lengths and counts, mutated valid messages, start-up packets, and messages of thousands of tiny elements, through every receive call and parser; all are non-trivial; distinct by bytes. " +
			fmt.Sprintf("Oracle: no panic; heap bytes allocated by a call (runtime/metrics) at most %d per received byte + %d; no call burns 15 s of CPU.", allocPerByte, allocConst),
		Assumptions: []string{"heap allocation counters of the Go runtime"},
		Scenarios:   map[string]func(*mon.T){"hostile": c03Hostile},
		MinDistinct: 5000,
		Plan: func(r *mon.Run) {
			var ts []mon.Task
			for i := 0; i < r.Pick(96, 1600); i++ {
				ts = append(ts, r.Task("hostile", map[string]int{"n": 1500}))
			}
			r.Do(ts)
		},
	})
	mon.Register(&mon.Property{
		ID: "C04",
		Rule: "sequences of 1-6 frames (0 to 500 kB) delivered in scripted chunks, cut at a random or boundary offset with EOF or an error (alone or with the last bytes), plus impossible length fields; non-trivial: more than one chunk or a cut; distinct by description and prefix. " +
			"Oracle: reference splitter for content, count and bytes consumed.",
		Scenarios:   map[string]func(*mon.T){"frames": c04Frames, "conn": c04Conn, "sizes": c04Sizes},
		MinDistinct: 3000,
		Plan: func(r *mon.Run) {
			var ts []mon.Task
			for i := 0; i < r.Pick(320, 3200); i++ {
				ts = append(ts, r.Task("frames", map[string]int{"n": 150}))
			}
			for i := 0; i < r.Pick(100, 1000); i++ {
				ts = append(ts, r.Task("conn", map[string]int{"n": 150}))
			}
			for i := 0; i < r.Pick(48, 480); i++ {
				ts = append(ts, r.Task("sizes", map[string]int{"n": 150}))
			}
			for i := 0; i < r.Pick(48, 480); i++ {
				ts = append(ts, r.Task("sizes", map[string]int{"n": 12, "large": 1}))
			}
			for i := 0; i < r.Pick(1, 12); i++ {
				ts = append(ts, r.Task("sizes", map[string]int{"n": 1, "huge": 1}))
			}
			r.Do(ts)
		},
	})
	mon.Register(&mon.Property{
		ID:          "C05",
		Rule:        "random sequences of 3-28 read operations (sizes negative, zero, exact, one too many, huge) and 1-25 write operations; every operation is a case, distinct by contents and history. Oracle: reference model of both buffers.",
		Assumptions: []string{"counts up to 10^6 (larger ones overflow k*4 only beyond 2^61 elements)"},
		Scenarios:   map[string]func(*mon.T){"read": c05Read, "write": c05Write, "sizes": c05Sizes},
		MinDistinct: 5000,
		Plan: func(r *mon.Run) {
			var ts []mon.Task
			for i := 0; i < r.Pick(240, 2400); i++ {
				ts = append(ts, r.Task("read", map[string]int{"n": 1200}), r.Task("write", map[string]int{"n": 800}))
			}
			for i := 0; i < r.Pick(48, 480); i++ {
				ts = append(ts, r.Task("sizes", map[string]int{"n": 150}))
			}
			for i := 0; i < r.Pick(48, 480); i++ {
				ts = append(ts, r.Task("sizes", map[string]int{"n": 12, "large": 1}))
			}
			r.Do(ts)
		},
	})
	mon.Register(&mon.Property{
		ID:          "C06",
		Rule:        "URIs assembled from random components with random percent-encoding; URIs made malformed in one place; mutated URIs; concurrent calls; non-trivial: anything beyond scheme and ://; distinct by URI. Oracle: the components.",
		Assumptions: []string{"of repeated query parameters any of the values is accepted", "a literal + in a query is not generated (libpq and Go differ)"},
		Scenarios:   map[string]func(*mon.T){"uris": c06URIs, "concurrent": c06Concurrent},
		MinDistinct: 5000,
		Plan: func(r *mon.Run) {
			var ts []mon.Task
			for i := 0; i < r.Pick(240, 2400); i++ {
				ts = append(ts, r.Task("uris", map[string]int{"n": 2500}))
			}
			for i := 0; i < r.Pick(24, 200); i++ {
				ts = append(ts, r.Task("concurrent", map[string]int{"n": 1500}))
			}
			r.Do(ts)
		},
	})
}
