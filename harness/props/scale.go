package props

import (
	"bytes"
	"fmt"
	"io"
	"math/rand/v2"
	"sync"
	"sync/atomic"

	"github.com/hired/gevulot/pkg/pg"
	"github.com/hired/gevulot/pkg/server"
	"github.com/lib/pq/oid"

	"verif.local/harness/mon"
	"verif.local/harness/wire"
)

// This file holds workloads whose sizes lie around the numbers at which the code under test may change its behaviour:
// the integer constants of its source and the usual limits.

// around picks a number near a threshold in lo..hi.
func around(r *rand.Rand, lo, hi int) int {
	ths := wire.Thresholds(lo, hi)
	if len(ths) == 0 {
		return lo
	}
	v := ths[r.IntN(len(ths))]
	switch r.IntN(6) {
	case 0:
	case 1:
		v++
	case 2:
		v--
	case 3:
		v += r.IntN(21) - 10
	case 4:
		v += 1 + r.IntN(v)
	default:
		v = 2*v + r.IntN(7) - 3
	}
	return max(0, v)
}

// blob is cheap content of n bytes without NULs.
func blob(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	s := byte(r.Uint32())
	for i := range b {
		s = s*5 + 17
		b[i] = s
		if s == 0 {
			b[i] = 1
		}
	}
	return b
}

// hugeSize is the size of a message that is longer than any limit of the code, as far as memory allows.
func hugeSize(r *rand.Rand) int { return wire.Beyond(r, 70<<20+r.IntN(50<<20), 600<<20) }

var sizedKinds = []string{"AuthGSSContinue", "NegotiateProtocolVersion", "ParameterStatus", "RowDescription", "DataRow", "CommandComplete", "ErrorResponse",
	"NoticeResponse", "Password", "Query", "Generic", "Startup"}

// sizedValue makes a message of about n bytes in one element, or of n elements.
func sizedValue(r *rand.Rand, kind string, n int, many bool) value {
	v := value{kind: kind}
	b := wire.B{}
	std := func(t byte) { v.bytes = wire.Std(t, b) }
	count := 1 + r.IntN(3)
	at := r.IntN(count) // the long element, or none
	if many {
		count, at = n, -1
		if kind == "RowDescription" || kind == "DataRow" {
			count = min(n, 32767)
		}
	}
	text := func(i int) string {
		if i == at {
			return string(blob(r, n))
		}
		return "abcdefg"[:r.IntN(8)]
	}
	switch kind {
	case "AuthGSSContinue":
		d := blob(r, n)
		v.msg, b = &pg.AuthenticationGSSContinueMessage{Data: d}, b.I32(8).Raw(d)
		std('R')
	case "NegotiateProtocolVersion":
		m := &pg.NegotiateProtocolVersionMessage{SupportedProtocolVersion: wire.V3}
		b = b.I32(wire.V3).I32(count)
		for i := 0; i < count; i++ {
			s := text(i)
			m.UnrecognizedOptions = append(m.UnrecognizedOptions, s)
			b = b.Str(s)
		}
		v.msg = m
		std('v')
	case "ParameterStatus":
		at := r.IntN(2)
		x, y := "name", "value"
		if at == 0 {
			x = string(blob(r, n))
		} else {
			y = string(blob(r, n))
		}
		v.msg, b = &pg.ParameterStatusMessage{Name: x, Value: y}, b.Str(x).Str(y)
		std('S')
	case "RowDescription":
		m := &pg.RowDescriptionMessage{}
		b = b.I16(count)
		for i := 0; i < count; i++ {
			f := &pg.FieldDescriptor{Name: text(i), TableOID: oid.Oid(i), ColumnIndex: int16(i), DataTypeOID: oid.Oid(23), DataTypeSize: 4, DataTypeModifier: -1, Format: pg.DataFormat(i & 1)}
			m.Fields = append(m.Fields, f)
			b = b.Str(f.Name).I32(i).I16(int(f.ColumnIndex)).I32(23).I16(4).I32(-1).I16(i & 1)
		}
		v.msg = m
		std('T')
	case "DataRow":
		m := &pg.DataRowMessage{}
		b = b.I16(count)
		for i := 0; i < count; i++ {
			if i != at && r.IntN(5) == 0 {
				m.Values = append(m.Values, nil)
				b = b.I32(-1)
				continue
			}
			d := []byte(text(i))
			m.Values = append(m.Values, d)
			b = b.I32(len(d)).Raw(d)
		}
		v.msg = m
		std('D')
	case "CommandComplete":
		s := string(blob(r, n))
		v.msg, b = &pg.CommandCompleteMessage{Tag: s}, b.Str(s)
		std('C')
	case "ErrorResponse", "NoticeResponse":
		var fs []*pg.MessageField
		for i := 0; i < count; i++ {
			c := wire.FieldCodes[r.IntN(len(wire.FieldCodes))]
			s := text(i)
			fs = append(fs, &pg.MessageField{Type: pg.MessageFieldType(c), Value: s})
			b = b.Byte(c).Str(s)
		}
		b = b.Byte(0)
		if kind == "ErrorResponse" {
			v.msg = &pg.ErrorResponseMessage{Fields: fs}
			std('E')
		} else {
			v.msg = &pg.NoticeResponseMessage{Fields: fs}
			std('N')
		}
	case "Password":
		s := string(blob(r, n))
		v.msg, b = &pg.PasswordMessage{Password: s}, b.Str(s)
		std('p')
	case "Query":
		s := string(blob(r, n))
		v.msg, b = &pg.QueryMessage{Query: s}, b.Str(s)
		std('Q')
	case "Generic":
		t, d := "PBHdcfFGW123nstAV$"[r.IntN(18)], blob(r, n)
		v.msg, b = &pg.GenericMessage{Type: t, Body: d}, d
		std(t)
	case "Startup":
		m := &pg.StartupMessage{ProtocolVersion: wire.V3}
		var ps []wire.Param
		count = max1(count)
		for i := 0; i < count; i++ {
			p := wire.Param{Name: fmt.Sprint("p", i), Value: text(i)}
			if i == at && r.IntN(2) == 0 {
				p.Name, p.Value = "n"+p.Value, "v"
			}
			ps = append(ps, p)
			m.Parameters = append(m.Parameters, &pg.StartupMessageParameter{Name: p.Name, Value: p.Value})
		}
		v.msg, v.bytes, v.start = m, wire.Startup(wire.V3, ps), true
	default:
		panic(kind)
	}
	return v
}

// sizes are drawn for a task: many small ones or few large ones.
func drawSize(r *rand.Rand, large bool) (n int, many bool) {
	if many = r.IntN(2) == 0; many {
		if large {
			return around(r, 1<<15, 1<<19), true
		}
		return around(r, 20, 1<<13), true
	}
	if large {
		return around(r, 1<<16, 1<<24), false
	}
	return around(r, 20, 1<<16), false
}

// c01Sizes: values around the thresholds survive the round trip.
func c01Sizes(t *mon.T) {
	r := t.Rand
	for i := 0; i < t.Int("n"); i++ {
		kind := sizedKinds[r.IntN(len(sizedKinds))]
		n, many := drawSize(r, t.Int("large") == 1)
		v := sizedValue(r, kind, n, many)
		label := fmt.Sprintf("%s with an element of %d bytes", kind, n)
		if many {
			label = fmt.Sprintf("%s with up to %d elements", kind, n)
		}
		guard(t, "panic:"+kind, "round trip of "+label, func() {
			f := v.msg.Frame()
			if !bytes.Equal(f.Bytes(), v.bytes) {
				t.Fail("encode:"+kind, "serialised %s differs from the protocol: got/want %s", label, firstDiff(f.Bytes(), v.bytes))
			}
			m, err := parsers[parserOf(kind)](asFrame(v.start, bytes.Clone(v.bytes)))
			if err != nil {
				t.Fail("decode:"+kind, "parsing a serialised %s fails: %v", label, err)
			}
			if !sameMsg(m, v.msg) {
				t.Fail("decode:"+kind, "parsed %s differs from the value serialised: got %.200v", label, show(m))
			}
			if sm, ok := m.(*pg.StartupMessage); ok && len(sm.Parameters) < 5000 {
				checkParameters(t, sm)
			}
			if v.start {
				m, err = fix(pg.NewConn(&bytesConn{Reader: bytes.NewReader(v.bytes)}).RecvStartupMessage())
				if err != nil || !sameMsg(m, v.msg) {
					t.Fail("conn:"+kind, "%s is not received: %v", label, err)
				}
				return
			}
			out := &bytesConn{Reader: bytes.NewReader(v.bytes)}
			c := pg.NewConn(out)
			m, err = c.RecvMessage()
			if err != nil {
				t.Fail("conn:"+kind, "receiving %s fails: %v", label, err)
			}
			if !sameMsg(m, v.msg) && !bytes.Equal(m.Frame().Bytes(), v.bytes) {
				t.Fail("conn:"+kind, "%s is received as %.200s", label, show(m))
			}
			if err := c.SendMessage(v.msg); err != nil || !bytes.Equal(out.out.Bytes(), v.bytes) {
				t.Fail("conn-send:"+kind, "%s is sent as %d of %d bytes: %v", label, out.out.Len(), len(v.bytes), err)
			}
		})
		t.Count("sized_round_trips", 1)
		t.Case(true, label, len(v.bytes))
		if i == 0 {
			t.Sample("%s", label)
		}
	}
}

// c02Sizes: well-formed frames of such sizes are accepted and kept; the same with one thing wrong are not altered.
func c02Sizes(t *mon.T) {
	r := t.Rand
	for i := 0; i < t.Int("n"); i++ {
		kind := sizedKinds[r.IntN(len(sizedKinds))]
		n, many := drawSize(r, t.Int("large") == 1)
		if t.Int("huge") == 1 {
			for kind == "Startup" {
				kind = sizedKinds[r.IntN(len(sizedKinds))]
			}
			n, many = hugeSize(r), false
		}
		v := sizedValue(r, kind, n, many)
		head := 5
		if v.start {
			head = 4
		}
		body, how := bytes.Clone(v.bytes[head:]), "well-formed"
		switch r.IntN(3) {
		case 0:
			how = "cut"
			body = body[:max(0, len(body)-1-r.IntN(3))]
		case 1:
			if r.IntN(2) == 0 {
				how = "extended"
				body = append(body, wire.Bytes(r, 9)...)
			}
		}
		fr := wire.Start(body)
		if !v.start {
			fr = wire.Std(v.bytes[0], body)
		}
		p := parserOf(kind)
		good := wellFormed(p, body)
		label := fmt.Sprintf("%s (%s) of %d bytes or elements", kind, how, n)
		judge := func(via string, m pg.Message, err error) {
			if err != nil {
				if good {
					t.Fail("refused:"+p, "%s refuses %s: %v", via, label, err)
				}
				t.Count("rejected", 1)
				return
			}
			if got := m.Frame().Bytes(); !bytes.Equal(got, fr) {
				t.Fail("lossy:"+p, "%s accepts %s and alters it: %s", via, label, firstDiff(got, fr))
			}
			t.Count("accepted", 1)
		}
		guard(t, "panic:"+p, label, func() {
			m, err := parsers[p](asFrame(v.start, bytes.Clone(fr)))
			judge("the parser", m, err)
			if v.start {
				m, err = fix(pg.NewConn(&bytesConn{Reader: bytes.NewReader(fr)}).RecvStartupMessage())
				judge("RecvStartupMessage", m, err)
				return
			}
			m, err = recvFrom(pg.NewConn(&bytesConn{Reader: bytes.NewReader(fr)}), true)
			judge("RecvMessage", m, err)
			if kind == "Password" || kind == "Query" || kind == "Generic" {
				m, err = recvFrom(pg.NewConn(&bytesConn{Reader: bytes.NewReader(fr)}), false)
				judge("the frontend receive call", m, err)
			}
		})
		t.Count("sized_frames", 1)
		t.Case(true, label, how)
	}
}

// c04Sizes: frames whose lengths lie around the thresholds are read whole.
func c04Sizes(t *mon.T) {
	r := t.Rand
	for i := 0; i < t.Int("n"); i++ {
		start := r.IntN(3) == 0
		var frames [][]byte
		total := 0
		for k := 1 + r.IntN(3); k > 0; k-- {
			n := around(r, 4, 1<<16)
			if t.Int("large") == 1 {
				n = around(r, 1<<16, 1<<23)
			}
			if t.Int("huge") == 1 {
				n, start, k = hugeSize(r), false, 1
			}
			if start {
				frames = append(frames, wire.Start(blob(r, n)))
			} else {
				frames = append(frames, wire.Std(byte(1+r.IntN(255)), blob(r, n)))
			}
			total += n
		}
		all := bytes.Join(frames, nil)
		mode := r.IntN(5)
		if len(all) > 1<<17 {
			mode = 2 + r.IntN(3)
		}
		cut := len(all)
		if r.IntN(3) == 0 && t.Int("huge") == 0 {
			cut -= 1 + r.IntN(len(frames[len(frames)-1])-1)
		}
		sr := &script{b: all[:cut], r: r, mode: mode, err: io.EOF, together: r.IntN(2) == 0}
		label := fmt.Sprintf("frames of %v bytes (start-up: %v), %d of %d bytes, chunk mode %d", lens(frames), start, cut, len(all), mode)
		guard(t, "panic", label, func() {
			for k, want := range frames {
				var f pg.Frame
				var err error
				if start {
					f, err = frameOf(pg.ReadStartupFrame(sr))
				} else {
					f, err = frameOf(pg.ReadStandardFrame(sr))
				}
				if k == len(frames)-1 && cut < len(all) {
					if err == nil {
						t.Fail("partial", "frame %d is returned although the stream ends inside it: %s", k, label)
					}
					break
				}
				if err != nil {
					t.Fail("refused", "frame %d is refused with %v: %s", k, err, label)
				}
				if !bytes.Equal(f.Bytes(), want) {
					t.Fail("content", "frame %d differs: %s: %s", k, firstDiff(f.Bytes(), want), label)
				}
			}
		})
		t.Count("sized_frames", len(frames))
		t.Case(true, label)
	}
}

func frameOf[F pg.Frame](f F, err error) (pg.Frame, error) { return f, err }

func lens(bs [][]byte) []int {
	var n []int
	for _, b := range bs {
		n = append(n, len(b))
	}
	return n
}

// c05Sizes: both buffers with contents around the thresholds.
func c05Sizes(t *mon.T) {
	r := t.Rand
	for i := 0; i < t.Int("n"); i++ {
		draw := func() int {
			if t.Int("large") == 1 {
				return around(r, 1<<16, 1<<23)
			}
			return around(r, 20, 1<<16)
		}
		var buf pg.WriteBuffer
		var want wire.B
		var reads []func(b *pg.ReadBuffer) (ok bool, err error)
		var log []string
		for k := 1 + r.IntN(4); k > 0; k-- {
			n := draw()
			switch op := r.IntN(4); op {
			case 0:
				d := blob(r, n)
				buf.WriteBytes(d)
				want = want.Raw(d)
				log = append(log, fmt.Sprintf("Bytes(%d)", n))
				reads = append(reads, func(b *pg.ReadBuffer) (bool, error) {
					g, err := b.ReadBytes(n)
					return bytes.Equal(g, d), err
				})
			case 1:
				s := string(blob(r, n))
				buf.WriteString(s)
				want = want.Str(s)
				log = append(log, fmt.Sprintf("String(%d)", n))
				reads = append(reads, func(b *pg.ReadBuffer) (bool, error) {
					g, err := b.ReadString()
					return g == s, err
				})
			case 2:
				a := make([]int32, n/4+r.IntN(2))
				for j := range a {
					a[j] = int32(j * 77773)
					want = want.I32(j * 77773)
				}
				buf.WriteInt32Array(a)
				log = append(log, fmt.Sprintf("Int32Array(%d)", len(a)))
				reads = append(reads, func(b *pg.ReadBuffer) (bool, error) {
					g, err := b.ReadInt32Array(len(a))
					return eq(g, a), err
				})
			default:
				a := make([]int16, n/2+r.IntN(2))
				for j := range a {
					a[j] = int16(j * 77)
					want = want.I16(j * 77)
				}
				buf.WriteInt16Array(a)
				log = append(log, fmt.Sprintf("Int16Array(%d)", len(a)))
				reads = append(reads, func(b *pg.ReadBuffer) (bool, error) {
					g, err := b.ReadInt16Array(len(a))
					return eq(g, a), err
				})
			}
		}
		guard(t, "panic", fmt.Sprint(log), func() {
			if buf.Len() != len(want) || !bytes.Equal(buf, want) {
				t.Fail("write", "wrong contents after %v: %s", log, firstDiff(buf, want))
			}
			rb := pg.ReadBuffer(bytes.Clone(want))
			for k, f := range reads {
				ok, err := f(&rb)
				if err != nil {
					t.Fail("refused:size", "reading %s fails with %v, of %v", log[k], err, log)
				}
				if !ok {
					t.Fail("value:size", "reading %s gives something else, of %v", log[k], log)
				}
			}
			if rb.Len() != 0 {
				t.Fail("len", "%d bytes are left after reading all of %v", rb.Len(), log)
			}
			// One too many.
			short := pg.ReadBuffer(bytes.Clone(want[:len(want)-1]))
			for k, f := range reads {
				before := len(short)
				if k < len(reads)-1 {
					f(&short)
					continue
				}
				if ok, err := f(&short); err == nil {
					t.Fail("accepted:size", "reading %s succeeds (right: %v) although a byte is missing, of %v", log[k], ok, log)
				} else if len(short) > before {
					t.Fail("len", "a failed read makes the buffer longer")
				}
			}
		})
		t.Count("sized_buffers", 1)
		t.Case(true, fmt.Sprint(log))
	}
}

func eq[E comparable](a, b []E) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// c07Sizes relays messages whose sizes lie around the thresholds, and very many tiny ones.
func c07Sizes(t *mon.T) {
	r := t.Rand
	w := newWorld(t, "db")
	for i := 0; i < t.Int("n"); i++ {
		c, d := w.Connect("db")
		var cs, ds []byte
		label := ""
		if t.Int("huge") == 1 { // at the database or at the client
			n := hugeSize(r)
			kind := []string{"Query", "Password", "Generic", "DataRow", "ErrorResponse", "AuthGSSContinue", "ParameterStatus"}[r.IntN(7)]
			label = fmt.Sprintf("%s %d", kind, n)
			v := sizedValue(r, kind, n, false)
			if kind == "Query" || kind == "Password" || kind == "Generic" && r.IntN(2) == 0 {
				cs = v.bytes
				ds = wire.Std('Z', []byte{'I'})
			} else {
				if kind == "Generic" {
					v.bytes[0] = 'd'
				}
				cs = wire.Std('S', nil)
				ds = v.bytes
			}
		} else if t.Int("tiny") > 0 {
			n := wire.Beyond(r, 1000, t.Int("tiny"))
			label = fmt.Sprintf("%d tiny messages each way", n)
			for k := 0; k < n; k++ {
				cs = append(cs, wire.Std("QPBESHd"[k%7], append([]byte(fmt.Sprint(k)), 0))...)
				ds = append(ds, wire.Std("Cd123tns"[k%8], append([]byte(fmt.Sprint(k)), 0))...)
			}
		} else {
			for k := 1 + r.IntN(5); k > 0; k-- {
				n, many := drawSize(r, r.IntN(3) == 0)
				kind := []string{"Query", "Generic", "Password"}[r.IntN(3)]
				v := sizedValue(r, kind, n, false)
				if kind == "Generic" {
					v.bytes[0] = "PBDEHSdcfF"[r.IntN(10)]
				}
				cs = append(cs, v.bytes...)
				label += fmt.Sprintf("client %c %d; ", v.bytes[0], n)
				n, many = drawSize(r, r.IntN(3) == 0)
				kind = sizedKinds[r.IntN(len(sizedKinds)-1)]
				for kind == "Password" || kind == "Query" {
					kind = sizedKinds[r.IntN(len(sizedKinds)-1)]
				}
				v = sizedValue(r, kind, n, many)
				if kind == "Generic" {
					v.bytes[0] = "d12GHWVtns3A"[r.IntN(12)]
				}
				ds = append(ds, v.bytes...)
				label += fmt.Sprintf("database %s %d (many: %v); ", kind, n, many)
			}
		}
		c.Send(cs, pieces(r, 3+r.IntN(2)))
		d.Send(ds, pieces(r, 3+r.IntN(2)))
		deliver(t, "relay-to-database", label, d, cs)
		deliver(t, "relay-to-client", label, c, ds)
		t.Count("sized_bytes_relayed", len(cs)+len(ds))
		t.Case(true, label, len(cs), len(ds))
		if i == 0 {
			t.Sample("%.200s", label)
		}
		c.Close()
		t.Await("end", "the database connection ends", d.Over)
		d.Close()
	}
	w.Shutdown()
}

// crowd fills a server with clients: silent ones, some in the middle of their start-up, some established.
func crowd(t *mon.T, w *World, n, established int) (silent []*End, good []*talker) {
	r := t.Rand
	for i := 0; i < n; i++ {
		c := w.Dial("silent", false)
		switch r.IntN(4) {
		case 0:
			c.Send(wire.SSLRequest(), pieces(r, 4))
		case 1:
			c.Send(wire.Startup(wire.V3, []wire.Param{{Name: "user", Value: "u"}, {Name: "database", Value: "db"}})[:9], pieces(r, 4))
		}
		silent = append(silent, c)
	}
	for i := 0; i < established; i++ {
		good = append(good, join(t, w, i))
	}
	return silent, good
}

// join makes one more established session.
func join(t *mon.T, w *World, id int) *talker {
	c := w.Dial("client", false)
	n := w.DB.N()
	st := wire.Startup(wire.V3, []wire.Param{{Name: "user", Value: fmt.Sprint("user", id)}, {Name: "database", Value: "db"}})
	c.Send(st, pieces(t.Rand, 4))
	var d *End
	t.Await("connect", "one more client is connected to the database", func() bool {
		if c.Over() {
			return true
		}
		for _, e := range w.DB.Conns()[n:] {
			if bytes.Equal(e.Got(), st) {
				d = e
			}
		}
		return d != nil
	})
	if d == nil {
		t.Fail("connect", "one more client is disconnected: %v", c.Err())
	}
	return &talker{c: c, d: d, id: id, cs: bytes.Clone(st)}
}

// c12Crowd: however many clients are there, another one is served and nobody is disturbed.
func c12Crowd(t *mon.T) {
	r := t.Rand
	w := newWorld(t, "db")
	n := wire.Beyond(r, 200, t.Int("n"))
	silent, good := crowd(t, w, n, t.Int("established"))
	for i := 0; i < 5; i++ {
		good = append(good, join(t, w, 1_000_000+i))
	}
	for round := 0; round < 2; round++ {
		for _, k := range good {
			k.step(t, r)
		}
		for _, k := range good {
			k.check(t)
		}
	}
	for i, c := range silent {
		if c.Over() {
			t.Fail("disturbed", "silent client %d of %d is disconnected: %v", i, n, c.Err())
		}
	}
	// One of those that waited goes on.
	c := silent[r.IntN(len(silent))]
	c.Send(wire.SSLRequest(), pieces(r, 4)) // completes, or spoils, what it has begun: it is answered or refused
	t.Await("waiting", "a client of the crowd is served", func() bool { return c.Over() || c.Len() > 0 || c.Sent() > 0 })
	t.Count("crowd", n)
	t.Count("good_sessions", len(good))
	t.Case(true, n, len(good))
	t.Sample("%d silent clients, %d sessions", n, len(good))
	w.Shutdown()
}

// c14Crowd: Close ends every session, however many there are.
func c14Crowd(t *mon.T) {
	r := t.Rand
	w := newWorld(t, "db")
	n := wire.Beyond(r, 100, t.Int("n"))
	silent, good := crowd(t, w, n, wire.Beyond(r, 50, t.Int("established")))
	for _, k := range good {
		if r.IntN(3) == 0 {
			k.step(t, r)
		}
	}
	w.Shutdown()
	for i, c := range silent {
		t.Await("still-there", fmt.Sprintf("client %d of %d is disconnected by Close", i, n), c.Over)
	}
	for i, k := range good {
		t.Await("still-there", fmt.Sprintf("client of session %d of %d is disconnected by Close", i, len(good)), k.c.Over)
		t.Await("still-there", fmt.Sprintf("database connection of session %d of %d ends with Close", i, len(good)), k.d.Over)
	}
	t.Count("sessions_closed", n+len(good))
	t.Case(true, n, len(good))
	t.Sample("%d clients without a session, %d sessions", n, len(good))
}

// c19Backlog: a subscriber that does not read for a long time gets everything in order afterwards; so do many subscribers.
func c19Backlog(t *mon.T) {
	r := t.Rand
	src := make(chan *server.Config)
	dist := server.NewConfigDistributor(src)
	n, width := wire.Beyond(r, 2000, t.Int("n")), 1
	if t.Int("width") > 0 {
		n, width = 5, wire.Beyond(r, 100, t.Int("width"))
	}
	label := fmt.Sprintf("%d configurations for %d subscribers that do not read at first", n, width)
	var chans []chan *server.Config
	for i := 0; i < width; i++ {
		ch := make(chan *server.Config, r.IntN(3))
		if err := dist.Subscribe(ch); err != nil {
			t.Fail("subscribe", "subscribing fails: %v", err)
		}
		chans = append(chans, ch)
	}
	pushed := make(chan struct{})
	stop := make(chan struct{})
	t.Defer(func() { close(stop) })
	go func() {
		defer close(pushed)
		for i := 1; i <= n; i++ {
			if !pushTo(src, cfgN(i, ""), stop) {
				return
			}
		}
	}()
	t.AwaitChan("push", "all configurations are taken: "+label, pushed)
	for k, ch := range chans {
		for i := 1; i <= n; i++ {
			var c *server.Config
			done := make(chan struct{})
			go func() {
				defer close(done)
				select {
				case c = <-ch:
				case <-stop:
				}
			}()
			if i < 10 || i > n-10 || i%1000 == 0 {
				t.AwaitChan("lost", fmt.Sprintf("subscriber %d gets configuration %d: %s", k, i, label), done)
			} else {
				<-done
			}
			if numOf(c) != i {
				t.Fail("order", "subscriber %d gets configuration %d in place of %d: %s", k, numOf(c), i, label)
			}
		}
	}
	if c, err := dist.Get(); err != nil || numOf(c) != n {
		t.Fail("get", "the distributor returns %v, %v instead of the last configuration: %s", c, err, label)
	}
	t.Count("backlog", n*width)
	t.Case(true, label)
	t.Sample("%s", label)
	done := make(chan struct{})
	go func() { dist.Close(); close(done) }()
	t.AwaitChan("close", "Close returns", done)
	t.NoProductGoroutines("leak", "after Close")
}

// c18Crowd: any number of readers may wait for the first configuration.
func c18Crowd(t *mon.T) {
	r := t.Rand
	src := make(chan *server.Config)
	dist := server.NewConfigDistributor(src)
	n := wire.Beyond(r, 200, t.Int("n"))
	closing := r.IntN(3) == 0
	var wrong atomic.Value
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			c, err := dist.Get()
			switch {
			case closing && (err != server.ErrConfigDistributorClosed):
				wrong.CompareAndSwap(nil, fmt.Sprintf("a read waiting for the first configuration when the distributor is closed gives %v, %v", c, err))
			case !closing && (err != nil || numOf(c) < 1):
				wrong.CompareAndSwap(nil, fmt.Sprintf("a read waiting for the first configuration gives %v, %v", c, err))
			}
		}()
	}
	sleepUS(r.IntN(50000))
	stop := make(chan struct{})
	t.Defer(func() { close(stop) })
	closeIt := func() {
		done := make(chan struct{})
		go func() { dist.Close(); close(done) }()
		t.AwaitChan("close", fmt.Sprintf("Close returns with %d readers", n), done)
	}
	if closing {
		closeIt()
	} else {
		done := make(chan struct{})
		go func() { pushTo(src, cfgN(1, ""), stop); close(done) }()
		t.AwaitChan("push", fmt.Sprintf("the first configuration is taken with %d readers", n), done)
	}
	all := make(chan struct{})
	go func() { wg.Wait(); close(all) }()
	t.AwaitChan("hanging", fmt.Sprintf("all of %d readers return (closing: %v)", n, closing), all)
	if s := wrong.Load(); s != nil {
		t.Fail("read", "%s (%d readers)", s, n)
	}
	if !closing {
		closeIt()
	}
	t.Count("waiting_readers", n)
	t.Case(true, n, closing)
	t.NoProductGoroutines("leak", "after Close")
}

// c14States closes a server over sessions in every combination of states of their two connections.
func c14States(t *mon.T) {
	r := t.Rand
	w := newWorld(t, "db")
	history := ""
	var clients, dbs []*End
	behave := func(e *End, backend bool) string {
		how := ""
		if r.IntN(3) == 0 {
			e.Pause()
			how = "not reading, "
		}
		size := r.IntN(4)
		switch size {
		case 0:
			how += "silent, "
		case 1:
			e.Send(wire.GenStream(r, backend, 1+r.IntN(5), 300).Bytes(), pieces(r, 4))
			how += "sent a little, "
		case 2:
			e.Send(wire.Std('d', make([]byte, 3000))[:r.IntN(3000)], pieces(r, 4))
			how += "in the middle of a message, "
		default:
			e.Send(bytes.Repeat(wire.Std('d', make([]byte, 50000)), 200), pieces(r, 4))
			how += "sending 10 MB, "
		}
		return how
	}
	leave := func(e *End) string {
		switch r.IntN(5) {
		case 0:
			e.Reset()
			return "reset"
		case 1:
			e.CloseWrite()
			return "half-closed"
		case 2:
			e.Close()
			return "closed"
		}
		return "open"
	}
	for i := 0; i < t.Int("n"); i++ {
		c, d := w.Connect("db")
		h := "client " + behave(c, false)
		h2 := "database " + behave(d, true)
		if r.IntN(2) == 0 {
			sleepUS(r.IntN(20000))
		}
		if r.IntN(2) == 0 {
			h += leave(c)
			h2 += "open"
		} else {
			h2 += leave(d)
			if r.IntN(4) == 0 {
				h += leave(c)
			} else {
				h += "open"
			}
		}
		if r.IntN(2) == 0 {
			sleepUS(r.IntN(5000))
		}
		clients, dbs = append(clients, c), append(dbs, d)
		history += fmt.Sprintf("[%s; %s] ", h, h2)
		t.Case(true, h, h2)
	}
	switch r.IntN(4) {
	case 0:
		sleepUS(r.IntN(2000))
	case 1:
		sleepUS(r.IntN(60000))
	case 2: // until nothing moves any more
		t.AwaitSoftly(func() bool { return false })
	}
	t.Sample("%s", history)
	w.Shutdown()
	for i, c := range clients {
		c.Resume()
		d := dbs[i]
		d.Resume()
		for _, e := range []*End{c, d} {
			e.mu.Lock()
			gone := e.closed
			e.mu.Unlock()
			if gone {
				continue
			}
			polls := 0
			t.Await("still-there", fmt.Sprintf("%s of session %d is disconnected by Close: %s", e.Name, i, history), func() bool {
				polls++
				return e.Over() || polls%16 == 0 && !held(e.C)
			})
		}
	}
	t.Count("sessions_closed", len(clients))
}
