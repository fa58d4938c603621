package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"reflect"

	"github.com/hired/gevulot/pkg/pg"
	"github.com/lib/pq/oid"

	"verif.local/harness/mon"
	"verif.local/harness/wire"
)

// value is a generated message value with the bytes the protocol prescribes for it.
type value struct {
	kind  string
	msg   pg.Message
	bytes []byte
	start bool
}

var parsers = map[string]func(pg.Frame) (pg.Message, error){
	"Authentication":           func(f pg.Frame) (pg.Message, error) { return fix(pg.ParseAuthenticationRequestMessage(f)) },
	"BackendKeyData":           func(f pg.Frame) (pg.Message, error) { return fix(pg.ParseBackendKeyDataMessage(f)) },
	"NegotiateProtocolVersion": func(f pg.Frame) (pg.Message, error) { return fix(pg.ParseNegotiateProtocolVersionMessage(f)) },
	"ParameterStatus":          func(f pg.Frame) (pg.Message, error) { return fix(pg.ParseParameterStatusMessage(f)) },
	"ReadyForQuery":            func(f pg.Frame) (pg.Message, error) { return fix(pg.ParseReadyForQueryMessage(f)) },
	"RowDescription":           func(f pg.Frame) (pg.Message, error) { return fix(pg.ParseRowDescriptionMessage(f)) },
	"DataRow":                  func(f pg.Frame) (pg.Message, error) { return fix(pg.ParseDataRowMessage(f)) },
	"CommandComplete":          func(f pg.Frame) (pg.Message, error) { return fix(pg.ParseCommandCompleteMessage(f)) },
	"EmptyQueryResponse":       func(f pg.Frame) (pg.Message, error) { return fix(pg.ParseEmptyQueryResponseMessage(f)) },
	"ErrorResponse":            func(f pg.Frame) (pg.Message, error) { return fix(pg.ParseErrorResponseMessage(f)) },
	"NoticeResponse":           func(f pg.Frame) (pg.Message, error) { return fix(pg.ParseNoticeResponseMessage(f)) },
	"Password":                 func(f pg.Frame) (pg.Message, error) { return fix(pg.ParsePasswordMessage(f)) },
	"Query":                    func(f pg.Frame) (pg.Message, error) { return fix(pg.ParseQueryMessage(f)) },
	"Terminate":                func(f pg.Frame) (pg.Message, error) { return fix(pg.ParseTerminateMessage(f)) },
	"Generic":                  func(f pg.Frame) (pg.Message, error) { return fix(pg.ParseGenericMessage(f)) },
	"Startup":                  func(f pg.Frame) (pg.Message, error) { return fix(pg.ParseStartupMessage(f)) },
}

// fix turns typed nil pointers into errors' companions: a message, or nil with an error.
func fix[M pg.Message](m M, err error) (pg.Message, error) {
	if err != nil {
		return nil, err
	}
	return m, nil
}

// typeOf is the type byte of each standard parser.
var typeOf = map[string]byte{"Authentication": 'R', "BackendKeyData": 'K', "NegotiateProtocolVersion": 'v', "ParameterStatus": 'S', "ReadyForQuery": 'Z',
	"RowDescription": 'T', "DataRow": 'D', "CommandComplete": 'C', "EmptyQueryResponse": 'I', "ErrorResponse": 'E', "NoticeResponse": 'N', "Password": 'p',
	"Query": 'Q', "Terminate": 'X'}

var valueKinds = []string{"AuthOk", "AuthKerberos", "AuthCleartext", "AuthMD5", "AuthSCM", "AuthGSS", "AuthGSSContinue", "AuthSSPI", "BackendKeyData",
	"NegotiateProtocolVersion", "ParameterStatus", "ReadyForQuery", "RowDescription", "DataRow", "CommandComplete", "EmptyQueryResponse", "ErrorResponse",
	"NoticeResponse", "Password", "Query", "Terminate", "Generic", "Startup", "SSLRequest"}

func parserOf(kind string) string {
	switch {
	case len(kind) > 4 && kind[:4] == "Auth":
		return "Authentication"
	case kind == "SSLRequest":
		return "Startup"
	}
	return kind
}

func msgFields(r *rand.Rand, max int) ([]*pg.MessageField, wire.B) {
	var fs []*pg.MessageField
	b := wire.B{}
	for i, n := 0, wire.Count(r, 40); i < n; i++ {
		c := wire.FieldCodes[r.IntN(len(wire.FieldCodes))]
		if r.IntN(8) == 0 {
			c = byte(1 + r.IntN(255))
		}
		v := wire.Text(r, max)
		fs = append(fs, &pg.MessageField{Type: pg.MessageFieldType(c), Value: v})
		b = b.Byte(c).Str(v)
	}
	return fs, b.Byte(0)
}

func genValue(r *rand.Rand, kind string, max int, big bool) value {
	v := value{kind: kind}
	b := wire.B{}
	std := func(t byte) { v.bytes = wire.Std(t, b) }
	count := func(m int) int {
		if big {
			return []int{m, m - 1, 256, 255, 1024}[r.IntN(5)]
		}
		return wire.Count(r, m)
	}
	switch kind {
	case "AuthOk":
		v.msg, b = &pg.AuthenticationOkMessage{}, b.I32(0)
		std('R')
	case "AuthKerberos":
		v.msg, b = &pg.AuthenticationKerberosV5Message{}, b.I32(2)
		std('R')
	case "AuthCleartext":
		v.msg, b = &pg.AuthenticationCleartextPasswordMessage{}, b.I32(3)
		std('R')
	case "AuthMD5":
		var salt [4]byte
		u := wire.Int32(r)
		copy(salt[:], wire.B{}.I32(int(u)))
		v.msg, b = &pg.AuthenticationMD5PasswordMessage{Salt: salt}, b.I32(5).Raw(salt[:])
		std('R')
	case "AuthSCM":
		v.msg, b = &pg.AuthenticationSCMCredentialMessage{}, b.I32(6)
		std('R')
	case "AuthGSS":
		v.msg, b = &pg.AuthenticationGSSMessage{}, b.I32(7)
		std('R')
	case "AuthGSSContinue":
		d := wire.Bytes(r, max)
		v.msg, b = &pg.AuthenticationGSSContinueMessage{Data: d}, b.I32(8).Raw(d)
		std('R')
	case "AuthSSPI":
		v.msg, b = &pg.AuthenticationSSPIMessage{}, b.I32(9)
		std('R')
	case "BackendKeyData":
		p, k := wire.Int32(r), wire.Int32(r)
		v.msg, b = &pg.BackendKeyDataMessage{ProcessID: p, Key: k}, b.I32(int(p)).I32(int(k))
		std('K')
	case "NegotiateProtocolVersion":
		n, ver := count(3000), wire.Int32(r)
		m := &pg.NegotiateProtocolVersionMessage{SupportedProtocolVersion: ver}
		b = b.I32(int(ver)).I32(n)
		for i := 0; i < n; i++ {
			s := wire.Text(r, min(max, 100))
			m.UnrecognizedOptions = append(m.UnrecognizedOptions, s)
			b = b.Str(s)
		}
		v.msg = m
		std('v')
	case "ParameterStatus":
		x, y := wire.Text(r, max), wire.Text(r, max)
		v.msg, b = &pg.ParameterStatusMessage{Name: x, Value: y}, b.Str(x).Str(y)
		std('S')
	case "ReadyForQuery":
		c := byte(r.Uint32())
		if r.IntN(4) > 0 {
			c = "ITE"[r.IntN(3)]
		}
		v.msg, b = &pg.ReadyForQueryMessage{TxStatus: pg.TxStatus(c)}, b.Byte(c)
		std('Z')
	case "RowDescription":
		m := &pg.RowDescriptionMessage{}
		n := count(32767)
		b = b.I16(n)
		for i := 0; i < n; i++ {
			f := &pg.FieldDescriptor{Name: wire.Text(r, min(max, 70)), TableOID: oid.Oid(uint32(wire.Int32(r))), ColumnIndex: wire.Int16(r),
				DataTypeOID: oid.Oid(uint32(wire.Int32(r))), DataTypeSize: wire.Int16(r), DataTypeModifier: wire.Int32(r), Format: pg.DataFormat(wire.Int16(r))}
			m.Fields = append(m.Fields, f)
			b = b.Str(f.Name).I32(int(int32(f.TableOID))).I16(int(f.ColumnIndex)).I32(int(int32(f.DataTypeOID))).I16(int(f.DataTypeSize)).
				I32(int(f.DataTypeModifier)).I16(int(f.Format))
		}
		v.msg = m
		std('T')
	case "DataRow":
		m := &pg.DataRowMessage{}
		n := count(32767)
		b = b.I16(n)
		for i := 0; i < n; i++ {
			if r.IntN(4) == 0 {
				m.Values = append(m.Values, nil)
				b = b.I32(-1)
				continue
			}
			mx := max
			if n > 400 {
				mx = 30
			}
			d := wire.Bytes(r, mx)
			m.Values = append(m.Values, d)
			b = b.I32(len(d)).Raw(d)
		}
		v.msg = m
		std('D')
	case "CommandComplete":
		s := wire.Text(r, max)
		v.msg, b = &pg.CommandCompleteMessage{Tag: s}, b.Str(s)
		std('C')
	case "EmptyQueryResponse":
		v.msg = &pg.EmptyQueryResponseMessage{}
		std('I')
	case "ErrorResponse":
		fs, fb := msgFields(r, max)
		v.msg, b = &pg.ErrorResponseMessage{Fields: fs}, fb
		std('E')
	case "NoticeResponse":
		fs, fb := msgFields(r, max)
		v.msg, b = &pg.NoticeResponseMessage{Fields: fs}, fb
		std('N')
	case "Password":
		s := wire.Text(r, max)
		v.msg, b = &pg.PasswordMessage{Password: s}, b.Str(s)
		std('p')
	case "Query":
		s := wire.Text(r, max)
		v.msg, b = &pg.QueryMessage{Query: s}, b.Str(s)
		std('Q')
	case "Terminate":
		v.msg = &pg.TerminateMessage{}
		std('X')
	case "Generic":
		t, d := "PBHdcfFGW123nstAV$"[r.IntN(18)], wire.Bytes(r, max)
		v.msg, b = &pg.GenericMessage{Type: t, Body: d}, d
		std(t)
	case "Startup":
		m := &pg.StartupMessage{ProtocolVersion: wire.V3}
		if r.IntN(6) == 0 {
			m.ProtocolVersion = wire.Int32(r)
		}
		n := max1(count(500))
		var ps []wire.Param
		for i := 0; i < n; i++ {
			p := wire.Param{Name: wire.Text(r, min(max, 60)), Value: wire.Text(r, min(max, 600))}
			if p.Name == "" {
				p.Name = "n"
			}
			ps = append(ps, p)
			m.Parameters = append(m.Parameters, &pg.StartupMessageParameter{Name: p.Name, Value: p.Value})
		}
		v.msg, v.bytes, v.start = m, wire.Startup(int(m.ProtocolVersion), ps), true
	case "SSLRequest":
		v.msg, v.bytes, v.start = &pg.StartupMessage{ProtocolVersion: wire.SSLReq}, wire.SSLRequest(), true
	default:
		panic(kind)
	}
	return v
}

func max1(n int) int {
	if n < 1 {
		return 1
	}
	return n
}

// same compares messages: nil and empty slices are equal, except that a nil column value is NULL.
func same(a, b reflect.Value, null bool) bool {
	if a.Kind() != b.Kind() || a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Pointer, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return same(a.Elem(), b.Elem(), false)
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !same(a.Field(i), b.Field(i), false) {
				return false
			}
		}
		return true
	case reflect.Slice:
		if null && a.IsNil() != b.IsNil() {
			return false
		}
		if a.Len() != b.Len() {
			return false
		}
		if a.Type().Elem().Kind() == reflect.Uint8 {
			return bytes.Equal(a.Bytes(), b.Bytes())
		}
		inner := a.Type().Elem().Kind() == reflect.Slice
		for i := 0; i < a.Len(); i++ {
			if !same(a.Index(i), b.Index(i), inner) {
				return false
			}
		}
		return true
	default:
		return reflect.DeepEqual(a.Interface(), b.Interface())
	}
}

func sameMsg(a, b pg.Message) bool { return same(reflect.ValueOf(a), reflect.ValueOf(b), false) }

func asFrame(start bool, p []byte) pg.Frame {
	if start {
		return pg.StartupFrame(p)
	}
	return pg.StandardFrame(p)
}

func clip(p []byte) string {
	if len(p) > 60 {
		return fmt.Sprintf("%q...(%d bytes)", p[:60], len(p))
	}
	return fmt.Sprintf("%q", p)
}

func firstDiff(a, b []byte) string {
	n := min(len(a), len(b))
	for i := 0; i < n; i++ {
		if a[i] != b[i] {
			lo := max(0, i-12)
			return fmt.Sprintf("lengths %d and %d, first difference at byte %d: ...%q and ...%q", len(a), len(b), i, a[lo:min(len(a), i+24)], b[lo:min(len(b), i+24)])
		}
	}
	if len(a) == len(b) {
		return "equal"
	}
	return fmt.Sprintf("lengths %d and %d, equal up to the shorter; longer one goes on with %s", len(a), len(b), clip(append(append([]byte{}, a[n:]...), b[n:]...)))
}

// guard turns a panic of product code into a violation.
func guard(t *mon.T, key, what string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			if isStop(r) {
				panic(r)
			}
			t.Fail(key, "panic: %v in %s", r, what)
		}
	}()
	f()
}

func isStop(r any) bool { return fmt.Sprintf("%T", r) == "mon.stop" }

func c01Values(t *mon.T) {
	r := t.Rand
	big := t.Int("big") == 1
	// Values kept over the whole batch: later messages must not change earlier ones.
	type kept struct {
		v      value
		parsed pg.Message
		frame  []byte
	}
	var keep []kept
	for i := 0; i < t.Int("n"); i++ {
		kind := valueKinds[r.IntN(len(valueKinds))]
		if big {
			kind = []string{"DataRow", "RowDescription", "NegotiateProtocolVersion", "Query", "DataRow", "ErrorResponse", "Startup", "Generic"}[r.IntN(8)]
		}
		maxLen := 6000
		if big && r.IntN(3) == 0 {
			maxLen = 70000
		}
		v := genValue(r, kind, maxLen, big)
		guard(t, "panic:"+kind, "round trip of "+kind+" "+clip(v.bytes), func() {
			f := v.msg.Frame()
			if !bytes.Equal(f.Bytes(), v.bytes) {
				t.Fail("encode:"+kind, "serialised %s differs from the protocol: got/want %s", kind, firstDiff(f.Bytes(), v.bytes))
			}
			if !bytes.Equal(v.msg.Frame().Bytes(), v.bytes) {
				t.Fail("encode-again:"+kind, "second serialisation of %s differs", kind)
			}
			if !v.start && (f.MessageType() != v.bytes[0] || !bytes.Equal(f.MessageBody(), v.bytes[5:])) || v.start && !bytes.Equal(f.MessageBody(), v.bytes[4:]) {
				t.Fail("frame-parts:"+kind, "type or body accessor of the %s frame is wrong", kind)
			}
			in := append([]byte{}, v.bytes...)
			m, err := parsers[parserOf(kind)](asFrame(v.start, in))
			if err != nil {
				t.Fail("decode:"+kind, "parsing a serialised %s fails: %v (%s)", kind, err, clip(v.bytes))
			}
			if !sameMsg(m, v.msg) {
				t.Fail("decode:"+kind, "parsed %s differs from the value serialised: got %.300v want %.300v", kind, show(m), show(v.msg))
			}
			if sm, ok := m.(*pg.StartupMessage); ok {
				checkParameters(t, sm)
			}
			if i%16 == 0 && len(keep) < 200 {
				keep = append(keep, kept{v, m, m.Frame().Bytes()})
			}
		})
		t.Count("round_trips", 1)
		t.Case(len(v.bytes) > 5, v.kind, v.bytes)
		if i < 2 {
			t.Sample("%s %s", kind, clip(v.bytes))
		}
	}
	for _, k := range keep {
		if !sameMsg(k.parsed, k.v.msg) || !bytes.Equal(k.frame, k.v.bytes) {
			t.Fail("aliasing:"+k.v.kind, "an earlier %s changed while later messages were processed", k.v.kind)
		}
	}
}

func show(m pg.Message) string { return fmt.Sprintf("%+v", m) }

func checkParameters(t *mon.T, m *pg.StartupMessage) {
	count := map[string]int{}
	for _, p := range m.Parameters {
		count[p.Name]++
	}
	for _, p := range m.Parameters {
		if count[p.Name] == 1 && m.GetParameter(p.Name) != p.Value {
			t.Fail("parameter", "parameter %q is %q, expected %q", p.Name, m.GetParameter(p.Name), p.Value)
		}
	}
	if count["no such parameter"] == 0 && m.GetParameter("no such parameter") != "" {
		t.Fail("parameter", "an absent parameter has a value")
	}
}

// c01Conn sends values over connections and compares what is received.
func c01Conn(t *mon.T) {
	r := t.Rand
	var vs []value
	for i := 0; i < t.Int("n"); i++ {
		kind := valueKinds[r.IntN(len(valueKinds)-2)]
		vs = append(vs, genValue(r, kind, 6000, false))
	}
	start := genValue(r, "Startup", 300, false)
	a, b := net.Pipe()
	t.Defer(func() { a.Close(); b.Close() })
	sendErr := make(chan error, 1)
	go func() {
		defer a.Close()
		c := pg.NewConn(a)
		err := c.SendMessage(start.msg)
		for _, v := range vs {
			if err == nil {
				err = c.SendMessage(v.msg)
			}
		}
		if err == nil {
			err = c.SendByte('N')
		}
		sendErr <- err
	}()
	c := pg.NewConn(b)
	guard(t, "conn-panic", "receiving", func() {
		sm, err := c.RecvStartupMessage()
		if err != nil || !sameMsg(sm, start.msg) {
			t.Fail("conn:Startup", "start-up message received as %v, %v", sm, err)
		}
		for i, v := range vs {
			m, err := c.RecvMessage()
			if err != nil {
				t.Fail("conn:"+v.kind, "receiving %s %s fails: %v", v.kind, clip(v.bytes), err)
			}
			if !sameMsg(m, v.msg) {
				t.Fail("conn:"+v.kind, "message %d, %s %s, received as %.200s", i, v.kind, clip(v.bytes), show(m))
			}
			t.Count("messages_over_connections", 1)
			t.Case(len(v.bytes) > 5, "conn", v.bytes)
		}
		one := make([]byte, 2)
		if n, err := b.Read(one); n != 1 || one[0] != 'N' {
			t.Fail("conn:byte", "sent byte arrived as %v, %v", one[:n], err)
		}
		if _, err := c.RecvMessage(); err != io.EOF {
			t.Fail("conn:eof", "receiving after the end gives %v", err)
		}
	})
	if err := <-sendErr; err != nil {
		t.Fail("conn:send", "sending fails: %v", err)
	}
}

// wellFormed is the reference grammar of the bodies.
func wellFormed(kind string, b []byte) bool {
	str := func() bool {
		i := bytes.IndexByte(b, 0)
		if i < 0 {
			return false
		}
		b = b[i+1:]
		return true
	}
	num := func(n int) (int, bool) {
		if len(b) < n {
			return 0, false
		}
		v := 0
		for i := 0; i < n; i++ {
			v = v<<8 | int(b[i])
		}
		b = b[n:]
		if n == 2 {
			return int(int16(v)), true
		}
		return int(int32(v)), true
	}
	switch kind {
	case "Authentication":
		c, ok := num(4)
		if !ok {
			return false
		}
		switch c {
		case 0, 2, 3, 6, 7, 9:
			return len(b) == 0
		case 5:
			return len(b) == 4
		case 8:
			return true
		}
		return false
	case "BackendKeyData":
		return len(b) == 8
	case "NegotiateProtocolVersion":
		_, ok1 := num(4)
		n, ok2 := num(4)
		if !ok1 || !ok2 || n < 0 || n > len(b) {
			return false
		}
		for i := 0; i < n; i++ {
			if !str() {
				return false
			}
		}
		return len(b) == 0
	case "ParameterStatus":
		return str() && str() && len(b) == 0
	case "ReadyForQuery":
		return len(b) == 1
	case "RowDescription":
		n, ok := num(2)
		if !ok || n < 0 {
			return false
		}
		for i := 0; i < n; i++ {
			if !str() || len(b) < 18 {
				return false
			}
			b = b[18:]
		}
		return len(b) == 0
	case "DataRow":
		n, ok := num(2)
		if !ok || n < 0 {
			return false
		}
		for i := 0; i < n; i++ {
			l, ok := num(4)
			if !ok || l < -1 || l > len(b) {
				return false
			}
			if l > 0 {
				b = b[l:]
			}
		}
		return len(b) == 0
	case "CommandComplete", "Password", "Query":
		return str() && len(b) == 0
	case "EmptyQueryResponse", "Terminate":
		return len(b) == 0
	case "ErrorResponse", "NoticeResponse":
		for {
			if len(b) == 0 {
				return false
			}
			if b[0] == 0 {
				return len(b) == 1
			}
			b = b[1:]
			if !str() {
				return false
			}
		}
	case "Generic":
		return true
	case "Startup":
		v, ok := num(4)
		if !ok {
			return false
		}
		if v == wire.SSLReq {
			return len(b) == 0
		}
		for {
			if len(b) == 0 {
				return false
			}
			if b[0] == 0 {
				return len(b) == 1
			}
			if !str() || !str() {
				return false
			}
		}
	}
	panic(kind)
}

// mutate returns a variation of a body.
func mutate(r *rand.Rand, b []byte) ([]byte, string) {
	b = append([]byte{}, b...)
	switch r.IntN(9) {
	case 0:
		if len(b) > 0 {
			return b[:r.IntN(len(b))], "truncate"
		}
		return b, "none"
	case 1:
		return append(b, wire.Bytes(r, 20)...), "extend"
	case 2:
		return append(b, 0), "extra-nul"
	case 3:
		if len(b) > 0 {
			b[r.IntN(len(b))] ^= 1 << r.IntN(8)
		}
		return b, "flip"
	case 4:
		if len(b) > 0 {
			i := r.IntN(len(b))
			return append(b[:i:i], b[i+1:]...), "delete"
		}
		return b, "none"
	case 5:
		i := r.IntN(len(b) + 1)
		return append(append(append([]byte{}, b[:i]...), byte(r.IntN(3))), b[i:]...), "insert"
	case 6: // overwrite a 2 or 4 byte number near the front, where counts are
		for _, n := range []int{2, 4} {
			if len(b) >= n && r.IntN(2) == 0 {
				at := 0
				if r.IntN(2) == 0 {
					at = r.IntN(len(b) - n + 1)
				}
				var e wire.B
				if n == 2 {
					e = e.I16(int(wire.Int16(r)))
				} else {
					e = e.I32(int(wire.Int32(r)))
				}
				copy(b[at:], e)
				return b, "number"
			}
		}
		return b, "none"
	case 7: // change a number slightly
		if len(b) > 0 {
			at := r.IntN(min(len(b), 12))
			b[at] += byte(r.IntN(5) - 2)
		}
		return b, "nudge"
	default:
		return b, "none"
	}
}

func c02Frames(t *mon.T) {
	r := t.Rand
	kinds := make([]string, 0, len(parsers))
	for _, k := range valueKinds {
		kinds = append(kinds, k)
	}
	for i := 0; i < t.Int("n"); i++ {
		kind := kinds[r.IntN(len(kinds))]
		v := genValue(r, kind, 400, false)
		head := 5
		if v.start {
			head = 4
		}
		body, how := append([]byte{}, v.bytes[head:]...), "none"
		for k := r.IntN(3); k > 0; k-- {
			body, how = mutate(r, body)
		}
		if v.start && r.IntN(12) == 0 {
			body = wire.B{}.I32(wire.V3) // the degenerate start-up packets
			if r.IntN(2) == 0 {
				body = append(body, 0)
			}
		}
		if r.IntN(25) == 0 {
			body, how = wire.Bytes(r, 40), "random"
		}
		p := parserOf(kind)
		typ := v.bytes[0]
		wrongType := false
		if !v.start && p != "Generic" && r.IntN(20) == 0 {
			typ = byte(r.Uint32())
			wrongType = typ != typeOf[p]
		}
		var fr []byte
		if v.start {
			fr = wire.Start(body)
		} else {
			fr = wire.Std(typ, body)
		}
		good := !wrongType && wellFormed(p, body)
		guard(t, "panic:"+p, "parsing "+p+" "+clip(fr), func() {
			m, err := parsers[p](asFrame(v.start, append([]byte{}, fr...)))
			if err != nil {
				if good {
					t.Fail("refused:"+p, "well-formed %s %s is refused: %v", p, clip(fr), err)
				}
				t.Count("rejected", 1)
			} else {
				if got := m.Frame().Bytes(); !bytes.Equal(got, fr) {
					t.Fail("lossy:"+p, "%s accepts %s and turns it into %s", p, clip(fr), clip(got))
				}
				t.Count("accepted", 1)
			}
		})
		// The same frame over a connection.
		guard(t, "panic:recv", "receiving "+clip(fr), func() {
			c := pg.NewConn(&bytesConn{Reader: bytes.NewReader(fr)})
			var m pg.Message
			var err error
			if v.start {
				m, err = fix(c.RecvStartupMessage())
			} else {
				m, err = c.RecvMessage()
			}
			if err != nil {
				if good {
					t.Fail("recv-refused:"+p, "well-formed %s %s is refused by the receive call: %v", p, clip(fr), err)
				}
			} else if got := m.Frame().Bytes(); !bytes.Equal(got, fr) {
				t.Fail("recv-lossy:"+string(rune(fr[0])), "%s is received as %s", clip(fr), clip(got))
			}
			if v.start {
				return
			}
			m, err = recvFrom(pg.NewConn(&bytesConn{Reader: bytes.NewReader(fr)}), false)
			if err == nil {
				if got := m.Frame().Bytes(); !bytes.Equal(got, fr) {
					t.Fail("recv-frontend-lossy:"+string(rune(fr[0])), "%s is received from a client as %s", clip(fr), clip(got))
				}
			}
		})
		t.Case(true, p, fr)
		if how != "none" {
			t.Count("mutated", 1)
			t.Sample("%s %s: %s", p, how, clip(fr))
		}
	}
	// Every well-formed backend message, whether or not the library has a type for it.
	for _, kind := range wire.BackendKinds {
		g := wire.Backend(r, kind, 300)
		guard(t, "panic:recv", "receiving "+clip(g.Bytes), func() {
			c := pg.NewConn(&bytesConn{Reader: bytes.NewReader(g.Bytes)})
			m, err := c.RecvMessage()
			if err != nil {
				t.Fail("recv-refused:"+kind, "%s %s is refused: %v", kind, clip(g.Bytes), err)
			}
			if got := m.Frame().Bytes(); !bytes.Equal(got, g.Bytes) {
				t.Fail("recv-lossy:"+kind, "%s %s is received as %s", kind, clip(g.Bytes), clip(got))
			}
		})
		t.Case(true, kind, g.Bytes)
	}
	// And every well-formed frontend message.
	for _, kind := range wire.FrontendKinds {
		g := wire.Frontend(r, kind, 300)
		guard(t, "panic:recv", "receiving "+clip(g.Bytes), func() {
			m, err := recvFrom(pg.NewConn(&bytesConn{Reader: bytes.NewReader(g.Bytes)}), false)
			if err != nil {
				t.Fail("recv-refused:"+kind, "%s %s is refused: %v", kind, clip(g.Bytes), err)
			}
			if got := m.Frame().Bytes(); !bytes.Equal(got, g.Bytes) {
				t.Fail("recv-lossy:"+kind, "%s %s is received as %s", kind, clip(g.Bytes), clip(got))
			}
		})
		t.Case(true, kind, g.Bytes)
	}
}

// bytesConn is a net.Conn that reads from memory.
type bytesConn struct {
	net.Conn
	io.Reader
	out bytes.Buffer
}

func (c *bytesConn) Read(p []byte) (int, error)  { return c.Reader.Read(p) }
func (c *bytesConn) Write(p []byte) (int, error) { return c.out.Write(p) }
func (c *bytesConn) Close() error                { return nil }

var errInjected = errors.New("injected failure")

func init() {
	mon.Register(&mon.Property{
		ID:          "C01",
		Rule:        "random values of all 24 message kinds (sizes around buffer boundaries, extreme integers, NULL/empty, maximum counts); non-trivial: the message has a body; distinct by bytes. Oracle: independent encoder (harness/wire) and equality after parsing.",
		Assumptions: []string{"harness/wire encodes the protocol correctly (cross-checked against lib/pq in C25 and the captured packets)"},
		Scenarios:   map[string]func(*mon.T){"values": c01Values, "conn": c01Conn, "sizes": c01Sizes},
		MinDistinct: 5000,
		Plan: func(r *mon.Run) {
			var ts []mon.Task
			for i := 0; i < r.Pick(400, 4000); i++ {
				ts = append(ts, r.Task("values", map[string]int{"n": 600}))
			}
			for i := 0; i < r.Pick(240, 2400); i++ {
				ts = append(ts, r.Task("conn", map[string]int{"n": 150}))
			}
			for i := 0; i < r.Pick(60, 600); i++ {
				ts = append(ts, r.Task("values", map[string]int{"n": 12, "big": 1}))
			}
			for i := 0; i < r.Pick(48, 480); i++ {
				ts = append(ts, r.Task("sizes", map[string]int{"n": 150}))
			}
			for i := 0; i < r.Pick(48, 480); i++ {
				ts = append(ts, r.Task("sizes", map[string]int{"n": 12, "large": 1}))
			}
			r.Do(ts)
		},
	})
	mon.Register(&mon.Property{
		ID:          "C02",
		Rule:        "valid frames of every type under 0-2 mutations (truncate, extend, splice, flip, count/size edits, wrong type), plus every backend message kind; all are non-trivial; distinct by parser and bytes. Oracle: accepted => re-serialises identically; well-formed by the reference grammar => accepted.",
		Assumptions: []string{"the reference grammar in harness/props/codec.go"},
		Scenarios:   map[string]func(*mon.T){"frames": c02Frames, "sizes": c02Sizes},
		MinDistinct: 5000,
		Plan: func(r *mon.Run) {
			var ts []mon.Task
			for i := 0; i < r.Pick(400, 4000); i++ {
				ts = append(ts, r.Task("frames", map[string]int{"n": 1500}))
			}
			for i := 0; i < r.Pick(48, 480); i++ {
				ts = append(ts, r.Task("sizes", map[string]int{"n": 150}))
			}
			for i := 0; i < r.Pick(48, 480); i++ {
				ts = append(ts, r.Task("sizes", map[string]int{"n": 12, "large": 1}))
			}
			for i := 0; i < r.Pick(1, 12); i++ {
				ts = append(ts, r.Task("sizes", map[string]int{"n": 1, "huge": 1}))
			}
			r.Do(ts)
		},
	})
}
