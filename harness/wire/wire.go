// Package wire is an independent reference for the PostgreSQL v3 wire format, written from the protocol documentation.
package wire

import (
	"fmt"
	"math/rand/v2"
)

// B builds message bodies.
type B []byte

// I16 appends a 16-bit integer.
func (b B) I16(v int) B { return append(b, byte(uint16(v)>>8), byte(v)) }

// I32 appends a 32-bit integer.
func (b B) I32(v int) B {
	u := uint32(int32(v))
	return append(b, byte(u>>24), byte(u>>16), byte(u>>8), byte(u))
}

// Str appends a terminated string.
func (b B) Str(s string) B { return append(append(b, s...), 0) }

// Byte appends a byte.
func (b B) Byte(c byte) B { return append(b, c) }

// Raw appends bytes.
func (b B) Raw(p []byte) B { return append(b, p...) }

// Std frames a message.
func Std(t byte, body []byte) []byte {
	return append(B{t}.I32(len(body)+4), body...)
}

// Start frames a start-up packet.
func Start(body []byte) []byte { return append(B{}.I32(len(body)+4), body...) }

// Protocol codes.
const (
	V3      = 196608
	SSLReq  = 80877103
	GSSReq  = 80877104
	Cancel  = 80877102
	V2      = 131072
	V3dot2  = 196610
	MaxSize = 1 << 20
)

// Param is a start-up parameter.
type Param struct{ Name, Value string }

// Startup builds a start-up packet.
func Startup(version int, params []Param) []byte {
	b := B{}.I32(version)
	for _, p := range params {
		b = b.Str(p.Name).Str(p.Value)
	}
	return Start(b.Byte(0))
}

// SSLRequest is the SSL request packet.
func SSLRequest() []byte { return Start(B{}.I32(SSLReq)) }

// Frames splits a byte stream into complete standard frames and a rest; ok is false for an invalid length.
func Frames(s []byte) (frames [][]byte, rest []byte, ok bool) {
	for len(s) >= 5 {
		n := int(int32(uint32(s[1])<<24 | uint32(s[2])<<16 | uint32(s[3])<<8 | uint32(s[4])))
		if n < 4 {
			return frames, s, false
		}
		if len(s) < n+1 {
			break
		}
		frames = append(frames, s[:n+1])
		s = s[n+1:]
	}
	return frames, s, true
}

// ---- generators ----

// Size picks a length: mostly small, sometimes around buffer boundaries, rarely large.
func Size(r *rand.Rand, max int) int {
	var n int
	switch r.IntN(13) {
	case 0:
		n = 0
	case 12:
		if v := Number(r); v >= 0 && v <= 200000 {
			n = int(v)
		}
	case 1, 2, 3, 4, 5:
		n = r.IntN(20)
	case 6, 7:
		n = r.IntN(300)
	case 8:
		edges := []int{250, 251, 252, 255, 256, 257, 506, 507, 508, 511, 512, 513, 1023, 1024, 1025, 4090, 4091, 4092, 4096, 8192, 65535, 65536}
		n = edges[r.IntN(len(edges))]
	case 9:
		n = r.IntN(5000)
	default:
		n = r.IntN(60)
	}
	if n > max {
		n = max
	}
	return n
}

const sqlChars = " SELECT'\"\\%\n\t;$*"

// Text returns a string without NUL bytes (any other byte may occur).
func Text(r *rand.Rand, max int) string {
	if r.IntN(4) == 0 {
		return phrase(r, max)
	}
	n := Size(r, max)
	p := make([]byte, n)
	style := r.IntN(4)
	for i := range p {
		switch style {
		case 0:
			p[i] = byte('a' + r.IntN(26))
		case 1:
			p[i] = byte(1 + r.IntN(255))
		case 2:
			p[i] = sqlChars[r.IntN(len(sqlChars))]
		default:
			p[i] = byte(32 + r.IntN(95))
		}
	}
	if style == 3 && n > 8 {
		copy(p, "žluťoučký")
	}
	return string(p)
}

// Bytes returns arbitrary bytes.
func Bytes(r *rand.Rand, max int) []byte {
	if r.IntN(6) == 0 {
		p := []byte(phrase(r, max))
		if r.IntN(3) == 0 && len(p) < max {
			p = append(p, 0)
		}
		return p
	}
	p := make([]byte, Size(r, max))
	switch r.IntN(3) {
	case 0: // zeros
	case 1:
		for i := range p {
			p[i] = 0xff
		}
	default:
		for i := range p {
			p[i] = byte(r.Uint32())
		}
	}
	return p
}

// Int32 returns an int32 with a preference for extremes.
func Int32(r *rand.Rand) int32 {
	edges := []int32{0, 1, -1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 1 << 24, 2147483647, -2147483648, -32768, 196608}
	switch r.IntN(4) {
	case 0, 1:
		return edges[r.IntN(len(edges))]
	case 2:
		return int32(Number(r))
	}
	return int32(r.Uint32())
}

// Int16 returns an int16 with a preference for extremes.
func Int16(r *rand.Rand) int16 {
	edges := []int16{0, 1, -1, 127, 128, 255, 256, 32767, -32768, -2}
	switch r.IntN(4) {
	case 0, 1:
		return edges[r.IntN(len(edges))]
	case 2:
		return int16(Number(r))
	}
	return int16(r.Uint32())
}

// Count picks a number of elements.
func Count(r *rand.Rand, max int) int {
	var n int
	switch r.IntN(10) {
	case 0:
		n = 0
	case 1, 2:
		n = 1
	case 3:
		n = r.IntN(300)
	case 4:
		if v := Number(r); r.IntN(4) == 0 && v >= 0 && v <= 5000 {
			n = int(v)
		} else {
			n = 1 + r.IntN(8)
		}
	default:
		n = 1 + r.IntN(8)
	}
	if n > max {
		n = max
	}
	return n
}

// Gen is a generated message.
type Gen struct {
	Kind  string
	Bytes []byte
}

// FieldCodes are the documented error/notice field codes.
const FieldCodes = "SVCMDHPpqWstcdnFLR"

func fields(r *rand.Rand, max int) B {
	b := B{}
	if r.IntN(2) == 0 { // as PostgreSQL sends them
		severities := []string{"DEBUG1", "DEBUG2", "DEBUG5", "LOG", "INFO", "NOTICE", "WARNING", "ERROR", "FATAL", "PANIC"}
		s := severities[r.IntN(len(severities))]
		b = b.Byte('S').Str(s)
		if r.IntN(4) > 0 {
			b = b.Byte('V').Str(s)
		}
		b = b.Byte('C').Str([]string{"00000", "01000", "23505", "40001", "42601", "42P01", "57014", "57P01", "XX000", "28P01", "3D000", "53300"}[r.IntN(12)]).Byte('M').Str(Text(r, max))
	}
	for i, n := 0, Count(r, 20); i < n; i++ {
		b = b.Byte(FieldCodes[r.IntN(len(FieldCodes))]).Str(Text(r, max))
	}
	return b.Byte(0)
}

func dataRow(r *rand.Rand, max int) B {
	n := Count(r, 1600)
	b := B{}.I16(n)
	for i := 0; i < n; i++ {
		if r.IntN(4) == 0 {
			b = b.I32(-1)
			continue
		}
		v := Bytes(r, max)
		b = b.I32(len(v)).Raw(v)
	}
	return b
}

func rowDesc(r *rand.Rand, max int) B {
	n := Count(r, 1600)
	b := B{}.I16(n)
	for i := 0; i < n; i++ {
		b = b.Str(Text(r, max)).I32(int(Int32(r))).I16(int(Int16(r))).I32(int(Int32(r))).I16(int(Int16(r))).I32(int(Int32(r))).I16(r.IntN(2))
	}
	return b
}

// BackendKinds lists the backend messages Backend can make.
var BackendKinds = []string{"AuthenticationOk", "AuthenticationKerberosV5", "AuthenticationCleartextPassword", "AuthenticationMD5Password",
	"AuthenticationSCMCredential", "AuthenticationGSS", "AuthenticationGSSContinue", "AuthenticationSSPI", "AuthenticationSASL", "AuthenticationSASLContinue",
	"AuthenticationSASLFinal", "BackendKeyData", "NegotiateProtocolVersion", "ParameterStatus", "ReadyForQuery", "RowDescription", "DataRow", "CommandComplete",
	"EmptyQueryResponse", "ErrorResponse", "NoticeResponse", "ParseComplete", "BindComplete", "CloseComplete", "NoData", "PortalSuspended",
	"ParameterDescription", "CopyInResponse", "CopyOutResponse", "CopyBothResponse", "CopyData", "CopyDone", "NotificationResponse", "FunctionCallResponse"}

// Backend makes a well-formed backend message of the kind.
func Backend(r *rand.Rand, kind string, max int) Gen {
	var t byte
	b := B{}
	switch kind {
	case "AuthenticationOk":
		t, b = 'R', b.I32(0)
	case "AuthenticationKerberosV5":
		t, b = 'R', b.I32(2)
	case "AuthenticationCleartextPassword":
		t, b = 'R', b.I32(3)
	case "AuthenticationMD5Password":
		t, b = 'R', b.I32(5).I32(int(Int32(r)))
	case "AuthenticationSCMCredential":
		t, b = 'R', b.I32(6)
	case "AuthenticationGSS":
		t, b = 'R', b.I32(7)
	case "AuthenticationGSSContinue":
		t, b = 'R', b.I32(8).Raw(Bytes(r, max))
	case "AuthenticationSSPI":
		t, b = 'R', b.I32(9)
	case "AuthenticationSASL":
		t, b = 'R', b.I32(10).Str("SCRAM-SHA-256-PLUS").Str("SCRAM-SHA-256").Byte(0)
	case "AuthenticationSASLContinue":
		t, b = 'R', b.I32(11).Raw([]byte("r=fyko+d2lbbFgONRv9qkxdawL3rfcNHYJY1ZVvWVs7j,s=QSXCR+Q6sek8bf92,i=4096"))
	case "AuthenticationSASLFinal":
		t, b = 'R', b.I32(12).Raw([]byte("v=6rriTRBi23WpRR/wtup+mMhUZUn/dB5nLTJRsjl95G4="))
	case "BackendKeyData":
		t, b = 'K', b.I32(int(Int32(r))).I32(int(Int32(r)))
	case "NegotiateProtocolVersion":
		n := Count(r, 20)
		t, b = 'v', b.I32(int(Int32(r))).I32(n)
		for i := 0; i < n; i++ {
			b = b.Str(Text(r, 60))
		}
	case "ParameterStatus":
		t, b = 'S', b.Str(Text(r, max)).Str(Text(r, max))
	case "ReadyForQuery":
		t, b = 'Z', b.Byte("ITE"[r.IntN(3)])
	case "RowDescription":
		t, b = 'T', rowDesc(r, min(max, 200))
	case "DataRow":
		t, b = 'D', dataRow(r, max)
	case "CommandComplete":
		t, b = 'C', b.Str(Text(r, max))
	case "EmptyQueryResponse":
		t = 'I'
	case "ErrorResponse":
		t, b = 'E', fields(r, max)
	case "NoticeResponse":
		t, b = 'N', fields(r, max)
	case "ParseComplete":
		t = '1'
	case "BindComplete":
		t = '2'
	case "CloseComplete":
		t = '3'
	case "NoData":
		t = 'n'
	case "PortalSuspended":
		t = 's'
	case "ParameterDescription":
		n := Count(r, 100)
		t, b = 't', b.I16(n)
		for i := 0; i < n; i++ {
			b = b.I32(int(Int32(r)))
		}
	case "CopyInResponse", "CopyOutResponse", "CopyBothResponse":
		t = map[string]byte{"CopyInResponse": 'G', "CopyOutResponse": 'H', "CopyBothResponse": 'W'}[kind]
		n := Count(r, 100)
		b = b.Byte(byte(r.IntN(2))).I16(n)
		for i := 0; i < n; i++ {
			b = b.I16(r.IntN(2))
		}
	case "CopyData":
		t, b = 'd', b.Raw(Bytes(r, max))
	case "CopyDone":
		t = 'c'
	case "NotificationResponse":
		t, b = 'A', b.I32(int(Int32(r))).Str(Text(r, 60)).Str(Text(r, max))
	case "FunctionCallResponse":
		t = 'V'
		if r.IntN(3) == 0 {
			b = b.I32(-1)
		} else {
			v := Bytes(r, max)
			b = b.I32(len(v)).Raw(v)
		}
	default:
		panic(kind)
	}
	return Gen{kind, Std(t, b)}
}

// FrontendKinds lists the frontend messages Frontend can make.
var FrontendKinds = []string{"Query", "PasswordMessage", "SASLInitialResponse", "SASLResponse", "GSSResponse", "Parse", "Bind", "Describe", "Execute", "Sync",
	"Flush", "Close", "CopyData", "CopyDone", "CopyFail", "FunctionCall"}

// Frontend makes a well-formed frontend message of the kind (after start-up).
func Frontend(r *rand.Rand, kind string, max int) Gen {
	var t byte
	b := B{}
	switch kind {
	case "Query":
		t, b = 'Q', b.Str(Text(r, max))
	case "PasswordMessage":
		t, b = 'p', b.Str(Text(r, max))
	case "SASLInitialResponse":
		d := []byte("n,,n=,r=fyko+d2lbbFgONRv9qkxdawL")
		if r.IntN(4) == 0 {
			t, b = 'p', b.Str("SCRAM-SHA-256").I32(-1)
		} else {
			t, b = 'p', b.Str("SCRAM-SHA-256").I32(len(d)).Raw(d)
		}
	case "SASLResponse":
		t, b = 'p', b.Raw([]byte("c=biws,r=fyko+d2lbbFgONRv9qkxdawL3rfcNHYJY1ZVvWVs7j,p=v0X8v3Bz2T0CJGbJQyF0X+HI4Ts="))
	case "GSSResponse":
		t, b = 'p', b.Raw(Bytes(r, max))
	case "Parse":
		n := Count(r, 50)
		t, b = 'P', b.Str(Text(r, 60)).Str(Text(r, max)).I16(n)
		for i := 0; i < n; i++ {
			b = b.I32(int(Int32(r)))
		}
	case "Bind":
		t, b = 'B', b.Str(Text(r, 60)).Str(Text(r, 60)).I16(1).I16(r.IntN(2))
		n := Count(r, 200)
		b = b.I16(n)
		for i := 0; i < n; i++ {
			if r.IntN(4) == 0 {
				b = b.I32(-1)
				continue
			}
			v := Bytes(r, max)
			b = b.I32(len(v)).Raw(v)
		}
		b = b.I16(0)
	case "Describe":
		t, b = 'D', b.Byte("SP"[r.IntN(2)]).Str(Text(r, 60))
	case "Execute":
		t, b = 'E', b.Str(Text(r, 60)).I32(r.IntN(1000))
		if r.IntN(2) == 0 {
			b = B{}.Str("").I32(0)
		}
	case "Sync":
		t = 'S'
	case "Flush":
		t = 'H'
	case "Close":
		t, b = 'C', b.Byte("SP"[r.IntN(2)]).Str(Text(r, 60))
	case "CopyData":
		t, b = 'd', b.Raw(Bytes(r, max))
	case "CopyDone":
		t = 'c'
	case "CopyFail":
		t, b = 'f', b.Str(Text(r, max))
	case "FunctionCall":
		t, b = 'F', b.I32(int(Int32(r))).I16(0).I16(1).I32(3).Raw([]byte{0, 1, 2}).I16(r.IntN(2))
	case "Terminate":
		t = 'X'
	default:
		panic(kind)
	}
	return Gen{kind, Std(t, b)}
}

// Stream is a list of messages.
type Stream []Gen

// Bytes concatenates the messages.
func (s Stream) Bytes() []byte {
	var out []byte
	for _, m := range s {
		out = append(out, m.Bytes...)
	}
	return out
}

// String lists kinds and sizes.
func (s Stream) String() string {
	out := ""
	for i, m := range s {
		if i == 12 {
			return out + fmt.Sprintf("... (%d messages)", len(s))
		}
		out += fmt.Sprintf("%s/%d ", m.Kind, len(m.Bytes))
	}
	return out
}

// GenStream makes n messages in one direction. Mostly typed kinds alternate with all others.
func GenStream(r *rand.Rand, backend bool, n, max int) Stream {
	var s Stream
	for i := 0; i < n; i++ {
		if backend {
			s = append(s, Backend(r, BackendKinds[r.IntN(len(BackendKinds))], max))
		} else {
			s = append(s, Frontend(r, FrontendKinds[r.IntN(len(FrontendKinds))], max))
		}
	}
	return s
}
