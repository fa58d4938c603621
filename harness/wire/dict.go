package wire

import (
	"encoding/json"
	"math/rand/v2"
	"os"
	"sort"
	"strings"
)

// Words are values that mean something to PostgreSQL, its clients or the code under test.
var Words = []string{
	"user", "database", "postgres", "template0", "template1", "replication", "true", "false", "on", "off", "options", "application_name", "client_encoding", "UTF8", "SQL_ASCII", "LATIN1",
	"TimeZone", "DateStyle", "ISO, MDY", "IntervalStyle", "extra_float_digits", "search_path", "server_version", "9.6.24", "server_encoding", "integer_datetimes",
	"is_superuser", "session_authorization", "standard_conforming_strings", "in_hot_standby", "default_transaction_read_only", "scram_iterations", "_pq_.option",
	"DEBUG", "DEBUG1", "DEBUG2", "DEBUG5", "LOG", "INFO", "NOTICE", "WARNING", "ERROR", "FATAL", "PANIC", "FEHLER", "CHYBA",
	"00000", "01000", "08006", "08P01", "22P02", "23505", "25P02", "28000", "28P01", "3D000", "40001", "40P01", "42601", "42703", "42P01", "53300", "57014", "57P01", "57P02", "57P03", "XX000",
	"SELECT 1", "SELECT 0", "INSERT 0 1", "UPDATE 3", "DELETE 7", "BEGIN", "COMMIT", "ROLLBACK", "COPY 42", "SET", "LISTEN", "NOTIFY", "DISCARD ALL", "CREATE TABLE", "FETCH 10", "MOVE 1", "DEALLOCATE",
	"select * from users", "SELECT pg_sleep(1)", "SELECT pg_cancel_backend(1)", ";", "-- comment", "/* c */ select 1", "BEGIN; COMMIT", "SHOW ALL", "SET search_path TO public", "START TRANSACTION", "PREPARE p AS SELECT $1", "EXECUTE p", "VACUUM", "",
	"pg_stat_statements", "spatial_ref_sys", "schema_migrations", "pg_class", "public.users", "users", "companies", "email", "password", "ssn", "name", "id", "public", "pg_catalog", "information_schema", "S_1", "C_1", "portal",
	"SCRAM-SHA-256", "SCRAM-SHA-256-PLUS", "md5d41d8cd98f00b204e9800998ecf8427e", "null", "NULL", "\\N", "{}", "[]", "0", "1", "-1", "\xff", "\xef\xbb\xbf", "\r\n", " ", "\t",
}

// Numbers are integers that mean something there.
var Numbers = []int64{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 17, 19, 20, 21, 23, 25, 26, 32, 64, 100, 127, 128, 255, 256, 512, 1000, 1024, 1043, 1082, 1114, 1184, 1664, 1700, 2048, 3802, 4096, 5432, 8192, 16384, 32767, 32768, 65535, 65536,
	131072, 196608, 196609, 196610, 1 << 20, 80877102, 80877103, 80877104, 1<<31 - 1, -1, -2, -32768, -1 << 31}

// VERIF_DICT names a file with the literals of the code under test. They join the dictionary, so that special cases
// in the code are reached.
func init() {
	b, err := os.ReadFile(os.Getenv("VERIF_DICT"))
	if err != nil {
		return
	}
	var d struct {
		Words   []string
		Numbers []int64
	}
	if json.Unmarshal(b, &d) == nil {
		harvestedWords, harvestedNumbers = d.Words, d.Numbers
	}
}

var (
	harvestedWords   []string
	harvestedNumbers []int64
)

// Harvested counts the dictionary entries that come from the code under test.
func Harvested() (words, numbers int) { return len(harvestedWords), len(harvestedNumbers) }

// Word picks a word of the dictionary, sometimes varied. It may contain any byte but NUL.
func Word(r *rand.Rand) string {
	w := Words[r.IntN(len(Words))]
	if n := len(harvestedWords); n > 0 && r.IntN(2) == 0 {
		w = harvestedWords[r.IntN(n)]
	}
	switch r.IntN(12) {
	case 0:
		w = strings.ToUpper(w)
	case 1:
		w = strings.ToLower(w)
	case 2:
		w += " "
	case 3:
		w = " " + w
	case 4:
		w += w
	case 5:
		if len(w) > 1 {
			w = w[:len(w)-1]
		}
	case 6:
		w += string(rune('0' + r.IntN(10)))
	}
	return strings.ReplaceAll(w, "\x00", "")
}

// Number picks a number of the dictionary, sometimes the next or previous one.
func Number(r *rand.Rand) int64 {
	v := Numbers[r.IntN(len(Numbers))]
	if n := len(harvestedNumbers); n > 0 && r.IntN(2) == 0 {
		v = harvestedNumbers[r.IntN(n)]
	}
	if r.IntN(2) == 0 {
		v += int64(r.IntN(5)) - 2
	}
	return v
}

// phrase is a text of words.
func phrase(r *rand.Rand, max int) string {
	s := Word(r)
	sep := []string{" ", "", ".", "=", ",", "\n"}[r.IntN(6)]
	for r.IntN(3) == 0 {
		s += sep + Word(r)
	}
	if len(s) > max {
		s = s[:max]
	}
	return s
}

// Thresholds lists numbers from lo to hi at which behaviour may change: those of the code under test and usual limits.
func Thresholds(lo, hi int) []int {
	seen := map[int]bool{}
	for _, v := range []int{64, 100, 128, 255, 256, 512, 1000, 1024, 1600, 4096, 8192, 10000, 16384, 32767, 32768, 65535, 65536, 100000, 1 << 17, 1 << 20, 1 << 22, 1 << 24} {
		seen[v] = true
	}
	for _, v := range harvestedNumbers {
		if v > 0 && v <= 1<<31 {
			seen[int(v)] = true
		}
	}
	var out []int
	for v := range seen {
		if v >= lo && v <= hi {
			out = append(out, v)
		}
	}
	sort.Ints(out)
	return out
}

// Beyond picks a number just above the highest threshold that is at most hi, and at least least.
func Beyond(r *rand.Rand, least, hi int) int {
	n := least
	for _, v := range Thresholds(1, hi) {
		n = max(n, v)
	}
	return n + 1 + r.IntN(20)
}
