package props

import (
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// A small SQL interpreter for the fake database: SELECT over a catalogue of tables with joins and conditions.
// A value is nil (NULL), string, int64 or bool.

type sqlTable struct {
	cols  []string
	types map[string]int // type OIDs
	rows  [][]any
}

type sqlCatalog map[string]*sqlTable

type sqlResult struct {
	cols  []string
	types []int
	rows  [][]any
}

// errSQL: the query is beyond this interpreter.
type errSQL struct{ msg string }

func (e errSQL) Error() string { return "SQL not understood: " + e.msg }

func noSQL(format string, args ...any) { panic(errSQL{fmt.Sprintf(format, args...)}) }

type sqlTok struct {
	kind byte // i: identifier, q: quoted identifier, s: string, n: number, o: operator
	text string
}

func sqlLex(s string) []sqlTok {
	var out []sqlTok
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case strings.HasPrefix(s[i:], "--"):
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case strings.HasPrefix(s[i:], "/*"):
			j := strings.Index(s[i:], "*/")
			if j < 0 {
				noSQL("comment")
			}
			i += j + 2
		case c == '\'' || c == '"' || (c == 'E' || c == 'e') && i+1 < len(s) && s[i+1] == '\'':
			esc := false
			if c == 'E' || c == 'e' {
				esc = true
				i++
				c = '\''
			}
			var b strings.Builder
			i++
			for {
				if i >= len(s) {
					noSQL("unterminated")
				}
				if s[i] == c {
					if i+1 < len(s) && s[i+1] == c {
						b.WriteByte(c)
						i += 2
						continue
					}
					i++
					break
				}
				if esc && s[i] == '\\' && i+1 < len(s) {
					i++
				}
				b.WriteByte(s[i])
				i++
			}
			k := byte('s')
			if c == '"' {
				k = 'q'
			}
			out = append(out, sqlTok{k, b.String()})
		case c >= '0' && c <= '9':
			j := i
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				j++
			}
			out = append(out, sqlTok{'n', s[i:j]})
			i = j
		case c == '_' || c|32 >= 'a' && c|32 <= 'z':
			j := i
			for j < len(s) && (s[j] == '_' || s[j]|32 >= 'a' && s[j]|32 <= 'z' || s[j] >= '0' && s[j] <= '9') {
				j++
			}
			out = append(out, sqlTok{'i', strings.ToLower(s[i:j])})
			i = j
		default:
			op := ""
			for _, o := range []string{"!~*", "!~~", "!~", "~*", "~~", "::", "<>", "!=", "<=", ">=", "||", "=", "<", ">", "(", ")", ",", ".", ";", "~", "*", "+", "-", "[", "]", "$", "^@"} {
				if strings.HasPrefix(s[i:], o) {
					op = o
					break
				}
			}
			if op == "" {
				noSQL("character %q", c)
			}
			out = append(out, sqlTok{'o', op})
			i += len(op)
		}
	}
	return out
}

type sqlRow map[string]any // "alias.col"

type sqlExpr func(row sqlRow) any

type sqlParser struct {
	toks    []sqlTok
	pos     int
	cat     sqlCatalog
	db      string
	user    string
	args    []string
	aliases []string // in scope
	tables  map[string]*sqlTable
	lastCol string // the column the last primary named, if it was only that
}

func (p *sqlParser) peek() sqlTok {
	if p.pos < len(p.toks) {
		return p.toks[p.pos]
	}
	return sqlTok{'e', ""}
}
func (p *sqlParser) next() sqlTok { t := p.peek(); p.pos++; return t }
func (p *sqlParser) is(words ...string) bool {
	for i, w := range words {
		if p.pos+i >= len(p.toks) {
			return false
		}
		t := p.toks[p.pos+i]
		if t.text != w || t.kind != 'i' && t.kind != 'o' {
			return false
		}
	}
	return true
}
func (p *sqlParser) accept(words ...string) bool {
	if p.is(words...) {
		p.pos += len(words)
		return true
	}
	return false
}
func (p *sqlParser) expect(words ...string) {
	if !p.accept(words...) {
		noSQL("%q instead of %q", p.peek().text, words)
	}
}

func asBool(v any) any {
	switch v := v.(type) {
	case nil:
		return nil
	case bool:
		return v
	}
	noSQL("not a boolean: %v", v)
	return nil
}

func not3(v any) any {
	if b, ok := asBool(v).(bool); ok {
		return !b
	}
	return nil
}

func (p *sqlParser) or() sqlExpr {
	l := p.and()
	for p.accept("or") {
		a, b := l, p.and()
		l = func(r sqlRow) any {
			x, y := asBool(a(r)), asBool(b(r))
			if x == true || y == true {
				return true
			}
			if x == nil || y == nil {
				return nil
			}
			return false
		}
	}
	return l
}

func (p *sqlParser) and() sqlExpr {
	l := p.not()
	for p.accept("and") {
		a, b := l, p.not()
		l = func(r sqlRow) any {
			x, y := asBool(a(r)), asBool(b(r))
			if x == false || y == false {
				return false
			}
			if x == nil || y == nil {
				return nil
			}
			return true
		}
	}
	return l
}

func (p *sqlParser) not() sqlExpr {
	if p.accept("not") {
		e := p.not()
		return func(r sqlRow) any { return not3(e(r)) }
	}
	return p.cmp()
}

func text(v any) string {
	switch v := v.(type) {
	case string:
		return v
	case int64:
		return strconv.FormatInt(v, 10)
	case bool:
		if v {
			return "t"
		}
		return "f"
	}
	noSQL("text of %v", v)
	return ""
}

func equal3(a, b any) any {
	if a == nil || b == nil {
		return nil
	}
	return text(a) == text(b)
}

func like(s, pat string, esc byte, hasEsc bool) bool {
	var re strings.Builder
	re.WriteString(`(?s)\A`)
	for i := 0; i < len(pat); i++ {
		switch {
		case hasEsc && pat[i] == esc && i+1 < len(pat):
			i++
			re.WriteString(regexp.QuoteMeta(pat[i : i+1]))
		case pat[i] == '%':
			re.WriteString(".*")
		case pat[i] == '_':
			re.WriteString(".")
		case pat[i] < 0x80:
			re.WriteString(regexp.QuoteMeta(pat[i : i+1]))
		default:
			noSQL("LIKE pattern %q", pat)
		}
	}
	re.WriteString(`\z`)
	return regexp.MustCompile(re.String()).MatchString(s)
}

var plainIdent = regexp.MustCompile(`^[a-z_][a-z0-9_]*$`)

func (p *sqlParser) list() []sqlExpr {
	p.expect("(")
	var out []sqlExpr
	if p.is("select") {
		for _, v := range p.subselect() {
			out = append(out, func(sqlRow) any { return v })
		}
		return out
	}
	for {
		out = append(out, p.or())
		if !p.accept(",") {
			break
		}
	}
	p.expect(")")
	return out
}

// subselect interprets a SELECT of one column that needs nothing from outside, up to its closing parenthesis.
func (p *sqlParser) subselect() []any {
	depth, from := 0, p.pos
	for ; p.pos < len(p.toks); p.pos++ {
		t := p.toks[p.pos]
		if t.kind == 'o' && t.text == "(" {
			depth++
		}
		if t.kind == 'o' && t.text == ")" {
			if depth == 0 {
				break
			}
			depth--
		}
	}
	res := sqlUnion(p.cat, p.db, p.user, p.toks[from:p.pos:p.pos], p.args)
	p.expect(")")
	if len(res.cols) != 1 {
		noSQL("subquery")
	}
	out := make([]any, len(res.rows))
	for i, r := range res.rows {
		out[i] = r[0]
	}
	return out
}

// array parses ARRAY[...] or a '{...}' constant for ANY and ALL.
func (p *sqlParser) array() []sqlExpr {
	p.expect("(")
	var out []sqlExpr
	if p.is("select") {
		for _, v := range p.subselect() {
			out = append(out, func(sqlRow) any { return v })
		}
		return out
	}
	if p.accept("current_schemas", "(") || p.accept("pg_catalog", ".", "current_schemas", "(") {
		path := p.path()
		if !p.accept("true") {
			p.expect("false")
			path = path[1:]
		}
		p.expect(")")
		for _, w := range path {
			out = append(out, func(sqlRow) any { return w })
		}
	} else if p.accept("array", "[") {
		for {
			out = append(out, p.or())
			if !p.accept(",") {
				break
			}
		}
		p.expect("]")
		if p.accept("::") {
			p.castType()
		}
	} else {
		e := p.add()
		s, ok := e(nil).(string)
		if !ok || !strings.HasPrefix(s, "{") || !strings.HasSuffix(s, "}") || strings.ContainsAny(s, `\`) {
			noSQL("array")
		}
		for _, w := range strings.Split(s[1:len(s)-1], ",") {
			w := strings.Trim(w, `"`)
			out = append(out, func(sqlRow) any { return w })
		}
	}
	p.expect(")")
	return out
}

func inList(a any, xs []sqlExpr, r sqlRow) any {
	if a == nil {
		return nil
	}
	null := false
	for _, x := range xs {
		v := equal3(a, x(r))
		if v == true {
			return true
		}
		null = null || v == nil
	}
	if null {
		return nil
	}
	return false
}

func (p *sqlParser) cmp() sqlExpr {
	l := p.add()
	for {
		neg := false
		switch {
		case p.accept("is"):
			if p.accept("not") {
				neg = true
			}
			a := l
			switch {
			case p.accept("null"):
				l = func(r sqlRow) any { return (a(r) == nil) != neg }
			case p.accept("true"):
				l = func(r sqlRow) any { return (a(r) == true) != neg }
			case p.accept("false"):
				l = func(r sqlRow) any { return (a(r) == false) != neg }
			case p.accept("distinct", "from"):
				b := p.add()
				l = func(r sqlRow) any {
					x, y := a(r), b(r)
					if x == nil || y == nil {
						return (x != y) != neg
					}
					return (text(x) != text(y)) != neg
				}
			default:
				noSQL("IS %q", p.peek().text)
			}
			continue
		case p.is("not", "in") || p.is("not", "like") || p.is("not", "ilike") || p.is("not", "between"):
			p.next()
			neg = true
		}
		a := l
		wrap := func(e sqlExpr) sqlExpr {
			if neg {
				return func(r sqlRow) any { return not3(e(r)) }
			}
			return e
		}
		switch {
		case p.accept("in"):
			xs := p.list()
			l = wrap(func(r sqlRow) any { return inList(a(r), xs, r) })
		case p.accept("between"):
			lo := p.add()
			p.expect("and")
			hi := p.add()
			l = wrap(func(r sqlRow) any {
				x, y, z := a(r), lo(r), hi(r)
				if x == nil || y == nil || z == nil {
					return nil
				}
				return less(y, x) >= 0 && less(x, z) >= 0
			})
		case p.is("like") || p.is("ilike") || p.is("~~") || p.is("!~~"):
			op := p.next().text
			b := p.add()
			esc, has := byte('\\'), true
			if p.accept("escape") {
				t := p.next()
				if t.kind != 's' || len(t.text) > 1 {
					noSQL("ESCAPE")
				}
				has = t.text != ""
				if has {
					esc = t.text[0]
				}
			}
			if op == "!~~" {
				neg = true
			}
			l = wrap(func(r sqlRow) any {
				x, y := a(r), b(r)
				if x == nil || y == nil {
					return nil
				}
				s, pat := text(x), text(y)
				if op == "ilike" {
					s, pat = strings.ToLower(s), strings.ToLower(pat)
				}
				return like(s, pat, esc, has)
			})
		case p.is("~") || p.is("!~") || p.is("~*") || p.is("!~*"):
			op := p.next().text
			b := p.add()
			neg = op[0] == '!'
			l = wrap(func(r sqlRow) any {
				x, y := a(r), b(r)
				if x == nil || y == nil {
					return nil
				}
				pre := "(?s)"
				if strings.HasSuffix(op, "*") {
					pre = "(?si)"
				}
				re, err := regexp.Compile(pre + text(y))
				if err != nil {
					noSQL("regular expression %v", y)
				}
				return re.MatchString(text(x))
			})
		case p.is("=") || p.is("<>") || p.is("!="):
			op := p.next().text
			neg = op != "="
			if p.accept("any") || p.accept("some") {
				xs := p.array()
				if neg {
					l = func(r sqlRow) any { // <> ANY
						x := a(r)
						if x == nil {
							return nil
						}
						for _, e := range xs {
							if equal3(x, e(r)) == false {
								return true
							}
						}
						return false
					}
				} else {
					l = func(r sqlRow) any { return inList(a(r), xs, r) }
				}
			} else if p.accept("all") {
				xs := p.array()
				if neg {
					l = func(r sqlRow) any { return not3(inList(a(r), xs, r)) }
				} else {
					l = func(r sqlRow) any {
						x := a(r)
						if x == nil {
							return nil
						}
						for _, e := range xs {
							if equal3(x, e(r)) != true {
								return false
							}
						}
						return true
					}
				}
			} else {
				b := p.add()
				l = wrap(func(r sqlRow) any { return equal3(a(r), b(r)) })
			}
		case p.is("<") || p.is(">") || p.is("<=") || p.is(">="):
			op := p.next().text
			b := p.add()
			l = func(r sqlRow) any {
				x, y := a(r), b(r)
				if x == nil || y == nil {
					return nil
				}
				c := less(x, y)
				switch op {
				case "<":
					return c > 0
				case ">":
					return c < 0
				case "<=":
					return c >= 0
				}
				return c <= 0
			}
		case p.accept("^@"):
			b := p.add()
			l = func(r sqlRow) any {
				x, y := a(r), b(r)
				if x == nil || y == nil {
					return nil
				}
				return strings.HasPrefix(text(x), text(y))
			}
		default:
			if neg {
				noSQL("NOT")
			}
			return l
		}
	}
}

// less: 1 if a < b, 0 if equal, -1 if a > b.
func less(a, b any) int {
	x, ok1 := a.(int64)
	y, ok2 := b.(int64)
	if v, ok := b.(string); ok && ok1 { // a constant or parameter takes the other's type
		n, err := strconv.ParseInt(v, 10, 64)
		if err != nil {
			noSQL("comparison of numbers and text")
		}
		y, ok2 = n, true
	}
	if v, ok := a.(string); ok && ok2 && !ok1 {
		n, err := strconv.ParseInt(v, 10, 64)
		if err != nil {
			noSQL("comparison of numbers and text")
		}
		x, ok1 = n, true
	}
	if ok1 && ok2 {
		switch {
		case x < y:
			return 1
		case x > y:
			return -1
		}
		return 0
	}
	return strings.Compare(text(b), text(a))
}

func (p *sqlParser) add() sqlExpr {
	l := p.cast()
	for p.accept("||") {
		p.lastCol = ""
		a, b := l, p.cast()
		p.lastCol = ""
		l = func(r sqlRow) any {
			x, y := a(r), b(r)
			if x == nil || y == nil {
				return nil
			}
			return text(x) + text(y)
		}
	}
	return l
}

func (p *sqlParser) castType() string {
	t := p.next()
	if t.kind != 'i' && t.kind != 'q' {
		noSQL("type %q", t.text)
	}
	name := t.text
	if p.accept(".") {
		name = p.next().text
	}
	if p.accept("[", "]") {
		name += "[]"
	}
	return name
}

func (p *sqlParser) cast() sqlExpr {
	l := p.primary()
	for p.accept("::") {
		l = castTo(l, p.castType())
	}
	return l
}

func castTo(l sqlExpr, ty string) sqlExpr {
	switch ty {
	case "text", "varchar", "name", "bpchar", "text[]", "name[]":
		return func(r sqlRow) any {
			v := l(r)
			if v == nil {
				return nil
			}
			return text(v)
		}
	case "oid", "bigint", "int8":
		return func(r sqlRow) any {
			v := l(r)
			if v == nil {
				return nil
			}
			n, err := strconv.ParseInt(text(v), 10, 64)
			if err != nil {
				noSQL("cast")
			}
			return n
		}
	case "regnamespace", "regclass":
		noSQL("cast to %s", ty)
	}
	noSQL("cast to %s", ty)
	return nil
}

func (p *sqlParser) primary() sqlExpr {
	p.lastCol = ""
	t := p.next()
	switch {
	case t.kind == 's':
		s := t.text
		return func(sqlRow) any { return s }
	case t.kind == 'n':
		n, err := strconv.ParseInt(t.text, 10, 64)
		if err != nil {
			noSQL("number")
		}
		return func(sqlRow) any { return n }
	case t.kind == 'o' && t.text == "$":
		n, err := strconv.Atoi(p.next().text)
		if err != nil || n < 1 || n > len(p.args) {
			noSQL("parameter")
		}
		v := p.args[n-1]
		return func(sqlRow) any { return v }
	case t.kind == 'o' && t.text == "(":
		e := p.or()
		p.expect(")")
		return e
	case t.kind == 'i' && t.text == "true":
		return func(sqlRow) any { return true }
	case t.kind == 'i' && t.text == "false":
		return func(sqlRow) any { return false }
	case t.kind == 'i' && t.text == "null":
		return func(sqlRow) any { return nil }
	case t.kind == 'i' && t.text == "cast":
		p.expect("(")
		e := p.or()
		p.expect("as")
		e = castTo(e, p.castType())
		p.expect(")")
		return e
	case t.kind == 'i' && (t.text == "current_catalog"):
		return func(sqlRow) any { return p.db }
	case t.kind == 'i' || t.kind == 'q':
		name := t.text
		if name == "pg_catalog" && p.accept(".") {
			name = p.next().text
		}
		if p.accept("(") {
			return p.call(name)
		}
		if p.accept(".") {
			c := p.next()
			return p.column(name, c.text)
		}
		return p.column("", name)
	}
	noSQL("%q", t.text)
	return nil
}

func (p *sqlParser) column(alias, col string) sqlExpr {
	if alias != "" {
		tb := p.tables[alias]
		if tb == nil || !has(tb.cols, col) {
			noSQL("column %s.%s", alias, col)
		}
		key := alias + "." + col
		p.lastCol = key
		return func(r sqlRow) any { return r[key] }
	}
	found := ""
	for _, a := range p.aliases {
		if has(p.tables[a].cols, col) {
			if found != "" {
				noSQL("ambiguous %s", col)
			}
			found = a + "." + col
		}
	}
	if found == "" {
		noSQL("column %s", col)
	}
	p.lastCol = found
	return func(r sqlRow) any { return r[found] }
}

func has(xs []string, x string) bool {
	for _, v := range xs {
		if v == x {
			return true
		}
	}
	return false
}

// path is the schemas searched, the implicit one first.
func (p *sqlParser) path() []string {
	out := []string{"pg_catalog"}
	for _, want := range []string{p.user, "public"} {
		for _, r := range p.cat["pg_namespace"].rows {
			if r[1] == want {
				out = append(out, want)
			}
		}
	}
	return out
}

// visible is pg_table_is_visible.
func (p *sqlParser) visible(oid any) any {
	schema := func(ns any) string {
		for _, r := range p.cat["pg_namespace"].rows {
			if r[0] == ns {
				return r[1].(string)
			}
		}
		return ""
	}
	at := func(name string) int {
		for i, s := range p.path() {
			if s == name {
				return i
			}
		}
		return -1
	}
	for _, r := range p.cat["pg_class"].rows {
		if r[0] != oid {
			continue
		}
		mine := at(schema(r[2]))
		if mine < 0 {
			return false
		}
		for _, o := range p.cat["pg_class"].rows {
			if i := at(schema(o[2])); o[1] == r[1] && i >= 0 && i < mine {
				return false
			}
		}
		return true
	}
	return nil
}

func (p *sqlParser) call(name string) sqlExpr {
	var args []sqlExpr
	if !p.accept(")") {
		for {
			args = append(args, p.or())
			if !p.accept(",") {
				break
			}
		}
		p.expect(")")
	}
	p.lastCol = ""
	need := func(n int) {
		if len(args) != n {
			noSQL("%s with %d arguments", name, len(args))
		}
	}
	strict := func(f func(v []any) any) sqlExpr {
		return func(r sqlRow) any {
			v := make([]any, len(args))
			for i, a := range args {
				if v[i] = a(r); v[i] == nil {
					return nil
				}
			}
			return f(v)
		}
	}
	num := func(v any) int {
		n, ok := v.(int64)
		if !ok {
			noSQL("%s: not a number", name)
		}
		return int(n)
	}
	switch name {
	case "current_database":
		need(0)
		return func(sqlRow) any { return p.db }
	case "current_user", "session_user":
		noSQL("%s", name)
	case "pg_table_is_visible":
		need(1)
		return strict(func(v []any) any { return p.visible(v[0]) })
	case "has_table_privilege", "has_schema_privilege": // some, but not others
		if len(args) < 2 {
			noSQL("%s", name)
		}
		return strict(func(v []any) any { n, ok := v[len(v)-2].(int64); return !ok || n%3 != 0 })
	case "pg_is_other_temp_schema":
		need(1)
		return strict(func(v []any) any {
			for _, r := range p.cat["pg_namespace"].rows {
				if r[0] == v[0] {
					n := r[1].(string)
					return strings.HasPrefix(n, "pg_temp_") || strings.HasPrefix(n, "pg_toast_temp_")
				}
			}
			return false
		})
	case "pg_my_temp_schema":
		need(0)
		return func(sqlRow) any { return int64(0) }
	case "pg_relation_size", "pg_table_size", "pg_total_relation_size":
		need(1)
		return strict(func(v []any) any { return int64(num(v[0])%4) * 8192 })
	case "obj_description", "shobj_description", "col_description":
		return func(sqlRow) any { return nil }
	case "length", "char_length", "character_length":
		need(1)
		return strict(func(v []any) any { return int64(len([]rune(text(v[0])))) })
	case "octet_length":
		need(1)
		return strict(func(v []any) any { return int64(len(text(v[0]))) })
	case "btrim", "ltrim", "rtrim":
		need(1)
		return strict(func(v []any) any {
			s := text(v[0])
			if name != "rtrim" {
				s = strings.TrimLeft(s, " ")
			}
			if name != "ltrim" {
				s = strings.TrimRight(s, " ")
			}
			return s
		})
	case "replace":
		need(3)
		return strict(func(v []any) any {
			if text(v[1]) == "" {
				return text(v[0])
			}
			return strings.ReplaceAll(text(v[0]), text(v[1]), text(v[2]))
		})
	case "concat":
		return func(r sqlRow) any {
			s := ""
			for _, a := range args {
				if v := a(r); v != nil {
					s += text(v)
				}
			}
			return s
		}
	case "quote_ident":
		need(1)
		return strict(func(v []any) any { // key words would be quoted too
			s := text(v[0])
			if plainIdent.MatchString(s) {
				return s
			}
			return `"` + strings.ReplaceAll(s, `"`, `""`) + `"`
		})
	case "lower":
		need(1)
		return strict(func(v []any) any { return strings.ToLower(text(v[0])) })
	case "upper":
		need(1)
		return strict(func(v []any) any { return strings.ToUpper(text(v[0])) })
	case "left":
		need(2)
		return strict(func(v []any) any {
			s, n := []rune(text(v[0])), num(v[1])
			if n < 0 {
				n = max(0, len(s)+n)
			}
			return string(s[:min(n, len(s))])
		})
	case "substr", "substring":
		if len(args) != 3 {
			noSQL("substring")
		}
		return strict(func(v []any) any {
			s, a, n := []rune(text(v[0])), num(v[1]), num(v[2])
			if a < 1 || n < 0 {
				noSQL("substring")
			}
			a = min(a-1, len(s))
			return string(s[a:min(len(s), a+n)])
		})
	case "starts_with":
		need(2)
		return strict(func(v []any) any { return strings.HasPrefix(text(v[0]), text(v[1])) })
	case "strpos":
		need(2)
		return strict(func(v []any) any { return int64(strings.Index(text(v[0]), text(v[1])) + 1) })
	case "coalesce":
		return func(r sqlRow) any {
			for _, a := range args {
				if v := a(r); v != nil {
					return v
				}
			}
			return nil
		}
	}
	noSQL("function %s", name)
	return nil
}

func (p *sqlParser) tableRef() string {
	t := p.next()
	if t.kind != 'i' && t.kind != 'q' {
		noSQL("table %q", t.text)
	}
	name := t.text
	if name == "pg_catalog" && p.accept(".") {
		name = p.next().text
	}
	tb := p.cat[name]
	if tb == nil {
		noSQL("table %s", name)
	}
	alias := name
	if p.accept("as") {
		alias = p.next().text
	} else if k := p.peek(); k.kind == 'q' || k.kind == 'i' && !has([]string{"join", "inner", "left", "right", "full", "cross", "natural", "on", "using", "where", "order", "limit", "group", "offset", "union"}, k.text) {
		alias = p.next().text
	}
	if p.tables[alias] != nil {
		noSQL("alias twice")
	}
	p.tables[alias] = tb
	p.aliases = append(p.aliases, alias)
	return alias
}

func (p *sqlParser) rowsOf(alias string) []sqlRow {
	tb := p.tables[alias]
	out := make([]sqlRow, len(tb.rows))
	for i, r := range tb.rows {
		m := sqlRow{}
		for j, c := range tb.cols {
			m[alias+"."+c] = r[j]
		}
		out[i] = m
	}
	return out
}

// runSQL interprets one SELECT. An error says that it is beyond this interpreter.
func runSQL(cat sqlCatalog, db, user, query string, args []string) (res *sqlResult, err error) {
	defer func() {
		if x := recover(); x != nil {
			e, ok := x.(errSQL)
			if !ok {
				panic(x)
			}
			err = e
		}
	}()
	toks := sqlLex(query)
	for len(toks) > 0 && toks[len(toks)-1].text == ";" && toks[len(toks)-1].kind == 'o' {
		toks = toks[:len(toks)-1]
	}
	return sqlUnion(cat, db, user, toks, args), nil
}

// sqlUnion interprets SELECTs with UNION between them.
func sqlUnion(cat sqlCatalog, db, user string, toks []sqlTok, args []string) *sqlResult {
	var res *sqlResult
	dedupe := false
	depth, from := 0, 0
	part := func(to int) {
		p := &sqlParser{toks: toks[from:to:to], cat: cat, db: db, user: user, args: args, tables: map[string]*sqlTable{}}
		one := p.selectOne()
		if res == nil {
			res = one
			return
		}
		if len(one.cols) != len(res.cols) {
			noSQL("UNION")
		}
		res.rows = append(res.rows, one.rows...)
	}
	for i, t := range toks {
		if t.kind == 'o' && (t.text == "(" || t.text == "[") {
			depth++
		}
		if t.kind == 'o' && (t.text == ")" || t.text == "]") {
			depth--
		}
		if depth == 0 && t.kind == 'i' && (t.text == "except" || t.text == "intersect") {
			noSQL("%s", t.text)
		}
		if depth == 0 && t.kind == 'i' && t.text == "union" {
			part(i)
			from = i + 1
			if from < len(toks) && toks[from].kind == 'i' && toks[from].text == "all" {
				from++
			} else {
				dedupe = true
			}
		}
	}
	if from > 0 && sqlHas(toks[from:], "order", "limit", "offset") {
		noSQL("UNION with ORDER BY")
	}
	part(len(toks))
	if dedupe {
		seen := map[string]bool{}
		rows := res.rows
		res.rows = nil
		for _, r := range rows {
			k := fmt.Sprintf("%#v", r)
			if !seen[k] {
				seen[k] = true
				res.rows = append(res.rows, r)
			}
		}
	}
	return res
}

func sqlHas(toks []sqlTok, words ...string) bool {
	for _, t := range toks {
		if t.kind == 'i' && has(words, t.text) {
			return true
		}
	}
	return false
}

func (p *sqlParser) selectOne() (res *sqlResult) {
	p.expect("select")
	distinct := p.accept("distinct")
	// The list needs the tables first.
	begin, depth, from := p.pos, 0, -1
	for i := p.pos; i < len(p.toks); i++ {
		t := p.toks[i]
		if t.kind == 'o' && (t.text == "(" || t.text == "[") {
			depth++
		}
		if t.kind == 'o' && (t.text == ")" || t.text == "]") {
			depth--
		}
		if depth == 0 && t.kind == 'i' && t.text == "from" && (i == 0 || p.toks[i-1].text != "distinct") {
			from = i
			break
		}
	}
	rows := []sqlRow{{}}
	end := len(p.toks)
	all := p.toks
	var keys []sqlKey
	limit, offset := -1, 0
	if from >= 0 {
		p.pos = from + 1
		type join struct {
			to   string
			left bool
			on   sqlExpr
		}
		first := p.tableRef()
		var joins []join
	more:
		for {
			leftJoin, cross := false, false
			switch {
			case p.accept(","), p.accept("cross", "join"):
				cross = true
			case p.accept("join"), p.accept("inner", "join"):
			case p.accept("left", "join"), p.accept("left", "outer", "join"):
				leftJoin = true
			default:
				break more
			}
			a := p.tableRef()
			on := sqlExpr(func(sqlRow) any { return true })
			if !cross {
				p.expect("on")
				on = p.or()
			}
			joins = append(joins, join{a, leftJoin, on})
		}
		key := fmt.Sprint(p.toks[from+1 : p.pos])
		if strings.Contains(key, "$") {
			key += fmt.Sprintf("%q", p.args)
		}
		rows = sqlJoins.get(p.cat["pg_class"], key, func() []sqlRow {
			rows := p.rowsOf(first)
			for _, j := range joins {
				right := p.rowsOf(j.to)
				var out []sqlRow
				for _, l := range rows {
					hit := false
					for _, r := range right {
						m := sqlRow{}
						for k, v := range l {
							m[k] = v
						}
						for k, v := range r {
							m[k] = v
						}
						if asBool(j.on(m)) == true {
							hit = true
							out = append(out, m)
						}
					}
					if j.left && !hit {
						out = append(out, l)
					}
				}
				rows = out
			}
			return rows
		})
		if p.accept("where") {
			w := p.or()
			var out []sqlRow
			for _, r := range rows {
				if asBool(w(r)) == true {
					out = append(out, r)
				}
			}
			rows = out
		}
		if p.accept("order", "by") {
			for {
				k := sqlKey{from: p.pos}
				if p.peek().kind == 'n' {
					p.next()
				} else {
					func() {
						defer func() {
							if x := recover(); x != nil { // an output name
								p.pos = k.from + 1
							}
						}()
						p.or()
					}()
				}
				k.to = p.pos
				if !p.accept("asc") {
					k.desc = p.accept("desc")
				}
				k.nullsFirst = k.desc
				if p.accept("nulls", "first") {
					k.nullsFirst = true
				} else if p.accept("nulls", "last") {
					k.nullsFirst = false
				}
				keys = append(keys, k)
				if !p.accept(",") {
					break
				}
			}
		}
		for p.is("limit") || p.is("offset") {
			which := p.next().text
			if p.accept("all") || p.accept("null") {
				continue
			}
			v := p.cast()(nil)
			n, err := strconv.Atoi(text(v))
			if err != nil || n < 0 {
				noSQL("LIMIT")
			}
			if which == "limit" {
				limit = n
			} else {
				offset = n
				_ = p.accept("rows") || p.accept("row")
			}
		}
		if p.pos < len(p.toks) {
			noSQL("%q", p.peek().text)
		}
		end = from
	}
	p.toks = p.toks[:end]
	p.pos = begin
	res = &sqlResult{}
	var es []sqlExpr
	for {
		e := p.or()
		name, ty := "?column?", 25
		if p.lastCol != "" {
			i := strings.IndexByte(p.lastCol, '.')
			name = p.lastCol[i+1:]
			ty = p.tables[p.lastCol[:i]].types[name]
		}
		if p.accept("as") {
			name = p.next().text
		} else if k := p.peek(); k.kind == 'q' || k.kind == 'i' {
			name = p.next().text
		}
		es = append(es, e)
		res.cols = append(res.cols, name)
		res.types = append(res.types, ty)
		if !p.accept(",") {
			break
		}
	}
	if p.pos < len(p.toks) {
		noSQL("%q in the list", p.peek().text)
	}
	p.toks = all
	for i := range keys {
		k := &keys[i]
		toks := p.toks[k.from:k.to]
		if len(toks) == 1 {
			if toks[0].kind == 'n' {
				n, err := strconv.Atoi(toks[0].text)
				if err != nil || n < 1 || n > len(es) {
					noSQL("ORDER BY")
				}
				k.e = es[n-1]
				continue
			}
			for j, c := range res.cols {
				if c == toks[0].text {
					k.e = es[j]
				}
			}
			if k.e != nil {
				continue
			}
		}
		p.pos = k.from
		k.e = p.or()
		if p.pos != k.to {
			noSQL("ORDER BY")
		}
	}
	seen := map[string]bool{}
	type outRow struct{ row, keys []any }
	var out []outRow
	for _, r := range rows {
		row := make([]any, len(es))
		key := ""
		for i, e := range es {
			row[i] = e(r)
			key += fmt.Sprintf("%T%v\x00", row[i], row[i])
		}
		if distinct {
			if seen[key] {
				continue
			}
			seen[key] = true
		}
		o := outRow{row: row}
		for _, k := range keys {
			o.keys = append(o.keys, k.e(r))
		}
		out = append(out, o)
	}
	sort.SliceStable(out, func(i, j int) bool {
		for n, k := range keys {
			x, y := out[i].keys[n], out[j].keys[n]
			switch {
			case x == nil && y == nil:
				continue
			case x == nil:
				return k.nullsFirst
			case y == nil:
				return !k.nullsFirst
			}
			if c := less(x, y); c != 0 {
				return (c > 0) != k.desc
			}
		}
		return false
	})
	out = out[min(offset, len(out)):]
	if limit >= 0 {
		out = out[:min(limit, len(out))]
	}
	for _, o := range out {
		res.rows = append(res.rows, o.row)
	}
	return res
}

// joinCache keeps what the last joins over a large catalogue gave.
type joinCache struct {
	mu   sync.Mutex
	of   *sqlTable
	rows map[string][]sqlRow
}

var sqlJoins joinCache

func (c *joinCache) get(of *sqlTable, key string, f func() []sqlRow) []sqlRow {
	if of == nil || len(of.rows) < 100 {
		return f()
	}
	c.mu.Lock()
	rows, ok := c.rows[key]
	ok = ok && c.of == of
	c.mu.Unlock()
	if !ok {
		rows = f()
		c.mu.Lock()
		if c.of != of || len(c.rows) > 3 {
			c.of, c.rows = of, map[string][]sqlRow{}
		}
		c.rows[key] = rows
		c.mu.Unlock()
	}
	return rows[:len(rows):len(rows)]
}

// sqlKey is a key of ORDER BY.
type sqlKey struct {
	from, to         int
	desc, nullsFirst bool
	e                sqlExpr
}
