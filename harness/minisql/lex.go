// Package minisql is the reference database of the R checks: a small, strict,
// deterministic in-memory SQL engine that speaks the MySQL, PostgreSQL or
// SQLite dialect of the statements an ORM-like library emits. It is a
// database/sql driver, so the generated code runs against it unchanged. It
// rejects what the dialect rejects (reserved words, unknown columns, wrong
// placeholder forms and counts, clauses the dialect does not have), logs every
// statement with its arguments, counts open result sets and can fail at any
// driver call.
package minisql

import (
	"fmt"
	"strconv"
	"strings"
)

type Dialect int

const (
	MySQL Dialect = iota
	Postgres
	SQLite
)

func (d Dialect) String() string { return [...]string{"mysql", "postgres", "sqlite"}[d] }

type tokKind int

const (
	tEOF tokKind = iota
	tIdent
	tQuoted // quoted identifier
	tString
	tNumber
	tParam
	tOp
	tBlob
)

type token struct {
	kind tokKind
	text string // identifier text, string content, operator
	up   string // upper-case keyword form for tIdent
	n    int    // parameter number (0: positional ?)
	pos  int
}

func lex(d Dialect, s string) ([]token, error) {
	var out []token
	i := 0
	bad := func(f string, a ...any) ([]token, error) {
		return nil, fmt.Errorf("syntax error at byte %d of %q: %s", i, s, fmt.Sprintf(f, a...))
	}
	for i < len(s) {
		c := s[i]
		st := i
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f':
			i++
		case c == '-' && i+1 < len(s) && s[i+1] == '-' && (d != MySQL || i+2 == len(s) || s[i+2] <= ' '):
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case c == '#' && d == MySQL:
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case c == '/' && i+1 < len(s) && s[i+1] == '*':
			e := strings.Index(s[i+2:], "*/")
			if e < 0 {
				return bad("unterminated comment")
			}
			i += e + 4
		case isIdentStart(c):
			// x'..' / b'..' / E'..' literals
			if (c == 'x' || c == 'X') && i+1 < len(s) && s[i+1] == '\'' {
				e := strings.IndexByte(s[i+2:], '\'')
				if e < 0 {
					return bad("unterminated blob")
				}
				h := s[i+2 : i+2+e]
				var b []byte
				if len(h)%2 != 0 {
					return bad("odd blob")
				}
				for k := 0; k < len(h); k += 2 {
					v, err := strconv.ParseUint(h[k:k+2], 16, 8)
					if err != nil {
						return bad("bad blob")
					}
					b = append(b, byte(v))
				}
				out = append(out, token{kind: tBlob, text: string(b), pos: st})
				i += e + 3
				continue
			}
			if (c == 'e' || c == 'E') && d == Postgres && i+1 < len(s) && s[i+1] == '\'' {
				i++
				v, n, err := lexString(s[i:], true, '\'')
				if err != nil {
					return bad("%v", err)
				}
				i += n
				out = append(out, token{kind: tString, text: v, pos: st})
				continue
			}
			for i < len(s) && (isIdentStart(s[i]) || s[i] >= '0' && s[i] <= '9' || s[i] == '$') {
				i++
			}
			w := s[st:i]
			out = append(out, token{kind: tIdent, text: w, up: strings.ToUpper(w), pos: st})
		case c == '\'':
			v, n, err := lexString(s[i:], d == MySQL, '\'')
			if err != nil {
				return bad("%v", err)
			}
			i += n
			out = append(out, token{kind: tString, text: v, pos: st})
		case c == '"' && d == MySQL:
			v, n, err := lexString(s[i:], true, '"')
			if err != nil {
				return bad("%v", err)
			}
			i += n
			out = append(out, token{kind: tString, text: v, pos: st})
		case c == '"' || c == '`' && d != Postgres:
			v, n, err := lexString(s[i:], false, c)
			if err != nil {
				return bad("%v", err)
			}
			if v == "" {
				return bad("empty identifier")
			}
			i += n
			out = append(out, token{kind: tQuoted, text: v, pos: st})
		case c == '[' && d == SQLite:
			e := strings.IndexByte(s[i:], ']')
			if e < 0 {
				return bad("unterminated [")
			}
			out = append(out, token{kind: tQuoted, text: s[i+1 : i+e], pos: st})
			i += e + 1
		case c >= '0' && c <= '9' || c == '.' && i+1 < len(s) && s[i+1] >= '0' && s[i+1] <= '9':
			for i < len(s) && (s[i] >= '0' && s[i] <= '9' || s[i] == '.') {
				i++
			}
			if i < len(s) && (s[i] == 'e' || s[i] == 'E') {
				j := i + 1
				if j < len(s) && (s[j] == '+' || s[j] == '-') {
					j++
				}
				if j < len(s) && s[j] >= '0' && s[j] <= '9' {
					for j < len(s) && s[j] >= '0' && s[j] <= '9' {
						j++
					}
					i = j
				}
			}
			if i < len(s) && isIdentStart(s[i]) {
				return bad("trailing junk after number")
			}
			out = append(out, token{kind: tNumber, text: s[st:i], pos: st})
		case c == '?':
			if d == Postgres {
				return bad("unexpected ?")
			}
			i++
			n := 0
			if d == SQLite {
				j := i
				for j < len(s) && s[j] >= '0' && s[j] <= '9' {
					j++
				}
				if j > i {
					n, _ = strconv.Atoi(s[i:j])
					i = j
				}
			}
			out = append(out, token{kind: tParam, n: n, pos: st})
		case c == '$':
			j := i + 1
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				j++
			}
			if d != Postgres || j == i+1 {
				return bad("unexpected $")
			}
			n, _ := strconv.Atoi(s[i+1 : j])
			if n < 1 || n > 65535 {
				return bad("there is no parameter %s", s[i:j])
			}
			i = j
			if i < len(s) && isIdentStart(s[i]) {
				return bad("trailing junk after parameter")
			}
			out = append(out, token{kind: tParam, n: n, pos: st})
		default:
			op := ""
			for _, o := range []string{"<=>", "<>", "!=", "<=", ">=", "||", "::", "==", ":="} {
				if strings.HasPrefix(s[i:], o) {
					op = o
					break
				}
			}
			if op == "" {
				if !strings.ContainsRune("()+-*/%=<>,.;&|~^@:!", rune(c)) {
					return bad("unexpected %q", c)
				}
				op = string(c)
			}
			i += len(op)
			out = append(out, token{kind: tOp, text: op, pos: st})
		}
	}
	return append(out, token{kind: tEOF, pos: len(s)}), nil
}

func isIdentStart(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c >= 0x80
}

func lexString(s string, backslash bool, q byte) (string, int, error) {
	var b strings.Builder
	i := 1
	for i < len(s) {
		switch {
		case s[i] == q && i+1 < len(s) && s[i+1] == q:
			b.WriteByte(q)
			i += 2
		case s[i] == q:
			return b.String(), i + 1, nil
		case s[i] == '\\' && backslash:
			if i+1 >= len(s) {
				return "", 0, fmt.Errorf("unterminated string")
			}
			switch e := s[i+1]; e {
			case '0':
				b.WriteByte(0)
			case 'n':
				b.WriteByte('\n')
			case 'r':
				b.WriteByte('\r')
			case 't':
				b.WriteByte('\t')
			case 'b':
				b.WriteByte('\b')
			case 'Z':
				b.WriteByte(26)
			default:
				b.WriteByte(e)
			}
			i += 2
		case s[i] == 0:
			return "", 0, fmt.Errorf("NUL in statement text")
		default:
			b.WriteByte(s[i])
			i++
		}
	}
	return "", 0, fmt.Errorf("unterminated string")
}

func words(s string) map[string]bool {
	m := map[string]bool{}
	for _, w := range strings.Fields(strings.ToUpper(s)) {
		m[w] = true
	}
	return m
}

const commonReserved = `select from where group order by insert into values update set delete and or not null in is like
 between case when then else distinct having union join on as exists primary references table create check
 default unique foreign to all desc asc using collate cross inner left right natural constraint drop alter add limit`

var reserved = map[Dialect]map[string]bool{
	MySQL: words(commonReserved + ` index key keys read write range rank groups condition interval option release system
 trigger schema schemas database databases int integer varchar char float double decimal ignore lock for if match mod
 show sql ssl tables usage use virtual while with xor window over rows row recursive lead lag first_value function
 of out outfile partition precision procedure purge force fulltext generated grant explain escaped each dual div
 describe delayed current_date current_time current_timestamp column change character call cascade both blob bigint`),
	Postgres: words(commonReserved + ` user offset returning for end array analyze analyse any both cast column
 current_date current_time current_timestamp current_user deferrable do except false true fetch grant initially
 intersect lateral leading localtime localtimestamp only placing session_user some symmetric trailing variadic
 window with asymmetric column`),
	SQLite: words(commonReserved + ` index returning transaction autoincrement commit deferrable escape except if
 intersect isnull notnull nothing then`),
}
