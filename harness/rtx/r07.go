package rtx

import (
	"bytes"
	"database/sql"
	"database/sql/driver"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"
	"time"

	"vh/minisql"
	"vh/report"
)

// literal is a parsed SQL literal.
type literal struct {
	kind string // null, bool, number, text, blob
	text string
}

// readLiteral reads one literal at the start of s as the dialect would.
func readLiteral(d minisql.Dialect, s string) (literal, int, error) {
	bad := func(why string) (literal, int, error) {
		return literal{}, 0, fmt.Errorf("no literal of %s (%s) at %q", d, why, brief(s))
	}
	if s == "" {
		return bad("end of text")
	}
	word := 0
	for word < len(s) && (s[word] >= 'a' && s[word] <= 'z' || s[word] >= 'A' && s[word] <= 'Z' || s[word] == '_' || word > 0 && s[word] >= '0' && s[word] <= '9') {
		word++
	}
	switch strings.ToUpper(s[:word]) {
	case "NULL":
		return literal{"null", ""}, word, nil
	case "TRUE", "FALSE":
		return literal{"bool", strings.ToLower(s[:word])}, word, nil
	case "X":
		if word < len(s) && s[word] == '\'' {
			e := strings.IndexByte(s[word+1:], '\'')
			if e < 0 {
				return bad("unterminated")
			}
			b, err := hex.DecodeString(s[word+1 : word+1+e])
			if err != nil {
				return bad(err.Error())
			}
			return literal{"blob", string(b)}, word + e + 2, nil
		}
	}
	st := 0
	backslash := d == minisql.MySQL
	if d == pg && (strings.HasPrefix(s, "E'") || strings.HasPrefix(s, "e'")) {
		st, backslash = 1, true
	}
	q := s[st]
	if q == '\'' || q == '"' && d == minisql.MySQL {
		var b []byte
		for i := st + 1; i < len(s); i++ {
			switch c := s[i]; {
			case c == q && i+1 < len(s) && s[i+1] == q:
				b = append(b, q)
				i++
			case c == q:
				return literal{"text", string(b)}, i + 1, nil
			case c == '\\' && backslash && i+1 < len(s):
				i++
				m := map[byte]byte{'n': '\n', 't': '\t', 'r': '\r', 'b': '\b'}
				if d == minisql.MySQL {
					m['0'], m['Z'] = 0, 26
				} else {
					m['f'] = '\f'
				}
				if x, ok := m[s[i]]; ok {
					b = append(b, x)
				} else if d == pg && (s[i] == 'x' || s[i] == 'u' || s[i] >= '0' && s[i] <= '7') {
					return bad("numeric escape")
				} else {
					b = append(b, s[i])
				}
			default:
				b = append(b, c)
			}
		}
		return bad("unterminated")
	}
	n := 0
	if s[n] == '-' || s[n] == '+' {
		n++
	}
	for n < len(s) && (s[n] >= '0' && s[n] <= '9' || s[n] == '.' || (s[n] == 'e' || s[n] == 'E') && n > 0 || (s[n] == '+' || s[n] == '-') && n > 0 && (s[n-1] == 'e' || s[n-1] == 'E')) {
		n++
	}
	if _, ok := new(big.Rat).SetString(s[:n]); ok {
		return literal{"number", s[:n]}, n, nil
	}
	return bad("unknown form")
}

// named types
type myString string
type myInt int16
type valuer struct {
	v   driver.Value
	err error
}

func (v valuer) Value() (driver.Value, error) { return v.v, v.err }

type ptrValuer struct{ s string }

func (v *ptrValuer) Value() (driver.Value, error) { return "p" + v.s, nil }

// arg is an argument and what it denotes.
type arg struct {
	name string
	v    any
	want any  // nil, bool, *big.Rat, float64, string, time.Time
	any  bool // no literal denotes it: it only must not panic
}

func ptr[T any](v T) *T { return &v }

func r07Args(d minisql.Dialect) []arg {
	at := time.Date(2024, 2, 29, 23, 59, 58, 123456789, time.FixedZone("", 5*3600+1800))
	n := func(v any, name string) arg {
		x, ok := new(big.Rat).SetString(fmt.Sprint(v))
		if !ok {
			panic(name)
		}
		return arg{name, v, x, false}
	}
	l := []arg{
		{"nil", nil, nil, false},
		{"text", "x", "x", false}, {"empty", "", "", false},
		n(int64(math.MinInt64), "min"), n(int64(math.MaxInt64), "max"), n(int64(-7), "-7"), n(0, "0"), n(int8(-128), "int8"), n(int32(5), "int32"),
		n(uint64(math.MaxUint64), "uint64"), n(uint8(255), "uint8"),
		{"true", true, true, false}, {"false", false, false, false},
		{"bytes", []byte("b'y\\?\""), "b'y\\?\"", false}, {"raw json", json.RawMessage(`{"a":"it's $1 ?"}`), `{"a":"it's $1 ?"}`, false}, {"raw bytes", sql.RawBytes("r'?"), "r'?", false},
		{"utc", at.UTC(), at.UTC(), false}, {"zone", at, at, false}, {"year 1", time.Time{}, time.Time{}, false}, {"whole second", at.Truncate(time.Second), at.Truncate(time.Second), false},
		{"time pointer", &at, at, false},
		{"named", myString("n'"), "n'", false}, {"named int", myInt(-3), new(big.Rat).SetInt64(-3), false}, {"named bytes", []byte{}, "", false},
		{"*string", ptr("p'"), "p'", false}, {"nil *string", (*string)(nil), nil, false}, {"*int64", ptr(int64(4)), new(big.Rat).SetInt64(4), false}, {"*bool", ptr(true), true, false}, {"**string", ptr(ptr("pp")), "pp", false},
		{"valuer", valuer{"v'?$1", nil}, "v'?$1", false}, {"valuer nil", valuer{nil, nil}, nil, false}, {"valuer int", valuer{int64(3), nil}, new(big.Rat).SetInt64(3), false}, {"valuer bytes", valuer{[]byte("vb"), nil}, "vb", false},
		{"*valuer", &valuer{"pv", nil}, "pv", false}, {"nil *valuer", (*valuer)(nil), nil, false}, {"ptr valuer", &ptrValuer{"x"}, "px", false},
		{"valuer error", valuer{nil, errors.New("no")}, nil, true},
		{"null string", sql.NullString{}, nil, false}, {"set null string", sql.NullString{String: "ns", Valid: true}, "ns", false}, {"null time", sql.NullTime{Time: at, Valid: true}, at, false},
		{"struct", struct{ A int }{1}, nil, true}, {"map", map[string]int{"a'": 1}, nil, true}, {"list", []string{"a'", "b"}, nil, true}, {"array", [2]int{1, 2}, nil, true}, {"func", (func())(nil), nil, true}, {"chan", (chan int)(nil), nil, true}, {"complex", 1i, nil, true}, {"nil map", map[string]int(nil), nil, true}, {"error", errors.New("e'"), nil, true}, {"uintptr", uintptr(3), nil, true},
		{"nil bytes", []byte(nil), nil, true}, {"inf", math.Inf(1), nil, true}, {"nan", math.NaN(), nil, true}, {"**nil", ptr((*string)(nil)), nil, false},
	}
	for _, s := range []string{"it's", `a\b`, `\`, `\'`, `"`, "``", "?", "??", "$1", "$2 $1", "$10", "%s %d %", "a\nb\tc\rd\be\ff", "日本\u00e9", "'; DROP TABLE x; --", "E'x'", "{{.}}"} {
		l = append(l, arg{"text " + s, s, s, false})
	}
	for _, f := range []float64{0.1, 1e300, 1e-20, -2.5, 0, 1 << 53, 123456789.123456789, 5e-324} {
		l = append(l, arg{fmt.Sprint("float ", f), f, f, false})
	}
	l = append(l, arg{"float32", float32(0.1), float64(float32(0.1)), false}, arg{"*float64", ptr(0.25), 0.25, false})
	return l
}

// denotes compares a literal with the argument.
func (a arg) denotes(d minisql.Dialect, l literal) error {
	fail := func() error {
		return fmt.Errorf("the literal %s %q does not denote %s %#v", l.kind, l.text, a.name, a.v)
	}
	switch w := a.want.(type) {
	case nil:
		if l.kind != "null" {
			return fail()
		}
	case bool:
		if l.kind == "bool" && (l.text == "true") == w || d != pg && l.kind == "number" && (l.text == "1") == w && (l.text == "0") == !w {
			return nil
		}
		return fail()
	case *big.Rat:
		x, ok := new(big.Rat).SetString(l.text)
		if l.kind != "number" || !ok || x.Cmp(w) != 0 {
			return fail()
		}
	case float64:
		x, err := strconv.ParseFloat(l.text, 64)
		if l.kind != "number" || err != nil || x != w {
			return fail()
		}
	case string:
		if (l.kind == "text" || l.kind == "blob") && l.text == w {
			return nil
		}
		if d == pg && l.kind == "text" && strings.HasPrefix(l.text, `\x`) {
			if _, ok := a.v.(string); !ok {
				if b, err := hex.DecodeString(l.text[2:]); err == nil && string(b) == w {
					return nil
				}
			}
		}
		return fail()
	case time.Time:
		if l.kind != "text" {
			return fail()
		}
		for _, f := range []string{time.RFC3339Nano, "2006-01-02 15:04:05.999999999Z07:00", "2006-01-02 15:04:05.999999999 Z07:00", "2006-01-02 15:04:05.999999999-07:00", "2006-01-02 15:04:05.999999999-07"} {
			if x, err := time.Parse(f, l.text); err == nil && x.Equal(w) {
				return nil
			}
		}
		return fail()
	}
	return nil
}

// R07: rendering.
func R07(r *report.Run) {
	depth := r.Pick(5, 6)
	r.Rule = "every sequence of statement fragments up to the bound (plain text, quoted texts and names holding placeholders, quotes, backslashes and percent signs, single and grouped placeholders) with arguments of every kind in turn, and every pair of arguments, rendered with %v, %s, %+v and %#v; each rendered text is read back fragment by fragment and literal by literal as the dialect reads it, and the statement is compared before and after"
	all := Cfgs()
	r.Bounds = map[string]any{"fragments": depth, "configurations": len(all)}
	report.Parallel(len(all), func(i int) { all[i].r07(r, depth) })
}

func (c *Cfg) r07(r *report.Run, depth int) {
	d := c.Dialect
	args := r07Args(d)
	type frag struct {
		text string
		n    int // placeholders: 1 Var, >1 Vars
	}
	frags := []frag{{" x ", 0}, {"", 1}, {"", 2}, {" AND y = ", 0}, {"'?'", 0}, {"'it''s ? $1'", 0}, {`"n?$1"`, 0}, {"'100%d'", 0}, {" % 2", 0}, {"é;", 0}}
	switch d {
	case minisql.MySQL:
		frags = append(frags, frag{"`?`", 0}, frag{`'a\'?'`, 0}, frag{`'\\'`, 0}, frag{`"it's ?"`, 0})
	case pg:
		frags = append(frags, frag{`'\'`, 0}, frag{" ? ", 0}, frag{"::text", 0}, frag{" @> ", 0})
	case minisql.SQLite:
		frags = append(frags, frag{`'\'`, 0}, frag{"`?`", 0}, frag{`"it's ?"`, 0})
	}
	bad := func(kind, desc, problem string) {
		r.Violate(kind+"/"+c.Name, fmt.Sprintf("%s %s: %s", c.Name, desc, problem), map[string]any{"config": c.Name, "statement": desc, "problem": problem})
	}
	run := func(key string, fs []frag, as []arg) {
		r.Transition(1)
		r.Trace(1)
		st := c.Acquire()
		var want []any // string or arg
		k := 0
		for _, f := range fs {
			switch {
			case f.n == 0:
				st.WriteString(f.text)
				want = append(want, f.text)
			case f.n == 1:
				st.WriteString(st.Var(as[k].v))
				want = append(want, as[k])
				k++
			default:
				var l []any
				want = append(want, "(")
				for j := 0; j < f.n; j++ {
					if j > 0 {
						want = append(want, ",")
					}
					l = append(l, as[k].v)
					want = append(want, as[k])
					k++
				}
				want = append(want, ")")
				st.WriteString(st.Vars(l))
			}
		}
		q, before := st.Query(), fmt.Sprintf("%#v", st.Args())
		var names []string
		for _, a := range as[:k] {
			names = append(names, a.name)
		}
		desc := fmt.Sprintf("%q with %q", q, names)
		for _, verb := range []string{"%v", "%s", "%+v", "%#v", "%d", "%q"} {
			var out string
			err, pan := catch(func() error {
				var b bytes.Buffer
				fmt.Fprintf(&b, verb, st)
				out = b.String()
				return nil
			})
			if pan || strings.Contains(out, "%!") && strings.Contains(out, "PANIC") {
				bad("panic", desc, fmt.Sprintf("%s: %v %s", verb, err, brief(out)))
				continue
			}
			if verb == "%v" || verb == "%s" {
				if out != q {
					bad("plain", desc, fmt.Sprintf("%s shows %q", verb, out))
				}
				continue
			}
			if verb == "%d" || verb == "%q" {
				continue
			}
			rest := out
			for _, x := range want {
				switch x := x.(type) {
				case string:
					if !strings.HasPrefix(rest, x) {
						bad("text", desc, fmt.Sprintf("%s shows %q: the text %q is not kept", verb, out, x))
						rest = "\x00"
					} else {
						rest = rest[len(x):]
					}
				case arg:
					l, n, err := readLiteral(d, rest)
					if x.any {
						// skip whatever stands for it
						if err != nil {
							rest = "\x00"
							break
						}
						rest = rest[n:]
						break
					}
					if err == nil {
						err = x.denotes(d, l)
					}
					if err != nil {
						bad("literal", desc, fmt.Sprintf("%s shows %q: %v", verb, out, err))
						rest = "\x00"
						break
					}
					rest = rest[n:]
				}
				if rest == "\x00" {
					break
				}
			}
			if rest != "" && rest != "\x00" {
				bad("text", desc, fmt.Sprintf("%s shows %q: %q is left over", verb, out, rest))
			}
		}
		if q2, after := st.Query(), fmt.Sprintf("%#v", st.Args()); q2 != q || after != before {
			bad("changed", desc, "rendering changed the statement")
		}
		c.Release(st)
	}
	clean := func(l []arg) (out []arg) {
		for _, a := range l {
			if !a.any {
				out = append(out, a)
			}
		}
		return
	}(args)
	n := 0
	states := map[uint64]struct{}{}
	var rec func(fs []frag)
	rec = func(fs []frag) {
		if len(fs) > 0 {
			need := 0
			for _, f := range fs {
				need += f.n
			}
			var as []arg
			for i := 0; i < need; i++ {
				as = append(as, clean[n%len(clean)])
				n++
			}
			if need == 0 {
				as = nil
			}
			states[report.Hash(fmt.Sprint(fs))] = struct{}{}
			r.Do("seq/"+c.Name, func() string { return fmt.Sprint(fs) }, func() { run("seq", fs, as) })
		}
		if len(fs) == depth {
			return
		}
		for _, f := range frags {
			if len(fs) > 0 {
				p := fs[len(fs)-1]
				// two quoted pieces side by side or a placeholder glued to one
				// would be read as one token
				if (p.n == 1 || strings.HasSuffix(p.text, "'") || strings.HasSuffix(p.text, `"`) || strings.HasSuffix(p.text, "`")) &&
					(f.n == 1 || strings.HasPrefix(f.text, "'") || strings.HasPrefix(f.text, `"`) || strings.HasPrefix(f.text, "`")) {
					continue
				}
			}
			rec(append(fs[:len(fs):len(fs)], f))
		}
	}
	rec(nil)
	sel := []frag{{"SELECT x = ", 0}, {"", 1}, {" AND 'a?$2' <> ", 0}, {"", 1}, {" OR y IN ", 0}, {"", 2}, {";", 0}}
	for _, a := range args {
		for _, b := range args {
			states[report.Hash(a.name, b.name)] = struct{}{}
			r.Do("args/"+c.Name, func() string { return a.name + " " + b.name }, func() { run("args", sel, []arg{a, b, b, a}) })
		}
	}
	// more than nine placeholders, in one group and one by one
	for n := 9; n <= 13; n++ {
		var as []arg
		one := []frag{{"SELECT ", 0}}
		for i := 0; i < n; i++ {
			as = append(as, arg{fmt.Sprint(i), int64(1000 + i), new(big.Rat).SetInt64(int64(1000 + i)), false})
			one = append(one, frag{"", 1}, frag{", ", 0})
		}
		r.Do("many/"+c.Name, func() string { return fmt.Sprint(n) }, func() {
			run("many", one, as)
			run("many", []frag{{"SELECT x IN ", 0}, {"", n}, {" AND '$1?'", 0}}, as)
			run("many", []frag{{"SELECT x IN ", 0}, {"", n - 2}, {" OR ", 0}, {"", 1}, {" = ", 0}, {"", 1}}, as)
		})
	}
	// statements with more placeholders than arguments, and damaged texts, only must not panic
	for _, q := range []string{"?", "$1", "$", "$0", "$99999999999999999999", "'", `"`, "`", `'\`, "E'", "$$", "$1$2", "??", "'?", "\xff?\xff", "%!v(PANIC"} {
		for k := 0; k < 2; k++ {
			r.Do("damaged/"+c.Name, func() string { return q }, func() {
				r.Transition(1)
				st := c.Acquire()
				st.WriteString(q)
				if k == 1 {
					st.Var("x")
				}
				err, pan := catch(func() error {
					for _, v := range []string{"%v", "%+v", "%#v", "%s", "%d"} {
						if s := fmt.Sprintf(v, st); strings.Contains(s, "(PANIC=") {
							return fmt.Errorf("%s: %s", v, s)
						}
					}
					return nil
				})
				if pan || err != nil {
					bad("panic", fmt.Sprintf("%q", q), err.Error())
				}
				c.Release(st)
			})
		}
	}
	r.Sample(map[string]any{"config": c.Name, "statements": len(states)})
	r.States(states)
}
