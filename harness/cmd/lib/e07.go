package main

import (
	"fmt"
	"strconv"
	"strings"
	"unicode/utf8"

	"vh/report"

	"github.com/si3nloong/sqlgen/cmd/sqlgen/codegen/dialect"
	_ "github.com/si3nloong/sqlgen/cmd/sqlgen/codegen/dialect/mysql"
	_ "github.com/si3nloong/sqlgen/cmd/sqlgen/codegen/dialect/postgres"
	_ "github.com/si3nloong/sqlgen/cmd/sqlgen/codegen/dialect/sqlite"
	"github.com/si3nloong/sqlgen/sequel/driver/postgres/pgutil"
)

// identRef reads one quoted identifier token with the dialect's own rule (the
// quote is doubled inside, nothing else is special) and returns the name and
// what follows the token.
func identRef(s string, q byte) (name, rest string, ok bool) {
	if len(s) == 0 || s[0] != q {
		return "", s, false
	}
	var b strings.Builder
	for i := 1; i < len(s); i++ {
		if s[i] != q {
			b.WriteByte(s[i])
			continue
		}
		if i+1 < len(s) && s[i+1] == q {
			b.WriteByte(q)
			i++
			continue
		}
		return b.String(), s[i+1:], true
	}
	return "", "", false
}

// pgLiteralRef reads one PostgreSQL string literal: '...' with ” doubled, or
// E'...' where backslash escapes apply as well.
func pgLiteralRef(s string) (val, rest string, ok bool) {
	esc := false
	if strings.HasPrefix(s, " ") {
		s = s[1:]
	}
	if len(s) > 0 && (s[0] == 'E' || s[0] == 'e') {
		esc, s = true, s[1:]
	}
	if len(s) == 0 || s[0] != '\'' {
		return "", s, false
	}
	var b strings.Builder
	for i := 1; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '\'':
			if i+1 < len(s) && s[i+1] == '\'' {
				b.WriteByte('\'')
				i++
				continue
			}
			return b.String(), s[i+1:], true
		case c == '\\' && esc:
			i++
			if i >= len(s) {
				return "", "", false
			}
			switch c := s[i]; c {
			case 'b':
				b.WriteByte('\b')
			case 'f':
				b.WriteByte('\f')
			case 'n':
				b.WriteByte('\n')
			case 'r':
				b.WriteByte('\r')
			case 't':
				b.WriteByte('\t')
			case 'x':
				j := i + 1
				for j < len(s) && j < i+3 && strings.IndexByte("0123456789abcdefABCDEF", s[j]) >= 0 {
					j++
				}
				if j == i+1 {
					b.WriteByte('x')
					continue
				}
				n, _ := strconv.ParseUint(s[i+1:j], 16, 8)
				b.WriteByte(byte(n))
				i = j - 1
			case 'u', 'U':
				w := 4
				if c == 'U' {
					w = 8
				}
				if i+w >= len(s) {
					return "", "", false
				}
				n, err := strconv.ParseUint(s[i+1:i+1+w], 16, 32)
				if err != nil {
					return "", "", false
				}
				b.WriteRune(rune(n))
				i += w
			case '0', '1', '2', '3', '4', '5', '6', '7':
				j := i
				for j < len(s) && j < i+3 && s[j] >= '0' && s[j] <= '7' {
					j++
				}
				n, _ := strconv.ParseUint(s[i:j], 8, 16)
				b.WriteByte(byte(n))
				i = j - 1
			default:
				b.WriteByte(c)
			}
		default:
			b.WriteByte(c)
		}
	}
	return "", "", false
}

func e07(r *report.Run) {
	n := r.Pick(5, 6)
	r.Rule = "every string over the alphabet up to the length quoted as identifier (three dialects) and as PostgreSQL literal, re-read by an independent tokenizer; every placeholder position up to the bound"
	r.Bounds["tokens"], r.Bounds["positions"] = n, 70000
	ds := map[string]byte{"mysql": '`', "postgres": '"', "sqlite": '"'}
	dias := map[string]dialect.Dialect{}
	for name := range ds {
		d, ok := dialect.GetDialect(name)
		if !ok {
			r.Violate("dialect/"+name, "dialect not registered", name)
			r.Finish()
		}
		dias[name] = d
	}
	words([]string{"a", "n", "'", "\"", "`", "\\", "\n", "\t", "\b", "x4", "é", "$", " ", "\x01"}, n, func(s string) {
		for name, q := range ds {
			r.Do("ident/"+name, func() string { return strconv.Quote(s) }, func() {
				t := dias[name].QuoteIdentifier(s)
				got, rest, ok := identRef(t, q)
				if !ok || rest != "" || got != s {
					r.Violate("ident/"+name, fmt.Sprintf("%s identifier %q quoted as %s, which denotes %q followed by %q", name, s, t, got, rest), s)
				}
				r.Trace(1)
			})
		}
		r.Do("literal", func() string { return strconv.Quote(s) }, func() {
			t := pgutil.Quote(s)
			got, rest, ok := pgLiteralRef(t)
			if !ok || rest != "" || got != s {
				r.Violate("literal", fmt.Sprintf("literal %q quoted as %s, which denotes %q followed by %q", s, t, got, rest), s)
			}
			r.Trace(1)
		})
		r.Transition(4)
		r.Eval(4)
		if r.State(s) && strings.ContainsAny(s, "'\\`") {
			r.Sample(strconv.Quote(s))
		}
	})
	// single bytes and code points, completely
	for i := 1; i < 0x3000; i++ {
		for _, s := range []string{string(rune(i)), "a" + string(rune(i)) + "b", string([]byte{byte(i)})} {
			if strings.IndexByte(s, 0) >= 0 {
				continue
			}
			for name, q := range ds {
				if !utf8.ValidString(s) {
					continue
				}
				if got, rest, ok := identRef(dias[name].QuoteIdentifier(s), q); !ok || rest != "" || got != s {
					r.Violate("ident/"+name, fmt.Sprintf("%s identifier %q quoted as %s", name, s, dias[name].QuoteIdentifier(s)), s)
				}
			}
			if got, rest, ok := pgLiteralRef(pgutil.Quote(s)); !ok || rest != "" || got != s {
				r.Violate("literal", fmt.Sprintf("literal %q quoted as %s", s, pgutil.Quote(s)), s)
			}
			r.Trace(4)
		}
	}
	for i := 1; i <= 70000; i++ {
		for name, d := range dias {
			want := "?"
			if name == "postgres" {
				want = fmt.Sprintf("$%d", i)
			}
			got := d.QuoteVar(i)
			// SQLite also accepts ?NNN, which denotes argument NNN.
			if got != want && !(name == "sqlite" && got == fmt.Sprintf("?%d", i)) {
				r.Violate("placeholder/"+name, fmt.Sprintf("%s placeholder %d is %q", name, i, got), i)
			}
		}
		r.Trace(3)
	}
}
