// Package genx decides the properties of generated models at run time: it is
// compiled together with the generated packages and compares what their methods
// do with what the struct types themselves (by reflection) call for.
package genx

import (
	"fmt"
	"reflect"
	"strings"
	"unicode"

	"github.com/si3nloong/sqlgen/sequel"
)

// Entry is one generated model.
type Entry struct {
	Pkg, Name string
	Desc      string
	Cfg       *Cfg
	New       func() any // *T
	Opts      string
}

func (e *Entry) Key() string { return e.Cfg.Name + "/" + e.Desc }

// Cfg is one generator configuration.
type Cfg struct {
	Name, Driver string
	Quote        bool
	Naming       string // snake_case, camelCase, PascalCase
	Tag          string
	Prefix       string // of the column getters
	Custom       map[string]Custom
}

// Custom is a configured data type.
type Custom struct {
	SQLValue, SQLScan string // with %s for the placeholder/column
	Value, Scan       bool   // written and read through vh/gensup/conv
}

// Col is one expected column.
type Col struct {
	Name     string
	Field    string // Go field name
	Index    []int
	Type     reflect.Type
	PK, Auto bool
	ReadOnly bool
	Tag      []string
}

// Model is what a struct type calls for.
type Model struct {
	T       reflect.Type
	Table   string
	Cols    []Col
	Keys    []int // indices of the key columns
	Auto    int   // or -1
	Inserts []int
}

var tableName = reflect.TypeOf(sequel.TableName{})

// words splits a Go identifier: a boundary lies between letters and digits,
// before an upper-case letter that follows a lower-case one, and before the last
// letter of a run of capitals that is followed by a lower-case letter.
// Underscores separate.
func words(s string) (out []string) {
	r := []rune(s)
	var cur []rune
	flush := func() {
		if len(cur) > 0 {
			out = append(out, string(cur))
		}
		cur = nil
	}
	for i, c := range r {
		if c == '_' {
			flush()
			continue
		}
		if len(cur) > 0 {
			p := cur[len(cur)-1]
			switch {
			case unicode.IsDigit(p) != unicode.IsDigit(c),
				unicode.IsLower(p) && unicode.IsUpper(c),
				unicode.IsUpper(p) && unicode.IsUpper(c) && i+1 < len(r) && unicode.IsLower(r[i+1]):
				flush()
			}
		}
		cur = append(cur, c)
	}
	flush()
	return
}

// Rename renders an identifier in a naming convention.
func Rename(conv, s string) string {
	w := words(s)
	switch conv {
	case "", "snake_case":
		// underscores stay
		parts := strings.Split(s, "_")
		for i := range parts {
			parts[i] = strings.Join(words(parts[i]), "_")
		}
		return strings.ToLower(strings.Join(parts, "_"))
	case "camelCase", "PascalCase":
		for i := range w {
			r := []rune(strings.ToLower(w[i]))
			if i > 0 || conv == "PascalCase" {
				r[0] = unicode.ToUpper(r[0])
			}
			w[i] = string(r)
		}
		return strings.Join(w, "")
	}
	panic("no oracle for " + conv)
}

// Expect derives the model of a struct type.
func Expect(t reflect.Type, c *Cfg, rename func(string) string) *Model {
	m := &Model{T: t, Auto: -1, Table: rename(t.Name())}
	tagKey := c.Tag
	if tagKey == "" {
		tagKey = "sql"
	}
	depth := 1 << 30
	var chain []reflect.Type
	var walk func(t reflect.Type, idx []int)
	walk = func(t reflect.Type, idx []int) {
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			at := append(append([]int{}, idx...), i)
			name, opts := "", []string(nil)
			if tag := f.Tag.Get(tagKey); tag != "" {
				p := strings.Split(tag, ",")
				name, opts = strings.TrimSpace(p[0]), p[1:]
			}
			if name == "-" {
				continue
			}
			if f.Type == tableName {
				// the struct's own name wins over an embedded one
				if name != "" && len(idx) < depth {
					m.Table, depth = name, len(idx)
				}
				continue
			}
			if f.Anonymous {
				u := f.Type
				if u.Kind() == reflect.Pointer {
					// nobody but its package can allocate it
					if !f.IsExported() && f.PkgPath != m.T.PkgPath() {
						continue
					}
					u = u.Elem()
				}
				rec := u == m.T
				for _, c := range chain {
					rec = rec || c == u
				}
				if u.Kind() == reflect.Struct && !rec {
					chain = append(chain, u)
					walk(u, at)
					chain = chain[:len(chain)-1]
				}
				continue
			}
			if !f.IsExported() {
				continue
			}
			if name == "" {
				name = rename(f.Name)
			}
			col := Col{Name: name, Field: f.Name, Index: at, Type: f.Type, Tag: opts}
			for _, o := range opts {
				switch o, _, _ = strings.Cut(strings.TrimSpace(o), ":"); strings.ToLower(o) {
				case "pk", "primary_key":
					col.PK = true
				case "auto_increment":
					col.Auto = true
				case "readonly":
					col.ReadOnly = true
				}
			}
			n := len(m.Cols)
			m.Cols = append(m.Cols, col)
			if col.Auto {
				m.Auto = n
			} else if col.PK {
				m.Keys = append(m.Keys, n)
			}
			if !col.Auto && !col.ReadOnly {
				m.Inserts = append(m.Inserts, n)
			}
		}
	}
	walk(t, nil)
	if m.Auto >= 0 {
		m.Keys = []int{m.Auto}
	}
	return m
}

// Quote renders an identifier the way the generated methods return it.
func (c *Cfg) Ident(s string) string {
	if !c.Quote {
		return s
	}
	return c.QIdent(s)
}

// QIdent quotes always (the generated statements do).
func (c *Cfg) QIdent(s string) string {
	if c.Driver == "mysql" {
		return "`" + strings.ReplaceAll(s, "`", "``") + "`"
	}
	return `"` + strings.ReplaceAll(s, `"`, `""`) + `"`
}

// Var is the nth (from 1) placeholder.
func (c *Cfg) Var(n int) string {
	if c.Driver == "postgres" {
		return fmt.Sprintf("$%d", n)
	}
	return "?"
}

// FieldByIndex reads a field; the second result is false below a nil pointer.
func FieldByIndex(v reflect.Value, idx []int) (reflect.Value, bool) {
	for i, x := range idx {
		if i > 0 && v.Kind() == reflect.Pointer {
			if v.IsNil() {
				return reflect.Value{}, false
			}
			v = v.Elem()
		}
		v = v.Field(x)
	}
	return v, true
}
