package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/si3nloong/sqlgen/cmd/sqlgen/codegen"

	"vh/report"
)

// handBodies are the hand-written methods, with $T for the model.
var handBodies = map[string]string{
	"TableName":          "func ($T) TableName() string { return `hand_table` }",
	"DatabaseName":       "func (x $T) DatabaseName() string { return `hand_db` }",
	"HasPK":              "func ($T) HasPK() { genx.Mark(`$T`, `HasPK`) }",
	"PK":                 "func (v $T) PK() (name string, at int, value any) { return `hand_pk`, 41, `hand` }",
	"CompositeKey":       "func ($T) CompositeKey() ([]string, []int, []interface{}) { return []string{`hand_key`}, []int{42}, []any{`hand`} }",
	"IsAutoIncr":         "func (t $T) IsAutoIncr() { genx.Mark(`$T`, `IsAutoIncr`) }",
	"ScanAutoIncr":       "func (p *$T) ScanAutoIncr(id int64) error { return errors.New(`hand error`) }",
	"Columns":            "func (_ $T) Columns() (l []string) { return []string{`hand_col`} }",
	"SQLColumns":         "func ($T) SQLColumns() []string { return []string{`hand_sql`} }",
	"Values":             "func ($T) Values() []interface{} { return []any{`hand_val`} }",
	"Addrs":              "func (*$T) Addrs() []any { return []any{`hand_addr`} }",
	"InsertColumns":      "func ($T) InsertColumns() []string { return []string{`hand_ins`} }",
	"InsertPlaceholders": "func ($T) InsertPlaceholders(_ int) string { return `(hand)` }",
	"InsertOneStmt":      "func ($T) InsertOneStmt() (string, []any) { return `hand insert`, []any{`hand`} }",
	"FindOneByPKStmt":    "func ($T) FindOneByPKStmt() (query string, args []any) { return `hand find`, []any{`hand`} }",
	"UpdateOneByPKStmt":  "func ($T) UpdateOneByPKStmt() (string, []any) { return `hand update`, []any{`hand`} }",
	"AValue":             "func ($T) AValue() any { return `hand a` }",
	"ColumnA":            "func (v $T) ColumnA() sequel.ColumnClause[string] { return genx.HandColumn(v.A) }",
}

// wrongBodies are methods of the right name that the generated code cannot use.
var wrongBodies = map[string][]string{
	"TableName":          {"func ($T) TableName() int { return 1 }", "func ($T) TableName(x int) string { return `` }", "func (*$T) TableName() string { return `` }", "func ($T) TableName() (string, error) { return ``, nil }", "func ($T) TableName() name { return `` }", "func ($T) TableName() {}"},
	"Columns":            {"func ($T) Columns() string { return `` }", "func ($T) Columns(...int) []string { return nil }", "func (*$T) Columns() []string { return nil }", "func ($T) Columns() []any { return nil }", "func ($T) Columns() [1]string { return [1]string{} }"},
	"Values":             {"func ($T) Values() []string { return nil }", "func (*$T) Values() []any { return nil }", "func ($T) Values() ([]any, error) { return nil, nil }"},
	"Addrs":              {"func (*$T) Addrs() []string { return nil }", "func (*$T) Addrs(x int) []any { return nil }", "func (*$T) Addrs() map[string]any { return nil }"},
	"SQLColumns":         {"func ($T) SQLColumns() string { return `` }"},
	"PK":                 {"func ($T) PK() string { return `` }", "func ($T) PK() (string, int64, any) { return ``, 0, nil }", "func (*$T) PK() (string, int, any) { return ``, 0, nil }"},
	"HasPK":              {"func ($T) HasPK() bool { return true }"},
	"InsertPlaceholders": {"func ($T) InsertPlaceholders() string { return `` }", "func ($T) InsertPlaceholders(n int64) string { return `` }"},
	"InsertOneStmt":      {"func ($T) InsertOneStmt() string { return `` }"},
	"FindOneByPKStmt":    {"func ($T) FindOneByPKStmt() (string, []string) { return ``, nil }"},
	"UpdateOneByPKStmt":  {"func ($T) UpdateOneByPKStmt() (string, ...any) { return ``, nil }", "func ($T) UpdateOneByPKStmt() (string, []any, error) { return ``, nil, nil }"},
	"ScanAutoIncr":       {"func (*$T) ScanAutoIncr(int64) {}", "func (*$T) ScanAutoIncr(int) error { return nil }"},
	"IsAutoIncr":         {"func ($T) IsAutoIncr() bool { return true }"},
	"AValue":             {"func ($T) AValue() string { return `` }", "func (*$T) AValue() any { return nil }"},
	"ColumnA":            {"func ($T) ColumnA() sequel.ColumnClause[int] { return nil }", "func ($T) ColumnA() string { return `` }"},
}

var handKinds = []struct{ name, fields string }{
	{"plain", "\tA string\n\tB int64\n"},
	{"pk", "\tB int64 `sql:\",pk\"`\n\tA string\n"},
	{"auto", "\tB uint32 `sql:\",pk,auto_increment\"`\n\tA string\n\tC bool\n"},
	{"composite", "\tA string `sql:\",pk\"`\n\tB int64 `sql:\",pk\"`\n\tC bool\n"},
	{"readonly", "\tA string\n\tB int64 `sql:\",pk\"`\n\tC bool `sql:\",readonly\"`\n"},
}

const handPrelude = `import (
	"errors"

	"github.com/si3nloong/sqlgen/sequel"
	"vh/genx"
)

var (
	_ = errors.New
	_ sequel.TableName
	_ = genx.Mark
)
`

// subsets lists the subsets the check enumerates: those of at most two methods
// (three when thorough), their complements, and all subsets of the methods that
// make a model.
func subsets(all []string, n int) (out [][]string) {
	seen := map[string]bool{}
	add := func(l []string) {
		k := strings.Join(l, ",")
		if !seen[k] {
			seen[k] = true
			out = append(out, l)
		}
	}
	add(nil)
	var rec func(from int, l []string)
	rec = func(from int, l []string) {
		add(l)
		var rest []string
		for _, m := range all {
			in := false
			for _, x := range l {
				in = in || x == m
			}
			if !in {
				rest = append(rest, m)
			}
		}
		add(rest)
		if len(l) == n {
			return
		}
		for i := from; i < len(all); i++ {
			rec(i+1, append(append([]string{}, l...), all[i]))
		}
	}
	rec(0, nil)
	if n < 2 {
		return
	}
	core := []string{"Addrs", "Columns", "DatabaseName", "SQLColumns", "TableName", "Values"}
	for m := 0; m < 1<<len(core); m++ {
		var l []string
		for i, c := range core {
			if m>>i&1 == 1 {
				l = append(l, c)
			}
		}
		add(l)
	}
	return
}

func g05(r *report.Run) {
	var all []string
	for m := range handBodies {
		all = append(all, m)
	}
	sort.Strings(all)
	n := 2
	cfgs := six[:4:4][2:3]
	cfgs = append(cfgs, six[1])
	if r.Thorough() {
		n = 3
	}
	tables := []struct{ name, field string }{{"-", ""}, {"the_table", "\t_ sequel.TableName `sql:\"the_table\"`\n"}}
	var suites []*suite
	for _, c := range cfgs {
		for _, tb := range tables {
			s := &suite{Name: fmt.Sprintf("h%s%d", c.Name, len(tb.name)), Cfg: c, Prelude: handPrelude}
			add := func(kind, fields string, set []string, elsewhere string) {
				var b strings.Builder
				fmt.Fprintf(&b, "type $T struct {\n%s%s}\n", tb.field, fields)
				for _, m := range set {
					if elsewhere != "" {
						if s.Files == nil {
							s.Files = map[string]string{}
						}
						src := s.Files[elsewhere]
						if src == "" {
							src = "package model\n\n" + handPrelude
							if strings.Contains(elsewhere, "gen") {
								src = "// Code generated by some tool; DO NOT EDIT.\n\n" + src
							}
						}
						s.Files[elsewhere] = src + strings.ReplaceAll(handBodies[m], "$T", s.next(len(s.Models))) + "\n"
						continue
					}
					b.WriteString(handBodies[m] + "\n")
				}
				s.Models = append(s.Models, model{Desc: kind + "/" + tb.name + "/" + strings.Join(set, "+") + elsewhere, Src: b.String(),
					Opts: kind + " " + tb.name + " " + strings.Join(set, ",")})
			}
			for _, k := range handKinds {
				m := n
				full := map[string]string{"postgres-": "pk readonly", "mysqlthe_table": "auto plain"}[c.Driver+tb.name]
				if !r.Thorough() && !strings.Contains(full, k.name) {
					m = 1
				}
				for _, set := range subsets(all, m) {
					add(k.name, k.fields, set, "")
				}
				for _, file := range []string{"model/other.go", "model/other_gen.go"} {
					for _, m := range all {
						add(k.name, k.fields, []string{m}, file)
					}
				}
			}
			suites = append(suites, s)
		}
	}
	each(len(suites), func(i int) { suites[i].build(r) })
	compile(r, suites)
	probe(r, suites, "methods")

	// a method of the right name and the wrong type is an error
	var no []*bad
	for _, m := range all {
		for _, w := range wrongBodies[m] {
			for _, k := range handKinds {
				if (m == "ScanAutoIncr" || m == "IsAutoIncr") && k.name != "auto" ||
					(strings.HasSuffix(m, "PK") || strings.HasSuffix(m, "PKStmt")) && k.name == "plain" ||
					m == "PK" && k.name == "composite" {
					continue
				}
				if k.name != "auto" && !r.Thorough() && k.name != "plain" && m != "PK" && m != "HasPK" && !strings.HasSuffix(m, "PKStmt") {
					continue
				}
				src := "package model\n\nimport \"github.com/si3nloong/sqlgen/sequel\"\n\nvar _ sequel.TableName\n\ntype name string\n\ntype Model struct {\n" + k.fields + "}\n\n" + strings.ReplaceAll(w, "$T", "Model") + "\n"
				if strings.Contains(w, "...any)") {
					continue
				}
				no = append(no, &bad{Key: "wrong/" + k.name + "/" + w, Cfg: codegen.Config{Driver: codegen.Postgres}, Files: map[string]string{"model/model.go": src}})
			}
		}
	}
	rejects(r, no)
}
