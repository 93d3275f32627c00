package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/si3nloong/sqlgen/cmd/sqlgen/codegen"

	"vh/genx"
	"vh/report"
)

// An option is one value, other than the default, of one dimension of the
// configuration.
type option struct {
	Dim, Val string
	Set      func(*suite)
}

func g01Options() (out []option) {
	add := func(dim, val string, f func(*suite)) { out = append(out, option{dim, val, f}) }
	for _, d := range []string{"postgres", "sqlite"} {
		add("driver", d, func(s *suite) { s.Cfg.Driver = d })
	}
	add("quote", "true", func(s *suite) { s.Cfg.Quote = true })
	for _, v := range []string{"Get", "x_", "P1"} {
		add("prefix", v, func(s *suite) { s.Cfg.Prefix = v; s.Gen.Getter.Prefix = v })
	}
	add("filename", "models.gen.go", func(s *suite) { s.Gen.Exec.Filename = "models.gen.go" })
	add("filename", "a.go", func(s *suite) { s.Gen.Exec.Filename = "a.go" })
	add("tag", "db", func(s *suite) { s.Cfg.Tag = "db"; s.Gen.Tag = "db" })
	for _, v := range []string{"camelCase", "PascalCase"} {
		add("naming", v, func(s *suite) {
			s.Cfg.Naming = v
			if v == "camelCase" {
				s.Gen.NamingConvention = codegen.CamelCase
			} else {
				s.Gen.NamingConvention = codegen.PascalCase
			}
		})
	}
	add("strict", "false", func(s *suite) { f := false; s.Gen.Strict = &f })
	add("skip_empty", "true", func(s *suite) { s.Gen.Exec.SkipEmpty = true })
	add("skip_header", "true", func(s *suite) { s.Gen.SkipHeader = true })
	add("source_map", "true", func(s *suite) { s.Gen.SourceMap = true })
	add("source", "glob", func(s *suite) { s.Gen.Source = []string{"./**/*"} })
	add("source", "file", func(s *suite) { s.Gen.Source = []string{"model/model.go"} })
	db := func(val string, d codegen.DatabaseConfig) {
		add("database", val, func(s *suite) {
			c := d
			if c.Operator != nil {
				o := *c.Operator
				c.Operator = &o
			}
			s.Gen.Database = &c
		})
	}
	db("dir", codegen.DatabaseConfig{Dir: "store/sql"})
	db("dir, package", codegen.DatabaseConfig{Dir: "store", Package: "store"})
	db("names", codegen.DatabaseConfig{Dir: "./q/../x-y", Package: "sequel", Filename: "z.go", Operator: &codegen.DatabaseOperatorConfig{Filename: "a.go"}})
	db("operator elsewhere", codegen.DatabaseConfig{Operator: &codegen.DatabaseOperatorConfig{Dir: "db/op", Package: "op"}})
	db("all", codegen.DatabaseConfig{Dir: "store", Package: "st", Filename: "st.go", Operator: &codegen.DatabaseOperatorConfig{Dir: "op", Package: "strings", Filename: "all.go"}})
	return
}

// optionModels is a small package with something of everything.
func optionModels(tag string) []model {
	l := []model{
		{Desc: "no key", Src: "type $T struct {\n\tName, Other string\n\tUserName *string\n\tAt time.Time\n}"},
		{Desc: "pk", Src: "type $T struct {\n\tUserID string `sql:\",pk\"`\n\tOf *int32\n\tL []string\n}"},
		{Desc: "only pk", Src: "type $T struct {\n\tUserID string `sql:\",pk\"`\n}"},
		{Desc: "auto", Src: "type $T struct {\n\tID uint32 `sql:\",auto_increment\"`\n\tOn bool\n}"},
		{Desc: "only auto", Src: "type $T struct {\n\tID int64 `sql:\"the_key,pk,auto_increment\"`\n}"},
		{Desc: "composite", Src: "type $T struct {\n\tA int `sql:\",pk\"`\n\tBirthDay time.Time `sql:\",primary_key\"`\n\tC float64\n}"},
		{Desc: "only composite", Src: "type $T struct {\n\tA int `sql:\",pk\"`\n\tB [2]bool `sql:\",pk\"`\n}"},
		{Desc: "only readonly", Src: "type $T struct {\n\tA int `sql:\",readonly\"`\n\tB string `sql:\",readonly\"`\n}"},
		{Desc: "some readonly", Src: "type $T struct {\n\tID int64 `sql:\",pk\"`\n\tA int `sql:\",readonly\"`\n}"},
		{Desc: "view", Opts: "readonly", Src: "// +sql:readonly\ntype $T struct {\n\tID int64 `sql:\",pk\"`\n\tA int\n}"},
		{Desc: "view without key", Opts: "readonly", Src: "// +sql:readonly\ntype $T struct {\n\tA int\n}"},
		{Desc: "table name", Src: "type $T struct {\n\t_ sequel.TableName `sql:\"MyTable\"`\n\tA int\n}"},
		{Desc: "embedded", Src: "// +sql:ignore\ntype $Tb struct {\n\tID int64 `sql:\",pk\"`\n\tC []byte\n}\n\ntype $T struct {\n\tA string\n\t*$Tb\n\tM map[string]int\n\tS struct{ A string }\n}"},
		{Desc: "types", Src: "type $T struct {\n\tA [4]byte\n\tB []bool\n\tC []float64\n\tD sup.Level\n\tE sup.UUID\n\tF *sup.Inner\n\tG sql.NullString\n\tH any\n\tI *time.Time\n\tJ json.RawMessage\n\tK []sup.Level\n}"},
		{Desc: "names", Src: "type $T struct {\n\tUserName string\n\tA1 int\n\tHTTP int\n\tB_c int `sql:\"the_B\"`\n}"},
	}
	if tag != "" {
		for i := range l {
			l[i].Src = strings.ReplaceAll(l[i].Src, "`sql:", "`sql:\"-\" "+tag+":")
		}
	}
	return l
}

const optionPrelude = `import (
	"database/sql"
	"encoding/json"
	"time"

	"github.com/si3nloong/sqlgen/sequel"
	"vh/gensup/sup"
)

var (
	_ sql.NullString
	_ json.Number
	_ time.Time
	_ sequel.TableName
	_ sup.Level
)
`

// optionSuites enumerates the configurations that differ from the default in at
// most n options.
func optionSuites(n int, pairs bool) (out []*suite) {
	// options which say nothing about the code itself
	lone := map[string]bool{"strict": true, "skip_empty": true, "skip_header": true, "source_map": true, "source": true}
	opts := g01Options()
	var rec func(from int, chosen []option)
	rec = func(from int, chosen []option) {
		s := &suite{Name: fmt.Sprintf("o%d", len(out)), Cfg: genx.Cfg{Name: "default", Driver: "mysql"}, Prelude: optionPrelude, NoProbe: true}
		var name []string
		for _, o := range chosen {
			o.Set(s)
			name = append(name, o.Dim+"="+o.Val)
		}
		if len(name) > 0 {
			s.Cfg.Name = strings.Join(name, ",")
		}
		s.Models = optionModels(s.Cfg.Tag)
		out = append(out, s)
		if len(chosen) == n {
			return
		}
		for i := from; i < len(opts); i++ {
			dup := false
			for _, c := range chosen {
				dup = dup || c.Dim == opts[i].Dim || !pairs && (lone[c.Dim] || lone[opts[i].Dim])
			}
			if !dup {
				rec(i+1, append(append([]option{}, chosen...), opts[i]))
			}
		}
	}
	rec(0, nil)
	return
}

// pkg is one package generated and compiled on its own.
type pkg struct {
	Key string
	Cfg genx.Cfg
	Src string // with its package clause
	dir string // below vh/
}

// packagesOf spreads packages over generator runs, one configuration each.
func packagesOf(r *report.Run, name string, l []*pkg) {
	const chunk = 12
	groups := map[string][]*pkg{}
	for _, p := range l {
		groups[p.Cfg.Name] = append(groups[p.Cfg.Name], p)
	}
	type run struct {
		dir string
		l   []*pkg
	}
	var runs []run
	for _, g := range keys(groups) {
		g := groups[g]
		for len(g) > 0 {
			n := min(chunk, len(g))
			runs = append(runs, run{fmt.Sprintf("gen/%s%d", name, len(runs)), g[:n]})
			g = g[n:]
		}
	}
	gen := func(dir string, l []*pkg) outcome {
		must(os.RemoveAll(filepath.Join(vh(), dir)))
		for i, p := range l {
			p.dir = fmt.Sprintf("%s/p%d", dir, i)
			write(filepath.Join(vh(), p.dir, "model.go"), p.Src)
		}
		c := l[0].Cfg
		return generate(job{Dir: filepath.Join(vh(), dir), Cfg: codegen.Config{
			Driver: codegen.SqlDriver(c.Driver), QuoteIdentifier: c.Quote, SkipModTidy: true, Source: []string{"./**/*"}}})
	}
	refuse := func(p *pkg, o outcome) {
		r.Violate(p.Key+"/generate", p.Key+": the generator refuses it: "+tail(o.String()), map[string]any{"source": p.Src, "outcome": o})
	}
	var mu sync.Mutex
	by := map[string]*pkg{}
	each(len(runs), func(i int) {
		l := runs[i].l
		for round := 0; len(l) > 0; round++ {
			o := gen(runs[i].dir, l)
			if o.String() == "" {
				break
			}
			var ok []*pkg
			for _, p := range l {
				if o := gen(runs[i].dir, []*pkg{p}); o.String() != "" {
					refuse(p, o)
				} else {
					ok = append(ok, p)
				}
			}
			if len(ok) == len(l) || round > 2 {
				r.Violate(name+"/generate", "the generator refuses packages together, not one by one: "+tail(o.String()), o)
				ok = nil
			}
			l = ok
		}
		mu.Lock()
		defer mu.Unlock()
		for _, p := range l {
			by[p.dir] = p
			r.State(p.Key)
			r.Trace(1)
		}
		r.Transition(1)
	})
	if len(by) == 0 {
		return
	}
	args := []string{"build", "-gcflags=-e"}
	for _, d := range keys(by) {
		args = append(args, "./"+d)
	}
	for i := range runs {
		if _, err := os.Stat(filepath.Join(vh(), runs[i].dir, "db")); err == nil {
			args = append(args, "./"+runs[i].dir+"/db")
		}
	}
	out, err := goTool(args...)
	if err == nil {
		return
	}
	found := map[string]bool{}
	for _, line := range strings.Split(out, "\n") {
		line = strings.TrimPrefix(strings.TrimSpace(line), "./")
		path, _, ok := strings.Cut(line, ".go:")
		if !ok {
			continue
		}
		p := by[filepath.Dir(path)]
		if p == nil || found[p.Key] {
			continue
		}
		found[p.Key] = true
		r.Violate(p.Key+"/compile", p.Key+": the generated code does not compile: "+line, map[string]any{"source": p.Src, "error": line})
	}
	if len(found) == 0 {
		r.Violate(name+"/compile", "the generated packages do not compile: "+tail(out), out)
	}
}

// alonePackages are packages of one struct with one column type: what the
// generated file imports depends on nothing else.
func alonePackages(r *report.Run, cfgs []genx.Cfg) (out []*pkg) {
	add := func(desc, src string) {
		for _, c := range cfgs {
			out = append(out, &pkg{Key: c.Name + "/" + desc, Cfg: c, Src: src})
		}
	}
	imps := []struct{ use, path string }{{"sql.", "database/sql"}, {"json.", "encoding/json"}, {"time.", "time"}, {"odd.", "vh/gensup/odd-dir"},
		{"sup.", "vh/gensup/sup"}, {"ver.", "vh/gensup/ver/v2"}, {"other.", "other vh/gensup/other/sup"}, {"sequel.", "github.com/si3nloong/sqlgen/sequel"}}
	importsOf := func(body string) string {
		var b strings.Builder
		for _, i := range imps {
			if strings.Contains(body, i.use) && !strings.Contains(body, "x"+i.use) {
				name, path, ok := strings.Cut(i.path, " ")
				if !ok {
					name, path = "", i.path
				}
				fmt.Fprintf(&b, "import %s %q\n", name, path)
			}
		}
		return b.String()
	}
	local := "type (\n" + prelude[strings.Index(prelude, "type (\n")+len("type (\n"):]
	for _, f := range fieldTypes() {
		if !r.Thorough() && strings.HasPrefix(f.Expr, "*") {
			continue
		}
		for _, form := range []string{"F %s", "F %s `sql:\",pk\"`"} {
			if form != "F %s" && (strings.HasPrefix(f.Expr, "*") || !r.Thorough() && f.Expr != "int64" && f.Expr != "time.Time" && f.Expr != "sup.Level") {
				continue
			}
			body := "type Model struct {\n\t" + fmt.Sprintf(form, f.Expr) + "\n}\n"
			if strings.Contains(strings.Trim(f.Expr, "*[]"), "L") && !strings.Contains(f.Expr, ".") || strings.HasPrefix(strings.Trim(f.Expr, "*"), "A") || strings.Contains(f.Expr, "lower") {
				body += local
			}
			add("alone/"+fmt.Sprintf(form, f.Expr), "package model\n\n"+importsOf(body)+"\n"+body)
		}
	}
	for i, m := range append(optionModels(""), tableModels...) {
		if strings.Contains(m.Src, "sup.") || i < 0 {
			continue
		}
		body := strings.ReplaceAll(m.Src, "$T", "Model")
		add("alone/"+m.Desc, "package model\n\n"+importsOf(body)+"\n"+body+"\n")
	}
	return
}

// collisionPackages declare, import or are named after what generated code uses.
func collisionPackages(cfgs []genx.Cfg) (out []*pkg) {
	add := func(desc, src string) {
		for _, c := range cfgs {
			out = append(out, &pkg{Key: c.Name + "/" + desc, Cfg: c, Src: src})
		}
	}
	used := []string{"strings", "strconv", "driver", "sequel", "encoding", "sqltype", "pgtype", "types", "time", "sql", "json", "db", "model", "v", "val", "row", "ptr", "noOfColumn"}
	fields := "\tID int64 `sql:\",pk\"`\n\tA string\n\tB []string\n\tC *bool\n\tD t0.Time\n\tE []int32\n\tF map[string]int\n\tG [3]byte\n\tH *t0.Time\n\tI []t0.Time\n"
	for _, n := range used {
		for _, d := range []string{"var %s = 1", "const %s = `x`", "type %s string", "func %s() {}", "type %s struct{ A string }"} {
			d = fmt.Sprintf(d, n)
			add("declares/"+d, "package model\n\nimport t0 \"time\"\n\n"+d+"\n\ntype Model struct {\n"+fields+"}\n\ntype Other struct {\n\tA string `sql:\",pk\"`\n\tB int `sql:\",pk\"`\n\tC []byte `sql:\",readonly\"`\n}\n")
		}
		add("declares used/"+n, "package model\n\ntype "+n+" string\n\ntype Model struct {\n\tA "+n+" `sql:\",pk\"`\n\tB []"+n+"\n\tC *"+n+"\n\tD map["+n+"]"+n+"\n}\n")
		add("package/"+n, "package "+n+"\n\nimport t0 \"time\"\n\ntype Model struct {\n"+fields+"}\n")
	}
	for _, n := range []string{"strings", "strconv", "driver", "sequel", "encoding", "sqltype", "time", "sql", "json"} {
		body := "type Model struct {\n\tID int64 `sql:\",auto_increment\"`\n\tA @.Kind\n\tB *@.Rank\n\tC @.Rec\n\tD []@.Kind\n\tE @.List\n\tF t0.Time\n\tG []string\n\tH struct{ X @.Rec }\n\tI map[@.Kind]*@.Rec\n}\n"
		add("imports/"+n, "package model\n\nimport (\n\tt0 \"time\"\n\n\t\"vh/gensup/same/"+n+"\"\n)\n\n"+strings.ReplaceAll(body, "@", n))
		add("imports and is/"+n, "package "+n+"\n\nimport (\n\tt0 \"time\"\n\n\tz \"vh/gensup/same/"+n+"\"\n)\n\n"+strings.ReplaceAll(body, "@", "z"))
		add("imports both/"+n, "package model\n\nimport (\n\tt0 \"time\"\n\n\t\"vh/gensup/sup\"\n\tsup2 \"vh/gensup/other/sup\"\n\t\"vh/gensup/same/"+n+"\"\n)\n\n"+strings.ReplaceAll(body, "@", n)+"\ntype Other struct {\n\tA sup.Level\n\tB sup2.Kind\n\tC *sup2.Rank\n}\n")
	}
	for _, n := range []string{"V", "Val", "T", "String", "Error", "Any", "Ünï", "日本", "Model_1", "X2"} {
		add("struct/"+n, "package model\n\ntype "+n+" struct {\n\tA string\n}\n")
		if n != "日本" {
			add("field/"+n, "package model\n\ntype Model struct {\n\t"+n+" *int64 `sql:\"n\"`\n}\n")
		}
	}
	for desc, src := range map[string]string{
		"main":        "package main\n\ntype Model struct{ A string }\n\nfunc main() {}\n",
		"no model":    "package model\n\ntype model struct{ A string }\n",
		"generics":    "package model\n\ntype Box[T any] struct{ V T }\n\ntype Model struct {\n\tA Box[int]\n\tB *Box[string]\n\tC []Box[bool]\n}\n",
		"function":    "package model\n\nfunc f() {\n\ttype Hidden struct{ A string }\n}\n\ntype Model struct{ A string }\n",
		"group":       "package model\n\ntype (\n\tA struct{ X string }\n\t// +sql:readonly\n\tB struct{ Y int `sql:\",pk\"` }\n\tC = A\n\tD A\n)\n",
		"defined":     "package model\n\nimport \"database/sql\"\n\ntype Model sql.NullString\n",
		"comments":    "// Package model /* */ has comments.\npackage model // here\n\n/* and */ type /* there */ Model struct { // {\n\tA string // `sql:\"x\"`\n\tB /* b */ int\n}\n",
		"empty":       "package model\n\ntype Model struct{}\n\ntype Other struct{ A string }\n",
		"hidden only": "package model\n\ntype Model struct{ a string }\n\ntype Other struct{ A string }\n",
		"dot import":  "package model\n\nimport . \"time\"\n\ntype Model struct{ A Time }\n",
		"tags":        "//go:build !never\n\npackage model\n\ntype Model struct{ A string }\n",
		"interface":   "package model\n\nimport \"fmt\"\n\ntype Model struct {\n\tA string\n\tB interface{ Foo() }\n\tC fmt.Stringer\n}\n",
	} {
		add("package/"+desc, src)
	}
	return
}

func g01(r *report.Run) {
	cfgs := []genx.Cfg{six[3]}
	both := []genx.Cfg{six[0], six[3]}
	if r.Thorough() {
		cfgs, both = six, six
	}
	t0 := time.Now()
	lap := func(s string) {
		if os.Getenv("VH_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, s, time.Since(t0))
		}
	}
	suites := optionSuites(2, r.Thorough())
	each(len(suites), func(i int) { suites[i].build(r); r.State(suites[i].Cfg.Name); r.Transition(1) })
	lap("options")
	compile(r, suites)
	lap("compiled")
	packagesOf(r, "a", alonePackages(r, both))
	lap("alone")
	packagesOf(r, "c", collisionPackages(cfgs))
	lap("collisions")
}
