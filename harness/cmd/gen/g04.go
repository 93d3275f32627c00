package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"github.com/si3nloong/sqlgen/cmd/sqlgen/codegen"

	"vh/genx"
	"vh/report"
)

// bad is a package the generator has to refuse.
type bad struct {
	Key   string
	Cfg   codegen.Config
	Files map[string]string
}

// rejects checks that every package is refused with an error and that the files
// stay as they are.
func rejects(r *report.Run, l []*bad) {
	each(len(l), func(i int) {
		b := l[i]
		dir := filepath.Join(vh(), "gen", fmt.Sprintf("bad%d", i))
		defer os.RemoveAll(dir)
		must(os.RemoveAll(dir))
		for p, src := range b.Files {
			write(filepath.Join(dir, p), src)
		}
		write(filepath.Join(dir, "db", "db.go"), "package db\n\n// untouched\n")
		before := tree(dir)
		c := b.Cfg
		c.SkipModTidy = true
		if c.Driver == "" {
			c.Driver = codegen.MySQL
		}
		if c.Source == nil {
			c.Source = []string{"./**/*"}
		}
		o := generate(job{Dir: dir, Cfg: c})
		r.State(b.Key)
		r.Transition(1)
		r.Trace(1)
		r.Eval(1)
		replay := map[string]any{"files": b.Files, "outcome": o}
		switch {
		case o.Panic != "":
			r.Violate(b.Key+"/panic", b.Key+": the generator panics: "+tail(o.Panic), replay)
		case o.Err == "":
			r.Violate(b.Key+"/accepted", b.Key+": the generator accepts it", replay)
		}
		if o.Err != "" {
			if d := diff(before, tree(dir)); d != "" {
				r.Violate(b.Key+"/written", b.Key+": the generator fails, but "+d, replay)
			}
		}
	})
}

// diff says how two trees differ.
func diff(a, b map[string]string) string {
	for _, k := range keys(a) {
		if x, ok := b[k]; !ok {
			return k + " is gone"
		} else if x != a[k] {
			return k + " was changed"
		}
	}
	for _, k := range keys(b) {
		if _, ok := a[k]; !ok {
			return k + " was created"
		}
	}
	return ""
}

var columnRx = regexp.MustCompile(`^[a-zA-Z][a-zA-Z0-9_]*$`)

func sqlTag(v string) string {
	return strconv.Quote("sql:" + strconv.Quote(v))
}

func g04(r *report.Run) {
	var no []*bad
	var yes []*pkg
	cfg := six[0]
	reject := func(desc, src string) {
		no = append(no, &bad{Key: desc, Files: map[string]string{"model/model.go": src}})
	}
	accept := func(desc, src string) { yes = append(yes, &pkg{Key: desc, Cfg: cfg, Src: src}) }
	put := func(ok bool, desc, src string) {
		if ok {
			accept(desc, src)
		} else {
			reject(desc, src)
		}
	}

	// every column name up to a length
	alpha := []string{"a", "Z", "0", "_", "-", " ", ".", "`", "\"", "é", ";", "'", "\n", "\\", "K"} // the last is the Kelvin sign, which folds to k
	depth := 2
	if r.Thorough() {
		depth = 3
	}
	var names []string
	var rec func(s string, n int)
	rec = func(s string, n int) {
		if t := strings.TrimSpace(s); t != "" && t == s && t != "-" {
			names = append(names, s)
		}
		if n == depth {
			return
		}
		for _, a := range alpha {
			rec(s+a, n+1)
		}
	}
	rec("", 0)
	for _, n := range names {
		if strings.Contains(n, "K") {
			continue // a letter outside ASCII that the case-insensitive pattern lets through
		}
		put(columnRx.MatchString(n), fmt.Sprintf("column name/%q", n), "package model\n\ntype Model struct {\n\tA string "+sqlTag(n)+"\n\tZ1 int\n}\n")
	}

	// every two ways to have a column user_name, in both orders
	ways := []struct {
		desc, field, decl string
		live              bool
	}{
		{"plain", "UserName string", "", true},
		{"underscore", "User_Name string", "", true},
		{"tag", "X string `sql:\"user_name\"`", "", true},
		{"key", "Y string `sql:\"user_name,pk\"`", "", true},
		{"readonly", "W string `sql:\" user_name ,readonly\"`", "", true},
		{"embedded", "E1", "// +sql:ignore\ntype E1 struct { V int; UserName *string }\n", true},
		{"embedded pointer", "*E2", "// +sql:ignore\ntype E2 struct { USERName []string }\n", true},
		{"embedded twice", "E3", "// +sql:ignore\ntype E3 struct { *e3 }\ntype e3 struct { T string `sql:\"user_name\"` }\n", true},
		{"ignored", "I string `sql:\"-\"`", "", false},
		{"unexported", "user_name string", "", false},
		{"other", "J string `sql:\"user__name\"`", "", false},
		{"ignored embedded", "E4 `sql:\"-\"`", "// +sql:ignore\ntype E4 struct { UserName string }\n", false},
		{"other embedded", "E5", "// +sql:ignore\ntype E5 struct { UserName2 string }\n", false},
		{"embedded ignored", "E6", "// +sql:ignore\ntype E6 struct { H string `sql:\"-\"`; E6a string }\n", false},
	}
	for i, a := range ways {
		for j, b := range ways {
			if i == j {
				continue
			}
			put(!(a.live && b.live), "columns/"+a.desc+"+"+b.desc,
				"package model\n\n"+a.decl+b.decl+"\ntype Model struct {\n\tA int\n\t"+a.field+"\n\tB int\n\t"+b.field+"\n}\n")
		}
	}

	// auto-increment keys: how many, and of which type
	autos := []struct {
		desc, field, decl string
		n                 int
	}{
		{"none", "P string", "", 0},
		{"one", "Q int64 `sql:\",auto_increment\"`", "", 1},
		{"one more", "R uint8 `sql:\",pk,auto_increment\"`", "", 1},
		{"embedded", "E1", "// +sql:ignore\ntype E1 struct { V int `sql:\",auto_increment,pk\"` }\n", 1},
		{"embedded pointer", "*E2", "// +sql:ignore\ntype E2 struct { W int16 `sql:\"w,AUTO_INCREMENT\"` }\n", 1},
		{"key", "S int `sql:\",pk\"`", "", 0},
		{"ignored", "T int `sql:\"-,auto_increment\"`", "", 0},
	}
	for i, a := range autos {
		for j, b := range autos {
			if i != j {
				put(a.n+b.n < 2, "auto/"+a.desc+"+"+b.desc, "package model\n\n"+a.decl+b.decl+"\ntype Model struct {\n\tA int\n\t"+a.field+"\n\tB int\n\t"+b.field+"\n}\n")
			}
		}
	}
	integer := map[string]bool{"LInt": true, "LInt8": true, "LInt64": true, "LUint": true, "LUint16": true, "LUint64": true, "lower": true,
		"sup.Level": true, "sup.U8": true, "odd.Size": true, "other.Rank": true, "ALevel": true, "ver.Weight": true}
	for _, b := range basics {
		integer[b] = strings.Contains(b, "int") || b == "byte" || b == "rune"
	}
	skip := map[string]bool{"other.Kind": true, "ver.ID": true, "ver.Weight": true, "other.Rank": true, "odd.Size": true, "sup.Flag": true, "sup.U8": true}
	for _, f := range fieldTypes() {
		if skip[f.Expr] {
			continue
		}
		src := strings.Replace(prelude, "import (", "package model\n\nimport (", 1) + "\ntype Model struct {\n\tA string\n\tF " + f.Expr + " `sql:\",auto_increment\"`\n}\n"
		// types with a form of their own are left open
		if strings.HasPrefix(f.Expr, "sup.") && integer[f.Expr] {
			continue
		}
		put(integer[f.Expr], "auto type/"+f.Expr, src)
	}

	// keys cannot be readonly
	for _, k := range []string{"pk", "primary_key", "auto_increment", "pk,auto_increment", "PK"} {
		for _, t := range []string{"readonly," + k, k + ",readonly", k + ",size:5, ReadOnly"} {
			reject("readonly key/"+t, "package model\n\ntype Model struct {\n\tA int `sql:\","+t+"\"`\n\tB string\n}\n")
		}
	}

	// types that do not exist, cannot be named, or point to pointers
	for _, t := range []string{"Missing", "*Missing", "[]Missing", "[2]Missing", "map[string]Missing", "map[Missing]int", "struct{ A Missing }",
		"missing.T", "*sup.Missing", "sup.Missing", "Box[Missing]", "sup.Box[Missing]", "Half", "[]Half", "sup.lower",
		"**int", "***string", "*PInt", "**sup.Level", "*sup.PLevel"} {
		src := "package model\n\nimport \"vh/gensup/sup\"\n\nvar _ sup.Level\n\ntype Box[T any] struct{ V T }\n\ntype PInt = *int\n\ntype half Missing\n\ntype Half = half2\n\ntype Model struct {\n\tA string\n\tF " + t + "\n}\n"
		reject("type/"+t, src)
		reject("embedded type/"+t, strings.Replace(src, "type Model struct {\n", "type Model struct {\n\tinner\n}\n\ntype inner struct {\n", 1))
		// below an ignored or unexported field it does not matter to the columns
	}
	for _, t := range []string{"*int", "PInt", "[]*int", "[]**int", "map[string]**int", "Box[**int]", "*Box[*int]", "func()", "chan int"} {
		if t == "func()" || t == "chan int" {
			continue // nothing says what becomes of these
		}
		accept("type/"+t, "package model\n\ntype Box[T any] struct{ V T }\n\ntype PInt = *int\n\ntype Model struct {\n\tA string\n\tF "+t+"\n}\n")
	}

	// files that are no Go
	for _, s := range []string{"", "package", "package model\ntype", "package model\n\ntype Model struct {", "package model\n\ntype Model struct { A string `sql }\n",
		"package model\n\nfunc f() { if }\n\ntype Model struct { A string }\n", "package model\n\ntype Model struct { A string }\n}\n", "hello", "package model\n\nimport \"fmt\n\ntype Model struct { A string }\n", "package model\n\ntype Model struct { A string \x00 }\n"} {
		if s != "" {
			reject(fmt.Sprintf("syntax/%q", s), s)
		}
		no = append(no, &bad{Key: fmt.Sprintf("syntax beside/%q", s), Files: map[string]string{"model/a.go": "package model\n\ntype Model struct { A string }\n", "model/b.go": s}})
	}

	// a field with the name of a method the model gets
	always := []string{"TableName", "Columns", "Values", "Addrs", "InsertPlaceholders", "InsertOneStmt", "AValue", "ColumnA", "IDValue", "ColumnID"}
	keyed := []string{"HasPK", "PK", "FindOneByPKStmt", "UpdateOneByPKStmt"}
	auto := []string{"IsAutoIncr", "ScanAutoIncr"}
	for kind, tag := range map[string]string{"no key": "", "key": ",pk", "auto": ",auto_increment"} {
		for _, set := range []struct {
			l  []string
			ok bool
		}{{always, false}, {keyed, kind == "no key"}, {auto, kind != "auto"},
			{[]string{"CompositeKey", "InsertOne", "ColumnB", "Value", "Column", "Table", "Tablename", "InsertColumns", "SQLColumns"}, true}} {
			for _, n := range set.l {
				// insert columns differ from the columns where there is an auto-increment key
				if n == "InsertColumns" && kind == "auto" {
					set.ok = false
				}
				for form, f := range map[string]string{"column": "string", "ignored": "string `sql:\"-\"`", "embedded": ""} {
					src := "package model\n\n"
					field := n + " " + f
					if form == "embedded" {
						// the field is hidden by the method of the model itself, and so out of reach
						continue
					}
					put(set.ok, "field named like a method/"+kind+"/"+form+"/"+n,
						src+"type Model struct {\n\tID int64 `sql:\""+tag+"\"`\n\tA bool\n\t"+field+"\n}\n")
				}
				if n == "InsertColumns" {
					set.ok = true
				}
			}
		}
	}
	// two fields whose methods have the same name
	for _, f := range []string{"A string; AValue string", "ColumnA string; A string"} {
		reject("methods collide/"+f, "package model\n\ntype Model struct { "+f+" }\n")
	}

	rejects(r, no)
	packagesOf(r, "ok", yes)
	_ = genx.Cfg{}
}
