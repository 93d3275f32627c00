package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/si3nloong/sqlgen/cmd/sqlgen/codegen"

	"vh/report"
)

// wood is the tree of the selection checks: the models of every file.
var wood = []struct {
	file   string
	models []string
	src    string // if it is not just the models
}{
	{"m.go", []string{"Root"}, ""},
	{"a/m.go", []string{"AM"}, ""},
	{"a/n_model.go", []string{"AN", "AO"}, ""},
	{"a/hand.go", nil, "package a\n\nfunc Hand() {}\n"},
	{"a/m_test.go", nil, "package a\n\ntype InTest struct {\n\tID int `sql:\",pk\"`\n}\n"},
	{"a/m.pb.go", nil, "// Code generated by protoc-gen-go. DO NOT EDIT.\n\npackage a\n\ntype Message struct {\n\tID int\n}\n"},
	{"a/m.txt", nil, "type Text struct {\n\tID int\n}\n"},
	{"a/b/m.go", []string{"BM"}, ""},
	{"a/b/user_model.go", []string{"BUser"}, ""},
	{"a/b/a/m.go", []string{"Deep"}, ""},
	{"ab/m.go", []string{"Sibling"}, ""},
	{"c.d/m.go", []string{"Dot"}, ""},
	{"cxd/m.go", []string{"Ex"}, ""},
	{"none/none.go", nil, "package none\n\nconst X = 1\n"},
	{"nogo/readme.md", nil, "nothing\n"},
	{"db/m.go", nil, "package db\n\ntype InDB struct {\n\tID int\n}\n"},
	{"db/sub/m.go", []string{"BelowDB"}, ""},
	{"op/m.go", []string{"InOp"}, ""},
}

func woodSource(file string, models []string) string {
	pkg := regexp.MustCompile(`\W`).ReplaceAllString(filepath.Base(filepath.Dir(file)), "")
	if pkg == "" {
		pkg = "root"
	}
	b := "package " + pkg + "\n"
	for _, m := range models {
		b += "\ntype " + m + " struct {\n\tID int64 `sql:\",pk\"`\n\tName string\n}\n"
	}
	return b
}

// segments matches the segments of a path against those of a pattern.
func segments(pat, p []string) bool {
	if len(pat) == 0 {
		return len(p) == 0
	}
	if pat[0] == "**" {
		for i := 0; i <= len(p); i++ {
			if segments(pat[1:], p[i:]) {
				return true
			}
		}
		return false
	}
	if len(p) == 0 {
		return false
	}
	ok, err := path.Match(pat[0], p[0])
	must(err)
	return ok && segments(pat[1:], p[1:])
}

// selects says whether the source selects the file; both are relative to the
// same directory and clean.
func selects(src, file string) bool {
	for _, w := range wood {
		if w.file == src {
			return file == src
		}
	}
	if !strings.Contains(src, "*") {
		return path.Dir(file) == src
	}
	if !strings.HasSuffix(file, ".go") {
		return false
	}
	pat := strings.Split(src, "/")
	switch last := &pat[len(pat)-1]; {
	case *last == "**":
		pat = append(pat, "*.go")
	case strings.HasSuffix(*last, "*"):
		*last += ".go"
	}
	return segments(pat, strings.Split(file, "/"))
}

// receivers are the types the file declares methods for.
func receivers(src string) (out []string) {
	f, err := parser.ParseFile(token.NewFileSet(), "x.go", src, 0)
	if err != nil {
		return []string{err.Error()}
	}
	m := map[string]bool{}
	for _, d := range f.Decls {
		if fn, ok := d.(*ast.FuncDecl); ok && fn.Recv != nil {
			t := fn.Recv.List[0].Type
			if s, ok := t.(*ast.StarExpr); ok {
				t = s.X
			}
			m[t.(*ast.Ident).Name] = true
		}
	}
	return keys(m)
}

type selectionCase struct {
	src   []string // as configured
	clean []string // relative to the tree, clean
	dir   string   // the working directory below the tree
	prior bool     // the outputs of a full run are there
	cfg   int
}

// the configurations of the selection checks.
func woodCfg(i int) (c codegen.Config, db, op string) {
	db, op = "db/db.go", "db/operator.go"
	c.Driver = codegen.Sqlite
	switch i {
	case 1:
		c.Exec.Filename = "m_model.go"
		c.Database = &codegen.DatabaseConfig{Package: "mydb", Dir: "db", Filename: "gen_db.go", Operator: &codegen.DatabaseOperatorConfig{Package: "op", Dir: "op", Filename: "m.gen.go"}}
		db, op = "db/gen_db.go", "op/m.gen.go"
	}
	return
}

func g07(r *report.Run) {
	// every pattern up to a length
	segs := []string{"a", "b", "*", "**", "a*", "*.go", "*_model.go", "m.go", "c.d"}
	depth := 3
	if r.Thorough() {
		depth = 4
	}
	valid := func(l []string) bool {
		wild := false
		for i, s := range l {
			wild = wild || strings.Contains(s, "*")
			if strings.HasSuffix(s, ".go") && i != len(l)-1 || s == "c.d" && i > 0 || s == "b" && i == 0 && len(l) > 1 && l[1] != "*" {
				return false
			}
			if s == "**" && i > 0 && l[i-1] == "**" {
				return false
			}
		}
		last := l[len(l)-1]
		return !wild || strings.HasSuffix(last, "*") || strings.HasSuffix(last, ".go")
	}
	var pats []string
	var rec func(l []string)
	rec = func(l []string) {
		if len(l) > 0 && valid(l) {
			pats = append(pats, strings.Join(l, "/"))
		}
		if len(l) < depth {
			for _, s := range segs {
				rec(append(append([]string{}, l...), s))
			}
		}
	}
	rec(nil)
	pats = append(pats, "a/b/a", "a/b/user_model.go", "a/**/m.go", "a/*/m.go", "*/*/*/*.go", "a/**/a/*.go", "**/b/**", "a/b/**/*", "nogo", "none", "none/*", "nowhere", "nowhere/m.go", "a/nowhere.go",
		"ab", "a/m.pb.go", "a/hand.go", "op", "op/m.go", "db", "db/**", "db/m.go", "db/sub", "**/sub/*", "cxd", "c.d/*", "c.*/*", "n*/*", "**/*_model.go", "**/m*", "a/**/*.go")
	var cases []selectionCase
	add := func(src, clean []string) {
		cases = append(cases, selectionCase{src: src, clean: clean})
	}
	for _, p := range pats {
		add([]string{p}, []string{p})
	}
	// the same thing spelled in other ways
	spelled := []string{"a", "a/m.go", "a/*", "a/**", "**/*", "**/*_model.go", "a/b/*.go", "c.d"}
	for _, p := range spelled {
		for _, s := range []string{"./" + p, "/TREE/" + p, "a/../" + p, "./a/./../" + p, " " + p + " "} {
			add([]string{s}, []string{p})
		}
		if !strings.Contains(p, "*") && !strings.Contains(p, ".go") {
			add([]string{p + "/"}, []string{p})
			add([]string{p + "/."}, []string{p})
		}
		cases = append(cases, selectionCase{src: []string{"../../" + p}, clean: []string{p}, dir: "a/b"})
	}
	cases = append(cases, selectionCase{src: []string{"."}, clean: []string{"a/b"}, dir: "a/b"}, selectionCase{src: []string{"./**/*"}, clean: []string{"a/b/**"}, dir: "a/b"},
		selectionCase{src: []string{"*.go", "../m.go"}, clean: []string{"a/b/*.go", "a/m.go"}, dir: "a/b"}, selectionCase{src: nil, clean: []string{"**/*"}}, selectionCase{src: nil, clean: []string{"a/**/*"}, dir: "a"})
	// every two of these together
	pairs := []string{"a", "a/m.go", "a/n_model.go", "a/b", "a/*_model.go", "a/**", "**/m.go", "ab", "nowhere", "db", "a/hand.go"}
	for _, x := range pairs {
		for _, y := range pairs {
			if x != y || r.Thorough() {
				add([]string{x, y}, []string{x, y})
			}
		}
	}
	n := len(cases)
	for i, c := range cases[:n] {
		if r.Thorough() || i%4 == 0 || len(c.clean) == 1 && strings.HasSuffix(c.clean[0], "*") {
			c.cfg = 1
			cases = append(cases, c)
		}
		if c.cfg = 0; r.Thorough() || i%3 == 0 {
			c.prior = true
			cases = append(cases, c)
		}
	}
	start := map[string]string{}
	for _, w := range wood {
		src := w.src
		if src == "" {
			src = woodSource(w.file, w.models)
		}
		start[w.file] = src
	}
	full := &step{Start: start, Cfg: codegen.Config{Driver: codegen.Sqlite, Source: []string{"./**/*"}}}
	full.run()

	each(len(cases), func(i int) {
		c := cases[i]
		cfg, db, op := woodCfg(c.cfg)
		from := start
		if c.prior {
			from = full.got
		}
		dir := treeDir()
		defer os.RemoveAll(dir)
		layTree(dir, from)
		cfg.SkipModTidy = true
		for _, s := range c.src {
			cfg.Source = append(cfg.Source, strings.ReplaceAll(s, "/TREE", dir))
		}
		key := fmt.Sprintf("%q in %q/config %d", c.src, c.dir, c.cfg)
		if c.prior {
			key += "/again"
		}
		o := generate(job{Dir: filepath.Join(dir, c.dir), Cfg: cfg})
		got := readTree(dir)
		r.State(key)
		r.Transition(1)
		r.Trace(1)
		r.Eval(len(got))
		replay := map[string]any{"case": key, "sources": c.src, "tree": keys(from), "outcome": o}
		if o.String() != "" {
			r.Violate(key+"/fails", key+": generation fails: "+tail(o.String()), replay)
			return
		}
		db, op = path.Join(c.dir, db), path.Join(c.dir, op)
		out := cfg.Exec.Filename
		if out == "" {
			out = "generated.go"
		}
		want := map[string][]string{} // models by directory, for those of which a file is selected
		for f, src := range from {
			d := path.Dir(f)
			if d == path.Dir(db) || d == path.Dir(op) || !strings.HasSuffix(f, ".go") || strings.HasSuffix(f, "_test.go") || path.Base(f) == out {
				continue
			}
			for _, s := range c.clean {
				if !selects(s, f) {
					continue
				}
				if _, ok := want[d]; !ok {
					want[d] = []string{}
				}
				if strings.HasPrefix(src, "// Code generated") {
					break
				}
				for _, w := range wood {
					if w.file == f {
						want[d] = append(want[d], w.models...)
					}
				}
				// in the directory of the database of another configuration
				if f == "db/m.go" {
					want[d] = append(want[d], "InDB")
				}
				break
			}
		}
		for d, l := range want {
			f := path.Join(d, out)
			if len(l) == 0 {
				delete(got, f) // of a package without models nothing is said
				continue
			}
			sort.Strings(l)
			if src, ok := got[f]; !ok {
				r.Violate(key+"/missing", key+": "+f+" is not written", replay)
			} else if have := receivers(src); fmt.Sprint(have) != fmt.Sprint(l) {
				r.Violate(key+"/models", fmt.Sprintf("%s: %s is for %v, want %v", key, f, have, l), replay)
			}
			delete(got, f)
		}
		for _, f := range []string{db, op} {
			if _, ok := got[f]; !ok {
				r.Violate(key+"/missing", key+": "+f+" is not written", replay)
			}
			delete(got, f)
		}
		rest := with(from)
		for d := range want {
			delete(rest, path.Join(d, out))
		}
		delete(rest, db)
		delete(rest, op)
		if d := diff(rest, got); d != "" {
			r.Violate(key+"/touched", key+": "+d, replay)
		}
	})
}
