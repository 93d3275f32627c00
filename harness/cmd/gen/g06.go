package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/si3nloong/sqlgen/cmd/sqlgen/codegen"

	"vh/report"
)

// The packages of the determinism and damage checks: b uses the models of a, c
// has imports of the same name.
var treeSrc = map[string]string{
	"a/model.go": `package a

import (
	"database/sql"
	"time"

	"github.com/si3nloong/sqlgen/sequel"
)

type Kind uint8

type Model struct {
	_       sequel.TableName ` + "`sql:\"a_models\"`" + `
	ID      int64 ` + "`sql:\",pk,auto_increment\"`" + `
	Name    *string
	Note    sql.NullString
	Kind    Kind
	List    []string
	Created time.Time ` + "`sql:\",readonly\"`" + `
}
`,
	"a/more.go": `package a

type Link struct {
	From int64 ` + "`sql:\",pk\"`" + `
	To   int64 ` + "`sql:\",pk\"`" + `
	Rank float64
}

type Base struct {
	Owner string
	Ref   *Link
}
`,
	"a/hand.go":   "package a\n\n// Hand is written by hand.\nfunc (Kind) Hand() string { return \"hand\" }\n",
	"d/d.go":      "package d\n\ntype Kind int\n\nfunc Helper() int { return 1 }\n",
	"a/readme.md": "not Go\n",
	"b/model.go": `package b

import (
	"encoding/json"

	"DIR/a"
)

type User struct {
	a.Base
	Email string ` + "`sql:\"email,pk\"`" + `
	Model a.Model
	Raw   json.RawMessage
	Extra struct {
		X, Y int
	}
}

type Account struct {
	a.Model
	Total uint64
}
`,
	"c/c.go": `package c

import (
	"time"

	time2 "vh/gensup/same/time"
	sql2 "vh/gensup/same/sql"
)

type Model struct {
	Id   string ` + "`sql:\",pk\"`" + `
	At   time.Time
	Mine time2.Kind
	More sql2.Kind
	Rank time2.Rank
	List sql2.List
	Recs []sql2.Rec
}
`,
}

// after is the tree after a run which selects the packages: d has no model any
// more, whatever was generated for it goes.
func after(start, clean map[string]string, cfg codegen.Config, pkgs string) map[string]string {
	want := with(start)
	for _, p := range pkgs {
		f := string(p) + "/" + outName(cfg)
		if p != 'd' {
			want[f] = clean[f]
		} else if strings.HasPrefix(want[f], header[:27]) {
			delete(want, f)
		}
	}
	d, o := dbOf(cfg)
	want[d], want[o] = clean[d], clean[o]
	return want
}

// lay writes the tree into a directory of the module.
func layTree(dir string, files map[string]string) {
	must(os.RemoveAll(dir))
	for p, src := range files {
		write(filepath.Join(dir, p), strings.ReplaceAll(src, "DIR", "vh/gen/"+filepath.Base(dir)))
	}
}

// readTree reads a tree, whatever its directory is called.
func readTree(dir string) map[string]string {
	m := tree(dir)
	for p, src := range m {
		m[p] = strings.ReplaceAll(src, "vh/gen/"+filepath.Base(dir), "DIR")
	}
	return m
}

func with(l ...map[string]string) map[string]string {
	m := map[string]string{}
	for _, x := range l {
		for k, v := range x {
			m[k] = v
		}
	}
	return m
}

var (
	treeN  int
	treeMu sync.Mutex
)

// treeDir is a new directory, all names have the same length.
func treeDir() string {
	treeMu.Lock()
	defer treeMu.Unlock()
	treeN++
	return filepath.Join(vh(), "gen", fmt.Sprintf("t%05d", treeN))
}

type step struct {
	Desc    string
	Start   map[string]string
	Cfg     codegen.Config
	Orders  []int
	Fault   int
	workers *workers
	// Want is the tree afterwards
	Want map[string]string
	got  map[string]string
	out  outcome
}

func (s *step) run() {
	dir := treeDir()
	defer os.RemoveAll(dir)
	layTree(dir, s.Start)
	w := s.workers
	if w == nil {
		w = plain
	}
	c := s.Cfg
	c.SkipModTidy = true
	s.out = w.generate(job{Dir: dir, Cfg: c, Orders: s.Orders, Fault: s.Fault})
	s.got = readTree(dir)
}

func ptr[T any](v T) *T { return &v }

// treeCfgs are the configurations of the tree.
func treeCfgs() []codegen.Config {
	return []codegen.Config{
		{Driver: codegen.MySQL},
		{Driver: codegen.Postgres, QuoteIdentifier: true, Getter: codegen.GetterConfig{Prefix: "Get"}, NamingConvention: codegen.PascalCase,
			DataTypes: map[string]*codegen.DataType{
				"time.Time":                {DataType: "bigint", Valuer: "{{ goPath }}.Unix()", SQLValuer: ptr("to_timestamp(%s)")},
				"vh/gensup/same/time.Kind": {DataType: "text", Valuer: "(string)({{ goPath }})", SQLScanner: ptr("lower(%s)")},
				"string":                   {DataType: "citext", SQLValuer: ptr("trim(%s)")},
			},
			Database: &codegen.DatabaseConfig{Package: "mydb", Dir: "my/db", Filename: "mydb.go", Operator: &codegen.DatabaseOperatorConfig{Package: "op", Dir: "my/op", Filename: "op.go"}}},
		{Driver: codegen.Sqlite, Strict: ptr(false), Exec: codegen.ExecConfig{Filename: "sqlgen_models.go"}},
	}
}

// dbOf are the files of the database packages.
func dbOf(c codegen.Config) (string, string) {
	if c.Database == nil {
		return "db/db.go", "db/operator.go"
	}
	return filepath.Join(c.Database.Dir, c.Database.Filename), filepath.Join(c.Database.Operator.Dir, c.Database.Operator.Filename)
}

func outName(c codegen.Config) string {
	if c.Exec.Filename == "" {
		return "generated.go"
	}
	return c.Exec.Filename
}

var header = "// Code generated by sqlgen, version 1.0.0-alpha. DO NOT EDIT.\n\n"

// leftovers are what an output file may hold before, for the package named $P.
var leftovers = []struct {
	desc, src string
	// broken says that packages which use the types of the package cannot be read
	broken bool
}{
	{"empty", "", false},
	{"header only", header, false},
	{"not Go", header + "package $P\n\nfunc ( {", true},
	{"other package", header + "package other\n\nvar X = 1\n", true},
	{"old methods", header + "package $P\n\nfunc (v Model) TableName() string { return \"old\" }\nfunc (v *Model) Addrs() []any { return nil }\nfunc (v User) Columns() []string { return []string{\"old\"} }\n", false},
	{"old types", header + "package $P\n\ntype Model struct{ Old int }\n\ntype Gone struct {\n\tID int `sql:\",pk\"`\n}\n\nfunc (Gone) Columns() []string { return nil }\n", true},
	{"by hand", "package $P\n\ntype Extra struct {\n\tID int `sql:\",pk\"`\n}\n\nfunc (Extra) TableName() string { return \"hand\" }\n\nfunc (Model) Columns() []string { return nil }\n", false},
	{"imports", header + "package $P\n\nimport (\n\tstrings \"fmt\"\n\tstrconv \"os\"\n)\n\nvar _, _ = strings.Sprint, strconv.Exit\n", false},
}

func leftover(i int, pkg string) string { return strings.ReplaceAll(leftovers[i].src, "$P", pkg) }

type selection struct {
	desc string
	src  []string
	pkgs string
}

var selections = []selection{
	{"all", []string{"./**/*"}, "abcd"},
	{"a", []string{"./a"}, "a"},
	{"b", []string{"b"}, "b"},
	{"c", []string{"./c/*.go"}, "c"},
	{"a,b", []string{"./a", "./b"}, "ab"},
	{"b,a", []string{"./b/", "./a/"}, "ab"},
	{"c,b,a", []string{"./c/**/*.go", "./b/model.go", "./a/*.go"}, "abc"},
	{"b,c,a,b", []string{"./b", "./c", "./a", "./b/model.go"}, "abc"},
	{"a,all", []string{"./a", "./**/*.go"}, "abcd"},
	{"c,d,a", []string{"./c", "./d", "./a"}, "acd"},
	{"default", nil, "abcd"},
}

func g06(r *report.Run) {
	cfgs := treeCfgs()
	// what a run on a clean tree writes
	clean := make([]map[string]string, len(cfgs))
	var failed atomic.Bool
	each(len(cfgs), func(i int) {
		s := &step{Start: treeSrc, Cfg: cfgs[i]}
		s.Cfg.Source = []string{"./**/*"}
		s.run()
		clean[i] = s.got
		r.Transition(1)
		if s.out.String() != "" {
			failed.Store(true)
			r.Violate(fmt.Sprintf("clean/%d", i), "the tree cannot be generated: "+tail(s.out.String()), s.out)
		}
		for _, p := range []string{"a", "b", "c"} {
			if s.got[p+"/"+outName(cfgs[i])] == "" {
				failed.Store(true)
				r.Violate(fmt.Sprintf("clean/%d/%s", i, p), "no output for package "+p, keys(s.got))
			}
		}
	})
	if failed.Load() {
		return
	}

	var steps []*step
	// a state has one of these for every package: nothing, the output of a
	// configuration, or a leftover
	kinds := 1 + len(cfgs) + len(leftovers)
	kindName := func(k int) string {
		switch {
		case k == 0:
			return "none"
		case k <= len(cfgs):
			return fmt.Sprintf("output%d", k-1)
		}
		return leftovers[k-1-len(cfgs)].desc
	}
	lay := func(m map[string]string, k, cfg int, paths ...string) {
		for _, path := range paths {
			pkg := filepath.Dir(path)
			switch {
			case k == 0:
			case k <= len(cfgs):
				// the file is called after the configuration which is run
				from := filepath.Join(pkg, outName(cfgs[k-1]))
				m[path] = clean[k-1][from]
			default:
				m[path] = leftover(k-1-len(cfgs), pkg)
			}
		}
	}
	seen := map[string]bool{}
	add := func(cfg int, st [4]int, sel selection) {
		if k := st[0] - 1 - len(cfgs); k >= 0 && leftovers[k].broken && strings.Contains(sel.pkgs, "b") {
			return // b cannot use a package like that
		}
		key := fmt.Sprintf("config %d/%s/a %s/b %s/c %s/db %s", cfg, sel.desc, kindName(st[0]), kindName(st[1]), kindName(st[2]), kindName(st[3]))
		if seen[key] {
			return
		}
		seen[key] = true
		start := with(treeSrc)
		for i, p := range []string{"a", "b", "c"} {
			lay(start, st[i], cfg, p+"/"+outName(cfgs[cfg]))
		}
		if k := st[0]; k > len(cfgs) {
			start["d/"+outName(cfgs[cfg])] = leftover(k-1-len(cfgs), "d")
		} else if k > 0 {
			start["d/"+outName(cfgs[cfg])] = header + "package d\n\nfunc (Gone) TableName() string { return \"gone\" }\n"
		}
		d, o := dbOf(cfgs[cfg])
		if k := st[3]; k > 0 && k <= len(cfgs) {
			d2, o2 := dbOf(cfgs[k-1])
			start[d], start[o] = clean[k-1][d2], clean[k-1][o2]
		} else {
			lay(start, k, cfg, d, o)
		}
		want := after(start, clean[cfg], cfgs[cfg], sel.pkgs)
		c := cfgs[cfg]
		c.Source = sel.src
		steps = append(steps, &step{Desc: key, Start: start, Cfg: c, Want: want})
	}
	for cfg := range cfgs {
		own := cfg + 1
		for _, sel := range selections {
			add(cfg, [4]int{}, sel)
			add(cfg, [4]int{own, own, own, own}, sel)
		}
		full := r.Thorough() || cfg == 1
		for k := 0; k < kinds; k++ {
			add(cfg, [4]int{k, k, k, k}, selections[0])
			if !full {
				continue
			}
			add(cfg, [4]int{k, own, own, 0}, selections[2])
			for k2 := 0; k2 < kinds; k2++ {
				// what one package holds must not show in another
				if k2 == k || k2 == 0 || r.Thorough() {
					add(cfg, [4]int{k, k2, 0, own}, selections[4])
					add(cfg, [4]int{k, 0, k2, 0}, selections[2])
				}
				if r.Thorough() {
					for k3 := 0; k3 < kinds; k3++ {
						add(cfg, [4]int{k, k2, k3, (k + k2 + k3) % kinds}, selections[0])
					}
				}
			}
		}
	}

	// what another configuration wrote, under its own names
	for cfg := range cfgs {
		for old := range cfgs {
			if old == cfg {
				continue
			}
			for _, sel := range []selection{selections[0], selections[2]} {
				start := with(treeSrc, clean[old])
				want := after(start, clean[cfg], cfgs[cfg], sel.pkgs)
				c := cfgs[cfg]
				c.Source = sel.src
				steps = append(steps, &step{Desc: fmt.Sprintf("config %d over config %d/%s", cfg, old, sel.desc), Start: start, Cfg: c, Want: want})
			}
		}
	}

	// every order of the iterations over maps
	w, places := orderly()
	r.Extra("places_whose_order_is_enumerated", places)
	for cfg := range cfgs {
		cfg := cfg
		bound := 1
		if r.Thorough() {
			bound = 2
		}
		exploreOrders(w, bound, func(s *step) {
			s.Start, s.Want = treeSrc, clean[cfg]
			s.Cfg = cfgs[cfg]
			s.Cfg.Source = []string{"./**/*"}
			s.Desc = fmt.Sprintf("config %d/orders %v", cfg, s.Orders)
		}, func(s *step) { steps = append(steps, s) })
	}

	// every model of the other properties: once more over its own output
	suites := append(g02Suites(r), g03Suites(r)...)
	suites = append(suites, optionSuites(1, false)...)
	again := make([]*step, len(suites))
	each(len(suites), func(i int) {
		s := suites[i]
		st := &step{Desc: fmt.Sprintf("models %s %s", s.Name, s.Cfg.Name), Start: map[string]string{}, Cfg: s.config(), workers: w}
		st.Cfg.Source = []string{"./**/*"}
		var l []int
		for k := range s.Models {
			l = append(l, k)
		}
		self := func(src string) string { return strings.ReplaceAll(src, "vh/gen/"+s.Name+"/", "DIR/") }
		st.Start["model/model.go"] = self(s.source(l))
		for p, src := range s.Files {
			st.Start[p] = self(src)
		}
		st.run()
		r.Transition(1)
		if st.out.String() != "" {
			return // left to the properties of these models
		}
		again[i] = &step{Desc: st.Desc + "/again", Start: st.got, Want: st.got, Cfg: st.Cfg}
	})
	for _, s := range again {
		if s != nil {
			steps = append(steps, s)
		}
	}

	each(len(steps), func(i int) {
		s := steps[i]
		if s.got == nil {
			s.run()
		}
		r.State(s.Desc)
		r.Transition(1)
		r.Trace(1)
		r.Eval(1)
		replay := map[string]any{"step": s.Desc, "start": s.Start, "config": s.Cfg, "orders": s.Orders, "outcome": s.out}
		if s.out.String() != "" {
			r.Violate(s.Desc+"/fails", s.Desc+": generation fails: "+tail(s.out.String()), replay)
			return
		}
		if d := diff(s.Want, s.got); d != "" {
			r.Violate(s.Desc, s.Desc+": the files are not those of a clean run: "+d+"\n"+firstDiff(s.Want, s.got), replay)
		}
	})
}

// exploreOrders runs the generator with every choice of orders which takes at
// most bound points out of order.
func exploreOrders(w *workers, bound int, prepare, done func(*step)) {
	queue := [][]int{nil}
	for len(queue) > 0 {
		next := make([][][]int, len(queue))
		steps := make([]*step, len(queue))
		each(len(queue), func(i int) {
			s := &step{Orders: queue[i], workers: w}
			prepare(s)
			s.run()
			steps[i] = s
			used := 0
			for _, o := range s.Orders {
				if o != 0 {
					used++
				}
			}
			if used == bound {
				return
			}
			for p := len(s.Orders); p < len(s.out.Points); p++ {
				for c := 1; c < s.out.Points[p]; c++ {
					o := make([]int, p+1)
					copy(o, s.Orders)
					o[p] = c
					next[i] = append(next[i], o)
				}
			}
		})
		queue = nil
		for i := range steps {
			done(steps[i])
			queue = append(queue, next[i]...)
		}
	}
}

func firstDiff(a, b map[string]string) string {
	for _, k := range keys(b) {
		if a[k] == b[k] {
			continue
		}
		x, y := strings.Split(a[k], "\n"), strings.Split(b[k], "\n")
		for i := range y {
			if i >= len(x) || x[i] != y[i] {
				w := ""
				if i < len(x) {
					w = x[i]
				}
				return fmt.Sprintf("%s:%d: %q instead of %q", k, i+1, y[i], w)
			}
		}
	}
	return ""
}
