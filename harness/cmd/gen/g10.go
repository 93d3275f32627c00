package main

import (
	"fmt"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/si3nloong/sqlgen/cmd/sqlgen/codegen"

	"vh/report"
)

// cause makes the generation of the tree fail.
type cause struct {
	kind, at string
	files    map[string]string // replace those of the tree
	cfg      func(*codegen.Config)
}

// badSources are what makes a package fail, $P is its name.
var badSources = []struct{ desc, src string }{
	{"not Go", "package $P\n\ntype Bad struct {\n"},
	{"other package", "package other\n\ntype Bad struct {\n\tID int\n}\n"},
	{"undefined type", "package $P\n\ntype Bad struct {\n\tID Nowhere\n}\n"},
	{"undefined package", "package $P\n\nimport \"vh/nowhere\"\n\ntype Bad struct {\n\tID nowhere.T\n}\n"},
	{"column name", "package $P\n\ntype Bad struct {\n\tID int `sql:\"not a name\"`\n}\n"},
	{"duplicate column", "package $P\n\ntype Bad struct {\n\tID int\n\tX string `sql:\"id\"`\n\tY string `sql:\"ID\"`\n\tZ string `sql:\"id\"`\n}\n"},
	{"two auto keys", "package $P\n\ntype Bad struct {\n\tID int64 `sql:\",pk,auto_increment\"`\n\tX int64 `sql:\",auto_increment\"`\n}\n"},
	{"auto key type", "package $P\n\ntype Bad struct {\n\tID string `sql:\",auto_increment\"`\n}\n"},
	{"method signature", "package $P\n\ntype Bad struct {\n\tID int64 `sql:\",pk\"`\n}\n\nfunc (Bad) Columns() int { return 0 }\n"},
	{"embedded", "package $P\n\ntype Bad struct {\n\tNowhere\n\tID int64\n}\n"},
	{"embedded pointer", "package $P\n\nimport \"vh/nowhere\"\n\ntype Bad struct {\n\t*nowhere.T\n\tID int64\n}\n"},
	{"embedded unexported", "package $P\n\ntype Bad struct {\n\tID int64\n\tnowhere\n}\n"},
	{"getter", "package $P\n\ntype Bad struct {\n\tID int64\n\tColumnID int64\n}\n"},
}

func causes(c codegen.Config) (out []cause) {
	for _, b := range badSources {
		for _, p := range []string{"a", "b", "c"} {
			out = append(out, cause{b.desc, p, map[string]string{p + "/zbad.go": strings.ReplaceAll(b.src, "$P", p)}, nil})
		}
	}
	out = append(out, cause{"not Go", "d", map[string]string{"d/d.go": "package d\n\nfunc {"}, nil})
	// a file that cannot be written: something is in its place
	d, o := dbOf(c)
	for _, f := range []string{"a/" + outName(c), "b/" + outName(c), "c/" + outName(c), d, o} {
		out = append(out, cause{"a directory in the place of", f, map[string]string{f: "<gone>", f + "/keep.txt": "kept"}, nil})
	}
	for _, f := range []string{d, o} {
		dir := filepath.Dir(f)
		gone := map[string]string{dir: "a file", d: "<gone>", o: "<gone>"}
		if filepath.Dir(d) != filepath.Dir(o) {
			delete(gone, map[string]string{d: o, o: d}[f])
		}
		out = append(out, cause{"a file in the place of the directory of", f, gone, nil})
	}
	set := func(desc string, f func(*codegen.Config)) { out = append(out, cause{"configuration", desc, nil, f}) }
	set("driver", func(c *codegen.Config) { c.Driver = "oracle" })
	set("naming convention", func(c *codegen.Config) { c.NamingConvention = "kebab" })
	set("last source", func(c *codegen.Config) { c.Source = []string{"./a", "./b", "./c", "  "} })
	set("data type template", func(c *codegen.Config) {
		c.DataTypes = map[string]*codegen.DataType{"float64": {DataType: "float", Valuer: "{{ goPath "}, "time.Time": {DataType: "x", Valuer: "{{ nowhere }}"}}
	})
	set("database package", func(c *codegen.Config) {
		c.Database = &codegen.DatabaseConfig{Package: "not a name", Dir: "db", Filename: "db.go"}
	})
	set("operator package", func(c *codegen.Config) {
		c.Database = &codegen.DatabaseConfig{Package: "db", Dir: "db", Filename: "db.go", Operator: &codegen.DatabaseOperatorConfig{Package: "1", Dir: "db2", Filename: "op.go"}}
	})
	return
}

// put lays files over a tree.
func put(m map[string]string, over map[string]string) map[string]string {
	m = with(m)
	for k := range over {
		for f := range m {
			if strings.HasPrefix(f, k+"/") {
				delete(m, f) // the file takes the place of the directory
			}
		}
	}
	m = with(m, over)
	for k, v := range over {
		if v == "<gone>" {
			delete(m, k)
		}
	}
	return m
}

func g10(r *report.Run) {
	cfgs := treeCfgs()
	clean := make([]map[string]string, len(cfgs))
	var failed atomic.Bool
	each(len(cfgs), func(i int) {
		s := &step{Start: treeSrc, Cfg: cfgs[i]}
		s.run()
		clean[i] = s.got
		r.Transition(1)
		if s.out.String() != "" {
			failed.Store(true)
			r.Violate(fmt.Sprintf("clean/%d", i), "the tree cannot be generated: "+tail(s.out.String()), s.out)
		}
	})
	if failed.Load() {
		return
	}
	// what is there before
	stale := func(c codegen.Config) map[string]string {
		return map[string]string{"d/" + outName(c): header + "package d\n\nvar Stale = 1\n"}
	}
	priors := func(cfg int) map[string]map[string]string {
		c, other := cfgs[cfg], (cfg+1)%len(cfgs)
		d, o := dbOf(c)
		d2, _ := dbOf(cfgs[other])
		mixed := with(treeSrc, stale(c))
		mixed["a/"+outName(c)] = clean[cfg]["a/"+outName(c)]
		mixed["b/"+outName(c)] = clean[other]["b/"+outName(cfgs[other])]
		mixed["c/"+outName(c)] = "package c\n\n// by hand\n"
		mixed[d] = clean[other][d2]
		mixed[filepath.Dir(o)+"/hand.go"] = "package " + filepath.Base(filepath.Dir(o)) + "\n"
		return map[string]map[string]string{"nothing": treeSrc, "own output": with(clean[cfg], stale(c)), "mixed": mixed}
	}
	type job struct {
		key, desc string
		start     map[string]string
		cfg       codegen.Config
		fixed     func() *step
		fault     int
		good      codegen.Config
		want      map[string]string
	}
	var jobs []*job
	for cfg := range cfgs {
		all := priors(cfg)
		for i, c := range causes(cfgs[cfg]) {
			for _, prior := range keys(all) {
				if !r.Thorough() && prior != "mixed" && (cfg != i%len(cfgs) || i%2 == 0 != (prior == "nothing")) {
					continue
				}
				if !r.Thorough() && prior == "mixed" && cfg != (i+1)%len(cfgs) && (cfg != 0 || i%3 != 0) {
					continue
				}
				if c.kind == "getter" && cfg == 1 || c.kind == "method signature" && cfg == 2 {
					continue // another prefix, not strict: nothing is wrong
				}
				start := put(all[prior], c.files)
				bad := cfgs[cfg]
				if c.cfg != nil {
					c.cfg(&bad)
				}
				key := fmt.Sprintf("config %d/%s %s/%s", cfg, c.kind, c.at, prior)
				jobs = append(jobs, &job{key: key, desc: key, start: start, cfg: bad, good: cfgs[cfg], want: after(all[prior], clean[cfg], cfgs[cfg], "abcd"),
					fixed: func() *step { return &step{Start: all[prior], Cfg: cfgs[cfg]} }})
			}
		}
	}
	each(len(jobs), func(i int) {
		j := jobs[i]
		s := &step{Start: j.start, Cfg: j.cfg}
		s.run()
		r.State(j.key)
		r.Transition(1)
		r.Trace(1)
		r.Eval(1)
		replay := map[string]any{"case": j.desc, "start": j.start, "config": j.cfg, "outcome": s.out}
		switch {
		case s.out.Panic != "":
			r.Violate(j.key+"/panic", j.desc+": the generator panics: "+tail(s.out.Panic), replay)
		case s.out.Err == "":
			r.Violate(j.key+"/succeeds", j.desc+": no error is returned", replay)
			return
		}
		if d := diff(j.start, s.got); d != "" {
			r.Violate(j.key+"/files", j.desc+": generation fails, but "+d, replay)
			return
		}
		if !r.Thorough() && i%3 != 0 {
			return
		}
		f := j.fixed()
		f.run()
		r.Transition(1)
		if f.out.String() != "" {
			r.Violate(j.key+"/fixed", j.desc+": fixing the cause does not help: "+tail(f.out.String()), replay)
		} else if d := diff(j.want, f.got); d != "" {
			r.Violate(j.key+"/fixed", j.desc+": the output after fixing the cause is not that of a clean run: "+d+"\n"+firstDiff(j.want, f.got), replay)
		}
	})

	// every change of the file system fails once
	w, places := orderly()
	r.Extra("instrumented_places", places)
	if places == 0 {
		return
	}
	var mu sync.Mutex
	total := 0
	var faults []*step
	for cfg := range cfgs {
		all := priors(cfg)
		for _, prior := range keys(all) {
			if !r.Thorough() && (cfg == 2 || cfg == 1 && prior != "mixed") {
				continue
			}
			for _, src := range [][]string{{"./a", "./d", "./c"}, {"./d", "./c"}} {
				if len(src) == 2 && prior != "nothing" && !r.Thorough() {
					continue
				}
				pkgs := strings.ReplaceAll(strings.Join(src, ""), "./", "")
				mk := func(fault int) *step {
					c := cfgs[cfg]
					c.Source = src
					return &step{Desc: fmt.Sprintf("config %d/%s/%s/fault %d", cfg, prior, pkgs, fault), Start: all[prior], Cfg: c, Fault: fault, workers: w,
						Want: after(all[prior], clean[cfg], cfgs[cfg], pkgs)}
				}
				s := mk(0)
				s.run()
				mu.Lock()
				total += s.out.Changes
				for n := 1; n <= s.out.Changes; n++ {
					faults = append(faults, mk(n))
				}
				mu.Unlock()
				if d := diff(s.Want, s.got); s.out.String() != "" || d != "" {
					r.Violate(s.Desc, s.Desc+": "+s.out.String()+d, s.out)
				}
			}
		}
	}
	r.Extra("file_system_faults", total)
	each(len(faults), func(i int) {
		s := faults[i]
		s.run()
		r.State(s.Desc)
		r.Transition(1)
		r.Trace(1)
		r.Eval(1)
		replay := map[string]any{"case": s.Desc, "start": s.Start, "config": s.Cfg, "outcome": s.out}
		switch {
		case s.out.Panic != "":
			r.Violate(s.Desc+"/panic", s.Desc+": the generator panics: "+tail(s.out.Panic), replay)
		case s.out.Err != "":
			if d := diff(s.Start, s.got); d != "" {
				r.Violate(s.Desc+"/files", s.Desc+": generation fails, but "+d, replay)
			}
		default:
			if d := diff(s.Want, s.got); d != "" {
				r.Violate(s.Desc+"/silent", s.Desc+": no error is returned, but "+d, replay)
			}
		}
	})
}
