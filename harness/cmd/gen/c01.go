package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"log/slog"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/si3nloong/sqlgen/cmd/sqlgen/codegen"

	"vh/report"
)

// setting is one option of the configuration file: values as they are written,
// and what they mean. The last value, if spare, is only used alone.
type setting struct {
	path   string
	vals   []string
	set    func(c *codegen.Config, i int)
	str    bool // written as a string
	effect bool // another value than the default changes what is generated
}

func strs(path string, effect bool, f func(c *codegen.Config) *string, vals ...string) setting {
	return setting{path, vals, func(c *codegen.Config, i int) { *f(c) = vals[i] }, true, effect}
}

func flag(path string, f func(c *codegen.Config) *bool, effect bool) setting {
	return setting{path, []string{"true", "false"}, func(c *codegen.Config, i int) { *f(c) = i == 0 }, false, effect}
}

func mig(c *codegen.Config) *codegen.MigrationConfig {
	if c.Migration == nil {
		c.Migration = new(codegen.MigrationConfig)
	}
	return c.Migration
}

// options are those of the documentation and of the file written by init.
func options() []setting {
	type C = codegen.Config
	sources := [][]string{{"./a"}, {"./b/*.go", "b/b.go"}, {"./**/*"}}
	kinds := []map[string]*codegen.DataType{
		{"bool": {DataType: "FLAG", SQLValuer: ptr("IF({{.}}, 1, 0)"), SQLScanner: ptr("NOT({{.}})")}},
		{"bool": {DataType: "BIT(1)"}, "time.Time": {DataType: "X", Scanner: "a.B({{goPath}})", Valuer: "(string)({{goPath}})"}},
	}
	return []setting{
		{"src", []string{"[./a]", "\n  - ./b/*.go\n  - b/b.go", `["./**/*"]`}, func(c *C, i int) { c.Source = sources[i] }, false, true},
		{"driver", []string{"postgres", "sqlite", "mysql"}, func(c *C, i int) {
			c.Driver = []codegen.SqlDriver{codegen.Postgres, codegen.Sqlite, codegen.MySQL}[i]
		}, true, true},
		{"naming_convention", []string{"camelCase", "PascalCase", "snake_case"}, func(c *C, i int) {
			switch i {
			case 0:
				c.NamingConvention = codegen.CamelCase
			case 1:
				c.NamingConvention = codegen.PascalCase
			default:
				c.NamingConvention = codegen.SnakeCase
			}
		}, true, true},
		strs("struct_tag", true, func(c *C) *string { return &c.Tag }, "db", "json", "sql"),
		flag("quote_identifier", func(c *C) *bool { return &c.QuoteIdentifier }, true),
		flag("read_only", func(c *C) *bool { return &c.ReadOnly }, false),
		{"strict", []string{"false", "true"}, func(c *C, i int) { b := i == 1; c.Strict = &b }, false, false},
		flag("exec.skip_empty", func(c *C) *bool { return &c.Exec.SkipEmpty }, false),
		strs("exec.filename", true, func(c *C) *string { return &c.Exec.Filename }, "models.go", "the sql.gen.go", "generated.go"),
		strs("getter.prefix", true, func(c *C) *string { return &c.Getter.Prefix }, "Get", "ÄF_1", "Column"),
		strs("migration.dsn", false, func(c *C) *string { return &mig(c).DSN }, "root:pw@tcp(127.0.0.1:3306)/x?a=b#c", "x y"),
		strs("migration.package", false, func(c *C) *string { return &mig(c).Package }, "mig", "migrate"),
		strs("migration.dir", false, func(c *C) *string { return &mig(c).Dir }, "../mig", "migrate"),
		strs("migration.filename", false, func(c *C) *string { return &mig(c).Filename }, "mig.go", "migrate.go"),
		strs("database.package", true, func(c *C) *string { return &c.Database.Package }, "store", "sqlutil", "db"),
		strs("database.dir", true, func(c *C) *string { return &c.Database.Dir }, "out/deep/store", "my db", "db"),
		strs("database.filename", true, func(c *C) *string { return &c.Database.Filename }, "store.go", "x_y.go", "db.go"),
		strs("database.operator.package", false, func(c *C) *string { return &c.Database.Operator.Package }, "ops", "opq"),
		strs("database.operator.dir", true, func(c *C) *string { return &c.Database.Operator.Dir }, "ops", "./out/ops"),
		strs("database.operator.filename", true, func(c *C) *string { return &c.Database.Operator.Filename }, "ops.go", "o.p.go", "operator.go"),
		flag("omit_getters", func(c *C) *bool { return &c.OmitGetters }, false),
		flag("source_map", func(c *C) *bool { return &c.SourceMap }, false),
		flag("skip_header", func(c *C) *bool { return &c.SkipHeader }, false),
		flag("skip_mod_tidy", func(c *C) *bool { return &c.SkipModTidy }, false),
		{"data_types", []string{
			"\n  bool:\n    data_type: FLAG\n    sql_value: \"IF({{.}}, 1, 0)\"\n    sql_scan: NOT({{.}})",
			"\n  time.Time:\n    data_type: X\n    scan: \"a.B({{goPath}})\"\n    value: (string)({{goPath}})\n  \"bool\": {data_type: BIT(1)}",
		}, func(c *C, i int) { c.DataTypes = kinds[i] }, false, true},
	}
}

// choice picks a value (from 1) for every option; 0 leaves it out, -1 writes it without a value.
type choice []int

// yaml writes the file of a choice. The style is a number of independent decisions.
func (ch choice) yaml(opts []setting, style int) string {
	quote := func(o setting, v string) string {
		if !o.str {
			return v
		}
		switch style & 3 {
		case 1:
			return `"` + v + `"`
		case 2:
			return `'` + v + `'`
		}
		if strings.ContainsAny(v, "#:?") {
			return `"` + v + `"`
		}
		return v
	}
	type section struct {
		name  string
		lines []string
		subs  []*section
	}
	root := &section{}
	find := func(parts []string) *section {
		s := root
	next:
		for _, p := range parts {
			for _, x := range s.subs {
				if x.name == p {
					s = x
					continue next
				}
			}
			s.subs = append(s.subs, &section{name: p})
			s = s.subs[len(s.subs)-1]
		}
		return s
	}
	for i := range opts {
		if style&4 != 0 {
			i = len(opts) - 1 - i
		}
		if ch[i] == 0 {
			continue
		}
		parts := strings.Split(opts[i].path, ".")
		s := find(parts[:len(parts)-1])
		v := ""
		if ch[i] > 0 {
			v = opts[i].vals[ch[i]-1]
			if strings.HasPrefix(v, "\n") {
				v = strings.ReplaceAll(v, "\n", "\n"+strings.Repeat("  ", len(parts)-1))
			} else {
				v = " " + quote(opts[i], v)
			}
		}
		if style&8 != 0 && !strings.HasPrefix(v, "\n") {
			v += " # what it is"
		}
		s.lines = append(s.lines, parts[len(parts)-1]+":"+v)
	}
	var b strings.Builder
	if style&8 != 0 {
		b.WriteString("# the configuration\n---\n")
	}
	var put func(s *section, indent string)
	put = func(s *section, indent string) {
		for _, l := range s.lines {
			b.WriteString(indent + l + "\n")
			if style&8 != 0 {
				b.WriteString("\n" + indent + "# next\n")
			}
		}
		for _, x := range s.subs {
			b.WriteString(indent + x.name + ":\n")
			put(x, indent+"  ")
		}
	}
	put(root, "")
	return b.String()
}

// config is what a choice means: defaults for whatever is left out.
func (ch choice) config(opts []setting) codegen.Config {
	return ch.over(opts, raw())
}

func raw() codegen.Config {
	return codegen.Config{Database: &codegen.DatabaseConfig{Operator: &codegen.DatabaseOperatorConfig{}}}
}

func (ch choice) over(opts []setting, c codegen.Config) codegen.Config {
	for i, v := range ch {
		if v > 0 {
			opts[i].set(&c, v-1)
		} else if v < 0 && strings.HasPrefix(opts[i].path, "migration.") {
			mig(&c) // the section is there
		}
	}
	return defaults(c)
}

// defaults fills in the documented defaults.
func defaults(c codegen.Config) codegen.Config {
	def := func(s *string, v string) {
		if *s == "" {
			*s = v
		}
	}
	if c.Source == nil {
		c.Source = []string{"./**/*"}
	}
	if c.Driver == "" {
		c.Driver = "mysql"
	}
	if c.NamingConvention == "" {
		c.NamingConvention = "snake_case"
	}
	def(&c.Tag, "sql")
	if c.Strict == nil {
		c.Strict = ptr(true)
	}
	def(&c.Getter.Prefix, "Column")
	def(&c.Exec.Filename, "generated.go")
	def(&c.Database.Package, "db")
	def(&c.Database.Dir, "db")
	def(&c.Database.Filename, "db.go")
	def(&c.Database.Operator.Package, c.Database.Package)
	def(&c.Database.Operator.Dir, c.Database.Dir)
	def(&c.Database.Operator.Filename, "operator.go")
	if c.Migration != nil {
		def(&c.Migration.Package, "migrate")
		def(&c.Migration.Dir, "migrate")
		def(&c.Migration.Filename, "migrate.go")
	}
	if c.DataTypes == nil {
		c.DataTypes = map[string]*codegen.DataType{}
	}
	return c
}

func text(c codegen.Config) string {
	if len(c.DataTypes) == 0 {
		c.DataTypes = nil
	}
	b, err := json.Marshal(c)
	must(err)
	return string(b)
}

func (ch choice) String(opts []setting) string {
	var l []string
	for i, v := range ch {
		switch {
		case v < 0:
			l = append(l, opts[i].path+"=")
		case v > 0:
			l = append(l, opts[i].path+"="+strings.Join(strings.Fields(opts[i].vals[v-1]), " "))
		}
	}
	if l == nil {
		return "nothing"
	}
	return strings.Join(l, ", ")
}

var confDir string

func c01(r *report.Run) {
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	confDir = filepath.Join(os.Getenv("VH_WORK"), "conf")
	must(os.MkdirAll(confDir, 0o755))
	c01Files(r)
	c01Merge(r)
	c01Found(r)
	c01Command(r)
	c01Init(r)
}

// load is LoadConfigFrom, with panics as errors of their own.
func load(f func() (*codegen.Config, error)) (c *codegen.Config, err error, panicked any) {
	defer func() { panicked = recover() }()
	c, err = f()
	return
}

var confFile atomic.Int64

// c01Files decides that what is in a file is used as written and that all else is the default.
func c01Files(r *report.Run) {
	opts := options()
	type test struct {
		ch    choice
		style int
	}
	var tests []test
	blank := func() choice { return make(choice, len(opts)) }
	for style := 0; style < 16; style++ {
		if style&3 == 3 {
			continue
		}
		for i := range opts {
			for v := -1; v <= len(opts[i].vals); v++ {
				ch := blank()
				ch[i] = v
				tests = append(tests, test{ch, style})
			}
		}
		// all but one, for every value of it
		for i := range opts {
			for v := -1; v <= len(opts[i].vals); v++ {
				for base := 0; base < 2; base++ {
					ch := blank()
					for j := range ch {
						ch[j] = base + 1
					}
					ch[i] = v
					tests = append(tests, test{ch, style})
				}
			}
		}
		if style != 0 && style != 4 && !r.Thorough() {
			continue
		}
		for i := range opts {
			for j := 0; j < i; j++ {
				for v := -1; v <= len(opts[i].vals); v++ {
					for w := -1; w <= len(opts[j].vals); w++ {
						ch := blank()
						ch[i], ch[j] = v, w
						tests = append(tests, test{ch, style})
					}
				}
			}
		}
	}
	// every subset of the options
	n := len(opts)
	limit := r.Pick(3, n)
	for m := 0; m < 1<<n; m++ {
		k := 0
		for x := m; x != 0; x &= x - 1 {
			k++
		}
		if k > limit && n-k > limit-1 {
			continue
		}
		if r.Thorough() && m%16 != 0 && k > 5 && n-k > 5 {
			continue
		}
		ch := blank()
		for i := range ch {
			if m>>i&1 == 1 {
				ch[i] = 1
			}
		}
		tests = append(tests, test{ch, 0})
	}
	report.Parallel(len(tests), func(i int) {
		t := tests[i]
		src := t.ch.yaml(opts, t.style)
		path := filepath.Join(confDir, fmt.Sprintf("f%d.yml", confFile.Add(1)))
		must(os.WriteFile(path, []byte(src), 0o644))
		defer os.Remove(path)
		want := text(t.ch.config(opts))
		r.States(map[uint64]struct{}{report.Hash(src): {}})
		r.Transition(1)
		r.Eval(1)
		got, err, p := load(func() (*codegen.Config, error) { return codegen.LoadConfigFrom(path) })
		key := fmt.Sprintf("file/%s/style %d", t.ch.String(opts), t.style)
		if len(key) > 150 {
			key = fmt.Sprintf("%.150s %x", key, report.Hash(key))
		}
		replay := map[string]any{"file": src, "want": want}
		switch {
		case p != nil:
			r.Violate(key+"/panic", fmt.Sprintf("loading panics: %v", p), replay)
		case err != nil:
			r.Violate(key+"/error", fmt.Sprintf("a valid file is refused: %v", err), replay)
		case text(*got) != want:
			replay["got"] = text(*got)
			r.Violate(key, "the file does not mean what it says: "+differ(want, text(*got)), replay)
		}
	})
	r.Trace(len(tests))

	// nothing in the file
	for _, src := range []string{"", "\n", "# only a comment\n", "---\n", "{}", "exec:\n", "exec: {}\ndatabase: {}\n", "database:\n  operator:\n", "getter: {}\ndata_types:\n", "exec: {filename: \"\"}\ngetter: {prefix: ''}\n", "driver: \"\"\nstruct_tag: ''\n"} {
		path := filepath.Join(confDir, "empty.yml")
		must(os.WriteFile(path, []byte(src), 0o644))
		got, err, p := load(func() (*codegen.Config, error) { return codegen.LoadConfigFrom(path) })
		r.Eval(1)
		r.State("empty " + src)
		if p != nil || err != nil || text(*got) != text(defaults(raw())) {
			r.Violate("file/empty/"+src, fmt.Sprintf("the file %q does not mean the defaults: %v %v", src, err, p), map[string]any{"file": src})
		}
	}

	// what is not a configuration
	for _, src := range brokenFiles {
		path := filepath.Join(confDir, "broken.yml")
		must(os.WriteFile(path, []byte(src), 0o644))
		_, err, p := load(func() (*codegen.Config, error) { return codegen.LoadConfigFrom(path) })
		r.Eval(1)
		r.State("broken " + src)
		if p != nil || err == nil {
			r.Violate("file/broken/"+src, fmt.Sprintf("the file %q is not refused with an error (panic %v)", src, p), map[string]any{"file": src})
		}
	}
	for _, path := range []string{"missing.yml", ".", "missing/x.yml"} {
		_, err, p := load(func() (*codegen.Config, error) { return codegen.LoadConfigFrom(filepath.Join(confDir, path)) })
		r.Eval(1)
		r.State("path " + path)
		if p != nil || err == nil {
			r.Violate("file/path/"+path, fmt.Sprintf("loading %s is not an error (panic %v)", path, p), nil)
		}
	}
}

// brokenFiles are no YAML, or have a value of another kind than the option.
var brokenFiles = []string{
	"src: [", "driver: 'x", "driver: \"x", "{driver: mysql", "a: b: c", "driver: mysql\n  x: y\n", "- src\n", "just words", "driver: [mysql]", "driver: {a: b}",
	"src: {a: b}", "quote_identifier: maybe", "quote_identifier: [true]", "strict: {}", "strict: nope", "read_only: \"\"x", "exec: 5", "exec: [filename]", "exec: {skip_empty: perhaps}",
	"exec: {filename: [a, b]}", "getter: prefix", "getter: {prefix: {a: b}}", "database: db", "database: {operator: op}", "database: [a]", "migration: x", "data_types: [a]",
	"data_types: {bool: 5}", "data_types: {bool: {data_type: [x]}}", "driver: mysql\ndriver: sqlite\n", "skip_mod_tidy: 7x", "naming_convention: [a]", "struct_tag: {a: 1}",
}

// differ names the first options that differ.
func differ(want, got string) string {
	var a, b map[string]any
	json.Unmarshal([]byte(want), &a)
	json.Unmarshal([]byte(got), &b)
	for _, k := range keys(a) {
		x, _ := json.Marshal(a[k])
		y, _ := json.Marshal(b[k])
		if !bytes.Equal(x, y) {
			return fmt.Sprintf("%s is %s, not %s", k, y, x)
		}
	}
	return "unexpected options"
}

// c01Merge decides that what is set by the caller wins over the file, and nothing else changes.
func c01Merge(r *report.Run) {
	opts := options()
	// What can be said by the caller: the last false of a flag cannot.
	var said []choice
	groups := map[string][]int{}
	for i, o := range opts {
		if name, _, ok := strings.Cut(o.path, "."); ok && (name == "database" || name == "migration") {
			groups[name] = append(groups[name], i)
			continue
		}
		for v := range o.vals {
			if o.vals[v] == "false" && o.path != "strict" {
				continue
			}
			ch := make(choice, len(opts))
			ch[i] = v + 1
			said = append(said, ch)
		}
	}
	for _, g := range keys(groups) {
		for v := 1; v <= 2; v++ {
			ch := make(choice, len(opts))
			for _, i := range groups[g] {
				ch[i] = v
			}
			said = append(said, ch)
		}
	}
	single := len(said)
	for i := 0; i < single; i++ {
		for j := 0; j < i; j++ {
			ch := append(choice{}, said[i]...)
			for k, v := range said[j] {
				if v != 0 {
					ch[k] = v
				}
			}
			said = append(said, ch)
		}
	}
	said = append(said, make(choice, len(opts)))
	merged := func(base, over choice) choice {
		ch := append(choice{}, base...)
		for i, v := range over {
			if v != 0 {
				ch[i] = v
			}
		}
		return ch
	}
	build := func(ch choice) *codegen.Config {
		c := raw()
		for i, v := range ch {
			if v > 0 {
				opts[i].set(&c, v-1)
			}
		}
		none := true
		for _, i := range groups["database"] {
			none = none && ch[i] == 0
		}
		if none {
			c.Database = nil
		}
		return &c
	}
	kindOf := -1
	for i, o := range opts {
		if o.path == "data_types" {
			kindOf = i
		}
	}
	bases := said
	if !r.Thorough() {
		bases = append(append([]choice{}, said[:single]...), make(choice, len(opts)))
		for v := 1; v <= 2; v++ {
			ch := make(choice, len(opts))
			for i := range ch {
				ch[i] = v
			}
			bases = append(bases, ch)
		}
	}
	report.Parallel(len(bases), func(b int) {
		states := map[uint64]struct{}{}
		for _, over := range said {
			wantCfg := merged(bases[b], over).config(opts)
			if over[kindOf] != 0 && bases[b][kindOf] != 0 {
				// types of both
				types := map[string]*codegen.DataType{}
				for _, ch := range []choice{bases[b], over} {
					for k, v := range ch.config(opts).DataTypes {
						types[k] = v
					}
				}
				wantCfg.DataTypes = types
			}
			want := text(wantCfg)
			states[report.Hash(fmt.Sprint(bases[b], over))] = struct{}{}
			r.Transition(1)
			r.Eval(1)
			base := bases[b].config(opts)
			// the data types of the base are changed by merging
			types := map[string]*codegen.DataType{}
			for k, v := range base.DataTypes {
				types[k] = v
			}
			base.DataTypes = types
			o := build(over)
			before := text(*o)
			got, _, p := load(func() (*codegen.Config, error) { return base.Merge(o), nil })
			key := "merge/" + bases[b].String(opts) + "/" + over.String(opts)
			if len(key) > 150 {
				key = fmt.Sprintf("%.150s %x", key, report.Hash(key))
			}
			replay := map[string]any{"base": bases[b].String(opts), "over": over.String(opts), "want": want}
			switch {
			case p != nil:
				r.Violate(key+"/panic", fmt.Sprintf("merging panics: %v", p), replay)
			case text(*got) != want:
				r.Violate(key, "merging "+over.String(opts)+" into "+bases[b].String(opts)+": "+differ(want, text(*got)), replay)
			case text(*o) != before:
				r.Violate(key+"/changed", "merging changes the configuration of the caller: "+differ(before, text(*o)), replay)
			}
		}
		r.States(states)
	})
}

var configNames = []string{"sqlgen.yml", ".sqlgen.yml", ".sqlgen.yaml", "sqlgen.yaml"}

// c01Found decides which file is used, for every subset of files that could be.
func c01Found(r *report.Run) {
	wd, err := os.Getwd()
	must(err)
	defer os.Chdir(wd)
	near := []string{"sqlgen.json", "config.yml", "sqlgen", ".sqlgen", "sqlgen.yml.bak", "SQLGEN.YML", "conf/sqlgen.yml", "../sqlgen.yml", "../.sqlgen.yaml"}
	// 0 absent, 1 present, 2 empty, 3 broken
	for n := 0; n < 256; n++ {
		for others := 0; others < 2; others++ {
			dir := filepath.Join(confDir, fmt.Sprintf("found%d-%d", n, others), "cwd")
			must(os.MkdirAll(dir, 0o755))
			want, wantErr, desc := defaults(raw()), false, []string{}
			first := true
			for i, name := range configNames {
				kind := n >> (2 * i) & 3
				if kind == 0 {
					continue
				}
				src := ""
				switch kind {
				case 1:
					src = fmt.Sprintf("exec:\n  filename: f%d.go\n%s", i, []string{"struct_tag: s0\n", "driver: sqlite\n", "getter:\n  prefix: P2\n", "database:\n  dir: d3\n"}[i])
				case 3:
					src = "src: [\n"
				}
				write(filepath.Join(dir, name), src)
				desc = append(desc, name+[]string{"", "", " (empty)", " (broken)"}[kind])
				if first {
					first = false
					switch kind {
					case 1:
						want.Exec.Filename = fmt.Sprintf("f%d.go", i)
						switch i {
						case 0:
							want.Tag = "s0"
						case 1:
							want.Driver = "sqlite"
						case 2:
							want.Getter.Prefix = "P2"
						case 3:
							want.Database.Dir, want.Database.Operator.Dir = "d3", "d3"
						}
					case 3:
						wantErr = true
					}
				}
			}
			if others == 1 {
				for _, f := range near {
					write(filepath.Join(dir, f), "struct_tag: wrong\ndriver: postgres\n")
				}
			}
			must(os.Chdir(dir))
			got, err, p := load(codegen.LoadConfig)
			must(os.Chdir(wd))
			r.Eval(1)
			r.Transition(1)
			r.Trace(1)
			key := fmt.Sprintf("found/%s/%d", strings.Join(desc, "+"), others)
			r.State(key)
			replay := map[string]any{"files": desc, "others": near[:others*len(near)]}
			switch {
			case p != nil:
				r.Violate(key+"/panic", fmt.Sprintf("LoadConfig panics: %v", p), replay)
			case wantErr && err == nil:
				r.Violate(key+"/error", "the malformed file "+desc[0]+" is not reported", replay)
			case !wantErr && err != nil:
				r.Violate(key+"/error", "an error: "+err.Error(), replay)
			case err == nil && text(*got) != text(want):
				r.Violate(key, "with "+strings.Join(desc, ", ")+": "+differ(text(want), text(*got)), replay)
			}
			must(os.RemoveAll(filepath.Dir(dir)))
		}
	}

	// what init writes means the configuration it was given
	opts := options()
	var chs []choice
	for i := range opts {
		for v := 0; v <= len(opts[i].vals); v++ {
			ch := make(choice, len(opts))
			ch[i] = v
			chs = append(chs, ch)
			for j := 0; j < i; j++ {
				for w := 1; w <= len(opts[j].vals); w++ {
					c := append(choice{}, ch...)
					c[j] = w
					chs = append(chs, c)
				}
			}
		}
	}
	for v := 1; v <= 2; v++ {
		ch := make(choice, len(opts))
		for i := range ch {
			ch[i] = v
		}
		chs = append(chs, ch)
	}
	dir := filepath.Join(confDir, "init")
	must(os.MkdirAll(dir, 0o755))
	must(os.Chdir(dir))
	for n, ch := range chs {
		c := ch.config(opts)
		want := text(c)
		os.Remove("sqlgen.yml")
		if n%3 == 1 {
			must(os.WriteFile("sqlgen.yml", bytes.Repeat([]byte("src: [x]\n#long\n"), 500), 0o644))
		}
		_, err, p := load(func() (*codegen.Config, error) { return nil, codegen.Init(&c) })
		key := "init/" + ch.String(opts)
		if len(key) > 150 {
			key = fmt.Sprintf("%.150s %x", key, report.Hash(key))
		}
		r.Eval(1)
		r.State(key)
		b, _ := os.ReadFile("sqlgen.yml")
		replay := map[string]any{"config": want, "file": string(b)}
		if p != nil || err != nil {
			r.Violate(key+"/error", fmt.Sprintf("Init: %v %v", err, p), replay)
			continue
		}
		got, err, p := load(codegen.LoadConfig)
		switch {
		case p != nil || err != nil:
			r.Violate(key+"/load", fmt.Sprintf("the file Init has written is refused: %v %v", err, p), replay)
		case text(*got) != want:
			r.Violate(key, "the file Init has written means something else: "+differ(want, text(*got)), replay)
		}
	}
	must(os.Chdir(wd))
}

// confTree are the models of the command checks.
var confTree = map[string]string{
	"a/a.go": "package a\n\ntype UserAccount struct {\n\tUserID int64 `sql:\",pk\" db:\"key,pk\"`\n\tFullName string `sql:\"nick\" db:\"alias\" json:\"jname\"`\n\tIsOK bool\n}\n",
	"b/b.go": "package b\n\ntype Item struct {\n\tID int64 `sql:\",pk\"`\n\tOn bool\n}\n",
}

// confWrong has a method that is an error only in strict mode.
var confWrong = map[string]string{
	"a/a.go": confTree["a/a.go"],
	"w/w.go": "package w\n\ntype Wrong struct {\n\tID int64 `sql:\",pk\"`\n}\n\nfunc (Wrong) TableName() int { return 1 }\n",
}

var (
	refs   sync.Map // of *ref
	dirSeq atomic.Int64
)

type ref struct {
	once sync.Once
	out  outcome
	tree map[string]string
}

// reference is what the generator writes for a configuration given in full.
func reference(src map[string]string, c codegen.Config) (outcome, map[string]string) {
	c = defaults(c)
	c.SkipModTidy = true
	v, _ := refs.LoadOrStore(text(c)+src["w/w.go"], new(ref))
	f := v.(*ref)
	f.once.Do(func() {
		dir := freshDir(src)
		f.out = generate(job{Dir: dir, Cfg: c})
		f.tree = tree(dir)
		must(os.RemoveAll(filepath.Dir(dir)))
	})
	return f.out, f.tree
}

func freshDir(src map[string]string) string {
	dir := filepath.Join(vh(), "gen", "c01", fmt.Sprint("d", dirSeq.Add(1)), "cwd")
	for f, s := range src {
		write(filepath.Join(dir, f), s)
	}
	return dir
}

// call is one run of the sqlgen command.
type call struct {
	key   string
	src   map[string]string // models
	files map[string]string // configuration files
	args  []string
	want  codegen.Config // what it has to use
	fails bool           // it has to refuse
	stdin string

	code int
	out  string
	tidy string
	tree map[string]string
}

func (c *call) run() {
	dir := freshDir(c.src)
	for f, s := range c.files {
		write(filepath.Join(dir, f), s)
	}
	log := filepath.Join(filepath.Dir(dir), "tidy.log")
	cmd := exec.Command(filepath.Join(os.Getenv("VH_WORK"), "sqlgen"), c.args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "PWD="+dir, "VH_TIDY="+log, "GOMAXPROCS=2", "GOGC=400", "PATH="+filepath.Join(os.Getenv("VH_WORK"), "tidybin")+":"+os.Getenv("PATH"))
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	cmd.Run()
	c.code = cmd.ProcessState.ExitCode()
	c.out = b.String()
	l, _ := os.ReadFile(log)
	c.tidy = string(l)
	c.tree = tree(dir)
	for f := range c.files {
		if s, ok := c.tree[filepath.Clean(f)]; ok && s == c.files[f] {
			delete(c.tree, filepath.Clean(f))
		}
	}
	must(os.RemoveAll(filepath.Dir(dir)))
}

func sameTree(a, b map[string]string) string {
	for _, k := range keys(a) {
		if s, ok := b[k]; !ok {
			return k + " is missing"
		} else if s != a[k] {
			return k + " differs"
		}
	}
	for _, k := range keys(b) {
		if _, ok := a[k]; !ok {
			return k + " is not expected"
		}
	}
	return ""
}

func buildCommand() {
	work := os.Getenv("VH_WORK")
	cmd := exec.Command("go", "build", "-o", filepath.Join(work, "sqlgen"), ".")
	cmd.Dir = filepath.Join(os.Getenv("VH_REPO"), "cmd", "sqlgen")
	cmd.Env = append(os.Environ(), "GOWORK="+filepath.Join(work, "go.work"))
	if out, err := cmd.CombinedOutput(); err != nil {
		must(fmt.Errorf("%s", out))
	}
	write(filepath.Join(work, "tidybin", "go"), "#!/bin/sh\nif [ \"$1 $2\" = \"mod tidy\" ]; then\n\techo \"$PWD: $(find . -name '*.go' | wc -l)\" >>\"$VH_TIDY\"\n\texit 0\nfi\nexec \""+filepath.Join(work, "bin", "go")+"\" \"$@\"\n")
	must(os.Chmod(filepath.Join(work, "tidybin", "go"), 0o755))
}

// c01Command runs the command itself.
func c01Command(r *report.Run) {
	buildCommand()
	opts := options()
	var calls []*call
	add := func(c call) {
		if c.src == nil {
			c.src = confTree
		}
		calls = append(calls, &c)
	}
	blank := func() choice { return make(choice, len(opts)) }
	// every option alone and in pairs (thorough), and all of them
	one := func(ch choice, src map[string]string) {
		add(call{key: "option/" + ch.String(opts), src: src, files: map[string]string{"sqlgen.yml": ch.yaml(opts, 0)}, want: ch.config(opts)})
	}
	one(blank(), nil)
	for i, o := range opts {
		for v := 1; v <= len(o.vals); v++ {
			if o.path == "data_types" && v == 2 {
				continue // not for these models
			}
			ch := blank()
			ch[i] = v
			one(ch, nil)
			if o.path == "strict" {
				add(call{key: "option/wrong models/" + ch.String(opts), src: confWrong, files: map[string]string{"sqlgen.yml": ch.yaml(opts, 0)}, want: ch.config(opts), fails: v == 2})
			}
			for j := 0; r.Thorough() && j < i; j++ {
				c := append(choice{}, ch...)
				c[j] = 1
				one(c, nil)
			}
		}
	}
	all := blank()
	for i := range all {
		all[i] = 1
	}
	one(all, nil)
	add(call{key: "option/wrong models/nothing", src: confWrong, files: map[string]string{"sqlgen.yml": ""}, fails: true})
	add(call{key: "no file", want: raw()})

	// which file, which source
	for n := 0; n < 16; n++ {
		files, want := map[string]string{}, raw()
		for i := 3; i >= 0; i-- {
			if n>>i&1 == 1 {
				files[configNames[i]] = fmt.Sprintf("src: [./b]\nexec:\n  filename: f%d.go\ndatabase:\n  dir: d%d\n", i, i)
				want = raw()
				want.Source = []string{"./b"}
				want.Exec.Filename = fmt.Sprintf("f%d.go", i)
				want.Database.Dir = fmt.Sprintf("d%d", i)
			}
		}
		if n&3 == 2 {
			files["../sqlgen.yml"] = "driver: postgres\nexec: {filename: parent.go}\n"
		}
		name := strings.Join(keys(files), "+")
		add(call{key: "found/" + name, files: files, want: want})
		gen := want
		gen.Source = []string{"./a"}
		add(call{key: "found/" + name + "/generate", files: files, args: []string{"generate", "./a"}, want: gen})
		named := map[string]string{"conf/other.yml": "src: [./a]\nexec:\n  filename: named.go\n"}
		for k, v := range files {
			named[k] = v
		}
		for _, args := range [][]string{{"-c", "conf/other.yml"}, {"--config=conf/other.yml"}} {
			c := raw()
			c.Source, c.Exec.Filename = []string{"./a"}, "named.go"
			add(call{key: "found/" + name + "/named " + args[0], files: named, args: args, want: c})
		}
		if n == 15 {
			for i, f := range configNames {
				c := raw()
				c.Source, c.Exec.Filename, c.Database.Dir = []string{"./b"}, fmt.Sprintf("f%d.go", i), fmt.Sprintf("d%d", i)
				add(call{key: "found/" + name + "/named " + f, files: files, args: []string{"-c", f}, want: c})
			}
		}
		// the named file is broken or absent
		add(call{key: "found/" + name + "/named missing", files: files, args: []string{"-c", "conf/missing.yml"}, fails: true})
		broken := map[string]string{"conf/other.yml": "src: [\n"}
		for k, v := range files {
			broken[k] = v
		}
		add(call{key: "found/" + name + "/named broken", files: broken, args: []string{"-c", "conf/other.yml"}, fails: true})
		if len(files) > 0 && files["../sqlgen.yml"] == "" {
			bad := map[string]string{}
			first := true
			for i, f := range configNames {
				if n>>i&1 == 1 {
					bad[f] = files[f]
					if first {
						bad[f] = "src: [\n"
					}
					first = false
				}
			}
			add(call{key: "found/" + name + "/first broken", files: bad, fails: true})
			add(call{key: "found/" + name + "/first broken/generate", files: bad, args: []string{"generate", "./a"}, fails: true})
		}
	}
	for _, src := range []string{"./a", "a", "./a/a.go", "./a/*.go", "b/*", "./**/*", "./missing", "./a/missing.go"} {
		for _, file := range []string{"", "src: [./b]\n", "src: [./b, ./a]\ndriver: sqlite\n", "exec: {filename: g.go}\n"} {
			c := raw()
			c.Source = []string{src}
			if strings.Contains(file, "sqlite") {
				c.Driver = codegen.Sqlite
			}
			if strings.Contains(file, "g.go") {
				c.Exec.Filename = "g.go"
			}
			add(call{key: "source/" + src + "/" + file, files: map[string]string{".sqlgen.yml": file}, args: []string{"generate", src}, want: c})
		}
	}
	add(call{key: "source/blank", args: []string{"generate", "  "}, fails: true})
	add(call{key: "arguments/none", args: []string{"generate"}, fails: true})
	add(call{key: "arguments/unknown flag", args: []string{"--frobnicate"}, fails: true})
	add(call{key: "arguments/unknown command", args: []string{"generated"}, fails: true})
	for _, args := range [][]string{{"-v"}, {"--verbose"}, {"generate", "./**/*", "-v"}, {"-v", "generate", "./**/*"}} {
		add(call{key: "verbose/" + strings.Join(args, " "), args: args, want: raw()})
	}

	// what is invalid
	for _, src := range brokenFiles {
		add(call{key: "invalid/" + src, files: map[string]string{"sqlgen.yml": src}, fails: true})
	}
	for _, src := range []string{
		"driver: oracle", "driver: mssql", "driver: MySQL", "driver: mysql2", "driver: sqlite3", "driver: postgresql", "naming_convention: kebab", "naming_convention: snakecase", "naming_convention: pascalCase",
		"src: [\"\"]", "src: [./a, \"  \"]", "getter: {prefix: \"1 x\"}", "getter: {prefix: a-b}", "database: {package: a-b}", "database: {operator: {package: \"x y\"}}", "database: {package: func}",
	} {
		for _, args := range [][]string{nil, {"-c", "sqlgen.yml"}, {"generate", "./a"}} {
			if len(args) == 2 && args[0] == "generate" && strings.HasPrefix(src, "src") {
				continue
			}
			add(call{key: "invalid/" + src + "/" + strings.Join(args, " "), files: map[string]string{"sqlgen.yml": src + "\n"}, args: args, fails: true})
		}
	}

	def, defTree := reference(confTree, raw())
	if def.String() != "" {
		r.Violate("defaults", "nothing is generated for the default configuration: "+def.String(), nil)
		return
	}
	each(len(calls), func(i int) {
		c := calls[i]
		c.run()
		r.State("command/" + c.key)
		r.Transition(1)
		r.Trace(1)
		r.Eval(1)
		replay := map[string]any{"files": c.files, "models": c.src, "args": c.args, "exit": c.code, "output": c.out}
		key := "command/" + c.key
		if strings.Contains(c.out, "goroutine ") {
			r.Violate(key+"/panic", "the command panics: "+tail(c.out), replay)
			return
		}
		if c.fails {
			if c.code == 0 {
				r.Violate(key+"/succeeds", "the command reports no error", replay)
			} else if d := sameTree(c.src, c.tree); d != "" {
				r.Violate(key+"/damage", "the command fails, and yet "+d, replay)
			} else if strings.TrimSpace(c.out) == "" {
				r.Violate(key+"/silent", "the command does not say what is wrong", replay)
			}
			return
		}
		out, want := reference(c.src, c.want)
		if out.String() != "" {
			r.Violate(key+"/refused", "the generator refuses the configuration: "+out.String(), replay)
			return
		}
		if c.code != 0 {
			r.Violate(key+"/error", fmt.Sprintf("the command fails: %s", tail(c.out)), replay)
			return
		}
		if d := sameTree(want, c.tree); d != "" {
			r.Violate(key, "the command does not generate what it was asked to: "+d, replay)
			return
		}
		// go mod tidy runs afterwards, unless it is to be skipped
		skip := strings.Contains(c.files["sqlgen.yml"], "skip_mod_tidy: true")
		if (strings.Count(c.tidy, "\n") == 1) == skip || strings.Count(c.tidy, "\n") > 1 {
			r.Violate(key+"/tidy", fmt.Sprintf("go mod tidy is not run as configured: %q", c.tidy), replay)
		} else if n := strings.TrimSpace(c.tidy); !skip && !strings.HasSuffix(n, fmt.Sprintf("/cwd: %d", len(c.tree))) {
			r.Violate(key+"/tidy", fmt.Sprintf("go mod tidy is not run after the files are written: %q", c.tidy), replay)
		}
		// an option changes what it is said to change
		if strings.HasPrefix(c.key, "option/") && len(c.args) == 0 && !strings.Contains(c.key, ",") {
			for _, o := range opts {
				if o.effect && strings.HasPrefix(c.key, "option/"+o.path+"=") && text(c.want) != text(defaults(raw())) && sameTree(defTree, c.tree) == "" {
					r.Violate(key+"/no effect", "the option has no effect", replay)
				}
			}
		}
	})
	r.Extra("commands", len(calls))
}
