package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/si3nloong/sqlgen/cmd/sqlgen/codegen"

	"vh/report"
)

// decl is a way to declare (or not to declare) a model.
type decl struct {
	desc string
	src  string // $T is the name
	want string // model, readonly, none
	file string // a file of its own, named with $F
}

func decls() (out []decl) {
	add := func(want, desc, src string) { out = append(out, decl{desc: desc, src: src, want: want}) }
	const body = "struct {\n\tID int64 `sql:\",pk\"`\n\tName string\n}"
	add("model", "struct", "type $T "+body)
	add("model", "struct on a line", "type $T struct{ A, B int }")
	add("model", "group", "type (\n\t$T "+body+"\n)")
	add("model", "last of a group", "type (\n\tx$T int\n\ty$T "+body+"\n\t$T "+body+"\n)")
	add("model", "first of a group", "type (\n\t$T "+body+"\n\tx$T = int\n\ty$T []int\n)")
	add("model", "external", "type $T plain.Row")
	add("model", "external in a group", "type (\n\t$T plain.Row\n)")
	add("model", "same name in a function", "type $T "+body+"\n\nfunc f$T() {\n\ttype $T struct{ Other int }\n\t_ = $T{}\n}")
	add("model", "used by other types", "type $T "+body+"\n\ntype x$T []$T\n\ntype y$T = $T\n\nvar z$T map[string]$T")
	add("none", "alias of a struct", "type $T = "+body)
	add("none", "alias of an external", "type $T = plain.Row")
	add("none", "generic", "type $T[P any] struct{ V P }")
	add("none", "unexported", "type x$T "+body)
	add("none", "unexported external", "type x$T plain.Row")
	add("none", "in a function", "func f$T() {\n\ttype $T "+body+"\n\t_ = $T{}\n}")
	add("none", "in a method", "type x$T int\n\nfunc (x$T) M() {\n\ttype $T "+body+"\n\t_ = $T{}\n}")
	add("none", "in a function value", "var f$T = func() {\n\ttype $T "+body+"\n\t_ = $T{}\n}")
	for _, t := range []string{"int", "[]struct{ A int }", "map[string]struct{ A int }", "*struct{ A int }", "func() struct{ A int }", "interface{ M() struct{ A int } }", "chan struct{ A int }", "[2]struct{ A int }", "plain.Level", "*plain.Row", "[]plain.Row"} {
		add("none", "type "+t, "type $T "+t)
	}
	add("none", "variable", "var $T "+body)
	add("none", "empty", "type $T struct{}")
	add("none", "no exported field", "type $T struct {\n\ta int\n\tb string\n}")
	add("none", "blank fields", "type $T struct {\n\t_ int\n\t_ string\n}")
	add("none", "no field kept", "type $T struct {\n\tA int `sql:\"-\"`\n\tB int `sql:\"-\"`\n}")
	add("none", "external without columns", "type $T plain.None")

	// annotations
	for _, b := range []string{body, "plain.Row"} {
		for _, f := range []struct{ ann, want string }{{"ignore", "none"}, {"readonly", "readonly"}, {"readonly,ignore", "none"}, {"ignore,readonly", "none"}, {"readonly, ignore", "none"}, {"readonly,unknown", "readonly"}, {"unknown,readonly", "readonly"}} {
			d := "+sql:" + f.ann + " "
			if b == body {
				d = "+sql:" + f.ann
			}
			add(f.want, d, "// "+d+"\ntype $T "+b)
			if strings.Contains(f.ann, "unknown") {
				continue
			}
			add(f.want, d+" after text", "// $T is a record.\n//\n// "+d+"\ntype $T "+b)
			add(f.want, d+" before text", "// "+d+"\n//\n// $T is a record.\ntype $T "+b)
			add(f.want, d+" between text", "// $T is a record, not to ignore.\n// "+d+"\n// It is readonly.\ntype $T "+b)
			add(f.want, d+" in a block", "/* $T is a record.\n\n"+d+"\n*/\ntype $T "+b)
			add(f.want, d+" without space", "//"+d+"\ntype $T "+b)
			add(f.want, d+" indented", "//\t  "+d+"\ntype $T "+b)
			add(f.want, d+" in a group", "type (\n\t// "+d+"\n\t$T "+b+"\n)")
			add(f.want, d+" in a group with another", "// Some types.\ntype (\n\t// "+d+"\n\t$T "+b+"\n\t// Another.\n\tx$T "+b+"\n)")
			if !strings.Contains(f.ann, ",") {
				add("model", d+" detached", "// "+d+"\n\ntype $T "+b)
				add("model", d+" on the line", "type $T "+b+" // "+d)
				add("model", d+" after", "type $T "+b+"\n\n// "+d)
				add("model", d+" on another type", "// "+d+"\ntype x$T "+b+"\n\ntype $T "+b)
				add("model", d+" on another of the group", "type (\n\t// "+d+"\n\tx$T "+b+"\n\t// $T is a record.\n\t$T "+b+"\n)")
				add("model", d+" on a function", "// "+d+"\nfunc f$T() {}\n\ntype $T "+b)
				add("model", "ann "+d+" misspelt", "// sql:"+f.ann+"\n// +sql "+f.ann+"\n// +sqlx:"+f.ann+"\ntype $T "+b)
			}
		}
	}
	add("model", "+sql:ignore in the struct", "type $T struct {\n\t// +sql:ignore\n\tA int\n\tB int // +sql:readonly\n}")
	add("none", "ignored with another readonly line", "// +sql:readonly\n// +sql:ignore\ntype $T "+body)
	add("none", "ignored before a readonly line", "// +sql:ignore\n// +sql:readonly\ntype $T "+body)
	add("model", "words", "// $T is readonly, ignore it.\ntype $T "+body)

	// files
	own := func(want, desc, file, src string) {
		out = append(out, decl{desc: desc, src: src, want: want, file: file})
	}
	own("model", "own file", "$F.go", "package model\n\ntype $T "+body)
	own("none", "test file", "$F_test.go", "package model\n\ntype $T "+body)
	own("none", "external test file", "$F_x_test.go", "package model_test\n\ntype $T "+body)
	own("none", "other system", "$F_plan9.go", "package model\n\ntype $T "+body)
	own("none", "other architecture", "$F_mips.go", "package model\n\ntype $T "+body)
	own("none", "constraint", "$F_c.go", "//go:build never\n\npackage model\n\ntype $T "+body)
	own("model", "constraint that holds", "$F_d.go", "//go:build !never\n\npackage model\n\ntype $T "+body)
	own("none", "hidden file", "_$F.go", "package model\n\ntype $T "+body)
	own("none", "dot file", ".$F.go", "package model\n\ntype $T "+body)
	return
}

// methodsOf are the declarations of the generated file, by the model.
func methodsOf(src string) (map[string][]string, error) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "x.go", src, parser.SkipObjectResolution)
	if err != nil {
		return nil, err
	}
	out := map[string][]string{}
	for _, d := range f.Decls {
		fn, ok := d.(*ast.FuncDecl)
		if !ok || fn.Recv == nil {
			continue
		}
		t := fn.Recv.List[0].Type
		if s, ok := t.(*ast.StarExpr); ok {
			t = s.X
		}
		var b strings.Builder
		if err := printer.Fprint(&b, fs, fn); err != nil {
			return nil, err
		}
		name := t.(*ast.Ident).Name
		out[name] = append(out[name], fn.Name.Name+"\n"+b.String())
	}
	for _, l := range out {
		sort.Strings(l)
	}
	return out, nil
}

// declared generates a package of declarations and returns the methods it gets.
// flip writes the sources the other way around, split in two files.
func declared(dir string, l []decl, names []string, flip, split bool) (map[string][]string, outcome) {
	must(os.MkdirAll(filepath.Join(dir, "model"), 0o755))
	var parts []string
	for i, d := range l {
		src := strings.ReplaceAll(d.src, "$T", names[i])
		if d.file != "" {
			write(filepath.Join(dir, "model", strings.ReplaceAll(d.file, "$F", strings.ToLower(names[i]))), src+"\n")
			continue
		}
		parts = append(parts, src)
	}
	if flip && len(parts) > 1 {
		parts[0], parts[1] = parts[1], parts[0]
	}
	if !split {
		parts = []string{strings.Join(parts, "\n\n")}
	}
	write(filepath.Join(dir, "model", "doc.go"), "package model\n")
	for i, p := range parts {
		head := "package model\n\n"
		if strings.Contains(p, "plain.") {
			head += "import \"vh/gensup/plain\"\n\n"
		}
		write(filepath.Join(dir, "model", fmt.Sprintf("f%d.go", i)), head+p+"\n")
	}
	cfg := codegen.Config{Source: []string{"./model"}, SkipModTidy: true, Driver: codegen.Sqlite}
	cfg.Exec.SkipEmpty = true
	o := generate(job{Dir: dir, Cfg: cfg})
	b, err := os.ReadFile(filepath.Join(dir, "model", "generated.go"))
	if err != nil {
		return nil, o
	}
	m, err := methodsOf(string(b))
	if err != nil && o.String() == "" {
		o.Err = "generated code: " + err.Error()
	}
	return m, o
}

func g11(r *report.Run) {
	r.Rule = "every way to declare a type (or not), every annotation in every place, alone and next to every other one in either order of names, sources and files; the types that get methods, and which, compared with the documented rule and with what the declaration gives alone"
	all := decls()
	root := filepath.Join(vh(), "gen", "decl")
	names := []string{"Aa", "Bb"}
	alone := make([][2][]string, len(all))
	each(len(all)*2, func(k int) {
		i, n := k/2, k%2
		d := all[i]
		dir := filepath.Join(root, fmt.Sprintf("s%d%s", i, names[n]))
		m, o := declared(dir, []decl{d}, names[n:n+1], false, false)
		r.State("alone/" + d.desc)
		r.Transition(1)
		r.Trace(1)
		bad := func(what string, args ...any) {
			src := strings.ReplaceAll(d.src, "$T", names[n])
			r.Violate(d.desc+"/alone", fmt.Sprintf("%s: ", d.desc)+fmt.Sprintf(what, args...), src)
		}
		if s := o.String(); s != "" {
			bad("the generator fails: %s", s)
		}
		l := m[names[n]]
		alone[i][n] = l
		has := map[string]bool{}
		for _, s := range l {
			has[s[:strings.IndexByte(s, '\n')]] = true
		}
		writes := has["Values"] || has["InsertOneStmt"] || has["InsertPlaceholders"] || has["UpdateOneByPKStmt"]
		reads := has["Columns"] && has["Addrs"] && has["TableName"]
		switch {
		case d.want == "none" && len(l) > 0:
			bad("it becomes a model")
		case d.want != "none" && !reads:
			bad("it does not become a model, it has %v", keys(has))
		case d.want == "model" && !writes:
			bad("it cannot be written although nothing makes it read-only")
		case d.want == "readonly" && writes:
			bad("it can be written although it is read-only")
		}
		for t := range m {
			if t != names[n] {
				bad("%s becomes a model", t)
			}
		}
		os.RemoveAll(dir)
	})
	// the ones which are tried next to each other on every change
	few := func(i int) bool {
		d := all[i].desc
		return r.Thorough() || !strings.HasPrefix(d, "type ") && !strings.Contains(d, "sql:") || d == "type int" || d == "+sql:ignore" || d == "+sql:readonly" || d == "+sql:readonly  in a group with another" || d == "+sql:ignore on another type" || d == "+sql:readonly on another type"
	}
	type pair struct {
		i, j        int
		flip, split bool
	}
	var pairs []pair
	for i := range all {
		for j := range all {
			for v := 0; v < 4; v++ {
				if !few(i) || !few(j) || !r.Thorough() && v != (i+j)%4 {
					continue
				}
				pairs = append(pairs, pair{i, j, v%2 == 1, v/2 == 1})
			}
		}
	}
	r.Bounds = map[string]any{"declarations": len(all), "pairs": len(pairs), "orders": "names, sources, one or two files"}
	each(len(pairs), func(k int) {
		p := pairs[k]
		dir := filepath.Join(root, fmt.Sprintf("p%d", k))
		defer os.RemoveAll(dir)
		l := []decl{all[p.i], all[p.j]}
		m, o := declared(dir, l, names, p.flip, p.split)
		r.State(fmt.Sprint(l[0].desc, "/", l[1].desc, p.flip, p.split))
		r.Transition(1)
		r.Trace(1)
		what := fmt.Sprintf("%s next to %s (sources reversed: %v, two files: %v)", l[0].desc, l[1].desc, p.flip, p.split)
		replay := strings.ReplaceAll(l[0].src, "$T", names[0]) + "\n\n" + strings.ReplaceAll(l[1].src, "$T", names[1])
		if s := o.String(); s != "" {
			r.Violate("pair/fails", what+": the generator fails: "+s, replay)
			return
		}
		for n, i := range []int{p.i, p.j} {
			if strings.Join(m[names[n]], "\n") != strings.Join(alone[i][n], "\n") {
				r.Violate("pair/"+all[i].desc, fmt.Sprintf("%s: %s has %d methods, alone it has %d, or they differ", what, names[n], len(m[names[n]]), len(alone[i][n])), replay)
			}
		}
	})
}
