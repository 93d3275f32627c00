// Command rt generates the runtime packages for every configuration with the
// generator under test, compiles them together with the shared enumerations
// (package rtx) and runs one property.
package main

import (
	"bytes"
	"embed"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"text/template"

	"github.com/si3nloong/sqlgen/cmd/sqlgen/codegen"

	"vh/report"
	"vh/rtx"
)

//go:embed adapter.go.txt hand.go.txt
var files embed.FS

type cfg struct {
	Name   string
	Driver string
	Quote  bool
}

var cfgs = []cfg{
	{"mysql", "mysql", false}, {"mysqlq", "mysql", true},
	{"pg", "postgres", false}, {"pgq", "postgres", true},
	{"sqlite", "sqlite", false}, {"sqliteq", "sqlite", true},
}

func main() {
	if os.Args[1] == "generate" {
		generate(os.Args[2])
		return
	}
	prop := os.Args[1]
	vh := filepath.Join(os.Getenv("VH_WORK"), "vh")
	tmpl := template.Must(template.New("").ParseFS(files, "*.txt"))
	errs := make([]string, len(cfgs))
	var wg sync.WaitGroup
	for i, c := range cfgs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			errs[i] = build(tmpl, vh, c, prop)
		}()
	}
	wg.Wait()
	for i, e := range errs {
		if e != "" {
			fail(prop, "generate-"+cfgs[i].Name, e)
		}
	}
	var b bytes.Buffer
	b.WriteString("package main\n\nimport (\n\t\"vh/rtx\"\n")
	for _, c := range cfgs {
		fmt.Fprintf(&b, "\t_ \"vh/gen/%s\"\n", c.Name)
	}
	b.WriteString(")\n\nfunc main() { rtx.Main() }\n")
	must(os.MkdirAll(filepath.Join(vh, "gen", "run"), 0o755))
	must(os.WriteFile(filepath.Join(vh, "gen", "run", "main.go"), b.Bytes(), 0o644))
	bin := filepath.Join(os.Getenv("VH_WORK"), "runner")
	args := []string{"build", "-o", bin}
	if prop == "R08" {
		args = append(args, "-overlay", overlay(vh))
	}
	cmd := exec.Command("go", append(args, "./gen/run")...)
	cmd.Dir = vh
	if out, err := cmd.CombinedOutput(); err != nil {
		// generated code that does not compile breaks every property of it
		fail(prop, "compile", "the generated packages do not compile: "+string(out))
	}
	cmd = exec.Command(bin, prop)
	cmd.Dir = vh
	cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
	if err := cmd.Run(); err != nil {
		if x, ok := err.(*exec.ExitError); ok && x.ExitCode() >= 0 {
			os.Exit(x.ExitCode())
		}
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

func fail(prop, key, msg string) {
	r := report.New(prop)
	r.Rule = "generate and compile the fixture in every configuration"
	r.Violate(key, msg, msg)
	r.Finish()
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

func build(tmpl *template.Template, vh string, c cfg, prop string) string {
	dir := filepath.Join(vh, "gen", c.Name)
	must(os.MkdirAll(filepath.Join(dir, "model"), 0o755))
	src, err := os.ReadFile(filepath.Join(vh, "rtsrc", "model.go.txt"))
	must(err)
	if c.Quote {
		kw, err := os.ReadFile(filepath.Join(vh, "rtsrc", "kw.go.txt"))
		must(err)
		src = append(src, bytes.TrimPrefix(kw, []byte("//KW"))...)
	}
	must(os.WriteFile(filepath.Join(dir, "model", "model.go"), src, 0o644))
	self, err := os.Executable()
	must(err)
	cmd := exec.Command(self, "generate", c.Name)
	cmd.Dir = dir
	if out, err := cmd.CombinedOutput(); err != nil {
		return fmt.Sprintf("generating the %s configuration fails: %v: %s", c.Name, err, tail(string(out)))
	}
	var b bytes.Buffer
	data := map[string]any{"C": c, "PG": c.Driver == "postgres", "Pkg": "vh/gen/" + c.Name, "Shapes": shapes(c)}
	must(tmpl.ExecuteTemplate(&b, "adapter.go.txt", data))
	must(os.WriteFile(filepath.Join(dir, "adapter.go"), b.Bytes(), 0o644))
	b.Reset()
	must(tmpl.ExecuteTemplate(&b, "hand.go.txt", data))
	must(os.WriteFile(filepath.Join(dir, "hand.go"), b.Bytes(), 0o644))
	if prop == "R08" {
		// scheduling points are the only change to the generated code
		var files []string
		for _, pat := range []string{"db/*.go", "model/generated.go", "hand.go"} {
			l, err := filepath.Glob(filepath.Join(dir, pat))
			must(err)
			files = append(files, l...)
		}
		for _, p := range files {
			g, err := os.ReadFile(p)
			must(err)
			g, err = instrument(g)
			must(err)
			must(os.WriteFile(p, g, 0o644))
		}
	}
	return ""
}

// overlay instruments the pools and encoders of the runtime library.
func overlay(vh string) string {
	repo := os.Getenv("VH_REPO")
	rep := map[string]string{}
	for _, dir := range []string{"strpool", "encoding"} {
		l, err := filepath.Glob(filepath.Join(repo, "sequel", dir, "*.go"))
		must(err)
		for _, p := range l {
			if strings.HasSuffix(p, "_test.go") {
				continue
			}
			src, err := os.ReadFile(p)
			must(err)
			src, err = instrument(src)
			must(err)
			to := filepath.Join(vh, "ov-"+dir+"-"+filepath.Base(p)+".txt")
			must(os.WriteFile(to, src, 0o644))
			rep[p] = to
		}
	}
	b, err := json.Marshal(map[string]any{"Replace": rep})
	must(err)
	p := filepath.Join(vh, "overlay.json")
	must(os.WriteFile(p, b, 0o644))
	return p
}

func tail(s string) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > 12 {
		l = l[len(l)-12:]
	}
	return strings.Join(l, "\n")
}

type shape struct {
	*rtx.Shape
	T string // type expression
}

// Types lists the distinct column types.
func (s shape) Keyed() bool { return len(s.Keys()) > 0 }

func shapes(c cfg) (out []shape) {
	for _, s := range rtx.Shapes {
		if s.Kw && !c.Quote {
			continue
		}
		t := "model." + s.Name
		if s.Hand {
			t = s.Name
		}
		out = append(out, shape{s, t})
	}
	return
}

func generate(name string) {
	for _, c := range cfgs {
		if c.Name != name {
			continue
		}
		sv, ss := "UPPER({{.}})", "LOWER({{.}})"
		err := codegen.Generate(&codegen.Config{
			Source: []string{"./model"}, SkipModTidy: true,
			Driver: codegen.SqlDriver(c.Driver), QuoteIdentifier: c.Quote,
			DataTypes: map[string]*codegen.DataType{"vh/gen/" + c.Name + "/model.Code": {DataType: "varchar(255)", SQLValuer: &sv, SQLScanner: &ss}},
		})
		if err != nil {
			fmt.Println("error:", err)
			os.Exit(1)
		}
		return
	}
	fmt.Println("no such configuration")
	os.Exit(1)
}
