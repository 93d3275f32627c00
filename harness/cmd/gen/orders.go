package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/printer"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
)

// orderly returns the instrumented generator, or the plain one if it cannot be
// built, and how many places of it are under control.
func orderly() (*workers, int) {
	bin, places, err := instrumented()
	if err != nil {
		fmt.Println("the orders of maps are not enumerated:", tail(err.Error()))
		return plain, 0
	}
	return &workers{bin: bin, pool: make(chan *proc, 64)}, places
}

// instrumented builds the generator with every iteration over a map under the
// control of vh/vmaps and the file system under that of vh/vos, and returns
// the program and how many such places there are.
func instrumented() (string, int, error) {
	l, err := packages.Load(&packages.Config{
		Dir:  vh(),
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedImports | packages.NeedDeps,
	}, "github.com/si3nloong/sqlgen/cmd/sqlgen/codegen/...", "github.com/si3nloong/sqlgen/cmd/sqlgen/internal/...",
		"github.com/si3nloong/sqlgen/sequel/...")
	if err != nil {
		return "", 0, err
	}
	repl, places, osUses := map[string]string{}, 0, map[string]types.Object{}
	for _, p := range l {
		for i, f := range p.Syntax {
			n := orders(p, f, osUses)
			if n == 0 {
				continue
			}
			places += n
			var b bytes.Buffer
			if !constrained(f) {
				b.WriteString("//go:build go1.23\n\n")
			}
			must((&printer.Config{Mode: printer.RawFormat}).Fprint(&b, p.Fset, f))
			src := packageClause(b.Bytes())
			at := filepath.Join(vh(), "orders", fmt.Sprintf("%d.go.txt", len(repl)))
			write(at, string(src))
			repl[p.CompiledGoFiles[i]] = at
		}
	}
	// what else of package os is used
	have, err := os.ReadFile(filepath.Join(vh(), "vos", "vos.go"))
	must(err)
	extra := "package vos\n\nimport \"os\"\n\nvar _ = os.Args\n\n"
	for _, name := range keys(osUses) {
		if regexp.MustCompile(`(?m)^(func ` + name + `\(|type ` + name + ` |\t` + name + ` +=)`).Match(have) {
			continue
		}
		switch osUses[name].(type) {
		case *types.TypeName:
			extra += "type " + name + " = os." + name + "\n"
		case *types.Const:
			extra += "const " + name + " = os." + name + "\n"
		default:
			extra += "var " + name + " = os." + name + "\n"
		}
	}
	write(filepath.Join(vh(), "vos", "extra.go"), extra)
	j, err := json.Marshal(map[string]any{"Replace": repl})
	must(err)
	at := filepath.Join(vh(), "orders", "overlay.json")
	write(at, string(j))
	bin := filepath.Join(os.Getenv("VH_WORK"), "orderly")
	if out, err := goTool("build", "-overlay", at, "-o", bin, "./cmd/gen"); err != nil {
		return "", 0, errors.New(out)
	}
	return bin, places, nil
}

func constrained(f *ast.File) bool {
	for _, g := range f.Comments {
		if g.Pos() > f.Package {
			break
		}
		for _, c := range g.List {
			if constraint.IsGoBuild(c.Text) {
				return true
			}
		}
	}
	return false
}

// packageClause adds the import of vmaps after the package clause.
func packageClause(src []byte) []byte {
	lines := strings.SplitAfter(string(src), "\n")
	for i, l := range lines {
		if strings.HasPrefix(l, "package ") {
			lines[i] = strings.TrimRight(l, "\n") + "; import vhmaps \"vh/vmaps\"\n"
			break
		}
	}
	return []byte(strings.Join(lines, "") + "\nvar _ = vhmaps.Start\n")
}

func orders(p *packages.Package, f *ast.File, osUses map[string]types.Object) (n int) {
	vhmaps := func(name string) *ast.SelectorExpr {
		return &ast.SelectorExpr{X: ast.NewIdent("vhmaps"), Sel: ast.NewIdent(name)}
	}
	left := map[string]bool{}
	swap := func(path, name string) string {
		switch path + "." + name {
		case "maps.All", "maps.Keys", "maps.Values":
			return name
		case "golang.org/x/exp/maps.Keys", "golang.org/x/exp/maps.Values":
			return "Exp" + name
		case "github.com/samber/lo.Keys", "github.com/samber/lo.Values", "github.com/samber/lo.Entries", "github.com/samber/lo.ToPairs", "github.com/samber/lo.MapToSlice":
			return "Lo" + name
		}
		return ""
	}
	ast.Inspect(f, func(node ast.Node) bool {
		switch x := node.(type) {
		case *ast.RangeStmt:
			t := p.TypesInfo.TypeOf(x.X)
			if t == nil || !isMap(t) {
				break
			}
			x.X = &ast.CallExpr{Fun: vhmaps("Range"), Args: []ast.Expr{x.X}}
			n++
		case *ast.SelectorExpr:
			if id, ok := x.X.(*ast.Ident); ok {
				if pn, ok := p.TypesInfo.Uses[id].(*types.PkgName); ok {
					path := pn.Imported().Path()
					if to := swap(path, x.Sel.Name); to != "" {
						x.X, x.Sel = ast.NewIdent("vhmaps"), ast.NewIdent(to)
						n++
						return false
					}
					left[path] = true
					if path == "os" {
						osUses[x.Sel.Name] = p.TypesInfo.Uses[x.Sel]
					}
				}
			}
		}
		return true
	})
	for _, i := range f.Imports {
		path, _ := strconv.Unquote(i.Path.Value)
		if path == "os" {
			i.Path.Value = `"vh/vos"`
			if i.Name == nil {
				i.Name = ast.NewIdent("os")
			}
			n++
		}
		if !left[path] && swap(path, "Keys") != "" {
			i.Name = ast.NewIdent("_")
		}
	}
	return
}

func isMap(t types.Type) bool {
	if tp, ok := t.(*types.TypeParam); ok {
		u, ok := tp.Constraint().Underlying().(*types.Interface)
		if !ok || u.NumEmbeddeds() != 1 {
			return false
		}
		if un, ok := u.EmbeddedType(0).(*types.Union); ok && un.Len() == 1 {
			return isMap(un.Term(0).Type())
		}
		return isMap(u.EmbeddedType(0))
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}
