package main

import (
	"bytes"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"regexp"
)

// instrument puts a scheduling point before every statement of every function
// and hands the file the controlled sync package; it changes nothing else.
func instrument(src []byte) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, parser.SkipObjectResolution)
	if err != nil {
		return nil, err
	}
	for _, i := range f.Imports {
		if i.Path.Value == `"sync"` {
			i.Path.Value = `"vh/vsync"`
			if i.Name == nil {
				i.Name = ast.NewIdent("sync")
			}
		}
	}
	list := func(l []ast.Stmt) []ast.Stmt {
		var out []ast.Stmt
		for _, s := range l {
			switch s.(type) {
			case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
			default:
				out = append(out, &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("vhpoint"), Sel: ast.NewIdent("Point")}}})
			}
			out = append(out, s)
		}
		return out
	}
	found := false
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			x.List = list(x.List)
			found = true
		case *ast.CaseClause:
			x.Body = list(x.Body)
		case *ast.CommClause:
			x.Body = list(x.Body)
		}
		return true
	})
	var b bytes.Buffer
	if err := (&printer.Config{Mode: printer.RawFormat}).Fprint(&b, fset, f); err != nil {
		return nil, err
	}
	if !found {
		return b.Bytes(), nil
	}
	return packageClause.ReplaceAll(b.Bytes(), []byte("${0}\n\nimport vhpoint \"vh/vsync\"\n")), nil
}

var packageClause = regexp.MustCompile(`(?m)^package \w+`)
