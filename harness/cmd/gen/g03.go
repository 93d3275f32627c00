package main

import (
	"fmt"
	"strings"

	"vh/report"
)

// An embedding tree is enumerated as a sequence of ways to embed one struct in
// the next; every struct on the way has fields before and after its embedded one.
type embKind struct {
	Desc    string
	Imports bool // the embedded type lives in another package
	Local   bool // only where the embedding struct is in the model package
}

var embKinds = []embKind{
	{Desc: "V"}, {Desc: "P"}, {Desc: "u"}, {Desc: "uP"}, {Desc: "alias"}, {Desc: "generic"}, {Desc: "genericP"}, {Desc: "defined"},
	{Desc: "skipV"}, {Desc: "skipP"}, {Desc: "twin"},
	{Desc: "imp", Imports: true, Local: true}, {Desc: "impP", Imports: true, Local: true}, {Desc: "impAlias", Imports: true, Local: true}, {Desc: "impDefined", Imports: true, Local: true},
}

// leaf fields come in several spellings; every struct has two groups of them.
var leafGroups = []string{
	"\t@a string\n",
	"\t@b *int\n\t@c, @d int32\n",
	"\t@e []string `sql:\"re_@e\"`\n\t_@g int\n\thid@h string\n",
	"\t@i string `sql:\"-\"`\n\t@j bool\n\t_ int\n",
}

type treeGen struct {
	local, imported strings.Builder
	n               int
	id              string
}

// define writes the struct at one level and returns how to embed it.
func (g *treeGen) define(kinds []embKind, level int, inSub bool) (embed string) {
	k := kinds[0]
	sub := inSub || k.Imports
	exp := k.Desc != "u" && k.Desc != "uP"
	name := fmt.Sprintf("%sL%d", g.id, level)
	if !exp {
		name = "x" + name
	}
	inner := ""
	if len(kinds) > 1 {
		inner = g.define(kinds[1:], level+1, sub)
	}
	pre := fmt.Sprintf("F%d", level)
	body := strings.ReplaceAll(leafGroups[level%4], "@", pre) + inner + strings.ReplaceAll(leafGroups[(level+1)%4], "@", pre)
	w := &g.local
	if sub {
		w = &g.imported
	}
	q := ""
	if k.Imports && !inSub {
		q = "sub."
	}
	switch k.Desc {
	case "generic", "genericP":
		fmt.Fprintf(w, "type %s[A any] struct {\n%s\tG%d A\n}\n", name, body, level)
		if k.Desc == "genericP" {
			return "\t*" + name + "[int16]\n"
		}
		return "\t" + name + "[string]\n"
	case "alias":
		fmt.Fprintf(w, "type %so struct {\n%s}\ntype %s = %so\n", name, body, name, name)
		return "\t" + name + "\n"
	case "impAlias":
		fmt.Fprintf(w, "type %so struct {\n%s}\n", name, body)
		fmt.Fprintf(&g.local, "type %s = sub.%so\n", name, name)
		return "\t" + name + "\n"
	case "impDefined":
		fmt.Fprintf(w, "type %so struct {\n%s}\n", name, body)
		// +sql:ignore: it would be a model itself
		fmt.Fprintf(&g.local, "// +sql:ignore\ntype %s sub.%so\n", name, name)
		return "\t" + name + "\n"
	case "defined":
		fmt.Fprintf(w, "// +sql:ignore\ntype %so struct {\n%s}\ntype %s %so\n", name, body, name, name)
		return "\t" + name + "\n"
	}
	fmt.Fprintf(w, "// +sql:ignore\ntype %s struct {\n%s}\n", name, body)
	switch k.Desc {
	case "V", "u", "imp":
		return "\t" + q + name + "\n"
	case "P", "uP", "impP":
		return "\t*" + q + name + "\n"
	case "skipV":
		return "\t" + q + name + " `sql:\"-\"`\n"
	case "skipP":
		return "\t*" + q + name + " `sql:\"-\"`\n"
	case "twin": // a second embedded struct of one field beside it
		fmt.Fprintf(w, "// +sql:ignore\ntype %st struct{ T%d string }\n", name, level)
		return "\t" + q + name + "\n\t" + q + name + "t\n"
	}
	panic(k.Desc)
}

// trees enumerates the embedding sequences up to a depth.
func trees(depth int, ok func([]embKind) bool) (out [][]embKind) {
	var rec func(l []embKind, sub bool)
	rec = func(l []embKind, sub bool) {
		if len(l) > 0 {
			out = append(out, append([]embKind{}, l...))
		}
		if len(l) == depth {
			return
		}
		for _, k := range embKinds {
			if sub && k.Local {
				continue
			}
			n := append(append([]embKind{}, l...), k)
			if !ok(n) {
				continue
			}
			rec(n, sub || k.Imports)
		}
	}
	rec(nil, false)
	return
}

func descOf(l []embKind) string {
	var s []string
	for _, k := range l {
		s = append(s, k.Desc)
	}
	return strings.Join(s, ">")
}

// names of the tables: by the struct, by a field, by a field of an embedded
// struct, by both.
var tableModels = []model{
	{Desc: "table/default", Src: "type $T struct { A string }"},
	{Desc: "table/field", Src: "type $T struct {\n\tsequel.Table `sql:\"my_table\"`\n\tA string\n}"},
	{Desc: "table/named", Src: "type $T struct {\n\tName sequel.TableName `sql:\"my_table\"`\n\tA string\n}"},
	{Desc: "table/last", Src: "type $T struct {\n\tA string\n\t_ sequel.TableName `sql:\"my_Table2\"`\n}"},
	{Desc: "table/empty", Src: "type $T struct {\n\tsequel.Table\n\tA string\n}"},
	{Desc: "table/embedded", Src: "// +sql:ignore\ntype $Tb struct {\n\tsequel.TableName `sql:\"base_table\"`\n\tB string\n}\n\ntype $T struct {\n\t$Tb\n\tA string\n}"},
	{Desc: "table/both", Src: "// +sql:ignore\ntype $Tb struct {\n\tName sequel.TableName `sql:\"base_table\"`\n\tB string\n}\n\ntype $T struct {\n\t$Tb\n\tsequel.Table `sql:\"own_table\"`\n\tA string\n}"},
	{Desc: "table/pointer", Src: "// +sql:ignore\ntype $Tb struct {\n\tsequel.TableName `sql:\"base_table\"`\n\tB string\n}\n\ntype $T struct {\n\tA string\n\t*$Tb\n}"},
	{Desc: "table/skipped", Src: "// +sql:ignore\ntype $Tb struct {\n\tsequel.TableName `sql:\"base_table\"`\n\tB string\n}\n\ntype $T struct {\n\tA string\n\t$Tb `sql:\"-\"`\n}"},
	{Desc: "embed/basic", Src: "type $Tb string\n\ntype $T struct {\n\tA string\n\t$Tb\n}"},
	{Desc: "embed/slice", Src: "type $Tb []string\n\ntype $T struct {\n\t$Tb\n\tA string\n}"},
	{Desc: "embed/interface", Src: "type $Tb interface{ Foo() }\n\ntype $T struct {\n\tA string\n\t$Tb\n}"},
	{Desc: "embed/time", Src: "type $T struct {\n\tA string\n\ttime.Time\n\tB string\n}"},
	{Desc: "embed/self", Src: "type $T struct {\n\tA string\n\t*$T\n\tB string\n}"},
	{Desc: "embed/mutual", Src: "// +sql:ignore\ntype $Tb struct {\n\tB string\n\t*$T\n}\n\ntype $T struct {\n\tA string\n\t*$Tb\n}"},
	{Desc: "embed/keys", Src: "// +sql:ignore\ntype $Tb struct {\n\tID int64 `sql:\",pk\"`\n\tC string `sql:\",readonly\"`\n}\n\ntype $T struct {\n\tA string\n\t$Tb\n}"},
	{Desc: "embed/keysP", Src: "// +sql:ignore\ntype $Tb struct {\n\tID int64 `sql:\",pk\"`\n\tC string\n}\n\ntype $T struct {\n\tA string\n\t*$Tb\n\tN string `sql:\",pk\"`\n}"},
	{Desc: "embed/auto", Src: "// +sql:ignore\ntype $Tb struct {\n\tID uint32 `sql:\",pk,auto_increment\"`\n\tC string\n}\n\ntype $T struct {\n\t$Tb\n\tA string\n}"},
	{Desc: "embed/autoP", Src: "// +sql:ignore\ntype $Tb struct {\n\tID uint32 `sql:\",pk,auto_increment\"`\n\tC string\n}\n\ntype $T struct {\n\tA string\n\t*$Tb\n}"},
	{Desc: "embed/autoPP", Src: "// +sql:ignore\ntype $Tc struct {\n\tID int64 `sql:\",auto_increment\"`\n}\n\n// +sql:ignore\ntype $Tb struct {\n\t*$Tc\n\tC string\n}\n\ntype $T struct {\n\tA string\n\t*$Tb\n}"},
}

func g03Suites(r *report.Run) (suites []*suite) {
	depth3 := map[string]bool{"V": true, "P": true, "u": true, "uP": true, "imp": true, "impP": true, "skipV": true}
	all := trees(3, func(l []embKind) bool {
		if len(l) < 3 || r.Thorough() {
			return true
		}
		for _, k := range l {
			if !depth3[k.Desc] {
				return false
			}
		}
		return true
	})
	cfgs := six[1:3]
	if r.Thorough() {
		cfgs = six
	}
	for _, c := range cfgs {
		s := &suite{Name: "e" + c.Name, Cfg: c}
		var imported strings.Builder
		add := func(desc, before, embeds, after string, g *treeGen) {
			src := fmt.Sprintf("%s\ntype $T struct {\n%s%s%s}", g.local.String(), before, embeds, after)
			s.Models = append(s.Models, model{Desc: desc, Src: src})
			imported.WriteString(g.imported.String())
		}
		for _, l := range all {
			g := &treeGen{id: s.next(len(s.Models))}
			e := g.define(l, 1, false)
			add(descOf(l), "\tA string\n", e, "\tZ int\n", g)
		}
		// two embedded structs in one model
		for _, a := range embKinds {
			for _, b := range embKinds {
				g := &treeGen{id: s.next(len(s.Models))}
				e1 := g.define([]embKind{a}, 1, false)
				e2 := g.define([]embKind{b}, 5, false)
				add(a.Desc+"+"+b.Desc, "", e1+"\tM string\n"+e2, "", g)
			}
		}
		s.Prelude = fmt.Sprintf("import (\n\t\"time\"\n\n\t\"github.com/si3nloong/sqlgen/sequel\"\n\t\"vh/gen/%s/sub\"\n)\n\nvar (\n\t_ time.Time\n\t_ sequel.TableName\n\t_ sub.X\n)\n", s.Name)
		s.Models = append(s.Models, tableModels...)
		s.Files = map[string]string{"sub/sub.go": "package sub\n\ntype X struct{}\n\n" + imported.String()}
		suites = append(suites, s)
	}
	return
}

func g03(r *report.Run) {
	suites := g03Suites(r)
	each(len(suites), func(i int) { suites[i].build(r) })
	compile(r, suites)
	probe(r, suites, "embed")
}
