package main

import (
	"fmt"
	"strings"

	"github.com/si3nloong/sqlgen/cmd/sqlgen/codegen"

	"vh/genx"
	"vh/report"
)

// kind is a type which is configured.
type kind struct {
	expr, key string // as a field type, and in the configuration
	auto      bool
	others    []string // types next to it, which are not it
}

func kinds(pkg string) []kind {
	return []kind{
		{"LString", pkg + ".LString", false, []string{"string", "[]LString", "sup.Str"}},
		{"LInt", pkg + ".LInt", true, []string{"int", "[2]LInt", "sup.Level"}},
		{"LUint16", pkg + ".LUint16", true, []string{"uint16"}},
		{"LBool", pkg + ".LBool", false, []string{"bool"}},
		{"LFloat64", pkg + ".LFloat64", false, []string{"float64"}},
		{"LBytes", pkg + ".LBytes", false, []string{"[]byte"}},
		{"LStrs", pkg + ".LStrs", false, []string{"[]string"}},
		{"LArr", pkg + ".LArr", false, []string{"[4]byte"}},
		{"LInner", pkg + ".LInner", false, []string{"[]LInner"}},
		{"LMap", pkg + ".LMap", false, []string{"map[string]int"}},
		{"sup.Str", "vh/gensup/sup.Str", false, []string{"LString", "odd.Names"}},
		{"ALevel", "vh/gensup/sup.Level", true, []string{"other.Kind", "[]sup.Level"}},
		{"sup.Inner", "vh/gensup/sup.Inner", false, []string{"[1]sup.Inner"}},
		{"sup.Date", "vh/gensup/sup.Date", false, []string{"[]sup.Date"}},
		{"sup.UUID", "vh/gensup/sup.UUID", false, []string{"LArr"}},
		{"sup.Dec", "vh/gensup/sup.Dec", false, nil},
		{"sup.Opt[int]", "vh/gensup/sup.Opt[int]", false, []string{"sup.Opt[string]"}},
		{"sup.Stamp", "vh/gensup/sup.Stamp", false, []string{"time.Time"}},
		{"ver.ID", "vh/gensup/ver/v2.ID", false, nil},
		{"odd.Size", "vh/gensup/odd-dir.Size", false, nil},
		{"time.Time", "time.Time", false, []string{"LTime"}},
		{"AStr", "string", false, []string{"LString", "[]string"}},
		{"int32", "int32", true, []string{"LInt8", "[2]int"}},
		{"bool", "bool", false, []string{"LBool", "[]bool"}},
		{"[]int16", "[]int16", false, []string{"LInts"}},
		{"map[string]int", "map[string]int", false, []string{"LMap"}},
	}
}

// How values are written and read; "" is as without configuration.
var (
	valuers = []string{
		"", "vh/gensup/conv.Put({{.}})", "vh/gensup/conv.Put({{goPath}})", "vh/gensup/conv.Put({{addrOfGoPath}})", "vh/gensup/conv.Put({{addr}})",
		"vh/gensup/conv.Of[{{baseType}}]({{goPath}})", "vh/gensup/conv.With(\"a/b.C {x}\", {{ . }})", "(database/sql/driver.Valuer)(vh/gensup/conv.Put({{goPath}}))",
	}
	scanners = []string{
		"", "vh/gensup/conv.Take({{addr}})", "vh/gensup/conv.Take({{addrOfGoPath}})", "vh/gensup/conv.Take(&{{goPath}})", "vh/gensup/conv.Into[{{baseType}}]({{addrOfGoPath}})", "vh/gensup/conv.Take({{.}})",
	}
	sqlValues = []string{"", "ENC({{.}})", "F( 'a`b\"c%d''{}', {{.}}::x)"}
	sqlScans  = []string{"", "DEC({{.}})", "G({{ . }}, 'a`b\"c%d''{}') || 1"}
)

// g09 decides that configured types are written and read as configured.
func g09(r *report.Run) {
	r.Rule = "every combination of value and scan expressions, with SQL expressions, assigned in turn to every type, in every role; the generated methods are executed for every value of the domain"
	var suites []*suite
	n := 0
	for v := range valuers {
		for s := range scanners {
			for c := range six {
				if !r.Thorough() && c != n%len(six) {
					continue
				}
				suites = append(suites, g09Suite(n, v, s, six[c]))
			}
			n++
		}
	}
	for _, c := range six {
		suites = append(suites, g09Known(c))
	}
	r.Bounds = map[string]any{"types": len(kinds("")), "value_expressions": len(valuers), "scan_expressions": len(scanners), "sql_expressions": len(sqlValues) * len(sqlScans), "packages": len(suites)}
	each(len(suites), func(i int) { suites[i].build(r) })
	compile(r, suites)
	probe(r, suites, "custom")
}

func g09Suite(n, v, s int, cfg genx.Cfg) *suite {
	su := &suite{Name: fmt.Sprintf("c%d%s", n, cfg.Name), Cfg: cfg, Prelude: prelude}
	su.Cfg.Name = fmt.Sprintf("%s/value %d/scan %d", cfg.Name, v, s)
	su.Cfg.Custom = map[string]genx.Custom{}
	su.Gen.DataTypes = map[string]*codegen.DataType{}
	all := kinds("vh/gen/" + su.Name + "/model")
	key := func(expr string) string {
		for _, k := range all {
			if k.expr == expr {
				return k.key
			}
		}
		if strings.HasPrefix(expr, "sup.") {
			return "vh/gensup/" + expr
		}
		if strings.HasPrefix(expr, "L") {
			return "vh/gen/" + su.Name + "/model." + expr
		}
		return expr
	}
	byAddr := map[string]bool{}
	for j, k := range all {
		if (j+n)%2 == 0 {
			byAddr[k.key] = strings.Contains(scanners[(s+j/2)%len(scanners)], "{{.}}")
		}
	}
	for j, k := range all {
		// every second type is configured, so that others are not
		if (j+n)%2 == 1 {
			continue
		}
		vi, si := (v+j/2)%len(valuers), (s+j/2)%len(scanners)
		qv, qs := (n+j/2)%3, (n/3+j/2)%3
		dt := &codegen.DataType{DataType: "X", Valuer: valuers[vi], Scanner: scanners[si]}
		x := genx.Custom{Value: vi > 0, Scan: si > 0}
		if qv > 0 {
			dt.SQLValuer = ptr(sqlValues[qv])
			x.SQLValue = expand(sqlValues[qv])
		}
		if qs > 0 {
			dt.SQLScanner = ptr(sqlScans[qs])
			x.SQLScan = expand(sqlScans[qs])
		}
		su.Gen.DataTypes[k.key] = dt
		su.Cfg.Custom[k.key] = x
		su.Models = append(su.Models, roles(k, func(expr string) bool { return byAddr[key(expr)] })...)
	}
	return su
}

func expand(s string) string {
	return strings.NewReplacer("{{.}}", "%s", "{{ . }}", "%s").Replace(s)
}

// roles are models with columns of a type; pointers to types which are byAddr
// are left out.
func roles(k kind, byAddr func(string) bool) (out []model) {
	add := func(desc, src string) {
		if byAddr(k.expr) {
			var l []string
			for _, x := range strings.Split(src, "\n") {
				if !strings.Contains(x, "*$F") {
					l = append(l, x)
				}
			}
			src = strings.Join(l, "\n")
		}
		out = append(out, model{Desc: k.key[strings.LastIndexByte(k.key, '/')+1:] + "/" + desc, Src: strings.ReplaceAll(src, "$F", k.expr)})
	}
	add("columns", "type $T struct {\n\tID int64 `sql:\",pk\"`\n\tF $F\n\tP *$F\n\tN int8\n\tG $F `sql:\"other_name,readonly\"`\n}")
	add("key", "type $T struct {\n\tN int8\n\tF $F `sql:\",pk\"`\n\tP *$F\n\tZ string\n}")
	add("keys", "type $T struct {\n\tA int64 `sql:\",pk\"`\n\tP *$F\n\tF $F `sql:\",pk\"`\n\tG $F `sql:\",pk\"`\n\tZ $F\n}")
	add("embedded", "type in$T struct {\n\tE $F\n\tQ *$F\n}\n\ntype Ptr$T struct {\n\tF $F\n\tP *$F\n}\n\ntype $T struct {\n\tin$T\n\tID int64 `sql:\",pk\"`\n\t*Ptr$T\n}")
	if k.auto {
		add("auto", "type $T struct {\n\tN int8\n\tF $F `sql:\",auto_increment\"`\n\tG $F\n}")
	}
	if k.others != nil {
		var b strings.Builder
		b.WriteString("type $T struct {\n\tF $F `sql:\",pk\"`\n")
		for i, o := range k.others {
			fmt.Fprintf(&b, "\tO%d %s\n", i, o)
			if !byAddr(o) {
				fmt.Fprintf(&b, "\tP%d *%s\n", i, o)
			}
		}
		add("others", b.String()+"}")
	}
	return
}

// g09Known has what is known not to be done (see known_findings.txt).
func g09Known(cfg genx.Cfg) *suite {
	su := &suite{Name: "ck" + cfg.Name, Cfg: cfg, Prelude: prelude}
	su.Cfg.Name = cfg.Name
	su.Cfg.Custom = map[string]genx.Custom{"vh/gensup/sup.Str": {Value: true, Scan: true}, "vh/gensup/sup.Level": {SQLValue: "ENC(%s)"}}
	su.Gen.DataTypes = map[string]*codegen.DataType{
		"vh/gensup/sup.Str":   {DataType: "X", Valuer: valuers[1], Scanner: "vh/gensup/conv.Take({{.}})"},
		"vh/gensup/sup.Level": {DataType: "X", SQLValuer: ptr("ENC({{.}})")},
	}
	su.Models = []model{
		{Desc: "pointer and {{.}} scanner", Src: "type $T struct {\n\tID int64 `sql:\",pk\"`\n\tP *sup.Str\n}"},
		{Desc: "bulk insert", Opts: "placeholders", Src: "type $T struct {\n\tID int64 `sql:\",pk\"`\n\tL sup.Level\n}"},
		{Desc: "condition", Opts: "conditions", Src: "type $T struct {\n\tID int64 `sql:\",pk\"`\n\tL sup.Level\n}"},
	}
	return su
}
