package main

import (
	"fmt"
	"strings"

	"vh/genx"
	"vh/report"
)

// field is one Go type a column can have.
type field struct {
	Desc, Expr string
}

var basics = []string{"bool", "string", "int", "int8", "int16", "int32", "int64",
	"uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "byte", "rune"}

const prelude = `import (
	"database/sql"
	"encoding/json"
	"time"

	"vh/gensup/odd-dir"
	other "vh/gensup/other/sup"
	"vh/gensup/sup"
	"vh/gensup/ver/v2"
)

var (
	_ sql.NullString
	_ json.Number
	_ time.Time
	_ odd.Size
	_ other.Kind
	_ sup.Level
	_ ver.ID
)

type (
	LBool    bool
	LString  string
	LInt     int
	LInt8    int8
	LInt64   int64
	LUint    uint
	LUint16  uint16
	LUint64  uint64
	LFloat32 float32
	LFloat64 float64
	lower    int32
	LBytes   []byte
	LStrs    []string
	LInts    []int32
	LArr     [4]byte
	LInner   struct {
		A string
		B *int
		C []LString
	}
	LTime  time.Time
	LMap   map[string]int
	AStr   = string
	ATime  = time.Time
	ALevel = sup.Level
)
`

// fieldTypes is the catalogue of column types.
func fieldTypes() (out []field) {
	add := func(l ...string) {
		for _, e := range l {
			out = append(out, field{e, e})
		}
	}
	add(basics...)
	add("LBool", "LString", "LInt", "LInt8", "LInt64", "LUint", "LUint16", "LUint64", "LFloat32", "LFloat64", "lower",
		"LBytes", "LStrs", "LInts", "LArr", "LInner", "LTime", "LMap", "AStr", "ATime", "ALevel")
	add("sup.Level", "sup.Str", "sup.Flag", "sup.U8", "sup.F32", "sup.Blob", "sup.Strs", "sup.Ints", "sup.Pair", "sup.Inner",
		"sup.Date", "sup.UUID", "sup.Dec", "sup.Opt[int]", "sup.Opt[string]", "sup.Box[int]", "sup.Stamp",
		"other.Kind", "other.Rank", "other.Rec", "odd.Size", "odd.Names", "ver.ID", "ver.Weight",
		"time.Time", "json.RawMessage", "json.Number", "sql.NullString", "sql.NullInt64", "sql.NullTime", "any")
	for _, b := range basics {
		if b != "byte" {
			add("[]" + b)
		}
	}
	add("[]LString", "[]LInt", "[]LBool", "[]sup.Level", "[]sup.Str", "[]sup.Inner", "[]sup.Date", "[]time.Time", "[][]byte", "[][]int", "[]*int", "[]*string", "[]any",
		"[4]byte", "[3]rune", "[2]string", "[2]int", "[2]bool", "[2]LString", "[2]sup.Level", "[1]sup.Inner",
		"map[string]int", "map[string]sup.Inner", "map[sup.Str][]int", "struct{ A string; B int }", "struct{ T time.Time; L sup.Level }")
	for _, f := range append([]field{}, out...) {
		add("*" + f.Expr)
	}
	return
}

var six = []genx.Cfg{
	{Name: "mysql", Driver: "mysql"}, {Name: "mysqlq", Driver: "mysql", Quote: true},
	{Name: "pg", Driver: "postgres"}, {Name: "pgq", Driver: "postgres", Quote: true},
	{Name: "sqlite", Driver: "sqlite"}, {Name: "sqliteq", Driver: "sqlite", Quote: true},
}

func g02Suites(r *report.Run) (suites []*suite) {
	types := fieldTypes()
	for _, c := range six {
		s := &suite{Name: "t" + c.Name, Cfg: c, Prelude: prelude}
		for _, f := range types {
			s.Models = append(s.Models, model{Desc: f.Desc, Src: fmt.Sprintf("type $T struct {\n\tID int64 `sql:\",pk\"`\n\tF %s\n\tZ string\n}", f.Expr)})
		}
		n := 3
		if r.Thorough() {
			n = 4
		}
		s.Models = append(s.Models, roleModels(n)...)
		suites = append(suites, s)
	}
	return
}

func g02(r *report.Run) {
	suites := g02Suites(r)
	each(len(suites), func(i int) { suites[i].build(r) })
	compile(r, suites)
	probe(r, suites, "types")
}

// roleModels assigns every combination of key roles to the columns, in plain
// and in readonly tables, and spells every option in several ways.
func roleModels(n int) (out []model) {
	roles := []string{"", ",pk", ",readonly", ",auto_increment", ",pk,auto_increment"}
	types := []string{"int64", "*string", "uint16", "time.Time"}[:n]
	ix := make([]int, n)
	for {
		autos := 0
		ok := true
		for i, x := range ix {
			if x >= 3 {
				autos++
				ok = ok && (i == 0 || i == 2)
			}
		}
		if ok && autos <= 1 {
			var body, desc strings.Builder
			for i, x := range ix {
				fmt.Fprintf(&body, "\t%c %s `sql:\"%s\"`\n", 'A'+i, types[i], roles[x])
				desc.WriteString(strings.ReplaceAll("/"+strings.TrimPrefix(roles[x], ","), ",", "+"))
			}
			out = append(out,
				model{Desc: "roles" + desc.String(), Src: "type $T struct {\n" + body.String() + "}"},
				model{Desc: "readonly roles" + desc.String(), Opts: "readonly", Src: "// $T is a view.\n// +sql:readonly\ntype $T struct {\n" + body.String() + "}"})
		}
		i := 0
		for ; i < n; i++ {
			if ix[i]++; ix[i] < len(roles) {
				break
			}
			ix[i] = 0
		}
		if i == n {
			break
		}
	}
	for _, sp := range []string{"id,primary_key", "id,PK", "id , pk", ",pk ", "id,Primary_Key,size:20", "id,pk,auto_increment", "id,auto_increment,unsigned", "id,AUTO_INCREMENT", "ID,pk,unique", "I_d9,size:3,index", ",unknown_option", "id,readonly", "id,ReadOnly", ",", " "} {
		out = append(out, model{Desc: "spelling/" + sp, Src: "type $T struct {\n\tName string\n\tID int32 `json:\"x,pk\" sql:\"" + sp + "\" db:\"other\"`\n\tZ bool\n}"})
	}
	return
}
