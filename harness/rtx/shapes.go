// Package rtx drives the generated runtime packages of every configuration
// against the reference database and enumerates their behaviours.
package rtx

import (
	"fmt"
	"reflect"
	"strings"
	"time"

	"vh/minisql"
)

// Col describes one column of a model, written independently of the generator.
type Col struct {
	Name, Field, Go string
	Kind            minisql.Kind
	PK, Auto, RO    bool
	Upper           bool // stored through UPPER(?), read through LOWER(col)
	Null, Unique    bool
}

// Shape describes a model type.
type Shape struct {
	Name  string
	Table string
	DB    string
	Cols  []Col
	Hand  bool     // hand-written model, not generated
	Kw    bool     // needs quoting
	Dup   []string // DuplicateKeys() of the model
	Order []string // order of the key columns where it is not that of the columns
}

const (
	kI = minisql.KInt
	kT = minisql.KText
	kB = minisql.KBool
	kD = minisql.KTime
)

func c(name, field, typ string, k minisql.Kind, flags string) Col {
	x := Col{Name: name, Field: field, Go: typ, Kind: k}
	for _, f := range strings.Fields(flags) {
		switch f {
		case "pk":
			x.PK = true
		case "auto":
			x.PK, x.Auto = true, true
		case "ro":
			x.RO = true
		case "upper":
			x.Upper = true
		case "null":
			x.Null = true
		case "unique":
			x.Unique = true
		default:
			panic(f)
		}
	}
	return x
}

// Shapes lists every model of the fixture.
var Shapes = []*Shape{
	{Name: "Auto", Table: "auto", Cols: []Col{c("id", "ID", "int64", kI, "auto"), c("name", "Name", "string", kT, ""), c("age", "Age", "int", kI, "")}},
	{Name: "AutoMid", Table: "auto_mid", Cols: []Col{c("name", "Name", "string", kT, ""), c("id", "ID", "uint32", kI, "auto"), c("flag", "Flag", "bool", kB, ""), c("note", "Note", "*string", kT, "null")}},
	{Name: "AutoLast", Table: "auto_last", Cols: []Col{c("email", "Email", "string", kT, "unique"), c("score", "Score", "int16", kI, ""), c("id", "ID", "uint64", kI, "auto")}},
	{Name: "Plain", Table: "plain", Cols: []Col{c("id", "ID", "string", kT, "pk"), c("v", "V", "int64", kI, ""), c("w", "W", "string", kT, "")}},
	{Name: "PkMid", Table: "pk_mid", Cols: []Col{c("v", "V", "int64", kI, ""), c("code", "Key", "string", kT, "pk"), c("w", "W", "*int64", kI, "null"), c("at", "At", "time.Time", kD, "")}},
	{Name: "Comp", Table: "comp", Cols: []Col{c("a", "A", "int64", kI, "pk"), c("v", "V", "string", kT, ""), c("b", "B", "string", kT, "pk"), c("w", "W", "int64", kI, "")}},
	{Name: "Comp3", Table: "comp_3", Cols: []Col{c("a", "A", "int64", kI, "pk"), c("b", "B", "string", kT, "pk"), c("v", "V", "string", kT, ""), c("d", "D", "int64", kI, "pk"), c("w", "W", "int64", kI, "")}},
	{Name: "CompEnd", Table: "comp_end", Cols: []Col{c("v", "V", "*string", kT, "null"), c("b", "B", "string", kT, "pk"), c("a", "A", "int32", kI, "pk")}},
	{Name: "KeyOnly", Table: "key_only", Cols: []Col{c("a", "A", "int64", kI, "pk"), c("b", "B", "string", kT, "pk")}},
	{Name: "NoKey", Table: "no_key", Cols: []Col{c("a", "A", "string", kT, ""), c("b", "B", "int64", kI, "")}},
	{Name: "Ronly", Table: "ronly", Cols: []Col{c("v", "V", "string", kT, ""), c("id", "ID", "string", kT, "pk"), c("created", "Created", "string", kT, "ro"), c("w", "W", "int64", kI, "")}},
	{Name: "RonlyAuto", Table: "ronly_auto", Cols: []Col{c("created", "Created", "string", kT, "ro"), c("id", "ID", "int64", kI, "auto"), c("v", "V", "string", kT, "")}},
	{Name: "RonlyComp", Table: "ronly_comp", Cols: []Col{c("a", "A", "int64", kI, "pk"), c("created", "Created", "string", kT, "ro"), c("b", "B", "string", kT, "pk"), c("v", "V", "string", kT, "")}},
	{Name: "Custom", Table: "custom", Cols: []Col{c("c", "C", "model.Code", kT, "upper"), c("id", "ID", "int64", kI, "pk"), c("n", "N", "int64", kI, "")}},
	{Name: "CustomAuto", Table: "custom_auto", Cols: []Col{c("n", "N", "int64", kI, ""), c("id", "ID", "int64", kI, "auto"), c("c", "C", "model.Code", kT, "upper unique")}},
	{Name: "CustomKey", Table: "custom_key", Cols: []Col{c("c", "C", "model.Code", kT, "pk upper"), c("n", "N", "int64", kI, "")}},
	{Name: "InDb", Table: "in_db", DB: "other", Cols: []Col{c("id", "ID", "string", kT, "pk"), c("v", "V", "int64", kI, "")}},
	{Name: "InDbComp", Table: "in_db_comp", DB: "other", Cols: []Col{c("a", "A", "int64", kI, "pk"), c("b", "B", "string", kT, "pk"), c("v", "V", "int64", kI, "")}},
	{Name: "Named", Table: "named_by_method", Cols: []Col{c("id", "ID", "string", kT, "pk"), c("v", "V", "int64", kI, "")}},
	{Name: "Tagged", Table: "named_by_tag", Cols: []Col{c("id", "ID", "string", kT, "pk"), c("v", "V", "int64", kI, "")}},
	{Name: "Emb", Table: "emb", Cols: []Col{c("x", "Inner.X", "int64", kI, ""), c("y", "Inner.Y", "string", kT, ""), c("id", "ID", "string", kT, "pk")}},
	{Name: "Kw", Table: "order", Kw: true, Cols: []Col{c("group", "Group", "string", kT, ""), c("select", "Select", "int64", kI, "pk"), c("from", "From", "string", kT, "")}},
	{Name: "KwComp", Table: "table", Kw: true, Cols: []Col{c("where", "Where", "string", kT, "pk"), c("and", "And", "int64", kI, ""), c("set", "Set", "int64", kI, "pk")}},
	{Name: "HandAuto", Table: "hand_auto", Hand: true, Cols: []Col{c("email", "Email", "string", kT, "unique"), c("id", "ID", "int64", kI, "auto"), c("v", "V", "int64", kI, "")}, Dup: []string{"email"}},
	{Name: "HandAutoIC", Table: "hand_auto_ic", Hand: true, Cols: []Col{c("email", "Email", "string", kT, "unique"), c("id", "ID", "int64", kI, "auto"), c("v", "V", "int64", kI, "")}, Dup: []string{"email"}},
	{Name: "HandPlain", Table: "hand_plain", Hand: true, Cols: []Col{c("v", "V", "int64", kI, ""), c("id", "ID", "string", kT, "pk"), c("w", "W", "string", kT, "")}},
	{Name: "HandComp", Table: "hand_comp", Hand: true, Cols: []Col{c("b", "B", "string", kT, "pk"), c("v", "V", "int64", kI, ""), c("a", "A", "int64", kI, "pk"), c("w", "W", "string", kT, "")}, Order: []string{"a", "b"}},
	{Name: "HandComp3", Table: "hand_comp3", Hand: true, Cols: []Col{c("d", "D", "int64", kI, "pk"), c("v", "V", "string", kT, ""), c("a", "A", "int64", kI, "pk"), c("b", "B", "string", kT, "pk")}, Order: []string{"a", "b", "d"}},
	{Name: "HandRO", Table: "hand_ro", Hand: true, Cols: []Col{c("created", "Created", "string", kT, "ro"), c("v", "V", "int64", kI, ""), c("id", "ID", "string", kT, "pk")}},
}

// HasUpper tells whether a column is stored through an SQL expression.
func (s *Shape) HasUpper() bool {
	for _, c := range s.Cols {
		if c.Upper {
			return true
		}
	}
	return false
}

// Named finds a shape.
func Named(n string) *Shape {
	for _, s := range Shapes {
		if s.Name == n {
			return s
		}
	}
	panic("no shape " + n)
}

// KeyOrder returns the indexes of the key columns as the key lists them.
func (s *Shape) KeyOrder() (k []int) {
	for _, n := range s.Order {
		k = append(k, s.Idx(n))
	}
	if k == nil {
		k = s.Keys()
	}
	return
}

// Keys returns the indexes of the key columns.
func (s *Shape) Keys() (k []int) {
	for i, c := range s.Cols {
		if c.PK {
			k = append(k, i)
		}
	}
	return
}

// AutoIdx is the index of the auto-increment column, or -1.
func (s *Shape) AutoIdx() int {
	for i, c := range s.Cols {
		if c.Auto {
			return i
		}
	}
	return -1
}

// Idx returns a column's index.
func (s *Shape) Idx(name string) int {
	for i, c := range s.Cols {
		if c.Name == name {
			return i
		}
	}
	return -1
}

// Updatable columns are neither key nor read-only.
func (s *Shape) Updatable() (k []int) {
	for i, c := range s.Cols {
		if !c.PK && !c.RO {
			k = append(k, i)
		}
	}
	return
}

// NewTable builds the empty table of the shape.
func (s *Shape) NewTable() *minisql.Table {
	t := &minisql.Table{DB: s.DB, Name: s.Table}
	for i, c := range s.Cols {
		mc := minisql.Column{Name: c.Name, Kind: c.Kind, NotNull: !c.Null && !c.RO, Unique: c.Unique, AutoIncr: c.Auto}
		if c.RO {
			mc.Generated = func(n int64) any { return fmt.Sprintf("gen%d", n) }
		}
		t.Cols = append(t.Cols, mc)
		if c.PK {
			t.PK = append(t.PK, i)
		}
	}
	return t
}

var t0 = time.Date(2024, 2, 29, 23, 59, 58, 123456000, time.UTC)

// keyVal is the i-th key value of the j-th key column: keys are chosen so that
// distinct keys share components, and components swap between columns.
func (s *Shape) keyVals(i int) []any {
	ks := s.Keys()
	out := make([]any, len(ks))
	if len(ks) == 1 {
		cc := s.Cols[ks[0]]
		if cc.Kind == kI {
			out[0] = []any{int64(1), int64(2), int64(3), int64(4)}[i]
		} else {
			out[0] = []any{"a", "b'?\"", "c", "d"}[i]
		}
		return out
	}
	ints := []int64{1, 1, 2, 2}
	strs := []string{"x", "y?", "x", "y?"}
	if len(ks) == 3 {
		// any two components leave the first key ambiguous
		last := []int64{5, 6, 5, 5}
		ints, strs = []int64{1, 1, 1, 2}, []string{"x", "x", "y?", "x"}
		for j, k := range ks {
			switch c := s.Cols[k]; {
			case c.Name == "d":
				out[j] = last[i]
			case c.Kind == kI:
				out[j] = ints[i]
			default:
				out[j] = strs[i]
			}
		}
		return out
	}
	for j, k := range ks {
		if s.Cols[k].Kind == kI {
			out[j] = ints[i]
		} else {
			out[j] = strs[i]
		}
	}
	return out
}

// val is the v-th non-key value of column i in a row with key index k.
func (s *Shape) val(i, k, v int) any {
	c := s.Cols[i]
	if c.RO {
		return nil
	}
	if c.Unique {
		return fmt.Sprintf("u%d$1", k)
	}
	if c.Null && v == 2 {
		return nil
	}
	switch c.Kind {
	case kI:
		return int64(100*(i+1) + v)
	case kB:
		return v%2 == 1
	case kD:
		return t0.Add(time.Duration(v) * time.Hour)
	}
	return fmt.Sprintf("c%d';?v%d\\", i, v)
}

// Row builds the column values of a model: key index k, value variant v.
func (s *Shape) Row(k, v int) []any {
	out := make([]any, len(s.Cols))
	ks := s.Keys()
	kv := s.keyVals(k)
	for j, i := range ks {
		out[i] = kv[j]
	}
	for i := range s.Cols {
		if !s.Cols[i].PK {
			out[i] = s.val(i, k, v)
		}
	}
	return out
}

// Make builds a *T whose fields hold row.
func (o *Ops) Make(row []any) any {
	p := o.New()
	rv := reflect.ValueOf(p).Elem()
	for i, c := range o.Shape.Cols {
		setField(rv, c.Field, row[i])
	}
	return p
}

func setField(rv reflect.Value, path string, v any) {
	parts := strings.Split(path, ".")
	for i, p := range parts {
		f := rv.FieldByName(p)
		if i < len(parts)-1 {
			if f.Kind() == reflect.Ptr {
				if v == nil {
					return
				}
				if f.IsNil() {
					f.Set(reflect.New(f.Type().Elem()))
				}
				f = f.Elem()
			}
			rv = f
			continue
		}
		if v == nil {
			f.Set(reflect.Zero(f.Type()))
			return
		}
		if f.Kind() == reflect.Ptr {
			n := reflect.New(f.Type().Elem())
			n.Elem().Set(reflect.ValueOf(v).Convert(f.Type().Elem()))
			f.Set(n)
			return
		}
		f.Set(reflect.ValueOf(v).Convert(f.Type()))
	}
}

// Get reads the column values out of a *T.
func (o *Ops) Get(p any) []any {
	rv := reflect.ValueOf(p).Elem()
	out := make([]any, len(o.Shape.Cols))
	for i, c := range o.Shape.Cols {
		out[i] = getField(rv, c.Field)
	}
	return out
}

func getField(rv reflect.Value, path string) any {
	f := rv
	for _, p := range strings.Split(path, ".") {
		if f.Kind() == reflect.Ptr {
			if f.IsNil() {
				return nil
			}
			f = f.Elem()
		}
		f = f.FieldByName(p)
	}
	if f.Kind() == reflect.Ptr {
		if f.IsNil() {
			return nil
		}
		f = f.Elem()
	}
	return plain(f.Interface())
}

// plain normalises a Go value to the form rows are written in here.
func plain(v any) any {
	switch x := v.(type) {
	case nil:
		return nil
	case time.Time:
		return x.UTC()
	}
	rv := reflect.ValueOf(v)
	switch rv.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return rv.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return int64(rv.Uint())
	case reflect.String:
		return rv.String()
	case reflect.Bool:
		return rv.Bool()
	}
	return v
}

// Stored is how the database holds row (before generated columns are filled).
func (s *Shape) Stored(row []any, d minisql.Dialect) []any { return s.stored(row, d, false) }

// stored with raw leaves the SQL expressions of custom columns out.
func (s *Shape) stored(row []any, d minisql.Dialect, raw bool) []any {
	out := append([]any(nil), row...)
	for i, c := range s.Cols {
		switch x := out[i].(type) {
		case bool:
			if d != minisql.Postgres {
				out[i] = int64(0)
				if x {
					out[i] = int64(1)
				}
			}
		case string:
			if c.Upper && !raw {
				out[i] = strings.ToUpper(x)
			}
		}
	}
	return out
}

// Loaded is the inverse of Stored.
func (s *Shape) Loaded(row []any) []any {
	out := append([]any(nil), row...)
	for i, c := range s.Cols {
		switch x := out[i].(type) {
		case int64:
			if c.Kind == kB {
				out[i] = x != 0
			}
		case string:
			if c.Upper {
				out[i] = strings.ToLower(x)
			}
		}
	}
	return out
}

// Show renders a row.
func Show(row []any) string {
	var b strings.Builder
	b.WriteByte('(')
	for i, v := range row {
		if i > 0 {
			b.WriteString(", ")
		}
		switch x := v.(type) {
		case nil:
			b.WriteString("NULL")
		case string:
			fmt.Fprintf(&b, "%q", x)
		case time.Time:
			b.WriteString(x.UTC().Format(time.RFC3339Nano))
		default:
			fmt.Fprintf(&b, "%v", x)
		}
	}
	b.WriteByte(')')
	return b.String()
}

// ShowRows renders rows one after another.
func ShowRows(rows [][]any) string {
	p := make([]string, len(rows))
	for i := range rows {
		p[i] = Show(rows[i])
	}
	return "[" + strings.Join(p, " ") + "]"
}

// Getter is the field name the generated getters carry.
func (c Col) Getter() string {
	p := strings.Split(c.Field, ".")
	return p[len(p)-1]
}
