package genx

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"sync"

	"github.com/si3nloong/sqlgen/sequel"

	"vh/report"
)

// Marks a hand-written method that returns nothing leaves.
var (
	markMu sync.Mutex
	marks  = map[string]int{}
)

// Mark is called by hand-written methods without a result.
func Mark(model, method string) {
	markMu.Lock()
	marks[model+"."+method]++
	markMu.Unlock()
}

func marked(model, method string) int {
	markMu.Lock()
	defer markMu.Unlock()
	return marks[model+"."+method]
}

// HandColumn is the column hand-written getters return.
func HandColumn(v string) sequel.ColumnClause[string] { return sequel.BasicColumn("hand_column", v) }

// Hands are the results of the hand-written methods.
var Hands = map[string]string{
	"TableName": "hand_table", "DatabaseName": "hand_db", "PK": "hand_pk|41|hand", "CompositeKey": "[hand_key]|[42]|[hand]",
	"ScanAutoIncr": "hand error", "Columns": "[hand_col]", "SQLColumns": "[hand_sql]", "Values": "[hand_val]", "Addrs": "[hand_addr]",
	"InsertColumns": "[hand_ins]", "InsertPlaceholders": "(hand)", "InsertOneStmt": "hand insert|[hand]", "FindOneByPKStmt": "hand find|[hand]",
	"UpdateOneByPKStmt": "hand update|[hand]", "AValue": "hand a", "ColumnA": "hand_column|",
}

// invoke calls a method with fixed arguments and renders its results.
func invoke(p reflect.Value, name string) (out string, ok bool) {
	m := p.MethodByName(name)
	if !m.IsValid() {
		return "", false
	}
	in := make([]reflect.Value, m.Type().NumIn())
	for i := range in {
		switch t := m.Type().In(i); t.Kind() {
		case reflect.Int, reflect.Int64:
			in[i] = reflect.ValueOf(3).Convert(t)
		default:
			in[i] = reflect.Zero(t)
		}
	}
	var s []string
	for i, o := range m.Call(in) {
		x := o.Interface()
		switch {
		case name == "Addrs" && !strings.Contains(fmt.Sprint(x), "hand"):
			s = append(s, fmt.Sprintf("%d addresses", o.Len()))
		case name == "ScanAutoIncr" && i == 0 && x == nil:
			s = append(s, fmt.Sprint("nil, ", snapshot(p)))
		case strings.HasPrefix(name, "Column") && name != "Columns":
			c := reflect.ValueOf(x)
			s = append(s, c.MethodByName("ColumnName").Call(nil)[0].String(), fmt.Sprint(c.MethodByName("Value").Call(nil)[0]))
		default:
			s = append(s, fmt.Sprint(x))
		}
	}
	return strings.Join(s, "|"), true
}

// fill gives every field a value of its own.
func fill(v reflect.Value) {
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if !f.CanSet() {
			continue
		}
		switch f.Kind() {
		case reflect.String:
			f.SetString(fmt.Sprint("s", i))
		case reflect.Int, reflect.Int64, reflect.Int32:
			f.SetInt(int64(10 + i))
		case reflect.Uint32:
			f.SetUint(uint64(10 + i))
		case reflect.Bool:
			f.SetBool(true)
		case reflect.Struct:
			if v.Type().Field(i).Anonymous {
				fill(f)
			}
		}
	}
}

func methodSet(t reflect.Type) (out []string) {
	for i := 0; i < t.NumMethod(); i++ {
		out = append(out, t.Method(i).Name)
	}
	sort.Strings(out)
	return
}

// checkMethods compares a model some of whose methods are hand-written with its
// twin, for which all of them are generated. Opts is "KIND TABLE METHOD,METHOD…".
func checkMethods(r *report.Run, e *Entry) {
	c := &checker{r: r, e: e, states: map[uint64]struct{}{}}
	opt := strings.Split(e.Opts, " ")
	kind, table := opt[0], opt[1]
	hand := map[string]bool{}
	if opt[2] != "" {
		for _, m := range strings.Split(opt[2], ",") {
			hand[m] = true
		}
	}
	var twin *Entry
	for _, t := range entries {
		if t.Pkg == e.Pkg && t.Opts == kind+" "+table+" " {
			twin = t
		}
	}
	p, q := reflect.ValueOf(e.New()), reflect.ValueOf(twin.New())
	t := p.Elem().Type()
	c.m = &Model{T: t}
	r.State(e.Key())
	c.guard("methods", func() {
		fill(p.Elem())
		fill(q.Elem())
		tableOf := func(t reflect.Type) string {
			if table != "-" {
				return e.Cfg.QIdent(table)
			}
			return e.Cfg.QIdent(Rename(e.Cfg.Naming, t.Name()))
		}
		ref := tableOf(t)
		if hand["TableName"] {
			ref = Hands["TableName"]
		}
		if hand["DatabaseName"] {
			ref = Hands["DatabaseName"] + "." + ref
		}
		want := map[string]bool{}
		for _, m := range methodSet(q.Type()) {
			want[m] = true
		}
		for m := range hand {
			want[m] = true
		}
		for _, m := range methodSet(p.Type()) {
			if !want[m] {
				c.bad("extra", "there is a method %s which the model without hand-written methods does not have", m)
			}
		}
		for _, m := range keysOf(want) {
			before := marked(e.Name, m)
			got, ok := invoke(p, m)
			c.trans++
			c.traces++
			c.state(m)
			if !ok {
				c.bad(m, "%s is missing", m)
				continue
			}
			if _, value := t.MethodByName(m); value != (m != "Addrs" && m != "ScanAutoIncr") {
				c.bad(m, "%s is a method of the value: %v", m, value)
			}
			if hand[m] {
				exp, has := Hands[m]
				if has && !strings.HasPrefix(got, exp) || !has && marked(e.Name, m) == before {
					c.bad(m, "the hand-written %s is not the one in use: it returns %q", m, got)
				}
				continue
			}
			tw, _ := invoke(q, m)
			switch m {
			case "TableName":
				x := Rename(e.Cfg.Naming, t.Name())
				if table != "-" {
					x = table
				}
				tw = e.Cfg.Ident(x)
			case "InsertOneStmt", "FindOneByPKStmt", "UpdateOneByPKStmt":
				tref := tableOf(q.Elem().Type())
				if !strings.Contains(tw, " "+tref+" ") {
					c.bad(m, "the statement %q does not name the table %s", tw, tref)
				}
				tw = strings.Replace(tw, " "+tref+" ", " "+ref+" ", 1)
				if m == "InsertOneStmt" && hand["Values"] {
					tw, _, _ = strings.Cut(tw, "|")
					if kind == "plain" || kind == "pk" {
						tw += "|" + Hands["Values"]
					} else {
						got, _, _ = strings.Cut(got, "|")
					}
				}
			}
			if got != tw {
				c.bad(m, "%s gives %q, want %q, with hand-written %s", m, got, tw, opt[2])
			}
		}
	})
	r.States(c.states)
	r.Transition(c.trans)
	r.Trace(c.traces)
	r.Eval(c.trans)
}

func keysOf(m map[string]bool) (out []string) {
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return
}
