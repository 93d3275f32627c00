package genx

import (
	"context"
	"database/sql/driver"
	"encoding"
	"fmt"
	"hash/fnv"
	"reflect"
	"regexp"
	"runtime/debug"
	"strings"
	"time"

	"vh/gensup/conv"
	"vh/report"
)

type checker struct {
	r      *report.Run
	e      *Entry
	m      *Model
	states map[uint64]struct{}
	trans  int
	traces int
}

func (c *checker) bad(aspect, f string, a ...any) {
	msg := fmt.Sprintf(f, a...)
	c.r.Violate(c.e.Key()+"/"+aspect, c.e.Key()+": "+msg, map[string]any{
		"configuration": c.e.Cfg.Name, "model": c.e.Pkg + "." + c.e.Name, "struct": fmt.Sprint(c.m.T), "fields": describe(c.m.T), "what": msg})
}

func describe(t reflect.Type) (out []string) {
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		out = append(out, fmt.Sprintf("%s %s `%s`", f.Name, f.Type, f.Tag))
	}
	return
}

func (c *checker) state(s string) {
	h := fnv.New64a()
	h.Write([]byte(s))
	c.states[h.Sum64()] = struct{}{}
}

// guard runs f; a panic is a violation.
func (c *checker) guard(aspect string, f func()) {
	defer func() {
		if e := recover(); e != nil {
			st := strings.Split(string(debug.Stack()), "\n")
			if len(st) > 24 {
				st = st[:24]
			}
			c.bad(aspect, "panic: %v %s", e, strings.Join(st, " "))
		}
	}()
	f()
}

// call calls a method without arguments (or with the given ones).
func call(v reflect.Value, name string, args ...any) ([]any, bool) {
	m := v.MethodByName(name)
	if !m.IsValid() {
		return nil, false
	}
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		in[i] = reflect.ValueOf(a)
	}
	if m.Type().NumIn() != len(in) {
		return nil, false
	}
	out := m.Call(in)
	res := make([]any, len(out))
	for i, o := range out {
		res[i] = o.Interface()
	}
	return res, true
}

func (c *checker) must(v reflect.Value, name string, args ...any) []any {
	r, ok := call(v, name, args...)
	if !ok {
		panic("method " + name + " is missing")
	}
	return r
}

// Check runs everything on one model.
func Check(r *report.Run, e *Entry, rename func(string) string) {
	t := reflect.TypeOf(e.New()).Elem()
	c := &checker{r: r, e: e, m: Expect(t, e.Cfg, rename), states: map[uint64]struct{}{}}
	r.State(e.Key())
	if c.shape() {
		c.values()
	}
	r.States(c.states)
	r.Transition(c.trans)
	r.Trace(c.traces)
	r.Eval(len(c.states))
}

func eq(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (c *checker) names(idx []int) (out []string) {
	for _, i := range idx {
		out = append(out, c.e.Cfg.Ident(c.m.Cols[i].Name))
	}
	return
}

func all(n int) (out []int) {
	for i := 0; i < n; i++ {
		out = append(out, i)
	}
	return
}

// shape checks everything that does not depend on the values.
func (c *checker) shape() (ok bool) {
	c.guard("shape", func() {
		p := reflect.ValueOf(c.e.New())
		m, cfg := c.m, c.e.Cfg
		if got := c.must(p, "TableName")[0].(string); got != cfg.Ident(m.Table) {
			c.bad("table", "TableName() = %q, want %q", got, cfg.Ident(m.Table))
		}
		cols := c.must(p, "Columns")[0].([]string)
		if !eq(cols, c.names(all(len(m.Cols)))) {
			c.bad("columns", "Columns() = %q, want %q", cols, c.names(all(len(m.Cols))))
			return
		}
		c.state("columns" + fmt.Sprint(cols))
		if n := len(c.must(p, "Addrs")[0].([]any)); n != len(cols) {
			c.bad("addrs", "%d columns, %d addresses", len(cols), n)
			return
		}
		if len(m.Inserts) > 0 && !c.e.readonly() {
			if n := len(c.must(p, "Values")[0].([]any)); n != len(m.Inserts) {
				c.bad("values", "%d columns to write, %d values", len(m.Inserts), n)
				return
			}
			ins, has := call(p, "InsertColumns")
			switch {
			case has && !eq(ins[0].([]string), c.names(m.Inserts)):
				c.bad("insertcolumns", "InsertColumns() = %q, want %q", ins[0], c.names(m.Inserts))
			case !has && len(m.Inserts) != len(m.Cols):
				c.bad("insertcolumns", "there is no InsertColumns() although only %q are written", c.names(m.Inserts))
			}
			for row := 0; row < 3; row++ {
				ph := c.must(p, "InsertPlaceholders", row)[0].(string)
				want, bare := make([]string, len(m.Inserts)), make([]string, len(m.Inserts))
				for i, x := range m.Inserts {
					bare[i] = cfg.Var(row*len(m.Inserts) + i + 1)
					want[i] = c.sqlValue(x, bare[i])
				}
				if ph == "("+strings.Join(bare, ",")+")" && cfg.Var(1) == cfg.Var(2) && !strings.Contains(c.e.Opts, "placeholders") {
					continue // decided by the model with this option only
				}
				if ph != "("+strings.Join(want, ",")+")" {
					c.bad("placeholders", "InsertPlaceholders(%d) = %s, want (%s)", row, ph, strings.Join(want, ","))
				}
			}
		}
		_, haspk := call(p, "HasPK")
		_, pk := call(p, "PK")
		_, ck := call(p, "CompositeKey")
		_, auto := call(p, "IsAutoIncr")
		if haspk != (len(m.Keys) > 0) || pk != (len(m.Keys) == 1) || ck != (len(m.Keys) > 1) || auto != (m.Auto >= 0) {
			c.bad("keykind", "HasPK=%v PK=%v CompositeKey=%v IsAutoIncr=%v for keys %q, auto-increment %v", haspk, pk, ck, auto, c.names(m.Keys), m.Auto >= 0)
			return
		}
		if sc, ok := call(p, "SQLColumns"); ok || c.customScan() {
			want := make([]string, len(m.Cols))
			for i := range m.Cols {
				want[i] = c.sqlScan(i, cfg.Ident(m.Cols[i].Name))
			}
			if !ok {
				c.bad("sqlcolumns", "there is no SQLColumns(), want %q", want)
			} else if !eq(sc[0].([]string), want) {
				c.bad("sqlcolumns", "SQLColumns() = %q, want %q", sc[0], want)
			}
		}
		ok = true
	})
	return
}

func (e *Entry) readonly() bool { return strings.Contains(e.Opts, "readonly") }

func (c *checker) custom(i int) (Custom, bool) {
	t := c.m.Cols[i].Type
	for t.Kind() == reflect.Pointer {
		t = t.Elem()
	}
	name := t.String()
	if t.PkgPath() != "" {
		name = t.PkgPath() + "." + t.Name()
	}
	x, ok := c.e.Cfg.Custom[name]
	return x, ok
}

func (c *checker) customScan() bool {
	for i := range c.m.Cols {
		if x, ok := c.custom(i); ok && x.SQLScan != "" {
			return true
		}
	}
	return false
}

func (c *checker) sqlValue(i int, ph string) string {
	// the database makes up the value of an auto-increment key
	if x, ok := c.custom(i); ok && x.SQLValue != "" && i != c.m.Auto {
		return strings.ReplaceAll(x.SQLValue, "%s", ph)
	}
	return ph
}

func (c *checker) sqlScan(i int, col string) string {
	if x, ok := c.custom(i); ok && x.SQLScan != "" {
		return strings.ReplaceAll(x.SQLScan, "%s", col)
	}
	return col
}

// build makes a model whose column i holds v (allocating embedded pointers on
// the way), everything else zero.
func (c *checker) build(i int, v reflect.Value) reflect.Value {
	p := reflect.ValueOf(c.e.New())
	c.set(p, i, v)
	return p
}

func (c *checker) set(p reflect.Value, i int, v reflect.Value) {
	f := p.Elem()
	for k, x := range c.m.Cols[i].Index {
		if k > 0 && f.Kind() == reflect.Pointer {
			if f.IsNil() {
				f.Set(reflect.New(f.Type().Elem()))
			}
			f = f.Elem()
		}
		f = f.Field(x)
		if !f.CanSet() {
			f = peek(f)
		}
	}
	f.Set(v)
}

func (c *checker) get(p reflect.Value, i int) (reflect.Value, bool) {
	f := p.Elem()
	for k, x := range c.m.Cols[i].Index {
		if k > 0 && f.Kind() == reflect.Pointer {
			if f.IsNil() {
				return reflect.Value{}, false
			}
			f = f.Elem()
		}
		f = f.Field(x)
		if !f.CanInterface() {
			f = peek(f)
		}
	}
	return f, true
}

// cmpArgs compares two argument lists as the database sees them.
func show(v any) string {
	if b, ok := v.([]byte); ok && b != nil {
		return fmt.Sprintf("[]byte(%q)", b)
	}
	return fmt.Sprintf("%T(%#v)", v, v)
}

func same(a, b driver.Value) bool { return show(a) == show(b) }

func (c *checker) wire(db *Echo, vals []any) ([]driver.Value, error) {
	d := db.DB()
	defer d.Close()
	_, err := d.ExecContext(context.Background(), "", vals...)
	return db.Args, err
}

func (c *checker) scanAll(db *Echo, row []driver.Value, p reflect.Value) error {
	db.Row = row
	d := db.DB()
	defer d.Close()
	return d.QueryRowContext(context.Background(), "").Scan(c.must(p, "Addrs")[0].([]any)...)
}

// values enumerates, for every column, every value of its domain in an
// otherwise zero model and in an otherwise full one.
func (c *checker) values() {
	m := c.m
	db := &Echo{MySQL: c.e.Cfg.Driver == "mysql"}
	doms := make([][]reflect.Value, len(m.Cols))
	for i, col := range m.Cols {
		doms[i] = c.domain(col, 3)
	}
	full := func() reflect.Value {
		p := reflect.ValueOf(c.e.New())
		for i := range m.Cols {
			d := doms[i]
			c.set(p, i, d[len(d)-1-(i%2)*b2i(len(d) > 2)])
		}
		return p
	}
	for i, col := range m.Cols {
		for k, v := range doms[i] {
			for _, base := range []string{"zero", "full"} {
				if base == "full" && len(m.Cols) == 1 {
					continue
				}
				aspect := col.Field
				c.guard(aspect, func() {
					var p reflect.Value
					if base == "zero" {
						p = c.build(i, v)
					} else {
						p = full()
						c.set(p, i, v)
					}
					c.state(fmt.Sprintf("%d/%d/%s", i, k, base))
					c.one(db, p, aspect)
				})
				c.trans++
			}
		}
	}
	// the wholly zero model, embedded pointers nil
	c.guard("zero", func() { c.one(db, reflect.ValueOf(c.e.New()), "zero") })
	c.trans++
}

// Nullable reports whether database/sql itself reads NULL into the type.
func Nullable(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Bool, reflect.String, reflect.Int64, reflect.Float64:
		return false
	}
	return t != reflect.TypeOf(time.Time{})
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// one checks every method of one model value against its fields.
func (c *checker) one(db *Echo, p reflect.Value, aspect string) {
	m, cfg := c.m, c.e.Cfg
	before := snapshot(p)
	n := len(m.Cols)
	wires := make([]driver.Value, n)
	getters := make([]any, n)
	for i, col := range m.Cols {
		g, ok := call(p, col.Field+"Value")
		if !ok {
			c.bad("getter", "%sValue() is missing", col.Field)
			return
		}
		getters[i] = g[0]
		w, err := c.wire(db, []any{g[0]})
		if err != nil {
			c.bad(aspect+"/wire", "%sValue() of %s cannot be sent: %v", col.Field, c.str(p, i), err)
			return
		}
		wires[i] = w[0]
		fv, live := c.get(p, i)
		if live {
			x, _ := c.custom(i)
			if want := conv.Token(fv); x.Value && !same(want, wires[i]) {
				c.bad(aspect+"/value", "%sValue() of %s sends %s, the configured type sends %s", col.Field, c.str(p, i), show(wires[i]), show(want))
			} else if s, ok := wires[i].(string); ok && !x.Value && strings.HasPrefix(s, "~") {
				c.bad(aspect+"/value", "%sValue() of %s sends %s, the value of a configured type", col.Field, c.str(p, i), show(wires[i]))
			}
		}
		if !live {
			if wires[i] != nil {
				c.bad(aspect+"/nil", "%sValue() = %s although its embedded pointer is nil", col.Field, show(wires[i]))
			}
			continue
		}
		if fv.Kind() == reflect.Pointer && fv.IsNil() && wires[i] != nil {
			c.bad(aspect+"/nil", "%sValue() = %s for a nil pointer", col.Field, show(wires[i]))
		}
		// the column getter
		cg, ok := call(p, cfg.Prefix+col.Field)
		if !ok {
			c.bad("columngetter", "%s%s() is missing", cfg.Prefix, col.Field)
			return
		}
		cv := reflect.ValueOf(cg[0])
		if name := c.must(cv, "ColumnName")[0].(string); name != cfg.Ident(col.Name) {
			c.bad("columngetter", "%s%s().ColumnName() = %q, want %q", cfg.Prefix, col.Field, name, cfg.Ident(col.Name))
		}
		if x, _ := c.custom(i); x.SQLValue != "" && strings.Contains(c.e.Opts, "conditions") {
			if sc, ok := call(cv, "SQLColumn", "<?>"); !ok {
				c.bad("condition", "%s%s() in a condition sends the value without its SQL expression %s", cfg.Prefix, col.Field, x.SQLValue)
			} else if sc[0] != c.sqlValue(i, "<?>") {
				c.bad("condition", "%s%s() in a condition is %v, want %s", cfg.Prefix, col.Field, sc[0], c.sqlValue(i, "<?>"))
			}
		}
		val := cv.MethodByName("Value").Call(nil)[0]
		if val.Type() != fv.Type() || !Equal(val, fv) {
			c.bad("columngetter", "%s%s().Value() = %#v, the field is %s", cfg.Prefix, col.Field, val, c.str(p, i))
		}
		arg := val.Interface()
		if conv := cv.MethodByName("Convert"); conv.IsValid() {
			arg = conv.Call([]reflect.Value{val})[0].Interface()
		}
		w, err = c.wire(db, []any{arg})
		if err != nil {
			c.bad("columngetter", "%s%s() of %s cannot be sent: %v", cfg.Prefix, col.Field, c.str(p, i), err)
		} else if !same(w[0], wires[i]) {
			c.bad("columngetter", "%s%s() sends %s, %sValue() sends %s", cfg.Prefix, col.Field, show(w[0]), col.Field, show(wires[i]))
		}
	}
	pick := func(idx []int) (out []driver.Value) {
		for _, i := range idx {
			out = append(out, wires[i])
		}
		return
	}
	args := func(what string, a []any, idx []int) {
		w, err := c.wire(db, a)
		if err != nil {
			c.bad(what, "the arguments of %s cannot be sent: %v", what, err)
			return
		}
		want := pick(idx)
		if len(w) != len(want) {
			c.bad(what, "%s has %d arguments, want %d", what, len(w), len(want))
			return
		}
		for i := range w {
			if !same(w[i], want[i]) {
				c.bad(what, "%s: argument %d is %s, column %s holds %s", what, i, show(w[i]), m.Cols[idx[i]].Name, show(want[i]))
			}
		}
	}
	if len(m.Inserts) > 0 && !c.e.readonly() {
		args("Values", c.must(p, "Values")[0].([]any), m.Inserts)
		st := c.must(p, "InsertOneStmt")
		args("InsertOneStmt", st[1].([]any), m.Inserts)
		c.stmt("InsertOneStmt", p, st[0].(string), m.Inserts, nil)
	}
	if len(m.Keys) == 1 {
		k := c.must(p, "PK")
		if k[0].(string) != cfg.Ident(m.Cols[m.Keys[0]].Name) || k[1].(int) != m.Keys[0] {
			c.bad("PK", "PK() = %v, %v, want %q, %d", k[0], k[1], cfg.Ident(m.Cols[m.Keys[0]].Name), m.Keys[0])
		}
		args("PK", []any{k[2]}, m.Keys)
	} else if len(m.Keys) > 1 {
		k := c.must(p, "CompositeKey")
		if !eq(k[0].([]string), c.names(m.Keys)) || fmt.Sprint(k[1]) != fmt.Sprint(m.Keys) {
			c.bad("CompositeKey", "CompositeKey() = %v, %v, want %q, %d", k[0], k[1], c.names(m.Keys), m.Keys)
		}
		args("CompositeKey", k[2].([]any), m.Keys)
	}
	if len(m.Keys) > 0 {
		st := c.must(p, "FindOneByPKStmt")
		args("FindOneByPKStmt", st[1].([]any), m.Keys)
		c.stmt("FindOneByPKStmt", p, st[0].(string), nil, m.Keys)
		var upd []int
		for i, col := range m.Cols {
			if !col.ReadOnly && !col.Auto && !in(m.Keys, i) && !(col.PK && m.Auto < 0) {
				upd = append(upd, i)
			}
		}
		if m.Auto >= 0 {
			// other key columns next to an auto-increment one stay as they are
			upd = upd[:0]
			for i, col := range m.Cols {
				if !col.ReadOnly && !col.Auto && !col.PK {
					upd = append(upd, i)
				}
			}
		}
		st, has := call(p, "UpdateOneByPKStmt")
		if has != (len(upd) > 0 && !c.e.readonly()) {
			c.bad("UpdateOneByPKStmt", "UpdateOneByPKStmt exists: %v, %d columns can be updated", has, len(upd))
		} else if has {
			args("UpdateOneByPKStmt", st[1].([]any), append(append([]int{}, upd...), m.Keys...))
			c.stmt("UpdateOneByPKStmt", p, st[0].(string), upd, m.Keys)
		}
		if st, has := call(p, "DeleteOneByPKStmt"); has {
			args("DeleteOneByPKStmt", st[1].([]any), m.Keys)
		}
	}
	// what is stored is what the reader of a configured type takes
	stored := append([]driver.Value{}, wires...)
	for i := range stored {
		x, ok := c.custom(i)
		fv, live := c.get(p, i)
		switch {
		case !ok || !live || x.Value == x.Scan:
		case x.Scan:
			stored[i] = conv.Token(fv)
		default:
			d, ok := plain(fv)
			if !ok {
				stored = nil
			} else {
				stored[i] = d
			}
		}
		if stored == nil {
			break
		}
	}
	// reading back
	for form := 0; stored != nil && form < 3; form++ {
		row := make([]driver.Value, n)
		any := false
		for i := range row {
			w := Wires(cfg.Driver, stored[i])
			if form < len(w) {
				row[i], any = w[form], true
			} else {
				row[i] = w[0]
			}
			// a column that cannot be NULL does not come back as NULL
			if _, live := c.get(p, i); !live && row[i] == nil && !Nullable(m.Cols[i].Type) {
				if x, ok := c.custom(i); ok && x.Value != x.Scan {
					if x.Value {
						row[i], _ = plain(reflect.Zero(m.Cols[i].Type))
					}
					continue
				}
				z, err := c.wire(db, c.must(c.build(i, reflect.Zero(m.Cols[i].Type)), m.Cols[i].Field+"Value"))
				if err != nil {
					panic(err)
				}
				row[i] = Wires(cfg.Driver, z[0])[0]
			}
		}
		if !any {
			break
		}
		q := reflect.ValueOf(c.e.New())
		if err := c.scanAll(db, row, q); err != nil {
			c.bad(aspect+"/scan", "%s written as %s cannot be read back: %v", c.all(p), shows(row), err)
			continue
		}
		c.traces++
		for i, col := range m.Cols {
			want, live := c.get(p, i)
			got, glive := c.get(q, i)
			if !glive {
				c.bad(aspect+"/alloc", "reading leaves the embedded pointer above %s nil", col.Field)
				continue
			}
			if !live {
				want = reflect.Zero(col.Type)
			}
			// a pointer to an absent value (nil list, invalid optional) is NULL
			if (row[i] == nil || fmt.Sprintf("%s", row[i]) == "null") && want.Kind() == reflect.Pointer && !want.IsNil() && want.Elem().IsZero() && want.Elem().Kind() != reflect.String {
				want = reflect.Zero(col.Type)
			}
			if !Equal(want, got) {
				c.bad(aspect+"/roundtrip", "column %s: wrote %#v as %s, read back %#v", col.Name, deref(want), show(row[i]), deref(got))
			}
		}
		// nothing but the columns changes
		if d := c.unmapped(q); d != "" {
			c.bad(aspect+"/unmapped", "reading changed %s, which is not a column", d)
		}
		// scanning into a used model replaces its content
		if form == 0 {
			u := c.dirty()
			if err := c.scanAll(db, row, u); err != nil {
				c.bad(aspect+"/rescan", "reading into a used model: %v", err)
			} else {
				for i, col := range m.Cols {
					a, _ := c.get(q, i)
					b, ok := c.get(u, i)
					if !ok || !Equal(a, b) {
						c.bad(aspect+"/rescan", "column %s: reading %s into a used model gives %#v instead of %#v", col.Name, show(row[i]), deref(b), deref(a))
					}
				}
			}
		}
	}
	if snapshot(p) != before {
		c.bad(aspect+"/mutated", "the methods changed the model")
	}
}

func init() {
	conv.Text = func(v reflect.Value) string {
		var b strings.Builder
		dump(&b, v)
		return b.String()
	}
}

// plain is how a value is stored without any configuration, if that is the same everywhere.
func plain(v reflect.Value) (driver.Value, bool) {
	for v.Kind() == reflect.Pointer {
		if v.IsNil() {
			return nil, true
		}
		v = v.Elem()
	}
	switch x := v.Interface().(type) {
	case driver.Valuer:
		d, err := x.Value()
		return d, err == nil
	case time.Time:
		return x, true
	case encoding.TextMarshaler:
		b, err := x.MarshalText()
		return string(b), err == nil
	}
	switch v.Kind() {
	case reflect.String:
		return v.String(), true
	case reflect.Bool:
		return v.Bool(), true
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int64:
		return v.Int(), true
	case reflect.Uint, reflect.Uint16, reflect.Uint32:
		return int64(v.Uint()), true
	case reflect.Float32, reflect.Float64:
		return v.Float(), true
	}
	return nil, false
}

// domain lists the values of a column; runes are characters, int32 any number.
func (c *checker) domain(col Col, depth int) (out []reflect.Value) {
	for _, v := range Domain(col.Type, depth) {
		if !strings.Contains(c.e.Desc, "rune") || chars(v) {
			out = append(out, v)
		}
	}
	return
}

func chars(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Int32:
		return validRune(v)
	case reflect.Pointer:
		return v.IsNil() || chars(v.Elem())
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if !chars(v.Index(i)) {
				return false
			}
		}
	}
	return true
}

func in(l []int, x int) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

// dirty is a model with every column set to the last value of its domain.
func (c *checker) dirty() reflect.Value {
	p := reflect.ValueOf(c.e.New())
	for i, col := range c.m.Cols {
		d := c.domain(col, 2)
		c.set(p, i, d[len(d)-1])
	}
	return p
}

func (c *checker) str(p reflect.Value, i int) string {
	v, ok := c.get(p, i)
	if !ok {
		return "(nil embedded pointer)"
	}
	return fmt.Sprintf("%#v", deref(v))
}

func (c *checker) all(p reflect.Value) string {
	var s []string
	for i := range c.m.Cols {
		s = append(s, c.str(p, i))
	}
	return strings.Join(s, ", ")
}

func shows(r []driver.Value) string {
	var s []string
	for _, v := range r {
		s = append(s, show(v))
	}
	return strings.Join(s, ", ")
}

func deref(v reflect.Value) any {
	if !v.IsValid() {
		return "(nothing)"
	}
	for v.Kind() == reflect.Pointer && !v.IsNil() {
		v = v.Elem()
	}
	return v.Interface()
}

func snapshot(p reflect.Value) string {
	var b strings.Builder
	dump(&b, p.Elem())
	return b.String()
}

func dump(b *strings.Builder, v reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			b.WriteString("nil;")
			return
		}
		b.WriteByte('&')
		dump(b, v.Elem())
	case reflect.Struct:
		b.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			dump(b, v.Field(i))
		}
		b.WriteByte('}')
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			b.WriteString("nil;")
			return
		}
		b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			dump(b, v.Index(i))
		}
		b.WriteByte(']')
	default:
		fmt.Fprintf(b, "%v;", v)
	}
}

// unmapped names a field which is no column and is not zero.
func (c *checker) unmapped(p reflect.Value) string {
	mapped := map[string]bool{}
	for _, col := range c.m.Cols {
		mapped[fmt.Sprint(col.Index)] = true
		for k := range col.Index {
			mapped[fmt.Sprint(col.Index[:k])+"+"] = true
		}
	}
	var walk func(v reflect.Value, idx []int) string
	walk = func(v reflect.Value, idx []int) string {
		for i := 0; i < v.NumField(); i++ {
			at := append(append([]int{}, idx...), i)
			k := fmt.Sprint(at)
			if mapped[k] {
				continue
			}
			f := v.Field(i)
			if mapped[k+"+"] {
				if f.Kind() == reflect.Pointer {
					if f.IsNil() {
						continue
					}
					f = f.Elem()
				}
				if d := walk(f, at); d != "" {
					return d
				}
				continue
			}
			if !f.IsZero() {
				return v.Type().Field(i).Name
			}
		}
		return ""
	}
	return walk(p.Elem(), nil)
}

// stmt checks the text of a generated statement: the written columns, the
// selected ones and the key ones, in order, with their placeholders.
func (c *checker) stmt(what string, p reflect.Value, got string, write, where []int) {
	m, cfg := c.m, c.e.Cfg
	q := func(idx []int) (out []string) {
		for _, i := range idx {
			out = append(out, cfg.QIdent(m.Cols[i].Name))
		}
		return
	}
	sel := func() string {
		var out []string
		for i := range m.Cols {
			out = append(out, c.sqlScan(i, cfg.QIdent(m.Cols[i].Name)))
		}
		return strings.Join(out, ",")
	}
	ph := func(idx []int, from int) (out []string) {
		for k, i := range idx {
			out = append(out, c.sqlValue(i, cfg.Var(from+k)))
		}
		return
	}
	table := cfg.QIdent(m.Table)
	key := func(from int) string {
		if len(where) == 1 {
			return q(where)[0] + " = " + ph(where, from)[0]
		}
		return "(" + strings.Join(q(where), ",") + ") = (" + strings.Join(ph(where, from), ",") + ")"
	}
	var want string
	switch what {
	case "InsertOneStmt":
		want = "INSERT INTO " + table + " (" + strings.Join(q(write), ",") + ") VALUES (" + strings.Join(ph(write, 1), ",") + ")"
		if cfg.Driver == "postgres" {
			want += " RETURNING " + sel()
		}
	case "FindOneByPKStmt":
		want = "SELECT " + sel() + " FROM " + table + " WHERE " + key(1) + " LIMIT 1"
	case "UpdateOneByPKStmt":
		var set []string
		for k, s := range q(write) {
			set = append(set, s+" = "+ph(write, 1)[k])
		}
		want = "UPDATE " + table + " SET " + strings.Join(set, ",") + " WHERE " + key(len(write)+1)
	}
	if norm(got) != norm(want) {
		c.bad(what, "%s sends %s, want %s", what, got, want)
	}
}

// norm forgets white space next to punctuation and the final semicolon.
var spaceRx = regexp.MustCompile(`\s*([(),=;])\s*|\s+`)

func norm(s string) string {
	s = spaceRx.ReplaceAllStringFunc(s, func(x string) string {
		if t := strings.TrimSpace(x); t != "" {
			return t
		}
		return " "
	})
	return strings.TrimSuffix(strings.TrimSpace(s), ";")
}
