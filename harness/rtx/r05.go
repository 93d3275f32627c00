package rtx

import (
	"fmt"
	"sort"
	"strings"

	"github.com/si3nloong/sqlgen/sequel"

	"vh/minisql"
	"vh/report"
)

// tri is SQL's truth value.
type tri int8

const (
	no tri = iota
	yes
	unknown
)

func not(t tri) tri {
	switch t {
	case no:
		return yes
	case yes:
		return no
	}
	return unknown
}

func and(a, b tri) tri {
	switch {
	case a == no || b == no:
		return no
	case a == yes && b == yes:
		return yes
	}
	return unknown
}

func or(a, b tri) tri { return not(and(not(a), not(b))) }

func bool3(b bool) tri {
	if b {
		return yes
	}
	return no
}

// cond is a condition with its meaning on stored rows.
type cond struct {
	name  string // what is compared with what
	form  string // the same without the values
	build func() sequel.WhereClause
	eval  func(row []any, raw bool) tri
	args  []any
	upper bool // compares a column of the type with an SQL expression
}

// like matches a pattern; esc is the escape byte (0: none).
func likeRef(s, p string, esc byte) bool {
	if p == "" {
		return s == ""
	}
	switch c := p[0]; {
	case esc != 0 && c == esc && len(p) > 1:
		return s != "" && s[0] == p[1] && likeRef(s[1:], p[2:], esc)
	case c == '%':
		for i := 0; i <= len(s); i++ {
			if likeRef(s[i:], p[1:], esc) {
				return true
			}
		}
		return false
	case c == '_':
		return s != "" && likeRef(s[1:], p[1:], esc)
	default:
		return s != "" && s[0] == c && likeRef(s[1:], p[1:], esc)
	}
}

// domain of column i: model values.
func (s *Shape) domain(i int) []any {
	c := s.Cols[i]
	switch {
	case c.RO || c.Unique:
		return []any{"gen1", "gen'2"}
	case c.PK && c.Kind == kI:
		return []any{int64(1), int64(2), int64(3)}
	case c.PK:
		return []any{"k?0", "k'1", "k$1"}
	case c.Kind == kB:
		return []any{false, true}
	}
	out := []any{s.val(i, 0, 0), s.val(i, 0, 1)}
	if c.Null {
		out = append(out, nil)
	}
	return out
}

// leaf is a comparison of a column.
func (o *Ops) leaf(i int, g Getter, kind, op string, vals []any) cond {
	s := o.Shape
	d := o.Cfg.Dialect
	c := cond{
		name:  fmt.Sprintf("%s %s %s%s", s.Cols[i].Name, op, Show(vals), kind),
		form:  fmt.Sprintf("%s %s %d%s", s.Cols[i].Name, op, len(vals), kind),
		build: func() sequel.WhereClause { return g.Where(op, append([]any(nil), vals...)) },
		upper: s.Cols[i].Upper,
	}
	for _, v := range vals {
		if kind == "/convert" && v != nil {
			v = "k" + v.(string)
		}
		c.args = append(c.args, v)
	}
	c.eval = func(row []any, raw bool) tri {
		x := row[i]
		var a []any
		for _, v := range c.args {
			m := make([]any, len(s.Cols))
			m[i] = v
			v = s.stored(m, d, raw)[i]
			if kind == "/sql" && v != nil {
				v = "k" + v.(string)
			}
			a = append(a, v)
		}
		cmp := func(v any, holds func(int) bool) tri {
			if x == nil || v == nil {
				return unknown
			}
			return bool3(holds(Cmp(x, v)))
		}
		eq := func(n int) bool { return n == 0 }
		between := func() tri {
			return and(cmp(a[0], func(n int) bool { return n >= 0 }), cmp(a[1], func(n int) bool { return n <= 0 }))
		}
		in := func() tri {
			r := no
			for _, v := range a {
				r = or(r, cmp(v, eq))
			}
			return r
		}
		likes := func() tri {
			if x == nil || a[0] == nil {
				return unknown
			}
			esc := byte('\\')
			if d == minisql.SQLite {
				esc = 0
			}
			return bool3(likeRef(x.(string), a[0].(string), esc))
		}
		switch op {
		case "=":
			return cmp(a[0], eq)
		case "<>":
			return not(cmp(a[0], eq))
		case "<":
			return cmp(a[0], func(n int) bool { return n < 0 })
		case "<=":
			return cmp(a[0], func(n int) bool { return n <= 0 })
		case ">":
			return cmp(a[0], func(n int) bool { return n > 0 })
		case ">=":
			return cmp(a[0], func(n int) bool { return n >= 0 })
		case "in":
			return in()
		case "notin":
			return not(in())
		case "like":
			return likes()
		case "notlike":
			return not(likes())
		case "isnull":
			return bool3(x == nil)
		case "isnotnull":
			return bool3(x != nil)
		case "between":
			return between()
		case "notbetween":
			return not(between())
		}
		panic(op)
	}
	return c
}

// leaves of one column.
func (o *Ops) leaves(i int, g Getter, kind string) (out []cond) {
	s := o.Shape
	col := s.Cols[i]
	dom := s.domain(i)
	add := func(op string, vals ...any) { out = append(out, o.leaf(i, g, kind, op, vals)) }
	add("isnull")
	add("isnotnull")
	for _, v := range dom {
		for _, op := range []string{"=", "<>", "<", "<=", ">", ">="} {
			add(op, v)
		}
		for _, w := range dom {
			add("between", v, w)
			add("notbetween", v, w)
			add("in", v, w)
			add("notin", v, w)
		}
		add("in", v)
		add("notin", v)
		add("in", v, dom[0], v)
		add("notin", dom[1], v, dom[0])
	}
	add("in")
	add("notin")
	if col.Kind == kT {
		for _, p := range []any{"c%", "%v1%", "%", "", "k_1", "_'1", `c\%`, "%?%", "%$1", `%k\_1`, dom[0]} {
			if p, ok := p.(string); ok && strings.HasSuffix(p, `\`) {
				continue // no pattern
			}
			add("like", p)
			add("notlike", p)
		}
	}
	return
}

// group makes an And or Or.
func (o *Ops) group(isOr bool, l []cond) cond {
	c := cond{name: "And(", form: "And("}
	if isOr {
		c.name, c.form = "Or(", "Or("
	}
	for i, x := range l {
		if i > 0 {
			c.name, c.form = c.name+", ", c.form+", "
		}
		c.name, c.form = c.name+x.name, c.form+x.form
		c.args = append(c.args, x.args...)
	}
	c.name, c.form = c.name+")", c.form+")"
	c.build = func() sequel.WhereClause {
		var cs []sequel.WhereClause
		for _, x := range l {
			cs = append(cs, x.build())
		}
		if isOr {
			return o.Cfg.Or(cs...)
		}
		return o.Cfg.And(cs...)
	}
	c.eval = func(row []any, raw bool) tri {
		r := bool3(!isOr)
		for _, x := range l {
			if v := x.eval(row, raw); isOr {
				r = or(r, v)
			} else {
				r = and(r, v)
			}
		}
		return r
	}
	return c
}

// product is the table holding every combination of the domains.
func (s *Shape) product(d minisql.Dialect, max int) (rows [][]any) {
	rows = [][]any{make([]any, len(s.Cols))}
	for i := range s.Cols {
		dom := s.domain(i)
		var next [][]any
		for _, r := range rows {
			for _, v := range dom {
				m := append([]any(nil), r...)
				m[i] = v
				next = append(next, m)
			}
		}
		rows = next
	}
	for i := range rows {
		rows[i] = s.Stored(rows[i], d)
	}
	// thin out evenly
	for len(rows) > max {
		var l [][]any
		for i, r := range rows {
			if i%3 != 2 {
				l = append(l, r)
			}
		}
		rows = l
	}
	return
}

// R05: conditions.
func R05(r *report.Run) {
	r.Rule = "every operator x every column of every generated model x every operand list over the column's domain (empty lists, repeated values, NULL and texts that look like SQL included), and every And/Or tree up to the stated depth over three conditions, each executed as a select, and every single condition as a delete, on the table of all combinations; rows selected compared with a three-valued reference evaluation, bound arguments with the operands in order, statement text with the text of the same condition over other values"
	r.Bounds = map[string]any{"tree_depth": r.Pick(2, 3), "rows": 81, "configurations": len(Cfgs())}
	all := each(func(s *Shape) bool { return !s.Hand })
	report.Parallel(len(all), func(i int) { all[i].r05(r) })
}

func (o *Ops) r05(r *report.Run) {
	s := o.Shape
	d := o.Cfg.Dialect
	id := o.Cfg.Name + "/" + s.Name
	w := o.NewWorld()
	table := s.product(d, 81)
	decoys := w.Decoys()
	states := map[uint64]struct{}{}
	forms := map[string]string{}
	check := func(c cond, del bool) {
		desc := id + " " + c.name
		states[report.Hash(desc)] = struct{}{}
		r.Do(id, func() string { return desc }, func() {
			w.Load(table, 9, 9)
			var got [][]any
			op := "select"
			err, pan := catch(func() error {
				if del {
					op = "delete"
					_, err := o.ExDel(bg, w.DB, ExSpec{Where: c.build()})
					got = w.Rows()
					return err
				}
				l, err := o.Query(bg, w.DB, SelSpec{Where: c.build()})
				for _, p := range l {
					got = append(got, o.Get(p))
				}
				return err
			})
			r.Transition(1)
			r.Trace(1)
			expect := func(raw bool) string {
				var want [][]any
				for _, x := range table {
					if sel := c.eval(x, raw) == yes; sel != del {
						if del {
							want = append(want, x)
						} else {
							want = append(want, s.Loaded(x))
						}
					}
				}
				sort.SliceStable(want, func(i, j int) bool { return s.Less(want[i], want[j]) })
				return ShowRows(want)
			}
			s.Sort(got)
			kind, problem := op, ""
			switch {
			case pan:
				kind, problem = "panic", err.Error()
			case err != nil:
				kind, problem = "error", err.Error()
			case w.Decoys() != decoys:
				kind, problem = "other-table", "another table changed"
			case len(w.E.Log) != 1:
				kind, problem = "statements", fmt.Sprintf("%d statements", len(w.E.Log))
			case Show(plains(w.E.Log[0].Args)) != Show(plains(c.args)):
				kind, problem = "args", fmt.Sprintf("bound %s, must bind %s", Show(w.E.Log[0].Args), Show(c.args))
			case ShowRows(got) == expect(false):
			case c.upper && ShowRows(got) == expect(true):
				kind, problem = "raw", "compares the stored value with the bare value: the SQL expression of the column's type is not applied"
			default:
				problem = fmt.Sprintf("%s %s, must be %s", op, brief(ShowRows(got)), brief(expect(false)))
			}
			if problem == "" && !hasNil(c.args) {
				k := op + " " + c.form
				q := w.E.Log[0].Query
				if p, ok := forms[k]; !ok {
					forms[k] = q
				} else if p != q {
					kind, problem = "text", "the statement's text depends on the values: "+p
				}
			}
			if problem == "" {
				return
			}
			r.Violate(kind+"/"+id, fmt.Sprintf("%s: %s; statement: %s", desc, problem, w.Queries()),
				map[string]any{"config": o.Cfg.Name, "model": s.Name, "condition": c.name, "operation": op, "problem": problem, "statements": w.Queries()})
		})
	}
	var pick []cond
	for i, c := range s.Cols {
		g := o.Get_[c.Name]
		// the getter itself
		r.Do("getter/"+id, func() string { return id + " getter of " + c.Name }, func() {
			r.Transition(1)
			if err, pan := catch(func() error { g.Zero(); return nil }); pan {
				r.Violate("zero/"+id+"."+c.Name, fmt.Sprintf("%s: the getter of column %s of a zero model panics: %v", id, c.Name, err), map[string]any{"config": o.Cfg.Name, "model": s.Name, "column": c.Name})
			}
			if n := g.Name(); unquote(n) != c.Name {
				r.Violate("name/"+id+"."+c.Name, fmt.Sprintf("%s: the getter of column %s names %s", id, c.Name, n), nil)
			}
			for _, v := range s.domain(i) {
				m := make([]any, len(s.Cols))
				for j := range m {
					if !s.Cols[j].Null {
						m[j] = s.domain(j)[0]
					}
				}
				m[i] = v
				if x := deref(g.Value(o.Make(m))); Show([]any{x}) != Show([]any{v}) {
					r.Violate("value/"+id+"."+c.Name, fmt.Sprintf("%s: the getter of column %s returns %s for the field value %s", id, c.Name, Show([]any{x}), Show([]any{v})), nil)
				}
			}
		})
		l := o.leaves(i, g, "")
		for _, x := range l {
			check(x, false)
			check(x, true)
		}
		if c.Upper {
			continue
		}
		// one of each column for the trees; nullable ones first
		x := o.leaf(i, g, "", "=", s.domain(i)[:1])
		switch len(pick) {
		case 1:
			x = o.leaf(i, g, "", "<>", s.domain(i)[1:2])
		case 2:
			x = o.leaf(i, g, "", "in", s.domain(i)[:2])
		}
		if len(pick) < 3 {
			pick = append(pick, x)
		}
	}
	// columns the caller describes
	for i, c := range s.Cols {
		if c.Kind == kT && !c.Upper && !c.Null && o.Cfg.Own != nil {
			for k, g := range o.Cfg.Own(o.ident(i)) {
				for _, x := range o.leaves(i, g, "/"+k) {
					check(x, false)
				}
			}
		}
	}
	if len(pick) == 0 {
		r.States(states)
		return
	}
	for len(pick) < 3 {
		pick = append(pick, pick[0])
	}
	// a clause the caller writes, mixing the ways of binding
	p0, p1 := pick[0], pick[1]
	i0 := 0
	for i, c := range s.Cols {
		if !c.Upper {
			i0 = i
			break
		}
	}
	dom := s.domain(i0)
	own := cond{name: "own", form: "own", args: []any{dom[0], dom[1], dom[0], dom[1]}}
	own.build = func() sequel.WhereClause {
		return func(w sequel.StmtWriter) {
			w.WriteByte('(')
			w.WriteString(o.ident(i0) + " IN " + w.Vars([]any{dom[0], dom[1]}))
			w.Write([]byte(" AND " + o.ident(i0) + " <> " + w.Var(dom[0])))
			w.WriteString(" AND " + o.ident(i0) + " IN " + w.Vars([]any{dom[1]}) + ")")
		}
	}
	own.eval = func(row []any, _ bool) tri {
		if row[i0] == nil {
			return unknown
		}
		m := make([]any, len(s.Cols))
		m[i0] = dom[1]
		return bool3(Cmp(row[i0], s.Stored(m, d)[i0]) == 0)
	}
	check(own, false)
	check(own, true)
	check(o.group(true, []cond{p1, own, p0}), false)
	check(o.group(false, []cond{own, o.group(true, []cond{own, p1})}), true)
	// trees
	deep := r.Thorough() || s.Name == "PkMid" || s.Name == "Plain" || s.Name == "KwComp" || s.Name == "AutoMid"
	level := func(l []cond, max int) (out []cond) {
		for _, isOr := range []bool{false, true} {
			out = append(out, o.group(isOr, nil))
			for _, a := range l {
				out = append(out, o.group(isOr, []cond{a}))
				for _, b := range l {
					out = append(out, o.group(isOr, []cond{a, b}))
					if max > 2 {
						for _, c := range l {
							out = append(out, o.group(isOr, []cond{a, b, c}))
						}
					}
				}
			}
		}
		return
	}
	table = s.product(d, 27)
	forms = map[string]string{}
	l1 := level(pick, 3)
	for _, x := range l1 {
		check(x, false)
		check(x, true)
	}
	if !deep {
		r.States(states)
		return
	}
	l2 := level(append(append([]cond(nil), pick...), level(pick, 2)...), 2)
	for _, x := range l2 {
		check(x, false)
	}
	if r.Thorough() {
		for _, x := range l2 {
			for _, p := range pick {
				for _, isOr := range []bool{false, true} {
					check(o.group(isOr, []cond{x, p}), false)
					check(o.group(isOr, []cond{p, x}), false)
				}
			}
		}
	}
	if o.Cfg.Name == "pgq" || o.Cfg.Name == "mysql" {
		r.Sample(map[string]any{"model": id, "conditions": len(states), "last": w.Queries()})
	}
	r.States(states)
}

func plains(l []any) []any {
	out := make([]any, len(l))
	for i := range l {
		out[i] = plain(deref(l[i]))
	}
	return out
}

func hasNil(l []any) bool {
	for _, v := range l {
		if v == nil {
			return true
		}
	}
	return false
}

func brief(s string) string {
	if len(s) > 240 {
		return s[:240] + "…"
	}
	return s
}
