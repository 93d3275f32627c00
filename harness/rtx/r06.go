package rtx

import (
	"fmt"
	"sort"

	"github.com/si3nloong/sqlgen/sequel"

	"vh/minisql"
	"vh/report"
)

// R06: conditional select, update and delete.
func R06(r *report.Run) {
	r.Rule = "every model x configuration x table content x presence of every clause (condition, order by every column and pairs of columns in both directions, limit, offset, group by, explicit column list, explicit table, set lists), for QueryStmt, QueryOneStmt and ExecStmt with update and delete statements; rows returned in order, table contents and affected counts compared with the reference, with the database scanning in both physical orders; also for row types without table or column methods"
	r.Bounds = map[string]any{"rows": 4, "limits": "0,1,2,65535", "offsets": "0,1,9,2^40", "orders": "none, one, two columns", "configurations": len(Cfgs())}
	all := each(anyShape)
	report.Parallel(len(all), func(i int) { all[i].r06(r) })
	for _, c := range Cfgs() {
		c.r06anon(r)
	}
}

// r06Row varies every column on its own.
func (s *Shape) r06Row(k int, d minisql.Dialect) []any {
	m := s.Row(k, 0)
	n := 0
	for i, c := range s.Cols {
		if c.PK || c.RO || c.Unique {
			continue
		}
		v := []int{0, 1, 0, 1}[(k+n)%4]
		if n%2 == 1 {
			v = []int{0, 0, 1, 1}[k]
		}
		if c.Null && k == 2 {
			v = 2
		}
		m[i] = s.val(i, k, v)
		n++
	}
	if a := s.AutoIdx(); a >= 0 {
		m[a] = int64(k + 1)
	}
	for i, c := range s.Cols {
		if c.RO {
			m[i] = fmt.Sprintf("gen%d", k%2)
		}
	}
	return s.Stored(m, d)
}

func (o *Ops) sorted(rows [][]any, orders []ord, reverse bool) [][]any {
	out := append([][]any(nil), rows...)
	if reverse {
		for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
			out[i], out[j] = out[j], out[i]
		}
	}
	sort.SliceStable(out, func(a, b int) bool {
		for _, x := range orders {
			if c := o.cmpNull(out[a][x.col], out[b][x.col]); c != 0 {
				return (c < 0) == x.asc
			}
		}
		return false
	})
	return out
}

func (o *Ops) r06(r *report.Run) {
	s := o.Shape
	d := o.Cfg.Dialect
	id := o.Cfg.Name + "/" + s.Name
	w := o.NewWorld()
	// another table of the same layout in the same database
	alt := s.NewTable()
	alt.Name = "alt"
	alt.Rows = [][]any{s.r06Row(1, d), s.r06Row(3, d)}
	w.E.Tables = append(w.E.Tables, alt)
	altName := o.quote("alt")
	states := map[uint64]struct{}{}

	var tables [][][]any
	for _, ks := range [][]int{nil, {1}, {0, 1, 2, 3}, {2, 0}} {
		var t [][]any
		for _, k := range ks {
			t = append(t, s.r06Row(k, d))
		}
		tables = append(tables, t)
	}
	var orders [][]ord
	orders = append(orders, nil)
	for i := range s.Cols {
		orders = append(orders, []ord{{i, true}}, []ord{{i, false}})
	}
	for i := range s.Cols {
		for j := range s.Cols {
			if i != j && (r.Thorough() || i < 2 && j < 2 || s.Cols[i].Null) {
				for m := 0; m < 4; m++ {
					orders = append(orders, []ord{{i, m&1 == 0}, {j, m&2 == 0}})
				}
			}
		}
	}
	// conditions
	eq := func(i int, v any, op string) cond {
		return cond{
			build: func() sequel.WhereClause {
				return func(w sequel.StmtWriter) { w.WriteString(o.ident(i) + " " + op + " " + w.Var(v)) }
			},
			eval: func(row []any, _ bool) tri {
				if row[i] == nil {
					return unknown
				}
				return bool3((Cmp(row[i], v) == 0) == (op == "="))
			},
			name: fmt.Sprintf("%s %s %s", s.Cols[i].Name, op, Show([]any{v})),
		}
	}
	last := len(s.Cols) - 1
	a, b := eq(0, s.r06Row(1, d)[0], "="), eq(last, s.r06Row(1, d)[last], "<>")
	none := eq(0, s.r06Row(1, d)[0], "=")
	none = o.group(false, []cond{none, eq(0, s.r06Row(1, d)[0], "<>")})
	conds := []*cond{nil, &a, &b, &none}
	if r.Thorough() {
		c := o.group(true, []cond{a, o.group(false, []cond{b, eq(0, s.r06Row(0, d)[0], "=")})})
		conds = append(conds, &c)
	}
	matching := func(rows [][]any, c *cond) (out [][]any) {
		for _, x := range rows {
			if c == nil || c.eval(x, false) == yes {
				out = append(out, x)
			}
		}
		return
	}
	where := func(c *cond) sequel.WhereClause {
		if c == nil {
			return nil
		}
		return c.build()
	}
	cname := func(c *cond) string {
		if c == nil {
			return "none"
		}
		return c.name
	}
	obs := func(l []ord) (out []sequel.OrderByClause) {
		for _, x := range l {
			out = append(out, o.order(x))
		}
		return
	}
	load := func(t [][]any, reverse bool) {
		w.Load(t, 9, 9)
		alt.Rows = [][]any{s.r06Row(1, d), s.r06Row(3, d)}
		w.E.Reverse = reverse
	}
	decoys := ""
	report_ := func(op, kind, desc, problem string) {
		r.Violate(op+"/"+id+"/"+kind, fmt.Sprintf("%s %s: %s; statements: %s", id, desc, problem, w.Queries()),
			map[string]any{"config": o.Cfg.Name, "model": s.Name, "operation": op, "statement": desc, "problem": problem, "sent": w.Queries()})
	}
	load(nil, false)
	decoys = w.Decoys()
	query := func(t [][]any, c *cond, ords []ord, limit uint16, offset uint64, from, sel, grp, reverse bool) {
		load(t, reverse)
		sp := SelSpec{Where: where(c), OrderBy: obs(ords), Limit: limit, Offset: offset}
		src := t
		if from {
			sp.From = altName
			src = alt.Rows
		}
		if sel {
			for i := range s.Cols {
				sp.Select = append(sp.Select, o.ident(i))
			}
		}
		if grp {
			sp.GroupBy = o.idents(s.all())
		}
		desc := fmt.Sprintf("select from %s where %s order %s limit %d offset %d alt=%v columns=%v group=%v", ShowRows(t), cname(c), o.showOrders(ords), limit, offset, from, sel, grp)
		states[report.Hash("q", desc)] = struct{}{}
		want := o.sorted(matching(src, c), ords, reverse)
		if offset >= uint64(len(want)) {
			want = nil
		} else {
			want = want[offset:]
		}
		if limit > 0 && int(limit) < len(want) {
			want = want[:limit]
		}
		var got [][]any
		err, pan := catch(func() error {
			l, err := o.Query(bg, w.DB, sp)
			for _, p := range l {
				got = append(got, o.Get(p))
			}
			return err
		})
		r.Transition(1)
		r.Trace(1)
		var exp [][]any
		for _, x := range want {
			if sel && s.HasUpper() {
				x = s.Loaded(x)
				for i, cc := range s.Cols {
					if cc.Upper {
						x[i] = upperOf(x[i])
					}
				}
			} else {
				x = s.Loaded(x)
			}
			exp = append(exp, x)
		}
		if grp && len(ords) == 0 {
			s.Sort(got)
			s.Sort(exp)
		}
		switch {
		case pan:
			report_("select", "panic", desc, err.Error())
		case err != nil:
			report_("select", "error", desc, err.Error())
		case ShowRows(got) != ShowRows(exp):
			report_("select", "rows", desc, fmt.Sprintf("returns %s, must return %s", ShowRows(got), ShowRows(exp)))
		case ShowRows(w.T.Rows) != ShowRows(t) || w.Decoys() != decoys:
			report_("select", "changed", desc, "a table changed")
		case w.E.OpenRows != 0:
			w.E.OpenRows = 0
			report_("select", "leak", desc, "a result set stays open")
		}
	}
	one := func(t [][]any, c *cond, ords []ord, from, sel, grp, reverse bool) {
		load(t, reverse)
		sp := SelSpec{Where: where(c), OrderBy: obs(ords)}
		src := t
		if from {
			sp.From = altName
			src = alt.Rows
		}
		if sel {
			sp.Select = o.idents(s.all())
		}
		if grp {
			sp.GroupBy = o.idents(s.all())
		}
		desc := fmt.Sprintf("select one from %s where %s order %s alt=%v columns=%v group=%v", ShowRows(t), cname(c), o.showOrders(ords), from, sel, grp)
		states[report.Hash("1", desc)] = struct{}{}
		want := o.sorted(matching(src, c), ords, reverse)
		var got any
		err, pan := catch(func() (err error) {
			got, err = o.QueryOne(bg, w.DB, sp)
			return
		})
		r.Transition(1)
		r.Trace(1)
		switch {
		case pan:
			report_("one", "panic", desc, err.Error())
		case len(want) == 0:
			if !noRows(err) {
				report_("one", "none", desc, fmt.Sprintf("must report that there is no row, returns error %v", err))
			}
		case err != nil:
			report_("one", "error", desc, err.Error())
		case got == nil:
			report_("one", "nil", desc, "returns nothing and no error")
		default:
			ok := false
			for _, x := range want {
				if len(ords) > 0 && o.differ(x, want[0], ords) {
					continue
				}
				e := s.Loaded(x)
				if sel {
					for i, cc := range s.Cols {
						if cc.Upper {
							e[i] = upperOf(e[i])
						}
					}
				}
				ok = ok || Same(o.Get(got), e)
			}
			if !ok {
				report_("one", "rows", desc, fmt.Sprintf("returns %s, must return a first of %s", Show(o.Get(got)), ShowRows(want)))
			}
		}
		if w.E.OpenRows != 0 {
			w.E.OpenRows = 0
			report_("one", "leak", desc, "a result set stays open")
		}
	}
	// set lists
	type set struct {
		name  string
		build func() []sequel.SetClause
		apply func(row []any)
		raw   func(row []any)
	}
	var sets []set
	val := func(i, v int) any {
		return s.Stored(func() []any { m := make([]any, len(s.Cols)); m[i] = s.val(i, 0, v); return m }(), d)[i]
	}
	mk := func(i, v int) set {
		return set{
			name: s.Cols[i].Name,
			build: func() []sequel.SetClause {
				if g, ok := o.Get_[s.Cols[i].Name]; ok {
					return []sequel.SetClause{g.Set(s.val(i, 0, v))}
				}
				return []sequel.SetClause{func(w sequel.StmtWriter) { w.WriteString(o.ident(i) + " = " + w.Var(val(i, v))) }}
			},
			apply: func(row []any) { row[i] = val(i, v) },
			raw:   func(row []any) { row[i] = s.val(i, 0, v) },
		}
	}
	var upd []int
	for _, i := range s.Updatable() {
		if !s.Cols[i].Unique {
			upd = append(upd, i)
		}
	}
	for _, i := range upd {
		sets = append(sets, mk(i, 3))
		if s.Cols[i].Null {
			sets = append(sets, mk(i, 2))
		}
	}
	for x, i := range upd {
		for y, j := range upd {
			if x == y || s.Cols[i].Upper || s.Cols[j].Upper {
				continue
			}
			p, q := mk(i, 3), mk(j, 4)
			sets = append(sets, set{name: p.name + "," + q.name,
				build: func() []sequel.SetClause { return append(p.build(), q.build()...) },
				apply: func(row []any) { p.apply(row); q.apply(row) }})
		}
	}
	for _, i := range upd {
		if s.Cols[i].Kind == kI && !s.Cols[i].Null {
			sets = append(sets, set{name: "own " + s.Cols[i].Name,
				build: func() []sequel.SetClause {
					return []sequel.SetClause{func(w sequel.StmtWriter) { w.WriteString(o.ident(i) + " = " + o.ident(i) + " + " + w.Var(int64(7))) }}
				},
				apply: func(row []any) { row[i] = row[i].(int64) + 7 }})
			break
		}
	}
	exec := func(t [][]any, st *set, c *cond, ords []ord, limit uint16, from, reverse bool) {
		load(t, reverse)
		sp := ExSpec{Where: where(c), OrderBy: obs(ords), Limit: limit}
		target, src := w.T, t
		if from {
			sp.Table = altName
			target, src = alt, alt.Rows
		}
		op := "delete"
		if st != nil {
			op = "update"
			sp.Set = st.build()
			op += " " + st.name
		}
		if d == pg {
			limit = 0
		}
		desc := fmt.Sprintf("%s of %s where %s order %s limit %d alt=%v", op, ShowRows(t), cname(c), o.showOrders(ords), limit, from)
		states[report.Hash("x", desc)] = struct{}{}
		eff := ords
		if d == pg || d == minisql.SQLite && limit == 0 {
			eff = nil
		}
		hit := o.sorted(matching(src, c), eff, reverse)
		if limit > 0 && int(limit) < len(hit) {
			hit = hit[:limit]
		}
		is := map[string]bool{}
		for _, x := range hit {
			is[Show(x)] = true
		}
		result := func(apply func([]any)) string {
			var out [][]any
			for _, x := range src {
				if !is[Show(x)] {
					out = append(out, x)
				} else if st != nil {
					y := append([]any(nil), x...)
					apply(y)
					out = append(out, y)
				}
			}
			return o.rowsSorted(out)
		}
		var want string
		if st != nil {
			want = result(st.apply)
		} else {
			want = result(nil)
		}
		rest := func() string {
			x := ""
			for _, tt := range w.E.Tables {
				if tt != target {
					x += tt.DB + "." + tt.Name + ShowRows(tt.Rows)
				}
			}
			return x
		}
		before := rest()
		var n int64
		err, pan := catch(func() error {
			var res interface{ RowsAffected() (int64, error) }
			var err error
			if st != nil {
				res, err = o.ExUpdate(bg, w.DB, sp)
			} else {
				res, err = o.ExDel(bg, w.DB, sp)
			}
			if err == nil && res != nil {
				n, err = res.RowsAffected()
			}
			return err
		})
		r.Transition(1)
		r.Trace(1)
		op = op[:6]
		got := o.rowsSorted(target.Rows)
		switch {
		case pan:
			report_(op, "panic", desc, err.Error())
		case err != nil:
			report_(op, "error", desc, err.Error())
		case got != want && st != nil && st.raw != nil && got == result(st.raw):
			report_(op, "raw", desc, "stores the bare value: the SQL expression of the column's type is not applied")
		case got != want:
			report_(op, "rows", desc, fmt.Sprintf("leaves %s, must leave %s", got, want))
		case rest() != before:
			report_(op, "other-table", desc, "another table changed")
		case d != minisql.MySQL && int(n) != len(hit):
			report_(op, "affected", desc, fmt.Sprintf("reports %d affected rows, %d are", n, len(hit)))
		}
	}
	do := func(desc string, f func()) { r.Do(id, func() string { return id + " " + desc }, f) }
	for ti, t := range tables {
		for ci, c := range conds {
			for oi, ords := range orders {
				do(fmt.Sprint("table ", ti, " condition ", ci, " order ", oi), func() {
					for _, limit := range []uint16{0, 1, 2, 65535} {
						for _, offset := range []uint64{0, 1, 9, 1 << 40} {
							rev := (int(limit)+int(offset)+oi)%2 == 1
							query(t, c, ords, limit, offset, false, false, false, rev)
							if r.Thorough() {
								query(t, c, ords, limit, offset, false, false, false, !rev)
							}
							if ti == 2 && limit != 2 && offset < 2 {
								for m := 1; m < 8; m++ {
									if m&4 != 0 && s.HasUpper() {
										continue
									}
									query(t, c, ords, limit, offset, m&1 != 0, m&2 != 0, m&4 != 0, rev)
								}
							}
						}
					}
					for m := 0; m < 8; m++ {
						if m&4 != 0 && s.HasUpper() {
							continue
						}
						one(t, c, ords, m&1 != 0, m&2 != 0, m&4 != 0, oi%2 == 1)
					}
					for _, limit := range []uint16{0, 1, 3} {
						exec(t, nil, c, ords, limit, false, oi%2 == 0)
						exec(t, nil, c, ords, limit, true, oi%2 == 1)
						for si := range sets {
							if oi > 3 && !r.Thorough() && (si+oi)%3 != 0 {
								continue
							}
							exec(t, &sets[si], c, ords, limit, false, oi%2 == 1)
							exec(t, &sets[si], c, ords, limit, true, oi%2 == 0)
						}
					}
				})
			}
		}
	}
	if o.Cfg.Name == "pgq" || o.Cfg.Name == "mysql" || o.Cfg.Name == "sqlite" {
		r.Sample(map[string]any{"model": id, "statements": len(states), "last": w.Queries()})
	}
	r.States(states)
}

func upperOf(v any) any {
	if s, ok := v.(string); ok {
		b := []byte(s)
		for i, c := range b {
			if c >= 'a' && c <= 'z' {
				b[i] = c - 32
			}
		}
		return string(b)
	}
	return v
}

func (o *Ops) differ(a, b []any, ords []ord) bool {
	for _, x := range ords {
		if o.cmpNull(a[x.col], b[x.col]) != 0 {
			return true
		}
	}
	return false
}

func (o *Ops) rowsSorted(l [][]any) string {
	out := append([][]any(nil), l...)
	o.Shape.Sort(out)
	return ShowRows(out)
}

func (s *Shape) all() (out []int) {
	for i := range s.Cols {
		out = append(out, i)
	}
	return
}

// r06anon: row types that only scan.
func (c *Cfg) r06anon(r *report.Run) {
	o := c.Anon
	if o == nil {
		return
	}
	s := &Shape{Name: "anonymous", Table: "entries", Cols: []Col{{Name: "a", Kind: kT}, {Name: "b", Kind: kI}}}
	e := &minisql.Engine{Dialect: c.Dialect}
	t := s.NewTable()
	e.Tables = []*minisql.Table{t}
	db := e.DB()
	o2 := &Ops{Shape: s, Cfg: c}
	rows := [][]any{{"x", int64(2)}, {"y", int64(1)}, {"x", int64(3)}}
	reset := func() {
		t.Rows = nil
		for _, x := range rows {
			t.Rows = append(t.Rows, append([]any(nil), x...))
		}
		e.Reset()
	}
	bad := func(what, problem string) {
		r.Violate("anonymous/"+c.Name+"/"+what, fmt.Sprintf("%s row type without table: %s: %s", c.Name, what, problem), map[string]any{"config": c.Name, "what": what, "problem": problem})
	}
	expect := func(what string, sp SelSpec, want string) {
		reset()
		r.Transition(1)
		r.Trace(1)
		r.Do("anonymous/"+c.Name, func() string { return what }, func() {
			var got [][]any
			err, _ := catch(func() error {
				l, err := o.Query(bg, db, sp)
				for _, p := range l {
					got = append(got, p.([]any))
				}
				return err
			})
			res := ShowRows(got)
			if err != nil {
				res = err.Error()
			}
			if want == "error" && err != nil {
				return
			}
			if res != want {
				bad(what, fmt.Sprintf("%s, must be %s", res, want))
			}
		})
	}
	eqx := func(w sequel.StmtWriter) { w.WriteString(o2.ident(0) + " = " + w.Var("x")) }
	byB := []sequel.OrderByClause{sequel.OrderByColumn(o2.ident(1), true)}
	tb := o2.quote("entries")
	expect("select all", SelSpec{From: tb, OrderBy: byB}, `[("y", 1) ("x", 2) ("x", 3)]`)
	expect("select columns", SelSpec{From: tb, Select: o2.idents([]int{0, 1}), Where: eqx, OrderBy: byB}, `[("x", 2) ("x", 3)]`)
	expect("aggregate", SelSpec{From: tb, Select: []string{o2.ident(0), "COUNT(*)"}, GroupBy: o2.idents([]int{0}), OrderBy: []sequel.OrderByClause{sequel.OrderByColumn(o2.ident(0), false)}}, `[("y", 1) ("x", 2)]`)
	expect("aggregate offset", SelSpec{From: tb, Select: []string{o2.ident(0), "COUNT(*)"}, GroupBy: o2.idents([]int{0}), OrderBy: []sequel.OrderByClause{sequel.OrderByColumn(o2.ident(0), false)}, Offset: 1, Limit: 4}, `[("x", 2)]`)
	expect("no table", SelSpec{OrderBy: byB}, "error")
	run := func(what, want string, wantErr bool, f func() error) {
		reset()
		r.Transition(1)
		r.Trace(1)
		err, pan := catch(f)
		switch {
		case pan:
			bad(what, err.Error())
		case (err != nil) != wantErr:
			bad(what, fmt.Sprintf("error %v", err))
		case want != "" && o2.rowsSorted(t.Rows) != want:
			bad(what, fmt.Sprintf("leaves %s, must leave %s", o2.rowsSorted(t.Rows), want))
		}
	}
	setB := []sequel.SetClause{func(w sequel.StmtWriter) { w.WriteString(o2.ident(1) + " = " + w.Var(int64(9))) }}
	run("update", `[("x", 9) ("x", 9) ("y", 1)]`, false, func() error {
		_, err := o.ExUpdate(bg, db, ExSpec{Table: tb, Set: setB, Where: eqx})
		return err
	})
	run("delete", `[("y", 1)]`, false, func() error { _, err := o.ExDel(bg, db, ExSpec{Table: tb, Where: eqx}); return err })
	all := `[("x", 2) ("x", 3) ("y", 1)]`
	run("update without table", all, true, func() error { _, err := o.ExUpdate(bg, db, ExSpec{Set: setB, Where: eqx}); return err })
	run("delete without table", all, true, func() error { _, err := o.ExDel(bg, db, ExSpec{Where: eqx}); return err })
	run("one", "", false, func() error {
		p, err := o.QueryOne(bg, db, SelSpec{From: tb, OrderBy: byB})
		if err == nil && Show(p.([]any)) != `("y", 1)` {
			bad("one", Show(p.([]any)))
		}
		return err
	})
	run("one without table", all, true, func() error { _, err := o.QueryOne(bg, db, SelSpec{OrderBy: byB}); return err })
}

// quote spells a name as the configuration's generated code would.
func (o *Ops) quote(n string) string {
	switch {
	case !o.Cfg.Quote:
		return n
	case o.Cfg.Dialect == minisql.MySQL:
		return "`" + n + "`"
	}
	return `"` + n + `"`
}

// unquote strips identifier quotes.
func unquote(n string) string {
	if len(n) > 2 && n[0] == n[len(n)-1] && (n[0] == '"' || n[0] == '`') {
		return n[1 : len(n)-1]
	}
	return n
}
