package rtx

import (
	"fmt"
	"sort"

	"github.com/si3nloong/sqlgen/sequel"

	"vh/report"
)

// ord is one requested order.
type ord struct {
	col int
	asc bool
}

// filt is a filter with its meaning on stored rows.
type filt struct {
	name  string
	where func() sequel.WhereClause
	keep  func(row []any) bool
}

// cmpNull compares with the dialect's place for NULL in ascending order.
func (o *Ops) cmpNull(a, b any) int {
	switch {
	case a == nil && b == nil:
		return 0
	case a == nil || b == nil:
		c := -1
		if o.Cfg.Dialect == pg {
			c = 1
		}
		if b == nil {
			c = -c
		}
		return c
	}
	return Cmp(a, b)
}

// before is the total order of a pager.
func (o *Ops) before(orders []ord, reverse bool) func(a, b []any) bool {
	asc := true
	if n := len(orders); n > 0 {
		asc = orders[n-1].asc
	}
	all := append([]ord(nil), orders...)
	for _, k := range o.Shape.KeyOrder() {
		all = append(all, ord{k, asc})
	}
	return func(a, b []any) bool {
		for _, x := range all {
			if c := o.cmpNull(a[x.col], b[x.col]); c != 0 {
				return (c < 0) == (x.asc != reverse)
			}
		}
		return false
	}
}

func (o *Ops) order(x ord) sequel.OrderByClause {
	c := o.Shape.Cols[x.col]
	if g, ok := o.Get_[c.Name]; ok {
		if x.asc {
			return g.Asc()
		}
		return g.Desc()
	}
	return sequel.OrderByColumn(c.Name, x.asc)
}

func (o *Ops) showOrders(l []ord) string {
	s := "["
	for i, x := range l {
		if i > 0 {
			s += " "
		}
		s += o.Shape.Cols[x.col].Name
		if !x.asc {
			s += "-"
		}
	}
	return s + "]"
}

// R04: pagination.
func R04(r *report.Run) {
	r.Rule = "every keyed model shape x configuration: every table up to the bound over a small value domain (NULLs and ties included) x order specification x filter x page size x cursor row x direction, scanned forwards and backwards by the database; the pages the generated pager yields are compared with the sorted, filtered reference sequence"
	r.Bounds = map[string]any{"rows": r.Pick(3, 4), "page_sizes": "1, 2 (+ default and 65535)", "orders": "none, every column, pairs of two columns, both directions", "scan_orders": 2}
	all := each(keyed)
	report.Parallel(len(all), func(i int) { all[i].r04(r) })
}

func (o *Ops) r04(r *report.Run) {
	s := o.Shape
	d := o.Cfg.Dialect
	id := o.Cfg.Name + "/" + s.Name
	w := o.NewWorld()
	decoys := w.Decoys()
	states := map[uint64]struct{}{}
	var free []int // columns whose values vary
	for _, i := range s.Updatable() {
		if !s.Cols[i].Unique {
			free = append(free, i)
		}
	}
	if len(free) > 2 {
		// prefer nullable ones
		sort.SliceStable(free, func(a, b int) bool { return s.Cols[free[a]].Null && !s.Cols[free[b]].Null })
		free = free[:2]
	}
	dom := func(i int) []int {
		if s.Cols[i].Null {
			return []int{0, 1, 2}
		}
		return []int{0, 1}
	}
	// quick: models whose pager has more to it get the wide enumeration
	rich := r.Thorough() || s.Name == "PkMid" && (o.Cfg.Name == "mysql" || o.Cfg.Name == "pgq") || s.Name == "CompEnd" && o.Cfg.Name == "pg" || s.Name == "AutoMid" && o.Cfg.Name == "sqlite"
	// variants of one row
	var vars [][]int
	switch {
	case len(free) == 0:
		vars = [][]int{nil}
	case len(free) == 1:
		for _, v := range dom(free[0]) {
			vars = append(vars, []int{v})
		}
	default:
		for _, v := range dom(free[0]) {
			for _, x := range dom(free[1]) {
				if rich || v == x || v == 2 && x == 0 {
					vars = append(vars, []int{v, x})
				}
			}
		}
	}
	row := func(k int, vs []int) []any {
		m := s.Row(k, 0)
		for j, v := range vs {
			m[free[j]] = s.val(free[j], k, v)
		}
		if a := s.AutoIdx(); a >= 0 {
			m[a] = int64(k + 1)
		}
		st := s.Stored(m, d)
		for i, c := range s.Cols {
			if c.RO {
				st[i] = fmt.Sprintf("gen%d", 9-k)
			}
		}
		return st
	}
	maxRows := r.Pick(3, 4)
	if r.Thorough() && len(vars) > 4 {
		maxRows = 3
	}
	var tables [][][]any
	var build func(k int, t [][]any)
	build = func(k int, t [][]any) {
		tables = append(tables, append([][]any(nil), t...))
		if k == maxRows {
			return
		}
		for vi, vs := range vars {
			if !rich && k == 2 && vi > 0 {
				continue
			}
			build(k+1, append(append([][]any(nil), t...), row(k, vs)))
		}
	}
	build(0, nil)
	// order specifications
	orders := [][]ord{nil}
	for i := range s.Cols {
		use := s.Cols[i].PK || s.Cols[i].RO
		for _, f := range free {
			use = use || f == i
		}
		if use {
			orders = append(orders, []ord{{i, true}}, []ord{{i, false}})
		}
	}
	if len(free) == 2 {
		for m := 0; m < 4; m++ {
			orders = append(orders, []ord{{free[0], m&1 == 0}, {free[1], m&2 == 0}})
		}
	} else if len(free) == 1 {
		orders = append(orders, []ord{{free[0], true}, {s.Keys()[0], false}}, []ord{{free[0], false}, {s.Keys()[0], true}})
	}
	// filters
	eq := func(i int, v any) sequel.WhereClause {
		return func(w sequel.StmtWriter) { w.WriteString(o.ident(i) + " = " + w.Var(v)) }
	}
	filters := []filt{{"none", nil, func([]any) bool { return true }}}
	if len(free) > 0 {
		f0 := free[0]
		x := s.val(f0, 0, 1)
		sx := s.Stored(func() []any { m := s.Row(0, 0); m[f0] = x; return m }(), d)[f0]
		ks := s.Keys()
		last := row(maxRows-1, vars[0])
		k0 := ks[0]
		isX := func(r []any) bool { return r[f0] != nil && Cmp(r[f0], sx) == 0 }
		isK := func(r []any) bool { return Cmp(r[k0], last[k0]) == 0 }
		arg := x
		if s.Cols[f0].Upper {
			arg = sx
		}
		karg := last[k0]
		filters = append(filters,
			filt{"column", func() sequel.WhereClause { return eq(f0, arg) }, isX},
			filt{"a OR b", func() sequel.WhereClause {
				return func(w sequel.StmtWriter) { eq(f0, arg)(w); w.WriteString(" OR "); eq(k0, karg)(w) }
			}, func(r []any) bool { return isX(r) || isK(r) }})
		if r.Thorough() {
			filters = append(filters,
				filt{"Or(And)", func() sequel.WhereClause { return o.Cfg.Or(o.Cfg.And(eq(f0, arg), eq(k0, karg)), eq(k0, karg)) }, isK},
				filt{"nothing", func() sequel.WhereClause {
					return o.Cfg.And(eq(k0, karg), func(w sequel.StmtWriter) { w.WriteString("1 = " + w.Var(int64(2))) })
				}, func([]any) bool { return false }})
		}
	}
	run := func(table [][]any, orders []ord, f filt, limit uint16, cur int, reverse, scan bool) {
		w.Load(table, 9, 9)
		w.E.Reverse = scan
		less := o.before(orders, reverse)
		seq := append([][]any(nil), table...)
		sort.SliceStable(seq, func(a, b int) bool { return less(seq[a], seq[b]) })
		var want [][]any
		for _, x := range seq {
			if cur >= 0 && less(x, table[cur]) || !f.keep(x) {
				continue
			}
			want = append(want, s.Loaded(x))
		}
		var obs []sequel.OrderByClause
		for _, x := range orders {
			obs = append(obs, o.order(x))
		}
		sp := SelSpec{OrderBy: obs, Limit: limit}
		if f.where != nil {
			sp.Where = f.where()
		}
		next, prev := o.Page(sp)
		pages := next
		name := "Next"
		if reverse {
			pages, name = prev, "Prev"
		}
		var cursor []any
		if cur >= 0 {
			m := s.Loaded(table[cur])
			for _, i := range append(s.Updatable(), func() (ro []int) {
				for i, c := range s.Cols {
					if c.RO {
						ro = append(ro, i)
					}
				}
				return
			}()...) {
				m[i] = nil // only the key of a cursor counts
			}
			cursor = []any{o.Make(m)}
		}
		again := limit == 1 && cur%2 == 0
		max := int(limit)
		if max == 0 {
			max = 100
		}
		var got [][]any
		var problem string
		pass := func() (error, bool) {
			n := 0
			got = nil
			var kept []any
			return catch(func() error {
				for page, err := range pages(bg, w.DB, cursor...) {
					if err != nil {
						return err
					}
					n++
					if len(page) > max {
						problem = fmt.Sprintf("page %d holds %d rows", n, len(page))
						return nil
					}
					if n > len(table)+2 {
						problem = "does not end"
						return nil
					}
					for _, p := range page {
						got = append(got, o.Get(p))
					}
					kept = append(kept, page...)
				}
				for i, p := range kept {
					if now := o.Get(p); Show(now) != Show(got[i]) {
						problem = fmt.Sprintf("row %d of the pages read was %s and is %s after reading on", i, Show(got[i]), Show(now))
					}
				}
				return nil
			})
		}
		err, pan := pass()
		if again && err == nil && !pan && problem == "" && ShowRows(got) == ShowRows(want) {
			// the same pager once more
			r.Transition(1)
			if err, pan = pass(); problem != "" {
				problem = "the second time it is used: " + problem
			}
		}
		r.Transition(1)
		r.Trace(1)
		kind := "sequence"
		switch {
		case pan:
			kind, problem = "panic", err.Error()
		case err != nil:
			kind, problem = "error", err.Error()
		case problem == "" && ShowRows(got) != ShowRows(want):
			problem = fmt.Sprintf("yields %s, must yield %s", ShowRows(got), ShowRows(want))
		case problem == "" && w.E.OpenRows != 0:
			kind, problem = "leak", "a result set stays open"
			w.E.OpenRows = 0
		case problem == "" && (ShowRows(w.T.Rows) != ShowRows(table) || w.Decoys() != decoys):
			kind, problem = "changed", "the table changed"
		}
		if problem == "" {
			return
		}
		curs := "none"
		if cur >= 0 {
			curs = Show(table[cur])
		}
		r.Violate(name+"/"+id+"/"+kind, fmt.Sprintf("%s %s of %s, order %s, filter %s, page size %d, cursor %s: %s; statements: %s", id, name, ShowRows(table), o.showOrders(orders), f.name, limit, curs, problem, w.Queries()),
			map[string]any{"config": o.Cfg.Name, "model": s.Name, "direction": name, "table": ShowRows(table), "order": o.showOrders(orders), "filter": f.name, "page_size": limit, "cursor": curs, "database_scans_backwards": scan, "statements": w.Queries(), "problem": problem})
	}
	for ti, t := range tables {
		states[report.Hash(id, ShowRows(t))] = struct{}{}
		for oi, ords := range orders {
			for fi, f := range filters {
				if !rich && len(t) == 3 && fi == 1 {
					continue
				}
				r.Do(id, func() string { return fmt.Sprint(id, ShowRows(t), o.showOrders(ords)) }, func() {
					for cur := -1; cur < len(t); cur++ {
						for _, rev := range []bool{false, true} {
							for _, limit := range []uint16{1, 2} {
								scan := (ti+oi+fi+cur)&1 == 1
								run(t, ords, f, limit, cur, rev, scan)
								if r.Thorough() {
									run(t, ords, f, limit, cur, rev, !scan)
								}
							}
							if ti%7 == 0 {
								run(t, ords, f, 0, cur, rev, false)
								run(t, ords, f, 65535, cur, rev, true)
							}
						}
					}
				})
			}
		}
	}
	if o.Cfg.Name == "pgq" || o.Cfg.Name == "mysql" || o.Cfg.Name == "sqlite" {
		r.Sample(map[string]any{"model": id, "tables": len(tables), "orders": len(orders), "filters": len(filters), "last_statement": w.Queries()})
	}
	r.States(states)
}
