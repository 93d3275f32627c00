package rtx

import (
	"context"
	"database/sql"
	"fmt"

	"vh/report"
)

// Ref is the reference table: what the database has to hold.
type Ref struct {
	S         *Shape
	Rows      [][]any
	Auto, Seq int64
}

func (f *Ref) clone() *Ref {
	g := &Ref{S: f.S, Auto: f.Auto, Seq: f.Seq}
	for _, r := range f.Rows {
		g.Rows = append(g.Rows, append([]any(nil), r...))
	}
	return g
}

func (f *Ref) clash(row []any, keys [][]int) int {
next:
	for i, r := range f.Rows {
		for _, ks := range keys {
			eq := true
			for _, k := range ks {
				if r[k] == nil || row[k] == nil || Cmp(r[k], row[k]) != 0 {
					eq = false
				}
			}
			if eq {
				return i
			}
		}
		continue next
	}
	return -1
}

func (s *Shape) keySets() (out [][]int) {
	if k := s.Keys(); len(k) > 0 {
		out = append(out, k)
	}
	for i, c := range s.Cols {
		if c.Unique {
			out = append(out, []int{i})
		}
	}
	return
}

// insert adds a stored row, filling what the database fills.
func (f *Ref) insert(st []any) ([]any, bool) {
	row := append([]any(nil), st...)
	if a := f.S.AutoIdx(); a >= 0 {
		row[a] = f.Auto + 1
	}
	if f.clash(row, f.S.keySets()) >= 0 {
		return nil, false
	}
	if f.S.AutoIdx() >= 0 {
		f.Auto++
	}
	f.Seq++
	for i, c := range f.S.Cols {
		if c.RO {
			row[i] = fmt.Sprintf("gen%d", f.Seq)
		}
	}
	f.Rows = append(f.Rows, row)
	return row, true
}

func (f *Ref) sorted() [][]any {
	out := append([][]any(nil), f.Rows...)
	f.S.Sort(out)
	return out
}

// el is one model: key index and value variant.
type el struct{ k, v int }

func (s *Shape) rowOf(x el) []any {
	row := s.Row(x.k, x.v)
	if a := s.AutoIdx(); a >= 0 {
		row[a] = int64(0)
		if x.v == 1 {
			row[a] = int64(70 + x.k) // a stale key in the model must not matter
		}
	}
	return row
}

func lists(n int, dom []el) [][]el {
	out := [][]el{{}}
	last := [][]el{{}}
	for i := 0; i < n; i++ {
		var next [][]el
		for _, p := range last {
			for _, e := range dom {
				next = append(next, append(append([]el(nil), p...), e))
			}
		}
		out = append(out, next...)
		last = next
	}
	return out
}

func (s *Shape) variants() int {
	for _, c := range s.Cols {
		if c.Null {
			return 3
		}
	}
	return 2
}

func (s *Shape) dom(keys int) (d []el) {
	for k := 0; k < keys; k++ {
		for v := 0; v < s.variants(); v++ {
			d = append(d, el{k, v})
		}
	}
	return
}

// pres are the tables an operation starts from: every combination of absent /
// present for the first n keys, rows having the given variant.
func (o *Ops) pres(n int, vs []int) []*Ref {
	out := []*Ref{{S: o.Shape}}
	for k := 0; k < n; k++ {
		var next []*Ref
		for _, p := range out {
			next = append(next, p)
			for _, v := range vs {
				q := p.clone()
				q.insert(o.Shape.Stored(o.Shape.rowOf(el{k, v}), o.Cfg.Dialect))
				next = append(next, q)
			}
		}
		out = next
	}
	if o.Shape.AutoIdx() >= 0 {
		q := &Ref{S: o.Shape, Auto: 5}
		out = append(out, q)
	}
	return out
}

// R01: insertion.
func R01(r *report.Run) {
	maxList := r.Pick(2, 3)
	keys := r.Pick(2, 3)
	r.Rule = "every model shape x every configuration (3 databases x quoting): from every reachable starting table, insert every single model and every list of models up to the bound (including lists that violate a key), on an in-memory SQL database; final table, models, result and error compared with a reference table"
	r.Bounds = map[string]any{"list_length": maxList, "keys": keys, "starting_keys": 2, "configurations": len(Cfgs()), "shapes": len(Shapes)}
	all := each(anyShape)
	report.Parallel(len(all), func(i int) { all[i].r01(r, maxList, keys) })
}

func (o *Ops) r01(r *report.Run, maxList, keys int) {
	s := o.Shape
	w := o.NewWorld()
	decoys := w.Decoys()
	states := map[uint64]struct{}{}
	id := o.Cfg.Name + "/" + s.Name
	run := func(op string, pre *Ref, xs []el) {
		ptrs := make([]any, len(xs))
		before := make([][]any, len(xs))
		for i, x := range xs {
			row := s.rowOf(x)
			before[i] = row
			ptrs[i] = o.Make(row)
		}
		w.Load(pre.Rows, pre.Auto, pre.Seq)
		simulate := func(raw bool) (want *Ref, stored [][]any, ok bool) {
			want = pre.clone()
			for i := range xs {
				row, good := want.insert(s.stored(before[i], o.Cfg.Dialect, raw))
				if !good {
					return pre.clone(), nil, false
				}
				stored = append(stored, row)
			}
			return want, stored, true
		}
		want, stored, ok := simulate(false)
		var res sql.Result
		var sl any
		err, pan := catch(func() error {
			var err error
			if op == "InsertOne" {
				res, err = o.InsertOne(context.Background(), w.DB, ptrs[0])
			} else {
				sl = o.Slice(ptrs)
				res, err = o.Insert(context.Background(), w.DB, sl)
				ptrs = o.Elems(sl)
			}
			return err
		})
		r.Transition(1)
		r.Trace(1)
		bad := func(kind, f string, a ...any) {
			r.Violate(op+"/"+id+"/"+kind, fmt.Sprintf("%s %s of %s into %s: %s", id, op, ShowRows(before), ShowRows(pre.Rows), fmt.Sprintf(f, a...)),
				map[string]any{"config": o.Cfg.Name, "model": s.Name, "op": op, "table": ShowRows(pre.Rows), "models": ShowRows(before), "statements": w.Queries(), "error": fmt.Sprint(err), "problem": fmt.Sprintf(f, a...)})
		}
		if op == "Insert" && s.HasUpper() && o.Cfg.Dialect != pg && !pan {
			// known: exactly the outcome of sending the raw value
			alt, _, altOk := simulate(true)
			if (err == nil) == altOk && ShowRows(w.Rows()) == ShowRows(alt.sorted()) && (altOk != ok || ShowRows(alt.sorted()) != ShowRows(want.sorted())) {
				bad("raw", "the SQL value expression of the custom type is not applied; statements: %s", w.Queries())
				return
			}
		}
		switch {
		case pan:
			bad("panic", "%v; statements: %s", err, w.Queries())
			return
		case ok && err != nil:
			bad("error", "fails with %v; statements: %s", err, w.Queries())
			return
		case !ok && !dup(err):
			bad("missed", "violates a key, but the error is %v", err)
			return
		}
		got := w.Rows()
		if ShowRows(got) != ShowRows(want.sorted()) {
			bad("table", "table is %s, must be %s; statements: %s", ShowRows(got), ShowRows(want.sorted()), w.Queries())
			return
		}
		if w.Decoys() != decoys {
			bad("other", "another table changed: %s; statements: %s", w.Decoys(), w.Queries())
			return
		}
		if len(xs) == 0 && len(w.E.Log) != 0 {
			bad("empty", "an empty list sent %s", w.Queries())
			return
		}
		if w.E.OpenRows != 0 {
			bad("leak", "a result set stays open")
			w.E.OpenRows = 0
		}
		if !ok {
			return
		}
		if n := affected(res); res != nil && n != int64(len(xs)) {
			bad("affected", "RowsAffected is %d", n)
		}
		a := s.AutoIdx()
		for i := range ptrs {
			now := o.Get(ptrs[i])
			full := s.Loaded(stored[i])
			switch {
			case Same(now, full):
				continue // holds the stored row
			case o.Cfg.Dialect == pg:
				bad("returned", "model %d is %s afterwards, must hold the stored row %s; statements: %s", i, Show(now), Show(full), w.Queries())
				return
			}
			for j := range now {
				if s.Cols[j].RO {
					continue
				}
				if j == a {
					if op == "InsertOne" && Cmp(now[j], full[j]) != 0 || Cmp(now[j], full[j]) != 0 && Cmp(now[j], before[i][j]) != 0 {
						bad("key", "model %d has key %v afterwards, the database assigned %v; statements: %s", i, now[j], full[j], w.Queries())
						return
					}
					continue
				}
				if Show(now[j:j+1]) != Show(before[i][j:j+1]) {
					bad("model", "model %d is %s afterwards, was %s", i, Show(now), Show(before[i]))
					return
				}
			}
		}
	}
	dom := s.dom(keys)
	pres := o.pres(2, []int{0})
	for _, p := range pres {
		states[report.Hash(id, ShowRows(p.Rows), fmt.Sprint(p.Auto))] = struct{}{}
		r.Do(id+"/one", func() string { return id }, func() {
			for _, x := range dom {
				run("InsertOne", p, []el{x})
			}
		})
		for _, xs := range lists(maxList, dom) {
			r.Do(id+"/list", func() string { return fmt.Sprint(id, xs) }, func() { run("Insert", p, xs) })
			states[report.Hash(id, ShowRows(p.Rows), fmt.Sprint(xs))] = struct{}{}
		}
	}
	// histories: insert one after another until the key space is used up
	h := &Ref{S: s}
	w.Load(nil, 0, 0)
	for k := 0; k < 4; k++ {
		row := s.rowOf(el{k, k % 2})
		m := o.Make(row)
		if _, err := o.InsertOne(bg, w.DB, m); err != nil {
			r.Violate("InsertOne/"+id+"/history", fmt.Sprintf("%s: insert number %d fails: %v", id, k+1, err), w.Queries())
			break
		}
		st, _ := h.insert(s.Stored(row, o.Cfg.Dialect))
		if a := s.AutoIdx(); a >= 0 {
			if got := o.Get(m)[a]; Cmp(got, st[a]) != 0 {
				r.Violate("InsertOne/"+id+"/historykey", fmt.Sprintf("%s: insert number %d sets key %v, the database assigned %v", id, k+1, got, st[a]), w.Queries())
			}
		}
		if ShowRows(w.Rows()) != ShowRows(h.sorted()) {
			r.Violate("InsertOne/"+id+"/historytable", fmt.Sprintf("%s: after %d inserts the table is %s, must be %s", id, k+1, ShowRows(w.Rows()), ShowRows(h.sorted())), w.Queries())
			break
		}
		r.Transition(1)
		r.Trace(1)
	}
	if o.Cfg.Name == "pgq" || o.Cfg.Name == "mysql" {
		r.Sample(map[string]any{"model": id, "starting_tables": len(pres), "lists": len(lists(maxList, dom)), "last_statement": w.Queries()})
	}
	r.States(states)
}
