package rtx

import (
	"context"
	"database/sql"
	"fmt"
	"sort"
	"strings"

	"vh/minisql"
	"vh/report"
)

// upsert outcome of one model.
type ures struct {
	row      int  // index of the row in the reference table
	inserted bool // a new row
	key      bool // the key was sent
}

// ctx of one upsert.
type uctx struct {
	o    *Ops
	one  bool
	u    Ups
	omit map[int]bool // omitted columns
	raw  bool
	tgt  []int // PostgreSQL conflict target
}

// upsertRef applies one upsert to the reference table. It reports ambiguous
// cases (several rows conflict) and failures (a key other than the target).
func (c *uctx) upsertRef(f *Ref, model []any, touched map[int]bool) (out ures, fails, ambiguous bool) {
	s, d := c.o.Shape, c.o.Cfg.Dialect
	st := s.stored(model, d, c.raw)
	auto := s.AutoIdx()
	sent := auto < 0
	if auto >= 0 && d != pg && c.one && Cmp(model[auto], int64(0)) != 0 {
		sent = true
	}
	out.key = sent
	hits := map[int]bool{}
	target := -1
	for _, ks := range s.keySets() {
		if len(ks) == 1 && ks[0] == auto && !sent {
			continue
		}
		if h := f.clash(st, [][]int{ks}); h >= 0 {
			hits[h] = true
			if fmt.Sprint(ks) == fmt.Sprint(c.tgt) {
				target = h
			}
		}
	}
	if d == pg {
		if len(hits) > 0 && target < 0 || len(hits) > 1 {
			return out, true, false
		}
	}
	if len(hits) > 1 {
		return out, false, true
	}
	for h := range hits {
		out.row = h
		if c.u.Override {
			if touched[h] && d == pg {
				return out, true, false
			}
			for i, col := range s.Cols {
				if !col.PK && !col.RO && !c.omit[i] {
					f.Rows[h][i] = st[i]
				}
			}
			touched[h] = true
		}
		return
	}
	row := append([]any(nil), st...)
	if auto >= 0 {
		if sent {
			row[auto] = model[auto]
			if n, ok := model[auto].(int64); ok && n > f.Auto {
				f.Auto = n
			}
		} else {
			f.Auto++
			row[auto] = f.Auto
		}
	}
	f.Rows = append(f.Rows, row)
	out.row, out.inserted = len(f.Rows)-1, true
	touched[out.row] = true
	return
}

// normal renders a table with the values the database chose for new rows masked.
func (s *Shape) normal(pre *Ref, rows [][]any, explicit map[any]bool) string {
	auto := s.AutoIdx()
	old := func(r []any) bool {
		for _, p := range pre.Rows {
			if s.SameKey(p, r) {
				return true
			}
		}
		return false
	}
	out := append([][]any(nil), rows...)
	s.Sort(out)
	n := 0
	var text []string
	for _, r := range out {
		r = append([]any(nil), r...)
		if len(s.Keys()) > 0 && !old(r) {
			if auto >= 0 && !explicit[r[auto]] {
				n++
				if id, ok := r[auto].(int64); ok && id > pre.Auto {
					r[auto] = fmt.Sprintf("new%d", n)
				}
			}
			for i, c := range s.Cols {
				if c.RO {
					if x, ok := r[i].(string); r[i] == nil || ok && strings.HasPrefix(x, "gen") {
						r[i] = "gen*"
					}
				}
			}
		}
		text = append(text, Show(r))
	}
	sort.Strings(text)
	return strings.Join(text, " ")
}

// ident is how a column is named in this configuration.
func (o *Ops) ident(i int) string {
	c := o.Shape.Cols[i]
	if g, ok := o.Get_[c.Name]; ok && g.Name != nil {
		return g.Name()
	}
	return c.Name
}

func (o *Ops) idents(ix []int) (out []string) {
	for _, i := range ix {
		out = append(out, o.ident(i))
	}
	return
}

// upModels is the domain of models.
func (s *Shape) upModels(keys, vs int) (out [][]any) {
	a := s.AutoIdx()
	for k := 0; k < keys; k++ {
		for v := 0; v < vs; v++ {
			row := s.Row(k, v)
			if a < 0 {
				out = append(out, row)
				continue
			}
			for _, id := range []int64{0, 1, 2, 71} {
				r := append([]any(nil), row...)
				r[a] = id
				out = append(out, r)
			}
		}
	}
	return
}

// R03: upserts.
func R03(r *report.Run) {
	r.Rule = "every keyed model shape x configuration x starting table: every upsert of one model and of every list of models up to the bound, overriding or not, with every subset of the updatable columns omitted (and on PostgreSQL every conflict target), on an in-memory SQL database; final table, models and error compared with a reference table"
	r.Bounds = map[string]any{"list_length": r.Pick(2, 3), "keys": r.Pick(2, 3), "omitted": "every subset (single), none/each/all (lists)"}
	all := each(keyed)
	report.Parallel(len(all), func(i int) { all[i].r03(r) })
}

func (o *Ops) r03(r *report.Run) {
	s := o.Shape
	w := o.NewWorld()
	decoys := w.Decoys()
	states := map[uint64]struct{}{}
	id := o.Cfg.Name + "/" + s.Name
	d := o.Cfg.Dialect
	upd := s.Updatable()
	run := func(op string, pre *Ref, models [][]any, u Ups, omit map[int]bool, tgt []int) {
		explicit := map[any]bool{}
		simulate := func(raw bool) (want *Ref, res []ures, ok, skip bool) {
			c := &uctx{o: o, one: op == "UpsertOne", u: u, omit: omit, raw: raw, tgt: tgt}
			want = pre.clone()
			touched := map[int]bool{}
			for _, m := range models {
				x, fails, amb := c.upsertRef(want, m, touched)
				if amb {
					return nil, nil, false, true
				}
				if fails {
					return pre.clone(), nil, false, false
				}
				if a := s.AutoIdx(); a >= 0 && x.key {
					explicit[m[a]] = true
				}
				res = append(res, x)
			}
			return want, res, true, false
		}
		want, outs, ok, skip := simulate(false)
		if skip {
			return
		}
		ptrs, before := make([]any, len(models)), make([][]any, len(models))
		for i := range models {
			ptrs[i] = o.Make(models[i])
			before[i] = o.Get(ptrs[i])
		}
		w.Load(pre.Rows, pre.Auto, pre.Seq)
		var res sql.Result
		err, pan := catch(func() error {
			var err error
			if op == "UpsertOne" {
				res, err = o.UpsertOne(context.Background(), w.DB, ptrs[0], u)
			} else {
				sl := o.Slice(ptrs)
				res, err = o.Upsert(context.Background(), w.DB, sl, u)
				ptrs = o.Elems(sl)
			}
			return err
		})
		r.Transition(1)
		r.Trace(1)
		bad := func(kind, f string, a ...any) {
			r.Violate(op+"/"+id+"/"+kind, fmt.Sprintf("%s %s of %s into %s (override=%v omit=%v target=%v): %s", id, op, ShowRows(models), ShowRows(pre.Rows), u.Override, u.Omit, u.Keys, fmt.Sprintf(f, a...)),
				map[string]any{"config": o.Cfg.Name, "model": s.Name, "op": op, "table": ShowRows(pre.Rows), "models": ShowRows(models), "options": u, "statements": w.Queries(), "error": fmt.Sprint(err), "problem": fmt.Sprintf(f, a...)})
		}
		got := w.Rows()
		norm := func(rows [][]any) string { return s.normal(pre, rows, explicit) }
		if s.HasUpper() && d != pg && !pan {
			// known: exactly the outcome of sending the raw value
			alt, _, altOk, altSkip := simulate(true)
			if altSkip || (err == nil) == altOk && norm(got) == norm(alt.Rows) && (altOk != ok || norm(alt.Rows) != norm(want.Rows)) {
				bad("raw", "the SQL value expression of the custom type is not applied; statements: %s", w.Queries())
				return
			}
		}
		switch {
		case pan:
			bad("panic", "%v; statements: %s", err, w.Queries())
			return
		case ok && err != nil:
			bad("error", "fails with %v; statements: %s", err, w.Queries())
			return
		case !ok && err == nil:
			bad("missed", "must fail (a key outside the conflict target, or a row twice); statements: %s", w.Queries())
			return
		}
		if norm(got) != norm(want.Rows) {
			bad("table", "table is %s, must be %s; statements: %s", norm(got), norm(want.Rows), w.Queries())
			return
		}
		if w.Decoys() != decoys {
			bad("other", "another table changed: %s; statements: %s", w.Decoys(), w.Queries())
			return
		}
		if w.E.OpenRows != 0 {
			bad("leak", "a result set stays open")
			w.E.OpenRows = 0
		}
		if len(models) == 0 && len(w.E.Log) != 0 {
			bad("empty", "an empty list sent %s", w.Queries())
			return
		}
		if !ok {
			return
		}
		_ = res
		a := s.AutoIdx()
		for i := range ptrs {
			now := o.Get(ptrs[i])
			x := outs[i]
			full := s.Loaded(want.Rows[x.row])
			same := true
			for j := range now {
				if !s.Cols[j].RO && j != a && Show(now[j:j+1]) != Show(before[i][j:j+1]) {
					same = false
				}
			}
			held := false
			for _, g := range got {
				if Same(s.Loaded(g), now) && norm([][]any{s.Stored(now, d)}) == norm([][]any{s.Stored(full, d)}) {
					held = true
				}
			}
			if !held && d != pg && a >= 0 && op == "UpsertOne" {
				// the key of the row the model went to
				for _, g := range got {
					if Cmp(g[a], now[a]) == 0 && norm([][]any{g}) == norm([][]any{want.Rows[x.row]}) {
						held = true
					}
				}
				if same && Cmp(now[a], before[i][a]) == 0 && !x.inserted {
					held = true
				}
				if !held {
					bad("key", "the model's key is %v afterwards, its row is %s; statements: %s", now[a], Show(want.Rows[x.row]), w.Queries())
					return
				}
				held = same
			}
			untouched := Same(now, before[i])
			switch {
			case held:
			case d == pg && (u.Override || x.inserted && op == "UpsertOne"):
				bad("returned", "model %d is %s afterwards, must hold the stored row %s; statements: %s", i, Show(now), Show(full), w.Queries())
				return
			case !untouched:
				bad("model", "model %d is %s afterwards, was %s; statements: %s", i, Show(now), Show(before[i]), w.Queries())
				return
			}
		}
	}

	// conflict targets
	type target struct {
		ix    []int
		names []string
	}
	var targets []target
	def := s.Keys()
	if d == pg {
		if len(s.Dup) > 0 {
			def = nil
			for _, n := range s.Dup {
				def = append(def, s.Idx(n))
			}
		}
		targets = append(targets, target{def, nil})
		for _, ks := range s.keySets() {
			targets = append(targets, target{ks, o.idents(ks)})
		}
	} else {
		targets = []target{{}}
	}
	var subsets [][]int
	for m := 0; m < 1<<len(upd); m++ {
		var sub []int
		for j := range upd {
			if m>>j&1 == 1 {
				sub = append(sub, upd[j])
			}
		}
		subsets = append(subsets, sub)
	}
	var few [][]int
	for _, sub := range subsets {
		if len(sub) <= 1 || len(sub) == len(upd) {
			few = append(few, sub)
		}
	}
	pres := o.pres(2, []int{0, 1})
	one := s.upModels(r.Pick(2, 3), s.variants())
	many := s.upModels(2, 2)
	lists := [][][]any{{}}
	{
		last := lists
		for n := 0; n < r.Pick(2, 3); n++ {
			var next [][][]any
			for _, p := range last {
				for _, m := range many {
					if a := s.AutoIdx(); a >= 0 && n > 0 && Cmp(m[a], int64(1)) == 0 {
						continue // the keys of bulk rows are not sent: fewer values do
					}
					next = append(next, append(append([][]any(nil), p...), m))
				}
			}
			lists = append(lists, next...)
			last = next
		}
	}
	for _, p := range pres {
		for _, t := range targets {
			for _, over := range []bool{false, true} {
				for _, sub := range subsets {
					if !over && len(sub) > 1 {
						continue
					}
					u := Ups{Override: over, Omit: o.idents(sub), Keys: t.names}
					omit := map[int]bool{}
					for _, i := range sub {
						omit[i] = true
					}
					if d == pg && t.names == nil {
						for _, n := range s.Dup {
							omit[s.Idx(n)] = true // never overwritten: it is the key of the conflict
						}
					}
					states[report.Hash(id, ShowRows(p.Rows), fmt.Sprint(u))] = struct{}{}
					r.Do(id+"/one", func() string { return id }, func() {
						for _, m := range one {
							run("UpsertOne", p, [][]any{m}, u, omit, t.ix)
						}
					})
					isFew := false
					for _, f := range few {
						isFew = isFew || fmt.Sprint(f) == fmt.Sprint(sub)
					}
					if !isFew {
						continue
					}
					r.Do(id+"/list", func() string { return id }, func() {
						for _, l := range lists {
							run("Upsert", p, l, u, omit, t.ix)
						}
					})
				}
			}
		}
	}
	if o.Cfg.Name == "pgq" || o.Cfg.Name == "mysql" || o.Cfg.Name == "sqlite" {
		r.Sample(map[string]any{"model": id, "starting_tables": len(pres), "targets": len(targets), "omit_sets": len(subsets), "lists": len(lists), "last_statement": w.Queries()})
	}
	r.States(states)
}

var _ = minisql.MySQL
