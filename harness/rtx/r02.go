package rtx

import (
	"database/sql"
	"fmt"
	"strings"
	"time"

	"vh/minisql"
	"vh/report"
)

const pg = minisql.Postgres

// Cmp orders two non-null values of one column.
func Cmp(a, b any) int {
	switch x := a.(type) {
	case int64:
		if y, ok := b.(int64); ok {
			switch {
			case x < y:
				return -1
			case x > y:
				return 1
			}
			return 0
		}
	case string:
		if y, ok := b.(string); ok {
			return strings.Compare(x, y)
		}
	case time.Time:
		if y, ok := b.(time.Time); ok {
			return x.Compare(y)
		}
	case bool:
		if y, ok := b.(bool); ok {
			if x == y {
				return 0
			}
			if !x {
				return -1
			}
			return 1
		}
	}
	return strings.Compare(fmt.Sprintf("%T%v", a, a), fmt.Sprintf("%T%v", b, b))
}

// R02: find, update, delete and lock by key, explored as a transition system
// over table contents.
func R02(r *report.Run) {
	keys := r.Pick(3, 4)
	r.Rule = "explicit-state exploration: every reachable content of the table over the key domain (each key absent or present with one of the value variants) x FindByPK, UpdateByPK, DeleteByPK and LockByPK (every lock mode, inside a transaction) with every key and value; successor table, loaded model, result and error compared with the reference, for every model shape and configuration, scanning in both physical orders"
	r.Bounds = map[string]any{"keys": keys, "configurations": len(Cfgs())}
	all := each(keyed)
	report.Parallel(len(all), func(i int) { all[i].r02(r, keys) })
}

// present builds a table content: k -> variant, -1 absent; auto models get key k+1.
func (o *Ops) present(vs []int) *Ref {
	f := &Ref{S: o.Shape}
	for k, v := range vs {
		st := o.Shape.Stored(o.Shape.Row(k, max(v, 0)), o.Cfg.Dialect)
		if a := o.Shape.AutoIdx(); a >= 0 {
			f.Auto = int64(k)
		}
		if v >= 0 {
			f.insert(st)
		} else {
			f.Seq++
		}
	}
	f.Auto = int64(len(vs))
	return f
}

// modelRow is the model of key k, variant v, addressing an existing auto key.
func (s *Shape) modelRow(k, v int) []any {
	row := s.Row(k, v)
	if a := s.AutoIdx(); a >= 0 {
		row[a] = int64(k + 1)
	}
	for i, c := range s.Cols {
		if c.RO {
			row[i] = "stale"
		}
		_ = c
	}
	return row
}

func (o *Ops) r02(r *report.Run, keys int) {
	s := o.Shape
	w := o.NewWorld()
	decoys := w.Decoys()
	id := o.Cfg.Name + "/" + s.Name
	nv := s.variants()
	enc := func(vs []int) string { return fmt.Sprint(vs) }
	start := make([]int, keys)
	for i := range start {
		start[i] = -1
	}
	// breadth-first from the full product is the same as reachability by
	// insert/update/delete: walk it with the operations themselves
	seen := map[string]bool{enc(start): true}
	queue := [][]int{start}
	states := map[uint64]struct{}{}
	trans := 0
	for len(queue) > 0 {
		vs := queue[0]
		queue = queue[1:]
		states[report.Hash(id, enc(vs))] = struct{}{}
		pre := o.present(vs)
		push := func(n []int) {
			if k := enc(n); !seen[k] {
				seen[k] = true
				queue = append(queue, n)
			}
		}
		for k := 0; k < keys; k++ {
			for v := 0; v < nv; v++ {
				if vs[k] < 0 {
					n := append([]int(nil), vs...)
					n[k] = v
					push(n) // insertion itself is R01
				}
				for _, op := range []string{"Find", "Update", "Delete", "Lock"} {
					if op != "Update" && v > 0 {
						continue
					}
					modes := []string{""}
					if op == "Lock" {
						modes = o.Cfg.Locks
					}
					for _, mode := range modes {
						for _, rev := range []bool{false, true} {
							w.E.Reverse = rev
							trans++
							succ := o.r02step(r, w, pre, vs, op, mode, k, v, decoys, id)
							if succ != nil {
								push(succ)
							}
						}
					}
				}
			}
		}
	}
	r.Transition(trans)
	r.Trace(trans)
	r.States(states)
	if o.Cfg.Name == "pg" {
		r.Sample(map[string]any{"model": id, "table_states": len(seen), "transitions": trans})
	}
}

func (o *Ops) r02step(r *report.Run, w *World, pre *Ref, vs []int, op, mode string, k, v int, decoys, id string) (succ []int) {
	s := o.Shape
	row := s.modelRow(k, v)
	m := o.Make(row)
	w.Load(pre.Rows, pre.Auto, pre.Seq)
	want := pre.clone()
	at := -1
	key := s.Stored(row, o.Cfg.Dialect)
	for i, x := range want.Rows {
		if s.SameKey(x, key) {
			at = i
		}
	}
	var found []any
	if at >= 0 {
		found = want.Rows[at]
	}
	uniqueClash := false
	var res sql.Result
	r.Do(id+"/"+op, func() string { return fmt.Sprint(id, op, k, v, vs) }, func() {
		lock := ""
		err, pan := catch(func() error {
			var err error
			switch op {
			case "Find":
				err = o.Find(bg, w.DB, m)
			case "Update":
				res, err = o.Update(bg, w.DB, m)
			case "Delete":
				res, err = o.Delete(bg, w.DB, m)
			case "Lock":
				tx, e := w.DB.Begin()
				if e != nil {
					return e
				}
				err = o.Lock(bg, tx, m, mode)
				if n := len(w.E.Log); n > 0 {
					lock = w.E.Log[n-1].Lock
					if !w.E.Log[n-1].InTx {
						lock = "outside the transaction"
					}
				}
				tx.Commit()
			}
			return err
		})
		bad := func(kind, f string, a ...any) {
			r.Violate(op+"/"+id+"/"+kind, fmt.Sprintf("%s %sByPK %s %s on %s: %s; statements: %s", id, op, mode, Show(row), ShowRows(pre.Rows), fmt.Sprintf(f, a...), w.Queries()),
				map[string]any{"config": o.Cfg.Name, "model": s.Name, "op": op, "table": ShowRows(pre.Rows), "key_and_values": Show(row), "statements": w.Queries(), "error": fmt.Sprint(err), "problem": fmt.Sprintf(f, a...)})
		}
		if pan {
			bad("panic", "%v", err)
			return
		}
		switch op {
		case "Update":
			if at >= 0 {
				n := append([]any(nil), found...)
				for _, i := range s.Updatable() {
					n[i] = key[i]
				}
				want.Rows[at] = n
			}
		case "Delete":
			if at >= 0 {
				want.Rows = append(append([][]any(nil), want.Rows[:at]...), want.Rows[at+1:]...)
			}
		}
		_ = uniqueClash
		switch op {
		case "Find", "Lock":
			if at < 0 {
				if !noRows(err) {
					bad("absent", "no such row, but the error is %v", err)
					return
				}
			} else {
				if err != nil {
					bad("error", "fails with %v", err)
					return
				}
				if got, exp := o.Get(m), s.Loaded(found); !Same(got, exp) {
					bad("loaded", "loads %s, the row is %s", Show(got), Show(exp))
					return
				}
			}
			if op == "Lock" {
				wantLock := mode
				if o.Cfg.Dialect == minisql.SQLite {
					wantLock = ""
				}
				if lock != wantLock {
					bad("lock", "takes lock %q, asked for %q", lock, wantLock)
				}
			}
		default:
			if err != nil {
				bad("error", "fails with %v", err)
				return
			}
			n := int64(0)
			if at >= 0 {
				n = 1
			}
			if op == "Update" && len(s.Updatable()) == 0 {
				n = affected(res) // nothing to update
			}
			if a := affected(res); a != n && !(op == "Update" && a == 0 && at >= 0 && Same(found, want.Rows[at])) {
				bad("affected", "RowsAffected is %d, must be %d", a, n)
			}
			if now := o.Get(m); !Same(now, row) {
				bad("model", "the model is %s afterwards", Show(now))
			}
		}
		if got := w.Rows(); ShowRows(got) != ShowRows(want.sorted()) {
			bad("table", "table is %s, must be %s", ShowRows(got), ShowRows(want.sorted()))
			return
		}
		if w.Decoys() != decoys {
			bad("other", "another table changed: %s", w.Decoys())
		}
		if w.E.OpenRows != 0 {
			bad("leak", "a result set stays open")
			w.E.OpenRows = 0
		}
	})
	if at >= 0 {
		succ = append([]int(nil), vs...)
		switch op {
		case "Update":
			succ[k] = v
		case "Delete":
			succ[k] = -1
		}
	}
	return
}
