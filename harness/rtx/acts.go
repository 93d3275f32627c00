package rtx

import (
	"errors"
	"fmt"
	"reflect"
	"strings"

	"github.com/si3nloong/sqlgen/sequel"
)

var errEndless = errors.New("the pager does not end")

// act is one operation on a fresh model over a known table; its outcome is
// what it returns, what it leaves in the models and what it sends.
type act struct {
	o    *Ops
	name string
	rows int // rows in the table beforehand, keys 0..rows-1
	// run calls y where code of the caller runs during the operation.
	run func(w *World, v int, y func()) (string, error)
}

// prepare puts the table into the state the act starts from.
func (a act) prepare(w *World) {
	s := a.o.Shape
	rows := make([][]any, a.rows)
	for k := range rows {
		rows[k] = s.r06Row(k, a.o.Cfg.Dialect)
	}
	w.Load(rows, int64(a.rows), 0)
}

// fresh is a model to insert.
func (o *Ops) fresh(k, v int) any {
	row := o.Shape.Row(k, v)
	if i := o.Shape.AutoIdx(); i >= 0 {
		row[i] = int64(0)
	}
	return o.Make(row)
}

// existing is a model addressing an existing row.
func (o *Ops) existing(k, v int) any { return o.Make(o.Shape.modelRow(k, v)) }

func (o *Ops) showAll(ptrs []any) string {
	p := make([]string, len(ptrs))
	for i := range ptrs {
		p[i] = Show(o.Get(ptrs[i]))
	}
	return strings.Join(p, " ")
}

// rawCond is a condition the caller writes by hand in several steps.
func (o *Ops) rawCond(i int, op string, val any, y func()) sequel.WhereClause {
	return func(w sequel.StmtWriter) {
		y()
		w.WriteString(o.ident(i))
		y()
		w.Write([]byte(" " + op + " "))
		y()
		w.WriteString(w.Var(val))
		w.WriteByte(' ')
		y()
	}
}

// condition combines what the caller writes with the operators.
func (o *Ops) condition(w *World, v int, y func()) sequel.WhereClause {
	s := o.Shape
	last := len(s.Cols) - 1
	row := s.r06Row(v%2, o.Cfg.Dialect)
	first := o.rawCond(0, "=", row[0], y)
	if g, ok := o.Get_[s.Cols[0].Name]; ok && s.Cols[0].Kind != kD {
		vals := []any{s.modelRow(0, v)[0], s.modelRow(1, v)[0]}
		if !hasNil(vals) {
			first = g.Where("in", vals)
		}
	}
	both := spare(w, "conditions of And", first, o.rawCond(last, "<>", s.r06Row(3, o.Cfg.Dialect)[last], y))
	either := spare(w, "conditions of Or", o.Cfg.And(both...), o.rawCond(0, "=", row[0], y))
	return o.Cfg.Or(either...)
}

func (o *Ops) sets(v int, y func()) (out []sequel.SetClause) {
	s := o.Shape
	for _, i := range s.Updatable() {
		if s.Cols[i].Unique {
			continue
		}
		val := s.Row(0, v)[i]
		if g, ok := o.Get_[s.Cols[i].Name]; ok && val != nil && i%2 == 0 {
			out = append(out, g.Set(val))
			continue
		}
		out = append(out, func(w sequel.StmtWriter) {
			y()
			w.WriteString(o.ident(i) + " = ")
			y()
			w.WriteString(w.Var(val))
		})
	}
	return
}

// acts lists the operations of a model.
func (o *Ops) acts() []act {
	var out []act
	s := o.Shape
	add := func(name string, rows int, f func(w *World, v int, y func()) (string, error)) {
		out = append(out, act{o, name, rows, f})
	}
	insert := func(name string, ks ...int) {
		add(name, 2, func(w *World, v int, y func()) (string, error) {
			if len(ks) == 1 {
				m := o.fresh(ks[0], v)
				res, err := o.InsertOne(bg, w.DB, m)
				return fmt.Sprint(affected(res), o.showAll([]any{m})), err
			}
			var l []any
			for j, k := range ks {
				l = append(l, o.fresh(k, v+j))
			}
			sl := o.Slice(l)
			w.guardRest("models", sl)
			res, err := o.Insert(bg, w.DB, sl)
			return fmt.Sprint(affected(res), o.showAll(o.Elems(sl))), err
		})
	}
	insert("InsertOne", 2)
	insert("Insert2", 2, 3)
	if len(s.Keys()) > 0 {
		upsert := func(name string, u Ups, ks ...int) {
			add(name, 2, func(w *World, v int, y func()) (string, error) {
				model := o.existing
				if s.AutoIdx() >= 0 && name == "UpsertNew" {
					model = o.fresh
				}
				u := u
				u.Omit = spare(w, "omitted columns", u.Omit...)
				u.Keys = spare(w, "duplicate keys", u.Keys...)
				if len(ks) == 1 {
					m := model(ks[0], v)
					res, err := o.UpsertOne(bg, w.DB, m, u)
					return fmt.Sprint(affected(res), o.showAll([]any{m})), err
				}
				var l []any
				for j, k := range ks {
					l = append(l, model(k, v+j))
				}
				sl := o.Slice(l)
				w.guardRest("models", sl)
				res, err := o.Upsert(bg, w.DB, sl, u)
				return fmt.Sprint(affected(res), o.showAll(o.Elems(sl))), err
			})
		}
		upsert("UpsertOne", Ups{Override: true}, 1)
		upsert("UpsertNew", Ups{Override: true}, 2)
		upsert("UpsertNothing", Ups{}, 1)
		upsert("Upsert2", Ups{Override: true}, 1, 2)
		upsert("Upsert2Nothing", Ups{}, 1, 2)
		if up := s.Updatable(); len(up) > 1 {
			upsert("UpsertOmit", Ups{Override: true, Omit: []string{o.ident(up[0])}}, 0, 1)
		}
		add("FindByPK", 2, func(w *World, v int, y func()) (string, error) {
			m := o.existing(1, v)
			err := o.Find(bg, w.DB, m)
			return o.showAll([]any{m}), err
		})
		add("UpdateByPK", 2, func(w *World, v int, y func()) (string, error) {
			m := o.existing(1, v)
			res, err := o.Update(bg, w.DB, m)
			return fmt.Sprint(affected(res), o.showAll([]any{m})), err
		})
		add("DeleteByPK", 2, func(w *World, v int, y func()) (string, error) {
			m := o.existing(1, v)
			res, err := o.Delete(bg, w.DB, m)
			return fmt.Sprint(affected(res), o.showAll([]any{m})), err
		})
		for i, mode := range o.Cfg.Locks {
			if i > 0 && s.Name != "Comp" {
				break
			}
			add("LockByPK/"+mode, 2, func(w *World, v int, y func()) (string, error) {
				tx, err := w.DB.Begin()
				if err != nil {
					return "", err
				}
				defer tx.Rollback()
				m := o.existing(1, v)
				err = o.Lock(bg, tx, m, mode)
				return o.showAll([]any{m}), err
			})
		}
		page := func(name string, prev bool, limit uint16, stop int, spec func(w *World, v int, y func()) SelSpec, cursor int) {
			add(name, 4, func(w *World, v int, y func()) (string, error) {
				q := spec(w, v, y)
				q.Limit = limit
				next, back := o.Page(q)
				if prev {
					next = back
				}
				var cs []any
				if cursor >= 0 {
					cs = append(cs, o.existing(cursor, v))
				}
				got := ""
				var err error
				n := 0
				for l, e := range next(bg, w.DB, cs...) {
					y()
					n++
					if e != nil {
						err = e
						got += "!"
					}
					if n > 20 {
						if err == nil {
							err = errEndless
						}
						break
					}
					if e != nil {
						continue
					}
					got += "[" + o.showAll(l) + "]"
					if n == stop {
						break
					}
				}
				return got, err
			})
		}
		plainPage := func(*World, int, func()) SelSpec { return SelSpec{} }
		ordered := func(w *World, v int, y func()) SelSpec {
			last := len(s.Cols) - 1
			return SelSpec{Where: o.condition(w, v, y), OrderBy: spare(w, "order", o.order(ord{0, v%2 == 0}), o.order(ord{last, true}))}
		}
		page("Next", false, 1, 0, plainPage, -1)
		page("NextStop", false, 2, 1, plainPage, -1)
		page("NextOrdered", false, 2, 0, ordered, -1)
		page("NextCursor", false, 1, 0, plainPage, 0)
		page("Prev", true, 1, 0, plainPage, -1)
		page("PrevOrdered", true, 1, 2, ordered, 1)
	}
	add("QueryStmt", 4, func(w *World, v int, y func()) (string, error) {
		l, err := o.Query(bg, w.DB, SelSpec{Where: o.condition(w, v, y), OrderBy: spare(w, "order", o.order(ord{0, v%2 == 0})), Limit: uint16(3 + v%2)})
		return o.showAll(l), err
	})
	add("QueryAll", 4, func(w *World, v int, y func()) (string, error) {
		l, err := o.Query(bg, w.DB, SelSpec{})
		return o.showAll(l), err
	})
	add("QueryColumns", 4, func(w *World, v int, y func()) (string, error) {
		l, err := o.Query(bg, w.DB, SelSpec{Select: spare(w, "columns", o.idents(s.all())...), GroupBy: spare(w, "grouping", o.idents(s.all())...), OrderBy: spare(w, "order", o.order(ord{0, true}))})
		return o.showAll(l), err
	})
	add("QueryOneStmt", 4, func(w *World, v int, y func()) (string, error) {
		p, err := o.QueryOne(bg, w.DB, SelSpec{Where: o.rawCond(0, "<>", s.r06Row(v%2, o.Cfg.Dialect)[0], y), OrderBy: spare(w, "order", o.order(ord{0, true}))})
		if p == nil {
			return "none", err
		}
		return o.showAll([]any{p}), err
	})
	if len(o.sets(0, func() {})) > 0 {
		add("ExecUpdate", 4, func(w *World, v int, y func()) (string, error) {
			res, err := o.ExUpdate(bg, w.DB, ExSpec{Set: spare(w, "assignments", o.sets(v, y)...), Where: o.condition(w, v, y)})
			return fmt.Sprint(affected(res)), err
		})
	}
	add("ExecDelete", 4, func(w *World, v int, y func()) (string, error) {
		res, err := o.ExDel(bg, w.DB, ExSpec{Where: o.condition(w, v, y)})
		return fmt.Sprint(affected(res)), err
	})
	return out
}

// outcome is everything observable about an act.
func (a act) outcome(w *World, out string, err error) string {
	return fmt.Sprintf("%s | %v | %s | %s | open %d", out, err, w.Queries(), ShowRows(w.Rows()), w.E.OpenRows)
}

// given, when set, is told how to read a slice which the adapter hands to the
// generated code on the caller's behalf.
var given func(read func() string)

// Give is called by the adapter with every such slice.
func Give[T any](l []T) []T {
	if given != nil {
		given(func() string { return full0(l) })
	}
	return l
}

// guard watches data of the caller for changes.
type guard struct {
	what string
	read func() string
	was  string
}

func (w *World) watch(what string, read func() string) {
	if w.Guarding {
		w.guards = append(w.guards, guard{what, read, read()})
	}
}

func (w *World) changed() (out []string) {
	for _, g := range w.guards {
		if now := g.read(); now != g.was {
			out = append(out, fmt.Sprintf("%s: %s became %s", g.what, g.was, now))
		}
	}
	w.guards = nil
	return
}

// spare builds a slice of the caller with room after its end, watched.
func spare[T any](w *World, what string, l ...T) []T {
	if l == nil {
		return nil
	}
	s := make([]T, len(l), len(l)+2)
	copy(s, l)
	w.watch(what, func() string { return full0(s) })
	return s
}

func full0[T any](s []T) string {
	p := []string{}
	for _, x := range s[:cap(s)] {
		p = append(p, fmt.Sprintf("%#v", x))
	}
	return "[" + strings.Join(p, ", ") + "]"
}

// guardRest watches the room after the end of a slice of models.
func (w *World) guardRest(what string, sl any) {
	v := reflect.ValueOf(sl)
	w.watch("after the end of "+what, func() string {
		return fmt.Sprintf("%#v", v.Slice3(v.Len(), v.Cap(), v.Cap()).Interface())
	})
}
