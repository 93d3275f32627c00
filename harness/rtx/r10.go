package rtx

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/si3nloong/sqlgen/sequel"

	"vh/report"
)

// R10: the caller's data.
func R10(r *report.Run) {
	depth := r.Pick(2, 3)
	r.Rule = "every sequence of operations up to the depth over models whose methods hand out shared slices with spare room, and over the generated models: every repeated operation must send the same statements and have the same outcome as on its own, and every slice of the caller or the model (conditions, assignments, orders, column lists, omitted columns, duplicate keys, cursors, model slices, the models' own slices; up to their capacity), every pointer target and every statement argument must be what it was"
	r.Bounds = map[string]any{"sequence_depth": depth, "configurations": len(Cfgs())}
	// one at a time: the shared slices are shared
	for _, o := range each(anyShape) {
		o.r10(r, depth)
	}
	for _, c := range Cfgs() {
		c.r10stmt(r)
	}
}

func (o *Ops) r10(r *report.Run, depth int) {
	acts := o.acts()
	s := o.Shape
	id := o.Cfg.Name + "/" + s.Name
	w := o.NewWorld()
	w.Guarding = true
	given = func(read func() string) { w.watch("list of values", read) }
	defer func() { given = nil }()
	states := map[uint64]struct{}{}
	runs := 0
	shared := fmt.Sprintf("%#v", o.Cfg.Shared())
	alone := map[string]string{}
	exec := func(a act, v int, before []string) string {
		a.prepare(w)
		runs++
		var out string
		err, _ := catch(func() error {
			var err error
			out, err = a.run(w, v, func() {})
			return err
		})
		got := a.outcome(w, out, err)
		bad := func(kind, f string, args ...any) {
			m := fmt.Sprintf(f, args...)
			r.Violate(kind+"/"+id+"/"+a.name, fmt.Sprintf("%s %s after %v: %s; statements: %s", id, a.name, before, m, w.Queries()),
				map[string]any{"config": o.Cfg.Name, "model": s.Name, "operation": a.name, "before": before, "problem": m, "statements": w.Queries()})
		}
		for _, c := range w.changed() {
			bad("caller", "data of the caller changed: %s", c)
		}
		if now := fmt.Sprintf("%#v", o.Cfg.Shared()); now != shared {
			bad("shared", "a slice of the model changed: %s became %s", shared, now)
			shared = now
		}
		k := fmt.Sprint(a.name, "/", v)
		if alone[k] == "" && len(before) == 0 {
			alone[k] = got
		} else if alone[k] != got {
			bad("repeat", "on its own it gives %s, here %s", alone[k], got)
		}
		states[report.Hash(id, a.name, fmt.Sprint(v), strings.Join(before, ";"))] = struct{}{}
		return got
	}
	r.Do(id, func() string { return id }, func() {
		for _, a := range acts {
			for v := 0; v < 2; v++ {
				exec(a, v, nil)
			}
		}
		var seq func(before []string, d int)
		seq = func(before []string, d int) {
			for i, a := range acts {
				_ = i
				v := len(before) % 2
				exec(a, v, before)
				if d > 1 {
					seq(append(append([]string(nil), before...), a.name), d-1)
				}
			}
		}
		for _, a := range acts {
			exec(a, 0, nil)
			seq([]string{a.name}, depth-1)
		}
		o.r10ptr(r, w, id)
	})
	r.Trace(runs)
	r.Transition(runs)
	r.States(states)
	if o.Cfg.Name == "pg" {
		r.Sample(map[string]any{"model": id, "operations": len(acts), "runs": runs})
	}
}

// r10ptr: what the caller's pointers point to stays as it is, and models
// passed for writing only stay as they are.
func (o *Ops) r10ptr(r *report.Run, w *World, id string) {
	s := o.Shape
	if len(s.Keys()) == 0 {
		return
	}
	base := act{o: o, rows: 2}
	for v := 0; v < 2; v++ {
		for name, f := range map[string]func(m any) error{
			"InsertOne": func(m any) error { _, err := o.InsertOne(bg, w.DB, m); return err },
			"Insert":    func(m any) error { _, err := o.Insert(bg, w.DB, o.Slice([]any{m})); return err },
			"UpsertOne": func(m any) error { _, err := o.UpsertOne(bg, w.DB, m, Ups{Override: true}); return err },
			"Upsert":    func(m any) error { _, err := o.Upsert(bg, w.DB, o.Slice([]any{m}), Ups{Override: true}); return err },
			"FindByPK":  func(m any) error { return o.Find(bg, w.DB, m) },
			"UpdateByPK": func(m any) error {
				_, err := o.Update(bg, w.DB, m)
				return err
			},
			"DeleteByPK": func(m any) error { _, err := o.Delete(bg, w.DB, m); return err },
			"LockByPK": func(m any) error {
				tx, err := w.DB.Begin()
				if err != nil {
					return err
				}
				defer tx.Rollback()
				return o.Lock(bg, tx, m, o.Cfg.Locks[0])
			},
		} {
			base.prepare(w)
			k := 1
			if strings.HasPrefix(name, "Ins") {
				k = 2
			}
			m := o.existing(k, v)
			orig := Show(o.Get(m))
			rv := reflect.ValueOf(m).Elem()
			type held struct {
				field string
				p     reflect.Value
				was   string
			}
			var ptrs []held
			for i := 0; i < rv.NumField(); i++ {
				if f := rv.Field(i); f.Kind() == reflect.Ptr && !f.IsNil() {
					p := reflect.ValueOf(f.Interface())
					ptrs = append(ptrs, held{rv.Type().Field(i).Name, p, fmt.Sprintf("%#v", p.Elem().Interface())})
				}
			}
			_, pan := catch(func() error { return f(m) })
			bad := func(what string) {
				r.Violate("pointer/"+id+"/"+name, fmt.Sprintf("%s %s of %s: %s", id, name, orig, what), map[string]any{"config": o.Cfg.Name, "model": s.Name, "operation": name, "values": orig, "problem": what})
			}
			if pan {
				continue // the other properties judge that
			}
			embedded := s.Name == "Emb"
			for _, h := range ptrs {
				if now := fmt.Sprintf("%#v", h.p.Elem().Interface()); now != h.was && !embedded {
					bad(fmt.Sprintf("the value the caller's pointer %s points to changed from %s to %s", h.field, h.was, now))
				}
			}
			switch name {
			case "UpdateByPK", "DeleteByPK", "Insert", "Upsert":
				if now := Show(o.Get(m)); now != orig && !(embedded && (name == "Insert" || name == "Upsert")) {
					bad("the model became " + now)
				}
			}
		}
	}
}

// r10stmt: statements do not touch the arguments given to them.
func (c *Cfg) r10stmt(r *report.Run) {
	w := &World{Guarding: true}
	n := 0
	texts := map[string]string{}
	for round := 0; round < 3; round++ {
		for l := 0; l <= 3; l++ {
			for verbs := 0; verbs < 4; verbs++ {
				id := fmt.Sprintf("%s/statement/%d/%d", c.Name, l, verbs)
				r.Do(id, func() string { return id }, func() {
					n++
					b := []byte("by'te")
					vals := spare[any](w, "arguments", []any{int64(1), "it's", b, nil}[:l]...)
					w.watch("bytes", func() string { return fmt.Sprintf("%#v", b) })
					st := c.Acquire()
					one := "fixed"
					st.WriteString("SELECT " + st.Var(one) + st.Vars(vals))
					before := fmt.Sprintf("%#v", st.Args())
					q := st.Query()
					f := []string{"%s", "%v", "%+v", "%#v"}[verbs]
					t := fmt.Sprintf(f, st) + fmt.Sprintf(f, st)
					if now := fmt.Sprintf("%#v", st.Args()); now != before {
						r.Violate("format/"+id, fmt.Sprintf("%s: formatting with %s changed the arguments from %s to %s", id, f, before, now), now)
					}
					if st.Query() != q {
						r.Violate("format/"+id, fmt.Sprintf("%s: formatting with %s changed the statement from %q to %q", id, f, q, st.Query()), q)
					}
					// conditions are reusable
					cond := c.And(func(s sequel.StmtWriter) { s.WriteString("a = " + s.Var(7)) }, func(s sequel.StmtWriter) { s.WriteString("b = " + s.Var("x")) })
					st.Reset()
					cond(st)
					first := fmt.Sprint(st.Query(), st.Args())
					st.Reset()
					cond(st)
					if again := fmt.Sprint(st.Query(), st.Args()); again != first {
						r.Violate("condition/"+id, fmt.Sprintf("%s: writing a condition twice gives %s, then %s", id, first, again), again)
					}
					c.Release(st)
					for _, x := range w.changed() {
						r.Violate("args/"+id, fmt.Sprintf("%s: %s", id, x), x)
					}
					if verbs < 3 {
						if texts[id] == "" {
							texts[id] = t
						} else if texts[id] != t {
							r.Violate("again/"+id, fmt.Sprintf("%s: %q the first time, then %q", id, texts[id], t), t)
						}
					}
				})
			}
		}
	}
	// every order of adding arguments
	var step func(ops []int, st sequel.Stmt)
	alphabet := 6
	var build func(prefix []int)
	build = func(prefix []int) {
		if len(prefix) > 0 {
			n++
			id := fmt.Sprintf("%s/adding/%v", c.Name, prefix)
			r.Do(id, func() string { return id }, func() {
				st := c.Acquire()
				step(prefix, st)
				c.Release(st)
				// a later statement does not reach the lists of this one
				st = c.Acquire()
				st.Var("later")
				st.Vars([]any{"later", "later"})
				c.Release(st)
				for _, x := range w.changed() {
					r.Violate("adding/"+c.Name, fmt.Sprintf("%s: %s", id, x), x)
				}
			})
		}
		if len(prefix) < 4 {
			for k := 0; k < alphabet; k++ {
				build(append(append([]int(nil), prefix...), k))
			}
		}
	}
	step = func(ops []int, st sequel.Stmt) {
		for i, k := range ops {
			switch k {
			case 0:
				st.WriteString(st.Var(i))
			case 1, 2, 3:
				st.WriteString(st.Vars(spare[any](w, fmt.Sprintf("list %d", i), []any{"a", i, "b"}[:k-1]...)))
			case 4:
				vals := []string{"x", "y", "z"}
				w.watch("values of In", func() string { return fmt.Sprint(vals) })
				c.own("basic")(st, vals[:2])
			case 5:
				_ = fmt.Sprintf("%+v", st)
			}
		}
	}
	build(nil)
	r.Trace(n)
	r.Transition(n)
}

// own is the IN operator on a column the caller describes.
func (c *Cfg) own(kind string) func(st sequel.Stmt, vals []string) {
	g := c.Own("own")[kind]
	return func(st sequel.Stmt, vals []string) {
		l := make([]any, len(vals))
		for i := range vals {
			l[i] = vals[i]
		}
		g.Where("in", l)(st)
	}
}
