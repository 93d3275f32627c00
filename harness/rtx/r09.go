package rtx

import (
	"database/sql/driver"
	"errors"
	"fmt"
	"strings"

	"vh/report"
)

var errDown = errors.New("the database failed here")

// R09: faults of the database.
func R09(r *report.Run) {
	r.Rule = "every operation of every model in every configuration, on a filled and an empty table: the driver calls it makes are recorded, then it is run once for every one of them failing alone and once for every one of them failing with all later ones, and once for every delivered value that cannot be scanned; the operation must report the failure, must not panic and must leave no result set open"
	all := each(anyShape)
	r.Bounds = map[string]any{"fault_points": "all calls of the longest run", "faults": "one, or one and everything after it", "models_x_configurations": len(all)}
	report.Parallel(len(all), func(i int) { all[i].r09(r) })
}

func (o *Ops) r09(r *report.Run) {
	id := o.Cfg.Name + "/" + o.Shape.Name
	states := map[uint64]struct{}{}
	n := 0
	for _, a := range o.acts() {
		for _, rows := range []int{a.rows, 0, 3} {
			if rows == 3 && !r.Thorough() {
				continue
			}
			a := a
			a.rows = rows
			for v := 0; v < r.Pick(1, 3); v++ {
				r.Do(id+"/"+a.name, func() string { return fmt.Sprint(id, a.name, rows, v) }, func() { n += a.faults(r, id, v, states) })
			}
		}
	}
	r.Trace(n)
	r.Transition(n)
	r.States(states)
	if o.Cfg.Name == "pg" {
		r.Sample(map[string]any{"model": id, "faulty_runs": n})
	}
}

// faults runs the act under every fault and returns how many runs that took.
func (a act) faults(r *report.Run, id string, v int, states map[uint64]struct{}) (n int) {
	o := a.o
	w := o.NewWorld()
	name := strings.SplitN(a.name, "/", 2)[0]
	run := func() (string, error, bool) {
		a.prepare(w)
		n++
		var out string
		err, pan := catch(func() error {
			var err error
			out, err = a.run(w, v, func() {})
			return err
		})
		return out, err, pan
	}
	var calls []string
	w.E.Fault = func(p string) error { calls = append(calls, p); return nil }
	type cell struct{ call, col int }
	var cells []cell
	delivered := 0
	w.E.Mangle = func(i int, dest []driver.Value) {
		for c, x := range dest {
			if _, ok := x.(int64); ok {
				cells = append(cells, cell{delivered, c})
			}
		}
		delivered++
	}
	_, err, pan := run()
	w.E.Mangle = nil
	bad := func(kind, what, f string, args ...any) {
		m := fmt.Sprintf(f, args...)
		r.Violate(kind+"/"+id+"/"+a.name, fmt.Sprintf("%s %s on %d rows, %s: %s; statements: %s", id, a.name, a.rows, what, m, w.Queries()),
			map[string]any{"config": o.Cfg.Name, "model": o.Shape.Name, "operation": a.name, "rows": a.rows, "fault": what, "problem": m, "statements": w.Queries()})
	}
	left := func(what string) {
		if w.E.OpenRows != 0 {
			bad("open", what, "%d result sets stay open", w.E.OpenRows)
			w.E.OpenRows = 0
		}
		if st := w.DB.Stats(); st.InUse != 0 {
			bad("conn", what, "%d connections stay in use", st.InUse)
			w.DB = w.E.DB()
		}
	}
	if pan {
		bad("panic", "no fault", "%v", err)
		return
	}
	left("no fault")
	recorded := append([]string(nil), calls...)
	for i, p := range recorded {
		switch p {
		case "begin", "commit":
			continue // made by the caller
		}
		for _, forever := range []bool{false, true} {
			at := 0
			what := fmt.Sprintf("failing call %d (%s)", i, p)
			if forever {
				what += " and all after it"
			}
			w.E.Fault = func(q string) error {
				at++
				if at-1 == i || forever && at-1 > i && q != "begin" {
					return errDown
				}
				return nil
			}
			out, err, pan := run()
			states[report.Hash(id, a.name, fmt.Sprint(a.rows, v), what)] = struct{}{}
			switch {
			case pan:
				bad("panic", what, "%v", err)
			case p == "rowsclose" || p == "rowsaffected":
				// nothing is lost when only closing fails; the count is the caller's call
			case err == nil:
				bad("silent", what, "no error is reported; the outcome is %s", out)
			case !errors.Is(err, errDown) && !strings.Contains(err.Error(), errDown.Error()):
				bad("other", what, "the error reported is %v", err)
			}
			left(what)
		}
	}
	w.E.Fault = nil
	// a pager may legitimately stop before a value it never reads
	if name == "NextStop" {
		return
	}
	for _, c := range cells {
		at := 0
		what := fmt.Sprintf("row %d delivering text in numeric column %d", c.call, c.col)
		w.E.Mangle = func(i int, dest []driver.Value) {
			if at == c.call && c.col < len(dest) {
				dest[c.col] = "not a number"
			}
			at++
		}
		out, err, pan := run()
		states[report.Hash(id, a.name, fmt.Sprint(a.rows, v), what)] = struct{}{}
		switch {
		case pan:
			bad("panic", what, "%v", err)
		case err == nil:
			bad("silent", what, "no error is reported; the outcome is %s", out)
		case err == errEndless:
			bad("endless", what, "it goes on after the failure without reporting it")
		}
		left(what)
	}
	return
}
