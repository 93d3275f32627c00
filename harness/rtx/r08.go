package rtx

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"

	"github.com/si3nloong/sqlgen/sequel"
	"github.com/si3nloong/sqlgen/sequel/encoding"

	"vh/report"
	"vh/vsync"
)

// ctask is a piece of work for one goroutine.
type ctask struct {
	name string

	side bool // not paired with everything
	make func(v int) func() string
	ref  func(v int) string // what it should observe alone, where that is known otherwise
}

// R08: concurrent and successive statements. The generated packages, the
// builder pool and the encoders run under a cooperative scheduler.
func R08(r *report.Run) {
	r.Rule = "generated packages, builder pool and encoders instrumented with a scheduling point before every statement and their pools and locks replaced by controlled ones: (1) every interleaving of every pair of operations with at most the stated number of preemptions, at statement granularity and at the granularity of pool operations, driver calls and callbacks, with pools that reuse the newest or the oldest object; (2) every sequence of operations up to the stated depth without emptying the pools, panicking and nested callers included; (3) interleavings of three operations; every operation's statements, arguments, results and models must be those of running it alone"
	r.Assumptions = append(r.Assumptions, "interleavings are sequentially consistent; data races inside one Go statement are below the granularity")
	fine, coarse := 1, 2
	depth := 3
	if r.Thorough() {
		coarse = 3
	}
	r.Bounds = map[string]any{"goroutines": "2 (3 for a subset)", "preemptions_statement_granularity": fine, "preemptions_coarse": coarse, "history_depth": depth, "pools": "LIFO and FIFO reuse"}
	part := os.Getenv("VH_PART")
	if part == "" {
		n := runtime.NumCPU()
		self, err := os.Executable()
		if err != nil {
			panic(err)
		}
		work := os.Getenv("VH_WORK")
		errs := make([]string, n)
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				out := filepath.Join(work, fmt.Sprintf("part-%d.json", i))
				c := exec.Command(self, "R08")
				c.Env = append(os.Environ(), fmt.Sprintf("VH_PART=%d/%d", i, n), "VH_PART_OUT="+out)
				b, err := c.CombinedOutput()
				if err != nil {
					errs[i] = err.Error() + ": " + brief(string(b))
				}
				if e := r.Import(out); e != nil && errs[i] == "" {
					errs[i] = e.Error() + ": " + brief(string(b))
				}
			}()
		}
		wg.Wait()
		for _, e := range errs {
			if e != "" {
				r.Violate("worker", "a worker died: "+e, e)
			}
		}
		return
	}
	is, ns, _ := strings.Cut(part, "/")
	me, _ := strconv.Atoi(is)
	n, _ := strconv.Atoi(ns)
	job := 0
	mine := func() bool { job++; return job%n == me }
	for _, c := range Cfgs() {
		if c.Quote {
			continue
		}
		tasks := c.tasks()
		c.baseline(r, tasks)
		tasks = distinct(tasks)
		for i := range tasks {
			for j := i; j < len(tasks); j++ {
				if tasks[i].side || tasks[j].side || !mine() {
					continue
				}
				for _, fifo := range []bool{false, true} {
					vsync.FIFO = fifo
					if !fifo {
						c.interleave(r, []*ctask{tasks[i], tasks[j]}, true, fine)
					}
					c.interleave(r, []*ctask{tasks[i], tasks[j]}, false, coarse)
				}
			}
		}
		for i := range tasks {
			for j := range tasks {
				if !mine() {
					continue
				}
				for _, fifo := range []bool{false, true} {
					vsync.FIFO = fifo
					for k := range tasks {
						if tasks[i].side && tasks[j].side && tasks[k].side && !r.Thorough() {
							continue
						}
						c.history(r, []*ctask{tasks[i], tasks[j], tasks[k]})
					}
				}
			}
		}
		// operations that fail or end early, and then two at the same time
		for _, t := range tasks {
			if !t.side {
				continue
			}
			for i := range tasks {
				switch tasks[i].name {
				case "render", "encode", "Comp/QueryStmt", "Comp/UpdateByPK":
				default:
					continue
				}
				for j := range tasks {
					if tasks[j].name != "render" && tasks[j].name != "encode" || !mine() {
						continue
					}
					for _, fifo := range []bool{false, true} {
						vsync.FIFO = fifo
						c.interleave(r, []*ctask{tasks[i], tasks[j]}, false, r.Pick(1, 2), t)
					}
				}
			}
		}
		// fewer operations, deeper
		var few []*ctask
		for _, t := range tasks {
			switch t.name {
			case "render", "encode", "Comp/InsertOne", "Comp/UpdateByPK", "Comp/QueryStmt", "Comp/ExecUpdate", "AutoMid/Upsert2":
				few = append(few, t)
			}
		}
		for i := range few {
			for j := i; j < len(few); j++ {
				for k := j; k < len(few); k++ {
					if !mine() {
						continue
					}
					vsync.FIFO = false
					c.interleave(r, []*ctask{few[i], few[j], few[k]}, false, r.Pick(1, 2))
				}
				if r.Thorough() && mine() {
					vsync.FIFO = false
					c.interleave(r, []*ctask{few[i], few[j]}, true, 2)
				}
			}
		}
		if r.Thorough() {
			for i := range few {
				for j := range few {
					if !mine() {
						continue
					}
					for k := range few {
						for l := range few {
							c.history(r, []*ctask{few[i], few[j], few[k], few[l]})
							for m := range few {
								c.history(r, []*ctask{few[i], few[j], few[k], few[l], few[m]})
							}
						}
					}
				}
			}
		}
	}
	if err := r.Export(os.Getenv("VH_PART_OUT")); err != nil {
		panic(err)
	}
	os.Exit(0)
}

// render writes a statement by hand and formats it.
func (c *Cfg) render(v int, y func()) string {
	s := c.Acquire()
	y()
	s.WriteString("SELECT " + strconv.Itoa(v) + " WHERE a = ")
	y()
	s.WriteString(s.Var(int64(v)))
	y()
	s.Write([]byte(" AND b IN "))
	s.WriteString(s.Vars([]any{"x" + strconv.Itoa(v), v, nil}))
	y()
	s.WriteByte(';')
	out := fmt.Sprintf("%s ~ %s ~ %v ~ %+v ~ %v", s.Query(), s, s, s, s.Args())
	y()
	c.Release(s)
	return out
}

func encode(v int, y func()) string {
	s := "s" + strconv.Itoa(v)
	out := encoding.MarshalStringSlice([]string{s, s + "\"", "x"})
	y()
	out += encoding.MarshalIntSlice([]int{v, v + 1, -7})
	y()
	out += encoding.MarshalBoolSlice([]bool{v == 0, true})
	y()
	return out + encoding.MarshalStringSlice([]string(nil)) + encoding.MarshalUintSlice([]uint8{uint8(v), 200})
}

func (c *Cfg) tasks() (out []*ctask) {
	add := func(name string, mk func(v int) func() string) {
		out = append(out, &ctask{name: name, make: mk})
	}
	ofAct := func(a act, y func(w *World, v int) func(), more func(v int) string) func(v int) func() string {
		return func(v int) func() string {
			w := a.o.NewWorld()
			w.E.Yield = func(string) { vsync.At() }
			return func() string {
				a.prepare(w)
				var res string
				err, pan := catch(func() error {
					var err error
					res, err = a.run(w, v, y(w, v))
					return err
				})
				if pan {
					res = "panicked"
				}
				if more != nil {
					res += more(v)
				}
				return a.outcome(w, res, err)
			}
		}
	}
	for _, n := range []string{"Comp", "HandPlain", "AutoMid"} {
		for _, a := range c.Ops[n].acts() {
			full := n + "/" + a.name
			switch n {
			case "HandPlain":
				switch a.name {
				case "InsertOne", "Insert2", "FindByPK", "UpdateByPK", "DeleteByPK":
				default:
					continue
				}
			case "AutoMid":
				switch a.name {
				case "InsertOne", "Insert2", "UpsertNew", "Upsert2":
				default:
					continue
				}
			case "Comp":
				switch a.name {
				case "UpsertNothing", "Upsert2Nothing", "NextCursor", "QueryAll", "NextStop":
					continue
				}
				if strings.HasPrefix(a.name, "LockByPK") && a.name != "LockByPK/FOR UPDATE" {
					continue
				}
			}
			add(full, ofAct(a, func(*World, int) func() { return vsync.At }, nil))
			if full == "Comp/QueryStmt" || full == "Comp/NextOrdered" {
				// the caller's callbacks build a statement of their own
				out = append(out, &ctask{name: full + "/nested", make: func(v int) func() string {
					var got []string
					f := ofAct(a, func(_ *World, v int) func() {
						got = nil
						return func() {
							g := c.render(v+5, vsync.At)
							for _, x := range got {
								if x == g {
									return
								}
							}
							got = append(got, g)
						}
					}, func(int) string { return " " + strings.Join(got, " ") })
					return f(v)
				}, ref: func(v int) string {
					return ofAct(a, func(*World, int) func() { return func() {} }, func(v int) string {
						vsync.Reset()
						return " " + c.render(v+5, func() {})
					})(v)()
				}})
			}
		}
		for _, a := range c.Ops[n].acts() {
			// the database fails, at once or in the middle
			for _, where := range []string{"query", "exec", "next-0", "next-1"} {
				where := where
				if n != "Comp" && where[:4] == "next" || n == "HandPlain" && !strings.HasSuffix(a.name, "ByPK") {
					continue
				}
				add(n+"/"+a.name+"/failing "+where, ofAct(a, func(w *World, _ int) func() {
					w.E.Fault = func(p string) error {
						if p == where {
							return errDown
						}
						return nil
					}
					return func() {}
				}, nil))
				out[len(out)-1].side = true
			}
			if n == "Comp" && (a.name == "NextStop" || a.name == "NextCursor" || a.name == "QueryAll") {
				add(n+"/"+a.name, ofAct(a, func(*World, int) func() { return vsync.At }, nil))
				out[len(out)-1].side = true
			}
		}
		if n == "Comp" {
			// a condition that panics leaves nothing behind
			o := c.Ops[n]
			boom := func(w sequel.StmtWriter) {
				w.WriteString("boom " + w.Var("boom"))
				vsync.At()
				panic("boom")
			}
			for _, a := range []act{
				{o, "PanicQuery", 1, func(w *World, v int, y func()) (string, error) {
					_, err := o.Query(bg, w.DB, SelSpec{Where: boom})
					return "", err
				}},
				{o, "PanicUpdate", 1, func(w *World, v int, y func()) (string, error) {
					_, err := o.ExUpdate(bg, w.DB, ExSpec{Set: o.sets(v, y), Where: boom})
					return "", err
				}},
			} {
				add(n+"/"+a.name, ofAct(a, func(*World, int) func() { return vsync.At }, nil))
				out[len(out)-1].side = true
			}
		}
	}
	add("render", func(v int) func() string { return func() string { return c.render(v, vsync.At) } })
	add("encode", func(v int) func() string { return func() string { return encode(v, vsync.At) } })
	return
}

func guarded(f func() string) (out string) {
	defer func() {
		if x := recover(); x != nil {
			out = fmt.Sprint("panic: ", x)
		}
	}()
	return f()
}

const variants = 3

var alones = map[*ctask][variants]string{}

// baseline runs every task alone, with pools that were never used.
func (c *Cfg) baseline(r *report.Run, tasks []*ctask) {
	for _, t := range tasks {
		var l [variants]string
		for v := range l {
			vsync.Reset()
			if t.ref != nil {
				l[v] = t.ref(v)
				continue
			}
			l[v] = guarded(t.make(v))
		}
		alones[t] = l
	}
}

type point struct {
	alts []int
	at   int
	used int
}

// interleave runs every schedule within the bound.
func (c *Cfg) interleave(r *report.Run, tasks []*ctask, fine bool, bound int, before ...*ctask) {
	names := make([]string, len(tasks))
	run := make([]func() string, len(tasks))
	for i, t := range tasks {
		names[i] = t.name
		run[i] = t.make(i)
	}
	id := c.Name + "/" + strings.Join(names, "+")
	for _, t := range before {
		id = c.Name + "/after " + t.name + ": " + id
		names = append(names[:len(names):len(names)], "(after "+t.name+")")
	}
	var trace []point
	runs := 0
	states := map[uint64]struct{}{}
	points := 0
	r.Do(id, func() string { return id }, func() {
		for {
			vsync.Reset()
			for _, t := range before {
				guarded(t.cached(0))
			}
			outs := make([]string, len(tasks))
			fs := make([]func(), len(tasks))
			for i := range tasks {
				fs[i] = func() { outs[i] = guarded(run[i]) }
			}
			pos, used := 0, 0
			var sched []string
			steps := 0
			s := &vsync.Sched{Choose: func(k vsync.Kind, cur int, en []int) int {
				steps++
				free := k == vsync.End || k == vsync.Block
				if !free && (k == vsync.Fine && !fine || used >= bound) {
					return cur
				}
				if len(en) == 1 {
					return en[0]
				}
				if pos == len(trace) {
					alts := en
					if !free {
						alts = []int{cur}
						for _, e := range en {
							if e != cur {
								alts = append(alts, e)
							}
						}
					}
					trace = append(trace, point{alts: alts})
				}
				p := &trace[pos]
				if p.at >= len(p.alts) {
					p.at = 0
				}
				pos++
				next := p.alts[p.at]
				if !free && next != cur {
					used++
				}
				if next != cur {
					sched = append(sched, fmt.Sprintf("%d:%d", steps, next))
				}
				return next
			}}
			dead := s.Run(fs)
			runs++
			points += steps
			states[report.Hash(id, strings.Join(sched, " "))] = struct{}{}
			for i, t := range tasks {
				if want := alones[t][i]; outs[i] != want || dead {
					what := fmt.Sprintf("alone it gives %s, interleaved %s", want, outs[i])
					if dead {
						what = "the operations deadlock"
					}
					r.Violate("mixed/"+c.Name+"/"+t.name, fmt.Sprintf("%s while %s runs (switches at step:task %v): %s", t.name, strings.Join(names, ", "), sched, what),
						map[string]any{"config": c.Name, "operations": names, "switches": sched, "victim": t.name, "alone": want, "interleaved": outs[i], "fifo": vsync.FIFO, "deadlock": dead})
				}
			}
			if dead {
				return
			}
			trace = trace[:min(pos, len(trace))]
			for len(trace) > 0 && trace[len(trace)-1].at+1 >= len(trace[len(trace)-1].alts) {
				trace = trace[:len(trace)-1]
			}
			if len(trace) == 0 {
				break
			}
			trace[len(trace)-1].at++
		}
	})
	r.Trace(runs)
	r.Transition(points)
	r.States(states)
	if len(tasks) == 3 || names[0] == "render" {
		r.Sample(map[string]any{"operations": id, "statement_granularity": fine, "preemptions": bound, "schedules": runs})
	}
}

// history runs operations one after another without emptying the pools.
func (c *Cfg) history(r *report.Run, tasks []*ctask) {
	vsync.Reset()
	names := make([]string, len(tasks))
	for i, t := range tasks {
		names[i] = t.name
	}
	id := c.Name + "/" + strings.Join(names, ";")
	r.Do(id, func() string { return id }, func() {
		for i, t := range tasks {
			v := i % variants
			got := guarded(t.cached(v))
			if want := alones[t][v]; got != want {
				r.Violate("history/"+c.Name+"/"+t.name, fmt.Sprintf("%s after %v: alone it gives %s, here %s", t.name, names[:i], want, got),
					map[string]any{"config": c.Name, "history": names[:i+1], "alone": want, "here": got, "fifo": vsync.FIFO})
			}
		}
	})
	r.Trace(1)
	r.Transition(len(tasks))
	r.States(map[uint64]struct{}{report.Hash(id): {}})
}

var made = map[*ctask]*[variants]func() string{}

func (t *ctask) cached(v int) func() string {
	if made[t] == nil {
		made[t] = new([variants]func() string)
	}
	if made[t][v] == nil {
		made[t][v] = t.make(v)
	}
	return made[t][v]
}

// distinct drops side tasks that observe what another one observes.
func distinct(tasks []*ctask) (out []*ctask) {
	seen := map[string]bool{}
	for _, t := range tasks {
		if t.side {
			k := fmt.Sprint(t.name[:strings.LastIndex(t.name, "/")], alones[t])
			base := strings.Contains(alones[t][0], errDown.Error())
			if seen[k] || strings.Contains(t.name, "failing") && !base {
				continue
			}
			seen[k] = true
		}
		out = append(out, t)
	}
	return
}
