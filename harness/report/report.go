// Package report is the bookkeeping shared by every check: counters measured on
// the run, samples, violations (with a replayable artefact), known findings and
// the evidence file.
package report

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Violation struct {
	Key    string `json:"key"`
	Desc   string `json:"what_fails"`
	Replay any    `json:"replay"`
	Count  int    `json:"occurrences"`
}

type Run struct {
	Prop string
	Tier string
	Seed int

	Rule        string   // what is enumerated
	Assumptions []string // trusted base / abstractions
	Bounds      map[string]any

	start       time.Time
	evals       atomic.Int64
	transitions atomic.Int64
	traces      atomic.Int64

	mu       sync.Mutex
	states   map[uint64]struct{}
	samples  []any
	viol     map[string]*Violation
	order    []string
	extra    map[string]any
	cur      []*slot
	slotPool chan *slot
	aborted  atomic.Bool
}

type slot struct {
	since atomic.Int64
	desc  atomic.Value
}

// Thorough reports whether the deep tier was asked for.
func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// Pick returns q in the quick tier and t in the thorough one.
func (r *Run) Pick(q, t int) int {
	if r.Thorough() {
		return t
	}
	return q
}

func New(prop string) *Run {
	tier := os.Getenv("VH_TIER")
	if tier == "" {
		tier = "quick"
	}
	r := &Run{Prop: prop, Tier: tier, start: time.Now(), states: map[uint64]struct{}{},
		viol: map[string]*Violation{}, Bounds: map[string]any{}, extra: map[string]any{}}
	fmt.Sscanf(os.Getenv("VERIF_SEED"), "%d", &r.Seed)
	n := runtime.NumCPU() * 2
	r.slotPool = make(chan *slot, n)
	for i := 0; i < n; i++ {
		s := &slot{}
		s.desc.Store("")
		r.cur = append(r.cur, s)
		r.slotPool <- s
	}
	go r.watchdog()
	return r
}

// watchdog turns a case that never ends into a violation. A case is
// microseconds of pure computation; the limit is minutes of wall time, so a
// slow machine cannot trip it.
func (r *Run) watchdog() {
	const limit = 120 * time.Second
	for {
		time.Sleep(time.Second)
		now := time.Now().UnixNano()
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		var oldest *slot
		var age int64
		for _, s := range r.cur {
			if t := s.since.Load(); t != 0 && now-t > age {
				oldest, age = s, now-t
			}
		}
		if oldest == nil {
			continue
		}
		if age > int64(limit) || (ms.HeapAlloc > 8<<30 && age > int64(2*time.Second)) {
			d := oldest.desc.Load().(string)
			r.Violate("nonterminating", "the operation does not terminate (or allocates without bound): "+d, d)
			r.Finish()
		}
	}
}

func (r *Run) Eval(n int)       { r.evals.Add(int64(n)) }
func (r *Run) Transition(n int) { r.transitions.Add(int64(n)) }
func (r *Run) Trace(n int)      { r.traces.Add(int64(n)) }
func (r *Run) Extra(k string, v any) {
	r.mu.Lock()
	r.extra[k] = v
	r.mu.Unlock()
}

// State records a distinct model state / abstract case, by content.
func (r *Run) State(key string) bool {
	h := fnv.New64a()
	h.Write([]byte(key))
	k := h.Sum64()
	r.mu.Lock()
	_, ok := r.states[k]
	if !ok {
		r.states[k] = struct{}{}
	}
	r.mu.Unlock()
	return !ok
}

// States merges a worker-local set.
func (r *Run) States(m map[uint64]struct{}) {
	r.mu.Lock()
	for k := range m {
		r.states[k] = struct{}{}
	}
	r.mu.Unlock()
}

func (r *Run) Sample(s any) {
	r.mu.Lock()
	if len(r.samples) < 12 {
		r.samples = append(r.samples, s)
	}
	r.mu.Unlock()
}

// Violate records one failing case. key identifies the failing input, call
// site or history (known findings are matched on it).
func (r *Run) Violate(key, desc string, replay any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if v, ok := r.viol[key]; ok {
		v.Count++
		return
	}
	if len(r.order) > 400 {
		return
	}
	r.viol[key] = &Violation{Key: key, Desc: desc, Replay: replay, Count: 1}
	r.order = append(r.order, key)
}

// Do runs one case: a panic inside it is a violation under key, and so is not
// terminating.
func (r *Run) Do(key string, desc func() string, f func()) {
	s := <-r.slotPool
	s.desc.Store(key)
	s.since.Store(time.Now().UnixNano())
	defer func() {
		s.since.Store(0)
		r.slotPool <- s
		if e := recover(); e != nil {
			r.Violate(key+"/panic", fmt.Sprintf("panic: %v in %s", e, desc()), map[string]any{"case": desc(), "panic": fmt.Sprint(e), "stack": stack()})
		}
	}()
	f()
}

func stack() []string {
	var out []string
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		if strings.HasPrefix(l, "\t") {
			out = append(out, strings.TrimSpace(l))
		}
	}
	if len(out) > 14 {
		out = out[:14]
	}
	return out
}

func root() string {
	if d := os.Getenv("VH_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

func known(prop string) map[string]string {
	m := map[string]string{}
	f, err := os.Open(filepath.Join(root(), "known_findings.txt"))
	if err != nil {
		return m
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	pre := "known: property=" + prop + " key="
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if rest, ok := strings.CutPrefix(l, pre); ok {
			k, d, _ := strings.Cut(rest, " :: ")
			m[strings.TrimSpace(k)] = d
		}
	}
	return m
}

var finishMu sync.Mutex

// Finish writes the evidence, prints the verdict and exits.
func (r *Run) Finish() {
	finishMu.Lock() // never released: the first caller exits
	r.mu.Lock()
	kf := known(r.Prop)
	var fresh []*Violation
	var listed []string
	for _, k := range r.order {
		if _, ok := kf[k]; ok {
			listed = append(listed, k)
		} else {
			fresh = append(fresh, r.viol[k])
		}
	}
	sort.Strings(listed)
	samples := r.samples
	if len(samples) == 0 {
		samples = []any{"(none)"}
	}
	cov := map[string]any{
		"states":                        len(r.states),
		"transitions":                   r.transitions.Load(),
		"traces_validated_against_impl": r.traces.Load(),
		"evaluations":                   r.evals.Load(),
		"samples":                       samples,
		"rule":                          r.Rule,
		"bounds":                        r.Bounds,
		"exhaustive":                    true,
		"known_findings_seen":           listed,
	}
	for k, v := range r.extra {
		cov[k] = v
	}
	ev := map[string]any{
		"property": r.Prop, "tier": r.Tier, "seed": r.Seed, "level": "model_checking",
		"coverage": cov, "assumptions": r.Assumptions,
		"wall_s":     float64(int(time.Since(r.start).Seconds()*100)) / 100,
		"violations": len(fresh),
	}
	dir := filepath.Join(root(), "evidence")
	os.MkdirAll(dir, 0o755)
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		os.Exit(2)
	}
	if err := os.WriteFile(filepath.Join(dir, r.Prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		os.Exit(2)
	}
	fmt.Printf("%s %s: %d states, %d transitions, %d executions of the implementation compared, %.1fs\n",
		r.Prop, r.Tier, len(r.states), r.transitions.Load(), r.traces.Load(), time.Since(r.start).Seconds())
	for _, k := range listed {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%d cases): %s\n", r.Prop, k, r.viol[k].Count, kf[k])
	}
	if len(fresh) == 0 {
		os.Exit(0)
	}
	rdir := filepath.Join(dir, "replay")
	os.MkdirAll(rdir, 0o755)
	for i, v := range fresh {
		path := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", r.Prop, i))
		b, err := json.MarshalIndent(v, "", " ")
		if err != nil {
			b, _ = json.MarshalIndent(map[string]any{"key": v.Key, "what_fails": v.Desc, "replay": fmt.Sprint(v.Replay)}, "", " ")
		}
		os.WriteFile(path, append(b, '\n'), 0o644)
		d := v.Desc
		if len(d) > 600 {
			d = d[:600] + "..."
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, path)
		fmt.Printf("  [%s] x%d %s\n", v.Key, v.Count, strings.ReplaceAll(d, "\n", "\n  "))
		if i >= 39 {
			fmt.Printf("  ... %d more\n", len(fresh)-40)
			break
		}
	}
	os.Exit(1)
}

// Parallel runs f(i) for 0<=i<n on all cores.
func Parallel(n int, f func(i int)) {
	var next atomic.Int64
	var wg sync.WaitGroup
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1) - 1)
				if i >= n {
					return
				}
				f(i)
			}
		}()
	}
	wg.Wait()
}

// Hash is a cheap content hash for worker-local state sets.
func Hash(parts ...string) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0})
	}
	return h.Sum64()
}

type dump struct {
	Transitions, Traces, Evals int64
	States                     []uint64
	Samples                    []any
	Viol                       []*Violation
	Extra                      map[string]any
}

// Export writes what was found so far, for the parent of a worker process.
func (r *Run) Export(path string) error {
	r.mu.Lock()
	defer r.mu.Unlock()
	d := dump{Transitions: r.transitions.Load(), Traces: r.traces.Load(), Evals: r.evals.Load(), Samples: r.samples, Extra: r.extra}
	for k := range r.states {
		d.States = append(d.States, k)
	}
	for _, k := range r.order {
		v := *r.viol[k]
		if _, err := json.Marshal(v.Replay); err != nil {
			v.Replay = fmt.Sprint(v.Replay)
		}
		d.Viol = append(d.Viol, &v)
	}
	b, err := json.Marshal(d)
	if err != nil {
		return err
	}
	return os.WriteFile(path, b, 0o644)
}

// Import adds what a worker process found.
func (r *Run) Import(path string) error {
	b, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	var d dump
	if err := json.Unmarshal(b, &d); err != nil {
		return err
	}
	r.transitions.Add(d.Transitions)
	r.traces.Add(d.Traces)
	r.evals.Add(d.Evals)
	for _, s := range d.Samples {
		r.Sample(s)
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, k := range d.States {
		r.states[k] = struct{}{}
	}
	for k, v := range d.Extra {
		r.extra[k] = v
	}
	for _, v := range d.Viol {
		if o, ok := r.viol[v.Key]; ok {
			o.Count += v.Count
		} else {
			r.viol[v.Key] = v
			r.order = append(r.order, v.Key)
		}
	}
	return nil
}
