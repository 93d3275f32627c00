package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"

	"github.com/si3nloong/sqlgen/cmd/sqlgen/codegen"

	"vh/genx"
	"vh/report"
)

// model is one enumerated struct: Src declares the type $T (and whatever it needs).
type model struct {
	Desc string
	Src  string
	Opts string
	// Suffix is appended to the name of the type
	Suffix string
}

// suite is one package of models generated under one configuration.
type suite struct {
	Name    string // package directory below gen/, also its key prefix
	Cfg     genx.Cfg
	Gen     codegen.Config
	Prelude string // after the package clause
	Files   map[string]string
	Models  []model
	NoProbe bool

	live []int // models which generate and compile
}

func (s *suite) dir() string      { return filepath.Join(vh(), "gen", s.Name) }
func (s *suite) typ(i int) string { return s.next(i) + s.Models[i].Suffix }

// next is the name the ith model gets.
func (s *suite) next(i int) string { return fmt.Sprintf("M%03dX", i) }
func (s *suite) key(i int) string  { return s.Cfg.Name + "/" + s.Models[i].Desc }
func (s *suite) source(l []int) string {
	var b strings.Builder
	b.WriteString("package model\n\n" + s.Prelude + "\n")
	for _, i := range l {
		b.WriteString(strings.ReplaceAll(s.Models[i].Src, "$T", s.typ(i)) + "\n\n")
	}
	return b.String()
}

func (s *suite) config() codegen.Config {
	c := s.Gen
	c.Driver = codegen.SqlDriver(s.Cfg.Driver)
	c.QuoteIdentifier = s.Cfg.Quote
	c.SkipModTidy = true
	if c.Source == nil {
		c.Source = []string{"./model"}
	}
	return c
}

// lay writes the package with the given models and generates it.
func (s *suite) lay(dir string, l []int) outcome {
	must(os.RemoveAll(dir))
	write(filepath.Join(dir, "model", "model.go"), s.source(l))
	for p, src := range s.Files {
		write(filepath.Join(dir, p), src)
	}
	return generate(job{Dir: dir, Cfg: s.config()})
}

// build generates the suite; models for which the generator fails are reported
// and left out.
func (s *suite) build(r *report.Run) {
	s.live = nil
	for i := range s.Models {
		s.live = append(s.live, i)
	}
	o := s.lay(s.dir(), s.live)
	// a refusal names the model: leave it out and carry on
	for round := 0; o.String() != "" && round < 40 && len(s.live) > 1; round++ {
		m := typRx.FindStringSubmatch(o.String())
		if m == nil {
			break
		}
		var i int
		fmt.Sscan(m[1], &i)
		var rest []int
		for _, k := range s.live {
			if k != i {
				rest = append(rest, k)
			}
		}
		if len(rest) == len(s.live) || s.lay(s.dir()+"-one", []int{i}).String() == "" {
			break
		}
		s.refused(r, i, o)
		s.live = rest
		o = s.lay(s.dir(), s.live)
	}
	must(os.RemoveAll(s.dir() + "-one"))
	if o.String() == "" {
		return
	}
	whole := o.String()
	live := s.live
	bad := make([]string, len(live))
	each(len(live), func(k int) {
		dir := filepath.Join(vh(), "gen", fmt.Sprintf("%s-%d", s.Name, k))
		bad[k] = s.lay(dir, []int{live[k]}).String()
		must(os.RemoveAll(dir))
	})
	s.live = nil
	for k, m := range bad {
		if m == "" {
			s.live = append(s.live, live[k])
		} else {
			s.refused(r, live[k], outcome{Err: m})
		}
	}
	if len(s.live) == len(live) {
		r.Violate(s.Cfg.Name+"/generate", s.Cfg.Name+": the generator refuses the models together, though not one by one: "+tail(whole), whole)
		s.live = nil
		return
	}
	if o := s.lay(s.dir(), s.live); o.String() != "" {
		r.Violate(s.Cfg.Name+"/generate", s.Cfg.Name+": generation fails: "+tail(o.String()), o)
		s.live = nil
	}
}

func (s *suite) refused(r *report.Run, i int, o outcome) {
	r.Violate(s.key(i)+"/generate", s.key(i)+": the generator refuses it: "+tail(o.String()), map[string]any{
		"configuration": s.Cfg.Name, "source": s.source([]int{i}), "outcome": o})
}

var errRx = regexp.MustCompile(`^(?:\./)?(gen/\S+\.go):(\d+):\d+: (.*)$`)
var typRx = regexp.MustCompile(`M(\d{3,})X`)

// compile builds all packages; models whose code does not compile are reported
// and left out.
func compile(r *report.Run, suites []*suite) {
	for round := 0; ; round++ {
		args := []string{"build", "-gcflags=-e"}
		by := map[string]*suite{}
		for _, s := range suites {
			if len(s.live) > 0 {
				args = append(args, "./gen/"+s.Name+"/...")
				by[s.Name] = s
			}
		}
		if len(by) == 0 {
			return
		}
		out, err := goTool(args...)
		if err == nil {
			return
		}
		blamed := map[*suite]map[int]string{}
		for _, l := range strings.Split(out, "\n") {
			m := errRx.FindStringSubmatch(strings.TrimSpace(l))
			if m == nil {
				continue
			}
			parts := strings.Split(m[1], "/")
			s := by[parts[1]]
			if s == nil {
				continue
			}
			var line int
			fmt.Sscan(m[2], &line)
			i := s.enclosing(filepath.Join(vh(), m[1]), line)
			if blamed[s] == nil {
				blamed[s] = map[int]string{}
			}
			if blamed[s][i] == "" {
				blamed[s][i] = m[1] + ":" + m[2] + ": " + m[3] + "  |  " + lineOf(filepath.Join(vh(), m[1]), line)
			}
		}
		if len(blamed) == 0 || round > 6 {
			r.Violate("compile", "the generated packages do not compile: "+tail(out), out)
			for _, s := range suites {
				s.live = nil
			}
			return
		}
		for s, m := range blamed {
			var ok []int
			for _, i := range s.live {
				if _, bad := m[i]; !bad {
					ok = append(ok, i)
				}
			}
			for i, msg := range m {
				if i < 0 {
					r.Violate(s.Cfg.Name+"/compile", s.Cfg.Name+": the generated code does not compile: "+msg, out)
					ok = nil
					continue
				}
				r.Violate(s.key(i)+"/compile", s.key(i)+": the generated code does not compile: "+msg, map[string]any{
					"configuration": s.Cfg.Name, "source": s.source([]int{i}), "error": msg})
			}
			s.live = ok
			if len(ok) > 0 {
				if o := s.lay(s.dir(), ok); o.String() != "" {
					r.Violate(s.Cfg.Name+"/generate", s.Cfg.Name+": generation fails: "+tail(o.String()), o)
					s.live = nil
				}
			}
		}
	}
}

func lineOf(path string, n int) string {
	b, err := os.ReadFile(path)
	if err != nil {
		return ""
	}
	l := strings.Split(string(b), "\n")
	if n-1 < len(l) && n > 0 {
		return strings.TrimSpace(l[n-1])
	}
	return ""
}

// enclosing finds the model a line of a file belongs to: the nearest model name
// at or above it.
func (s *suite) enclosing(path string, line int) int {
	b, err := os.ReadFile(path)
	if err != nil {
		return -1
	}
	l := strings.Split(string(b), "\n")
	for n := min(line, len(l)) - 1; n >= 0; n-- {
		if m := typRx.FindStringSubmatch(l[n]); m != nil {
			var i int
			fmt.Sscan(m[1], &i)
			return i
		}
	}
	return -1
}

// probe compiles the models together with package genx and runs its checks.
func probe(r *report.Run, suites []*suite, mode string) {
	var b strings.Builder
	b.WriteString("package main\n\nimport (\n\t\"vh/genx\"\n")
	type ent struct {
		s *suite
		i int
	}
	n := 0
	for k, s := range suites {
		if len(s.live) > 0 && !s.NoProbe {
			fmt.Fprintf(&b, "\tm%d \"vh/gen/%s/model\"\n", k, s.Name)
			n++
		}
	}
	if n == 0 {
		return
	}
	b.WriteString(")\n\nfunc main() {\n")
	for k, s := range suites {
		if len(s.live) == 0 || s.NoProbe {
			continue
		}
		cfg, err := json.Marshal(s.Cfg)
		must(err)
		fmt.Fprintf(&b, "\tc%d := genx.Load(%q)\n", k, cfg)
		for _, i := range s.live {
			fmt.Fprintf(&b, "\tgenx.Add(genx.Entry{Cfg: c%d, Pkg: %q, Name: %q, Desc: %q, Opts: %q, New: func() any { return new(m%d.%s) }})\n", k, s.Name, s.typ(i), s.Models[i].Desc, s.Models[i].Opts, k, s.typ(i))
		}
	}
	b.WriteString("\tgenx.Main()\n}\n")
	write(filepath.Join(vh(), "gen", "run-"+mode, "main.go"), b.String())
	bin := filepath.Join(os.Getenv("VH_WORK"), "probe-"+mode)
	if out, err := goTool("build", "-o", bin, "./gen/run-"+mode); err != nil {
		r.Violate("compile", "the generated packages do not link with their users: "+tail(out), out)
		return
	}
	exp := bin + ".json"
	cmd := exec.Command(bin, r.Prop, mode, exp)
	cmd.Dir = vh()
	out, err := cmd.CombinedOutput()
	if err != nil {
		r.Violate("probe", "running the generated code ends the process: "+tail(string(out)), string(out))
		return
	}
	must(r.Import(exp))
}
