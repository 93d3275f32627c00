package main

import (
	"fmt"
	"hash/fnv"
	"runtime"
	"strings"
	"sync"
	"unicode"
	"unicode/utf8"

	"github.com/si3nloong/sqlgen/cmd/sqlgen/codegen"

	"vh/genx"
	"vh/report"
)

// precise reports whether the convention says exactly what becomes of the
// identifier: camelCase and PascalCase leave open where a run of capitals
// followed by a lower-case letter ends, and nothing is said of letters outside
// ASCII.
func precise(conv, s string) bool {
	r := []rune(s)
	for i, c := range r {
		if c >= utf8.RuneSelf {
			return false
		}
		if conv != "snake_case" && i >= 2 && unicode.IsLower(c) && unicode.IsUpper(r[i-1]) && unicode.IsUpper(r[i-2]) {
			return false
		}
	}
	return true
}

// bare is what every convention keeps of a name.
func bare(s string) string { return strings.ToLower(strings.ReplaceAll(s, "_", "")) }

// nameWrong says what is wrong with the rendering of an identifier.
func nameWrong(conv, id, got string) string {
	if precise(conv, id) {
		if want := genx.Rename(conv, id); got != want {
			return fmt.Sprintf("%s of %s is %q, want %q", conv, id, got, want)
		}
		return ""
	}
	switch {
	case !utf8.ValidString(got):
		return fmt.Sprintf("%s of %s is %q, which is not text", conv, id, got)
	case bare(got) != bare(id):
		return fmt.Sprintf("%s of %s is %q: letters are lost or added", conv, id, got)
	}
	f, _ := utf8.DecodeRuneInString(got)
	if f < utf8.RuneSelf && unicode.IsUpper(f) != (conv == "PascalCase") {
		return fmt.Sprintf("%s of %s is %q", conv, id, got)
	}
	if conv == "snake_case" && strings.IndexFunc(got, func(c rune) bool { return c < utf8.RuneSelf && unicode.IsUpper(c) }) >= 0 {
		return fmt.Sprintf("%s of %s is %q", conv, id, got)
	}
	return ""
}

// identifiers lists the exported identifiers over an alphabet up to a length.
func identifiers(alpha []rune, n int) (out []string) {
	var rec func(s []rune)
	rec = func(s []rune) {
		if len(s) > 0 {
			out = append(out, string(s))
		}
		if len(s) == n {
			return
		}
		for _, c := range alpha {
			if len(s) == 0 && !unicode.IsUpper(c) {
				continue
			}
			rec(append(append([]rune{}, s...), c))
		}
	}
	rec(nil)
	return
}

func g08(r *report.Run) {
	convs := []struct {
		name string
		cfg  codegen.Config
	}{{"snake_case", codegen.Config{NamingConvention: codegen.SnakeCase}},
		{"camelCase", codegen.Config{NamingConvention: codegen.CamelCase}},
		{"PascalCase", codegen.Config{NamingConvention: codegen.PascalCase}}}
	n := 7
	if r.Thorough() {
		n = 9
	}
	var wg sync.WaitGroup
	for _, c := range convs {
		for _, set := range []struct {
			alpha []rune
			n     int
		}{{[]rune("ABz0_"), n}, {[]rune("AbcID9_"), n - 1}, {[]rune("Aaé日ÜΣ_1"), n - 2}} {
			wg.Add(1)
			go func() {
				defer wg.Done()
				f := c.cfg.RenameFunc()
				ids := identifiers(set.alpha, set.n)
				part := (len(ids) + runtime.NumCPU() - 1) / runtime.NumCPU()
				var in sync.WaitGroup
				for len(ids) > 0 {
					l := ids[:min(part, len(ids))]
					ids = ids[len(l):]
					in.Add(1)
					go func() {
						defer in.Done()
						states := map[uint64]struct{}{}
						var id string
						r.Do("name/"+c.name, func() string { return c.name + " of " + id }, func() {
							for _, id = range l {
								h := fnv.New64a()
								h.Write([]byte(c.name + id))
								states[h.Sum64()] = struct{}{}
								got := f(id)
								if w := nameWrong(c.name, id, got); w != "" {
									r.Violate("name/"+c.name, w, map[string]string{"convention": c.name, "identifier": id, "rendered": got})
								} else if again := f(id); again != got {
									r.Violate("name/"+c.name+"/again", fmt.Sprintf("%s of %s is %q, and %q the next time", c.name, id, got, again), id)
								}
							}
						})
						r.States(states)
						r.Trace(len(l))
						r.Transition(len(l))
						r.Eval(len(l))
					}()
				}
				in.Wait()
			}()
		}
	}
	wg.Wait()

	// the names the generator itself writes
	short := identifiers([]rune("AbC1_"), 4)
	cfgs := []genx.Cfg{six[0], six[3], six[4]}
	if r.Thorough() {
		short = identifiers([]rune("AbC1_"), 5)
		cfgs = six
	}
	var suites []*suite
	for _, c := range cfgs {
		for _, conv := range convs {
			s := &suite{Name: "n" + c.Name + conv.name, Cfg: c, Gen: conv.cfg, Prelude: "import \"github.com/si3nloong/sqlgen/sequel\"\n\nvar _ sequel.TableName\n"}
			s.Cfg.Naming = conv.name
			s.Cfg.Name += "/" + conv.name
			// identifiers as field names, as many to a model as have different columns
			var groups [][]string
			var taken []map[string]bool
			for _, id := range short {
				if !precise(conv.name, id) {
					continue
				}
				col := genx.Rename(conv.name, id)
				if !columnRx.MatchString(col) {
					continue
				}
				g := 0
				for g < len(groups) && (taken[g][col] || len(groups[g]) >= 40) {
					g++
				}
				if g == len(groups) {
					groups = append(groups, nil)
					taken = append(taken, map[string]bool{})
				}
				groups[g] = append(groups[g], id)
				taken[g][col] = true
			}
			for i, g := range groups {
				var b strings.Builder
				for k, id := range g {
					tag := ""
					if k == 0 {
						tag = " `sql:\",pk\"`"
					}
					if k == 1 {
						tag = " `sql:\",readonly\"`"
					}
					fmt.Fprintf(&b, "\t%s bool%s\n", id, tag)
				}
				s.Models = append(s.Models, model{Desc: fmt.Sprintf("fields %d", i), Src: "type $T struct {\n" + b.String() + "}"})
			}
			// identifiers as names of structs
			for _, id := range identifiers([]rune("AbC1_"), 3) {
				// the prefix M…X ends in a capital
				if r, _ := utf8.DecodeRuneInString(id); unicode.IsUpper(r) && precise(conv.name, "M000X_"+id) {
					s.Models = append(s.Models, model{Desc: "struct " + id, Suffix: "_" + id, Src: "type $T struct {\n\tA bool\n}"})
				}
			}
			// names given are used as they are
			for _, tag := range []string{"a", "Z", "UserName", "user_NAME", "x__9", "order", "Group", "SELECT", "A_", "aB1"} {
				for _, role := range []string{"", ",pk", ",readonly", ",pk,auto_increment"} {
					s.Models = append(s.Models, model{Desc: "column " + tag + role, Src: "type $T struct {\n\tOther bool\n\tMyField int32 `sql:\"" + tag + role + "\"`\n\tLast bool\n}"})
				}
				s.Models = append(s.Models,
					model{Desc: "table " + tag, Src: "type $T struct {\n\t_ sequel.TableName `sql:\"" + tag + "\"`\n\tMyKey bool `sql:\",pk\"`\n\tOther bool\n}"},
					model{Desc: "embedded " + tag, Src: "// +sql:ignore\ntype $Tb struct {\n\tInnerField int32 `sql:\"" + tag + "\"`\n\tInnerOther bool\n}\n\ntype $T struct {\n\tTable sequel.TableName `sql:\"" + tag + "\"`\n\t*$Tb\n}"})
			}
			suites = append(suites, s)
		}
	}
	each(len(suites), func(i int) { suites[i].build(r) })
	compile(r, suites)
	probe(r, suites, "names")
}
