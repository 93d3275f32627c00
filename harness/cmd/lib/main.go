// lib decides the properties of the run-time library (scanners, list codecs,
// quoting) by exhaustive enumeration of bounded inputs and scan histories on
// the real code, each compared with a reference written from the property.
package main

import (
	"fmt"
	"os"

	"vh/report"
)

var checks = map[string]func(*report.Run){
	"E01": e01, "E02": e02, "E03": e03, "E04": e04, "E05": e05, "E06": e06, "E07": e07,
}

func main() {
	p := os.Args[1]
	f, ok := checks[p]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", p)
		os.Exit(2)
	}
	r := report.New(p)
	f(r)
	r.Finish()
}

// words calls f on every concatenation of at most max tokens (shortest first),
// without repeats, and splits the first level over the cores.
func words(tokens []string, max int, f func(s string)) int {
	type job struct{ prefix string }
	f("")
	jobs := make([]string, 0, len(tokens)*len(tokens))
	n := 1
	for _, a := range tokens {
		f(a)
		n++
		if max >= 2 {
			for _, b := range tokens {
				jobs = append(jobs, a+b)
			}
		}
	}
	pow := 1
	for l := 2; l <= max; l++ {
		pow *= len(tokens)
		n += pow * len(tokens)
	}
	report.Parallel(len(jobs), func(i int) {
		rec(tokens, jobs[i], max-2, f)
	})
	return n
}

func rec(tokens []string, s string, left int, f func(string)) {
	f(s)
	if left == 0 {
		return
	}
	for _, t := range tokens {
		rec(tokens, s+t, left-1, f)
	}
}
