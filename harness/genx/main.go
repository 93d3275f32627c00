package genx

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"sync"

	"vh/report"
)

var entries []*Entry

func Add(e Entry) { entries = append(entries, &e) }

func Load(s string) *Cfg {
	c := &Cfg{}
	if err := json.Unmarshal([]byte(s), c); err != nil {
		panic(err)
	}
	if c.Prefix == "" {
		c.Prefix = "Column"
	}
	return c
}

// Main is the program compiled with the generated packages:
// PROPERTY MODE OUTPUT.
func Main() {
	r := report.New(os.Args[1])
	sem := make(chan struct{}, runtime.NumCPU())
	var wg sync.WaitGroup
	for _, e := range entries {
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer func() { <-sem; wg.Done() }()
			r.Do(e.Key(), func() string { return e.Key() }, func() {
				if os.Args[2] == "methods" {
					checkMethods(r, e)
					return
				}
				Check(r, e, func(s string) string { return Rename(e.Cfg.Naming, s) })
			})
		}()
	}
	wg.Wait()
	if err := r.Export(os.Args[3]); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}
