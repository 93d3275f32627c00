package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/si3nloong/sqlgen/cmd/sqlgen/codegen"

	"vh/report"
)

// terminal opens a pair of pseudo terminals.
func terminal() (master, slave *os.File, err error) {
	fd, err := syscall.Open("/dev/ptmx", syscall.O_RDWR|syscall.O_NOCTTY|syscall.O_CLOEXEC, 0)
	if err != nil {
		return nil, nil, err
	}
	var n, unlock uint32
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, uintptr(fd), syscall.TIOCGPTN, uintptr(unsafe.Pointer(&n))); e != 0 {
		return nil, nil, e
	}
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, uintptr(fd), syscall.TIOCSPTLCK, uintptr(unsafe.Pointer(&unlock))); e != 0 {
		return nil, nil, e
	}
	size := [4]uint16{50, 200}
	syscall.Syscall(syscall.SYS_IOCTL, uintptr(fd), syscall.TIOCSWINSZ, uintptr(unsafe.Pointer(&size)))
	slave, err = os.OpenFile(fmt.Sprint("/dev/pts/", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return nil, nil, err
	}
	if err := syscall.SetNonblock(fd, true); err != nil {
		return nil, nil, err
	}
	return os.NewFile(uintptr(fd), "ptmx"), slave, nil
}

// rawMode reports whether the command reads single keys.
func rawMode(master *os.File) bool {
	var t syscall.Termios
	rc, err := master.SyscallConn()
	if err != nil {
		return false
	}
	rc.Control(func(fd uintptr) {
		syscall.Syscall(syscall.SYS_IOCTL, fd, syscall.TCGETS, uintptr(unsafe.Pointer(&t)))
	})
	return t.Lflag&syscall.ICANON == 0
}

// dialogue answers the questions of a command on a terminal: once the text of
// a question has been seen, its keys are sent.
func dialogue(dir string, args []string, asks [][2]string) (code int, screen string, err error) {
	master, slave, err := terminal()
	if err != nil {
		return 0, "", err
	}
	defer master.Close()
	cmd := exec.Command(filepath.Join(os.Getenv("VH_WORK"), "sqlgen"), args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "PWD="+dir, "TERM=xterm")
	cmd.Stdin, cmd.Stdout, cmd.Stderr = slave, slave, slave
	if err := cmd.Start(); err != nil {
		slave.Close()
		return 0, "", err
	}
	slave.Close()
	ended := make(chan struct{})
	go func() { cmd.Wait(); close(ended) }()
	var b strings.Builder
	buf := make([]byte, 4096)
	seen, queries, quiet := 0, 0, 0
	var pending []string // the keys to be sent
	deadline := time.Now().Add(60 * time.Second)
	for time.Now().Before(deadline) {
		master.SetReadDeadline(time.Now().Add(10 * time.Millisecond))
		n, e := master.Read(buf)
		b.Write(buf[:n])
		if e != nil && !os.IsTimeout(e) {
			break // the other side is closed
		}
		out := b.String()
		for strings.Count(out, "\x1b[6n") > queries {
			queries++
			quiet = 0
			master.WriteString("\x1b[10;10R")
		}
		if quiet++; n > 0 {
			quiet = 0
		}
		if len(asks) > 0 && len(pending) == 0 {
			if i := strings.Index(out[seen:], asks[0][0]); i >= 0 {
				seen += i + len(asks[0][0])
				for s := asks[0][1]; s != ""; {
					k := 1
					if strings.HasPrefix(s, "\x1b[B") {
						k = 3
					}
					pending = append(pending, s[:k])
					s = s[k:]
				}
				asks = asks[1:]
			}
		}
		if len(pending) > 0 && quiet > 2 && rawMode(master) {
			master.WriteString(pending[0])
			pending = pending[1:]
			quiet = 0
		}
	}
	select {
	case <-ended:
	case <-time.After(10 * time.Second):
		cmd.Process.Kill()
		<-ended
		return 0, b.String(), fmt.Errorf("the command does not end")
	}
	if len(asks) > 0 {
		err = fmt.Errorf("%q is not asked", asks[0][0])
	}
	return cmd.ProcessState.ExitCode(), b.String(), err
}

// c01Init decides what the init command writes, for every answer.
func c01Init(r *report.Run) {
	if m, s, err := terminal(); err != nil {
		r.Extra("init", "no terminal: "+err.Error())
		return
	} else {
		m.Close()
		s.Close()
	}
	type test struct {
		key   string
		prior map[string]string
		args  []string
		asks  [][2]string
		want  string            // what the file means, or nothing
		same  map[string]string // files that are as before
	}
	down := func(n int) string { return strings.Repeat("\x1b[B", n) + "\r" }
	yes := func(b bool) string {
		if b {
			return "y\r"
		}
		return "n\r"
	}
	drivers := []codegen.SqlDriver{codegen.MySQL, codegen.Postgres, codegen.Sqlite}
	prior := map[string]map[string]string{
		"nothing": {},
		"other":   {".sqlgen.yml": "src: [./a]\nexec:\n  filename: other.go\ndriver: sqlite\nstrict: false\nquote_identifier: true\n"},
		"forced":  {"sqlgen.yml": "src: [./b]\ngetter:\n  prefix: Get\nnaming_convention: PascalCase\nstruct_tag: was\n" + strings.Repeat("# long\n", 400)},
	}
	var tests []test
	for _, p := range keys(prior) {
		for d := range drivers {
			for n := 0; n < 3; n++ {
				for tag := 0; tag < 3; tag++ {
					for strict := 0; strict < 3; strict++ {
						for ok := 0; ok < 3; ok++ {
							if !r.Thorough() && (p != "nothing" && (d+n+tag+strict)%3 != 0 || ok != (d+n)%3 && ok != (tag+2*strict)%3) {
								continue
							}
							c := raw()
							switch p {
							case "other":
								c.Source, c.Exec.Filename, c.QuoteIdentifier = []string{"./a"}, "other.go", true
							case "forced":
								c.Source, c.Getter.Prefix = []string{"./b"}, "Get"
							}
							c.Driver = drivers[d]
							switch n {
							case 0:
								c.NamingConvention = codegen.SnakeCase
							case 1:
								c.NamingConvention = codegen.CamelCase
							case 2:
								c.NamingConvention = codegen.PascalCase
							}
							c.Tag = []string{"sql", "db", "the-tag"}[tag]
							c.Strict = ptr(strict != 1)
							t := test{
								key: fmt.Sprintf("%s/%s %s %s strict=%v ok=%d", p, c.Driver, c.NamingConvention, c.Tag, *c.Strict, ok), prior: prior[p], args: []string{"init"},
								asks: [][2]string{
									{"What is your sql driver", down(d)}, {"What is your naming convention", down(n)},
									{"What is your tag for parsing", []string{"\r", "db\r", "the-tag\r"}[tag]}, {"Is it strict parsing", []string{yes(true), yes(false), "\r"}[strict]},
									{"Is this OK?", []string{yes(true), "\r", yes(false)}[ok]},
								},
								want: text(defaults(c)), same: prior[p],
							}
							if p == "forced" {
								t.args = []string{"init", "-f"}
								if strict == 2 {
									t.args[1] = "--force"
								}
								t.same = map[string]string{}
							}
							if ok == 2 {
								t.want, t.same = "", prior[p]
							}
							tests = append(tests, t)
						}
					}
				}
			}
		}
	}
	first := [][2]string{{"What is your sql driver", "\x03"}}
	tests = append(tests,
		test{key: "existing", prior: prior["forced"], args: []string{"init"}, same: prior["forced"]},
		test{key: "existing and others", prior: map[string]string{"sqlgen.yml": "src: [", "sqlgen.yaml": "driver: sqlite\n"}, args: []string{"init"}, same: map[string]string{"sqlgen.yml": "src: [", "sqlgen.yaml": "driver: sqlite\n"}},
		test{key: "interrupted", args: []string{"init"}, asks: first},
		test{key: "interrupted/forced", prior: prior["forced"], args: []string{"init", "-f"}, asks: first, same: prior["forced"]},
	)
	each(len(tests), func(i int) {
		t := tests[i]
		var code int
		var screen string
		var err error
		var got map[string]string
		for try := 0; try < 3; try++ {
			dir := freshDir(t.prior)
			must(os.MkdirAll(dir, 0o755))
			code, screen, err = dialogue(dir, t.args, t.asks)
			got = tree(dir)
			must(os.RemoveAll(filepath.Dir(dir)))
			if err == nil {
				break
			}
		}
		key := "command/init/" + t.key
		r.State(key)
		r.Transition(len(t.asks) + 1)
		r.Trace(1)
		r.Eval(1)
		replay := map[string]any{"before": t.prior, "args": t.args, "answers": t.asks, "after": got, "screen": screen}
		if strings.Contains(screen, "goroutine ") {
			r.Violate(key+"/panic", "the command panics", replay)
			return
		}
		if err != nil {
			r.Violate(key+"/dialogue", err.Error(), replay)
			return
		}
		if code != 0 {
			r.Violate(key+"/error", fmt.Sprintf("the command fails with %d", code), replay)
			return
		}
		written := got["sqlgen.yml"]
		if t.want != "" {
			delete(got, "sqlgen.yml")
		}
		same := t.same
		if t.want != "" {
			same = map[string]string{}
			for k, v := range t.same {
				if k != "sqlgen.yml" {
					same[k] = v
				}
			}
		}
		if d := sameTree(same, got); d != "" {
			r.Violate(key+"/files", "afterwards "+d, replay)
			return
		}
		if t.want == "" {
			return
		}
		path := filepath.Join(confDir, fmt.Sprintf("i%d.yml", confFile.Add(1)))
		must(os.WriteFile(path, []byte(written), 0o644))
		defer os.Remove(path)
		c, err, p := load(func() (*codegen.Config, error) { return codegen.LoadConfigFrom(path) })
		if err != nil || p != nil {
			r.Violate(key+"/load", fmt.Sprintf("the file written is refused: %v %v", err, p), replay)
		} else if text(*c) != t.want {
			r.Violate(key, "the file written does not mean what was answered: "+differ(t.want, text(*c)), replay)
		}
	})
	r.Extra("dialogues", len(tests))
}
