// Command gen runs the code generator under test on exhaustively enumerated
// model packages and decides the properties of what it writes.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"log/slog"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"

	"github.com/si3nloong/sqlgen/cmd/sqlgen/codegen"

	"vh/report"
	"vh/vmaps"
	"vh/vos"
)

var props = map[string]func(*report.Run){
	"G01": g01,
	"G02": g02,
	"G04": g04,
	"G05": g05,
	"G06": g06,
	"G07": g07,
	"G08": g08,
	"G10": g10,
	"G03": g03,
	"C01": c01,
	"G09": g09,
	"G11": g11,
}

func main() {
	if os.Args[1] == "worker" {
		worker()
		return
	}
	shim()
	r := report.New(os.Args[1])
	f := props[os.Args[1]]
	if f == nil {
		fmt.Fprintln(os.Stderr, "unknown property")
		os.Exit(2)
	}
	f(r)
	r.Finish()
}

func must(err error) {
	if err != nil {
		debug.PrintStack()
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

// job is one run of the generator in a directory.
type job struct {
	Dir string
	Cfg codegen.Config
	// Orders are the choices of the instrumented generator
	Orders []int
	// Fault is the change of the file system that fails, from 1; 0 for none
	Fault int
}

type outcome struct {
	Err   string
	Panic string
	// Points are the choices the instrumented generator had
	Points []int
	// Changes is how many changes of the file system it attempted
	Changes int
}

func (o outcome) String() string {
	if o.Panic != "" {
		return "panic: " + o.Panic
	}
	return o.Err
}

// worker runs jobs given as lines on standard input.
func worker() {
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	log.SetOutput(io.Discard)
	out := os.NewFile(3, "out")
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var j job
		must(json.Unmarshal(line, &j))
		must(os.Chdir(j.Dir))
		vmaps.Start(j.Orders)
		vos.Start(j.Fault - 1)
		o := run(&j.Cfg)
		o.Changes = vos.Stop()
		o.Points = vmaps.Stop()
		b, err := json.Marshal(o)
		must(err)
		_, err = out.Write(append(b, '\n'))
		must(err)
	}
}

func run(c *codegen.Config) (o outcome) {
	defer func() {
		if e := recover(); e != nil {
			st := strings.Split(string(debug.Stack()), "\n")
			for i, l := range st {
				if strings.Contains(l, "panic(") && i+3 < len(st) {
					st = st[i+2:]
					break
				}
			}
			if len(st) > 6 {
				st = st[:6]
			}
			o.Panic = fmt.Sprint(e, " at ", strings.Join(st, " "))
		}
	}()
	if err := codegen.Generate(c); err != nil {
		o.Err = err.Error()
	}
	return
}

type proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

// workers is a pool of processes of one program.
type workers struct {
	bin  string
	pool chan *proc
	once sync.Once
}

var plain = &workers{pool: make(chan *proc, 64)}

func startProc(bin string) *proc {
	if bin == "" {
		var err error
		bin, err = os.Executable()
		must(err)
	}
	cmd := exec.Command(bin, "worker")
	cmd.Dir = vh()
	cmd.Env = append(os.Environ(), "GOGC=400", "GOMAXPROCS=2", "PATH="+filepath.Join(os.Getenv("VH_WORK"), "bin")+":"+os.Getenv("PATH"))
	pr, pw, err := os.Pipe()
	must(err)
	cmd.ExtraFiles = []*os.File{pw}
	cmd.Stderr = os.Stderr
	in, err := cmd.StdinPipe()
	must(err)
	must(cmd.Start())
	pw.Close()
	return &proc{cmd, in, bufio.NewReaderSize(pr, 1<<16)}
}

// shim puts vh/cmd/goshim in front of the go command for the workers.
func shim() {
	real, err := exec.LookPath("go")
	must(err)
	work := os.Getenv("VH_WORK")
	must(os.MkdirAll(filepath.Join(work, "answers"), 0o755))
	if out, err := goTool("build", "-o", filepath.Join(work, "bin", "go"), "./cmd/goshim"); err != nil {
		must(fmt.Errorf("%s", out))
	}
	os.Setenv("VH_REALGO", real)
}

func vh() string { return filepath.Join(os.Getenv("VH_WORK"), "vh") }

// generate runs the generator once in a worker process.
func generate(j job) outcome { return plain.generate(j) }

func (w *workers) generate(j job) (o outcome) {
	w.once.Do(func() {
		for i := 0; i < runtime.NumCPU(); i++ {
			w.pool <- nil
		}
	})
	p := <-w.pool
	defer func() { w.pool <- p }()
	if p == nil {
		p = startProc(w.bin)
	}
	b, err := json.Marshal(j)
	must(err)
	_, err = p.in.Write(append(b, '\n'))
	if err == nil {
		var line []byte
		if line, err = p.out.ReadBytes('\n'); err == nil {
			must(json.Unmarshal(line, &o))
			return
		}
	}
	p.cmd.Process.Kill()
	p.cmd.Wait()
	p = nil
	return outcome{Panic: "the generator ended the process: " + err.Error()}
}

// each runs f on 0..n-1, in parallel.
func each(n int, f func(i int)) {
	var wg sync.WaitGroup
	sem := make(chan struct{}, runtime.NumCPU())
	for i := 0; i < n; i++ {
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer func() { <-sem; wg.Done() }()
			f(i)
		}()
	}
	wg.Wait()
}

func write(path, content string) {
	must(os.MkdirAll(filepath.Dir(path), 0o755))
	must(os.WriteFile(path, []byte(content), 0o644))
}

// goTool runs the go command in the harness module.
func goTool(args ...string) (string, error) {
	cmd := exec.Command("go", args...)
	cmd.Dir = vh()
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	err := cmd.Run()
	return b.String(), err
}

// tree reads every file below a directory.
func tree(dir string) map[string]string {
	m := map[string]string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() {
			return nil
		}
		b, err := os.ReadFile(p)
		must(err)
		rel, _ := filepath.Rel(dir, p)
		m[rel] = string(b)
		return nil
	})
	return m
}

func keys[V any](m map[string]V) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func tail(s string) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > 12 {
		l = l[len(l)-12:]
	}
	return strings.Join(l, "\n")
}
