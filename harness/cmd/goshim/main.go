// Command goshim stands in for the go command in front of the generator: it
// remembers the answers to questions whose answer is the same all along, which
// the generator asks dozens of times a run, and hands on all others.
package main

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
)

func constant(args []string) bool {
	if len(args) < 2 {
		return false
	}
	if args[0] == "env" {
		return true
	}
	last := args[len(args)-1]
	if args[0] != "list" || args[len(args)-2] != "--" || strings.HasPrefix(last, "vh/gen/") || strings.ContainsAny(last, ".=") && !strings.HasPrefix(last, "github.com/si3nloong/") {
		return false
	}
	for _, a := range args {
		if a == "-find=true" {
			return true
		}
	}
	return last == "unsafe"
}

func main() {
	real := os.Getenv("VH_REALGO")
	args := os.Args[1:]
	if !constant(args) {
		fmt.Fprintln(os.Stderr, syscall.Exec(real, append([]string{"go"}, args...), os.Environ()))
		os.Exit(2)
	}
	var key []string
	for _, a := range args {
		if !strings.HasPrefix(a, "-overlay=") {
			key = append(key, a)
		}
	}
	path := filepath.Join(os.Getenv("VH_WORK"), "answers", fmt.Sprintf("%x", sha256.Sum256([]byte(strings.Join(key, "\x00")))))
	if b, err := os.ReadFile(path); err == nil {
		os.Stdout.Write(b)
		return
	}
	cmd := exec.Command(real, args...)
	var out, msg bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &msg
	err := cmd.Run()
	os.Stdout.Write(out.Bytes())
	os.Stderr.Write(msg.Bytes())
	if err != nil {
		if e, ok := err.(*exec.ExitError); ok {
			os.Exit(e.ExitCode())
		}
		os.Exit(2)
	}
	if msg.Len() > 0 {
		return
	}
	tmp := fmt.Sprintf("%s.%d", path, os.Getpid())
	if os.WriteFile(tmp, out.Bytes(), 0o644) == nil {
		os.Rename(tmp, path)
	}
}
