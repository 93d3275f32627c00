// Package vos stands in for package os in the generator: every call that
// changes the file system can be made to fail, and directories are listed in
// the order the explorer chooses. The rest is added when the generator is
// instrumented.
package vos

import (
	"io"
	"io/fs"
	"os"
	"sort"
	"sync"
	"syscall"

	"vh/vmaps"
)

var (
	mu    sync.Mutex
	on    bool
	calls int
	fault int
)

// Start begins an execution in which the nth change of the file system fails
// (none if it is negative).
func Start(n int) {
	mu.Lock()
	defer mu.Unlock()
	on, calls, fault = true, 0, n
}

// Stop ends the execution and returns how many changes were attempted.
func Stop() int {
	mu.Lock()
	defer mu.Unlock()
	on = false
	return calls
}

func fails() bool {
	mu.Lock()
	defer mu.Unlock()
	if !on {
		return false
	}
	calls++
	return calls-1 == fault
}

func pathError(op, path string, err error) error { return &fs.PathError{Op: op, Path: path, Err: err} }

// File is an os.File.
type File struct {
	*os.File
	written bool
}

func wrap(f *os.File, written bool, err error) (*File, error) {
	if err != nil {
		return nil, err
	}
	return &File{f, written}, nil
}

var (
	Stdin  = &File{File: os.Stdin}
	Stdout = &File{File: os.Stdout}
	Stderr = &File{File: os.Stderr}
)

func Open(name string) (*File, error) {
	f, err := os.Open(name)
	return wrap(f, false, err)
}

func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}

func OpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	w := flag&(os.O_WRONLY|os.O_RDWR|os.O_CREATE|os.O_TRUNC|os.O_APPEND) != 0
	if w && fails() {
		return nil, pathError("open", name, syscall.ENOSPC)
	}
	f, err := os.OpenFile(name, flag, perm)
	return wrap(f, w, err)
}

func CreateTemp(dir, pattern string) (*File, error) {
	if fails() {
		return nil, pathError("open", dir, syscall.ENOSPC)
	}
	f, err := os.CreateTemp(dir, pattern)
	return wrap(f, true, err)
}

func MkdirTemp(dir, pattern string) (string, error) {
	if fails() {
		return "", pathError("mkdir", dir, syscall.ENOSPC)
	}
	return os.MkdirTemp(dir, pattern)
}

func (f *File) Write(b []byte) (int, error) {
	if f.written && fails() {
		n, _ := f.File.Write(b[:len(b)/2])
		return n, pathError("write", f.Name(), syscall.ENOSPC)
	}
	return f.File.Write(b)
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if f.written && fails() {
		return 0, pathError("write", f.Name(), syscall.ENOSPC)
	}
	return f.File.WriteAt(b, off)
}

// ReadFrom goes through Write.
func (f *File) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{f}, r)
}

func (f *File) Sync() error {
	if f.written && fails() {
		return pathError("sync", f.Name(), syscall.EIO)
	}
	return f.File.Sync()
}

func (f *File) Truncate(n int64) error {
	if f.written && fails() {
		return pathError("truncate", f.Name(), syscall.EIO)
	}
	return f.File.Truncate(n)
}

func (f *File) Close() error {
	err := f.File.Close()
	if err == nil && f.written && fails() {
		return pathError("close", f.Name(), syscall.EIO)
	}
	return err
}

func (f *File) ReadDir(n int) ([]os.DirEntry, error) {
	l, err := f.File.ReadDir(n)
	sort.Slice(l, func(i, j int) bool { return l[i].Name() < l[j].Name() })
	return vmaps.Arrange(l), err
}

func (f *File) Readdir(n int) ([]os.FileInfo, error) {
	l, err := f.File.Readdir(n)
	sort.Slice(l, func(i, j int) bool { return l[i].Name() < l[j].Name() })
	return vmaps.Arrange(l), err
}

func (f *File) Readdirnames(n int) ([]string, error) {
	l, err := f.File.Readdirnames(n)
	sort.Strings(l)
	return vmaps.Arrange(l), err
}

func WriteFile(name string, b []byte, perm os.FileMode) error {
	if fails() {
		if err := os.WriteFile(name, b[:len(b)/2], perm); err != nil {
			return err
		}
		return pathError("write", name, syscall.ENOSPC)
	}
	return os.WriteFile(name, b, perm)
}

func Mkdir(name string, perm os.FileMode) error {
	if fails() {
		return pathError("mkdir", name, syscall.ENOSPC)
	}
	return os.Mkdir(name, perm)
}

func MkdirAll(name string, perm os.FileMode) error {
	if fails() {
		return pathError("mkdir", name, syscall.ENOSPC)
	}
	return os.MkdirAll(name, perm)
}

func Rename(a, b string) error {
	if fails() {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: syscall.EIO}
	}
	return os.Rename(a, b)
}

func Link(a, b string) error {
	if fails() {
		return &os.LinkError{Op: "link", Old: a, New: b, Err: syscall.EIO}
	}
	return os.Link(a, b)
}

func Symlink(a, b string) error {
	if fails() {
		return &os.LinkError{Op: "symlink", Old: a, New: b, Err: syscall.EIO}
	}
	return os.Symlink(a, b)
}

func Remove(name string) error {
	if fails() {
		return pathError("remove", name, syscall.EACCES)
	}
	return os.Remove(name)
}

func RemoveAll(name string) error {
	if fails() {
		return pathError("remove", name, syscall.EACCES)
	}
	return os.RemoveAll(name)
}

func Truncate(name string, n int64) error {
	if fails() {
		return pathError("truncate", name, syscall.EIO)
	}
	return os.Truncate(name, n)
}

func Chmod(name string, m os.FileMode) error {
	if fails() {
		return pathError("chmod", name, syscall.EPERM)
	}
	return os.Chmod(name, m)
}
