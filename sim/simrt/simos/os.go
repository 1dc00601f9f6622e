// Package simos replaces the parts of package os the code under test can use:
// an in-memory file system with injectable faults, environment, exit.
package simos

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"path"
	"simrt"
	"sort"
	"strings"
	"syscall"
	"time"
)

// ---------------------------------------------------------------- harness side

// Node is a file or directory of the simulated disk.
type Node struct {
	Dir   bool
	Data  []byte
	Mode  fs.FileMode
	Mtime time.Time
	Kids  map[string]*Node
}

// Root is the simulated disk.
var Root = &Node{Dir: true, Mode: 0o755 | fs.ModeDir, Kids: map[string]*Node{}}

// Cwd and Environ of the simulated process.
var Cwd = "/srv/gosms"
var Environment = map[string]string{"MONGO_USER": "u", "MONGO_PASSWD": "p"}
var Args = []string{"gosms"}

// Fault decides the outcome of one I/O operation.  op is one of readdir,
// open, read, stat, write, create, remove; a non-nil error fails it.  For
// read, short >= 0 limits the bytes returned before err (or EOF) applies.
var Fault func(op, name string) (err error, short int)

// Delay of each disk operation in nanoseconds.
var Delay func(op, name string) int64

// Ops counts disk operations seen.
var Ops = map[string]int{}

func io1(op, name string) (error, int) {
	simrt.Y()
	Ops[op]++
	if Delay != nil {
		if d := Delay(op, name); d > 0 {
			simrt.SleepNs(d)
		}
	}
	if Fault != nil {
		return Fault(op, name)
	}
	return nil, -1
}

func abs(name string) string {
	if !path.IsAbs(name) {
		name = Cwd + "/" + name
	}
	return path.Clean(name)
}

// Lookup finds a node (nil when missing).
func Lookup(name string) *Node {
	n := Root
	for _, p := range strings.Split(abs(name), "/") {
		if p == "" {
			continue
		}
		if n == nil || !n.Dir {
			return nil
		}
		n = n.Kids[p]
	}
	return n
}

// Put writes a file (harness side), creating directories.
func Put(name string, data []byte) { put(name, data, 0o644) }

func put(name string, data []byte, mode fs.FileMode) *Node {
	dir, f := path.Split(abs(name))
	d := MkdirNode(dir)
	if d == nil {
		return nil
	}
	n := &Node{Data: data, Mode: mode, Mtime: simrt.TimeNow()}
	d.Kids[f] = n
	return n
}

// MkdirNode creates a directory path (harness side).
func MkdirNode(name string) *Node {
	n := Root
	for _, p := range strings.Split(abs(name), "/") {
		if p == "" {
			continue
		}
		k := n.Kids[p]
		if k == nil {
			k = &Node{Dir: true, Mode: 0o755 | fs.ModeDir, Mtime: simrt.TimeNow(), Kids: map[string]*Node{}}
			n.Kids[p] = k
		}
		if !k.Dir {
			return nil
		}
		n = k
	}
	return n
}

// Delete removes a path (harness side).
func Delete(name string) {
	dir, f := path.Split(abs(name))
	if d := Lookup(dir); d != nil && d.Dir {
		delete(d.Kids, f)
	}
}

// ---------------------------------------------------------------- os API

func perr(op, name string, err error) error { return &fs.PathError{Op: op, Path: name, Err: err} }

type info struct {
	name string
	n    *Node
	size int64
}

func (i info) Name() string       { return i.name }
func (i info) Size() int64        { return i.size }
func (i info) Mode() fs.FileMode  { return i.n.Mode }
func (i info) ModTime() time.Time { return i.n.Mtime }
func (i info) IsDir() bool        { return i.n.Dir }
func (i info) Sys() any           { return nil }
func (i info) Type() fs.FileMode  { return i.n.Mode.Type() }
func (i info) Info() (fs.FileInfo, error) {
	return i, nil
}
func mkinfo(name string, n *Node) info { return info{name, n, int64(len(n.Data))} }

func Stat(name string) (fs.FileInfo, error) {
	if err, _ := io1("stat", abs(name)); err != nil {
		return nil, perr("stat", name, err)
	}
	n := Lookup(name)
	if n == nil {
		return nil, perr("stat", name, syscall.ENOENT)
	}
	return mkinfo(path.Base(abs(name)), n), nil
}
func Lstat(name string) (fs.FileInfo, error) { return Stat(name) }

func list(n *Node) []info {
	var out []info
	for k, v := range n.Kids {
		out = append(out, mkinfo(k, v))
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

func readDir(name string) ([]info, error) {
	if err, short := io1("readdir", abs(name)); err != nil {
		n := Lookup(name)
		if n != nil && n.Dir && short >= 0 {
			l := list(n)
			if short < len(l) {
				l = l[:short]
			}
			return l, perr("readdirent", name, err)
		}
		return nil, perr("open", name, err)
	}
	n := Lookup(name)
	if n == nil {
		return nil, perr("open", name, syscall.ENOENT)
	}
	if !n.Dir {
		return nil, perr("readdirent", name, syscall.ENOTDIR)
	}
	return list(n), nil
}

func ReadDir(name string) ([]fs.DirEntry, error) {
	l, err := readDir(name)
	var out []fs.DirEntry
	for _, i := range l {
		out = append(out, i)
	}
	return out, err
}

// ReadDirInfo is ioutil.ReadDir.
func ReadDirInfo(name string) ([]fs.FileInfo, error) {
	l, err := readDir(name)
	if err != nil {
		return nil, err
	}
	var out []fs.FileInfo
	for _, i := range l {
		out = append(out, i)
	}
	return out, nil
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var out []byte
	buf := make([]byte, 512)
	for {
		n, err := f.Read(buf)
		out = append(out, buf[:n]...)
		if err != nil {
			if err == io.EOF {
				err = nil
			}
			return out, err
		}
	}
}

func WriteFile(name string, data []byte, perm fs.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if e := f.Close(); err == nil {
		err = e
	}
	return err
}

type File struct {
	name   string
	n      *Node
	off    int
	data   []byte // snapshot semantics are not needed: reads go to n
	flag   int
	closed bool
	dirPos int
	std    bool
}

var (
	Stdin  = &File{name: "/dev/stdin", std: true, n: &Node{}}
	Stdout = &File{name: "/dev/stdout", std: true, n: &Node{}}
	Stderr = &File{name: "/dev/stderr", std: true, n: &Node{}}
)

func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}
func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	op := "open"
	if err, _ := io1(op, abs(name)); err != nil {
		return nil, perr("open", name, err)
	}
	n := Lookup(name)
	if n == nil {
		if flag&os.O_CREATE == 0 {
			return nil, perr("open", name, syscall.ENOENT)
		}
		if err, _ := io1("create", abs(name)); err != nil {
			return nil, perr("open", name, err)
		}
		d := Lookup(path.Dir(abs(name)))
		if d == nil || !d.Dir {
			return nil, perr("open", name, syscall.ENOENT)
		}
		n = put(name, nil, perm)
	} else if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
		return nil, perr("open", name, syscall.EEXIST)
	}
	if n.Dir && flag&(os.O_WRONLY|os.O_RDWR) != 0 {
		return nil, perr("open", name, syscall.EISDIR)
	}
	if flag&os.O_TRUNC != 0 {
		n.Data = nil
	}
	return &File{name: name, n: n, flag: flag}, nil
}

func (f *File) Name() string { return f.name }
func (f *File) chk(op string) error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.closed {
		return perr(op, f.name, os.ErrClosed)
	}
	return nil
}
func (f *File) Read(b []byte) (int, error) {
	if err := f.chk("read"); err != nil {
		return 0, err
	}
	if f.std {
		return 0, io.EOF
	}
	if f.n.Dir {
		return 0, perr("read", f.name, syscall.EISDIR)
	}
	err, short := io1("read", abs(f.name))
	if err != nil {
		return 0, perr("read", f.name, err)
	}
	if f.off >= len(f.n.Data) {
		return 0, io.EOF
	}
	if short > 0 && short < len(b) {
		b = b[:short]
	}
	n := copy(b, f.n.Data[f.off:])
	f.off += n
	return n, nil
}
func (f *File) ReadAt(b []byte, off int64) (int, error) {
	o := f.off
	f.off = int(off)
	defer func() { f.off = o }()
	return io.ReadFull(f, b)
}
func (f *File) Write(b []byte) (int, error) {
	if err := f.chk("write"); err != nil {
		return 0, err
	}
	if f.std {
		return len(b), nil
	}
	err, short := io1("write", abs(f.name))
	n := len(b)
	if err != nil {
		n = 0
		if short > 0 && short < len(b) {
			n = short
		}
	}
	if f.flag&os.O_APPEND != 0 {
		f.off = len(f.n.Data)
	}
	for len(f.n.Data) < f.off {
		f.n.Data = append(f.n.Data, 0)
	}
	f.n.Data = append(f.n.Data[:f.off:f.off], append(append([]byte{}, b[:n]...), tail(f.n.Data, f.off+n)...)...)
	f.off += n
	f.n.Mtime = simrt.TimeNow()
	if err != nil {
		return n, perr("write", f.name, err)
	}
	return n, nil
}
func tail(b []byte, o int) []byte {
	if o >= len(b) {
		return nil
	}
	return b[o:]
}
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }
func (f *File) Seek(off int64, wh int) (int64, error) {
	switch wh {
	case io.SeekStart:
		f.off = int(off)
	case io.SeekCurrent:
		f.off += int(off)
	case io.SeekEnd:
		f.off = len(f.n.Data) + int(off)
	}
	return int64(f.off), nil
}
func (f *File) Sync() error {
	err, _ := io1("sync", abs(f.name))
	return err
}
func (f *File) Truncate(n int64) error {
	if int(n) < len(f.n.Data) {
		f.n.Data = f.n.Data[:n]
	}
	return nil
}
func (f *File) Close() error {
	if err := f.chk("close"); err != nil {
		return err
	}
	f.closed = true
	return nil
}
func (f *File) Fd() uintptr { return 3 }
func (f *File) Stat() (fs.FileInfo, error) {
	if err := f.chk("stat"); err != nil {
		return nil, err
	}
	return mkinfo(path.Base(abs(f.name)), f.n), nil
}
func (f *File) part(n int) ([]info, error) {
	if !f.n.Dir {
		return nil, perr("readdirent", f.name, syscall.ENOTDIR)
	}
	if err, short := io1("readdir", abs(f.name)); err != nil {
		l := list(f.n)
		if short < 0 {
			short = 0
		}
		if short < len(l) {
			l = l[:short]
		}
		return l, perr("readdirent", f.name, err)
	}
	l := list(f.n)
	if f.dirPos > len(l) {
		f.dirPos = len(l)
	}
	l = l[f.dirPos:]
	if n > 0 {
		if len(l) == 0 {
			return nil, io.EOF
		}
		if len(l) > n {
			l = l[:n]
		}
	}
	f.dirPos += len(l)
	return l, nil
}
func (f *File) ReadDir(n int) ([]fs.DirEntry, error) {
	l, err := f.part(n)
	var out []fs.DirEntry
	for _, i := range l {
		out = append(out, i)
	}
	return out, err
}
func (f *File) Readdir(n int) ([]fs.FileInfo, error) {
	l, err := f.part(n)
	var out []fs.FileInfo
	for _, i := range l {
		out = append(out, i)
	}
	return out, err
}
func (f *File) Readdirnames(n int) ([]string, error) {
	l, err := f.part(n)
	var out []string
	for _, i := range l {
		out = append(out, i.name)
	}
	return out, err
}

func MkdirAll(name string, perm fs.FileMode) error {
	if err, _ := io1("create", abs(name)); err != nil {
		return perr("mkdir", name, err)
	}
	if MkdirNode(name) == nil {
		return perr("mkdir", name, syscall.ENOTDIR)
	}
	return nil
}
func Mkdir(name string, perm fs.FileMode) error {
	if Lookup(name) != nil {
		return perr("mkdir", name, syscall.EEXIST)
	}
	return MkdirAll(name, perm)
}
func Remove(name string) error {
	if err, _ := io1("remove", abs(name)); err != nil {
		return perr("remove", name, err)
	}
	n := Lookup(name)
	if n == nil {
		return perr("remove", name, syscall.ENOENT)
	}
	if n.Dir && len(n.Kids) > 0 {
		return perr("remove", name, syscall.ENOTEMPTY)
	}
	Delete(name)
	return nil
}
func RemoveAll(name string) error {
	if err, _ := io1("remove", abs(name)); err != nil {
		return perr("remove", name, err)
	}
	Delete(name)
	return nil
}
func Rename(a, b string) error {
	if err, _ := io1("rename", abs(a)); err != nil {
		return perr("rename", a, err)
	}
	n := Lookup(a)
	if n == nil {
		return perr("rename", a, syscall.ENOENT)
	}
	Delete(a)
	dir, f := path.Split(abs(b))
	d := Lookup(dir)
	if d == nil || !d.Dir {
		return perr("rename", b, syscall.ENOENT)
	}
	d.Kids[f] = n
	return nil
}

type dirFS string

func (d dirFS) Open(name string) (fs.File, error)          { return Open(string(d) + "/" + name) }
func (d dirFS) ReadFile(name string) ([]byte, error)       { return ReadFile(string(d) + "/" + name) }
func (d dirFS) ReadDir(name string) ([]fs.DirEntry, error) { return ReadDir(string(d) + "/" + name) }
func DirFS(dir string) fs.FS                               { return dirFS(dir) }

func Getwd() (string, error) { return Cwd, nil }
func Chdir(d string) error   { Cwd = abs(d); return nil }
func Getenv(k string) string { return Environment[k] }
func LookupEnv(k string) (string, bool) {
	v, ok := Environment[k]
	return v, ok
}
func Setenv(k, v string) error { Environment[k] = v; return nil }
func Unsetenv(k string) error  { delete(Environment, k); return nil }
func Environ() []string {
	var out []string
	for k, v := range Environment {
		out = append(out, k+"="+v)
	}
	sort.Strings(out)
	return out
}
func Exit(code int)               { simrt.ProcessExit(code, "os.Exit") }
func Getpid() int                 { return 4711 }
func Hostname() (string, error)   { return "simhost", nil }
func TempDir() string             { return "/tmp" }
func Executable() (string, error) { return Cwd + "/gosms", nil }

// FindProcess gives only a handle on the simulated process itself.
type Process struct{ Pid int }

var SignalSelf func(os.Signal)

func FindProcess(pid int) (*Process, error) { return &Process{pid}, nil }
func (p *Process) Signal(s os.Signal) error {
	if p.Pid != Getpid() {
		return errors.New("no such process")
	}
	if SignalSelf != nil {
		SignalSelf(s)
	}
	return nil
}
func (p *Process) Kill() error { return p.Signal(os.Kill) }
