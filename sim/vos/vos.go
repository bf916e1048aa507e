// Package vos replaces package os in the instrumented code: a simulated file system in memory, as an unprivileged user
// sees it, with injectable failures. Nothing it does reaches the real file system.
package vos

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"
)

type (
	FileMode  = fs.FileMode
	FileInfo  = fs.FileInfo
	DirEntry  = fs.DirEntry
	PathError = fs.PathError
	Signal    = os.Signal
	LinkError = os.LinkError
)

const (
	O_RDONLY = os.O_RDONLY
	O_WRONLY = os.O_WRONLY
	O_RDWR   = os.O_RDWR
	O_APPEND = os.O_APPEND
	O_CREATE = os.O_CREATE
	O_EXCL   = os.O_EXCL
	O_SYNC   = os.O_SYNC
	O_TRUNC  = os.O_TRUNC

	ModeDir     = fs.ModeDir
	ModePerm    = fs.ModePerm
	ModeSymlink = fs.ModeSymlink
	ModeAppend  = fs.ModeAppend
	ModeType    = fs.ModeType

	PathSeparator     = '/'
	PathListSeparator = ':'
	DevNull           = "/dev/null"

	SEEK_SET = 0
	SEEK_CUR = 1
	SEEK_END = 2
)

var (
	ErrInvalid          = fs.ErrInvalid
	ErrPermission       = fs.ErrPermission
	ErrExist            = fs.ErrExist
	ErrNotExist         = fs.ErrNotExist
	ErrClosed           = fs.ErrClosed
	ErrNoDeadline       = os.ErrNoDeadline
	ErrDeadlineExceeded = os.ErrDeadlineExceeded

	Args   = []string{"sim"}
	Stdin  = &File{name: "/dev/stdin", n: &node{}, closed: true}
	Stdout = &File{name: "/dev/stdout", n: &node{}, flag: O_WRONLY | O_APPEND}
	Stderr = &File{name: "/dev/stderr", n: &node{}, flag: O_WRONLY | O_APPEND}
)

type node struct {
	dir  bool
	mode FileMode
	data []byte
	kids map[string]*node
	mod  time.Time
}

// Op is one file system operation
type Op struct {
	Name, Path string
	Err        error
	N          int
}

var (
	root *node
	cwd  = "/work"

	// Fault decides the fate of an operation: a non-nil error fails it; for a write, n is how many bytes get through
	// (n < 0: all of them).
	Fault func(op, path string, size int) (n int, err error)
	// Log of all operations
	Log []Op
	// OpenFiles is the number of files not closed
	OpenFiles int
)

// Reset makes an empty file system with a writable working directory
func Reset() {
	root = &node{dir: true, mode: 0o555, kids: map[string]*node{}}
	root.kids["work"] = &node{dir: true, mode: 0o755, kids: map[string]*node{}}
	root.kids["tmp"] = &node{dir: true, mode: 0o777, kids: map[string]*node{}}
	cwd, Fault, Log, OpenFiles = "/work", nil, nil, 0
}

func init() { Reset() }

// Tree lists every path below the root with its contents ("<dir>" for directories)
func Tree() map[string]string {
	defer held()()
	out := map[string]string{}
	var walk func(p string, n *node)
	walk = func(p string, n *node) {
		for name, k := range n.kids {
			kp := p + "/" + name
			if k.dir {
				out[kp] = "<dir>"
				walk(kp, k)
			} else {
				out[kp] = string(k.data)
			}
		}
	}
	walk("", root)
	return out
}

// Put creates a file and its directories, for the set-up of a run
func Put(p, data string) {
	defer held()()
	n := root
	parts := strings.Split(strings.Trim(p, "/"), "/")
	for i, s := range parts {
		k := n.kids[s]
		if k == nil {
			if i == len(parts)-1 && !strings.HasSuffix(p, "/") {
				k = &node{mode: 0o644, data: []byte(data)}
			} else {
				k = &node{dir: true, mode: 0o755, kids: map[string]*node{}}
			}
			n.kids[s] = k
		}
		n = k
	}
}

func abs(p string) string {
	if p == "" {
		return ""
	}
	if !strings.HasPrefix(p, "/") {
		p = cwd + "/" + p
	}
	return path.Clean(p)
}

func log(op, p string, n int, err error) {
	Log = append(Log, Op{op, p, err, n})
}

// do performs an operation, which an injected fault may prevent; partly, if there is one, does the first n parts of it before the failure
func do(op, p string, f func(ap string) error, partly ...func(ap string, n int)) error {
	ap := abs(p)
	var (
		err error
		n   int
	)
	if Fault != nil {
		n, err = Fault(op, ap, 0)
	}
	if err == nil {
		err = f(ap)
	} else if n > 0 {
		for _, p := range partly {
			p(ap, n)
		}
	}
	log(op, ap, 0, err)
	if err != nil {
		return &PathError{Op: op, Path: p, Err: err}
	}
	return nil
}

// find walks to a node; every directory on the way must be searchable
func find(ap string) (*node, error) {
	if ap == "" {
		return nil, syscall.ENOENT
	}
	n := root
	for _, s := range strings.Split(strings.Trim(ap, "/"), "/") {
		if s == "" {
			continue
		}
		if !n.dir {
			return nil, syscall.ENOTDIR
		}
		if n.mode&0o100 == 0 {
			return nil, syscall.EACCES
		}
		k := n.kids[s]
		if k == nil {
			return nil, syscall.ENOENT
		}
		n = k
	}
	return n, nil
}

func parent(ap string) (*node, string, error) {
	if ap == "" {
		return nil, "", syscall.ENOENT
	}
	if ap == "/" {
		return nil, "", syscall.EEXIST
	}
	d, err := find(path.Dir(ap))
	if err != nil {
		return nil, "", err
	}
	if !d.dir {
		return nil, "", syscall.ENOTDIR
	}
	if d.mode&0o100 == 0 {
		return nil, "", syscall.EACCES
	}
	return d, path.Base(ap), nil
}

func mkdir(ap string, perm FileMode) error {
	d, name, err := parent(ap)
	if err != nil {
		return err
	}
	if d.kids[name] != nil {
		return syscall.EEXIST
	}
	if d.mode&0o200 == 0 {
		return syscall.EACCES
	}
	d.kids[name] = &node{dir: true, mode: perm & fs.ModePerm &^ 0o022, kids: map[string]*node{}, mod: time.Now()}
	return nil
}

func Mkdir(name string, perm FileMode) error {
	defer held()()
	return do("mkdir", name, func(ap string) error { return mkdir(ap, perm) })
}

func MkdirAll(p string, perm FileMode) error {
	defer held()()
	return do("mkdir", p, func(ap string) error {
		if ap == "" {
			return syscall.ENOENT
		}
		if n, err := find(ap); err == nil {
			if n.dir {
				return nil
			}
			return syscall.ENOTDIR
		}
		at := ""
		for _, s := range strings.Split(strings.Trim(ap, "/"), "/") {
			at += "/" + s
			if err := mkdir(at, perm); err != nil && !(errors.Is(err, syscall.EEXIST)) {
				return err
			}
		}
		n, err := find(ap)
		if err == nil && !n.dir {
			err = syscall.ENOTDIR
		}
		return err
	})
}

func remove(ap string, all bool) error {
	d, name, err := parent(ap)
	if err != nil {
		return err
	}
	k := d.kids[name]
	if k == nil {
		return syscall.ENOENT
	}
	if d.mode&0o200 == 0 {
		return syscall.EACCES
	}
	if k.dir && len(k.kids) > 0 {
		if !all {
			return syscall.ENOTEMPTY
		}
		if k.mode&0o700 != 0o700 {
			return syscall.EACCES
		}
		var names []string
		for n := range k.kids {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			if err := remove(ap+"/"+n, true); err != nil {
				return err
			}
		}
	}
	delete(d.kids, name)
	return nil
}

func Remove(name string) error {
	defer held()()
	return do("remove", name, func(ap string) error { return remove(ap, false) })
}

func RemoveAll(p string) error {
	defer held()()
	if p == "" {
		return nil
	}
	if p == "." || strings.HasSuffix(p, "/.") {
		return &PathError{Op: "RemoveAll", Path: p, Err: syscall.EINVAL}
	}
	return do("removeall", p, func(ap string) error {
		err := remove(ap, true)
		if errors.Is(err, syscall.ENOENT) || errors.Is(err, syscall.ENOTDIR) {
			return nil
		}
		return err
	}, func(ap string, n int) { // a removal that fails part of the way
		k, err := find(ap)
		if err != nil || !k.dir {
			return
		}
		var names []string
		for name := range k.kids {
			names = append(names, name)
		}
		sort.Strings(names)
		for i, name := range names {
			if i < n {
				remove(ap+"/"+name, true)
			}
		}
		if n > len(names) { // done, and still reported as failed
			remove(ap, true)
		}
	})
}

func Rename(from, to string) error {
	defer held()()
	return do("rename", from, func(ap string) error {
		d, name, err := parent(ap)
		if err != nil {
			return err
		}
		k := d.kids[name]
		if k == nil {
			return syscall.ENOENT
		}
		td, tname, err := parent(abs(to))
		if err != nil {
			return err
		}
		if d.mode&0o200 == 0 || td.mode&0o200 == 0 {
			return syscall.EACCES
		}
		if t := td.kids[tname]; t != nil {
			if t.dir != k.dir {
				return syscall.EEXIST
			}
			if t.dir && len(t.kids) > 0 {
				return syscall.ENOTEMPTY
			}
		}
		delete(d.kids, name)
		td.kids[tname] = k
		return nil
	})
}

func Chmod(name string, mode FileMode) error {
	defer held()()
	return do("chmod", name, func(ap string) error {
		n, err := find(ap)
		if err == nil {
			n.mode = mode & fs.ModePerm
		}
		return err
	})
}

func Truncate(name string, size int64) error {
	defer held()()
	return do("truncate", name, func(ap string) error {
		n, err := find(ap)
		if err != nil {
			return err
		}
		for int64(len(n.data)) < size {
			n.data = append(n.data, 0)
		}
		n.data = n.data[:size]
		return nil
	})
}

type info struct {
	name string
	n    *node
}

func (i info) Name() string       { return i.name }
func (i info) Size() int64        { return int64(len(i.n.data)) }
func (i info) ModTime() time.Time { return i.n.mod }
func (i info) IsDir() bool        { return i.n.dir }
func (i info) Sys() any           { return nil }
func (i info) Mode() FileMode {
	defer held()()
	if i.n.dir {
		return i.n.mode | fs.ModeDir
	}
	return i.n.mode
}

func Stat(name string) (fi FileInfo, err error) {
	defer held()()
	err = do("stat", name, func(ap string) error {
		n, err := find(ap)
		if err == nil {
			fi = info{path.Base(ap), n}
		}
		return err
	})
	return
}

func Lstat(name string) (FileInfo, error) { return Stat(name) }

func SameFile(a, b FileInfo) bool { return a.(info).n == b.(info).n }

func readDir(n *node) (out []DirEntry) {
	for name, k := range n.kids {
		out = append(out, fs.FileInfoToDirEntry(info{name, k}))
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return
}

func ReadDir(name string) (out []DirEntry, err error) {
	defer held()()
	err = do("open", name, func(ap string) error {
		n, err := find(ap)
		if err != nil {
			return err
		}
		if !n.dir {
			return syscall.ENOTDIR
		}
		if n.mode&0o400 == 0 {
			return syscall.EACCES
		}
		out = readDir(n)
		return nil
	})
	return
}

// File is an open file
type File struct {
	name   string
	path   string
	n      *node
	pos    int
	flag   int
	closed bool
}

func OpenFile(name string, flag int, perm FileMode) (f *File, err error) {
	defer held()()
	op := "open"
	if flag&O_CREATE != 0 {
		op = "create"
	}
	err = do(op, name, func(ap string) error {
		n, err := find(ap)
		if err != nil {
			if flag&O_CREATE == 0 || !errors.Is(err, syscall.ENOENT) {
				return err
			}
			d, base, err := parent(ap)
			if err != nil {
				return err
			}
			if d.mode&0o200 == 0 {
				return syscall.EACCES
			}
			n = &node{mode: perm & fs.ModePerm &^ 0o022, mod: time.Now()}
			d.kids[base] = n
		} else {
			if flag&(O_CREATE|O_EXCL) == O_CREATE|O_EXCL {
				return syscall.EEXIST
			}
			w := flag&(O_WRONLY|O_RDWR) != 0
			if n.dir && w {
				return syscall.EISDIR
			}
			if w && n.mode&0o200 == 0 || flag&O_WRONLY == 0 && n.mode&0o400 == 0 {
				return syscall.EACCES
			}
			if flag&O_TRUNC != 0 {
				n.data = nil
			}
		}
		f = &File{name: name, path: ap, n: n, flag: flag}
		OpenFiles++
		return nil
	})
	return
}

func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0o666) }
func Open(name string) (*File, error)   { return OpenFile(name, O_RDONLY, 0) }

func (f *File) Name() string { return f.name }

func (f *File) check(op string) error {
	if f == nil {
		return ErrInvalid
	}
	if f.closed {
		return &PathError{Op: op, Path: f.name, Err: ErrClosed}
	}
	return nil
}

func (f *File) Write(p []byte) (int, error) {
	defer held()()
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if f.flag&(O_WRONLY|O_RDWR) == 0 {
		return 0, &PathError{Op: "write", Path: f.name, Err: syscall.EBADF}
	}
	n, err := -1, error(nil)
	if Fault != nil {
		n, err = Fault("write", f.path, len(p))
	}
	if n < 0 || n > len(p) {
		if n = len(p); err != nil {
			n = 0
		}
	}
	if f.flag&O_APPEND != 0 {
		f.pos = len(f.n.data)
	}
	f.n.data = append(f.n.data[:min(f.pos, len(f.n.data))], append(append([]byte{}, p[:n]...), f.n.data[min(len(f.n.data), f.pos+n):]...)...)
	f.pos += n
	log("write", f.path, n, err)
	if err == nil && n < len(p) {
		err = io.ErrShortWrite // as os.File reports it
	}
	if err != nil {
		return n, &PathError{Op: "write", Path: f.name, Err: err}
	}
	return n, nil
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) WriteAt(p []byte, off int64) (int, error) {
	defer held()()
	f.pos = int(off)
	return f.Write(p)
}

func (f *File) ReadFrom(r io.Reader) (int64, error) {
	defer held()()
	return io.Copy(struct{ io.Writer }{f}, r)
}

func (f *File) Read(p []byte) (int, error) {
	defer held()()
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if f.n.dir {
		return 0, &PathError{Op: "read", Path: f.name, Err: syscall.EISDIR}
	}
	if Fault != nil {
		if _, err := Fault("read", f.path, len(p)); err != nil {
			log("read", f.path, 0, err)
			return 0, &PathError{Op: "read", Path: f.name, Err: err}
		}
	}
	if f.pos >= len(f.n.data) {
		if len(p) == 0 {
			return 0, nil
		}
		return 0, io.EOF
	}
	n := copy(p, f.n.data[f.pos:])
	f.pos += n
	return n, nil
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	defer held()()
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	switch whence {
	case io.SeekCurrent:
		off += int64(f.pos)
	case io.SeekEnd:
		off += int64(len(f.n.data))
	}
	f.pos = int(off)
	return off, nil
}

func (f *File) simple(op string) error {
	if err := f.check(op); err != nil {
		return err
	}
	var err error
	if Fault != nil {
		_, err = Fault(op, f.path, 0)
	}
	log(op, f.path, 0, err)
	if err != nil {
		return &PathError{Op: op, Path: f.name, Err: err}
	}
	return nil
}

func (f *File) Sync() error { return f.simple("sync") }

func (f *File) Close() error {
	defer held()()
	if err := f.check("close"); err != nil {
		return err
	}
	err := f.simple("close")
	f.closed = true
	OpenFiles--
	return err
}

func (f *File) Stat() (FileInfo, error) {
	defer held()()
	if err := f.simple("stat"); err != nil {
		return nil, err
	}
	return info{path.Base(f.path), f.n}, nil
}

func (f *File) Chmod(mode FileMode) error { f.n.mode = mode & fs.ModePerm; return nil }

func (f *File) Truncate(size int64) error {
	defer held()()
	for int64(len(f.n.data)) < size {
		f.n.data = append(f.n.data, 0)
	}
	f.n.data = f.n.data[:size]
	return nil
}

func (f *File) ReadDir(n int) ([]DirEntry, error) {
	defer held()()
	if !f.n.dir {
		return nil, &PathError{Op: "readdirent", Path: f.name, Err: syscall.ENOTDIR}
	}
	all := readDir(f.n)
	if f.pos > len(all) {
		f.pos = len(all)
	}
	all = all[f.pos:]
	if n > 0 {
		if len(all) == 0 {
			return nil, io.EOF
		}
		if len(all) > n {
			all = all[:n]
		}
	}
	f.pos += len(all)
	return all, nil
}

func (f *File) Readdir(n int) (out []FileInfo, err error) {
	defer held()()
	es, err := f.ReadDir(n)
	for _, e := range es {
		fi, _ := e.Info()
		out = append(out, fi)
	}
	return
}

func (f *File) Readdirnames(n int) (out []string, err error) {
	defer held()()
	es, err := f.ReadDir(n)
	for _, e := range es {
		out = append(out, e.Name())
	}
	return
}

func ReadFile(name string) ([]byte, error) {
	defer held()()
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func WriteFile(name string, data []byte, perm FileMode) error {
	defer held()()
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

var tmpSeq int

func temp(dir, pattern string) string {
	if dir == "" {
		dir = "/tmp"
	}
	tmpSeq++
	n := string(rune('a'+tmpSeq%26)) + "0"
	if i := strings.LastIndex(pattern, "*"); i >= 0 {
		return dir + "/" + pattern[:i] + n + pattern[i+1:]
	}
	return dir + "/" + pattern + n
}

func CreateTemp(dir, pattern string) (*File, error) {
	defer held()()
	for i := 0; ; i++ {
		f, err := OpenFile(temp(dir, pattern), O_RDWR|O_CREATE|O_EXCL, 0o600)
		if err == nil || !IsExist(err) || i > 30 {
			return f, err
		}
	}
}

func MkdirTemp(dir, pattern string) (string, error) {
	defer held()()
	for i := 0; ; i++ {
		p := temp(dir, pattern)
		err := Mkdir(p, 0o700)
		if err == nil || !IsExist(err) || i > 30 {
			return p, err
		}
	}
}

func TempDir() string                           { return "/tmp" }
func Getwd() (string, error)                    { return cwd, nil }
func UserHomeDir() (string, error)              { return "/work", nil }
func Chdir(dir string) error                    { cwd = abs(dir); return nil }
func IsExist(err error) bool                    { return os.IsExist(err) }
func IsNotExist(err error) bool                 { return os.IsNotExist(err) }
func IsPermission(err error) bool               { return os.IsPermission(err) }
func IsTimeout(err error) bool                  { return os.IsTimeout(err) }
func IsPathSeparator(c uint8) bool              { return c == '/' }
func Getenv(key string) string                  { return "" }
func LookupEnv(key string) (string, bool)       { return "", false }
func Setenv(key, value string) error            { return nil }
func Environ() []string                         { return nil }
func Getpid() int                               { return 1 }
func Getuid() int                               { return 1000 }
func Hostname() (string, error)                 { return "sim", nil }
func Exit(code int)                             { panic(ExitPanic{code}) }
func NewSyscallError(s string, err error) error { return os.NewSyscallError(s, err) }

// ExitPanic stands for the end of the process
type ExitPanic struct{ Code int }

// DirFS is a file system rooted at a directory
func DirFS(dir string) fs.FS { return dirFS(dir) }

type dirFS string

func (d dirFS) Open(name string) (fs.File, error) {
	defer held()()
	f, err := Open(string(d) + "/" + name)
	if err != nil {
		return nil, err
	}
	return f, nil
}
