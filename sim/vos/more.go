package vos

import (
	"io"
	"io/fs"
	"os"
	"path"
	"strings"
	"syscall"
	"time"
)

// SyscallError is that of package os
type SyscallError = os.SyscallError

// There are no links, owners, processes and devices in the simulated file system

func link(op, from, to string) error {
	return &LinkError{Op: op, Old: from, New: to, Err: syscall.EPERM}
}

func Link(from, to string) error    { return link("link", from, to) }
func Symlink(from, to string) error { return link("symlink", from, to) }

func Readlink(name string) (string, error) {
	if _, err := Stat(name); err != nil {
		return "", err
	}
	return "", &PathError{Op: "readlink", Path: name, Err: syscall.EINVAL}
}

func Chown(name string, uid, gid int) error  { _, err := Stat(name); return err }
func Lchown(name string, uid, gid int) error { return Chown(name, uid, gid) }

func Chtimes(name string, atime, mtime time.Time) error {
	defer held()()
	return do("chtimes", name, func(ap string) error {
		n, err := find(ap)
		if err == nil {
			n.mod = mtime
		}
		return err
	})
}

func Clearenv()                                           {}
func Unsetenv(key string) error                           { return nil }
func Expand(s string, mapping func(string) string) string { return os.Expand(s, mapping) }
func ExpandEnv(s string) string                           { return os.Expand(s, Getenv) }
func Executable() (string, error)                         { return "/work/sim", nil }
func Geteuid() int                                        { return 1000 }
func Getgid() int                                         { return 1000 }
func Getegid() int                                        { return 1000 }
func Getgroups() ([]int, error)                           { return []int{1000}, nil }
func Getpagesize() int                                    { return 4096 }
func Getppid() int                                        { return 0 }
func UserCacheDir() (string, error)                       { return "/work/.cache", nil }
func UserConfigDir() (string, error)                      { return "/work/.config", nil }

// CopyFS copies a file system into a directory
func CopyFS(dir string, src fs.FS) error {
	return fs.WalkDir(src, ".", func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		to := path.Join(dir, p)
		if d.IsDir() {
			return MkdirAll(to, 0o777)
		}
		data, err := fs.ReadFile(src, p)
		if err != nil {
			return err
		}
		f, err := OpenFile(to, O_CREATE|O_EXCL|O_WRONLY, 0o666)
		if err != nil {
			return err
		}
		defer f.Close()
		_, err = f.Write(data)
		return err
	})
}

func (f *File) Chdir() error                       { return Chdir(f.path) }
func (f *File) Chown(uid, gid int) error           { return f.check("chown") }
func (f *File) Fd() uintptr                        { return ^uintptr(0) }
func (f *File) SetDeadline(t time.Time) error      { return ErrNoDeadline }
func (f *File) SetReadDeadline(t time.Time) error  { return ErrNoDeadline }
func (f *File) SetWriteDeadline(t time.Time) error { return ErrNoDeadline }

func (f *File) ReadAt(p []byte, off int64) (n int, err error) {
	defer held()()
	was := f.pos
	f.pos = int(off)
	defer func() { f.pos = was }()
	for n < len(p) && err == nil {
		var k int
		k, err = f.Read(p[n:])
		n += k
	}
	return
}

func (f *File) WriteTo(w io.Writer) (int64, error) {
	return io.Copy(w, struct{ io.Reader }{f})
}

// Root is a directory that operations cannot leave
type Root struct {
	name   string
	path   string
	closed bool
}

// OpenRoot opens a directory
func OpenRoot(name string) (*Root, error) {
	fi, err := Stat(name)
	if err != nil {
		return nil, err
	}
	if !fi.IsDir() {
		return nil, &PathError{Op: "open", Path: name, Err: syscall.ENOTDIR}
	}
	return &Root{name: name, path: abs(name)}, nil
}

// OpenInRoot opens a file in a directory
func OpenInRoot(dir, name string) (*File, error) {
	r, err := OpenRoot(dir)
	if err != nil {
		return nil, err
	}
	return r.Open(name)
}

var errEscapes = os.ErrInvalid

func (r *Root) in(op, name string) (string, error) {
	if r.closed {
		return "", &PathError{Op: op, Path: name, Err: ErrClosed}
	}
	if name == "" {
		return "", &PathError{Op: op, Path: name, Err: syscall.ENOENT}
	}
	depth := 0
	for _, s := range strings.Split(name, "/") {
		switch s {
		case "", ".":
		case "..":
			depth--
		default:
			depth++
		}
		if depth < 0 || name[0] == '/' {
			return "", &PathError{Op: op, Path: name, Err: errEscapes}
		}
	}
	return path.Join(r.path, name), nil
}

func (r *Root) Name() string { return r.name }
func (r *Root) Close() error { r.closed = true; return nil }

func rooted[T any](r *Root, op, name string, f func(string) (T, error)) (t T, err error) {
	p, err := r.in(op, name)
	if err != nil {
		return t, err
	}
	return f(p)
}

func (r *Root) try(op, name string, f func(string) error) error {
	p, err := r.in(op, name)
	if err == nil {
		err = f(p)
	}
	return err
}

func (r *Root) OpenFile(name string, flag int, perm FileMode) (*File, error) {
	return rooted(r, "openat", name, func(p string) (*File, error) { return OpenFile(p, flag, perm) })
}
func (r *Root) Open(name string) (*File, error)      { return rooted(r, "openat", name, Open) }
func (r *Root) Create(name string) (*File, error)    { return rooted(r, "openat", name, Create) }
func (r *Root) Stat(name string) (FileInfo, error)   { return rooted(r, "statat", name, Stat) }
func (r *Root) Lstat(name string) (FileInfo, error)  { return rooted(r, "statat", name, Lstat) }
func (r *Root) OpenRoot(name string) (*Root, error)  { return rooted(r, "openat", name, OpenRoot) }
func (r *Root) ReadFile(name string) ([]byte, error) { return rooted(r, "openat", name, ReadFile) }
func (r *Root) Remove(name string) error             { return r.try("unlinkat", name, Remove) }
func (r *Root) RemoveAll(name string) error          { return r.try("RemoveAll", name, RemoveAll) }
func (r *Root) FS() fs.FS                            { return DirFS(r.path) }

func (r *Root) Mkdir(name string, perm FileMode) error {
	return r.try("mkdirat", name, func(p string) error { return Mkdir(p, perm) })
}
func (r *Root) MkdirAll(name string, perm FileMode) error {
	return r.try("mkdirat", name, func(p string) error { return MkdirAll(p, perm) })
}
func (r *Root) Chmod(name string, mode FileMode) error {
	return r.try("chmodat", name, func(p string) error { return Chmod(p, mode) })
}
func (r *Root) WriteFile(name string, data []byte, perm FileMode) error {
	return r.try("openat", name, func(p string) error { return WriteFile(p, data, perm) })
}
func (r *Root) Rename(from, to string) error {
	q, err := r.in("renameat", to)
	if err != nil {
		return err
	}
	return r.try("renameat", from, func(p string) error { return Rename(p, q) })
}
