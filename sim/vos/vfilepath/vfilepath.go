// Package vfilepath replaces path/filepath: what looks at the file system looks at the simulated one
package vfilepath

import (
	"io/fs"
	"path"
	"path/filepath"
	"strings"

	"verif.local/sim/vos"
)

const (
	Separator     = filepath.Separator
	ListSeparator = filepath.ListSeparator
)

var (
	ErrBadPattern = filepath.ErrBadPattern
	SkipDir       = fs.SkipDir
	SkipAll       = fs.SkipAll
)

// WalkFunc is that of path/filepath
type WalkFunc = filepath.WalkFunc

func Base(p string) string                     { return filepath.Base(p) }
func Clean(p string) string                    { return filepath.Clean(p) }
func Dir(p string) string                      { return filepath.Dir(p) }
func Ext(p string) string                      { return filepath.Ext(p) }
func FromSlash(p string) string                { return p }
func ToSlash(p string) string                  { return p }
func HasPrefix(p, prefix string) bool          { return strings.HasPrefix(p, prefix) }
func IsAbs(p string) bool                      { return filepath.IsAbs(p) }
func IsLocal(p string) bool                    { return filepath.IsLocal(p) }
func Localize(p string) (string, error)        { return filepath.Localize(p) }
func Join(elem ...string) string               { return filepath.Join(elem...) }
func Match(pattern, name string) (bool, error) { return filepath.Match(pattern, name) }
func Rel(base, target string) (string, error)  { return filepath.Rel(base, target) }
func Split(p string) (string, string)          { return filepath.Split(p) }
func SplitList(p string) []string              { return filepath.SplitList(p) }
func VolumeName(p string) string               { return "" }

// Abs is relative to the simulated working directory
func Abs(p string) (string, error) {
	if filepath.IsAbs(p) {
		return filepath.Clean(p), nil
	}
	wd, err := vos.Getwd()
	if err != nil {
		return "", err
	}
	return filepath.Join(wd, p), nil
}

// EvalSymlinks finds no link
func EvalSymlinks(p string) (string, error) {
	if _, err := vos.Lstat(p); err != nil {
		return "", err
	}
	return filepath.Clean(p), nil
}

// Glob finds files in the simulated file system
func Glob(pattern string) (out []string, err error) {
	if _, err := filepath.Match(pattern, ""); err != nil {
		return nil, err
	}
	dir, file := path.Split(pattern)
	dirs := []string{""}
	if dir != "" {
		if dir = path.Clean(dir); strings.ContainsAny(dir, `*?[\`) {
			if dirs, err = Glob(dir); err != nil {
				return nil, err
			}
		} else {
			dirs = []string{dir}
		}
	}
	for _, d := range dirs {
		at := d
		if at == "" {
			at = "."
		}
		es, err := vos.ReadDir(at)
		if err != nil {
			continue
		}
		for _, e := range es {
			if ok, _ := filepath.Match(file, e.Name()); ok {
				out = append(out, path.Join(d, e.Name()))
			}
		}
	}
	return out, nil
}

// WalkDir walks the simulated file system
func WalkDir(root string, fn fs.WalkDirFunc) error {
	fi, err := vos.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, fs.FileInfoToDirEntry(fi), fn)
	}
	if err == SkipDir || err == SkipAll {
		return nil
	}
	return err
}

func walk(p string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(p, d, nil); err != nil || !d.IsDir() {
		if err == SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	es, err := vos.ReadDir(p)
	if err != nil {
		if err = fn(p, d, err); err != nil {
			if err == SkipDir {
				err = nil
			}
			return err
		}
	}
	for _, e := range es {
		if err := walk(filepath.Join(p, e.Name()), e, fn); err != nil {
			if err == SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

// Walk walks the simulated file system
func Walk(root string, fn WalkFunc) error {
	return WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if d == nil {
			return fn(p, nil, err)
		}
		fi, ierr := d.Info()
		if err == nil {
			err = ierr
		}
		return fn(p, fi, err)
	})
}
