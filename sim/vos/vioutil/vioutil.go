// Package vioutil replaces io/ioutil
package vioutil

import (
	"io"
	"io/fs"

	"verif.local/sim/vos"
)

var Discard = io.Discard

func ReadAll(r io.Reader) ([]byte, error)         { return io.ReadAll(r) }
func NopCloser(r io.Reader) io.ReadCloser         { return io.NopCloser(r) }
func ReadFile(name string) ([]byte, error)        { return vos.ReadFile(name) }
func TempDir(dir, pattern string) (string, error) { return vos.MkdirTemp(dir, pattern) }
func TempFile(dir, pattern string) (*vos.File, error) {
	return vos.CreateTemp(dir, pattern)
}
func WriteFile(name string, data []byte, perm fs.FileMode) error {
	return vos.WriteFile(name, data, perm)
}
func ReadDir(name string) (out []fs.FileInfo, err error) {
	es, err := vos.ReadDir(name)
	for _, e := range es {
		fi, _ := e.Info()
		out = append(out, fi)
	}
	return
}
