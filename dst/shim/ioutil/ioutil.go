// Package ioutil is the simulated io/ioutil.
package ioutil

import (
	"io/fs"

	"sim/rt"
)

func ReadFile(name string) ([]byte, error) { return rt.ReadFile(name) }
func WriteFile(name string, data []byte, perm fs.FileMode) error {
	return rt.WriteFile(name, data, perm)
}
func ReadDir(name string) ([]fs.FileInfo, error) {
	ents, err := rt.ReadDir(name)
	if err != nil {
		return nil, err
	}
	var out []fs.FileInfo
	for _, e := range ents {
		i, _ := e.Info()
		out = append(out, i)
	}
	return out, nil
}
func TempFile(dir, pattern string) (*rt.File, error) { return rt.CreateTemp(dir, pattern) }
func TempDir(dir, pattern string) (string, error)    { return rt.MkdirTemp(dir, pattern) }
