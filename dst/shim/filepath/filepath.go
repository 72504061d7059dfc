// Package filepath works on the simulated disk where the real one works on the real disk.
package filepath

import (
	"io/fs"
	real "path/filepath"
	"sort"
	"strings"

	"sim/rt"
)

func Abs(p string) (string, error) {
	if real.IsAbs(p) {
		return real.Clean(p), nil
	}
	return real.Join(rt.Getwd(), p), nil
}

func EvalSymlinks(p string) (string, error) {
	if _, err := rt.Stat(p); err != nil {
		return "", err
	}
	return real.Clean(p), nil
}

func walk(p string, info fs.FileInfo, fn WalkFunc) error {
	if !info.IsDir() {
		return fn(p, info, nil)
	}
	ents, err := rt.ReadDir(p)
	err1 := fn(p, info, err)
	if err != nil || err1 != nil {
		return err1
	}
	for _, e := range ents {
		f := real.Join(p, e.Name())
		fi, err := rt.Stat(f)
		if err != nil {
			if err := fn(f, fi, err); err != nil && err != SkipDir {
				return err
			}
		} else {
			err = walk(f, fi, fn)
			if err != nil {
				if !fi.IsDir() || err != SkipDir {
					return err
				}
			}
		}
	}
	return nil
}

func Walk(root string, fn WalkFunc) error {
	info, err := rt.Stat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, info, fn)
	}
	if err == SkipDir || err == SkipAll {
		return nil
	}
	return err
}

func walkDir(p string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(p, d, nil); err != nil || !d.IsDir() {
		if err == SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	ents, err := rt.ReadDir(p)
	if err != nil {
		err = fn(p, d, err)
		if err != nil {
			if err == SkipDir && d.IsDir() {
				err = nil
			}
			return err
		}
	}
	for _, e := range ents {
		if err := walkDir(real.Join(p, e.Name()), e, fn); err != nil {
			if err == SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

func WalkDir(root string, fn fs.WalkDirFunc) error {
	info, err := rt.Stat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walkDir(root, fs.FileInfoToDirEntry(info), fn)
	}
	if err == SkipDir || err == SkipAll {
		return nil
	}
	return err
}

func Glob(pattern string) ([]string, error) {
	if _, err := real.Match(pattern, ""); err != nil {
		return nil, err
	}
	if !strings.ContainsAny(pattern, `*?[\`) {
		if _, err := rt.Stat(pattern); err != nil {
			return nil, nil
		}
		return []string{pattern}, nil
	}
	dir, file := real.Split(pattern)
	if dir == "" {
		dir = "."
	}
	dir = real.Clean(dir)
	dirs := []string{dir}
	if strings.ContainsAny(dir, `*?[\`) {
		var err error
		if dirs, err = Glob(dir); err != nil {
			return nil, err
		}
	}
	var out []string
	for _, d := range dirs {
		ents, err := rt.ReadDir(d)
		if err != nil {
			continue
		}
		for _, e := range ents {
			if ok, _ := real.Match(file, e.Name()); ok {
				out = append(out, real.Join(d, e.Name()))
			}
		}
	}
	sort.Strings(out)
	return out, nil
}
