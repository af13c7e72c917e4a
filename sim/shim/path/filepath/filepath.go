// Package filepath is path/filepath on the simulated file system.
package filepath

import (
	"io/fs"
	real "path/filepath"

	"verif.sim/simworld"
)

// Glob lists matching paths.
func Glob(pattern string) ([]string, error) { return simworld.Glob(pattern) }

// Abs makes a path absolute.
func Abs(p string) (string, error) {
	if real.IsAbs(p) {
		return real.Clean(p), nil
	}
	return real.Join(simworld.Cur().Cwd, p), nil
}

// EvalSymlinks: the simulated file system has none.
func EvalSymlinks(p string) (string, error) {
	if _, err := simworld.Stat(p); err != nil {
		return "", err
	}
	return real.Clean(p), nil
}

// Walk walks a tree.
func Walk(root string, fn real.WalkFunc) error {
	i, err := simworld.Stat(root)
	if err != nil {
		return fn(root, nil, err)
	}
	err = walk(root, i, fn)
	if err == real.SkipDir || err == real.SkipAll {
		return nil
	}
	return err
}

func walk(p string, i fs.FileInfo, fn real.WalkFunc) error {
	if !i.IsDir() {
		return fn(p, i, nil)
	}
	de, err := simworld.ReadDir(p)
	if e := fn(p, i, err); err != nil || e != nil {
		return e
	}
	for _, d := range de {
		ci, err := d.Info()
		if err != nil {
			return err
		}
		if err := walk(real.Join(p, d.Name()), ci, fn); err != nil {
			if err == real.SkipDir {
				if ci.IsDir() {
					continue
				}
				return nil
			}
			return err
		}
	}
	return nil
}

// WalkDir walks a tree.
func WalkDir(root string, fn fs.WalkDirFunc) error {
	return Walk(root, func(p string, i fs.FileInfo, err error) error {
		if i == nil {
			return fn(p, nil, err)
		}
		return fn(p, fs.FileInfoToDirEntry(i), err)
	})
}
