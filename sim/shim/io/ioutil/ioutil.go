// Package ioutil is io/ioutil on the simulated file system.
package ioutil

import (
	"io/fs"

	"verif.sim/simworld"
)

// ReadFile reads a file.
func ReadFile(name string) ([]byte, error) { return simworld.ReadFile(name) }

// WriteFile writes a file.
func WriteFile(name string, b []byte, perm fs.FileMode) error {
	return simworld.WriteFile(name, b, perm)
}

// ReadDir lists a directory.
func ReadDir(name string) ([]fs.FileInfo, error) {
	de, err := simworld.ReadDir(name)
	if err != nil {
		return nil, err
	}
	var out []fs.FileInfo
	for _, d := range de {
		i, err := d.Info()
		if err != nil {
			return nil, err
		}
		out = append(out, i)
	}
	return out, nil
}

// TempFile makes a temporary file.
func TempFile(dir, pattern string) (*simworld.File, error) {
	f, _, err := simworld.Temp(dir, pattern, false)
	return f, err
}

// TempDir makes a temporary directory.
func TempDir(dir, pattern string) (string, error) {
	_, name, err := simworld.Temp(dir, pattern, true)
	return name, err
}
