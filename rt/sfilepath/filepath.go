// Package filepath is the simulated path/filepath package of the instrumented build.
package filepath

import (
	"io/fs"
	real "path/filepath"

	sim "github.com/nginxinc/nginx-go-crossplane/internal/verifsim"
)

type WalkFunc func(path string, info fs.FileInfo, err error) error

func Glob(pattern string) ([]string, error) {
	if !sim.Active() {
		return real.Glob(pattern)
	}
	return sim.Current().FS.Glob(pattern)
}

func WalkDir(root string, fn fs.WalkDirFunc) error {
	if !sim.Active() {
		return real.WalkDir(root, fn)
	}
	return sim.Current().FS.WalkDir(root, fn)
}

func Walk(root string, fn WalkFunc) error {
	return WalkDir(root, func(path string, d fs.DirEntry, err error) error {
		if d == nil {
			return fn(path, nil, err)
		}
		i, e := d.Info()
		if err == nil {
			err = e
		}
		return fn(path, i, err)
	})
}

func Abs(path string) (string, error) {
	if !sim.Active() || real.IsAbs(path) {
		return real.Abs(path)
	}
	return sim.Current().FS.Abs(path), nil
}

func EvalSymlinks(path string) (string, error) {
	if !sim.Active() {
		return real.EvalSymlinks(path)
	}
	return sim.Current().FS.EvalSymlinks(path)
}

func Rel(base, targ string) (string, error) { return real.Rel(base, targ) }
