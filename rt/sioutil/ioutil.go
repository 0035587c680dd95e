// Package ioutil is the simulated io/ioutil package of the instrumented build.
package ioutil

import (
	"io/fs"

	sos "github.com/nginxinc/nginx-go-crossplane/internal/verifsim/sos"
)

func ReadFile(name string) ([]byte, error) { return sos.ReadFile(name) }
func WriteFile(name string, data []byte, perm fs.FileMode) error {
	return sos.WriteFile(name, data, perm)
}
func TempFile(dir, pattern string) (*sos.File, error) { return sos.CreateTemp(dir, pattern) }
func TempDir(dir, pattern string) (string, error)     { return sos.MkdirTemp(dir, pattern) }
func ReadDir(name string) ([]fs.FileInfo, error) {
	es, err := sos.ReadDir(name)
	var out []fs.FileInfo
	for _, e := range es {
		i, err := e.Info()
		if err != nil {
			return out, err
		}
		out = append(out, i)
	}
	return out, err
}
