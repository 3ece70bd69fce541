package ioutil

import (
	"io"

	"uniswap-simulator/zsim/os"
)

var Discard = io.Discard

func ReadAll(r io.Reader) ([]byte, error)               { return io.ReadAll(r) }
func ReadFile(n string) ([]byte, error)                 { return os.ReadFile(n) }
func WriteFile(n string, d []byte, p os.FileMode) error { return os.WriteFile(n, d, p) }
func NopCloser(r io.Reader) io.ReadCloser               { return io.NopCloser(r) }
func TempFile(d, p string) (*os.File, error)            { return os.CreateTemp(d, p) }
func TempDir(d, p string) (string, error)               { return os.MkdirTemp(d, p) }
func ReadDir(n string) ([]os.FileInfo, error) {
	es, err := os.ReadDir(n)
	var out []os.FileInfo
	for _, e := range es {
		i, _ := e.Info()
		out = append(out, i)
	}
	return out, err
}
