// Package vioutil stands for io/ioutil.
package vioutil

import (
	"io"
	"io/fs"

	os "github.com/flu-network/client/zzverif/env/vos"
)

var Discard = io.Discard

func ReadAll(r io.Reader) ([]byte, error)               { return io.ReadAll(r) }
func ReadFile(p string) ([]byte, error)                 { return os.ReadFile(p) }
func WriteFile(p string, d []byte, m fs.FileMode) error { return os.WriteFile(p, d, m) }
func TempFile(dir, pat string) (*os.File, error)        { return os.CreateTemp(dir, pat) }
func TempDir(dir, pat string) (string, error)           { return os.MkdirTemp(dir, pat) }
