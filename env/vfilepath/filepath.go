// Package vfilepath stands for path/filepath: the pure functions are the real ones, Abs uses the
// modelled working directory.
package vfilepath

import (
	"path/filepath"

	os "github.com/flu-network/client/zzverif/env/vos"
)

const (
	Separator     = filepath.Separator
	ListSeparator = filepath.ListSeparator
)

func Abs(p string) (string, error) {
	if filepath.IsAbs(p) {
		return filepath.Clean(p), nil
	}
	wd, err := os.Getwd()
	if err != nil {
		return "", err
	}
	return filepath.Join(wd, p), nil
}
func Join(e ...string) string              { return filepath.Join(e...) }
func Clean(p string) string                { return filepath.Clean(p) }
func Base(p string) string                 { return filepath.Base(p) }
func Dir(p string) string                  { return filepath.Dir(p) }
func Ext(p string) string                  { return filepath.Ext(p) }
func Split(p string) (string, string)      { return filepath.Split(p) }
func IsAbs(p string) bool                  { return filepath.IsAbs(p) }
func Rel(a, b string) (string, error)      { return filepath.Rel(a, b) }
func ToSlash(p string) string              { return filepath.ToSlash(p) }
func FromSlash(p string) string            { return filepath.FromSlash(p) }
func VolumeName(p string) string           { return filepath.VolumeName(p) }
func Match(pat, name string) (bool, error) { return filepath.Match(pat, name) }
func SplitList(p string) []string          { return filepath.SplitList(p) }
func IsLocal(p string) bool                { return filepath.IsLocal(p) }
func EvalSymlinks(p string) (string, error) {
	if !filepath.IsAbs(p) {
		if _, err := os.Stat(p); err != nil {
			return "", err
		}
		return filepath.Clean(p), nil // relative ones are not resolved
	}
	return os.Resolve(p)
}
