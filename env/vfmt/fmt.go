// Package vfmt stands for fmt: the Print family writes to the modelled standard output.
package vfmt

import (
	"fmt"
	"io"

	os "github.com/flu-network/client/zzverif/env/vos"
)

type Stringer = fmt.Stringer
type GoStringer = fmt.GoStringer
type Formatter = fmt.Formatter
type State = fmt.State

func Print(a ...interface{}) (int, error) {
	return os.WriteStdout(fmt.Sprint(a...)), nil
}
func Println(a ...interface{}) (int, error) {
	return os.WriteStdout(fmt.Sprintln(a...)), nil
}
func Printf(f string, a ...interface{}) (int, error) {
	return os.WriteStdout(fmt.Sprintf(f, a...)), nil
}
func Sprint(a ...interface{}) string                               { return fmt.Sprint(a...) }
func Sprintln(a ...interface{}) string                             { return fmt.Sprintln(a...) }
func Sprintf(f string, a ...interface{}) string                    { return fmt.Sprintf(f, a...) }
func Errorf(f string, a ...interface{}) error                      { return fmt.Errorf(f, a...) }
func Fprint(w io.Writer, a ...interface{}) (int, error)            { return fmt.Fprint(w, a...) }
func Fprintln(w io.Writer, a ...interface{}) (int, error)          { return fmt.Fprintln(w, a...) }
func Fprintf(w io.Writer, f string, a ...interface{}) (int, error) { return fmt.Fprintf(w, f, a...) }
func Sscanf(s string, f string, a ...interface{}) (int, error)     { return fmt.Sscanf(s, f, a...) }
func Sscan(s string, a ...interface{}) (int, error)                { return fmt.Sscan(s, a...) }
func Appendf(b []byte, f string, a ...interface{}) []byte          { return append(b, fmt.Sprintf(f, a...)...) }
