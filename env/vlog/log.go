// Package vlog stands for log: output is dropped, Fatal* ends the process.
package vlog

import (
	"fmt"
	"io"

	"github.com/flu-network/client/zzverif/sym"
)

const (
	Ldate = 1 << iota
	Ltime
	Lmicroseconds
	Llongfile
	Lshortfile
	LUTC
	Lmsgprefix
	LstdFlags = Ldate | Ltime
)

type Logger struct{}

func New(w io.Writer, prefix string, flag int) *Logger { return &Logger{} }
func Default() *Logger                                 { return &Logger{} }

func SetFlags(int)                                {}
func SetPrefix(string)                            {}
func SetOutput(io.Writer)                         {}
func Print(v ...interface{})                      {}
func Println(v ...interface{})                    {}
func Printf(f string, v ...interface{})           {}
func Fatal(v ...interface{})                      { sym.Exit("log.Fatal: " + fmt.Sprint(v...)) }
func Fatalln(v ...interface{})                    { sym.Exit("log.Fatal: " + fmt.Sprint(v...)) }
func Fatalf(f string, v ...interface{})           { sym.Exit("log.Fatal: " + fmt.Sprintf(f, v...)) }
func Panic(v ...interface{})                      { panic(fmt.Sprint(v...)) }
func Panicln(v ...interface{})                    { panic(fmt.Sprintln(v...)) }
func Panicf(f string, v ...interface{})           { panic(fmt.Sprintf(f, v...)) }
func (*Logger) Print(v ...interface{})            {}
func (*Logger) Println(v ...interface{})          {}
func (*Logger) Printf(f string, v ...interface{}) {}
func (*Logger) Fatal(v ...interface{})            { Fatal(v...) }
func (*Logger) Fatalln(v ...interface{})          { Fatal(v...) }
func (*Logger) Fatalf(f string, v ...interface{}) { Fatalf(f, v...) }
func (*Logger) Panic(v ...interface{})            { Panic(v...) }
func (*Logger) Panicf(f string, v ...interface{}) { Panicf(f, v...) }
