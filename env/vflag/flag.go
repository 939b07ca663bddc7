// Package vflag stands for flag, reading the modelled command line. Flags may be declared again.
package vflag

import (
	os "github.com/flu-network/client/zzverif/env/vos"
)

var bools = map[string]*bool{}
var strs = map[string]*string{}
var rest []string

func Bool(name string, v bool, usage string) *bool {
	p := new(bool)
	*p = v
	bools[name] = p
	return p
}
func BoolVar(p *bool, name string, v bool, usage string) { *p = v; bools[name] = p }
func String(name string, v string, usage string) *string {
	p := new(string)
	*p = v
	strs[name] = p
	return p
}
func StringVar(p *string, name string, v string, usage string) { *p = v; strs[name] = p }

func Parse() {
	a := os.Args[1:]
	for len(a) > 0 {
		s := a[0]
		if len(s) < 2 || s[0] != '-' {
			break
		}
		a = a[1:]
		if s == "--" {
			break
		}
		s = s[1:]
		if s[0] == '-' {
			s = s[1:]
		}
		val, has := "", false
		for i := 0; i < len(s); i++ {
			if s[i] == '=' {
				s, val, has = s[:i], s[i+1:], true
				break
			}
		}
		if p, ok := bools[s]; ok {
			*p = !has || val == "true" || val == "1" || val == "t" || val == "T" || val == "TRUE" || val == "True"
			continue
		}
		if p, ok := strs[s]; ok {
			if !has {
				if len(a) == 0 {
					os.Exit(2)
				}
				val, a = a[0], a[1:]
			}
			*p = val
			continue
		}
		os.Exit(2)
	}
	rest = a
}

func Args() []string { return rest }
func NArg() int      { return len(rest) }
func Arg(i int) string {
	if i < 0 || i >= len(rest) {
		return ""
	}
	return rest[i]
}
