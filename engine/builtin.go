package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var sizes = types.SizesFor("gc", "amd64")

func (w *Worker) sizeof(t types.Type) int64 {
	return sizes.Sizeof(t)
}

var sizeClasses = []int64{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundupsize(n int64) int64 {
	if n <= 32768 {
		for _, s := range sizeClasses {
			if s >= n {
				return s
			}
		}
	}
	return (n + 8191) &^ 8191
}

// growCap follows runtime.growslice.
func growCap(oldCap, newLen int, es int64) int {
	newcap := oldCap
	double := newcap + newcap
	if newLen > double {
		newcap = newLen
	} else if oldCap < 256 {
		newcap = double
	} else {
		for newcap < newLen {
			newcap += (newcap + 3*256) >> 2
		}
	}
	if es == 0 {
		return newLen
	}
	n := int(roundupsize(int64(newcap)*es) / es)
	if n < newLen {
		n = newLen
	}
	return n
}

func (p *Path) appendVals(s Slice, add []Value, elem types.Type) Slice {
	n := len(s.a) + len(add)
	if len(add) == 0 {
		return s
	}
	if n <= cap(s.a) {
		r := s.a[:n]
		for i, v := range add {
			storeInto(&r[len(s.a)+i], v)
		}
		return Slice{r}
	}
	if n > 1<<26 {
		p.abort("cut", "slice of more than 2^26 elements")
	}
	cp := growCap(cap(s.a), n, p.w.sizeof(elem))
	a := make([]Value, cp)
	copy(a, s.a)
	if isAgg(elem) {
		for i := range s.a {
			a[i] = copyVal(s.a[i])
		}
		for i, v := range add {
			a[len(s.a)+i] = copyVal(v)
		}
	} else {
		copy(a[len(s.a):], add)
	}
	p.fillZero(a[n:], elem)
	return Slice{a[:n]}
}

func (p *Path) lenOf(v Value) int {
	switch x := v.(type) {
	case Slice:
		return len(x.a)
	case Str:
		return x.Len()
	case *Map:
		if x == nil {
			return 0
		}
		return x.n
	case *Chan:
		if x == nil {
			return 0
		}
		return len(x.buf)
	case Array:
		return len(x)
	case *Value:
		if x == nil {
			return 0
		}
		return len((*x).(Array))
	case Poison:
		panic(unsupported("uninitialised library state: " + x.why))
	}
	panic(unsupported(fmt.Sprintf("len of %T", v)))
}

func (p *Path) callBuiltin(fr *frame, b *ssa.Builtin, args []Value, cc *ssa.CallCommon) Value {
	c := p.w.ctx
	switch b.Name() {
	case "append":
		s, ok := args[0].(Slice)
		if !ok {
			if po, is := args[0].(Poison); is {
				panic(unsupported("uninitialised library state: " + po.why))
			}
		}
		if len(args) == 1 {
			return s
		}
		elem := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
		switch y := args[1].(type) {
		case Str:
			return p.appendVals(s, p.w.strToSlice(y).a, elem)
		case Slice:
			if p.raceOn && fr != nil && fr.info.repo && len(p.gs) > 1 {
				p.raceRange(fr, y.a, false)
				if n := len(s.a) + len(y.a); len(y.a) > 0 && n <= cap(s.a) {
					p.raceRange(fr, s.a[len(s.a):n], true) // in place
				} else if len(y.a) > 0 {
					p.raceRange(fr, s.a, false)
				}
			}
			return p.appendVals(s, y.a, elem)
		}
	case "copy":
		d := args[0].(Slice)
		var src []Value
		switch y := args[1].(type) {
		case Str:
			src = p.w.strToSlice(y).a
		case Slice:
			src = y.a
		}
		n := len(d.a)
		if len(src) < n {
			n = len(src)
		}
		if n > 0 {
			if p.raceOn && fr != nil && fr.info.repo && len(p.gs) > 1 {
				p.raceRange(fr, d.a[:n], true)
				if _, isS := args[1].(Slice); isS {
					p.raceRange(fr, src[:n], false)
				}
			}
			switch src[0].(type) {
			case Struct, Array:
				tmp := make([]Value, n)
				for i := 0; i < n; i++ {
					tmp[i] = copyVal(src[i])
				}
				for i := 0; i < n; i++ {
					storeInto(&d.a[i], tmp[i])
				}
			default:
				copy(d.a[:n], src[:n])
			}
			p.steps += n / 16
		}
		return c.Int(int64(n))
	case "len":
		return c.Int(int64(p.lenOf(args[0])))
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return c.Int(int64(cap(x.a)))
		case *Chan:
			if x == nil {
				return c.Int(0)
			}
			return c.Int(int64(x.cap))
		}
		return c.Int(int64(p.lenOf(args[0])))
	case "close":
		ch, _ := args[0].(*Chan)
		p.chanClose(ch)
		return nil
	case "delete":
		m, _ := args[0].(*Map)
		if m != nil {
			if p.raceOn && fr != nil && fr.info.repo && len(p.gs) > 1 {
				p.raceCheck(&m.race, true, fr.where, "map")
			}
			p.mapDelete(m, args[1])
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				for _, e := range x.ents {
					e.dead = true
				}
				x.ents, x.idx, x.n, x.nsym = nil, map[string]*mapEnt{}, 0, 0
			}
		case Slice:
			elem := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := range x.a {
				storeInto(&x.a[i], p.w.zero(elem))
			}
		}
		return nil
	case "panic":
		v, _ := args[0].(Iface)
		p.throwPanic(v)
	case "recover":
		return p.doRecover(fr)
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		for _, x := range args[1:] {
			switch a := r.(type) {
			case *Term:
				y := x.(*Term)
				lt := c.Ult(a, y)
				if isSigned(cc.Args[0].Type()) {
					lt = c.Slt(a, y)
				}
				if b.Name() == "min" {
					r = c.Ite(lt, a, y)
				} else {
					r = c.Ite(lt, y, a)
				}
			case Float:
				y := p.concFloat(x.(Float))
				a = p.concFloat(a)
				if (b.Name() == "min") == (y.f < a.f) {
					r = y
				} else {
					r = a
				}
			default:
				panic(unsupported("min/max"))
			}
		}
		return r
	case "ssa:wrapnilchk":
		if v, ok := args[0].(*Value); ok && v == nil {
			p.nilPanic()
		}
		return args[0]
	case "ssa:deferstack":
		return nil
	case "String": // unsafe.String
		n := int(p.concretise(args[1].(*Term)))
		if n == 0 {
			return Str{}
		}
		if u, ok := args[0].(UnsafePtr); ok && u.cells != nil {
			return p.w.bytesToStr(u.cells[:n])
		}
	case "SliceData":
		s := args[0].(Slice)
		return UnsafePtr{cells: s.a[:len(s.a):cap(s.a)], v: (*Value)(nil)}
	case "StringData":
		return UnsafePtr{cells: p.w.strToSlice(args[0].(Str)).a, v: (*Value)(nil)}
	case "Slice":
		n := int(p.concretise(args[1].(*Term)))
		if u, ok := args[0].(UnsafePtr); ok {
			return Slice{u.cells[:n:n]}
		}
	}
	panic(unsupported("builtin " + b.Name()))
}

func (p *Path) doRecover(fr *frame) Value {
	// fr is the frame of the function calling recover
	if fr != nil && !fr.panicking && fr.caller != nil && fr.caller.panicking {
		fr.caller.panicking = false
		v := fr.caller.panicVal
		fr.caller.panicVal = Iface{}
		return v
	}
	return Iface{}
}

// ---------------------------------------------------------------- helpers for intrinsics

func (p *Path) tuple(vs ...Value) Value { return Tuple(vs) }

func (p *Path) mustConcStr(v Value, what string) string {
	s := v.(Str)
	if s.sym != nil {
		// pin the bytes: one path per value would be unbounded, so refuse
		var sb strings.Builder
		for _, t := range s.sym {
			sb.WriteByte(byte(p.concretise(t)))
		}
		return sb.String()
	}
	return s.s
}

// lookupType finds a named type in a loaded package.
func (e *Engine) lookupType(pkg, name string) types.Type {
	p := e.prog.ImportedPackage(pkg)
	if p == nil || p.Type(name) == nil {
		return nil
	}
	return p.Type(name).Type()
}

// mkError builds an error value with the given text (errors.New).
func (p *Path) mkError(s Str) Iface {
	t := p.w.eng.lookupType("errors", "errorString")
	if t == nil {
		panic(unsupported("errors package not loaded"))
	}
	v := new(Value)
	*v = Struct{s}
	return Iface{types.NewPointer(t), v}
}
