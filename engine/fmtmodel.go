package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
)

// A model of package fmt's formatting over engine values. Symbolic integers are printed as an
// opaque marker unless the harness asks for exact output (sym.ExactFmt), in which case they are
// enumerated.

type fmtBuf struct {
	p   *Path
	fr  *frame
	out []*Term
	s   strings.Builder
	sym bool
}

func (b *fmtBuf) str(s string) {
	if b.sym {
		for i := 0; i < len(s); i++ {
			b.out = append(b.out, b.p.w.ctx.constant(8, uint64(s[i])))
		}
		return
	}
	b.s.WriteString(s)
}

func (b *fmtBuf) terms(ts []*Term) {
	if !b.sym {
		b.sym = true
		cur := b.s.String()
		for i := 0; i < len(cur); i++ {
			b.out = append(b.out, b.p.w.ctx.constant(8, uint64(cur[i])))
		}
	}
	b.out = append(b.out, ts...)
}

func (b *fmtBuf) value() Str {
	if b.sym {
		return mkStr(b.out)
	}
	return Str{s: b.s.String()}
}

func (b *fmtBuf) strv(s Str) {
	if s.sym != nil {
		b.terms(s.sym)
	} else {
		b.str(s.s)
	}
}

const symMark = "<symbolic>"

// native converts simple concrete values to Go values for the real fmt.
func (b *fmtBuf) intVal(t *Term, typ types.Type) (interface{}, bool) {
	if t.op != OConst {
		if !b.p.fmtConc {
			return nil, false
		}
		t = b.p.w.ctx.constant(t.w, b.p.concretise(t))
	}
	if t.w == 0 {
		return t.val == 1, true
	}
	if isSigned(typ) {
		v := sx(t.val, t.w)
		switch t.w {
		case 8:
			return int8(v), true
		case 16:
			return int16(v), true
		case 32:
			return int32(v), true
		}
		return v, true
	}
	switch t.w {
	case 8:
		return uint8(t.val), true
	case 16:
		return uint16(t.val), true
	case 32:
		return uint32(t.val), true
	}
	return t.val, true
}

// decimal prints a symbolic integer: it forks on the sign and on the number of digits, the digits
// stay symbolic.
func (b *fmtBuf) decimal(x *Term, signed bool) {
	c := b.p.w.ctx
	if signed && b.p.branch(c.Slt(x, c.constant(x.w, 0))) {
		b.str("-")
		x = c.Neg(x)
	}
	w := x.w
	n, lim := 1, uint64(10)
	for ; n < 20; n++ {
		if w < 64 && lim > 1<<w-1 {
			break
		}
		if b.p.branch(c.Ult(x, c.constant(w, lim))) {
			break
		}
		if n == 19 {
			n = 20
			break
		}
		lim *= 10
	}
	if n < 20 {
		bits := uint8(1)
		for bits < w && uint64(1)<<bits < lim {
			bits++
		}
		if bits < w {
			x = c.Extract(x, bits-1, 0)
			w = bits
		}
	}
	ds := make([]*Term, n)
	div := uint64(1)
	for i := n - 1; i >= 0; i-- {
		q := x
		if div > 1 {
			q = c.UDiv(x, c.constant(w, div))
		}
		if i > 0 && w > 3 {
			q = c.URem(q, c.constant(w, 10))
		}
		if q.w > 8 {
			q = c.Extract(q, 7, 0)
		} else if q.w < 8 {
			q = c.ZExt(q, 8)
		}
		ds[i] = c.Add(q, c.constant(8, '0'))
		div *= 10
	}
	b.terms(ds)
}

// symFormat prints with a format of which some bytes are symbolic: those that are no percent sign
// stay so, the bytes of a directive are enumerated.
func (b *fmtBuf) symFormat(f []*Term, args []Value) {
	c := b.p.w.ctx
	ai := 0
	for i := 0; i < len(f); i++ {
		t := f[i]
		pct := t.op == OConst && t.val == '%' || t.op != OConst && b.p.branch(c.Eq(t, c.constant(8, '%')))
		if !pct {
			if t.op == OConst {
				b.str(string([]byte{byte(t.val)}))
			} else {
				b.terms([]*Term{t})
			}
			continue
		}
		spec := []byte{'%'}
		for i++; i < len(f); i++ {
			spec = append(spec, byte(b.p.concretise(f[i])))
			if strings.IndexByte("+-# 0123456789.*", spec[len(spec)-1]) < 0 {
				break
			}
		}
		ai = b.sprintfFrom(string(spec), args, ai)
	}
	b.extra(args, ai)
}

func (b *fmtBuf) sprintf(format string, args []Value) {
	b.extra(args, b.sprintfFrom(format, args, 0))
}

func (b *fmtBuf) sprintfFrom(format string, args []Value, ai int) int {
	i := 0
	for i < len(format) {
		j := strings.IndexByte(format[i:], '%')
		if j < 0 {
			b.str(format[i:])
			break
		}
		b.str(format[i : i+j])
		i += j
		k := i + 1
		spec := "%"
		for k < len(format) && strings.IndexByte("+-# 0123456789.*", format[k]) >= 0 {
			if format[k] == '*' {
				if ai < len(args) {
					if a, ok := args[ai].(Iface); ok && a.t != nil {
						if t, ok := a.v.(*Term); ok {
							spec += strconv.FormatInt(int64(b.p.concretise(t)), 10)
						}
					}
					ai++
				}
			} else {
				spec += string(format[k])
			}
			k++
		}
		if k >= len(format) {
			b.str("%!(NOVERB)")
			break
		}
		verb := format[k]
		if verb >= 0x80 {
			panic(unsupported("format verb"))
		}
		spec += string(verb)
		i = k + 1
		if verb == '%' {
			b.str("%")
			continue
		}
		if ai >= len(args) {
			b.str("%!" + string(verb) + "(MISSING)")
			continue
		}
		a, _ := args[ai].(Iface)
		ai++
		b.arg(spec, verb, a, 0)
	}
	return ai
}

func (b *fmtBuf) extra(args []Value, ai int) {
	if ai < len(args) {
		b.str("%!(EXTRA ")
		for n := ai; n < len(args); n++ {
			if n > ai {
				b.str(", ")
			}
			a := args[n].(Iface)
			if a.t == nil {
				b.str("<nil>")
			} else {
				b.str(b.typeName(a.t) + "=")
				b.arg("%v", 'v', a, 0)
			}
		}
		b.str(")")
	}
}

func (b *fmtBuf) typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (b *fmtBuf) arg(spec string, verb byte, a Iface, depth int) {
	if verb == 'T' {
		if a.t == nil {
			b.str("<nil>")
		} else {
			b.str(fmt.Sprintf(strings.Replace(spec, "T", "s", 1), b.typeName(a.t)))
		}
		return
	}
	if a.t == nil {
		switch verb {
		case 'v':
			b.str("<nil>")
		default:
			b.str("%!" + string(verb) + "(<nil>)")
		}
		return
	}
	if po, ok := a.v.(Poison); ok {
		panic(unsupported("uninitialised library state: " + po.why))
	}
	if verb == 'p' {
		b.str("0xc000000000")
		return
	}
	plusOrSharp := strings.ContainsAny(spec, "#")
	if !plusOrSharp && (verb == 'v' || verb == 's' || verb == 'x' || verb == 'X' || verb == 'q') {
		for _, m := range []string{"Error", "String"} {
			fn := b.p.findMethod(a.t, m)
			if fn == nil || fn.Signature.Params().Len() != 0 || fn.Signature.Results().Len() != 1 {
				continue
			}
			if bt, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Basic); !ok || bt.Kind() != types.String {
				continue
			}
			if ptr, ok := a.v.(*Value); ok && ptr == nil {
				b.str("<nil>")
				return
			}
			r := b.p.callFunction(b.fr, fn, nil, []Value{a.v})
			b.simpleStr(spec, verb, r.(Str))
			return
		}
	}
	b.val(spec, verb, a.v, a.t, depth)
}

func (b *fmtBuf) simpleStr(spec string, verb byte, s Str) {
	if s.sym != nil {
		if spec == "%s" || spec == "%v" || spec == "%+v" {
			b.terms(s.sym)
			return
		}
		if b.p.fmtConc {
			s = Str{s: b.p.mustConcStr(s, "")}
		} else {
			b.str(symMark)
			return
		}
	}
	b.str(fmt.Sprintf(spec, s.s))
}

func (b *fmtBuf) val(spec string, verb byte, v Value, t types.Type, depth int) {
	nested := func(v Value, t types.Type) {
		if types.IsInterface(t) {
			i, _ := v.(Iface)
			if i.t == nil {
				b.str("<nil>")
				return
			}
			b.arg(spec, verb, i, depth+1)
			return
		}
		b.arg(spec, verb, Iface{t, v}, depth+1)
	}
	switch x := v.(type) {
	case *Term:
		if x.op != OConst && x.w > 1 && b.p.fmtConc && (spec == "%d" || spec == "%v") {
			b.decimal(x, isSigned(t))
			return
		}
		n, ok := b.intVal(x, t)
		if !ok {
			b.str(symMark)
			return
		}
		b.str(fmt.Sprintf(spec, n))
	case Float:
		if x.sym && !b.p.fmtConc {
			b.str(symMark)
			return
		}
		x = b.p.concFloat(x)
		b.str(fmt.Sprintf(spec, x.f))
	case Str:
		b.simpleStr(spec, verb, x)
	case Iface:
		nested(x, t)
	case *Value:
		if x == nil {
			b.str("<nil>")
			return
		}
		if depth == 0 {
			el := t.Underlying().(*types.Pointer).Elem()
			switch (*x).(type) {
			case Struct, Array, Slice, *Map:
				b.str("&")
				b.val(spec, verb, *x, el, depth+1)
				return
			}
		}
		b.str("0xc000000000")
	case Struct:
		st := t.Underlying().(*types.Struct)
		b.str("{")
		for i := range x {
			if i > 0 {
				b.str(" ")
			}
			if strings.Contains(spec, "+") {
				b.str(st.Field(i).Name() + ":")
			}
			if st.Field(i).Exported() {
				nested(x[i], st.Field(i).Type())
			} else {
				b.val(spec, verb, x[i], st.Field(i).Type(), depth+1)
			}
		}
		b.str("}")
	case Slice, Array:
		var a []Value
		var el types.Type
		switch y := x.(type) {
		case Slice:
			a = y.a
			el = t.Underlying().(*types.Slice).Elem()
		case Array:
			a = []Value(y)
			el = t.Underlying().(*types.Array).Elem()
		}
		if bw, ok := intWidth(el); ok && bw == 8 && !isSigned(el) && (verb == 's' || verb == 'x' || verb == 'X' || verb == 'q') {
			if bs, ok := concBytes(a); ok {
				b.str(fmt.Sprintf(spec, bs))
			} else if spec == "%s" {
				b.strv(b.p.w.bytesToStr(a))
			} else {
				b.str(symMark)
			}
			return
		}
		b.str("[")
		for i := range a {
			if i > 0 {
				b.str(" ")
			}
			nested(a[i], el)
		}
		b.str("]")
	case *Map:
		b.str("map[")
		if x != nil {
			mt := t.Underlying().(*types.Map)
			for i, e := range x.ents {
				if i > 0 {
					b.str(" ")
				}
				nested(e.key, mt.Key())
				b.str(":")
				nested(e.val, mt.Elem())
			}
		}
		b.str("]")
	case *Chan, *Closure, UnsafePtr:
		b.str("0xc000000000")
	default:
		b.str(fmt.Sprintf("<%T>", v))
	}
}

func (p *Path) fmtSprintf(fr *frame, format Value, args Value) Str {
	b := &fmtBuf{p: p, fr: fr}
	f := format.(Str)
	if f.sym != nil {
		b.symFormat(f.sym, args.(Slice).a)
		return b.value()
	}
	b.sprintf(f.s, args.(Slice).a)
	return b.value()
}

func (p *Path) fmtSprint(fr *frame, args Value, ln bool) Str {
	b := &fmtBuf{p: p, fr: fr}
	prevStr := true
	for i, v := range args.(Slice).a {
		a, _ := v.(Iface)
		isStr := false
		if a.t != nil {
			if bt, ok := a.t.Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
				isStr = true
			}
		}
		if i > 0 && (ln || (!isStr && !prevStr)) {
			b.str(" ")
		}
		prevStr = isStr
		b.arg("%v", 'v', a, 0)
	}
	if ln {
		b.str("\n")
	}
	return b.value()
}
