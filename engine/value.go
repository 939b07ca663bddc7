package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of: *Term (bool, integers), Float, Str, *Value (pointer), *SymPtr, Struct, Array,
// Slice, *Map, *Chan, *Closure, Iface, Tuple, *RType, UnsafePtr, *mapIter, *strIter.
type Value interface{}

type Float struct {
	f      float64
	sym    bool // value derived from the symbolic integer num (unknown if num is nil)
	w      uint8
	num    *Term
	signed bool
}

type Str struct {
	s   string
	sym []*Term // if non-nil, the bytes (s unused)
}

func (s Str) Len() int {
	if s.sym != nil {
		return len(s.sym)
	}
	return len(s.s)
}

type Struct []Value
type Array []Value
type Tuple []Value

type Slice struct{ a []Value } // nil slice: a == nil

type SymPtr struct {
	cells []Value
	idx   *Term // 64 bit, within range under the path condition
}

type Closure struct {
	fn   *ssa.Function
	free []Value
	bi   *ssa.Builtin
	nat  func(fr *frame, args []Value) Value // engine-provided function
}

type Iface struct {
	t types.Type
	v Value
}

type UnsafePtr struct {
	v     Value // a pointer, or
	cells []Value
	str   Str
	isStr bool
}

type RType struct{ t types.Type }

type mapEnt struct {
	key, val Value
	dead     bool
}

type Map struct {
	ents []*mapEnt
	idx  map[string]*mapEnt
	nsym int
	n    int
	race raceCell
}

type mapIter struct {
	m    *Map
	ents []*mapEnt
	i    int
}

type strIter struct {
	s Str
	i int
}

func (c *Ctx) Int(v int64) *Term { return c.constant(64, uint64(v)) }

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

// intWidth returns the width of integer/bool types; 0 for bool; ok=false otherwise.
func intWidth(t types.Type) (uint8, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, true
	case types.Int8, types.Uint8:
		return 8, true
	case types.Int16, types.Uint16:
		return 16, true
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32, true
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.UntypedInt:
		return 64, true
	}
	return 0, false
}

func (w *Worker) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if n, ok := intWidth(u); ok {
			return w.ctx.constant(n, 0)
		}
		switch u.Kind() {
		case types.String, types.UntypedString:
			return Str{}
		case types.Float32:
			return Float{w: 32}
		case types.Float64, types.UntypedFloat:
			return Float{w: 64}
		case types.UnsafePointer:
			return UnsafePtr{}
		case types.UntypedNil:
			return Iface{}
		case types.Complex64, types.Complex128, types.UntypedComplex:
			return Float{sym: true}
		}
		panic(unsupported("zero of " + t.String()))
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = w.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		n := u.Len()
		if n > 1<<22 {
			panic(unsupported("huge array"))
		}
		a := make(Array, n)
		if n > 0 {
			if isAgg(u.Elem()) {
				for i := range a {
					a[i] = w.zero(u.Elem())
				}
			} else {
				z := w.zero(u.Elem())
				for i := range a {
					a[i] = z
				}
			}
		}
		return a
	case *types.Slice:
		return Slice{}
	case *types.Map:
		return (*Map)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Tuple:
		tt := make(Tuple, u.Len())
		for i := range tt {
			tt[i] = w.zero(u.At(i).Type())
		}
		return tt
	}
	panic(unsupported("zero of " + t.String()))
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

// copyVal copies value-typed aggregates.
func copyVal(v Value) Value {
	switch x := v.(type) {
	case Struct:
		n := make(Struct, len(x))
		for i, e := range x {
			n[i] = copyVal(e)
		}
		return n
	case Array:
		n := make(Array, len(x))
		for i, e := range x {
			n[i] = copyVal(e)
		}
		return n
	}
	return v
}

// storeInto stores v at cell p, keeping the identity of existing sub-cells.
func storeInto(p *Value, v Value) {
	switch x := v.(type) {
	case Struct:
		if cur, ok := (*p).(Struct); ok && len(cur) == len(x) {
			for i := range x {
				storeInto(&cur[i], x[i])
			}
			return
		}
		*p = copyVal(x)
	case Array:
		if cur, ok := (*p).(Array); ok && len(cur) == len(x) {
			for i := range x {
				storeInto(&cur[i], x[i])
			}
			return
		}
		*p = copyVal(x)
	default:
		*p = v
	}
}

func (w *Worker) constVal(c *ssa.Const) Value {
	if v, ok := w.constCache[c]; ok {
		return v
	}
	v := w.constVal0(c)
	w.constCache[c] = v
	return v
}

func (w *Worker) constVal0(c *ssa.Const) Value {
	if c.Value == nil {
		return w.zero(c.Type())
	}
	t := c.Type()
	if tp, ok := t.(*types.TypeParam); ok {
		t = tp.Constraint().Underlying()
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		panic(unsupported("constant of type " + t.String()))
	}
	if n, ok := intWidth(b); ok {
		if n == 0 {
			return w.ctx.Bool(constant.BoolVal(c.Value))
		}
		v := constant.ToInt(c.Value)
		if i, exact := constant.Int64Val(v); exact {
			return w.ctx.constant(n, uint64(i))
		}
		u, _ := constant.Uint64Val(v)
		return w.ctx.constant(n, u)
	}
	switch b.Kind() {
	case types.String, types.UntypedString:
		return Str{s: constant.StringVal(c.Value)}
	case types.Float32, types.Float64, types.UntypedFloat:
		f, _ := constant.Float64Val(c.Value)
		wd := uint8(64)
		if b.Kind() == types.Float32 {
			wd = 32
		}
		return Float{f: f, w: wd}
	}
	return Float{sym: true}
}

func (w *Worker) strBytes(s Str) []*Term {
	if s.sym != nil {
		return s.sym
	}
	out := make([]*Term, len(s.s))
	for i := 0; i < len(s.s); i++ {
		out[i] = w.ctx.constant(8, uint64(s.s[i]))
	}
	return out
}

func mkStr(b []*Term) Str {
	for _, t := range b {
		if t.op != OConst {
			return Str{sym: b}
		}
	}
	var sb strings.Builder
	sb.Grow(len(b))
	for _, t := range b {
		sb.WriteByte(byte(t.val))
	}
	return Str{s: sb.String()}
}

func (w *Worker) bytesToStr(a []Value) Str {
	b := make([]*Term, len(a))
	for i, v := range a {
		b[i] = v.(*Term)
	}
	return mkStr(b)
}

func (w *Worker) strToSlice(s Str) Slice {
	b := w.strBytes(s)
	a := make([]Value, len(b))
	for i, t := range b {
		a[i] = t
	}
	return Slice{a}
}

func (w *Worker) goBytes(b []byte) Slice {
	a := make([]Value, len(b))
	for i, x := range b {
		a[i] = w.ctx.constant(8, uint64(x))
	}
	return Slice{a}
}

// concrete bytes of a slice; ok=false if any is symbolic
func concBytes(a []Value) ([]byte, bool) {
	out := make([]byte, len(a))
	for i, v := range a {
		t := v.(*Term)
		if t.op != OConst {
			return nil, false
		}
		out[i] = byte(t.val)
	}
	return out, true
}

// keyString gives a canonical string for fully concrete map keys.
func keyString(v Value, b *strings.Builder) bool {
	switch x := v.(type) {
	case *Term:
		if x.op != OConst {
			return false
		}
		fmt.Fprintf(b, "%d:%x,", x.w, x.val)
	case Str:
		if x.sym != nil {
			return false
		}
		fmt.Fprintf(b, "%q,", x.s)
	case Struct:
		b.WriteByte('{')
		for _, e := range x {
			if !keyString(e, b) {
				return false
			}
		}
		b.WriteByte('}')
	case Array:
		b.WriteByte('[')
		for _, e := range x {
			if !keyString(e, b) {
				return false
			}
		}
		b.WriteByte(']')
	case Iface:
		if x.t == nil {
			b.WriteString("nil,")
			return true
		}
		b.WriteString(x.t.String() + "(")
		if !keyString(x.v, b) {
			return false
		}
		b.WriteByte(')')
	case *Value:
		fmt.Fprintf(b, "%p,", x)
	case *Chan:
		fmt.Fprintf(b, "%p,", x)
	case Float:
		if x.sym {
			return false
		}
		fmt.Fprintf(b, "%g,", x.f)
	default:
		return false
	}
	return true
}

type unsupportedErr struct{ msg string }

func unsupported(msg string) *unsupportedErr { return &unsupportedErr{msg} }

// equals builds the term for a == b.
func (p *Path) equals(a, b Value) *Term {
	c := p.w.ctx
	switch x := a.(type) {
	case *Term:
		return c.Eq(x, b.(*Term))
	case Str:
		y := b.(Str)
		if x.Len() != y.Len() {
			return c.tFalse
		}
		if x.sym == nil && y.sym == nil {
			return c.Bool(x.s == y.s)
		}
		xb, yb := p.w.strBytes(x), p.w.strBytes(y)
		r := c.tTrue
		for i := range xb {
			r = c.And(r, c.Eq(xb[i], yb[i]))
			if r.IsFalse() {
				break
			}
		}
		return r
	case Struct:
		y := b.(Struct)
		r := c.tTrue
		for i := range x {
			r = c.And(r, p.equals(x[i], y[i]))
			if r.IsFalse() {
				break
			}
		}
		return r
	case Array:
		y := b.(Array)
		r := c.tTrue
		for i := range x {
			r = c.And(r, p.equals(x[i], y[i]))
			if r.IsFalse() {
				break
			}
		}
		return r
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			panic(unsupported("compare interface with non-interface"))
		}
		if x.t == nil || y.t == nil {
			return c.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return c.tFalse
		}
		if !types.Comparable(x.t) {
			p.runtimePanic("comparing uncomparable type " + x.t.String())
		}
		return p.equals(x.v, y.v)
	case *Value:
		switch y := b.(type) {
		case *Value:
			return c.Bool(x == y)
		case *SymPtr:
			return c.Bool(false)
		}
	case *SymPtr:
		if y, ok := b.(*Value); ok && y == nil {
			return c.tFalse
		}
		panic(unsupported("comparison of symbolic pointers"))
	case *Map:
		return c.Bool(x == b.(*Map))
	case *Chan:
		return c.Bool(x == b.(*Chan))
	case *Closure:
		return c.Bool(x == b.(*Closure))
	case Slice:
		return c.Bool((x.a == nil) == (b.(Slice).a == nil)) // only comparison with nil compiles
	case Float:
		y := b.(Float)
		if x.sym || y.sym {
			x, y = p.concFloat(x), p.concFloat(y)
		}
		return c.Bool(x.f == y.f)
	case *RType:
		y, ok := b.(*RType)
		return c.Bool(ok && types.Identical(x.t, y.t))
	case UnsafePtr:
		y := b.(UnsafePtr)
		if x.cells == nil && y.cells == nil && !x.isStr && !y.isStr {
			if x.v == nil || y.v == nil {
				return c.Bool(x.v == nil && y.v == nil)
			}
			return p.equals(x.v, y.v)
		}
	}
	panic(unsupported(fmt.Sprintf("equality of %T and %T", a, b)))
}

// strLess builds a < b (lexicographic).
func (p *Path) strLess(a, b Str) *Term {
	c := p.w.ctx
	if a.sym == nil && b.sym == nil {
		return c.Bool(a.s < b.s)
	}
	x, y := p.w.strBytes(a), p.w.strBytes(b)
	n := len(x)
	if len(y) < n {
		n = len(y)
	}
	r := c.Bool(len(x) < len(y))
	for i := n - 1; i >= 0; i-- {
		r = c.Ite(c.Eq(x[i], y[i]), r, c.Ult(x[i], y[i]))
	}
	return r
}
