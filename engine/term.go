package main

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

// Terms are bit-vectors of width 1..64 and booleans (width 0). Constants are interned globally per
// context; other terms are hash-consed per path. Constructors simplify aggressively, in particular
// byte-level splitting and joining (shift/or/extract) is normalised into concatenations.

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot // bitwise
	ONeg
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OAnd
	OOr
	OXor
	OShl
	OLshr
	OAshr
	OConcat
	OExtract
	OSExt
	OIte
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OBNot
	OBAnd
	OBOr
)

var opNames = map[Op]string{ONot: "bvnot", ONeg: "bvneg", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul",
	OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem", OAnd: "bvand", OOr: "bvor", OXor: "bvxor",
	OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OConcat: "concat", OIte: "ite", OEq: "=", OUlt: "bvult", OUle: "bvule",
	OSlt: "bvslt", OSle: "bvsle", OBNot: "not", OBAnd: "and", OBOr: "or"}

type Term struct {
	op   Op
	w    uint8 // 0 = bool
	lo   uint8 // extract
	lz   uint8 // known leading zero bits
	val  uint64
	name string
	args []*Term
	h    [2]uint64
	id   int
	vars []*Term // sorted by name; nil for constants
}

type termKey struct {
	h  [2]uint64
	op Op
	w  uint8
}

type Ctx struct {
	table   map[termKey]*Term
	consts  map[[2]uint64]*Term
	varTab  map[string]*Term
	nextID  int
	tTrue   *Term
	tFalse  *Term
	created int64
}

func NewCtx() *Ctx {
	c := &Ctx{table: map[termKey]*Term{}, consts: map[[2]uint64]*Term{}, varTab: map[string]*Term{}}
	c.tTrue = c.constant(0, 1)
	c.tFalse = c.constant(0, 0)
	return c
}

// ResetPath drops hash-consed non-constant terms.
func (c *Ctx) ResetPath() {
	if len(c.table) > 0 {
		c.table = make(map[termKey]*Term, 256)
	}
}

func mix(a, b uint64) uint64 {
	hi, lo := bits.Mul64(a^0x9E3779B97F4A7C15, b^0xD1B54A32D192ED03)
	return hi ^ lo ^ (a << 7) ^ (b >> 3)
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func (c *Ctx) constant(w uint8, v uint64) *Term {
	if w == 0 {
		v &= 1
	} else {
		v &= mask(w)
	}
	k := [2]uint64{uint64(w), v}
	if t, ok := c.consts[k]; ok {
		return t
	}
	t := &Term{op: OConst, w: w, val: v}
	if w > 0 {
		t.lz = w - uint8(bits.Len64(v))
	}
	t.h = [2]uint64{mix(uint64(w)+1, v+77), mix(v+3, uint64(w)+991)}
	c.nextID++
	t.id = c.nextID
	if len(c.consts) < 1<<20 {
		c.consts[k] = t
	}
	return t
}

func (c *Ctx) Const(w uint8, v uint64) *Term { return c.constant(w, v) }
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.tTrue
	}
	return c.tFalse
}

func strHash(s string, seed uint64) uint64 {
	h := seed
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
		h ^= h >> 29
	}
	return h
}

func (c *Ctx) Var(name string, w uint8) *Term {
	if t, ok := c.varTab[name]; ok {
		if t.w != w {
			panic("variable redeclared with another width: " + name)
		}
		return t
	}
	t := &Term{op: OVar, w: w, name: name}
	t.h = [2]uint64{strHash(name, 14695981039346656037), strHash(name, 88172645463325252)}
	c.nextID++
	t.id = c.nextID
	t.vars = []*Term{t}
	c.varTab[name] = t
	return t
}

func mergeVars(args []*Term) []*Term {
	var out []*Term
	for _, a := range args {
		if len(a.vars) == 0 {
			continue
		}
		if out == nil {
			out = a.vars
			continue
		}
		// subset test / merge
		same := len(out) == len(a.vars)
		if same {
			for i := range out {
				if out[i] != a.vars[i] {
					same = false
					break
				}
			}
		}
		if same {
			continue
		}
		m := make([]*Term, 0, len(out)+len(a.vars))
		i, j := 0, 0
		for i < len(out) && j < len(a.vars) {
			switch {
			case out[i] == a.vars[j]:
				m = append(m, out[i])
				i++
				j++
			case out[i].name < a.vars[j].name:
				m = append(m, out[i])
				i++
			default:
				m = append(m, a.vars[j])
				j++
			}
		}
		m = append(m, out[i:]...)
		m = append(m, a.vars[j:]...)
		out = m
	}
	return out
}

func (c *Ctx) mk(op Op, w uint8, lo uint8, args ...*Term) *Term {
	h0, h1 := uint64(op)*0x9E37+uint64(w)<<20+uint64(lo)<<40+1, uint64(op)*131+uint64(w)*17+uint64(lo)*7+5
	for _, a := range args {
		h0 = mix(h0, a.h[0])
		h1 = mix(h1*3+1, a.h[1])
	}
	k := termKey{[2]uint64{h0, h1}, op, w}
	if t, ok := c.table[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, lo: lo, h: k.h, args: append([]*Term(nil), args...)}
	c.nextID++
	c.created++
	t.id = c.nextID
	t.vars = mergeVars(args)
	t.lz = t.computeLZ()
	c.table[k] = t
	return t
}

func umin8(a, b uint8) uint8 {
	if a < b {
		return a
	}
	return b
}

func (t *Term) computeLZ() uint8 {
	a := t.args
	switch t.op {
	case OConcat:
		n := uint8(0)
		for _, x := range a {
			n += x.lz
			if x.lz < x.w {
				break
			}
		}
		return n
	case OAnd:
		if a[0].lz > a[1].lz {
			return a[0].lz
		}
		return a[1].lz
	case OOr, OXor:
		return umin8(a[0].lz, a[1].lz)
	case OIte:
		return umin8(a[1].lz, a[2].lz)
	case OAdd:
		m := umin8(a[0].lz, a[1].lz)
		if m > 0 {
			return m - 1
		}
	case OMul:
		s := int(a[0].lz) + int(a[1].lz) - int(t.w)
		if s > 0 {
			return uint8(s)
		}
	case OUDiv:
		if a[1].op == OConst && a[1].val > 0 {
			n := int(a[0].lz) + bits.Len64(a[1].val) - 1
			if n > int(t.w) {
				n = int(t.w)
			}
			return uint8(n)
		}
	case OURem:
		if a[1].op == OConst && a[1].val > 0 {
			n := t.w - uint8(bits.Len64(a[1].val-1))
			if a[0].lz > n {
				return a[0].lz
			}
			return n
		}
		return 0
	case OLshr:
		return a[0].lz
	case OExtract:
		// bits hi..lo of arg
		hi := t.lo + t.w - 1
		above := a[0].w - 1 - hi
		if a[0].lz > above {
			n := a[0].lz - above
			if n > t.w {
				n = t.w
			}
			return n
		}
	}
	return 0
}

func (t *Term) IsConst() bool { return t.op == OConst }
func (t *Term) IsTrue() bool  { return t.op == OConst && t.w == 0 && t.val == 1 }
func (t *Term) IsFalse() bool { return t.op == OConst && t.w == 0 && t.val == 0 }

func sameTerm(a, b *Term) bool {
	if a == b {
		return true
	}
	return a.w == b.w && a.op == b.op && a.h == b.h
}

func sx(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	if v&(1<<(w-1)) != 0 {
		return int64(v | ^mask(w))
	}
	return int64(v)
}

// ---------------------------------------------------------------- booleans

func (c *Ctx) Not(a *Term) *Term {
	if a.op == OConst {
		return c.Bool(a.val == 0)
	}
	if a.op == OBNot {
		return a.args[0]
	}
	return c.mk(OBNot, 0, 0, a)
}

func isNeg(a, b *Term) bool {
	return (a.op == OBNot && sameTerm(a.args[0], b)) || (b.op == OBNot && sameTerm(b.args[0], a))
}

func (c *Ctx) And(a, b *Term) *Term {
	if a.op == OConst {
		if a.val == 0 {
			return a
		}
		return b
	}
	if b.op == OConst {
		if b.val == 0 {
			return b
		}
		return a
	}
	if sameTerm(a, b) {
		return a
	}
	if isNeg(a, b) {
		return c.tFalse
	}
	return c.mk(OBAnd, 0, 0, a, b)
}

func (c *Ctx) Or(a, b *Term) *Term {
	if a.op == OConst {
		if a.val == 1 {
			return a
		}
		return b
	}
	if b.op == OConst {
		if b.val == 1 {
			return b
		}
		return a
	}
	if sameTerm(a, b) {
		return a
	}
	if isNeg(a, b) {
		return c.tTrue
	}
	return c.mk(OBOr, 0, 0, a, b)
}

func (c *Ctx) Ite(k, a, b *Term) *Term {
	if k.op == OConst {
		if k.val == 1 {
			return a
		}
		return b
	}
	if sameTerm(a, b) {
		return a
	}
	if k.op == OBNot {
		return c.Ite(k.args[0], b, a)
	}
	if a.w == 0 {
		if a.op == OConst {
			if a.val == 1 {
				return c.Or(k, b)
			}
			return c.And(c.Not(k), b)
		}
		if b.op == OConst {
			if b.val == 1 {
				return c.Or(c.Not(k), a)
			}
			return c.And(k, a)
		}
	}
	// ite(k, ite(k,x,y), z)
	if a.op == OIte && sameTerm(a.args[0], k) {
		a = a.args[1]
	}
	if b.op == OIte && sameTerm(b.args[0], k) {
		b = b.args[2]
	}
	return c.mk(OIte, a.w, 0, k, a, b)
}

// ---------------------------------------------------------------- segments

// segs splits t into concat pieces (high to low)
func segs(t *Term) []*Term {
	if t.op == OConcat {
		return t.args
	}
	return []*Term{t}
}

func (c *Ctx) Concat(parts ...*Term) *Term {
	// flatten and merge
	var out []*Term
	var push func(x *Term)
	push = func(x *Term) {
		if x.op == OConcat {
			for _, y := range x.args {
				push(y)
			}
			return
		}
		if n := len(out); n > 0 {
			p := out[n-1]
			if p.op == OConst && x.op == OConst && int(p.w)+int(x.w) <= 64 {
				out[n-1] = c.constant(p.w+x.w, p.val<<x.w|x.val)
				return
			}
			if p.op == OExtract && x.op == OExtract && sameTerm(p.args[0], x.args[0]) && p.lo == x.lo+x.w {
				out[n-1] = c.Extract(p.args[0], p.lo+p.w-1, x.lo)
				return
			}
		}
		out = append(out, x)
	}
	w := 0
	for _, x := range parts {
		w += int(x.w)
		push(x)
	}
	if len(out) == 1 {
		return out[0]
	}
	if w > 64 {
		panic("concat wider than 64")
	}
	return c.mk(OConcat, uint8(w), 0, out...)
}

func (c *Ctx) Extract(t *Term, hi, lo uint8) *Term {
	w := hi - lo + 1
	if w == t.w {
		return t
	}
	switch t.op {
	case OConst:
		return c.constant(w, t.val>>lo)
	case OExtract:
		return c.Extract(t.args[0], t.lo+hi, t.lo+lo)
	case OConcat:
		var out []*Term
		pos := t.w // top of current piece (exclusive)
		for _, p := range t.args {
			pl := pos - p.w // low bit of piece
			// overlap [max(lo,pl), min(hi,pos-1)]
			l, h := lo, hi
			if pl > l {
				l = pl
			}
			if pos-1 < h {
				h = pos - 1
			}
			if l <= h && h >= pl && l < pos {
				out = append(out, c.Extract(p, h-pl, l-pl))
			}
			pos = pl
		}
		return c.Concat(out...)
	case OAnd, OOr, OXor:
		a, b := c.Extract(t.args[0], hi, lo), c.Extract(t.args[1], hi, lo)
		switch t.op {
		case OAnd:
			return c.BvAnd(a, b)
		case OOr:
			return c.BvOr(a, b)
		}
		return c.BvXor(a, b)
	case ONot:
		return c.BvNot(c.Extract(t.args[0], hi, lo))
	case OIte:
		if t.args[1].op == OConst || t.args[2].op == OConst || t.args[1].op == OConcat || t.args[2].op == OConcat {
			return c.Ite(t.args[0], c.Extract(t.args[1], hi, lo), c.Extract(t.args[2], hi, lo))
		}
	case OAdd, OSub, OMul:
		if lo == 0 {
			a, b := c.Extract(t.args[0], hi, 0), c.Extract(t.args[1], hi, 0)
			switch t.op {
			case OAdd:
				return c.Add(a, b)
			case OSub:
				return c.Sub(a, b)
			}
			return c.Mul(a, b)
		}
	case OSExt:
		in := t.args[0]
		if hi < in.w {
			return c.Extract(in, hi, lo)
		}
		if lo == 0 && hi >= in.w {
			return c.SExt(in, hi+1)
		}
	}
	if t.lz > 0 && t.w-t.lz <= lo {
		return c.constant(w, 0)
	}
	return c.mk(OExtract, w, lo, t)
}

func (c *Ctx) ZExt(t *Term, w uint8) *Term {
	if t.w == w {
		return t
	}
	return c.Concat(c.constant(w-t.w, 0), t)
}

func (c *Ctx) SExt(t *Term, w uint8) *Term {
	if t.w == w {
		return t
	}
	if t.op == OConst {
		return c.constant(w, uint64(sx(t.val, t.w)))
	}
	if t.lz > 0 {
		return c.ZExt(t, w)
	}
	if t.op == OSExt {
		return c.SExt(t.args[0], w)
	}
	return c.mk(OSExt, w, 0, t)
}

// bitwise applies f segment-wise if either side has structure.
func (c *Ctx) bitwise(op Op, a, b *Term, f func(x, y *Term) *Term) *Term {
	sa, sb := segs(a), segs(b)
	if op == OAnd || op == OOr {
		// refine constants into runs of equal bits
		if b.op == OConst {
			sb = c.constRuns(b)
		}
		if a.op == OConst {
			sa = c.constRuns(a)
		}
		if a.op == OConcat {
			sa = c.refineConsts(sa)
		}
		if b.op == OConcat {
			sb = c.refineConsts(sb)
		}
	}
	if len(sa) == 1 && len(sb) == 1 {
		return f(a, b)
	}
	var out []*Term
	i, j := 0, 0
	ra, rb := sa[0].w, sb[0].w
	for i < len(sa) && j < len(sb) {
		w := umin8(ra, rb)
		x := c.Extract(sa[i], ra-1, ra-w)
		y := c.Extract(sb[j], rb-1, rb-w)
		out = append(out, f(x, y))
		ra -= w
		rb -= w
		if ra == 0 {
			i++
			if i < len(sa) {
				ra = sa[i].w
			}
		}
		if rb == 0 {
			j++
			if j < len(sb) {
				rb = sb[j].w
			}
		}
	}
	return c.Concat(out...)
}

func (c *Ctx) refineConsts(in []*Term) []*Term {
	var out []*Term
	for _, s := range in {
		if s.op == OConst {
			out = append(out, c.constRuns(s)...)
		} else {
			out = append(out, s)
		}
	}
	return out
}

func (c *Ctx) constRuns(t *Term) []*Term {
	var out []*Term
	w := int(t.w)
	for w > 0 {
		bit := t.val >> (w - 1) & 1
		n := 1
		for w-n > 0 && t.val>>(w-1-n)&1 == bit {
			n++
		}
		v := uint64(0)
		if bit == 1 {
			v = mask(uint8(n))
		}
		out = append(out, c.constant(uint8(n), v))
		w -= n
	}
	return out
}

func isZero(t *Term) bool { return t.op == OConst && t.val == 0 }
func isOnes(t *Term) bool { return t.op == OConst && t.val == mask(t.w) }

func (c *Ctx) BvAnd(a, b *Term) *Term {
	return c.bitwise(OAnd, a, b, func(x, y *Term) *Term {
		switch {
		case x.op == OConst && y.op == OConst:
			return c.constant(x.w, x.val&y.val)
		case isZero(x) || isOnes(y) || sameTerm(x, y):
			return x
		case isZero(y) || isOnes(x):
			return y
		}
		return c.mk(OAnd, x.w, 0, x, y)
	})
}

func (c *Ctx) BvOr(a, b *Term) *Term {
	return c.bitwise(OOr, a, b, func(x, y *Term) *Term {
		switch {
		case x.op == OConst && y.op == OConst:
			return c.constant(x.w, x.val|y.val)
		case isZero(x) || isOnes(y) || sameTerm(x, y):
			return y
		case isZero(y) || isOnes(x):
			return x
		}
		return c.mk(OOr, x.w, 0, x, y)
	})
}

func (c *Ctx) BvXor(a, b *Term) *Term {
	return c.bitwise(OXor, a, b, func(x, y *Term) *Term {
		switch {
		case x.op == OConst && y.op == OConst:
			return c.constant(x.w, x.val^y.val)
		case isZero(x):
			return y
		case isZero(y):
			return x
		case isOnes(x):
			return c.BvNot(y)
		case isOnes(y):
			return c.BvNot(x)
		case sameTerm(x, y):
			return c.constant(x.w, 0)
		}
		return c.mk(OXor, x.w, 0, x, y)
	})
}

func (c *Ctx) BvNot(a *Term) *Term {
	switch a.op {
	case OConst:
		return c.constant(a.w, ^a.val)
	case ONot:
		return a.args[0]
	case OConcat:
		out := make([]*Term, len(a.args))
		for i, x := range a.args {
			out[i] = c.BvNot(x)
		}
		return c.Concat(out...)
	}
	return c.mk(ONot, a.w, 0, a)
}

func (c *Ctx) Neg(a *Term) *Term {
	if a.op == OConst {
		return c.constant(a.w, -a.val)
	}
	return c.mk(ONeg, a.w, 0, a)
}

// disjoint reports whether for every bit position at least one side is constant zero.
func (c *Ctx) disjoint(a, b *Term) bool {
	sa, sb := c.refineConsts(segs(a)), c.refineConsts(segs(b))
	if len(sa) == 1 && len(sb) == 1 {
		return false
	}
	i, j := 0, 0
	ra, rb := sa[0].w, sb[0].w
	for i < len(sa) && j < len(sb) {
		w := umin8(ra, rb)
		if !isZero(sa[i]) && !isZero(sb[j]) {
			return false
		}
		ra -= w
		rb -= w
		if ra == 0 {
			i++
			if i < len(sa) {
				ra = sa[i].w
			}
		}
		if rb == 0 {
			j++
			if j < len(sb) {
				rb = sb[j].w
			}
		}
	}
	return true
}

func (c *Ctx) Add(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		return c.constant(a.w, a.val+b.val)
	}
	if isZero(a) {
		return b
	}
	if isZero(b) {
		return a
	}
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		if a.op == OAdd && a.args[1].op == OConst {
			return c.Add(a.args[0], c.constant(a.w, a.args[1].val+b.val))
		}
		if a.op == OSub && a.args[1].op == OConst {
			return c.Add(a.args[0], c.constant(a.w, b.val-a.args[1].val))
		}
		if a.op == OIte && a.args[1].op == OConst && a.args[2].op == OConst {
			return c.Ite(a.args[0], c.Add(a.args[1], b), c.Add(a.args[2], b))
		}
	}
	if (a.op == OConcat || b.op == OConcat) && c.disjoint(a, b) {
		return c.BvOr(a, b)
	}
	if b.op != OConst && a.id > b.id {
		a, b = b, a
	}
	return c.mk(OAdd, a.w, 0, a, b)
}

func (c *Ctx) Sub(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		return c.constant(a.w, a.val-b.val)
	}
	if isZero(b) {
		return a
	}
	if sameTerm(a, b) {
		return c.constant(a.w, 0)
	}
	if b.op == OConst {
		return c.Add(a, c.constant(a.w, -b.val))
	}
	if a.op == OAdd {
		if sameTerm(a.args[0], b) {
			return a.args[1]
		}
		if sameTerm(a.args[1], b) {
			return a.args[0]
		}
	}
	return c.mk(OSub, a.w, 0, a, b)
}

func (c *Ctx) Mul(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		return c.constant(a.w, a.val*b.val)
	}
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		if b.val == 0 {
			return b
		}
		if b.val == 1 {
			return a
		}
		if b.val&(b.val-1) == 0 {
			return c.Shl(a, c.constant(a.w, uint64(bits.TrailingZeros64(b.val))))
		}
		if a.op == OIte && a.args[1].op == OConst && a.args[2].op == OConst {
			return c.Ite(a.args[0], c.Mul(a.args[1], b), c.Mul(a.args[2], b))
		}
	}
	return c.mk(OMul, a.w, 0, a, b)
}

func (c *Ctx) UDiv(a, b *Term) *Term {
	if b.op == OConst && b.val != 0 {
		if a.op == OConst {
			return c.constant(a.w, a.val/b.val)
		}
		if b.val&(b.val-1) == 0 {
			return c.Lshr(a, c.constant(a.w, uint64(bits.TrailingZeros64(b.val))))
		}
		if a.lz > 0 && a.lz < a.w && bits.Len64(b.val) > int(a.w-a.lz) {
			return c.constant(a.w, 0)
		}
	}
	// narrow when both have known leading zeros
	if lz := umin8(a.lz, b.lz); lz > 0 && lz < a.w {
		w := a.w - lz
		return c.ZExt(c.mk(OUDiv, w, 0, c.Extract(a, w-1, 0), c.Extract(b, w-1, 0)), a.w)
	}
	return c.mk(OUDiv, a.w, 0, a, b)
}

func (c *Ctx) URem(a, b *Term) *Term {
	if b.op == OConst && b.val != 0 {
		if a.op == OConst {
			return c.constant(a.w, a.val%b.val)
		}
		if b.val == 1 {
			return c.constant(a.w, 0)
		}
		if b.val&(b.val-1) == 0 {
			k := uint8(bits.TrailingZeros64(b.val))
			return c.ZExt(c.Extract(a, k-1, 0), a.w)
		}
		if a.lz > 0 && bits.Len64(b.val) > int(a.w-a.lz) {
			return a
		}
	}
	if lz := umin8(a.lz, b.lz); lz > 0 && lz < a.w {
		w := a.w - lz
		return c.ZExt(c.mk(OURem, w, 0, c.Extract(a, w-1, 0), c.Extract(b, w-1, 0)), a.w)
	}
	return c.mk(OURem, a.w, 0, a, b)
}

func (c *Ctx) SDiv(a, b *Term) *Term {
	if a.lz > 0 && b.lz > 0 {
		return c.UDiv(a, b)
	}
	if a.op == OConst && b.op == OConst && b.val != 0 {
		x, y := sx(a.val, a.w), sx(b.val, b.w)
		if y == -1 {
			return c.constant(a.w, uint64(-x))
		}
		return c.constant(a.w, uint64(x/y))
	}
	if k, ok := pow2(b); ok && k > 0 {
		return c.Ashr(c.Add(a, c.signBias(a, k)), c.constant(a.w, uint64(k)))
	}
	return c.mk(OSDiv, a.w, 0, a, b)
}

func (c *Ctx) SRem(a, b *Term) *Term {
	if a.lz > 0 && b.lz > 0 {
		return c.URem(a, b)
	}
	if a.op == OConst && b.op == OConst && b.val != 0 {
		x, y := sx(a.val, a.w), sx(b.val, b.w)
		if y == -1 {
			return c.constant(a.w, 0)
		}
		return c.constant(a.w, uint64(x%y))
	}
	if k, ok := pow2(b); ok && k > 0 {
		bias := c.signBias(a, k)
		m := c.constant(a.w, b.val-1)
		return c.Sub(c.BvAnd(c.Add(a, bias), m), bias)
	}
	return c.mk(OSRem, a.w, 0, a, b)
}

// shifts: amount has the same width as a
func (c *Ctx) Shl(a, n *Term) *Term {
	if n.op == OConst {
		if n.val == 0 {
			return a
		}
		if n.val >= uint64(a.w) {
			return c.constant(a.w, 0)
		}
		k := uint8(n.val)
		return c.Concat(c.Extract(a, a.w-1-k, 0), c.constant(k, 0))
	}
	if isZero(a) {
		return a
	}
	return c.mk(OShl, a.w, 0, a, n)
}

func (c *Ctx) Lshr(a, n *Term) *Term {
	if n.op == OConst {
		if n.val == 0 {
			return a
		}
		if n.val >= uint64(a.w) {
			return c.constant(a.w, 0)
		}
		k := uint8(n.val)
		return c.Concat(c.constant(k, 0), c.Extract(a, a.w-1, k))
	}
	if isZero(a) {
		return a
	}
	return c.mk(OLshr, a.w, 0, a, n)
}

func (c *Ctx) Ashr(a, n *Term) *Term {
	if a.lz > 0 {
		return c.Lshr(a, n)
	}
	if n.op == OConst {
		k := n.val
		if k == 0 {
			return a
		}
		if k >= uint64(a.w) {
			k = uint64(a.w) - 1
		}
		if a.op == OConst {
			return c.constant(a.w, uint64(sx(a.val, a.w)>>k))
		}
		return c.SExt(c.Extract(a, a.w-1, uint8(k)), a.w)
	}
	return c.mk(OAshr, a.w, 0, a, n)
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", a.w, b.w))
	}
	if sameTerm(a, b) {
		return c.tTrue
	}
	if a.op == OConst && b.op == OConst {
		return c.Bool(a.val == b.val)
	}
	if a.w == 0 {
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.val == 1 {
				return a
			}
			return c.Not(a)
		}
		if isNeg(a, b) {
			return c.tFalse
		}
	}
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst && a.w > 0 {
		if a.lz > 0 && bits.Len64(b.val) > int(a.w-a.lz) {
			return c.tFalse
		}
		if a.op == OIte && (a.args[1].op == OConst || a.args[2].op == OConst) {
			return c.Ite(a.args[0], c.Eq(a.args[1], b), c.Eq(a.args[2], b))
		}
		if a.op == OAdd && a.args[1].op == OConst {
			return c.Eq(a.args[0], c.constant(a.w, b.val-a.args[1].val))
		}
		if a.op == OXor && a.args[1].op == OConst {
			return c.Eq(a.args[0], c.constant(a.w, b.val^a.args[1].val))
		}
		if a.op == ONot {
			return c.Eq(a.args[0], c.constant(a.w, ^b.val))
		}
		if a.op == OSExt {
			in := a.args[0]
			if uint64(sx(b.val&mask(in.w), in.w))&mask(a.w) != b.val {
				return c.tFalse
			}
			return c.Eq(in, c.constant(in.w, b.val))
		}
	}
	if a.op == OConcat || b.op == OConcat {
		sa, sb := segs(a), segs(b)
		// split at common refinement and conjoin
		res := c.tTrue
		i, j := 0, 0
		ra, rb := sa[0].w, sb[0].w
		for i < len(sa) && j < len(sb) {
			w := umin8(ra, rb)
			x := c.Extract(sa[i], ra-1, ra-w)
			y := c.Extract(sb[j], rb-1, rb-w)
			if w == a.w {
				goto raw
			}
			res = c.And(res, c.Eq(x, y))
			if res.IsFalse() {
				return res
			}
			ra -= w
			rb -= w
			if ra == 0 {
				i++
				if i < len(sa) {
					ra = sa[i].w
				}
			}
			if rb == 0 {
				j++
				if j < len(sb) {
					rb = sb[j].w
				}
			}
		}
		return res
	}
raw:
	if a.op == OIte && b.op == OIte && sameTerm(a.args[0], b.args[0]) {
		return c.Ite(a.args[0], c.Eq(a.args[1], b.args[1]), c.Eq(a.args[2], b.args[2]))
	}
	if b.op != OConst && a.id > b.id {
		a, b = b, a
	}
	return c.mk(OEq, 0, 0, a, b)
}

func (t *Term) maxU() uint64 { return mask(t.w-t.lz) * b2u(t.lz < t.w) }

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (c *Ctx) Ult(a, b *Term) *Term {
	if sameTerm(a, b) {
		return c.tFalse
	}
	if a.op == OConst && b.op == OConst {
		return c.Bool(a.val < b.val)
	}
	if b.op == OConst {
		if b.val == 0 {
			return c.tFalse
		}
		if a.op != OConst && a.maxU() < b.val {
			return c.tTrue
		}
		if b.val == 1 {
			return c.Eq(a, c.constant(a.w, 0))
		}
		if a.op == OIte && a.args[1].op == OConst && a.args[2].op == OConst {
			return c.Ite(a.args[0], c.Ult(a.args[1], b), c.Ult(a.args[2], b))
		}
	}
	if a.op == OConst {
		if b.op != OConst && b.maxU() <= a.val {
			return c.tFalse
		}
		if a.val == 0 {
			return c.Not(c.Eq(b, a))
		}
		if b.op == OIte && b.args[1].op == OConst && b.args[2].op == OConst {
			return c.Ite(b.args[0], c.Ult(a, b.args[1]), c.Ult(a, b.args[2]))
		}
	}
	if lz := umin8(a.lz, b.lz); lz > 0 && lz < a.w {
		w := a.w - lz
		return c.Ult(c.Extract(a, w-1, 0), c.Extract(b, w-1, 0))
	}
	return c.mk(OUlt, 0, 0, a, b)
}

func (c *Ctx) Ule(a, b *Term) *Term { return c.Not(c.Ult(b, a)) }

func (c *Ctx) Slt(a, b *Term) *Term {
	if sameTerm(a, b) {
		return c.tFalse
	}
	if a.op == OConst && b.op == OConst {
		return c.Bool(sx(a.val, a.w) < sx(b.val, b.w))
	}
	an, bn := a.lz > 0, b.lz > 0
	if an && bn {
		return c.Ult(a, b)
	}
	if an && b.op == OConst { // b negative
		return c.tFalse
	}
	if bn && a.op == OConst {
		return c.tTrue
	}
	if a.op == OIte && a.args[1].op == OConst && a.args[2].op == OConst && b.op == OConst {
		return c.Ite(a.args[0], c.Slt(a.args[1], b), c.Slt(a.args[2], b))
	}
	return c.mk(OSlt, 0, 0, a, b)
}

func (c *Ctx) Sle(a, b *Term) *Term { return c.Not(c.Slt(b, a)) }

// ---------------------------------------------------------------- evaluation

type Model map[*Term]uint64 // variable -> value (missing = 0)

func evalTerm(t *Term, m Model, memo map[*Term]uint64) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OVar:
		return m[t]
	}
	if v, ok := memo[t]; ok {
		return v
	}
	var r uint64
	switch t.op {
	case OIte:
		if evalTerm(t.args[0], m, memo) == 1 {
			r = evalTerm(t.args[1], m, memo)
		} else {
			r = evalTerm(t.args[2], m, memo)
		}
		memo[t] = r
		return r
	case OBAnd:
		r = evalTerm(t.args[0], m, memo)
		if r == 1 {
			r = evalTerm(t.args[1], m, memo)
		}
		memo[t] = r
		return r
	case OBOr:
		r = evalTerm(t.args[0], m, memo)
		if r == 0 {
			r = evalTerm(t.args[1], m, memo)
		}
		memo[t] = r
		return r
	case OConcat:
		for _, a := range t.args {
			if a.w < 64 {
				r <<= a.w
			}
			r |= evalTerm(a, m, memo)
		}
		memo[t] = r
		return r
	}
	x := evalTerm(t.args[0], m, memo)
	var y uint64
	if len(t.args) > 1 {
		y = evalTerm(t.args[1], m, memo)
	}
	aw := t.args[0].w
	switch t.op {
	case ONot:
		r = ^x
	case ONeg:
		r = -x
	case OAdd:
		r = x + y
	case OSub:
		r = x - y
	case OMul:
		r = x * y
	case OUDiv:
		if y == 0 {
			r = ^uint64(0)
		} else {
			r = x / y
		}
	case OURem:
		if y == 0 {
			r = x
		} else {
			r = x % y
		}
	case OSDiv:
		a, b := sx(x, aw), sx(y, aw)
		switch {
		case b == 0:
			if a < 0 {
				r = 1
			} else {
				r = ^uint64(0)
			}
		case b == -1:
			r = uint64(-a)
		default:
			r = uint64(a / b)
		}
	case OSRem:
		a, b := sx(x, aw), sx(y, aw)
		switch {
		case b == 0:
			r = x
		case b == -1:
			r = 0
		default:
			r = uint64(a % b)
		}
	case OAnd:
		r = x & y
	case OOr:
		r = x | y
	case OXor:
		r = x ^ y
	case OShl:
		if y < uint64(aw) {
			r = x << y
		}
	case OLshr:
		if y < uint64(aw) {
			r = x >> y
		}
	case OAshr:
		if y >= uint64(aw) {
			y = uint64(aw) - 1
		}
		r = uint64(sx(x, aw) >> y)
	case OExtract:
		r = x >> t.lo
	case OSExt:
		r = uint64(sx(x, aw))
	case OEq:
		r = b2u(x == y)
	case OUlt:
		r = b2u(x < y)
	case OSlt:
		r = b2u(sx(x, aw) < sx(y, aw))
	case OBNot:
		r = 1 - x
	default:
		panic("eval: " + opNames[t.op])
	}
	if t.w == 0 {
		r &= 1
	} else {
		r &= mask(t.w)
	}
	memo[t] = r
	return r
}

// ---------------------------------------------------------------- printing (SMT-LIB2)

func smtName(n string) string { return "|" + n + "|" }

type smtWriter struct {
	b    strings.Builder
	refs map[*Term]int
	defs map[*Term]string
	n    int
}

func (s *smtWriter) count(t *Term) {
	if len(t.args) == 0 {
		return
	}
	s.refs[t]++
	if s.refs[t] > 1 {
		return
	}
	for _, a := range t.args {
		s.count(a)
	}
}

// emit defines shared subterms and returns an expression string for t
func (s *smtWriter) expr(t *Term) string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.val == 1 {
				return "true"
			}
			return "false"
		}
		if t.w%4 == 0 {
			return fmt.Sprintf("#x%0*x", int(t.w)/4, t.val)
		}
		return fmt.Sprintf("#b%0*b", int(t.w), t.val)
	case OVar:
		return smtName(t.name)
	}
	if d, ok := s.defs[t]; ok {
		return d
	}
	parts := make([]string, len(t.args))
	for i, a := range t.args {
		parts[i] = s.expr(a)
	}
	var e string
	switch t.op {
	case OExtract:
		e = fmt.Sprintf("((_ extract %d %d) %s)", t.lo+t.w-1, t.lo, parts[0])
	case OSExt:
		e = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.args[0].w, parts[0])
	default:
		e = "(" + opNames[t.op] + " " + strings.Join(parts, " ") + ")"
	}
	if s.refs[t] > 1 {
		s.n++
		n := fmt.Sprintf("d%d", s.n)
		sort := "Bool"
		if t.w > 0 {
			sort = fmt.Sprintf("(_ BitVec %d)", t.w)
		}
		fmt.Fprintf(&s.b, "(define-fun %s () %s %s)\n", n, sort, e)
		s.defs[t] = n
		return n
	}
	return e
}

func (t *Term) String() string {
	s := &smtWriter{refs: map[*Term]int{}, defs: map[*Term]string{}}
	return s.expr(t)
}

func sortTerms(ts []*Term) {
	sort.Slice(ts, func(i, j int) bool {
		if ts[i].h[0] != ts[j].h[0] {
			return ts[i].h[0] < ts[j].h[0]
		}
		return ts[i].h[1] < ts[j].h[1]
	})
}

// pow2 recognises positive (signed) powers of two.
func pow2(b *Term) (uint8, bool) {
	if b.op != OConst || b.val == 0 || b.val&(b.val-1) != 0 || b.val>>(b.w-1) == 1 {
		return 0, false
	}
	k := uint8(0)
	for b.val>>k != 1 {
		k++
	}
	return k, true
}

// signBias is 2^k-1 for negative a and 0 otherwise (rounding towards zero).
func (c *Ctx) signBias(a *Term, k uint8) *Term {
	return c.Lshr(c.Ashr(a, c.constant(a.w, uint64(a.w-1))), c.constant(a.w, uint64(a.w-k)))
}
