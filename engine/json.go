package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A model of encoding/json: values are turned into a tree whose leaves may be symbolic. A fully
// concrete tree is serialised to its real bytes; otherwise the output is a fresh opaque byte string
// ("blob") that parses back to exactly that tree, and of which no proper prefix parses.

type jnode struct {
	kind byte // o a s n b z
	str  Str
	num  *Term
	sgn  bool
	lit  string // number literal if concrete
	keys []Str
	sub  []*jnode
	raw  []Value // a string that is the base64 of these symbolic bytes
}

type jsonBlob struct {
	bytes []*Term
	tree  *jnode
}

type jsonErr struct{ msg string }

func (n *jnode) concrete() bool {
	switch n.kind {
	case 's':
		return n.raw == nil && n.str.sym == nil
	case 'n', 'b':
		return n.num == nil || n.num.op == OConst
	}
	for _, k := range n.keys {
		if k.sym != nil {
			return false
		}
	}
	for _, s := range n.sub {
		if !s.concrete() {
			return false
		}
	}
	return true
}

func (n *jnode) write(b *bytes.Buffer) {
	switch n.kind {
	case 'z':
		b.WriteString("null")
	case 's':
		x, _ := json.Marshal(n.str.s)
		b.Write(x)
	case 'b':
		if n.num.val == 1 {
			b.WriteString("true")
		} else {
			b.WriteString("false")
		}
	case 'n':
		if n.num == nil {
			b.WriteString(n.lit)
		} else if n.sgn {
			b.WriteString(strconv.FormatInt(sx(n.num.val, n.num.w), 10))
		} else {
			b.WriteString(strconv.FormatUint(n.num.val, 10))
		}
	case 'a':
		b.WriteByte('[')
		for i, s := range n.sub {
			if i > 0 {
				b.WriteByte(',')
			}
			s.write(b)
		}
		b.WriteByte(']')
	case 'o':
		b.WriteByte('{')
		for i, s := range n.sub {
			if i > 0 {
				b.WriteByte(',')
			}
			x, _ := json.Marshal(n.keys[i].s)
			b.Write(x)
			b.WriteByte(':')
			s.write(b)
		}
		b.WriteByte('}')
	}
}

type jfield struct {
	name      string
	idx       int
	omitempty bool
	quoted    bool
}

func jfields(st *types.Struct) []jfield {
	var out []jfield
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		tag := reflect.StructTag(st.Tag(i)).Get("json")
		if tag == "-" {
			continue
		}
		if f.Embedded() {
			panic(unsupported("json: embedded field"))
		}
		if !f.Exported() {
			continue
		}
		parts := strings.Split(tag, ",")
		jf := jfield{name: f.Name(), idx: i}
		if parts[0] != "" {
			jf.name = parts[0]
		}
		for _, o := range parts[1:] {
			if o == "omitempty" {
				jf.omitempty = true
			}
			if o == "string" {
				panic(unsupported("json: string option"))
			}
		}
		out = append(out, jf)
	}
	return out
}

func (p *Path) jencode(fr *frame, v Value, t types.Type, addressable *Value) (*jnode, *Iface) {
	if i, ok := v.(Iface); ok && types.IsInterface(t) {
		if i.t == nil {
			return &jnode{kind: 'z'}, nil
		}
		return p.jencode(fr, i.v, i.t, nil)
	}
	if ptr, ok := v.(*Value); ok && ptr == nil {
		return &jnode{kind: 'z'}, nil
	}
	mt := t
	mv := v
	fn := p.findMethod(mt, "MarshalJSON")
	if fn == nil && addressable != nil {
		mt, mv = types.NewPointer(t), addressable
		fn = p.findMethod(mt, "MarshalJSON")
	}
	if fn != nil && fn.Signature.Results().Len() == 2 {
		r := p.callFunction(fr, fn, nil, []Value{mv}).(Tuple)
		if e := r[1].(Iface); e.t != nil {
			return nil, &e
		}
		n, err := p.jparse(r[0].(Slice).a)
		if err != nil {
			e := p.mkError(Str{s: err.msg})
			return nil, &e
		}
		return n, nil
	}
	mt, mv = t, v
	fn = p.findMethod(mt, "MarshalText")
	if fn == nil && addressable != nil {
		mt, mv = types.NewPointer(t), addressable
		fn = p.findMethod(mt, "MarshalText")
	}
	if fn != nil && fn.Signature.Results().Len() == 2 {
		r := p.callFunction(fr, fn, nil, []Value{mv}).(Tuple)
		if e := r[1].(Iface); e.t != nil {
			return nil, &e
		}
		return &jnode{kind: 's', str: p.w.bytesToStr(r[0].(Slice).a)}, nil
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		ptr := v.(*Value)
		return p.jencode(fr, *ptr, u.Elem(), ptr)
	case *types.Basic:
		switch x := v.(type) {
		case *Term:
			if x.w == 0 {
				return &jnode{kind: 'b', num: x}, nil
			}
			return &jnode{kind: 'n', num: x, sgn: isSigned(t)}, nil
		case Str:
			return &jnode{kind: 's', str: x}, nil
		case Float:
			x = p.concFloat(x)
			b, _ := json.Marshal(x.f)
			return &jnode{kind: 'n', lit: string(b)}, nil
		}
	case *types.Struct:
		n := &jnode{kind: 'o'}
		s := v.(Struct)
		for _, f := range jfields(u) {
			if f.omitempty && p.jempty(s[f.idx]) {
				continue
			}
			var addr *Value
			if addressable != nil {
				addr = &s[f.idx]
			}
			sub, e := p.jencode(fr, s[f.idx], u.Field(f.idx).Type(), addr)
			if e != nil {
				return nil, e
			}
			n.keys = append(n.keys, Str{s: f.name})
			n.sub = append(n.sub, sub)
		}
		return n, nil
	case *types.Slice:
		s := v.(Slice)
		if s.a == nil {
			return &jnode{kind: 'z'}, nil
		}
		if bw, ok := intWidth(u.Elem()); ok && bw == 8 && !isSigned(u.Elem()) {
			bs, ok := concBytes(s.a)
			if !ok {
				return &jnode{kind: 's', raw: append([]Value(nil), s.a...)}, nil
			}
			return &jnode{kind: 's', str: Str{s: base64.StdEncoding.EncodeToString(bs)}}, nil
		}
		n := &jnode{kind: 'a'}
		for i := range s.a {
			sub, e := p.jencode(fr, s.a[i], u.Elem(), &s.a[i])
			if e != nil {
				return nil, e
			}
			n.sub = append(n.sub, sub)
		}
		return n, nil
	case *types.Array:
		n := &jnode{kind: 'a'}
		for _, x := range v.(Array) {
			sub, e := p.jencode(fr, x, u.Elem(), nil)
			if e != nil {
				return nil, e
			}
			n.sub = append(n.sub, sub)
		}
		return n, nil
	case *types.Map:
		m := v.(*Map)
		if m == nil {
			return &jnode{kind: 'z'}, nil
		}
		type kv struct {
			k string
			v *jnode
			s Str
		}
		var kvs []kv
		sym := false
		for _, e := range m.ents {
			ks, ok := e.key.(Str)
			if !ok {
				panic(unsupported("json: map key kind"))
			}
			sub, er := p.jencode(fr, e.val, u.Elem(), nil)
			if er != nil {
				return nil, er
			}
			if ks.sym != nil {
				sym = true
			}
			kvs = append(kvs, kv{ks.s, sub, ks})
		}
		if !sym {
			sort.Slice(kvs, func(i, j int) bool { return kvs[i].k < kvs[j].k })
		}
		n := &jnode{kind: 'o'}
		for _, x := range kvs {
			n.keys = append(n.keys, x.s)
			n.sub = append(n.sub, x.v)
		}
		return n, nil
	}
	panic(unsupported("json: encoding " + t.String()))
}

// jempty reports whether omitempty leaves v out.
func (p *Path) jempty(v Value) bool {
	switch x := v.(type) {
	case *Term:
		if x.w == 0 {
			return !p.branch(x)
		}
		return p.branch(p.w.ctx.Eq(x, p.w.ctx.constant(x.w, 0)))
	case Str:
		return x.sym == nil && x.s == ""
	case Slice:
		return len(x.a) == 0
	case Array:
		return len(x) == 0
	case *Map:
		return x == nil || len(x.ents) == 0
	case *Value:
		return x == nil
	case Iface:
		return x.t == nil
	case Float:
		return p.concFloat(x).f == 0
	}
	return false
}

func (p *Path) jbytes(n *jnode) Slice {
	if n.concrete() {
		var b bytes.Buffer
		n.write(&b)
		return p.w.goBytes(b.Bytes())
	}
	if bl := p.findBlobTree(n); bl != nil {
		return termsToSlice(bl.bytes)
	}
	const ln = 24
	bl := &jsonBlob{tree: n}
	for i := 0; i < ln; i++ {
		bl.bytes = append(bl.bytes, p.freshInternal("json", 8))
	}
	p.blobs = append(p.blobs, bl)
	return termsToSlice(bl.bytes)
}

func (p *Path) findBlobTree(n *jnode) *jsonBlob {
	for _, b := range p.blobs {
		if b.tree == n {
			return b
		}
	}
	return nil
}

func termsToSlice(ts []*Term) Slice {
	a := make([]Value, len(ts))
	for i, t := range ts {
		a[i] = t
	}
	return Slice{a}
}

func (p *Path) jparse(a []Value) (*jnode, *jsonErr) {
	if bs, ok := concBytes(a); ok {
		return parseJSON(p.w.ctx, bs)
	}
	for _, b := range p.blobs {
		n := 0
		for n < len(a) && n < len(b.bytes) && a[n].(*Term) == b.bytes[n] {
			n++
		}
		if n == len(a) && n == len(b.bytes) {
			return b.tree, nil
		}
		if n == len(a) {
			return nil, &jsonErr{"unexpected end of JSON input"}
		}
		if n == len(b.bytes) {
			if bs, ok := concBytes(a[n:]); ok {
				if len(bytes.TrimSpace(bs)) == 0 {
					return b.tree, nil
				}
				return nil, &jsonErr{"invalid character after top-level value"}
			}
		}
	}
	panic(unsupported("json: parsing symbolic text"))
}

func parseJSON(c *Ctx, bs []byte) (*jnode, *jsonErr) {
	var probe interface{}
	if err := json.Unmarshal(bs, &probe); err != nil {
		return nil, &jsonErr{err.Error()}
	}
	d := json.NewDecoder(bytes.NewReader(bs))
	d.UseNumber()
	var rd func() (*jnode, error)
	rd = func() (*jnode, error) {
		tok, err := d.Token()
		if err != nil {
			return nil, err
		}
		switch x := tok.(type) {
		case json.Delim:
			if x == '{' {
				n := &jnode{kind: 'o'}
				for d.More() {
					k, err := d.Token()
					if err != nil {
						return nil, err
					}
					s, err := rd()
					if err != nil {
						return nil, err
					}
					n.keys = append(n.keys, Str{s: k.(string)})
					n.sub = append(n.sub, s)
				}
				d.Token()
				return n, nil
			}
			n := &jnode{kind: 'a'}
			for d.More() {
				s, err := rd()
				if err != nil {
					return nil, err
				}
				n.sub = append(n.sub, s)
			}
			d.Token()
			return n, nil
		case string:
			return &jnode{kind: 's', str: Str{s: x}}, nil
		case json.Number:
			return &jnode{kind: 'n', lit: string(x)}, nil
		case bool:
			return &jnode{kind: 'b', num: c.Bool(x)}, nil
		}
		return &jnode{kind: 'z'}, nil
	}
	n, err := rd()
	if err != nil {
		return nil, &jsonErr{err.Error()}
	}
	return n, nil
}

// jassign stores n into the cell dst of type t.
func (p *Path) jassign(fr *frame, n *jnode, t types.Type, dst *Value) *Iface {
	mkerr := func(f string, a ...interface{}) *Iface {
		e := p.mkError(Str{s: fmt.Sprintf(f, a...)})
		return &e
	}
	c := p.w.ctx
	if fn := p.findMethod(types.NewPointer(t), "UnmarshalJSON"); fn != nil {
		if n.kind == 'z' {
			if _, ok := t.Underlying().(*types.Pointer); ok {
				*dst = (*Value)(nil)
				return nil
			}
		}
		r := p.callFunction(fr, fn, nil, []Value{dst, p.jbytes(n)})
		if e := r.(Iface); e.t != nil {
			return &e
		}
		return nil
	}
	if n.kind == 's' && n.raw == nil {
		if fn := p.findMethod(types.NewPointer(t), "UnmarshalText"); fn != nil {
			r := p.callFunction(fr, fn, nil, []Value{dst, p.w.strToSlice(n.str)})
			if e := r.(Iface); e.t != nil {
				return &e
			}
			return nil
		}
	}
	bad := func() *Iface {
		kind := map[byte]string{'o': "object", 'a': "array", 's': "string", 'n': "number", 'b': "bool"}[n.kind]
		return mkerr("json: cannot unmarshal %s into Go value of type %s", kind, t)
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if n.kind == 'z' {
			*dst = (*Value)(nil)
			return nil
		}
		ptr, _ := (*dst).(*Value)
		if ptr == nil {
			ptr = new(Value)
			*ptr = p.w.zero(u.Elem())
			*dst = ptr
		}
		return p.jassign(fr, n, u.Elem(), ptr)
	case *types.Basic:
		if n.kind == 'z' {
			return nil
		}
		switch {
		case u.Info()&types.IsString != 0:
			if n.kind != 's' {
				return bad()
			}
			if n.raw != nil {
				panic(unsupported("json: base64 text of symbolic bytes"))
			}
			*dst = n.str
			return nil
		case u.Info()&types.IsBoolean != 0:
			if n.kind != 'b' {
				return bad()
			}
			*dst = n.num
			return nil
		case u.Info()&types.IsInteger != 0:
			if n.kind != 'n' {
				return bad()
			}
			w, _ := intWidth(u)
			if n.num != nil {
				if n.num.w != w || n.sgn != isSigned(t) {
					if n.num.op != OConst {
						panic(unsupported("json: symbolic number into another width"))
					}
				} else {
					*dst = n.num
					return nil
				}
			}
			lit := n.lit
			if n.num != nil {
				var b bytes.Buffer
				n.write(&b)
				lit = b.String()
			}
			if isSigned(t) {
				v, err := strconv.ParseInt(lit, 10, int(w))
				if err != nil {
					return mkerr("json: cannot unmarshal number %s into Go value of type %s", lit, t)
				}
				*dst = c.constant(w, uint64(v))
				return nil
			}
			v, err := strconv.ParseUint(lit, 10, int(w))
			if err != nil {
				return mkerr("json: cannot unmarshal number %s into Go value of type %s", lit, t)
			}
			*dst = c.constant(w, v)
			return nil
		case u.Info()&types.IsFloat != 0:
			if n.kind != 'n' || n.num != nil {
				return bad()
			}
			f, _ := strconv.ParseFloat(n.lit, 64)
			*dst = Float{f: f, w: 64}
			return nil
		}
	case *types.Struct:
		if n.kind == 'z' {
			return nil
		}
		if n.kind != 'o' {
			return bad()
		}
		fs := jfields(u)
		s := (*dst).(Struct)
		var first *Iface
		for i, k := range n.keys {
			if k.sym != nil {
				panic(unsupported("json: symbolic key"))
			}
			fi := -1
			for _, f := range fs {
				if f.name == k.s {
					fi = f.idx
				}
			}
			if fi < 0 {
				for _, f := range fs {
					if strings.EqualFold(f.name, k.s) {
						fi = f.idx
						break
					}
				}
			}
			if fi < 0 {
				continue
			}
			if e := p.jassign(fr, n.sub[i], u.Field(fi).Type(), &s[fi]); e != nil && first == nil {
				first = e
			}
		}
		return first
	case *types.Slice:
		if n.kind == 'z' {
			*dst = Slice{}
			return nil
		}
		if bw, ok := intWidth(u.Elem()); ok && bw == 8 && n.kind == 's' {
			if n.raw != nil {
				*dst = Slice{append([]Value(nil), n.raw...)}
				return nil
			}
			if n.str.sym != nil {
				panic(unsupported("json: symbolic base64"))
			}
			b, err := base64.StdEncoding.DecodeString(n.str.s)
			if err != nil {
				return mkerr("%v", err)
			}
			*dst = p.w.goBytes(b)
			return nil
		}
		if n.kind != 'a' {
			return bad()
		}
		a := make([]Value, len(n.sub))
		p.fillZero(a, u.Elem())
		*dst = Slice{a}
		for i := range n.sub {
			if e := p.jassign(fr, n.sub[i], u.Elem(), &a[i]); e != nil {
				return e
			}
		}
		return nil
	case *types.Array:
		if n.kind == 'z' {
			return nil
		}
		if n.kind != 'a' {
			return bad()
		}
		a := (*dst).(Array)
		for i := range a {
			if i < len(n.sub) {
				if e := p.jassign(fr, n.sub[i], u.Elem(), &a[i]); e != nil {
					return e
				}
			} else {
				a[i] = p.w.zero(u.Elem())
			}
		}
		return nil
	case *types.Map:
		if n.kind == 'z' {
			*dst = (*Map)(nil)
			return nil
		}
		if n.kind != 'o' {
			return bad()
		}
		m, _ := (*dst).(*Map)
		if m == nil {
			m = &Map{idx: map[string]*mapEnt{}}
			*dst = m
		}
		for i, k := range n.keys {
			cell := new(Value)
			*cell = p.w.zero(u.Elem())
			if e := p.jassign(fr, n.sub[i], u.Elem(), cell); e != nil {
				return e
			}
			p.mapSet(m, k, *cell)
		}
		return nil
	case *types.Interface:
		switch n.kind {
		case 'z':
			*dst = Iface{}
			return nil
		case 's':
			*dst = Iface{types.Typ[types.String], n.str}
			return nil
		}
	}
	panic(unsupported("json: decoding into " + t.String()))
}

func (p *Path) jsonMarshal(fr *frame, v Iface) Value {
	if v.t == nil {
		return Tuple{p.w.goBytes([]byte("null")), Iface{}}
	}
	n, e := p.jencode(fr, v.v, v.t, nil)
	if e != nil {
		return Tuple{Slice{}, *e}
	}
	return Tuple{p.jbytes(n), Iface{}}
}

func (p *Path) jsonUnmarshal(fr *frame, data Slice, v Iface) Value {
	n, err := p.jparse(data.a)
	if err != nil {
		return p.mkError(Str{s: err.msg})
	}
	ptr, ok := v.v.(*Value)
	if !ok || ptr == nil {
		return p.mkError(Str{s: "json: Unmarshal(non-pointer)"})
	}
	if e := p.jassign(fr, n, v.t.Underlying().(*types.Pointer).Elem(), ptr); e != nil {
		return *e
	}
	return Iface{}
}

func init() {
	reg("encoding/json.Marshal", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return fr.p.jsonMarshal(fr, a[0].(Iface))
	})
	reg("encoding/json.MarshalIndent", func(fr *frame, fn *ssa.Function, a []Value) Value {
		r := fr.p.jsonMarshal(fr, a[0].(Iface)).(Tuple)
		if r[1].(Iface).t != nil {
			return r
		}
		if bs, ok := concBytes(r[0].(Slice).a); ok {
			var b bytes.Buffer
			json.Indent(&b, bs, a[1].(Str).s, a[2].(Str).s)
			r[0] = fr.p.w.goBytes(b.Bytes())
		}
		return r
	})
	reg("encoding/json.Unmarshal", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return fr.p.jsonUnmarshal(fr, a[0].(Slice), a[1].(Iface))
	})
	reg("encoding/json.Valid", func(fr *frame, fn *ssa.Function, a []Value) Value {
		_, err := fr.p.jparse(a[0].(Slice).a)
		return fr.p.w.ctx.Bool(err == nil)
	})
	reg("(*encoding/json.Encoder).Encode", func(fr *frame, fn *ssa.Function, a []Value) Value {
		p := fr.p
		r := p.jsonMarshal(fr, a[1].(Iface)).(Tuple)
		if e := r[1].(Iface); e.t != nil {
			return e
		}
		st := (*p.ptr(a[0])).(Struct)
		w := st[0].(Iface)
		data := append(append([]Value(nil), r[0].(Slice).a...), p.w.ctx.constant(8, '\n'))
		res := p.callMethod(fr, w, "Write", Slice{data}).(Tuple)
		return res[1]
	})
	reg("(*encoding/json.Decoder).Decode", func(fr *frame, fn *ssa.Function, a []Value) Value {
		p := fr.p
		st := (*p.ptr(a[0])).(Struct)
		rd := st[0].(Iface)
		var data []Value
		for {
			buf := make([]Value, 512)
			p.fillZero(buf, types.Typ[types.Uint8])
			res := p.callMethod(fr, rd, "Read", Slice{buf}).(Tuple)
			k := int(p.concretise(res[0].(*Term)))
			data = append(data, buf[:k]...)
			if res[1].(Iface).t != nil {
				break
			}
		}
		return p.jsonUnmarshal(fr, Slice{data}, a[1].(Iface))
	})
}

func (p *Path) callMethod(fr *frame, recv Iface, name string, args ...Value) Value {
	if recv.t == nil {
		p.nilPanic()
	}
	fn := p.findMethod(recv.t, name)
	if fn == nil {
		panic(unsupported("no method " + name))
	}
	return p.callFunction(fr, fn, nil, append([]Value{recv.v}, args...))
}
