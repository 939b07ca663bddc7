package main

import (
	"crypto/sha1"
	"fmt"
	"go/types"
	"net"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var intrinsics = map[string]intrinsic{}

// packages whose functions are never interpreted (unless an intrinsic exists)
var skipPkgs = []string{"syscall", "runtime", "reflect", "internal/poll", "internal/syscall/unix", "internal/reflectlite",
	"internal/testlog", "internal/godebug", "os/signal", "net/http", "runtime/debug", "internal/abi", "unique"}

func reg(name string, f intrinsic) { intrinsics[name] = f }

type shaEntry struct {
	msg []*Term
	out []*Term
}

// sha1Term models SHA-1: the real function on concrete data, an injective unknown function otherwise.
func (p *Path) sha1Term(msg []Value) []*Term {
	c := p.w.ctx
	m := make([]*Term, len(msg))
	conc := true
	for i, v := range msg {
		m[i] = v.(*Term)
		if m[i].op != OConst {
			conc = false
		}
	}
	for _, e := range p.sha {
		if len(e.msg) == len(m) {
			same := true
			for i := range m {
				if m[i] != e.msg[i] {
					same = false
					break
				}
			}
			if same {
				return e.out
			}
		}
	}
	out := make([]*Term, 20)
	ev := make([]byte, len(m))
	for i, t := range m {
		ev[i] = byte(p.eval(t))
	}
	h := sha1.Sum(ev)
	if conc {
		for i := range out {
			out[i] = c.constant(8, uint64(h[i]))
		}
	} else {
		for i := range out {
			out[i] = p.freshInternal("sha1", 8)
			if !p.replaying() {
				p.model[out[i]] = uint64(h[i])
			}
		}
		if !p.replaying() {
			p.memo = map[*Term]uint64{}
		}
	}
	anySym := !conc
	for _, e := range p.sha {
		oc := true
		for _, t := range e.out {
			if t.op != OConst {
				oc = false
			}
		}
		if !anySym && oc {
			continue
		}
		eqOut := c.tTrue
		for i := range out {
			eqOut = c.And(eqOut, c.Eq(out[i], e.out[i]))
		}
		if len(e.msg) != len(m) {
			p.assume(c.Not(eqOut))
			continue
		}
		eqMsg := c.tTrue
		for i := range m {
			eqMsg = c.And(eqMsg, c.Eq(m[i], e.msg[i]))
			if eqMsg.IsFalse() {
				break
			}
		}
		p.assume(c.Eq(eqMsg, eqOut))
	}
	p.sha = append(p.sha, shaEntry{m, out})
	return out
}

const symPkg = modulePath + "/zzverif/sym."

func (p *Path) strArg(v Value) string {
	s := v.(Str)
	if s.sym != nil {
		panic(unsupported("symbolic name"))
	}
	return s.s
}

func init() {
	reg("time.runtimeNano", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return fr.p.w.ctx.constant(64, 1)
	})
}

func init() {
	// ------------------------------------------------------------ sym
	scalar := func(w uint8) intrinsic {
		return func(fr *frame, fn *ssa.Function, a []Value) Value {
			return fr.p.fresh(fr.p.strArg(a[0]), w)
		}
	}
	reg(symPkg+"U8", scalar(8))
	reg(symPkg+"U16", scalar(16))
	reg(symPkg+"U32", scalar(32))
	reg(symPkg+"U64", scalar(64))
	reg(symPkg+"Bool", scalar(0))
	reg(symPkg+"Int", func(fr *frame, fn *ssa.Function, a []Value) Value {
		p, c := fr.p, fr.p.w.ctx
		t := p.fresh(p.strArg(a[0]), 64)
		lo, hi := a[1].(*Term), a[2].(*Term)
		if lo.op == OConst && !p.replaying() {
			if _, ok := p.model[t]; !ok {
				p.model[t] = lo.val
				p.memo = map[*Term]uint64{}
			}
		}
		p.assume(c.And(c.Sle(lo, t), c.Sle(t, hi)))
		// small non-negative ranges become narrow terms for better folding
		return t
	})
	reg(symPkg+"Choose", func(fr *frame, fn *ssa.Function, a []Value) Value {
		p, c := fr.p, fr.p.w.ctx
		t := p.fresh(p.strArg(a[0]), 16)
		n := a[1].(*Term)
		p.assume(c.Ult(t, c.Extract(n, 15, 0)))
		return c.Int(int64(p.concretise(t)))
	})
	reg(symPkg+"Bytes", func(fr *frame, fn *ssa.Function, a []Value) Value {
		p := fr.p
		n := int(p.concretise(a[1].(*Term)))
		out := make([]Value, n)
		nm := p.strArg(a[0])
		for i := range out {
			out[i] = p.fresh(nm, 8)
		}
		return Slice{out}
	})
	reg(symPkg+"Str", func(fr *frame, fn *ssa.Function, a []Value) Value {
		p := fr.p
		n := int(p.concretise(a[1].(*Term)))
		out := make([]*Term, n)
		nm := p.strArg(a[0])
		for i := range out {
			out[i] = p.fresh(nm, 8)
		}
		return mkStr(out)
	})
	reg(symPkg+"Assume", func(fr *frame, fn *ssa.Function, a []Value) Value {
		fr.p.assume(a[0].(*Term))
		return nil
	})
	reg(symPkg+"Assert", func(fr *frame, fn *ssa.Function, a []Value) Value {
		fr.p.assert(a[0].(*Term), fr.p.showStr(a[1]))
		return nil
	})
	reg(symPkg+"Fail", func(fr *frame, fn *ssa.Function, a []Value) Value {
		fr.p.assert(fr.p.w.ctx.tFalse, fr.p.showStr(a[0]))
		return nil
	})
	reg(symPkg+"Reach", func(fr *frame, fn *ssa.Function, a []Value) Value {
		fr.p.w.st.Reach[fr.p.strArg(a[0])]++
		return nil
	})
	reg(symPkg+"Observe", func(fr *frame, fn *ssa.Function, a []Value) Value {
		v := a[1].(Iface)
		if s, ok := v.v.(Slice); ok {
			if _, isB := v.t.Underlying().(*types.Slice); isB {
				fr.p.obs = append(fr.p.obs, Obs{fr.p.strArg(a[0]), fr.p.w.bytesToStr(s.a)})
				return nil
			}
		}
		t := v.v
		if tt, ok := t.(*Term); ok && tt.w > 0 && tt.w < 64 {
			if isSigned(v.t) {
				t = fr.p.w.ctx.SExt(tt, 64)
			}
		}
		fr.p.obs = append(fr.p.obs, Obs{fr.p.strArg(a[0]), t})
		return nil
	})
	reg(symPkg+"Param", func(fr *frame, fn *ssa.Function, a []Value) Value {
		if v, ok := fr.p.w.eng.params[fr.p.strArg(a[0])]; ok {
			return fr.p.w.ctx.Int(int64(v))
		}
		return a[1]
	})
	reg(symPkg+"Symbolic", func(fr *frame, fn *ssa.Function, a []Value) Value { return fr.p.w.ctx.tTrue })
	reg(symPkg+"SHA1", func(fr *frame, fn *ssa.Function, a []Value) Value {
		out := fr.p.sha1Term(a[0].(Slice).a)
		arr := make(Array, 20)
		for i := range out {
			arr[i] = out[i]
		}
		return arr
	})
	reg(symPkg+"Exit", func(fr *frame, fn *ssa.Function, a []Value) Value {
		fr.p.panicAt = fr.stack()
		fr.p.abort("violation", "process exits: "+fr.p.showStr(a[0]))
		return nil
	})
	reg(symPkg+"Stop", func(fr *frame, fn *ssa.Function, a []Value) Value {
		fr.p.abort("ok", "")
		return nil
	})
	reg(symPkg+"Explore", func(fr *frame, fn *ssa.Function, a []Value) Value {
		fr.p.explore = int(a[0].(*Term).val) + 1
		if sx(a[0].(*Term).val, 64) < 0 {
			fr.p.explore = 0
		}
		return nil
	})
	reg(symPkg+"Race", func(fr *frame, fn *ssa.Function, a []Value) Value {
		fr.p.raceOn = a[0].(*Term).IsTrue()
		return nil
	})
	reg(symPkg+"Release", func(fr *frame, fn *ssa.Function, a []Value) Value {
		p := fr.p
		s := p.mutex(p.ptr(a[0]))
		p.cur.vc.inc(p.cur.id)
		s.vc.join(p.cur.vc)
		return nil
	})
	reg(symPkg+"Acquire", func(fr *frame, fn *ssa.Function, a []Value) Value {
		p := fr.p
		p.cur.vc.join(p.mutex(p.ptr(a[0])).vc)
		return nil
	})
	reg(symPkg+"Touch", func(fr *frame, fn *ssa.Function, a []Value) Value {
		if fr.p.raceOn && len(fr.p.gs) > 1 {
			fr.p.raceRange(fr, a[0].(Slice).a, a[1].(*Term).IsTrue())
		}
		return nil
	})
	reg(symPkg+"MapOrder", func(fr *frame, fn *ssa.Function, a []Value) Value {
		fr.p.mapOrder = a[0].(*Term).IsTrue()
		return nil
	})
	reg(symPkg+"ExactFmt", func(fr *frame, fn *ssa.Function, a []Value) Value {
		fr.p.fmtConc = a[0].(*Term).IsTrue()
		return nil
	})
	reg(symPkg+"WaitIdle", func(fr *frame, fn *ssa.Function, a []Value) Value {
		fr.p.waitIdle(int(fr.p.concretise(a[0].(*Term))))
		return nil
	})
	reg(symPkg+"Goroutines", func(fr *frame, fn *ssa.Function, a []Value) Value {
		n := 0
		for _, g := range fr.p.gs {
			if !g.dead {
				n++
			}
		}
		return fr.p.w.ctx.Int(int64(n))
	})
	reg(symPkg+"SetTag", func(fr *frame, fn *ssa.Function, a []Value) Value {
		fr.p.cur.tag = int(fr.p.concretise(a[0].(*Term)))
		return nil
	})
	reg(symPkg+"Tag", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return fr.p.w.ctx.Int(int64(fr.p.cur.tag))
	})
	reg(symPkg+"Concrete", func(fr *frame, fn *ssa.Function, a []Value) Value {
		t := a[0].(*Term)
		return fr.p.w.ctx.constant(t.w, fr.p.concretise(t))
	})
	// Would reports (without forking or constraining) nothing; kept minimal on purpose.

	// ------------------------------------------------------------ sync
	reg("(*sync.Mutex).Lock", func(fr *frame, fn *ssa.Function, a []Value) Value { fr.p.lock(fr.p.ptr(a[0])); return nil })
	reg("(*sync.Mutex).Unlock", func(fr *frame, fn *ssa.Function, a []Value) Value { fr.p.unlock(fr.p.ptr(a[0])); return nil })
	try := func(fr *frame, fn *ssa.Function, a []Value) Value {
		p := fr.p
		p.schedPoint("TryLock")
		s := p.mutex(p.ptr(a[0]))
		if s.locked || s.readers > 0 {
			return p.w.ctx.tFalse
		}
		p.take(s)
		return p.w.ctx.tTrue
	}
	reg("(*sync.Mutex).TryLock", try)
	reg("(*sync.RWMutex).TryLock", try)
	reg("(*sync.RWMutex).TryRLock", func(fr *frame, fn *ssa.Function, a []Value) Value {
		p := fr.p
		p.schedPoint("TryRLock")
		s := p.mutex(p.ptr(a[0]))
		if s.locked || s.waiting > 0 {
			return p.w.ctx.tFalse
		}
		s.readers++
		p.cur.vc.join(s.vc)
		return p.w.ctx.tTrue
	})
	reg("(*sync.RWMutex).Lock", func(fr *frame, fn *ssa.Function, a []Value) Value { fr.p.lock(fr.p.ptr(a[0])); return nil })
	reg("(*sync.RWMutex).Unlock", func(fr *frame, fn *ssa.Function, a []Value) Value { fr.p.unlock(fr.p.ptr(a[0])); return nil })
	reg("(*sync.RWMutex).RLock", func(fr *frame, fn *ssa.Function, a []Value) Value { fr.p.rlock(fr.p.ptr(a[0])); return nil })
	reg("(*sync.RWMutex).RUnlock", func(fr *frame, fn *ssa.Function, a []Value) Value {
		fr.p.runlock(fr.p.ptr(a[0]))
		return nil
	})
	wg := func(p *Path, v Value) *wgState {
		k := p.ptr(v)
		s := p.wgs[k]
		if s == nil {
			s = &wgState{}
			p.wgs[k] = s
		}
		return s
	}
	wgAdd := func(p *Path, s *wgState, d int64) {
		p.cur.vc.inc(p.cur.id)
		s.vc.join(p.cur.vc)
		s.n += d
		if s.n < 0 {
			p.plainPanic("sync: negative WaitGroup counter")
		}
	}
	reg("(*sync.WaitGroup).Add", func(fr *frame, fn *ssa.Function, a []Value) Value {
		wgAdd(fr.p, wg(fr.p, a[0]), int64(fr.p.concretise(a[1].(*Term))))
		return nil
	})
	reg("(*sync.WaitGroup).Done", func(fr *frame, fn *ssa.Function, a []Value) Value {
		wgAdd(fr.p, wg(fr.p, a[0]), -1)
		fr.p.schedPoint("Done")
		return nil
	})
	reg("(*sync.WaitGroup).Wait", func(fr *frame, fn *ssa.Function, a []Value) Value {
		s := wg(fr.p, a[0])
		fr.p.schedPoint("Wait")
		if s.n > 0 {
			fr.p.block("WaitGroup.Wait", func() bool { return s.n == 0 })
		}
		fr.p.cur.vc.join(s.vc)
		return nil
	})
	reg("(*sync.WaitGroup).Go", func(fr *frame, fn *ssa.Function, a []Value) Value {
		p := fr.p
		s := wg(p, a[0])
		wgAdd(p, s, 1)
		f := a[1].(*Closure)
		p.spawn(fr, func() {
			p.callClosure(nil, f, nil)
			wgAdd(p, s, -1)
		})
		return nil
	})
	reg("(*sync.Once).Do", func(fr *frame, fn *ssa.Function, a []Value) Value {
		p := fr.p
		k := p.ptr(a[0])
		s := p.onces[k]
		if s == nil {
			s = &onceState{}
			p.onces[k] = s
		}
		p.schedPoint("Once")
		if s.running {
			p.block("Once.Do", func() bool { return !s.running })
		}
		if s.done {
			p.cur.vc.join(s.vc)
			return nil
		}
		s.running = true
		p.callClosure(fr, a[1].(*Closure), nil)
		s.running = false
		s.done = true
		p.cur.vc.inc(p.cur.id)
		s.vc.join(p.cur.vc)
		return nil
	})
	reg("(*sync.Pool).Get", func(fr *frame, fn *ssa.Function, a []Value) Value {
		st := (*fr.p.ptr(a[0])).(Struct)
		f, _ := st[len(st)-1].(*Closure)
		if f == nil {
			return Iface{}
		}
		return fr.p.callClosure(fr, f, nil)
	})
	reg("(*sync.Pool).Put", func(fr *frame, fn *ssa.Function, a []Value) Value { return nil })
	// sync.Map as an association list kept on the side
	smap := func(p *Path, v Value) *Map {
		k := p.ptr(v)
		key := fmt.Sprintf("syncmap%p", k)
		m, _ := p.side[key].(*Map)
		if m == nil {
			m = &Map{idx: map[string]*mapEnt{}}
			p.side[key] = m
			p.side[fmt.Sprintf("keep%p", k)] = k
		}
		return m
	}
	smSync := func(p *Path, v Value) {
		p.schedPoint("sync.Map")
		k := p.ptr(v)
		vc := p.atomvc[k]
		p.cur.vc.inc(p.cur.id)
		p.cur.vc.join(vc)
		vc.join(p.cur.vc)
		p.atomvc[k] = vc
	}
	reg("(*sync.Map).Load", func(fr *frame, fn *ssa.Function, a []Value) Value {
		smSync(fr.p, a[0])
		if e := fr.p.mapFind(smap(fr.p, a[0]), a[1]); e != nil {
			return Tuple{e.val, fr.p.w.ctx.tTrue}
		}
		return Tuple{Iface{}, fr.p.w.ctx.tFalse}
	})
	reg("(*sync.Map).Store", func(fr *frame, fn *ssa.Function, a []Value) Value {
		smSync(fr.p, a[0])
		fr.p.mapSet(smap(fr.p, a[0]), a[1], a[2])
		return nil
	})
	reg("(*sync.Map).LoadOrStore", func(fr *frame, fn *ssa.Function, a []Value) Value {
		smSync(fr.p, a[0])
		m := smap(fr.p, a[0])
		if e := fr.p.mapFind(m, a[1]); e != nil {
			return Tuple{e.val, fr.p.w.ctx.tTrue}
		}
		fr.p.mapSet(m, a[1], a[2])
		return Tuple{a[2], fr.p.w.ctx.tFalse}
	})
	reg("(*sync.Map).LoadAndDelete", func(fr *frame, fn *ssa.Function, a []Value) Value {
		smSync(fr.p, a[0])
		m := smap(fr.p, a[0])
		if e := fr.p.mapFind(m, a[1]); e != nil {
			v := e.val
			fr.p.mapRemove(m, e)
			return Tuple{v, fr.p.w.ctx.tTrue}
		}
		return Tuple{Iface{}, fr.p.w.ctx.tFalse}
	})
	reg("(*sync.Map).Delete", func(fr *frame, fn *ssa.Function, a []Value) Value {
		smSync(fr.p, a[0])
		fr.p.mapDelete(smap(fr.p, a[0]), a[1])
		return nil
	})
	reg("(*sync.Map).Range", func(fr *frame, fn *ssa.Function, a []Value) Value {
		smSync(fr.p, a[0])
		m := smap(fr.p, a[0])
		for _, e := range append([]*mapEnt(nil), m.ents...) {
			if e.dead {
				continue
			}
			r := fr.p.callClosure(fr, a[1].(*Closure), []Value{e.key, e.val})
			if !fr.p.branch(r.(*Term)) {
				break
			}
		}
		return nil
	})

	// ------------------------------------------------------------ sync/atomic
	atomSync := func(p *Path, k *Value) {
		p.schedPoint("atomic")
		vc := p.atomvc[k]
		p.cur.vc.inc(p.cur.id)
		p.cur.vc.join(vc)
		vc.join(p.cur.vc)
		p.atomvc[k] = vc
	}
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Bool", "Pointer"} {
		ty := ty
		cell := func(p *Path, v Value) *Value {
			q := p.ptr(v)
			if st, ok := (*q).(Struct); ok {
				return &st[len(st)-1]
			}
			return q
		}
		load := func(fr *frame, fn *ssa.Function, a []Value) Value {
			k := cell(fr.p, a[0])
			atomSync(fr.p, k)
			if ty == "Bool" {
				return fr.p.w.ctx.Not(fr.p.w.ctx.Eq((*k).(*Term), fr.p.w.ctx.constant((*k).(*Term).w, 0)))
			}
			if u, ok := (*k).(UnsafePtr); ok && ty == "Pointer" {
				if u.v == nil {
					return fr.p.w.zero(fn.Signature.Results().At(0).Type())
				}
				return u.v
			}
			return *k
		}
		conv := func(p *Path, k *Value, v Value) Value {
			if t, ok := v.(*Term); ok && t.w == 0 {
				return p.w.ctx.Ite(t, p.w.ctx.constant((*k).(*Term).w, 1), p.w.ctx.constant((*k).(*Term).w, 0))
			}
			if _, ok := (*k).(UnsafePtr); ok {
				if u, ok := v.(UnsafePtr); ok {
					return u
				}
				return UnsafePtr{v: v}
			}
			return v
		}
		store := func(fr *frame, fn *ssa.Function, a []Value) Value {
			k := cell(fr.p, a[0])
			atomSync(fr.p, k)
			*k = conv(fr.p, k, a[1])
			return nil
		}
		add := func(fr *frame, fn *ssa.Function, a []Value) Value {
			k := cell(fr.p, a[0])
			atomSync(fr.p, k)
			*k = fr.p.w.ctx.Add((*k).(*Term), a[1].(*Term))
			return *k
		}
		swap := func(fr *frame, fn *ssa.Function, a []Value) Value {
			old := load(fr, fn, a)
			k := cell(fr.p, a[0])
			*k = conv(fr.p, k, a[1])
			return old
		}
		cas := func(fr *frame, fn *ssa.Function, a []Value) Value {
			k := cell(fr.p, a[0])
			atomSync(fr.p, k)
			var cur Value = *k
			if u, ok := cur.(UnsafePtr); ok && u.v != nil {
				if _, isU := a[1].(UnsafePtr); !isU {
					cur = u.v
				}
			} else if ok {
				if pp, isP := a[1].(*Value); isP {
					if pp == nil {
						*k = conv(fr.p, k, a[2])
						return fr.p.w.ctx.tTrue
					}
					return fr.p.w.ctx.tFalse
				}
			}
			if fr.p.branch(fr.p.equals(cur, conv2(fr.p, cur, a[1]))) {
				*k = conv(fr.p, k, a[2])
				return fr.p.w.ctx.tTrue
			}
			return fr.p.w.ctx.tFalse
		}
		recv := "(*sync/atomic." + ty + ")."
		if ty == "Pointer" {
			recv = "(*sync/atomic.Pointer[T])."
		}
		reg(recv+"Load", load)
		reg(recv+"Store", store)
		reg(recv+"Add", add)
		reg(recv+"Swap", swap)
		reg(recv+"CompareAndSwap", cas)
		if ty != "Bool" {
			reg("sync/atomic.Load"+ty, load)
			reg("sync/atomic.Store"+ty, store)
			reg("sync/atomic.Add"+ty, add)
			reg("sync/atomic.Swap"+ty, swap)
			reg("sync/atomic.CompareAndSwap"+ty, cas)
		}
	}
	reg("(*sync/atomic.Value).Load", func(fr *frame, fn *ssa.Function, a []Value) Value {
		k := fr.p.ptr(a[0])
		atomSync(fr.p, k)
		return (*k).(Struct)[0]
	})
	reg("(*sync/atomic.Value).Store", func(fr *frame, fn *ssa.Function, a []Value) Value {
		k := fr.p.ptr(a[0])
		atomSync(fr.p, k)
		(*k).(Struct)[0] = a[1]
		return nil
	})

	// ------------------------------------------------------------ strings, bytes
	reg("(*strings.Builder).copyCheck", func(fr *frame, fn *ssa.Function, a []Value) Value { return nil })
	reg("(*strings.Builder).String", func(fr *frame, fn *ssa.Function, a []Value) Value {
		st := (*fr.p.ptr(a[0])).(Struct)
		return fr.p.w.bytesToStr(st[len(st)-1].(Slice).a)
	})
	reg("(*strings.Builder).grow", func(fr *frame, fn *ssa.Function, a []Value) Value { return nil })
	reg("strings.Clone", func(fr *frame, fn *ssa.Function, a []Value) Value { return a[0] })
	reg("internal/stringslite.Clone", func(fr *frame, fn *ssa.Function, a []Value) Value { return a[0] })
	reg("internal/bytealg.MakeNoZero", func(fr *frame, fn *ssa.Function, a []Value) Value {
		n := int(fr.p.concretise(a[0].(*Term)))
		s := make([]Value, n)
		fr.p.fillZero(s, types.Typ[types.Uint8])
		return Slice{s}
	})
	idxByte := func(p *Path, b []*Term, x *Term) Value {
		c := p.w.ctx
		for i, t := range b {
			if p.branch(c.Eq(t, x)) {
				return c.Int(int64(i))
			}
		}
		return c.Int(-1)
	}
	bytesOf := func(p *Path, v Value) []*Term {
		switch x := v.(type) {
		case Str:
			return p.w.strBytes(x)
		case Slice:
			out := make([]*Term, len(x.a))
			for i := range x.a {
				out[i] = x.a[i].(*Term)
			}
			return out
		}
		panic(unsupported("bytes"))
	}
	for _, n := range []string{"internal/bytealg.IndexByteString", "internal/bytealg.IndexByte", "strings.IndexByte", "bytes.IndexByte", "internal/stringslite.IndexByte"} {
		reg(n, func(fr *frame, fn *ssa.Function, a []Value) Value {
			if s, ok := a[0].(Str); ok && s.sym == nil && a[1].(*Term).op == OConst {
				return fr.p.w.ctx.Int(int64(strings.IndexByte(s.s, byte(a[1].(*Term).val))))
			}
			return idxByte(fr.p, bytesOf(fr.p, a[0]), a[1].(*Term))
		})
	}
	for _, n := range []string{"internal/bytealg.LastIndexByteString", "internal/bytealg.LastIndexByte", "strings.LastIndexByte", "bytes.LastIndexByte"} {
		reg(n, func(fr *frame, fn *ssa.Function, a []Value) Value {
			b := bytesOf(fr.p, a[0])
			c := fr.p.w.ctx
			for i := len(b) - 1; i >= 0; i-- {
				if fr.p.branch(c.Eq(b[i], a[1].(*Term))) {
					return c.Int(int64(i))
				}
			}
			return c.Int(-1)
		})
	}
	for _, n := range []string{"internal/bytealg.CountString", "internal/bytealg.Count"} {
		reg(n, func(fr *frame, fn *ssa.Function, a []Value) Value {
			c := fr.p.w.ctx
			r := c.Int(0)
			for _, t := range bytesOf(fr.p, a[0]) {
				r = c.Add(r, c.Ite(c.Eq(t, a[1].(*Term)), c.Int(1), c.Int(0)))
			}
			return r
		})
	}
	for _, n := range []string{"bytes.Equal", "internal/bytealg.Equal"} {
		reg(n, func(fr *frame, fn *ssa.Function, a []Value) Value {
			return fr.p.equals(mkStr(bytesOf(fr.p, a[0])), mkStr(bytesOf(fr.p, a[1])))
		})
	}
	for _, n := range []string{"bytes.Compare", "internal/bytealg.Compare", "strings.Compare", "internal/bytealg.CompareString"} {
		reg(n, func(fr *frame, fn *ssa.Function, a []Value) Value {
			p, c := fr.p, fr.p.w.ctx
			x, y := mkStr(bytesOf(p, a[0])), mkStr(bytesOf(p, a[1]))
			return c.Ite(p.equals(x, y), c.Int(0), c.Ite(p.strLess(x, y), c.Int(-1), c.Int(1)))
		})
	}
	index := func(fr *frame, fn *ssa.Function, a []Value) Value {
		p, c := fr.p, fr.p.w.ctx
		x, y := bytesOf(p, a[0]), bytesOf(p, a[1])
		for i := 0; i+len(y) <= len(x); i++ {
			if p.branch(p.equals(mkStr(x[i:i+len(y)]), mkStr(y))) {
				return c.Int(int64(i))
			}
		}
		return c.Int(-1)
	}
	for _, n := range []string{"strings.Index", "bytes.Index", "internal/bytealg.IndexString", "internal/bytealg.Index", "internal/stringslite.Index"} {
		reg(n, index)
	}

	// ------------------------------------------------------------ errors
	reg("errors.Is", func(fr *frame, fn *ssa.Function, a []Value) Value {
		p, c := fr.p, fr.p.w.ctx
		err, target := a[0].(Iface), a[1].(Iface)
		if err.t == nil || target.t == nil {
			return c.Bool(err.t == nil && target.t == nil)
		}
		for k := 0; k < 20; k++ {
			if types.Identical(err.t, target.t) && types.Comparable(err.t) {
				if p.branch(p.equals(err.v, target.v)) {
					return c.tTrue
				}
			}
			if m := p.findMethod(err.t, "Is"); m != nil && m.Signature.Params().Len() == 1 {
				if p.branch(p.callFunction(fr, m, nil, []Value{err.v, target}).(*Term)) {
					return c.tTrue
				}
			}
			m := p.findMethod(err.t, "Unwrap")
			if m == nil {
				return c.tFalse
			}
			if !types.IsInterface(m.Signature.Results().At(0).Type()) {
				for _, e := range p.callFunction(fr, m, nil, []Value{err.v}).(Slice).a {
					if p.branch(intrinsics["errors.Is"](fr, fn, []Value{e, target}).(*Term)) {
						return c.tTrue
					}
				}
				return c.tFalse
			}
			err = p.callFunction(fr, m, nil, []Value{err.v}).(Iface)
			if err.t == nil {
				return c.tFalse
			}
		}
		return c.tFalse
	})
	reg("errors.As", func(fr *frame, fn *ssa.Function, a []Value) Value {
		p, c := fr.p, fr.p.w.ctx
		err, target := a[0].(Iface), a[1].(Iface)
		el := target.t.Underlying().(*types.Pointer).Elem()
		for err.t != nil {
			ok := false
			if it, isI := el.Underlying().(*types.Interface); isI {
				if p.w.implements(err.t, it) {
					*p.ptr(target.v) = err
					ok = true
				}
			} else if types.Identical(err.t, el) {
				storeInto(p.ptr(target.v), err.v)
				ok = true
			}
			if ok {
				return c.tTrue
			}
			m := p.findMethod(err.t, "Unwrap")
			if m == nil {
				break
			}
			r, isI := p.callFunction(fr, m, nil, []Value{err.v}).(Iface)
			if !isI {
				panic(unsupported("errors.As over joined errors"))
			}
			err = r
		}
		return c.tFalse
	})

	// ------------------------------------------------------------ fmt
	reg("fmt.Sprintf", func(fr *frame, fn *ssa.Function, a []Value) Value { return fr.p.fmtSprintf(fr, a[0], a[1]) })
	reg("fmt.Sprint", func(fr *frame, fn *ssa.Function, a []Value) Value { return fr.p.fmtSprint(fr, a[0], false) })
	reg("fmt.Sprintln", func(fr *frame, fn *ssa.Function, a []Value) Value { return fr.p.fmtSprint(fr, a[0], true) })
	reg("fmt.Errorf", func(fr *frame, fn *ssa.Function, a []Value) Value {
		p := fr.p
		f := a[0].(Str)
		var wrapped *Iface
		if f.sym == nil && strings.Contains(f.s, "%w") {
			// find the argument of the (single) %w
			n := 0
			for i := 0; i+1 < len(f.s); i++ {
				if f.s[i] == '%' {
					j := i + 1
					for j < len(f.s) && strings.IndexByte("+-# 0123456789.", f.s[j]) >= 0 {
						j++
					}
					if j < len(f.s) && f.s[j] == 'w' {
						args := a[1].(Slice).a
						if n < len(args) {
							if e, ok := args[n].(Iface); ok && e.t != nil {
								wrapped = &e
							}
						}
					}
					if j < len(f.s) && f.s[j] != '%' {
						n++
					}
					i = j
				}
			}
			f = Str{s: strings.ReplaceAll(f.s, "%w", "%v")}
		}
		s := p.fmtSprintf(fr, f, a[1])
		if wrapped != nil {
			if t := p.w.eng.lookupType("fmt", "wrapError"); t != nil {
				v := new(Value)
				*v = Struct{s, *wrapped}
				return Iface{types.NewPointer(t), v}
			}
		}
		return p.mkError(s)
	})
	fpr := func(f func(fr *frame, a []Value) Str) intrinsic {
		return func(fr *frame, fn *ssa.Function, a []Value) Value {
			p := fr.p
			s := f(fr, a)
			w := a[0].(Iface)
			return p.callMethod(fr, w, "Write", p.w.strToSlice(s))
		}
	}
	reg("fmt.Fprintf", fpr(func(fr *frame, a []Value) Str { return fr.p.fmtSprintf(fr, a[1], a[2]) }))
	reg("fmt.Fprint", fpr(func(fr *frame, a []Value) Str { return fr.p.fmtSprint(fr, a[1], false) }))
	reg("fmt.Fprintln", fpr(func(fr *frame, a []Value) Str { return fr.p.fmtSprint(fr, a[1], true) }))
	reg("fmt.Appendf", func(fr *frame, fn *ssa.Function, a []Value) Value {
		s := fr.p.fmtSprintf(fr, a[1], a[2])
		return fr.p.appendVals(a[0].(Slice), fr.p.w.strToSlice(s).a, types.Typ[types.Uint8])
	})

	// ------------------------------------------------------------ reflect (a little)
	reg("(net.IP).String", func(fr *frame, fn *ssa.Function, a []Value) Value {
		if b, ok := concBytes(a[0].(Slice).a); ok {
			return Str{s: net.IP(b).String()}
		}
		return Str{s: symMark}
	})
	reg("net.ParseIP", func(fr *frame, fn *ssa.Function, a []Value) Value {
		ip := net.ParseIP(fr.p.mustConcStr(a[0].(Str), "address"))
		if ip == nil {
			return Slice{}
		}
		r := make([]Value, len(ip))
		for i := range ip {
			r[i] = fr.p.w.ctx.constant(8, uint64(ip[i]))
		}
		return Slice{r}
	})
	reg("reflect.TypeOf", func(fr *frame, fn *ssa.Function, a []Value) Value {
		i := a[0].(Iface)
		if i.t == nil {
			return Iface{}
		}
		t := fr.p.w.eng.lookupType("reflect", "rtype")
		return Iface{types.NewPointer(t), &RType{i.t}}
	})
	reg("(*reflect.rtype).NumField", func(fr *frame, fn *ssa.Function, a []Value) Value {
		rt := a[0].(*RType)
		st, ok := rt.t.Underlying().(*types.Struct)
		if !ok {
			fr.p.plainPanic("reflect: NumField of non-struct type " + rt.t.String())
		}
		return fr.p.w.ctx.Int(int64(st.NumFields()))
	})
	reg("(*reflect.rtype).Name", func(fr *frame, fn *ssa.Function, a []Value) Value {
		if n, ok := a[0].(*RType).t.(*types.Named); ok {
			return Str{s: n.Obj().Name()}
		}
		return Str{}
	})
	reg("(*reflect.rtype).String", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return Str{s: types.TypeString(a[0].(*RType).t, func(p *types.Package) string { return p.Name() })}
	})
	reg("reflect.DeepEqual", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return fr.p.deepEqual(a[0], a[1], 0)
	})

	// ------------------------------------------------------------ sort
	sortSlice := func(fr *frame, fn *ssa.Function, a []Value) Value {
		p := fr.p
		i := a[0].(Iface)
		s := i.v.(Slice)
		less := a[1].(*Closure)
		c := p.w.ctx
		// insertion sort through the comparison function (stable)
		for x := 1; x < len(s.a); x++ {
			for y := x; y > 0; y-- {
				r := p.callClosure(fr, less, []Value{c.Int(int64(y)), c.Int(int64(y - 1))})
				if !p.branch(r.(*Term)) {
					break
				}
				t := copyVal(s.a[y])
				u := copyVal(s.a[y-1])
				storeInto(&s.a[y], u)
				storeInto(&s.a[y-1], t)
			}
		}
		return nil
	}
	reg("sort.Slice", sortSlice)
	reg("sort.SliceStable", sortSlice)
	sortPrim := func(fr *frame, fn *ssa.Function, a []Value) Value {
		p := fr.p
		s := a[0].(Slice)
		conc := true
		for _, v := range s.a {
			switch x := v.(type) {
			case *Term:
				conc = conc && x.op == OConst
			case Str:
				conc = conc && x.sym == nil
			default:
				conc = false
			}
		}
		signed := isSigned(fn.Signature.Params().At(0).Type().Underlying().(*types.Slice).Elem())
		less := func(x, y Value) *Term {
			switch u := x.(type) {
			case *Term:
				if signed {
					return p.w.ctx.Slt(u, y.(*Term))
				}
				return p.w.ctx.Ult(u, y.(*Term))
			case Str:
				return p.strLess(u, y.(Str))
			}
			panic(unsupported("sort of this type"))
		}
		if conc {
			sort.SliceStable(s.a, func(i, j int) bool { return less(s.a[i], s.a[j]).IsTrue() })
			return nil
		}
		for x := 1; x < len(s.a); x++ {
			for y := x; y > 0 && p.branch(less(s.a[y], s.a[y-1])); y-- {
				s.a[y], s.a[y-1] = s.a[y-1], s.a[y]
			}
		}
		return nil
	}
	reg("sort.Ints", sortPrim)
	reg("sort.Strings", sortPrim)
	reg("slices.Sort", sortPrim)

	// ------------------------------------------------------------ runtime, misc
	nop := func(fr *frame, fn *ssa.Function, a []Value) Value { return nil }
	reg("runtime.Gosched", func(fr *frame, fn *ssa.Function, a []Value) Value { fr.p.schedPoint("Gosched"); return nil })
	reg("runtime.KeepAlive", nop)
	reg("runtime.GC", nop)
	reg("runtime.SetFinalizer", nop)
	reg("internal/godebug.New", func(fr *frame, fn *ssa.Function, a []Value) Value {
		v := new(Value)
		*v = fr.p.w.zero(fn.Signature.Results().At(0).Type().(*types.Pointer).Elem())
		return v
	})
	reg("(*internal/godebug.Setting).Value", func(fr *frame, fn *ssa.Function, a []Value) Value { return Str{} })
	reg("(*internal/godebug.Setting).IncNonDefault", nop)
	reg("runtime.NumGoroutine", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return intrinsics[symPkg+"Goroutines"](fr, fn, a)
	})
	reg("(runtime.errorString).Error", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return fr.p.strCat(Str{s: "runtime error: "}, a[0].(Str))
	})
	reg("math.Float64bits", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return fr.p.w.ctx.constant(64, f64bits(fr.p.concFloat(a[0].(Float)).f))
	})
	for _, n := range []string{"Floor", "Ceil", "Sqrt", "Abs", "Trunc", "Round"} {
		n := n
		reg("math."+n, func(fr *frame, fn *ssa.Function, a []Value) Value {
			f := fr.p.concFloat(a[0].(Float))
			f.f = mathFns[n](f.f)
			return f
		})
	}
	for _, n := range []string{"internal/race.Acquire", "internal/race.Release", "internal/race.ReleaseMerge", "internal/race.Enable", "internal/race.Disable",
		"internal/race.Read", "internal/race.Write", "internal/race.ReadRange", "internal/race.WriteRange"} {
		reg(n, nop)
	}
}

func conv2(p *Path, cur Value, v Value) Value {
	if t, ok := v.(*Term); ok && t.w == 0 {
		if ct, ok := cur.(*Term); ok && ct.w > 0 {
			return p.w.ctx.Ite(t, p.w.ctx.constant(ct.w, 1), p.w.ctx.constant(ct.w, 0))
		}
	}
	return v
}

func (p *Path) showStr(v Value) string {
	s, ok := v.(Str)
	if !ok {
		return fmt.Sprintf("%T", v)
	}
	if s.sym == nil {
		return s.s
	}
	out := make([]byte, len(s.sym))
	for i, t := range s.sym {
		out[i] = byte(p.eval(t))
	}
	return fmt.Sprintf("%q", out)
}

// deepEqual models reflect.DeepEqual.
func (p *Path) deepEqual(a, b Value, depth int) *Term {
	c := p.w.ctx
	if depth > 50 {
		panic(unsupported("DeepEqual depth"))
	}
	switch x := a.(type) {
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return c.tFalse
		}
		if x.t == nil || y.t == nil {
			return c.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return c.tFalse
		}
		return p.deepEqual(x.v, y.v, depth+1)
	case *Value:
		y, ok := b.(*Value)
		if !ok {
			return c.tFalse
		}
		if x == y {
			return c.tTrue
		}
		if x == nil || y == nil {
			return c.tFalse
		}
		return p.deepEqual(*x, *y, depth+1)
	case Slice:
		y := b.(Slice)
		if (x.a == nil) != (y.a == nil) || len(x.a) != len(y.a) {
			return c.tFalse
		}
		r := c.tTrue
		for i := range x.a {
			r = c.And(r, p.deepEqual(x.a[i], y.a[i], depth+1))
		}
		return r
	case Struct:
		y := b.(Struct)
		r := c.tTrue
		for i := range x {
			r = c.And(r, p.deepEqual(x[i], y[i], depth+1))
		}
		return r
	case Array:
		y := b.(Array)
		r := c.tTrue
		for i := range x {
			r = c.And(r, p.deepEqual(x[i], y[i], depth+1))
		}
		return r
	case *Map:
		y := b.(*Map)
		if x == nil || y == nil {
			return c.Bool(x == y)
		}
		if x.n != y.n {
			return c.tFalse
		}
		r := c.tTrue
		for _, e := range x.ents {
			if e.dead {
				continue
			}
			f := p.mapFind(y, e.key)
			if f == nil {
				return c.tFalse
			}
			r = c.And(r, p.deepEqual(e.val, f.val, depth+1))
		}
		return r
	case *Closure:
		return c.Bool(x == nil && b.(*Closure) == nil)
	}
	return p.equals(a, b)
}
