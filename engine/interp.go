package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

var runDeadline = time.Now().Add(24 * time.Hour)
var debugOn = os.Getenv("SYMDEBUG") != ""

type targetPanic struct{ v Iface }

type fnCache struct{}

type hitSet struct {
	mu sync.Mutex
	m  map[*ssa.Function]int
}

func (h *hitSet) addAll(m map[*ssa.Function]bool) {
	h.mu.Lock()
	for f := range m {
		h.m[f]++
	}
	h.mu.Unlock()
}

type ref struct {
	k uint8 // 0 register, 1 value, 2 global
	i int
	v Value
	g *ssa.Global
}

type cinstr struct {
	in  ssa.Instruction
	dst int
	ops []ref
	x   interface{} // per-instruction precomputed data
}

type cblock struct {
	phis   []cinstr
	ins    []cinstr
	diam   *diamond
	preds  []*ssa.BasicBlock
	b      *ssa.BasicBlock
	pureUp bool // all instructions but the last are pure scalar ones
}

type diamond struct {
	t, f int // arm block index or -1
	join int
	// kind 0: diamond/triangle ; kind 1: and ; kind 2: or
	kind int
	mid  int
}

type intrinsic func(fr *frame, fn *ssa.Function, args []Value) Value

type fnInfo struct {
	fn     *ssa.Function
	nslots int
	params []int
	free   []int
	blocks []*cblock
	intr   intrinsic
	skip   bool
	repo   bool
	std    bool
	hasDef bool
	slots  map[ssa.Value]int
}

type deferred struct {
	fn   *Closure
	args []Value
	in   *ssa.Defer
}

type frame struct {
	p         *Path
	caller    *frame
	fn        *ssa.Function
	info      *fnInfo
	regs      []Value
	defers    []deferred
	panicking bool
	panicVal  Iface
	result    Value
	block     int
	prev      int
	cur       ssa.Instruction
	tolerant  bool
}

func (fr *frame) where() string {
	for f := fr; f != nil; f = f.caller {
		if f.cur != nil && f.cur.Pos().IsValid() {
			pos := f.fn.Prog.Fset.Position(f.cur.Pos())
			return fmt.Sprintf("%s:%d (%s)", shortPath(pos.Filename), pos.Line, f.fn.Name())
		}
		if f.cur != nil && f.fn.Pos().IsValid() && f.info.repo {
			pos := f.fn.Prog.Fset.Position(f.fn.Pos())
			return fmt.Sprintf("%s:%d+ (%s)", shortPath(pos.Filename), pos.Line, f.fn.Name())
		}
	}
	return "?"
}

func shortPath(s string) string {
	s = strings.TrimPrefix(s, repoDir+"/")
	if i := strings.Index(s, "/src/"); i >= 0 && strings.Contains(s, "go") && strings.HasPrefix(s, "/") {
		return "$GOROOT" + s[i+4:]
	}
	return s
}

func (fr *frame) stack() []string {
	var out []string
	for f := fr; f != nil && len(out) < 30; f = f.caller {
		out = append(out, f.where())
	}
	return out
}

// ---------------------------------------------------------------- compilation

func (w *Worker) info(fn *ssa.Function) *fnInfo {
	if fi, ok := w.fns[fn]; ok {
		return fi
	}
	fi := w.compile(fn)
	w.fns[fn] = fi
	return fi
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (w *Worker) compile(fn *ssa.Function) *fnInfo { return w.compileAs(fn, false) }

func (w *Worker) compileAs(fn *ssa.Function, initializer bool) *fnInfo {
	fi := &fnInfo{fn: fn}
	name := fnName(fn)
	if in, ok := intrinsics[name]; ok {
		fi.intr = in
	}
	pk := fn.Pkg
	if pk == nil && fn.Origin() != nil {
		pk = fn.Origin().Pkg
	}
	if pk == nil && fn.Parent() != nil {
		pk = fn.Parent().Pkg
	}
	if pk != nil {
		path := pk.Pkg.Path()
		fi.std = !w.eng.user[pk]
		fi.repo = w.eng.user[pk] && !strings.Contains(path, "/zzverif/")
		if fi.intr == nil {
			for _, pre := range skipPkgs {
				if path == pre {
					nm := name
					fi.intr = func(fr *frame, fn *ssa.Function, args []Value) Value {
						panic(unsupported("call of " + nm))
					}
				}
			}
		}
	}
	if fn.Synthetic == "package initializer" && fi.std && !initializer {
		fi.skip = true
		return fi
	}
	if fi.intr != nil || fn.Blocks == nil {
		return fi
	}
	fi.slots = map[ssa.Value]int{}
	slot := func(v ssa.Value) int {
		if s, ok := fi.slots[v]; ok {
			return s
		}
		s := fi.nslots
		fi.nslots++
		fi.slots[v] = s
		return s
	}
	for _, p := range fn.Params {
		fi.params = append(fi.params, slot(p))
	}
	for _, p := range fn.FreeVars {
		fi.free = append(fi.free, slot(p))
	}
	mkref := func(v ssa.Value) ref {
		switch x := v.(type) {
		case nil:
			return ref{k: 1}
		case *ssa.Const:
			return ref{k: 1, v: w.constVal(x)}
		case *ssa.Function:
			return ref{k: 1, v: w.closureOf(x)}
		case *ssa.Builtin:
			return ref{k: 1, v: &Closure{bi: x}}
		case *ssa.Global:
			return ref{k: 2, g: x}
		}
		return ref{k: 0, i: slot(v)}
	}
	for _, b := range fn.Blocks {
		cb := &cblock{b: b, pureUp: true}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			ci := cinstr{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = slot(v)
			}
			for _, op := range in.Operands(nil) {
				if *op == nil {
					ci.ops = append(ci.ops, ref{k: 1})
				} else {
					ci.ops = append(ci.ops, mkref(*op))
				}
			}
			if _, ok := in.(*ssa.Phi); ok {
				cb.phis = append(cb.phis, ci)
				continue
			}
			if _, ok := in.(*ssa.Defer); ok {
				fi.hasDef = true
			}
			switch in.(type) {
			case *ssa.If, *ssa.Jump:
			default:
				if !pureInstr(in) {
					cb.pureUp = false
				}
			}
			cb.ins = append(cb.ins, ci)
		}
		fi.blocks = append(fi.blocks, cb)
	}
	// if-conversion patterns
	for _, cb := range fi.blocks {
		if len(cb.b.Succs) != 2 || len(cb.ins) == 0 {
			continue
		}
		if _, ok := cb.ins[len(cb.ins)-1].in.(*ssa.If); !ok {
			continue
		}
		t, f := cb.b.Succs[0], cb.b.Succs[1]
		if t == f {
			continue
		}
		arm := func(x *ssa.BasicBlock) bool {
			c := fi.blocks[x.Index]
			if len(x.Preds) != 1 || len(c.phis) > 0 || !c.pureUp || len(x.Succs) != 1 {
				return false
			}
			_, ok := c.ins[len(c.ins)-1].in.(*ssa.Jump)
			return ok
		}
		var d *diamond
		switch {
		case arm(t) && t.Succs[0] == f && f != cb.b:
			d = &diamond{t: t.Index, f: -1, join: f.Index}
		case arm(f) && f.Succs[0] == t && t != cb.b:
			d = &diamond{t: -1, f: f.Index, join: t.Index}
		case arm(t) && arm(f) && t.Succs[0] == f.Succs[0] && t.Succs[0] != cb.b:
			d = &diamond{t: t.Index, f: f.Index, join: t.Succs[0].Index}
		}
		if d != nil {
			ok := true
			for _, ph := range fi.blocks[d.join].phis {
				if _, isInt := intWidth(ph.in.(*ssa.Phi).Type()); !isInt {
					ok = false
				}
			}
			if ok {
				cb.diam = d
				continue
			}
		}
		// short circuits
		mid := func(x *ssa.BasicBlock) bool {
			c := fi.blocks[x.Index]
			if len(x.Preds) != 1 || len(c.phis) > 0 || !c.pureUp || len(x.Succs) != 2 || x == cb.b {
				return false
			}
			_, ok := c.ins[len(c.ins)-1].in.(*ssa.If)
			return ok
		}
		samePhis := func(j, a, b *ssa.BasicBlock) bool {
			ia, ib := -1, -1
			for i, p := range j.Preds {
				if p == a {
					ia = i
				}
				if p == b {
					ib = i
				}
			}
			for _, ph := range fi.blocks[j.Index].phis {
				e := ph.in.(*ssa.Phi).Edges
				if e[ia] != e[ib] {
					ca, ok1 := e[ia].(*ssa.Const)
					cc, ok2 := e[ib].(*ssa.Const)
					if ok1 && ok2 && ca.Value != nil && cc.Value != nil && ca.Value.ExactString() == cc.Value.ExactString() {
						continue
					}
					return false
				}
			}
			return true
		}
		if mid(t) && t.Succs[1] == f && t.Succs[0] != f && samePhis(f, cb.b, t) {
			cb.diam = &diamond{kind: 1, mid: t.Index}
		} else if mid(f) && f.Succs[0] == t && f.Succs[1] != t && samePhis(t, cb.b, f) {
			cb.diam = &diamond{kind: 2, mid: f.Index}
		}
	}
	return fi
}

func pureInstr(in ssa.Instruction) bool {
	isInt := func(v ssa.Value) bool { _, ok := intWidth(v.Type()); return ok }
	switch x := in.(type) {
	case *ssa.BinOp:
		if !isInt(x.X) || !isInt(x.Y) || !isInt(x) {
			return false
		}
		switch x.Op {
		case token.QUO, token.REM:
			c, ok := x.Y.(*ssa.Const)
			return ok && c.Value != nil && c.Value.ExactString() != "0"
		case token.SHL, token.SHR:
			if _, ok := x.Y.(*ssa.Const); ok {
				return true
			}
			return !isSigned(x.Y.Type())
		}
		return true
	case *ssa.UnOp:
		return (x.Op == token.NOT || x.Op == token.SUB || x.Op == token.XOR) && isInt(x.X)
	case *ssa.Convert:
		return isInt(x.X) && isInt(x)
	case *ssa.ChangeType:
		return isInt(x.X) && isInt(x)
	}
	return false
}

func (w *Worker) closureOf(fn *ssa.Function) *Closure {
	if c, ok := w.clos[fn]; ok {
		return c
	}
	c := &Closure{fn: fn}
	w.clos[fn] = c
	return c
}

// ---------------------------------------------------------------- globals

func (p *Path) globalAddr(g *ssa.Global) *Value {
	if p.w.eng.user[g.Pkg] {
		if c, ok := p.globals[g]; ok {
			return c
		}
		c := new(Value)
		*c = p.w.zero(g.Type().(*types.Pointer).Elem())
		p.globals[g] = c
		return c
	}
	return p.w.stdGlobal(g)
}

type Poison struct{ why string }

func (w *Worker) stdGlobal(g *ssa.Global) *Value {
	if c, ok := w.stdGlobals[g]; ok {
		if w.stdInit[g.Pkg] == 0 {
			w.initStd(g.Pkg)
		}
		return c
	}
	if w.stdInit[g.Pkg] == 0 && g.Name() != "init$guard" {
		w.initStd(g.Pkg)
		if c, ok := w.stdGlobals[g]; ok {
			return c
		}
	}
	c := new(Value)
	*c = w.zero(g.Type().(*types.Pointer).Elem())
	w.stdGlobals[g] = c
	return c
}

func (w *Worker) initStd(pkg *ssa.Package) {
	w.stdInit[pkg] = 1
	fn := pkg.Func("init")
	if fn == nil || fn.Blocks == nil {
		w.stdInit[pkg] = 2
		return
	}
	if w.stdPath == nil {
		w.stdPath = w.newPath(&Item{})
		w.stdPath.isStd = true
		w.stdPath.cur = w.stdPath.newG(nil)
	}
	p := w.stdPath
	p.steps = 0
	fi := w.compileInit(fn)
	if len(fi.blocks) == 0 {
		w.stdInit[pkg] = 2
		return
	}
	fr := &frame{p: p, fn: fn, info: fi, regs: make([]Value, fi.nslots), tolerant: true}
	g := p.cur
	old := g.fr
	g.fr = fr
	p.runBlocks(fr)
	g.fr = old
	w.stdInit[pkg] = 2
}

func (w *Worker) compileInit(fn *ssa.Function) *fnInfo {
	fi := w.compileAs(fn, true)
	fi.std = true
	return fi
}

// ---------------------------------------------------------------- execution

func (fr *frame) get(r *ref) Value {
	switch r.k {
	case 0:
		return fr.regs[r.i]
	case 1:
		return r.v
	}
	return fr.p.globalAddr(r.g)
}

func (p *Path) callClosure(fr *frame, c *Closure, args []Value) Value {
	if c == nil {
		p.nilPanic()
	}
	if c.nat != nil {
		return c.nat(fr, args)
	}
	return p.callFunction(fr, c.fn, c.free, args)
}

func (p *Path) callFunction(caller *frame, fn *ssa.Function, free []Value, args []Value) Value {
	fi := p.w.info(fn)
	if fi.skip {
		return nil
	}
	if fi.intr != nil {
		return fi.intr(caller, fn, args)
	}
	if fi.blocks == nil {
		panic(unsupported("function without body: " + fnName(fn)))
	}
	if fi.repo && !p.fnSeen[fn] {
		p.fnSeen[fn] = true
	}
	fr := &frame{p: p, caller: caller, fn: fn, info: fi, regs: make([]Value, fi.nslots)}
	for i, s := range fi.params {
		fr.regs[s] = args[i]
	}
	for i, s := range fi.free {
		fr.regs[s] = free[i]
	}
	g := p.cur
	old := g.fr
	g.fr = fr
	g.depth++
	if g.depth > 5000 {
		p.abort("violation", "stack overflow: recursion deeper than 5000 calls in "+fnName(fn))
	}
	p.runFrame(fr)
	g.depth--
	g.fr = old
	return fr.result
}

func (p *Path) runFrame(fr *frame) {
	if !fr.info.hasDef {
		p.runBlocks(fr)
		return
	}
	g := p.cur
	depth := g.depth
	func() {
		ok := false
		defer func() {
			if ok {
				return
			}
			r := recover()
			if r == nil {
				return
			}
			tp, is := r.(targetPanic)
			if !is {
				panic(r)
			}
			g.depth = depth
			g.fr = fr
			fr.panicking = true
			fr.panicVal = tp.v
			p.runDefers(fr)
			// recovered
			if fr.fn.Recover != nil {
				fr.block, fr.prev = fr.fn.Recover.Index, -1
				p.runFrom(fr)
			} else {
				fr.result = p.w.zeroResult(fr.fn)
			}
			ok = true
		}()
		p.runBlocks(fr)
		ok = true
	}()
}

func (w *Worker) zeroResult(fn *ssa.Function) Value {
	rs := fn.Signature.Results()
	switch rs.Len() {
	case 0:
		return nil
	case 1:
		return w.zero(rs.At(0).Type())
	}
	return w.zero(rs)
}

func (p *Path) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		p.runDefer(fr, d)
	}
	if fr.panicking {
		panic(targetPanic{fr.panicVal})
	}
}

func (p *Path) runDefer(fr *frame, d deferred) {
	ok := false
	g := p.cur
	depth := g.depth
	defer func() {
		if ok {
			return
		}
		r := recover()
		if tp, is := r.(targetPanic); is {
			// a new panic replaces the old one
			g.depth = depth
			g.fr = fr
			fr.panicking = true
			fr.panicVal = tp.v
			return
		}
		if r != nil {
			panic(r)
		}
	}()
	if d.fn != nil && d.fn.bi != nil {
		p.callBuiltin(fr, d.fn.bi, d.args, d.in.Common())
	} else {
		p.callClosure(fr, d.fn, d.args)
	}
	ok = true
}

func (p *Path) runBlocks(fr *frame) {
	fr.block, fr.prev = 0, -1
	p.runFrom(fr)
}

func (p *Path) runFrom(fr *frame) {
	skipPhis := false
	for {
		cb := fr.info.blocks[fr.block]
		if !skipPhis && len(cb.phis) > 0 {
			p.doPhis(fr, cb, fr.prev)
		}
		skipPhis = false
		n := len(cb.ins)
		for i := 0; i < n; i++ {
			ci := &cb.ins[i]
			p.steps++
			if p.steps&0xfff == 0 {
				p.checkBudget()
			}
			switch in := ci.in.(type) {
			case *ssa.Jump:
				fr.prev, fr.block = fr.block, cb.b.Succs[0].Index
			case *ssa.If:
				fr.cur = in
				var c *Term
				switch t := fr.get(&ci.ops[0]).(type) {
				case *Term:
					c = t
				case Poison:
					return
				}
				if c.op != OConst && cb.diam != nil {
					if p.ifConvert(fr, cb, c, &skipPhis) {
						break
					}
				}
				if p.branch(c) {
					fr.prev, fr.block = fr.block, cb.b.Succs[0].Index
				} else {
					fr.prev, fr.block = fr.block, cb.b.Succs[1].Index
				}
			case *ssa.Return:
				fr.cur = in
				switch len(ci.ops) {
				case 0:
				case 1:
					fr.result = fr.get(&ci.ops[0])
				default:
					t := make(Tuple, len(ci.ops))
					for k := range ci.ops {
						t[k] = fr.get(&ci.ops[k])
					}
					fr.result = t
				}
				return
			default:
				fr.cur = ci.in
				if fr.tolerant {
					p.execTolerant(fr, ci)
				} else {
					p.exec(fr, ci)
				}
			}
		}
	}
}

func (p *Path) checkBudget() {
	if p.isStd {
		return
	}
	if p.steps > p.w.eng.maxSteps {
		p.abort("budget", "step budget exhausted")
	}
	if time.Now().After(runDeadline) {
		p.abort("cut", "time limit of the check")
	}
}

func (p *Path) doPhis(fr *frame, cb *cblock, prev int) {
	e := -1
	for k, pb := range cb.b.Preds {
		if pb.Index == prev {
			e = k
			break
		}
	}
	if len(cb.phis) == 1 {
		fr.regs[cb.phis[0].dst] = fr.get(&cb.phis[0].ops[e])
		return
	}
	var tmp [8]Value
	vals := tmp[:0]
	for k := range cb.phis {
		vals = append(vals, fr.get(&cb.phis[k].ops[e]))
	}
	for k := range cb.phis {
		fr.regs[cb.phis[k].dst] = vals[k]
	}
}

// ifConvert executes a branch on a symbolic condition without forking where possible.
func (p *Path) ifConvert(fr *frame, cb *cblock, c *Term, skipPhis *bool) bool {
	d := cb.diam
	ctx := p.w.ctx
	run := func(bi int) {
		b := fr.info.blocks[bi]
		for i := 0; i < len(b.ins)-1; i++ {
			p.steps++
			p.exec(fr, &b.ins[i])
		}
	}
	switch d.kind {
	case 0:
		tp, fp := cb.b.Index, cb.b.Index
		if d.t >= 0 {
			run(d.t)
			tp = d.t
		}
		if d.f >= 0 {
			run(d.f)
			fp = d.f
		}
		j := fr.info.blocks[d.join]
		if len(j.phis) > 0 {
			et, ef := -1, -1
			for k, pb := range j.b.Preds {
				if pb.Index == tp {
					et = k
				}
				if pb.Index == fp {
					ef = k
				}
			}
			vals := make([]Value, len(j.phis))
			for k := range j.phis {
				a := fr.get(&j.phis[k].ops[et]).(*Term)
				b := fr.get(&j.phis[k].ops[ef]).(*Term)
				vals[k] = ctx.Ite(c, a, b)
			}
			for k := range j.phis {
				fr.regs[j.phis[k].dst] = vals[k]
			}
		}
		fr.prev, fr.block = tp, d.join
		*skipPhis = true
		return true
	case 1, 2:
		// chain of && or ||
		run(d.mid)
		m := fr.info.blocks[d.mid]
		c2, ok := fr.get(&m.ins[len(m.ins)-1].ops[0]).(*Term)
		if !ok {
			return false
		}
		if d.kind == 1 {
			if p.branch(ctx.And(c, c2)) {
				fr.prev, fr.block = d.mid, m.b.Succs[0].Index
			} else {
				fr.prev, fr.block = d.mid, m.b.Succs[1].Index
			}
		} else {
			if p.branch(ctx.Or(c, c2)) {
				fr.prev, fr.block = d.mid, m.b.Succs[0].Index
			} else {
				fr.prev, fr.block = d.mid, m.b.Succs[1].Index
			}
		}
		return true
	}
	return false
}

func (p *Path) execTolerant(fr *frame, ci *cinstr) {
	g := p.cur
	depth := g.depth
	defer func() {
		if r := recover(); r != nil {
			why := fmt.Sprint(r)
			switch x := r.(type) {
			case *unsupportedErr:
				why = x.msg
			case targetPanic:
				why = "panic " + p.panicString(x.v)
			case pathAbort:
				why = x.out.Msg
			}
			g.depth = depth
			g.fr = fr
			if debugOn {
				fmt.Fprintf(os.Stderr, "std init %s: %s: %v\n", fr.fn, ci.in, why)
			}
			if ci.dst >= 0 {
				fr.regs[ci.dst] = Poison{why}
			}
			if st, ok := ci.in.(*ssa.Store); ok {
				if gl, ok := st.Addr.(*ssa.Global); ok {
					*p.globalAddr(gl) = Poison{why}
				}
			}
		}
	}()
	p.exec(fr, ci)
}

// ---------------------------------------------------------------- panics

func (p *Path) rtErr(msg string) Iface {
	if p.w.rtErrT == nil {
		pk := p.w.eng.prog.ImportedPackage("runtime")
		if pk != nil && pk.Type("errorString") != nil {
			p.w.rtErrT = pk.Type("errorString").Type()
		} else {
			p.w.rtErrT = types.Typ[types.String]
		}
	}
	return Iface{p.w.rtErrT, Str{s: msg}}
}

func (p *Path) throwPanic(v Iface) {
	if p.cur != nil && p.cur.fr != nil && !p.isStd {
		p.panicAt = p.cur.fr.stack()
	}
	panic(targetPanic{v})
}

func (p *Path) runtimePanic(msg string) { p.throwPanic(p.rtErr(msg)) }

func (p *Path) plainPanic(msg string) { p.throwPanic(p.rtErr(msg)) }

func (p *Path) nilPanic() {
	p.runtimePanic("invalid memory address or nil pointer dereference")
}

func (p *Path) panicString(v Iface) string {
	if v.t == nil {
		return "nil"
	}
	if s, ok := v.v.(Str); ok {
		if s.sym != nil {
			s2, _ := p.showObs(s)
			return v.t.String() + ": " + s2
		}
		if v.t == p.w.rtErrT {
			return "runtime error: " + s.s
		}
		return s.s
	}
	if t, ok := v.v.(*Term); ok {
		return fmt.Sprintf("%s(%d)", v.t, p.eval(t))
	}
	s := ""
	func() {
		defer func() { recover() }()
		if fn := p.findMethod(v.t, "Error"); fn != nil {
			r := p.callFunction(nil, fn, nil, []Value{v.v})
			if st, ok := r.(Str); ok {
				s, _ = p.showObs(st)
			}
		}
	}()
	return v.t.String() + " " + s
}

// ---------------------------------------------------------------- instructions

func (p *Path) ptr(v Value) *Value {
	switch x := v.(type) {
	case *Value:
		if x == nil {
			p.nilPanic()
		}
		return x
	case *SymPtr:
		i := p.concretise(x.idx)
		return &x.cells[i]
	case UnsafePtr:
		if v, ok := x.v.(*Value); ok && v != nil {
			return v
		}
		if len(x.cells) > 0 {
			return &x.cells[0]
		}
	case Poison:
		panic(unsupported("uninitialised library state: " + x.why))
	}
	panic(unsupported(fmt.Sprintf("pointer of kind %T", v)))
}

func (p *Path) load(fr *frame, a Value) Value {
	switch x := a.(type) {
	case *Value:
		if x == nil {
			p.nilPanic()
		}
		if p.raceOn && fr.info.repo {
			p.raceMem(fr, x, false, "memory")
		}
		switch v := (*x).(type) {
		case Struct, Array:
			return copyVal(v)
		case Poison:
			if !fr.tolerant {
				panic(unsupported("uninitialised library state: " + v.why))
			}
		}
		return *x
	case *SymPtr:
		return p.symLoad(x.cells, x.idx)
	}
	q := p.ptr(a)
	return copyVal(*q)
}

func (p *Path) symLoad(cells []Value, idx *Term) Value {
	c := p.w.ctx
	if allConst(cells) {
		return p.tableLoad(cells, idx)
	}
	r := cells[len(cells)-1].(*Term)
	for i := len(cells) - 2; i >= 0; i-- {
		v := cells[i].(*Term)
		r = c.Ite(c.Eq(idx, c.constant(idx.w, uint64(i))), v, r)
	}
	return r
}

func (p *Path) store(fr *frame, a, v Value) {
	switch x := a.(type) {
	case *Value:
		if x == nil {
			p.nilPanic()
		}
		if p.raceOn && fr.info.repo {
			p.raceMem(fr, x, true, "memory")
		}
		storeInto(x, v)
		return
	case *SymPtr:
		c := p.w.ctx
		nv := v.(*Term)
		for i := range x.cells {
			x.cells[i] = c.Ite(c.Eq(x.idx, c.constant(x.idx.w, uint64(i))), nv, x.cells[i].(*Term))
		}
		return
	}
	storeInto(p.ptr(a), v)
}

func (p *Path) index(fr *frame, idx *Term, signed bool, n int) (int, *Term) {
	c := p.w.ctx
	if idx.op == OConst {
		v := int64(idx.val)
		if signed {
			v = sx(idx.val, idx.w)
		} else if idx.val > 1<<62 {
			v = -1
		}
		if v < 0 || v >= int64(n) {
			p.runtimePanic(fmt.Sprintf("index out of range [%d] with length %d", v, n))
		}
		return int(v), nil
	}
	i64 := idx
	if idx.w < 64 {
		if signed {
			i64 = c.SExt(idx, 64)
		} else {
			i64 = c.ZExt(idx, 64)
		}
	}
	if !p.branch(c.Ult(i64, c.constant(64, uint64(n)))) {
		p.runtimePanic(fmt.Sprintf("index out of range [symbolic] with length %d", n))
	}
	return -1, i64
}

const symIdxMax = 80

func (p *Path) exec(fr *frame, ci *cinstr) {
	c := p.w.ctx
	switch in := ci.in.(type) {
	case *ssa.Alloc:
		v := new(Value)
		*v = p.w.zero(in.Type().(*types.Pointer).Elem())
		fr.regs[ci.dst] = v
	case *ssa.BinOp:
		fr.regs[ci.dst] = p.binop(in.Op, in.X.Type(), in.Y.Type(), fr.get(&ci.ops[0]), fr.get(&ci.ops[1]))
	case *ssa.UnOp:
		x := fr.get(&ci.ops[0])
		switch in.Op {
		case token.MUL:
			fr.regs[ci.dst] = p.load(fr, x)
		case token.NOT:
			fr.regs[ci.dst] = c.Not(x.(*Term))
		case token.SUB:
			switch y := x.(type) {
			case *Term:
				fr.regs[ci.dst] = c.Neg(y)
			case Float:
				y.f = -y.f
				y.num = nil
				fr.regs[ci.dst] = y
			}
		case token.XOR:
			fr.regs[ci.dst] = c.BvNot(x.(*Term))
		case token.ARROW:
			ch := x.(*Chan)
			v, ok := p.chanRecv(ch)
			if in.CommaOk {
				fr.regs[ci.dst] = Tuple{v, c.Bool(ok)}
			} else {
				fr.regs[ci.dst] = v
			}
		default:
			panic(unsupported("unary " + in.Op.String()))
		}
	case *ssa.Call:
		fr.regs[ci.dst] = p.call(fr, ci, &in.Call)
	case *ssa.ChangeInterface:
		fr.regs[ci.dst] = fr.get(&ci.ops[0])
	case *ssa.ChangeType:
		fr.regs[ci.dst] = fr.get(&ci.ops[0])
	case *ssa.Convert:
		fr.regs[ci.dst] = p.convert(in.X.Type(), in.Type(), fr.get(&ci.ops[0]))
	case *ssa.SliceToArrayPointer:
		n := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		s := fr.get(&ci.ops[0]).(Slice)
		if int64(len(s.a)) < n {
			p.runtimePanic("cannot convert slice to array pointer: length too short")
		}
		if s.a == nil {
			fr.regs[ci.dst] = (*Value)(nil)
			break
		}
		v := new(Value)
		*v = Array(s.a[:n:n])
		fr.regs[ci.dst] = v
	case *ssa.MakeInterface:
		fr.regs[ci.dst] = Iface{in.X.Type(), fr.get(&ci.ops[0])}
	case *ssa.MakeClosure:
		cl := &Closure{fn: in.Fn.(*ssa.Function)}
		for k := range in.Bindings {
			cl.free = append(cl.free, fr.get(&ci.ops[k+1]))
		}
		fr.regs[ci.dst] = cl
	case *ssa.MakeMap:
		fr.regs[ci.dst] = &Map{idx: map[string]*mapEnt{}}
	case *ssa.MakeChan:
		sz := fr.get(&ci.ops[0]).(*Term)
		if isSigned(in.Size.Type()) {
			if p.branch(c.Slt(sz, c.constant(sz.w, 0))) {
				p.plainPanic("makechan: size out of range")
			}
		}
		n := p.concretise(sz)
		if n > 1<<40 {
			p.plainPanic("makechan: size out of range")
		}
		fr.regs[ci.dst] = &Chan{cap: int(n), elem: in.Type().Underlying().(*types.Chan).Elem()}
	case *ssa.MakeSlice:
		fr.regs[ci.dst] = p.makeSlice(in.Type().Underlying().(*types.Slice).Elem(), fr.get(&ci.ops[0]).(*Term), fr.get(&ci.ops[1]).(*Term), isSigned(in.Len.Type()), isSigned(in.Cap.Type()))
	case *ssa.Slice:
		p.doSlice(fr, ci, in)
	case *ssa.FieldAddr:
		x := p.ptr(fr.get(&ci.ops[0]))
		s, ok := (*x).(Struct)
		if !ok {
			panic(unsupported(fmt.Sprintf("field of %T", *x)))
		}
		fr.regs[ci.dst] = &s[in.Field]
	case *ssa.Field:
		s, ok := fr.get(&ci.ops[0]).(Struct)
		if !ok {
			panic(unsupported("field of non-struct value"))
		}
		fr.regs[ci.dst] = s[in.Field]
	case *ssa.IndexAddr:
		x := fr.get(&ci.ops[0])
		var cells []Value
		switch y := x.(type) {
		case Slice:
			cells = y.a
		case *Value:
			if y == nil {
				p.nilPanic()
			}
			cells = []Value((*y).(Array))
		case *SymPtr:
			q := p.ptr(y)
			cells = []Value((*q).(Array))
		case Poison:
			panic(unsupported("uninitialised library state: " + y.why))
		default:
			panic(unsupported(fmt.Sprintf("index of %T", x)))
		}
		idx := fr.get(&ci.ops[1]).(*Term)
		k, sym := p.index(fr, idx, isSigned(in.Index.Type()), len(cells))
		if sym == nil {
			fr.regs[ci.dst] = &cells[k]
			break
		}
		if _, isTerm := cells[0].(*Term); isTerm && len(cells) <= 1<<12 {
			// narrow large arrays with known upper bounds
			n := len(cells)
			if mu := sym.maxU(); mu < uint64(n) {
				n = int(mu) + 1
			}
			if n <= p.w.eng.symIdx || allConst(cells[:n]) {
				fr.regs[ci.dst] = &SymPtr{cells[:n:n], sym}
				break
			}
		}
		fr.regs[ci.dst] = &cells[p.concretise(sym)]
	case *ssa.Index:
		idx := fr.get(&ci.ops[1]).(*Term)
		switch y := fr.get(&ci.ops[0]).(type) {
		case Array:
			k, sym := p.index(fr, idx, isSigned(in.Index.Type()), len(y))
			if sym == nil {
				fr.regs[ci.dst] = y[k]
			} else if _, isT := y[0].(*Term); isT && len(y) <= 256 {
				fr.regs[ci.dst] = p.symLoad(y, sym)
			} else {
				fr.regs[ci.dst] = y[p.concretise(sym)]
			}
		case Str:
			fr.regs[ci.dst] = p.strIndex(fr, y, idx, isSigned(in.Index.Type()))
		default:
			panic(unsupported(fmt.Sprintf("index of %T", y)))
		}
	case *ssa.Lookup:
		x := fr.get(&ci.ops[0])
		if s, ok := x.(Str); ok {
			fr.regs[ci.dst] = p.strIndex(fr, s, fr.get(&ci.ops[1]).(*Term), isSigned(in.Index.Type()))
			break
		}
		m, _ := x.(*Map)
		if p.raceOn && m != nil && fr.info.repo && len(p.gs) > 1 {
			p.raceCheck(&m.race, false, fr.where, "map")
		}
		e := p.mapFind(m, fr.get(&ci.ops[1]))
		var v Value
		if e != nil {
			v = copyVal(e.val)
		} else {
			v = p.w.zero(in.X.Type().Underlying().(*types.Map).Elem())
		}
		if in.CommaOk {
			fr.regs[ci.dst] = Tuple{v, c.Bool(e != nil)}
		} else {
			fr.regs[ci.dst] = v
		}
	case *ssa.MapUpdate:
		m, _ := fr.get(&ci.ops[0]).(*Map)
		if m == nil {
			p.plainPanic("assignment to entry in nil map")
		}
		if p.raceOn && fr.info.repo && len(p.gs) > 1 {
			p.raceCheck(&m.race, true, fr.where, "map")
		}
		p.mapSet(m, fr.get(&ci.ops[1]), fr.get(&ci.ops[2]))
	case *ssa.Range:
		switch y := fr.get(&ci.ops[0]).(type) {
		case *Map:
			it := &mapIter{m: y}
			if y != nil {
				if p.raceOn && fr.info.repo && len(p.gs) > 1 {
					p.raceCheck(&y.race, false, fr.where, "map")
				}
				for _, e := range y.ents {
					if !e.dead {
						it.ents = append(it.ents, e)
					}
				}
				if fr.info.repo {
					p.orderMap(it)
				}
			}
			fr.regs[ci.dst] = it
		case Str:
			fr.regs[ci.dst] = &strIter{s: y}
		default:
			panic(unsupported(fmt.Sprintf("range over %T", y)))
		}
	case *ssa.Next:
		switch it := fr.get(&ci.ops[0]).(type) {
		case *mapIter:
			tt := in.Type().(*types.Tuple)
			if it.m != nil && p.raceOn && fr.info.repo && len(p.gs) > 1 {
				p.raceCheck(&it.m.race, false, fr.where, "map")
			}
			for it.i < len(it.ents) && it.ents[it.i].dead {
				it.i++
			}
			if it.i >= len(it.ents) {
				var k, v Value
				if tt.At(1).Type() != types.Typ[types.Invalid] {
					k = p.w.zero(tt.At(1).Type())
				}
				if tt.At(2).Type() != types.Typ[types.Invalid] {
					v = p.w.zero(tt.At(2).Type())
				}
				fr.regs[ci.dst] = Tuple{c.tFalse, k, v}
			} else {
				e := it.ents[it.i]
				it.i++
				fr.regs[ci.dst] = Tuple{c.tTrue, copyVal(e.key), copyVal(e.val)}
			}
		case *strIter:
			fr.regs[ci.dst] = p.strNext(it)
		}
	case *ssa.TypeAssert:
		fr.regs[ci.dst] = p.typeAssert(in, fr.get(&ci.ops[0]))
	case *ssa.Extract:
		switch t := fr.get(&ci.ops[0]).(type) {
		case Tuple:
			fr.regs[ci.dst] = t[in.Index]
		case Poison:
			fr.regs[ci.dst] = t
		default:
			panic(unsupported(fmt.Sprintf("extract of %T", t)))
		}
	case *ssa.RunDefers:
		p.runDefers(fr)
	case *ssa.Panic:
		v, _ := fr.get(&ci.ops[0]).(Iface)
		p.throwPanic(v)
	case *ssa.Go:
		fn, args := p.prepCall(fr, ci, &in.Call)
		p.goCall(fr, fn, args, &in.Call)
	case *ssa.Defer:
		fn, args := p.prepCall(fr, ci, &in.Call)
		fr.defers = append(fr.defers, deferred{fn, args, in})
	case *ssa.Send:
		ch, _ := fr.get(&ci.ops[0]).(*Chan)
		p.chanSend(ch, copyVal(fr.get(&ci.ops[1])))
	case *ssa.Store:
		p.store(fr, fr.get(&ci.ops[0]), fr.get(&ci.ops[1]))
	case *ssa.Select:
		p.execSelect(fr, ci, in)
	case *ssa.MultiConvert:
		panic(unsupported("generic conversion"))
	default:
		panic(unsupported(fmt.Sprintf("instruction %T", in)))
	}
}

func (p *Path) goCall(fr *frame, fn *Closure, args []Value, cc *ssa.CallCommon) {
	p.spawn(fr, func() {
		if fn != nil && fn.bi != nil {
			p.callBuiltin(nil, fn.bi, args, cc)
			return
		}
		p.callClosure(nil, fn, args)
	})
}

func (p *Path) execSelect(fr *frame, ci *cinstr, in *ssa.Select) {
	c := p.w.ctx
	cases := make([]selCase, len(in.States))
	// operands: for each state Chan, and Send if non-nil
	k := 0
	for i, st := range in.States {
		ch, _ := fr.get(&ci.ops[k]).(*Chan)
		k++
		cases[i] = selCase{ch: ch, send: st.Dir == types.SendOnly}
		if st.Dir == types.SendOnly {
			cases[i].val = copyVal(fr.get(&ci.ops[k]))
		}
		k++
	}
	i, v, ok := p.doSelect(cases, in.Blocking)
	res := Tuple{c.Int(int64(i)), c.Bool(ok)}
	for j, st := range in.States {
		if st.Dir == types.RecvOnly {
			if j == i {
				res = append(res, v)
			} else {
				res = append(res, p.w.zero(st.Chan.Type().Underlying().(*types.Chan).Elem()))
			}
		}
	}
	fr.regs[ci.dst] = res
}

func (p *Path) prepCall(fr *frame, ci *cinstr, cc *ssa.CallCommon) (*Closure, []Value) {
	args := make([]Value, 0, len(ci.ops))
	if cc.IsInvoke() {
		rv := fr.get(&ci.ops[0])
		x, ok := rv.(Iface)
		if !ok {
			if po, is := rv.(Poison); is {
				panic(unsupported("uninitialised library state: " + po.why))
			}
			panic(unsupported("invoke on non-interface"))
		}
		if x.t == nil {
			p.nilPanic()
		}
		fn := p.methodOf(x.t, cc.Method)
		args = append(args, x.v)
		for k := 1; k <= len(cc.Args); k++ {
			args = append(args, fr.get(&ci.ops[k]))
		}
		return p.w.closureOf(fn), args
	}
	fv := fr.get(&ci.ops[0])
	fn, ok := fv.(*Closure)
	if !ok {
		if po, is := fv.(Poison); is {
			panic(unsupported("uninitialised library state: " + po.why))
		}
		panic(unsupported(fmt.Sprintf("call of %T", fv)))
	}
	for k := 1; k <= len(cc.Args); k++ {
		args = append(args, fr.get(&ci.ops[k]))
	}
	return fn, args
}

func (p *Path) methodOf(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m.Id()}
	if fn, ok := p.w.methCache[k]; ok {
		return fn
	}
	p.w.eng.mu.Lock()
	fn := p.w.eng.prog.LookupMethod(t, m.Pkg(), m.Name())
	p.w.eng.mu.Unlock()
	if fn == nil {
		panic(unsupported("no method " + m.Name() + " on " + t.String()))
	}
	p.w.methCache[k] = fn
	return fn
}

// findMethod looks up an exported method by name; nil if absent.
func (p *Path) findMethod(t types.Type, name string) *ssa.Function {
	k := methKey{t, "?" + name}
	if fn, ok := p.w.methCache[k]; ok {
		return fn
	}
	p.w.eng.mu.Lock()
	defer p.w.eng.mu.Unlock()
	var fn *ssa.Function
	if types.IsInterface(t) {
		return nil
	}
	if sel := p.w.eng.prog.MethodSets.MethodSet(t).Lookup(nil, name); sel != nil {
		fn = p.w.eng.prog.MethodValue(sel)
	}
	p.w.methCache[k] = fn
	return fn
}

func (p *Path) call(fr *frame, ci *cinstr, cc *ssa.CallCommon) Value {
	fn, args := p.prepCall(fr, ci, cc)
	if fn != nil && fn.bi != nil {
		return p.callBuiltin(fr, fn.bi, args, cc)
	}
	return p.callClosure(fr, fn, args)
}

func (p *Path) typeAssert(in *ssa.TypeAssert, v Value) Value {
	c := p.w.ctx
	x, okI := v.(Iface)
	if !okI {
		if po, is := v.(Poison); is {
			panic(unsupported("uninitialised library state: " + po.why))
		}
		panic(unsupported("type assertion on non-interface"))
	}
	ok := false
	var res Value
	if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		if x.t != nil && p.w.implements(x.t, it) {
			ok = true
			res = x
		} else {
			res = Iface{}
		}
	} else {
		if x.t != nil && types.Identical(x.t, in.AssertedType) {
			ok = true
			res = x.v
		} else if in.CommaOk {
			res = p.w.zero(in.AssertedType)
		}
	}
	if in.CommaOk {
		return Tuple{res, c.Bool(ok)}
	}
	if !ok {
		what := "nil"
		if x.t != nil {
			what = x.t.String()
		}
		p.plainPanic("interface conversion: interface is " + what + ", not " + in.AssertedType.String())
	}
	return res
}

func (w *Worker) implements(t types.Type, it *types.Interface) bool {
	k := implKey{t, it}
	if r, ok := w.implCache[k]; ok {
		return r
	}
	w.eng.mu.Lock()
	r := types.Implements(t, it)
	w.eng.mu.Unlock()
	w.implCache[k] = r
	return r
}

// ---------------------------------------------------------------- slices

func (p *Path) makeSlice(elem types.Type, n, cp *Term, sn, sc bool) Value {
	c := p.w.ctx
	ext := func(t *Term, s bool) *Term {
		if t.w == 64 {
			return t
		}
		if s {
			return c.SExt(t, 64)
		}
		return c.ZExt(t, 64)
	}
	n, cp = ext(n, sn), ext(cp, sc)
	es := uint64(p.w.sizeof(elem))
	if es == 0 {
		es = 1
	}
	maxN := c.constant(64, (1<<47)/es)
	if p.branch(c.Not(c.Ule(n, maxN))) {
		p.runtimePanic("makeslice: len out of range")
	}
	if cp != n {
		if p.branch(c.Not(c.And(c.Ule(cp, maxN), c.Ule(n, cp)))) {
			p.runtimePanic("makeslice: cap out of range")
		}
	}
	lim := uint64(1 << 22)
	if cp.op != OConst {
		if p.branch(c.Ult(c.constant(64, p.w.eng.allocCut), cp)) {
			p.abort("cut", fmt.Sprintf("allocation of more than %d elements of attacker-chosen size", p.w.eng.allocCut))
		}
	}
	cv := p.concretise(cp)
	nv := p.concretise(n)
	if cv > lim*4 {
		p.abort("cut", fmt.Sprintf("allocation of %d elements", cv))
	}
	a := make([]Value, cv)
	p.fillZero(a, elem)
	return Slice{a[:nv:cv]}
}

func (p *Path) fillZero(a []Value, elem types.Type) {
	if len(a) == 0 {
		return
	}
	if isAgg(elem) {
		for i := range a {
			a[i] = p.w.zero(elem)
		}
		return
	}
	z := p.w.zero(elem)
	for i := range a {
		a[i] = z
	}
}

func (p *Path) doSlice(fr *frame, ci *cinstr, in *ssa.Slice) {
	x := fr.get(&ci.ops[0])
	c := p.w.ctx
	var ln, cp int
	var cells []Value
	var str Str
	isStr := false
	isNil := false
	switch y := x.(type) {
	case Slice:
		cells = y.a
		ln, cp = len(y.a), cap(y.a)
		isNil = y.a == nil
	case Str:
		str, isStr = y, true
		ln = y.Len()
		cp = ln
	case *Value:
		if y == nil {
			p.nilPanic()
		}
		cells = []Value((*y).(Array))
		ln, cp = len(cells), len(cells)
	default:
		panic(unsupported(fmt.Sprintf("slice of %T", x)))
	}
	// operand order: X, Low, High, Max (nil ones included by Operands)
	term := func(k int, v ssa.Value, def int) *Term {
		if v == nil {
			return c.Int(int64(def))
		}
		t := fr.get(&ci.ops[k]).(*Term)
		if t.w == 64 {
			return t
		}
		if isSigned(v.Type()) {
			return c.SExt(t, 64)
		}
		return c.ZExt(t, 64)
	}
	mx := term(3, in.Max, cp)
	hi := term(2, in.High, ln)
	lo := term(1, in.Low, 0)
	okc := c.And(c.Ule(mx, c.Int(int64(cp))), c.And(c.Ule(hi, mx), c.Ule(lo, hi)))
	if !p.branch(okc) {
		p.runtimePanic(fmt.Sprintf("slice bounds out of range [%s:%s] with capacity %d", p.tstr(lo), p.tstr(hi), cp))
	}
	h := int(p.concretise(hi))
	l := int(p.concretise(lo))
	if isStr {
		if str.sym != nil {
			fr.regs[ci.dst] = mkStr(str.sym[l:h])
		} else {
			fr.regs[ci.dst] = Str{s: str.s[l:h]}
		}
		return
	}
	m := int(p.concretise(mx))
	if isNil {
		fr.regs[ci.dst] = Slice{}
		return
	}
	if cells == nil {
		cells = []Value{}
	}
	fr.regs[ci.dst] = Slice{cells[l:h:m]}
}

func (p *Path) tstr(t *Term) string {
	if t.op == OConst {
		return fmt.Sprint(int64(t.val))
	}
	return "symbolic"
}

func (p *Path) strIndex(fr *frame, s Str, idx *Term, signed bool) Value {
	k, sym := p.index(fr, idx, signed, s.Len())
	if sym == nil {
		if s.sym != nil {
			return s.sym[k]
		}
		return p.w.ctx.constant(8, uint64(s.s[k]))
	}
	if s.Len() <= 1024 {
		b := p.w.strBytes(s)
		v := make([]Value, len(b))
		for i := range b {
			v[i] = b[i]
		}
		return p.symLoad(v, sym)
	}
	k = int(p.concretise(sym))
	if s.sym != nil {
		return s.sym[k]
	}
	return p.w.ctx.constant(8, uint64(s.s[k]))
}

func (p *Path) strNext(it *strIter) Value {
	c := p.w.ctx
	n := it.s.Len()
	if it.i >= n {
		return Tuple{c.tFalse, c.Int(0), c.constant(32, 0)}
	}
	start := it.i
	if it.s.sym == nil {
		r, sz := utf8.DecodeRuneInString(it.s.s[it.i:])
		it.i += sz
		return Tuple{c.tTrue, c.Int(int64(start)), c.constant(32, uint64(uint32(r)))}
	}
	b := it.s.sym[it.i]
	if p.branch(c.Ult(b, c.constant(8, 0x80))) {
		it.i++
		return Tuple{c.tTrue, c.Int(int64(start)), c.ZExt(b, 32)}
	}
	var buf []byte
	for k := it.i; k < n && k < it.i+4; k++ {
		buf = append(buf, byte(p.concretise(it.s.sym[k])))
		if utf8.FullRune(buf) {
			break
		}
	}
	r, sz := utf8.DecodeRune(buf)
	it.i += sz
	return Tuple{c.tTrue, c.Int(int64(start)), c.constant(32, uint64(uint32(r)))}
}

// ---------------------------------------------------------------- maps

func (p *Path) mapFind(m *Map, key Value) *mapEnt {
	if m == nil {
		return nil
	}
	var sb strings.Builder
	if keyString(key, &sb) {
		if e, ok := m.idx[sb.String()]; ok {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
	}
	if i, ok := key.(Iface); ok && i.t != nil && !types.Comparable(i.t) {
		p.runtimePanic("hash of unhashable type " + i.t.String())
	}
	for _, e := range m.ents {
		if e.dead {
			continue
		}
		if p.branch(p.equals(e.key, key)) {
			return e
		}
	}
	return nil
}

func (p *Path) mapSet(m *Map, key, val Value) {
	if e := p.mapFind(m, key); e != nil {
		e.val = copyVal(val)
		return
	}
	e := &mapEnt{key: copyVal(key), val: copyVal(val)}
	var sb strings.Builder
	if keyString(key, &sb) {
		m.idx[sb.String()] = e
	} else {
		m.nsym++
	}
	m.ents = append(m.ents, e)
	m.n++
}

func (p *Path) mapDelete(m *Map, key Value) {
	e := p.mapFind(m, key)
	if e == nil {
		return
	}
	p.mapRemove(m, e)
}

func (p *Path) mapRemove(m *Map, e *mapEnt) {
	e.dead = true
	m.n--
	var sb strings.Builder
	if keyString(e.key, &sb) {
		delete(m.idx, sb.String())
	} else {
		m.nsym--
	}
	for i, x := range m.ents {
		if x == e {
			m.ents = append(append([]*mapEnt(nil), m.ents[:i]...), m.ents[i+1:]...)
			break
		}
	}
}

// orderMap models Go's unspecified iteration order when the harness asks for it.
func (p *Path) orderMap(it *mapIter) {
	if !p.mapOrder || len(it.ents) < 2 {
		return
	}
	for i := 0; i < len(it.ents)-1; i++ {
		k := p.chooseSched(len(it.ents) - i)
		it.ents[i], it.ents[i+k] = it.ents[i+k], it.ents[i]
	}
}

// ---------------------------------------------------------------- operators

func (p *Path) binop(op token.Token, tx, ty types.Type, x, y Value) Value {
	c := p.w.ctx
	switch op {
	case token.EQL:
		return p.equals(x, y)
	case token.NEQ:
		return c.Not(p.equals(x, y))
	}
	switch a := x.(type) {
	case *Term:
		b := y.(*Term)
		sg := isSigned(tx)
		switch op {
		case token.ADD:
			return c.Add(a, b)
		case token.SUB:
			return c.Sub(a, b)
		case token.MUL:
			return c.Mul(a, b)
		case token.QUO, token.REM:
			if p.branch(c.Eq(b, c.constant(b.w, 0))) {
				p.runtimePanic("integer divide by zero")
			}
			switch {
			case op == token.QUO && sg:
				return c.SDiv(a, b)
			case op == token.QUO:
				return c.UDiv(a, b)
			case sg:
				return c.SRem(a, b)
			}
			return c.URem(a, b)
		case token.AND:
			if a.w == 0 {
				return c.And(a, b)
			}
			return c.BvAnd(a, b)
		case token.OR:
			if a.w == 0 {
				return c.Or(a, b)
			}
			return c.BvOr(a, b)
		case token.XOR:
			return c.BvXor(a, b)
		case token.AND_NOT:
			return c.BvAnd(a, c.BvNot(b))
		case token.SHL, token.SHR:
			if isSigned(ty) {
				if p.branch(c.Slt(b, c.constant(b.w, 0))) {
					p.runtimePanic("negative shift amount")
				}
			}
			n := b
			if b.w < a.w {
				n = c.ZExt(b, a.w)
			} else if b.w > a.w {
				big := c.Ule(c.constant(b.w, uint64(a.w)), b)
				n = c.Ite(big, c.constant(a.w, uint64(a.w)), c.Extract(b, a.w-1, 0))
			}
			if op == token.SHL {
				return c.Shl(a, n)
			}
			if sg {
				return c.Ashr(a, n)
			}
			return c.Lshr(a, n)
		case token.LSS:
			if sg {
				return c.Slt(a, b)
			}
			return c.Ult(a, b)
		case token.LEQ:
			if sg {
				return c.Sle(a, b)
			}
			return c.Ule(a, b)
		case token.GTR:
			if sg {
				return c.Slt(b, a)
			}
			return c.Ult(b, a)
		case token.GEQ:
			if sg {
				return c.Sle(b, a)
			}
			return c.Ule(b, a)
		case token.LAND:
			return c.And(a, b)
		case token.LOR:
			return c.Or(a, b)
		}
	case Str:
		b := y.(Str)
		switch op {
		case token.ADD:
			return p.strCat(a, b)
		case token.LSS:
			return p.strLess(a, b)
		case token.GTR:
			return p.strLess(b, a)
		case token.LEQ:
			return c.Not(p.strLess(b, a))
		case token.GEQ:
			return c.Not(p.strLess(a, b))
		}
	case Float:
		return p.floatOp(op, a, y.(Float))
	}
	panic(unsupported(fmt.Sprintf("operator %s on %T", op, x)))
}

func (p *Path) strCat(a, b Str) Str {
	if a.sym == nil && b.sym == nil {
		return Str{s: a.s + b.s}
	}
	if a.Len() == 0 {
		return b
	}
	if b.Len() == 0 {
		return a
	}
	x, y := p.w.strBytes(a), p.w.strBytes(b)
	return Str{sym: append(append(make([]*Term, 0, len(x)+len(y)), x...), y...)}
}

// floats: concrete, or a symbolic non-negative rational num/den of 64-bit integers (exact while it
// stays below 2^53), which is enough for the ratios computed in this code base.
func (p *Path) floatOp(op token.Token, a, b Float) Value {
	c := p.w.ctx
	if !a.sym && !b.sym {
		x, y := a.f, b.f
		r := Float{w: a.w}
		switch op {
		case token.ADD:
			r.f = x + y
		case token.SUB:
			r.f = x - y
		case token.MUL:
			r.f = x * y
		case token.QUO:
			r.f = x / y
		case token.LSS:
			return c.Bool(x < y)
		case token.LEQ:
			return c.Bool(x <= y)
		case token.GTR:
			return c.Bool(x > y)
		case token.GEQ:
			return c.Bool(x >= y)
		default:
			panic(unsupported("float operator " + op.String()))
		}
		if a.w == 32 {
			r.f = float64(float32(r.f))
		}
		return r
	}
	// concretise the integers the symbolic float came from
	return p.floatOp(op, p.concFloat(a), p.concFloat(b))
}

func (p *Path) concFloat(f Float) Float {
	if !f.sym {
		return f
	}
	if f.num == nil {
		panic(unsupported("unknown float"))
	}
	v := p.concretise(f.num)
	r := Float{w: f.w}
	if f.signed {
		r.f = float64(sx(v, f.num.w))
	} else {
		r.f = float64(v)
	}
	if f.w == 32 {
		r.f = float64(float32(r.f))
	}
	return r
}

func (p *Path) convert(from, to types.Type, v Value) Value {
	c := p.w.ctx
	uf, ut := from.Underlying(), to.Underlying()
	if tw, ok := intWidth(ut); ok {
		switch x := v.(type) {
		case *Term:
			switch {
			case tw == x.w:
				return x
			case tw < x.w:
				return c.Extract(x, tw-1, 0)
			case isSigned(from):
				return c.SExt(x, tw)
			default:
				return c.ZExt(x, tw)
			}
		case Float:
			x = p.concFloat(x)
			if isSigned(to) {
				return c.constant(tw, uint64(int64(x.f)))
			}
			return c.constant(tw, uint64(x.f))
		case UnsafePtr, *Value:
			return c.constant(64, 0xdead0000)
		}
	}
	if b, ok := ut.(*types.Basic); ok {
		switch {
		case b.Kind() == types.Float64 || b.Kind() == types.Float32:
			wd := uint8(64)
			if b.Kind() == types.Float32 {
				wd = 32
			}
			switch x := v.(type) {
			case Float:
				x.w = wd
				if !x.sym && wd == 32 {
					x.f = float64(float32(x.f))
				}
				return x
			case *Term:
				if x.op == OConst {
					f := Float{w: wd}
					if isSigned(from) {
						f.f = float64(sx(x.val, x.w))
					} else {
						f.f = float64(x.val)
					}
					if wd == 32 {
						f.f = float64(float32(f.f))
					}
					return f
				}
				return Float{w: wd, sym: true, num: x, signed: isSigned(from)}
			}
		case b.Info()&types.IsString != 0:
			switch x := v.(type) {
			case Str:
				return x
			case Slice:
				if sl, ok := uf.(*types.Slice); ok {
					if bw, _ := intWidth(sl.Elem()); bw == 32 {
						var sb strings.Builder
						for _, e := range x.a {
							sb.WriteRune(rune(int32(p.concretise(e.(*Term)))))
						}
						return Str{s: sb.String()}
					}
				}
				return p.w.bytesToStr(x.a)
			case *Term:
				if x.op != OConst && p.branch(c.Ult(x, c.constant(x.w, 0x80))) {
					return mkStr([]*Term{c.Extract(x, 7, 0)})
				}
				val := p.concretise(x)
				if val > utf8.MaxRune {
					return Str{s: "\uFFFD"}
				}
				return Str{s: string(rune(val))}
			}
		case b.Kind() == types.UnsafePointer:
			if u, ok := v.(UnsafePtr); ok {
				return u
			}
			return UnsafePtr{v: v}
		}
	}
	if sl, ok := ut.(*types.Slice); ok {
		switch x := v.(type) {
		case Str:
			bw, _ := intWidth(sl.Elem())
			if bw == 8 {
				s := p.w.strToSlice(x)
				if s.a == nil {
					s.a = []Value{}
				}
				return s
			}
			it := &strIter{s: x}
			a := []Value{}
			for {
				t := p.strNext(it).(Tuple)
				if t[0].(*Term).IsFalse() {
					break
				}
				a = append(a, t[2])
			}
			return Slice{a}
		case Slice:
			return x
		}
	}
	if _, ok := ut.(*types.Pointer); ok {
		if u, ok := v.(UnsafePtr); ok {
			if u.v == nil {
				return (*Value)(nil)
			}
			return u.v
		}
	}
	panic(unsupported(fmt.Sprintf("conversion %s -> %s", from, to)))
}

func allConst(cells []Value) bool {
	for _, v := range cells {
		if t, ok := v.(*Term); !ok || t.op != OConst {
			return false
		}
	}
	return len(cells) > 0
}

// tableLoad reads a table of constants at a symbolic index.
func (p *Path) tableLoad(cells []Value, idx *Term) Value {
	c := p.w.ctx
	budget := 300
	memo := map[*Term]*Term{}
	var leaf func(t *Term, zeros uint8) *Term
	leaf = func(t *Term, zeros uint8) *Term {
		if budget--; budget < 0 {
			return nil
		}
		if r, ok := memo[t]; ok {
			return r
		}
		var r *Term
		switch {
		case t.op == OConst:
			if t.val >= uint64(len(cells)) {
				r = cells[len(cells)-1].(*Term) // excluded by the bounds check
			} else {
				r = cells[t.val].(*Term)
			}
		case t.op == OIte:
			a := leaf(t.args[1], zeros)
			if a == nil {
				return nil
			}
			b := leaf(t.args[2], zeros)
			if b == nil {
				return nil
			}
			r = c.Ite(t.args[0], a, b)
		case t.op == OConcat && len(t.args) == 2 && t.args[0].op == OConst && t.args[0].val == 0:
			r = leaf(t.args[1], 0)
		}
		memo[t] = r
		return r
	}
	if r := leaf(idx, 0); r != nil {
		return r
	}
	var build func(lo, hi int) *Term
	build = func(lo, hi int) *Term {
		first := cells[lo].(*Term)
		same := true
		cut := -1
		mid := (lo + hi) / 2
		for i := lo + 1; i < hi; i++ {
			if cells[i].(*Term) != first && cells[i].(*Term).val != first.val {
				same = false
			}
			if cells[i].(*Term).val != cells[i-1].(*Term).val {
				d, e := i-mid, cut-mid
				if d < 0 {
					d = -d
				}
				if e < 0 {
					e = -e
				}
				if cut < 0 || d < e {
					cut = i
				}
			}
		}
		if same {
			return first
		}
		return c.Ite(c.Ult(idx, c.constant(idx.w, uint64(cut))), build(lo, cut), build(cut, hi))
	}
	return build(0, len(cells))
}
